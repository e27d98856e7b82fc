package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Dictionary of literals mined from the source tree under test. It only
// diversifies the workload (lengths, characters, substrings); no oracle reads it.
// Literals absent from the committed baseline list are drawn more often.

type litSet struct {
	Ints    []int    `json:"ints"`
	Runes   []rune   `json:"runes"`
	Strings []string `json:"strings"`
}

//go:embed baseline_literals.json
var baselineJSON []byte

var (
	dictAll  litSet // all literals of the tree
	dictNew  litSet // those not in the baseline
	dictHash uint64
)

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func mineLiterals(dir string) litSet {
	ints := map[int]bool{}
	runes := map[rune]bool{}
	strs := map[string]bool{}
	fset := token.NewFileSet()
	_ = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			n := d.Name()
			if path != dir && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, perr := parser.ParseFile(fset, path, nil, 0)
		if f == nil || perr != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			b, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch b.Kind {
			case token.INT:
				if v, e := strconv.ParseInt(strings.ReplaceAll(b.Value, "_", ""), 0, 64); e == nil && v >= 2 && v <= 0x10ffff {
					ints[int(v)] = true
					if v >= 0x20 && utf8.ValidRune(rune(v)) {
						runes[rune(v)] = true
					}
				}
			case token.CHAR:
				if v, _, _, e := strconv.UnquoteChar(b.Value[1:len(b.Value)-1], '\''); e == nil && utf8.ValidRune(v) {
					runes[v] = true
				}
			case token.STRING:
				if v, e := strconv.Unquote(b.Value); e == nil && len(v) > 0 && len(v) <= 80 && utf8.ValidString(v) {
					strs[v] = true
					if n := utf8.RuneCountInString(v); n <= 3 {
						for _, r := range v {
							runes[r] = true
						}
					}
				}
			}
			return true
		})
		return nil
	})
	var l litSet
	for v := range ints {
		l.Ints = append(l.Ints, v)
	}
	for v := range runes {
		l.Runes = append(l.Runes, v)
	}
	for v := range strs {
		l.Strings = append(l.Strings, v)
	}
	sort.Ints(l.Ints)
	sort.Slice(l.Runes, func(i, j int) bool { return l.Runes[i] < l.Runes[j] })
	sort.Strings(l.Strings)
	return l
}

func loadDict() {
	dictAll = mineLiterals(repoDir())
	var base litSet
	_ = json.Unmarshal(baselineJSON, &base)
	bi, br, bs := map[int]bool{}, map[rune]bool{}, map[string]bool{}
	for _, v := range base.Ints {
		bi[v] = true
	}
	for _, v := range base.Runes {
		br[v] = true
	}
	for _, v := range base.Strings {
		bs[v] = true
	}
	for _, v := range dictAll.Ints {
		if !bi[v] {
			dictNew.Ints = append(dictNew.Ints, v)
		}
	}
	for _, v := range dictAll.Runes {
		if !br[v] {
			dictNew.Runes = append(dictNew.Runes, v)
		}
	}
	for _, v := range dictAll.Strings {
		if !bs[v] {
			dictNew.Strings = append(dictNew.Strings, v)
		}
	}
	dictHash = hashStr(fmt.Sprintf("%v", dictAll))
}

func dumpLiterals() {
	l := mineLiterals(repoDir())
	b, _ := json.Marshal(l)
	os.Stdout.Write(append(b, '\n'))
}

func hashStr(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
