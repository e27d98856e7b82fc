package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const yieldFile = `package %s

import (
	verifRand "math/rand/v2"
	verifRuntime "runtime"
	verifTime "time"
)

func verifYield() {
	switch r := verifRand.Uint32(); {
	case r&31 == 0:
		verifRuntime.Gosched()
	case r&0x7fff == 1:
		verifTime.Sleep(verifTime.Microsecond)
	}
}
`

// instrument writes copies of the library's sources with a scheduling point in
// front of every statement, and the overlay file that makes the go command build
// them. It adds calls and changes nothing else.
func instrument(out string) error {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	repl := map[string]string{}
	pkgs := map[string]string{}
	n := 0
	err := filepath.Walk(repo, func(path string, st os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if st.IsDir() {
			if b := filepath.Base(path); path != repo && (strings.HasPrefix(b, ".") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			return nil
		}
		var at []int
		block := func(list []ast.Stmt) {
			for _, s := range list {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				default:
					at = append(at, fs.Position(s.Pos()).Offset)
				}
			}
		}
		ast.Inspect(f, func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.BlockStmt:
				block(x.List)
			case *ast.CaseClause:
				block(x.Body)
			case *ast.CommClause:
				block(x.Body)
			}
			return true
		})
		if len(at) == 0 {
			return nil
		}
		sort.Ints(at)
		var b strings.Builder
		p := 0
		for i, o := range at {
			if i > 0 && o == at[i-1] {
				continue
			}
			b.Write(src[p:o])
			b.WriteString("verifYield(); ")
			p = o
		}
		b.Write(src[p:])
		n++
		to := filepath.Join(out, fmt.Sprintf("f%d.go", n))
		if err := os.WriteFile(to, []byte(b.String()), 0o644); err != nil {
			return err
		}
		repl[path] = to
		pkgs[filepath.Dir(path)] = f.Name.Name
		return nil
	})
	if err != nil {
		return err
	}
	for dir, name := range pkgs {
		n++
		to := filepath.Join(out, fmt.Sprintf("f%d.go", n))
		if err := os.WriteFile(to, []byte(fmt.Sprintf(yieldFile, name)), 0o644); err != nil {
			return err
		}
		repl[filepath.Join(dir, "zz_verif_yield.go")] = to
	}
	b, err := json.Marshal(map[string]interface{}{"Replace": repl})
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644)
}
