package main

import (
	"fmt"
	"sort"

	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
)

func init() {
	register(&Prop{
		ID:    "C28",
		Rule:  "A case is a history of one or two words: symbols are appended (any ids, lengths, gaps), all merges of one of two tables applied (without dropout, with dropout 0, 1 or in between), merges added to a table, in any order and repeatedly; after every step all symbols of all words are compared with a list model. Or it is a sequence of pushes and pops on the queue of merges, or one pair of symbols merged. Non-trivial: merges were applied in two steps at least.",
		Need:  []string{"merged twice", "appended after a merge", "dropout 1", "dropout between", "merge table changed", "two words", "long word", "gap", "empty word", "down to one symbol", "negative id", "equal ranks"},
		Huge:  12,
		Quick: 900000, Thorough: 18000000,
		Case: caseC28,
	})
}

// wordParts are the monitors of the parts a word is made with (props_wordparts.go).
var wordParts []func(*Ctx)

// wsym is a symbol of the list model.
type wsym struct{ id, length, gap int }

// mergeWord applies the merges of a table by definition: the lowest rank first,
// the leftmost pair among equals, until none applies.
func mergeSyms(in []wsym, mm map[[2]int]refMerge) ([]wsym, int) {
	syms := append([]wsym(nil), in...)
	n := 0
	for {
		best := -1
		var bm refMerge
		for i := 0; i+1 < len(syms); i++ {
			if m, ok := mm[[2]int{syms[i].id, syms[i+1].id}]; ok && (best < 0 || m.rank < bm.rank) {
				best, bm = i, m
			}
		}
		if best < 0 {
			return syms, n
		}
		a, b := syms[best], syms[best+1]
		syms[best] = wsym{bm.id, a.length + b.gap + b.length, a.gap}
		syms = append(syms[:best+1], syms[best+2:]...)
		n++
	}
}

// cmpWord compares a word with the list model, links included.
func (c *Ctx) cmpWord(what string, w *bpemodel.Word, want []wsym) {
	c.obs++
	if w.Len() != len(want) || len(*w) != len(want) {
		c.Fail("%s: %d symbols, %d expected: %s instead of %v", what, w.Len(), len(want), fmtWord(w), want)
	}
	for i, s := range *w {
		prev, next := i-1, i+1
		if next == len(want) {
			next = -1
		}
		if s == nil || s.ID != want[i].id || s.Length != want[i].length || s.Gap != want[i].gap {
			c.Fail("%s: symbol %d of %s is not %+v", what, i, fmtWord(w), want[i])
		}
		if s.Prev != prev || s.Next != next {
			c.Fail("%s: symbol %d of %s has neighbours %d and %d", what, i, fmtWord(w), s.Prev, s.Next)
		}
		for j := 0; j < i && len(want) < 40; j++ {
			if (*w)[j] == s {
				c.Fail("%s: symbols %d and %d are one", what, j, i)
			}
		}
	}
}

func fmtWord(w *bpemodel.Word) string {
	s := ""
	for i, x := range *w {
		if i > 30 {
			return s + "..."
		}
		if x == nil {
			s += "nil "
			continue
		}
		s += fmt.Sprintf("%d(len %d gap %d <%d >%d) ", x.ID, x.Length, x.Gap, x.Prev, x.Next)
	}
	return "[" + s + "]"
}

func caseC28(c *Ctx) {
	if c.Huge {
		hugeC28(c)
		return
	}
	if k := c.N(12); k < len(wordParts) {
		wordParts[k](c)
		return
	}
	// ids: a few, adjacent, scattered or negative
	n := c.R(1, pick(c.Src, []int{2, 3, 6}))
	ids := make([]int, n)
	for i := range ids {
		switch c.N(4) {
		case 0:
			ids[i] = i
		case 1:
			ids[i] = c.N(1 << 20)
		case 2:
			ids[i] = -1 - c.N(5)
		default:
			ids[i] = 1<<31 + c.N(4)
		}
		if ids[i] < 0 {
			c.Hit("negative id")
		}
	}
	// mostly one of the first
	anID := func() int {
		if c.One(4) {
			return pick(c.Src, ids)
		}
		return ids[c.N(n)]
	}
	type table struct {
		lib *bpemodel.MergeMap
		ref map[[2]int]refMerge
		n   int
	}
	tables := make([]*table, c.R(1, 2))
	fresh := 100
	ranks := map[int]bool{}
	set := func(t *table) {
		l, r := anID(), anID()
		id := fresh
		switch c.N(4) {
		case 0:
			id = anID()
		default:
			fresh++
			ids = append(ids, id)
		}
		rank := t.n
		switch c.N(5) {
		case 0:
			rank = c.N(4)
		case 1:
			rank = -c.N(4)
		case 2:
			rank = pick(c.Src, []int{1<<63 - 1, -1 << 63, 1 << 32, 0})
		}
		if ranks[rank] {
			c.Hit("equal ranks")
		}
		ranks[rank] = true
		t.n++
		t.ref[[2]int{l, r}] = refMerge{rank, id}
		t.lib.Set(l, r, bpemodel.MergeValue{Rank: rank, ID: id})
		c.K(fmt.Sprint(l, r, rank, id))
	}
	for i := range tables {
		tables[i] = &table{bpemodel.NewMergeMap(), map[[2]int]refMerge{}, 0}
		for k := c.N(12); k > 0; k-- {
			set(tables[i])
		}
		keys := []string{}
		for k, v := range tables[i].ref {
			keys = append(keys, fmt.Sprintf("%v:%v", k, v))
		}
		sort.Strings(keys)
		c.Log("table %d: %v", i, keys)
	}
	type word struct {
		lib    *bpemodel.Word
		ref    []wsym
		merged int
	}
	words := make([]*word, c.R(1, 2))
	for i := range words {
		w := &word{}
		switch c.N(4) {
		case 0:
			w.lib = bpemodel.NewWordWithCapacity(c.N(20))
		case 1:
			w.lib = &bpemodel.Word{}
		case 2:
			w.lib = new(bpemodel.Word)
		default:
			w.lib = bpemodel.NewWord()
		}
		words[i] = w
	}
	if len(words) == 2 {
		c.Hit("two words")
	}
	plain := c.One(3)
	applied := 0
	for step := c.R(2, 10); step > 0; step-- {
		wi := c.N(len(words))
		w := words[wi]
		switch op := c.N(10); {
		case op < 4:
			k := c.Small(12, 60)
			if c.One(60) {
				k = c.R(60, 300)
			}
			if len(w.ref)+k > 400 {
				k = 0
			}
			if w.merged > 0 && k > 0 {
				c.Hit("appended after a merge")
			}
			for ; k > 0; k-- {
				s := wsym{id: anID(), length: 1}
				if !plain {
					s.length = pick(c.Src, []int{1, 2, 3, 4, c.R(1, 50)})
				}
				w.lib.Add(s.id, s.length)
				if !plain && c.One(5) {
					s.gap = c.R(1, 9)
					(*w.lib)[w.lib.Len()-1].Gap = s.gap
					c.Hit("gap")
				}
				w.ref = append(w.ref, s)
				c.Ki(s.id)
				c.Ki(s.length*100 + s.gap)
			}
			c.Log("word %d: %v", wi, w.ref)
			if len(w.ref) > 60 {
				c.Hit("long word")
			}
		case op < 9:
			ti := c.N(len(tables))
			t := tables[ti]
			if len(w.ref) == 0 {
				c.Hit("empty word")
			}
			d := 0.0
			switch c.N(6) {
			case 0:
				d = pick(c.Src, []float64{1, 1.5})
			case 1:
				d = pick(c.Src, []float64{0.1, 0.5, 0.9})
			case 2:
				d = -1
			}
			c.Ki(ti*10 + int(d*4))
			before := w.ref
			w.lib.MergeAll(t.lib, d)
			c.Log("word %d: table %d applied, dropout %v: %s", wi, ti, d, fmtWord(w.lib))
			k := 0
			switch {
			case d <= 0:
				w.ref, k = mergeSyms(w.ref, t.ref)
			case d >= 1:
				c.Hit("dropout 1")
			default:
				c.Hit("dropout between")
				w.ref, k = c.derivedWord(w.lib, w.ref, t.ref)
			}
			c.cmpWord(fmt.Sprintf("word %d, table %d applied with dropout %v to %v", wi, ti, d, before), w.lib, w.ref)
			if k > 0 {
				applied++
				w.merged++
				if w.merged > 1 {
					c.Hit("merged twice")
				}
				if len(w.ref) == 1 {
					c.Hit("down to one symbol")
				}
			}
		default:
			c.Hit("merge table changed")
			set(pick(c.Src, tables))
		}
		for i, x := range words {
			c.cmpWord(fmt.Sprintf("word %d", i), x.lib, x.ref)
		}
	}
	for i, t := range tables {
		if len(*t.lib) != len(t.ref) {
			c.Fail("table %d has %d entries, had %d", i, len(*t.lib), len(t.ref))
		}
		for k, v := range t.ref {
			if g, ok := t.lib.Get(k[0], k[1]); !ok || g.Rank != v.rank || g.ID != v.id {
				c.Fail("table %d: merge %v is %v (ok=%v), was %v", i, k, g, ok, v)
			}
		}
	}
	if applied > 1 {
		c.NT()
	}
}

// derivedWord checks that a word was made from the given symbols by merges of the
// table, some of which may have been skipped, and returns it.
func (c *Ctx) derivedWord(w *bpemodel.Word, syms []wsym, mm map[[2]int]refMerge) ([]wsym, int) {
	ref := &refBPE{merges: mm}
	in := make([]sym, len(syms))
	for i, s := range syms {
		in[i] = sym{id: s.id}
	}
	var out []wsym
	k := 0
	memo := map[[2]int]map[int]bool{}
	for i, s := range *w {
		if s == nil {
			c.Fail("symbol %d is nil", i)
		}
		j, length := k, 0
		for j < len(syms) && length < s.Length {
			length += syms[j].length
			if j > k {
				length += syms[j].gap
			}
			j++
		}
		if j == k || length != s.Length || s.Gap != syms[k].gap {
			c.Fail("%s made from %v: symbol %d does not cover some of these", fmtWord(w), syms, i)
		}
		if j-k <= 40 && !ref.derivable(in, k, j, memo)[s.ID] {
			c.Fail("%s made from %v: symbol %d cannot be derived from those it covers", fmtWord(w), syms, i)
		}
		out = append(out, wsym{s.ID, s.Length, s.Gap})
		k = j
	}
	if k != len(syms) {
		c.Fail("%s made from %v: symbols are missing", fmtWord(w), syms)
	}
	return out, len(syms) - len(out)
}
