package main

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	N "github.com/nlpodyssey/gotokenizers/normalizedstring"
	PT "github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	SP "github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
)

// Cases with words, vocabularies and files beyond 65,536 entries. Words are
// built from units separated by a character that takes part in no merge, so
// that the definition can be applied to each unit on its own.

type hugeWord struct {
	text string
	toks []refTok
}

// hugeBPE draws a model with a separator character and a word of many units.
func (c *Ctx) hugeBPE(unknowns bool) (*refBPE, hugeWord) {
	b := c.genBPE(false, false)
	if _, has := b.ids["|"]; has {
		c.Skip()
	}
	b.ext, b.late = nil, 0
	if unknowns {
		b.unk, b.fuse = "<unk>", c.Bool()
		b.add(b.unk)
	}
	sep := b.add("|")
	for k := range b.merges {
		if k[0] == sep || k[1] == sep {
			c.Skip() // a wild merge produced the separator
		}
	}
	for _, v := range b.merges {
		if v.id == sep {
			c.Skip()
		}
	}
	if c.One(3) {
		b.ext = c.extIDs(len(b.terms))
	}
	type unit struct {
		s  string
		ts []refTok
	}
	var units []unit
	for k := c.R(2, 20); k > 0; k-- {
		var s string
		if unknowns && c.One(3) {
			s = strings.Repeat(pick(c.Src, []string{"☃", "é世☃", "☂"}), c.R(1, 400))
			for _, r := range s {
				if _, ok := b.ids[string(r)]; ok {
					c.Skip()
				}
			}
		} else {
			s = c.word(b.alpha, 40, false)
			if len(s) > 300 {
				s = string([]rune(s)[:60])
			}
		}
		s += "|"
		ts, bad := b.tokenize(s)
		if bad {
			c.Skip()
		}
		units = append(units, unit{s, ts})
	}
	goal := c.R(65540, 70000)
	if c.One(4) {
		goal = c.R(32760, 33500)
	}
	var w hugeWord
	var sb strings.Builder
	n := 0
	for n < goal {
		u := pick(c.Src, units)
		for _, t := range u.ts {
			w.toks = append(w.toks, refTok{t.ID, t.V, t.S + sb.Len(), t.E + sb.Len()})
		}
		sb.WriteString(u.s)
		n += utf8.RuneCountInString(u.s)
	}
	w.text = sb.String()
	c.Hit("word beyond 32768 characters")
	if n > 65536 {
		c.Hit("word beyond 65536 characters")
	}
	c.NT()
	c.K(b.String())
	c.Ki(n)
	c.Log("%s\nword of %d characters, %d tokens", b, n, len(w.toks))
	return b, w
}

// cmpLong compares long token lists and names the first difference only.
func (c *Ctx) cmpLong(what string, got []models.Token, err error, want []refTok) {
	c.obs++
	if err != nil {
		c.Fail("%s: error %v", what, err)
	}
	for i := 0; i < len(got) && i < len(want); i++ {
		g, w := got[i], want[i]
		if g.ID != w.ID || g.Value != w.V || g.Offsets.Start != w.S || g.Offsets.End != w.E {
			c.Fail("%s: token %d is {%d %q %d %d}, expected %+v", what, i, g.ID, short(g.Value), g.Offsets.Start, g.Offsets.End, w)
		}
	}
	if len(got) != len(want) {
		c.Fail("%s: %d tokens, expected %d", what, len(got), len(want))
	}
}

// runRule merges l and r into out.
type runRule struct{ l, r, out, rank int }

// Symbols of long runs, and tables under which equal pairs overlap. No rule
// takes what a rule of the same or a higher rank makes, so that the definition
// comes to one pass from the left for each rank.
var runTerms = []string{"a", "b", "aa", "aaaa", "aaa", "ba", "ab"}
var runTables = [][]runRule{
	{{0, 0, 2, 0}},
	{{0, 0, 2, 0}, {2, 2, 3, 1}, {2, 0, 4, 2}},
	{{0, 0, 2, 5}, {1, 0, 5, 5}, {0, 1, 6, 5}, {2, 2, 3, 7}},
	{{0, 1, 6, -3}, {0, 0, 2, 1 << 40}, {2, 0, 4, 1<<40 + 1}},
}

// runSyms draws runs of the first two symbols, one of which lies across the
// 65,536th symbol.
func (c *Ctx) runSyms() (syms []int) {
	for len(syms) < 66000 {
		n := c.R(1, pick(c.Src, []int{3, 3000, 40000}))
		if len(syms) > 60000 || c.One(4) {
			n = 66500 - len(syms) + c.N(3000)
		}
		if n < 1 {
			n = 1
		}
		for ; n > 0; n-- {
			syms = append(syms, 0)
		}
		for n = c.N(4); n > 0; n-- {
			syms = append(syms, 1)
		}
	}
	c.Hit("word beyond 65536 characters")
	c.NT()
	c.Ki(len(syms))
	return syms
}

func mergeRuns(syms []wsym, rules []runRule) []wsym {
	done := map[int]bool{}
	for {
		rank, some := 0, false
		for _, x := range rules {
			if !done[x.rank] && (!some || x.rank < rank) {
				rank, some = x.rank, true
			}
		}
		if !some {
			return syms
		}
		done[rank] = true
		var out []wsym
		for i := 0; i < len(syms); i++ {
			x := syms[i]
			for _, q := range rules {
				if q.rank == rank && i+1 < len(syms) && q.l == x.id && q.r == syms[i+1].id {
					x = wsym{q.out, x.length + syms[i+1].length, x.gap}
					i++
					break
				}
			}
			out = append(out, x)
		}
		syms = out
	}
}

// runsC16: leftmost first within runs that reach across the 65,536th character.
func (c *Ctx) runsC16() {
	v := vocabulary.NewVocabulary()
	for _, t := range runTerms {
		v.AddTerm(t)
	}
	rules := pick(c.Src, runTables)
	mm := bpemodel.NewMergeMap()
	for _, q := range rules {
		mm.Set(q.l, q.r, bpemodel.MergeValue{Rank: q.rank, ID: q.out})
	}
	var in []wsym
	var sb strings.Builder
	for _, x := range c.runSyms() {
		in = append(in, wsym{x, 1, 0})
		sb.WriteString(runTerms[x])
	}
	var want []refTok
	at := 0
	for _, x := range mergeRuns(in, rules) {
		want = append(want, refTok{x.id, runTerms[x.id], at, at + x.length})
		at += x.length
	}
	c.Log("runs of %d characters, rules %v", len(in), rules)
	got, err := bpemodel.New(v, mm, 0, 0, "", "", "", false).Tokenize(sb.String())
	c.cmpLong("long runs", got, err, want)
}

// hugeC28: the same on a word of symbols.
func hugeC28(c *Ctx) {
	base := pick(c.Src, []int{0, 1000, 1 << 33, -100})
	rules := append([]runRule(nil), pick(c.Src, runTables)...)
	mm := bpemodel.NewMergeMap()
	for _, q := range rules {
		mm.Set(q.l+base, q.r+base, bpemodel.MergeValue{Rank: q.rank, ID: q.out + base})
	}
	w := bpemodel.NewWord()
	var in []wsym
	for _, x := range c.runSyms() {
		n := 1 + c.N(5)
		in = append(in, wsym{x, n, 0})
		w.Add(x+base, n)
	}
	c.Log("word of %d symbols, rules %v", len(in), rules)
	w.MergeAll(mm, 0)
	want := mergeRuns(in, rules)
	for i, x := range *w {
		c.obs++
		if i >= len(want) {
			break
		}
		y := want[i]
		next := i + 1
		if next == len(want) {
			next = -1
		}
		if x.ID != y.id+base || x.Length != y.length || x.Gap != 0 || x.Prev != i-1 || x.Next != next {
			c.Fail("symbol %d is %+v, expected %+v (ids from %d)", i, *x, y, base)
		}
	}
	if w.Len() != len(want) {
		c.Fail("%d symbols are left, expected %d", w.Len(), len(want))
	}
}

// hugePieces: a text in more than 65,536 pieces, some of which have tokens.
func (c *Ctx) hugePieces(encode bool) {
	n := c.R(65600, 70000)
	unit := pick(c.Src, []string{"a", "é", "世", "aé"})
	var sb strings.Builder
	var at []int
	for sb.Len() < 70000 || len(at) < n {
		for _, r := range unit {
			at = append(at, sb.Len())
			sb.WriteRune(r)
		}
	}
	n = len(at)
	at = append(at, sb.Len())
	s := sb.String()
	tokensEvery := c.R(2, 1000)
	c.Hit("pieces beyond 65536")
	c.Log("%d pieces", n)
	p := PT.FromString(s)
	list := func(ns *N.NormalizedString, i int) PT.Split {
		sp := PT.Split{NormalizedString: ns}
		if i%tokensEvery == 0 {
			sp.Tokens = &[]models.Token{{ID: i, Value: "t", Offsets: strutils.ByteOffsets{Start: 0, End: ns.Len()}}}
		}
		return sp
	}
	err := p.Split(func(i int, ns *N.NormalizedString) ([]PT.Split, error) {
		ps, err := ns.Split(SP.FromFunc(func(rune) bool { return true }), N.SplitDelimiterIsolated)
		out := make([]PT.Split, 0, len(ps))
		for k, x := range ps {
			out = append(out, list(x, k))
		}
		return out, err
	})
	if err != nil || len(p.Splits()) != n {
		c.Fail("splitting %d characters gives %d pieces and error %v", n, len(p.Splits()), err)
	}
	next := 0
	turn := func() int {
		if next%tokensEvery == 0 {
			next++
		}
		next++
		return next - 1
	}
	if err := p.Split(func(i int, ns *N.NormalizedString) ([]PT.Split, error) {
		c.obs++
		if want := turn(); i != want || ns.Get() != s[at[want]:at[want+1]] {
			c.Fail("Split calls the function with index %d and text %q, expected %d and %q", i, ns.Get(), want, s[at[want]:at[want+1]])
		}
		return []PT.Split{{NormalizedString: ns}}, nil
	}); err != nil {
		c.Fail("Split: %v", err)
	}
	next = 0
	if err := p.Tokenize(func(ns *N.NormalizedString) ([]models.Token, error) {
		i := turn()
		if got := ns.OriginalOffsets(); got.Start != at[i] || got.End != at[i+1] {
			c.Fail("Tokenize gives the function the piece at %v, expected %d to %d", got, at[i], at[i+1])
		}
		return []models.Token{{ID: i, Value: "t", Offsets: strutils.ByteOffsets{Start: 0, End: ns.Len()}}}, nil
	}); err != nil {
		c.Fail("Tokenize: %v", err)
	}
	os, ns := p.GetOriginalByteSplits(), p.GetNormalizedByteSplits()
	if len(os) != n || len(ns) != n {
		c.Fail("%d and %d pieces are reported, expected %d", len(os), len(ns), n)
	}
	for i := range os {
		c.obs++
		want := strutils.ByteOffsets{Start: at[i], End: at[i+1]}
		if os[i].Offsets != want || ns[i].Offsets != want || os[i].String != s[at[i]:at[i+1]] || ns[i].String != os[i].String || os[i].Tokens == nil || len(*os[i].Tokens) != 1 || (*os[i].Tokens)[0].ID != i {
			c.Fail("piece %d is reported as %+v and %+v, expected %v", i, os[i], ns[i], want)
		}
	}
	if !encode {
		return
	}
	word := pick(c.Src, []int{-1, -1, 0, 70000})
	e, err := p.IntoEncoding(word, 3)
	if err != nil || len(e.IDs) != n || len(e.Words) != n || len(e.Offsets) != n {
		c.Fail("an encoding of %d tokens holds %d (%d words), error %v", n, len(e.IDs), len(e.Words), err)
	}
	for i := range e.IDs {
		c.obs++
		w := word
		if w < 0 {
			w = i
		}
		if e.IDs[i] != i || e.Words[i] != w || e.Offsets[i] != (strutils.ByteOffsets{Start: at[i], End: at[i+1]}) || e.TypeIDs[i] != 3 {
			c.Fail("entry %d: id %d, word %d (expected %d), offsets %v, type %d", i, e.IDs[i], e.Words[i], w, e.Offsets[i], e.TypeIDs[i])
		}
	}
}

func hugeC16(c *Ctx) {
	if c.Bool() {
		c.runsC16()
		return
	}
	b, w := c.hugeBPE(false)
	m := b.model(c.N(2), 0)
	for k := 0; k < 2; k++ {
		got, err := m.Tokenize(w.text)
		c.cmpLong(fmt.Sprintf("word of %d bytes with %s", len(w.text), short(b.String())), got, err, w.toks)
	}
}

func hugeC17(c *Ctx) {
	b, w := c.hugeBPE(true)
	m := b.model(c.N(2), 0)
	got, err := m.Tokenize(w.text)
	c.cmpLong(fmt.Sprintf("word of %d bytes with %s", len(w.text), short(b.String())), got, err, w.toks)
	// one long run of unknown characters
	s := strings.Repeat("☃", c.R(65530, 66000))
	want, bad := b.tokenize(s)
	got, err = m.Tokenize(s)
	if !bad {
		c.cmpLong("run of unknown characters", got, err, want)
	}
}

func hugeC18(c *Ctx) {
	b, w := c.hugeBPE(c.Bool())
	got, err := b.model(2, pick(c.Src, []float64{0, 1e-13})).Tokenize(w.text)
	c.cmpLong("long word, no dropout", got, err, w.toks)
	syms, bad := b.initial(w.text)
	if !bad {
		got, err = b.model(2, 1).Tokenize(w.text)
		c.cmpLong("long word, dropout 1", got, err, b.toks(syms))
	}
}

func hugeC19(c *Ctx) {
	w := c.genWP()
	w.ext, w.late = nil, 0
	w.max = pick(c.Src, []int{1 << 20, 70000, 65536, 65535, 100, 2000})
	w.add(w.unk)
	// a word longer than the maximum by far
	if w.max < 65536 {
		s := strings.Repeat(c.word(w.alpha, 5, false)+"x", 70000/2)
		got, err := w.model().Tokenize(s)
		want, bad := w.tokenize(s)
		if bad {
			c.Fail("the unknown token is missing in the model")
		}
		c.cmpLong(fmt.Sprintf("word of %d characters, maximum %d", utf8.RuneCountInString(s), w.max), got, err, want)
		c.Hit("word beyond 65536 characters")
	}
	// the number of characters, counted in sixteen bits, would be allowed
	short := refWordPiece(c)
	known := strings.Repeat("a", 65536+c.R(0, short.max+2))
	short.add(known)
	ms := short.model()
	want, bad := short.tokenize(known)
	got, err := ms.Tokenize(known)
	if bad {
		c.Fail("the unknown token is missing in the model")
	}
	c.cmpLong(fmt.Sprintf("word of %d characters, maximum %d", len(known), short.max), got, err, want)
	// long entries and long words
	w.max = 1 << 20
	long := ""
	for utf8.RuneCountInString(long) < 300 {
		long += c.word(w.alpha, 20, false) + string(pick(c.Src, w.alpha))
	}
	w.add(long)
	w.add(w.prefix + long)
	for _, r := range w.alpha {
		w.add(string(r))
		w.add(w.prefix + string(r))
	}
	m := w.model()
	s := ""
	for k := c.R(1, 3); k > 0; k-- {
		s += long + c.word(w.alpha, 30, false)
	}
	want, bad = w.tokenize(s)
	got, err = m.Tokenize(s)
	if bad {
		c.Fail("the unknown token is missing in the model")
	}
	c.cmpLong(fmt.Sprintf("word of %d characters with %d terms", utf8.RuneCountInString(s), len(w.terms)), got, err, want)
	c.Hit("entry beyond 300 characters")
	c.K(w.String())
	c.NT()
}

func hugeC20(c *Ctx) {
	v := vocabulary.NewVocabulary()
	n := c.R(65530, 70000)
	term := func(i int) string { return fmt.Sprintf("t%d", i) }
	base := 0
	ids := make([]int, 0, n)
	if c.Bool() { // most of it from a file
		base = n - c.R(1, 200)
		m := make(map[string]int, base)
		shift := pick(c.Src, []int{0, 0, 1, 70000, 1 << 33, -5})
		for i := 0; i < base; i++ {
			m[term(i)] = i + shift
			ids = append(ids, i+shift)
		}
		data, _ := json.Marshal(m)
		f := scratchFile(data)
		var err error
		v, err = vocabulary.FromJSONFile(f)
		_ = os.Remove(f)
		if err != nil {
			c.Fail("loading %d terms: %v", base, err)
		}
	}
	used := map[int]bool{}
	for _, x := range ids {
		used[x] = true
	}
	for i := base; i < n; i++ {
		v.AddTerm(term(i))
		if i%3 == 0 {
			v.AddTerm(term(i)) // twice
		}
		id, ok := v.GetID(term(i))
		if !ok || used[id] || (!used[i] && id != i) {
			c.Fail("term %d added gets id %d (found %v)", i, id, ok)
		}
		used[id] = true
		ids = append(ids, id)
		c.obs++
	}
	if v.Size() != n {
		c.Fail("size %d after %d distinct terms", v.Size(), n)
	}
	for i := 0; i < n; i++ {
		c.obs++
		id, ok := v.GetID(term(i))
		s, ok2 := v.GetString(ids[i])
		if !ok || id != ids[i] || !ok2 || s != term(i) {
			c.Fail("term %q: id %d (found %v), expected %d; term of that id %q (found %v)", term(i), id, ok, ids[i], s, ok2)
		}
	}
	for i := n; i < n+50; i++ {
		if id, ok := v.GetID(term(i)); ok {
			c.Fail("absent term %q has id %d", term(i), id)
		}
	}
	c.Hit("terms beyond 65536")
	c.NT()
	c.Ki(n)
	c.Ki(base)
}

func hugeC21(c *Ctx) {
	// a merges file of more than 65,536 lines over a square vocabulary
	k := c.R(258, 270)
	v := vocabulary.NewVocabulary()
	ids := map[string]int{}
	add := func(t string) {
		if _, ok := ids[t]; !ok {
			ids[t] = len(ids)
			v.AddTerm(t)
		}
	}
	one := func(i int) string { return fmt.Sprintf("<%d>", i) }
	for i := 0; i < k; i++ {
		add(one(i))
	}
	var sb strings.Builder
	type pair struct{ l, r string }
	var ps []pair
	for i := 0; i < k; i++ {
		for j := 0; j < k; j++ {
			add(one(i) + one(j))
			ps = append(ps, pair{one(i), one(j)})
		}
	}
	if c.Bool() {
		for i := len(ps) - 1; i > 0; i-- {
			j := c.N(i + 1)
			ps[i], ps[j] = ps[j], ps[i]
		}
	}
	versions := 0
	for i, p := range ps {
		if i == 0 || i%20000 == 19999 {
			sb.WriteString("#version: 0.2\n")
			versions++
		}
		sb.WriteString(p.l + " " + p.r + "\n")
	}
	load := func(s string) (*bpemodel.MergeMap, error) {
		f := scratchFile([]byte(s))
		m, err := bpemodel.MergeMapFromFile(f, v, 0)
		_ = os.Remove(f)
		return m, err
	}
	m, err := load(sb.String())
	if err != nil {
		c.Fail("loading %d merges: %v", len(ps), err)
	}
	if len(*m) != len(ps) {
		c.Fail("%d merges loaded of %d", len(*m), len(ps))
	}
	for i, p := range ps {
		c.obs++
		g, ok := m.Get(ids[p.l], ids[p.r])
		if !ok || g.Rank != i || g.ID != ids[p.l+p.r] {
			c.Fail("merge %d of %q and %q is %+v (found %v), expected rank %d id %d", i, p.l, p.r, g, ok, i, ids[p.l+p.r])
		}
	}
	// a malformed line at the end
	bad := sb.String() + pick(c.Src, []string{"<1> absent", "absent <1>", "<1>", "<1> <2> <3>", ""}) + "\n"
	line := len(ps) + versions + 1
	m, err = load(bad)
	if err == nil || m != nil && len(*m) > 0 {
		c.Fail("a malformed line %d is not reported (error %v)", line, err)
	}
	if !strings.Contains(err.Error(), fmt.Sprint(line)) {
		c.Fail("the error %q does not name line %d", err, line)
	}
	c.Hit("lines beyond 65536")
	c.NT()
	c.Ki(k)
}

// refWordPiece is a small model.
func refWordPiece(c *Ctx) *refWP {
	w := &refWP{ids: map[string]int{}, unk: "u", prefix: "##", max: pick(c.Src, []int{1, 10, 100, 3000})}
	for _, t := range []string{"u", "a", "##a"} {
		w.add(t)
	}
	return w
}

// hugeMatches: patterns with more than 65,536 matches, all of them reported.
func (c *Ctx) hugeMatches() {
	n := c.R(65540, 68000)
	m := pick(c.Src, []string{"a", "é", "世"})
	gap := pick(c.Src, []string{",", "", "\u00a0x"})
	text := strings.Repeat(m+gap, n)
	c.Hit("matches beyond 65536")
	c.NT()
	c.Ki(n)
	re2 := regexp2.MustCompile(m, pick(c.Src, []regexp2.RegexOptions{0, regexp2.RightToLeft}))
	ru := []rune(m)[0]
	for i, p := range []SP.SplitPattern{SP.FromRune(ru), SP.FromFunc(func(r rune) bool { return r == ru }), SP.FromString(m), SP.FromRegexp(regexp.MustCompile(m)), SP.FromRegexp2(re2)} {
		flag := true
		if c.One(3) {
			p, flag = SP.Invert(p), false
		}
		c.Log("pattern %d for %q (as it is: %v) on %d times %q", i, m, flag, n, m+gap)
		got, err := p.FindMatches(text)
		if err != nil {
			c.Fail("FindMatches: %v", err)
		}
		at, k := 0, 0
		next := func(size int, match bool) {
			if size == 0 {
				return
			}
			c.obs++
			want := SP.Capture{Offsets: strutils.ByteOffsets{Start: at, End: at + size}, IsMatch: match}
			if k >= len(got) || got[k] != want {
				c.Fail("capture %d of %d is not %v", k, len(got), want)
			}
			at += size
			k++
		}
		for j := 0; j < n; j++ {
			next(len(m), flag)
			next(len(gap), !flag)
		}
		if k != len(got) {
			c.Fail("%d captures, expected %d", len(got), k)
		}
	}
}
