package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
)

// ---------------------------------------------------------------- BPE

type refMerge struct{ rank, id int }

// refBPE is a model configuration together with its definition-level tokenizer.
type refBPE struct {
	terms  []string
	ids    map[string]int
	merges map[[2]int]refMerge
	unk    string
	prefix string
	suffix string
	fuse   bool
	alpha  []rune
	ext    []int // ids in the vocabulary, nil when they are the indices of terms
	late   int   // number of terms added to the vocabulary after the model is built
	free   bool  // some merges give a term other than the concatenation
	base   int   // number of terms that are not the result of a merge
	ghost  int   // number of terms, the last ones, that never join the vocabulary
}

// id is the id of a term (by index) as the library sees it.
func (b *refBPE) id(i int) int {
	if b.ext == nil {
		return i
	}
	return b.ext[i]
}

// index is the inverse of id.
func (b *refBPE) index(id int) int {
	if b.ext == nil {
		if id < 0 || id >= len(b.terms) {
			return -1
		}
		return id
	}
	for i, x := range b.ext {
		if x == id {
			return i
		}
	}
	return -1
}

// extIDs draws n distinct ids, some of them beyond 16 and 32 bits or negative.
func (c *Ctx) extIDs(n int) []int {
	seen := map[int]bool{}
	out := make([]int, 0, n)
	mode := c.N(4)
	for len(out) < n {
		var id int
		switch mode {
		case 0:
			id = c.N(3 * n)
		case 1:
			id = pick(c.Src, []int{0, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 40, -1 << 31, -1 << 40, 50256, 1 << 24, 1 << 53, -1 << 53, 1 << 62, -1 << 62}) + c.R(-n, n)
		case 2:
			id = c.R(-3*n, 3*n)
		default:
			id = 1<<16*c.N(4) + 1<<32*c.N(4) + c.N(n+1)
		}
		if c.fuzz {
			id = len(out)*65537 - 3
		}
		if !seen[id] {
			seen[id] = true
			out = append(out, id)
		}
	}
	return out
}

// vocabOf builds a vocabulary with given ids, by way of a file.
func vocabOf(terms []string, ext []int) *vocabulary.Vocabulary {
	m := map[string]int{}
	for i, t := range terms {
		m[t] = ext[i]
	}
	data, err := json.Marshal(m)
	if err != nil {
		panic(skipCase{})
	}
	f := scratchFile(data)
	v, err := vocabulary.FromJSONFile(f)
	_ = os.Remove(f)
	if err != nil {
		panic(failure{fmt.Sprintf("loading the vocabulary %s: %v", data, err)})
	}
	return v
}

func (b *refBPE) add(t string) int {
	if i, ok := b.ids[t]; ok {
		return i
	}
	b.ids[t] = len(b.terms)
	b.terms = append(b.terms, t)
	return len(b.terms) - 1
}

func (b *refBPE) vocab() *vocabulary.Vocabulary {
	if b.ext != nil {
		return vocabOf(b.terms, b.ext)
	}
	v := vocabulary.NewVocabulary()
	for _, t := range b.terms[:len(b.terms)-max(b.late, b.ghost)] {
		v.AddTerm(t)
	}
	return v
}

// isGhost tells whether a term is known to the merges only.
func (b *refBPE) isGhost(i int) bool { return i >= len(b.terms)-b.ghost }

func (b *refBPE) mergeMap() *bpemodel.MergeMap {
	m := bpemodel.NewMergeMap()
	keys := make([][2]int, 0, len(b.merges))
	for k := range b.merges {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i][0] < keys[j][0] || keys[i][0] == keys[j][0] && keys[i][1] < keys[j][1]
	})
	for _, k := range keys {
		v := b.merges[k]
		m.Set(b.id(k[0]), b.id(k[1]), bpemodel.MergeValue{Rank: v.rank, ID: b.id(v.id)})
	}
	return m
}

func (b *refBPE) model(cache int, dropout float64) *bpemodel.BPEModel {
	return b.modelOn(b.mergeMap(), cache, dropout)
}

// modelOn builds the model; the last terms join the vocabulary afterwards.
func (b *refBPE) modelOn(mm *bpemodel.MergeMap, cache int, dropout float64) *bpemodel.BPEModel {
	v := b.vocab()
	m := bpemodel.New(v, mm, cache, dropout, b.unk, b.prefix, b.suffix, b.fuse)
	if b.ext == nil && b.late > b.ghost {
		for _, t := range b.terms[len(b.terms)-b.late : len(b.terms)-b.ghost] {
			v.AddTerm(t)
		}
	}
	return m
}

// vary draws the ids, and how much of the vocabulary comes after the model.
func (b *refBPE) vary(c *Ctx) {
	switch c.N(24) {
	case 0:
		b.ext = c.extIDs(len(b.terms))
		c.Hit("sparse ids")
	case 1, 2, 3:
		b.late = c.N(len(b.terms) + 1)
		c.Hit("terms added after the model was built")
	}
}

func (b *refBPE) String() string {
	var ms []string
	for k, v := range b.merges {
		ms = append(ms, fmt.Sprintf("%020d: %d+%d->%d", v.rank, k[0], k[1], v.id))
	}
	sort.Strings(ms)
	return fmt.Sprintf("terms %q merges (rank: left+right->result) %v unk %q prefix %q suffix %q fuse %v ids %v added late %d never added %d", b.terms, ms, b.unk, b.prefix, b.suffix, b.fuse, b.ext, b.late, b.ghost)
}

type sym struct{ id, s, e int }

// initial gives the symbols before any merge.
func (b *refBPE) initial(w string) (out []sym, err bool) {
	unkID := 0
	if b.unk != "" {
		var ok bool
		if unkID, ok = b.ids[b.unk]; !ok {
			return nil, true
		}
	}
	fusing := false
	for i, r := range w {
		n := utf8.RuneLen(r)
		s := string(r)
		if i > 0 {
			s = b.prefix + s
		}
		if i+n == len(w) {
			s += b.suffix
		}
		id, ok := b.ids[s]
		switch {
		case ok:
			out = append(out, sym{id, i, i + n})
			fusing = false
		case b.unk == "":
		case b.fuse && fusing:
			out[len(out)-1].e = i + n
		default:
			out = append(out, sym{unkID, i, i + n})
			fusing = true
		}
	}
	return out, false
}

// tokenize applies the definition: merge the lowest rank, leftmost pair until
// none is left.
func (b *refBPE) tokenize(w string) ([]refTok, bool) {
	if w == "" {
		return nil, false
	}
	syms, err := b.initial(w)
	if err {
		return nil, true
	}
	for {
		best, br := -1, refMerge{}
		for i := 0; i+1 < len(syms); i++ {
			if m, ok := b.merges[[2]int{syms[i].id, syms[i+1].id}]; ok && (best < 0 || m.rank < br.rank) {
				best, br = i, m
			}
		}
		if best < 0 {
			break
		}
		syms[best] = sym{br.id, syms[best].s, syms[best+1].e}
		syms = append(syms[:best+1], syms[best+2:]...)
	}
	for _, x := range syms {
		if b.isGhost(x.id) {
			return nil, true
		}
	}
	return b.toks(syms), false
}

func (b *refBPE) toks(syms []sym) []refTok {
	out := make([]refTok, len(syms))
	for i, s := range syms {
		out[i] = refTok{b.id(s.id), b.terms[s.id], s.s, s.e}
	}
	return out
}

func (c *Ctx) alphabet(n int) []rune {
	pools := [][]rune{[]rune("abcdefgh"), []rune("abéß世界𝔾💣"), []rune("ab▁Ġ"), []rune("aé世𝔾"), []rune("lowerst")}
	p := pick(c.Src, pools)
	seen := map[rune]bool{}
	var out []rune
	for len(out) < n && len(out) < len(p) {
		r := p[c.N(len(p))]
		if c.One(12) {
			r = c.Rune()
		}
		if seen[r] || r == utf8.RuneError {
			if c.fuzz {
				break
			}
			continue
		}
		seen[r] = true
		out = append(out, r)
	}
	if len(out) == 0 {
		out = []rune{'a'}
	}
	return out
}

// genBPE draws a model. affixes allows prefix and suffix, unknowns allows
// characters missing from the vocabulary.
func (c *Ctx) genBPE(affixes, unknowns bool) *refBPE {
	b := &refBPE{ids: map[string]int{}, merges: map[[2]int]refMerge{}}
	b.alpha = c.alphabet(c.R(1, 5))
	if affixes {
		if c.Bool() {
			b.prefix = pick(c.Src, []string{"##", "@", "é_", "世"})
		}
		if c.Bool() {
			b.suffix = pick(c.Src, []string{"</w>", "_", "世", "</s>"})
		}
	}
	if unknowns {
		b.fuse = c.Bool()
		switch c.N(8) {
		case 0, 1, 2:
		case 3:
			b.unk = "<absent>"
		default:
			b.unk = pick(c.Src, []string{"<unk>", "?", "世unk"})
		}
	}
	if b.unk != "" && b.unk != "<absent>" && c.Bool() {
		b.add(b.unk)
	}
	var base []string
	for _, r := range b.alpha {
		forms := []string{string(r)}
		if b.prefix != "" {
			forms = append(forms, b.prefix+string(r))
		}
		if b.suffix != "" {
			for _, f := range append([]string(nil), forms...) {
				forms = append(forms, f+b.suffix)
			}
		}
		for _, f := range forms {
			if unknowns && c.One(4) {
				continue
			}
			base = append(base, f)
		}
	}
	c.shuffle(base)
	if len(base) == 0 {
		base = append(base, string(b.alpha[0]))
	}
	for _, t := range base {
		b.add(t)
	}
	if b.unk != "" && b.unk != "<absent>" {
		b.add(b.unk)
	}
	b.base = len(b.terms)
	nm := c.R(0, 10)
	if c.One(10) {
		nm = c.Small(30, 300)
	}
	rankMode := c.N(7)
	wild := c.One(6)
	for k := 0; k < nm; k++ {
		l, r := pick(c.Src, b.terms), pick(c.Src, b.terms)
		if b.suffix != "" && strings.HasSuffix(l, b.suffix) {
			continue // the last character takes no right part
		}
		if b.prefix != "" && !strings.HasPrefix(r, b.prefix) && c.N(5) > 0 {
			continue
		}
		if (l == b.unk || r == b.unk) && !c.One(3) {
			continue
		}
		merged := l + strings.TrimPrefix(r, b.prefix)
		if len(merged) > 60 {
			continue
		}
		id := b.add(merged)
		rank := k
		switch rankMode {
		case 0:
			rank = c.N(3)
		case 1:
			rank = -k
		case 2:
			rank = c.R(-1000000, 1000000)
		case 3:
			rank = c.N(nm + 1)
		case 4:
			rank = pick(c.Src, extremeRanks) + c.R(-1, 1)
			c.Hit("extreme rank")
		}
		if wild && c.One(3) { // set through the API: any result
			id = c.N(len(b.terms))
			b.free = true
			c.Hit("merge with a foreign result")
		}
		b.merges[[2]int{b.ids[l], b.ids[r]}] = refMerge{rank, id}
	}
	b.vary(c)
	return b
}

var extremeRanks = []int{0, 1, 5, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1<<32 + 3, 1 << 53, 1 << 62, math.MaxInt64 - 1, math.MinInt64 + 1, -1 << 31, -1 << 32, -1 << 16, -1 << 62}

func (c *Ctx) shuffle(xs []string) {
	for i := len(xs) - 1; i > 0; i-- {
		j := c.N(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}

// word draws a word over the alphabet, sometimes with foreign characters.
func (c *Ctx) word(alpha []rune, max int, foreign bool) string {
	var out []rune
	n := c.Len(max)
	for len(out) < n {
		switch {
		case foreign && c.One(4):
			out = append(out, pick(c.Src, []rune{'x', 'é', '世', '𝔾', '?', '\u0301', 'Q'}))
		case c.One(6) && len(out) > 0 && len(out)*2 <= n:
			out = append(out, out...)
		case c.One(8):
			r := pick(c.Src, alpha)
			for k := c.R(2, 6); k > 0 && len(out) < n; k-- {
				out = append(out, r)
			}
		default:
			out = append(out, pick(c.Src, alpha))
		}
	}
	return string(out)
}

// ---------------------------------------------------------------- WordPiece

type refWP struct {
	terms  []string
	ids    map[string]int
	unk    string
	prefix string
	max    int
	alpha  []rune
	ext    []int
	late   int
}

func (w *refWP) id(i int) int {
	if w.ext == nil {
		return i
	}
	return w.ext[i]
}

func (w *refWP) add(t string) {
	if _, ok := w.ids[t]; !ok {
		w.ids[t] = len(w.terms)
		w.terms = append(w.terms, t)
	}
}

func (w *refWP) vocab() *vocabulary.Vocabulary {
	if w.ext != nil {
		return vocabOf(w.terms, w.ext)
	}
	v := vocabulary.NewVocabulary()
	for _, t := range w.terms[:len(w.terms)-w.late] {
		v.AddTerm(t)
	}
	return v
}

func (w *refWP) model() *wordpiecemodel.WordPieceModel {
	v := w.vocab()
	m := wordpiecemodel.New(v, w.unk, w.prefix, w.max)
	if w.ext == nil {
		for _, t := range w.terms[len(w.terms)-w.late:] {
			v.AddTerm(t)
		}
	}
	return m
}

func (w *refWP) String() string {
	return fmt.Sprintf("terms %q unk %q prefix %q max %d ids %v added late %d", w.terms, w.unk, w.prefix, w.max, w.ext, w.late)
}

func (w *refWP) tokenize(s string) ([]refTok, bool) {
	bad := utf8.RuneCountInString(s) > w.max
	bs := cuts(s)
	var out []refTok
	for i := 0; !bad && i < len(bs)-1; {
		found := false
		for j := len(bs) - 1; j > i; j-- {
			t := s[bs[i]:bs[j]]
			if i > 0 {
				t = w.prefix + t
			}
			if id, ok := w.ids[t]; ok {
				out = append(out, refTok{w.id(id), t, bs[i], bs[j]})
				i = j
				found = true
				break
			}
		}
		bad = !found
	}
	if !bad {
		return out, false
	}
	id, ok := w.ids[w.unk]
	if !ok {
		return nil, true
	}
	return []refTok{{w.id(id), w.unk, 0, len(s)}}, false
}

func (c *Ctx) genWP() *refWP {
	w := &refWP{ids: map[string]int{}}
	w.alpha = c.alphabet(c.R(1, 5))
	w.prefix = pick(c.Src, []string{"##", "##", "", "@", "é", "世", "#"})
	w.unk = pick(c.Src, []string{"[UNK]", "[UNK]", "<unk>", "", "a", "世"})
	w.max = pick(c.Src, []int{100, 100, 100, 5, 3, 1, 0, 10, 1000})
	if c.One(8) {
		w.max = c.Small(20, 400)
	}
	if c.N(4) > 0 {
		w.add(w.unk)
	}
	for k := c.R(0, 14); k > 0; k-- {
		t := c.word(w.alpha, 4, false)
		if t == "" && !c.One(4) {
			continue
		}
		switch c.N(5) {
		case 0:
			w.add(t)
		case 1:
			w.add(t)
			w.add(w.prefix + t)
		default:
			w.add(w.prefix + t)
		}
	}
	if c.Bool() {
		for _, r := range w.alpha {
			if c.N(4) > 0 {
				w.add(string(r))
			}
			if c.N(4) > 0 {
				w.add(w.prefix + string(r))
			}
		}
	}
	if c.One(5) { // a long entry
		t := c.word(w.alpha, 30, false)
		w.add(t)
		w.add(w.prefix + t)
	}
	switch c.N(24) {
	case 0:
		w.ext = c.extIDs(len(w.terms))
		c.Hit("sparse ids")
	case 1, 2, 3:
		w.late = c.N(len(w.terms) + 1)
		c.Hit("terms added after the model was built")
	}
	return w
}

// cmpTokens compares the outcome of a Tokenize call.
func (c *Ctx) cmpTokens(what string, got []models.Token, err error, want []refTok, wantErr bool) {
	c.obs++
	if (err != nil) != wantErr {
		c.Fail("%s: error is %v (tokens %v), expected an error: %v (tokens %v)", what, err, fmtToks(got), wantErr, want)
	}
	if wantErr {
		if len(got) != 0 {
			c.Fail("%s: tokens %v next to error %v", what, fmtToks(got), err)
		}
		return
	}
	c.cmpTokList(what, got, want)
}
