package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	N "github.com/nlpodyssey/gotokenizers/normalizedstring"
	PT "github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
)

func init() {
	register(&Prop{
		ID:    "C08",
		Rule:  "A case is a pre-tokenized text with random pieces and random tokens over them (none, one, many, over any byte stretch), a word index and a type id; the encoding is compared entry by entry with one computed from the model's character sources. Non-trivial: two tokens at least over an edited or split text.",
		Need:  []string{"word index requested", "word index zero", "word index from pieces", "piece without tokens refused", "no piece", "empty token list", "token inside a character", "encoded twice", "many tokens", "constructors"},
		Huge:  24,
		Quick: 3000000, Thorough: 60000000,
		Case: caseC08,
	})
	register(&Prop{
		ID:    "C09",
		Rule:  "A case is a text and a pipeline of 0 to 3 normalizers, 0 to 2 pre-tokenizers, normalizers on their pieces and a BPE or WordPiece model whose vocabulary is drawn from the pieces; the encoding is compared with the composition of the models of the stages, and its offsets with the input. Non-trivial: three tokens at least and one stage that altered the text.",
		Need:  []string{"bpe", "wordpiece", "normalizer bert", "normalizer lowercase", "normalizer strip", "normalizer sequence", "pre-tokenizer bert", "pre-tokenizer word", "pre-tokenizer white space split", "pre-tokenizer delimiter", "pre-tokenizer byte level", "pre-tokenizer metaspace", "model error", "no pre-tokenizer", "normalizer alters a piece", "known token equals input", "empty encoding", "unknown token"},
		Huge:  24,
		Quick: 660000, Thorough: 13200000,
		Case: caseC09,
	})
	register(&Prop{
		ID:    "C16",
		Rule:  "A case is a vocabulary with concatenating merges (sequential, equal, negative, sparse ranks) and several words over its characters; tokens are compared with naive merging by definition. Systematic part: every word up to length 7 over {a, b} / {a, é} under 40 fixed merge tables. Non-trivial: at least one merge applied.",
		Need:  []string{"merge applied", "equal ranks", "negative rank", "long word", "multi-byte word", "no merges", "single character", "chain of merges", "result missing in the vocabulary", "extreme rank", "sparse ids", "terms added after the model was built", "merge with a foreign result"},
		Enum:  func(bool) int64 { return 40 * 4 },
		Huge:  6,
		Quick: 1200000, Thorough: 24000000,
		Case: caseC16,
	})
	register(&Prop{
		ID:    "C17",
		Rule:  "A case is a model with unknown token (or none), fusion, prefix and suffix, and several words mixing known and unknown characters; tokens are compared with the definition. Systematic part: every word up to length 5 over {known one-byte, known three-byte, unknown one-byte, unknown four-byte} under all 64 combinations of unknown token, fusion, prefix, suffix and merges. Non-trivial: the word holds an unknown character or an affix is configured.",
		Need:  []string{"unknown token", "fused unknowns", "dropped unknown", "unknown token absent", "prefix", "suffix", "empty word", "unknown first", "unknown last", "default model"},
		Enum:  func(bool) int64 { return countStrings(4, 5) },
		Huge:  8,
		Quick: 1800000, Thorough: 36000000,
		Case: caseC17,
	})
	register(&Prop{
		ID:    "C18",
		Rule:  "A case is a model, a dropout (0, 1, nearly 0 or 1, in between) and several words, each tokenized repeatedly; tokens are checked to tile the word and to be derivable by the merges (chart parsing), the extremes against the definitions, and systematic cases measure how often each outcome of a small word comes out (against its computed probability), and whether successive calls depend on each other. Non-trivial: an outcome differing from the one without dropout was seen, or a frequency was measured.",
		Need:  []string{"dropout 1", "dropout tiny", "dropout between", "frequency measured", "outcome differs", "two outcomes for one word", "dropout 0", "unknown token absent", "result missing in the vocabulary"},
		Enum:  func(bool) int64 { return int64(len(c18Words) * len(c18Dropouts)) },
		Huge:  6,
		Quick: 600000, Thorough: 12000000,
		Case: caseC18,
	})
	register(&Prop{
		ID:    "C19",
		Rule:  "A case is a vocabulary of whole and continuing entries, a prefix, an unknown token, a length limit and several words; tokens are compared with greedy longest match on characters. Systematic part: every word up to length 5 over {a, é, 世, 𝔾} under ten fixed vocabularies. Non-trivial: more than one piece, or an unknown word.",
		Need:  []string{"several pieces", "unknown word", "too long", "exactly the maximum", "unknown token absent", "multi-byte shrink", "empty word", "empty prefix", "error too long"},
		Enum:  func(bool) int64 { return countStrings(4, 5) },
		Huge:  16,
		Quick: 1800000, Thorough: 36000000,
		Case: caseC19,
	})
	register(&Prop{
		ID:    "C20",
		Rule:  "A case is a vocabulary, empty or loaded from a file with dense, sparse, negative or shifted ids, and 5 to 60 additions and lookups over a small pool of terms; after every addition all terms and ids are looked up in both directions and compared with a two-way map. Non-trivial: a term was added twice or after loading.",
		Need:  []string{"empty start", "loaded dense", "loaded sparse", "term added twice", "empty term", "id taken", "absent id", "absent term", "many terms"},
		Huge:  8,
		Quick: 360000, Thorough: 7200000,
		Case: caseC20,
	})
	register(&Prop{
		ID:    "C21",
		Rule:  "A case is a vocabulary or merges file written to disk: well formed (any terms, escapes, line endings, version lines anywhere, repeated pairs, prefix lengths) or with one malformation; the loaded map is compared pair by pair, and malformed files must give an error (naming the line for merges) and no result. Non-trivial: at least two entries, or a malformation.",
		Need:  []string{"good vocabulary", "bad vocabulary", "good merges", "bad merges", "version line in the middle", "repeated pair", "prefix length", "crlf", "no final newline", "missing file", "right part too short", "merged term absent", "left term absent", "right term absent", "one term", "three terms", "empty line", "null id", "left term absent, merged term not", "right term absent, merged term not"},
		Huge:  8,
		Quick: 1500000, Thorough: 30000000,
		Case: caseC21,
	})
}

// ---------------------------------------------------------------- C08

type refEnc struct {
	ids, types, words, special, attention []int
	toks                                  []string
	offs                                  [][2]int
}

func refEncode(r refPTS, word, typ int) *refEnc {
	e := &refEnc{}
	for i, s := range r {
		w := word
		if w < 0 {
			w = i
		}
		src := s.ns.n2o
		if len(*s.toks) > 1000 {
			src = s.ns.fastN2O()
		}
		for _, t := range *s.toks {
			e.ids = append(e.ids, t.ID)
			e.toks = append(e.toks, t.V)
			e.types = append(e.types, typ)
			e.words = append(e.words, w)
			e.special = append(e.special, 0)
			e.attention = append(e.attention, 1)
			if t.S == t.E {
				e.offs = append(e.offs, [2]int{-1, -1}) // not specified
				continue
			}
			a, b := src(t.S, t.E)
			e.offs = append(e.offs, [2]int{s.ns.Shift + a, s.ns.Shift + b})
		}
	}
	return e
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (c *Ctx) cmpEnc(what string, e *encodings.Encoding, w *refEnc) {
	c.obs++
	if e == nil {
		c.Fail("%s: no encoding", what)
	}
	n := len(w.ids)
	if len(e.IDs) != n || len(e.Tokens) != n || len(e.TypeIDs) != n || len(e.Words) != n || len(e.Offsets) != n || len(e.SpecialTokensMask) != n || len(e.AttentionMask) != n {
		c.Fail("%s: the lists have lengths ids %d tokens %d types %d words %d offsets %d special %d attention %d, expected %d", what, len(e.IDs), len(e.Tokens), len(e.TypeIDs), len(e.Words), len(e.Offsets), len(e.SpecialTokensMask), len(e.AttentionMask), n)
	}
	if e.Len() != n || e.IsEmpty() != (n == 0) {
		c.Fail("%s: Len %d IsEmpty %v for %d entries", what, e.Len(), e.IsEmpty(), n)
	}
	if len(e.Overflowing) != 0 {
		c.Fail("%s: %d overflowing encodings", what, len(e.Overflowing))
	}
	if !eqInts(e.IDs, w.ids) {
		c.Fail("%s: ids %v, expected %v", what, e.IDs, w.ids)
	}
	if !eqInts(e.TypeIDs, w.types) {
		c.Fail("%s: type ids %v, expected %v", what, e.TypeIDs, w.types)
	}
	if !eqInts(e.Words, w.words) {
		c.Fail("%s: words %v, expected %v", what, e.Words, w.words)
	}
	if !eqInts(e.SpecialTokensMask, w.special) || !eqInts(e.AttentionMask, w.attention) {
		c.Fail("%s: special %v attention %v", what, e.SpecialTokensMask, e.AttentionMask)
	}
	for i := range w.toks {
		if e.Tokens[i] != w.toks[i] {
			c.Fail("%s: tokens %q, expected %q", what, e.Tokens, w.toks)
		}
		if w.offs[i][0] >= 0 && (e.Offsets[i].Start != w.offs[i][0] || e.Offsets[i].End != w.offs[i][1]) {
			c.Fail("%s: offsets of token %d are %v, expected %v\n got %v\n expected %v", what, i, e.Offsets[i], w.offs[i], e.Offsets, w.offs)
		}
	}
}

// encConstructors checks the constructors of encodings.
func (c *Ctx) encConstructors() {
	n := c.N(5)
	var e encodings.Encoding
	for i := 0; i < n; i++ {
		e.IDs = append(e.IDs, c.N(9))
		e.TypeIDs = append(e.TypeIDs, c.N(9)+10)
		e.Tokens = append(e.Tokens, c.TextN(2))
		e.Words = append(e.Words, c.N(9)+20)
		e.Offsets = append(e.Offsets, strutils.ByteOffsets{Start: i, End: i + c.N(5)})
		e.SpecialTokensMask = append(e.SpecialTokensMask, c.N(2))
		e.AttentionMask = append(e.AttentionMask, c.N(2))
	}
	if c.Bool() {
		e.Overflowing = append(e.Overflowing, encodings.NewDefaultEncoding())
	}
	g := encodings.NewEncoding(e.IDs, e.TypeIDs, e.Tokens, e.Words, e.Offsets, e.SpecialTokensMask, e.AttentionMask, e.Overflowing)
	if !reflect.DeepEqual(*g, e) || g.Len() != n || g.IsEmpty() != (n == 0) {
		c.Fail("NewEncoding gives %+v (Len %d, IsEmpty %v) for the fields %+v", *g, g.Len(), g.IsEmpty(), e)
	}
	for _, g := range []*encodings.Encoding{encodings.NewDefaultEncoding(), encodings.NewEncodingWithCapacity(n), encodings.EncodingFromEncodableTokens(nil)} {
		if g.Len() != 0 || !g.IsEmpty() || len(g.TypeIDs)+len(g.Tokens)+len(g.Words)+len(g.Offsets)+len(g.SpecialTokensMask)+len(g.AttentionMask)+len(g.Overflowing) != 0 {
			c.Fail("a new encoding is not empty: %+v", *g)
		}
	}
	c.Hit("constructors")
}

func caseC08(c *Ctx) {
	if c.Huge && c.Bool() {
		c.hugePieces(true)
		return
	}
	if c.One(100) {
		c.encConstructors()
	}
	p, r, s := c.genPTS()
	if c.One(3) {
		c.preSplit(p, &r)
	}
	c.K(s)
	if c.One(12) { // no piece at all
		if err := p.Split(func(int, *N.NormalizedString) ([]PT.Split, error) { return nil, nil }); err != nil {
			c.Fail("Split: %v", err)
		}
		var nr refPTS
		for _, x := range r {
			if x.toks != nil {
				nr = append(nr, x)
			}
		}
		r = nr
	}
	word := -1
	switch c.N(4) {
	case 0:
		word = c.Small(50, 5000)
		if word == 0 {
			c.Hit("word index zero")
		} else {
			c.Hit("word index requested")
		}
	case 1:
		word = -c.R(1, 9)
		c.Hit("word index from pieces")
	default:
		c.Hit("word index from pieces")
	}
	typ := c.R(-1, 3)
	if c.One(6) {
		typ = c.N(100000)
	}
	c.Log("%d pieces, word index %d, type id %d", len(r), word, typ)
	open := false
	for _, x := range r {
		open = open || x.toks == nil
	}
	if len(r) == 0 {
		c.Hit("no piece")
	}
	if open {
		e, err := p.IntoEncoding(word, typ)
		if err == nil {
			c.Fail("IntoEncoding succeeds although a piece has no tokens: %+v", e)
		}
		c.Hit("piece without tokens refused")
	}
	k := 0
	many := c.One(10)
	err := p.Tokenize(func(ns *N.NormalizedString) ([]models.Token, error) {
		for r[k].toks != nil {
			k++
		}
		t := r[k].ns.text()
		ts := c.randToks(t, true)
		if many || c.Huge && k == 0 {
			n := c.Small(30, 300)
			if c.Huge && k == 0 {
				n = 45000
				c.Hit("tokens beyond 65536")
			}
			for ; n > 0; n-- {
				ts = append(ts, c.randToks(t, true)...)
			}
			c.Hit("many tokens")
		}
		r[k].toks = &ts
		if len(ts) == 0 {
			c.Hit("empty token list")
		}
		return libToks(ts), nil
	})
	if err != nil {
		c.Fail("Tokenize: %v", err)
	}
	n := 0
	for _, x := range r {
		t := x.ns.text()
		if x.toks == nil {
			c.Fail("a piece without tokens was not tokenized")
		}
		for _, tk := range *x.toks {
			n++
			if tk.E < len(t) && !utf8.RuneStart(t[tk.E]) || tk.S < len(t) && !utf8.RuneStart(t[tk.S]) {
				c.Hit("token inside a character")
			}
			c.Ki(tk.ID)
		}
		c.Log("piece %s tokens %v", x.ns, *x.toks)
	}
	want := refEncode(r, word, typ)
	e, err := p.IntoEncoding(word, typ)
	if err != nil {
		c.Fail("IntoEncoding: %v", err)
	}
	c.cmpEnc("encoding", e, want)
	if n > 1 && (len(r) > 1 || r[0].ns.text() != s) {
		c.NT()
	}
	if c.One(3) {
		c.Hit("encoded twice")
		w2, t2 := c.R(-1, 2), c.N(4)
		e2, err := p.IntoEncoding(w2, t2)
		if err != nil {
			c.Fail("IntoEncoding again: %v", err)
		}
		c.cmpEnc("second encoding", e2, refEncode(r, w2, t2))
		c.cmpEnc("first encoding afterwards", e, want)
		c.cmpPTS("the pre-tokenized text afterwards", p, r)
	}
}

// ---------------------------------------------------------------- C09

type stageModel struct {
	desc  string
	lib   models.Model
	ref   func(string) ([]refTok, bool)
	plain bool // tokens spell the input
	drops bool // characters may be dropped inside a token
	isUnk func(id int) bool
}

// pipeModel draws a model whose vocabulary covers much of the pieces.
func (c *Ctx) pipeModel(pieces []string) stageModel {
	long := false // naive merging would take too long
	for _, p := range pieces {
		long = long || len(p) > 3000
	}
	if c.Bool() && !long {
		b := &refBPE{ids: map[string]int{}, merges: map[[2]int]refMerge{}}
		if c.One(3) {
			b.prefix = "##"
		}
		if c.One(3) {
			b.suffix = "</w>"
		}
		b.fuse = c.Bool()
		if c.N(3) > 0 {
			b.unk = "<unk>"
			if c.N(10) > 0 {
				b.add("<unk>")
			}
		}
		for _, p := range pieces {
			rs := []rune(p)
			for i, r := range rs {
				s := string(r)
				if i > 0 {
					s = b.prefix + s
				}
				if i == len(rs)-1 {
					s += b.suffix
				}
				if c.N(8) > 0 {
					b.add(s)
				}
			}
		}
		n := c.R(0, 16)
		rank := 0
		for ; n > 0 && len(pieces) > 0; n-- {
			// merge a pair that occurs
			p := pick(c.Src, pieces)
			ts, bad := b.tokenize(p)
			if bad || len(ts) < 2 {
				continue
			}
			i := c.N(len(ts) - 1)
			l, r := ts[i].V, ts[i+1].V
			if l == b.unk || r == b.unk {
				continue
			}
			m := l + strings.TrimPrefix(r, b.prefix)
			id := b.add(m)
			b.merges[[2]int{ts[i].ID, ts[i+1].ID}] = refMerge{rank, id}
			rank++
		}
		uid, has := b.ids[b.unk]
		b.vary(c)
		if has {
			uid = b.id(uid)
		}
		return stageModel{"bpe " + b.String(), b.model(c.N(3), 0), b.tokenize, b.prefix == "" && b.suffix == "", b.unk == "", func(id int) bool { return has && b.unk != "" && id == uid }}
	}
	w := &refWP{ids: map[string]int{}, unk: "[UNK]", prefix: "##", max: 100}
	if c.One(4) {
		w.max = c.N(8)
	}
	if c.One(4) {
		w.prefix = ""
	}
	if c.N(12) > 0 {
		w.add("[UNK]")
	}
	for _, p := range pieces {
		bs := cuts(p)
		for i := 0; i < len(bs)-1; {
			j := i + c.R(1, 3)
			if j > len(bs)-1 {
				j = len(bs) - 1
			}
			t := p[bs[i]:bs[j]]
			if i > 0 {
				t = w.prefix + t
			}
			if c.N(8) > 0 {
				w.add(t)
			}
			i = j
		}
	}
	uid, has := w.ids[w.unk]
	if c.One(12) {
		w.ext = c.extIDs(len(w.terms))
	}
	if has {
		uid = w.id(uid)
	}
	return stageModel{"wordpiece " + w.String(), w.model(), w.tokenize, w.prefix == "", false, func(id int) bool { return has && id == uid }}
}

func caseC09(c *Ctx) {
	s := ""
	if c.Huge {
		s = c.hugeText()
	} else {
		s = c.TextN(c.Len(c.Scale + 6))
	}
	c.Log("text %q", s)
	c.K(s)
	ns, r := N.FromString(s), refFrom(s)
	altered := false
	var norms []normPair
	for n := c.N(4); n > 0; n-- {
		m := c.genNormalizer(1)
		norms = append(norms, m)
		c.Log("normalizer %s", m.desc)
		c.K(m.desc)
		for _, k := range []string{"bert", "lowercase", "strip", "sequence"} {
			if strings.HasPrefix(strings.TrimPrefix(m.desc, "default "), k) {
				c.Hit("normalizer " + k)
			}
		}
	}
	for _, q := range s {
		if cjkUnspecified(q) {
			c.Skip()
		}
	}
	viaPTS := c.Bool()
	p := ptsFrom(ns)
	for _, m := range norms {
		if viaPTS {
			if err := p.Normalize(m.lib.Normalize); err != nil {
				c.Fail("%s: %v", m.desc, err)
			}
		} else if err := m.lib.Normalize(ns); err != nil {
			c.Fail("%s: %v", m.desc, err)
		}
		m.ref(r)
		altered = altered || !m.id
	}
	changed := r.text() != s
	m := refPTS{{ns: r}}
	stages := c.R(1, 2)
	if c.One(8) {
		stages = 0
		c.Hit("no pre-tokenizer")
	}
	for n := stages; n >= 0; n-- {
		// normalizers may as well work on the pieces
		for n < stages && c.One(5) || n == 0 && stages == 0 && c.Bool() {
			z := c.genNormalizer(1)
			c.Log("normalizer on the pieces %s", z.desc)
			c.K(z.desc)
			if err := p.Normalize(z.lib.Normalize); err != nil {
				c.Fail("%s: %v", z.desc, err)
			}
			for i := range m {
				t := m[i].ns.text()
				z.ref(m[i].ns)
				if len(m) > 1 && m[i].ns.text() != t {
					c.Hit("normalizer alters a piece")
				}
			}
			altered = altered || !z.id
		}
		if n == 0 {
			break
		}
		t := c.genPreTok()
		c.Log("pre-tokenizer %s", t.desc)
		c.K(t.desc)
		for _, k := range []string{"bert", "word", "white space split", "delimiter", "byte level", "metaspace"} {
			if strings.HasPrefix(t.desc, k) {
				c.Hit("pre-tokenizer " + k)
			}
		}
		if err := t.lib.PreTokenize(p); err != nil {
			c.Fail("%s: %v", t.desc, err)
		}
		t.ref(&m)
		altered = altered || t.changes
	}
	var pieces []string
	for _, x := range m {
		pieces = append(pieces, x.ns.text())
	}
	sm := c.pipeModel(pieces)
	c.Log("model %s", sm.desc)
	c.Hit(strings.SplitN(sm.desc, " ", 2)[0])
	err := p.Tokenize(func(ns *N.NormalizedString) ([]models.Token, error) { return sm.lib.Tokenize(ns.Get()) })
	bad := false
	for i := range m {
		ts, e := sm.ref(m[i].ns.text())
		if e {
			bad = true
			break
		}
		m[i].toks = &ts
	}
	if bad {
		c.Hit("model error")
		if err == nil {
			c.Fail("the pipeline succeeds although the model has to fail")
		}
		return
	}
	if err != nil {
		c.Fail("the pipeline fails: %v", err)
	}
	e, err := p.IntoEncoding(-1, 0)
	if err != nil {
		c.Fail("IntoEncoding: %v", err)
	}
	c.cmpEnc("encoding of "+fmt.Sprintf("%q", s), e, refEncode(m, -1, 0))
	c.Log("tokens %q offsets %v", e.Tokens, e.Offsets)
	last := 0
	for i, o := range e.Offsets {
		ok := o.Start >= 0 && o.End >= o.Start && o.End <= len(s) && (o.Start == len(s) || utf8.RuneStart(s[o.Start])) && (o.End == len(s) || utf8.RuneStart(s[o.End]))
		if !ok {
			c.Fail("token %d %q has offsets %v, no character range of the input %q (%d bytes)", i, e.Tokens[i], o, s, len(s))
		}
		if o.Start < last {
			c.Fail("token %d starts at %d, before token %d at %d", i, o.Start, i-1, last)
		}
		last = o.Start
		if !altered && sm.plain && !sm.drops && !sm.isUnk(e.IDs[i]) {
			c.Hit("known token equals input")
			if s[o.Start:o.End] != e.Tokens[i] {
				c.Fail("token %d is %q but the input at its offsets %v is %q", i, e.Tokens[i], o, s[o.Start:o.End])
			}
		}
		if sm.isUnk(e.IDs[i]) {
			c.Hit("unknown token")
		}
	}
	if e.Len() == 0 {
		c.Hit("empty encoding")
	}
	if e.Len() > 2 && (changed || altered) {
		c.NT()
	}
}

// ---------------------------------------------------------------- C16, C17, C18

// fixedBPE is the k-th fixed merge table over two characters.
func fixedBPE(k int, x, y rune) *refBPE {
	b := &refBPE{ids: map[string]int{}, merges: map[[2]int]refMerge{}, alpha: []rune{x, y}}
	b.add(string(x))
	b.add(string(y))
	h := mix64(uint64(k)*7919 + 13)
	n := 1 + k%8
	for i := 0; i < n; i++ {
		h = mix64(h + 0x9e3779b97f4a7c15)
		l := int(h % uint64(len(b.terms)))
		r := int((h >> 20) % uint64(len(b.terms)))
		id := b.add(b.terms[l] + b.terms[r])
		rank := i
		switch k % 5 {
		case 1:
			rank = 0
		case 2:
			rank = n - i
		case 3:
			rank = int(h>>40)%5 - 2
		}
		b.merges[[2]int{l, r}] = refMerge{rank, id}
	}
	return b
}

func caseC16(c *Ctx) {
	if c.Huge {
		hugeC16(c)
		return
	}
	one := func(b *refBPE, m *bpemodel.BPEModel, w string) {
		want, bad := b.tokenize(w)
		got, err := m.Tokenize(w)
		c.cmpTokens(fmt.Sprintf("word %q\n with %s", w, b), got, err, want, bad)
		if bad {
			c.Hit("result missing in the vocabulary")
			c.NT()
			return
		}
		pos := 0
		for i, t := range got {
			if t.Offsets.Start != pos || t.Offsets.End <= pos || !b.free && w[t.Offsets.Start:t.Offsets.End] != t.Value {
				c.Fail("word %q: token %d %+v does not tile the word or is not its stretch", w, i, t)
			}
			pos = t.Offsets.End
		}
		if pos != len(w) {
			c.Fail("word %q: the tokens end at %d", w, pos)
		}
		nr := utf8.RuneCountInString(w)
		if len(got) < nr {
			c.Hit("merge applied")
			c.NT()
			for _, t := range got {
				if utf8.RuneCountInString(t.Value) > 3 {
					c.Hit("chain of merges")
				}
			}
		}
		if nr == 1 {
			c.Hit("single character")
		}
		if nr > 60 {
			c.Hit("long word")
		}
		if nr < len(w) {
			c.Hit("multi-byte word")
		}
	}
	if c.Enum >= 0 {
		pair := [][2]rune{{'a', 'b'}, {'a', 'é'}, {'世', 'b'}, {'𝔾', 'é'}}[c.Enum%4]
		b := fixedBPE(int(c.Enum/4), pair[0], pair[1])
		m := b.model(0, 0)
		c.Log("%s: every word up to length 7", b)
		c.K(b.String())
		for i := int64(1); i < countStrings(2, 7); i++ {
			one(b, m, enumString([]string{string(pair[0]), string(pair[1])}, i))
		}
		return
	}
	b := c.genBPE(false, false)
	if n := len(b.terms) - b.base; n > 0 && b.ext == nil && !b.free && c.One(10) {
		b.ghost = c.R(1, n)
	}
	c.Log("%s", b)
	c.K(b.String())
	seen := map[int]bool{}
	for _, v := range b.merges {
		if seen[v.rank] {
			c.Hit("equal ranks")
		}
		seen[v.rank] = true
		if v.rank < 0 {
			c.Hit("negative rank")
		}
	}
	if len(b.merges) == 0 {
		c.Hit("no merges")
	}
	m := b.model(pick(c.Src, []int{0, 1, 100}), 0)
	for n := c.R(1, 4); n > 0; n-- {
		max := 12
		if c.One(12) {
			max = 120
		}
		w := c.word(b.alpha, max, false)
		if len(w) > 1200 {
			w = string([]rune(w)[:300])
		}
		c.Log("word %q", w)
		c.K(w)
		one(b, m, w)
	}
}

func caseC17(c *Ctx) {
	if c.Huge {
		hugeC17(c)
		return
	}
	one := func(b *refBPE, m *bpemodel.BPEModel, w string) {
		want, bad := b.tokenize(w)
		got, err := m.Tokenize(w)
		c.cmpTokens(fmt.Sprintf("word %q\n with %s", w, b), got, err, want, bad)
		if w == "" {
			c.Hit("empty word")
			return
		}
		if bad {
			c.Hit("unknown token absent")
			return
		}
		if b.prefix != "" {
			c.Hit("prefix")
			c.NT()
		}
		if b.suffix != "" {
			c.Hit("suffix")
			c.NT()
		}
		if b.unk != "" {
			for i, t := range want {
				if t.V == b.unk {
					c.Hit("unknown token")
					c.NT()
					if utf8.RuneCountInString(w[t.S:t.E]) > 1 && b.fuse {
						c.Hit("fused unknowns")
					}
					if i == 0 {
						c.Hit("unknown first")
					}
					if i == len(want)-1 {
						c.Hit("unknown last")
					}
				}
			}
		} else {
			n := 0
			for _, t := range want {
				n += t.E - t.S
			}
			if n < len(w) {
				c.Hit("dropped unknown")
				c.NT()
			}
		}
	}
	if c.Enum >= 0 {
		w := enumString([]string{"a", "世", "x", "𝔾"}, c.Enum)
		c.Log("word %q under 64 configurations", w)
		c.K(w)
		for k := 0; k < 64; k++ {
			b := &refBPE{ids: map[string]int{}, merges: map[[2]int]refMerge{}, fuse: k&1 != 0}
			if k&2 != 0 {
				b.prefix = "##"
			}
			if k&4 != 0 {
				b.suffix = "</w>"
			}
			for _, t := range []string{"a", "世"} {
				for _, p := range []string{"", b.prefix} {
					for _, s := range []string{"", b.suffix} {
						b.add(p + t + s)
					}
				}
			}
			switch k >> 3 & 3 {
			case 1, 2:
				b.unk = "<unk>"
				b.add(b.unk)
			case 3:
				b.unk = "<absent>"
			}
			if k&32 != 0 {
				for r, lr := range [][2]string{{"a", b.prefix + "世"}, {b.prefix + "世", b.prefix + "a"}, {"世", b.prefix + "世" + b.suffix}, {"a", b.prefix + "a"}} {
					l, ok1 := b.ids[lr[0]]
					q, ok2 := b.ids[lr[1]]
					if ok1 && ok2 {
						b.merges[[2]int{l, q}] = refMerge{r, b.add(lr[0] + strings.TrimPrefix(lr[1], b.prefix))}
					}
				}
			}
			one(b, b.model(0, 0), w)
		}
		return
	}
	if c.One(50) { // the default model knows nothing
		w := c.Text()
		c.Log("default model, word %q", w)
		got, err := bpemodel.NewDefault().Tokenize(w)
		if err != nil || len(got) != 0 {
			c.Fail("the default model, without vocabulary and unknown token, gives %v (error %v) for %q", fmtToks(got), err, w)
		}
		c.Hit("default model")
		return
	}
	b := c.genBPE(c.N(4) > 0, true)
	c.Log("%s", b)
	c.K(b.String())
	m := b.model(pick(c.Src, []int{0, 1, 100}), 0)
	for n := c.R(1, 4); n > 0; n-- {
		w := c.word(b.alpha, 10, true)
		if len(w) > 1200 {
			w = string([]rune(w)[:300])
		}
		c.Log("word %q", w)
		c.K(w)
		one(b, m, w)
	}
}

// derivable computes which ids a stretch of symbols can be merged into.
func (b *refBPE) derivable(syms []sym, i, j int, memo map[[2]int]map[int]bool) map[int]bool {
	if r, ok := memo[[2]int{i, j}]; ok {
		return r
	}
	out := map[int]bool{}
	if j-i == 1 {
		out[syms[i].id] = true
	}
	for k := i + 1; k < j; k++ {
		L := b.derivable(syms, i, k, memo)
		R := b.derivable(syms, k, j, memo)
		for l := range L {
			for r := range R {
				if m, ok := b.merges[[2]int{l, r}]; ok {
					out[m.id] = true
				}
			}
		}
	}
	memo[[2]int{i, j}] = out
	return out
}

var c18Dropouts = []float64{0, 1, 1. / 11, 2. / 11, 3. / 11, 4. / 11, 5. / 11, 6. / 11, 7. / 11, 8. / 11, 9. / 11, 10. / 11, 0.5, 0.001, 0.002, 0.004, 0.008, 0.02, 0.05, 0.999, 0.998, 0.996, 0.992, 0.98, 0.95}

var c18Words = []struct {
	text  string
	pairs []string // merges in order of rank
}{
	{"ab", []string{"ab"}}, {"é世", []string{"ab", "cd", "é世"}}, {"xabxx", []string{"ab"}},
	{"abxab", []string{"ab"}}, {"cdab", []string{"ab", "cd"}}, {"abxcdé世", []string{"ab", "cd", "é世"}},
	{"abxcd", []string{"cd", "ab"}}, {"abc", []string{"ab", "abc"}}, {"aba", []string{"ba", "ab"}},
	{"xabcdx", []string{"ab", "cd", "abcd"}}, {"é世xabxcdxef", []string{"ef", "cd", "é世", "ab"}},
}

// c18Outcomes gives the probability of every list of tokens, when the merges
// that are possible are offered in the order of their ranks, each is skipped
// with probability p, and after each one that is carried out all are offered
// again. It leaves out nothing only if no merge made makes another one, offered
// before, impossible; the words above are of that kind.
func c18Outcomes(parts []string, pairs []string, p, prob float64, out map[string]float64) {
	skipped := prob
	for _, pair := range pairs {
		for i := 0; i+1 < len(parts); i++ {
			if parts[i]+parts[i+1] != pair {
				continue
			}
			next := append(append(append([]string{}, parts[:i]...), pair), parts[i+2:]...)
			c18Outcomes(next, pairs, p, skipped*(1-p), out)
			skipped *= p
		}
	}
	out[strings.Join(parts, "|")] += skipped
}

// unlikely: k of n, each with probability p, is further off than chance makes
// it in one of 10^14 tries (Chernoff's bound).
func unlikely(k, n int, p float64) bool {
	if p <= 0 || p >= 1 {
		return float64(k) != p*float64(n)
	}
	q, kl := float64(k)/float64(n), 0.0
	if q > 0 {
		kl += q * math.Log(q/p)
	}
	if q < 1 {
		kl += (1 - q) * math.Log((1-q)/(1-p))
	}
	return float64(n)*kl > 33
}

func caseC18(c *Ctx) {
	if c.Huge {
		hugeC18(c)
		return
	}
	if c.Enum >= 0 {
		// frequency with which all merges of a word are skipped, the only one or
		// several that do not touch
		p := c18Dropouts[c.Enum%int64(len(c18Dropouts))]
		b := &refBPE{ids: map[string]int{}, merges: map[[2]int]refMerge{}}
		word := c18Words[c.Enum/int64(len(c18Dropouts))]
		w := word.text
		var chars []string
		for _, r := range w + "x" {
			b.add(string(r))
			if len(chars) < utf8.RuneCountInString(w) {
				chars = append(chars, string(r))
			}
		}
		for rank, pair := range word.pairs {
			for _, r := range pair {
				b.add(string(r))
			}
			id := b.add(pair)
			for i := range pair {
				l, ok := b.ids[pair[:i]]
				if r, ok2 := b.ids[pair[i:]]; ok && ok2 {
					b.merges[[2]int{l, r}] = refMerge{rank, id}
				}
			}
		}
		m := b.model(10, p)
		want := map[string]float64{}
		c18Outcomes(chars, word.pairs, p, 1, want)
		none := strings.Join(chars, "|")
		// trials, so that 200 of the rarer outcome are to be expected
		n := 100000
		if rare := math.Min(p, 1-p); rare > 0 && 200/rare > float64(n) {
			n = int(200 / rare)
		}
		c.Log("word %q, merges %q, dropout %v, %d calls", w, word.pairs, p, n)
		c.Ki(int(c.Enum))
		count, twice, last := map[string]int{}, 0, false
		for i := 0; i < n; i++ {
			got, err := m.Tokenize(w)
			if err != nil {
				c.Fail("Tokenize: %v", err)
			}
			key, at := "", 0
			for j, t := range got {
				if b.ids[t.Value] != t.ID || t.Offsets.Start != at || t.Offsets.End != at+len(t.Value) || t.Offsets.End > len(w) || w[at:t.Offsets.End] != t.Value {
					c.Fail("word %q: tokens %v", w, got)
				}
				if at = t.Offsets.End; j > 0 {
					key += "|"
				}
				key += t.Value
			}
			if _, ok := want[key]; !ok || at != len(w) {
				c.Fail("word %q: tokens %v", w, got)
			}
			count[key]++
			now := key == none
			if i%2 == 1 && now && last {
				twice++
			}
			last = now
		}
		c.Log("of %d calls: %v; all skipped in both of %d of %d pairs of calls", n, count, twice, n/2)
		if unlikely(count[none], n, want[none]) {
			c.Fail("word %q: all merges were skipped in %d of %d calls under dropout %v, not in %v of them", w, count[none], n, p, want[none])
		}
		for key, pr := range want {
			if unlikely(count[key], n, pr) {
				c.Fail("word %q: %q came out in %d of %d calls under dropout %v, not in %v of them", w, key, count[key], n, p, pr)
			}
		}
		if unlikely(twice, n/2, want[none]*want[none]) {
			c.Fail("word %q: all merges were skipped in both calls of %d of %d successive pairs under dropout %v: calls depend on each other", w, twice, n/2, p)
		}
		c.Hit("frequency measured")
		c.NT()
		return
	}
	b := c.genBPE(c.One(3), c.One(3))
	if b.unk == "<absent>" && c.N(3) > 0 {
		b.unk = ""
	}
	if n := len(b.terms) - b.base; n > 0 && b.ext == nil && b.unk != "<absent>" && b.prefix+b.suffix == "" && c.One(8) {
		b.ghost = c.R(1, n)
	}
	dropout := 0.0
	mode := c.N(6)
	switch mode {
	case 0:
		dropout = 1
		c.Hit("dropout 1")
	case 1:
		dropout = 1e-13
		c.Hit("dropout tiny")
	case 2:
		dropout = 0
		c.Hit("dropout 0")
	default:
		dropout = pick(c.Src, []float64{0.1, 0.3, 0.5, 0.7, 0.9, 0.02, 0.98})
		c.Hit("dropout between")
	}
	mm := b.mergeMap()
	m := b.modelOn(mm, c.N(3), dropout)
	c.Log("dropout %v %s", dropout, b)
	c.K(b.String())
	for n := c.R(1, 3); n > 0; n-- {
		w := c.word(b.alpha, 12, b.unk != "" || c.One(3))
		if len(w) > 80 {
			w = string([]rune(w)[:20])
		}
		c.K(w)
		full, fullBad := b.tokenize(w)
		syms, bad := b.initial(w)
		if b.unk == "<absent>" {
			bad = bad && w != ""
			for rep := c.R(1, 3); rep > 0; rep-- {
				got, err := m.Tokenize(w)
				c.cmpTokens(fmt.Sprintf("word %q dropout %v\n with %s", w, dropout, b), got, err, nil, bad)
			}
			c.Hit("unknown token absent")
			continue
		}
		outcomes := map[string]bool{}
		memo := map[[2]int]map[int]bool{}
		for rep := c.R(1, 12); rep > 0; rep-- {
			got, err := m.Tokenize(w)
			what := fmt.Sprintf("word %q dropout %v\n with %s", w, dropout, b)
			switch mode {
			case 0:
				c.cmpTokens(what, got, err, b.toks(syms), false)
			case 1, 2:
				c.cmpTokens(what, got, err, full, fullBad)
			}
			if err != nil {
				// a symbol that is not in the vocabulary has to be possible
				possible := false
				for i := 0; i < len(syms); i++ {
					for j := i + 1; j <= len(syms); j++ {
						for id := range b.derivable(syms, i, j, memo) {
							possible = possible || b.isGhost(id)
						}
					}
				}
				if !possible || len(got) != 0 {
					c.Fail("%s: error %v, tokens %v", what, err, fmtToks(got))
				}
				c.Hit("result missing in the vocabulary")
				outcomes["error"] = true
				continue
			}
			c.obs++
			k := 0
			for i, t := range got {
				if b.index(t.ID) < 0 || b.terms[b.index(t.ID)] != t.Value {
					c.Fail("%s: token %+v is no vocabulary entry", what, t)
				}
				// the stretch of symbols under the token
				j := k
				for j < len(syms) && syms[j].e <= t.Offsets.End {
					j++
				}
				if j <= k || syms[k].s != t.Offsets.Start || syms[j-1].e != t.Offsets.End {
					c.Fail("%s: token %d %+v does not continue the tiling (symbols %v)", what, i, t, syms)
				}
				if !b.derivable(syms, k, j, memo)[b.index(t.ID)] {
					c.Fail("%s: token %+v cannot be derived from the characters under it", what, t)
				}
				k = j
			}
			if k != len(syms) {
				c.Fail("%s: tokens %v end before the word does", what, fmtToks(got))
			}
			outcomes[fmt.Sprint(fmtToks(got))] = true
		}
		c.Log("word %q: %d different outcomes", w, len(outcomes))
		if !outcomes[fmt.Sprint(full)] || len(outcomes) > 1 {
			c.Hit("outcome differs")
			c.NT()
		}
		if len(outcomes) > 1 {
			c.Hit("two outcomes for one word")
		}
	}
	// the merge table is as it was
	if len(*mm) != len(b.merges) {
		c.Fail("the merge table has %d entries, had %d", len(*mm), len(b.merges))
	}
	for k, v := range b.merges {
		if g, ok := mm.Get(b.id(k[0]), b.id(k[1])); !ok || g.Rank != v.rank || g.ID != b.id(v.id) {
			c.Fail("merge %v is %v (ok=%v), was %v", k, g, ok, v)
		}
	}
}

// ---------------------------------------------------------------- C19

var fixedWPs = func() (out []*refWP) {
	mk := func(unk, prefix string, max int, terms ...string) {
		w := &refWP{ids: map[string]int{}, unk: unk, prefix: prefix, max: max}
		for _, t := range terms {
			w.add(t)
		}
		out = append(out, w)
	}
	mk("[UNK]", "##", 100, "[UNK]", "a", "##a", "é", "##é", "世", "##世", "𝔾", "##𝔾", "aé", "##世a", "世𝔾é", "##𝔾𝔾")
	mk("[UNK]", "##", 3, "[UNK]", "a", "##a", "aa", "##é", "世", "##世世")
	mk("[UNK]", "", 100, "[UNK]", "a", "é", "世", "éa", "a世", "𝔾世a")
	mk("[UNK]", "##", 100, "a", "##é", "世", "##𝔾", "##a")
	mk("[UNK]", "世", 4, "[UNK]", "a", "世a", "é", "世é", "世", "世世", "𝔾", "世𝔾")
	mk("[UNK]", "##", 0, "[UNK]", "a")
	mk("[UNK]", "##", 5, "[UNK]", "aé世𝔾a", "aé世𝔾", "##a", "##世a", "é世", "##𝔾é", "𝔾", "##世", "世", "##aé")
	mk("a", "##", 2, "a", "é", "##a", "##世")
	mk("", "##", 100, "", "a", "##a", "##é世")
	mk("[UNK]", "#", 100, "[UNK]", "#", "##", "#a", "a", "a#", "é", "#é", "#世𝔾")
	return
}()

func caseC19(c *Ctx) {
	if c.Huge {
		hugeC19(c)
		return
	}
	one := func(w *refWP, m *wordpiecemodel.WordPieceModel, s string) {
		want, bad := w.tokenize(s)
		got, err := m.Tokenize(s)
		c.cmpTokens(fmt.Sprintf("word %q\n with %s", s, w), got, err, want, bad)
		n := utf8.RuneCountInString(s)
		switch {
		case s == "":
			c.Hit("empty word")
		case n > w.max && bad:
			c.Hit("error too long")
			c.NT()
		case n > w.max:
			c.Hit("too long")
			c.NT()
		case bad:
			c.Hit("unknown token absent")
			c.NT()
		case len(want) == 1 && want[0].V == w.unk && want[0].E == len(s):
			c.Hit("unknown word")
			c.NT()
		case len(want) > 1:
			c.Hit("several pieces")
			c.NT()
			for _, t := range want {
				if t.E < len(s) && s[len(s)-1] >= 0x80 {
					c.Hit("multi-byte shrink")
				}
			}
		}
		if n == w.max {
			c.Hit("exactly the maximum")
		}
		if w.prefix == "" {
			c.Hit("empty prefix")
		}
		if !bad {
			pos := 0
			for _, t := range got {
				if t.Offsets.Start != pos || t.Offsets.End < pos {
					c.Fail("word %q: tokens %v do not tile it", s, fmtToks(got))
				}
				pos = t.Offsets.End
			}
			if pos != len(s) {
				c.Fail("word %q: tokens %v end at %d", s, fmtToks(got), pos)
			}
		}
	}
	if c.Enum >= 0 {
		s := enumString([]string{"a", "é", "世", "𝔾"}, c.Enum)
		c.Log("word %q under %d fixed vocabularies", s, len(fixedWPs))
		c.K(s)
		for _, w := range fixedWPs {
			one(w, w.model(), s)
		}
		if s != "" {
			m := wordpiecemodel.NewDefault()
			if _, err := m.Tokenize(s); err == nil {
				c.Fail("a default model without vocabulary tokenizes %q", s)
			}
		}
		return
	}
	w := c.genWP()
	c.Log("%s", w)
	c.K(w.String())
	m := w.model()
	for n := c.R(1, 4); n > 0; n-- {
		s := ""
		switch c.N(4) {
		case 0:
			s = c.word(w.alpha, 10, true)
		case 1: // a concatenation of entries
			for k := c.R(1, 5); k > 0 && len(w.terms) > 0; k-- {
				s += strings.TrimPrefix(pick(c.Src, w.terms), w.prefix)
			}
		case 2: // around the maximum
			l := w.max + c.R(-1, 1)
			if l > 500 {
				l = 20
			}
			for i := 0; i < l; i++ {
				s += string(pick(c.Src, w.alpha))
			}
		default:
			s = c.word(w.alpha, 8, false)
		}
		c.Log("word %q", s)
		c.K(s)
		one(w, m, s)
	}
}

// ---------------------------------------------------------------- C20, C21

var scratch struct {
	sync.Once
	dir string
	mu  sync.Mutex
	n   int
}

func scratchFile(content []byte) string {
	scratch.Do(func() {
		base := "/dev/shm"
		if st, err := os.Stat(base); err != nil || !st.IsDir() {
			base = ""
		}
		d, err := os.MkdirTemp(base, "vh-files-")
		if err != nil {
			d, err = os.MkdirTemp("", "vh-files-")
			if err != nil {
				panic(skipCase{})
			}
		}
		scratch.dir = d
	})
	scratch.mu.Lock()
	scratch.n++
	p := filepath.Join(scratch.dir, fmt.Sprintf("f%d", scratch.n))
	scratch.mu.Unlock()
	if err := os.WriteFile(p, content, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, "scratch file:", err)
		panic(skipCase{})
	}
	return p
}

func cleanScratch() {
	if scratch.dir != "" {
		_ = os.RemoveAll(scratch.dir)
	}
}

// jsonString writes a JSON string with escapes of various kinds.
func (c *Ctx) jsonString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 0x20 || c.One(8) && r < 0x10000:
			fmt.Fprintf(&b, `\u%04x`, r)
		case r >= 0x10000 && c.One(3):
			x := r - 0x10000
			fmt.Fprintf(&b, `\u%04X\u%04X`, 0xd800+(x>>10), 0xdc00+(x&0x3ff))
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (c *Ctx) terms(n int) []string {
	seen := map[string]bool{}
	var out []string
	for k := 0; k < n; k++ {
		var t string
		switch c.N(5) {
		case 0:
			t = c.TextN(c.N(4))
		case 1:
			t = c.word([]rune("ab"), 3, false)
		case 2:
			t = pick(c.Src, snippets)
		case 3:
			t = string(c.Rune())
		default:
			t = fmt.Sprintf("t%d", c.N(n*2))
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

// idMap draws distinct ids for terms.
func (c *Ctx) idMap(terms []string) (map[string]int, string) {
	m := map[string]int{}
	used := map[int]bool{}
	mode := c.N(5)
	names := []string{"dense", "dense", "sparse", "negative", "shifted"}
	for i, t := range terms {
		id := i
		switch mode {
		case 1:
			id = len(terms) - 1 - i
		case 2:
			id = c.N(3 * (len(terms) + 1))
			switch c.N(20) {
			case 0, 1:
				id = c.N(1 << 30)
			case 2:
				id = pick(c.Src, []int{1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 53, 1 << 62}) + c.R(-2, 3)
			case 3:
				id = 1<<63 - 1 - len(terms) - c.N(4)
			}
		case 3:
			id = -i - c.N(3)
			if c.One(12) {
				id = pick(c.Src, []int{-1 << 8, -1 << 15, -1 << 31, -1 << 32, -1 << 53, -1 << 63}) + c.N(4)
			}
		case 4:
			id = i + 1
		}
		for used[id] {
			id++
		}
		used[id] = true
		m[t] = id
	}
	return m, names[mode]
}

func (c *Ctx) writeVocabJSON(terms []string, m map[string]int) []byte {
	var b strings.Builder
	b.WriteString("{")
	for i, t := range terms {
		if i > 0 {
			b.WriteString(",")
		}
		if c.One(4) {
			b.WriteString(pick(c.Src, []string{" ", "\n", "\t", "\r\n  "}))
		}
		b.WriteString(c.jsonString(t))
		b.WriteString(":")
		if c.One(4) {
			b.WriteString(" ")
		}
		fmt.Fprintf(&b, "%d", m[t])
	}
	b.WriteString("}")
	if c.One(3) {
		b.WriteString("\n")
	}
	return []byte(b.String())
}

func (c *Ctx) cmpVocab(what string, v *vocabulary.Vocabulary, ids map[string]int, byID map[int]string, absent []string) {
	c.obs++
	if v.Size() != len(ids) {
		c.Fail("%s: size %d, expected %d", what, v.Size(), len(ids))
	}
	for t, id := range ids {
		if g, ok := v.GetID(t); !ok || g != id {
			c.Fail("%s: id of %q is %d (found %v), expected %d", what, t, g, ok, id)
		}
		if g, ok := v.GetString(id); !ok || g != t {
			c.Fail("%s: term of id %d is %q (found %v), expected %q", what, id, g, ok, t)
		}
	}
	for _, t := range absent {
		if _, ok := ids[t]; ok {
			continue
		}
		if g, ok := v.GetID(t); ok {
			c.Fail("%s: absent term %q has id %d", what, t, g)
		}
		c.Hit("absent term")
	}
	for _, id := range []int{-1, -2, 0, 1, len(ids) - 1, len(ids), len(ids) + 1, 1 << 40, -1 << 40} {
		if _, ok := byID[id]; ok {
			continue
		}
		if g, ok := v.GetString(id); ok {
			c.Fail("%s: absent id %d has term %q", what, id, g)
		}
		c.Hit("absent id")
	}
}

func caseC20(c *Ctx) {
	if c.Huge {
		hugeC20(c)
		return
	}
	ids, byID := map[string]int{}, map[int]string{}
	var v *vocabulary.Vocabulary
	loaded := false
	if c.Bool() {
		v = vocabulary.NewVocabulary()
		c.Hit("empty start")
	} else {
		terms := c.terms(c.N(12))
		m, mode := c.idMap(terms)
		f := scratchFile(c.writeVocabJSON(terms, m))
		var err error
		v, err = vocabulary.FromJSONFile(f)
		_ = os.Remove(f)
		if err != nil {
			c.Fail("loading %v: %v", m, err)
		}
		c.Log("loaded %v", m)
		loaded = true
		c.Hit("loaded " + mode)
		if mode != "dense" {
			c.Hit("loaded sparse")
		}
		for t, id := range m {
			ids[t] = id
			byID[id] = t
		}
		c.cmpVocab("after loading", v, ids, byID, nil)
	}
	pool := c.terms(c.R(1, 20))
	for t := range ids {
		if c.Bool() {
			pool = append(pool, t)
		}
	}
	n := c.R(5, 60)
	if c.One(60) {
		n = 2500
		for i := 0; i < 1500; i++ {
			pool = append(pool, fmt.Sprintf("w%d", i))
		}
		c.Hit("many terms")
	}
	if len(pool) > 30 && n < 100 {
		pool = pool[:30]
	}
	sortStrings(pool)
	for k := 0; k < n; k++ {
		t := pick(c.Src, pool)
		if c.One(12) {
			t = ""
		}
		v.AddTerm(t)
		if t == "" {
			c.Hit("empty term")
		}
		c.Log("AddTerm %q", t)
		if _, ok := ids[t]; ok {
			c.Hit("term added twice")
			c.NT()
		} else {
			id, ok := v.GetID(t)
			if !ok {
				c.Fail("%q is absent after being added", t)
			}
			if prev, taken := byID[id]; taken {
				c.Fail("new term %q takes id %d of %q", t, id, prev)
			}
			if _, taken := byID[len(ids)]; taken {
				c.Hit("id taken")
			} else if id != len(ids) {
				c.Fail("new term %q has id %d, expected the number of terms %d", t, id, len(ids))
			}
			ids[t] = id
			byID[id] = t
			if loaded {
				c.NT()
			}
		}
		c.K(t)
		if n < 100 || k%250 == 0 || k == n-1 {
			c.cmpVocab("after adding "+fmt.Sprintf("%q", t), v, ids, byID, pool)
		}
	}
}

func sortStrings(xs []string) {
	for i := 1; i < len(xs); i++ {
		for j := i; j > 0 && xs[j] < xs[j-1]; j-- {
			xs[j], xs[j-1] = xs[j-1], xs[j]
		}
	}
}

func caseC21(c *Ctx) {
	if c.Huge {
		hugeC21(c)
		return
	}
	if c.Bool() {
		c.vocabFile()
	} else {
		c.mergesFile()
	}
}

// sharedIDs loads a file that gives several terms one id. It may be refused;
// else each term has its id, and the id gives one of its terms.
func (c *Ctx) sharedIDs(terms []string, m map[string]int) {
	for n := c.R(1, len(terms)-1); n > 0; n-- {
		m[pick(c.Src, terms)] = m[pick(c.Src, terms)]
	}
	f := scratchFile(c.writeVocabJSON(terms, m))
	v, err := vocabulary.FromJSONFile(f)
	_ = os.Remove(f)
	c.Log("file with terms of the same id %v", m)
	c.K(fmt.Sprint(m))
	if err != nil {
		c.Hit("shared ids refused")
		return
	}
	c.Hit("shared ids")
	if v.Size() != len(m) {
		c.Fail("a vocabulary of %d terms has size %d", len(m), v.Size())
	}
	for t, id := range m {
		c.obs++
		if got, ok := v.GetID(t); !ok || got != id {
			c.Fail("term %q has id %d in the file, the vocabulary gives %d %v (%v)", t, id, got, ok, m)
		}
		s, ok := v.GetString(id)
		if i, known := m[s]; !ok || !known || i != id {
			c.Fail("id %d gives %q %v (%v)", id, s, ok, m)
		}
	}
}

func (c *Ctx) vocabFile() {
	terms := c.terms(c.N(14))
	m, _ := c.idMap(terms)
	if len(terms) > 1 && c.One(12) {
		c.sharedIDs(terms, m)
		return
	}
	good := c.writeVocabJSON(terms, m)
	if c.Bool() {
		f := scratchFile(good)
		v, err := vocabulary.FromJSONFile(f)
		_ = os.Remove(f)
		c.Log("file %q", good)
		c.K(string(good))
		if err != nil || v == nil {
			c.Fail("loading %q: %v", good, err)
		}
		byID := map[int]string{}
		for t, id := range m {
			byID[id] = t
		}
		c.cmpVocab("loaded", v, m, byID, []string{"certainly absent", ""})
		c.Hit("good vocabulary")
		if len(m) > 1 {
			c.NT()
		}
		return
	}
	bad := string(good)
	kind := c.N(14)
	missing := false
	switch kind {
	case 0:
		bad = ""
	case 1:
		bad = bad[:c.N(len(strings.TrimRight(bad, "\n}")))]
		if json.Valid([]byte(bad)) {
			return
		}
	case 2:
		bad = `["a","b"]`
	case 3:
		bad = inject(c, bad, `"injected by the monitor":"1"`)
	case 4:
		bad = inject(c, bad, `"injected by the monitor":1.5`)
	case 5:
		bad = inject(c, bad, `"injected by the monitor":[1]`)
	case 6:
		bad = inject(c, bad, `"injected by the monitor":{"a":1}`)
	case 7:
		bad = inject(c, bad, `"injected by the monitor":true`)
	case 8:
		bad = inject(c, bad, `"injected by the monitor":99999999999999999999`)
	case 9:
		bad += "{}"
	case 10:
		bad = inject(c, bad, `"injected by the monitor":null`)
		c.Hit("null id")
	case 11:
		missing = true
	case 12:
		bad = inject(c, bad, `zz:1`)
	default:
		bad = pick(c.Src, []string{"3", `"x"`, "true", "{", "}", "[]", "{\"a\":1,}", "{\"a\" 1}", "\x00", "nul"})
	}
	c.Log("malformed %d: %q", kind, bad)
	c.K(bad)
	c.NT()
	f := scratchFile([]byte(bad))
	if missing {
		_ = os.Remove(f)
		c.Hit("missing file")
		if c.Bool() {
			f = scratch.dir // a directory
		}
	}
	v, err := vocabulary.FromJSONFile(f)
	if !missing {
		_ = os.Remove(f)
	}
	if err == nil {
		c.Fail("loading the malformed vocabulary %q (missing file: %v) reports no error: size %d", bad, missing, v.Size())
	}
	if v != nil {
		c.Fail("loading the malformed vocabulary %q gives a vocabulary next to error %v", bad, err)
	}
	c.Hit("bad vocabulary")
	// the file "null" is either refused or an empty vocabulary that can be used
	f = scratchFile([]byte("null"))
	v, err = vocabulary.FromJSONFile(f)
	_ = os.Remove(f)
	if err == nil {
		v.AddTerm("x")
		if id, ok := v.GetID("x"); !ok || id != 0 || v.Size() != 1 {
			c.Fail("a vocabulary loaded from null is unusable: id %d found %v size %d", id, ok, v.Size())
		}
	}
}

func inject(c *Ctx, obj, entry string) string {
	if strings.TrimSpace(obj) == "{}" {
		return "{" + entry + "}"
	}
	if c.Bool() {
		return "{" + entry + "," + obj[1:]
	}
	i := strings.LastIndexByte(obj, '}')
	return obj[:i] + "," + entry + obj[i:]
}

func (c *Ctx) mergesFile() {
	prefixLen := 0
	prefix := ""
	switch c.N(5) {
	case 0:
		prefix = "##"
	case 1:
		prefix = "é"
	case 2:
		prefix = "@"
	}
	prefixLen = len(prefix)
	if prefixLen > 0 {
		c.Hit("prefix length")
	}
	// vocabulary terms without spaces or line breaks
	ids := map[string]int{}
	var terms []string
	add := func(t string) {
		if t == "" || strings.ContainsAny(t, " \n\r") {
			return
		}
		if _, ok := ids[t]; !ok {
			ids[t] = len(terms)
			terms = append(terms, t)
		}
	}
	for n := c.R(2, 6); n > 0; n-- {
		t := c.Word()
		if rs := []rune(t); len(rs) > 3 {
			t = string(rs[:3])
		}
		if c.One(4) {
			t = pick(c.Src, []string{"#", "##", "a", "b", "é", "Ġ", "\t", "\u00a0", "\u2028", "\v"})
		}
		add(t)
		add(prefix + t)
	}
	if len(terms) == 0 {
		add("a")
		add(prefix + "a")
	}
	type mline struct{ l, r string }
	var ms []mline
	for n := c.R(0, 10); n > 0; n-- {
		l, r := pick(c.Src, terms), pick(c.Src, terms)
		if !strings.HasPrefix(r, prefix) {
			continue
		}
		if len(l)+len(r) > 200 {
			continue
		}
		add(l + r[prefixLen:])
		ms = append(ms, mline{l, r})
		if c.One(4) && len(ms) > 1 {
			ms = append(ms, ms[c.N(len(ms))])
			c.Hit("repeated pair")
		}
	}
	eol := "\n"
	if c.One(3) {
		eol = "\r\n"
		c.Hit("crlf")
	}
	var lines []string
	want := map[[2]int]refMerge{}
	rank := 0
	lineOf := make([]int, len(ms)) // physical line number of every merge line
	for i, m := range ms {
		for c.One(5) || i == 0 && c.Bool() {
			lines = append(lines, pick(c.Src, []string{"#version: 0.2", "#version", "#version 1 2 3", "#version: 0.2 - Trained by x"}))
			if i > 0 {
				c.Hit("version line in the middle")
			}
			if c.fuzz {
				break
			}
		}
		if strings.HasPrefix(m.l, "#version") {
			c.Skip()
		}
		lines = append(lines, m.l+" "+m.r)
		lineOf[i] = len(lines)
		want[[2]int{ids[m.l], ids[m.r]}] = refMerge{rank, ids[m.l+m.r[prefixLen:]]}
		rank++
	}
	if c.One(6) {
		lines = append(lines, "#version at the end")
	}
	v := vocabulary.NewVocabulary()
	for _, t := range terms {
		v.AddTerm(t)
	}
	load := func(content string, pl int) (*bpemodel.MergeMap, error) {
		f := scratchFile([]byte(content))
		m, err := bpemodel.MergeMapFromFile(f, v, pl)
		_ = os.Remove(f)
		return m, err
	}
	join := func(ls []string) string {
		s := strings.Join(ls, eol)
		if len(ls) > 0 && c.Bool() {
			s += eol
		} else if len(ls) > 0 {
			c.Hit("no final newline")
		}
		return s
	}
	for _, l := range lines {
		if strings.HasSuffix(l, "\r") {
			c.Skip()
		}
	}
	content := join(lines)
	c.K(content)
	c.Ki(prefixLen)
	if c.Bool() || len(ms) == 0 {
		c.Log("merges file %q prefix length %d terms %q", content, prefixLen, terms)
		m, err := load(content, prefixLen)
		if err != nil || m == nil {
			c.Fail("loading %q with prefix length %d: %v", content, prefixLen, err)
		}
		c.obs++
		if len(*m) != len(want) {
			c.Fail("loading %q gives %d merges, expected %d", content, len(*m), len(want))
		}
		for k, w := range want {
			if g, ok := m.Get(k[0], k[1]); !ok || g.Rank != w.rank || g.ID != w.id {
				c.Fail("loading %q: merge of %q and %q is %+v (found %v), expected rank %d id %d", content, terms[k[0]], terms[k[1]], g, ok, w.rank, w.id)
			}
		}
		for i := range terms {
			for j := range terms {
				if _, ok := want[[2]int{i, j}]; ok || len(terms) > 25 {
					continue
				}
				if g, ok := m.Get(i, j); ok {
					c.Fail("loading %q: unexpected merge of %q and %q: %+v", content, terms[i], terms[j], g)
				}
			}
		}
		c.Hit("good merges")
		if len(want) > 1 {
			c.NT()
		}
		return
	}
	// one malformation
	i := c.N(len(ms))
	at := lineOf[i]
	pl := prefixLen
	named := true
	switch kind := c.N(10); kind {
	case 0:
		lines[at-1] = ms[i].l
		c.Hit("one term")
	case 1:
		lines[at-1] = ms[i].l + " " + ms[i].r + " " + ms[i].r
		c.Hit("three terms")
	case 2:
		lines[at-1] = ""
		c.Hit("empty line")
	case 3:
		lines[at-1] = "certainlyAbsent " + ms[i].r
		if t := "certainlyAbsent" + ms[i].r[prefixLen:]; t != "certainlyAbsent" && c.Bool() {
			v.AddTerm(t) // only the term itself is absent
			c.Hit("left term absent, merged term not")
		}
		c.Hit("left term absent")
	case 4:
		r := prefix + "certainlyAbsent"
		lines[at-1] = ms[i].l + " " + r
		if t := ms[i].l + r[prefixLen:]; t != r && c.Bool() {
			v.AddTerm(t)
			c.Hit("right term absent, merged term not")
		}
		c.Hit("right term absent")
	case 5: // a pair whose concatenation is no term
		l, r := pick(c.Src, terms), pick(c.Src, terms)
		if len(r) < prefixLen {
			return
		}
		if _, ok := ids[l+r[prefixLen:]]; ok || strings.HasPrefix(l, "#version") {
			return
		}
		lines[at-1] = l + " " + r
		c.Hit("merged term absent")
	case 6: // the right part is shorter than the prefix
		pl = len(ms[0].r) + c.R(1, 3)
		at = lineOf[0]
		c.Hit("right part too short")
	case 7:
		lines[at-1] = ms[i].l + "  " + ms[i].r
		c.Hit("three terms")
	case 8:
		pl = -c.R(1, 3)
		at = lineOf[0]
	default:
		named = false
		c.Hit("missing file")
	}
	content = join(lines)
	if lines[at-1] == "" && at == len(lines) {
		content = strings.Join(lines, eol) + eol // an empty last line needs its line end
	}
	c.Log("malformed merges file %q prefix length %d, bad line %d", content, pl, at)
	c.NT()
	var m *bpemodel.MergeMap
	var err error
	if !named {
		f := scratchFile(nil)
		_ = os.Remove(f)
		if c.Bool() {
			f = scratch.dir
		}
		m, err = bpemodel.MergeMapFromFile(f, v, pl)
	} else {
		m, err = load(content, pl)
	}
	if err == nil {
		c.Fail("loading the malformed merges file %q (line %d, prefix length %d) reports no error", content, at, pl)
	}
	if m != nil && len(*m) > 0 {
		c.Fail("loading the malformed merges file %q gives %d merges next to error %v", content, len(*m), err)
	}
	if named {
		if ok, _ := regexp.MatchString(fmt.Sprintf(`\b%d\b`, at), err.Error()); !ok {
			c.Fail("the error %q does not name line %d of %q", err, at, content)
		}
	}
	c.Hit("bad merges")
}
