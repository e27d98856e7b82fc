package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"time"
	"unicode"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	N "github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/sequencenormalizer"
	PT "github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
	SP "github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
)

func init() {
	register(&Prop{
		ID:    "C26",
		Rule:  "A case hands lists of the caller to one part of the library (character transformations, alignments, members of a sequence, texts to wrap, pieces, tokens and captures returned by the caller's functions, tokens to encode, lists of an encoding, words to cache, a vocabulary and merges to build models from, compiled expressions, files to load), uses the same list again, and compares it after every call, spare capacity included, with a copy made before; open files are looked up after every load, goroutines at the end, and nothing may be printed. Non-trivial: the list has two elements at least and was used twice.",
		Need:  []string{"transformations", "alignments", "sequence members", "texts wrapped", "pieces returned", "pieces with tokens returned", "tokens returned", "tokens to encode", "lists of an encoding", "captures split", "captures replaced", "captures inverted", "words cached", "vocabulary and merges", "compiled expression", "vocabulary file", "merges file", "malformed file", "failing call", "package tables"},
		Quick: 1200000, Thorough: 24000000,
		Case:  caseC26,
		Quiet: true,
		Final: goroutinesLeft,
	})
}

// held is a list of the caller, with spare room behind it, and a copy of all of it.
type held[T any] struct {
	list, all, was []T
	same           func(a, b T) bool
}

func hold[T any](c *Ctx, xs []T, filler T) *held[T] {
	h := &held[T]{}
	h.all = make([]T, len(xs)+c.N(4))
	copy(h.all, xs)
	for i := len(xs); i < len(h.all); i++ {
		h.all[i] = filler
	}
	h.was = append([]T(nil), h.all...)
	h.list = h.all[:len(xs)]
	return h
}

func (h *held[T]) check(c *Ctx, what, list string) {
	c.obs++
	for i := range h.was {
		if h.same != nil && h.same(h.all[i], h.was[i]) || h.same == nil && reflect.DeepEqual(h.all[i], h.was[i]) {
			continue
		}
		where := "element"
		if i >= len(h.list) {
			where = "the room behind the end, element"
		}
		c.Fail("%s alters the caller's %s: %s %d is now %+v, it was %+v", what, list, where, i, h.all[i], h.was[i])
	}
	if len(h.list) > 1 {
		c.NT()
	}
}

var errArgs = errors.New("failure injected by the monitor")

func caseC26(c *Ctx) {
	k := c.N(16)
	c.Ki(k)
	switch k {
	case 0:
		c.argTransform()
	case 1:
		c.argAlignments()
	case 2:
		c.argSequence()
	case 3, 4, 5:
		c.argPieces()
	case 6:
		c.argTokens()
	case 7:
		c.argEncodable()
	case 8, 9:
		c.argCaptures()
	case 10:
		c.argWords()
	case 11, 12:
		c.argVocabulary()
	case 13:
		c.argExpressions()
	default:
		c.argFiles()
	}
}

func (c *Ctx) argTransform() {
	c.Hit("transformations")
	s := c.Text()
	ns, r := c.root(s)
	for n := c.N(3); n > 0; n-- {
		c.edit(ns, r)
	}
	i, j := 0, len(r.Cells)
	if c.Bool() && j > 0 {
		i = c.N(j + 1)
		j = i + c.N(j-i+1)
	}
	ch, init := c.changes(r.Cells, i, j)
	h := hold(c, toRuneChanges(ch), N.RuneChange{Rune: 'z', Change: -77})
	st := r.starts()
	c.K(r.text())
	c.Log("transformations %v, initial offset %d, of %s", ch, init, r)
	// another text with the same content
	var tw *N.NormalizedString
	var rt *refNS
	if len(r.Cells) > 0 {
		rt = r.sliceCells(0, len(r.Cells))
		var ok bool
		if tw, ok = ns.Slice(N.NewNormalizedRange(0, ns.Len())); !ok {
			c.Fail("the whole text cannot be cut")
		}
	}
	ns.TransformRange(N.NewNormalizedRange(st[i], st[j]), h.list, init)
	h.check(c, "TransformRange", "list of transformations")
	r.transform(i, j, ch, init)
	c.cmpNS("transformed", ns, r)
	if tw == nil {
		return
	}
	if c.One(4) { // lists that are not allowed are only read, too
		bad := hold(c, h.list, N.RuneChange{Rune: 'y', Change: 9})
		for n := c.R(1, 3); n > 0 && len(bad.all) > 0; n-- {
			k := c.N(len(bad.all))
			bad.all[k].Change = pick(c.Src, []int{2, 5, -40, 1000, 0})
			bad.was[k] = bad.all[k]
		}
		x := N.FromString(r.Orig)
		func() {
			defer func() { _ = recover() }()
			x.Transform(bad.list, pick(c.Src, []int{0, 0, 1, -1, 99}))
		}()
		bad.check(c, "Transform", "list of transformations")
		c.Hit("transformations not allowed")
	}
	if i == 0 && j == len(rt.Cells) && c.Bool() {
		tw.Transform(h.list, init)
	} else {
		tw.TransformRange(N.NewNormalizedRange(st[i], st[j]), h.list, init)
	}
	h.check(c, "TransformRange", "list of transformations")
	rt.transform(i, j, ch, init)
	c.cmpNS("another text transformed by the same list", tw, rt)
}

func (c *Ctx) argAlignments() {
	c.Hit("alignments")
	s := c.Text()
	h := hold(c, N.FromString(s).OriginalAlignments(), N.AlignmentRange{})
	c.K(s)
	c.Log("alignments of %q", s)
	for n := 0; n < 2; n++ {
		ns := N.New(s, s, h.list, 0)
		r := refFrom(s)
		c.cmpNS("made from a list of alignments", ns, r)
		ns, r = c.history(ns, r, c.R(1, 4), false)
		h.check(c, "editing a text", "list of alignments it was made from")
		c.cmpNS("edited", ns, r)
	}
}

type countNorm struct{ n, fail int }

func (x *countNorm) Normalize(ns *N.NormalizedString) error {
	x.n++
	if x.n == x.fail {
		return errArgs
	}
	ns.Append("+")
	return nil
}

func (c *Ctx) argSequence() {
	c.Hit("sequence members")
	var ms []normalizers.Normalizer
	for n := c.N(5); n > 0; n-- {
		switch c.N(5) {
		case 0:
			ms = append(ms, nil)
			ms[len(ms)-1] = &countNorm{fail: c.N(4)}
		case 1:
			ms = append(ms, &countNorm{})
		case 2:
			ms = append(ms, sequencenormalizer.NewSequenceNormalizer(nil))
		default:
			ms = append(ms, c.genNormalizer(1).lib)
		}
	}
	h := hold[normalizers.Normalizer](c, ms, &countNorm{})
	h.same = func(a, b normalizers.Normalizer) bool { return a == b || reflect.DeepEqual(a, b) }
	seq := sequencenormalizer.NewSequenceNormalizer(h.list)
	h.check(c, "NewSequenceNormalizer", "list of members")
	for n := 3; n > 0; n-- {
		s := c.Text()
		c.K(s)
		if err := seq.Normalize(N.FromString(s)); err != nil {
			c.Hit("failing call")
		}
		h.check(c, "Normalize of a sequence", "list of members")
	}
}

func (c *Ctx) libTokens(n, length int) []models.Token {
	out := make([]models.Token, n)
	for i := range out {
		a := c.N(length + 1)
		b := a + c.N(length-a+1)
		if c.One(8) { // off the text
			b += 1 + c.N(9)
			if c.Bool() {
				a += 1 + c.N(9)
			}
		} else if c.One(12) {
			a, b = b, a
		}
		out[i] = models.Token{ID: c.R(-3, 100), Value: pick(c.Src, snippets), Offsets: strutils.ByteOffsets{Start: a, End: b}}
	}
	return out
}

// tokensHeld are token lists handed out, each with its copy.
type tokensHeld []*held[models.Token]

func (t tokensHeld) check(c *Ctx, what string) {
	for _, h := range t {
		h.check(c, what, "list of tokens")
	}
}

var fillTok = models.Token{ID: -99, Value: "behind the end"}

func samePiece(a, b PT.Split) bool {
	return a.NormalizedString == b.NormalizedString && a.Tokens == b.Tokens
}

func (c *Ctx) argPieces() {
	s := c.Text()
	c.K(s)
	ns := N.FromString(s)
	p := PT.FromNormalizedString(ns)
	var toks tokensHeld
	var lists []*held[PT.Split]
	var wrapped []*held[*N.NormalizedString]
	kept := &held[PT.Split]{}
	if c.One(3) { // the same list for every piece
		kept = hold(c, []PT.Split{{NormalizedString: N.FromString("x")}, {NormalizedString: N.FromString("")}, {NormalizedString: N.FromString("é y")}}, PT.Split{NormalizedString: ns})
		kept.same = samePiece
		lists = append(lists, kept)
	}
	check := func(what string) {
		for _, h := range lists {
			h.check(c, what, "list of pieces")
		}
		for _, h := range wrapped {
			h.check(c, what, "list of texts")
		}
		toks.check(c, what)
	}
	for n := c.R(2, 5); n > 0; n-- {
		switch c.N(6) {
		case 0, 1, 2:
			calls, fail := 0, -1
			if c.One(6) {
				fail = c.N(3)
			}
			err := p.Split(func(_ int, x *N.NormalizedString) ([]PT.Split, error) {
				calls++
				if kept.list != nil && c.Bool() {
					return kept.list, nil
				}
				pat := c.genPat(x.Get(), 0)
				_, _ = pat.captures(x.Get()) // gives the case up where the engine itself panics
				pieces, err := x.Split(pat.sp, behaviours[c.N(5)])
				if err != nil {
					return nil, err
				}
				c.Log("piece %q split by %s", x.Get(), pat.desc)
				for k := c.N(3); k > 0; k-- { // empty ones in between
					at := c.N(len(pieces) + 1)
					pieces = append(pieces[:at:at], append([]*N.NormalizedString{N.FromString("")}, pieces[at:]...)...)
				}
				w := hold(c, pieces, x)
				w.same = func(a, b *N.NormalizedString) bool { return a == b }
				wrapped = append(wrapped, w)
				out := PT.SplitsFromNormalizedStrings(w.list)
				w.check(c, "SplitsFromNormalizedStrings", "list of texts")
				c.Hit("texts wrapped")
				for k := range out {
					if c.One(5) {
						h := hold(c, c.libTokens(c.N(3), len(out[k].NormalizedString.Get())), fillTok)
						toks = append(toks, h)
						out[k].Tokens = &h.list
						c.Hit("pieces with tokens returned")
					}
				}
				h := hold(c, out, PT.Split{NormalizedString: x})
				h.same = samePiece
				lists = append(lists, h)
				c.Hit("pieces returned")
				if calls == fail {
					c.Hit("failing call")
					return h.list, errArgs
				}
				return h.list, nil
			})
			if err != nil && !errors.Is(err, errArgs) {
				c.Fail("Split: %v", err)
			}
			check("Split")
		case 3:
			err := p.Normalize(func(x *N.NormalizedString) error {
				x.Append("!")
				return nil
			})
			if err != nil {
				c.Fail("Normalize: %v", err)
			}
			check("Normalize")
		case 4:
			_ = p.GetOriginalByteSplits()
			_ = p.GetNormalizedByteSplits()
			_ = p.Splits()
			check("listing the pieces")
		default:
			share := hold(c, c.libTokens(c.R(1, 3), 1), fillTok)
			toks = append(toks, share)
			err := p.Tokenize(func(x *N.NormalizedString) ([]models.Token, error) {
				if c.Bool() && x.Len() > 0 {
					return share.list, nil
				}
				h := hold(c, c.libTokens(c.N(3), x.Len()), fillTok)
				toks = append(toks, h)
				return h.list, nil
			})
			if err != nil {
				c.Fail("Tokenize: %v", err)
			}
			check("Tokenize")
		}
	}
	if _, err := p.IntoEncoding(c.R(-1, 2), 0); err != nil {
		c.Hit("failing call")
	}
	check("IntoEncoding")
}

// argTokens: a tokenizer that keeps its lists of tokens, over several texts.
func (c *Ctx) argTokens() {
	c.Hit("tokens returned")
	known := map[string]*held[models.Token]{}
	var all tokensHeld
	tokenize := func(x *N.NormalizedString) ([]models.Token, error) {
		t := x.Get()
		h := known[t]
		if h == nil {
			h = hold(c, c.libTokens(c.N(4), len(t)), fillTok)
			known[t] = h
			all = append(all, h)
		}
		return h.list, nil
	}
	text := c.Text() + " a b a"
	c.K(text)
	var first *encodings.Encoding
	var copied encodings.Encoding
	for n := 0; n < 3; n++ {
		p := PT.FromString(text)
		err := p.Split(func(_ int, x *N.NormalizedString) ([]PT.Split, error) {
			ps, err := x.Split(SP.FromRune(' '), N.SplitDelimiterRemoved)
			return PT.SplitsFromNormalizedStrings(ps), err
		})
		if err != nil {
			c.Fail("Split: %v", err)
		}
		if err = p.Tokenize(tokenize); err != nil {
			c.Fail("Tokenize: %v", err)
		}
		all.check(c, "Tokenize")
		e, err := p.IntoEncoding(-1, 0)
		if err != nil {
			c.Fail("IntoEncoding: %v", err)
		}
		all.check(c, "IntoEncoding")
		if first == nil {
			first, copied = e, *e
			copied.Offsets = append([]strutils.ByteOffsets(nil), e.Offsets...)
		} else if !reflect.DeepEqual(e.IDs, first.IDs) || !reflect.DeepEqual(append([]strutils.ByteOffsets(nil), e.Offsets...), copied.Offsets) {
			c.Fail("the same text tokenized again by a tokenizer that keeps its lists gives ids %v offsets %v, at first %v %v", e.IDs, e.Offsets, copied.IDs, copied.Offsets)
		}
	}
}

func (c *Ctx) argEncodable() {
	c.Hit("tokens to encode")
	n := c.Small(6, 100)
	in := make([]encodings.EncodableToken, n)
	for i := range in {
		in[i] = encodings.EncodableToken{ID: c.N(1000), Token: pick(c.Src, snippets), Offsets: strutils.ByteOffsets{Start: c.N(9), End: 9 + c.N(9)}, WordIndex: c.R(-1, 5), TypeID: c.N(3)}
		c.Ki(in[i].ID)
	}
	h := hold(c, in, encodings.EncodableToken{ID: -5, Token: "behind"})
	e := encodings.EncodingFromEncodableTokens(h.list)
	h.check(c, "EncodingFromEncodableTokens", "list of tokens")
	// and the lists of an encoding put together by the caller
	ids, types, words := hold(c, e.IDs, -1), hold(c, e.TypeIDs, -1), hold(c, e.Words, -7)
	special, attention := hold(c, e.SpecialTokensMask, -1), hold(c, e.AttentionMask, -1)
	toks, offs := hold(c, e.Tokens, "behind"), hold(c, e.Offsets, strutils.ByteOffsets{Start: -1, End: -1})
	over := hold(c, []*encodings.Encoding{e}, nil)
	over.same = func(a, b *encodings.Encoding) bool { return a == b }
	for k := 0; k < 2; k++ {
		e2 := encodings.NewEncoding(ids.list, types.list, toks.list, words.list, offs.list, special.list, attention.list, over.list)
		if e2.Len() != n || e2.IsEmpty() != (n == 0) {
			c.Fail("an encoding of %d ids has length %d, empty %v", n, e2.Len(), e2.IsEmpty())
		}
		for _, l := range []*held[int]{ids, types, words, special, attention} {
			l.check(c, "an encoding", "list")
		}
		toks.check(c, "an encoding", "list of texts")
		offs.check(c, "an encoding", "list of offsets")
		over.check(c, "an encoding", "list of overflowing encodings")
	}
	c.Hit("lists of an encoding")
}

type heldPattern struct {
	text string
	h    *held[SP.Capture]
}

func (p *heldPattern) FindMatches(s string) ([]SP.Capture, error) {
	if s != p.text {
		return []SP.Capture{{Offsets: strutils.ByteOffsets{Start: 0, End: len(s)}}}, nil
	}
	return p.h.list, nil
}

func (c *Ctx) argCaptures() {
	s := c.Text()
	ns, r := c.root(s)
	if c.Bool() {
		c.edit(ns, r)
	}
	t := r.text()
	c.K(t)
	cs, _ := c.genTiling(t).captures(t)
	in := make([]SP.Capture, len(cs))
	for i, x := range cs {
		in[i] = SP.Capture{Offsets: strutils.ByteOffsets{Start: x.S, End: x.E}, IsMatch: x.M}
	}
	h := hold(c, in, SP.Capture{Offsets: strutils.ByteOffsets{Start: -3, End: -4}, IsMatch: true})
	pat := &heldPattern{t, h}
	var sp SP.SplitPattern = pat
	for n := c.N(3); n > 0; n-- {
		sp = SP.Invert(sp)
		c.Hit("captures inverted")
	}
	c.Log("captures %v of %q", cs, t)
	for n := 0; n < 2; n++ {
		for b := range behaviours {
			if _, err := ns.Split(sp, behaviours[b]); err != nil {
				c.Fail("Split: %v", err)
			}
			h.check(c, "Split ("+behaviourNames[b]+")", "list of captures")
		}
		c.Hit("captures split")
	}
	for _, x := range cs {
		if x.S == x.E {
			return // replacing at zero width changes nothing that is looked at here
		}
	}
	if err := ns.Replace(sp, pick(c.Src, []string{"", "x", "é世"})); err != nil {
		c.Fail("Replace: %v", err)
	}
	h.check(c, "Replace", "list of captures")
	c.Hit("captures replaced")
}

func (c *Ctx) argWords() {
	c.Hit("words cached")
	cache := bpemodel.NewCache(pick(c.Src, []int{0, 1, 3, 100}))
	var keys []string
	var words []*bpemodel.Word
	var ids [][]int
	for n := c.N(6); n > 0; n-- {
		keys = append(keys, c.Word())
		w := bpemodel.NewWord()
		var l []int
		for k := c.N(4); k > 0; k-- {
			l = append(l, c.N(50))
			w.Add(l[len(l)-1], 1)
		}
		words, ids = append(words, w), append(ids, l)
	}
	hk := hold(c, keys, "behind")
	hw := hold(c, words, nil)
	hw.same = func(a, b *bpemodel.Word) bool { return a == b }
	for n := 0; n < 2; n++ {
		cache.SetValues(hk.list, hw.list)
		got := cache.GetValues(hk.list)
		hk.check(c, "a word cache", "list of keys")
		hw.check(c, "a word cache", "list of words")
		for i := range got {
			got[i] = nil
		}
		hw.check(c, "emptying the list got from a word cache", "list of words")
		for i, w := range words {
			if w.Len() != len(ids[i]) {
				c.Fail("a word cache alters a word of %d symbols, it has %d", len(ids[i]), w.Len())
			}
			for k, x := range *w {
				if x.ID != ids[i][k] || x.Length != 1 || x.Prev != k-1 || (x.Next != k+1) != (k == len(ids[i])-1) {
					c.Fail("a word cache alters symbol %d of a word: %+v", k, *x)
				}
			}
		}
	}
}

// argVocabulary: models only read the vocabulary and the merges they are given.
func (c *Ctx) argVocabulary() {
	c.Hit("vocabulary and merges")
	terms := map[string]int{}
	v := vocabulary.NewVocabulary()
	look := func(what string, absent ...string) {
		c.obs++
		if v.Size() != len(terms) {
			c.Fail("%s leaves %d terms in the vocabulary where there were %d", what, v.Size(), len(terms))
		}
		for t, id := range terms {
			if g, ok := v.GetID(t); !ok || g != id {
				c.Fail("%s changes the id of %q from %d to %d (found %v)", what, t, id, g, ok)
			}
			if g, ok := v.GetString(id); !ok || g != t {
				c.Fail("%s changes the term of id %d from %q to %q (found %v)", what, id, t, g, ok)
			}
		}
		for _, a := range absent {
			if _, known := terms[a]; known {
				continue
			}
			if id, ok := v.GetID(a); ok {
				c.Fail("%s puts %q into the vocabulary, id %d", what, a, id)
			}
		}
	}
	add := func(t string) int {
		if id, ok := terms[t]; ok {
			return id
		}
		v.AddTerm(t)
		terms[t] = len(terms)
		return terms[t]
	}
	word := c.Word()
	rs := []rune(word + "xy")
	for _, r := range rs {
		if c.N(5) > 0 {
			add(string(r))
			add("##" + string(r))
		}
	}
	unk := pick(c.Src, []string{"", "[UNK]", "<unk>"})
	if unk != "" && c.Bool() {
		add(unk)
	}
	c.K(word)
	mm := bpemodel.NewMergeMap()
	merges := map[[2]int]bpemodel.MergeValue{}
	for i := 0; i+1 < len(rs); i++ {
		if c.Bool() {
			l, okl := terms[string(rs[i])]
			r, okr := terms[string(rs[i+1])]
			if okl && okr {
				mv := bpemodel.MergeValue{Rank: c.N(5), ID: add(string(rs[i : i+2]))}
				mm.Set(l, r, mv)
				merges[[2]int{l, r}] = mv
			}
		}
	}
	lookMerges := func(what string) {
		c.obs++
		if len(*mm) != len(merges) {
			c.Fail("%s leaves %d merges of %d", what, len(*mm), len(merges))
		}
		for p, mv := range merges {
			if g, ok := mm.Get(p[0], p[1]); !ok || g != mv {
				c.Fail("%s changes the merge of %v from %+v to %+v (found %v)", what, p, mv, g, ok)
			}
		}
	}
	var ms []models.Model
	for n := 0; n < 2; n++ {
		ms = append(ms, wordpiecemodel.New(v, unk, "##", pick(c.Src, []int{100, 3, 0})))
		ms = append(ms, bpemodel.New(v, mm, pick(c.Src, []int{0, 1, 100}), pick(c.Src, []float64{0, 0, 0.3, 1}), unk, pick(c.Src, []string{"", "##"}), pick(c.Src, []string{"", "</w>"}), c.Bool()))
	}
	absent := []string{"certainly absent", "", "##", "</w>", "[UNK]", "<unk>", word}
	look("building models", absent...)
	lookMerges("building models")
	for n := c.R(1, 4); n > 0; n-- {
		w := c.Word() + word
		absent = append(absent, w, string([]rune(w)[:1]))
		for _, m := range ms {
			if _, err := m.Tokenize(w); err != nil {
				c.Hit("failing call")
			}
		}
	}
	look("tokenizing", absent...)
	lookMerges("tokenizing")
	if len(merges) > 0 {
		c.NT()
	}
}

// argExpressions: a compiled expression stays as it was compiled.
func (c *Ctx) argExpressions() {
	c.Hit("compiled expression")
	re := regexp.MustCompile(`a|ab|é+?`)
	limit := time.Duration(1+c.N(1000)) * time.Minute
	re2 := regexp2.MustCompile(`a|ab|é+?`, pick(c.Src, []regexp2.RegexOptions{0, regexp2.RightToLeft, regexp2.IgnoreCase}))
	re2.MatchTimeout = limit
	rtl := re2.RightToLeft()
	s := c.Text() + pick(c.Src, []string{"abab", "ééa", "xaby"})
	c.K(s)
	for n := 0; n < 2; n++ {
		for _, sp := range []SP.SplitPattern{SP.FromRegexp(re), SP.FromRegexp2(re2), SP.Invert(SP.FromRegexp(re)), SP.Invert(SP.FromRegexp2(re2))} {
			if _, err := sp.FindMatches(s); err != nil {
				c.Fail("FindMatches: %v", err)
			}
			if _, err := N.FromString(s).Split(sp, N.SplitDelimiterIsolated); err != nil {
				c.Fail("Split: %v", err)
			}
		}
		for _, pt := range []interface {
			PreTokenize(*PT.PreTokenizedString) error
		}{whitespacepretokenizer.New(re2), bytelevelpretokenizer.New(re2, c.Bool(), c.Bool())} {
			if err := pt.PreTokenize(PT.FromString(s)); err != nil {
				c.Fail("PreTokenize: %v", err)
			}
		}
		c.obs++
		if g := re.FindString("ab"); g != "a" || re.String() != `a|ab|é+?` {
			c.Fail("a compiled expression of the caller matches %q in \"ab\" after the library used it, \"a\" before", g)
		}
		if re2.MatchTimeout != limit || re2.RightToLeft() != rtl || re2.String() != `a|ab|é+?` {
			c.Fail("a compiled expression of the caller has time limit %v (set to %v), right to left %v (was %v)", re2.MatchTimeout, limit, re2.RightToLeft(), rtl)
		}
	}
	c.NT()
	if c.One(20) {
		c.Hit("package tables")
		for name, was := range tablesWere {
			if !reflect.DeepEqual(tablesNow[name], was) {
				c.Fail("the table unicode.%s is no longer what it was when the program started", name)
			}
		}
		for i, d := range []*regexp2.Regexp{bytelevelpretokenizer.DefaultSplittingRegexp, whitespacepretokenizer.DefaultWordRegexp} {
			if d.String() != defaultsWere[i].text || d.MatchTimeout != defaultsWere[i].limit {
				c.Fail("a default expression changed from %v to %q, time limit %v", defaultsWere[i], d.String(), d.MatchTimeout)
			}
		}
	}
}

type defaultExpr struct {
	text  string
	limit time.Duration
}

var tablesNow = map[string]*unicode.RangeTable{"White_Space": unicode.White_Space, "Mn": unicode.Mn, "Punct": unicode.Punct, "Other": unicode.Other, "Han": unicode.Han, "Letter": unicode.Letter, "Digit": unicode.Digit}

var tablesWere = func() map[string]*unicode.RangeTable {
	out := map[string]*unicode.RangeTable{}
	for k, t := range tablesNow {
		out[k] = &unicode.RangeTable{R16: append([]unicode.Range16(nil), t.R16...), R32: append([]unicode.Range32(nil), t.R32...), LatinOffset: t.LatinOffset}
	}
	return out
}()

var defaultsWere = []defaultExpr{
	{bytelevelpretokenizer.DefaultSplittingRegexp.String(), bytelevelpretokenizer.DefaultSplittingRegexp.MatchTimeout},
	{whitespacepretokenizer.DefaultWordRegexp.String(), whitespacepretokenizer.DefaultWordRegexp.MatchTimeout},
}

// openedAs tells whether this process has the file open.
func openedAs(path string) bool {
	d, err := os.Open("/proc/self/fd")
	if err != nil {
		return false
	}
	names, _ := d.Readdirnames(-1)
	_ = d.Close()
	for _, n := range names {
		if to, err := os.Readlink("/proc/self/fd/" + n); err == nil && strings.TrimSuffix(to, " (deleted)") == path {
			return true
		}
	}
	return false
}

// argFiles: loading a file only reads it and closes it.
func (c *Ctx) argFiles() {
	var content []byte
	vocab := c.Bool()
	kind := c.N(6)
	if vocab {
		content = []byte(pick(c.Src, []string{`{"a":0,"b":1,"ab":2}`, `{}`, `{"a":`, `{"a":"x"}`, `{"a":null}`, `[1]`, ``, `{"a":0} x`}))
		c.Hit("vocabulary file")
	} else {
		lines := []string{"#version: 0.2", "a b", "ab a"}
		switch kind {
		case 0:
			lines = append(lines, "a b c", "a b")
		case 1:
			lines = append(lines, "a zz")
		case 2:
			lines = append([]string{"zz a"}, lines...)
		case 3:
			lines = append(lines, "b b")
		case 4:
			lines = append(lines, strings.Repeat("x", 70000))
		}
		for n := c.N(400); n > 0 && c.One(8); n-- {
			lines = append(lines, "a b")
		}
		content = []byte(strings.Join(lines, "\n"))
		if c.Bool() {
			content = append(content, '\n')
		}
		c.Hit("merges file")
	}
	c.K(string(content))
	f := scratchFile(content)
	defer os.Remove(f)
	before, err := os.Stat(f)
	if err != nil {
		c.Skip()
	}
	c.Log("file %q", head(string(content), 200))
	v := vocabulary.NewVocabulary()
	for _, t := range []string{"a", "b", "ab", "aba"} {
		v.AddTerm(t)
	}
	for n := 0; n < 2; n++ {
		if vocab {
			_, err = vocabulary.FromJSONFile(f)
		} else {
			_, err = bpemodel.MergeMapFromFile(f, v, pick(c.Src, []int{0, 0, 0, -1, 5}))
		}
		if err != nil {
			c.Hit("malformed file")
			c.Hit("failing call")
		}
		c.obs++
		if openedAs(f) {
			c.Fail("the file is still open after it was loaded (error %v)", err)
		}
		after, err2 := os.Stat(f)
		if err2 != nil {
			c.Fail("the file is gone after it was loaded: %v", err2)
		}
		now, err2 := os.ReadFile(f)
		if err2 != nil || !bytes.Equal(now, content) || after.ModTime() != before.ModTime() || after.Mode() != before.Mode() {
			c.Fail("loading altered the file: %v, content now %q, modified %v (before %v)", err2, head(string(now), 200), after.ModTime(), before.ModTime())
		}
		if v.Size() != 4 {
			c.Fail("loading merges leaves %d terms in the vocabulary of 4", v.Size())
		}
	}
	c.NT()
}

// goroutinesLeft reports goroutines that still run code of the library when all
// cases are done.
func goroutinesLeft() string {
	buf := make([]byte, 1<<20)
	for n := 0; ; n++ {
		var left []string
		for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
			if strings.Contains(g, "nlpodyssey/gotokenizers") {
				left = append(left, g)
			}
		}
		if len(left) == 0 {
			return ""
		}
		if n == 30 {
			return fmt.Sprintf("%d goroutines of the library are left behind, the first one:\n%s", len(left), left[0])
		}
		time.Sleep(100 * time.Millisecond)
	}
}
