package main

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	N "github.com/nlpodyssey/gotokenizers/normalizedstring"
	PT "github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	SP "github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
)

// Components seen as functions of an input, whose results are kept, rendered
// again later, and altered by the caller.

type outcome struct {
	render func() string // the current content of the returned value
	vandal func()        // overwrites everything the caller owns
	toks   []models.Token
}

type comp struct {
	desc   string
	family string
	mk     func() func(in string) outcome // a fresh instance of the configuration
	ref    func(in string) string         // what the instance has to return
	pool   []string                       // inputs
}

func quiet() {}

func mkOut(render func() string, vandal func()) outcome {
	return outcome{render: render, vandal: vandal}
}

func lit(s string) outcome { return outcome{render: func() string { return s }, vandal: quiet} }

func tokString(ts []refTok, err bool) string {
	if err {
		return "error"
	}
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "(%d %q %d %d)", t.ID, t.V, t.S, t.E)
	}
	return b.String()
}

// wreckTokens overwrites a token list and the spare room behind it.
func wreckTokens(ts []models.Token) {
	bad := models.Token{ID: -77, Value: "wrecked", Offsets: strutils.ByteOffsets{Start: 1 << 30, End: -5}}
	for i := range ts {
		ts[i] = bad
	}
	for full := ts[:cap(ts)]; len(ts) < len(full); {
		ts = append(ts, bad)
	}
}

func tokOutcome(ts []models.Token, err error) outcome {
	return outcome{
		func() string {
			if err != nil {
				return "error"
			}
			return tokString(fmtToks(ts), false)
		},
		func() { wreckTokens(ts) },
		ts,
	}
}

// variants gives inputs close to s, which a careless cache would confuse.
func (c *Ctx) variants(s string, alpha []rune) []string {
	rs := []rune(s)
	out := []string{s}
	add := func(x []rune) { out = append(out, string(x)) }
	cp := func() []rune { return append([]rune(nil), rs...) }
	if len(rs) > 0 {
		i := c.N(len(rs))
		x := cp()
		if unicode.IsUpper(x[i]) {
			x[i] = unicode.ToLower(x[i])
		} else {
			x[i] = unicode.ToUpper(x[i])
		}
		add(x)
		x = cp()
		x[i] = pick(c.Src, alpha)
		add(x)
		add(rs[:len(rs)-1])
		add(rs[1:])
	}
	if len(rs) > 1 {
		x := cp()
		i, j := c.N(len(rs)), c.N(len(rs))
		x[i], x[j] = x[j], x[i]
		add(x)
		x = cp()
		for a, b := 0, len(x)-1; a < b; a, b = a+1, b-1 {
			x[a], x[b] = x[b], x[a]
		}
		add(x)
	}
	add(append(cp(), pick(c.Src, alpha)))
	add(append(cp(), 0))
	add(append(cp(), ' '))
	add(append([]rune{' '}, rs...))
	if len(rs) < 200 {
		add(append(cp(), rs...))
	}
	return out
}

// inputPool draws texts with near-identical companions.
func (c *Ctx) inputPool(n int, draw func() string, alpha []rune) []string {
	out := []string{""}
	for k := c.R(1, n); k > 0; k-- {
		vs := c.variants(draw(), alpha)
		out = append(out, vs[0])
		for i := c.R(1, 4); i > 0; i-- {
			out = append(out, pick(c.Src, vs))
		}
	}
	return out
}

var cacheCaps = []int{0, 1, 2, 3, 100, 10000}

func (c *Ctx) bpeComp() comp {
	b := c.genBPE(c.One(3), c.One(2))
	caps := pick(c.Src, cacheCaps)
	mode := c.N(6)
	dropout := 0.0
	if mode == 0 {
		dropout = 1
	}
	alpha := append([]rune("xQé"), b.alpha...)
	return comp{
		desc:   fmt.Sprintf("bpe cache %d dropout %v %s", caps, dropout, b),
		family: "bpe",
		mk: func() func(string) outcome {
			m := b.model(caps, dropout)
			return func(in string) outcome { return tokOutcome(m.Tokenize(in)) }
		},
		ref: func(in string) string {
			if in == "" {
				return ""
			}
			if dropout == 1 {
				syms, bad := b.initial(in)
				if bad {
					return "error"
				}
				return tokString(b.toks(syms), false)
			}
			return tokString(b.tokenize(in))
		},
		pool: c.inputPool(6, func() string { return c.word(b.alpha, 10, c.One(3)) }, alpha),
	}
}

func (c *Ctx) wpComp() comp {
	w := c.genWP()
	return comp{
		desc:   "wordpiece " + w.String(),
		family: "wordpiece",
		mk: func() func(string) outcome {
			m := w.model()
			return func(in string) outcome { return tokOutcome(m.Tokenize(in)) }
		},
		ref:  func(in string) string { return tokString(w.tokenize(in)) },
		pool: c.inputPool(6, func() string { return c.word(w.alpha, 10, c.One(3)) }, append([]rune("xQé"), w.alpha...)),
	}
}

var textAlpha = []rune("ab é世𝔾\u0301-▁'.\tİ")

func renderNS(ns *N.NormalizedString) string {
	var b strings.Builder
	o := ns.OriginalOffsets()
	fmt.Fprintf(&b, "%q@%d<-%q:", ns.Get(), o.Start, ns.GetOriginal())
	for k := 0; k < ns.Len() && k < 200; k++ {
		r, ok := ns.CoerceRangeToOriginal(N.NewNormalizedRange(k, k+1))
		fmt.Fprintf(&b, " %v%d,%d", ok, r.Start(), r.End())
	}
	return b.String()
}

func renderRef(r *refNS) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q@%d<-%q:", r.text(), r.Shift, r.Orig)
	k := 0
	for _, ce := range r.Cells {
		for range []byte(ce.T) {
			if k++; k > 200 {
				break
			}
			fmt.Fprintf(&b, " true%d,%d", ce.S, ce.E)
		}
	}
	return b.String()
}

// wreckNS edits a text beyond recognition.
func wreckNS(ns *N.NormalizedString) {
	ns.Map(func(rune) rune { return '#' })
	ns.Append("wrecked")
	ns.Filter(func(r rune) bool { return r != 'e' })
}

// again runs a drawing function and gives a function that runs it once more from
// the same state of the source, to build equal configurations that share nothing.
func again[T any](c *Ctx, f func(*Ctx) T) (T, func() T) {
	saved := *c.Src
	first := f(c)
	return first, func() T {
		s := saved
		return f(&Ctx{Src: &s, Idx: c.Idx, Enum: c.Enum, Scale: c.Scale, Tier: c.Tier, feats: map[string]int64{}})
	}
}

func (c *Ctx) normComp() comp {
	first, rebuild := again(c, func(d *Ctx) normPair { return d.genNormalizer(2) })
	return comp{
		desc:   "normalizer " + first.desc,
		family: "normalizer",
		mk: func() func(string) outcome {
			lib := rebuild().lib
			return func(in string) outcome {
				ns := N.FromString(in)
				if err := lib.Normalize(ns); err != nil {
					return lit("error")
				}
				return mkOut(func() string { return renderNS(ns) }, func() { wreckNS(ns) })
			}
		},
		ref: func(in string) string {
			r := refFrom(in)
			first.ref(r)
			return renderRef(r)
		},
		pool: c.inputPool(5, c.noSpec, textAlpha),
	}
}

// noSpec draws a text without the characters whose treatment is left open.
func (c *Ctx) noSpec() string {
	return strings.Map(func(r rune) rune {
		if cjkUnspecified(r) {
			return '世'
		}
		return r
	}, c.Text())
}

func renderPTS(p *PT.PreTokenizedString) string {
	var b strings.Builder
	for _, s := range p.Splits() {
		b.WriteString(renderNS(s.NormalizedString))
		if s.Tokens != nil {
			b.WriteString(tokString(fmtToks(*s.Tokens), false))
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func renderRefPTS(r refPTS) string {
	var b strings.Builder
	for _, s := range r {
		b.WriteString(renderRef(s.ns))
		if s.toks != nil {
			b.WriteString(tokString(*s.toks, false))
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func (c *Ctx) preTokComp() comp {
	first, rebuild := again(c, func(d *Ctx) preTok { return d.genPreTok() })
	return comp{
		desc:   "pre-tokenizer " + first.desc,
		family: "pre-tokenizer",
		mk: func() func(string) outcome {
			lib := rebuild().lib
			return func(in string) outcome {
				p := PT.FromString(in)
				if err := lib.PreTokenize(p); err != nil {
					return lit("error")
				}
				return mkOut(func() string { return renderPTS(p) }, func() {
					for _, s := range p.Splits() {
						wreckNS(s.NormalizedString)
					}
				})
			}
		},
		ref: func(in string) string {
			r := refPTS{{ns: refFrom(in)}}
			first.ref(&r)
			return renderRefPTS(r)
		},
		pool: c.inputPool(5, c.Text, textAlpha),
	}
}

func (c *Ctx) patComp() comp {
	text := c.Text()
	first, rebuild := again(c, func(d *Ctx) *refPat { return d.genPat(text, 0) })
	return comp{
		desc:   "pattern " + first.desc,
		family: "pattern",
		mk: func() func(string) outcome {
			sp := rebuild().sp
			return func(in string) outcome {
				cs, err := sp.FindMatches(in)
				if err != nil {
					return lit("error")
				}
				return capOutcome(cs)
			}
		},
		ref: func(in string) string {
			cs, err := first.captures(in)
			if err != nil {
				return "error"
			}
			var b strings.Builder
			for _, x := range cs {
				fmt.Fprintf(&b, "<%d,%d>%v", x.S, x.E, x.M)
			}
			return b.String()
		},
		pool: append(c.inputPool(4, func() string { return c.sub(text, 12) }, textAlpha), text),
	}
}

func capOutcome(cs []SP.Capture) outcome {
	return mkOut(
		func() string {
			var b strings.Builder
			for _, x := range cs {
				fmt.Fprintf(&b, "<%d,%d>%v", x.Offsets.Start, x.Offsets.End, x.IsMatch)
			}
			return b.String()
		},
		func() {
			for i := range cs {
				cs[i] = SP.Capture{Offsets: strutils.ByteOffsets{Start: 1 << 30, End: -9}, IsMatch: !cs[i].IsMatch}
			}
			for full := cs[:cap(cs)]; len(cs) < len(full); {
				cs = append(cs, SP.Capture{Offsets: strutils.ByteOffsets{Start: -1, End: -9}})
			}
		},
	)
}

func renderEnc(e *encodings.Encoding) string {
	return fmt.Sprintf("%d %d %q %d %v %d %d %d", e.IDs, e.TypeIDs, e.Tokens, e.Words, e.Offsets, e.SpecialTokensMask, e.AttentionMask, len(e.Overflowing))
}

// wreckEnc alters every list of an encoding and appends to it, and sees that
// none of the lists is touched by what is done to another one.
func wreckEnc(e *encodings.Encoding) {
	ints := []*[]int{&e.IDs, &e.TypeIDs, &e.Words, &e.SpecialTokensMask, &e.AttentionMask}
	mark := func(k, i int) int { return -1000*(k+1) - i }
	wreckedOff := strutils.ByteOffsets{Start: -9, End: 1 << 30}
	for k, l := range ints {
		for i := range *l {
			(*l)[i] = mark(k, i)
		}
		*l = append(*l, mark(k, len(*l)))
	}
	for i := range e.Tokens {
		e.Tokens[i] = "wrecked"
	}
	for i := range e.Offsets {
		e.Offsets[i] = wreckedOff
	}
	e.Tokens = append(e.Tokens, "wrecked")
	e.Offsets = append(e.Offsets, wreckedOff)
	e.Overflowing = append(e.Overflowing, e)
	for k, l := range ints {
		for i, x := range *l {
			if x != mark(k, i) {
				panic(failure{fmt.Sprintf("altering one list of an encoding alters another one: lists %v", [][]int{e.IDs, e.TypeIDs, e.Words, e.SpecialTokensMask, e.AttentionMask})})
			}
		}
	}
}

func renderRefEnc(w *refEnc) string {
	offs := make([]strutils.ByteOffsets, len(w.offs))
	for i, o := range w.offs {
		offs[i] = strutils.ByteOffsets{Start: o[0], End: o[1]}
	}
	return fmt.Sprintf("%d %d %q %d %v %d %d %d", w.ids, w.types, w.toks, w.words, offs, w.special, w.attention, 0)
}

// pipeComp is a whole tokenizer: normalizer, pre-tokenizer, model, encoding.
func (c *Ctx) pipeComp() comp {
	pool := c.inputPool(4, c.noSpec, textAlpha)
	word := c.R(-1, 3)
	typ := c.N(3)
	type stages struct {
		np normPair
		pt preTok
		sm stageModel
	}
	first, rebuild := again(c, func(d *Ctx) stages {
		np, pt := d.genNormalizer(1), d.genPreTok()
		var pieces []string
		for _, s := range pool {
			r := refFrom(s)
			np.ref(r)
			p := refPTS{{ns: r}}
			pt.ref(&p)
			for _, x := range p {
				if len(pieces) < 30 {
					pieces = append(pieces, x.ns.text())
				}
			}
		}
		return stages{np, pt, d.pipeModel(pieces)}
	})
	np1, pt1, sm1 := first.np, first.pt, first.sm
	return comp{
		desc:   fmt.Sprintf("pipeline %s / %s / %s", np1.desc, pt1.desc, sm1.desc),
		family: "pipeline",
		mk: func() func(string) outcome {
			x := rebuild()
			norm, pret, model := x.np.lib, x.pt.lib, x.sm.lib
			return func(in string) outcome {
				ns := N.FromString(in)
				if err := norm.Normalize(ns); err != nil {
					return lit("error")
				}
				p := PT.FromNormalizedString(ns)
				if err := pret.PreTokenize(p); err != nil {
					return lit("error")
				}
				err := p.Tokenize(func(ns *N.NormalizedString) ([]models.Token, error) { return model.Tokenize(ns.Get()) })
				if err != nil {
					return lit("error")
				}
				e, err := p.IntoEncoding(word, typ)
				if err != nil {
					return lit("error")
				}
				return mkOut(func() string { return renderPTS(p) + renderEnc(e) }, func() {
					for _, s := range p.Splits() {
						if s.Tokens != nil {
							wreckTokens(*s.Tokens)
						}
					}
					wreckEnc(e)
				})
			}
		},
		ref: func(in string) string {
			r := refFrom(in)
			np1.ref(r)
			p := refPTS{{ns: r}}
			pt1.ref(&p)
			for i := range p {
				ts, bad := sm1.ref(p[i].ns.text())
				if bad {
					return "error"
				}
				p[i].toks = &ts
			}
			e := refEncode(p, word, typ)
			return renderRefPTS(p) + renderRefEnc(e)
		},
		pool: pool,
	}
}

// lookupComp shares a vocabulary and a merge table between lookups and a model.
func (c *Ctx) lookupComp() comp {
	b := c.genBPE(c.One(4), c.One(3))
	b.ext, b.late = nil, 0
	pool := append([]string{"", "x", "##", "<unk>", "?"}, b.terms...)
	pool = append(pool, c.inputPool(3, func() string { return c.word(b.alpha, 4, c.One(2)) }, b.alpha)...)
	return comp{
		desc:   "lookups in " + b.String(),
		family: "lookup",
		mk: func() func(string) outcome {
			v, mm := b.vocab(), b.mergeMap()
			m := bpemodel.New(v, mm, 10, 0, b.unk, b.prefix, b.suffix, b.fuse)
			return func(in string) outcome {
				n := v.Size()
				id, ok := v.GetID(in)
				s, ok2 := v.GetString(id)
				s0, ok3 := v.GetString(len(in))
				mv, ok4 := mm.Get(id, len(in))
				ts, err := m.Tokenize(in)
				t := tokOutcome(ts, err)
				return mkOut(func() string {
					return fmt.Sprintf("size %d id %d %v term %q %v, term %q %v, merge %v %v %s", n, id, ok, s, ok2, s0, ok3, mv, ok4, t.render())
				}, t.vandal)
			}
		},
		ref: func(in string) string {
			id, ok := b.ids[in]
			s, ok2 := b.terms[id], true
			s0, ok3 := "", false
			if len(in) < len(b.terms) {
				s0, ok3 = b.terms[len(in)], true
			}
			var mv bpemodel.MergeValue
			rm, ok4 := b.merges[[2]int{id, len(in)}]
			if ok4 {
				mv = bpemodel.MergeValue{Rank: rm.rank, ID: rm.id}
			}
			ts := ""
			if in != "" {
				ts = tokString(b.tokenize(in))
			}
			return fmt.Sprintf("size %d id %d %v term %q %v, term %q %v, merge %v %v %s", len(b.terms), id, ok, s, ok2, s0, ok3, mv, ok4, ts)
		},
		pool: pool,
	}
}

// readComp reads one text: every input names a reading operation on it.
func (c *Ctx) readComp() comp {
	type op func(ns *N.NormalizedString) outcome
	var ops []op
	var names []string
	add := func(n string, o op) {
		names = append(names, n)
		ops = append(ops, o)
	}
	type text struct {
		ns *N.NormalizedString
		r  *refNS
	}
	first, build := again(c, func(d *Ctx) text {
		ns, r := d.root(d.Text())
		ns, r = d.history(ns, r, d.R(0, 4), false)
		return text{ns, r}
	})
	m := first.r
	st := m.starts()
	og := cuts(m.Orig)
	piece := func(p *N.NormalizedString, ok bool) outcome {
		if !ok || p == nil {
			return lit(fmt.Sprint("none ", ok))
		}
		return mkOut(func() string { return renderNS(p) }, func() { wreckNS(p) })
	}
	for k := c.R(4, 10); k > 0; k-- {
		i := c.N(len(st))
		j := i + c.N(len(st)-i)
		rg := N.NewNormalizedRange(st[i], st[j])
		a := c.N(len(og))
		b := a + c.N(len(og)-a)
		og := N.NewOriginalRange(og[a], og[b])
		switch c.N(8) {
		case 0:
			add("everything", func(ns *N.NormalizedString) outcome { return lit(renderNS(ns)) })
		case 1:
			add("inverse", func(ns *N.NormalizedString) outcome {
				inv := ns.OriginalAlignments()
				return mkOut(func() string { return fmt.Sprint(inv) }, func() {
					for i := range inv {
						inv[i] = N.AlignmentRange{}
					}
				})
			})
		case 2:
			add(fmt.Sprintf("slice normalized <%d,%d>", st[i], st[j]), func(ns *N.NormalizedString) outcome { return piece(ns.Slice(rg)) })
		case 3:
			add(fmt.Sprintf("slice original %v", og), func(ns *N.NormalizedString) outcome { return piece(ns.Slice(og)) })
		case 4:
			add(fmt.Sprintf("convert <%d,%d> and %v", st[i], st[j], og), func(ns *N.NormalizedString) outcome {
				x, ok := ns.CoerceRangeToOriginal(rg)
				y, ok2 := ns.CoerceRangeToNormalized(og)
				return lit(fmt.Sprint(x, ok, y, ok2))
			})
		case 5:
			add(fmt.Sprintf("look up <%d,%d> and %v", st[i], st[j], og), func(ns *N.NormalizedString) outcome {
				x, ok := ns.GetRange(rg)
				y, ok2 := ns.GetOriginalRange(og)
				z, ok3 := ns.GetOriginalRange(rg)
				return lit(fmt.Sprint(x, ok, y, ok2, z, ok3))
			})
		default:
			p := c.genPat(m.text(), 0)
			bh := c.N(5)
			add(fmt.Sprintf("split by %s (%s)", p.desc, behaviourNames[bh]), func(ns *N.NormalizedString) outcome {
				ps, err := ns.Split(p.sp, behaviours[bh])
				if err != nil {
					return lit("error")
				}
				ps = append([]*N.NormalizedString(nil), ps...)
				return mkOut(func() string {
					var b strings.Builder
					for _, x := range ps {
						if x != nil && x.Len() > 0 {
							b.WriteString(renderNS(x) + "\n")
						}
					}
					return b.String()
				}, func() {
					for _, x := range ps {
						if x != nil {
							wreckNS(x)
						}
					}
				})
			})
		}
	}
	byName := map[string]op{}
	for i, n := range names {
		byName[n] = ops[i]
	}
	return comp{
		desc:   fmt.Sprintf("reading %s", m),
		family: "text reads",
		mk: func() func(string) outcome {
			x := build().ns
			return func(in string) outcome { return byName[in](x) }
		},
		pool: names,
	}
}

// encComp reads one tokenized text.
func (c *Ctx) encComp() comp {
	_, build := again(c, func(d *Ctx) *PT.PreTokenizedString {
		pts, r, _ := d.genPTS()
		toks := make([][]models.Token, 0, len(r))
		for i := range r {
			if r[i].toks == nil {
				toks = append(toks, libToks(d.randToks(r[i].ns.text(), true)))
			}
		}
		k := 0
		_ = pts.Tokenize(func(*N.NormalizedString) ([]models.Token, error) {
			if k >= len(toks) {
				return nil, nil
			}
			k++
			return toks[k-1], nil
		})
		return pts
	})
	run := func(p *PT.PreTokenizedString, in string) outcome {
		switch in {
		case "pieces":
			return lit(renderPTS(p))
		case "original byte splits":
			x := p.GetOriginalByteSplits()
			return mkOut(func() string {
				var b strings.Builder
				for _, s := range x {
					fmt.Fprintf(&b, "%q %v", s.String, s.Offsets)
					if s.Tokens != nil {
						b.WriteString(tokString(fmtToks(*s.Tokens), false))
					}
				}
				return b.String()
			}, func() {
				for i := range x {
					x[i] = PT.OriginalByteSplit{String: "wrecked", Offsets: strutils.ByteOffsets{Start: -4, End: 1 << 40}}
				}
			})
		case "normalized byte splits":
			x := p.GetNormalizedByteSplits()
			return mkOut(func() string {
				var b strings.Builder
				for _, s := range x {
					fmt.Fprintf(&b, "%q %v", s.String, s.Offsets)
					if s.Tokens != nil {
						b.WriteString(tokString(fmtToks(*s.Tokens), false))
					}
				}
				return b.String()
			}, func() {
				for i := range x {
					x[i] = PT.NormalizedByteSplit{String: "wrecked", Offsets: strutils.ByteOffsets{Start: -4, End: 1 << 40}}
				}
			})
		default:
			var w, t int
			fmt.Sscanf(in, "encoding %d %d", &w, &t)
			e, err := p.IntoEncoding(w, t)
			if err != nil {
				return lit("error")
			}
			return mkOut(func() string { return renderEnc(e) }, func() { wreckEnc(e) })
		}
	}
	return comp{
		desc:   "reading a tokenized text",
		family: "encoding reads",
		mk: func() func(string) outcome {
			p := build()
			return func(in string) outcome { return run(p, in) }
		},
		pool: []string{"pieces", "original byte splits", "normalized byte splits", "encoding -1 0", "encoding 3 1", "encoding -1 2"},
	}
}

func (c *Ctx) genComp() comp {
	return c.compOf(c.N(16))
}

// compOf draws a component of one of the 16 families (some count twice).
func (c *Ctx) compOf(family int) comp {
	switch family {
	case 0, 1, 2:
		return c.bpeComp()
	case 3, 4:
		return c.wpComp()
	case 5, 6:
		return c.normComp()
	case 7, 8:
		return c.preTokComp()
	case 9, 10:
		return c.patComp()
	case 11, 12:
		return c.pipeComp()
	case 13:
		return c.lookupComp()
	case 14:
		return c.readComp()
	default:
		return c.encComp()
	}
}

// guarded runs a call and turns a panic into a result.
func guarded(run func(string) outcome, in string) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			st := make([]byte, 4096)
			st = st[:runtime.Stack(st, false)]
			o = lit(fmt.Sprintf("panic: %v\n%s", r, st))
		}
	}()
	return run(in)
}

func init() {
	register(&Prop{
		ID: "C23", Rule: "a history in which an instance is asked again for an input it has already processed, after other inputs",
		Quick: 240000, Thorough: 4800000, Case: caseC23,
		Enum: func(th bool) int64 { return int64(len(longHistories)) },
		Need: []string{"history of bpe", "history of wordpiece", "history of normalizer", "history of pre-tokenizer", "history of pattern", "history of pipeline", "history of lookup", "history of text reads", "history of encoding reads", "returned value altered", "returned value kept", "asked again", "long history", "history of a word cache"},
	})
	register(&Prop{
		ID: "C22", Rule: "a concurrent execution in which calls of different goroutines on a shared component overlapped in time",
		Quick: 1400, Thorough: 56000, Case: caseC22,
		Cold: true,
		Enum: func(th bool) int64 {
			if th {
				return 16 * 40
			}
			return 16 * 4
		},
		Need:  []string{"shared bpe", "shared wordpiece", "shared normalizer", "shared pre-tokenizer", "shared pattern", "shared pipeline", "shared lookup", "shared text reads", "shared encoding reads", "shared bpe with dropout", "overlapping calls", "first use in the process", "each goroutine its own components"},
		Notes: []string{"the race detector judges the happens-before order of the executions observed; interleavings that never occur are not judged"},
	})
	register(&Prop{
		ID: "C24", Rule: "an execution whose text is not valid UTF-8 and that reports at least one offset or range",
		Huge:  24,
		Quick: 450000, Thorough: 9000000, Case: caseC24,
		Enum: func(th bool) int64 {
			if th {
				return countStrings(len(badAlpha), 4) * 12
			}
			return countStrings(len(badAlpha), 3) * 12
		},
		Need: []string{"text edited", "text split", "text cut", "extreme range", "normalizer", "pre-tokenizer", "bpe", "wordpiece", "encoding", "pattern", "converter", "vocabulary file", "merges file"},
	})
}

// ---------------------------------------------------------------- C23

type longHistory struct {
	desc string
	mk   func() comp
}

func seqWord(alpha string, i int) string {
	rs := []rune(alpha)
	var out []rune
	for i >= 0 {
		out = append(out, rs[i%len(rs)])
		i = i/len(rs) - 1
	}
	return string(out)
}

var longHistories = func() (out []longHistory) {
	b := &refBPE{ids: map[string]int{}, merges: map[[2]int]refMerge{}}
	for _, t := range []string{"a", "b", "c", "é", "世"} {
		b.add(t)
	}
	for k, p := range [][2]string{{"a", "b"}, {"b", "a"}, {"ab", "c"}, {"é", "世"}, {"a", "a"}, {"aa", "b"}, {"c", "é"}, {"c", "c"}} {
		b.merges[[2]int{b.add(p[0]), b.add(p[1])}] = refMerge{k, b.add(p[0] + p[1])}
	}
	for _, caps := range []int{0, 1, 2, 100, 10000, -1} {
		caps := caps
		out = append(out, longHistory{fmt.Sprintf("bpe, cache capacity %d", caps), func() comp {
			return comp{
				mk: func() func(string) outcome {
					m := b.model(caps, 0)
					return func(in string) outcome { return tokOutcome(m.Tokenize(in)) }
				},
				ref: func(in string) string { return tokString(b.tokenize(in)) },
			}
		}})
	}
	w := &refWP{ids: map[string]int{}, unk: "[UNK]", prefix: "##", max: 100}
	for _, t := range []string{"[UNK]", "a", "b", "ab", "##a", "##b", "##c", "##é", "世", "##ab", "##世", "c"} {
		w.add(t)
	}
	out = append(out, longHistory{"wordpiece", func() comp {
		return comp{
			mk: func() func(string) outcome {
				m := w.model()
				return func(in string) outcome { return tokOutcome(m.Tokenize(in)) }
			},
			ref: func(in string) string { return tokString(w.tokenize(in)) },
		}
	}})
	pt := func(desc string, f func() preTok) {
		out = append(out, longHistory{desc, func() comp {
			first := f()
			return comp{
				mk: func() func(string) outcome {
					lib := f().lib
					return func(in string) outcome {
						p := PT.FromString(in)
						if err := lib.PreTokenize(p); err != nil {
							return lit("error")
						}
						return mkOut(func() string { return renderPTS(p) }, quiet)
					}
				},
				ref: func(in string) string {
					r := refPTS{{ns: refFrom(in)}}
					first.ref(&r)
					return renderRefPTS(r)
				},
			}
		}})
	}
	pt("byte level", func() preTok { return byteLevelTok(nil, gpt2Re, "", true, true, true) })
	pt("metaspace", func() preTok { return metaTok(0, true, true) })
	pt("bert pre-tokenizer", bertTok)
	pt("word pre-tokenizer", wordTok)
	pt("white space split", wsSplitTok)
	pt("delimiter", func() preTok { return runeDelimTok('b') })
	nm := func(desc string, f func() normPair) {
		out = append(out, longHistory{desc, func() comp {
			first := f()
			return comp{
				mk: func() func(string) outcome {
					lib := f().lib
					return func(in string) outcome {
						ns := N.FromString(in)
						if err := lib.Normalize(ns); err != nil {
							return lit("error")
						}
						return mkOut(func() string { return renderNS(ns) }, quiet)
					}
				},
				ref: func(in string) string {
					r := refFrom(in)
					first.ref(r)
					return renderRef(r)
				},
			}
		}})
	}
	nm("bert normalizer", func() normPair { return bertPair(15) })
	nm("lowercase", lowerPair)
	nm("strip", func() normPair { return stripPair(true, true) })
	pat := func(desc string, f func() (SP.SplitPattern, func(string) [][2]int)) {
		out = append(out, longHistory{desc, func() comp {
			_, matches := f()
			return comp{
				mk: func() func(string) outcome {
					sp, _ := f()
					return func(in string) outcome {
						cs, err := sp.FindMatches(in)
						if err != nil {
							return lit("error")
						}
						return capOutcome(cs)
					}
				},
				ref: func(in string) string {
					var b strings.Builder
					for _, x := range tile(matches(in), len(in)) {
						fmt.Fprintf(&b, "<%d,%d>%v", x.S, x.E, x.M)
					}
					return b.String()
				},
			}
		}})
	}
	pat("literal pattern", func() (SP.SplitPattern, func(string) [][2]int) { return SP.FromString("ab"), literalMatches("ab") })
	pat("expression pattern", func() (SP.SplitPattern, func(string) [][2]int) {
		re := mustRe(`a+b|世`)
		return SP.FromRegexp(re), regexpMatches(re)
	})
	pat("regexp2 pattern", func() (SP.SplitPattern, func(string) [][2]int) {
		re := mustRe2(`a+b|世`, 0)
		return SP.FromRegexp2(re), regexp2Matches(re)
	})
	return
}()

// cacheHistory runs a word cache on its own: it may forget, but whatever it
// gives for a word is what was put there last.
func (c *Ctx) cacheHistory() {
	capacity := pick(c.Src, []int{0, 1, 2, 5, 100})
	cache := bpemodel.NewCache(capacity)
	if c.One(5) {
		capacity = bpemodel.DefaultCacheCapacity
		cache = bpemodel.NewDefaultCache()
	}
	keys := []string{"", "a", "ab", "b", "é", "世界", "a b", "\xff", "A"}
	put := map[string]*bpemodel.Word{}
	word := func() *bpemodel.Word {
		w := bpemodel.NewWordWithCapacity(2)
		for n := c.N(4); n > 0; n-- {
			w.Add(c.N(50), c.R(1, 4))
		}
		return w
	}
	get := func(k string, w *bpemodel.Word) {
		c.obs++
		if w != nil && (capacity == 0 || put[k] == nil || !reflect.DeepEqual(w, put[k])) {
			c.Fail("a cache of capacity %d gives %v for %q where %v was put", capacity, w, k, put[k])
		}
	}
	for n := c.R(1, 40); n > 0; n-- {
		k := pick(c.Src, keys)
		switch c.N(4) {
		case 0:
			w := word()
			c.Log("Set %q", k)
			cache.Set(k, w)
			put[k] = w
		case 1:
			var ks []string
			var ws []*bpemodel.Word
			for m := c.N(4); m > 0; m-- {
				ks, ws = append(ks, pick(c.Src, keys)), append(ws, word())
				put[ks[len(ks)-1]] = ws[len(ws)-1]
			}
			c.Log("SetValues %q", ks)
			cache.SetValues(ks, ws)
		case 2:
			c.Log("Get %q", k)
			get(k, cache.Get(k))
		default:
			ks := keys[:c.N(len(keys))+1]
			c.Log("GetValues %q", ks)
			ws := cache.GetValues(ks)
			if len(ws) != len(ks) {
				c.Fail("GetValues of %d keys gives %d values", len(ks), len(ws))
			}
			for i := range ks {
				get(ks[i], ws[i])
			}
		}
	}
	c.Hit("history of a word cache")
}

func caseC23(c *Ctx) {
	if c.Enum >= 0 {
		l := longHistories[c.Enum]
		c.longHistory(l.desc, l.mk())
		return
	}
	if c.One(200) {
		c.cacheHistory()
		return
	}
	cp := c.genComp()
	c.Log("%s", cp.desc)
	c.Log("inputs %q", cp.pool)
	c.K(cp.desc)
	c.Hit("history of " + cp.family)
	shared := cp.mk()
	var freshes map[string]string = map[string]string{}
	expect := func(in string) string {
		w, ok := freshes[in]
		if !ok {
			o := guarded(cp.mk(), in)
			w = o.render()
			if cp.ref != nil {
				if x := cp.ref(in); x != w {
					c.Fail("%s\n a freshly built component gives for %q\n  %s\n expected\n  %s", cp.desc, in, w, x)
				}
			}
			if strings.HasPrefix(w, "panic: ") {
				c.Fail("%s\n a freshly built component given %q panics: %s", cp.desc, in, w)
			}
			freshes[in] = w
		}
		return w
	}
	type kept struct {
		in, was string
		o       outcome
		step    int
	}
	var keep []kept
	seen := map[string]int{}
	last := ""
	n := c.R(3, 20)
	if c.One(20) {
		n = c.R(20, 120)
	}
	for k := 0; k < n; k++ {
		in := pick(c.Src, cp.pool)
		if c.One(6) && k > 0 {
			in = last
		}
		// the expectation is sometimes drawn before and sometimes after the call
		early := c.Bool()
		want := ""
		if early {
			want = expect(in)
		}
		o := guarded(shared, in)
		got := o.render()
		if !early {
			want = expect(in)
		}
		c.obs++
		if got != want {
			c.Fail("%s\n call %d with %q gives\n  %s\n a freshly built component gives\n  %s", cp.desc, k+1, in, got, want)
		}
		if seen[in] > 0 && last != in {
			c.Hit("asked again")
			c.NT()
		}
		seen[in]++
		last = in
		c.K(in)
		switch c.N(3) {
		case 0:
			o.vandal()
			c.Hit("returned value altered")
		case 1:
			keep = append(keep, kept{in, got, o, k})
			c.Hit("returned value kept")
		}
	}
	for _, x := range keep {
		c.obs++
		if now := x.o.render(); now != x.was {
			c.Fail("%s\n the value returned by call %d (input %q) was\n  %s\n after %d calls it is\n  %s", cp.desc, x.step+1, x.in, x.was, n, now)
		}
	}
	c.Log("%d calls, %d values kept", n, len(keep))
}

// longHistory drives an instance through more distinct inputs than any cache
// would hold, with repetitions.
func (c *Ctx) longHistory(desc string, cp comp) {
	c.Log("long history: %s", desc)
	c.Hit("long history")
	run := cp.mk()
	const distinct = 70000
	call := func(i int) {
		in := seqWord("abcé世", i)
		o := guarded(run, in)
		got := o.render()
		c.obs++
		if want := cp.ref(in); got != want {
			c.Fail("%s: input %d %q gives\n  %s\n expected\n  %s", desc, i, in, got, want)
		}
		if i%7 == 0 {
			o.vandal()
		}
	}
	for i := 0; i < distinct; i++ {
		call(i)
		if i%3 == 2 {
			call(c.N(i))
		}
		if i%5 == 4 {
			call(i - c.N(4))
		}
	}
	for i := 0; i < 300; i++ {
		call(i)
	}
	c.Log("%d distinct inputs, %d calls", distinct, c.obs)
	c.K(desc)
	c.NT()
}

// ---------------------------------------------------------------- C22

// interleavings collects the signatures of the observed interleavings.
var interleavings distinctSet

type stamp struct {
	t     int64
	g     int
	comp  int
	start bool
}

var t0 = time.Now()

func yieldNow(k int) {
	switch {
	case k%7 == 0:
		runtime.Gosched()
	case k%61 == 0:
		time.Sleep(time.Microsecond)
	}
}

func (c *Ctx) dropoutComp() (comp, *refBPE) {
	b := c.genBPE(false, false)
	p := pick(c.Src, []float64{0.1, 0.5, 0.9})
	return comp{
		desc:   fmt.Sprintf("bpe dropout %v %s", p, b),
		family: "bpe with dropout",
		mk: func() func(string) outcome {
			m := b.model(5, p)
			return func(in string) outcome { return tokOutcome(m.Tokenize(in)) }
		},
		pool: c.inputPool(4, func() string { return c.word(b.alpha, 8, false) }, b.alpha),
	}, b
}

func caseC22(c *Ctx) {
	nc := c.R(1, 3)
	comps := make([]comp, nc)
	drop := make([]*refBPE, nc)
	// an enumerated case is also run alone, in a process of its own
	family := -1
	if c.Enum >= 0 {
		family = int(c.Enum % 16)
		comps, drop = comps[:1], drop[:1]
		nc = 1
		c.Hit("first use in the process")
	}
	for i := range comps {
		if family >= 0 {
			comps[i] = c.compOf(family)
		} else if c.One(14) {
			comps[i], drop[i] = c.dropoutComp()
		} else {
			comps[i] = c.genComp()
		}
		c.Log("component %d: %s", i, comps[i].desc)
		c.Hit("shared " + comps[i].family)
		c.K(comps[i].desc)
	}
	g := c.R(2, 8)
	own := c.One(4) // every goroutine builds its own components
	if family >= 0 {
		g, own = 8, c.Enum/16%2 == 1
	}
	if own {
		c.Hit("each goroutine its own components")
	}
	type call struct {
		comp int
		in   string
	}
	plan := make([][]call, g)
	same := c.One(3) || family >= 0 // everybody does the same at the same time
	for i := range plan {
		if same && i > 0 {
			plan[i] = plan[0]
			continue
		}
		for n := c.R(4, 24); n > 0; n-- {
			k := c.N(nc)
			plan[i] = append(plan[i], call{k, pick(c.Src, comps[k].pool)})
		}
	}
	alone := map[call]string{}
	reps := c.R(1, 4)
	for rep := 0; rep < reps; rep++ {
		inst := make([]func(string) outcome, nc)
		for i := range comps {
			if !own {
				inst[i] = comps[i].mk()
			}
		}
		outs := make([][]outcome, g)
		stamps := make([][]stamp, g)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			outs[i] = make([]outcome, len(plan[i]))
			stamps[i] = make([]stamp, 0, 2*len(plan[i]))
			go func(i int) {
				defer wg.Done()
				<-start
				inst := inst
				if own {
					inst = make([]func(string) outcome, nc)
				}
				for k, x := range plan[i] {
					if inst[x.comp] == nil {
						inst[x.comp] = comps[x.comp].mk()
					}
					stamps[i] = append(stamps[i], stamp{int64(time.Since(t0)), i, x.comp, true})
					outs[i][k] = guarded(inst[x.comp], x.in)
					stamps[i] = append(stamps[i], stamp{int64(time.Since(t0)), i, x.comp, false})
					yieldNow(k + i)
				}
			}(i)
		}
		close(start)
		wg.Wait()

		// what each call returns alone, on an instance of its own; computed after
		// the concurrent phase, so that this one meets everything cold
		for i := range plan {
			for k, x := range plan[i] {
				cp := comps[x.comp]
				got := outs[i][k].render()
				c.obs++
				if b := drop[x.comp]; b != nil {
					c.checkDropout(b, x.in, outs[i][k], got)
					continue
				}
				want, ok := alone[x]
				if !ok {
					want = guarded(cp.mk(), x.in).render()
					if cp.ref != nil {
						want = cp.ref(x.in)
					}
					alone[x] = want
				}
				if got != want {
					c.Fail("%s\n goroutine %d of %d, call %d with %q returned\n  %s\n alone it returns\n  %s", cp.desc, i, g, k, x.in, got, want)
				}
			}
		}
		// a second, sequential round on the instances that were shared
		for i := range comps {
			if drop[i] != nil || own {
				continue
			}
			for n := 2; n > 0; n-- {
				x := call{i, pick(c.Src, comps[i].pool)}
				want, ok := alone[x]
				if !ok {
					continue
				}
				if got := guarded(inst[i], x.in).render(); got != want {
					c.Fail("%s\n after the concurrent phase %q gives\n  %s\n expected\n  %s", comps[i].desc, x.in, got, want)
				}
			}
		}
		// the interleaving that was observed
		var all []stamp
		for i := range stamps {
			all = append(all, stamps[i]...)
		}
		sort.SliceStable(all, func(i, j int) bool { return all[i].t < all[j].t })
		h := uint64(len(all))
		open := map[int]int{}
		overlap := int64(0)
		for _, s := range all {
			k := s.g * 2
			if s.start {
				overlap += int64(open[s.comp])
				open[s.comp]++
			} else {
				k++
				open[s.comp]--
			}
			h = mix64(h*31 + uint64(k))
		}
		interleavings.add(h)
		c.feats["calls observed"] += int64(len(all) / 2)
		c.feats["overlapping calls"] += overlap
		c.Log("%d goroutines, %d calls, %d pairs of calls on one component overlapped, interleaving %016x", g, len(all)/2, overlap, h)
		if overlap > 0 {
			c.NT()
			c.h = mix64(c.h ^ h)
		}
	}
}

func (c *Ctx) checkDropout(b *refBPE, in string, o outcome, got string) {
	if strings.HasPrefix(got, "panic: ") || got == "error" {
		c.Fail("%s: word %q gives %s", b, in, got)
	}
	// every token derives from the characters under it, in order
	syms, _ := b.initial(in)
	memo := map[[2]int]map[int]bool{}
	k := 0
	for _, t := range fmtToks(o.toks) {
		j := k
		for j < len(syms) && syms[j].e <= t.E {
			j++
		}
		if j <= k || syms[k].s != t.S || syms[j-1].e != t.E || !b.derivable(syms, k, j, memo)[b.index(t.ID)] || b.terms[b.index(t.ID)] != t.V {
			c.Fail("%s: word %q gives %s, token %v does not derive from its characters", b, in, got, t)
		}
		k = j
	}
	if k != len(syms) {
		c.Fail("%s: word %q gives %s, which ends before the word does", b, in, got)
	}
}

// ---------------------------------------------------------------- C24

var badAlpha = []string{"a", " ", "\x80", "\xc3", "\xe4\xb8", "\xff", "世", "é", "\xed\xa0\x80", "\xf0\x9f\x92"}

// within checks a range a call reported.
func (c *Ctx) within(s, e, n int, what string, a ...interface{}) {
	c.obs++
	if s < 0 || e > n || s > e {
		c.Fail("%s: <%d,%d> is not a range within 0..%d", fmt.Sprintf(what, a...), s, e, n)
	}
}

var hostile = []int{-1 << 63, -1<<63 + 1, -1 << 31, -2, -1, 0, 1, 2, 1 << 31, 1<<63 - 2, 1<<63 - 1}

func (c *Ctx) hostileInt(n int) int {
	if c.One(3) {
		return pick(c.Src, hostile)
	}
	return c.R(-2, n+3)
}

// sane checks everything a text reports about itself; orig is its original text
// and root the original text it was cut from.
func (c *Ctx) sane(what string, ns *N.NormalizedString, orig, root string, base int) {
	t := ns.Get()
	if ns.GetOriginal() != orig {
		c.Fail("%s: the original text is %q, was %q", what, ns.GetOriginal(), orig)
	}
	o := ns.OriginalOffsets()
	c.within(o.Start-base, o.End-base, len(root), "%s: original offsets", what)
	if o.End-o.Start != len(orig) || root[o.Start-base:o.End-base] != orig {
		c.Fail("%s: original offsets %v designate %q in %q, the original text is %q", what, o, root[o.Start-base:o.End-base], root, orig)
	}
	if ns.Len() != len(t) || ns.OriginalLen() != len(orig) || ns.IsEmpty() != (t == "") {
		c.Fail("%s: Len %d OriginalLen %d IsEmpty %v for %q from %q", what, ns.Len(), ns.OriginalLen(), ns.IsEmpty(), t, orig)
	}
	step := 1 + len(t)/60
	for a := 0; a < len(t); a += step {
		for _, b := range []int{a, a + 1, (a + len(t) + 1) / 2, len(t)} {
			if r, ok := ns.CoerceRangeToOriginal(N.NewNormalizedRange(a, b)); ok && a != b {
				c.within(r.Start(), r.End(), len(orig), "%s: normalized <%d,%d> of %q in the original", what, a, b, t)
			}
		}
	}
	step = 1 + len(orig)/60
	for a := 0; a < len(orig); a += step {
		for _, b := range []int{a, a + 1, (a + len(orig) + 1) / 2, len(orig)} {
			if r, ok := ns.CoerceRangeToNormalized(N.NewOriginalRange(a, b)); ok && a != b {
				c.within(r.Start(), r.End(), len(t), "%s: original <%d,%d> of %q in the normalized %q", what, a, b, orig, t)
			}
		}
	}
	inv := ns.OriginalAlignments()
	if len(inv) != len(orig) {
		c.Fail("%s: the inverse alignment has %d entries for %d bytes", what, len(inv), len(orig))
	}
	for i := range inv {
		s, e := alignPair(inv[i])
		c.within(s, e, len(t), "%s: inverse alignment of original byte %d of %q in %q", what, i, orig, t)
	}
	for k := 0; k < 3; k++ {
		a, b := c.hostileInt(len(orig)+len(t)), c.hostileInt(len(orig)+len(t))
		var rg N.Range = N.NewNormalizedRange(a, b)
		n := len(t)
		isOrig := c.Bool()
		if isOrig {
			rg = N.NewOriginalRange(a, b)
			n = len(orig)
		}
		w := fmt.Sprintf("%s: range %#v of %q from %q", what, rg, short(t), short(orig))
		if a < 0 || b > n || a > b {
			c.Hit("extreme range")
		}
		// an empty range, or one in the wanted referential, is given back as it is
		if r, ok := ns.CoerceRangeToOriginal(rg); ok && !isOrig && a != b {
			c.within(r.Start(), r.End(), len(orig), "%s to original", w)
		}
		if r, ok := ns.CoerceRangeToNormalized(rg); ok && isOrig && a != b {
			c.within(r.Start(), r.End(), len(t), "%s to normalized", w)
		}
		if s, ok := ns.GetRange(rg); ok && !strings.Contains(t, s) {
			c.Fail("%s: GetRange gives %q", w, s)
		}
		if s, ok := ns.GetOriginalRange(rg); ok && !strings.Contains(orig, s) {
			c.Fail("%s: GetOriginalRange gives %q", w, s)
		}
		if p, ok := ns.Slice(rg); ok {
			if p == nil {
				c.Fail("%s: Slice is successful without a text", w)
			}
			q := p.OriginalOffsets()
			c.within(q.Start-base, q.End-base, len(root), "%s: offsets of the piece", w)
			if q.Start < o.Start || q.End > o.End {
				c.Fail("%s: the piece has original offsets %v, its parent %v", w, q, o)
			}
			if root[q.Start-base:q.End-base] != p.GetOriginal() {
				c.Fail("%s: the offsets %v of the piece designate %q, its original text is %q", w, q, root[q.Start-base:q.End-base], p.GetOriginal())
			}
			c.Hit("text cut")
		}
	}
}

func (c *Ctx) rawText(i int64) string {
	if i >= 0 {
		return enumString(badAlpha, i/12)
	}
	if c.Huge {
		return c.hugeBytes()
	}
	return c.Bytes()
}

func (c *Ctx) hugeBytes() string {
	b := []byte(c.hugeText())
	if c.Bool() {
		for k := c.R(1, 40); k > 0; k-- {
			b[c.N(len(b))] = byte(c.N(256))
		}
		return string(b)
	}
	bad := pick(c.Src, badBytes)
	out := make([]byte, 0, 2*len(b))
	every := c.R(1, 50)
	for i, x := range b {
		out = append(out, x)
		if i%every == 0 {
			out = append(out, bad...)
		}
	}
	return string(out)
}

func caseC24(c *Ctx) {
	s := c.rawText(c.Enum)
	mode := c.N(12)
	if c.Enum >= 0 {
		mode = int(c.Enum % 12)
	}
	c.Log("text %q", s)
	c.K(s)
	c.Ki(mode)
	if !utf8.ValidString(s) {
		c.NT()
	}
	switch mode {
	case 0, 1, 2, 3:
		c.rawEdits(s)
	case 4:
		c.rawPatterns(s)
	case 5, 6:
		c.rawModels(s)
	case 7, 8, 9:
		c.rawPipeline(s)
	case 10:
		c.rawConvert(s)
	case 11:
		c.rawFiles(s)
	}
}

func (c *Ctx) rawRange(t, orig string) N.Range {
	n := len(t)
	o := c.One(3)
	if o {
		n = len(orig)
	}
	a := c.N(n + 1)
	b := a + c.N(n-a+1)
	if o {
		return N.NewOriginalRange(a, b)
	}
	return N.NewNormalizedRange(a, b)
}

// rawEdit applies one edit.
func (c *Ctx) rawEdit(ns *N.NormalizedString) {
	t := ns.Get()
	c.Hit("text edited")
	valid := func() string {
		if t == "" || c.One(3) {
			return c.Text()
		}
		return strings.ToValidUTF8(t, "a")
	}
	switch c.N(10) {
	case 0:
		p := c.pred(valid())
		neg := c.Bool()
		c.Log("Filter %s %v", p.desc, neg)
		ns.Filter(func(r rune) bool { return p.f(r) != neg })
	case 1:
		m := c.mapper(valid())
		c.Log("Map %s", m.desc)
		ns.Map(m.f)
	case 2:
		c.Log("ToUpper, ToLower")
		if c.Bool() {
			ns.ToUpper()
		} else {
			ns.ToLower()
		}
	case 3:
		a, b := c.Bool(), c.Bool()
		c.Log("TrimLeftRight %v %v", a, b)
		ns.TrimLeftRight(a, b)
	case 4:
		s := c.Bytes()
		if len(s) > 60 {
			s = s[:60]
		}
		c.Log("Prepend %q", s)
		ns.Prepend(s)
	case 5:
		s := c.Bytes()
		if len(s) > 60 {
			s = s[:60]
		}
		c.Log("Append %q", s)
		ns.Append(s)
	case 6, 7:
		p := c.rawPat(t)
		if len(t) > 20000 {
			p = c.rarePat(strings.ToValidUTF8(t, "\ufffd"))
		}
		s := c.Bytes()
		if len(t) > 200 || len(s) > 20 {
			s = "\xff"
		}
		c.Log("Replace %s with %q", p.desc, s)
		if err := ns.Replace(p.sp, s); err != nil {
			c.Log("error: %v", err)
		}
	default:
		// a valid list of changes for the whole text
		rs := []rune(t)
		cells := make([]cell, len(rs))
		for i, r := range rs {
			cells[i] = cell{string(r), 0, 0}
		}
		ch, init := c.changes(cells, 0, len(rs))
		c.Log("Transform %v initial offset %d", ch, init)
		ns.Transform(toRuneChanges(ch), init)
	}
}

// rawPat draws a pattern for a text of arbitrary bytes.
func (c *Ctx) rawPat(t string) *refPat {
	if c.One(4) {
		l := c.Bytes()
		if len(t) > 0 && c.Bool() {
			a := c.N(len(t))
			b := a + c.R(1, 3)
			if b > len(t) {
				b = len(t)
			}
			l = t[a:b]
		}
		l = strings.ToValidUTF8(l, "\ufffd") // the constructor takes valid literals only
		p := &refPat{desc: fmt.Sprintf("literal %q", l), sp: SP.FromString(l)}
		if c.One(4) {
			p.desc, p.sp = "invert "+p.desc, SP.Invert(p.sp)
		}
		return p
	}
	if c.One(5) {
		r := utf8.RuneError
		return &refPat{desc: "rune U+FFFD", sp: SP.FromRune(r)}
	}
	return c.genPat(strings.ToValidUTF8(t, "\ufffd"), 0)
}

func (c *Ctx) rawEdits(s string) {
	ns := N.FromString(s)
	base := 0
	if c.One(5) {
		base = c.R(1, 50)
		ns = N.New(s, s, ns.OriginalAlignments(), base)
	}
	c.sane("fresh text", ns, s, s, base)
	orig := s
	for k := c.R(1, 5); k > 0; k-- {
		switch c.N(8) {
		case 0:
			rg := c.rawRange(ns.Get(), orig)
			if p, ok := ns.Slice(rg); ok {
				c.Log("Slice %#v", rg)
				ns, orig = p, p.GetOriginal()
				c.Hit("text cut")
			}
		case 1, 2:
			p := c.rawPat(ns.Get())
			b := c.N(5)
			c.Log("Split %s (%s)", p.desc, behaviourNames[b])
			po := ns.OriginalOffsets()
			ps, err := ns.Split(p.sp, behaviours[b])
			if err != nil {
				c.Log("error: %v", err)
				break
			}
			c.Hit("text split")
			for i, x := range ps {
				if x == nil {
					continue
				}
				w := fmt.Sprintf("piece %d of the split of %q by %s (%s)", i, short(ns.Get()), p.desc, behaviourNames[b])
				q := x.OriginalOffsets()
				if q.Start < po.Start || q.End > po.End {
					c.Fail("%s has original offsets %v, the text %v", w, q, po)
				}
				c.sane(w, x, x.GetOriginal(), s, base)
			}
			c.sane("the text after a split", ns, orig, s, base)
			if len(ps) > 0 {
				if x := ps[c.N(len(ps))]; x != nil {
					ns, orig = x, x.GetOriginal()
				}
			}
		case 3:
			n := c.genNormalizer(1)
			c.Log("normalizer %s", n.desc)
			if err := n.lib.Normalize(ns); err != nil {
				c.Log("error: %v", err)
			}
			c.Hit("normalizer")
		default:
			c.rawEdit(ns)
		}
		if ns.Len() > 3000 && !c.Huge {
			break
		}
		c.sane("after an edit", ns, orig, s, base)
	}
}

func (c *Ctx) rawPatterns(s string) {
	p := c.rawPat(s)
	c.Log("%s", p.desc)
	cs, err := p.sp.FindMatches(s)
	c.Hit("pattern")
	if err != nil {
		c.Log("error: %v", err)
		return
	}
	prev := 0
	for i, x := range cs {
		c.within(x.Offsets.Start, x.Offsets.End, len(s), "capture %d of %s in %q", i, p.desc, s)
		if x.Offsets.Start < prev {
			c.Fail("capture %d %v of %s in %q goes back before %d", i, x.Offsets, p.desc, s, prev)
		}
		prev = x.Offsets.End
	}
}

func (c *Ctx) rawModel(s string) (string, models.Model) {
	// a vocabulary made of pieces of the text, byte-wise and character-wise
	terms := []string{}
	for k := c.R(0, 12); k > 0 && len(s) > 0; k-- {
		a := c.N(len(s))
		b := a + c.R(1, 4)
		if b > len(s) {
			b = len(s)
		}
		terms = append(terms, s[a:b])
	}
	for _, r := range s {
		if c.Bool() {
			terms = append(terms, string(r))
		}
	}
	if c.Bool() {
		b := &refBPE{ids: map[string]int{}, merges: map[[2]int]refMerge{}}
		for _, t := range terms {
			b.add(t)
		}
		b.unk = pick(c.Src, []string{"", "<unk>", "\xff"})
		b.prefix = pick(c.Src, []string{"", "", "##", "\xe4"})
		b.suffix = pick(c.Src, []string{"", "", "</w>", "\x80"})
		b.fuse = c.Bool()
		if c.N(5) > 0 {
			b.add(b.unk)
		}
		for _, t := range terms {
			if c.Bool() {
				b.add(b.prefix + t)
			}
			if c.One(3) {
				b.add(b.prefix + t + b.suffix)
			}
		}
		for k := c.R(0, 8); k > 0 && len(b.terms) > 0; k-- {
			l, r := c.N(len(b.terms)), c.N(len(b.terms))
			b.merges[[2]int{l, r}] = refMerge{k, c.N(len(b.terms))}
		}
		d := pick(c.Src, []float64{0, 0, 0, 0.5, 1})
		c.Hit("bpe")
		return fmt.Sprintf("bpe dropout %v %s", d, b), b.model(c.N(3), d)
	}
	w := &refWP{ids: map[string]int{}, unk: pick(c.Src, []string{"[UNK]", "\xff", ""}), prefix: pick(c.Src, []string{"##", "", "\xe4", "\x80"}), max: pick(c.Src, []int{100, 3, 1, 0})}
	if c.N(5) > 0 {
		w.add(w.unk)
	}
	for _, t := range terms {
		w.add(t)
		w.add(w.prefix + t)
	}
	c.Hit("wordpiece")
	return "wordpiece " + w.String(), w.model()
}

func (c *Ctx) rawModels(s string) {
	desc, m := c.rawModel(s)
	c.Log("%s", desc)
	in := s
	if c.One(4) {
		in = c.Bytes()
	}
	ts, err := m.Tokenize(in)
	if err != nil {
		c.Log("error: %v", err)
		return
	}
	for i, t := range ts {
		c.within(t.Offsets.Start, t.Offsets.End, len(in), "token %d %+v of %q\n with %s", i, t, in, desc)
	}
}

func (c *Ctx) rawPipeline(s string) {
	ns := N.FromString(s)
	n := c.genNormalizer(1)
	c.Log("normalizer %s", n.desc)
	if err := n.lib.Normalize(ns); err != nil {
		c.Log("error: %v", err)
	}
	c.Hit("normalizer")
	if c.One(3) {
		c.rawEdit(ns)
	}
	c.sane("after the normalizer", ns, s, s, 0)
	p := PT.FromNormalizedString(ns)
	for k := c.R(1, 2); k > 0; k-- {
		t := c.genPreTok()
		c.Log("pre-tokenizer %s", t.desc)
		if err := t.lib.PreTokenize(p); err != nil {
			c.Log("error: %v", err)
		}
		c.Hit("pre-tokenizer")
	}
	prev := 0
	for i, x := range p.Splits() {
		w := fmt.Sprintf("piece %d", i)
		c.sane(w, x.NormalizedString, x.NormalizedString.GetOriginal(), s, 0)
		if x.NormalizedString.Len() == 0 {
			c.Fail("%s is empty", w)
		}
	}
	for i, x := range p.GetOriginalByteSplits() {
		c.within(x.Offsets.Start, x.Offsets.End, len(s), "original byte split %d of %q", i, s)
	}
	for i, x := range p.GetNormalizedByteSplits() {
		if x.Offsets.Start != prev || x.Offsets.End != prev+len(x.String) {
			c.Fail("normalized byte split %d %q has offsets %v, expected to start at %d", i, x.String, x.Offsets, prev)
		}
		prev = x.Offsets.End
	}
	desc, m := c.rawModel(s)
	c.Log("%s", desc)
	err := p.Tokenize(func(ns *N.NormalizedString) ([]models.Token, error) {
		ts, err := m.Tokenize(ns.Get())
		if err == nil {
			for i, t := range ts {
				c.within(t.Offsets.Start, t.Offsets.End, ns.Len(), "token %d %+v of %q\n with %s", i, t, ns.Get(), desc)
			}
		}
		return ts, err
	})
	if err != nil {
		c.Log("error: %v", err)
		return
	}
	e, err := p.IntoEncoding(c.R(-1, 2), c.N(2))
	if err != nil {
		c.Fail("IntoEncoding of a tokenized text: %v", err)
	}
	c.Hit("encoding")
	n0 := e.Len()
	if len(e.IDs) != n0 || len(e.TypeIDs) != n0 || len(e.Tokens) != n0 || len(e.Words) != n0 || len(e.Offsets) != n0 || len(e.SpecialTokensMask) != n0 || len(e.AttentionMask) != n0 {
		c.Fail("the encoding of %q is ragged: %s", s, renderEnc(e))
	}
	for i, o := range e.Offsets {
		c.within(o.Start, o.End, len(s), "encoding entry %d (%q) of %q", i, e.Tokens[i], s)
	}
}

func (c *Ctx) rawConvert(s string) {
	c.Hit("converter")
	conv := strutils.NewBytesToRuneOffsetConverter(s)
	n := utf8.RuneCountInString(s)
	step := 1 + len(s)/40
	for a := 0; a <= len(s); a += step {
		for b := a; b <= len(s); b += step {
			r := conv.Convert(strutils.ByteOffsets{Start: a, End: b})
			c.within(r.Start, r.End, n, "characters of bytes <%d,%d> of %q", a, b, s)
		}
	}
	for k := -2; k < len(s)+3; k++ {
		if strutils.IsRuneBoundary(s, k) && (k < 0 || k > len(s)) {
			c.Fail("IsRuneBoundary(%q, %d) is true", s, k)
		}
	}
	for _, k := range hostile {
		if strutils.IsRuneBoundary(s, k) && (k < 0 || k > len(s)) {
			c.Fail("IsRuneBoundary(%q, %d) is true", s, k)
		}
	}
}

func (c *Ctx) rawFiles(s string) {
	if c.Bool() {
		c.Hit("vocabulary file")
		content := s
		switch c.N(4) {
		case 0:
			content = "{" + c.jsonString("a") + ": 0, \"" + s + "\": 1}"
		case 1:
			content = "{\"a\": 0, \"b\":" + s + "}"
		case 2:
			content = "{\"a\": 0}" + s
		}
		f := scratchFile([]byte(content))
		defer os.Remove(f)
		c.Log("vocabulary file %q", content)
		v, err := vocabulary.FromJSONFile(f)
		if err != nil {
			c.Log("error: %v", err)
			c.Obs()
			return
		}
		for _, t := range []string{"a", "b", s, "\ufffd"} {
			id, ok := v.GetID(t)
			if !ok {
				continue
			}
			c.Obs()
			if _, ok := v.GetString(id); !ok {
				c.Fail("vocabulary of %q: the id %d of %q designates no term", content, id, t)
			}
		}
		v.AddTerm(s)
		if _, ok := v.GetID(s); !ok {
			c.Fail("vocabulary of %q: %q is absent right after it was added", content, s)
		}
		return
	}
	c.Hit("merges file")
	v := vocabulary.NewVocabulary()
	for _, t := range []string{"a", "b", "ab", "\xff", s, s + s, ""} {
		v.AddTerm(t)
	}
	var lines []string
	for k := c.R(1, 3); k > 0; k-- {
		l, r := pick(c.Src, []string{"a", "b", s, "\xff", ""}), pick(c.Src, []string{"a", "b", s, "\xff", ""})
		switch c.N(4) {
		case 0:
			lines = append(lines, s)
		case 1:
			lines = append(lines, c.Bytes())
		default:
			v.AddTerm(l + r)
			lines = append(lines, l+" "+r)
		}
	}
	content := strings.Join(lines, pick(c.Src, []string{"\n", "\r\n"}))
	f := scratchFile([]byte(content))
	defer os.Remove(f)
	pl := pick(c.Src, []int{0, 0, 1, 2, 1 << 40, -1, -1 << 63})
	c.Log("merges file %q, prefix length %d", content, pl)
	m, err := bpemodel.MergeMapFromFile(f, v, pl)
	c.Obs()
	if err != nil {
		c.Log("error: %v", err)
		return
	}
	for k, x := range *m {
		if _, ok := v.GetString(x.ID); !ok {
			c.Fail("merges %q: %v makes %v, which is no term", content, k, x)
		}
	}
}
