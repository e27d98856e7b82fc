package main

import (
	"errors"
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	N "github.com/nlpodyssey/gotokenizers/normalizedstring"
	SP "github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
)

// ---------------------------------------------------------------- edits

type mapper struct {
	desc string
	f    func(rune) rune
}

func (c *Ctx) mapper(text string) mapper {
	switch c.N(6) {
	case 0:
		r := c.Rune()
		return mapper{fmt.Sprintf("constant %q", r), func(rune) rune { return r }}
	case 1:
		return mapper{"identity", func(r rune) rune { return r }}
	case 2:
		a, b := c.runeOf(text), c.Rune()
		return mapper{fmt.Sprintf("%q to %q", a, b), func(r rune) rune {
			if r == a {
				return b
			}
			return r
		}}
	case 3:
		return mapper{"widen", func(r rune) rune { return 0x10000 + (r & 0xfff) }}
	case 4:
		return mapper{"narrow", func(r rune) rune { return 'a' + r%26 }}
	default:
		return mapper{"upper/lower swap", func(r rune) rune {
			if unicode.IsUpper(r) {
				return unicode.ToLower(r)
			}
			return unicode.ToUpper(r)
		}}
	}
}

// changes draws changes valid for the characters [i,j) of a text.
func (c *Ctx) changes(cells []cell, i, j int) (ch []change, init int) {
	n := j - i
	left := n
	if c.One(2) && n > 0 {
		init = c.N(n + 1)
		if c.Bool() && init > 1 {
			init = 1
		}
		left -= init
	}
	max := n + 3
	for k := c.N(max + 1); k > 0; k-- {
		r := c.Rune()
		switch {
		case left == 0 || c.One(3):
			ch = append(ch, change{r, 1})
		case c.One(3) && left > 1:
			d := c.R(1, left-1)
			if c.Bool() {
				d = 1
			}
			ch = append(ch, change{r, -d})
			left -= 1 + d
		default:
			if c.Bool() { // keep the character
				p := i + (n - left)
				if q, _ := utf8.DecodeRuneInString(cells[p].T); true {
					r = q
				}
			}
			ch = append(ch, change{r, 0})
			left--
		}
	}
	return
}

func toRuneChanges(ch []change) []N.RuneChange {
	out := make([]N.RuneChange, len(ch))
	for i, x := range ch {
		out[i] = N.RuneChange{Rune: x.R, Change: x.C}
	}
	return out
}

// edit applies one random edit to a text and to its model.
func (c *Ctx) edit(ns *N.NormalizedString, r *refNS) string {
	t := r.text()
	before := len(r.Cells)
	op := ""
	switch c.N(15) {
	case 0, 1:
		p := c.pred(t)
		neg := c.N(4) > 0
		keep := func(x rune) bool { return p.f(x) != neg }
		op = "Filter"
		c.Log("Filter keep %v of %s", !neg, p.desc)
		ns.Filter(keep)
		r.filter(keep)
	case 2:
		m := c.mapper(t)
		op = "Map"
		c.Log("Map %s", m.desc)
		ns.Map(m.f)
		r.mapf(m.f)
	case 3:
		if c.Bool() {
			op = "ToUpper"
			c.Log("ToUpper")
			ns.ToUpper()
			r.mapf(unicode.ToUpper)
		} else {
			op = "ToLower"
			c.Log("ToLower")
			ns.ToLower()
			r.mapf(unicode.ToLower)
		}
	case 4, 5:
		op = "Trim"
		switch c.N(4) {
		case 0:
			c.Log("Trim")
			ns.Trim()
			r.trim(true, true)
		case 1:
			c.Log("TrimLeft")
			ns.TrimLeft()
			r.trim(true, false)
		case 2:
			c.Log("TrimRight")
			ns.TrimRight()
			r.trim(false, true)
		default:
			a, b := c.Bool(), c.Bool()
			c.Log("TrimLeftRight %v %v", a, b)
			ns.TrimLeftRight(a, b)
			r.trim(a, b)
		}
	case 6, 7:
		s := c.malform(c.TextN(c.Len(3)))
		op = "Prepend"
		c.Log("Prepend %q", s)
		ns.Prepend(s)
		r.prepend(s)
	case 8, 9:
		s := c.malform(c.TextN(c.Len(3)))
		op = "Append"
		c.Log("Append %q", s)
		ns.Append(s)
		r.append(s)
	case 10, 11:
		if c.One(12) {
			op = "failing Replace"
			c.Log("Replace a pattern that fails")
			var some []refCap
			if c.Bool() {
				// the captures that come with an error do not count
				some = []refCap{{0, len(t), c.Bool()}}
			}
			err := ns.Replace(&userPattern{func(string) ([]refCap, error) { return some, errPattern }}, c.TextN(3))
			if !errors.Is(err, errPattern) {
				c.Fail("Replace of a failing pattern gives error %v", err)
			}
			break
		}
		p := c.anyPat(t)
		s := c.TextN(c.N(4))
		if len(t) > 400 {
			s = ""
		}
		op = "Replace"
		ms := p.marked(t)
		if len(t) > 20000 && len(ms) > 30 {
			// the cost of a replacement grows with matches times length
			p = c.rarePat(t)
			ms = p.marked(t)
			s = c.TextN(c.N(4))
		}
		if len(ms) > 0 && c.One(5) { // what is there already, or nearly so
			s = t[ms[0][0]:ms[0][1]]
			if c.One(4) {
				s = strings.ToUpper(s)
			}
		}
		s = c.malform(s)
		c.Log("Replace %s with %q", p.desc, s)
		if err := ns.Replace(p.sp, s); err != nil {
			c.Fail("Replace reports an error: %v", err)
		}
		r.replace(ms, s)
	default:
		i, j := 0, len(r.Cells)
		whole := c.One(3)
		if !whole && j > 0 {
			i = c.N(j + 1)
			j = i + c.N(j-i+1)
		}
		st := r.starts()
		ch, init := c.changes(r.Cells, i, j)
		switch {
		case whole:
			op = "Transform"
			c.Log("Transform %v initial offset %d", ch, init)
			ns.Transform(toRuneChanges(ch), init)
			r.transform(i, j, ch, init)
		case c.One(4) && len(r.Orig) > 0:
			// range given in the original referential
			bs := cuts(r.Orig)
			a := c.N(len(bs) - 1)
			b := a + c.R(1, len(bs)-1-a)
			if c.One(6) { // reversed or out of range: nothing is edited
				lo, hi := bs[b], bs[a]
				switch c.N(3) {
				case 0:
					lo, hi = bs[a], len(r.Orig)+c.R(1, 3)
				case 1:
					lo, hi = -c.R(1, 3), bs[b]
				}
				op = "TransformRange unsuccessful"
				c.Log("TransformRange original <%d,%d> %v initial offset %d", lo, hi, ch, init)
				ns.TransformRange(N.NewOriginalRange(lo, hi), toRuneChanges(ch), init)
				break
			}
			x, y, ok := r.o2n(bs[a], bs[b])
			if !ok { // converted to an empty range, or to none
				op = "TransformRange of nothing"
				c.Log("TransformRange original <%d,%d> to nothing", bs[a], bs[b])
				ns.TransformRange(N.NewOriginalRange(bs[a], bs[b]), nil, 0)
				break
			}
			ch, init = c.changes(r.Cells, x, y)
			op = "TransformRange original"
			c.Log("TransformRange original <%d,%d> %v initial offset %d", bs[a], bs[b], ch, init)
			ns.TransformRange(N.NewOriginalRange(bs[a], bs[b]), toRuneChanges(ch), init)
			r.transform(x, y, ch, init)
		default:
			op = "TransformRange"
			c.Log("TransformRange normalized <%d,%d> %v initial offset %d", st[i], st[j], ch, init)
			ns.TransformRange(N.NewNormalizedRange(st[i], st[j]), toRuneChanges(ch), init)
			r.transform(i, j, ch, init)
		}
	}
	c.Hit("op " + op)
	switch {
	case len(r.Cells) == 0 && before > 0:
		c.Hit("text emptied")
	case len(r.Cells) < before:
		c.Hit("text shrunk")
	case len(r.Cells) > before:
		c.Hit("text grown")
	}
	return op
}

// cutAny replaces a text by a random piece of it (nil when nothing can be cut).
func (c *Ctx) cutAny(ns *N.NormalizedString, r *refNS) (*N.NormalizedString, *refNS) {
	if c.One(3) && len(r.Orig) > 0 {
		bs := cuts(r.Orig)
		a := c.N(len(bs) - 1)
		b := a + c.R(1, len(bs)-1-a)
		if _, _, ok := r.o2n(bs[a], bs[b]); ok {
			c.Log("Slice original <%d,%d>", bs[a], bs[b])
			p, ok := ns.Slice(N.NewOriginalRange(bs[a], bs[b]))
			if !ok {
				c.Fail("Slice original <%d,%d> of %s is unsuccessful", bs[a], bs[b], r)
			}
			return p, r.sliceOrig(bs[a], bs[b])
		}
	}
	if len(r.Cells) == 0 {
		return nil, nil
	}
	i := c.N(len(r.Cells))
	j := i + c.R(1, len(r.Cells)-i)
	st := r.starts()
	c.Log("Slice normalized <%d,%d>", st[i], st[j])
	p, ok := ns.Slice(N.NewNormalizedRange(st[i], st[j]))
	if !ok {
		c.Fail("Slice normalized <%d,%d> of %s is unsuccessful", st[i], st[j], r)
	}
	return p, r.sliceCells(i, j)
}

// history applies up to n random edits, cuts and library steps.
func (c *Ctx) history(ns *N.NormalizedString, r *refNS, n int, check bool) (*N.NormalizedString, *refNS) {
	for k := 0; k < n; k++ {
		switch c.N(12) {
		case 0:
			if p, q := c.cutAny(ns, r); p != nil {
				ns, r = p, q
				c.Hit("op Slice")
			}
		case 1: // a library normalizer
			m := c.genNormalizer(1)
			c.Log("normalizer %s", m.desc)
			if err := m.lib.Normalize(ns); err != nil {
				c.Fail("normalizer %s reports an error: %v", m.desc, err)
			}
			m.ref(r)
			c.Hit("op normalizer")
		case 2: // split and continue on one piece
			p := c.genPat(r.text(), 0)
			b := c.N(5)
			cs, _ := p.captures(r.text())
			want := r.split(cs, b)
			c.Log("Split %s %s, keep one piece", p.desc, behaviourNames[b])
			got, err := ns.Split(p.sp, behaviours[b])
			if err != nil || len(got) != len(want) {
				c.Fail("Split %s (%s) of %s gives %d pieces (error %v), expected %d", p.desc, behaviourNames[b], r, len(got), err, len(want))
			}
			if len(want) > 0 {
				i := c.N(len(want))
				if want[i] != nil {
					ns, r = got[i], want[i]
					c.Hit("op Split")
				}
			}
		default:
			c.edit(ns, r)
		}
		if len(r.Cells) > 3000 && !c.Huge {
			break
		}
		if check {
			c.cmpNS("after step "+fmt.Sprint(k+1), ns, r)
		}
	}
	return ns, r
}

var editAlpha = []string{"a", " ", "é", "世", "𝔾", "\u0301"}

func init() {
	register(&Prop{
		ID:    "C01",
		Rule:  "A case is a text (systematic: every text up to length 4 over {a, space, é, 世, 𝔾, combining mark} with every single edit of a fixed list, and every Unicode code point under the case changes, a map, a filter, trimming, prepending and appending; random: texts over eighteen character classes) followed by 1 to 8 edits, cuts, splits and normalizers drawn at random; after every step the text, its original and the source of every byte are compared with a list-of-characters model. Non-trivial: a history in which a multi-byte character was present and the text changed its length.",
		Need:  []string{"malformed text added", "op Filter", "op Map", "op ToUpper", "op ToLower", "op Trim", "op Prepend", "op Append", "op Replace", "op Transform", "op TransformRange", "op TransformRange original", "op Slice", "op Split", "op normalizer", "text emptied", "text shrunk", "text grown", "long history", "op failing Replace", "op TransformRange unsuccessful", "op TransformRange of nothing", "text beyond 65536 bytes"},
		Enum:  func(th bool) int64 { return cpBlocks + countStrings(len(editAlpha), 4)*22 },
		Huge:  24,
		Dense: true,
		Quick: 2700000, Thorough: 54000000,
		Case: func(c *Ctx) {
			if c.Enum >= 0 && c.Enum < cpBlocks {
				c.caseBlock(blockRunes(c.Enum))
				return
			}
			if c.Enum >= 0 {
				c.Enum -= cpBlocks
				s := enumString(editAlpha, c.Enum/22)
				ns, r := N.FromString(s), refFrom(s)
				c.Log("text %q", s)
				c.K(s)
				c.fixedEdit(int(c.Enum%22), ns, r)
				c.cmpNS("after the edit", ns, r)
				c.Ki(int(c.Enum % 22))
				if len(s) != len([]rune(s)) {
					c.NT()
				}
				return
			}
			if c.Huge && c.Bool() {
				c.longRuns(func(ns *N.NormalizedString, r *refNS, u rune) {
					if unicode.Is(unicode.White_Space, u) && c.Bool() {
						left := c.Bool()
						right := !left || c.Bool()
						c.Log("TrimLeftRight %v %v", left, right)
						ns.TrimLeftRight(left, right)
						r.trim(left, right)
						return
					}
					c.Log("Filter out %U", u)
					ns.Filter(func(x rune) bool { return x != u })
					r.filter(func(x rune) bool { return x != u })
				})
				return
			}
			s := c.Text()
			c.Log("text %q", s)
			ns, r := c.root(s)
			c.cmpNS("fresh text", ns, r)
			n := c.R(1, 8)
			if c.One(40) {
				n = c.R(9, 40)
			}
			if n > 6 {
				c.Hit("long history")
			}
			ns, r = c.history(ns, r, n, true)
			c.K(s)
			c.K(r.String())
			if len(s) != len([]rune(s)) && len(r.Cells) != len([]rune(s)) {
				c.NT()
			}
		},
	})

	register(&Prop{
		ID:    "C02",
		Rule:  "A case is a text and a history of edits, cuts, splits, normalizers and pre-tokenizers (same generators as C01 and C09); the per-byte alignment is checked against the structural invariants and the inverse alignment against an independent computation from the model. Non-trivial: the alignment differs from that of an untouched text.",
		Need:  []string{"empty normalized text", "inverse with removed bytes", "inverse with grown blocks", "pre-tokenized piece", "leading zero-width source"},
		Enum:  func(th bool) int64 { return countStrings(len(editAlpha), 4) * 22 },
		Huge:  24,
		Quick: 1800000, Thorough: 36000000,
		Case: func(c *Ctx) {
			if c.Enum >= 0 {
				s := enumString(editAlpha, c.Enum/22)
				ns, r := N.FromString(s), refFrom(s)
				c.Log("text %q", s)
				c.fixedEdit(int(c.Enum%22), ns, r)
				c.K(s)
				c.Ki(int(c.Enum % 22))
				c.checkAlign(ns, r)
				return
			}
			s := c.Text()
			c.Log("text %q", s)
			ns, r := c.root(s)
			ns, r = c.history(ns, r, c.R(0, 6), false)
			c.K(r.String())
			c.checkAlign(ns, r)
			if c.One(3) {
				pt := c.genPreTok()
				c.Log("pre-tokenizer %s", pt.desc)
				rp := &refPTS{{ns: r.clone()}}
				pt.ref(rp)
				pts := ptsFrom(ns)
				if err := pt.lib.PreTokenize(pts); err != nil {
					c.Fail("pre-tokenizer %s reports an error: %v", pt.desc, err)
				}
				sp := pts.Splits()
				if len(sp) != len(*rp) {
					c.Fail("pre-tokenizer %s on %s gives %d pieces, expected %d", pt.desc, r, len(sp), len(*rp))
				}
				for i := range sp {
					c.Hit("pre-tokenized piece")
					c.checkAlign(sp[i].NormalizedString, (*rp)[i].ns)
				}
			}
		},
	})

	register(&Prop{
		ID:    "C03",
		Rule:  "A case is a text with a random edit history and, for short texts, every pair of positions from -2 to length+2 in both referentials (random pairs for long texts); conversions, lookups and cuts are compared with the model. Non-trivial: edited text and at least one non-empty range.",
		Need:  []string{"norm to orig", "orig to norm block", "orig to norm without counterpart", "out of range", "reversed", "negative", "empty text", "offset inside a character"},
		Enum:  func(th bool) int64 { return countStrings(len(editAlpha), 3) * 22 },
		Huge:  24,
		Quick: 1050000, Thorough: 21000000,
		Case: func(c *Ctx) {
			var ns *N.NormalizedString
			var r *refNS
			if c.Enum >= 0 {
				s := enumString(editAlpha, c.Enum/22)
				ns, r = N.FromString(s), refFrom(s)
				c.Log("text %q", s)
				c.fixedEdit(int(c.Enum%22), ns, r)
			} else {
				s := c.Text()
				c.Log("text %q", s)
				ns, r = c.root(s)
				ns, r = c.history(ns, r, c.R(0, 5), false)
			}
			c.K(r.String())
			if r.text() != r.Orig {
				c.NT()
			}
			c.cmpNS("before the queries", ns, r)
			c.ranges(ns, r)
		},
	})

	register(&Prop{
		ID:    "C04",
		Rule:  "A case is a family of texts: a root, pieces cut from any member by normalized or original ranges (valid, off-boundary, out of range, reversed), edits of any member in between; after every step every member is compared with its own model and every cut from the untouched root with the root's text. Non-trivial: at least one cut nested two deep or an edit after a cut.",
		Need:  []string{"cut normalized", "cut original", "nested cut", "edit of a piece", "edit of a parent", "refused cut", "zero-width cut", "cut without counterpart"},
		Enum:  func(th bool) int64 { return countStrings(len(editAlpha), 3) * 22 },
		Huge:  24,
		Quick: 1500000, Thorough: 30000000,
		Case: caseC04,
	})

	register(&Prop{
		ID:    "C05",
		Rule:  "A case is a text (fresh or edited), a pattern of any kind (built-in, inverted, user-defined tilings with zero-width captures, failing, or off the text) and all five behaviours; pieces are compared with those prescribed by the definition of each behaviour. Systematic part: every capture pattern of up to 6 captures (match / non-match, zero-width or not). Non-trivial: two captures at least.",
		Need:  []string{"pattern error", "capture off the text", "kind func", "kind rune", "kind string", "kind regexp", "kind regexp2", "kind regexp2rtl", "kind invert", "kind user", "kind emptystring", "edited text", "zero-width piece"},
		Enum:  func(th bool) int64 { return countStrings(4, 6) },
		Huge:  24,
		Quick: 750000, Thorough: 15000000,
		Case: caseC05,
	})

	register(&Prop{
		ID:    "C06",
		Rule:  "A case is a text and a pattern; captures are compared with an independent tiling of the matches (own scan for predicates, characters and literals; the engine's own match list for expressions). Systematic part: every text up to length 6 over {a, b, é, 世, 𝔾} with literals, characters and list expressions. Non-trivial: at least one match and one non-match capture.",
		Need:  []string{"kind func", "kind rune", "kind string", "kind regexp", "kind regexp2", "kind regexp2rtl", "kind invert", "kind emptystring", "zero-width match", "match at start", "match at end", "adjacent matches", "empty text", "no match"},
		Enum:  func(th bool) int64 { return countStrings(5, 5) },
		Huge:  24,
		Quick: 3000000, Thorough: 60000000,
		Case: caseC06,
	})

	register(&Prop{
		ID:    "C25",
		Rule:  "A case is a text and every pair of character boundaries (random pairs for long texts) for the offset conversion, and every position from -3 to length+3 for the boundary test, against decoding by hand. Systematic part: every text up to length 6 over characters of one to four bytes. Non-trivial: text with a multi-byte character.",
		Need:  []string{"empty text", "ends at the end", "empty range", "empty range at the end", "multi-byte", "negative", "beyond"},
		Enum:  func(th bool) int64 { return countStrings(5, 6) },
		Huge:  24,
		Quick: 6000000, Thorough: 120000000,
		Case: caseC25,
	})
}

// caseBlock changes the case of a block of code points, keeps a part of it and
// puts each at the edges of a text.
func (c *Ctx) caseBlock(rs []rune) {
	if len(rs) == 0 {
		return
	}
	s := string(rs)
	c.Log("code points %U..%U", rs[0], rs[len(rs)-1])
	c.K(s)
	do := func(what string, s string, lib func(*N.NormalizedString), ref func(*refNS)) {
		ns, r := N.FromString(s), refFrom(s)
		lib(ns)
		ref(r)
		c.cmpNS(what, ns, r)
		if len(r.text()) != len(s) {
			c.NT()
		}
	}
	do("ToUpper", s, func(x *N.NormalizedString) { x.ToUpper() }, func(r *refNS) { r.mapf(unicode.ToUpper) })
	do("ToLower", s, func(x *N.NormalizedString) { x.ToLower() }, func(r *refNS) { r.mapf(unicode.ToLower) })
	do("Map", s, func(x *N.NormalizedString) { x.Map(unicode.SimpleFold) }, func(r *refNS) { r.mapf(unicode.SimpleFold) })
	odd := func(q rune) bool { return q%3 != 1 }
	do("Filter", s, func(x *N.NormalizedString) { x.Filter(odd) }, func(r *refNS) { r.filter(odd) })
	for _, q := range rs {
		o := string(q)
		do("Trim", o+"x"+o, func(x *N.NormalizedString) { x.Trim() }, func(r *refNS) { r.trim(true, true) })
		do("Prepend and Append", o, func(x *N.NormalizedString) { x.Prepend(o + "é"); x.Append(o) }, func(r *refNS) { r.prepend(o + "é"); r.append(o) })
	}
}

// fixedEdit is the k-th edit of the systematic part.
func (c *Ctx) fixedEdit(k int, ns *N.NormalizedString, r *refNS) {
	no := func(xs ...rune) func(rune) bool {
		return func(q rune) bool {
			for _, x := range xs {
				if x == q {
					return false
				}
			}
			return true
		}
	}
	filter := func(f func(rune) bool) { ns.Filter(f); r.filter(f) }
	replace := func(p SP.SplitPattern, m func(string) [][2]int, content string) {
		ms := m(r.text())
		if err := ns.Replace(p, content); err != nil {
			c.Fail("Replace: %v", err)
		}
		r.replace(ms, content)
	}
	c.Log("systematic edit %d", k)
	switch k {
	case 0:
		filter(no('a'))
	case 1:
		filter(no('é', ' '))
	case 2:
		filter(no('世', 'a'))
	case 3:
		filter(no('𝔾'))
	case 4:
		filter(no('é', '世', '𝔾', 0x301))
	case 5:
		f := func(q rune) rune {
			if q == 'é' {
				return '𝔾'
			}
			return 'x'
		}
		ns.Map(f)
		r.mapf(f)
	case 6:
		ns.ToUpper()
		r.mapf(unicode.ToUpper)
	case 7:
		ns.Trim()
		r.trim(true, true)
	case 8:
		ns.TrimLeft()
		r.trim(true, false)
	case 9:
		ns.TrimRight()
		r.trim(false, true)
	case 10:
		ns.Prepend("x")
		r.prepend("x")
	case 11:
		ns.Prepend("世y")
		r.prepend("世y")
	case 12:
		ns.Append("x")
		r.append("x")
	case 13:
		ns.Append("é世")
		r.append("é世")
	case 14:
		ns.Prepend("")
		ns.Append("")
	case 15:
		replace(SP.FromRune('é'), literalMatches("é"), "e")
	case 16:
		replace(SP.FromString("a"), literalMatches("a"), "世世")
	case 17:
		replace(SP.FromString("世"), literalMatches("世"), "")
	case 18:
		replace(SP.FromFunc(func(rune) bool { return true }), funcMatches(func(rune) bool { return true }), "𝔾")
	case 19:
		re := mustRe(`\b|$`)
		replace(SP.FromRegexp(re), func(s string) [][2]int {
			if s == "" {
				return nil
			}
			return regexpMatches(re)(s)
		}, "|")
	case 20: // drop the first, double the others
		n := len(r.Cells)
		if n < 2 {
			return
		}
		var ch []change
		for _, ce := range r.Cells[1:] {
			q, _ := utf8.DecodeRuneInString(ce.T)
			ch = append(ch, change{q, 0}, change{'+', 1})
		}
		ns.Transform(toRuneChanges(ch), 1)
		r.transform(0, n, ch, 1)
	case 21: // insert before everything, keep every second
		n := len(r.Cells)
		ch := []change{{'>', 1}}
		for i := 0; i < n; i += 2 {
			q, _ := utf8.DecodeRuneInString(r.Cells[i].T)
			if i+1 < n {
				ch = append(ch, change{q, -1})
			} else {
				ch = append(ch, change{q, 0})
			}
		}
		ns.Transform(toRuneChanges(ch), 0)
		r.transform(0, n, ch, 0)
	}
}

// checkAlign checks the structure of the alignment and of its inverse.
func (c *Ctx) checkAlign(ns *N.NormalizedString, r *refNS) {
	c.obs++
	t := ns.Get()
	orig := ns.GetOriginal()
	if t != r.text() || orig != r.Orig {
		c.Fail("text %q from %q, expected %s", t, orig, r)
	}
	if t != orig {
		c.NT()
	}
	bound := func(i int) bool { return i >= 0 && i <= len(orig) && (i == len(orig) || utf8.RuneStart(orig[i])) }
	ps, pe := 0, 0
	for i := 0; i < len(t); i++ {
		o, ok := ns.CoerceRangeToOriginal(N.NewNormalizedRange(i, i+1))
		if !ok {
			c.Fail("byte %d of %q has no source", i, t)
		}
		s, e := o.Start(), o.End()
		if !bound(s) || !bound(e) || s > e {
			c.Fail("byte %d of %q refers to <%d,%d>, which is no character range of %q\n%s", i, t, s, e, orig, dumpNS(ns))
		}
		if s == e && i == 0 {
			c.Hit("leading zero-width source")
		}
		if i > 0 {
			same := s == ps && e == pe
			if !utf8.RuneStart(t[i]) && !same {
				c.Fail("the bytes of one character of %q (at %d) refer to <%d,%d> and <%d,%d>\n%s", t, i, ps, pe, s, e, dumpNS(ns))
			}
			if !same && s < pe {
				c.Fail("ranges <%d,%d> and <%d,%d> (byte %d of %q) overlap or go back\n%s", ps, pe, s, e, i, t, dumpNS(ns))
			}
		}
		ps, pe = s, e
	}
	// inverse
	want := r.inverse()
	inv := ns.OriginalAlignments()
	if len(inv) != len(orig) {
		c.Fail("the inverse alignment has %d entries for the %d bytes of %q (normalized %q)", len(inv), len(orig), orig, t)
	}
	if len(t) == 0 && len(orig) > 0 {
		c.Hit("empty normalized text")
	}
	for b := range inv {
		s, e := alignPair(inv[b])
		if s != want[b][0] || e != want[b][1] {
			c.Fail("inverse alignment of original byte %d of %q is <%d,%d>, expected <%d,%d>\n got      %s\n expected %s", b, orig, s, e, want[b][0], want[b][1], dumpNS(ns), r)
		}
		switch {
		case s == e:
			c.Hit("inverse with removed bytes")
		case e-s > 4:
			c.Hit("inverse with grown blocks")
		}
	}
}

func (c *Ctx) ranges(ns *N.NormalizedString, r *refNS) {
	t := r.text()
	if len(t) == 0 {
		c.Hit("empty text")
	}
	lim := len(t)
	if len(r.Orig) > lim {
		lim = len(r.Orig)
	}
	if lim <= 14 {
		for a := -2; a <= lim+2; a++ {
			for b := -2; b <= lim+2; b++ {
				c.oneRange(ns, r, t, a, b)
			}
		}
		return
	}
	for k := 0; k < 120; k++ {
		a, b := c.R(-2, lim+2), c.R(-2, lim+2)
		switch c.N(6) {
		case 0:
			b = a + c.R(0, 4)
		case 1:
			a, b = c.R(lim-4, lim+3), c.R(lim-4, lim+3)
		case 2:
			b += 1 << 40
		case 3:
			a = 0
		}
		c.oneRange(ns, r, t, a, b)
	}
}

func (c *Ctx) oneRange(ns *N.NormalizedString, r *refNS, t string, a, b int) {
	c.obs++
	nr, or := N.NewNormalizedRange(a, b), N.NewOriginalRange(a, b)
	if nr.Start() != a || nr.End() != b || nr.Len() != b-a || or.Start() != a || or.End() != b || or.Len() != b-a {
		c.Fail("a range built from %d and %d does not say so", a, b)
	}
	bad := func(n int) bool { return a < 0 || b < 0 || a > b || a > n || b > n }
	if a == b {
		// only the absence of crashes, and in-bounds lookups in the own referential
		s, ok := ns.GetRange(nr)
		if ok && s != "" {
			c.Fail("GetRange of the empty normalized range at %d gives %q", a, s)
		}
		s, ok = ns.GetOriginalRange(or)
		if ok && s != "" {
			c.Fail("GetOriginalRange of the empty original range at %d gives %q", a, s)
		}
		ns.GetRange(or)
		ns.GetOriginalRange(nr)
		ns.CoerceRangeToNormalized(or)
		ns.CoerceRangeToOriginal(nr)
		return
	}
	switch {
	case a > b:
		c.Hit("reversed")
	case a < 0 || b < 0:
		c.Hit("negative")
	case a > len(t) || b > len(t) || b > len(r.Orig):
		c.Hit("out of range")
	}
	// normalized referential
	co, ok := ns.CoerceRangeToOriginal(nr)
	gt, gok := ns.GetRange(nr)
	got, gook := ns.GetOriginalRange(nr)
	if bad(len(t)) {
		if ok {
			c.Fail("normalized range <%d,%d> beyond %q (length %d) converts to the original range <%d,%d>", a, b, t, len(t), co.Start(), co.End())
		}
		if gok || gook {
			c.Fail("lookup of the normalized range <%d,%d> beyond %q (length %d) succeeds: %q %v, %q %v", a, b, t, len(t), gt, gok, got, gook)
		}
		if p, sok := ns.Slice(nr); sok {
			c.Fail("cutting the normalized range <%d,%d> beyond %q (length %d) succeeds: %q", a, b, t, len(t), p.Get())
		}
	} else {
		s, e := r.n2o(a, b)
		if !ok || co.Start() != s || co.End() != e {
			c.Fail("normalized range <%d,%d> converts to <%d,%d> (ok=%v), expected <%d,%d>\n %s", a, b, co.Start(), co.End(), ok, s, e, r)
		}
		if !gok || gt != t[a:b] {
			c.Fail("GetRange of the normalized range <%d,%d> of %q gives %q (ok=%v)", a, b, t, gt, gok)
		}
		if !gook || got != r.Orig[s:e] {
			c.Fail("GetOriginalRange of the normalized range <%d,%d> gives %q (ok=%v), expected %q\n %s", a, b, got, gook, r.Orig[s:e], r)
		}
		c.Hit("norm to orig")
		if !strutils.IsRuneBoundary(t, a) || !strutils.IsRuneBoundary(t, b) {
			c.Hit("offset inside a character")
		}
	}
	// identity conversions
	if in, ok := ns.CoerceRangeToNormalized(nr); !bad(len(t)) && (!ok || in != nr) {
		c.Fail("a normalized range <%d,%d> coerced to its own referential gives <%d,%d> (ok=%v)", a, b, in.Start(), in.End(), ok)
	}
	if in, ok := ns.CoerceRangeToOriginal(or); !bad(len(r.Orig)) && (!ok || in != or) {
		c.Fail("an original range <%d,%d> coerced to its own referential gives <%d,%d> (ok=%v)", a, b, in.Start(), in.End(), ok)
	}
	// original referential
	cn, ok := ns.CoerceRangeToNormalized(or)
	gt, gok = ns.GetRange(or)
	got, gook = ns.GetOriginalRange(or)
	if bad(len(r.Orig)) {
		if ok {
			c.Fail("original range <%d,%d> beyond %q (length %d) converts to the normalized range <%d,%d>", a, b, r.Orig, len(r.Orig), cn.Start(), cn.End())
		}
		if gok || gook {
			c.Fail("lookup of the original range <%d,%d> beyond %q (length %d) succeeds: %q %v, %q %v", a, b, r.Orig, len(r.Orig), gt, gok, got, gook)
		}
		if p, sok := ns.Slice(or); sok {
			c.Fail("cutting the original range <%d,%d> beyond %q (length %d) succeeds: %q", a, b, r.Orig, len(r.Orig), p.Get())
		}
		return
	}
	if !gook || got != r.Orig[a:b] {
		c.Fail("GetOriginalRange of the original range <%d,%d> of %q gives %q (ok=%v)", a, b, r.Orig, got, gook)
	}
	i, j, found := r.o2n(a, b)
	if found {
		st := r.starts()
		if !ok || cn.Start() != st[i] || cn.End() != st[j] {
			c.Fail("original range <%d,%d> converts to the normalized range <%d,%d> (ok=%v), expected <%d,%d>\n %s", a, b, cn.Start(), cn.End(), ok, st[i], st[j], r)
		}
		if !gok || gt != t[st[i]:st[j]] {
			c.Fail("GetRange of the original range <%d,%d> gives %q (ok=%v), expected %q\n %s", a, b, gt, gok, t[st[i]:st[j]], r)
		}
		c.Hit("orig to norm block")
	} else {
		if ok && (cn.Start() != cn.End() || cn.Start() < 0 || cn.End() > len(t)) {
			c.Fail("original range <%d,%d> has no counterpart but converts to <%d,%d>\n %s", a, b, cn.Start(), cn.End(), r)
		}
		if gok && gt != "" {
			c.Fail("original range <%d,%d> has no counterpart but its normalized text is %q\n %s", a, b, gt, r)
		}
		c.Hit("orig to norm without counterpart")
	}
}

// ---------------------------------------------------------------- C04

type member struct {
	ns    *N.NormalizedString
	r     *refNS
	depth int
	name  string
}

func caseC04(c *Ctx) {
	var fam []*member
	var s string
	if c.Enum >= 0 {
		s = enumString(editAlpha, c.Enum/22)
		ns, r := N.FromString(s), refFrom(s)
		c.Log("text %q", s)
		c.fixedEdit(int(c.Enum%22), ns, r)
		fam = append(fam, &member{ns, r, 0, "root"})
		c.Ki(int(c.Enum % 22))
		// every pair of positions
		t := r.text()
		for a := -1; a <= len(t)+1; a++ {
			for b := -1; b <= len(t)+1; b++ {
				c.cut(fam[0], a, b, false)
			}
		}
		for a := -1; a <= len(s)+1; a++ {
			for b := -1; b <= len(s)+1; b++ {
				c.cut(fam[0], a, b, true)
			}
		}
		c.cmpNS("the text after being cut", ns, r)
		c.K(s)
		return
	}
	s = c.Text()
	c.Log("text %q", s)
	ns, r := c.root(s)
	fam = append(fam, &member{ns, r, 0, "root"})
	base := r.Shift
	steps := c.R(2, 10)
	if c.Huge {
		steps = c.R(2, 5)
	}
	for n := steps; n > 0; n-- {
		m := fam[c.N(len(fam))]
		if c.Bool() && len(fam) > 1 {
			m = fam[len(fam)-1]
		}
		switch c.N(5) {
		case 0, 1:
			c.Log("on %s:", m.name)
			if m.depth > 0 {
				c.Hit("edit of a piece")
				c.NT()
			} else if len(fam) > 1 {
				c.Hit("edit of a parent")
			}
			c.edit(m.ns, m.r)
			if len(m.r.Cells) > 2000 && !c.Huge {
				n = 1
			}
		case 2: // split: siblings
			if len(fam) > 30 {
				continue
			}
			p := c.anyPat(m.r.text())
			b := c.N(5)
			cs, _ := p.captures(m.r.text())
			want := m.r.split(cs, b)
			c.Log("on %s: Split %s %s", m.name, p.desc, behaviourNames[b])
			got, err := m.ns.Split(p.sp, behaviours[b])
			if err != nil || len(got) != len(want) {
				c.Fail("Split gives %d pieces (error %v), expected %d", len(got), err, len(want))
			}
			for i := range got {
				if want[i] == nil {
					c.cmpEmptyPiece("zero-width piece", got[i], m.r)
					continue
				}
				if len(fam) < 30 {
					fam = append(fam, &member{got[i], want[i], m.depth + 1, fmt.Sprintf("piece %d of %s", len(fam), m.name)})
				}
			}
		default:
			t := m.r.text()
			orig := c.One(3)
			lim := len(t)
			bs := cuts(t)
			if orig {
				lim = len(m.r.Orig)
				bs = cuts(m.r.Orig)
			}
			a, b := c.R(-1, lim+1), c.R(-1, lim+1)
			if c.N(4) > 0 {
				i := c.N(len(bs))
				j := i + c.N(len(bs)-i)
				a, b = bs[i], bs[j]
			}
			if p := c.cut(m, a, b, orig); p != nil {
				p.name = fmt.Sprintf("piece %d of %s", len(fam), m.name)
				if p.depth > 1 {
					c.Hit("nested cut")
					c.NT()
				}
				if len(fam) < 30 {
					fam = append(fam, p)
				}
			}
		}
		for _, x := range fam {
			c.cmpNS(x.name, x.ns, x.r)
			o := x.ns.OriginalOffsets()
			if a, b := o.Start-base, o.End-base; a < 0 || b > len(s) || a > b || s[a:b] != x.ns.GetOriginal() {
				c.Fail("%s: original offsets %v do not designate %q in the first original text %q (base %d)", x.name, o, x.ns.GetOriginal(), s, base)
			}
		}
	}
	c.K(s)
	for _, x := range fam {
		c.K(x.r.String())
	}
}

// cut tries one range and returns the piece when it is a non-empty one.
func (c *Ctx) cut(m *member, a, b int, orig bool) *member {
	t := m.r.text()
	var rng N.Range = N.NewNormalizedRange(a, b)
	ref, s := "normalized", t
	if orig {
		rng = N.NewOriginalRange(a, b)
		ref, s = "original", m.r.Orig
	}
	c.Log("on %s: Slice %s <%d,%d>", m.name, ref, a, b)
	p, ok := m.ns.Slice(rng)
	c.obs++
	valid := a >= 0 && b <= len(s) && a <= b && (a == len(s) || utf8.RuneStart(s[a])) && (b == len(s) || utf8.RuneStart(s[b]))
	if !valid {
		if ok {
			c.Fail("cutting the %s range <%d,%d> of %q succeeds (%q) although it is out of bounds, reversed or inside a character", ref, a, b, s, p.Get())
		}
		c.Hit("refused cut")
		return nil
	}
	if a == b {
		// an empty stretch: only sanity is demanded
		if ok {
			c.cmpEmptyPiece("zero-width cut", p, m.r)
		} else if !orig {
			c.Fail("cutting the empty normalized range at %d of %q is unsuccessful", a, t)
		}
		c.Hit("zero-width cut")
		return nil
	}
	if orig {
		want := m.r.sliceOrig(a, b)
		if len(want.Cells) == 0 {
			c.Hit("cut without counterpart")
			if ok {
				c.cmpNS("cut of removed original text", p, want)
			}
			return nil
		}
		if !ok {
			c.Fail("cutting the original range <%d,%d> is unsuccessful\n %s", a, b, m.r)
		}
		c.cmpNS(fmt.Sprintf("piece cut at original <%d,%d>", a, b), p, want)
		c.Hit("cut original")
		return &member{ns: p, r: want, depth: m.depth + 1}
	}
	if !ok {
		c.Fail("cutting the normalized range <%d,%d> is unsuccessful\n %s", a, b, m.r)
	}
	want := m.r.sliceCells(m.r.cellAt(a), m.r.cellAt(b))
	c.cmpNS(fmt.Sprintf("piece cut at normalized <%d,%d>", a, b), p, want)
	c.Hit("cut normalized")
	return &member{ns: p, r: want, depth: m.depth + 1}
}

// ---------------------------------------------------------------- C05, C06

func caseC05(c *Ctx) {
	var ns *N.NormalizedString
	var r *refNS
	var p *refPat
	if c.Enum >= 0 {
		// every sequence of captures of four kinds: match / non-match, with and without width
		kinds := enumString([]string{"m", "M", "n", "N"}, c.Enum)
		alpha := []string{"a", "é", "世", "𝔾", "b", "-"}
		text := ""
		var cs []refCap
		for i, k := range kinds {
			s := len(text)
			if k == 'M' || k == 'N' {
				text += alpha[i%len(alpha)]
			}
			cs = append(cs, refCap{s, len(text), k == 'M' || k == 'm'})
		}
		f := func(string) ([]refCap, error) { return append([]refCap(nil), cs...), nil }
		p = &refPat{desc: "captures " + kinds, kind: "user", sp: keeping(text, cs), caps: f}
		ns, r = N.FromString(text), refFrom(text)
		c.Log("text %q captures %v", text, cs)
		if len(cs) > 1 {
			c.NT()
		}
	} else {
		s := c.Text()
		c.Log("text %q", s)
		ns, r = c.root(s)
		if c.Bool() {
			ns, r = c.history(ns, r, c.R(1, 3), false)
			c.Hit("edited text")
		}
		p = c.anyPat(r.text())
		c.cmpNS("before splitting", ns, r)
	}
	t := r.text()
	c.K(t)
	c.K(p.desc)
	c.Hit("kind " + p.kind)
	cs, _ := p.captures(t)
	if len(cs) > 1 {
		c.NT()
	}
	// all five, and some once more: a pattern and its captures serve many splits
	for _, b := range []int{0, 1, 2, 3, 4, int(c.Idx % 5), 1} {
		want := r.split(cs, b)
		got, err := ns.Split(p.sp, behaviours[b])
		c.Log("Split %s (%s): %d pieces", p.desc, behaviourNames[b], len(got))
		if err != nil {
			c.Fail("Split %s (%s) of %q reports an error: %v", p.desc, behaviourNames[b], t, err)
		}
		if len(got) != len(want) {
			c.Fail("Split %s (%s) of %q gives %d pieces %q, expected %d\n captures %v", p.desc, behaviourNames[b], t, len(got), pieceTexts(got), len(want), cs)
		}
		var all strings.Builder
		for i := range got {
			if want[i] == nil {
				c.Hit("zero-width piece")
				c.cmpEmptyPiece(fmt.Sprintf("Split %s (%s) of %q piece %d", short(p.desc), behaviourNames[b], short(t), i), got[i], r)
				continue
			}
			c.cmpNS(fmt.Sprintf("Split %s (%s) of %q piece %d", short(p.desc), behaviourNames[b], short(t), i), got[i], want[i])
			all.WriteString(got[i].Get())
		}
		if b != 0 && all.String() != t {
			c.Fail("Split %s (%s): the pieces give %q, not the text %q", p.desc, behaviourNames[b], all.String(), t)
		}
		c.cmpNS("the text after splitting", ns, r)
	}
	if c.Enum >= 0 {
		return
	}
	// a pattern failure is returned
	b := c.N(5)
	if c.One(4) {
		some := cs
		if c.Bool() {
			some = nil
		}
		f := func(string) ([]refCap, error) { return some, errPattern }
		got, err := ns.Split(&userPattern{func(s string) ([]refCap, error) { return f(s) }}, behaviours[b])
		if !errors.Is(err, errPattern) || len(got) != 0 {
			c.Fail("Split with a failing pattern gives %d pieces and error %v", len(got), err)
		}
		c.Hit("pattern error")
	}
	// captures that do not lie on the text
	if c.One(3) {
		bad := []refCap{}
		switch c.N(5) {
		case 0:
			bad = []refCap{{0, len(t) + c.R(1, 5), false}}
		case 1:
			bad = []refCap{{-c.R(1, 3), len(t), false}}
		case 2:
			bad = []refCap{{0, len(t), false}, {len(t), len(t) + 1, false}}
		case 3:
			if len(t) == 0 {
				return
			}
			bad = []refCap{{len(t), 0, false}}
		default:
			if len(t) == len([]rune(t)) {
				return
			}
			for i := range []byte(t) {
				if !utf8.RuneStart(t[i]) {
					bad = []refCap{{0, i, false}, {i, len(t), true}}
					break
				}
			}
			if b > 1 {
				b = c.N(2)
			}
		}
		f := func(string) ([]refCap, error) { return bad, nil }
		got, err := ns.Split(&userPattern{f}, behaviours[b])
		if err == nil {
			c.Fail("Split (%s) of %q by captures %v off the text gives pieces %q and no error", behaviourNames[b], t, bad, pieceTexts(got))
		}
		c.Hit("capture off the text")
		c.cmpNS("the text after a failed split", ns, r)
	}
}

func pieceTexts(ps []*N.NormalizedString) (out []string) {
	for _, p := range ps {
		if p == nil {
			out = append(out, "<nil>")
			continue
		}
		out = append(out, p.Get())
	}
	return
}

func caseC06(c *Ctx) {
	if c.Huge && c.Bool() {
		c.hugeMatches()
		return
	}
	check := func(t string, p *refPat) {
		c.obs++
		want, _ := p.captures(t)
		got, err := p.sp.FindMatches(t)
		if err != nil {
			c.Fail("%s on %q reports an error: %v", p.desc, t, err)
		}
		same := len(got) == len(want)
		for i := 0; same && i < len(got); i++ {
			same = got[i].Offsets.Start == want[i].S && got[i].Offsets.End == want[i].E && got[i].IsMatch == want[i].M
		}
		if !same {
			c.Fail("%s on %q gives captures %v, expected %v", p.desc, t, got, want)
		}
		m, n := 0, 0
		for i, w := range want {
			if w.M != p.flip {
				m++
				if w.S == w.E {
					c.Hit("zero-width match")
				}
				if w.S == 0 {
					c.Hit("match at start")
				}
				if w.E == len(t) {
					c.Hit("match at end")
				}
				if i > 0 && want[i-1].M == w.M {
					c.Hit("adjacent matches")
				}
			} else {
				n++
			}
		}
		if m > 0 && n > 0 {
			c.NT()
		}
		if m == 0 {
			c.Hit("no match")
		}
		if t == "" {
			c.Hit("empty text")
		}
		c.Hit("kind " + p.kind)
	}
	if c.Enum >= 0 {
		t := enumString([]string{"a", "b", "é", "世", "𝔾"}, c.Enum)
		c.Log("text %q, fixed patterns", t)
		c.K(t)
		for _, lit := range []string{"", "a", "é", "世", "𝔾", "aa", "ab", "éa", "世世", "a𝔾", "aba"} {
			k := "string"
			if lit == "" {
				k = "emptystring"
			}
			check(t, &refPat{desc: fmt.Sprintf("literal %q", lit), kind: k, sp: SP.FromString(lit), matches: literalMatches(lit)})
		}
		for _, q := range []rune{'a', 'é', '世', '𝔾'} {
			q := q
			f := func(o rune) bool { return o == q }
			check(t, &refPat{desc: fmt.Sprintf("rune %q", q), kind: "rune", sp: SP.FromRune(q), matches: funcMatches(f)})
			check(t, &refPat{desc: fmt.Sprintf("inverted func %q", q), kind: "invert", sp: SP.Invert(SP.FromFunc(f)), matches: funcMatches(f), flip: true})
		}
		e := reList[int(c.Enum)%len(reList)]
		check(t, &refPat{desc: "regexp " + e, kind: "regexp", sp: SP.FromRegexp(mustRe(e)), matches: regexpMatches(mustRe(e))})
		e = re2List[int(c.Enum)%len(re2List)]
		re := mustRe2(e, 0)
		check(t, &refPat{desc: "regexp2 " + e, kind: "regexp2", sp: SP.FromRegexp2(re), matches: regexp2Matches(re)})
		return
	}
	t := c.Text()
	p := c.genPat(t, 0)
	c.Log("text %q pattern %s", t, p.desc)
	c.K(t)
	c.K(p.desc)
	check(t, p)
	// inversion flips every flag and leaves the inner pattern alone
	in, err := p.sp.FindMatches(t)
	if err != nil {
		c.Fail("%s on %q reports an error: %v", p.desc, t, err)
	}
	iv, err := SP.Invert(p.sp).FindMatches(t)
	if err != nil || len(iv) != len(in) {
		c.Fail("invert(%s) on %q gives %v (error %v), inner %v", p.desc, t, iv, err, in)
	}
	for i := range in {
		if iv[i].Offsets != in[i].Offsets || iv[i].IsMatch == in[i].IsMatch {
			c.Fail("invert(%s) on %q gives %v, inner %v", p.desc, t, iv, in)
		}
	}
	// the same for an inner pattern that hands out its own list
	own := append([]SP.Capture(nil), in...)
	sh := &sharedPattern{own}
	iv, err = SP.Invert(sh).FindMatches(t)
	if err != nil || len(iv) != len(in) {
		c.Fail("invert of a fixed pattern gives %v, error %v", iv, err)
	}
	for i := range in {
		if own[i] != in[i] {
			c.Fail("inverting a pattern alters the inner pattern's result: %v, was %v", own, in)
		}
		if iv[i].IsMatch == in[i].IsMatch {
			c.Fail("invert of a fixed pattern keeps a flag: %v, inner %v", iv, in)
		}
	}
	if c.Idx%4096 == 100 && !c.fuzz {
		c.timeouts()
	}
	if got, err := SP.Invert(&userPattern{func(string) ([]refCap, error) { return nil, errPattern }}).FindMatches(t); !errors.Is(err, errPattern) || len(got) != 0 {
		c.Fail("invert of a failing pattern gives %v, error %v", got, err)
	}
	some := []refCap{{0, len(t), true}}
	if got, err := SP.Invert(&userPattern{func(string) ([]refCap, error) { return some, errPattern }}).FindMatches(t); !errors.Is(err, errPattern) {
		c.Fail("invert of a pattern that gives captures and an error gives %v, error %v", got, err)
	}
	check(t, p)
	// the pattern serves other texts as well
	t2 := c.Text()
	c.Log("second text %q", t2)
	check(t2, p)
}

type sharedPattern struct{ caps []SP.Capture }

func (s *sharedPattern) FindMatches(string) ([]SP.Capture, error) { return s.caps, nil }

// ---------------------------------------------------------------- C25

func caseC25(c *Ctx) {
	var t string
	if c.Enum >= 0 {
		t = enumString([]string{"a", "é", "世", "𝔾", "\u0301"}, c.Enum)
	} else {
		t = c.Text()
	}
	c.Log("text %q", t)
	c.K(t)
	rs := []rune(t)
	if len(rs) != len(t) {
		c.NT()
		c.Hit("multi-byte")
	}
	pos := make([]int, 0, len(rs)+1)
	n := 0
	for _, r := range rs {
		pos = append(pos, n)
		n += utf8.RuneLen(r)
	}
	pos = append(pos, n)
	conv := strutils.NewBytesToRuneOffsetConverter(t)
	one := func(i, j int) {
		c.obs++
		got := conv.Convert(strutils.ByteOffsets{Start: pos[i], End: pos[j]})
		if got.Start != i || got.End != j {
			c.Fail("byte range <%d,%d> of %q converts to characters <%d,%d>, expected <%d,%d>", pos[i], pos[j], t, got.Start, got.End, i, j)
		}
		if j == len(rs) {
			c.Hit("ends at the end")
			if i == j {
				c.Hit("empty range at the end")
			}
		}
		if i == j {
			c.Hit("empty range")
		}
	}
	if len(rs) <= 24 {
		for i := 0; i <= len(rs); i++ {
			for j := i; j <= len(rs); j++ {
				one(i, j)
			}
		}
	} else {
		for k := 0; k < 300; k++ {
			i := c.N(len(rs) + 1)
			j := i + c.N(len(rs)+1-i)
			if c.One(4) {
				j = len(rs)
			}
			one(i, j)
		}
	}
	if len(t) == 0 {
		c.Hit("empty text")
	}
	at := map[int]bool{}
	for _, p := range pos {
		at[p] = true
	}
	chk := func(i int) {
		c.obs++
		if got := strutils.IsRuneBoundary(t, i); got != at[i] {
			c.Fail("IsRuneBoundary(%q, %d) is %v", t, i, got)
		}
	}
	for i := -3; i <= len(t)+3; i++ {
		chk(i)
	}
	c.Hit("negative")
	c.Hit("beyond")
	for _, i := range []int{-1 << 62, 1 << 62, -len(t), 2*len(t) + 1, -len(t) - 1, 256 + len(t), -256} {
		chk(i)
	}
}

// longRuns edits a text in which one character is repeated more than 65,536
// times, at the beginning, in the middle or at the end, or at two of them.
func (c *Ctx) longRuns(edit func(ns *N.NormalizedString, r *refNS, u rune)) {
	u := pick(c.Src, []rune{'\t', 0, 0x301, 0xa0, 0x2003, ' ', '\n', 0x200b})
	run := strings.Repeat(string(u), c.R(65530, 67000))
	text := pick(c.Src, []string{run + "aé", "é" + run, "世" + run + "b\u00e9", run + "É", "a " + run + "世" + string(u), run + "x" + run})
	c.Log("text with %d times %U", len(run)/len(string(u)), u)
	c.Hit("run beyond 65536 characters")
	c.NT()
	ns, r := N.FromString(text), refFrom(text)
	edit(ns, r, u)
	c.cmpNS("after the edit", ns, r)
}
