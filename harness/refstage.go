package main

import (
	"fmt"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/models"
	N "github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/bertnormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/lowercasenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/sequencenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/stripnormalizer"
	PT "github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bertpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/metaspacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/runedelimiterpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacesplitpretokenizer"
	"github.com/nlpodyssey/gotokenizers/strutils"
)

// ---------------------------------------------------------------- normalizers

type normPair struct {
	desc string
	lib  normalizers.Normalizer
	ref  func(*refNS)
	id   bool // never alters a text
}

func isCJK(r rune) bool {
	return r >= 0x4E00 && r <= 0x9FFF || r >= 0x3400 && r <= 0x4DBF || r >= 0x20000 && r <= 0x2A6DF ||
		r >= 0x2A700 && r <= 0x2B73F || r >= 0x2B740 && r <= 0x2B81F || r >= 0x2B920 && r <= 0x2CEAF ||
		r >= 0xF900 && r <= 0xFAFF || r >= 0x2F800 && r <= 0x2FA1F
}

// cjkUnspecified: CJK extension E starts at U+2B820; the table of the original
// BERT code starts it at U+2B920. What happens in between is left open.
func cjkUnspecified(r rune) bool { return r >= 0x2B820 && r <= 0x2B91F }

func refBert(r *refNS, clean, chinese, accents, lower bool) {
	if clean {
		r.filter(func(q rune) bool {
			if q == '\t' || q == '\n' || q == '\r' {
				return true
			}
			return q != 0 && q != 0xFFFD && !unicode.Is(unicode.C, q)
		})
		r.mapf(func(q rune) rune {
			if q == '\t' || q == '\n' || q == '\r' || unicode.Is(unicode.White_Space, q) {
				return ' '
			}
			return q
		})
	}
	if chinese {
		var out []cell
		for _, ce := range r.Cells {
			q, _ := utf8.DecodeRuneInString(ce.T)
			if isCJK(q) {
				out = append(out, cell{" ", ce.S, ce.E}, ce, cell{" ", ce.S, ce.E})
			} else {
				out = append(out, ce)
			}
		}
		r.Cells = out
	}
	if accents {
		r.filter(func(q rune) bool { return !unicode.Is(unicode.Mn, q) })
	}
	if lower {
		r.mapf(unicode.ToLower)
	}
}

func bertPair(k int) normPair {
	a, b, d, e := k&1 != 0, k&2 != 0, k&4 != 0, k&8 != 0
	p := normPair{
		desc: fmt.Sprintf("bert(clean %v, chinese %v, accents %v, lower %v)", a, b, d, e),
		lib:  bertnormalizer.NewBertNormalizer(a, b, d, e),
		ref:  func(r *refNS) { refBert(r, a, b, d, e) },
		id:   k&15 == 0,
	}
	if k&15 == 15 && k&16 != 0 {
		p.lib = bertnormalizer.DefaultBertNormalizer()
		p.desc = "default bert"
	}
	return p
}

func stripPair(l, r bool) normPair {
	return normPair{fmt.Sprintf("strip(%v,%v)", l, r), stripnormalizer.NewStripNormalizer(l, r), func(x *refNS) { x.trim(l, r) }, !l && !r}
}

func lowerPair() normPair {
	return normPair{"lowercase", lowercasenormalizer.NewLowerCaseNormalizer(), func(x *refNS) { x.mapf(unicode.ToLower) }, false}
}

func (c *Ctx) genNormalizer(depth int) normPair {
	switch c.N(6) {
	case 0, 1:
		return bertPair(c.N(32))
	case 2:
		return lowerPair()
	case 3, 4:
		return stripPair(c.Bool(), c.Bool())
	default:
		if depth <= 0 {
			return lowerPair()
		}
		var ms []normPair
		var libs []normalizers.Normalizer
		desc := "sequence["
		id := true
		for n := c.N(4); n > 0; n-- {
			m := c.genNormalizer(depth - 1)
			ms = append(ms, m)
			libs = append(libs, m.lib)
			desc += m.desc + ";"
			id = id && m.id
		}
		return normPair{desc + "]", sequencenormalizer.NewSequenceNormalizer(libs), func(x *refNS) {
			for _, m := range ms {
				m.ref(x)
			}
		}, id}
	}
}

// ---------------------------------------------------------------- pre-tokenized texts

type refTok struct {
	ID   int
	V    string
	S, E int
}

type refSplit struct {
	ns   *refNS
	toks *[]refTok
}

type refPTS []refSplit

// each replaces every piece without tokens by the non-empty pieces of f.
func (p *refPTS) each(f func(r *refNS) []*refNS) {
	var out refPTS
	for _, s := range *p {
		if s.toks != nil {
			out = append(out, s)
			continue
		}
		for _, x := range f(s.ns) {
			if x != nil && len(x.Cells) > 0 {
				out = append(out, refSplit{ns: x})
			}
		}
	}
	*p = out
}

func ptsFrom(ns *N.NormalizedString) *PT.PreTokenizedString { return PT.FromNormalizedString(ns) }

func libToks(ts []refTok) []models.Token {
	out := make([]models.Token, len(ts))
	for i, t := range ts {
		out[i] = models.Token{ID: t.ID, Value: t.V, Offsets: strutils.ByteOffsets{Start: t.S, End: t.E}}
	}
	return out
}

func (c *Ctx) cmpToks(what string, got *[]models.Token, want *[]refTok) {
	if (got == nil) != (want == nil) {
		c.Fail("%s: tokens present %v, expected %v", what, got != nil, want != nil)
	}
	if got != nil {
		c.cmpTokList(what, *got, *want)
	}
}

func (c *Ctx) cmpTokList(what string, got []models.Token, want []refTok) {
	c.obs++
	same := len(got) == len(want)
	for i := 0; same && i < len(got); i++ {
		g, w := got[i], want[i]
		same = g.ID == w.ID && g.Value == w.V && g.Offsets.Start == w.S && g.Offsets.End == w.E
	}
	if !same {
		c.Fail("%s: tokens are\n  %v\n expected\n  %v", what, fmtToks(got), want)
	}
}

func fmtToks(ts []models.Token) (out []refTok) {
	for _, t := range ts {
		out = append(out, refTok{t.ID, t.Value, t.Offsets.Start, t.Offsets.End})
	}
	return
}

// cmpPTS compares everything a pre-tokenized text reports with the model.
func (c *Ctx) cmpPTS(what string, p *PT.PreTokenizedString, r refPTS) {
	sp := p.Splits()
	if len(sp) != len(r) {
		got := []string{}
		for _, s := range sp {
			got = append(got, s.NormalizedString.Get())
		}
		want := []string{}
		for _, s := range r {
			want = append(want, s.ns.text())
		}
		c.Fail("%s: %d pieces %q, expected %d pieces %q", what, len(sp), got, len(r), want)
	}
	for i := range sp {
		w := fmt.Sprintf("%s: piece %d", what, i)
		c.cmpNS(w, sp[i].NormalizedString, r[i].ns)
		c.cmpToks(w, sp[i].Tokens, r[i].toks)
	}
	ob := p.GetOriginalByteSplits()
	nb := p.GetNormalizedByteSplits()
	if len(ob) != len(r) || len(nb) != len(r) {
		c.Fail("%s: %d original and %d normalized byte splits for %d pieces", what, len(ob), len(nb), len(r))
	}
	off := 0
	for i := range r {
		t := r[i].ns.text()
		if ob[i].String != t || ob[i].Offsets.Start != r[i].ns.Shift || ob[i].Offsets.End != r[i].ns.Shift+len(r[i].ns.Orig) {
			c.Fail("%s: original byte split %d is %q %v, expected %q {%d %d}", what, i, ob[i].String, ob[i].Offsets, t, r[i].ns.Shift, r[i].ns.Shift+len(r[i].ns.Orig))
		}
		if nb[i].String != t || nb[i].Offsets.Start != off || nb[i].Offsets.End != off+len(t) {
			c.Fail("%s: normalized byte split %d is %q %v, expected %q {%d %d}", what, i, nb[i].String, nb[i].Offsets, t, off, off+len(t))
		}
		off += len(t)
		c.cmpToks(fmt.Sprintf("%s: original byte split %d", what, i), ob[i].Tokens, r[i].toks)
		c.cmpToks(fmt.Sprintf("%s: normalized byte split %d", what, i), nb[i].Tokens, r[i].toks)
	}
}

// randToks draws tokens over a piece (non-empty byte ranges of it).
func (c *Ctx) randToks(t string, nonEmpty bool) []refTok {
	out := []refTok{}
	for n := c.N(4); n > 0; n-- {
		tk := refTok{ID: c.R(-2, 100000), V: c.TextN(c.N(4))}
		if len(t) > 0 {
			tk.S = c.N(len(t))
			tk.E = tk.S + c.R(1, len(t)-tk.S)
		} else if nonEmpty {
			continue
		}
		out = append(out, tk)
	}
	return out
}

// preSplit cuts a pre-tokenized text at random and attaches tokens to some
// pieces, as earlier stages would.
func (c *Ctx) preSplit(p *PT.PreTokenizedString, r *refPTS) {
	tokEvery := c.R(2, 5)
	res := map[int]refPTS{}
	err := p.Split(func(i int, ns *N.NormalizedString) ([]PT.Split, error) {
		if i < 0 || i >= len(*r) {
			c.Fail("Split calls the function with index %d for %d pieces", i, len(*r))
		}
		m := (*r)[i].ns
		pat := c.genPat(m.text(), 0)
		b := c.N(5)
		cs, _ := pat.captures(m.text())
		want := m.split(cs, b)
		got, err := ns.Split(pat.sp, behaviours[b])
		c.Log("  pre-split by %s (%s) into %d", pat.desc, behaviourNames[b], len(got))
		if err != nil || len(got) != len(want) {
			c.Fail("Split %s (%s) of %q gives %d pieces, error %v, expected %d", pat.desc, behaviourNames[b], m.text(), len(got), err, len(want))
		}
		out := PT.SplitsFromNormalizedStrings(got)
		if len(out) != len(got) {
			c.Fail("SplitsFromNormalizedStrings gives %d splits for %d texts", len(out), len(got))
		}
		var nr refPTS
		for k := range want {
			if out[k].NormalizedString != got[k] || out[k].Tokens != nil {
				c.Fail("SplitsFromNormalizedStrings alters piece %d", k)
			}
			if want[k] == nil {
				continue
			}
			s := refSplit{ns: want[k]}
			if c.One(tokEvery) {
				ts := c.randToks(want[k].text(), true)
				s.toks = &ts
				l := libToks(ts)
				out[k].Tokens = &l
				c.Hit("piece with tokens")
			}
			nr = append(nr, s)
		}
		res[i] = nr
		return out, nil
	})
	var all refPTS
	for i, x := range *r {
		if x.toks != nil {
			all = append(all, x)
		} else {
			all = append(all, res[i]...)
		}
	}
	*r = all
	if err != nil {
		c.Fail("pre-split reports an error: %v", err)
	}
	c.Hit("already split")
}

// genPTS draws a pre-tokenized text, fresh, normalized or already split.
func (c *Ctx) genPTS() (*PT.PreTokenizedString, refPTS, string) {
	s := c.Text()
	c.Log("text %q", s)
	ns, r := c.root(s)
	switch c.N(5) {
	case 0:
		if r.Shift == 0 {
			c.Hit("from string")
			return PT.FromString(s), refPTS{{ns: r}}, s
		}
	case 1, 2:
		ns, r = c.history(ns, r, c.R(1, 3), false)
		c.Hit("edited text")
	}
	p := ptsFrom(ns)
	m := refPTS{{ns: r}}
	if c.One(3) {
		c.preSplit(p, &m)
	}
	return p, m, s
}

// ---------------------------------------------------------------- pre-tokenizers

type preTok struct {
	desc    string
	lib     pretokenizers.PreTokenizer
	ref     func(*refPTS)
	changes bool // may alter characters
	marker  rune // metaspace
	prefix  bool
}

// runs cuts the maximal runs of equal non-negative class.
func (r *refNS) runs(class func(rune) int) (out []*refNS) {
	i := 0
	for i < len(r.Cells) {
		q, _ := utf8.DecodeRuneInString(r.Cells[i].T)
		k := class(q)
		j := i + 1
		for j < len(r.Cells) {
			q, _ := utf8.DecodeRuneInString(r.Cells[j].T)
			if class(q) != k || k == 100 {
				break
			}
			j++
		}
		if k >= 0 {
			out = append(out, r.sliceCells(i, j))
		}
		i = j
	}
	return
}

func isWS(q rune) bool { return unicode.Is(unicode.White_Space, q) }

func wsSplitTok() preTok {
	return preTok{"white space split", whitespacesplitpretokenizer.New(), func(p *refPTS) {
		p.each(func(r *refNS) []*refNS {
			return r.runs(func(q rune) int {
				if isWS(q) {
					return -1
				}
				return 0
			})
		})
	}, false, 0, false}
}

func runeDelimTok(d rune) preTok {
	return preTok{fmt.Sprintf("delimiter %q", d), runedelimiterpretokenizer.New(d), func(p *refPTS) {
		p.each(func(r *refNS) []*refNS {
			return r.runs(func(q rune) int {
				if q == d {
					return -1
				}
				return 0
			})
		})
	}, false, 0, false}
}

func bertTok() preTok {
	return preTok{"bert", bertpretokenizer.New(), func(p *refPTS) {
		p.each(func(r *refNS) []*refNS {
			return r.runs(func(q rune) int {
				if isWS(q) {
					return -1
				}
				if unicode.Is(unicode.P, q) {
					return 100 // every one on its own
				}
				return 0
			})
		})
	}, false, 0, false}
}

var (
	wordOnce  sync.Once
	wordClass []int8
)

// classOfWord: 1 word character, -1 white space, 0 neither, by the definitions
// of the expression engine for a single character.
func classOfWord(q rune) int {
	wordOnce.Do(func() {
		w := regexp2.MustCompile(`\A\w\z`, regexp2.IgnoreCase|regexp2.Multiline)
		s := regexp2.MustCompile(`\A\s\z`, regexp2.IgnoreCase|regexp2.Multiline)
		wordClass = make([]int8, 0x110000)
		var wg sync.WaitGroup
		const step = 0x110000 / 8
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func(lo int) {
				defer wg.Done()
				buf := make([]rune, 1)
				for q := lo; q < lo+step; q++ {
					buf[0] = rune(q)
					if ok, _ := w.MatchRunes(buf); ok {
						wordClass[q] = 1
					} else if ok, _ := s.MatchRunes(buf); ok {
						wordClass[q] = -1
					}
				}
			}(k * step)
		}
		wg.Wait()
	})
	return int(wordClass[q])
}

func wordTok() preTok {
	return preTok{"word", whitespacepretokenizer.NewDefault(), func(p *refPTS) {
		p.each(func(r *refNS) []*refNS { return r.runs(classOfWord) })
	}, false, 0, false}
}

// matchPieces cuts the non-empty matches of an expression.
func (r *refNS) matchPieces(ms [][2]int) (out []*refNS) {
	at := map[int]int{}
	for i, b := range r.starts() {
		at[b] = i
	}
	for _, m := range ms {
		if m[0] < m[1] {
			out = append(out, r.sliceCells(at[m[0]], at[m[1]]))
		}
	}
	return
}

func wordUserTok(e string, o regexp2.RegexOptions) preTok {
	re := mustRe2(e, o)
	return preTok{fmt.Sprintf("word with expression %q options %d", e, o), whitespacepretokenizer.New(re), func(p *refPTS) {
		p.each(func(r *refNS) []*refNS {
			t := r.text()
			if t == "" {
				return nil
			}
			return r.matchPieces(regexp2Matches(re)(t))
		})
	}, false, 0, false}
}

// The GPT-2 byte alphabet, written out from its definition.
var gpt2 [256]rune

func init() {
	used := map[int]bool{}
	for b := '!'; b <= '~'; b++ {
		used[int(b)] = true
	}
	for b := '¡'; b <= '¬'; b++ {
		used[int(b)] = true
	}
	for b := '®'; b <= 'ÿ'; b++ {
		used[int(b)] = true
	}
	n := 256
	for b := 0; b < 256; b++ {
		if used[b] {
			gpt2[b] = rune(b)
		} else {
			gpt2[b] = rune(n)
			n++
		}
	}
}

const gpt2Expr = `'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+`

var gpt2Re = regexp2.MustCompile(gpt2Expr, regexp2.IgnoreCase|regexp2.Multiline)

func byteLevelTok(re *regexp2.Regexp, own *regexp2.Regexp, desc string, prefix, trim, useDefault bool) preTok {
	var lib pretokenizers.PreTokenizer
	if useDefault {
		lib = bytelevelpretokenizer.NewDefault()
		prefix = true
		desc = "byte level, all defaults"
	} else {
		lib = bytelevelpretokenizer.New(re, prefix, trim)
		desc = fmt.Sprintf("byte level (%s, prefix %v, trim %v)", desc, prefix, trim)
	}
	return preTok{desc, lib, func(p *refPTS) {
		p.each(func(r *refNS) []*refNS {
			r = r.clone()
			if prefix && len(r.Cells) > 0 && !isSpaceCell(r.Cells[0]) {
				r.prepend(" ")
			}
			t := r.text()
			if t == "" {
				return nil
			}
			var ms [][2]int
			for _, x := range tile(regexp2Matches(own)(t), len(t)) {
				ms = append(ms, [2]int{x.S, x.E})
			}
			out := r.matchPieces(ms)
			for _, o := range out {
				var cs []cell
				for _, ce := range o.Cells {
					for i := 0; i < len(ce.T); i++ {
						cs = append(cs, cell{string(gpt2[ce.T[i]]), ce.S, ce.E})
					}
				}
				o.Cells = cs
			}
			return out
		})
	}, true, 0, false}
}

func (c *Ctx) genByteLevel() preTok {
	prefix := c.Bool()
	switch c.N(4) {
	case 0:
		return byteLevelTok(nil, gpt2Re, "", true, true, true)
	case 1, 2:
		return byteLevelTok(bytelevelpretokenizer.DefaultSplittingRegexp, gpt2Re, "default expression", prefix, c.Bool(), false)
	default:
		e := pick(c.Src, append([]string{`\s+|\S+`, `.`, ` ?\p{L}+|\s`}, re2List...))
		var o regexp2.RegexOptions
		if c.One(5) {
			e = c.consuming(e)
			o = regexp2.RightToLeft
		}
		re := mustRe2(e, o)
		return byteLevelTok(re, re, fmt.Sprintf("expression %q options %d", e, o), prefix, c.Bool(), false)
	}
}

func metaTok(m rune, prefix, useDefault bool) preTok {
	var lib pretokenizers.PreTokenizer
	desc := fmt.Sprintf("metaspace %q prefix %v", m, prefix)
	if useDefault {
		lib = metaspacepretokenizer.NewDefault()
		m, prefix = '▁', true
		desc = "metaspace, all defaults"
	} else {
		lib = metaspacepretokenizer.New(m, prefix)
	}
	return preTok{desc: desc, lib: lib, changes: true, marker: m, prefix: prefix, ref: func(p *refPTS) {
		ms := string(m)
		p.each(func(r *refNS) []*refNS {
			r = r.clone()
			if len(r.Cells) == 0 {
				return nil
			}
			if prefix && r.Cells[0].T != ms {
				r.prepend(ms)
			}
			for i := range r.Cells {
				if r.Cells[i].T == " " {
					r.Cells[i].T = ms
				}
			}
			var out []*refNS
			i := 0
			for j := 1; j <= len(r.Cells); j++ {
				if j == len(r.Cells) || r.Cells[j].T == ms {
					out = append(out, r.sliceCells(i, j))
					i = j
				}
			}
			return out
		})
	}}
}

func (c *Ctx) genMeta(text string) preTok {
	if c.One(4) {
		return metaTok(0, true, true)
	}
	m := pick(c.Src, []rune{'▁', '▁', '_', 'é', '𝔾', 'a', ' ', '.'})
	if c.One(5) {
		m = c.runeOf(text)
	}
	return metaTok(m, c.Bool(), false)
}

func (c *Ctx) genPreTok() preTok {
	switch c.N(10) {
	case 0:
		return wsSplitTok()
	case 1:
		return runeDelimTok(pick(c.Src, []rune{'-', '_', ',', '|', ' ', 'é', '▁', '𝔾', 'a', '\n'}))
	case 2, 3:
		return bertTok()
	case 4:
		return wordTok()
	case 5:
		e := pick(c.Src, re2List)
		return wordUserTok(e, 0)
	case 6, 7:
		return c.genByteLevel()
	default:
		return c.genMeta("")
	}
}
