package main

import (
	"errors"
	"fmt"
	"unicode"
	"unicode/utf8"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/models"
	N "github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/sequencenormalizer"
	PT "github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
)

const cpBlock = 64

// cpBlocks is the number of blocks of code points of the systematic parts.
const cpBlocks = 0x110000 / cpBlock

func blockRunes(b int64) []rune {
	var out []rune
	for i := 0; i < cpBlock; i++ {
		q := rune(b*cpBlock + int64(i))
		if utf8.ValidRune(q) {
			out = append(out, q)
		}
	}
	return out
}

func init() {
	register(&Prop{
		ID:    "C07",
		Rule:  "A case is a pre-tokenized text and 1 to 5 split / normalize / tokenize steps with user functions returning none, one, many, empty or already tokenized pieces and failing at a chosen call; the calls the function received, the pieces, their offsets and their tokens are compared with a list model. Non-trivial: at least two pieces and one step that left a tokenized piece alone or failed.",
		Need:  []string{"step split", "step normalize", "step tokenize", "split failed", "normalize failed", "tokenize failed", "empty piece returned", "no piece returned", "piece with tokens", "tokenized piece left alone", "empty token list", "nil token list", "from string"},
		Huge:  24,
		Quick: 3000000, Thorough: 60000000,
		Case: caseC07,
	})
	register(&Prop{
		ID:    "C10",
		Rule:  "Systematic: every Unicode code point, alone and between neighbours, under the sixteen switch combinations (blocks of 64). Random: texts with and without edit history under random switches, sometimes normalized twice. Text and the source of every byte are compared with the model. Non-trivial: the normalizer changed something.",
		Need:  []string{"alone", "in context", "control removed", "space mapped", "ideograph", "mark removed", "lowercased", "all switches off", "edited text"},
		Enum:  func(bool) int64 { return cpBlocks },
		Huge:  24,
		Dense: true,
		Quick: 600000, Thorough: 12000000,
		Case: caseC10,
	})
	register(&Prop{
		ID:    "C11",
		Rule:  "Systematic: every Unicode code point lowercased and stripped (at the left, at the right, alone, in the middle). Random: texts with lowercase, strip and sequence normalizers (nested, empty, with recording members that fail at a chosen position). Non-trivial: the text changed or a member failed.",
		Need:  []string{"lowercase changes", "strip left", "strip right", "all white space", "inner space kept", "nested sequence", "empty sequence", "failing member", "edited text"},
		Enum:  func(bool) int64 { return cpBlocks },
		Huge:  24,
		Dense: true,
		Quick: 360000, Thorough: 7200000,
		Case: caseC11,
	})
	register(&Prop{
		ID:    "C12",
		Rule:  "Systematic: every Unicode code point as a character of the text (white-space splitting) and as the delimiter. Random: fresh, normalized or already split texts. Pieces, offsets and sources are compared with the maximal stretches of the model. Non-trivial: at least one delimiter was dropped and two pieces remain.",
		Need:  []string{"multi-byte delimiter", "leading delimiter", "trailing delimiter", "adjacent delimiters", "only delimiters", "empty text", "already split", "edited text", "piece with tokens"},
		Enum:  func(bool) int64 { return cpBlocks },
		Huge:  24,
		Dense: true,
		Quick: 450000, Thorough: 9000000,
		Case: caseC12,
	})
	register(&Prop{
		ID:    "C13",
		Rule:  "Systematic: every Unicode code point between letters, spaces and punctuation. User expressions that exceed their time limit, on the whole text or one piece, must be reported. Random: fresh, normalized or already split texts under the word (default and user expressions) and BERT pre-tokenizers. Pieces are compared with an independent classification per character. Non-trivial: at least two pieces.",
		Need:  []string{"word", "bert", "word with user expression", "punctuation alone", "empty text", "already split", "edited text", "piece with tokens"},
		Enum:  func(bool) int64 { return cpBlocks },
		Huge:  24,
		Dense: true,
		Quick: 180000, Thorough: 3600000,
		Case: caseC13,
	})
	register(&Prop{
		ID:    "C14",
		Rule:  "Systematic: every Unicode code point in four contexts, prefix on and off. User expressions that exceed their time limit, on the whole text or one piece, must be reported. Random: fresh, normalized or already split texts, default and user expressions. Bytes are decoded back through an own copy of the GPT-2 alphabet and compared with the input, pieces with the model's. Non-trivial: at least two pieces or a multi-byte character.",
		Need:  []string{"prefix added", "prefix on but not needed", "prefix off", "default expression", "user expression", "all defaults", "contraction", "empty text", "already split", "edited text", "piece with tokens", "zero-width match"},
		Enum:  func(bool) int64 { return cpBlocks },
		Huge:  24,
		Dense: true,
		Quick: 120000, Thorough: 2400000,
		Case: caseC14,
	})
	register(&Prop{
		ID:    "C15",
		Rule:  "Systematic: every text up to length 6 over {a, é, space, marker, tab} with markers of one to four bytes, prefix on and off. Random: fresh, normalized or already split texts. Pieces are compared with the model and concatenated against the input. Non-trivial: at least one marker in the middle.",
		Need:  []string{"prefix added", "prefix on but not needed", "prefix off", "space replaced", "marker in the text", "adjacent markers", "marker at the end", "empty text", "already split", "edited text", "piece with tokens", "space marker", "all defaults"},
		Enum:  func(bool) int64 { return countStrings(5, 6) },
		Huge:  24,
		Dense: true,
		Quick: 1050000, Thorough: 21000000,
		Case: caseC15,
	})
}

// ---------------------------------------------------------------- C07

func caseC07(c *Ctx) {
	if c.Huge && c.Bool() {
		c.hugePieces(false)
		return
	}
	p, r, s := c.genPTS()
	c.K(s)
	c.cmpPTS("at the start", p, r)
	for step := c.R(1, 5); step > 0; step-- {
		failAt := -1
		if c.One(5) {
			failAt = c.N(4)
		}
		boom := fmt.Errorf("failure injected at call %d", failAt)
		open := 0
		var todo []int
		for i, x := range r {
			if x.toks == nil {
				open++
				todo = append(todo, i)
			}
		}
		if open < len(r) {
			c.Hit("tokenized piece left alone")
			if len(r) > 1 {
				c.NT()
			}
		}
		before := p.Splits()
		beforeCopy := append([]PT.Split(nil), before...)
		calls := 0
		expect := func(what string, ns *N.NormalizedString, index int) *refNS {
			c.obs++
			if calls >= len(todo) {
				c.Fail("%s calls the function more than once per open piece (%d calls, %d open pieces)", what, calls+1, len(todo))
			}
			i := todo[calls]
			if index >= -1 && index != i {
				c.Fail("%s call %d gets index %d, expected %d", what, calls, index, i)
			}
			if ns != beforeCopy[i].NormalizedString {
				c.Fail("%s call %d gets text %q instead of piece %d %q", what, calls, ns.Get(), i, r[i].ns.text())
			}
			calls++
			return r[i].ns
		}
		wantCalls := open
		fails := failAt >= 0 && failAt < open
		if fails {
			wantCalls = failAt + 1
			c.NT()
		}
		switch c.N(3) {
		case 0:
			c.Hit("step split")
			res := map[int]refPTS{}
			err := p.Split(func(index int, ns *N.NormalizedString) ([]PT.Split, error) {
				m := expect("Split", ns, index)
				if calls-1 == failAt {
					// a partial result next to the error must not be used
					return []PT.Split{{NormalizedString: N.FromString("junk")}}, boom
				}
				var out []PT.Split
				var want refPTS
				add := func(x *N.NormalizedString, rx *refNS) {
					sp := PT.Split{NormalizedString: x}
					rs := refSplit{ns: rx}
					if c.One(4) {
						ts := c.randToks(rx.text(), false)
						if len(ts) == 0 {
							c.Hit("empty token list")
						}
						l := libToks(ts)
						rs.toks = &ts
						sp.Tokens = &l
						if len(rx.Cells) > 0 {
							c.Hit("piece with tokens")
						}
					}
					out = append(out, sp)
					if len(rx.Cells) == 0 {
						c.Hit("empty piece returned")
						return
					}
					want = append(want, rs)
				}
				switch c.N(6) {
				case 0: // nothing
					c.Hit("no piece returned")
				case 1: // itself
					add(ns, m)
				case 2: // unrelated texts
					for k := c.R(1, 3); k > 0; k-- {
						x, rx := c.root(c.TextN(c.N(4)))
						add(x, rx)
					}
				default:
					pat := c.anyPat(m.text())
					b := c.N(5)
					cs, _ := pat.captures(m.text())
					ws := m.split(cs, b)
					gs, err := ns.Split(pat.sp, behaviours[b])
					if err != nil || len(gs) != len(ws) {
						c.Fail("Split of %q by %s (%s) gives %d pieces, error %v, expected %d", m.text(), pat.desc, behaviourNames[b], len(gs), err, len(ws))
					}
					for k := range gs {
						if ws[k] == nil {
							out = append(out, PT.Split{NormalizedString: gs[k]})
							c.Hit("empty piece returned")
							continue
						}
						add(gs[k], ws[k])
					}
				}
				res[todo[calls-1]] = want
				return out, nil
			})
			c.Log("Split: %d calls, error %v", calls, err)
			if calls != wantCalls {
				c.Fail("Split made %d calls for %d open pieces (failure at call %d)", calls, open, failAt)
			}
			if fails {
				c.Hit("split failed")
				if !errors.Is(err, boom) {
					c.Fail("Split returned error %v instead of the function's", err)
				}
				break
			}
			if err != nil {
				c.Fail("Split reports an error: %v", err)
			}
			var nr refPTS
			for i, x := range r {
				if x.toks != nil {
					nr = append(nr, x)
				} else {
					nr = append(nr, res[i]...)
				}
			}
			r = nr
		case 1:
			c.Hit("step normalize")
			err := p.Normalize(func(ns *N.NormalizedString) error {
				m := expect("Normalize", ns, -2)
				if calls-1 == failAt {
					return boom
				}
				c.edit(ns, m)
				return nil
			})
			c.Log("Normalize: %d calls, error %v", calls, err)
			if calls != wantCalls {
				c.Fail("Normalize made %d calls for %d open pieces (failure at call %d)", calls, open, failAt)
			}
			if fails {
				c.Hit("normalize failed")
				if !errors.Is(err, boom) {
					c.Fail("Normalize returned error %v instead of the function's", err)
				}
			} else if err != nil {
				c.Fail("Normalize reports an error: %v", err)
			}
		default:
			c.Hit("step tokenize")
			given := map[int]*[]refTok{}
			err := p.Tokenize(func(ns *N.NormalizedString) ([]models.Token, error) {
				m := expect("Tokenize", ns, -2)
				if calls-1 == failAt {
					return libToks(c.randToks(m.text(), false)), boom
				}
				ts := c.randToks(m.text(), false)
				given[todo[calls-1]] = &ts
				if len(ts) == 0 {
					c.Hit("empty token list")
					if c.Bool() {
						c.Hit("nil token list")
						return nil, nil
					}
				}
				return libToks(ts), nil
			})
			c.Log("Tokenize: %d calls, error %v", calls, err)
			if calls != wantCalls {
				c.Fail("Tokenize made %d calls for %d open pieces (failure at call %d)", calls, open, failAt)
			}
			if fails {
				c.Hit("tokenize failed")
				if !errors.Is(err, boom) {
					c.Fail("Tokenize returned error %v instead of the function's", err)
				}
			} else if err != nil {
				c.Fail("Tokenize reports an error: %v", err)
			}
			// after a failure the pieces tokenized so far may or may not keep their tokens
			sp := p.Splits()
			for i, ts := range given {
				if fails && i < len(sp) && sp[i].Tokens == nil {
					continue
				}
				r[i].toks = ts
			}
		}
		c.cmpPTS("after the step", p, r)
		if len(r) > 400 {
			break
		}
	}
	for _, x := range r {
		c.K(x.ns.text())
	}
}

// ---------------------------------------------------------------- C10, C11

func (c *Ctx) normCheck(what string, n normPair, ns *N.NormalizedString, r *refNS) {
	if err := n.lib.Normalize(ns); err != nil {
		c.Fail("%s: %s reports an error: %v", what, n.desc, err)
	}
	n.ref(r)
	c.cmpNS(what+" after "+n.desc, ns, r)
}

func caseC10(c *Ctx) {
	if c.Enum >= 0 {
		rs := blockRunes(c.Enum)
		c.Log("code points %U..%U", c.Enum*cpBlock, c.Enum*cpBlock+cpBlock-1)
		c.Ki(int(c.Enum))
		if len(rs) == 0 {
			return
		}
		for k := 0; k < 16; k++ {
			var all []rune
			b := bertPair(k)
			for i, q := range rs {
				if cjkUnspecified(q) {
					continue
				}
				all = append(all, q)
				if i%3 == 0 {
					all = append(all, pick(c.Src, []rune{'a', ' ', 'É', '\u0301', '世', '\t', 0x200b}))
				}
			}
			s := string(all)
			ns, r := N.FromString(s), refFrom(s)
			c.normCheck("block", b, ns, r)
			c.Hit("in context")
			if r.text() != s {
				c.NT()
			}
			if k == 1 || k == 2 || k == 4 || k == 8 || k == 15 {
				for _, q := range rs {
					if cjkUnspecified(q) {
						continue
					}
					s := string(q)
					ns, r := N.FromString(s), refFrom(s)
					c.normCheck("alone", b, ns, r)
					c.Hit("alone")
				}
			}
		}
		return
	}
	if c.Huge && c.Bool() {
		c.longRuns(func(ns *N.NormalizedString, r *refNS, _ rune) { c.normCheck("long run", bertPair(c.N(16)), ns, r) })
		return
	}
	s := c.Text()
	for _, q := range s {
		if cjkUnspecified(q) {
			c.Skip()
		}
	}
	c.Log("text %q", s)
	ns, r := c.root(s)
	if c.One(3) {
		for k := c.R(1, 3); k > 0; k-- {
			c.edit(ns, r)
		}
		for _, q := range r.text() {
			if cjkUnspecified(q) {
				c.Skip()
			}
		}
		c.Hit("edited text")
		c.cmpNS("before normalizing", ns, r)
	}
	k := c.N(32)
	if c.One(12) {
		k = 0
	}
	b := bertPair(k)
	if k&15 == 0 {
		c.Hit("all switches off")
	}
	t := r.text()
	for _, q := range t {
		switch {
		case k&1 != 0 && unicode.Is(unicode.C, q) && q != '\t' && q != '\n' && q != '\r':
			c.Hit("control removed")
		case k&1 != 0 && q != ' ' && isWS(q):
			c.Hit("space mapped")
		case k&2 != 0 && isCJK(q):
			c.Hit("ideograph")
		case k&4 != 0 && unicode.Is(unicode.Mn, q):
			c.Hit("mark removed")
		case k&8 != 0 && unicode.ToLower(q) != q:
			c.Hit("lowercased")
		}
	}
	c.Log("%s", b.desc)
	c.K(t)
	c.Ki(k)
	c.normCheck("text", b, ns, r)
	if r.text() != t {
		c.NT()
	}
	for n := c.N(3); n > 0; n-- { // again, with any switches, on the same text
		b2 := bertPair(c.N(32))
		c.Log("%s", b2.desc)
		c.normCheck("again", b2, ns, r)
	}
	// the same instance on a second text
	s2 := c.Text()
	for _, q := range s2 {
		if cjkUnspecified(q) {
			return
		}
	}
	ns2, r2 := c.root(s2)
	c.normCheck("second text", b, ns2, r2)
	c.cmpNS("first text afterwards", ns, r)
}

type recNorm struct {
	id   int
	log  *[]int
	fail *int // the member that fails, and its error
	err  error
	lib  normalizers.Normalizer
	seen []*N.NormalizedString
}

func (n *recNorm) Normalize(ns *N.NormalizedString) error {
	*n.log = append(*n.log, n.id)
	n.seen = append(n.seen, ns)
	if *n.fail == n.id {
		return n.err
	}
	return n.lib.Normalize(ns)
}

// seqTree builds a sequence of recording members, nested at random.
func (c *Ctx) seqTree(depth int, log *[]int, next *int, failAt *int, boom error, refs *[]func(*refNS)) normalizers.Normalizer {
	n := c.N(4)
	if n == 0 {
		c.Hit("empty sequence")
	}
	var ms []normalizers.Normalizer
	for ; n > 0; n-- {
		if depth > 0 && c.One(4) {
			c.Hit("nested sequence")
			ms = append(ms, c.seqTree(depth-1, log, next, failAt, boom, refs))
			continue
		}
		m := c.genNormalizer(0)
		r := &recNorm{id: *next, log: log, fail: failAt, err: boom, lib: m.lib}
		*next++
		*refs = append(*refs, m.ref)
		ms = append(ms, r)
	}
	return sequencenormalizer.NewSequenceNormalizer(ms)
}

func caseC11(c *Ctx) {
	if c.Enum >= 0 {
		rs := blockRunes(c.Enum)
		c.Log("code points %U..%U", c.Enum*cpBlock, c.Enum*cpBlock+cpBlock-1)
		c.Ki(int(c.Enum))
		if len(rs) == 0 {
			return
		}
		s := "a" + string(rs) + "Z"
		ns, r := N.FromString(s), refFrom(s)
		c.normCheck("block", lowerPair(), ns, r)
		if r.text() != s {
			c.NT()
		}
		for _, q := range rs {
			one := string(q)
			for k, t := range []string{one, one + "x" + one + "y" + one, " " + one + "é", "世" + one + "\n"} {
				for f := 0; f < 4; f++ {
					if k > 0 && f == 0 {
						continue
					}
					ns, r := N.FromString(t), refFrom(t)
					if f == 0 {
						c.normCheck("alone", lowerPair(), ns, r)
					} else {
						c.normCheck("around", stripPair(f&1 != 0, f&2 != 0), ns, r)
					}
				}
			}
		}
		return
	}
	if c.Huge && c.Bool() {
		c.longRuns(func(ns *N.NormalizedString, r *refNS, _ rune) {
			left := c.Bool()
			c.normCheck("long run", stripPair(left, !left || c.Bool()), ns, r)
		})
		return
	}
	s := c.Text()
	if c.Bool() {
		ws := func() string {
			out := ""
			for n := c.N(4); n > 0; n-- {
				out += string(pick(c.Src, classes["spaces"]))
			}
			return out
		}
		if c.One(8) {
			s = ""
		}
		s = ws() + s + ws()
	}
	c.Log("text %q", s)
	ns, r := c.root(s)
	if c.One(3) {
		for k := c.R(1, 3); k > 0; k-- {
			c.edit(ns, r)
		}
		c.Hit("edited text")
		c.cmpNS("before normalizing", ns, r)
	}
	t := r.text()
	c.K(t)
	switch c.N(4) {
	case 0:
		c.Log("lowercase")
		c.normCheck("text", lowerPair(), ns, r)
		if r.text() != t {
			c.Hit("lowercase changes")
			c.NT()
		}
	case 1:
		a, b := c.Bool(), c.Bool()
		c.Log("strip %v %v", a, b)
		c.normCheck("text", stripPair(a, b), ns, r)
		u := r.text()
		if u != t {
			c.NT()
			if u == "" {
				c.Hit("all white space")
			} else if a {
				c.Hit("strip left")
			} else {
				c.Hit("strip right")
			}
		}
		for i, q := range u {
			if i > 0 && isWS(q) {
				c.Hit("inner space kept")
			}
		}
		c.normCheck("stripped again", stripPair(a, b), ns, r)
	default:
		log := []int{}
		next := 0
		failAt := -1
		if c.Bool() {
			failAt = c.N(5)
		}
		boom := errors.New("failure injected")
		var refs []func(*refNS)
		seq := c.seqTree(2, &log, &next, &failAt, boom, &refs)
		c.Log("sequence of %d members, failing %d", next, failAt)
		c.Ki(next)
		c.Ki(failAt)
		for round := 0; round < 3; round++ {
			log = log[:0]
			if round > 0 {
				if c.Bool() { // another member fails, or none
					failAt = c.R(-2, 4)
				}
				if c.Bool() { // another text
					ns, r = c.root(c.Text())
				}
				c.Log("again, failing %d, on %s", failAt, r)
			}
			err := seq.Normalize(ns)
			fails := failAt >= 0 && failAt < next
			n := next
			if fails {
				n = failAt + 1
				if !errors.Is(err, boom) {
					c.Fail("a sequence whose member %d of %d fails returns error %v", failAt, next, err)
				}
				c.Hit("failing member")
				c.NT()
			} else if err != nil {
				c.Fail("a sequence without failing member returns error %v", err)
			}
			if len(log) != n {
				c.Fail("a sequence of %d members (failing %d) ran members %v", next, failAt, log)
			}
			for i, x := range log {
				if x != i {
					c.Fail("a sequence of %d members ran them in the order %v", next, log)
				}
			}
			for i, f := range refs {
				if fails && i >= failAt {
					break
				}
				f(r)
			}
			c.cmpNS("after the sequence", ns, r)
			if r.text() != t {
				c.NT()
			}
			if len(r.Cells) > 3000 {
				break
			}
		}
	}
}

// ---------------------------------------------------------------- C12 .. C15

func (c *Ctx) ptCheck(what string, t preTok, p *PT.PreTokenizedString, r refPTS) refPTS {
	want := append(refPTS(nil), r...)
	t.ref(&want)
	if err := t.lib.PreTokenize(p); err != nil {
		c.Fail("%s: %s reports an error: %v", what, t.desc, err)
	}
	c.cmpPTS(what+": "+t.desc, p, want)
	return want
}

func (c *Ctx) ptText(what string, t preTok, s string) refPTS {
	return c.ptCheck(fmt.Sprintf("%s %q", what, s), t, PT.FromString(s), refPTS{{ns: refFrom(s)}})
}

func caseC12(c *Ctx) {
	if c.Enum >= 0 {
		rs := blockRunes(c.Enum)
		c.Log("code points %U..%U", c.Enum*cpBlock, c.Enum*cpBlock+cpBlock-1)
		c.Ki(int(c.Enum))
		if len(rs) == 0 {
			return
		}
		ws := wsSplitTok()
		s := ""
		for _, q := range rs {
			s += "a" + string(q)
		}
		c.ptText("block", ws, s+"b")
		for _, q := range rs {
			o := string(q)
			c.ptText("alone", ws, o)
			d := runeDelimTok(q)
			near := q + 1
			if !utf8.ValidRune(near) {
				near = 'y'
			}
			c.ptText("delimiter", d, o+"x"+o+o+"é"+string(near)+" "+o+"世"+o)
			if q%16 == 0 {
				c.ptText("delimiter", d, s)
			}
		}
		c.NT()
		return
	}
	p, r, s := c.genPTS()
	c.K(s)
	all := ""
	for _, x := range r {
		all += x.ns.text()
		if x.ns.text() == "" && x.toks == nil {
			c.Hit("empty text")
		}
	}
	var isD func(rune) bool
	var t preTok
	if c.Bool() {
		t = wsSplitTok()
		isD = isWS
	} else {
		d := c.runeOf(all)
		t = runeDelimTok(d)
		isD = func(q rune) bool { return q == d }
	}
	c.Log("%s on %d pieces", t.desc, len(r))
	c.K(t.desc)
	for _, x := range r {
		if x.toks != nil {
			continue
		}
		rs := []rune(x.ns.text())
		only := len(rs) > 0
		for i, q := range rs {
			if isD(q) {
				if q > 127 {
					c.Hit("multi-byte delimiter")
				}
				if i == 0 {
					c.Hit("leading delimiter")
				}
				if i == len(rs)-1 {
					c.Hit("trailing delimiter")
				}
				if i > 0 && isD(rs[i-1]) {
					c.Hit("adjacent delimiters")
				}
			} else {
				only = false
			}
		}
		if only {
			c.Hit("only delimiters")
		}
	}
	n := len(r)
	r = c.ptCheck("text", t, p, r)
	if len(r) > n {
		c.NT()
	}
	if c.One(4) {
		t2 := c.genPreTok()
		c.Log("then %s", t2.desc)
		c.ptCheck("again", t2, p, r)
	}
}

func caseC13(c *Ctx) {
	if c.Enum >= 0 {
		rs := blockRunes(c.Enum)
		c.Log("code points %U..%U", c.Enum*cpBlock, c.Enum*cpBlock+cpBlock-1)
		c.Ki(int(c.Enum))
		if c.Enum == 0 {
			c.engineErrors(func(re *regexp2.Regexp) pretokenizers.PreTokenizer { return whitespacepretokenizer.New(re) })
		}
		if len(rs) == 0 {
			return
		}
		w, b := wordTok(), bertTok()
		s := ""
		for i, q := range rs {
			s += pick(c.Src, []string{"a", " ", "-", "é", "", "!?"}) + string(q)
			if i%8 == 7 {
				c.ptText("block", w, s)
				c.ptText("block", b, s)
				s = ""
			}
		}
		for _, q := range rs {
			o := string(q)
			c.ptText("in context", w, "a"+o+"a "+o+o+"-"+o)
			c.ptText("in context", b, "a"+o+"a "+o+o+"-"+o)
		}
		c.ptText("block", w, string(rs))
		c.ptText("block", b, string(rs))
		c.NT()
		return
	}
	p, r, s := c.genPTS()
	c.K(s)
	for _, x := range r {
		if x.ns.text() == "" && x.toks == nil {
			c.Hit("empty text")
		}
		for _, q := range x.ns.text() {
			if unicode.Is(unicode.P, q) {
				c.Hit("punctuation alone")
			}
		}
	}
	var t preTok
	switch c.N(5) {
	case 0, 1:
		t = wordTok()
		c.Hit("word")
	case 2, 3:
		t = bertTok()
		c.Hit("bert")
	default:
		all := s
		e := pick(c.Src, re2List)
		if c.Bool() {
			e = c.reExpr(all)
		}
		var o regexp2.RegexOptions
		if c.One(4) {
			e = c.consuming(e)
			o |= regexp2.RightToLeft
		}
		if c.One(4) {
			o |= regexp2.IgnoreCase
		}
		if mustRe2(e, o) == nil {
			c.Skip()
		}
		t = wordUserTok(e, o)
		c.Hit("word with user expression")
	}
	c.Log("%s on %d pieces", t.desc, len(r))
	c.K(t.desc)
	n := len(r)
	r = c.ptCheck("text", t, p, r)
	if len(r) > n {
		c.NT()
	}
	if c.One(4) {
		t2 := c.genPreTok()
		c.Log("then %s", t2.desc)
		c.ptCheck("again", t2, p, r)
	}
}

// byteDecode turns byte-level text back into bytes.
func byteDecode(s string) (string, bool) {
	inv := map[rune]byte{}
	for b, q := range gpt2 {
		inv[q] = byte(b)
	}
	var out []byte
	for _, q := range s {
		b, ok := inv[q]
		if !ok {
			return "", false
		}
		out = append(out, b)
	}
	return string(out), true
}

func caseC14(c *Ctx) {
	if c.Enum >= 0 {
		rs := blockRunes(c.Enum)
		c.Log("code points %U..%U", c.Enum*cpBlock, c.Enum*cpBlock+cpBlock-1)
		c.Ki(int(c.Enum))
		if c.Enum == 0 {
			c.engineErrors(func(re *regexp2.Regexp) pretokenizers.PreTokenizer {
				return bytelevelpretokenizer.New(re, c.Bool(), c.Bool())
			})
		}
		if len(rs) == 0 {
			return
		}
		on := byteLevelTok(bytelevelpretokenizer.DefaultSplittingRegexp, gpt2Re, "default expression", true, true, false)
		off := byteLevelTok(bytelevelpretokenizer.DefaultSplittingRegexp, gpt2Re, "default expression", false, false, false)
		s := ""
		for _, q := range rs {
			s += pick(c.Src, []string{"a", " ", "-", "é", "", "1", "  "}) + string(q)
		}
		c.ptText("block", on, s)
		c.ptText("block", off, s)
		for _, q := range rs {
			o := string(q)
			c.ptText("in context", on, o+"a"+o+" "+o+"1"+o)
			if q < 0x3000 || q%4 == 0 {
				c.ptText("alone", on, o)
				c.ptText("in context", off, "  "+o+o+" x"+o+"'s")
			}
		}
		c.NT()
		return
	}
	p, r, s := c.genPTS()
	if c.One(6) && len(r) == 1 && r[0].toks == nil {
		s = pick(c.Src, []string{"it's", "we'll go", "I'VE", " 've'd'm", "don't  stop", "x' y", "a\n\n b", "'re", "12abc!?  ", "'ſ"})
		c.Log("instead text %q", s)
		p, r = PT.FromString(s), refPTS{{ns: refFrom(s)}}
		c.Hit("contraction")
	}
	c.K(s)
	t := c.genByteLevel()
	c.Log("%s on %d pieces", t.desc, len(r))
	c.K(t.desc)
	c.Hit(map[bool]string{true: "all defaults", false: "some configuration"}[t.desc == "byte level, all defaults"])
	if containsStr(t.desc, "default expression") {
		c.Hit("default expression")
	} else if containsStr(t.desc, "expression") {
		c.Hit("user expression")
	}
	prefix := containsStr(t.desc, "prefix true") || containsStr(t.desc, "all defaults")
	want := ""
	mb := false
	for _, x := range r {
		if x.toks != nil {
			continue
		}
		u := x.ns.text()
		if u == "" {
			c.Hit("empty text")
			continue
		}
		if len(u) != len([]rune(u)) {
			mb = true
		}
		q, _ := utf8.DecodeRuneInString(u)
		switch {
		case prefix && !isWS(q):
			want += " "
			c.Hit("prefix added")
		case prefix:
			c.Hit("prefix on but not needed")
		default:
			c.Hit("prefix off")
		}
		want += u
	}
	if containsStr(t.desc, `expression "`) && !containsStr(t.desc, `+`) {
		c.Hit("zero-width match")
	}
	n := len(r)
	r2 := c.ptCheck("text", t, p, r)
	if len(r2) > n || mb {
		c.NT()
	}
	// bytes come back
	got := ""
	for _, x := range p.Splits() {
		if x.Tokens == nil {
			got += x.NormalizedString.Get()
		}
	}
	if dec, ok := byteDecode(got); !ok || dec != want {
		c.Fail("%s: the pieces %q decode to %q (ok=%v), expected %q", t.desc, got, dec, ok, want)
	}
	if c.One(4) {
		t2 := c.genPreTok()
		c.Log("then %s", t2.desc)
		c.ptCheck("again", t2, p, r2)
	}
}

func containsStr(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

func caseC15(c *Ctx) {
	if c.Enum >= 0 {
		for _, m := range []rune{'▁', '_', 'é', '𝔾'} {
			s := enumString([]string{"a", "é", " ", string(m), "\t"}, c.Enum)
			c.ptText("text", metaTok(m, true, false), s)
			c.ptText("text", metaTok(m, false, false), s)
		}
		s := enumString([]string{"a", "é", " ", "▁", "\t"}, c.Enum)
		c.ptText("text", metaTok(0, true, true), s)
		c.Log("text %q with four markers", s)
		c.K(s)
		c.NT()
		return
	}
	p, r, s := c.genPTS()
	c.K(s)
	all := ""
	for _, x := range r {
		all += x.ns.text()
	}
	t := c.genMeta(all)
	c.Log("%s on %d pieces", t.desc, len(r))
	c.K(t.desc)
	m, prefix := t.marker, t.prefix
	if t.desc == "metaspace, all defaults" {
		c.Hit("all defaults")
	}
	if m == ' ' {
		c.Hit("space marker")
	}
	want := ""
	for _, x := range r {
		if x.toks != nil {
			continue
		}
		u := []rune(x.ns.text())
		if len(u) == 0 {
			c.Hit("empty text")
			continue
		}
		switch {
		case prefix && u[0] != m:
			want += string(m)
			c.Hit("prefix added")
		case prefix:
			c.Hit("prefix on but not needed")
		default:
			c.Hit("prefix off")
		}
		for i, q := range u {
			if q == ' ' {
				want += string(m)
				c.Hit("space replaced")
			} else {
				want += string(q)
			}
			if q == m {
				c.Hit("marker in the text")
			}
			if q == m || q == ' ' {
				if i > 0 {
					c.NT()
				}
				if i > 0 && (u[i-1] == m || u[i-1] == ' ') {
					c.Hit("adjacent markers")
				}
				if i == len(u)-1 {
					c.Hit("marker at the end")
				}
			}
		}
	}
	r2 := c.ptCheck("text", t, p, r)
	got := ""
	for _, x := range p.Splits() {
		if x.Tokens == nil {
			got += x.NormalizedString.Get()
		}
	}
	if got != want {
		c.Fail("%s: the pieces concatenate to %q, expected %q", t.desc, got, want)
	}
	if c.One(4) {
		t2 := c.genPreTok()
		c.Log("then %s", t2.desc)
		c.ptCheck("again", t2, p, r2)
	}
}
