package main

import (
	"errors"
	"fmt"
	"regexp"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/dlclark/regexp2"
	N "github.com/nlpodyssey/gotokenizers/normalizedstring"
	PT "github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/runedelimiterpretokenizer"
	SP "github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
)

// refPat pairs a library pattern with an independent statement of its matches.
type refPat struct {
	desc    string
	kind    string
	sp      SP.SplitPattern
	matches func(s string) [][2]int // successive non-overlapping matches
	flip    bool                    // captures inverted
	caps    func(s string) ([]refCap, error)
}

type refCap struct {
	S, E int
	M    bool
}

func tile(matches [][2]int, n int) []refCap {
	if n == 0 {
		return []refCap{{0, 0, false}}
	}
	var out []refCap
	prev := 0
	for _, m := range matches {
		if m[0] != prev {
			out = append(out, refCap{prev, m[0], false})
		}
		out = append(out, refCap{m[0], m[1], true})
		prev = m[1]
	}
	if prev != n {
		out = append(out, refCap{prev, n, false})
	}
	return out
}

func (p *refPat) captures(s string) ([]refCap, error) {
	if p.caps != nil {
		return p.caps(s)
	}
	cs := tile(p.matches(s), len(s))
	if p.flip {
		for i := range cs {
			cs[i].M = !cs[i].M
		}
	}
	return cs, nil
}

// marked gives the byte ranges flagged as matches.
func (p *refPat) marked(s string) [][2]int {
	cs, _ := p.captures(s)
	var out [][2]int
	for _, c := range cs {
		if c.M {
			out = append(out, [2]int{c.S, c.E})
		}
	}
	return out
}

// Character predicates used as patterns and filters.
type pred struct {
	desc string
	f    func(rune) bool
}

func (c *Ctx) pred(text string) pred {
	switch c.N(10) {
	case 0:
		return pred{"white space", func(r rune) bool { return unicode.Is(unicode.White_Space, r) }}
	case 1:
		return pred{"punct", unicode.IsPunct}
	case 2:
		return pred{"letter", unicode.IsLetter}
	case 3:
		return pred{"mark", func(r rune) bool { return unicode.Is(unicode.Mn, r) }}
	case 4:
		return pred{"non-ascii", func(r rune) bool { return r > 127 }}
	case 5:
		return pred{"all", func(rune) bool { return true }}
	case 6:
		return pred{"none", func(rune) bool { return false }}
	case 7:
		k := c.R(2, 4)
		return pred{fmt.Sprintf("code point %% %d == 0", k), func(r rune) bool { return int(r)%k == 0 }}
	default:
		set := map[rune]bool{}
		var ks []rune
		for n := c.R(1, 3); n > 0; n-- {
			r := c.runeOf(text)
			set[r] = true
			ks = append(ks, r)
		}
		return pred{fmt.Sprintf("one of %q", string(ks)), func(r rune) bool { return set[r] }}
	}
}

// runeOf draws a character, most often one of the text.
func (c *Ctx) runeOf(text string) rune {
	if len(text) > 0 && c.N(5) > 0 {
		rs := []rune(text)
		return rs[c.N(len(rs))]
	}
	return c.Rune()
}

// sub draws a short substring of the text on character boundaries.
func (c *Ctx) sub(text string, max int) string {
	rs := []rune(text)
	if len(rs) == 0 {
		return c.TextN(c.R(0, max))
	}
	i := c.N(len(rs))
	j := i + c.R(0, max)
	if j > len(rs) {
		j = len(rs)
	}
	return string(rs[i:j])
}

func funcMatches(f func(rune) bool) func(string) [][2]int {
	return func(s string) (out [][2]int) {
		for i := 0; i < len(s); {
			r, w := utf8.DecodeRuneInString(s[i:])
			if f(r) {
				out = append(out, [2]int{i, i + w})
			}
			i += w
		}
		return
	}
}

func literalMatches(lit string) func(string) [][2]int {
	return func(s string) (out [][2]int) {
		if lit == "" {
			return nil
		}
		for i := 0; i+len(lit) <= len(s); {
			if s[i:i+len(lit)] == lit {
				out = append(out, [2]int{i, i + len(lit)})
				i += len(lit)
			} else {
				i++
			}
		}
		return
	}
}

func regexpMatches(re *regexp.Regexp) func(string) [][2]int {
	return func(s string) (out [][2]int) {
		for _, m := range re.FindAllStringIndex(s, -1) {
			out = append(out, [2]int{m[0], m[1]})
		}
		return
	}
}

func regexp2Matches(re *regexp2.Regexp) func(string) [][2]int {
	return func(s string) (out [][2]int) {
		// byte position of every character
		var pos []int
		for i := 0; i < len(s); {
			pos = append(pos, i)
			_, w := utf8.DecodeRuneInString(s[i:])
			i += w
		}
		pos = append(pos, len(s))
		defer func() { // a failure of the engine itself is no verdict on the library
			if r := recover(); r != nil {
				panic(skipCase{})
			}
		}()
		m, err := re.FindStringMatch(s)
		for m != nil && err == nil {
			out = append(out, [2]int{pos[m.Index], pos[m.Index+m.Length]})
			m, err = re.FindNextMatch(m)
		}
		if re.RightToLeft() {
			for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
				out[i], out[j] = out[j], out[i]
			}
		}
		return
	}
}

func (c *Ctx) reAtom(text string) string {
	switch c.N(12) {
	case 0:
		return "."
	case 1:
		return `\s`
	case 2:
		return `\w`
	case 3:
		return `\d`
	case 4:
		return `[^` + regexp.QuoteMeta(string(c.safeRune(text))) + `]`
	case 5:
		return `\pL`
	case 6:
		return "[" + clsQuote(c.safeRune(text)) + clsQuote(c.safeRune(text)) + "]"
	default:
		return regexp.QuoteMeta(string(c.safeRune(text)))
	}
}

func clsQuote(r rune) string {
	if strings.ContainsRune(`\]^-[&~`, r) {
		return `\` + string(r)
	}
	return string(r)
}

func (c *Ctx) safeRune(text string) rune {
	r := c.runeOf(text)
	if r == utf8.RuneError || r == '#' || r == '&' || r == '~' {
		return 'a'
	}
	return r
}

func (c *Ctx) reExpr(text string) string {
	var alts []string
	for n := c.R(1, 2); n > 0; n-- {
		var b strings.Builder
		for k := c.R(1, 3); k > 0; k-- {
			b.WriteString(c.reAtom(text))
			switch c.N(8) {
			case 0:
				b.WriteString("*")
			case 1:
				b.WriteString("+")
			case 2:
				b.WriteString("?")
			case 3:
				b.WriteString("*?")
			case 4:
				b.WriteString("{2}")
			}
		}
		alts = append(alts, b.String())
	}
	return strings.Join(alts, "|")
}

var reList = []string{``, `a*`, `\b`, `^`, `$`, `\s+`, `\w+|[^\w\s]+`, `\s|`, `x*|b`, `(?i)a`, `[[:punct:]]`, `\pL+`, `\pN`, `[^\pL]`, `.`, `(?s).`, `(?s).+`, `a|ab`, `(?:ab)+`, `\B`, `(?m)^`, `(?m)$`}
var re2List = []string{``, `a*`, `\b`, `^`, `$`, `\s+(?!\S)|\s+`, `\w+|[^\w\s]+`, `(?<=a)b?`, `a(?!b)`, `(.)\1`, `(?=a)`, `(?<=\s)`, `'s|'t| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+`, `\p{L}+`, `[^\p{L}]`, `.`, `a|ab`, `(?:ab)+`, `\B`, `(?=[^a])`, `\s`}

var re2Consuming = []string{`\s+(?!\S)|\s+`, `\s+`, `\w+|[^\w\s]+`, `a(?!b)`, `(.)\1`, gpt2Expr, `\p{L}+`, `[^\p{L}]`, `.`, `a|ab`, `(?:ab)+`, `\s`, `[^\s]b|b`}

// consuming gives an expression that never matches an empty text: the engine's
// own right-to-left iteration does not terminate on empty matches.
func (c *Ctx) consuming(e string) string {
	if e == "" || strings.ContainsAny(e, `*?^$`) || strings.Contains(e, `\b`) || strings.Contains(e, `\B`) {
		return pick(c.Src, re2Consuming)
	}
	return e
}

var (
	reMu     sync.Mutex
	reCache  = map[string]*regexp.Regexp{}
	re2Cache = map[string]*regexp2.Regexp{}
)

func mustRe(e string) *regexp.Regexp {
	reMu.Lock()
	defer reMu.Unlock()
	if r, ok := reCache[e]; ok {
		return r
	}
	r, err := regexp.Compile(e)
	if err != nil {
		r = nil
	}
	if len(reCache) < 2000 {
		reCache[e] = r
	}
	return r
}

func mustRe2(e string, o regexp2.RegexOptions) *regexp2.Regexp {
	reMu.Lock()
	defer reMu.Unlock()
	k := fmt.Sprintf("%d:%s", o, e)
	if r, ok := re2Cache[k]; ok {
		return r
	}
	r, err := regexp2.Compile(e, o)
	if err != nil {
		r = nil
	}
	if len(re2Cache) < 2000 {
		re2Cache[k] = r
	}
	return r
}

var errPattern = errors.New("pattern failure injected by the monitor")

// userPattern is a user-defined SplitPattern.
type userPattern struct {
	f func(s string) ([]refCap, error)
}

// keepingPattern hands out the same list of captures every time it is asked.
type keepingPattern struct {
	text string
	list []SP.Capture
}

func (k *keepingPattern) FindMatches(s string) ([]SP.Capture, error) {
	if s != k.text {
		return (&userPattern{func(s string) ([]refCap, error) { return tile(nil, len(s)), nil }}).FindMatches(s)
	}
	return k.list, nil
}

// keeping gives a pattern that keeps its captures; spare capacity is left in
// the list.
func keeping(text string, cs []refCap) *keepingPattern {
	list, _ := (&userPattern{func(string) ([]refCap, error) { return append(append([]refCap(nil), cs...), cs...), nil }}).FindMatches(text)
	return &keepingPattern{text, list[:len(cs)]}
}

func (u *userPattern) FindMatches(s string) ([]SP.Capture, error) {
	cs, err := u.f(s)
	if err != nil && cs == nil {
		return nil, err
	}
	// a pattern may give captures and an error: the error counts
	out := make([]SP.Capture, len(cs))
	for i, c := range cs {
		out[i] = SP.Capture{Offsets: strutils.ByteOffsets{Start: c.S, End: c.E}, IsMatch: c.M}
	}
	return out, err
}

// genPat draws a built-in pattern.
func (c *Ctx) genPat(text string, depth int) *refPat {
	if len(text) > 20000 {
		return c.hugePat(text, depth)
	}
	switch c.N(9) {
	case 0, 1:
		p := c.pred(text)
		return &refPat{desc: "func(" + p.desc + ")", kind: "func", sp: SP.FromFunc(p.f), matches: funcMatches(p.f)}
	case 2:
		r := c.runeOf(text)
		return &refPat{desc: fmt.Sprintf("rune %q", r), kind: "rune", sp: SP.FromRune(r), matches: funcMatches(func(o rune) bool { return o == r })}
	case 3, 4:
		lit := c.sub(text, 3)
		if c.One(4) {
			lit = pick(c.Src, snippets)
		}
		kind := "string"
		if lit == "" {
			kind = "emptystring"
		}
		return &refPat{desc: fmt.Sprintf("literal %q", lit), kind: kind, sp: SP.FromString(lit), matches: literalMatches(lit)}
	case 5:
		e := pick(c.Src, reList)
		if c.Bool() {
			e = c.reExpr(text)
		}
		re := mustRe(e)
		if re == nil {
			e = `\s+`
			re = mustRe(e)
		}
		return &refPat{desc: fmt.Sprintf("regexp %q", e), kind: "regexp", sp: SP.FromRegexp(re), matches: regexpMatches(re)}
	case 6, 7:
		e := pick(c.Src, re2List)
		if c.Bool() {
			e = c.reExpr(text)
		}
		var o regexp2.RegexOptions
		kind := "regexp2"
		if c.One(3) {
			o |= regexp2.IgnoreCase
		}
		if c.One(3) {
			e = c.consuming(e)
			o |= regexp2.RightToLeft
			kind = "regexp2rtl"
		}
		if c.One(4) {
			o |= regexp2.Multiline
		}
		re := mustRe2(e, o)
		if re == nil {
			e = `\s+`
			re = mustRe2(e, o)
		}
		return &refPat{desc: fmt.Sprintf("regexp2 %q options %d", e, o), kind: kind, sp: SP.FromRegexp2(re), matches: regexp2Matches(re)}
	default:
		if depth >= 2 {
			r := c.runeOf(text)
			return &refPat{desc: fmt.Sprintf("rune %q", r), kind: "rune", sp: SP.FromRune(r), matches: funcMatches(func(o rune) bool { return o == r })}
		}
		in := c.genPat(text, depth+1)
		return &refPat{desc: "invert(" + in.desc + ")", kind: "invert", sp: SP.Invert(in.sp), matches: in.matches, flip: !in.flip, caps: nil}
	}
}

// hugePat draws a pattern whose matches can be found in linear time.
func (c *Ctx) hugePat(text string, depth int) *refPat {
	switch c.N(6) {
	case 0:
		p := c.pred(text)
		return &refPat{desc: "func(" + p.desc + ")", kind: "func", sp: SP.FromFunc(p.f), matches: funcMatches(p.f)}
	case 1:
		return c.rarePat(text)
	case 2:
		e := pick(c.Src, []string{`\s+`, `[a-z]+`, `\p{L}+|\p{N}+`, `[^\s]`, `a|é`})
		re := mustRe(e)
		return &refPat{desc: fmt.Sprintf("regexp %q", e), kind: "regexp", sp: SP.FromRegexp(re), matches: regexpMatches(re)}
	case 3:
		e := pick(c.Src, []string{`\s+`, `\w+`, `\p{L}+|\p{N}+`, `[^\s]`, `a|é`})
		var o regexp2.RegexOptions
		kind := "regexp2"
		if c.One(3) {
			o, kind = regexp2.RightToLeft, "regexp2rtl"
		}
		re := mustRe2(e, o)
		return &refPat{desc: fmt.Sprintf("regexp2 %q options %d", e, o), kind: kind, sp: SP.FromRegexp2(re), matches: regexp2Matches(re)}
	case 4:
		if depth < 2 {
			in := c.hugePat(text, depth+1)
			return &refPat{desc: "invert(" + in.desc + ")", kind: "invert", sp: SP.Invert(in.sp), matches: in.matches, flip: !in.flip, caps: nil}
		}
	}
	r := c.runeOf(text)
	return &refPat{desc: fmt.Sprintf("rune %q", r), kind: "rune", sp: SP.FromRune(r), matches: funcMatches(func(o rune) bool { return o == r })}
}

// rarePat is a literal with few matches.
func (c *Ctx) rarePat(text string) *refPat {
	lit := ""
	for k := 0; k < 20; k++ {
		lit = c.sub(text, 1+k*2)
		if lit != "" && strings.Count(text, lit) <= 30 {
			break
		}
		lit = "certainly absent"
	}
	return &refPat{desc: fmt.Sprintf("literal %q", lit), kind: "string", sp: SP.FromString(lit), matches: literalMatches(lit)}
}

// cuts gives the character boundaries of a text.
func cuts(s string) []int {
	out := []int{}
	for i := range s {
		out = append(out, i)
	}
	return append(out, len(s))
}

// genTiling draws a user-defined pattern: an arbitrary tiling of the text with
// zero-width, adjacent and edge captures.
func (c *Ctx) genTiling(text string) *refPat {
	bs := cuts(text)
	var cs []refCap
	p := 0
	for k := 0; ; k++ {
		if p == len(bs)-1 && (k > 0 && !c.One(3)) {
			break
		}
		if k > len(bs)+6 {
			if p < len(bs)-1 {
				cs = append(cs, refCap{bs[p], bs[len(bs)-1], c.Bool()})
			}
			break
		}
		q := p
		if !c.One(6) {
			q = p + c.R(1, 3)
		}
		if q > len(bs)-1 {
			q = len(bs) - 1
		}
		cs = append(cs, refCap{bs[p], bs[q], c.Bool()})
		p = q
	}
	if len(cs) == 0 {
		cs = []refCap{{0, 0, false}}
	}
	f := func(s string) ([]refCap, error) {
		if s != text {
			return tile(nil, len(s)), nil
		}
		return append([]refCap(nil), cs...), nil
	}
	rp := &refPat{desc: fmt.Sprintf("user tiling %v", cs), kind: "user", sp: &userPattern{f}, caps: f}
	if c.Bool() {
		rp.desc += " (kept)"
		rp.sp = keeping(text, cs)
		if c.Bool() {
			// inverted twice: the list of the pattern inside has to stay as it is
			rp.sp = SP.Invert(SP.Invert(rp.sp))
		}
	}
	return rp
}

// exhausting are expressions and texts that take their engine ages: the steps
// it makes double with every letter of the long run. (An expression that the
// engine simplifies, as it does (?:a|a)+, would take it little more than a
// millisecond, and less the next time.)
var exhausting = [][2]string{{`(a+)+$`, strings.Repeat("a", 40) + "!"}, {`é|(a+)+$`, "xéé" + strings.Repeat("a", 40) + "!"}, {`\s|(a+b?)+$`, " a \tb" + strings.Repeat("a", 50) + "-"}}

// limited compiles the expression with a time limit of a millisecond; nil if
// the engine can do the text in many times that.
func (c *Ctx) limited(x [2]string) *regexp2.Regexp {
	re, err := regexp2.Compile(x[0], 0)
	if err != nil {
		c.Skip()
	}
	re.MatchTimeout = 60 * time.Millisecond
	m, err := re.FindStringMatch(x[1])
	for m != nil && err == nil {
		m, err = re.FindNextMatch(m)
	}
	if err == nil {
		return nil // the engine found its way
	}
	re.MatchTimeout = time.Millisecond
	return re
}

// engineErrors: a pre-tokenizer whose expression exceeds its engine's time
// limit, on the whole text or on one piece of it, must report that, and has to
// work again on the next text.
func (c *Ctx) engineErrors(make func(*regexp2.Regexp) pretokenizers.PreTokenizer) {
	for _, x := range exhausting {
		re := c.limited(x)
		if re == nil {
			continue
		}
		tok := make(re)
		for _, at := range []int{-1, 0, 1, 2} {
			pts := PT.FromString(x[1])
			if at >= 0 {
				pts = PT.FromString(strings.Repeat("b|", at) + x[1] + strings.Repeat("|b", 2-at))
				if err := runedelimiterpretokenizer.New('|').PreTokenize(pts); err != nil || len(pts.Splits()) != 3 {
					c.Fail("splitting at a character gives %d pieces and error %v", len(pts.Splits()), err)
				}
			}
			c.Log("regexp2 %q, limited to a millisecond, on %q (piece %d)", x[0], x[1], at)
			if err := tok.PreTokenize(pts); err == nil {
				c.Fail("the engine gives up on regexp2 %q, the pre-tokenizer reports no error (text %q, piece %d)", x[0], x[1], at)
			}
			if err := tok.PreTokenize(PT.FromString("é b")); err != nil {
				c.Fail("after the engine gave up on another text, the pre-tokenizer reports %v", err)
			}
			c.obs += 2
			c.Hit("engine error")
		}
	}
}

// timeouts runs expressions that exceed the engine's time limit, on the first
// match or after some: the engine's error must come out.
func (c *Ctx) timeouts() {
	for _, x := range exhausting {
		re := c.limited(x)
		if re == nil {
			continue
		}
		c.Log("regexp2 %q, limited to a millisecond, on %q", x[0], x[1])
		for _, p := range []SP.SplitPattern{SP.FromRegexp2(re), SP.Invert(SP.FromRegexp2(re))} {
			got, err := p.FindMatches(x[1])
			if err == nil || len(got) != 0 {
				c.Fail("the engine gives up on regexp2 %q, the pattern gives %v and error %v", x[0], got, err)
			}
		}
		ns := N.FromString(x[1])
		if got, err := ns.Split(SP.FromRegexp2(re), N.SplitDelimiterIsolated); err == nil || len(got) != 0 {
			c.Fail("the engine gives up on regexp2 %q, Split gives %d pieces and error %v", x[0], len(got), err)
		}
		if err := ns.Replace(SP.FromRegexp2(re), "x"); err == nil || ns.Get() != x[1] {
			c.Fail("the engine gives up on regexp2 %q, Replace gives %q and error %v", x[0], ns.Get(), err)
		}
		c.Hit("engine error")
	}
}

func (c *Ctx) anyPat(text string) *refPat {
	if c.One(5) {
		return c.genTiling(text)
	}
	return c.genPat(text, 0)
}

var behaviours = []N.SplitDelimiterBehavior{N.SplitDelimiterRemoved, N.SplitDelimiterIsolated, N.SplitDelimiterMergedWithPrevious, N.SplitDelimiterMergedWithNext, N.SplitDelimiterContiguous}
var behaviourNames = []string{"removed", "isolated", "merged with previous", "merged with next", "contiguous"}

// groups gives the byte ranges of the pieces a behaviour prescribes.
func groups(cs []refCap, b int) (out [][2]int) {
	switch b {
	case 0:
		for _, c := range cs {
			if !c.M {
				out = append(out, [2]int{c.S, c.E})
			}
		}
	case 1:
		for _, c := range cs {
			out = append(out, [2]int{c.S, c.E})
		}
	case 2:
		for i, c := range cs {
			if c.M && i > 0 && !cs[i-1].M {
				out[len(out)-1][1] = c.E
			} else {
				out = append(out, [2]int{c.S, c.E})
			}
		}
	case 3:
		open := false // the piece being built starts with a delimiter waiting for its next
		for i, c := range cs {
			if open {
				out[len(out)-1][1] = c.E
				open = false
				continue
			}
			out = append(out, [2]int{c.S, c.E})
			if c.M && i+1 < len(cs) && !cs[i+1].M {
				open = true
			}
		}
	case 4:
		for i, c := range cs {
			if i > 0 && c.M == cs[i-1].M {
				out[len(out)-1][1] = c.E
			} else {
				out = append(out, [2]int{c.S, c.E})
			}
		}
	}
	return
}

// split gives the model's pieces; nil entries are zero-width pieces.
func (r *refNS) split(cs []refCap, b int) (out []*refNS) {
	at := map[int]int{}
	for i, s := range r.starts() {
		at[s] = i
	}
	for _, g := range groups(cs, b) {
		if g[0] == g[1] {
			out = append(out, nil)
			continue
		}
		out = append(out, r.sliceCells(at[g[0]], at[g[1]]))
	}
	return
}

// cmpEmptyPiece checks a zero-width piece: no text, and an empty place inside
// the range of the text it was cut from.
func (c *Ctx) cmpEmptyPiece(what string, ns *N.NormalizedString, parent *refNS) {
	c.obs++
	if ns == nil || ns.Get() != "" || ns.GetOriginal() != "" || !ns.IsEmpty() || ns.Len() != 0 || ns.OriginalLen() != 0 {
		c.Fail("%s: a zero-width piece is not empty: %+v", what, ns)
	}
	o := ns.OriginalOffsets()
	if o.Start != o.End || o.Start < parent.Shift || o.End > parent.Shift+len(parent.Orig) {
		c.Fail("%s: a zero-width piece reports original offsets %v outside {%d %d}", what, o, parent.Shift, parent.Shift+len(parent.Orig))
	}
}
