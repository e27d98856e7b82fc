package main

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// Character classes of the adversarial alphabet. Each class exists because some
// stage of the library treats it specially or because of its encoded width.
var classes = map[string][]rune{
	"ascii":  []rune("abcdeABCxyzXYZ"),
	"ab":     []rune("ab"),
	"digit":  []rune("0123456789٣५Ⅷ½²"),
	"space":  []rune(" "),
	"spaces": []rune{' ', ' ', '\t', '\n', '\r', '\v', '\f', 0x85, 0xa0, 0x1680, 0x2000, 0x2003, 0x200a, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000},
	"delim":  []rune("-_,.|/"),
	"punct":  []rune("!\"#%&'()*,-./:;?@[\\]_{}¡§«»‐—“”…‿。、「」！？؟"),
	"symbol": []rune("$+<=>^`|~¢£¬±×÷€™→∀≠⭢♥"),
	"latin2": []rune("éèüößñÀÉÇŁøþÿ"),
	"case":   []rune("İıſKÅΣσςẞßDžDzǅȺⱥȾɐⱯΩωЖжԱաႠⴀꭰᏸ𐐀𐐨𝔾ﬁŉ"),
	"three":  []rune("ℝ⭢世界中€ก한글アあ▁℘ﬁ"),
	"cjk":    []rune{0x3400, 0x4dbf, 0x4e00, 0x9fff, 0xf900, 0xfaff, 0x20000, 0x2a6df, 0x2a700, 0x2b73f, 0x2b740, 0x2b81f, 0x2b920, 0x2ceaf, 0x2f800, 0x2fa1f, 0x33ff, 0x4dc0, 0x4dff, 0xa000, 0xf8ff, 0xfb00, 0x1ffff, 0x2a6e0, 0x2f7ff, 0x2fa20, 0x3042, 0xac00, '咖', '啡', '野'},
	"four":   []rune("𝔾𝕠𝕕💣😀𐍈🇮🇹👩‍💻𠀀"),
	"mark":   []rune{0x300, 0x301, 0x302, 0x308, 0x327, 0x345, 0x483, 0x5b0, 0x64b, 0x903, 0x93f, 0x20dd, 0x20d0, 0xfe0f, 0xfe20, 0x1d165, 0xe0100},
	"ctrl":   []rune{0, 1, 7, 8, 0x1b, 0x1f, 0x7f, 0x80, 0x9f, 0xad, 0x600, 0x200b, 0x200d, 0x200e, 0x202a, 0x2060, 0xfeff, 0xfffd, 0xfff9, 0xe000, 0xf8ff, 0x378, 0xffff, 0xe0001, 0x10ffff},
	"bpe":    []rune("ĠĊâŃ¢▁Ã©"),
	"marker": []rune("▁ ▁ _ab"),
	"edge":   []rune{0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xff, 0x100, 0xfffd},
}

var classNames = []string{"ascii", "ab", "digit", "space", "spaces", "delim", "punct", "symbol", "latin2", "case", "three", "cjk", "four", "mark", "ctrl", "bpe", "marker", "edge"}

var snippets = []string{"'s", "'S", "'ll", "'LL", "'re", "'Ve", "don't", "I'm", "we'd", " 's", "--", "  ", "   ", " \n", "\r\n", "a\u0301", "e\u0301\u0302", "[UNK]", "##", "</w>", "Hello", "the", "aaa", "abab", "ﬁ", "x y", "▁▁", " ▁", "\u2028 ", "\u00a0 ", "\u3000a", "ẞ", "👩‍💻", "🇮🇹", "中文", "ab12", "1,000.5", "a_b", "a-b", "_", ".*", "\\s", "(", "[a", "a|b", "$^", "{2}"}

func (c *Ctx) dictRune() (rune, bool) {
	if len(dictNew.Runes) > 0 && c.One(2) {
		return c.near(pick(c.Src, dictNew.Runes)), true
	}
	if len(dictAll.Runes) > 0 {
		return c.near(pick(c.Src, dictAll.Runes)), true
	}
	return 0, false
}

func (c *Ctx) near(r rune) rune {
	if c.One(4) {
		r += rune(c.R(-1, 1))
	}
	if !utf8.ValidRune(r) {
		return 'q'
	}
	return r
}

// Rune draws one character from anywhere.
func (c *Ctx) Rune() rune {
	switch c.N(12) {
	default:
		return pick(c.Src, classes[pick(c.Src, classNames)])
	case 10:
		if r, ok := c.dictRune(); ok {
			return r
		}
		return 'a'
	case 11:
		return c.anyRune()
	}
}

func (c *Ctx) anyRune() rune {
	for {
		var r rune
		switch c.N(4) {
		case 0:
			r = rune(c.N(0x800))
		case 1:
			r = rune(c.N(0x3100))
		case 2:
			r = rune(c.N(0x10000))
		default:
			r = rune(c.N(0x110000))
		}
		if utf8.ValidRune(r) {
			return r
		}
		if c.fuzz {
			return 'a'
		}
	}
}

// Len draws a length: mostly small, sometimes around boundaries and around the
// integer literals of the source tree.
func (c *Ctx) Len(max int) int {
	if max < 1 {
		max = 1
	}
	d := 96
	if len(dictNew.Ints) > 0 {
		d = 24
	}
	if c.One(d) {
		n := 0
		switch {
		case len(dictNew.Ints) > 0 && c.N(3) > 0:
			n = pick(c.Src, dictNew.Ints)
		case len(dictAll.Ints) > 0 && c.One(2):
			n = pick(c.Src, dictAll.Ints)
		default:
			n = pick(c.Src, []int{7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256})
		}
		n += c.R(-1, 2)
		if n > 600 {
			n = 600
			if c.One(20) {
				n = c.R(600, 5000)
			}
		}
		if n >= 0 {
			return n
		}
	}
	if c.One(150) {
		return c.R(max, max*8)
	}
	return c.N(max + 1)
}

// Small draws a small count, sometimes around integer literals of the tree.
func (c *Ctx) Small(max, hardMax int) int {
	d := 200
	if len(dictNew.Ints) > 0 {
		d = 30
	}
	if c.One(d) {
		xs := dictAll.Ints
		if len(dictNew.Ints) > 0 && c.N(4) > 0 {
			xs = dictNew.Ints
		}
		if len(xs) > 0 {
			n := pick(c.Src, xs) + c.R(-1, 1)
			if n >= 0 && n <= hardMax {
				return n
			}
		}
	}
	return c.N(max + 1)
}

// Text draws a valid UTF-8 text.
func (c *Ctx) Text() string {
	if c.Huge && !c.gave {
		return c.hugeText()
	}
	return c.TextN(c.Len(c.Scale))
}

// hugeText draws a text of more than 65,536 bytes, mostly of more than 65,536
// characters: repetitions of a few pieces with other characters in between.
func (c *Ctx) hugeText() string {
	c.gave = true
	c.Hit("text beyond 65536 bytes")
	if c.dense && c.Bool() {
		// (plain spaces, and what becomes plain spaces, would be replaced one by one)
		n := c.R(65540, 67000)
		u := pick(c.Src, []string{"a\t", "a,", "▁", "é\n", ".", "1a", "x\u00a0"})
		if c.Bool() {
			u = pick(c.Src, []string{"\t", "\x00", "\u0301", "\u00a0", "a", "世", "\u2003", "É", "\u200b"})
		}
		c.Log("%d times %q", n, u)
		return c.TextN(c.N(20)) + strings.Repeat(u, n) + c.TextN(c.N(pick(c.Src, []int{1, 20})))
	}
	var units []string
	for k := c.R(1, 6); k > 0; k-- {
		u := c.TextN(c.R(3, 200))
		if u == "" {
			u = "a"
		}
		units = append(units, u)
	}
	goal := c.R(65500, 72000) // characters
	switch c.N(4) {
	case 0: // bytes instead
		goal = c.R(66000, 140000) / 3
	case 1: // around the boundary
		goal = 65536 + c.R(-3, 3)
	}
	var b strings.Builder
	n := 0
	for n < goal || b.Len() < 65536 {
		u := pick(c.Src, units)
		if c.One(20) {
			u = c.TextN(c.R(1, 30))
		}
		if k := utf8.RuneCountInString(u); n+k > goal && b.Len() > 70000 {
			u = string([]rune(u)[:goal-n])
		}
		if u == "" {
			u = "x"
		}
		b.WriteString(u)
		n += utf8.RuneCountInString(u)
	}
	c.Log("huge text: %d characters, %d bytes", n, b.Len())
	return b.String()
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "...(cut)"
	}
	return s
}

func (c *Ctx) TextN(n int) string {
	// a profile: a few classes per text, so that runs and mixes both occur
	k := c.R(1, 4)
	var sets [5][]rune
	for i := 0; i < k; i++ {
		sets[i] = classes[pick(c.Src, classNames)]
	}
	// half of the texts get spaces or delimiters mixed in
	if c.Bool() {
		sets[k] = classes[pick(c.Src, []string{"space", "spaces", "delim", "punct", "marker"})]
		k++
	}
	var b strings.Builder
	cnt := 0
	for cnt < n {
		switch c.N(24) {
		default:
			b.WriteRune(pick(c.Src, sets[c.N(k)]))
			cnt++
		case 20: // run of one character
			r := pick(c.Src, sets[c.N(k)])
			m := c.R(2, 5)
			for i := 0; i < m && cnt < n; i++ {
				b.WriteRune(r)
				cnt++
			}
		case 21:
			s := pick(c.Src, snippets)
			if len(dictNew.Strings) > 0 && c.One(2) {
				s = pick(c.Src, dictNew.Strings)
			} else if len(dictAll.Strings) > 0 && c.One(4) {
				s = pick(c.Src, dictAll.Strings)
			}
			b.WriteString(s)
			cnt += utf8.RuneCountInString(s)
		case 22:
			b.WriteRune(c.Rune())
			cnt++
		case 23: // repeat what we have
			if s := b.String(); len(s) > 0 && cnt*2 <= n {
				b.WriteString(s)
				cnt *= 2
			} else {
				b.WriteRune(c.Rune())
				cnt++
			}
		}
	}
	return b.String()
}

// Word draws a text without white space.
func (c *Ctx) Word() string {
	s := c.Text()
	return strings.Map(func(r rune) rune {
		if unicode.Is(unicode.White_Space, r) {
			return 'w'
		}
		return r
	}, s)
}

var badBytes = []string{"\x80", "\xbf", "\xc0", "\xc0\x80", "\xc3", "\xe4", "\xe4\xb8", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0", "\xf0\x9f", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xfe", "\xff", "\xef\xbf", "\xc2"}

// Bytes draws an arbitrary byte string.
func (c *Ctx) Bytes() string {
	switch c.N(4) {
	case 0:
		n := c.Len(c.Scale)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(c.N(256))
		}
		return string(b)
	case 1: // damaged valid text
		b := []byte(c.Text())
		for k := c.R(1, 3); k > 0 && len(b) > 0; k-- {
			switch c.N(3) {
			case 0:
				b[c.N(len(b))] = byte(c.N(256))
			case 1:
				i := c.N(len(b))
				b = append(b[:i:i], b[i+1:]...)
			case 2:
				b = b[:c.N(len(b)+1)]
			}
		}
		return string(b)
	default:
		var sb strings.Builder
		for n := c.R(1, 4); n > 0; n-- {
			if c.Bool() {
				sb.WriteString(c.TextN(c.N(4)))
			}
			sb.WriteString(pick(c.Src, badBytes))
			if c.Bool() {
				sb.WriteString(c.TextN(c.N(4)))
			}
		}
		return sb.String()
	}
}

// enumStrings gives the i-th string over the alphabet in length-lexicographic
// order, and countStrings the number of strings up to a length.
func enumString(alpha []string, i int64) string {
	k := int64(len(alpha))
	n := 0
	cnt := int64(1)
	for i >= cnt {
		i -= cnt
		cnt *= k
		n++
	}
	out := make([]string, n)
	for j := n - 1; j >= 0; j-- {
		out[j] = alpha[i%k]
		i /= k
	}
	return strings.Join(out, "")
}

func countStrings(k, maxLen int) int64 {
	t, c := int64(0), int64(1)
	for l := 0; l <= maxLen; l++ {
		t += c
		c *= int64(k)
	}
	return t
}

// malform puts bytes that are no UTF-8 into some texts: added to a text, each
// of them becomes a replacement character.
func (c *Ctx) malform(s string) string {
	if !c.One(8) {
		return s
	}
	c.Hit("malformed text added")
	for n := c.R(1, 3); n > 0; n-- {
		i := c.N(len(s) + 1)
		s = s[:i] + pick(c.Src, []string{"\xff", "\x80", "\xc3", "\xe4\xb8", "\xed\xa0\x80", "\xf4\x90\x80\x80"}) + s[i:]
	}
	return s
}
