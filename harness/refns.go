package main

import (
	"fmt"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	N "github.com/nlpodyssey/gotokenizers/normalizedstring"
)

// Reference model of a normalized text: a list of characters, each with the
// byte range of the original text it stems from. It shares no code and no
// representation (per-byte alignments) with the library.

type cell struct {
	T    string
	S, E int
}

type refNS struct {
	Orig  string
	Cells []cell
	Shift int
}

func refFrom(s string) *refNS {
	r := &refNS{Orig: s}
	for i, ch := range s {
		w := utf8.RuneLen(ch)
		r.Cells = append(r.Cells, cell{string(ch), i, i + w})
	}
	return r
}

func (r *refNS) clone() *refNS {
	return &refNS{Orig: r.Orig, Cells: append([]cell(nil), r.Cells...), Shift: r.Shift}
}

func (r *refNS) text() string {
	var b strings.Builder
	for _, c := range r.Cells {
		b.WriteString(c.T)
	}
	return b.String()
}

func (r *refNS) nlen() int {
	n := 0
	for _, c := range r.Cells {
		n += len(c.T)
	}
	return n
}

// starts gives the byte position of every character, and the total length.
func (r *refNS) starts() []int {
	out := make([]int, 0, len(r.Cells)+1)
	n := 0
	for _, c := range r.Cells {
		out = append(out, n)
		n += len(c.T)
	}
	return append(out, n)
}

// cellOf gives the character holding a byte of the normalized text.
func (r *refNS) cellOf(b int) int {
	n := 0
	for i, c := range r.Cells {
		n += len(c.T)
		if b < n {
			return i
		}
	}
	return -1
}

// cellAt gives the index of the character starting at a byte (or the number of
// characters at the end), -1 when the byte is no boundary.
func (r *refNS) cellAt(b int) int {
	n := 0
	for i, c := range r.Cells {
		if n == b {
			return i
		}
		n += len(c.T)
	}
	if n == b {
		return len(r.Cells)
	}
	return -1
}

type change struct {
	R rune
	C int
}

// transform replaces the characters [i,j): init of them are dropped, then every
// change is a new character (C >= 1, with the source of the character before
// it), or takes over the next one (0), dropping -C further ones.
func (r *refNS) transform(i, j int, ch []change, init int) {
	p := i + init
	out := append([]cell(nil), r.Cells[:i]...)
	for _, c := range ch {
		n := cell{T: string(c.R)}
		if c.C >= 1 {
			if p > 0 {
				n.S, n.E = r.Cells[p-1].S, r.Cells[p-1].E
			}
		} else {
			n.S, n.E = r.Cells[p].S, r.Cells[p].E
			p += 1 - c.C
		}
		out = append(out, n)
	}
	r.Cells = append(out, r.Cells[j:]...)
}

func (r *refNS) filter(keep func(rune) bool) {
	var out []cell
	for _, c := range r.Cells {
		ch, _ := utf8.DecodeRuneInString(c.T)
		if keep(ch) {
			out = append(out, c)
		}
	}
	r.Cells = out
}

func (r *refNS) mapf(f func(rune) rune) {
	out := make([]cell, len(r.Cells))
	for i, c := range r.Cells {
		ch, _ := utf8.DecodeRuneInString(c.T)
		out[i] = cell{string(f(ch)), c.S, c.E}
	}
	r.Cells = out
}

func isSpaceCell(c cell) bool {
	ch, _ := utf8.DecodeRuneInString(c.T)
	return unicode.Is(unicode.White_Space, ch)
}

func (r *refNS) trim(left, right bool) {
	cs := append([]cell(nil), r.Cells...)
	if left {
		for len(cs) > 0 && isSpaceCell(cs[0]) {
			cs = cs[1:]
		}
	}
	if right {
		for len(cs) > 0 && isSpaceCell(cs[len(cs)-1]) {
			cs = cs[:len(cs)-1]
		}
	}
	r.Cells = cs
}

func (r *refNS) prepend(s string) {
	if len(r.Cells) == 0 {
		return
	}
	var out []cell
	for _, ch := range s {
		out = append(out, cell{string(ch), r.Cells[0].S, r.Cells[0].E})
	}
	r.Cells = append(out, r.Cells...)
}

func (r *refNS) append(s string) {
	if len(r.Cells) == 0 {
		return
	}
	l := r.Cells[len(r.Cells)-1]
	out := append([]cell(nil), r.Cells...)
	for _, ch := range s {
		out = append(out, cell{string(ch), l.S, l.E})
	}
	r.Cells = out
}

// replace puts content in place of every match (byte ranges on the text).
func (r *refNS) replace(matches [][2]int, content string) {
	st := r.starts()
	at := map[int]int{}
	for i, b := range st {
		at[b] = i
	}
	d := 0
	nc := utf8.RuneCountInString(content)
	for _, m := range matches {
		i, j := at[m[0]]+d, at[m[1]]+d
		src := cell{}
		if j > 0 {
			src = r.Cells[j-1]
		}
		out := append([]cell(nil), r.Cells[:i]...)
		for _, ch := range content {
			out = append(out, cell{string(ch), src.S, src.E})
		}
		r.Cells = append(out, r.Cells[j:]...)
		d += nc - (j - i)
	}
}

// n2o converts a non-empty in-bounds normalized byte range.
func (r *refNS) n2o(a, b int) (int, int) {
	return r.Cells[r.cellOf(a)].S, r.Cells[r.cellOf(b-1)].E
}

// fastN2O is n2o with the positions computed once.
func (r *refNS) fastN2O() func(a, b int) (int, int) {
	var at []int
	for i, c := range r.Cells {
		for range []byte(c.T) {
			at = append(at, i)
		}
	}
	return func(a, b int) (int, int) { return r.Cells[at[a]].S, r.Cells[at[b-1]].E }
}

// o2n converts a non-empty in-bounds original byte range into a block of
// characters [i,j); found is false when no character stems from within it.
func (r *refNS) o2n(a, b int) (i, j int, found bool) {
	for k, c := range r.Cells {
		if c.S >= a && c.E <= b && c.E > c.S {
			if !found {
				i = k
				found = true
			}
			j = k + 1
		}
	}
	return
}

// sliceCells cuts the characters [i,j), i < j.
func (r *refNS) sliceCells(i, j int) *refNS {
	s, e := r.Cells[i].S, r.Cells[j-1].E
	out := &refNS{Orig: r.Orig[s:e], Shift: r.Shift + s}
	for _, c := range r.Cells[i:j] {
		out.Cells = append(out.Cells, cell{c.T, c.S - s, c.E - s})
	}
	return out
}

// sliceOrig cuts the original range [a,b), a < b; the piece carries exactly it.
func (r *refNS) sliceOrig(a, b int) *refNS {
	out := &refNS{Orig: r.Orig[a:b], Shift: r.Shift + a}
	if i, j, ok := r.o2n(a, b); ok {
		for _, c := range r.Cells[i:j] {
			out.Cells = append(out.Cells, cell{c.T, c.S - a, c.E - a})
		}
	}
	return out
}

// inverse gives, per original byte, the block of normalized bytes that refer to
// it, or the empty range where it would sit.
func (r *refNS) inverse() [][2]int {
	n := len(r.Orig)
	lo, hi, pos := make([]int, n), make([]int, n), make([]int, n+1)
	for b := range lo {
		lo[b] = -1
	}
	st := r.starts()
	for k, c := range r.Cells {
		for b := c.S; b < c.E; b++ {
			if lo[b] < 0 {
				lo[b] = st[k]
			}
			hi[b] = st[k+1]
		}
		pos[c.E] = st[k+1]
	}
	out := make([][2]int, n)
	p := 0
	for b := range out {
		if pos[b] > p {
			p = pos[b]
		}
		if lo[b] >= 0 {
			out[b] = [2]int{lo[b], hi[b]}
		} else {
			out[b] = [2]int{p, p}
		}
	}
	return out
}

func (r *refNS) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "original %q shift %d:", r.Orig, r.Shift)
	for _, c := range r.Cells {
		fmt.Fprintf(&b, " %q<%d,%d>", c.T, c.S, c.E)
	}
	return b.String()
}

func dumpNS(ns *N.NormalizedString) string {
	var b strings.Builder
	fmt.Fprintf(&b, "original %q shift %d normalized %q bytes:", ns.GetOriginal(), ns.OriginalOffsets().Start, ns.Get())
	for k := 0; k < ns.Len() && k < 300; k++ {
		if o, ok := ns.CoerceRangeToOriginal(N.NewNormalizedRange(k, k+1)); ok {
			fmt.Fprintf(&b, " <%d,%d>", o.Start(), o.End())
		} else {
			fmt.Fprintf(&b, " <unsuccessful>")
		}
	}
	return b.String()
}

// cmpNS compares everything observable of a text with the model.
func (c *Ctx) cmpNS(what string, ns *N.NormalizedString, r *refNS) {
	c.obs++
	if ns == nil {
		c.Fail("%s: no text, expected %s", what, r)
	}
	t := r.text()
	if g := ns.Get(); g != t {
		c.Fail("%s: normalized text is %q, expected %q\n expected %s", what, g, t, r)
	}
	if g := ns.GetOriginal(); g != r.Orig {
		c.Fail("%s: original text is %q, expected %q", what, g, r.Orig)
	}
	if ns.Len() != len(t) || ns.OriginalLen() != len(r.Orig) || ns.IsEmpty() != (len(t) == 0) {
		c.Fail("%s: Len %d OriginalLen %d IsEmpty %v for normalized %q original %q", what, ns.Len(), ns.OriginalLen(), ns.IsEmpty(), t, r.Orig)
	}
	if o := ns.OriginalOffsets(); o.Start != r.Shift || o.End != r.Shift+len(r.Orig) {
		c.Fail("%s: original offsets %v, expected {%d %d}\n expected %s", what, o, r.Shift, r.Shift+len(r.Orig), r)
	}
	k := 0
	for _, ce := range r.Cells {
		for range []byte(ce.T) {
			o, ok := ns.CoerceRangeToOriginal(N.NewNormalizedRange(k, k+1))
			if !ok || o.Start() != ce.S || o.End() != ce.E {
				c.Fail("%s: byte %d of %q is attributed to <%d,%d> (ok=%v), expected <%d,%d>\n got      %s\n expected %s", what, k, t, o.Start(), o.End(), ok, ce.S, ce.E, dumpNS(ns), r)
			}
			k++
		}
	}
}

// alignPair reads an AlignmentRange (its fields are not exported).
func alignPair(a interface{}) (int, int) {
	v := reflect.ValueOf(a)
	si, ei := 0, 1
	for i := 0; i < v.NumField(); i++ {
		switch strings.ToLower(v.Type().Field(i).Name) {
		case "start":
			si = i
		case "end":
			ei = i
		}
	}
	return int(v.Field(si).Int()), int(v.Field(ei).Int())
}

// root builds a fresh text; sometimes one that claims to be a piece of a bigger
// text (a base shift).
func (c *Ctx) root(s string) (*N.NormalizedString, *refNS) {
	ns := N.FromString(s)
	r := refFrom(s)
	if len(s) > 0 && c.One(5) {
		k := c.R(1, 40)
		ns = N.New(s, s, ns.OriginalAlignments(), k)
		r.Shift = k
	}
	return ns, r
}
