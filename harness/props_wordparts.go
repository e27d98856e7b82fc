//go:build !reduced

package main

import (
	"container/heap"
	"fmt"

	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
)

// The parts a word is made with. bin/env.sh leaves this file out when the
// library does not build with it.

func init() {
	wordParts = []func(*Ctx){(*Ctx).caseQueue, (*Ctx).casePair}
	p := props["C28"]
	p.Need = append(p.Need, "queue", "pair")
}

func (c *Ctx) caseQueue() {
	c.Hit("queue")
	var h bpemodel.WordMergeHeap
	if c.One(2) {
		h = make(bpemodel.WordMergeHeap, 0, c.N(5))
	}
	var model []bpemodel.WordMerge
	less := func(a, b bpemodel.WordMerge) bool {
		return a.Rank < b.Rank || a.Rank == b.Rank && a.Pos < b.Pos
	}
	span := pick(c.Src, []int{1, 2, 5, 1000})
	big := c.One(8)
	val := func() int {
		if big {
			return pick(c.Src, []int{-1 << 63, -1, 0, 1, 1<<63 - 1, 1 << 32})
		}
		return c.N(2*span+1) - span
	}
	item := func() bpemodel.WordMerge {
		return bpemodel.WordMerge{MergeValue: bpemodel.MergeValue{Rank: val(), ID: c.N(3)}, Pos: c.N(span + 1)}
	}
	if c.One(3) {
		for n := c.N(20); n > 0; n-- {
			m := item()
			h = append(h, m)
			model = append(model, m)
		}
		c.K(fmt.Sprint(h))
		heap.Init(&h)
	}
	pops := 0
	check := func() {
		c.obs++
		if h.Len() != len(model) {
			c.Fail("the queue has %d entries, %d were left in it", h.Len(), len(model))
		}
	}
	pop := func() {
		got := heap.Pop(&h).(bpemodel.WordMerge)
		k := -1
		for i, m := range model {
			if less(m, got) {
				c.Fail("popped %+v while %+v was in the queue", got, m)
			}
			if m == got {
				k = i
			}
		}
		if k < 0 {
			c.Fail("popped %+v, which was not in the queue %v", got, model)
		}
		model = append(model[:k], model[k+1:]...)
		pops++
		check()
	}
	for n := c.N(40); n > 0; n-- {
		if len(model) > 0 && c.One(3) {
			pop()
			continue
		}
		m := item()
		c.Ki(m.Rank)
		c.Ki(m.Pos)
		heap.Push(&h, m)
		model = append(model, m)
		check()
	}
	for i := range model {
		for j := range model[:i] {
			if h.Less(i, j) != less(h[i], h[j]) || h.Less(j, i) != less(h[j], h[i]) {
				c.Fail("Less of %+v and %+v: %v, %v", h[i], h[j], h.Less(i, j), h.Less(j, i))
			}
		}
	}
	for len(model) > 0 {
		pop()
	}
	if pops > 5 {
		c.NT()
	}
}

func (c *Ctx) casePair() {
	c.Hit("pair")
	num := func() int { return pick(c.Src, []int{c.N(5), c.N(1000), c.N(1 << 30)}) }
	mk := func() bpemodel.WordSymbol {
		return bpemodel.WordSymbol{Symbol: bpemodel.Symbol{ID: num() - 2, Length: num() + 1}, Gap: num(), Prev: num() - 1, Next: num() - 1}
	}
	a, b := mk(), mk()
	a0, b0, id := a, b, num()-2
	c.K(fmt.Sprint(a, b, id))
	a.MergeWith(&b, id)
	want := bpemodel.WordSymbol{Symbol: bpemodel.Symbol{ID: id, Length: a0.Length + b0.Gap + b0.Length}, Gap: a0.Gap, Prev: a0.Prev, Next: b0.Next}
	if a != want || b != b0 {
		c.Fail("%+v merged with %+v as %d gives %+v and %+v", a0, b0, id, a, b)
	}
	if a.HasPrev() != (a.Prev != -1) || a.HasNext() != (a.Next != -1) {
		c.Fail("%+v: HasPrev %v, HasNext %v", a, a.HasPrev(), a.HasNext())
	}
	c.obs++
}
