package main

import (
	"fmt"
	"os"
	"regexp"
	"runtime"
	"strings"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	N "github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/bertnormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/lowercasenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/sequencenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/stripnormalizer"
	PT "github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/metaspacepretokenizer"
	SP "github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
)

func init() {
	register(&Prop{
		ID:     "C27",
		Serial: true,
		Rule:   "A case repeats an operation of the library thousands of times, each time with an input, component or file it has not seen before (or on one text that is edited back and forth, or one tokenized text that is encoded again and again), drops all results, and compares the memory in use, after full garbage collections, batch by batch; the number of goroutines likewise. Non-trivial: at least 300 KB passed through in a batch.",
		Need:   []string{"words and texts through a component", "long texts through a component", "components built and dropped", "patterns built and dropped", "models built and dropped", "one text edited back and forth", "one text cut and split again and again", "one tokenized text encoded again and again", "one vocabulary and merge table filled again and again", "a word cache offered more words than it holds", "a model with a word cache offered more words than it holds", "files loaded and dropped", "failing calls"},
		Quick:  900, Thorough: 18000,
		Case:  caseC27,
		Notes: []string{"memory is the live heap of the Go runtime after three collections; less than 32 KB per batch is not judged"},
	})
}

// memory is the live heap after everything unreachable has been collected,
// pools included.
func memory() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

const memLimit = 32 << 10

// retains repeats an operation in batches, each as long as all before it. What is
// kept from one batch to the next has to stop growing: a store of bounded size is
// full at some point. (A list of everything that grows by doubling has to grow
// when the number of repetitions doubles, on average by eight times as much
// three batches later.)
func (c *Ctx) retains(what string, batch, bytes int, op func(i int)) {
	c.Hit(what)
	c.K(what)
	c.Ki(batch)
	i := 0
	run := func(n int) {
		for ; n > 0; n-- {
			op(i)
			i++
		}
	}
	routines := runtime.NumGoroutine()
	run(batch)
	before := memory()
	growth := []int64{}
	for len(growth) < 5 {
		run(i)
		after := memory()
		c.obs++
		growth = append(growth, after-before)
		if after-before <= memLimit {
			break
		}
		before = after
	}
	c.Log("%s: %d repetitions, memory grew by %v bytes in doubling batches", what, i, growth)
	if bytes >= 300<<10 {
		c.NT()
	}
	// The table behind a store of bounded size may settle slowly.
	if last := len(growth) - 1; growth[last] > memLimit && growth[last] > 3*growth[1] {
		c.Fail("%s: %d repetitions with results dropped, and the memory in use, after garbage collection, grew by %v bytes whenever their number, first %d, doubled", what, i, growth, batch)
	}
	if n := runtime.NumGoroutine(); n > routines+50 {
		c.Fail("%s: %d repetitions, and %d goroutines are left", what, i, n-routines)
	}
}

// fresh draws texts that have not been seen before.
func (c *Ctx) fresh(pool []string, alpha string) func(i int) string {
	pool = append([]string{""}, pool...)
	for k := range pool {
		if len(pool[k]) > 40 {
			pool[k] = cutValid(pool[k], 40)
		}
	}
	form := c.N(3)
	return func(i int) string {
		w := memWord(alpha, i)
		p := pool[i%len(pool)]
		switch form {
		case 0:
			return w
		case 1:
			return p + w
		default:
			return w + p
		}
	}
}

// memWord gives about a million different words, all of the same number of
// characters, and in no order: what a store of bounded size holds must not grow
// because later words are longer.
func memWord(alpha string, i int) string {
	rs := []rune(alpha)
	x := (i * 0x9e375) & 0xfffff
	var out []rune
	for left := 1 << 20; left > 1; left = (left + len(rs) - 1) / len(rs) {
		out = append(out, rs[x%len(rs)])
		x /= len(rs)
	}
	return string(out)
}

func cutValid(s string, n int) string {
	k := 0
	for i := range s {
		if i > n {
			break
		}
		k = i
	}
	return s[:k]
}

var memAlphas = []string{"abc", "ab é世", "aA.b-", "ab\u0301c", "éèê", "世界大", "a b", "0123456789", "x_y", "ab\n"}

func caseC27(c *Ctx) {
	switch c.N(20) {
	case 0, 1, 2, 3, 4, 5:
		c.memComponent(false)
	case 6, 7, 8:
		c.memComponent(true)
	case 9:
		c.memBuild()
	case 10:
		c.memPatterns()
	case 11:
		c.memModels()
	case 12, 13:
		c.memEdits()
	case 14:
		c.memReads()
	case 15:
		c.memEncodings()
	case 16:
		c.memTables()
	case 17:
		c.memCaches()
	case 18:
		c.memFiles()
	default:
		c.memErrors()
	}
}

// memComponent passes different texts through one component.
func (c *Ctx) memComponent(long bool) {
	cp := c.compOf(c.N(13)) // the families that take texts
	c.Log("%s", cp.desc)
	c.K(cp.desc)
	run := cp.mk()
	alpha := pick(c.Src, memAlphas)
	in := c.fresh(cp.pool, alpha)
	if !long {
		c.retains("words and texts through a component", 4000, 300<<10, func(i int) { guarded(run, in(i)) })
		return
	}
	filler := strings.Repeat(pick(c.Src, []string{"a", "ab ", "word. ", "é世 ", "aA b\n"}), 300)
	filler = cutValid(filler, c.R(300, 900))
	c.retains("long texts through a component", 500, 500*len(filler), func(i int) { guarded(run, in(i)+filler) })
}

// memBuild builds components of a family and drops them.
func (c *Ctx) memBuild() {
	cp := c.compOf(c.N(13))
	c.Log("%s", cp.desc)
	c.K(cp.desc)
	c.retains("components built and dropped", 2000, 300<<10, func(i int) {
		guarded(cp.mk(), pick(c.Src, cp.pool))
	})
}

// memPatterns builds patterns, each different from the others.
func (c *Ctx) memPatterns() {
	text := c.Text()
	if len(text) > 60 {
		text = cutValid(text, 60)
	}
	alpha := pick(c.Src, []string{"abc", "éa", "世界b"})
	kind := c.N(7)
	batch := 3000
	if kind == 4 || kind == 5 {
		batch = 600 // costly to compile
	}
	c.Ki(kind)
	var build func(w string) SP.SplitPattern
	switch kind {
	case 0:
		build = func(w string) SP.SplitPattern { return SP.FromString(w) }
	case 1:
		r := 'a'
		build = func(w string) SP.SplitPattern { r = (r + 1) % 0xd000; return SP.FromRune(r) }
	case 2:
		build = func(w string) SP.SplitPattern {
			rs := []rune(w)
			return SP.FromFunc(func(r rune) bool { return r == rs[0] })
		}
	case 3:
		build = func(w string) SP.SplitPattern { return SP.Invert(SP.FromString(w)) }
	case 4:
		build = func(w string) SP.SplitPattern { return SP.FromRegexp(regexp.MustCompile(w + "+")) }
	case 5:
		build = func(w string) SP.SplitPattern {
			return SP.FromRegexp2(regexp2.MustCompile(w+"+", regexp2.None))
		}
	default:
		build = func(w string) SP.SplitPattern { return SP.Invert(SP.Invert(SP.FromString(w))) }
	}
	c.retains("patterns built and dropped", batch, batch*120, func(i int) {
		sp := build(memWord(alpha, i))
		_, _ = sp.FindMatches(text)
		if i%3 == 0 {
			_, _ = N.FromString(text).Split(sp, behaviours[i%5])
		}
	})
}

// memModels builds vocabularies, merge tables, models and stages with
// different contents.
func (c *Ctx) memModels() {
	kind := c.N(6)
	c.Ki(kind)
	alpha := pick(c.Src, memAlphas[:6])
	c.retains("models built and dropped", 2000, 300<<10, func(i int) {
		w := memWord(alpha, i)
		rs := []rune(w)
		first, last := string(rs[0]), string(rs[len(rs)-1])
		v := vocabulary.NewVocabulary()
		for _, t := range []string{"[UNK]", first, last, w, "##" + w, first + last} {
			v.AddTerm(t)
		}
		switch kind {
		case 0:
			m := wordpiecemodel.New(v, "[UNK]", "##", 100)
			_, _ = m.Tokenize(w + first)
		case 1:
			mm := bpemodel.NewMergeMap()
			a, _ := v.GetID(first)
			b, _ := v.GetID(last)
			ab, _ := v.GetID(first + last)
			mm.Set(a, b, bpemodel.MergeValue{Rank: 0, ID: ab})
			m := bpemodel.NewDefault()
			if i%2 == 0 {
				m = bpemodel.New(v, mm, i%7, 0, "[UNK]", "", "", i%3 == 0)
			}
			_, _ = m.Tokenize(first + last)
			_, _ = m.Tokenize(w)
		case 2:
			ms := metaspacepretokenizer.New(rune('a'+i%20000), i%2 == 0)
			_ = ms.PreTokenize(PT.FromString(w + " " + first))
		case 3:
			bl := bytelevelpretokenizer.New(bytelevelpretokenizer.DefaultSplittingRegexp, i%2 == 0, i%3 == 0)
			_ = bl.PreTokenize(PT.FromString(w + " " + first))
		case 4:
			sn := sequencenormalizer.NewSequenceNormalizer([]normalizers.Normalizer{
				stripnormalizer.NewStripNormalizer(i%2 == 0, i%3 == 0), lowercasenormalizer.NewLowerCaseNormalizer(), bertnormalizer.NewBertNormalizer(true, true, i%2 == 0, true)})
			_ = sn.Normalize(N.FromString(w))
		default:
			_ = encodings.EncodingFromEncodableTokens([]encodings.EncodableToken{{ID: i, Token: w, WordIndex: i, TypeID: i % 3}})
			_ = encodings.NewEncodingWithCapacity(i % 9)
			wd := bpemodel.NewWordWithCapacity(4)
			wd.Add(i, len(w))
			_ = wd.Len()
		}
	})
}

// memEdits edits one text that is never let grow for long.
func (c *Ctx) memEdits() {
	ns := N.FromString(c.Text())
	if ns.Len() > 300 {
		ns = N.FromString(cutValid(ns.Get(), 300))
	}
	c.Log("text %q", ns.Get())
	kind := c.N(9)
	c.Ki(kind)
	c.K(ns.Get())
	alpha := pick(c.Src, memAlphas)
	limit := ns.Len() + 200
	p := c.genPat(ns.Get(), 0)
	c.retains("one text edited back and forth", 4000, 300<<10, func(i int) {
		w := memWord(alpha, i)
		switch kind {
		case 0:
			ns.Append(w)
			_ = ns.Replace(SP.FromString(w), "")
		case 1:
			ns.Prepend(w)
			_ = ns.Replace(SP.FromString(w), "")
		case 2:
			ns.ToUpper()
			ns.ToLower()
		case 3:
			ns.Append("  ")
			ns.Prepend(" ")
			ns.Trim()
		case 4:
			ns.Append("|" + w)
			k := 0
			ns.Filter(func(r rune) bool { k++; return k <= 60 })
		case 5:
			x, y := 'a', rune('b'+i%200)
			ns.Map(func(r rune) rune {
				if r == x {
					return y
				}
				if r >= 'b' && r < 'b'+200 {
					return x
				}
				return r
			})
		case 6:
			if rs := []rune(ns.Get()); len(rs) > 0 {
				ch := make([]N.RuneChange, 0, len(rs)+1)
				for k, r := range rs {
					ch = append(ch, N.RuneChange{Rune: r, Change: 0})
					if k == 0 {
						ch = append(ch, N.RuneChange{Rune: 'z', Change: 1})
					}
				}
				ns.Transform(ch, 0)
			}
		case 7:
			if q, ok := ns.Slice(N.NewNormalizedRange(0, ns.Len())); ok && q != nil {
				ns = q // pieces of pieces
			}
			ns.Append("x")
			if q, ok := ns.Slice(N.NewNormalizedRange(0, ns.Len()-1)); ok && q != nil {
				ns = q
			}
		default:
			func() {
				defer func() { _ = recover() }()
				_ = ns.Replace(p.sp, w)
			}()
		}
		if ns.Len() > limit {
			k := 0
			ns.Filter(func(r rune) bool { k++; return k <= 20 })
		}
	})
}

// memReads reads from one text.
func (c *Ctx) memReads() {
	cp := c.readComp()
	c.Log("%s", cp.desc)
	c.K(cp.desc)
	run := cp.mk()
	c.retains("one text cut and split again and again", 6000, 300<<10, func(i int) {
		guarded(run, cp.pool[i%len(cp.pool)])
	})
}

// memEncodings reads from one tokenized text.
func (c *Ctx) memEncodings() {
	cp := c.encComp()
	run := cp.mk()
	c.Ki(int(c.Idx))
	c.retains("one tokenized text encoded again and again", 4000, 300<<10, func(i int) {
		in := cp.pool[i%len(cp.pool)]
		if i%2 == 0 {
			in = fmt.Sprintf("encoding %d %d", i, i%3)
		}
		guarded(run, in)
	})
}

// memTables sets again what is in a vocabulary and a merge table already, and
// looks up what is not.
func (c *Ctx) memTables() {
	v := vocabulary.NewVocabulary()
	mm := bpemodel.NewMergeMap()
	terms := []string{"", "a", "b", "世", "ab", strings.Repeat("long ", 30)}
	alpha := pick(c.Src, memAlphas)
	c.retains("one vocabulary and merge table filled again and again", 6000, 300<<10, func(i int) {
		v.AddTerm(terms[i%len(terms)])
		mm.Set(i%3, i%5, bpemodel.MergeValue{Rank: i, ID: i})
		w := memWord(alpha, i)
		if len(w) > 2 {
			_, _ = v.GetID(w + "?")
		}
		_, _ = v.GetString(100 + i)
		_, _ = v.GetString(-i)
		_, _ = mm.Get(i+10, i)
	})
}

// memCaches offers more words than the capacity allows.
func (c *Ctx) memCaches() {
	capacity := pick(c.Src, []int{0, 1, 2, 5, 64})
	c.Ki(capacity)
	alpha := pick(c.Src, memAlphas)
	if c.Bool() {
		cache := bpemodel.NewCache(capacity)
		both := c.Bool()
		c.retains("a word cache offered more words than it holds", 4000, 300<<10, func(i int) {
			w := bpemodel.NewWordWithCapacity(2)
			w.Add(i, 3)
			k := memWord(alpha, i)
			if both && i%2 == 0 {
				cache.SetValues([]string{k, k + "x"}, []*bpemodel.Word{w, w})
				_ = cache.GetValues([]string{k, "?" + k})
				return
			}
			cache.Set(k, w)
			_ = cache.Get(k + "?")
		})
		return
	}
	v := vocabulary.NewVocabulary()
	for _, r := range []rune(alpha) {
		v.AddTerm(string(r))
	}
	v.AddTerm("?")
	m := bpemodel.New(v, bpemodel.NewMergeMap(), capacity, 0, "?", "", "", c.Bool())
	in := c.fresh([]string{"aa", alpha, "x"}, alpha)
	c.retains("a model with a word cache offered more words than it holds", 6000, 300<<10, func(i int) { _, _ = m.Tokenize(in(i)) })
}

// memFiles loads files again and again.
func (c *Ctx) memFiles() {
	var js, mg strings.Builder
	js.WriteString("{\"a\": 0, \"b\": 1, \"ab\": 2")
	for i := 0; i < 10; i++ {
		fmt.Fprintf(&js, ", \"term %d\": %d", i, 3+i)
	}
	if !c.One(3) {
		js.WriteString("}")
	}
	mg.WriteString("#version: 0.2\na b\n")
	if c.One(3) {
		mg.WriteString("a zz\n")
	}
	kind := c.N(3)
	fv, fm := scratchFile([]byte(js.String())), scratchFile([]byte(mg.String()))
	defer os.Remove(fv)
	defer os.Remove(fm)
	c.Ki(kind)
	c.K(js.String() + mg.String())
	v := vocabulary.NewVocabulary()
	for _, t := range []string{"a", "b", "ab"} {
		v.AddTerm(t)
	}
	c.retains("files loaded and dropped", 1000, 300<<10, func(i int) {
		switch kind {
		case 0:
			_, _ = vocabulary.FromJSONFile(fv)
		case 1:
			_, _ = bpemodel.MergeMapFromFile(fm, v, i%3)
		default:
			_, _ = vocabulary.FromJSONFile(fmt.Sprintf("%s.absent%d", fv, i))
			_, _ = bpemodel.MergeMapFromFile(fmt.Sprintf("%s.absent%d", fv, i), v, 0)
		}
	})
}

type failingNormalizer struct{}

func (failingNormalizer) Normalize(*N.NormalizedString) error { return errArgs }

// memErrors makes calls fail, each with another text.
func (c *Ctx) memErrors() {
	kind := c.N(4)
	c.Ki(kind)
	alpha := pick(c.Src, memAlphas)
	in := c.fresh([]string{"aa", "b b"}, alpha)
	seq := sequencenormalizer.NewSequenceNormalizer([]normalizers.Normalizer{lowercasenormalizer.NewLowerCaseNormalizer(), failingNormalizer{}})
	v := vocabulary.NewVocabulary()
	wp := wordpiecemodel.New(v, "[UNK]", "##", 5)
	bpe := bpemodel.New(v, bpemodel.NewMergeMap(), 3, 0, "?", "", "", false)
	space := SP.FromFunc(func(r rune) bool { return r == ' ' || r == 'b' })
	one := PT.FromString("some text")
	_ = one.Split(func(_ int, ns *N.NormalizedString) ([]PT.Split, error) {
		parts, err := ns.Split(space, N.SplitDelimiterIsolated)
		return PT.SplitsFromNormalizedStrings(parts), err
	})
	c.retains("failing calls", 5000, 300<<10, func(i int) {
		s := in(i)
		switch kind {
		case 0:
			_ = seq.Normalize(N.FromString(s))
		case 1:
			_, _ = wp.Tokenize(s)
			_, _ = bpe.Tokenize(s)
		case 2:
			p := PT.FromString(s)
			if i%2 == 0 {
				_ = p.Split(func(_ int, ns *N.NormalizedString) ([]PT.Split, error) {
					parts, err := ns.Split(space, N.SplitDelimiterIsolated)
					return PT.SplitsFromNormalizedStrings(parts), err
				})
			}
			_ = p.Tokenize(func(*N.NormalizedString) ([]models.Token, error) { return nil, errArgs })
			_, _ = p.IntoEncoding(-1, 0)
			_ = p.Split(func(int, *N.NormalizedString) ([]PT.Split, error) { return nil, errArgs })
			_ = p.Normalize(func(*N.NormalizedString) error { return errArgs })
		default:
			_ = one.Tokenize(func(*N.NormalizedString) ([]models.Token, error) { return nil, fmt.Errorf("failing %s", s) })
			_, _ = one.IntoEncoding(i, 0)
			_ = one.Split(func(int, *N.NormalizedString) ([]PT.Split, error) { return nil, fmt.Errorf("failing %s", s) })
			_ = one.Normalize(func(*N.NormalizedString) error { return fmt.Errorf("failing %s", s) })
		}
	})
}
