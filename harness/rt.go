package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one monitored property: a generator of executions and the oracle
// that watches them.
type Prop struct {
	ID       string
	Rule     string
	Quick    int64 // random cases, quick tier
	Thorough int64 // random cases, thorough tier
	Enum     func(thorough bool) int64
	Case     func(c *Ctx)
	Need     []string // features that have to be observed, otherwise the run is inconclusive
	Notes    []string
	Cold     bool          // the enumerated cases are first run each in a process of its own
	Huge     int64         // number of cases with a huge text, quick tier
	Dense    bool          // half of them are of one long run, or of very many pieces
	Serial   bool          // one case at a time: the monitor measures the process
	Quiet    bool          // whatever the process prints is a violation
	Final    func() string // run when all cases are done, reports a violation
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type failure struct{ msg string }
type knownHit struct{ id, msg string }
type skipCase struct{}

// Ctx is the context of one case.
type Ctx struct {
	*Src
	Idx   int64
	Enum  int64 // index within the enumerated part, -1 for random cases
	Scale int   // soft bound on sizes, grows with the case index
	Tier  string
	Huge  bool // one text of this case is longer than 65,536 bytes
	dense bool // it may be one long run, or fall into very many pieces
	gave  bool // the huge text has been drawn
	logOn bool
	trace []string
	h     uint64
	nt    bool
	obs   int64
	feats map[string]int64
}

func (c *Ctx) Log(f string, a ...interface{}) {
	if c.logOn && len(c.trace) < 400 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 4000 {
			s = s[:4000] + "...(cut)"
		}
		c.trace = append(c.trace, s)
	}
}

func (c *Ctx) Hit(f string) { c.feats[f]++ }

// NT marks the case as non-trivial by the property's rule.
func (c *Ctx) NT() { c.nt = true }

func (c *Ctx) Obs() { c.obs++ }

// K mixes observed content into the identity of the case.
func (c *Ctx) K(s string) { c.h = mix64(c.h ^ hashStr(s)) }
func (c *Ctx) Ki(v int)   { c.h = mix64(c.h ^ uint64(v)*0x9e3779b97f4a7c15) }

func (c *Ctx) Fail(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 6000 {
		s = s[:6000] + "...(cut)"
	}
	panic(failure{s})
}

// FailKnown reports a failure that is a listed known finding.
func (c *Ctx) FailKnown(id, f string, a ...interface{}) {
	if knownIDs[id] {
		panic(knownHit{id, fmt.Sprintf(f, a...)})
	}
	c.Fail(f, a...)
}

func (c *Ctx) Skip() { panic(skipCase{}) }

var knownIDs = map[string]bool{}

type failRec struct {
	Idx   int64    `json:"case"`
	Msg   string   `json:"message"`
	Trace []string `json:"trace,omitempty"`
}

type result struct {
	Enumerated int64            `json:"enumerated"`
	Cases      int64            `json:"cases"`
	Obs        int64            `json:"observations"`
	Nontrivial int64            `json:"nontrivial"`
	Distinct   int64            `json:"distinct"`
	Skipped    int64            `json:"skipped"`
	Feats      map[string]int64 `json:"features"`
	Samples    [][]string       `json:"samples"`
	Known      map[string]string
	Fail       *failRec         `json:"failure,omitempty"`
	DictNew    int              `json:"dict_new"`
	Extra      map[string]int64 `json:"extra,omitempty"`
}

// oneCase runs a case under recover and reports its failure, if any.
func oneCase(p *Prop, seed uint64, idx, enum int64, tier string, logOn bool, feats map[string]int64, fuzzData []byte) (c *Ctx, f *failRec, k *knownHit, skipped bool) {
	c = &Ctx{Idx: idx, Enum: -1, Tier: tier, logOn: logOn, feats: feats, h: 88172645463325252}
	if fuzzData != nil {
		c.Src = fuzzSrc(fuzzData)
		c.Scale = 12
	} else {
		c.Src = newSrc(seed, p.ID, idx)
		if idx < enum {
			c.Enum = idx
		}
		r := idx - enum
		c.Scale = 4 + int(r/400)
		if c.Scale > 24 {
			c.Scale = 24
		}
		if r < 0 {
			c.Scale = 8
		}
		c.Huge = p.Huge > 0 && isHuge(r, tier, p.Huge)
		c.dense = p.Dense
	}
	defer func() {
		switch r := recover().(type) {
		case nil:
		case failure:
			f = &failRec{Idx: idx, Msg: r.msg, Trace: c.trace}
		case knownHit:
			k = &r
		case skipCase:
			skipped = true
		default:
			st := string(debug.Stack())
			f = &failRec{Idx: idx, Msg: fmt.Sprintf("panic: %v\n%s", r, trimStack(st)), Trace: c.trace}
		}
	}()
	p.Case(c)
	return
}

// isHuge tells the random cases with an input of more than 65,536 bytes: a fixed
// small number of them, spread over the chunks of the workers.
func isHuge(r int64, tier string, n int64) bool {
	if tier == "thorough" {
		n *= 20
	}
	return r >= 0 && r%64 == 32 && r/64 < n
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 44 {
		lines = lines[:44]
	}
	return strings.Join(lines, "\n")
}

const nSlots = 64

type slotTable struct {
	mem []byte
	v   [nSlots]int64 // fallback when there is no journal
}

func openSlots(path string) *slotTable {
	t := &slotTable{}
	if path == "" {
		t.mem = make([]byte, nSlots*8)
		return t
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		t.mem = make([]byte, nSlots*8)
		return t
	}
	_ = f.Truncate(nSlots * 8)
	m, err := syscall.Mmap(int(f.Fd()), 0, nSlots*8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		m = make([]byte, nSlots*8)
	}
	t.mem = m
	return t
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, r int64
	fmt.Sscan(string(b), &a, &r)
	return r * int64(os.Getpagesize())
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// Exit codes of the child.
const (
	exStuck   = 41 // a case made no progress for a long time (suspicion)
	exMem     = 42 // memory ran away (suspicion)
	exSoloCPU = 43 // a case alone consumed its whole CPU allowance
	exSoloMem = 44 // a case alone consumed its whole memory allowance
)

const (
	stuckWall = 40 * time.Second
	soloCPU   = 60.0
	hugeTimes = 3 // so much longer for a huge case
	memBig    = 10 << 30
	memSolo   = 3 << 30
)

type distinctSet struct {
	mu [64]sync.Mutex
	m  [64]map[uint64]struct{}
	n  int64
}

func (d *distinctSet) add(h uint64) {
	i := h & 63
	d.mu[i].Lock()
	if d.m[i] == nil {
		d.m[i] = map[uint64]struct{}{}
	}
	if len(d.m[i]) < 120000 {
		if _, ok := d.m[i][h]; !ok {
			d.m[i][h] = struct{}{}
			atomic.AddInt64(&d.n, 1)
		}
	}
	d.mu[i].Unlock()
}

// soloCPU is the CPU time a case may take when it runs alone.
func (p *Prop) soloCPU(tier string, idx int64) float64 {
	var enum int64
	if p.Enum != nil {
		enum = p.Enum(tier == "thorough")
	}
	if p.Huge > 0 && isHuge(idx-enum, tier, p.Huge) {
		return 2 * hugeTimes * soloCPU
	}
	return soloCPU
}

// showSlow is a development aid: name the cases that take long.
var showSlow = os.Getenv("VERIF_SLOW") != ""

// runChild executes the cases of a property; solo >= 0 runs that case only.
func runChild(p *Prop, tier string, seed uint64, solo int64, journal, out string, limit int64) {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(1000)
	debug.SetMemoryLimit(6 << 30)
	if f := os.Getenv("VERIF_PPROF"); f != "" {
		w, _ := os.Create(f)
		_ = pprof.StartCPUProfile(w)
		time.AfterFunc(30*time.Second, func() { pprof.StopCPUProfile(); w.Close() })
	}
	loadDict()
	var enum int64
	if p.Enum != nil {
		enum = p.Enum(tier == "thorough")
	}
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	total := enum + n
	if limit > 0 && limit < n {
		// evidence runs: a spread of the enumerated part and the first random cases
		total = enum + limit
	}
	slots := openSlots(journal)
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if solo >= 0 || p.Serial {
		workers = 1
	}
	for i := 0; i < nSlots; i++ {
		setSlot(slots.mem, i, -1)
	}
	res := result{Enumerated: enum, Feats: map[string]int64{}, Known: map[string]string{}, DictNew: len(dictNew.Ints) + len(dictNew.Runes) + len(dictNew.Strings)}
	var dset distinctSet
	var progress, huge [nSlots]int64

	// watchdog
	go func() {
		lastIdx := make([]int64, workers)
		since := make([]time.Time, workers)
		for i := range lastIdx {
			lastIdx[i] = -1
		}
		tick := 0
		for {
			time.Sleep(100 * time.Millisecond)
			rss := rssBytes()
			if solo >= 0 {
				if rss > memSolo {
					os.Exit(exSoloMem)
				}
				if cpuSeconds() > p.soloCPU(tier, solo) {
					os.Exit(exSoloCPU)
				}
				continue
			}
			if rss > memBig {
				os.Exit(exMem)
			}
			if tick++; tick%10 != 0 {
				continue
			}
			for w := 0; w < workers; w++ {
				v := atomic.LoadInt64(&progress[w])
				if v != lastIdx[w] || v == 0 {
					lastIdx[w] = v
					since[w] = time.Now()
				} else if d := time.Since(since[w]); d > hugeTimes*stuckWall || d > stuckWall && atomic.LoadInt64(&huge[w]) == 0 {
					os.Exit(exStuck)
				}
			}
		}
	}()

	var failMu sync.Mutex
	var fails []*failRec
	var failed int32 // lower cases are all under way once one has failed
	runRange := func(w int, idx int64, feats map[string]int64, acc *result, logOn bool) *failRec {
		setSlot(slots.mem, w, idx)
		atomic.StoreInt64(&huge[w], 0)
		if p.Huge > 0 && isHuge(idx-enum, tier, p.Huge) {
			atomic.StoreInt64(&huge[w], 1)
		}
		atomic.AddInt64(&progress[w], 1)
		t0 := time.Now()
		c, f, k, skipped := oneCase(p, seed, idx, enum, tier, logOn, feats, nil)
		if d := time.Since(t0); showSlow && d > time.Second {
			fmt.Fprintf(os.Stderr, "case %d (random case %d): %v\n", idx, idx-enum, d)
		}
		if skipped {
			acc.Skipped++
			return nil
		}
		acc.Cases++
		acc.Obs += c.obs
		if c.nt {
			acc.Nontrivial++
			dset.add(c.h)
		}
		if k != nil {
			failMu.Lock()
			if _, ok := res.Known[k.id]; !ok {
				res.Known[k.id] = k.msg
			}
			failMu.Unlock()
		}
		return f
	}

	if solo >= 0 {
		feats := map[string]int64{}
		f := runRange(0, solo, feats, &res, true)
		res.Feats = feats
		res.Fail = f
		res.Distinct = dset.n
		writeResult(out, &res)
		cleanScratch()
		os.Exit(0)
	}

	const chunk = 64
	block := int64(chunk * workers * 16)
	for lo := int64(0); lo < total && len(fails) == 0; lo += block {
		hi := lo + block
		if hi > total {
			hi = total
		}
		var next = lo
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				feats := map[string]int64{}
				acc := result{}
				for {
					s := atomic.AddInt64(&next, chunk) - chunk
					if s >= hi || atomic.LoadInt32(&failed) != 0 {
						break
					}
					for i := s; i < s+chunk && i < hi; i++ {
						if f := runRange(w, i, feats, &acc, false); f != nil {
							failMu.Lock()
							fails = append(fails, f)
							atomic.StoreInt32(&failed, 1)
							failMu.Unlock()
							break
						}
					}
				}
				failMu.Lock()
				res.Cases += acc.Cases
				res.Obs += acc.Obs
				res.Nontrivial += acc.Nontrivial
				res.Skipped += acc.Skipped
				for k, v := range feats {
					res.Feats[k] += v
				}
				failMu.Unlock()
				atomic.StoreInt64(&progress[w], 0)
			}(w)
		}
		wg.Wait()
	}
	if len(fails) == 0 && p.Final != nil {
		if msg := p.Final(); msg != "" {
			res.Fail = &failRec{Idx: -1, Msg: msg}
			res.Distinct = dset.n
			writeResult(out, &res)
			cleanScratch()
			os.Exit(0)
		}
	}
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return fails[i].Idx < fails[j].Idx })
		f := fails[0]
		// run it again with the trace on
		_, f2, _, _ := oneCase(p, seed, f.Idx, enum, tier, true, map[string]int64{}, nil)
		if f2 != nil {
			f = f2
		}
		res.Fail = f
	} else {
		want := []int64{enum / 3, enum + 17, enum + (total-enum)/2, total - 1}
		for _, i := range want {
			if i < 0 || i >= total {
				continue
			}
			c, _, _, sk := oneCase(p, seed, i, enum, tier, true, map[string]int64{}, nil)
			if !sk {
				tr := c.trace
				if len(tr) > 12 {
					tr = tr[:12]
				}
				for j := range tr {
					if len(tr[j]) > 500 {
						tr[j] = tr[j][:500] + "...(cut)"
					}
				}
				res.Samples = append(res.Samples, append([]string{fmt.Sprintf("case %d", i)}, tr...))
			}
		}
	}
	res.Distinct = dset.n
	if interleavings.n > 0 {
		res.Extra = map[string]int64{"distinct_interleavings": interleavings.n, "yield_points_in_library": yieldPoints()}
	}
	writeResult(out, &res)
	cleanScratch()
	os.Exit(0)
}

// yieldPoints is 1 when the library was built with scheduling points.
func yieldPoints() int64 {
	if os.Getenv("VERIF_YIELD") == "1" {
		return 1
	}
	return 0
}

func setSlot(m []byte, i int, v int64) {
	for k := 0; k < 8; k++ {
		m[i*8+k] = byte(v >> (8 * k))
	}
}

func getSlot(m []byte, i int) int64 {
	var v int64
	for k := 0; k < 8; k++ {
		v |= int64(m[i*8+k]) << (8 * k)
	}
	return v
}

func writeResult(path string, r *result) {
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(2)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "write result:", err)
		os.Exit(2)
	}
}
