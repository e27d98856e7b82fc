package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run|child|replay|list|dump-literals ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "child":
		cmdChild(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	case "list":
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "instrument":
		if len(os.Args) < 3 {
			os.Exit(2)
		}
		if err := instrument(os.Args[2]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	case "fuzzfile":
		cmdFuzzFile(os.Args[2:])
	case "fuzznote":
		if len(os.Args) > 3 {
			fuzzNote(os.Args[2], os.Args[3])
		}
	case "dump-literals":
		dumpLiterals()
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func envSeed() uint64 {
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 63); err == nil {
			return v
		}
		return hashStr(s) >> 1
	}
	return 1
}

func cmdChild(args []string) {
	fs := flag.NewFlagSet("child", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	solo := fs.Int64("solo", -1, "")
	journal := fs.String("journal", "", "")
	out := fs.String("out", "", "")
	limit := fs.Int64("limit", 0, "")
	_ = fs.Parse(args)
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(2)
	}
	loadKnown(p.ID)
	if os.Getenv("VERIF_NO_HUGE") != "" {
		p.Huge = 0
	}
	if os.Getenv("VERIF_HUGE_ONLY") != "" { // development aid: time the huge cases
		timeHuge(p, *tier, *seed)
		return
	}
	runChild(p, *tier, *seed, *solo, *journal, *out, *limit)
}

type knownFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

type knownFinding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
}

func loadKnown(prop string) (out []knownFinding) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return nil
	}
	var k knownFile
	if json.Unmarshal(b, &k) != nil {
		return nil
	}
	for _, f := range k.Findings {
		if f.Property == prop {
			knownIDs[f.ID] = true
			out = append(out, f)
		}
	}
	return
}

// replayFile is the witness written for a violation.
type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Case     int64    `json:"case"`
	FuzzHex  string   `json:"fuzz_input_hex,omitempty"`
	Kind     string   `json:"kind"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
	HowTo    string   `json:"how_to_replay"`
}

func writeReplay(r replayFile) string {
	dir := filepath.Join(verifDir(), "replays")
	_ = os.MkdirAll(dir, 0o755)
	name := fmt.Sprintf("%s-%s-seed%d-case%d.json", r.Property, r.Tier, r.Seed, r.Case)
	if r.FuzzHex != "" {
		name = fmt.Sprintf("%s-fuzz-%x.json", r.Property, hashStr(r.FuzzHex))
	}
	path := filepath.Join(dir, name)
	r.HowTo = "bash /verif/bin/replay.sh " + path
	b, _ := json.MarshalIndent(r, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

type childOut struct {
	code    int
	res     *result
	stderr  string
	slots   []int64
	timeout bool
	wall    float64
}

func spawn(tmp, prop, tier string, seed uint64, solo, limit int64, wall time.Duration) childOut {
	journal := filepath.Join(tmp, fmt.Sprintf("journal.%d", solo))
	out := filepath.Join(tmp, fmt.Sprintf("result.%d", solo))
	_ = os.Remove(journal)
	_ = os.Remove(out)
	exe, err := os.Executable()
	if err != nil {
		exe = os.Args[0]
	}
	cmd := exec.Command(exe, "child", "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed),
		"-solo", fmt.Sprint(solo), "-journal", journal, "-out", out, "-limit", fmt.Sprint(limit))
	var eb bytes.Buffer
	cmd.Stdout = &eb
	cmd.Stderr = &eb
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=100")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	t0 := time.Now()
	co := childOut{}
	if err := cmd.Start(); err != nil {
		co.code = 2
		co.stderr = err.Error()
		return co
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(wall):
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		err = <-done
		co.timeout = true
	}
	co.wall = time.Since(t0).Seconds()
	if err != nil {
		co.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			co.code = ee.ExitCode()
		}
	}
	co.stderr = eb.String()
	if b, e := os.ReadFile(out); e == nil {
		var r result
		if json.Unmarshal(b, &r) == nil {
			co.res = &r
		}
	}
	if b, e := os.ReadFile(journal); e == nil && len(b) == nSlots*8 {
		seen := map[int64]bool{}
		for i := 0; i < nSlots; i++ {
			if v := getSlot(b, i); v >= 0 && !seen[v] {
				seen[v] = true
				co.slots = append(co.slots, v)
			}
		}
		sort.Slice(co.slots, func(i, j int) bool { return co.slots[i] < co.slots[j] })
	}
	return co
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n...(cut)"
	}
	return s
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	_ = fs.Parse(args)
	if *tier != "thorough" {
		*tier = "quick"
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(2)
	}
	seed := envSeed()
	known := loadKnown(p.ID)
	tmp, err := os.MkdirTemp("", "vh-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := supervise(p, *tier, seed, tmp, known)
	_ = os.RemoveAll(tmp)
	os.Exit(code)
}

func violation(p *Prop, tier string, seed uint64, kind string, idx int64, msg string, trace []string) {
	path := writeReplay(replayFile{Property: p.ID, Tier: tier, Seed: seed, Case: idx, Kind: kind, Message: msg, Trace: trace})
	fmt.Printf("property %s violated (%s), case %d:\n%s\n", p.ID, kind, idx, head(msg, 3000))
	for i, t := range trace {
		if i >= 40 {
			break
		}
		fmt.Println("   ", head(t, 600))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
}

func supervise(p *Prop, tier string, seed uint64, tmp string, known []knownFinding) int {
	wall := 780 * time.Second
	if tier == "thorough" {
		wall = 4 * time.Hour
	}
	isRace := func(s string) bool {
		return strings.Contains(s, "WARNING: DATA RACE") || strings.Contains(s, "fatal error: concurrent map")
	}
	if p.Cold {
		if code := runCold(p, tier, seed, tmp, isRace); code != 0 {
			return code
		}
	}
	co := spawn(tmp, p.ID, tier, seed, -1, 0, wall)
	switch {
	case co.timeout:
		fmt.Printf("property %s: inconclusive, the workload did not finish in %v\n", p.ID, wall)
		return 2
	case co.code == 0 && co.res != nil:
		r := co.res
		if r.Fail != nil {
			writeEvidence(p, tier, seed, co, 1)
			violation(p, tier, seed, "oracle", r.Fail.Idx, r.Fail.Msg, r.Fail.Trace)
			return 1
		}
		if p.Quiet && len(co.stderr) > 0 && os.Getenv("VERIF_SLOW") == "" {
			writeEvidence(p, tier, seed, co, 1)
			violation(p, tier, seed, "output", -1, "the library prints:\n"+head(co.stderr, 3000), nil)
			return 1
		}
		writeEvidence(p, tier, seed, co, 0)
		for _, k := range known {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
		}
		missing := []string{}
		for _, f := range p.Need {
			if r.Feats[f] == 0 {
				missing = append(missing, f)
			}
		}
		if len(missing) > 0 {
			fmt.Printf("property %s: inconclusive, never observed: %s\n", p.ID, strings.Join(missing, ", "))
			return 2
		}
		fmt.Printf("property %s held on %d executions (%d distinct non-trivial, %d observations), %.1f s\n", p.ID, r.Cases, r.Distinct, r.Obs, co.wall)
		return 0
	case isRace(co.stderr) && raceBuild:
		idx := int64(-1)
		if len(co.slots) > 0 {
			idx = co.slots[0]
		}
		// which of the active cases was it?
		for i, k := range co.slots {
			if i >= 12 {
				break
			}
			if so := spawn(tmp, p.ID, tier, seed, k, 0, 60*time.Second); isRace(so.stderr) {
				idx, co.stderr = k, so.stderr
				break
			}
		}
		writeEvidence(p, tier, seed, co, 1)
		violation(p, tier, seed, "data race", idx, head(co.stderr, 20000), nil)
		return 1
	}
	// The child died or made no progress: run the cases that were active alone.
	fmt.Printf("property %s: the workload ended with code %d, re-running %d active cases alone\n", p.ID, co.code, len(co.slots))
	if len(co.slots) > 12 {
		co.slots = co.slots[:12]
	}
	solos := make([]childOut, len(co.slots))
	var wg sync.WaitGroup
	for i, idx := range co.slots {
		wg.Add(1)
		go func() {
			defer wg.Done()
			solos[i] = spawn(tmp, p.ID, tier, seed, idx, 0, 560*time.Second)
		}()
	}
	wg.Wait()
	for i, idx := range co.slots {
		so := solos[i]
		kind, msg := "", ""
		var trace []string
		switch {
		case so.timeout:
			continue // inconclusive for this one
		case so.code == 0 && so.res != nil && so.res.Fail != nil:
			kind, msg, trace = "oracle", so.res.Fail.Msg, so.res.Fail.Trace
		case so.code == 0:
			continue
		case so.code == exSoloCPU:
			kind, msg = "no termination", fmt.Sprintf("the case alone used more than %.0f s of CPU time without finishing", p.soloCPU(tier, idx))
		case so.code == exSoloMem:
			kind, msg = "runaway memory", "the case alone used more than 3 GB of memory"
		case so.code == exStuck || so.code == exMem:
			continue
		default:
			kind, msg = "crash", head(so.stderr, 12000)
		}
		writeEvidence(p, tier, seed, co, 1)
		violation(p, tier, seed, kind, idx, msg, trace)
		return 1
	}
	if p.Huge > 0 && (co.code == exStuck || co.code == exMem) {
		// many huge texts at a time take longer than foreseen, none of them alone does
		fmt.Printf("property %s: once more without the huge texts\n", p.ID)
		q := *p
		q.Huge, q.Need = 0, nil
		_ = os.Setenv("VERIF_NO_HUGE", "1")
		return supervise(&q, tier, seed, tmp, known)
	}
	fmt.Printf("property %s: inconclusive, no active case reproduces the failure alone\n%s\n", p.ID, head(co.stderr, 4000))
	return 2
}

// runCold runs each enumerated case in a process of its own, which meets
// whatever the library fills on first use still empty.
func runCold(p *Prop, tier string, seed uint64, tmp string, isRace func(string) bool) int {
	n := p.Enum(tier == "thorough")
	outs := make([]childOut, n)
	var wg sync.WaitGroup
	slots := make(chan bool, 4)
	for i := int64(0); i < n; i++ {
		wg.Add(1)
		slots <- true
		go func() {
			defer wg.Done()
			outs[i] = spawn(tmp, p.ID, tier, seed, i, 0, 120*time.Second)
			<-slots
		}()
	}
	wg.Wait()
	for i, co := range outs {
		kind, msg := "", ""
		var trace []string
		switch {
		case isRace(co.stderr) && raceBuild:
			kind, msg = "data race", head(co.stderr, 20000)
		case co.code == 0 && co.res != nil && co.res.Fail != nil:
			kind, msg, trace = "oracle", co.res.Fail.Msg, co.res.Fail.Trace
		case co.code == 0 && co.res != nil:
			continue
		case co.timeout || co.code == exSoloCPU || co.code == exSoloMem:
			continue // the run of all cases judges this
		default:
			kind, msg = "crash", head(co.stderr, 12000)
		}
		writeEvidence(p, tier, seed, co, 1)
		violation(p, tier, seed, kind, int64(i), msg, trace)
		return 1
	}
	fmt.Printf("property %s held on %d cases, each the first of its process\n", p.ID, n)
	return 0
}

func writeEvidence(p *Prop, tier string, seed uint64, co childOut, viol int) {
	cov := map[string]interface{}{"rule": p.Rule, "evaluations": 0, "distinct_nontrivial": 0, "samples": []string{}}
	if r := co.res; r != nil {
		cov["evaluations"] = r.Cases
		cov["distinct_nontrivial"] = r.Distinct
		cov["nontrivial_executions"] = r.Nontrivial
		cov["oracle_observations"] = r.Obs
		cov["systematic_cases"] = r.Enumerated
		cov["skipped"] = r.Skipped
		cov["features_observed"] = r.Feats
		cov["literals_new_in_tree"] = r.DictNew
		if len(r.Samples) > 0 {
			cov["samples"] = r.Samples
		}
		if len(r.Known) > 0 {
			cov["known_findings_hit"] = r.Known
		}
		for k, v := range r.Extra {
			cov[k] = v
		}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage":    cov,
		"wall_s":      co.wall,
		"violations":  viol,
		"assumptions": append([]string{"holds on the executions observed; paths the workload never drives are not judged", "the Go toolchain, its unicode tables and regexp engines are trusted"}, p.Notes...),
	}
	dir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}

func cmdReplay(args []string) {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: harness replay FILE")
		os.Exit(2)
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := props[r.Property]
	if p == nil {
		os.Exit(2)
	}
	loadKnown(p.ID)
	loadDict()
	var enum int64
	if p.Enum != nil {
		enum = p.Enum(r.Tier == "thorough")
	}
	var data []byte
	if r.FuzzHex != "" {
		data, _ = hex.DecodeString(r.FuzzHex)
		enum = 0
	}
	reps := 1
	if r.Kind == "data race" {
		reps = 200
	}
	for i := 0; i < reps; i++ {
		_, f, _, _ := oneCase(p, r.Seed, r.Case, enum, r.Tier, true, map[string]int64{}, data)
		if f != nil {
			for _, t := range f.Trace {
				fmt.Println("   ", t)
			}
			fmt.Println(f.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, args[0])
			os.Exit(1)
		}
	}
	fmt.Println("not reproduced")
}

// fuzzCase runs the case described by the bytes of the fuzzing engine.
func fuzzCase(p *Prop, data []byte) (*Ctx, *failRec) {
	if data == nil {
		data = []byte{}
	}
	c, f, _, _ := oneCase(p, 1, 0, 0, "thorough", true, map[string]int64{}, data)
	return c, f
}

// cmdFuzzFile PROP FILE runs an input kept by the fuzzing engine. It writes the
// witness and exits with 1 if the input fails here as well.
func cmdFuzzFile(args []string) {
	if len(args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness fuzzfile PROP FILE")
		os.Exit(2)
	}
	p := props[args[0]]
	b, err := os.ReadFile(args[1])
	if p == nil || err != nil {
		fmt.Fprintln(os.Stderr, "no such property or file", args, err)
		os.Exit(2)
	}
	loadKnown(p.ID)
	loadDict()
	text := strings.TrimSpace(string(b))
	i, j := strings.Index(text, "[]byte("), strings.LastIndex(text, ")")
	if i < 0 || j < i {
		os.Exit(2)
	}
	raw, err := strconv.Unquote(text[i+len("[]byte(") : j])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if len(raw) > 2000 {
		raw = raw[:2000]
	}
	report := func(kind, msg string, trace []string) {
		path := writeReplay(replayFile{Property: p.ID, Tier: "thorough", Seed: 1, FuzzHex: hex.EncodeToString([]byte(raw)), Kind: kind, Message: msg, Trace: trace})
		fmt.Printf("property %s violated (%s), input found by coverage:\n%s\n", p.ID, kind, head(msg, 3000))
		for _, t := range trace {
			fmt.Println("   ", head(t, 600))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		os.Exit(1)
	}
	if os.Getenv("VERIF_FUZZ_CHILD") == "" {
		// in a process of its own, which may die
		var eb bytes.Buffer
		cmd := exec.Command(os.Args[0], os.Args[1:]...)
		cmd.Env = append(os.Environ(), "VERIF_FUZZ_CHILD=1")
		cmd.Stdout = os.Stdout
		cmd.Stderr = &eb
		err := cmd.Run()
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() != 1 {
			report("crash", head(eb.String(), 12000), nil)
		}
		if err != nil {
			os.Exit(1)
		}
		return
	}
	go func() {
		for used := cpuSeconds(); ; time.Sleep(time.Second) {
			if cpuSeconds()-used > 120 {
				report("no termination", "the case alone used more than 120 s of CPU time without finishing", nil)
			}
		}
	}()
	if _, f := fuzzCase(p, []byte(raw)); f != nil {
		report("oracle", f.Msg, f.Trace)
	}
}

// fuzzNote adds the last report of the fuzzing engine to the evidence.
func fuzzNote(prop, line string) {
	path := filepath.Join(verifDir(), "evidence", prop+".json")
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	var ev map[string]interface{}
	if json.Unmarshal(b, &ev) != nil {
		return
	}
	if cov, ok := ev["coverage"].(map[string]interface{}); ok {
		cov["coverage_guided_stage"] = line
	}
	b, _ = json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
}

func timeHuge(p *Prop, tier string, seed uint64) {
	loadDict()
	var enum int64
	if p.Enum != nil {
		enum = p.Enum(tier == "thorough")
	}
	for r := int64(0); r < 64*p.Huge*20; r++ {
		if !isHuge(r, tier, p.Huge) {
			continue
		}
		t0 := time.Now()
		feats := map[string]int64{}
		c, f, _, sk := oneCase(p, seed, enum+r, enum, tier, true, feats, nil)
		d := time.Since(t0)
		fmt.Printf("%s case %d: %v skipped %v observations %d features %v\n", p.ID, enum+r, d, sk, c.obs, feats)
		if f != nil {
			fmt.Println("  FAIL", head(f.Msg, 3000))
		}
		if f != nil || d > 3*time.Second {
			for _, l := range c.trace {
				fmt.Println("    ", head(l, 200))
			}
		}
	}
}
