//go:build go1.23

package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/steve-care-software/steve/verifsim/simrt"
)

// Property is one property and the world that decides it
type Property struct {
	ID       string
	Level    string
	Run      func(w *W)
	Quick    int // simulated runs
	Thorough int
	Batch    int
	MaxRunS  int // a run that takes longer in real time is a hang
	Rule     string
	Real     []string
	Stub     []string
	Assume   []string
}

var registry = map[string]*Property{}

func register(p *Property) {
	if p.Batch == 0 {
		p.Batch = 25
	}
	if p.MaxRunS == 0 {
		p.MaxRunS = 90
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	registry[p.ID] = p
}

// RunResult is what a worker reports about one run
type RunResult struct {
	I       int              `json:"i"`
	Viol    *Violation       `json:"v,omitempty"`
	Choices []uint64         `json:"c,omitempty"`
	Log     uint64           `json:"l"`
	Sched   uint64           `json:"s"`
	Nontri  bool             `json:"n"`
	Events  int64            `json:"e"`
	Sim     int64            `json:"t"`
	Sw      int64            `json:"sw"`
	Pre     int64            `json:"pre"`
	Faults  map[string]int64 `json:"f,omitempty"`
	Counts  map[string]int64 `json:"k,omitempty"`
	States  []uint64         `json:"st,omitempty"`
	Lines   []string         `json:"ln,omitempty"`
	From    int              `json:"-"` // first run of the process that ran it
}

func runOnce(p *Property, src *Source, verbose bool) *RunResult {
	w := newWorld(src, p.ID, verbose)
	w.run(p)
	w.counts["map_iterations"] += simrt.MapRanges
	res := &RunResult{Viol: w.viol, Log: w.logH, Sched: w.schedH, Nontri: w.nontri, Events: w.events, Sim: w.now,
		Sw: w.S.Switches, Pre: w.S.Preempts, Faults: w.faults, Counts: w.counts, Lines: w.lines}
	for s := range w.states {
		res.States = append(res.States, s)
	}
	sort.Slice(res.States, func(i, j int) bool { return res.States[i] < res.States[j] })
	if w.viol != nil || verbose {
		res.Choices = src.rec
	}
	return res
}

func runSeed(p *Property, seed uint64, i int) uint64 {
	return mix(mix(14695981039346656037^seed*0x9e3779b97f4a7c15, p.ID), fmt.Sprint(i))
}

// Replay is a replay file
type Replay struct {
	Property string      `json:"property"`
	Code     string      `json:"code"`
	Message  string      `json:"message"`
	LogHash  uint64      `json:"log_hash"`
	Seed     uint64      `json:"seed"`
	Index    int         `json:"index"`
	Tier     string      `json:"tier"`
	Warmup   []int       `json:"warmup_runs,omitempty"` // runs of the same seed executed first in the process
	Choices  []uint64    `json:"choices"`
	Original int         `json:"choices_before_minimisation"`
	Faults   interface{} `json:"faults"`
	Trace    []string    `json:"trace"`
}

func main() {
	log.SetOutput(io.Discard) // the code under test logs
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|replay|shrink|list")
		os.Exit(2)
	}
	if err := checkTimeLayout(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	runtime.GOMAXPROCS(2)
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Uint64("seed", 1, "seed")
	from := fs.Int("from", 0, "first run")
	to := fs.Int("to", 1, "last run")
	verif := fs.String("verif", "/verif", "verif directory")
	file := fs.String("file", "", "replay file")
	procs := fs.Int("procs", 0, "worker processes")
	runs := fs.Int("runs", 0, "override the amount of runs")
	capS := fs.Int("cap", 0, "override the wall clock cap, in seconds")
	verbose := fs.Bool("v", false, "verbose")
	instr := fs.String("instr", "", "instrumentation summary")
	_ = fs.Parse(os.Args[2:])
	p := registry[*prop]
	switch os.Args[1] {
	case "list":
		for _, id := range sortedKeys(registry) {
			fmt.Println(id)
		}
		return
	case "replay":
		os.Exit(replayMain(*file, *verbose))
	case "shrink":
		os.Exit(shrinkMain(*file))
	}
	if p == nil {
		fmt.Fprintf(os.Stderr, "no such property: %q\n", *prop)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		out := bufio.NewWriter(os.Stdout)
		debug.SetGCPercent(200)
		for i := *from; i < *to; i++ {
			fmt.Fprintf(out, "S %d\n", i)
			_ = out.Flush()
			res := runOnce(p, newSeedSource(runSeed(p, *seed, i)), *verbose)
			res.I = i
			js, err := json.Marshal(res)
			if err != nil {
				panic(err)
			}
			fmt.Fprintf(out, "R %s\n", js)
			_ = out.Flush()
			if res.Viol != nil {
				break
			}
		}
		fmt.Fprintln(out, "E")
		_ = out.Flush()
	case "check":
		c := &checker{p: p, tier: *tier, seed: *seed, verif: *verif, runs: *runs, capS: *capS, procs: *procs, instr: *instr}
		os.Exit(c.main())
	default:
		os.Exit(2)
	}
}

func replayMain(file string, verbose bool) int {
	r := readReplay(file)
	p := registry[r.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property in replay file")
		return 2
	}
	for _, i := range r.Warmup {
		runOnce(p, newSeedSource(runSeed(p, r.Seed, i)), false)
	}
	res := runOnce(p, newReplaySource(r.Choices), true)
	if verbose {
		for _, l := range res.Lines {
			fmt.Println(l)
		}
	}
	if res.Viol == nil {
		fmt.Printf("REPLAY no violation (expected %s)\n", r.Code)
		return 0
	}
	same := "same execution"
	if res.Log != r.LogHash {
		same = "different execution"
	}
	fmt.Printf("REPLAY %s log=%d (%s)\n%s\n", res.Viol.Code, res.Log, same, res.Viol.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
	return 1
}

func readReplay(file string) *Replay {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return r
}

func writeReplay(file string, r *Replay) {
	b, _ := json.MarshalIndent(r, "", " ")
	_ = os.MkdirAll(filepath.Dir(file), 0o755)
	if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// shrinkMain minimises the choices of a replay file in place
func shrinkMain(file string) int {
	r := readReplay(file)
	p := registry[r.Property]
	deadline := time.Now().Add(25 * time.Second)
	for _, i := range r.Warmup {
		runOnce(p, newSeedSource(runSeed(p, r.Seed, i)), false)
	}
	best := r.Choices
	try := func(cand []uint64) bool {
		if time.Now().After(deadline) {
			return false
		}
		res := runOnce(p, newReplaySource(cand), false)
		if res.Viol == nil || res.Viol.Code != r.Code {
			return false
		}
		if less(res.Choices, best) {
			best = append([]uint64{}, res.Choices...)
			return true
		}
		return false
	}
	for round := 0; round < 20; round++ {
		before := append([]uint64{}, best...)
		// truncate (missing choices are 0)
		for n := len(best) / 2; n >= 1; n /= 2 {
			for len(best) > n && try(append([]uint64{}, best[:len(best)-n]...)) {
			}
		}
		// delete and zero chunks
		for size := len(best) / 2; size >= 1; size /= 2 {
			for at := 0; at+size <= len(best); at += size {
				c := append([]uint64{}, best[:at]...)
				c = append(c, best[at+size:]...)
				if try(c) {
					at -= size
					continue
				}
				z := append([]uint64{}, best...)
				any := false
				for i := at; i < at+size; i++ {
					any = any || z[i] != 0
					z[i] = 0
				}
				if any {
					try(z)
				}
			}
			if time.Now().After(deadline) {
				break
			}
		}
		// lower single choices
		for at := 0; at < len(best) && !time.Now().After(deadline); at++ {
			for at < len(best) && best[at] > 0 {
				z := append([]uint64{}, best...)
				z[at] /= 2
				if try(z) {
					continue
				}
				z = append([]uint64{}, best...)
				z[at]--
				if !try(z) {
					break
				}
			}
		}
		if fmt.Sprint(before) == fmt.Sprint(best) || time.Now().After(deadline) {
			break
		}
	}
	r.Choices = best
	writeReplay(file, r)
	return 0
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

type checker struct {
	p     *Property
	tier  string
	seed  uint64
	verif string
	runs  int
	capS  int
	procs int
	instr string

	mu      sync.Mutex
	results map[int]*RunResult
	bad     []*RunResult
	dead    []deadRun
	stop    bool
}

type deadRun struct {
	i      int
	reason string
}

// Known is an entry of the known-findings file
type Known struct {
	Property string `json:"property"`
	Code     string `json:"code"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

func (c *checker) known() []Known {
	out := struct {
		Findings []Known `json:"findings"`
	}{}
	b, err := os.ReadFile(filepath.Join(c.verif, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &out); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
	}
	list := []Known{}
	for _, k := range out.Findings {
		if k.Property == c.p.ID {
			list = append(list, k)
		}
	}
	return list
}

func (c *checker) worker(from, to int, seed uint64, sink func(*RunResult)) {
	cmd := exec.Command(os.Args[0], "worker", "-prop", c.p.ID, "-tier", c.tier, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-to", fmt.Sprint(to))
	cmd.Stderr = nil
	errPipe, _ := cmd.StderrPipe()
	stdout, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	tail := &strings.Builder{}
	tailDone := make(chan struct{})
	go func() {
		b := make([]byte, 4096)
		for {
			n, err := errPipe.Read(b)
			if n > 0 && tail.Len() < 8192 {
				tail.Write(b[:n])
			}
			if err != nil {
				break
			}
		}
		close(tailDone)
	}()
	limit := time.Duration(c.p.MaxRunS) * time.Second
	timer := time.AfterFunc(limit, func() { _ = cmd.Process.Kill() })
	cur, ended := -1, false
	rd := bufio.NewReaderSize(stdout, 1<<20)
	for {
		line, err := rd.ReadString('\n')
		if err != nil {
			break
		}
		timer.Reset(limit)
		switch line[0] {
		case 'S':
			_, _ = fmt.Sscanf(line, "S %d", &cur)
		case 'R':
			r := &RunResult{}
			if err := json.Unmarshal([]byte(line[2:]), r); err != nil {
				fmt.Fprintln(os.Stderr, "bad worker output:", err)
				os.Exit(2)
			}
			cur = -1
			sink(r)
		case 'E':
			ended = true
		}
	}
	timer.Stop()
	<-tailDone
	_, _ = io.Copy(io.Discard, rd)
	_ = cmd.Wait()
	if !ended {
		msg := tail.String()
		if i := strings.Index(msg, "\n\n"); i > 0 {
			msg = msg[:i]
		}
		if len(msg) > 600 {
			msg = msg[:600]
		}
		if msg == "" {
			msg = "no output: killed after the time limit of a run"
		}
		c.mu.Lock()
		c.dead = append(c.dead, deadRun{cur, msg})
		c.mu.Unlock()
	}
}

func (c *checker) main() int {
	start := time.Now()
	runs, capS := c.p.Quick, 150
	if c.tier == "thorough" {
		runs, capS = c.p.Thorough, 3000
	}
	if c.runs > 0 {
		runs = c.runs
	}
	if c.capS > 0 {
		capS = c.capS
	}
	procs := c.procs
	if procs == 0 {
		procs = runtime.NumCPU()
	}
	c.results = map[int]*RunResult{}
	known := c.known()
	knownHits := map[int]int{}
	isKnown := func(v *Violation) int {
		for i, k := range known {
			if k.Code == v.Code && strings.Contains(v.Msg, k.Match) {
				return i
			}
		}
		return -1
	}
	deadline := start.Add(time.Duration(capS) * time.Second)
	next := 0
	var wg sync.WaitGroup
	for k := 0; k < procs; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				c.mu.Lock()
				if c.stop || next >= runs || time.Now().After(deadline) {
					c.mu.Unlock()
					return
				}
				from := next
				next += c.p.Batch
				to := next
				c.mu.Unlock()
				if to > runs {
					to = runs
				}
				for from < to {
					last := from - 1
					deadBefore := len(c.dead)
					c.worker(from, to, c.seed, func(r *RunResult) {
						c.mu.Lock()
						last = r.I
						r.From = from
						c.results[r.I] = r
						if r.Viol != nil {
							if ki := isKnown(r.Viol); ki >= 0 {
								knownHits[ki]++
							} else {
								c.bad = append(c.bad, r)
								c.stop = true
							}
						}
						c.mu.Unlock()
					})
					c.mu.Lock()
					isDead := len(c.dead) > deadBefore
					if isDead {
						c.stop = true
					}
					stop := c.stop
					c.mu.Unlock()
					if stop || last < from {
						return
					}
					from = last + 1
				}
			}
		}()
	}
	wg.Wait()
	explore := time.Since(start)

	code := 0
	violations := 0
	if len(c.bad) > 0 {
		sort.Slice(c.bad, func(i, j int) bool { return c.bad[i].I < c.bad[j].I })
		code = 1
		violations = len(c.bad)
		done := map[string]bool{}
		for _, r := range c.bad {
			if done[r.Viol.Code] || len(done) >= 3 {
				continue
			}
			done[r.Viol.Code] = true
			if !c.report(r) {
				code = 2
			}
		}
	} else if len(c.dead) > 0 {
		code = c.reportDead(c.dead[0])
		if code == 1 {
			violations = 1
		}
	}

	// determinism: the same seeds again, in other processes and other batches
	det := 0
	differ := []int{}
	if code == 0 {
		n := len(c.results)
		step := n/12 + 1
		idx := []int{}
		for i := 0; i < runs && len(idx) < 12; i += step {
			if c.results[i] != nil {
				idx = append(idx, i)
			}
		}
		var dw sync.WaitGroup
		sem := make(chan struct{}, procs)
		for _, i := range idx {
			dw.Add(1)
			go func(i int) {
				defer dw.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				c.worker(i, i+1, c.seed, func(r *RunResult) {
					c.mu.Lock()
					defer c.mu.Unlock()
					det++
					o := c.results[i]
					if o.Log != r.Log || o.Sched != r.Sched {
						differ = append(differ, i)
					}
				})
			}(i)
		}
		dw.Wait()
		// the only thing that differs is what ran before in the same process
		// (state that the code under test keeps, such as a table it fills once):
		// the same runs before it must then give the same execution again
		for _, i := range differ {
			same := false
			c.worker(c.results[i].From, i+1, c.seed, func(r *RunResult) {
				if r.I == i {
					same = c.results[i].Log == r.Log && c.results[i].Sched == r.Sched
				}
			})
			if !same {
				fmt.Printf("NONDETERMINISM property=%s run=%d\n", c.p.ID, i)
				code = 2
			}
		}
		if len(differ) > 0 && code == 0 {
			fmt.Printf("note: property=%s %d of %d repeated runs also depend on the runs before them in the same process\n", c.p.ID, len(differ), det)
		}
	}

	for i, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", c.p.ID, k.What, knownHits[i])
	}
	c.evidence(start, explore, runs, det, violations)
	return code
}

func (c *checker) fresh(file string) (string, int) {
	cmd := exec.Command(os.Args[0], "replay", "-file", file)
	b, err := cmd.CombinedOutput()
	if err == nil {
		return string(b), 0
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return string(b), ee.ExitCode()
	}
	return string(b), 2
}

// report minimises a violation, writes its replay file and confirms that the
// file reproduces it in a fresh process
func (c *checker) report(r *RunResult) bool {
	batchFrom := r.From
	h := sha256.Sum256([]byte(fmt.Sprint(r.Viol.Code, c.seed, r.I)))
	file := filepath.Join(c.verif, "replays", fmt.Sprintf("%s-%s.json", c.p.ID, hex.EncodeToString(h[:4])))
	rep := &Replay{Property: c.p.ID, Code: r.Viol.Code, Message: r.Viol.Msg, LogHash: r.Log, Seed: c.seed, Index: r.I, Tier: c.tier,
		Choices: r.Choices, Original: len(r.Choices), Faults: r.Faults}
	confirm := func() bool {
		writeReplay(file, rep)
		out, rc := c.fresh(file)
		return rc == 1 && strings.Contains(out, "REPLAY "+rep.Code+" ")
	}
	if !confirm() {
		for i := batchFrom; i < r.I; i++ {
			rep.Warmup = append(rep.Warmup, i)
		}
		if !confirm() {
			fmt.Printf("violation %s of run %d does not reproduce: %s\n", r.Viol.Code, r.I, r.Viol.Msg)
			return false
		}
	}
	orig := rep.Choices
	if b, err := exec.Command(os.Args[0], "shrink", "-file", file).CombinedOutput(); err != nil {
		fmt.Printf("minimisation failed: %v %s\n", err, b)
	}
	shrunk := readReplay(file)
	rep.Choices = shrunk.Choices
	if !confirm() {
		rep.Choices = orig
		confirm()
	}
	// final trace, from the run as it is replayed
	res := c.trace(rep, file)
	if res != nil {
		rep = res
		writeReplay(file, rep)
	}
	fmt.Printf("%s (run %d, %d choices, %d after minimisation): %s\n", rep.Code, r.I, rep.Original, len(rep.Choices), rep.Message)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.p.ID, file)
	return true
}

func (c *checker) trace(rep *Replay, file string) *Replay {
	writeReplay(file, rep)
	b, _ := exec.Command(os.Args[0], "replay", "-v", "-file", file).CombinedOutput()
	lines := strings.Split(string(b), "\n")
	out := *rep
	out.Trace = nil
	for i, l := range lines {
		if strings.HasPrefix(l, "REPLAY ") {
			var code string
			var log uint64
			if _, err := fmt.Sscanf(l, "REPLAY %s log=%d", &code, &log); err != nil || code != rep.Code {
				return nil
			}
			out.LogHash = log
			if i+1 < len(lines) {
				out.Message = lines[i+1]
			}
			return &out
		}
		out.Trace = append(out.Trace, l)
	}
	return nil
}

// reportDead handles a worker process that died or never answered
func (c *checker) reportDead(d deadRun) int {
	if d.i < 0 {
		fmt.Fprintf(os.Stderr, "worker died outside of a run: %s\n", d.reason)
		return 2
	}
	c.dead = nil
	c.worker(d.i, d.i+1, c.seed, func(r *RunResult) {})
	if len(c.dead) == 0 {
		fmt.Fprintf(os.Stderr, "worker died in run %d but not when it was repeated: %s\n", d.i, d.reason)
		return 2
	}
	file := filepath.Join(c.verif, "replays", fmt.Sprintf("%s-dead%d.json", c.p.ID, d.i))
	src := newSeedSource(runSeed(c.p, c.seed, d.i))
	choices := []uint64{}
	for i := 0; i < 20000; i++ {
		choices = append(choices, src.rng()) // the raw generator output: reduced modulo n on replay
	}
	writeReplay(file, &Replay{Property: c.p.ID, Code: c.p.ID + "/process-died", Message: d.reason, Seed: c.seed, Index: d.i, Tier: c.tier, Choices: choices})
	fmt.Printf("%s/process-died (run %d): %s\n", c.p.ID, d.i, d.reason)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.p.ID, file)
	return 1
}

func (c *checker) evidence(start time.Time, explore time.Duration, planned, det, violations int) {
	faults, counts := map[string]int64{}, map[string]int64{}
	logs, scheds, states := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	var sim, events, sw, pre int64
	withFault := 0
	var sampleIdx []int
	for i, r := range c.results {
		for k, v := range r.Faults {
			faults[k] += v
		}
		for k, v := range r.Counts {
			counts[k] += v
		}
		if r.Nontri {
			withFault++
			if !logs[r.Log] {
				sampleIdx = append(sampleIdx, i)
			}
			logs[r.Log] = true
		}
		scheds[r.Sched] = true
		for _, s := range r.States {
			states[s] = true
		}
		sim += r.Sim
		events += r.Events
		sw += r.Sw
		pre += r.Pre
	}
	sort.Ints(sampleIdx)
	samples := []interface{}{}
	for _, i := range sampleIdx {
		if len(samples) >= 3 {
			break
		}
		out, err := exec.Command(os.Args[0], "worker", "-v", "-prop", c.p.ID, "-seed", fmt.Sprint(c.seed), "-from", fmt.Sprint(i), "-to", fmt.Sprint(i+1)).Output()
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(out), "\n") {
			if strings.HasPrefix(l, "R ") {
				r := &RunResult{}
				if json.Unmarshal([]byte(l[2:]), r) == nil {
					ln := r.Lines
					if len(ln) > 25 {
						ln = ln[:25]
					}
					samples = append(samples, map[string]interface{}{"run": i, "events": r.Events, "faults": r.Faults, "trace_head": ln})
				}
			}
		}
	}
	hours := explore.Hours()
	var instr interface{}
	if b, err := os.ReadFile(c.instr); err == nil {
		_ = json.Unmarshal(b, &instr)
	}
	cov := map[string]interface{}{
		"evaluations":                    len(c.results),
		"distinct_nontrivial":            len(logs),
		"rule":                           c.p.Rule + " One evaluation is one simulated run (one seed). A run is non-trivial when at least one fault, preemption-exposed race or hostile mutation was injected in it; two runs are distinct when their event logs (every scheduling-relevant event, message, fault and verdict) hash differently.",
		"samples":                        samples,
		"simulated_runs":                 len(c.results),
		"planned_runs":                   planned,
		"seeds_per_hour":                 int64(float64(len(c.results)) / hours),
		"simulated_seconds":              float64(sim) / 1e9,
		"events":                         events,
		"task_switches":                  sw,
		"preemptions":                    pre,
		"distinct_interleavings":         len(scheds),
		"distinct_interleavings_measure": "distinct hashes of the sequence (task, source line where it was preempted) of a run",
		"distinct_states":                len(states),
		"faults_injected":                faults,
		"counts":                         counts,
		"runs_with_faults":               withFault,
		"determinism_reruns":             det,
		"real_components":                c.p.Real,
		"stub_components":                c.p.Stub,
		"instrumentation":                instr,
	}
	ev := map[string]interface{}{
		"property": c.p.ID, "tier": c.tier, "seed": c.seed, "level": c.p.Level, "coverage": cov,
		"assumptions": c.p.Assume, "wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("%s: %d runs (%d distinct non-trivial, %d interleavings, %d states), %d oracle checks, %.0f simulated s, %.1f s\n", c.p.ID, len(c.results), len(logs), len(scheds), len(states), counts["oracle_checks"], float64(sim)/1e9, time.Since(start).Seconds())
}

func stackOf() string {
	buf := make([]byte, 16<<10)
	return string(buf[:runtime.Stack(buf, false)])
}
