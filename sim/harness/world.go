//go:build go1.23

package main

import (
	"container/heap"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	mathrand "math/rand"
	"os"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/steve-care-software/steve/verifsim/simrt"
)

// Violation is a broken property
type Violation struct {
	Code string `json:"code"`
	Msg  string `json:"msg"`
}

type stopRun struct{}

type event struct {
	at  int64
	seq int64
	fn  func()
}

type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x interface{}) { *h = append(*h, x.(*event)) }
func (h *eventHeap) Pop() interface{} {
	old := *h
	x := old[len(old)-1]
	*h = old[:len(old)-1]
	return x
}

// W is one simulated world: one run, one seed
type W struct {
	*Source
	S    *simrt.Sched
	Prop string

	now   int64 // virtual nanoseconds since the start of the run
	q     eventHeap
	seq   int64
	nodes []*Node

	lines   []string
	verbose bool
	logH    uint64
	events  int64
	schedH  uint64

	viol   *Violation
	faults map[string]int64
	counts map[string]int64
	states map[uint64]bool
	nontri bool

	meanQ    float64
	costNs   int64
	net      Net
	harness  *Node
	atomic   bool
	budget   int64
	panicOK  func(t *simrt.Task) bool
	readHook func(n *Node, path string) ([]byte, error)
	statHook func(n *Node, path string) (int64, time.Time, error)
}

// Node is a simulated machine
type Node struct {
	w    *W
	ID   int
	Name string
	Up   bool
	Gen  int
	// Disk survives crashes
	Disk map[string][]byte
	// clock
	wallBase  time.Time
	wallShift time.Duration // jumps
	drift     int64         // parts per million
	stalled   int64
	// entropy
	entSeed  uint64
	entPos   uint64
	entRewd  []uint64
	EntErr   int // permille of failing reads
	EntShort int // permille of short reads
	// EntDead makes every read fail
	EntDead bool
	// EntLost tells that a read failed at least once
	EntLost bool
	EntUsed int64
	mapSeed uint64
	mapN    uint64
	math    *mathrand.Rand
	group   int // partition group
	inbox   int
}

// Net is the fault profile of the network
type Net struct {
	Drop, Dup, Corrupt, Trunc, Splice int // permille
	MaxDelay                          int64
	last                              [][]byte
}

const runEpoch = 1700000000

func newWorld(src *Source, prop string, verbose bool) *W {
	simrt.HashSink = nil
	w := &W{Source: src, Prop: prop, verbose: verbose, faults: map[string]int64{}, counts: map[string]int64{}, states: map[uint64]bool{}}
	w.logH = 14695981039346656037
	w.schedH = 14695981039346656037
	w.budget = 20_000_000
	w.S = simrt.NewSched(w.budget)
	w.costNs = 1000
	w.meanQ = 1e9
	w.harness = &Node{w: w, ID: -1, Name: "harness", Up: true, Disk: map[string][]byte{}, wallBase: time.Unix(runEpoch, 0).UTC(), entSeed: 77}
	simrt.Install(simrt.Hooks{
		Entropy: func(p []byte) (int, error) { return w.curNode().entropy(p) },
		ReadFile: func(path string) ([]byte, error) {
			if w.readHook != nil {
				return w.readHook(w.curNode(), path)
			}
			return os.ReadFile(path)
		},
		Stat: func(path string) (int64, time.Time, error) {
			if w.statHook != nil {
				return w.statHook(w.curNode(), path)
			}
			i, err := os.Stat(path)
			if err != nil {
				return 0, time.Time{}, err
			}
			return i.Size(), i.ModTime(), nil
		},
		Short: func(n int) int {
			if !w.Chance(300) {
				return n
			}
			w.Fault("partial_read")
			return w.Range(1, min(n, 300))
		},
		Now:   func() time.Time { return w.curNode().Now() },
		Sleep: func(d time.Duration) { w.SleepFor(d) },
		MapSeed: func() uint64 {
			n := w.curNode()
			if n.mapSeed == 0 {
				return 0
			}
			n.mapN++
			w.faults["map_order_permuted"]++
			return n.mapSeed*0x9e3779b97f4a7c15 + n.mapN
		},
		Math: nil,
	})
	return w
}

// Schedule draws the scheduling profile of the run
func (w *W) Schedule() {
	w.meanQ = w.Log(1e5)
	w.costNs = int64(w.Log(1e5))
}

// ScheduleFine is Schedule for code that executes few statements per operation:
// preemptions are close to each other in most of the runs
func (w *W) ScheduleFine() {
	w.Schedule()
	if w.Chance(650) {
		w.meanQ = w.Log(30)
	}
}

// instants returns a source of moments of the next max milliseconds; in half
// of the runs they come in bursts, so that the requests overlap
func (w *W) instants(max int) func() time.Duration {
	at := []int{}
	if w.Chance(550) {
		for i := w.Int(3); i >= 0; i-- {
			at = append(at, w.Int(max))
		}
	}
	return func() time.Duration {
		if len(at) > 0 && w.Chance(850) {
			return time.Duration(pick(w.Source, at...)) * time.Millisecond
		}
		return time.Duration(w.Int(max)) * time.Millisecond
	}
}

func (w *W) curNode() *Node {
	if t := simrt.Current(); t != nil {
		if n, ok := t.Tag.(*Node); ok && n != nil {
			return n
		}
	}
	return w.harness
}

func mix(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	h ^= 0xff
	h *= 1099511628211
	return h
}

// Logf appends to the event log of the run
func (w *W) Logf(f string, a ...interface{}) {
	line := fmt.Sprintf("%12dus ", w.now/1000) + fmt.Sprintf(f, a...)
	w.logH = mix(w.logH, line)
	w.events++
	if w.verbose && len(w.lines) < 4000 {
		w.lines = append(w.lines, line)
	}
}

// Fault counts an injected fault
func (w *W) Fault(kind string) { w.faults[kind]++; w.nontri = true }

// Count counts something
func (w *W) Count(kind string) { w.counts[kind]++ }

// State records a reached state
func (w *W) State(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	w.states[h.Sum64()] = true
}

// Fail reports a violation and ends the run
func (w *W) Fail(code, f string, a ...interface{}) {
	if w.viol == nil {
		w.viol = &Violation{Code: w.Prop + "/" + code, Msg: fmt.Sprintf(f, a...)}
		w.Logf("VIOLATION %s: %s", w.viol.Code, w.viol.Msg)
	}
	panic(stopRun{})
}

// Check fails when cond does not hold
func (w *W) Check(cond bool, code, f string, a ...interface{}) {
	w.counts["oracle_checks"]++
	if !cond {
		w.Fail(code, f, a...)
	}
}

// AddNode adds a machine
func (w *W) AddNode(name string) *Node {
	n := &Node{w: w, ID: len(w.nodes), Name: name, Up: true, Disk: map[string][]byte{}, wallBase: time.Unix(runEpoch, 0).UTC()}
	n.entSeed = w.Draw(1<<32) + uint64(n.ID+1)<<40
	n.math = mathrand.New(mathrand.NewSource(int64(n.entSeed)))
	w.nodes = append(w.nodes, n)
	return n
}

// Skew gives the node its own wall clock
func (n *Node) Skew() {
	w := n.w
	if w.Chance(600) {
		n.wallShift = time.Duration(w.Range(-7200, 7200)) * time.Second
		n.wallShift += time.Duration(w.Int(1000)) * time.Millisecond
		w.Fault("clock_skew")
	}
	if w.Chance(300) {
		n.drift = int64(w.Range(-500, 500))
		w.Fault("clock_drift")
	}
}

// Jump makes the wall clock of the node jump; its monotonic clock does not
func (n *Node) Jump(d time.Duration) {
	n.wallShift += d
	n.w.Fault("clock_jump")
	n.w.Logf("%s: clock jumps by %s", n.Name, d)
}

// Mono is the node's monotonic clock
func (n *Node) Mono() int64 { return n.w.now + 1_000_000_000 }

// Now is the node's wall clock, with a monotonic reading like the real time.Now
func (n *Node) Now() time.Time {
	d := time.Duration(n.w.now + n.w.now/1_000_000*n.drift)
	return withMono(n.wallBase.Add(d+n.wallShift), n.Mono())
}

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// withMono attaches a monotonic reading to t
func withMono(t time.Time, mono int64) time.Time {
	const wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	sec := t.Unix() + unixToInternal - wallToInternal
	r := rawTime{wall: 1<<63 | uint64(sec)<<30 | uint64(t.Nanosecond()), ext: mono, loc: time.Local}
	return *(*time.Time)(unsafe.Pointer(&r))
}

func checkTimeLayout() error {
	a := withMono(time.Unix(runEpoch, 5).UTC(), 1000)
	b := withMono(time.Unix(runEpoch-50, 5).UTC(), 3000)
	if b.Sub(a) != 2000 || a.Round(0).Unix() != runEpoch || b.Round(0).Sub(a.Round(0)) != -50*time.Second || !a.Before(b) {
		return errors.New("unexpected layout of time.Time")
	}
	return nil
}

func (n *Node) entropy(p []byte) (int, error) {
	w := n.w
	if n.EntDead {
		w.Fault("entropy_dead")
		n.EntLost = true
		return 0, errors.New("simulated entropy source is gone")
	}
	if n.EntErr > 0 && w.Chance(n.EntErr) {
		w.Fault("entropy_error")
		n.EntLost = true
		return 0, errors.New("simulated entropy failure")
	}
	k := len(p)
	if n.EntShort > 0 && k > 1 && w.Chance(n.EntShort) {
		w.Fault("entropy_short_read")
		k = 1 + w.Int(k-1)
	}
	for i := 0; i < k; i++ {
		v := simrt.Splitmix(n.entSeed ^ (n.entPos/8)*0xd1342543de82ef95)()
		p[i] = byte(v >> (8 * (n.entPos % 8)))
		n.entPos++
	}
	n.EntUsed += int64(k)
	return k, nil
}

// Go starts a task on a node
func (w *W) Go(n *Node, name string, fn func()) *simrt.Task {
	w.Logf("%s: start %s", n.Name, name)
	t := w.S.Spawn(name, n, fn, nil)
	t.Budget = w.budget
	return t
}

// After schedules harness code at a later virtual time
func (w *W) After(d time.Duration, fn func()) {
	w.seq++
	heap.Push(&w.q, &event{at: w.now + int64(d), seq: w.seq, fn: fn})
}

// SleepFor suspends the current task for a virtual duration
func (w *W) SleepFor(d time.Duration) {
	if simrt.Current() == nil {
		w.now += int64(d)
		return
	}
	done := false
	w.After(d, func() { done = true })
	simrt.Wait(func() bool { return done })
}

// WaitFor suspends the current task until cond holds
func (w *W) WaitFor(cond func() bool) { simrt.Wait(cond) }

// Loop runs the world until nothing is left to do
func (w *W) Loop() {
	for w.viol == nil {
		if len(w.q) > 0 && w.q[0].at <= w.now {
			w.fire()
			continue
		}
		run := w.runnable()
		if len(run) == 0 {
			if len(w.q) == 0 {
				break
			}
			w.now = w.q[0].at
			continue
		}
		t := run[0]
		if len(run) > 1 {
			t = run[w.Int(len(run))]
		}
		w.step(t)
	}
	if w.viol != nil {
		panic(stopRun{})
	}
}

func (w *W) runnable() []*simrt.Task {
	run := w.S.Runnable()
	out := run[:0]
	for _, t := range run {
		if n, ok := t.Tag.(*Node); ok && n.stalled > w.now {
			continue
		}
		out = append(out, t)
	}
	return out
}

func (w *W) fire() {
	e := heap.Pop(&w.q).(*event)
	e.fn()
}

func (w *W) step(t *simrt.Task) {
	quantum := int64(math.MaxInt64 / 2)
	if w.meanQ < 1e8 {
		if v := w.Draw(1 << 20); v != 0 {
			quantum = 1 + int64((v-1)%uint64(2*w.meanQ))
		}
	}
	before := t.Steps
	if n, ok := t.Tag.(*Node); ok && n.math != nil {
		hk := n.math
		simrt.SetMath(hk)
	}
	w.S.Step(t, quantum)
	w.now += (t.Steps - before) * w.costNs
	w.schedH = mix(w.schedH, fmt.Sprintf("%d@%s", t.ID, t.Where))
	if t.Done {
		w.ended(t)
	}
}

func (w *W) ended(t *simrt.Task) {
	if t.Panic == nil {
		return
	}
	if _, ok := t.Panic.(stopRun); ok {
		return
	}
	if w.panicOK != nil && w.panicOK(t) {
		return
	}
	if b, ok := t.Panic.(simrt.BudgetExceeded); ok {
		w.viol = &Violation{Code: w.Prop + "/hang:" + t.Name, Msg: fmt.Sprintf("%s does not end: %s (at %s)", t.Name, b.Error(), t.Where)}
	} else {
		w.viol = &Violation{Code: w.Prop + "/panic:" + t.Name, Msg: fmt.Sprintf("%s panics: %v\n%s", t.Name, t.Panic, trimStack(t.Stack))}
	}
	w.Logf("VIOLATION %s", w.viol.Code)
}

func trimStack(s string) string {
	out := []string{}
	for _, l := range strings.Split(s, "\n") {
		const mod = "github.com/steve-care-software/steve/"
		if strings.HasPrefix(l, mod) && !strings.Contains(l, "/verifsim/") {
			l = strings.TrimPrefix(l, mod)
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, " < ")
}

// Afford calls fn and tells whether the budget of the task was enough for it
func (w *W) Afford(fn func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(simrt.BudgetExceeded); !is {
				panic(r)
			}
			ok = false
		}
	}()
	fn()
	return true
}

// Try runs fn in the current task and returns what it panicked with (the end
// of a run and of a step budget go through)
func (w *W) Try(fn func()) (pan interface{}) {
	defer func() {
		r := recover()
		switch r.(type) {
		case nil:
			return
		case stopRun, simrt.BudgetExceeded:
			panic(r)
		}
		if simrt.IsKill(r) {
			panic(r)
		}
		pan = r
	}()
	fn()
	return nil
}

// Crash kills a node: its tasks vanish, its disk stays
func (w *W) Crash(n *Node) {
	n.Up = false
	n.Gen++
	w.Fault("crash")
	for _, t := range append([]*simrt.Task{}, w.S.Tasks...) {
		if t.Tag == n && !t.Done {
			w.Logf("%s: crash kills %s at %s", n.Name, t.Name, t.Where)
			w.S.Kill(t)
		}
	}
	w.Logf("%s: crashed", n.Name)
}

// Restart brings a node back
func (w *W) Restart(n *Node) {
	n.Up = true
	w.Logf("%s: restarted", n.Name)
}

// DrawNet draws the fault profile of the network
func (w *W) DrawNet() {
	w.net.MaxDelay = int64(pick(w.Source, 0, 1, 10, 100, 1000)) * 1_000_000
	for _, f := range []*int{&w.net.Drop, &w.net.Dup, &w.net.Corrupt, &w.net.Trunc, &w.net.Splice} {
		if w.Chance(450) {
			*f = w.Range(10, 350)
		}
	}
}

// Send sends bytes to another node: they are lost, duplicated, delayed (hence
// reordered), truncated, corrupted or mixed with an earlier message.
func (w *W) Send(from, to *Node, kind string, payload []byte, handler func(payload []byte)) {
	w.Count("msg_sent")
	if from != nil && from.group != to.group {
		w.Fault("msg_partitioned")
		w.Logf("%s>%s: %s cut by the partition", from.Name, to.Name, kind)
		return
	}
	if w.Chance(w.net.Drop) {
		w.Fault("msg_drop")
		w.Logf(">%s: %s dropped", to.Name, kind)
		return
	}
	copies := 1
	if w.Chance(w.net.Dup) {
		w.Fault("msg_dup")
		copies = 2
	}
	for i := 0; i < copies; i++ {
		p := append([]byte{}, payload...)
		if w.Chance(w.net.Corrupt) {
			w.Fault("msg_corrupt")
			p = w.corrupt(p)
		}
		if w.Chance(w.net.Trunc) && len(p) > 0 {
			w.Fault("msg_truncate")
			p = p[:w.Int(len(p))]
		}
		if w.Chance(w.net.Splice) && len(w.net.last) > 0 {
			w.Fault("msg_splice")
			o := w.net.last[w.Int(len(w.net.last))]
			if len(o) > 0 && len(p) > 0 {
				p = append(append([]byte{}, p[:w.Int(len(p))]...), o[w.Int(len(o)):]...)
			}
		}
		d := time.Duration(0)
		if w.net.MaxDelay > 0 {
			d = time.Duration(w.Draw(uint64(w.net.MaxDelay)))
		}
		w.After(d, func() {
			if !to.Up {
				w.Fault("msg_to_crashed_node")
				return
			}
			w.Logf("%s: receives %s (%d bytes, %08x)", to.Name, kind, len(p), uint32(mix(14695981039346656037, string(p))))
			w.Go(to, kind, func() { handler(p) })
		})
	}
	if len(w.net.last) < 8 {
		w.net.last = append(w.net.last, payload)
	} else {
		w.net.last[w.Int(8)] = payload
	}
}

func (w *W) corrupt(p []byte) []byte {
	if len(p) == 0 {
		return w.Bytes(1)
	}
	n := 1 + w.Int(3)
	for i := 0; i < n && len(p) > 0; i++ {
		at := w.Int(len(p))
		switch w.Int(5) {
		case 0:
			p[at] ^= 1 << w.Int(8)
		case 1:
			p[at] = byte(w.Int(256))
		case 2:
			p = append(p[:at], p[at+1:]...)
		case 3:
			p = append(p[:at], append([]byte{byte(w.Int(256))}, p[at:]...)...)
		case 4: // move a byte
			b := p[at]
			p = append(p[:at], p[at+1:]...)
			to := w.Int(len(p) + 1)
			p = append(p[:to], append([]byte{b}, p[to:]...)...)
		}
	}
	return p
}

// Partition cuts the nodes into two groups and heals after d
func (w *W) Partition(d time.Duration) {
	w.Fault("partition")
	for _, n := range w.nodes {
		n.group = w.Int(2)
	}
	w.Logf("partition")
	w.After(d, func() {
		for _, n := range w.nodes {
			n.group = 0
		}
		w.Logf("partition healed")
	})
}

// Stall stops the tasks of a node for d
func (w *W) Stall(n *Node, d time.Duration) {
	w.Fault("stall")
	n.stalled = w.now + int64(d)
	w.After(d, func() {})
	w.Logf("%s: stalls for %s", n.Name, d)
}

// run runs a property's world to its end and fills w
func (w *W) run(p *Property) {
	defer func() {
		r := recover()
		if _, ok := r.(stopRun); !ok && r != nil {
			if w.viol == nil {
				buf := stackOf()
				w.viol = &Violation{Code: w.Prop + "/panic:world", Msg: fmt.Sprintf("%v\n%s", r, trimStack(buf))}
			}
		}
		w.S.Close()
	}()
	p.Run(w)
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
