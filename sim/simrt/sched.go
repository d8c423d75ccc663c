//go:build go1.23

// Package simrt is the simulator runtime that the instrumented copy of the
// repository calls into. Exactly one simulated task runs at any moment; which
// one, and for how many steps, is decided by the simulation's choice source.
package simrt

import (
	"fmt"
	"math"
	"path/filepath"
	"runtime"
	"strings"
)

// fuel is the number of yield points left before control goes back to the
// scheduler. Outside a simulation it never runs out.
var fuel int64 = math.MaxInt64

// active is the running scheduler, nil outside a simulation
var active *Sched

// Y is the yield point the instrumenter inserts before every statement.
func Y() {
	fuel--
	if fuel <= 0 {
		slow()
	}
}

// BudgetExceeded is panicked inside a task that used up its step budget
type BudgetExceeded struct{ Steps int64 }

// Error returns the message
func (b BudgetExceeded) Error() string {
	return fmt.Sprintf("step budget exceeded after %d steps", b.Steps)
}

type killed struct{}

// Task is one simulated thread
type Task struct {
	ID     int
	Name   string
	Tag    interface{} // harness data (node, ...)
	Parent *Task
	Steps  int64
	Budget int64
	Done   bool
	Panic  interface{} // recovered panic value
	Stack  string
	Where  string

	resume  chan struct{}
	wait    func() bool
	quantum int64
	kill    bool
	fn      func()
	onExit  func()
}

// Sched schedules tasks cooperatively
type Sched struct {
	Tasks    []*Task
	Cur      *Task
	Switches int64
	Preempts int64 // switches away from an unfinished task
	back     chan struct{}
	nextID   int
	// DefaultBudget is the budget for spawned tasks
	DefaultBudget int64
	direct        int64
	directQ       int64
}

// NewSched creates a scheduler and makes it the active one
func NewSched(budget int64) *Sched {
	s := &Sched{back: make(chan struct{}), DefaultBudget: budget}
	active = s
	fuel = math.MaxInt64
	return s
}

// Close ends the simulation: unfinished tasks are unwound
func (s *Sched) Close() {
	for _, t := range s.Tasks {
		if !t.Done {
			t.kill = true
			s.step(t, math.MaxInt64)
		}
	}
	active = nil
	fuel = math.MaxInt64
}

// Spawn creates a task
func (s *Sched) Spawn(name string, tag interface{}, fn func(), onExit func()) *Task {
	s.nextID++
	t := &Task{ID: s.nextID, Name: name, Tag: tag, Budget: s.DefaultBudget, resume: make(chan struct{}), fn: fn, onExit: onExit, Parent: s.Cur}
	if t.Parent != nil && tag == nil {
		t.Tag = t.Parent.Tag
	}
	s.Tasks = append(s.Tasks, t)
	go t.main(s)
	return t
}

func (t *Task) main(s *Sched) {
	<-t.resume
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(killed); !ok {
				t.Panic = r
				buf := make([]byte, 16<<10)
				t.Stack = string(buf[:runtime.Stack(buf, false)])
			}
		}
		t.Done = true
		t.settle()
		fuel = math.MaxInt64
		s.back <- struct{}{}
	}()
	if t.kill {
		panic(killed{})
	}
	t.fn()
}

// Runnable returns the tasks that can run now, in creation order
func (s *Sched) Runnable() []*Task {
	out := []*Task{}
	for _, t := range s.Tasks {
		if t.Done {
			continue
		}
		if t.wait != nil && !t.wait() {
			continue
		}
		out = append(out, t)
	}
	return out
}

// Pending returns the amount of unfinished tasks
func (s *Sched) Pending() int {
	n := 0
	for _, t := range s.Tasks {
		if !t.Done {
			n++
		}
	}
	return n
}

// Step runs one task for at most quantum yield points
func (s *Sched) Step(t *Task, quantum int64) {
	if quantum < 1 {
		quantum = 1
	}
	left := t.Budget - t.Steps + 1
	if quantum > left {
		quantum = left
	}
	s.step(t, quantum)
	if !t.Done {
		s.Preempts++
	}
	// forget finished tasks
	if t.Done {
		keep := s.Tasks[:0]
		for _, o := range s.Tasks {
			if o != t {
				keep = append(keep, o)
			}
		}
		s.Tasks = keep
		if t.onExit != nil {
			t.onExit()
		}
	}
}

func (s *Sched) step(t *Task, quantum int64) {
	s.Switches++
	t.wait = nil
	t.quantum = quantum
	s.Cur = t
	fuel = quantum
	t.resume <- struct{}{}
	<-s.back
	s.Cur = nil
	fuel = math.MaxInt64
}

// settle adds the yield points passed since the last call to the task's steps
func (t *Task) settle() {
	t.Steps += t.quantum - fuel
	t.quantum = fuel
}

func slow() {
	s := active
	if s == nil {
		fuel = math.MaxInt64
		return
	}
	t := s.Cur
	if t == nil {
		if s.directQ > 0 {
			fuel = math.MaxInt64
			panic(BudgetExceeded{s.directQ})
		}
		fuel = math.MaxInt64
		return
	}
	t.settle()
	if t.Steps > t.Budget {
		t.quantum, fuel = math.MaxInt64, math.MaxInt64
		panic(BudgetExceeded{t.Steps})
	}
	_, file, line, ok := runtime.Caller(2)
	if ok {
		t.Where = short(file) + fmt.Sprintf(":%d", line)
	}
	s.park(t)
}

func short(file string) string {
	if i := strings.Index(file, "/domain/"); i >= 0 {
		return file[i+1:]
	}
	if i := strings.Index(file, "/applications/"); i >= 0 {
		return file[i+1:]
	}
	return filepath.Base(file)
}

func (s *Sched) park(t *Task) {
	s.back <- struct{}{}
	<-t.resume
	if t.kill {
		panic(killed{})
	}
}

// Wait blocks the current task until cond holds. Outside a task it panics when
// cond does not hold, as nothing could ever make it hold.
func Wait(cond func() bool) {
	if cond() {
		return
	}
	s := active
	if s == nil || s.Cur == nil {
		panic("simrt: blocked forever outside of a simulated task")
	}
	t := s.Cur
	for !cond() {
		if t.kill {
			panic(killed{})
		}
		t.settle()
		t.wait = cond
		t.Where = "blocked"
		s.park(t)
	}
}

// Direct runs fn on the scheduler's own goroutine, without preemption, with a
// step budget. It returns the recovered panic, if any.
func (s *Sched) Direct(budget int64, fn func()) (pan interface{}) {
	saved, savedQ := fuel, s.directQ
	s.directQ = budget
	fuel = budget
	defer func() {
		pan = recover()
		fuel = saved
		s.directQ = savedQ
	}()
	fn()
	return nil
}

// Go replaces the go statement
func Go(fn func()) {
	s := active
	if s == nil {
		go fn()
		return
	}
	s.Spawn("go", nil, fn, nil)
}

// Gosched replaces runtime.Gosched
func Gosched() {
	s := active
	if s == nil || s.Cur == nil {
		runtime.Gosched()
		return
	}
	t := s.Cur
	t.settle()
	s.park(t)
}

// Current returns the running task, nil outside of one
func Current() *Task {
	if active == nil {
		return nil
	}
	return active.Cur
}

// IsKill tells whether a recovered value is the unwinding of a killed task
func IsKill(r interface{}) bool {
	_, ok := r.(killed)
	return ok
}

// Kill unwinds a task at the point where it is parked
func (s *Sched) Kill(t *Task) {
	if t.Done || t == s.Cur {
		return
	}
	t.kill = true
	s.Step(t, math.MaxInt64/2)
}
