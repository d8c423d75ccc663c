//go:build go1.23

// Package simsync stands in for package sync inside a simulation: blocking
// parks the simulated task instead of the operating system thread.
package simsync

import (
	realsync "sync"

	"github.com/steve-care-software/steve/verifsim/simrt"
)

// Locker is sync.Locker
type Locker = realsync.Locker

// Map is sync.Map (it never blocks)
type Map = realsync.Map

// Mutex is a cooperative mutex
type Mutex struct{ held bool }

// Lock locks
func (m *Mutex) Lock() {
	simrt.Y()
	simrt.Wait(func() bool { return !m.held })
	m.held = true
}

// TryLock tries to lock
func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

// Unlock unlocks
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	simrt.Y()
}

// RWMutex is a cooperative read-write mutex
type RWMutex struct {
	writer  bool
	readers int
}

// Lock locks for writing
func (m *RWMutex) Lock() {
	simrt.Y()
	simrt.Wait(func() bool { return !m.writer && m.readers == 0 })
	m.writer = true
}

// Unlock unlocks for writing
func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	simrt.Y()
}

// RLock locks for reading
func (m *RWMutex) RLock() {
	simrt.Y()
	simrt.Wait(func() bool { return !m.writer })
	m.readers++
}

// RUnlock unlocks for reading
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	simrt.Y()
}

// TryLock tries to lock
func (m *RWMutex) TryLock() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

// TryRLock tries to lock for reading
func (m *RWMutex) TryRLock() bool {
	if m.writer {
		return false
	}
	m.readers++
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns a Locker for reading
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is a cooperative wait group
type WaitGroup struct{ n int }

// Add adds
func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1)
func (w *WaitGroup) Done() { w.Add(-1); simrt.Y() }

// Wait waits
func (w *WaitGroup) Wait() { simrt.Wait(func() bool { return w.n == 0 }) }

// Go runs f
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

// Once is a cooperative sync.Once
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once
func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc
func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue
func OnceValue[T any](f func() T) func() T {
	o := &Once{}
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	o := &Once{}
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool is a deterministic sync.Pool: last in, first out
type Pool struct {
	New  func() interface{}
	list []interface{}
}

// Get gets
func (p *Pool) Get() interface{} {
	simrt.Y()
	if n := len(p.list); n > 0 {
		x := p.list[n-1]
		p.list = p.list[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put puts
func (p *Pool) Put(x interface{}) {
	if x != nil {
		p.list = append(p.list, x)
	}
	simrt.Y()
}

// Cond is a cooperative condition variable
type Cond struct {
	L       Locker
	gen     int
	waiters []*bool
}

// NewCond creates a Cond
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits
func (c *Cond) Wait() {
	woken := false
	c.waiters = append(c.waiters, &woken)
	c.L.Unlock()
	simrt.Wait(func() bool { return woken })
	c.L.Lock()
}

// Signal wakes one
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}

// Broadcast wakes all
func (c *Cond) Broadcast() {
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
}
