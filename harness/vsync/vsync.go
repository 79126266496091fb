// Package zzvsync stands in for package sync in copies of the concurrent code
// under test, so that every interleaving of its synchronisation operations can
// be chosen by an explorer. One thread runs at a time; it gives up control at
// scheduling points only. With the race detector compiled in, the hand-over of
// control between threads is invisible to the detector, while the operations
// of the stand-ins report the happens-before edges of the real ones. A data
// race is then found on every explored schedule that contains one.
package zzvsync

import (
	"fmt"
	"runtime/debug"
	"sync"
	"unsafe"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
	Map    = sync.Map
)

type thread struct {
	id     int
	resume chan struct{}
	done   bool
	wait   kind // what it waits for
	on     unsafe.Pointer
	ticket int
}

type kind int

const (
	nothing kind = iota
	mutexFree
	rwFree
	rwNoWriter
	groupZero
	condServed
)

// canRun evaluates what the thread waits for. (No closures: those would be seen by the race detector.)
//
//go:norace
func (t *thread) canRun() bool {
	switch t.wait {
	case mutexFree:
		return !(*Mutex)(t.on).locked
	case rwFree:
		m := (*RWMutex)(t.on)
		return !m.writer && m.readers == 0
	case rwNoWriter:
		return !(*RWMutex)(t.on).writer
	case groupZero:
		return (*WaitGroup)(t.on).n == 0
	case condServed:
		return t.ticket < (*Cond)(t.on).served
	}
	return true
}

// Sched is one controlled execution.
type Sched struct {
	threads []*thread
	cur     *thread
	choices []int // prefix to follow
	at      int
	// Trace of the execution: what was chosen, out of how many, and the cost of each alternative.
	Taken  []int
	Degree []int
	// Preempt[i] is true if choices other than 0 preempt a thread that could go on.
	Preempt []bool
	Steps   int
	Err     string
	end     chan struct{}
}

var (
	active *Sched
	// Progress counts scheduling points of all executions.
	Progress int64
)

// Run executes f under the schedule given by choices, then by default choices.
//
//go:norace
func Run(choices []int, f func()) *Sched {
	s := &Sched{choices: choices, end: make(chan struct{}, 1)}
	active = s
	s.spawn(f)
	s.cur = s.threads[0]
	raceDisable()
	s.threads[0].resume <- struct{}{}
	<-s.end
	raceEnable()
	raceAcquire(unsafe.Pointer(s))
	active = nil
	return s
}

//go:norace
func (s *Sched) spawn(f func()) {
	t := &thread{id: len(s.threads), resume: make(chan struct{}, 1)}
	s.threads = append(s.threads, t)
	go s.body(t, f)
}

//go:norace
func (s *Sched) body(t *thread, f func()) {
	raceDisable()
	<-t.resume
	raceEnable()
	defer s.exit(t)
	f()
}

//go:norace
func (s *Sched) exit(t *thread) {
	if a := recover(); a != nil {
		s.fail(fmt.Sprintf("panic: %v\n%s", a, debug.Stack()))
		return
	}
	t.done = true
	raceReleaseMerge(unsafe.Pointer(s)) // the explorer comes after all threads
	s.pick(t)
}

//go:norace
func (s *Sched) fail(msg string) {
	if s.Err == "" {
		s.Err = msg
	}
	raceDisable()
	s.end <- struct{}{}
	raceEnable()
}

// pick chooses the next thread to run and hands over to it.
//
//go:norace
func (s *Sched) pick(t *thread) {
	var enabled [16]*thread
	n := 0
	if !t.done && t.canRun() {
		enabled[0] = t
		n = 1
	}
	preempt := n == 1
	for _, x := range s.threads {
		if x != t && !x.done && n < len(enabled) && x.canRun() {
			enabled[n] = x
			n++
		}
	}
	if n == 0 {
		for _, x := range s.threads {
			if !x.done {
				s.fail("deadlock: a thread waits for ever")
				if !t.done {
					select {}
				}
				return
			}
		}
		raceDisable()
		s.end <- struct{}{}
		raceEnable()
		return
	}
	c := 0
	if n > 1 {
		if s.at < len(s.choices) {
			c = s.choices[s.at]
			s.at++
		}
		if c >= n {
			s.fail(fmt.Sprintf("schedule is not reproducible: choice %d of %d", c, n))
			select {}
		}
		s.Taken = append(s.Taken, c)
		s.Degree = append(s.Degree, n)
		s.Preempt = append(s.Preempt, preempt)
	}
	next := enabled[c]
	next.wait = nothing
	s.cur = next
	s.Steps++
	Progress++
	if s.Steps > 5_000_000 {
		s.fail("no end of the execution after 5000000 steps")
		select {}
	}
	if next == t {
		return
	}
	raceDisable()
	next.resume <- struct{}{}
	if !t.done {
		<-t.resume
	}
	raceEnable()
}

// Yield is a scheduling point.
//
//go:norace
func Yield() {
	if s := active; s != nil {
		s.pick(s.cur)
	}
}

//go:norace
func wait(k kind, on unsafe.Pointer) {
	s := active
	s.cur.wait, s.cur.on = k, on
	s.pick(s.cur)
}

// Go starts f as a thread.
//
//go:norace
func Go(f func()) {
	s := active
	if s == nil {
		go f()
		return
	}
	s.spawn(f)
	s.pick(s.cur)
}

// Mutex stands in for sync.Mutex.
type Mutex struct {
	real   sync.Mutex
	locked bool
}

//go:norace
func (m *Mutex) Lock() {
	if active == nil {
		m.real.Lock()
		return
	}
	wait(mutexFree, unsafe.Pointer(m))
	m.locked = true
	raceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if active == nil {
		return m.real.TryLock()
	}
	Yield()
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if active == nil {
		m.real.Unlock()
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.locked = false
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	real    sync.RWMutex
	writer  bool
	readers int
}

//go:norace
func (m *RWMutex) Lock() {
	if active == nil {
		m.real.Lock()
		return
	}
	wait(rwFree, unsafe.Pointer(m))
	m.writer = true
	raceAcquire(unsafe.Pointer(&m.writer))
	raceAcquire(unsafe.Pointer(&m.readers))
}

//go:norace
func (m *RWMutex) Unlock() {
	if active == nil {
		m.real.Unlock()
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.writer))
	m.writer = false
}

//go:norace
func (m *RWMutex) RLock() {
	if active == nil {
		m.real.RLock()
		return
	}
	wait(rwNoWriter, unsafe.Pointer(m))
	m.readers++
	raceAcquire(unsafe.Pointer(&m.writer))
}

//go:norace
func (m *RWMutex) RUnlock() {
	if active == nil {
		m.real.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.readers))
	m.readers--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

//go:norace
func (w *WaitGroup) Add(n int) {
	if active == nil {
		w.real.Add(n)
		return
	}
	if n < 0 {
		raceReleaseMerge(unsafe.Pointer(w))
	}
	w.n += n
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if n < 0 {
		Yield()
	}
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if active == nil {
		w.real.Wait()
		return
	}
	wait(groupZero, unsafe.Pointer(w))
	raceAcquire(unsafe.Pointer(w))
}

//go:norace
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond stands in for sync.Cond.
type Cond struct {
	L       Locker
	tickets int // waiters so far
	served  int // waiters up to this ticket may go
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	if active == nil {
		panic("zzvsync: Cond outside of a controlled execution")
	}
	my := c.tickets
	c.tickets++
	c.L.Unlock()
	active.cur.ticket = my
	wait(condServed, unsafe.Pointer(c))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if c.served < c.tickets {
		c.served++
	}
	Yield()
}

//go:norace
func (c *Cond) Broadcast() {
	c.served = c.tickets
	Yield()
}
