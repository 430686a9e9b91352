// Package simsync replaces package sync in the code under test. Its blocking
// primitives are made of channels, so that a blocked goroutine counts as idle
// in the simulator and the simulator decides who acquires a contended lock.
package simsync

import (
	"sync"
	"sync/atomic"

	"verifnode/simrt"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
	Map    = sync.Map
)

// waitq is a list of waiters. All waiters are woken; the scheduler decides
// which of them gets there first.
type waitq struct{ ch chan struct{} }

func (q *waitq) wait() {
	if q.ch == nil {
		q.ch = make(chan struct{})
	}
	<-q.ch
	simrt.Y()
}

func (q *waitq) wake() {
	if q.ch != nil {
		c := q.ch
		q.ch = nil
		simrt.F()
		close(c)
		simrt.Y()
	}
}

type Mutex struct {
	locked bool
	q      waitq
}

func (m *Mutex) Lock() {
	simrt.Y()
	for m.locked {
		m.q.wait()
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	simrt.Y()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.q.wake()
}

type RWMutex struct {
	w       bool
	r       int
	pending int
	q       waitq
}

func (m *RWMutex) Lock() {
	simrt.Y()
	m.pending++
	for m.w || m.r > 0 {
		m.q.wait()
	}
	m.pending--
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	simrt.Y()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.q.wake()
}

func (m *RWMutex) RLock() {
	simrt.Y()
	for m.w || m.pending > 0 {
		m.q.wait()
	}
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	simrt.Y()
	if m.w || m.pending > 0 {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.q.wake()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct {
	n int
	q waitq
}

func (wg *WaitGroup) Add(d int) {
	simrt.Y()
	wg.n += d
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 {
		wg.q.wake()
	}
}

func (wg *WaitGroup) Done() { wg.Add(-1) }

func (wg *WaitGroup) Wait() {
	simrt.Y()
	for wg.n > 0 {
		wg.q.wait()
	}
}

func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		f()
	}()
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.Y()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	o := &Once{}
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	o := &Once{}
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type Cond struct {
	L Locker
	q []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.q = append(c.q, ch)
	c.L.Unlock()
	<-ch
	simrt.Y()
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.q) > 0 {
		ch := c.q[0]
		c.q = c.q[1:]
		simrt.F()
		close(ch)
		simrt.Y()
	}
}

func (c *Cond) Broadcast() {
	q := c.q
	c.q = nil
	simrt.F()
	for _, ch := range q {
		close(ch)
	}
	simrt.Y()
}

var _ = atomic.AddInt32
