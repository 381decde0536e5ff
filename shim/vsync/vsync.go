// Package vsync is package sync with scheduling points.
package vsync

import (
	"sync"
	"unsafe"

	"verif.local/shim/vctx"
	"verif.local/shim/vrace"
	"verif.local/shim/vsched"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
)

// The fields of the modelled primitives are only used by the thread the scheduler lets run, which the race
// detector does not know: functions that touch them are not instrumented, and what the real primitives
// order is told to it.

type node struct {
	ch   chan struct{}
	next *node
}

type queue struct{ head, tail *node }

//go:norace
func (q *queue) add() chan struct{} {
	n := &node{ch: make(chan struct{})}
	if q.tail == nil {
		q.head = n
	} else {
		q.tail.next = n
	}
	q.tail = n
	return n.ch
}

//go:norace
func block(ch chan struct{}) {
	vrace.Off()
	<-ch
	vrace.Resume()
}

//go:norace
func (q *queue) wait() {
	block(q.add())
	vsched.Point("woken")
}

//go:norace
func (q *queue) one() {
	if n := q.head; n != nil {
		q.head = n.next
		if q.head == nil {
			q.tail = nil
		}
		vrace.Off()
		close(n.ch)
		vrace.Resume()
	}
}

//go:norace
func (q *queue) wake() {
	for q.head != nil {
		q.one()
	}
}

// Mutex is a sync.Mutex.
type Mutex struct {
	real sync.Mutex
	x    *vctx.Exec
	held bool
	q    queue
}

// fresh forgets what an abandoned execution left.
//
//go:norace
func (m *Mutex) fresh() {
	if c := vctx.Get(); m.x != c.X {
		m.x, m.held, m.q = c.X, false, queue{}
	}
}

//go:norace
func (m *Mutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		return
	}
	vsched.Point("lock")
	m.fresh()
	for m.held {
		m.q.wait()
	}
	m.held = true
	vrace.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !vsched.Active() {
		return m.real.TryLock()
	}
	vsched.Point("trylock")
	m.fresh()
	if m.held {
		return false
	}
	m.held = true
	vrace.Acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !vsched.Active() {
		m.real.Unlock()
		return
	}
	if m.fresh(); !m.held {
		panic("unlock of unlocked mutex")
	}
	vrace.Release(unsafe.Pointer(m))
	m.held = false
	m.q.wake()
}

// RWMutex is a sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	real    sync.RWMutex
	x       *vctx.Exec
	writer  bool
	readers int
	waiting int
	q       queue
	rel     byte // readers release here
}

//go:norace
func (m *RWMutex) fresh() {
	if c := vctx.Get(); m.x != c.X {
		m.x, m.writer, m.readers, m.waiting, m.q = c.X, false, 0, 0, queue{}
	}
}

//go:norace
func (m *RWMutex) locked() {
	vrace.Acquire(unsafe.Pointer(m))
	vrace.Acquire(unsafe.Pointer(&m.rel))
}

//go:norace
func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		return
	}
	vsched.Point("lock")
	m.fresh()
	m.waiting++
	for m.writer || m.readers > 0 {
		m.q.wait()
	}
	m.waiting--
	m.writer = true
	m.locked()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if !vsched.Active() {
		return m.real.TryLock()
	}
	vsched.Point("trylock")
	m.fresh()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.locked()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !vsched.Active() {
		m.real.Unlock()
		return
	}
	if m.fresh(); !m.writer {
		panic("unlock of unlocked rwmutex")
	}
	vrace.Release(unsafe.Pointer(m))
	m.writer = false
	m.q.wake()
}

//go:norace
func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.real.RLock()
		return
	}
	vsched.Point("rlock")
	m.fresh()
	for m.writer || m.waiting > 0 {
		m.q.wait()
	}
	m.readers++
	vrace.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if !vsched.Active() {
		return m.real.TryRLock()
	}
	vsched.Point("tryrlock")
	m.fresh()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	vrace.Acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !vsched.Active() {
		m.real.RUnlock()
		return
	}
	if m.fresh(); m.readers == 0 {
		panic("runlock of unlocked rwmutex")
	}
	vrace.ReleaseMerge(unsafe.Pointer(&m.rel))
	m.readers--
	m.q.wake()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once is a sync.Once.
type Once struct {
	real sync.Once
	mu   Mutex
	done bool
}

//go:norace
func (o *Once) finish() {
	o.done = true
	vrace.Release(unsafe.Pointer(o))
}

//go:norace
func (o *Once) finished() bool {
	if o.done {
		vrace.Acquire(unsafe.Pointer(o))
	}
	return o.done
}

func (o *Once) Do(f func()) {
	if !vsched.Active() {
		o.real.Do(func() {
			if !o.finished() {
				defer o.finish()
				f()
			}
		})
		return
	}
	vsched.Point("once")
	if o.finished() {
		return
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.finished() {
		defer o.finish()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// WaitGroup is a sync.WaitGroup.
type WaitGroup struct{ real sync.WaitGroup }

func (w *WaitGroup) Add(n int) { w.real.Add(n) }
func (w *WaitGroup) Done() {
	vsched.Point("done")
	w.real.Done()
}
func (w *WaitGroup) Wait() {
	vsched.Point("wait")
	w.real.Wait()
	vsched.Point("waited")
}

// Map is a sync.Map.
type Map struct{ real sync.Map }

func (m *Map) Load(k any) (any, bool) { vsched.Point("map"); return m.real.Load(k) }
func (m *Map) Store(k, v any)         { vsched.Point("map"); m.real.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vsched.Point("map")
	return m.real.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { vsched.Point("map"); return m.real.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { vsched.Point("map"); m.real.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { vsched.Point("map"); return m.real.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	vsched.Point("map")
	return m.real.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	vsched.Point("map")
	return m.real.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v any) bool) { vsched.Point("map"); m.real.Range(f) }
func (m *Map) Clear()                      { vsched.Point("map"); m.real.Clear() }

// Cond is a sync.Cond.
type Cond struct {
	L    Locker
	real *sync.Cond
	q    queue
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !vsched.Active() {
		c.real.Wait()
		return
	}
	ch := c.q.add()
	c.L.Unlock()
	block(ch)
	vsched.Point("signalled")
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if !vsched.Active() {
		c.real.Signal()
		return
	}
	c.q.one()
}

//go:norace
func (c *Cond) Broadcast() {
	if !vsched.Active() {
		c.real.Broadcast()
		return
	}
	c.q.wake()
}
