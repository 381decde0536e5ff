// Package vsched is a cooperative scheduler for instrumented code: one goroutine of an execution runs at
// a time, and which one goes on at a scheduling point is a choice.
package vsched

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"verif.local/shim/vctx"
	"verif.local/shim/vrace"
)

// Point is a scheduling point.
func Point(what string) {
	if c := vctx.Get(); c != nil && c.X.Point != nil {
		c.X.Point(c, what)
	}
}

func active() bool {
	c := vctx.Get()
	return c != nil && c.X.Point != nil
}

// Active tells if the current goroutine is scheduled.
func Active() bool { return active() }

// Go is the go statement.
func Go(f func()) {
	if c := vctx.Get(); c != nil && c.X.Spawn != nil {
		c.X.Spawn(c, f)
		return
	}
	go f()
}

// Recv is <-ch.
func Recv[T any, C ~chan T | ~<-chan T](ch C) T {
	v, _ := Recv2[T](ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any, C ~chan T | ~<-chan T](ch C) (T, bool) {
	if !active() {
		v, ok := <-ch
		return v, ok
	}
	Point("receive")
	select {
	case v, ok := <-ch:
		return v, ok
	default:
	}
	v, ok := <-ch
	Point("received")
	return v, ok
}

// Send is ch <- v.
func Send[T any, C ~chan T | ~chan<- T](ch C, v T) {
	if !active() {
		ch <- v
		return
	}
	Point("send")
	select {
	case ch <- v:
		return
	default:
	}
	ch <- v
	Point("sent")
}

// Close is close(ch).
func Close[T any, C ~chan T | ~chan<- T](ch C) {
	Point("close")
	close(ch)
}

// Case is one case of a select.
type Case interface {
	sc() reflect.SelectCase
	set(v reflect.Value, ok bool)
}

// RC is a receive case.
type RC[T any] struct {
	ch  reflect.Value
	Val T
	Ok  bool
}

func (r *RC[T]) sc() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: r.ch}
}
func (r *RC[T]) set(v reflect.Value, ok bool) {
	r.Ok = ok
	if ok {
		reflect.ValueOf(&r.Val).Elem().Set(v)
	}
}

// RecvCase makes a receive case.
func RecvCase[T any, C ~chan T | ~<-chan T](ch C) *RC[T] { return &RC[T]{ch: reflect.ValueOf(ch)} }

// SC is a send case.
type SC struct{ ch, v reflect.Value }

func (s *SC) sc() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: s.ch, Send: s.v}
}
func (s *SC) set(reflect.Value, bool) {}

// SendCase makes a send case.
func SendCase[T any, C ~chan T | ~chan<- T](ch C, v T) *SC {
	return &SC{reflect.ValueOf(ch), reflect.ValueOf(&v).Elem()}
}

// Select is a select statement, the result is the number of the case, -1 for the default.
func Select(def bool, cases ...Case) int {
	scs := make([]reflect.SelectCase, len(cases), len(cases)+1)
	for i, c := range cases {
		scs[i] = c.sc()
	}
	if c := vctx.Get(); c != nil && c.X.Point != nil {
		first := 0
		if c.X.Sel != nil {
			first = c.X.Sel(c, len(cases))
		} else {
			c.X.Point(c, "select")
		}
		for k := range cases {
			i := (first + k) % len(cases)
			if !scs[i].Chan.IsValid() || scs[i].Chan.IsNil() {
				continue
			}
			n, v, ok := reflect.Select([]reflect.SelectCase{scs[i], {Dir: reflect.SelectDefault}})
			if n == 0 {
				cases[i].set(v, ok)
				return i
			}
		}
		if def {
			return -1
		}
		n, v, ok := reflect.Select(scs)
		cases[n].set(v, ok)
		c.X.Point(c, "selected")
		return n
	}
	if def {
		scs = append(scs, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	n, v, ok := reflect.Select(scs)
	if n == len(cases) {
		return -1
	}
	cases[n].set(v, ok)
	return n
}

// Result is what one execution did.
type Result struct {
	Deadlock string   // description of the blocked threads, if any
	Panics   []string // of any thread
	Points   int
	Switches int
	Trace    []string
}

type waiter struct {
	what string
	ch   chan struct{}
	sel  int // cases of a select
	got  int // which of them to look at first
}

// thread is a goroutine of an execution. Only the thread itself and the coordinator use it, and nothing the
// coordinator knows gets back to the thread: as far as the race detector is concerned the scheduler does
// not order the threads.
type thread struct {
	tid  int
	root int // the body it descends from
	name string
	at   atomic.Pointer[waiter] // where it is parked
	done atomic.Bool
}

const maxThreads = 4096

type sched struct {
	threads [maxThreads]atomic.Pointer[thread]
	next    atomic.Int64
	res     *Result
	mu      sync.Mutex // for res.Panics
}

// Options of Run.
type Options struct {
	Choose func(n, cost int, label string) int
	Exec   vctx.Exec // hooks besides scheduling
	Max    int       // scheduling points after which an execution is given up (livelock)
	Trace  bool
	Delay  bool // every choice but the first costs, also where the running thread cannot go on
}

// Run runs the bodies as threads, Choose decides at each scheduling point. It returns when all threads and
// the goroutines they started have finished or none can go on.
func Run(o Options, bodies ...func()) (res *Result) {
	res = &Result{}
	s := &sched{res: res}
	x := o.Exec
	x.Point = s.point
	x.Spawn = s.spawn
	// a select looks at its cases in an order that is a choice, made when the thread goes on
	x.Sel = s.sel
	if o.Max == 0 {
		o.Max = 20000
	}
	defer func() {
		if r := recover(); r != nil {
			if m := fmt.Sprint(r); strings.Contains(m, "deadlock") || strings.Contains(m, "bubble") {
				return // threads that never go on were left behind
			}
			panic(r)
		}
	}()
	defer func() { vrace.Acquire(unsafe.Pointer(s)) }()
	bubble(func(wait func()) {
		defer func() { vrace.Release(unsafe.Pointer(s)) }()
		for i, b := range bodies {
			s.start(&x, fmt.Sprintf("T%d", i+1), i+1, b)
		}
		cur, root := 0, 0
		last := map[int]string{}
		// parked returns the threads that can go on, and how many there are at all
		parked := func() (p []*thread, n int) {
			wait()
			for i := 1; i <= int(s.next.Load()); i++ {
				t := s.threads[i].Load()
				if t == nil {
					continue
				}
				done := t.done.Load()
				vrace.Acquire(unsafe.Pointer(t))
				if done {
					continue
				}
				n++
				if t.at.Load() != nil {
					p = append(p, t)
				}
			}
			return p, n
		}
		for {
			p, n := parked()
			if n == 0 {
				return
			}
			if len(p) == 0 {
				// perhaps somebody waits for a timer
				time.Sleep(time.Hour)
				if p, n = parked(); n == 0 {
					return
				}
				if len(p) == 0 {
					var d []string
					for i := 1; i <= int(s.next.Load()); i++ {
						if t := s.threads[i].Load(); t != nil && !t.done.Load() {
							d = append(d, fmt.Sprintf("%s#%d after %q", t.name, t.tid, last[t.tid]))
						}
					}
					sort.Strings(d)
					res.Deadlock = strings.Join(d, "; ")
					return
				}
			}
			// the default is to go on with the same thread, or with one of the same body
			sort.SliceStable(p, func(i, j int) bool {
				if (p[i].tid == cur) != (p[j].tid == cur) {
					return p[i].tid == cur
				}
				if (p[i].root == root) != (p[j].root == root) {
					return p[i].root == root
				}
				return p[i].tid < p[j].tid
			})
			cost := 0
			if p[0].tid == cur || o.Delay {
				cost = 1
			}
			k := 0
			if len(p) > 1 {
				k = o.Choose(len(p), cost, "go on")
			}
			t := p[k]
			w := t.at.Load()
			if t.tid != cur {
				res.Switches++
			}
			cur, root = t.tid, t.root
			res.Points++
			if o.Trace {
				res.Trace = append(res.Trace, fmt.Sprintf("T%d: %s", t.tid, w.what))
			}
			if res.Points > o.Max {
				res.Deadlock = fmt.Sprintf("no end after %d steps", o.Max)
				return
			}
			last[t.tid] = w.what
			if w.sel > 1 {
				w.got = o.Choose(w.sel, 1, "select")
			}
			t.at.Store(nil)
			close(w.ch)
		}
	})
	return res
}

//go:norace
func (s *sched) start(x *vctx.Exec, name string, root int, f func()) {
	vrace.Off()
	tid := int(s.next.Add(1))
	if tid >= maxThreads {
		panic("harness: too many threads")
	}
	t := &thread{tid: tid, root: root, name: name}
	s.threads[tid].Store(t)
	vrace.Resume()
	go s.body(t, x, f)
}

//go:norace
func (s *sched) body(t *thread, x *vctx.Exec, f func()) {
	c := &vctx.Ctx{X: x, TID: t.tid, T: t}
	vctx.Set(c)
	defer s.end(t)
	s.point(c, "start")
	f()
}

//go:norace
func (s *sched) end(t *thread) {
	r := recover()
	vrace.Off()
	if r != nil {
		s.mu.Lock()
		s.res.Panics = append(s.res.Panics, fmt.Sprintf("%s: %v\n%s", t.name, r, debug.Stack()))
		s.mu.Unlock()
	}
	vrace.Resume()
	vrace.Release(unsafe.Pointer(t))
	vrace.Off()
	t.done.Store(true)
	vrace.Resume()
}

//go:norace
func (s *sched) spawn(c *vctx.Ctx, f func()) {
	t := c.T.(*thread)
	s.start(c.X, t.name+"+", t.root, f)
}

//go:norace
func (s *sched) point(c *vctx.Ctx, what string) { s.park(c, what, 0) }

//go:norace
func (s *sched) sel(c *vctx.Ctx, n int) int { return s.park(c, "select", n) }

//go:norace
func (s *sched) park(c *vctx.Ctx, what string, n int) int {
	t := c.T.(*thread)
	w := &waiter{what: what, ch: make(chan struct{}), sel: n}
	vrace.Release(unsafe.Pointer(t))
	vrace.Off()
	t.at.Store(w)
	<-w.ch
	vrace.Resume()
	return w.got
}

// AtTime runs f with the clock advanced by d over the start of a bubble (where the scheduler is available).
func AtTime(d time.Duration, f func()) {
	if !Available {
		f()
		return
	}
	var p any
	bubble(func(func()) {
		defer func() {
			if r := recover(); r != nil {
				p = fmt.Sprintf("%v\n%s", r, debug.Stack())
			}
		}()
		time.Sleep(d)
		f()
	})
	if p != nil {
		panic(p)
	}
}
