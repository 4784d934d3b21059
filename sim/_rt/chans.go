package simrt

import (
	"reflect"
	"sync/atomic"
)

// selState is a select in progress: fired when one of its offers was taken,
// woken when one of its channels was closed.
type selState struct{ fired, woken, quiet bool }

type waiter struct {
	send bool
	val  any // pointer to the value
	done atomic.Bool
	edge atomic.Uint32
	sel  *selState
	idx  int
	ok   bool
	r    *rv
}

// rv holds the offers that wait on an unbuffered channel.
type rv struct {
	ch any // keeps the address taken
	q  []*waiter
}

// A list, not a map: the runtime reports map accesses to the race detector
// even from functions that are exempt. Only channels somebody waits on are in
// it, so that the simulator keeps nothing alive.
var (
	rvPtr []uintptr
	rvVal []*rv
)

//go:norace
func rvReset() { rvPtr, rvVal = nil, nil }

//go:norace
func rvFind(ch any) *rv {
	p := reflect.ValueOf(ch).Pointer()
	for i := len(rvPtr) - 1; i >= 0; i-- {
		if rvPtr[i] == p {
			return rvVal[i]
		}
	}
	return nil
}

//go:norace
func rvAdd(ch any, w *waiter) {
	r := rvFind(ch)
	if r == nil {
		r = &rv{ch: ch}
		rvPtr = append(rvPtr, reflect.ValueOf(ch).Pointer())
		rvVal = append(rvVal, r)
	}
	r.q = append(r.q, w)
	w.r = r
}

// tidy forgets channels nobody waits on.
//
//go:norace
func (r *rv) tidy() {
	if len(r.q) > 0 {
		return
	}
	n := len(rvVal) - 1
	for i := range rvVal {
		if rvVal[i] == r {
			for ; i < n; i++ {
				rvPtr[i], rvVal[i] = rvPtr[i+1], rvVal[i+1]
			}
			rvVal[n] = nil
			rvPtr, rvVal = rvPtr[:n], rvVal[:n]
			return
		}
	}
}

// withdraw takes back the offers of a select that is over.
//
//go:norace
func withdraw(ws []*waiter) {
	for _, w := range ws {
		if w == nil {
			continue
		}
		for i := 0; i < len(w.r.q); i++ {
			if w.r.q[i] == w {
				w.r.remove(i)
				w.r.tidy()
				break
			}
		}
	}
}

// remove drops the i'th waiter. It copies by hand: the runtime's copying
// functions tell the race detector of their accesses, norace or not.
//
//go:norace
func (r *rv) remove(i int) {
	for ; i+1 < len(r.q); i++ {
		r.q[i] = r.q[i+1]
	}
	r.q[i] = nil
	r.q = r.q[:i]
}

//go:norace
func rvTake(ch any, send bool, own *selState) *waiter {
	r := rvFind(ch)
	if r == nil {
		return nil
	}
	defer r.tidy()
	for i := 0; i < len(r.q); i++ {
		w := r.q[i]
		if w.sel.fired {
			r.remove(i)
			i--
			continue
		}
		if w.send == send && w.sel != own {
			r.remove(i)
			w.edge.Load()
			return w
		}
	}
	return nil
}

//go:norace
func (w *waiter) fire(ok bool) {
	w.sel.fired = true
	w.ok = ok
	w.done.Store(true)
	changed()
}

// Send is ch <- v.
//
//go:norace
func Send[T any](ch chan<- T, v T) {
	c := SendCase(ch, v)
	Select(false, c)
}

// Recv is <-ch.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	c := RecvCase(ch)
	Select(false, c)
	return c.V
}

// Recv2 is v, ok := <-ch.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	c := RecvCase(ch)
	Select(false, c)
	return c.V, c.OK
}

// Close is close(ch).
//
//go:norace
func Close[T any](ch chan<- T) {
	close(ch)
	if r := rvFind(ch); r != nil {
		// Whoever waits finds out by itself.
		for len(r.q) > 0 {
			r.q[len(r.q)-1].sel.woken = true
			r.remove(len(r.q) - 1)
		}
		r.tidy()
	}
	changed()
}

// Case is one communication of a select.
type Case interface {
	try(own *selState) bool
	enqueue(s *selState, idx int) *waiter
	never() bool // a nil channel
	finish(w *waiter)
}

// SendC is a send case.
type SendC[T any] struct {
	ch chan<- T
	v  T
}

// RecvC is a receive case.
type RecvC[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func SendCase[T any](ch chan<- T, v T) *SendC[T] { return &SendC[T]{ch: ch, v: v} }
func RecvCase[T any](ch <-chan T) *RecvC[T]      { return &RecvC[T]{ch: ch} }

//go:norace
func (c *SendC[T]) try(own *selState) bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) == 0 {
		if w := rvTake(c.ch, false, own); w != nil {
			*(w.val.(*T)) = c.v
			w.fire(true)
			return true
		}
	}
	select {
	case c.ch <- c.v: // panics when closed
		changed()
		return true
	default:
		return false
	}
}

//go:norace
func (c *SendC[T]) enqueue(s *selState, idx int) *waiter {
	if c.ch == nil || cap(c.ch) > 0 {
		return nil
	}
	p := new(T)
	*p = c.v
	w := &waiter{send: true, val: p, sel: s, idx: idx}
	w.edge.Store(1)
	rvAdd(c.ch, w)
	return w
}

func (c *SendC[T]) finish(w *waiter) {}
func (c *SendC[T]) never() bool      { return c.ch == nil }
func (c *RecvC[T]) never() bool      { return c.ch == nil }

//go:norace
func (c *RecvC[T]) try(own *selState) bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) == 0 {
		if w := rvTake(c.ch, true, own); w != nil {
			c.V, c.OK = *(w.val.(*T)), true
			w.fire(true)
			return true
		}
	}
	select {
	case v, ok := <-c.ch:
		c.V, c.OK = v, ok
		changed()
		return true
	default:
		return false
	}
}

//go:norace
func (c *RecvC[T]) enqueue(s *selState, idx int) *waiter {
	if c.ch == nil || cap(c.ch) > 0 {
		return nil
	}
	w := &waiter{val: new(T), sel: s, idx: idx}
	w.edge.Store(1)
	rvAdd(c.ch, w)
	return w
}

//go:norace
func (c *RecvC[T]) finish(w *waiter) {
	c.V, c.OK = *(w.val.(*T)), w.ok
}

// Select performs one of the communications and returns its index, or -1 for
// the default clause.
//
//go:norace
func Select(hasDefault bool, cases ...Case) int {
	s := &selState{}
	var ws []*waiter
	for {
		if s.fired {
			withdraw(ws)
			for _, w := range ws {
				if w != nil && w.done.Load() {
					cases[w.idx].finish(w)
					return w.idx
				}
			}
		}
		start := 0
		if len(cases) > 1 {
			start = Choose(len(cases))
		}
		for k := range cases {
			i := (start + k) % len(cases)
			if cases[i].try(s) {
				s.fired = true
				withdraw(ws)
				return i
			}
		}
		if hasDefault {
			return -1
		}
		if ws == nil {
			// Offers on unbuffered channels are taken by whoever comes; buffered
			// ones are looked at again when something has changed.
			ws = make([]*waiter, 0, len(cases))
			s.quiet = true
			for i, c := range cases {
				if w := c.enqueue(s, i); w != nil {
					ws = append(ws, w)
				} else if !c.never() {
					s.quiet = false
				}
			}
		}
		s.woken = false
		if s.quiet && cur != nil {
			cur.sel = s
		}
		block("channel operation")
		cur.sel = nil
	}
}
