package simrt

import (
	"sync"
	"sync/atomic"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex stands in for sync.Mutex. The real one is only ever locked when free,
// so that it never blocks but gives the race detector its ordering.
type Mutex struct {
	mu     sync.Mutex
	locked bool
}

//go:norace
func (m *Mutex) Lock() {
	for !m.mu.TryLock() {
		block("Mutex.Lock")
	}
	m.locked = true
}

//go:norace
func (m *Mutex) TryLock() bool {
	if m.mu.TryLock() {
		m.locked = true
		return true
	}
	return false
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.mu.Unlock()
	changed()
}

// RWMutex stands in for sync.RWMutex; a waiting writer holds off new readers.
type RWMutex struct {
	mu      sync.RWMutex
	wait    int
	readers int
	writer  bool
}

//go:norace
func (m *RWMutex) Lock() {
	if !m.mu.TryLock() {
		m.wait++
		for !m.mu.TryLock() {
			block("RWMutex.Lock")
		}
		m.wait--
	}
	m.writer = true
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if m.mu.TryLock() {
		m.writer = true
		return true
	}
	return false
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.mu.Unlock()
	changed()
}

//go:norace
func (m *RWMutex) RLock() {
	for m.wait > 0 || !m.mu.TryRLock() {
		block("RWMutex.RLock")
	}
	m.readers++
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if m.wait == 0 && m.mu.TryRLock() {
		m.readers++
		return true
	}
	return false
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.mu.RUnlock()
	changed()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is as in package sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once stands in for sync.Once.
type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() == 0 {
		o.slow(f)
	}
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

// OnceFunc is as in package sync.
func OnceFunc(f func()) func() {
	g := OnceValue(func() int { f(); return 0 })
	return func() { g() }
}

// OnceValue is as in package sync.
func OnceValue[T any](f func() T) func() T {
	g := OnceValues(func() (T, int) { return f(), 0 })
	return func() T { v, _ := g(); return v }
}

// OnceValues is as in package sync.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var once Once
	var valid bool
	var p any
	var a A
	var b B
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		a, b = f()
		f = nil
		valid = true
	}
	return func() (A, B) {
		once.Do(g)
		if !valid {
			panic(p)
		}
		return a, b
	}
}

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int64
}

//go:norace
func (w *WaitGroup) Add(d int) {
	w.n += int64(d)
	w.wg.Add(d)
	changed()
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	for w.n > 0 {
		block("WaitGroup.Wait")
	}
	w.wg.Wait()
}

// Go is as in package sync.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

type condWaiter struct{ fired atomic.Bool }

// Cond stands in for sync.Cond.
type Cond struct {
	L       Locker
	waiters []*condWaiter
}

// NewCond is as in package sync.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	w := &condWaiter{}
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	for !w.fired.Load() {
		block("Cond.Wait")
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		w := c.waiters[0]
		c.waiters = c.waiters[1:]
		w.fired.Store(true)
		changed()
	}
}

//go:norace
func (c *Cond) Broadcast() {
	for len(c.waiters) > 0 {
		c.Signal()
	}
}

type poolItem struct {
	v    any
	edge atomic.Uint32
}

// Pool stands in for sync.Pool. What it hands out, and when it forgets, is
// decided by the simulator.
type Pool struct {
	New    func() any
	items  []*poolItem
	listed bool
}

// pools are those that hold something.
var pools []*Pool

//go:norace
func poolsReset() {
	for _, p := range pools {
		p.listed = false
	}
	pools = nil
}

// FlushPools is what two garbage collections do to every pool.
//
//go:norace
func FlushPools() {
	for _, p := range pools {
		p.items = nil
		p.listed = false
	}
	pools = nil
}

//go:norace
func (p *Pool) Get() any {
	if n := len(p.items); n > 0 {
		i := n - 1
		if run != nil && cfg.PoolFaults {
			switch c := Choose(16); {
			case c == 1: // the collector emptied the pool
				p.items = nil
				run.PoolDrops++
				i = -1
			case c == 2: // this processor's cache is empty
				run.PoolDrops++
				i = -1
			case c <= 5:
				i = Choose(n)
			}
		}
		if i >= 0 {
			it := p.items[i]
			// By hand: the runtime's copying functions tell the race detector
			// of their accesses, norace or not.
			for ; i+1 < n; i++ {
				p.items[i] = p.items[i+1]
			}
			p.items[i] = nil
			p.items = p.items[:i]
			it.edge.Load()
			return it.v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	it := &poolItem{v: x}
	it.edge.Store(1)
	p.items = append(p.items, it)
	if !p.listed && cfg != nil && cfg.NoRecord {
		p.listed = true
		pools = append(pools, p)
	}
}

// Map stands in for sync.Map: the real one, with yield points and a range
// order that the simulator chooses.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) {
	Y(SiteBlock)
	v, ok := m.m.Load(k)
	Y(SiteBlock)
	return v, ok
}
func (m *Map) Store(k, v any) { Y(SiteBlock); m.m.Store(k, v); Y(SiteBlock) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	Y(SiteBlock)
	v, ok := m.m.LoadOrStore(k, v)
	Y(SiteBlock)
	return v, ok
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	Y(SiteBlock)
	v, ok := m.m.LoadAndDelete(k)
	Y(SiteBlock)
	return v, ok
}
func (m *Map) Delete(k any) { Y(SiteBlock); m.m.Delete(k); Y(SiteBlock) }
func (m *Map) Swap(k, v any) (any, bool) {
	Y(SiteBlock)
	v, ok := m.m.Swap(k, v)
	Y(SiteBlock)
	return v, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	Y(SiteBlock)
	ok := m.m.CompareAndSwap(k, o, n)
	Y(SiteBlock)
	return ok
}
func (m *Map) CompareAndDelete(k, o any) bool {
	Y(SiteBlock)
	ok := m.m.CompareAndDelete(k, o)
	Y(SiteBlock)
	return ok
}
func (m *Map) Clear() { Y(SiteBlock); m.m.Clear(); Y(SiteBlock) }
func (m *Map) Range(f func(k, v any) bool) {
	all := map[any]any{}
	m.m.Range(func(k, v any) bool { all[k] = v; return true })
	for _, k := range MapKeys(all) {
		Y(SiteBlock)
		v, ok := m.m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}
