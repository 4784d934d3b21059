package simrt

import (
	"sync"
	"time"
)

// Timer stands in for time.Timer.
type Timer struct {
	C      <-chan time.Time
	c      chan time.Time
	f      func()
	mu     sync.Mutex
	gen    int
	active bool
	by     *Task // sleeps for it
}

func (t *Timer) start(d time.Duration) bool {
	t.mu.Lock()
	was := t.active
	t.gen++
	t.active = true
	g := t.gen
	t.mu.Unlock()
	wakeSleeper(&t.by)
	at := now + int64(d)
	Go(func() {
		if d <= 0 {
			Y(SiteBlock)
		}
		sleepTimer(at, &t.by, func() bool {
			t.mu.Lock()
			defer t.mu.Unlock()
			return !t.active || t.gen != g
		})
		t.mu.Lock()
		ok := t.active && t.gen == g
		if ok {
			t.active = false
		}
		t.mu.Unlock()
		switch {
		case !ok:
		case t.f != nil:
			t.f()
		default:
			Send(t.c, TimeNow())
		}
	})
	return was
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	was := t.active
	t.active = false
	wakeSleeper(&t.by)
	return was
}

func (t *Timer) Reset(d time.Duration) bool { return t.start(d) }

// Ticker stands in for time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	mu   sync.Mutex
	stop bool
	by   *Task
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c}
	Go(func() {
		for {
			sleepTimer(now+int64(d), &t.by, t.stopped)
			if t.stopped() {
				return
			}
			if len(c) == 0 {
				Send(c, TimeNow())
			}
		}
	})
	return t
}

func (t *Ticker) Stop() {
	t.mu.Lock()
	t.stop = true
	t.mu.Unlock()
	wakeSleeper(&t.by)
}

func (t *Ticker) stopped() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.stop
}

func TimeTick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
