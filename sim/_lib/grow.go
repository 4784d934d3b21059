package main

import (
	"fmt"
	"math/big"
	"os"
	"runtime"
	"time"

	rt "github.com/mewmew/float/zzsim/rt"
	"github.com/mewmew/float/zzsim/work"
)

// Grow is a run that asks whether anything accumulates: callers make the calls
// of their lists over and over, with the variations given, and what is still
// running and still reachable is measured in between, when nobody calls.
type Grow struct {
	Vary  []int `json:"vary"`          // per kind of call, cyclic
	Few   int   `json:"few,omitempty"` // only so many variations, over and over
	Calls int   `json:"calls"`         // before the first measurement, at most
	Limit int   `json:"limit"`         // growth must go on for so many calls
}

// How calls vary.
const (
	gSame = iota
	gStep
	gFresh
	gNear
	gKinds
)

func (g *generator) grow() {
	r, sc := g.r, g.sc
	sc.Kind = "growth"
	sc.Grow = &Grow{Calls: []int{300, 700, 1500, 3000}[r.Intn(4)]}
	nt := []int{1, 1, 1, 2, 3, 4}[r.Intn(6)]
	g.values(1 + r.Intn(3))
	var names []string
	for k := 1 + r.Intn(2); k > 0; k-- {
		names = append(names, groupFns[allGroups[r.Intn(len(allGroups))]]...)
	}
	if r.Intn(6) == 0 {
		names = nil
		for _, gn := range allGroups {
			names = append(names, groupFns[gn]...)
		}
	}
	panicky := r.Intn(3) == 0
	groups := map[string]bool{}
	for _, n := range names {
		groups[fns[n].group] = true
	}
	for t := 0; t < nt; t++ {
		var l []Op
		for k := 1 + r.Intn(5); k > 0; k-- {
			if panicky && r.Intn(3) == 0 {
				l = append(l, g.panicker(groups))
				continue
			}
			l = append(l, g.op(names[r.Intn(len(names))]))
		}
		sc.Tasks = append(sc.Tasks, l)
	}
	for k := 1 + r.Intn(5); k > 0; k-- {
		v := r.Intn(gKinds)
		if r.Intn(2) == 0 {
			v = gFresh
		}
		sc.Grow.Vary = append(sc.Grow.Vary, v)
	}
	switch r.Intn(6) {
	case 0:
		sc.Grow.Vary = []int{gSame}
	case 1, 2:
		sc.Grow.Few = []int{2, 5, 20, 100}[r.Intn(4)]
	}
	sc.SchedSeed = r.Uint64()
	sc.PoolFaults = r.Intn(2) == 0
	sc.ClockJumps = r.Intn(3) == 0
	if nt > 1 {
		sc.Mode = []int{1, 1, 4, 5, 5, 0}[r.Intn(6)]
		sc.Mean = []int64{4, 20, 100, 800}[r.Intn(4)]
		sc.StallPct = []int{0, 1, 5}[r.Intn(3)]
		sc.StallLen = []int{2, 8, 40}[r.Intn(3)]
	}
}

// confirm looks closely at a scenario in which something grew: for one kind of
// call if that is enough, or for all of it.
func (w *world) confirm(sc *Scenario) (*Scenario, *outcome) {
	for _, l := range sc.Tasks {
		for j := range l {
			s, g := *sc, *sc.Grow
			s.Tasks = nil
			for range sc.Tasks {
				s.Tasks = append(s.Tasks, []Op{l[j]})
			}
			s.Grow = &g
			if w.grow(&s).find == nil {
				continue
			}
			g.Limit = 1_000_000
			if o := w.grow(&s); o.find != nil {
				return &s, o
			}
		}
	}
	s, g := *sc, *sc.Grow
	g.Limit = 4_000_000
	s.Grow = &g
	return &s, w.grow(&s)
}

type growRun struct {
	w     *world
	sc    *Scenario
	cfg   *rt.Config
	lists [][]Op
	of    []int // the caller each list belongs to
	k     int   // calls begun
	ks    []int // of them, by each caller
	until int   // the stage ends when so many have begun,
	step  int64 // or at this step,
	// Half of the later calls are those of the first stages again: what leaks
	// only for some inputs goes on leaking.
	period int
	most   int // or when so many goroutines have not ended
	dig    uint64

	arrive, gate *rt.WaitGroup
	over         bool
	calls        int64
	panics       int64
	ms           []growPoint
	find         *finding
	gaveUp       bool
}

type growPoint struct {
	calls int
	heap  int64
	tasks int
}

// Growth below these is not looked into.
const (
	growBytes = 700
	growTasks = 4
)

func (w *world) grow(sc *Scenario) *outcome {
	g := &growRun{w: w, sc: sc}
	for i, l := range sc.Tasks {
		if len(l) > 0 {
			g.lists = append(g.lists, l)
			g.of = append(g.of, i)
		}
	}
	if len(g.lists) == 0 {
		return &outcome{res: &rt.Result{}}
	}
	g.cfg = &rt.Config{Seed: sc.SchedSeed, Mode: sc.Mode, Mean: sc.Mean, Est: 1_000_000, StallPct: sc.StallPct, StallLen: sc.StallLen,
		PoolFaults: sc.PoolFaults, ClockJumps: sc.ClockJumps, FairAfter: 60_000_000, MaxFair: 1_000_000,
		NumCPU: 1 + int(sc.SchedSeed%8), NoRecord: true, Init: resetAll}
	g.until, g.step, g.most = sc.Grow.Calls, 3_000_000, 1000
	g.newStage()
	g.ks = make([]int, len(g.lists))
	var cl []func()
	for i := range g.lists {
		cl = append(cl, g.client(i))
	}
	res := rt.Run(g.cfg, cl)
	st := w.rep.Stats
	o := &outcome{res: res, dig: work.Mix(res.Hash, g.dig), steps: res.Steps, find: g.find}
	if res.Deadlock || res.Livelock || res.Crash != "" {
		st["growth_runs_that_hung"]++ // C05 judges those
		o.find = nil
	}
	st["calls"] += g.calls
	st["steps"] += res.Steps
	st["context_switches"] += res.Switches
	st["overlaps"] += res.Overlaps
	st["library_goroutines"] += res.Spawned
	st["blocked_waits"] += res.Blocks
	st["sim_nanos"] += res.SimNanos
	st["measurements"] += int64(len(g.ms))
	if len(g.ms) > 2 {
		st["growth_looked_into"]++
	}
	f := w.rep.Faults
	f["panicking_call"] += g.panics
	f["stalled_caller"] += res.Stalls
	f["preempted_inside_call"] += res.Overlaps
	f["pool_eviction"] += res.PoolDrops + int64(len(g.ms))
	f["clock_jump"] += res.Jumps + int64(len(g.ms))
	return o
}

func (g *growRun) newStage() {
	g.arrive, g.gate = &rt.WaitGroup{}, &rt.WaitGroup{}
	g.arrive.Add(len(g.lists))
	g.gate.Add(1)
}

func (g *growRun) client(i int) func() {
	return func() {
		var r out
		var specs [8]*big.Float
		for !g.over {
			// Each caller makes its share of the calls.
			for g.ks[i]*len(g.lists) < g.until && rt.StepNow() < g.step && rt.Live() < g.most {
				rt.OpBoundary()
				g.call(i, &r, specs[:])
			}
			for j := range specs {
				specs[j] = nil
			}
			r = out{}
			arrive, gate := g.arrive, g.gate
			arrive.Done()
			if i > 0 {
				gate.Wait()
				continue
			}
			arrive.Wait()
			g.settle()
			g.newStage()
			gate.Done()
		}
	}
}

// vary is the k'th call made from the template.
func (g *growRun) vary(t *Op, i, k int, spec *BigSpec) Op {
	o := *t
	how := g.sc.Grow.Vary[(k+i)%len(g.sc.Grow.Vary)]
	if o.X > 0 {
		*spec = g.sc.Specs[o.X-1]
	}
	if n := g.sc.Grow.Few; n > 0 {
		k %= n
	}
	if how == gSame {
		return o
	}
	var r rt.Rand
	r.Seed(work.Mix(g.sc.SchedSeed, uint64(k)))
	kind := fns[o.Fn].kind
	switch how {
	case gStep:
		o.A += uint64(k)
		o.B += uint64(k)
	case gNear:
		o.A ^= 1 << uint(r.Intn(64))
		o.B ^= 1 << uint(r.Intn(64))
	default:
		switch kind {
		case kBits16:
			o.A = bits16Value(&r)
			if r.Intn(2) == 0 {
				o.A = r.Uint64()
			}
		case kBits128:
			o.A, o.B = b128Value(&r)
		case kBitsX87:
			o.A, o.B = x87Value(&r)
		case kBitsPPC:
			o.A, o.B = ppcValue(&r)
		case kF32, kF64, kFmt, kAppFmt:
			o.A = f64Value(&r)
			if kind == kF32 {
				o.A = uint64(f32bits(o.A))
			}
		case kInt, kAppInt, kItoa:
			o.A = intValue(&r)
			if r.Intn(3) == 0 {
				o.A = r.Uint64()
			}
		}
		if (kind == kFmt || kind == kAppFmt) && r.Intn(3) == 0 {
			bits, prec := o.Bits, o.Prec
			fmtArgs(&r, &o)
			if r.Intn(2) == 0 || prec > 1<<30 {
				o.Bits, o.Prec = bits, prec
			}
		}
		if (kind == kInt || kind == kAppInt) && r.Intn(3) == 0 && o.Base >= 2 && o.Base <= 36 {
			o.Base = baseValue(&r)
		}
	}
	switch kind {
	case kBits16, kBitsX87:
		o.A &= 0xFFFF
	case kF32:
		o.A = uint64(uint32(o.A))
	}
	if o.X > 0 && spec.Text != "nil" && spec.Text != "Inf" && spec.Text != "-Inf" {
		switch how {
		case gStep:
			*spec = BigSpec{Text: fmt.Sprintf("0x%xp%d", k+1, int(o.A)%3), PPrec: 64, Prec: spec.Prec, Mode: spec.Mode}
		case gNear:
			*spec = BigSpec{Text: fmt.Sprintf("0x%xp-7", r.Uint64()), PPrec: 64, Prec: 64, Mode: spec.Mode}
		default:
			*spec = bigSpec(&r, f64Value(&r), false)
		}
	}
	return o
}

func (g *growRun) call(i int, r *out, keep []*big.Float) {
	k := g.ks[i]
	g.ks[i]++
	g.k++
	l := g.lists[i]
	j := k % len(l)
	if g.period > 0 && (k/200%2 == 1 || fns[l[j].Fn].kind == kBits16) {
		// There are few enough arguments of 16 bits for a table of the answers.
		k %= g.period
	}
	var obj **big.Float
	if j < len(keep) && k%2 == 0 {
		obj = &keep[j]
	}
	g.one(&l[j], i, k/len(l)+j, r, obj)
}

// one makes the k'th call from the template, with the argument in the object
// given.
func (g *growRun) one(t *Op, i, k int, r *out, obj **big.Float) {
	var spec BigSpec
	o := g.vary(t, i, k, &spec)
	var x *big.Float
	if o.X > 0 {
		x = spec.build()
		if x != nil && obj != nil {
			// The same object for other numbers.
			if *obj == nil {
				*obj = x
			}
			(*obj).Copy(x)
			x = *obj
		}
	}
	_, dst := privateDst(&o)
	exec(&o, x, dst, r)
	g.calls++
	if r.panic {
		g.panics++
	}
	g.dig = work.Mix(g.dig, hashBytes(r.enc))
}

// settle lets everything that is going to end by itself end, measures, and
// decides what comes next.
func (g *growRun) settle() {
	start := rt.StepNow()
	for d := time.Millisecond; d < 30*time.Hour && rt.StepNow()-start < 200_000; d *= 4 {
		rt.TimeSleep(d)
	}
	// What cleans up when it is called gets its chance, too.
	var r out
	for i, l := range g.lists {
		for j := range l {
			for v := 0; v < 2; v++ {
				g.one(&l[j], i, v, &r, nil)
			}
		}
	}
	r = out{}
	rt.TimeSleep(time.Minute)
	m := growPoint{calls: g.k, tasks: rt.Background()}
	if rt.Live() >= g.most-400 {
		// The stage was cut short.
		if m.tasks >= 600 {
			g.ms = append(g.ms, m)
			g.pileUp(m)
			g.over = true
			return
		}
		g.most = rt.Live() + 1000
	}
	if g.k < g.until && rt.StepNow() < g.step {
		return // on with the stage: those goroutines have ended
	}
	rt.FlushPools()
	for n := 0; n < 3; n++ {
		runtime.GC()
		runtime.Gosched()
	}
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	m.heap = int64(s.HeapAlloc)
	g.ms = append(g.ms, m)
	n := len(g.ms)
	first := g.ms[0]
	g.dig = work.Mix(g.dig, uint64(m.calls)<<20+uint64(m.tasks))
	if os.Getenv("SIM_GROW") != "" {
		fmt.Fprintf(os.Stderr, "run %d: %d calls, heap %+d, goroutines %d, step %d\n", g.sc.Run, m.calls, m.heap-first.heap, m.tasks, rt.StepNow())
	}
	done := func() { g.over = true }
	next := func(calls int) {
		g.until = calls
		g.step = 1 << 60
	}
	switch {
	case n == 1:
		next(4 * m.calls)
		return
	case n == 2:
		if m.heap-first.heap < growBytes && m.tasks-first.tasks < growTasks {
			done()
			return
		}
		if g.sc.Grow.Limit == 0 {
			g.find = &finding{oracle: "growth", sig: "growth:suspected"}
			done()
			return
		}
		g.period = m.calls / len(g.lists)
		g.cfg.FairAfter = rt.StepNow() + 3_000_000_000
		next(2 * m.calls)
		return
	}
	// Growth goes on when a quarter of the calls did not bring half of it.
	grows := func(v func(p growPoint) int64, min int64) bool {
		if v(m)-v(g.ms[n-2]) < min {
			return false
		}
		if n >= 4 {
			q := g.ms[n-3] // at a quarter of the calls
			return v(m)-v(first) >= 2*(v(q)-v(first))
		}
		return true
	}
	heap := func(p growPoint) int64 { return p.heap }
	tasks := func(p growPoint) int64 { return int64(p.tasks) }
	gh, gt := grows(heap, growBytes), grows(tasks, growTasks)
	if !gh && !gt {
		done()
		return
	}
	enough := n >= 5 && (m.calls >= g.sc.Grow.Limit || rt.StepNow() > 2_500_000_000)
	if gt && enough {
		g.pileUp(m)
		done()
		return
	}
	if gh && n >= 5 && (enough || m.heap-first.heap >= 64<<20) {
		g.find = &finding{oracle: "growth", sig: "growth:memory", detail: fmt.Sprintf("memory piles up: about %d more bytes stay reachable per 1000 calls, for as long as calls are made, with all callers idle, pools emptied and the collector run%s", round(1000*(m.heap-first.heap)/int64(m.calls-first.calls)), g.table())}
		done()
		return
	}
	next(2 * m.calls)
}

func (g *growRun) pileUp(m growPoint) {
	g.find = &finding{oracle: "growth", sig: "growth:goroutines", detail: fmt.Sprintf("goroutines or timers pile up: %d are left after %d calls, with all callers idle and a day of simulated time gone by%s", m.tasks, m.calls, g.table())}
}

// round keeps what does not depend on the process.
func round(n int64) int64 {
	for d := int64(1); ; d *= 2 {
		if n < 8*d {
			return (n + d/2) / d * d
		}
	}
}

func (g *growRun) table() string {
	s := ""
	for i, m := range g.ms {
		if i == 0 && len(g.ms) > 1 {
			continue
		}
		s += fmt.Sprintf("; after %d calls: %d goroutines", m.calls, m.tasks)
		if kb := (m.heap - g.ms[0].heap) >> 10; kb > 8 {
			s += fmt.Sprintf(", about %d KB", round(kb))
		}
	}
	return s
}
