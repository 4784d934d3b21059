// Package simrt is the simulation runtime: a seeded scheduler that decides
// which caller runs at every instrumented point, and the simulated versions
// of the primitives the code under test may use. Exactly one task runs at any
// time. Handoffs between the scheduler and tasks are invisible to the race
// detector, so in a race build it sees only the synchronisation the code under
// test performs itself.
package simrt

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
)

const (
	stReady uint8 = iota
	stBlocked
	stDone
)

// Task is one simulated goroutine.
type Task struct {
	ID      int
	resume  chan struct{}
	state   uint8
	client  bool
	inOp    bool
	opYield int64 // yields of this task so far
	epoch   uint64
	until   int64 // deadline of a sleep, 0 when none
	why     string
	sel     *selState // waits for this alone
	site    int32
	stall   int // remaining scheduling decisions of a stall
	prio    uint64
	fn      func()
	fin     sync.WaitGroup
	proc    *proc
}

// Decision lets task T run for at most N yield points.
type Decision [2]int64

// Config of one run.
type Config struct {
	Seed       uint64
	Mode       int     // 0 serial, 1 uniform, 2 priorities, 3 stall at a site, 4 lockstep, 5 bursts
	Mean       int64   // mean slice
	Changes    int     // priority change points
	Est        int64   // estimated steps of the run
	WatchSites []int32 // candidates for mode 3
	StallPct   int     // chance per decision, in percent, to stall the task that just ran
	StallLen   int     // longest stall in decisions
	PoolFaults bool
	ClockJumps bool
	FairAfter  int64 // yields after which faults stop
	MaxFair    int64 // yields allowed after that
	Replay     bool
	Decisions  []Decision
	Choices    []int64
	OnSwitch   func()
	Hook       func()
	NumCPU     int
	KeepTrace  bool
	Env        *Env
	Init       func()        // the initialisation of the packages, before the clients start
	NoRecord   bool          // keep nothing of the run: for measuring what the code keeps
	Envs       []*Env        // each client is a process of its own, in the environment of the same number
	SaveVars   func() func() // saves the package-level variables
	Effects    bool          // note what the code does to its process
	Process    bool          // the client is a process: everything stops when it exits
}

// Result of one run.
type Result struct {
	Decisions []Decision
	Choices   []int64
	Parked    []int32 // site where each decision ended
	Steps     int64
	Switches  int64
	Overlaps  int64 // preemptions inside a call while another call is in progress
	Stalls    int64
	PoolDrops int64
	Jumps     int64
	Spawned   int64
	Blocks    int64
	Hash      uint64
	Deadlock  bool
	Livelock  bool
	Stuck     []string
	Crash     string // panic in a goroutine started by the library
	SimNanos  int64
	ClockUsed int64
}

var (
	cur    *Task
	budget int64 = 1 << 62
	given  int64 = 1 << 62
	hook   func()
	watch  int32 = -100
	watchN int64
	// Hits counts visits per site.
	Hits []uint32

	run      *Result
	cfg      *Config
	tasks    []*Task // all of them; with NoRecord only the clients
	live     []*Task // those that are not done, in the order of their start
	nTasks   int
	rng      Rand
	parked   chan struct{}
	epoch    uint64
	now      int64
	jumped   int64 // by clock jumps
	setBy    int64 // how far the wall clock has been set
	choiceI  int
	hung     bool
	hitWatch bool
)

// Site numbers below zero are the simulator's own yield points.
const (
	SiteOp    int32 = -1 // boundary between two client operations
	SiteStart int32 = -2
	SiteBlock int32 = -3
	SiteEnd   int32 = -4
)

// Y is a yield point.
//
//go:norace
func Y(site int32) {
	if uint32(site) < uint32(len(Hits)) {
		Hits[site]++
	}
	if hook != nil {
		hook()
	}
	budget--
	if budget > 0 && site != watch {
		return
	}
	slow(site)
}

// V yields after a shared load or a call has produced v.
func V[T any](site int32, v T) T {
	Y(site)
	return v
}

// YT yields and returns true.
func YT(site int32) bool {
	Y(site)
	return true
}

// YF yields and returns false.
func YF(site int32) bool {
	Y(site)
	return false
}

// Zero clears a package-level variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

//go:norace
func slow(site int32) {
	if cur == nil {
		budget = 1 << 62
		return
	}
	if budget > 0 { // the watched site
		watchN--
		if watchN > 0 {
			return
		}
		watch = -100
		hitWatch = true
	}
	park(site, stReady)
}

//go:norace
func park(site int32, st uint8) {
	t := cur
	t.state = st
	t.site = site
	if t == initTask {
		initWait(t)
		return
	}
	raceDisable()
	parked <- struct{}{}
	<-t.resume
	raceEnable()
	if killing {
		panic(exitSignal{0})
	}
}

// OpBoundary is a yield point between two operations of a client.
//
//go:norace
func OpBoundary() {
	if cur != nil && cfg.Mode == 0 && !cfg.Replay {
		given -= budget - 1
		budget = 1
	}
	Y(SiteOp)
}

// BeginOp and EndOp bracket a call into the library.
//
//go:norace
func BeginOp() {
	if cur != nil {
		cur.inOp = true
	}
}

//go:norace
func EndOp() {
	if cur != nil {
		cur.inOp = false
	}
}

// InOp says whether the running task is inside a library call.
//
//go:norace
func InOp() bool { return cur != nil && cur.inOp }

// CurID is the running task's number.
//
//go:norace
func CurID() int {
	if cur == nil {
		return -1
	}
	return cur.ID
}

// CurSite is the site at which the running task last parked; for messages.
//
//go:norace
func StepNow() int64 {
	if run == nil {
		return 0
	}
	return run.Steps + (given - budget)
}

// changed tells blocked tasks to look again.
//
//go:norace
func changed() { epoch++ }

// block parks the running task until something has changed.
//
//go:norace
func block(why string) {
	if cur == nil {
		panic("simrt: blocked outside a simulation: " + why)
	}
	run.Blocks++
	cur.epoch = epoch
	cur.why = why
	park(SiteBlock, stBlocked)
	cur.why = ""
}

// sleepUntil parks the running task until simulated time d.
//
//go:norace
func sleepUntil(d int64) {
	if cur == nil {
		return
	}
	cur.until = d
	for now < d {
		cur.epoch = epoch
		cur.why = "sleep"
		park(SiteBlock, stBlocked)
	}
	cur.until = 0
	cur.why = ""
}

// sleepTimer is the same for a timer that may be stopped or set again: then the
// one in *by is woken.
//
//go:norace
func sleepTimer(d int64, by **Task, off func() bool) {
	if cur == nil {
		return
	}
	me := cur
	*by = me
	me.until = d
	for now < d && !off() {
		me.epoch = epoch
		me.why = "sleep"
		park(SiteBlock, stBlocked)
	}
	me.until = 0
	me.why = ""
	if *by == me {
		*by = nil
	}
}

//go:norace
func wakeSleeper(by **Task) {
	if x := *by; x != nil && x.state == stBlocked && x.until != 0 {
		x.until = 1
	}
	*by = nil
}

// Go starts a goroutine of the code under test.
//
//go:norace
func Go(f func()) {
	if cur == nil {
		return
	}
	run.Spawned++
	startTask(f, false)
	Y(SiteStart)
}

// initTask is the goroutine of the harness while it initialises packages.
// Nothing preempts it, but it can wait for goroutines it has started.
var initTask = &Task{ID: -1, why: "initialisation"}

type initStuck struct{}

// The initialisers also run when the program starts.
func init() {
	cfg = &Config{}
	run = &Result{}
	begin(0)
	cur = initTask
	// What initialisers read from files is there.
	for i, a := range os.Args {
		if a != "-src" || i+1 >= len(os.Args) {
			continue
		}
		l, _ := filepath.Glob(os.Args[i+1] + "/*/*.*")
		for _, f := range l {
			if b, err := os.ReadFile(f); err == nil && !strings.HasSuffix(f, ".go") {
				fsFiles["/sim/"+filepath.Base(f)] = &inode{data: b}
			}
		}
	}
}

//go:norace
func begin(clients int) {
	rng.Seed(cfg.Seed)
	nTasks = clients
	tasks = make([]*Task, clients)
	live = nil
	poolsReset()
	parked = make(chan struct{})
	epoch = 1
	choiceI = 0
	hung = false
	now = 1_600_000_000_000_000_000 + int64(cfg.Seed%1_000_000_000)*1_000_000
	rvReset()
	envReset()
	jumped, setBy = 0, 0
	*initTask = Task{ID: -1, why: "initialisation"}
}

//go:norace
func initWait(t *Task) {
	raceDisable()
	rr := 0
	for n := 0; !runnable(t); n++ {
		var c *Task
		next := t.until
		for k := range live {
			x := live[(rr+1+k)%len(live)]
			if runnable(x) {
				rr = (rr + 1 + k) % len(live)
				c = x
				break
			}
			if x.state == stBlocked && x.until != 0 && (next == 0 || x.until < next) {
				next = x.until
			}
		}
		if c == nil && next > now {
			now = next
			continue
		}
		if c == nil || n > 1_000_000 {
			raceEnable()
			panic(initStuck{})
		}
		given, budget = 200, 200
		cur = c
		c.why = ""
		c.resume <- struct{}{}
		<-parked
		if used := given - budget; used > 0 {
			run.Steps += used
			now += used * 50
		}
		if c.state == stDone {
			buryDone()
			rr = 0
		}
	}
	cur = t
	t.state = stReady
	given, budget = 1<<62, 1<<62
	raceEnable()
}

// Restart is a new process: nothing of the old one goes on, except the
// client that asks for it.
//
//go:norace
func Restart(initialise func()) {
	for _, t := range live {
		if t != cur && !t.client && t.state != stDone {
			t.state, t.until, t.sel = stBlocked, 0, &selState{}
		}
	}
	initialise()
}

//go:norace
func startTask(f func(), client bool) *Task {
	t := &Task{ID: nTasks, resume: make(chan struct{}), client: client, fn: f, site: SiteStart}
	nTasks++
	if !cfg.NoRecord {
		tasks = append(tasks, t)
	}
	launch(t)
	return t
}

//go:norace
func launch(t *Task) {
	t.prio = rng.Uint64() | 1<<63
	if cur != nil {
		t.proc = cur.proc
	}
	live = append(live, t)
	t.fin.Add(1)
	go taskMain(t)
}

//go:norace
func taskMain(t *Task) {
	raceDisable()
	<-t.resume
	raceEnable()
	defer taskEnd(t) // also after runtime.Goexit
	if !killing {
		taskBody(t)
	}
}

//go:norace
func taskEnd(t *Task) {
	t.state = stDone
	t.site = SiteEnd
	t.fin.Done()
	raceDisable()
	parked <- struct{}{}
	raceEnable()
}

//go:norace
func taskBody(t *Task) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(exitSignal); ok || killing {
				return
			}
			if c := cfg; c.Process && !frozen {
				exit.Panic = fmt.Sprint(e)
				fmt.Fprintf(Stderr, "panic: %v\n", e)
				Freeze(2)
			}
			if run.Crash == "" {
				run.Crash = fmt.Sprintf("task %d: %v", t.ID, e)
			}
		}
	}()
	t.fn()
}

// Choose makes a recorded choice in [0,n).
//
//go:norace
func Choose(n int) int {
	if run == nil || n <= 1 {
		return 0
	}
	c := 0
	if cfg.Replay {
		if choiceI < len(cfg.Choices) {
			c = int(cfg.Choices[choiceI]) % n
		}
		choiceI++
	} else {
		c = rng.Intn(n)
	}
	if !cfg.NoRecord {
		run.Choices = append(run.Choices, int64(c))
	}
	return c
}

//go:norace
func runnable(t *Task) bool {
	if t.proc != nil && t.proc.ended {
		return false
	}
	switch t.state {
	case stReady:
		return true
	case stBlocked:
		if t.until != 0 {
			return now >= t.until
		}
		if t.sel != nil {
			return t.sel.fired || t.sel.woken
		}
		return t.epoch != epoch
	}
	return false
}

// Run executes the clients under the scheduler.
//
//go:norace
func Run(c *Config, clients []func()) *Result {
	cfg = c
	run = &Result{}
	begin(len(clients))
	procsReset(c)
	start := now
	ok := true
	if c.Init != nil {
		ok = initialise(c.Init)
	}
	for i, f := range clients {
		t := &Task{ID: i, resume: make(chan struct{}), client: true, fn: f, site: SiteStart}
		tasks[i] = t
		if len(procs) > 0 {
			t.proc = procs[i]
		}
		if ok {
			launch(t)
		}
	}
	raceDisable()
	if ok {
		loop(c)
	}
	killRest()
	raceEnable()
	cur = nil
	budget = 1 << 62
	given = 1 << 62
	watch = -100
	hook = nil
	for _, t := range tasks {
		if t.state == stDone {
			t.fin.Wait()
		}
	}
	r := run
	r.SimNanos = now - start - jumped
	run = nil
	return r
}

//go:norace
func initialise(f func()) (ok bool) {
	cur = initTask
	defer func() {
		cur = nil
		if !ok {
			if e := recover(); e != (initStuck{}) {
				panic(e)
			}
			run.Deadlock = true
			run.Stuck = append(run.Stuck, "the initialisation of the packages blocked on "+initTask.why)
		}
	}()
	f()
	return true
}

//go:norace
func clientsLeft() int {
	n := 0
	for _, t := range live {
		if t.client && t.state != stDone && !(t.proc != nil && t.proc.ended) {
			n++
		}
	}
	return n
}

// buryDone drops finished tasks from the list.
//
//go:norace
func buryDone() {
	k := 0
	for i := 0; i < len(live); i++ {
		if live[i].state != stDone {
			live[k] = live[i]
			k++
		}
	}
	for i := k; i < len(live); i++ {
		live[i] = nil
	}
	live = live[:k]
}

// Live is Background and the callers.
//
//go:norace
func Live() int { return len(live) }

// Background is the number of goroutines of the code under test that have not
// ended.
//
//go:norace
func Background() int {
	n := 0
	for _, t := range live {
		if !t.client && t.state != stDone {
			n++
		}
	}
	return n
}

//go:norace
func loop(c *Config) {
	var cand []*Task
	di := 0
	rr := 0
	drain := int64(200_000)
	fairUsed := int64(0)
	last := -1
	var lastTask *Task
	hash := uint64(14695981039346656037)
	var changeAt []int64
	if c.Mode == 2 {
		for i := 0; i < c.Changes; i++ {
			changeAt = append(changeAt, int64(rng.Uint64()%uint64(c.Est+1)))
		}
	}
	nextWatch := func() {
		watch = -100
		if c.Mode == 3 && len(c.WatchSites) > 0 {
			watch = c.WatchSites[rng.Intn(len(c.WatchSites))]
			watchN = 1 + int64(rng.Geom(2))
		}
	}
	if !c.Replay {
		nextWatch()
	}
	for {
		left := clientsLeft()
		if c.Process && (frozen && procs == nil || left == 0) {
			break
		}
		cand = cand[:0]
		minUntil := int64(0)
		for _, t := range live {
			if runnable(t) {
				cand = append(cand, t)
			} else if t.state == stBlocked && t.until != 0 && (t.proc == nil || !t.proc.ended) && (minUntil == 0 || t.until < minUntil) {
				minUntil = t.until
			}
		}
		if len(cand) == 0 {
			if minUntil != 0 && left > 0 {
				now = minUntil
				continue
			}
			if left > 0 {
				run.Deadlock = true
				for _, t := range live {
					if t.state != stDone {
						run.Stuck = append(run.Stuck, fmt.Sprintf("task %d blocked on %s", t.ID, t.why))
					}
				}
			}
			break
		}
		if left == 0 {
			if drain <= 0 {
				break
			}
		}
		fair := run.Steps > c.FairAfter
		if fair && fairUsed > c.MaxFair {
			run.Livelock = true
			for _, t := range live {
				if t.state != stDone {
					run.Stuck = append(run.Stuck, fmt.Sprintf("task %d still running", t.ID))
				}
			}
			break
		}
		var t *Task
		var n int64
		switch {
		case c.Replay && di < len(c.Decisions):
			d := c.Decisions[di]
			di++
			if int(d[0]) >= len(tasks) || d[0] < 0 || !runnable(tasks[d[0]]) || d[1] <= 0 {
				continue
			}
			t, n = tasks[d[0]], d[1]
		case c.Replay || fair || left == 0:
			rr++
			t = cand[rr%len(cand)]
			n = 200
			if c.Replay && !fair && left > 0 {
				t = cand[0]
				n = 1 << 40
				if c.FairAfter+1-run.Steps < n {
					n = c.FairAfter + 1 - run.Steps
				}
			}
		default:
			t, n = pick(c, cand, last, &changeAt, &rr)
			if c.NoRecord && len(live) > 64 && n < 1<<30 {
				n *= int64(len(live)) / 32
			}
		}
		if left > 0 && n > 1_000_000 {
			// Keeps a spinning task from running alone for ever.
			if lim := c.FairAfter + 1 - run.Steps; !fair && n > lim && lim > 0 {
				n = lim
			}
		}
		// Run the slice.
		if t.ID != last {
			run.Switches++
			if lastTask != nil && lastTask.state != stDone && lastTask.inOp {
				run.Overlaps++
			}
		}
		hitWatch = false
		if t.proc != curProc {
			switchTo(t.proc)
		}
		given = n
		budget = n
		cur = t
		t.why = ""
		hook = c.Hook
		t.resume <- struct{}{}
		<-parked
		hook = nil
		used := given - budget
		if used < 0 {
			used = 0
		}
		cur = nil
		given, budget = 1<<62, 1<<62
		run.Steps += used
		if fair {
			fairUsed += used + 1
		}
		if left == 0 {
			drain -= used + 1
		}
		now += used * 50
		rec := used
		if t.state != stReady || rec == 0 {
			rec = used + 1
		}
		last, lastTask = t.ID, t
		if t.state == stDone {
			buryDone()
		}
		if curProc != nil && frozen {
			curProc.ended = true
		}
		if c.KeepTrace || c.Replay {
			run.Decisions = append(run.Decisions, Decision{int64(t.ID), rec})
			run.Parked = append(run.Parked, t.site)
		}
		hash = (hash ^ uint64(t.ID)) * 1099511628211
		hash = (hash ^ uint64(uint32(t.site))) * 1099511628211
		hash = (hash ^ uint64(used)) * 1099511628211
		if c.OnSwitch != nil {
			c.OnSwitch()
		}
		if !c.Replay && !fair && left > 0 {
			if hitWatch {
				t.stall = 1 + rng.Intn(c.StallLen+1)
				run.Stalls++
				nextWatch()
			} else if c.StallPct > 0 && t.state != stDone && rng.Intn(100) < c.StallPct {
				t.stall = 1 + rng.Intn(c.StallLen+1)
				run.Stalls++
			}
		}
	}
	run.Hash = hash
}

// killRest unwinds the tasks a finished process leaves behind.
//
//go:norace
func killRest() {
	if procs != nil {
		switchTo(nil)
		frozen = true
	}
	killing = true
	for k := 0; k < len(live); k++ {
		t := live[k]
		for i := 0; i < 100 && t.state != stDone; i++ {
			cur = t
			given, budget = 1<<62, 1<<62
			t.resume <- struct{}{}
			<-parked
		}
	}
	killing = false
	cur = nil
}

//go:norace
func pick(c *Config, cand []*Task, last int, changeAt *[]int64, rr *int) (*Task, int64) {
	// Stalled tasks wait while anybody else can run.
	var live []*Task
	for _, t := range cand {
		if t.stall > 0 {
			t.stall--
		} else {
			live = append(live, t)
		}
	}
	if len(live) == 0 {
		live = cand
	}
	switch c.Mode {
	case 0:
		return live[rng.Intn(len(live))], 1 << 40
	case 2:
		best := live[0]
		for _, t := range live {
			if t.prio > best.prio {
				best = t
			}
		}
		// Run until the next change point.
		n := int64(1 << 40)
		var rest []int64
		for _, at := range *changeAt {
			if at > run.Steps {
				rest = append(rest, at)
				if d := at - run.Steps; d < n {
					n = d
				}
			}
		}
		if len(rest) < len(*changeAt) {
			best.prio = rng.Uint64() >> 2 // the running task drops to the bottom
			*changeAt = rest
			return pick(c, cand, last, changeAt, rr)
		}
		if n > 20_000 {
			n = 20_000
			if rng.Intn(4) == 0 {
				best.prio = rng.Uint64() >> 2
			}
		}
		return best, n
	case 4:
		*rr++
		return live[*rr%len(live)], 1 + int64(rng.Intn(2))
	case 5:
		t := live[rng.Intn(len(live))]
		if rng.Intn(3) == 0 {
			return t, 1 + int64(rng.Intn(3))
		}
		return t, 1 + int64(rng.Geom(int(c.Mean*4)))
	}
	return live[rng.Intn(len(live))], 1 + int64(rng.Geom(int(c.Mean)))
}

// IsExit says whether a recovered panic value is the simulator's own, which
// must be passed on.
func IsExit(e any) bool {
	_, ok := e.(exitSignal)
	return ok
}

// Rand is a small deterministic generator (splitmix64), independent of the Go
// release.
type Rand struct{ s uint64 }

//go:norace
func (r *Rand) Seed(s uint64) { r.s = s*0x9E3779B97F4A7C15 + 0x1234567 }

//go:norace
func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Geom draws from a geometric-like distribution with the given mean.
//
//go:norace
func (r *Rand) Geom(mean int) int {
	if mean <= 0 {
		return 0
	}
	n := 0
	// Scale so that large means stay cheap.
	unit := mean/16 + 1
	for r.Intn(mean/unit+1) != 0 && n < mean*20 {
		n += unit
	}
	if unit > 1 {
		n += r.Intn(unit)
	}
	return n
}
