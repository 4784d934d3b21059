package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"path"
	"sort"
	"strings"

	rt "github.com/mewmew/float/zzsim/rt"
	"github.com/mewmew/float/zzsim/work"
)

// other is a process that runs at the same time, as a scenario of its own.
func (sc *Scenario) other(i int) *Scenario {
	p := &sc.Others[i]
	s := *sc
	s.Others, s.Prev = nil, "none"
	s.Gen, s.Cwd, s.OutDir, s.Out, s.PID, s.CPUs, s.Rand, s.Vars, s.Delay, s.Faults = p.Gen, p.Cwd, p.OutDir, p.Out, p.PID, p.CPUs, p.Rand, p.Vars, p.Delay, p.Faults
	return &s
}

// alone is the output of a process when no other runs.
func (w *world) alone(s *Scenario) []byte {
	g := w.golden(s.Gen)
	if s.Out == "" {
		return g.out
	}
	k := fmt.Sprint(s.Gen, s.Out)
	if b, ok := w.named[k]; ok {
		return b
	}
	sc := plain(w.prop, s.Gen)
	sc.Out = s.Out
	_, b := w.execute(sc, nil, nil, false)
	w.rep.Stats["reference_runs"]++
	w.named[k] = b
	return b
}

// others draws the processes that run at the same time.
func (w *world) others(r *rt.Rand, sc *Scenario, g *golden) {
	n := 1
	if r.Intn(3) == 0 {
		n = 2
	}
	nanos := g.nanos
	for i := range w.gold {
		if o := w.golden(i); o.nanos > nanos {
			nanos = o.nanos
		}
	}
	sc.Slow = false
	late := func() int64 {
		switch r.Intn(4) {
		case 0:
			return int64(r.Uint64() % uint64(nanos+nanos/4+1))
		case 1:
			return int64(r.Uint64() % uint64(nanos/100+1))
		}
		return 0
	}
	sc.Delay = late()
	if r.Intn(2) == 0 {
		sc.Delay = 0
	}
	pause := func(gen int) []rt.Fault {
		var l []rt.Fault
		for k := r.Intn(3); k > 0; k-- {
			total := 0
			for _, c := range w.golden(gen).exit.Ops {
				total += c
			}
			at := 1 + r.Intn(total+2)
			switch r.Intn(3) {
			case 0:
				at = 1 + r.Intn(20)
			case 1:
				at = total + 3 - r.Intn(15)
			}
			if at < 1 {
				at = 1
			}
			d := int64(r.Uint64() % uint64(nanos+nanos/2))
			if r.Intn(2) == 0 {
				d >>= uint(r.Intn(16))
			} else if r.Intn(3) == 0 {
				// A process that is stopped for long, up to a minute or two.
				d = int64(1_000_000) << uint(r.Intn(18))
			}
			l = append(l, rt.Fault{Op: "any", Err: "PAUSE", Nth: at, Bytes: d})
		}
		return l
	}
	// One is stopped somewhere, another starts and is stopped too, the first
	// ends, then the other.
	turns := r.Intn(2) == 0
	stop := func(gen int, d int64) []rt.Fault {
		e := w.golden(gen).exit
		total := 0
		for _, c := range e.Ops {
			total += c
		}
		at := 1 + r.Intn(total+1)
		switch k := r.Intn(8); {
		case k < 5 && len(e.Turns) > 0:
			// Where something else begins.
			at = e.Turns[r.Intn(len(e.Turns))] + []int{0, 0, 0, 1, 1, 2}[r.Intn(6)]
		case k == 5:
			at = 1 + r.Intn(12)
		case k == 6:
			at = total + 2 - r.Intn(8)
		}
		if at < 1 {
			at = 1
		}
		return []rt.Fault{{Op: "any", Err: "PAUSE", Nth: at, Bytes: d}}
	}
	sc.Faults = pause(sc.Gen)
	if turns {
		sc.Delay = 0
		sc.Faults = stop(sc.Gen, 8*nanos)
	}
	failing := !turns && r.Intn(3) == 0
	for i := 0; i < n; i++ {
		p := Proc{Gen: sc.Gen, Cwd: sc.Cwd, OutDir: sc.OutDir, Out: sc.Out, PID: sc.PID + 1 + i*7 + r.Intn(5), CPUs: 1 + r.Intn(8), Rand: int64(r.Uint64() >> 1), Delay: late()}
		if r.Intn(4) > 0 {
			p.Vars = sc.Vars
		}
		k := r.Intn(8)
		if turns && i == 0 && r.Intn(2) == 0 {
			k = 7
		}
		switch {
		case k == 0 && len(w.meta.Gens) > 1, k == 1 && len(w.meta.Gens) > 1: // another generator, in its own directory
			p.Gen = (sc.Gen + 1 + r.Intn(len(w.meta.Gens)-1)) % len(w.meta.Gens)
			p.Cwd = path.Join(path.Dir(sc.Cwd), "other", w.meta.Gens[p.Gen].Dir)
			p.OutDir = ""
		case k == 2: // another checkout
			p.Cwd = "/home/someone/else/" + w.meta.Gens[p.Gen].Dir
			p.OutDir = ""
		case k == 3 || failing: // another output
			p.Out = fmt.Sprintf("golden%d_test.go", i)
			if r.Intn(3) == 0 {
				p.Out = fmt.Sprintf("extra%d_test.go", i)
			}
		case k == 4: // the same name elsewhere
			p.OutDir = "/out/" + fmt.Sprint(i)
		}
		p.Faults = pause(p.Gen)
		if turns && i == 0 {
			p.Delay = 2 * nanos
			p.Faults = nil
			if r.Intn(3) > 0 {
				p.Faults = stop(p.Gen, 32*nanos)
			}
		}
		s := *sc
		s.Others = nil
		s.Gen, s.Cwd, s.OutDir, s.Out = p.Gen, p.Cwd, p.OutDir, p.Out
		if failing && w.outFile(&s) != w.outFile(sc) {
			s.Faults = nil
			if r.Intn(2) == 0 {
				w.faults(r, &s, w.golden(p.Gen))
			} else {
				s.Crashes = nil
				w.crashes(r, &s, w.golden(p.Gen))
				s.Faults = s.Crashes[0].Faults
			}
			p.Faults = append(p.Faults, s.Faults...)
		}
		sc.Others = append(sc.Others, p)
	}
	sc.Mode = []int{0, 1, 1, 3, 3, 3, 5}[r.Intn(7)]
	sc.Mean = []int64{10, 100, 1000, 10_000}[r.Intn(4)]
	sc.StallLen = []int{2, 20, 200, 2000}[r.Intn(4)]
	sc.StallPct = []int{0, 0, 1, 5}[r.Intn(4)]
}

// together runs several generators at the same time, on one machine.
func (w *world) together(sc *Scenario, prev []byte, keep bool) *outcome {
	ss := []*Scenario{sc}
	for i := range sc.Others {
		ss = append(ss, sc.other(i))
	}
	var envs []*rt.Env
	var files []string
	var clients []func()
	est := int64(1_000_000)
	for i, s := range ss {
		g := w.golden(s.Gen)
		if g.problem != "" {
			return &outcome{res: &rt.Result{}, exit: g.exit}
		}
		est += 4 * g.steps
		p := prev
		if i > 0 {
			p = nil
		}
		e, file := w.env(s, p, nil)
		envs = append(envs, e)
		files = append(files, file)
		s := s
		clients = append(clients, func() { rt.RunProcess(s.main) })
	}
	c := &rt.Config{Seed: sc.SchedSeed, Mode: sc.Mode, Mean: sc.Mean, Changes: sc.Changes, Est: est / 4, StallPct: sc.StallPct, StallLen: sc.StallLen,
		PoolFaults: sc.PoolFaults, ClockJumps: sc.ClockJumps, FairAfter: 4 * est, MaxFair: 4*est + 10_000_000, NumCPU: sc.CPUs,
		WatchSites: []int32{rt.SiteIO}, Replay: sc.Replay, Decisions: sc.Decisions, Choices: sc.Choices, KeepTrace: keep,
		Envs: envs, SaveVars: saveAll, Process: true}
	res := rt.Run(c, clients)
	exits := rt.Exits()
	now := rt.LastFS().Contents()
	o := &outcome{res: res, exit: exits[0], dig: res.Hash}
	st, ft := w.rep.Stats, w.rep.Faults
	st["steps"] += res.Steps
	st["context_switches"] += res.Switches
	st["goroutines"] += res.Spawned
	st["sim_nanos"] += res.SimNanos
	ft["stalled_process"] += res.Stalls
	ft["overlapping_process"] += int64(len(sc.Others))
	ft["clock_jump"] += res.Jumps
	h := fnv.New64a()
	for i, e := range exits {
		h.Write(now[files[i]])
		h.Write(e.Stderr)
		o.dig = work.Mix(o.dig, h.Sum64(), uint64(e.Code), uint64(e.Written))
		st["bytes_written"] += e.Written
		for _, k := range fired(e) {
			ft[k] += int64(e.Fired[k])
			o.dig = work.MixS(o.dig, k)
		}
	}
	// A process that was killed or met an error owes nothing, and neither does
	// one that wrote to the same file.
	spoilt := map[string]bool{}
	hurt := make([]bool, len(ss))
	for i, s := range ss {
		for _, f := range s.Faults {
			if f.Err != "PAUSE" {
				hurt[i] = true
				spoilt[files[i]] = true
			}
		}
	}
	for i, s := range ss {
		if hurt[i] || spoilt[files[i]] {
			continue
		}
		want, e := w.alone(s), exits[i]
		name := w.meta.Gens[s.Gen].Dir
		bad := func(oracle, f string, a ...any) {
			if o.find == nil {
				o.find = &finding{oracle, oracle + ":" + name + ":", fmt.Sprintf("process %d, the generator of %s with the output %s, ", i+1, name, files[i]) + fmt.Sprintf(f, a...)}
			}
		}
		out, there := now[files[i]]
		switch {
		case !e.Exited && (res.Deadlock || res.Livelock):
			bad("hang", "does not end while others run: %s", strings.Join(res.Stuck, "; "))
		case !e.Exited:
			// It waits for nothing, and nobody is left.
			bad("hang", "does not end while others run")
		case e.Code != 0:
			bad("exit", "exits with status %d while others run, although nothing fails: %s", e.Code, clip(e.Stderr))
		case !there:
			bad("output", "leaves no output file after others have run at the same time")
		case !bytes.Equal(out, want):
			bad("output", "leaves a wrong output after others have run at the same time: %s", differ(out, want))
		}
		var names []string
		for n := range w.files[s.Gen] {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			p := path.Join(s.Cwd, n)
			mine := false
			for _, f := range files {
				mine = mine || f == p
			}
			if !mine && !bytes.Equal(now[p], w.files[s.Gen][n]) {
				bad("input", "finds its source file %s changed", n)
			}
		}
	}
	return o
}
