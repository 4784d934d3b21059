// Command lib simulates callers of the library.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"time"

	rt "github.com/mewmew/float/zzsim/rt"
	"github.com/mewmew/float/zzsim/work"
)

// ReplayFile is what a violation leaves behind.
type ReplayFile struct {
	Violation  work.Violation `json:"violation"`
	VerifSeed  uint64         `json:"verif_seed"`
	Minimised  bool           `json:"minimised"`
	Original   map[string]int `json:"original_size"`
	Size       map[string]int `json:"size"`
	Calls      [][]string     `json:"calls"`
	Schedule   []string       `json:"schedule"`
	Scenario   *Scenario      `json:"scenario"`
	Reproduced bool           `json:"reproduced"`
}

var (
	fMeta   = flag.String("meta", "", "build description")
	fProp   = flag.String("prop", "", "property")
	fSeed   = flag.Uint64("seed", 1, "seed")
	fShard  = flag.Int("shard", 0, "shard")
	fOf     = flag.Int("of", 1, "shards")
	fRuns   = flag.Int64("runs", 100, "runs over all shards")
	fSecs   = flag.Float64("secs", 60, "time limit")
	fReport = flag.String("report", "", "report file")
	fCand   = flag.String("cand", "", "where to put a violating scenario")
	fMin    = flag.String("minimise", "", "scenario to minimise")
	fOut    = flag.String("out", "", "replay file to write")
	fReplay = flag.String("replay", "", "replay file to execute")
	fKnown  = flag.String("known", "", "file of known findings: property, tab, signature expression")
	fDigest = flag.Int64("digest", 0, "runs whose digests to report")
	fTrial  = flag.Bool("trial", false, "replay only says whether it fails")
	fVerb   = flag.Bool("v", false, "log")
)

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(1)
	meta, err := work.LoadMeta(*fMeta)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	literals = meta.Literals
	rt.Hits = make([]uint32, len(meta.Sites))
	w := &world{prop: *fProp, meta: meta, rep: work.NewReport(*fShard), memo: map[string]*aloneRes{}, race: rt.RaceBuild, racelog: os.Getenv("SIM_RACELOG")}
	rt.Run(&rt.Config{Seed: 1, FairAfter: 1 << 40, MaxFair: 1, NumCPU: 4, Init: resetAll}, nil)
	w.specials = specialsNow()
	switch {
	case *fReplay != "":
		os.Exit(w.replay(*fReplay))
	case *fMin != "":
		os.Exit(w.minimise(*fMin, *fOut, *fSecs))
	}
	os.Exit(w.search())
}

type known struct {
	prop string
	re   *regexp.Regexp
}

func loadKnown() []known {
	var l []known
	b, err := os.ReadFile(*fKnown)
	if err != nil {
		return nil
	}
	var fs []struct{ Property, Signature string }
	if json.Unmarshal(b, &fs) != nil {
		return nil
	}
	for _, f := range fs {
		l = append(l, known{f.Property, regexp.MustCompile(f.Signature)})
	}
	return l
}

func (w *world) search() int {
	start := time.Now()
	hashes := map[uint64]struct{}{}
	kn := loadKnown()
	rep := w.rep
	code := 0
	done := int64(0)
	for r := int64(*fShard); r < *fRuns; r += int64(*fOf) {
		if time.Since(start).Seconds() > *fSecs {
			rep.Stopped = true
			break
		}
		sc := generate(w.prop, *fSeed, r, w.race)
		o := w.run(sc, false)
		done++
		rep.Runs++
		rep.Modes[fmt.Sprintf("%s/%s", sc.Kind, modeNames[sc.Mode])]++
		for _, l := range sc.Tasks {
			for i := range l {
				rep.Ops[l[i].Fn]++
			}
		}
		rep.Stats["callers"] += int64(len(sc.Tasks))
		if o.res.Switches > 1 || sc.Kind == "history" {
			if len(hashes) < 2_000_000 {
				hashes[o.dig] = struct{}{}
			}
		}
		if r < *fDigest {
			rep.Digests = append(rep.Digests, uint64(r), o.dig)
		}
		if len(rep.Samples) < 3 && r%7 == int64(*fShard)%7 {
			rep.Samples = append(rep.Samples, sample(sc, o))
		}
		if o.find != nil && sc.Grow != nil {
			if sc, o = w.confirm(sc); o.find == nil {
				continue
			}
		}
		if o.find != nil {
			if w.prop == "C07" && !w.necessary(sc, o.find) {
				rep.Stats["violations_without_panic_ignored"]++
				continue
			}
			if w.prop == "C25" && !w.surrNecessary(sc, 24) {
				rep.Stats["violations_without_surroundings_ignored"]++
				continue
			}
			isKnown := false
			for _, k := range kn {
				if k.prop == w.prop && k.re.MatchString(o.find.sig) {
					rep.Known[k.re.String()]++
					isKnown = true
				}
			}
			if isKnown {
				continue
			}
			rep.Viol = w.violation(sc, o)
			rep.Cand = *fCand
			if err := work.Save(*fCand, sc); err != nil {
				rep.Error = err.Error()
			}
			code = 1
			break
		}
	}
	rep.Wall = time.Since(start).Seconds()
	for i, h := range rt.Hits {
		if h > 0 {
			rep.Sites = append(rep.Sites, int32(i))
		}
	}
	rep.Hashes = len(hashes)
	if *fReport != "" {
		work.SaveHashes(*fReport+".hashes", hashes)
		if err := work.Save(*fReport, rep); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	return code
}

var modeNames = []string{"serial", "uniform", "priorities", "stall-at-site", "lockstep", "bursts"}

func sample(sc *Scenario, o *outcome) any {
	var calls []string
	for t, l := range sc.Tasks {
		for i := range l {
			if len(calls) >= 12 {
				break
			}
			if l[i].Fn != "restart" {
				calls = append(calls, fmt.Sprintf("%d: %s", t, l[i].describe(sc.Specs)))
			}
		}
	}
	return map[string]any{"run": sc.Run, "kind": sc.Kind, "scheduler": modeNames[sc.Mode], "mean_slice": sc.Mean, "callers": len(sc.Tasks), "calls": calls,
		"steps": o.res.Steps, "context_switches": o.res.Switches, "overlapping_preemptions": o.res.Overlaps, "stalls": o.res.Stalls, "digest": fmt.Sprintf("%016x", o.dig)}
}

func (w *world) violation(sc *Scenario, o *outcome) *work.Violation {
	return &work.Violation{Property: sc.Property, Oracle: o.find.oracle, Sig: o.find.sig, Detail: o.find.detail}
}

// necessary: the violation needs the panicking calls. Without them, under many
// schedules, the rest of the scenario behaves.
func (w *world) necessary(sc *Scenario, f *finding) bool {
	c := *sc
	c.Tasks = nil
	n := 0
	var kb []byte
	for _, l := range sc.Tasks {
		var m []Op
		for i := range l {
			o := l[i]
			if o.Fn != "restart" {
				kb = o.key(sc.Specs, kb[:0])
				if w.alone(&o, sc.Specs, kb).panics {
					n++
					continue
				}
			}
			m = append(m, o)
		}
		c.Tasks = append(c.Tasks, m)
	}
	if n == 0 {
		return false
	}
	c.Replay = false
	c.Decisions, c.Choices = nil, nil
	tries := 24
	if len(sc.Tasks) == 1 {
		tries = 4
	}
	for k := 0; k < tries; k++ {
		if k > 0 {
			c.SchedSeed = work.Mix(sc.SchedSeed, uint64(k))
			if len(sc.Tasks) > 1 && k > 4 {
				c.Mode = []int{1, 3, 4, 5, 2}[k%5]
				c.Mean = []int64{1, 3, 10, 40}[k%4]
			}
		}
		if w.run(&c, false).find != nil {
			return false
		}
	}
	return true
}

func load(p string) (*Scenario, *ReplayFile, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, nil, err
	}
	rf := &ReplayFile{}
	if err := json.Unmarshal(b, rf); err == nil && rf.Scenario != nil {
		return rf.Scenario, rf, nil
	}
	sc := &Scenario{}
	return sc, nil, json.Unmarshal(b, sc)
}

func (w *world) replay(p string) int {
	sc, rf, err := load(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	w.prop = sc.Property
	o := w.run(sc, true)
	if o.find == nil {
		if !*fTrial {
			fmt.Printf("replay: no violation\n")
		}
		return 0
	}
	if *fTrial && *fOut != "" {
		s := *sc
		s.Replay, s.Decisions, s.Choices = true, o.res.Decisions, o.res.Choices
		work.Save(*fOut, &s)
	}
	if rf != nil && !*fTrial && o.find.oracle != rf.Violation.Oracle {
		fmt.Printf("replay: another violation (%s, was %s)\n", o.find.oracle, rf.Violation.Oracle)
	}
	if !*fTrial {
		fmt.Printf("replay: %s: %s\n", o.find.oracle, o.find.detail)
		if *fVerb {
			for _, l := range w.schedule(sc, o) {
				fmt.Println(l)
			}
		}
	}
	return 1
}

func size(sc *Scenario) map[string]int {
	n, mx := 0, 0
	for _, l := range sc.Tasks {
		n += len(l)
		if len(l) > mx {
			mx = len(l)
		}
	}
	return map[string]int{"callers": len(sc.Tasks), "calls": n, "decisions": len(sc.Decisions)}
}

// schedule is the readable form of the decisions.
func (w *world) schedule(sc *Scenario, o *outcome) []string {
	var l []string
	for i, d := range o.res.Decisions {
		if i > 400 {
			l = append(l, "...")
			break
		}
		where := ""
		if i < len(o.res.Parked) {
			s := o.res.Parked[i]
			switch {
			case s >= 0 && int(s) < len(w.meta.Sites):
				where = fmt.Sprintf("stops at %s (%s) in %s", w.meta.Sites[s].Pos, w.meta.Sites[s].Kind, w.meta.Sites[s].Func)
			case s == rt.SiteOp:
				where = "stops between two calls"
			case s == rt.SiteBlock:
				where = "blocks or yields"
			case s == rt.SiteEnd:
				where = "ends"
			}
		}
		l = append(l, fmt.Sprintf("caller %d runs %d steps, %s", d[0], d[1], where))
	}
	return l
}

// minimise shrinks a violating scenario and writes the replay file.
func (w *world) minimise(in, out string, secs float64) int {
	sc, _, err := load(in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	w.prop = sc.Property
	start := time.Now()
	left := func() bool { return time.Since(start).Seconds() < secs }
	orig := size(sc)
	var oracle string
	lastFind := (*finding)(nil)
	var lastOut *outcome
	trial := func(s *Scenario) *Scenario {
		if w.race {
			return w.raceTrial(s)
		}
		o := w.run(s, true)
		if o.find == nil || oracle != "" && o.find.oracle != oracle {
			return nil
		}
		if s.Property == "C07" && !w.necessary(s, o.find) {
			return nil
		}
		if s.Property == "C25" && !w.surrNecessary(s, 4) {
			return nil
		}
		lastFind, lastOut = o.find, o
		if oracle == "" {
			oracle = o.find.oracle
		}
		n := *s
		n.Replay = true
		n.Decisions = o.res.Decisions
		n.Choices = o.res.Choices
		return &n
	}
	cur := trial(sc)
	minimised := cur != nil
	if cur == nil {
		cur = sc
	} else if sc.Grow != nil {
		// Few callers, one kind of variation; with shorter looks while searching.
		short := func(f func(s *Scenario, g *Grow)) bool {
			s, g := *cur, *cur.Grow
			g.Limit = 50_000
			s.Grow = &g
			f(&s, &g)
			if !left() || trial(&s) == nil {
				return false
			}
			g.Limit = sc.Grow.Limit
			cur = &s
			return true
		}
		for n := 1; n < len(sc.Tasks); n++ {
			if short(func(s *Scenario, g *Grow) { s.Tasks = s.Tasks[:n]; s.Mode = 0 }) {
				break
			}
		}
		for _, v := range sc.Grow.Vary {
			if short(func(s *Scenario, g *Grow) { g.Vary = []int{v} }) {
				break
			}
		}
		short(func(s *Scenario, g *Grow) { s.ClockJumps, s.PoolFaults = false, false })
		w.dropSpecs(&cur, func(s *Scenario) *Scenario { return s })
		if trial(cur) == nil {
			cur = sc
		}
	} else {
		orig = size(cur)
		// attempt tries the changed scenario under the recorded decisions and
		// then under fresh schedules.
		attempt := func(s *Scenario) bool {
			if n := trial(s); n != nil {
				cur = n
				return true
			}
			if len(s.Tasks) < 2 {
				return false
			}
			tries := 6
			if w.race {
				tries = 2
			}
			for k := 0; k < tries && left(); k++ {
				t := *s
				t.Replay, t.Decisions, t.Choices = false, nil, nil
				t.SchedSeed = work.Mix(s.SchedSeed, uint64(k)+1)
				t.Mode = []int{1, 1, 5, 4, 3, 2}[k%6]
				t.Mean = []int64{2, 20, 4, 1, 10, 100}[k%6]
				t.StallPct = 0
				if n := trial(&t); n != nil {
					cur = n
					return true
				}
			}
			return false
		}
		clone := func() *Scenario {
			n := *cur
			n.Tasks = append([][]Op(nil), cur.Tasks...)
			n.Wins = append([]Window(nil), cur.Wins...)
			return &n
		}
		for again := true; again && left(); {
			again = false
			// Whole callers: emptied, so that numbers stay.
			for t := 0; t < len(cur.Tasks) && left(); t++ {
				if len(cur.Tasks[t]) == 0 {
					continue
				}
				s := clone()
				s.Tasks[t] = nil
				if attempt(s) {
					again = true
				}
			}
			for t := 0; t < len(cur.Tasks) && left(); t++ {
				for n := len(cur.Tasks[t]); n >= 1 && left(); n /= 2 {
					for i := 0; i < len(cur.Tasks[t]) && left(); {
						e := i + n
						if e > len(cur.Tasks[t]) {
							e = len(cur.Tasks[t])
						}
						s := clone()
						l := append([]Op(nil), cur.Tasks[t][:i]...)
						s.Tasks[t] = append(l, cur.Tasks[t][e:]...)
						if attempt(s) {
							again = true
						} else {
							i = e
						}
					}
				}
			}
		}
		// What callers do around the calls.
		for t := range cur.Tasks {
			for i := 0; i < len(cur.Tasks[t]) && left(); i++ {
				for _, f := range []func(*Op){func(o *Op) { o.Own = 0 }, func(o *Op) { o.Keep = false }, func(o *Op) { o.Slot = 0 }, func(o *Op) { o.Win = false }} {
					s := clone()
					l := append([]Op(nil), cur.Tasks[t]...)
					old := l[i]
					f(&l[i])
					if l[i] == old {
						continue
					}
					s.Tasks[t] = l
					if n := trial(s); n != nil {
						cur = n
					}
				}
			}
		}
		// Repetitions.
		for t := range cur.Tasks {
			for i := 0; i < len(cur.Tasks[t]) && left(); i++ {
				for f := 0; cur.Tasks[t][i].Rep > 0 && f < 12 && left(); f++ {
					// Try a part of it, 0 first.
					s := clone()
					l := append([]Op(nil), cur.Tasks[t]...)
					l[i].Rep -= (l[i].Rep + 1<<f - 1) >> f
					s.Tasks[t] = l
					if n := trial(s); n != nil {
						cur = n
						f = -1
					}
				}
			}
		}
		// Empty callers at the end.
		for len(cur.Tasks) > 1 && len(cur.Tasks[len(cur.Tasks)-1]) == 0 && left() {
			s := clone()
			s.Tasks = s.Tasks[:len(s.Tasks)-1]
			if len(s.Wins) > 0 {
				s.Wins = append(append([]Window(nil), s.Wins[:len(s.Tasks)]...), s.Wins[len(s.Wins)-1])
			}
			if n := trial(s); n != nil {
				cur = n
			} else {
				break
			}
		}
		for again := true; again && left(); {
			again = false
			for _, d := range cur.Surr.drops() {
				s := clone()
				s.Surr = d
				if n := trial(s); n != nil {
					cur = n
					again = true
					break
				}
			}
		}
		w.dropSpecs(&cur, trial)
		// Decisions.
		for again := true; again && left() && !w.race; {
			again = false
			for n := len(cur.Decisions) / 2; n >= 1 && left(); n /= 2 {
				for i := 0; i+n <= len(cur.Decisions) && left(); {
					s := clone()
					s.Decisions = append(append([]rt.Decision(nil), cur.Decisions[:i]...), cur.Decisions[i+n:]...)
					k := len(cur.Decisions)
					if m := trial(s); m != nil && len(m.Decisions) < k {
						cur = m
						again = true
					} else {
						i += n
					}
				}
			}
			// Join slices of the same caller.
			for i := 0; i+1 < len(cur.Decisions) && left(); i++ {
				for j := i + 1; j < len(cur.Decisions) && j < i+8; j++ {
					if cur.Decisions[i][0] != cur.Decisions[j][0] {
						continue
					}
					s := clone()
					d := append([]rt.Decision(nil), cur.Decisions...)
					d[i][1] += d[j][1]
					s.Decisions = append(d[:j], d[j+1:]...)
					k := len(cur.Decisions)
					if m := trial(s); m != nil && len(m.Decisions) < k {
						cur = m
						again = true
						break
					}
				}
			}
		}
	}
	// The final state of things.
	rf := &ReplayFile{VerifSeed: sc.Seed, Minimised: minimised, Original: orig, Size: size(cur), Scenario: cur}
	if !w.race {
		if n := trial(cur); n != nil {
			rf.Schedule = w.schedule(cur, lastOut)
			cur = n
			rf.Scenario = n
			rf.Size = size(n)
		}
		if lastFind != nil {
			rf.Violation = work.Violation{Property: sc.Property, Oracle: lastFind.oracle, Sig: lastFind.sig, Detail: lastFind.detail}
		}
	} else {
		// One execution in this process for the report.
		o := w.run(cur, true)
		if o.find != nil {
			rf.Violation = work.Violation{Property: sc.Property, Oracle: o.find.oracle, Sig: o.find.sig, Detail: o.find.detail}
			rf.Schedule = w.schedule(cur, o)
		}
	}
	for t, l := range cur.Tasks {
		var c []string
		for i := range l {
			if i >= 200 {
				c = append(c, "...")
				break
			}
			if l[i].Fn == "restart" {
				c = append(c, "restart of the process")
				continue
			}
			s := l[i].describe(cur.Specs)
			if cur.Grow != nil {
				s += ", and variations of it, again and again"
			}
			if l[i].Rep > 0 {
				s += fmt.Sprintf("; %d times", l[i].Rep+1)
			}
			if l[i].Own != 0 {
				s += "; the caller overwrites the result"
			}
			if l[i].X > 0 && l[i].Slot > 0 {
				s += fmt.Sprintf("; argument object %d of caller %d", l[i].Slot, t)
			}
			c = append(c, s)
		}
		rf.Calls = append(rf.Calls, c)
	}
	if err := work.Save(out, rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if rf.Violation.Oracle == "" {
		return 4
	}
	return 1
}

// dropSpecs removes argument specifications nothing uses.
func (w *world) dropSpecs(cur **Scenario, trial func(*Scenario) *Scenario) {
	used := map[int]bool{}
	for _, l := range (*cur).Tasks {
		for i := range l {
			used[l[i].X] = true
		}
	}
	var ids []int
	for x := range used {
		if x > 0 {
			ids = append(ids, x)
		}
	}
	sort.Ints(ids)
	to := map[int]int{}
	s := **cur
	s.Specs = nil
	for _, x := range ids {
		s.Specs = append(s.Specs, (*cur).Specs[x-1])
		to[x] = len(s.Specs)
	}
	s.Tasks = nil
	for _, l := range (*cur).Tasks {
		m := append([]Op(nil), l...)
		for i := range m {
			m[i].X = to[m[i].X]
		}
		s.Tasks = append(s.Tasks, m)
	}
	if n := trial(&s); n != nil {
		*cur = n
	}
}

// raceTrial runs the scenario in a process of its own: the detector reports
// each race only once per process.
func (w *world) raceTrial(s *Scenario) *Scenario {
	d, err := os.MkdirTemp(filepath.Dir(*fMin), "trial")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(d)
	in, out := filepath.Join(d, "in.json"), filepath.Join(d, "out.json")
	if work.Save(in, s) != nil {
		return nil
	}
	c := osexec.Command(os.Args[0], "-meta", *fMeta, "-prop", s.Property, "-replay", in, "-trial", "-out", out)
	c.Env = append(os.Environ(), "SIM_RACELOG="+filepath.Join(d, "race"), "GORACE=exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(d, "race"))
	err = c.Run()
	ee, ok := err.(*osexec.ExitError)
	if !ok || ee.ExitCode() != 1 {
		return nil
	}
	n, _, err := load(out)
	if err != nil {
		return nil
	}
	return n
}
