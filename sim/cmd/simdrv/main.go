// Command simdrv builds the simulation of the repository's current tree, runs
// it over many seeds and reports.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"floatsim/build"
)

var (
	fProp   = flag.String("prop", "", "property")
	fTier   = flag.String("tier", "", "quick or thorough; default from VERIF_TIER")
	fVerif  = flag.String("verif", "/verif", "where evidence and replays go")
	fBuild  = flag.String("buildonly", "", "only build, into this directory")
	fRace   = flag.Bool("race", false, "with -buildonly: the race build, too")
	fGens   = flag.Bool("gens", false, "with -buildonly: the generators")
	fReplay = flag.String("replay", "", "replay file to execute")
	fScale  = flag.Float64("scale", 1, "scale the number of runs")
)

// plan says how much of each phase to run.
type plan struct {
	gens   bool
	plain  [2]int64 // runs: quick, thorough
	race   [2]int64
	rule   string
	real   []string
	stub   []string
	assume []string
}

var libReal = []string{"all packages of the library (binary16, binary128, float80x86, float128ppc, bfloat, float, internal/strconv): source of the current tree, instrumented with yield points", "math/big, strconv, math of the standard library (atomic: no yield points inside)"}
var libStub = []string{"goroutine scheduler: the simulator's", "sync.Mutex, RWMutex, Once, WaitGroup, Cond, Pool, Map, channels, select, timers, clock, process-wide random numbers, map iteration order: the simulator's versions, used if the library uses them", "sync.Pool inside the standard library: always empty", "process restart: package state re-initialised by the initialisers of the packages"}
var genReal = []string{"gen.go and extra_test.tmpl of binary16 and binary128: the current tree", "text/template, fmt, sort, math/big, go/parser"}
var genStub = []string{"file system, clock, process-wide random source, environment variables, CPU count, process identity, map iteration order, log, flag, os.Exit: the simulator's", "github.com/pkg/errors: same interface, no stack traces (not in the module cache)", "big.Float.Text for huge exponents: a faster exact equivalent, compared with math/big on a sample in every run"}
var libAssume = []string{"preemption happens at statements, shared loads and calls of the library's own code; math/big and other standard packages run atomically (in race builds the detector still sees their accesses)", "memory is sequentially consistent in the simulation; unsynchronised conflicting accesses are left to the race detector (C01)", "go1.27 toolchain, linux/amd64"}

var plans = map[string]*plan{
	"C01": {plain: [2]int64{350_000, 2_500_000}, race: [2]int64{80_000, 700_000}, rule: "a run is a set of caller goroutines with generated calls on shared and private arguments under one seeded schedule; non-trivial when at least two callers alternate, distinct by the hash of schedule and results"},
	"C02": {plain: [2]int64{400_000, 4_000_000}, rule: "a run is a set of callers that convert or test shared *big.Float arguments under one seeded schedule, with the arguments compared at every yield point; non-trivial when callers alternate, distinct by the hash of schedule and results"},
	"C03": {plain: [2]int64{150_000, 1_000_000}, rule: "a run is a history (or concurrent histories) of calls between which owners overwrite results and arguments in place; distinct by the hash of schedule and results"},
	"C04": {plain: [2]int64{65_000, 450_000}, rule: "a run is a history of tens to thousands of calls with repeats, near-repeats, panics and restarts; distinct by the hash of schedule and results"},
	"C05": {plain: [2]int64{550_000, 4_500_000}, rule: "a run is a set of callers, some stalled for long and some panicking, under one seeded schedule with a fair tail; non-trivial when callers alternate, distinct by the hash of schedule and results"},
	"C06": {plain: [2]int64{300_000, 1_500_000}, rule: "a run is a set of callers appending to adjacent windows of one array (and to private slices with canaries), checked at every yield point; non-trivial when callers alternate, distinct by the hash of schedule and results"},
	"C07": {plain: [2]int64{170_000, 1_000_000}, rule: "a run is a history or a set of concurrent callers in which some calls panic and are recovered; distinct by the hash of schedule and results"},
	"C08": {gens: true, plain: [2]int64{560, 9_000}, rule: "a run is one generator process in one generated environment, previous output and schedule; distinct by environment and outcome"},
	"C21": {gens: true, plain: [2]int64{520, 9_000}, rule: "a run is a chain of generator processes in one directory, of which all but the last are killed at an I/O operation or meet I/O errors, some followed by a loss of power; distinct by environment, faults and outcomes"},
	"C23": {gens: true, plain: [2]int64{600, 12_000}, rule: "a run is two or three generator processes on one machine at the same time, in one directory or several, with the same output or others, stalled at I/O operations, some killed or failing; distinct by environment, faults, schedule and outcomes"},
	"C22": {plain: [2]int64{10_000, 90_000}, rule: "a run is thousands of calls by one to four callers, some panicking, with stalls, pool evictions and clock jumps, and measurements of running goroutines and reachable memory in between; distinct by the hash of schedule and results"},
	"C24": {plain: [2]int64{90_000, 1_000_000}, rule: "a run is a history of calls or a set of concurrent callers, some panicking, with everything the code does to its process or to the world outside noted; distinct by the hash of schedule and results"},
	"C25": {plain: [2]int64{180_000, 1_000_000}, rule: "a run is a history of calls or a set of concurrent callers in one generated process (environment variables, files, clock, time zone, CPUs, random seed, identity, failing I/O); distinct by the hash of schedule and results"},
	"C09": {gens: true, plain: [2]int64{1_100, 18_000}, rule: "a run is one generator process with generated I/O faults (and a varied environment); distinct by environment, faults and outcome"},
}

// Report is what one worker wrote.
type Report struct {
	Shard   int              `json:"shard"`
	Runs    int64            `json:"runs"`
	Stats   map[string]int64 `json:"stats"`
	Faults  map[string]int64 `json:"faults"`
	Modes   map[string]int64 `json:"modes"`
	Ops     map[string]int64 `json:"ops"`
	Sites   []int32          `json:"sites"`
	Samples []any            `json:"samples"`
	Digests []uint64         `json:"digests"`
	Viol    *Violation       `json:"violation,omitempty"`
	Cand    string           `json:"candidate,omitempty"`
	Known   map[string]int64 `json:"known,omitempty"`
	Wall    float64          `json:"wall_s"`
	Error   string           `json:"error,omitempty"`
	Stopped bool             `json:"stopped"`
}

// Violation is one broken property.
type Violation struct {
	Property string `json:"property"`
	Oracle   string `json:"oracle"`
	Sig      string `json:"signature"`
	Detail   string `json:"detail"`
}

func fatal(f string, a ...any) int {
	fmt.Fprintf(os.Stderr, "simdrv: "+f+"\n", a...)
	return 2
}

func main() {
	flag.Parse()
	os.Exit(realMain())
}

func realMain() int {
	sim, _ := os.Getwd()
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	if *fBuild != "" {
		os.MkdirAll(*fBuild, 0755)
		o, err := build.Build(build.Opts{Repo: repo, Sim: sim, Work: *fBuild, Race: *fRace, Gens: *fGens})
		if err != nil {
			return fatal("%v", err)
		}
		fmt.Println(o.Plain, filepath.Base(o.MetaFile), len(o.Meta.Sites), o.Notes)
		return 0
	}
	work, err := os.MkdirTemp("", "verif-sim-")
	if err != nil {
		return fatal("%v", err)
	}
	defer os.RemoveAll(work)
	if *fReplay != "" {
		return replayFile(sim, repo, work)
	}
	p := plans[*fProp]
	if p == nil {
		return fatal("no such property: %q", *fProp)
	}
	tier := *fTier
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier == "" {
		tier = "quick"
	}
	ti := 0
	if tier == "thorough" {
		ti = 1
	} else if tier != "quick" {
		return fatal("no such tier: %q", tier)
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return fatal("VERIF_SEED: %v", err)
		}
		seed = uint64(v)
	}
	d := &driver{prop: *fProp, tier: tier, seed: seed, p: p, work: work, sim: sim, repo: repo, start: time.Now(), workers: runtime.NumCPU()}
	if d.workers > 8 {
		d.workers = 8
	}
	fmt.Printf("property %s, tier %s, seed %d\n", d.prop, tier, seed)
	bo, err := build.Build(build.Opts{Repo: repo, Sim: sim, Work: work, Gens: p.gens, Race: p.race[ti] > 0})
	if err != nil {
		return fatal("build: %v", err)
	}
	d.bo = bo
	d.buildS = time.Since(d.start).Seconds()
	for _, n := range bo.Notes {
		fmt.Println("note:", n)
	}
	if err := d.known(); err != nil {
		return fatal("%v", err)
	}
	secs := []float64{250, 1500}[ti]
	scale := func(n int64) int64 { return int64(float64(n) * *fScale) }
	ph := []*phase{{name: "plain", bin: bo.Plain, runs: scale(p.plain[ti]), seed: seed, secs: secs}}
	if p.race[ti] > 0 {
		ph = append(ph, &phase{name: "race", bin: bo.Race, runs: scale(p.race[ti]), seed: seed + 1_000_003, secs: secs, race: true})
	}
	for _, x := range ph {
		if err := d.runPhase(x); err != nil {
			return fatal("%v", err)
		}
		d.phases = append(d.phases, x)
		fmt.Printf("%s: %d runs in %.1f s, %d workers\n", x.name, x.runsDone, x.wall, d.workers)
		if x.viol != nil {
			break
		}
	}
	last := d.phases[len(d.phases)-1]
	code := 0
	if last.viol != nil {
		file, err := d.report(last)
		if err != nil {
			return fatal("%v", err)
		}
		fmt.Printf("%s\n", last.viol.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, file)
		code = 1
	} else {
		if err := d.determinism(ph[0]); err != nil {
			return fatal("%v", err)
		}
		for _, k := range d.finds {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.prop, k.text)
		}
	}
	if err := d.evidence(code); err != nil {
		return fatal("%v", err)
	}
	return code
}

type phase struct {
	name     string
	bin      string
	runs     int64
	seed     uint64
	secs     float64
	race     bool
	reports  []*Report
	viol     *Violation
	cands    []string
	runsDone int64
	wall     float64
	distinct int
}

type knownFinding struct{ sig, text string }

type driver struct {
	prop, tier      string
	seed            uint64
	p               *plan
	work, sim, repo string
	start           time.Time
	workers         int
	bo              *build.Out
	buildS          float64
	phases          []*phase
	finds           []knownFinding
	knownFile       string
	detRuns, detBad int
	detNote         string
}

var knownRe = regexp.MustCompile(`^known: property=(\S+) signature=(\S+) (.*)$`)

// known reads the findings that are recorded rather than repaired.
func (d *driver) known() error {
	b, err := os.ReadFile(filepath.Join(*fVerif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return err
	}
	type k struct{ Property, Signature string }
	l := []k{}
	sc := bufio.NewScanner(bytes.NewReader(b))
	for sc.Scan() {
		m := knownRe.FindStringSubmatch(sc.Text())
		if m == nil || m[1] != d.prop {
			continue
		}
		l = append(l, k{m[1], "^(?:" + m[2] + ")$"})
		d.finds = append(d.finds, knownFinding{m[2], m[3]})
	}
	j, _ := json.Marshal(l)
	d.knownFile = filepath.Join(d.work, "known.json")
	return os.WriteFile(d.knownFile, j, 0644)
}

func (d *driver) cmd(ctx context.Context, ph *phase, tag string, args ...string) *exec.Cmd {
	a := append([]string{"-meta", d.bo.MetaFile, "-prop", d.prop, "-seed", fmt.Sprint(ph.seed)}, args...)
	if d.p.gens {
		a = append(a, "-src", filepath.Join(d.work, "src"))
	}
	c := exec.CommandContext(ctx, ph.bin, a...)
	c.Dir = d.work
	c.Env = os.Environ()
	if ph.race {
		lp := filepath.Join(d.work, "race-"+tag)
		c.Env = append(c.Env, "SIM_RACELOG="+lp, "GORACE=exitcode=0 atexit_sleep_ms=0 log_path="+lp)
	}
	return c
}

const detectRuns = 400

func (d *driver) runPhase(ph *phase) error {
	t0 := time.Now()
	var wg sync.WaitGroup
	errs := make([]error, d.workers)
	ph.reports = make([]*Report, d.workers)
	dig := int64(detectRuns)
	if d.p.gens {
		dig = 24
	}
	if ph.race {
		dig = 0
	}
	for i := 0; i < d.workers; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			tag := fmt.Sprintf("%s-%d", ph.name, i)
			rep := filepath.Join(d.work, tag+".json")
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ph.secs+300)*time.Second)
			defer cancel()
			c := d.cmd(ctx, ph, tag, "-shard", fmt.Sprint(i), "-of", fmt.Sprint(d.workers), "-runs", fmt.Sprint(ph.runs), "-secs", fmt.Sprint(ph.secs),
				"-report", rep, "-cand", filepath.Join(d.work, tag+".cand.json"), "-known", d.knownFile, "-digest", fmt.Sprint(dig))
			var eb bytes.Buffer
			c.Stderr = &eb
			err := c.Run()
			code := c.ProcessState.ExitCode()
			if err != nil && code != 1 && code != 3 {
				errs[i] = fmt.Errorf("worker %d: %v\n%s", i, err, tail(eb.Bytes()))
				return
			}
			b, err := os.ReadFile(rep)
			if err != nil {
				errs[i] = fmt.Errorf("worker %d: %v\n%s", i, err, tail(eb.Bytes()))
				return
			}
			r := &Report{}
			if err := json.Unmarshal(b, r); err != nil {
				errs[i] = err
				return
			}
			if r.Error != "" {
				errs[i] = fmt.Errorf("worker %d: %s", i, r.Error)
			}
			if code == 1 && r.Viol == nil {
				errs[i] = fmt.Errorf("worker %d: violation without a report", i)
			}
			ph.reports[i] = r
		}()
	}
	wg.Wait()
	ph.wall = time.Since(t0).Seconds()
	// A violation counts whatever became of the other workers.
	for _, r := range ph.reports {
		if r == nil {
			continue
		}
		ph.runsDone += r.Runs
		if r.Viol != nil {
			if ph.viol == nil {
				ph.viol = r.Viol
			}
			ph.cands = append(ph.cands, r.Cand)
		}
	}
	if ph.viol == nil {
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
	}
	set := map[uint64]struct{}{}
	for i := range ph.reports {
		b, _ := os.ReadFile(filepath.Join(d.work, fmt.Sprintf("%s-%d.json.hashes", ph.name, i)))
		for k := 0; k+8 <= len(b); k += 8 {
			set[binary.LittleEndian.Uint64(b[k:])] = struct{}{}
		}
	}
	ph.distinct = len(set)
	return nil
}

func tail(b []byte) string {
	if len(b) > 3000 {
		b = b[len(b)-3000:]
	}
	return string(b)
}

// report minimises a violation and checks that its replay file reproduces it.
func (d *driver) report(ph *phase) (string, error) {
	dir := filepath.Join(*fVerif, "replays")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return "", err
	}
	// Smallest run number first, so that the outcome does not depend on which
	// worker was fastest.
	type cand struct {
		f   string
		run int64
	}
	var cs []cand
	for _, f := range ph.cands {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		var s struct {
			Run int64 `json:"run"`
		}
		json.Unmarshal(b, &s)
		cs = append(cs, cand{f, s.Run})
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].run < cs[j].run })
	if len(cs) > 4 {
		cs = cs[:4]
	}
	var keep string
	for _, c := range cs {
		out := filepath.Join(d.work, fmt.Sprintf("replay-%d.json", c.run))
		ctx, cancel := context.WithTimeout(context.Background(), 180*time.Second)
		m := d.cmd(ctx, ph, "min", "-minimise", c.f, "-out", out, "-secs", "45")
		var eb bytes.Buffer
		m.Stderr = &eb
		m.Run()
		cancel()
		if m.ProcessState.ExitCode() != 1 {
			fmt.Fprintf(os.Stderr, "note: minimising run %d ended with status %d %s\n", c.run, m.ProcessState.ExitCode(), tail(eb.Bytes()))
			if keep == "" {
				keep = c.f
			}
			continue
		}
		ctx, cancel = context.WithTimeout(context.Background(), 120*time.Second)
		r := d.cmd(ctx, ph, "rep", "-replay", out)
		r.Run()
		cancel()
		if r.ProcessState.ExitCode() == 1 {
			b, err := os.ReadFile(out)
			if err != nil {
				return "", err
			}
			var f map[string]any
			if err := json.Unmarshal(b, &f); err == nil {
				var v struct{ Violation Violation }
				if json.Unmarshal(b, &v) == nil && v.Violation.Detail != "" {
					ph.viol = &v.Violation
				}
			}
			b = bytes.Replace(b, []byte(`"reproduced": false`), []byte(`"reproduced": true`), 1)
			to := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d-%s.json", d.prop, d.seed, c.run, ph.name))
			return to, os.WriteFile(to, b, 0644)
		}
		fmt.Fprintf(os.Stderr, "note: the replay of run %d ended with status %d\n", c.run, r.ProcessState.ExitCode())
		if keep == "" {
			keep = c.f
		}
	}
	if keep == "" {
		return "", fmt.Errorf("no candidate file")
	}
	fmt.Println("note: the violation was seen, but the code under test has nondeterminism of its own: the replay file may take several attempts")
	b, err := os.ReadFile(keep)
	if err != nil {
		return "", err
	}
	to := filepath.Join(dir, fmt.Sprintf("%s-seed%d-%s-unminimised.json", d.prop, d.seed, ph.name))
	return to, os.WriteFile(to, b, 0644)
}

// determinism runs the first runs again, in another process and order of
// shards, and compares digests.
func (d *driver) determinism(ph *phase) error {
	dig := map[uint64]uint64{}
	for _, r := range ph.reports {
		for i := 0; i+1 < len(r.Digests); i += 2 {
			dig[r.Digests[i]] = r.Digests[i+1]
		}
	}
	n := int64(detectRuns)
	if d.p.gens {
		n = 24
	}
	parts := 3
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first error
	for i := 0; i < parts; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			rep := filepath.Join(d.work, fmt.Sprintf("det-%d.json", i))
			ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
			defer cancel()
			c := d.cmd(ctx, ph, "det", "-shard", fmt.Sprint(i), "-of", fmt.Sprint(parts), "-runs", fmt.Sprint(n), "-secs", "40", "-report", rep, "-cand", rep+".cand", "-known", d.knownFile, "-digest", fmt.Sprint(n))
			c.Run()
			b, err := os.ReadFile(rep)
			r := &Report{}
			if err == nil {
				err = json.Unmarshal(b, r)
			}
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				first = err
				return
			}
			for i := 0; i+1 < len(r.Digests); i += 2 {
				if v, ok := dig[r.Digests[i]]; ok {
					d.detRuns++
					if v != r.Digests[i+1] {
						d.detBad++
					}
				}
			}
		}()
	}
	wg.Wait()
	if first != nil {
		return first
	}
	if d.detBad > 0 {
		d.detNote = "the code under test has nondeterminism that the simulator does not control"
		fmt.Printf("note: %d of %d repeated runs differ: %s\n", d.detBad, d.detRuns, d.detNote)
	} else {
		fmt.Printf("determinism: %d runs repeated in other processes, all equal\n", d.detRuns)
	}
	return nil
}

func sum(to, from map[string]int64) {
	for k, v := range from {
		to[k] += v
	}
}

func (d *driver) evidence(code int) error {
	stats, faults, modes, ops, known := map[string]int64{}, map[string]int64{}, map[string]int64{}, map[string]int64{}, map[string]int64{}
	sites := map[int32]bool{}
	var samples []any
	runs, distinct := int64(0), 0
	wall := 0.0
	phases := map[string]any{}
	stopped := false
	for _, ph := range d.phases {
		runs += ph.runsDone
		distinct += ph.distinct
		wall += ph.wall
		phases[ph.name] = map[string]any{"runs": ph.runsDone, "distinct": ph.distinct, "wall_s": ph.wall, "base_seed": ph.seed, "race_detector": ph.race}
		for _, r := range ph.reports {
			if r == nil {
				continue
			}
			sum(stats, r.Stats)
			sum(faults, r.Faults)
			sum(modes, r.Modes)
			sum(ops, r.Ops)
			sum(known, r.Known)
			stopped = stopped || r.Stopped
			for _, s := range r.Sites {
				sites[s] = true
			}
			if len(samples) < 4 && len(r.Samples) > 0 {
				samples = append(samples, r.Samples[0])
			}
		}
	}
	simS := float64(stats["sim_nanos"]) / 1e9
	delete(stats, "sim_nanos")
	// Functions never entered.
	hit, all := map[string]bool{}, map[string]bool{}
	nLib := 0
	for i, s := range d.bo.Meta.Sites {
		nLib++
		all[s.Func] = true
		if sites[int32(i)] {
			hit[s.Func] = true
		}
	}
	var miss []string
	for f := range all {
		if !hit[f] {
			miss = append(miss, f)
		}
	}
	sort.Strings(miss)
	if len(miss) > 40 {
		miss = append(miss[:40], fmt.Sprintf("and %d more", len(miss)-40))
	}
	re, st, as := libReal, libStub, libAssume
	if d.p.gens {
		re, st = genReal, genStub
		as = []string{"the generators reach the outside world only through the os, log, flag, fmt, time, math/rand and text/template functions the simulator stands in for", "go1.27 toolchain, linux/amd64"}
	}
	cov := map[string]any{
		"evaluations":              runs,
		"distinct_nontrivial":      distinct,
		"rule":                     d.p.rule,
		"samples":                  samples,
		"simulated_runs_per_hour":  int64(float64(runs) / (wall + 1e-9) * 3600),
		"seeds_per_hour":           int64(float64(runs) / (wall + 1e-9) * 3600),
		"simulated_seconds":        simS,
		"faults_fired":             faults,
		"schedulers":               modes,
		"calls_issued":             ops,
		"counters":                 stats,
		"phases":                   phases,
		"stopped_by_time_limit":    stopped,
		"components_real":          re,
		"components_stubbed":       st,
		"determinism_runs_checked": d.detRuns,
		"determinism_mismatches":   d.detBad,
		"build":                    map[string]any{"instrumentation_level": d.bo.Meta.Level, "notes": d.bo.Notes, "features": d.bo.Meta.Features, "build_s": d.buildS},
		"state_measure":            "distinct = hash over (task, site, slice length) of every scheduling decision and all results; sites = instrumented yield points",
	}
	if !d.p.gens {
		cov["yield_sites_total"] = nLib
		cov["yield_sites_reached"] = len(sites)
		cov["functions_not_entered"] = miss
	}
	if len(known) > 0 {
		cov["known_findings_seen"] = known
	}
	ev := map[string]any{
		"property": d.prop, "tier": d.tier, "seed": int64(d.seed), "level": "exploration", "coverage": cov,
		"wall_s": time.Since(d.start).Seconds(), "violations": code, "assumptions": as,
	}
	dir := filepath.Join(*fVerif, "evidence")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, d.prop+".json"), append(b, '\n'), 0644)
}

// replayFile executes a replay file against the current tree.
func replayFile(sim, repo, work string) int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		return fatal("%v", err)
	}
	var f struct {
		Property string
		Race     bool
		Scenario *struct {
			Property string
			Race     bool
		}
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return fatal("%v", err)
	}
	if f.Scenario != nil {
		f.Property, f.Race = f.Scenario.Property, f.Scenario.Race
	}
	p := plans[f.Property]
	if p == nil {
		return fatal("not a replay file")
	}
	bo, err := build.Build(build.Opts{Repo: repo, Sim: sim, Work: work, Gens: p.gens, Race: f.Race})
	if err != nil {
		return fatal("build: %v", err)
	}
	abs, _ := filepath.Abs(*fReplay)
	d := &driver{prop: f.Property, p: p, work: work, bo: bo}
	ph := &phase{name: "replay", bin: bo.Plain, race: f.Race, seed: 1}
	if f.Race {
		ph.bin = bo.Race
	}
	c := d.cmd(context.Background(), ph, "replay", "-replay", abs, "-v")
	c.Stdout, c.Stderr = os.Stdout, os.Stderr
	c.Run()
	code := c.ProcessState.ExitCode()
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, strings.TrimSpace(*fReplay))
	}
	return code
}
