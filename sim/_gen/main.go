// Command gen simulates runs of the golden-test generators.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"path"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	rt "github.com/mewmew/float/zzsim/rt"
	"github.com/mewmew/float/zzsim/work"
)

// Scenario is one complete simulated run of a generator: everything that
// decides it.
type Scenario struct {
	Property string            `json:"property"`
	Run      int64             `json:"run"`
	Seed     uint64            `json:"seed"`
	Gen      int               `json:"generator"`
	Name     string            `json:"name"`
	Cwd      string            `json:"cwd"`
	OutDir   string            `json:"out_dir"` // "" is the working directory
	Exe      string            `json:"exe"`
	Host     string            `json:"host"`
	PID      int               `json:"pid"`
	CPUs     int               `json:"cpus"`
	Rand     int64             `json:"process_random_seed"`
	Clock    int64             `json:"clock"`
	Vars     map[string]string `json:"env,omitempty"`
	Any      []string          `json:"other_env,omitempty"`
	Prev     string            `json:"previous_output"` // none golden longer shorter junk empty edited
	PrevN    int               `json:"previous_n"`
	Extra    bool              `json:"extra_files"`
	Short    bool              `json:"short_reads"`
	Slow     bool              `json:"slow_io"`
	Faults   []rt.Fault        `json:"faults,omitempty"`
	Crashes  []Crash           `json:"earlier_runs,omitempty"`
	Out      string            `json:"out,omitempty"`   // another name for the output
	Delay    int64             `json:"delay,omitempty"` // nanoseconds before it starts
	Others   []Proc            `json:"at_the_same_time,omitempty"`

	Mode       int           `json:"mode"`
	Mean       int64         `json:"mean"`
	Changes    int           `json:"changes"`
	StallPct   int           `json:"stall_pct"`
	StallLen   int           `json:"stall_len"`
	PoolFaults bool          `json:"pool_faults"`
	ClockJumps bool          `json:"clock_jumps"`
	SchedSeed  uint64        `json:"sched_seed"`
	Replay     bool          `json:"replay,omitempty"`
	Decisions  []rt.Decision `json:"decisions,omitempty"`
	Choices    []int64       `json:"choices,omitempty"`
}

// Crash is an earlier run of the generator in the same directory, one that was
// killed or met errors.
type Crash struct {
	Faults    []rt.Fault `json:"faults"`
	PID       int        `json:"pid"`
	CPUs      int        `json:"cpus"`
	Rand      int64      `json:"process_random_seed"`
	Clock     int64      `json:"clock"`
	SchedSeed uint64     `json:"sched_seed"`
	Power     uint64     `json:"power_loss,omitempty"` // seed; 0: none
}

// Proc is another process that runs at the same time.
type Proc struct {
	Gen    int               `json:"generator"`
	Cwd    string            `json:"cwd"`
	OutDir string            `json:"out_dir"`
	Out    string            `json:"out,omitempty"`
	PID    int               `json:"pid"`
	CPUs   int               `json:"cpus"`
	Rand   int64             `json:"process_random_seed"`
	Vars   map[string]string `json:"env,omitempty"`
	Delay  int64             `json:"delay,omitempty"`
	Faults []rt.Fault        `json:"faults,omitempty"`
}

// ReplayFile is what a violation leaves behind.
type ReplayFile struct {
	Violation work.Violation `json:"violation"`
	VerifSeed uint64         `json:"verif_seed"`
	Minimised bool           `json:"minimised"`
	Original  map[string]int `json:"original_size"`
	Size      map[string]int `json:"size"`
	Reading   []string       `json:"reading"`
	Scenario  *Scenario      `json:"scenario"`
}

var (
	fMeta   = flag.String("meta", "", "build description")
	fProp   = flag.String("prop", "", "property")
	fSeed   = flag.Uint64("seed", 1, "seed")
	fShard  = flag.Int("shard", 0, "shard")
	fOf     = flag.Int("of", 1, "shards")
	fRuns   = flag.Int64("runs", 100, "runs over all shards")
	fSecs   = flag.Float64("secs", 60, "time limit")
	fReport = flag.String("report", "", "report file")
	fCand   = flag.String("cand", "", "where to put a violating scenario")
	fMin    = flag.String("minimise", "", "scenario to minimise")
	fOut    = flag.String("out", "", "replay file to write")
	fReplay = flag.String("replay", "", "replay file to execute")
	fKnown  = flag.String("known", "", "file of known findings")
	fDigest = flag.Int64("digest", 0, "runs whose digests to report")
	fSrc    = flag.String("src", "", "copy of the repository, for the generators' input files")
	fVerb   = flag.Bool("v", false, "log")
)

type golden struct {
	out     []byte
	exit    *rt.Exit
	steps   int64
	tasks   int64
	nanos   int64
	problem string
}

type world struct {
	prop  string
	meta  *work.Meta
	rep   *work.Report
	files []map[string][]byte // per generator, by name
	gold  []*golden
	named map[string][]byte
}

type finding struct{ oracle, sig, detail string }

type outcome struct {
	find *finding
	res  *rt.Result
	exit *rt.Exit
	dig  uint64
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(1)
	meta, err := work.LoadMeta(*fMeta)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	rt.Hits = make([]uint32, len(meta.Sites))
	words = meta.Words
	w := &world{prop: *fProp, meta: meta, rep: work.NewReport(*fShard), named: map[string][]byte{}}
	for i := range meta.Gens {
		g := &meta.Gens[i]
		m := map[string][]byte{}
		d := path.Join(*fSrc, g.Dir)
		ents, err := os.ReadDir(d)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for _, e := range ents {
			if e.Type().IsRegular() {
				b, err := os.ReadFile(path.Join(d, e.Name()))
				if err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(3)
				}
				m[e.Name()] = b
			}
		}
		w.files = append(w.files, m)
		w.gold = append(w.gold, nil)
	}
	if len(meta.Gens) == 0 {
		fmt.Fprintln(os.Stderr, "no generators found")
		os.Exit(3)
	}
	switch {
	case *fReplay != "":
		os.Exit(w.replay(*fReplay))
	case *fMin != "":
		os.Exit(w.minimise(*fMin, *fOut, *fSecs))
	}
	os.Exit(w.search())
}

// plain is the reference environment.
func plain(prop string, gen int) *Scenario {
	return &Scenario{Property: prop, Gen: gen, Cwd: "/home/user/float", Exe: "/tmp/go-build/exe/gen", Host: "host", PID: 4242, CPUs: 1, Rand: 99,
		Clock: 1_600_000_000_000_000_000, Prev: "none", SchedSeed: 1}
}

func (w *world) outArg(sc *Scenario) (args []string, file string) {
	args = append([]string(nil), w.meta.Gens[sc.Gen].Args...)
	name := "extra_test.go"
	if sc.Out != "" {
		for i := range args {
			for _, p := range []string{"-o=", "--o="} {
				if strings.HasPrefix(args[i], p) {
					args[i] = p + sc.Out
				}
			}
			if (args[i] == "-o" || args[i] == "--o") && i+1 < len(args) {
				args[i+1] = sc.Out
			}
		}
	}
	for i, a := range args {
		var v *string
		switch {
		case (a == "-o" || a == "--o") && i+1 < len(args):
			v = &args[i+1]
		case strings.HasPrefix(a, "-o="):
			t := a[3:]
			args[i] = "-o=" + path.Join(sc.OutDir, t)
			name = t
			continue
		default:
			continue
		}
		name = *v
		if sc.OutDir != "" {
			*v = path.Join(sc.OutDir, name)
		}
	}
	d := sc.OutDir
	if !path.IsAbs(d) {
		d = path.Join(sc.Cwd, d)
	}
	return args, path.Join(d, name)
}

func (w *world) outFile(sc *Scenario) string {
	_, f := w.outArg(sc)
	return f
}

func (w *world) golden(i int) *golden {
	if w.gold[i] != nil {
		return w.gold[i]
	}
	g := &golden{}
	w.gold[i] = g
	sc := plain(w.prop, i)
	o, out := w.execute(sc, nil, nil, false)
	g.exit, g.steps, g.tasks, g.nanos = o.exit, o.res.Steps, o.res.Spawned, o.res.SimNanos
	g.out = out
	w.rep.Stats["reference_runs"]++
	switch {
	case o.res.Deadlock || o.res.Livelock:
		g.problem = "does not end: " + strings.Join(o.res.Stuck, "; ")
	case !o.exit.Exited || o.exit.Code != 0:
		g.problem = fmt.Sprintf("exits with status %d: %s", o.exit.Code, clip(o.exit.Stderr))
	case out == nil:
		g.problem = "INCOMPLETE: leaves no output file"
	default:
		if s := w.incomplete(i, out); s != "" {
			g.problem = "INCOMPLETE: " + s
		}
	}
	return g
}

var actionRe = regexp.MustCompile(`(?s)\{\{.*?\}\}`)

func squeeze(b []byte) string { return strings.Join(strings.Fields(string(b)), " ") }

// incomplete judges a generated file by itself: it must contain the beginning
// and the end of its template, be valid Go, and have something in each of the
// lists.
func (w *world) incomplete(i int, out []byte) string {
	for name, t := range w.files[i] {
		if !strings.HasSuffix(name, ".tmpl") || len(w.files[i]) == 0 {
			continue
		}
		loc := actionRe.FindAllIndex(t, -1)
		if len(loc) == 0 {
			continue
		}
		pre, suf := t[:loc[0][0]], t[loc[len(loc)-1][1]:]
		so := squeeze(out)
		if p := squeeze(pre); !strings.Contains(so, p) {
			return "the output does not contain the beginning of " + name
		}
		if s := squeeze(suf); !strings.Contains(so, s) {
			return "the output does not contain the end of " + name
		}
	}
	f, err := parser.ParseFile(token.NewFileSet(), "out.go", out, parser.SkipObjectResolution)
	if err != nil {
		return "the output is not valid Go: " + err.Error()
	}
	bad := ""
	ast.Inspect(f, func(n ast.Node) bool {
		if vs, ok := n.(*ast.ValueSpec); ok {
			for k, v := range vs.Values {
				if cl, ok := v.(*ast.CompositeLit); ok && len(cl.Elts) == 0 && k < len(vs.Names) && strings.HasPrefix(vs.Names[k].Name, "golden") {
					bad = "the list " + vs.Names[k].Name + " is empty"
				}
			}
		}
		return true
	})
	return bad
}

func junk(n int, seed uint64) []byte {
	b := make([]byte, n)
	var r rt.Rand
	r.Seed(seed)
	for i := range b {
		b[i] = "func{}()\n\t xyz0123"[r.Intn(18)]
	}
	return b
}

// env is the surroundings of a process, and where its output goes.
func (w *world) env(sc *Scenario, prev []byte, fs *rt.FS) (*rt.Env, string) {
	args, file := w.outArg(sc)
	e := &rt.Env{Files: map[string][]byte{}, Vars: sc.Vars, Any: sc.Any, Args: args, Exe: sc.Exe, Cwd: sc.Cwd, Host: sc.Host, PID: sc.PID,
		CPUs: sc.CPUs, Rand: sc.Rand, Clock: sc.Clock, Short: sc.Short, Slow: sc.Slow, Faults: append([]rt.Fault(nil), sc.Faults...)}
	if sc.Vars != nil { // the process may change its copy
		m := map[string]string{}
		for k, v := range sc.Vars {
			m[k] = v
		}
		e.Vars = m
	}
	e.FS = fs
	w.place(e, sc, file, prev)
	return e, file
}

// place puts the files of a process on the disk.
func (w *world) place(e *rt.Env, sc *Scenario, file string, prev []byte) {
	for n, b := range w.files[sc.Gen] {
		e.Files[path.Join(sc.Cwd, n)] = b
	}
	e.Dirs = append(e.Dirs, sc.Cwd, path.Dir(file))
	for _, k := range []string{"TMPDIR", "HOME", "XDG_CACHE_HOME"} {
		if d := sc.Vars[k]; d != "" {
			e.Dirs = append(e.Dirs, d)
		}
	}
	if sc.Extra {
		e.Files[path.Join(sc.Cwd, "seed.txt")] = []byte("7")
		e.Files[path.Join(sc.Cwd, "notes.tmpl")] = []byte("{{.}}")
		e.Files[path.Join(path.Dir(file), "extra_test.go.bak")] = []byte("old")
		e.Files[path.Join(path.Dir(file), "extra_test.go.tmp")] = junk(5000, 5)
		e.Files[path.Join(path.Dir(file), "extra_test.go~")] = []byte("old")
	}
	if prev != nil {
		e.Files[file] = prev
	}
}

// execute runs one generator process in the simulator.
func (w *world) execute(sc *Scenario, prev []byte, fs *rt.FS, keep bool) (*outcome, []byte) {
	e, file := w.env(sc, prev, fs)
	est := int64(60_000_000)
	if g := w.gold[sc.Gen]; g != nil && g.steps > 0 {
		est = 4*g.steps + 1_000_000
	}
	c := &rt.Config{Seed: sc.SchedSeed, Mode: sc.Mode, Mean: sc.Mean, Changes: sc.Changes, Est: est / 4, StallPct: sc.StallPct, StallLen: sc.StallLen,
		PoolFaults: sc.PoolFaults, ClockJumps: sc.ClockJumps, FairAfter: 4 * est, MaxFair: 4*est + 10_000_000, NumCPU: sc.CPUs,
		Replay: sc.Replay, Decisions: sc.Decisions, Choices: sc.Choices, KeepTrace: keep, Env: e, Process: true}
	res := rt.Run(c, []func(){func() { rt.RunProcess(sc.main) }})
	o := &outcome{res: res, exit: rt.LastExit()}
	st := w.rep.Stats
	st["steps"] += res.Steps
	st["context_switches"] += res.Switches
	st["goroutines"] += res.Spawned
	st["sim_nanos"] += res.SimNanos
	st["bytes_written"] += o.exit.Written
	for k, n := range o.exit.Ops {
		st["io_"+k] += int64(n)
	}
	var out []byte
	if o.exit.Files != nil {
		out = o.exit.Files[file]
	}
	h := fnv.New64a()
	h.Write(out)
	h.Write(o.exit.Stderr)
	o.dig = work.Mix(res.Hash, h.Sum64(), uint64(o.exit.Code), uint64(o.exit.Written))
	for _, k := range fired(o.exit) {
		o.dig = work.MixS(o.dig, k)
	}
	return o, out
}

// main is what the process does.
func (sc *Scenario) main() {
	if sc.Delay > 0 {
		rt.TimeSleep(time.Duration(sc.Delay))
	}
	resetAll()
	genResets[sc.Gen]()
	genMains[sc.Gen]()
}

func fired(e *rt.Exit) (l []string) {
	for k := range e.Fired {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func clip(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%q...", b[:400])
	}
	return fmt.Sprintf("%q", b)
}

func (w *world) prev(sc *Scenario, g *golden) []byte {
	switch sc.Prev {
	case "golden":
		return g.out
	case "longer":
		return append(append([]byte(nil), g.out...), junk(sc.PrevN, 3)...)
	case "shorter":
		n := sc.PrevN
		if n > len(g.out) {
			n = len(g.out)
		}
		return append([]byte(nil), g.out[:n]...)
	case "junk":
		return junk(sc.PrevN, 4)
	case "empty":
		return []byte{}
	case "edited":
		return edited(g.out, uint64(sc.PrevN))
	}
	return nil
}

// Lines a person or a tool may have put into the output.
var extraLines = []string{"// Copyright 2018 The Authors.", "// Code generated by gen.go; DO NOT EDIT.", "// Code generated by \"go generate\"; DO NOT EDIT.", "//+build ignore", "//go:build !race",
	"// +build amd64", "// BEGIN", "// END", "// begin custom", "// keep", "// TODO: remove", "/* edited */", "", "package main", "import \"testing\"", "var seed = 7", "// seed: 99", "// version 2", "\ufeff", "\r"}

// edited is the output with some of its lines changed.
func edited(out []byte, seed uint64) []byte {
	var r rt.Rand
	r.Seed(seed)
	var comments, others []string
	for _, s := range words {
		if len(s) > 2 && strings.Contains("// /* #! --", s[:2]) {
			comments = append(comments, s, s+" x", s+" 2018 The Authors.")
		} else {
			others = append(others, s, s+" x", "// "+s)
		}
	}
	lines := bytes.SplitAfter(out, []byte("\n"))
	var b []byte
	// A line at the top, in the middle, at the end, instead of another.
	pick := func() string {
		l := [][]string{extraLines, comments, others}[r.Intn(3)]
		if len(l) == 0 {
			l = extraLines
		}
		return l[r.Intn(len(l))]
	}
	if r.Intn(3) > 0 {
		b = append(b, pick()...)
		b = append(b, '\n')
		if r.Intn(2) == 0 {
			b = append(b, '\n')
		}
	}
	at := -1
	if r.Intn(2) == 0 {
		at = r.Intn(len(lines))
		if r.Intn(2) == 0 {
			at = r.Intn(20)
		}
	}
	skip := r.Intn(4) == 0
	for i, x := range lines {
		if i == at {
			b = append(b, pick()...)
			b = append(b, '\n')
			if skip {
				continue
			}
		}
		b = append(b, x...)
	}
	if r.Intn(3) == 0 {
		b = append(b, pick()...)
		if r.Intn(2) == 0 {
			b = append(b, '\n')
		}
	}
	return b
}

// words are the string constants of the generators.
var words []string

func differ(a, b []byte) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	line := bytes.Count(a[:n], []byte("\n")) + 1
	cut := func(x []byte) string {
		e := n + 60
		if e > len(x) {
			e = len(x)
		}
		return fmt.Sprintf("%q", x[n:e])
	}
	return fmt.Sprintf("%d bytes instead of %d; first difference at byte %d (line %d): %s instead of %s", len(a), len(b), n, line, cut(a), cut(b))
}

func (w *world) run(sc *Scenario, keep bool) *outcome {
	g := w.golden(sc.Gen)
	name := w.meta.Gens[sc.Gen].Dir
	if g.problem != "" && !(w.prop == "C08" && g.exit.Code == 0 && g.out != nil) {
		o := &outcome{res: &rt.Result{}, exit: g.exit}
		inc := strings.HasPrefix(g.problem, "INCOMPLETE")
		if w.prop == "C09" && inc || w.prop == "C08" && !inc {
			o.find = &finding{"reference", "reference:" + name, fmt.Sprintf("the generator of %s, run without any fault, %s", name, strings.TrimPrefix(g.problem, "INCOMPLETE: "))}
			if inc {
				o.find.detail += "; it reported success"
			}
		}
		return o
	}
	prev := w.prev(sc, g)
	if sc.Others != nil {
		return w.together(sc, prev, keep)
	}
	var fs *rt.FS
	var history []string
	dig := uint64(0)
	for i, c := range sc.Crashes {
		s := *sc
		s.Crashes, s.Faults, s.PID, s.CPUs, s.Rand, s.Clock, s.SchedSeed = nil, c.Faults, c.PID, c.CPUs, c.Rand, c.Clock, c.SchedSeed
		s.Replay, s.Decisions, s.Choices = false, nil, nil
		o, _ := w.execute(&s, prev, fs, false)
		prev = nil
		fs = rt.LastFS()
		h := fmt.Sprintf("run %d ended with status %d", i+1, o.exit.Code)
		if o.res.Deadlock || o.res.Livelock {
			h = fmt.Sprintf("run %d hung and was killed", i+1)
		}
		for _, k := range fired(o.exit) {
			w.rep.Faults[k] += int64(o.exit.Fired[k])
			h += " (" + k + ")"
		}
		w.rep.Faults["earlier_run"]++
		dig = work.Mix(dig, o.dig)
		if c.Power != 0 {
			fs.PowerLoss(c.Power)
			w.rep.Faults["power_loss"]++
			h += ", then power was lost"
		}
		history = append(history, h)
	}
	o, out := w.execute(sc, prev, fs, keep)
	o.dig = work.Mix(o.dig, dig)
	for k, n := range o.exit.Fired {
		w.rep.Faults[k] += int64(n)
	}
	w.rep.Faults["preempted"] += o.res.Overlaps
	w.rep.Faults["clock_jump"] += o.res.Jumps
	w.rep.Faults["stalled_goroutine"] += o.res.Stalls
	hung := o.res.Deadlock || o.res.Livelock
	ok := !hung && o.exit.Exited && o.exit.Code == 0 && o.exit.Panic == ""
	bad := func(oracle, sig, f string, a ...any) {
		if o.find == nil {
			o.find = &finding{oracle, oracle + ":" + name + ":" + sig, fmt.Sprintf("the generator of %s ", name) + fmt.Sprintf(f, a...)}
		}
	}
	switch w.prop {
	case "C08":
		switch {
		case hung:
			bad("hang", "", "does not end in this environment: %s", strings.Join(o.res.Stuck, "; "))
		case !ok:
			bad("exit", "", "exits with status %d in this environment, without any fault: %s", o.exit.Code, clip(o.exit.Stderr))
		case out == nil:
			bad("output", "", "leaves no output file in this environment")
		case !bytes.Equal(out, g.out):
			bad("output", "", "writes another output in this environment than in the reference environment: %s", differ(out, g.out))
		}
	case "C21":
		hs := strings.Join(history, ", ")
		switch {
		case hung:
			bad("hang", "", "does not end, although nothing disturbs it, after earlier runs: %s: %s", hs, strings.Join(o.res.Stuck, "; "))
		case !ok:
			bad("exit", "", "exits with status %d, although nothing disturbs it, after earlier runs: %s: %s", o.exit.Code, hs, clip(o.exit.Stderr))
		case out == nil:
			bad("output", "", "leaves no output file after earlier runs: %s", hs)
		case !bytes.Equal(out, g.out):
			bad("output", "", "writes a wrong output after earlier runs: %s: %s", hs, differ(out, g.out))
		}
		for n, b := range w.files[sc.Gen] {
			if p := path.Join(sc.Cwd, n); p != w.outFile(sc) && o.find == nil && !bytes.Equal(o.exit.Files[p], b) {
				bad("input", "", "has changed its source file %s, after earlier runs: %s", n, hs)
			}
		}
	case "C09":
		fired := fired(o.exit)
		must := false
		for _, k := range fired {
			switch strings.SplitN(k, ":", 2)[0] {
			case "open", "read", "create", "write", "close":
				// Another name may be taken if the file exists.
				must = must || k != "create:EEXIST"
			}
		}
		fs := strings.Join(fired, " ")
		switch {
		case hung:
			bad("hang", fs, "neither succeeds nor fails (faults %s): %s", fs, strings.Join(o.res.Stuck, "; "))
		case ok && out == nil:
			bad("output", fs, "reported success (faults: %s), but there is no output file", fs)
		case ok && !bytes.Equal(out, g.out):
			bad("output", fs, "reported success (faults: %s), but the output is not complete: %s", fs, differ(out, g.out))
		case ok && must:
			bad("success", fs, "reported success although file operations failed: %s", fs)
		case !ok && len(bytes.TrimSpace(o.exit.Stderr)) == 0 && len(bytes.TrimSpace(o.exit.Stdout)) == 0:
			bad("silent", fs, "failed (status %d; faults: %s) without saying so", o.exit.Code, fs)
		case !ok && len(fired) == 0:
			bad("exit", "", "exits with status %d without any fault: %s", o.exit.Code, clip(o.exit.Stderr))
		}
	}
	return o
}

func pickS(r *rt.Rand, l ...string) string { return l[r.Intn(len(l))] }

func (w *world) generate(run int64) *Scenario {
	var r rt.Rand
	r.Seed(work.MixS(work.Mix(*fSeed, uint64(run)), w.prop))
	sc := plain(w.prop, int(run)%len(w.meta.Gens))
	sc.Run, sc.Seed = run, *fSeed
	sc.Name = w.meta.Gens[sc.Gen].Dir
	g := w.golden(sc.Gen)
	sc.SchedSeed = r.Uint64()
	vary := func(pct int) bool { return r.Intn(100) < pct }
	pct := 60
	if w.prop == "C09" || w.prop == "C21" || w.prop == "C23" {
		pct = 15
	}
	if vary(pct) {
		sc.Cwd = pickS(&r, "/repo/"+sc.Name, "/a/b/c", "/home/other user/src", "/work/zz-42", "/x")
	}
	if vary(pct / 2) {
		sc.OutDir = pickS(&r, "/out", "sub/dir", "/a/b", "../up", "/tmp/x y")
	}
	if vary(pct) {
		sc.Exe = pickS(&r, "/tmp/go-build123/b001/exe/gen", "./gen", "gen", "/usr/bin/xyz", "/tmp/go-build999/exe/gen")
		sc.Host = pickS(&r, "alpha", "build-7", "localhost", "z")
		sc.PID = 1 + r.Intn(99999)
	}
	if vary(pct) {
		sc.CPUs = []int{1, 2, 3, 4, 6, 7, 8, 16, 64}[r.Intn(9)]
	}
	if vary(pct) {
		sc.Rand = int64(r.Uint64() >> 1)
	}
	if vary(pct) {
		// Any time from 1970 to 2100.
		sc.Clock = 1 + int64(r.Uint64()%4_100_000_000)*1_000_000_000 + int64(r.Intn(1_000_000_000))
	}
	if vary(pct) {
		sc.Vars = map[string]string{}
		for _, k := range []string{"HOME", "USER", "LANG", "LC_ALL", "TZ", "TMPDIR", "GOMAXPROCS", "GOFLAGS", "GOPACKAGE", "GOFILE", "GOARCH", "GOOS", "SOURCE_DATE_EPOCH", "DEBUG", "CI"} {
			if r.Intn(2) == 0 {
				continue
			}
			switch k {
			case "HOME", "TMPDIR":
				sc.Vars[k] = pickS(&r, "/tmp/h", "/var/t", "/home/q")
			case "GOMAXPROCS":
				sc.Vars[k] = pickS(&r, "1", "2", "8")
			case "LANG", "LC_ALL":
				sc.Vars[k] = pickS(&r, "C", "de_DE.UTF-8", "tr_TR")
			case "TZ":
				sc.Vars[k] = pickS(&r, "UTC", "Asia/Tokyo", "America/Lima", "Pacific/Kiritimati")
			case "SOURCE_DATE_EPOCH":
				sc.Vars[k] = pickS(&r, "0", "1500000000")
			default:
				sc.Vars[k] = pickS(&r, "1", "x", "true", "amd64", "linux", "main")
			}
		}
		if w.prop == "C08" && r.Intn(3) == 0 {
			// Read by the runtime and the standard library.
			sc.Vars["GODEBUG"] = pickS(&r, "randseednop=1", "randseednop=1", "randautoseed=0", "madvdontneed=1")
		}
		if w.prop == "C08" && r.Intn(2) == 0 {
			for i := 1 + r.Intn(4); i > 0; i-- {
				sc.Any = append(sc.Any, pickS(&r, "", "1", "0", "2", "7", "16", "1234567", "true", "x", "on", "fast"))
			}
		}
	}
	if vary(pct + pct/3) {
		sc.Prev = pickS(&r, "golden", "longer", "longer", "shorter", "junk", "empty", "edited", "edited", "edited", "edited", "edited")
		sc.PrevN = []int{1, 17, 300, 5000, 100_000}[r.Intn(5)] + r.Intn(7)
		if sc.Prev == "junk" && r.Intn(2) == 0 {
			sc.PrevN = len(g.out) + r.Intn(3) - 1 + r.Intn(2)*10_000
		}
		if sc.Prev == "edited" {
			sc.PrevN = r.Intn(1 << 30)
		}
		if sc.Prev == "shorter" {
			sc.PrevN = r.Intn(len(g.out) + 1)
		}
	}
	sc.Extra = vary(pct / 2)
	sc.Short = vary(pct / 2)
	sc.Slow = vary(pct / 2)
	sc.ClockJumps = vary(pct)
	sc.PoolFaults = vary(50)
	// The schedule: of importance only if the generator starts goroutines.
	sc.Mode = []int{0, 1, 1, 2, 4, 5}[r.Intn(6)]
	sc.Mean = []int64{10, 100, 1000, 10_000, 100_000}[r.Intn(5)]
	if g.tasks == 0 {
		sc.Mode = 0
	}
	sc.Changes = 1 + r.Intn(8)
	if r.Intn(2) == 0 {
		sc.StallPct = 5
	}
	sc.StallLen = []int{2, 20, 200}[r.Intn(3)]
	if w.prop == "C09" && run >= int64(len(w.meta.Gens)) && r.Intn(12) > 0 {
		w.faults(&r, sc, g)
	}
	if w.prop == "C21" {
		w.crashes(&r, sc, g)
	}
	if w.prop == "C23" {
		w.others(&r, sc, g)
	}
	return sc
}

// crashes draws the earlier runs.
func (w *world) crashes(r *rt.Rand, sc *Scenario, g *golden) {
	n := 1
	if r.Intn(3) == 0 {
		n = 2 + r.Intn(2)
	}
	total := 0
	for _, c := range g.exit.Ops {
		total += c
	}
	others := total
	for _, k := range []string{"write", "read"} {
		others -= g.exit.Ops[k]
	}
	if sc.Clock == 1_600_000_000_000_000_000 && r.Intn(2) == 0 {
		sc.Clock += int64(r.Intn(1_000_000_000))
	}
	at := sc.Clock
	for ; n > 0; n-- {
		c := Crash{PID: sc.PID, CPUs: sc.CPUs, Rand: sc.Rand, SchedSeed: r.Uint64()}
		if r.Intn(4) > 0 {
			c.PID = 1 + r.Intn(99999)
			c.Rand = int64(r.Uint64() >> 1)
		}
		if r.Intn(2) == 0 {
			c.CPUs = []int{1, 2, 3, 4, 6, 7, 8, 16, 64}[r.Intn(9)]
		}
		gap := []int64{50e6, 1e9, 60e9, 3600e9, 30 * 86400e9, -3600e9, -50e6}[r.Intn(7)]
		at -= gap + int64(r.Intn(1000))*1e6
		c.Clock = at
		if c.Clock <= 0 {
			c.Clock = 1
		}
		s := *sc
		s.Faults = nil
		switch r.Intn(8) {
		case 0, 1: // an error
			w.faults(r, &s, g)
		case 2: // killed at some I/O operation
			s.Faults = []rt.Fault{{Op: "any", Err: "KILL", Nth: 1 + r.Intn(total+1)}}
		case 3: // at its beginning, at its end, where it turns to something else
			k := 1 + r.Intn(12)
			if t := g.exit.Turns; len(t) > 0 && r.Intn(2) == 0 {
				s.Faults = []rt.Fault{{Op: "any", Err: "KILL", Nth: t[r.Intn(len(t))] + r.Intn(2)}}
				break
			}
			if r.Intn(2) == 0 {
				k = total + 1 - r.Intn(12)
				if k < 1 {
					k = 1
				}
			}
			s.Faults = []rt.Fault{{Op: "any", Err: "KILL", Nth: k}}
		case 4, 5: // after some bytes
			s.Faults = []rt.Fault{{Op: "write", Err: "KILL", AtBytes: true, Bytes: int64(r.Uint64() % uint64(g.exit.Written+1))}}
			if r.Intn(3) == 0 {
				s.Faults[0].Bytes = g.exit.Written - 1 - int64(r.Intn(5000))
			}
			if s.Faults[0].Bytes < 0 {
				s.Faults[0].Bytes = 0
			}
		case 6: // at an operation that is neither reading nor writing
			var ops []string
			for k, c := range g.exit.Ops {
				if c > 0 && k != "write" && k != "read" {
					ops = append(ops, k)
				}
			}
			sort.Strings(ops)
			if len(ops) > 0 {
				op := ops[r.Intn(len(ops))]
				s.Faults = []rt.Fault{{Op: op, Err: "KILL", Nth: place(r, g.exit.Ops[op])}}
			}
		case 7: // an error, and killed when dealing with it
			w.faults(r, &s, g)
			s.Faults = append(s.Faults, rt.Fault{Op: "any", Err: "KILL", Nth: total + 3 - r.Intn(8)})
			if r.Intn(2) == 0 {
				s.Faults = append(s.Faults[:len(s.Faults)-1], rt.Fault{Op: pickS(r, "remove", "close", "rename", "write"), Err: "KILL", Nth: 1 + r.Intn(3)})
			}
		}
		c.Faults = s.Faults
		if r.Intn(3) == 0 {
			c.Power = r.Uint64() | 1
		}
		sc.Crashes = append(sc.Crashes, c)
	}
	for i, j := 0, len(sc.Crashes)-1; i < j; i, j = i+1, j-1 {
		sc.Crashes[i], sc.Crashes[j] = sc.Crashes[j], sc.Crashes[i]
	}
}

// faults draws what goes wrong, and where.
func (w *world) faults(r *rt.Rand, sc *Scenario, g *golden) {
	n := 1
	if r.Intn(4) == 0 {
		n = 2
	}
	ops := []string{"write", "write", "write", "bytes", "bytes", "bytes", "close", "close", "create", "open", "read"}
	for k, c := range g.exit.Ops {
		if c > 0 {
			switch k {
			case "sync", "rename", "remove", "stat", "truncate", "chmod":
				ops = append(ops, k)
			}
		}
	}
	sort.Strings(ops[11:])
	for ; n > 0; n-- {
		op := ops[r.Intn(len(ops))]
		f := rt.Fault{Op: op, Sticky: r.Intn(2) == 0}
		c := g.exit.Ops[op]
		total := g.exit.Written
		switch op {
		case "bytes":
			f.Op, f.AtBytes = "write", true
			switch r.Intn(6) {
			case 0:
				f.Bytes = int64(r.Uint64() % uint64(total+1))
			case 1:
				f.Bytes = total - 1 - int64(r.Intn(64))
			case 2:
				f.Bytes = total - 1 - int64(r.Intn(5000))
			case 3:
				f.Bytes = int64(r.Intn(5000))
			case 4:
				f.Bytes = int64(r.Uint64()%uint64(total/4096+1)) * 4096
			case 5:
				f.Bytes = total - 1
			}
			if f.Bytes < 0 {
				f.Bytes = 0
			}
			f.Err = pickS(r, "ENOSPC", "ENOSPC", "EDQUOT", "EIO")
		case "write":
			f.Nth = place(r, c)
			f.Err = pickS(r, "EIO", "ENOSPC", "EDQUOT", "EFBIG", "EPIPE", "EPERM")
		case "close":
			f.Nth = place(r, c)
			f.Err = pickS(r, "EIO", "ENOSPC", "EDQUOT")
		case "create":
			f.Nth = place(r, c)
			f.Err = pickS(r, "EACCES", "ENOSPC", "EROFS", "EMFILE", "EIO", "EPERM", "ENOENT", "EISDIR", "ENOTDIR", "ETXTBSY", "EEXIST", "EEXIST", "ENFILE")
		case "open":
			f.Nth = place(r, c)
			f.Err = pickS(r, "ENOENT", "ENOENT", "EACCES", "EMFILE", "EIO", "EPERM", "ENOTDIR", "ELOOP")
		default:
			f.Nth = place(r, c)
			f.Err = pickS(r, "EIO", "EACCES", "ENOSPC")
			if op == "read" {
				f.Err = "EIO"
			}
		}
		sc.Faults = append(sc.Faults, f)
	}
}

// place draws which of about n operations fails.
func place(r *rt.Rand, n int) int {
	if n <= 1 {
		return 1
	}
	switch r.Intn(4) {
	case 0:
		return 1 + r.Intn(n)
	case 1:
		return n
	case 2:
		return 1 + r.Intn(n)%4
	}
	return n - r.Intn(n)%40
}

type known struct {
	prop string
	re   *regexp.Regexp
}

func loadKnown() []known {
	var l []known
	b, err := os.ReadFile(*fKnown)
	if err != nil {
		return nil
	}
	var fs []struct{ Property, Signature string }
	if json.Unmarshal(b, &fs) != nil {
		return nil
	}
	for _, f := range fs {
		l = append(l, known{f.Property, regexp.MustCompile(f.Signature)})
	}
	return l
}

func (w *world) search() int {
	start := time.Now()
	hashes := map[uint64]struct{}{}
	kn := loadKnown()
	rep := w.rep
	code := 0
	for r := int64(*fShard); r < *fRuns; r += int64(*fOf) {
		if time.Since(start).Seconds() > *fSecs {
			rep.Stopped = true
			break
		}
		sc := w.generate(r)
		o := w.run(sc, false)
		rep.Runs++
		rep.Modes[fmt.Sprintf("%s/%s", w.meta.Gens[sc.Gen].Dir, modeNames[sc.Mode])]++
		rep.Ops[w.meta.Gens[sc.Gen].Dir]++
		for _, v := range []struct {
			n  string
			on bool
		}{{"short_reads", sc.Short}, {"slow_io", sc.Slow}, {"previous_output_" + sc.Prev, sc.Prev != "none"}, {"other_environment", sc.Vars != nil || sc.Any != nil},
			{"other_directory", sc.Cwd != "/home/user/float" || sc.OutDir != ""}, {"other_clock", sc.Clock != 1_600_000_000_000_000_000}, {"other_random_state", sc.Rand != 99},
			{"other_cpu_count", sc.CPUs != 1}, {"other_process_identity", sc.PID != 4242}} {
			if v.on {
				rep.Faults[v.n]++
			}
		}
		if o.exit != nil {
			rep.Stats[fmt.Sprintf("exit_status_%d", o.exit.Code)]++
		}
		h := work.Mix(o.dig, sc.Env())
		if len(hashes) < 2_000_000 {
			hashes[h] = struct{}{}
		}
		if r < *fDigest {
			rep.Digests = append(rep.Digests, uint64(r), o.dig)
		}
		if len(rep.Samples) < 3 {
			rep.Samples = append(rep.Samples, map[string]any{"run": r, "reading": w.reading(sc), "steps": o.res.Steps, "digest": fmt.Sprintf("%016x", o.dig)})
		}
		if o.find == nil {
			continue
		}
		isKnown := false
		for _, k := range kn {
			if k.prop == w.prop && k.re.MatchString(o.find.sig) {
				rep.Known[k.re.String()]++
				isKnown = true
			}
		}
		if isKnown {
			continue
		}
		rep.Viol = &work.Violation{Property: w.prop, Oracle: o.find.oracle, Sig: o.find.sig, Detail: o.find.detail}
		rep.Cand = *fCand
		if err := work.Save(*fCand, sc); err != nil {
			rep.Error = err.Error()
		}
		code = 1
		break
	}
	for _, g := range w.gold {
		if g != nil && g.problem != "" && code == 0 && !(w.prop == "C08" && g.exit.Code == 0 && g.out != nil) {
			rep.Error = "a generator does not work: " + g.problem
			code = 3
		}
	}
	rep.Wall = time.Since(start).Seconds()
	for i, h := range rt.Hits {
		if h > 0 {
			rep.Sites = append(rep.Sites, int32(i))
		}
	}
	rep.Hashes = len(hashes)
	if *fReport != "" {
		work.SaveHashes(*fReport+".hashes", hashes)
		if err := work.Save(*fReport, rep); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	return code
}

// Env is a measure of the environment of a run.
func (sc *Scenario) Env() uint64 {
	c := *sc
	c.Run, c.Seed, c.SchedSeed = 0, 0, 0
	b, _ := json.Marshal(&c)
	return work.MixS(1, string(b))
}

var modeNames = []string{"serial", "uniform", "priorities", "stall-at-site", "lockstep", "bursts"}

func faultLines(add func(string, ...any), fs []rt.Fault) {
	for _, f := range fs {
		k := "once"
		if f.Sticky {
			k = "from then on"
		}
		if f.Err == "PAUSE" {
			add("fault: stalls for %s at its input/output operation number %d", time.Duration(f.Bytes), f.Nth)
		} else if f.Err == "KILL" {
			switch {
			case f.AtBytes:
				add("fault: killed when it has written %d bytes", f.Bytes)
			case f.Op == "any":
				add("fault: killed at its input/output operation number %d", f.Nth)
			default:
				add("fault: killed at its %s number %d", f.Op, f.Nth)
			}
		} else if f.AtBytes {
			add("fault: writing fails with %s after %d bytes, %s", f.Err, f.Bytes, k)
		} else {
			add("fault: %s number %d fails with %s, %s", f.Op, f.Nth, f.Err, k)
		}
	}
}

func (w *world) reading(sc *Scenario) []string {
	p := plain(sc.Property, sc.Gen)
	args, file := w.outArg(sc)
	l := []string{fmt.Sprintf("generator %s with arguments %q in %s; output file %s", w.meta.Gens[sc.Gen].Dir, args, sc.Cwd, file)}
	add := func(f string, a ...any) { l = append(l, fmt.Sprintf(f, a...)) }
	if sc.Prev != "none" {
		add("the output file existed before: %s (%d)", sc.Prev, sc.PrevN)
	}
	if sc.Clock != p.Clock {
		add("the clock starts at %s", time.Unix(0, sc.Clock).UTC())
	}
	if sc.ClockJumps {
		add("the clock jumps")
	}
	if sc.Rand != p.Rand {
		add("random state of the process: seed %d", sc.Rand)
	}
	if sc.CPUs != p.CPUs {
		add("%d CPUs", sc.CPUs)
	}
	if sc.PID != p.PID || sc.Host != p.Host || sc.Exe != p.Exe {
		add("process %d (%s) on host %s", sc.PID, sc.Exe, sc.Host)
	}
	if sc.Vars != nil {
		b, _ := json.Marshal(sc.Vars)
		add("environment %s", b)
	}
	if sc.Any != nil {
		add("other environment variables have values from %q", sc.Any)
	}
	if sc.Extra {
		add("unrelated files lie in the directories")
	}
	if sc.Short {
		add("reads return less than asked for")
	}
	if sc.Slow {
		add("input and output are slow")
	}
	for i, c := range sc.Crashes {
		add("earlier run %d: process %d at %s, %d CPUs, other choices from seed %d", i+1, c.PID, time.Unix(0, c.Clock).UTC(), c.CPUs, c.SchedSeed)
		faultLines(add, c.Faults)
		if c.Power != 0 {
			add("then power is lost (what is lost: seed %d)", c.Power)
		}
	}
	if len(sc.Crashes) > 0 {
		add("then the run that is judged:")
	}
	faultLines(add, sc.Faults)
	if sc.Delay > 0 {
		add("it starts after %s", time.Duration(sc.Delay))
	}
	for i := range sc.Others {
		s := sc.other(i)
		args, file := w.outArg(s)
		add("at the same time, process %d: generator %s with arguments %q in %s; output file %s; starts after %s", s.PID, w.meta.Gens[s.Gen].Dir, args, s.Cwd, file, time.Duration(s.Delay))
		faultLines(add, s.Faults)
	}
	add("map orders and other choices from seed %d", sc.SchedSeed)
	return l
}

func load(p string) (*Scenario, *ReplayFile, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, nil, err
	}
	rf := &ReplayFile{}
	if err := json.Unmarshal(b, rf); err == nil && rf.Scenario != nil {
		return rf.Scenario, rf, nil
	}
	sc := &Scenario{}
	return sc, nil, json.Unmarshal(b, sc)
}

func (w *world) replay(p string) int {
	sc, rf, err := load(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	w.prop = sc.Property
	o := w.run(sc, true)
	if o.find == nil {
		fmt.Println("replay: no violation")
		return 0
	}
	if rf != nil && o.find.oracle != rf.Violation.Oracle {
		fmt.Printf("replay: another violation (%s, was %s)\n", o.find.oracle, rf.Violation.Oracle)
	}
	for _, l := range w.reading(sc) {
		fmt.Println("replay:", l)
	}
	fmt.Printf("replay: %s: %s\n", o.find.oracle, o.find.detail)
	return 1
}

func size(sc *Scenario) map[string]int {
	p := plain(sc.Property, sc.Gen)
	n := 0
	for _, b := range []bool{sc.Cwd != p.Cwd, sc.OutDir != "", sc.Exe != p.Exe, sc.Host != p.Host, sc.PID != p.PID, sc.CPUs != p.CPUs, sc.Rand != p.Rand,
		sc.Clock != p.Clock, sc.Vars != nil, sc.Any != nil, sc.Prev != p.Prev, sc.Extra, sc.Short, sc.Slow, sc.ClockJumps, sc.PoolFaults, sc.SchedSeed != p.SchedSeed} {
		if b {
			n++
		}
	}
	return map[string]int{"differences_from_reference": n, "faults": len(sc.Faults), "earlier_runs": len(sc.Crashes), "processes": 1 + len(sc.Others), "decisions": len(sc.Decisions), "choices": len(sc.Choices)}
}

func (w *world) minimise(in, out string, secs float64) int {
	sc, _, err := load(in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	w.prop = sc.Property
	start := time.Now()
	left := func() bool { return time.Since(start).Seconds() < secs }
	oracle := ""
	var last *outcome
	trial := func(s *Scenario) *Scenario {
		o := w.run(s, true)
		if o.find == nil || oracle != "" && o.find.oracle != oracle {
			return nil
		}
		oracle = o.find.oracle
		last = o
		n := *s
		n.Replay, n.Decisions, n.Choices = true, o.res.Decisions, o.res.Choices
		return &n
	}
	orig := size(sc)
	cur := trial(sc)
	minimised := cur != nil
	if cur == nil {
		cur = sc
	}
	p := plain(sc.Property, sc.Gen)
	p.SchedSeed = 1
	try := func(f func(*Scenario)) {
		if !minimised || !left() {
			return
		}
		s := *cur
		s.Faults = append([]rt.Fault(nil), cur.Faults...)
		s.Crashes = append([]Crash(nil), cur.Crashes...)
		s.Others = append([]Proc(nil), cur.Others...)
		s.Replay, s.Decisions, s.Choices = false, nil, nil
		f(&s)
		a, _ := json.Marshal(&s)
		t := *cur
		t.Replay, t.Decisions, t.Choices = false, nil, nil
		b, _ := json.Marshal(&t)
		if bytes.Equal(a, b) {
			return
		}
		if n := trial(&s); n != nil {
			cur = n
		}
	}
	// Everything as in the reference environment, at once and then one by one.
	try(func(s *Scenario) {
		f, cs, os, d := s.Faults, s.Crashes, s.Others, s.Delay
		r, sd := s.Run, s.Seed
		*s = *p
		s.Faults, s.Crashes, s.Run, s.Seed, s.Name = f, cs, r, sd, sc.Name
		if os != nil {
			s.Others, s.Delay, s.Gen, s.Mode, s.Mean = os, d, sc.Gen, sc.Mode, sc.Mean
			s.Cwd, s.OutDir, s.Out, s.PID = sc.Cwd, sc.OutDir, sc.Out, sc.PID
			s.SchedSeed, s.StallLen, s.StallPct = sc.SchedSeed, sc.StallLen, sc.StallPct
		}
	})
	for i := len(cur.Others) - 1; i >= 0; i-- {
		i := i
		try(func(s *Scenario) { s.Others = append(s.Others[:i], s.Others[i+1:]...) })
	}
	for i := range cur.Others {
		i := i
		try(func(s *Scenario) { s.Others[i].Faults = nil })
		try(func(s *Scenario) { s.Others[i].Delay = 0 })
		try(func(s *Scenario) { s.Others[i].Vars = nil })
		try(func(s *Scenario) { s.Others[i].OutDir = s.OutDir })
		try(func(s *Scenario) { s.Others[i].CPUs = 1 })
	}
	try(func(s *Scenario) { s.Delay = 0 })
	for i := len(cur.Crashes) - 1; i >= 0; i-- {
		i := i
		if len(cur.Crashes) > 1 {
			try(func(s *Scenario) { s.Crashes = append(s.Crashes[:i], s.Crashes[i+1:]...) })
		}
	}
	for i := range cur.Crashes {
		i := i
		try(func(s *Scenario) { s.Crashes[i].Power = 0 })
		for k := len(cur.Crashes[i].Faults) - 1; k >= 0; k-- {
			k := k
			try(func(s *Scenario) {
				fs := append([]rt.Fault(nil), s.Crashes[i].Faults...)
				s.Crashes[i].Faults = append(fs[:k], fs[k+1:]...)
			})
		}
		try(func(s *Scenario) { s.Crashes[i].CPUs = s.CPUs })
		try(func(s *Scenario) { s.Crashes[i].PID, s.Crashes[i].Rand = s.PID, s.Rand })
		try(func(s *Scenario) { s.Crashes[i].Clock = s.Clock - 60e9 })
		try(func(s *Scenario) { s.Crashes[i].SchedSeed = 1 })
		for k := range cur.Crashes[i].Faults {
			k := k
			for _, to := range []int64{1, 0} {
				to := to
				try(func(s *Scenario) {
					fs := append([]rt.Fault(nil), s.Crashes[i].Faults...)
					if fs[k].AtBytes {
						fs[k].Bytes = to
					} else {
						fs[k].Nth = 1
						fs[k].Sticky = false
					}
					s.Crashes[i].Faults = fs
				})
			}
		}
	}
	for i := len(cur.Faults) - 1; i >= 0; i-- {
		i := i
		try(func(s *Scenario) { s.Faults = append(s.Faults[:i], s.Faults[i+1:]...) })
	}
	for _, f := range []func(*Scenario){
		func(s *Scenario) { s.Cwd = p.Cwd }, func(s *Scenario) { s.OutDir = "" },
		func(s *Scenario) { s.Exe, s.Host, s.PID = p.Exe, p.Host, p.PID },
		func(s *Scenario) { s.Exe = p.Exe }, func(s *Scenario) { s.Host = p.Host }, func(s *Scenario) { s.PID = p.PID },
		func(s *Scenario) { s.CPUs = p.CPUs }, func(s *Scenario) { s.Rand = p.Rand }, func(s *Scenario) { s.Clock = p.Clock },
		func(s *Scenario) { s.Any = nil }, func(s *Scenario) { s.Vars = nil },
		func(s *Scenario) { s.Prev, s.PrevN = "none", 0 }, func(s *Scenario) { s.PrevN = 1 },
		func(s *Scenario) { s.Extra = false }, func(s *Scenario) { s.Short = false }, func(s *Scenario) { s.Slow = false },
		func(s *Scenario) { s.ClockJumps = false }, func(s *Scenario) { s.PoolFaults = false },
		func(s *Scenario) { s.StallPct = 0 }, func(s *Scenario) { s.Mode = 0 }, func(s *Scenario) { s.SchedSeed = 1 },
	} {
		try(f)
	}
	for i := range cur.Faults {
		i := i
		try(func(s *Scenario) { s.Faults[i].Sticky = false })
		try(func(s *Scenario) { s.Faults[i].Nth = 1 })
		try(func(s *Scenario) { s.Faults[i].Bytes = 0 })
	}
	if n := trial(cur); n != nil {
		cur = n
	}
	rf := &ReplayFile{VerifSeed: sc.Seed, Minimised: minimised, Original: orig, Size: size(cur), Reading: w.reading(cur), Scenario: cur}
	if last != nil {
		rf.Violation = work.Violation{Property: sc.Property, Oracle: last.find.oracle, Sig: last.find.sig, Detail: last.find.detail}
	}
	if err := work.Save(out, rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if last == nil {
		return 4
	}
	return 1
}
