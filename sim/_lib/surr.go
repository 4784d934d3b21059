package main

import (
	"fmt"

	rt "github.com/mewmew/float/zzsim/rt"
	"github.com/mewmew/float/zzsim/work"
)

// Surr is what surrounds the simulated process: everything about the machine,
// the user and the moment that a call is not told about.
type Surr struct {
	Vars  map[string]string `json:"env,omitempty"`
	Any   []string          `json:"other_env,omitempty"` // values of the variables not in Vars
	Files []string          `json:"files,omitempty"`     // contents of the files that are asked for
	Args  []string          `json:"args,omitempty"`
	Exe   string            `json:"exe,omitempty"`
	Cwd   string            `json:"cwd,omitempty"`
	Host  string            `json:"host,omitempty"`
	PID   int               `json:"pid,omitempty"`
	CPUs  int               `json:"cpus,omitempty"`
	Rand  int64             `json:"rand_seed,omitempty"`
	Clock int64             `json:"clock_unix_ns,omitempty"`
	Fault []rt.Fault        `json:"faults,omitempty"`
}

func (s *Surr) env() *rt.Env {
	e := &rt.Env{Cwd: "/sim", Host: "sim", PID: 100, CPUs: 4, Rand: 1}
	if s.Vars != nil {
		e.Vars = map[string]string{}
		for k, v := range s.Vars {
			e.Vars[k] = v
		}
	}
	e.Any = s.Any
	e.AnyFile = s.Files
	e.Args = s.Args
	e.Exe = s.Exe
	if s.Cwd != "" {
		e.Cwd = s.Cwd
	}
	if s.Host != "" {
		e.Host = s.Host
	}
	if s.PID != 0 {
		e.PID = s.PID
	}
	if s.CPUs != 0 {
		e.CPUs = s.CPUs
	}
	if s.Rand != 0 {
		e.Rand = s.Rand
	}
	e.Clock = s.Clock
	e.Faults = append([]rt.Fault(nil), s.Fault...)
	e.Dirs = []string{e.Cwd}
	return e
}

func pickS(r *rt.Rand, l ...string) string { return l[r.Intn(len(l))] }

// surroundings draws a process.
func surroundings(r *rt.Rand) *Surr {
	s := &Surr{}
	vary := func() bool { return r.Intn(100) < 45 }
	if vary() {
		s.Cwd = pickS(r, "/repo", "/a/b/c", "/home/other user/src", "/work/zz-42", "/")
	}
	if vary() {
		s.Exe = pickS(r, "/tmp/go-build123/b001/exe/prog", "./prog", "/usr/bin/xyz", "/tmp/go-build999/b001/float.test", "prog.test")
		s.Host = pickS(r, "alpha", "build-7", "localhost", "z")
		s.PID = 1 + r.Intn(99999)
	}
	if vary() {
		for n := r.Intn(4); n > 0; n-- {
			s.Args = append(s.Args, pickS(r, "-v", "-debug", "-test.v=true", "-test.bench=.", "x", "--", "-prec=9", "-1"))
		}
	}
	if vary() {
		s.CPUs = []int{1, 2, 3, 5, 6, 7, 8, 12, 16, 64, 128}[r.Intn(11)]
	}
	if vary() {
		s.Rand = int64(r.Uint64()>>1) | 1
	}
	if vary() {
		s.Clock = 1 + int64(r.Uint64()%4_100_000_000)*1_000_000_000 + int64(r.Intn(1_000_000_000))
		if r.Intn(4) == 0 {
			// At the end of a day, a month or a year.
			s.Clock = 946_684_800_000_000_000 + int64(r.Intn(100))*31_557_600_000_000_000 - int64(r.Intn(2))
		}
	}
	if vary() {
		s.Vars = map[string]string{}
		for _, k := range []string{"HOME", "USER", "LANG", "LC_ALL", "LC_NUMERIC", "TZ", "TMPDIR", "GOMAXPROCS", "GOGC", "GODEBUG", "GOFLAGS", "GOARCH", "GOAMD64", "DEBUG", "CI", "PATH", "TERM"} {
			if r.Intn(2) == 0 {
				continue
			}
			switch k {
			case "HOME", "TMPDIR", "PATH":
				s.Vars[k] = pickS(r, "/tmp/h", "/var/t", "/home/q", "/")
			case "GOMAXPROCS":
				s.Vars[k] = pickS(r, "1", "2", "8")
			case "GOGC":
				s.Vars[k] = pickS(r, "off", "10", "100", "400")
			case "GODEBUG":
				s.Vars[k] = pickS(r, "randseednop=1", "randautoseed=0", "madvdontneed=1", "cpu.all=off")
			case "GOAMD64":
				s.Vars[k] = pickS(r, "v1", "v3")
			case "LANG", "LC_ALL", "LC_NUMERIC":
				s.Vars[k] = pickS(r, "C", "de_DE.UTF-8", "tr_TR", "en_US.UTF-8", "fr_FR")
			case "TZ":
				s.Vars[k] = pickS(r, "UTC", "Asia/Tokyo", "America/Lima", "Pacific/Kiritimati")
			default:
				s.Vars[k] = pickS(r, "1", "x", "true", "amd64", "linux", "main", "dumb")
			}
		}
	}
	if vary() {
		for i := 1 + r.Intn(4); i > 0; i-- {
			s.Any = append(s.Any, pickS(r, "", "1", "0", "2", "3", "7", "16", "64", "1234567", "true", "false", "x", "on", "off", "fast", "even", "nearest", "zero"))
		}
	}
	if vary() {
		for i := 1 + r.Intn(3); i > 0; i-- {
			s.Files = append(s.Files, pickS(r, "", "1\n", "0", "true", "{}", "{\"prec\": 3}", "prec=9\nmode=zero\n", "x,y\n1,2\n", "on"))
		}
	}
	if vary() {
		for i := 1 + r.Intn(3); i > 0; i-- {
			s.Fault = append(s.Fault, rt.Fault{Op: pickS(r, "open", "read", "create", "write", "stat", "close", "sync", "rename"), Nth: 1 + r.Intn(2), Sticky: r.Intn(2) == 0, Err: pickS(r, "EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS")})
		}
	}
	return s
}

// surrNecessary: without the surroundings the scenario behaves.
func (w *world) surrNecessary(sc *Scenario, most int) bool {
	c := *sc
	c.Surr = nil
	c.Replay = false
	c.Decisions, c.Choices = nil, nil
	tries := 2
	if len(sc.Tasks) > 1 {
		tries = most
	}
	for k := 0; k < tries; k++ {
		if k > 0 {
			c.SchedSeed = work.Mix(sc.SchedSeed, uint64(k))
			if len(sc.Tasks) > 1 && k > 4 {
				c.Mode = []int{1, 3, 4, 5, 2}[k%5]
				c.Mean = []int64{1, 3, 10, 40}[k%4]
			}
		}
		if w.run(&c, false).find != nil {
			return false
		}
	}
	return true
}

// drops lists the surroundings without one of their parts each.
func (s *Surr) drops() (l []*Surr) {
	if s == nil {
		return nil
	}
	add := func(f func(t *Surr)) {
		t := *s
		f(&t)
		if fmt.Sprint(t) != fmt.Sprint(*s) {
			l = append(l, &t)
		}
	}
	add(func(t *Surr) { t.Fault = nil })
	add(func(t *Surr) { t.Any = nil })
	add(func(t *Surr) { t.Files = nil })
	add(func(t *Surr) { t.Vars = nil })
	add(func(t *Surr) { t.Args = nil })
	add(func(t *Surr) { t.Exe = "" })
	add(func(t *Surr) { t.Cwd = "" })
	add(func(t *Surr) { t.Host = "" })
	add(func(t *Surr) { t.PID = 0 })
	add(func(t *Surr) { t.CPUs = 0 })
	add(func(t *Surr) { t.Rand = 0 })
	add(func(t *Surr) { t.Clock = 0 })
	var names []string
	for k := range s.Vars {
		names = append(names, k)
	}
	sortStrings(names)
	for _, k := range names {
		k := k
		add(func(t *Surr) {
			t.Vars = map[string]string{}
			for j, v := range s.Vars {
				if j != k {
					t.Vars[j] = v
				}
			}
		})
	}
	for i := range s.Any {
		i := i
		add(func(t *Surr) { t.Any = []string{s.Any[i]} })
	}
	for i := range s.Fault {
		i := i
		add(func(t *Surr) { t.Fault = append(append([]rt.Fault(nil), s.Fault[:i]...), s.Fault[i+1:]...) })
	}
	return l
}
