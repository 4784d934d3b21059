package simrt

import (
	"flag"
	"math/rand"
	"time"
)

// proc is what a process has for itself when several run at the same time:
// its environment, and the package-level variables while others run.
type proc struct {
	env     *Env
	exit    *Exit
	prng    *rand.Rand
	tmpNo   int
	ioOps   int
	flagSet *flag.FlagSet
	usage   func()
	args    []string
	frozen  bool
	local   *time.Location
	restore func()
	ended   bool
}

var (
	procs   []*proc
	curProc *proc
)

func procsReset(c *Config) {
	procs, curProc = nil, nil
	for i, e := range c.Envs {
		if i > 0 {
			// All on one file system.
			e.FS = &FS{fsFiles, fsUndo}
		}
		c.Env = e
		envReset()
		p := &proc{}
		p.save()
		procs = append(procs, p)
	}
}

func (p *proc) save() {
	p.env, p.exit, p.prng, p.tmpNo, p.ioOps, p.flagSet, p.usage, p.args, p.frozen, p.local = env, exit, prng, tmpNo, ioOps, flagSet, FlagUsage, Args, frozen, time.Local
}

func switchTo(p *proc) {
	if curProc != nil {
		curProc.save()
		if !curProc.ended {
			curProc.restore = cfg.SaveVars()
		}
	}
	curProc = p
	if p == nil {
		return
	}
	env, exit, prng, tmpNo, ioOps, flagSet, FlagUsage, Args, frozen, time.Local = p.env, p.exit, p.prng, p.tmpNo, p.ioOps, p.flagSet, p.usage, p.args, p.frozen, p.local
	if p.restore != nil {
		p.restore()
		p.restore = nil
	}
}

// Exits is what each of the processes of the last run left behind.
func Exits() (l []*Exit) {
	for _, p := range procs {
		l = append(l, p.exit)
	}
	return l
}

// Contents is the content of the files.
func (f *FS) Contents() map[string][]byte {
	m := map[string][]byte{}
	for p, n := range f.files {
		if !n.dir {
			m[p] = n.data
		}
	}
	return m
}
