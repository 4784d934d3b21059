package simrt

import (
	"context"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
)

// Effect is something the code under test did to the process it runs in, or
// to the world outside it.
type Effect struct {
	Task int // who did it; below 0: the initialisation of a package
	Kind string
	Text string
}

var (
	effects  [20]Effect
	effectN  int
	procsMax int
)

// effect notes an effect, when the run asks for that.
//
//go:norace
func effect(kind, text string) {
	if cfg == nil || !cfg.Effects || frozen || effectN >= len(effects) {
		return
	}
	effects[effectN] = Effect{CurID(), kind, text}
	effectN++
}

// Effects lists what happened in the last run, or so far in this one.
func Effects() []Effect { return effects[:effectN] }

//go:norace
func effectsReset() {
	effectN = 0
	procsMax = 0
	startOut, startErr, startIn, startArgs, startZone = stdOut, stdErr, stdIn, strings.Join(Args, "\x00"), time.Local
	Stdout, Stderr, Stdin = stdOut, stdErr, stdIn
	stdLogger = log.New(stdErr, "", 0)
}

var (
	stdOut, stdErr, stdIn       = Stdout, Stderr, Stdin
	startOut, startErr, startIn *File
	startArgs                   string
	startZone                   *time.Location
	stdLogger                   *log.Logger
)

// EffectsAtEnd notes changes of the variables every package can see.
func EffectsAtEnd() {
	was := frozen
	frozen = false
	if Stdout != startOut {
		effect("variable", "os.Stdout is another file")
	}
	if Stderr != startErr {
		effect("variable", "os.Stderr is another file")
	}
	if Stdin != startIn {
		effect("variable", "os.Stdin is another file")
	}
	if a := strings.Join(Args, "\x00"); a != startArgs {
		effect("variable", fmt.Sprintf("os.Args is %q", Args))
	}
	if time.Local != startZone {
		effect("variable", "time.Local is "+time.Local.String())
	}
	if stdLogger.Flags() != 0 || stdLogger.Prefix() != "" || stdLogger.Writer() != io.Writer(stdErr) {
		effect("log", "the standard logger has other settings")
	}
	frozen = was
}

func cut(p []byte) string {
	if len(p) > 120 {
		return fmt.Sprintf("%q...", p[:120])
	}
	return fmt.Sprintf("%q", p)
}

//go:norace
func GOMAXPROCS(n int) int {
	old := procsMax
	if old == 0 {
		old = NumCPU()
	}
	if n > 0 && n != old {
		effect("scheduler", fmt.Sprintf("GOMAXPROCS goes from %d to %d", old, n))
		procsMax = n
	}
	return old
}

func DebugSetGCPercent(n int) int {
	if n != 100 {
		effect("collector", fmt.Sprintf("debug.SetGCPercent(%d)", n))
	}
	return 100
}
func DebugSetMemoryLimit(n int64) int64 {
	if n >= 0 {
		effect("collector", fmt.Sprintf("debug.SetMemoryLimit(%d)", n))
	}
	return 1<<63 - 1
}
func DebugSetMaxStack(n int) int {
	effect("runtime", fmt.Sprintf("debug.SetMaxStack(%d)", n))
	return 1000000000
}
func DebugSetMaxThreads(n int) int {
	effect("runtime", fmt.Sprintf("debug.SetMaxThreads(%d)", n))
	return 10000
}
func DebugSetTraceback(l string) { effect("runtime", "debug.SetTraceback("+l+")") }
func DebugPrintStack()           { fmt.Fprintf(Stderr, "goroutine %d [running]:\n", CurID()+1) }
func DebugSetPanicOnFault(b bool) bool {
	effect("runtime", fmt.Sprintf("debug.SetPanicOnFault(%v)", b))
	return false
}

func LockOSThread()   { effect("runtime", "runtime.LockOSThread()") }
func UnlockOSThread() {}

func SigNotify(c chan<- os.Signal, s ...os.Signal) {
	effect("signals", fmt.Sprintf("signal.Notify(%v)", s))
}
func SigIgnore(s ...os.Signal) { effect("signals", fmt.Sprintf("signal.Ignore(%v)", s)) }
func SigReset(s ...os.Signal)  { effect("signals", fmt.Sprintf("signal.Reset(%v)", s)) }
func SigStop(chan<- os.Signal) {}

// BuiltinPrint and BuiltinPrintln stand in for the builtin functions.
func BuiltinPrint(a ...any)   { fmt.Fprint(Stderr, a...) }
func BuiltinPrintln(a ...any) { fmt.Fprintln(Stderr, a...) }

// LogDefault is log.Default.
func LogDefault() *log.Logger { return stdLogger }

func LogOutput(_ int, s string) error { return stdLogger.Output(2, s) }

// SlogLog stands in for the functions of log/slog that log to the default
// logger.
func SlogLog(msg string, a ...any)         { fmt.Fprintln(Stderr, append([]any{msg}, a...)...) }
func SlogLogC(_ any, msg string, a ...any) { SlogLog(msg, a...) }

func LogSet(int)        { effect("log", "log.SetFlags") }
func LogSetS(string)    { effect("log", "log.SetPrefix") }
func LogSetW(io.Writer) { effect("log", "log.SetOutput") }

// The functions of math/rand draw from the sequence a program may have seeded;
// those of math/rand/v2 and crypto/rand do not.
func draw(name string) {
	effect("random", "draws from the process-wide sequence of math/rand: rand."+name)
}

func Rand1Int() int             { draw("Int"); return RandInt() }
func Rand1Intn(n int) int       { draw("Intn"); return RandIntn(n) }
func Rand1Int31() int32         { draw("Int31"); return RandInt31() }
func Rand1Int31n(n int32) int32 { draw("Int31n"); return RandInt31n(n) }
func Rand1Int63() int64         { draw("Int63"); return RandInt63() }
func Rand1Int63n(n int64) int64 { draw("Int63n"); return RandInt63n(n) }
func Rand1Uint32() uint32       { draw("Uint32"); return RandUint32() }
func Rand1Uint64() uint64       { draw("Uint64"); return RandUint64() }
func Rand1Float32() float32     { draw("Float32"); return RandFloat32() }
func Rand1Float64() float64     { draw("Float64"); return RandFloat64() }
func Rand1NormFloat64() float64 { draw("NormFloat64"); return RandNormFloat64() }
func Rand1ExpFloat64() float64  { draw("ExpFloat64"); return RandExpFloat64() }
func Rand1Perm(n int) []int     { draw("Perm"); return RandPerm(n) }
func Rand1Shuffle(n int, swap func(i, j int)) {
	draw("Shuffle")
	RandShuffle(n, swap)
}
func Rand1Read(p []byte) (int, error) { draw("Read"); return RandRead(p) }

// ExecCmd is exec.Cmd on a machine without programs.
type ExecCmd struct {
	Path    string
	Args    []string
	Env     []string
	Dir     string
	Stdin   io.Reader
	Stdout  io.Writer
	Stderr  io.Writer
	Process *os.Process
}

func ExecCommand(name string, arg ...string) *ExecCmd {
	return &ExecCmd{Path: name, Args: append([]string{name}, arg...)}
}
func ExecCommandContext(_ context.Context, name string, arg ...string) *ExecCmd {
	return ExecCommand(name, arg...)
}
func ExecLookPath(name string) (string, error) {
	return "", &exec.Error{Name: name, Err: exec.ErrNotFound}
}

func (c *ExecCmd) Start() error {
	effect("program", fmt.Sprintf("starts the program %q", c.Args))
	return &exec.Error{Name: c.Path, Err: exec.ErrNotFound}
}
func (c *ExecCmd) Run() error                      { return c.Start() }
func (c *ExecCmd) Output() ([]byte, error)         { return nil, c.Start() }
func (c *ExecCmd) CombinedOutput() ([]byte, error) { return nil, c.Start() }
func (c *ExecCmd) Wait() error                     { return c.Start() }
func (c *ExecCmd) String() string                  { return strings.Join(c.Args, " ") }
func (c *ExecCmd) Environ() []string               { return c.Env }

func SysKill(pid int, sig syscall.Signal) error {
	effect("signals", fmt.Sprintf("sends the signal %v to process %d", sig, pid))
	return syscall.EPERM
}
func SysExec(name string, _, _ []string) error {
	effect("program", "becomes the program "+name)
	return syscall.ENOENT
}
func SysUmask(int) int {
	effect("runtime", "syscall.Umask")
	return 0o22
}
func SysSetpriority(int, int, int) error {
	effect("scheduler", "syscall.Setpriority")
	return syscall.EPERM
}
func SysWrite(fd int, p []byte) (int, error) {
	switch fd {
	case 1:
		return Stdout.Write(p)
	case 2:
		return Stderr.Write(p)
	}
	return 0, syscall.EBADF
}
