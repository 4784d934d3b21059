package simrt

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"io/fs"
	"log"
	"math/rand"
	"os"
	"path"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"text/template"
	"time"
	"unsafe"
)

// Env describes the simulated process: its clock, randomness, file system and
// surroundings.
type Env struct {
	Files   map[string][]byte // absolute path -> content before the run
	Dirs    []string
	Vars    map[string]string
	Any     []string // values of variables not in Vars; empty: unset
	AnyFile []string // contents of files that are read but not there; empty: they are not there
	Args    []string
	Exe     string
	Cwd     string
	Host    string
	PID     int
	CPUs    int
	Rand    int64 // seed of the process-wide random source
	Clock   int64 // start, nanoseconds since 1970
	Faults  []Fault
	Short   bool // reads return fewer bytes than asked for
	Slow    bool // I/O takes simulated time
	FS      *FS  // what an earlier process left; Files and Dirs only add to it
}

// FS is a file system that outlives a process.
type FS struct {
	files map[string]*inode
	undo  []func() // undoes the changes of names since the last sync, in order
}

// Fault makes I/O operation number Nth (from 1) of the given kind fail. For
// kind "write", Bytes >= 0 instead places the failure at that byte offset of
// everything written to files so far.
type Fault struct {
	Op      string `json:"op"` // open read create write close sync rename remove stat truncate chmod
	Nth     int    `json:"nth,omitempty"`
	Bytes   int64  `json:"bytes,omitempty"`
	AtBytes bool   `json:"at_bytes,omitempty"`
	Err     string `json:"err"` // EIO ENOSPC EACCES ENOENT EMFILE EDQUOT EROFS
	Sticky  bool   `json:"sticky,omitempty"`
	Fired   int    `json:"fired,omitempty"`
}

// Exit is what the simulated process left behind.
type Exit struct {
	Code    int
	Exited  bool
	Panic   string
	Stdout  []byte
	Stderr  []byte
	Files   map[string][]byte
	Ops     map[string]int // I/O operations by kind
	Written int64          // bytes written to files
	Fired   map[string]int // faults that happened, by kind and error
	Turns   []int          // operations of another kind than the one before
	last    string
}

type inode struct {
	data  []byte
	mod   int64
	dir   bool
	ro    bool        // its owner may not write
	perm  os.FileMode // 0: 0644
	dirty bool        // written since the last sync
	from  int64       // lowest offset written since
}

// touch notes a change of the content from offset off on.
func (n *inode) touch(off int64) {
	if !n.dirty || off < n.from {
		n.from = off
	}
	n.dirty = true
	n.mod = now + setBy
}

func (n *inode) chmod(m os.FileMode) {
	n.perm = m.Perm()
	n.ro = m&0200 == 0
}

var (
	env       *Env
	fsFiles   map[string]*inode
	fsUndo    []func()
	frozen    bool
	exit      *Exit
	prng      *rand.Rand
	tmpNo     int
	killing   bool
	flagSet   *flag.FlagSet
	Stdout    = &File{name: "/dev/stdout", std: 1}
	Stderr    = &File{name: "/dev/stderr", std: 2}
	Stdin     = &File{name: "/dev/stdin", std: 3}
	Args      []string
	FlagUsage = func() {}
)

// zone is the local time zone of the simulated process.
func zone() *time.Location {
	switch tz := env.Vars["TZ"]; tz {
	case "":
		if env.Host == "build-7" || env.Host == "z" {
			return time.FixedZone("PST", -8*3600)
		}
	case "Asia/Tokyo":
		return time.FixedZone("JST", 9*3600)
	case "America/Lima":
		return time.FixedZone("-05", -5*3600)
	case "Pacific/Kiritimati":
		return time.FixedZone("+14", 14*3600)
	}
	return time.UTC
}

type exitSignal struct{ code int }

func envReset() {
	env = cfg.Env
	if env == nil {
		env = &Env{Cwd: "/sim", CPUs: cfg.NumCPU, Rand: int64(cfg.Seed >> 1), PID: 100, Host: "sim"}
	}
	if env.Clock != 0 {
		now = env.Clock
	}
	if env.CPUs <= 0 {
		env.CPUs = 4
	}
	fsFiles = map[string]*inode{"/": {dir: true}, "/tmp": {dir: true}}
	fsUndo = nil
	if env.FS != nil {
		fsFiles, fsUndo = env.FS.files, env.FS.undo
	}
	for p, d := range env.Files {
		if fsFiles[path.Clean(p)] != nil {
			continue
		}
		fsFiles[path.Clean(p)] = &inode{data: append([]byte(nil), d...), mod: now + setBy}
		addDirs(path.Dir(path.Clean(p)))
	}
	for _, d := range env.Dirs {
		addDirs(path.Clean(d))
	}
	for i := range env.Faults {
		env.Faults[i].Fired = 0
	}
	frozen, killing = false, false
	ioOps = 0
	anyFiles = 0
	tmpNo = 0
	exit = &Exit{Ops: map[string]int{}, Fired: map[string]int{}}
	prng = rand.New(rand.NewSource(env.Rand))
	time.Local = zone()
	exe := env.Exe
	if exe == "" {
		exe = "/tmp/go-build/exe/gen"
	}
	Args = append([]string{exe}, env.Args...)
	flagSet = flag.NewFlagSet("gen", flag.ContinueOnError)
	flagSet.SetOutput(Stderr)
	FlagUsage = func() {}
	effectsReset()
}

func addDirs(d string) {
	for ; d != "/"; d = path.Dir(d) {
		if fsFiles[d] == nil {
			fsFiles[d] = &inode{dir: true}
		}
	}
}

// LastFS is the file system as the last process left it.
func LastFS() *FS { return &FS{fsFiles, fsUndo} }

// PowerLoss is a loss of power after the last process ended: some of the
// latest changes of names never reached the disk, and what was written since
// the last sync is lost or torn.
func (f *FS) PowerLoss(seed uint64) {
	var r Rand
	r.Seed(seed)
	var names []string
	for p := range f.files {
		names = append(names, p)
	}
	sort.Strings(names)
	torn := map[*inode]bool{}
	for _, p := range names {
		n := f.files[p]
		if !n.dirty || torn[n] {
			continue
		}
		torn[n] = true
		size := int64(len(n.data))
		if n.from > size {
			n.from = size
		}
		at := n.from + int64(r.Uint64()%uint64(size-n.from+1))
		if r.Intn(2) == 0 {
			at -= at % 4096
		}
		if at < n.from {
			at = n.from
		}
		d := append([]byte(nil), n.data...)
		switch r.Intn(5) {
		case 0: // everything was written after all
		case 1, 2:
			d = d[:at]
		case 3: // the length was, the content was not
			for i := at; i < size; i++ {
				d[i] = 0
			}
		case 4: // a block in the middle was not
			for i := at; i < size && i < at+4096; i++ {
				d[i] = 0
			}
		}
		n.data = d
		n.dirty = false
	}
	k := 0
	switch r.Intn(3) {
	case 0:
		k = r.Intn(len(f.undo) + 1)
	case 1:
		k = len(f.undo)
	}
	for ; k > 0; k-- {
		f.undo[len(f.undo)-1]()
		f.undo = f.undo[:len(f.undo)-1]
	}
	f.undo = nil
}

// setName lets the name p mean n, or nothing.
func setName(p string, n *inode) {
	old := fsFiles[p]
	m := fsFiles
	fsUndo = append(fsUndo, func() {
		if old == nil {
			delete(m, p)
		} else {
			m[p] = old
		}
	})
	if n == nil {
		delete(m, p)
	} else {
		m[p] = n
	}
}

// Freeze ends the simulated process: nothing it does later has any effect.
func Freeze(code int) {
	if frozen {
		return
	}
	frozen = true
	exit.Exited = true
	exit.Code = code
	exit.Files = map[string][]byte{}
	for p, n := range fsFiles {
		if !n.dir {
			exit.Files[p] = n.data
		}
	}
}

// LastExit is the outcome of the simulated process of the last run.
func LastExit() *Exit { return exit }

// RunProcess runs main as the simulated process's main function.
func RunProcess(main func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(exitSignal); ok {
				return
			}
			if !frozen {
				exit.Panic = fmt.Sprint(e)
				fmt.Fprintf(Stderr, "panic: %v\n", e)
				Freeze(2)
			}
			return
		}
		Freeze(0)
	}()
	main()
}

// OsExit is os.Exit.
func OsExit(code int) {
	if run == nil {
		os.Exit(code)
	}
	effect("exit", fmt.Sprintf("ends the process with status %d", code))
	Freeze(code)
	panic(exitSignal{code})
}

// ---- clock and scheduler --------------------------------------------------

//go:norace
func TimeNow() time.Time {
	if run == nil {
		return time.Unix(1_600_000_000, 0).UTC()
	}
	run.ClockUsed++
	if cfg.ClockJumps {
		switch Choose(8) {
		case 1:
			// A long time passes.
			d := int64(time.Hour) * int64(1+Choose(1000))
			if jumped < 40*year {
				now, jumped = now+d, jumped+d
				run.Jumps++
			}
		case 2:
			// The clock is set: timers and durations go on as if nothing
			// had happened.
			d := int64(time.Second) * int64(1+Choose(1000))
			if Choose(2) == 1 {
				d = -d
			}
			if d += setBy; d > -10*year && d < 10*year {
				setBy = d
				run.Jumps++
			}
		case 3:
			now += int64(1 + Choose(1000))
		}
	}
	return clockTime(now+setBy, now)
}

const (
	year = 366 * 24 * int64(time.Hour)
)

// clockTime is a time.Time with a reading of the monotonic clock, as time.Now
// makes them.
//
//go:norace
func clockTime(wall, mono int64) time.Time {
	t := time.Unix(0, wall)
	sec := t.Unix() + (1969*365+1969/4-1969/100+1969/400)*86400 - (1884*365+1884/4-1884/100+1884/400)*86400
	if !monoOK || uint64(sec)>>33 != 0 {
		return t
	}
	p := (*timeParts)(unsafe.Pointer(&t))
	p.wall = 1<<63 | uint64(sec)<<30 | uint64(t.Nanosecond())
	p.ext = mono
	return t
}

type timeParts struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// monoOK: time.Time is what clockTime takes it for.
var monoOK = true

func init() { monoOK = monoCheck() }

func monoCheck() bool {
	if unsafe.Sizeof(time.Time{}) != unsafe.Sizeof(timeParts{}) {
		return false
	}
	a, b := clockTime(1_700_000_000_123_456_789, 5_000), clockTime(1_600_000_000_123_456_789, 7_000)
	return a.UnixNano() == 1_700_000_000_123_456_789 && b.UnixNano() == 1_600_000_000_123_456_789 && b.Sub(a) == 2_000 && b.Round(0).Sub(a) == -100_000_000*time.Second &&
		a.Location() == time.Local && strings.Contains(a.String(), "m=+")
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

//go:norace
func TimeSleep(d time.Duration) {
	if cur == nil {
		return
	}
	if d <= 0 {
		Y(SiteBlock)
		return
	}
	sleepUntil(now + int64(d))
}

func TimeAfter(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	Go(func() {
		TimeSleep(d)
		Send(ch, TimeNow())
	})
	return ch
}

// Gosched hands over to another caller.
//
//go:norace
func Gosched() {
	if cur != nil {
		park(SiteBlock, stReady)
	}
}

//go:norace
func NumCPU() int {
	if env != nil {
		return env.CPUs
	}
	return 4
}

//go:norace
func NumGoroutine() int {
	n := 0
	for _, t := range live {
		if t.state != stDone {
			n++
		}
	}
	return n
}
func RunGC() { runtime.GC() }

// ---- randomness -----------------------------------------------------------

// The process-wide source is locked, as the real one is.
var prMu sync.Mutex

func pr() *rand.Rand {
	if prng == nil {
		prng = rand.New(rand.NewSource(1))
	}
	return prng
}

// RandSeed is rand.Seed, which GODEBUG=randseednop=1 in the environment turns
// off.
func RandSeed(s int64) {
	effect("random", fmt.Sprintf("seeds the process-wide random source with %d", s))
	if env != nil && strings.Contains(env.Vars["GODEBUG"], "randseednop=1") {
		return
	}
	prMu.Lock()
	prng = rand.New(rand.NewSource(s))
	prMu.Unlock()
}
func RandInt() int                { prMu.Lock(); defer prMu.Unlock(); return pr().Int() }
func RandIntn(n int) int          { prMu.Lock(); defer prMu.Unlock(); return pr().Intn(n) }
func RandInt31() int32            { prMu.Lock(); defer prMu.Unlock(); return pr().Int31() }
func RandInt31n(n int32) int32    { prMu.Lock(); defer prMu.Unlock(); return pr().Int31n(n) }
func RandInt63() int64            { prMu.Lock(); defer prMu.Unlock(); return pr().Int63() }
func RandInt63n(n int64) int64    { prMu.Lock(); defer prMu.Unlock(); return pr().Int63n(n) }
func RandUint32() uint32          { prMu.Lock(); defer prMu.Unlock(); return pr().Uint32() }
func RandUint64() uint64          { prMu.Lock(); defer prMu.Unlock(); return pr().Uint64() }
func RandFloat32() float32        { prMu.Lock(); defer prMu.Unlock(); return pr().Float32() }
func RandFloat64() float64        { prMu.Lock(); defer prMu.Unlock(); return pr().Float64() }
func RandNormFloat64() float64    { prMu.Lock(); defer prMu.Unlock(); return pr().NormFloat64() }
func RandExpFloat64() float64     { prMu.Lock(); defer prMu.Unlock(); return pr().ExpFloat64() }
func RandPerm(n int) []int        { prMu.Lock(); defer prMu.Unlock(); return pr().Perm(n) }
func RandUint64N(n uint64) uint64 { return RandUint64() % n }
func RandUint32N(n uint32) uint32 { return RandUint32() % n }
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(RandInt63n(int64(i+1))))
	}
}
func RandRead(p []byte) (int, error) {
	prMu.Lock()
	defer prMu.Unlock()
	return pr().Read(p)
}

type randReader struct{}

func (randReader) Read(p []byte) (int, error) { return RandRead(p) }

// RandReader is crypto/rand.Reader.
var RandReader io.Reader = randReader{}

// MapKeys returns the keys of m in an order chosen by the simulator.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	type kt struct {
		k K
		t string
	}
	l := make([]kt, 0, len(m))
	for k := range m {
		l = append(l, kt{k, keyText(k)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].t < l[j].t })
	ks := make([]K, len(l))
	for i := range l {
		ks[i] = l[i].k
	}
	if run != nil && len(ks) > 1 {
		var r Rand
		r.Seed(uint64(Choose(1 << 30)))
		for i := len(ks) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

func keyText(k any) string {
	switch k := k.(type) {
	case string:
		return k
	case int:
		return fmt.Sprintf("%020d", k)
	case uint64:
		return fmt.Sprintf("%020d", k)
	}
	v := reflect.ValueOf(k)
	if v.Kind() == reflect.Pointer {
		return "" // pointers have no stable order
	}
	return fmt.Sprintf("%#v", k)
}

// ---- file system ----------------------------------------------------------

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "ENOENT": syscall.ENOENT,
	"EMFILE": syscall.EMFILE, "EDQUOT": syscall.EDQUOT, "EROFS": syscall.EROFS, "EINTR": syscall.EINTR,
	"EPERM": syscall.EPERM, "EISDIR": syscall.EISDIR, "ENOTDIR": syscall.ENOTDIR, "ETXTBSY": syscall.ETXTBSY, "EEXIST": syscall.EEXIST,
	"ENFILE": syscall.ENFILE, "ELOOP": syscall.ELOOP, "EFBIG": syscall.EFBIG, "EPIPE": syscall.EPIPE,
}

// SiteIO is the yield point of every I/O operation.
const SiteIO int32 = -5

func ioStep() {
	for i := range env.Faults {
		if f := &env.Faults[i]; f.Err == "PAUSE" && f.Fired == 0 && ioOps+1 >= f.Nth {
			f.Fired++
			exit.Fired["pause"]++
			TimeSleep(time.Duration(f.Bytes))
		}
	}
	if env.Slow {
		now += int64(1+Choose(1000)) * 1_000_000
	} else {
		now += 10_000
	}
	Y(SiteIO)
}

// fault decides whether this I/O operation fails.
func fault(op string) error {
	exit.Ops[op]++
	if frozen {
		return syscall.EIO
	}
	switch op {
	case "create", "write", "rename", "remove", "truncate", "chmod":
		effect("files", "changes the file system: "+op)
	}
	n := exit.Ops[op]
	ioOps++
	if op != exit.last && len(exit.Turns) < 400 {
		exit.Turns = append(exit.Turns, ioOps)
	}
	exit.last = op
	for i := range env.Faults {
		f := &env.Faults[i]
		if f.Err == "KILL" && !f.AtBytes && (f.Op == "any" && ioOps == f.Nth || f.Op == op && n == f.Nth) {
			f.Fired++
			exit.Fired[op+":KILL"]++
			if op == "write" {
				return errKill // after a part of it
			}
			OsExit(137)
		}
		if f.Op != op || f.AtBytes || f.Err == "KILL" || f.Err == "PAUSE" {
			continue
		}
		if n == f.Nth || f.Sticky && n > f.Nth {
			if f.Err == "EEXIST" {
				// Only an exclusive creation fails like that, when another
				// process was faster. Its caller may try again.
				if op != "create" || !exclusive || f.Fired >= 3 {
					continue
				}
			}
			f.Fired++
			exit.Fired[op+":"+f.Err]++
			return errnos[f.Err]
		}
	}
	return nil
}

var errKill = fmt.Errorf("killed")

// ioOps counts the I/O operations of the process.
var ioOps int

// exclusive: the creation in progress is exclusive.
var exclusive bool

func abs(p string) string {
	if !path.IsAbs(p) {
		p = path.Join(env.Cwd, p)
	}
	return path.Clean(p)
}

// File stands in for os.File.
type File struct {
	name   string
	std    int
	node   *inode
	off    int64
	flag   int
	closed bool
	dirty  int // bytes written since the last sync
}

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func OsOpenFile(name string, flags int, perm os.FileMode) (*File, error) {
	ioStep()
	kind := "open"
	if flags&(os.O_CREATE|os.O_TRUNC|os.O_WRONLY|os.O_RDWR) != 0 {
		kind = "create"
	}
	exclusive = flags&os.O_EXCL != 0 && flags&os.O_CREATE != 0
	err := fault(kind)
	exclusive = false
	p := abs(name)
	if flags&os.O_CREATE == 0 {
		anyFile(p)
	}
	if err == syscall.EEXIST && fsFiles[p] == nil && !frozen {
		setName(p, &inode{mod: now + setBy})
	}
	if err != nil {
		return nil, perr("open", name, err)
	}
	n := fsFiles[p]
	if n == nil {
		if flags&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if d := fsFiles[path.Dir(p)]; d == nil || !d.dir {
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = &inode{mod: now + setBy}
		n.chmod(perm &^ 022)
		setName(p, n)
	} else if n.dir {
		if kind == "create" {
			return nil, perr("open", name, syscall.EISDIR)
		}
	} else if flags&os.O_EXCL != 0 && flags&os.O_CREATE != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	} else if n.ro && flags&(os.O_WRONLY|os.O_RDWR|os.O_TRUNC) != 0 {
		return nil, perr("open", name, syscall.EACCES)
	}
	if flags&os.O_TRUNC != 0 {
		if old := n.data; len(old) > 0 {
			fsUndo = append(fsUndo, func() { n.data = old })
			n.data = nil
			n.touch(0)
		}
		n.mod = now + setBy
	}
	return &File{name: name, node: n, flag: flags}, nil
}

var anyFiles int

// anyFile makes a file that the code asks for.
func anyFile(p string) {
	if len(env.AnyFile) == 0 || fsFiles[p] != nil || anyFiles >= 8 {
		return
	}
	h := 0
	for _, c := range p {
		h = h*31 + int(c)
	}
	if s := env.AnyFile[(h&0xFFFFFF)%len(env.AnyFile)]; s != "" {
		anyFiles++
		addDirs(path.Dir(p))
		fsFiles[p] = &inode{data: []byte(s), mod: now + setBy}
	}
}

func OsCreate(name string) (*File, error) {
	return OsOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func OsOpen(name string) (*File, error) { return OsOpenFile(name, os.O_RDONLY, 0) }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(3) }

func (f *File) Write(p []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std != 0 {
		if exit != nil && !frozen && run != nil {
			effect("output", "writes "+cut(p)+" to "+f.name)
			if f.std == 1 {
				exit.Stdout = append(exit.Stdout, p...)
			} else {
				exit.Stderr = append(exit.Stderr, p...)
			}
		}
		return len(p), nil
	}
	if f.closed {
		return 0, perr("write", f.name, os.ErrClosed)
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.flag&os.O_APPEND != 0 {
		f.off = int64(len(f.node.data))
	}
	n, err := f.writeAt(p, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) writeAt(p []byte, off int64) (int, error) {
	ioStep()
	n := len(p)
	err := fault("write")
	if err != nil {
		n = n / 2 // a failing write may still have stored a part
		if n > 0 {
			n = Choose(n + 1)
		}
	}
	if err == nil {
		for i := range env.Faults {
			f := &env.Faults[i]
			if f.Op != "write" || !f.AtBytes || !f.Sticky && f.Fired > 0 {
				continue
			}
			if exit.Written+int64(n) > f.Bytes {
				if room := f.Bytes - exit.Written; room > 0 {
					n = int(room)
				} else {
					n = 0
				}
				f.Fired++
				exit.Fired["write:"+f.Err]++
				err = errnos[f.Err]
				if f.Err == "KILL" {
					err = errKill
				}
			}
		}
	}
	if frozen {
		return 0, perr("write", f.name, syscall.EIO)
	}
	if end := off + int64(n); end > int64(len(f.node.data)) {
		if int64(len(f.node.data)) < off {
			f.node.data = append(f.node.data, make([]byte, off-int64(len(f.node.data)))...)
		}
		if c := cap(f.node.data); int(end) > c && c > 1<<16 {
			d := make([]byte, len(f.node.data), 2*c+len(p))
			copy(d, f.node.data)
			f.node.data = d
		}
		k := copy(f.node.data[off:], p[:n])
		f.node.data = append(f.node.data, p[k:n]...)
	} else {
		copy(f.node.data[off:], p[:n])
	}
	f.node.touch(off)
	f.dirty += n
	exit.Written += int64(n)
	if err == errKill {
		OsExit(137)
	}
	if err != nil {
		return n, perr("write", f.name, err)
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if f.closed {
		return 0, perr("write", f.name, os.ErrClosed)
	}
	return f.writeAt(p, off)
}

// ReadFrom makes io.Copy behave as with os.File.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) Read(p []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std != 0 {
		effect("input", "reads from "+f.name)
		return 0, io.EOF
	}
	if f.closed {
		return 0, perr("read", f.name, os.ErrClosed)
	}
	ioStep()
	if err := fault("read"); err != nil {
		return 0, perr("read", f.name, err)
	}
	if f.node.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(f.node.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.node.data[f.off:])
	if env.Short && n > 1 {
		n = 1 + Choose(n)
	}
	f.off += int64(n)
	return n, nil
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	ioStep()
	if err := fault("read"); err != nil {
		return 0, perr("read", f.name, err)
	}
	if off >= int64(len(f.node.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.node.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		f.off = off
	case io.SeekCurrent:
		f.off += off
	case io.SeekEnd:
		f.off = int64(len(f.node.data)) + off
	}
	return f.off, nil
}

// lose models a write-back failure that the kernel reports late: data written
// since the last sync is gone.
func (f *File) lose() {
	if f.node == nil || f.dirty == 0 {
		return
	}
	k := 1 + Choose(f.dirty)
	if k > len(f.node.data) {
		k = len(f.node.data)
	}
	f.node.data = f.node.data[:len(f.node.data)-k]
}

func (f *File) Sync() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.std != 0 {
		return nil
	}
	if f.closed {
		return perr("sync", f.name, os.ErrClosed)
	}
	ioStep()
	if err := fault("sync"); err != nil {
		if !frozen {
			f.lose()
		}
		f.dirty = 0
		return perr("sync", f.name, err)
	}
	f.dirty = 0
	if !frozen {
		f.node.dirty = false
		fsUndo = nil
	}
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.std != 0 {
		return nil
	}
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	ioStep()
	f.closed = true
	if f.flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		if err := fault("close"); err != nil {
			if !frozen {
				f.lose()
			}
			return perr("close", f.name, err)
		}
	}
	return nil
}

func (f *File) Truncate(n int64) error {
	ioStep()
	if err := fault("truncate"); err != nil {
		return perr("truncate", f.name, err)
	}
	for int64(len(f.node.data)) < n {
		f.node.data = append(f.node.data, 0)
	}
	f.node.data = f.node.data[:n]
	f.node.touch(n)
	return nil
}

func (f *File) Chmod(m os.FileMode) error {
	if err := fault("chmod"); err != nil {
		return perr("chmod", f.name, err)
	}
	if f.node != nil {
		f.node.chmod(m)
	}
	return nil
}

type fileInfo struct {
	name string
	n    *inode
	size int64
	mod  int64
}

func (i fileInfo) Name() string { return path.Base(i.name) }
func (i fileInfo) Size() int64  { return i.size }
func (i fileInfo) Mode() os.FileMode {
	if i.n.dir {
		return os.ModeDir | 0755
	}
	if i.n.perm == 0 {
		return 0644
	}
	return i.n.perm
}
func (i fileInfo) ModTime() time.Time { return time.Unix(0, i.mod) }
func (i fileInfo) IsDir() bool        { return i.n.dir }
func (i fileInfo) Sys() any           { return nil }

func (f *File) Stat() (os.FileInfo, error) {
	if err := fault("stat"); err != nil {
		return nil, perr("stat", f.name, err)
	}
	return fileInfo{f.name, f.node, int64(len(f.node.data)), f.node.mod}, nil
}

func OsStat(name string) (os.FileInfo, error) {
	ioStep()
	if err := fault("stat"); err != nil {
		return nil, perr("stat", name, err)
	}
	anyFile(abs(name))
	n := fsFiles[abs(name)]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return fileInfo{name, n, int64(len(n.data)), n.mod}, nil
}

func OsReadFile(name string) ([]byte, error) {
	f, err := OsOpen(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return IoReadAll(f)
}

// IoReadAll is io.ReadAll.
func IoReadAll(r io.Reader) ([]byte, error) { return io.ReadAll(r) }

func OsWriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OsOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func OsRename(from, to string) error {
	ioStep()
	if err := fault("rename"); err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	n, d, p := fsFiles[abs(from)], fsFiles[path.Dir(abs(to))], fsFiles[abs(to)]
	bad := func(e syscall.Errno) error { return &os.LinkError{Op: "rename", Old: from, New: to, Err: e} }
	switch {
	case n == nil || d == nil:
		return bad(syscall.ENOENT)
	case !d.dir:
		return bad(syscall.ENOTDIR)
	case p != nil && p.dir && !n.dir:
		return bad(syscall.EISDIR)
	case p != nil && p.dir && len(dirNames(to)) > 0:
		return bad(syscall.ENOTEMPTY)
	case p != nil && !p.dir && n.dir:
		return bad(syscall.ENOTDIR)
	case n == p:
		return nil
	}
	at := len(fsUndo)
	setName(abs(from), nil)
	setName(abs(to), n)
	for _, k := range below(abs(from)) {
		m := fsFiles[k]
		setName(k, nil)
		setName(abs(to)+strings.TrimPrefix(k, abs(from)), m)
	}
	oneUndo(at)
	return nil
}

func OsRemove(name string) error {
	ioStep()
	if err := fault("remove"); err != nil {
		return perr("remove", name, err)
	}
	n := fsFiles[abs(name)]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir && len(dirNames(name)) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	setName(abs(name), nil)
	return nil
}

// below lists what lies in a directory and in the directories in it.
func below(d string) (l []string) {
	for p := range fsFiles {
		if strings.HasPrefix(p, d+"/") {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return l
}

// oneUndo makes one change of the changes from number at on.
func oneUndo(at int) {
	us := append([]func(){}, fsUndo[at:]...)
	fsUndo = append(fsUndo[:at], func() {
		for i := len(us) - 1; i >= 0; i-- {
			us[i]()
		}
	})
}

func OsRemoveAll(name string) error {
	l := below(abs(name))
	for i := len(l) - 1; i >= 0; i-- {
		if err := OsRemove(l[i]); err != nil {
			return err
		}
	}
	err := OsRemove(name)
	if os.IsNotExist(err) {
		err = nil
	}
	return err
}

func OsTruncate(name string, n int64) error {
	f := fsFiles[abs(name)]
	if f == nil {
		return perr("truncate", name, syscall.ENOENT)
	}
	return (&File{name: name, node: f}).Truncate(n)
}

func OsChmod(name string, m os.FileMode) error {
	ioStep()
	if err := fault("chmod"); err != nil {
		return perr("chmod", name, err)
	}
	n := fsFiles[abs(name)]
	if n == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	n.chmod(m)
	return nil
}

func OsMkdir(name string, _ os.FileMode) error {
	ioStep()
	if err := fault("create"); err != nil {
		return perr("mkdir", name, err)
	}
	if d := fsFiles[path.Dir(abs(name))]; d == nil || !d.dir {
		return perr("mkdir", name, syscall.ENOENT)
	}
	if fsFiles[abs(name)] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	setName(abs(name), &inode{dir: true, mod: now + setBy})
	return nil
}

func OsMkdirAll(name string, _ os.FileMode) error {
	if err := fault("create"); err != nil {
		return perr("mkdir", name, err)
	}
	var l []string
	for p := abs(name); p != "/"; p = path.Dir(p) {
		if n := fsFiles[p]; n == nil {
			l = append(l, p)
		} else if !n.dir {
			return perr("mkdir", p, syscall.ENOTDIR)
		}
	}
	for i := len(l) - 1; i >= 0; i-- {
		setName(l[i], &inode{dir: true, mod: now + setBy})
	}
	return nil
}

func OsCreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = OsTempDir()
	}
	if dir == "." {
		dir = env.Cwd
	}
	for {
		tmpNo++
		mid := fmt.Sprint(1000 + Choose(1<<20) + tmpNo)
		base := pattern + mid
		if i := strings.LastIndex(pattern, "*"); i >= 0 {
			base = pattern[:i] + mid + pattern[i+1:]
		}
		f, err := OsOpenFile(path.Join(dir, base), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if os.IsExist(err) {
			continue
		}
		return f, err
	}
}

func OsTempDir() string {
	if d := env.Vars["TMPDIR"]; d != "" {
		return d
	}
	return "/tmp"
}

func OsLookupEnv(k string) (string, bool) {
	v, ok := env.Vars[k]
	if !ok && len(env.Any) > 0 {
		h := 0
		for _, c := range k {
			h = h*31 + int(c)
		}
		v = env.Any[(h&0xFFFFFF)%len(env.Any)]
		ok = v != ""
	}
	return v, ok
}
func OsGetenv(k string) string { v, _ := OsLookupEnv(k); return v }
func OsEnviron() []string {
	var l []string
	for k, v := range env.Vars {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return l
}
func OsSetenv(k, v string) error {
	if env.Vars == nil {
		env.Vars = map[string]string{}
	}
	if old, ok := env.Vars[k]; !ok || old != v {
		effect("environment", fmt.Sprintf("sets the environment variable %s to %q", k, v))
	}
	env.Vars[k] = v
	return nil
}
func OsExpandEnv(s string) string   { return os.Expand(s, OsGetenv) }
func OsHostname() (string, error)   { return env.Host, nil }
func OsGetwd() (string, error)      { return env.Cwd, nil }
func OsGetpid() int                 { return env.PID }
func OsExecutable() (string, error) { return Args[0], nil }
func PathAbs(p string) (string, error) {
	return abs(p), nil
}

// ---- log, fmt, flag -------------------------------------------------------

func LogPrint(a ...any)            { fmt.Fprintln(Stderr, fmt.Sprint(a...)) }
func LogPrintf(f string, a ...any) { fmt.Fprintf(Stderr, f+"\n", a...) }
func LogPrintln(a ...any)          { fmt.Fprintln(Stderr, a...) }
func LogFatal(a ...any)            { LogPrint(a...); OsExit(1) }
func LogFatalf(f string, a ...any) { LogPrintf(f, a...); OsExit(1) }
func LogFatalln(a ...any)          { LogPrintln(a...); OsExit(1) }
func LogPanic(a ...any)            { s := fmt.Sprint(a...); LogPrint(s); panic(s) }
func LogPanicf(f string, a ...any) { s := fmt.Sprintf(f, a...); LogPrint(s); panic(s) }

func LogLoggerFatal(l *log.Logger, a ...any)            { l.Print(a...); OsExit(1) }
func LogLoggerFatalf(l *log.Logger, f string, a ...any) { l.Printf(f, a...); OsExit(1) }
func LogLoggerFatalln(l *log.Logger, a ...any)          { l.Println(a...); OsExit(1) }

func FmtPrint(a ...any) (int, error)            { return fmt.Fprint(Stdout, a...) }
func FmtPrintf(f string, a ...any) (int, error) { return fmt.Fprintf(Stdout, f, a...) }
func FmtPrintln(a ...any) (int, error)          { return fmt.Fprintln(Stdout, a...) }

func FlagStringVar(p *string, n, v, u string) {
	effect("flags", "defines the flag -"+n)
	flagSet.StringVar(p, n, v, u)
}
func FlagString(n, v, u string) *string {
	effect("flags", "defines the flag -"+n)
	return flagSet.String(n, v, u)
}
func FlagBoolVar(p *bool, n string, v bool, u string) {
	effect("flags", "defines the flag -"+n)
	flagSet.BoolVar(p, n, v, u)
}
func FlagBool(n string, v bool, u string) *bool {
	effect("flags", "defines the flag -"+n)
	return flagSet.Bool(n, v, u)
}
func FlagIntVar(p *int, n string, v int, u string) {
	effect("flags", "defines the flag -"+n)
	flagSet.IntVar(p, n, v, u)
}
func FlagInt(n string, v int, u string) *int {
	effect("flags", "defines the flag -"+n)
	return flagSet.Int(n, v, u)
}
func FlagInt64Var(p *int64, n string, v int64, u string) {
	effect("flags", "defines the flag -"+n)
	flagSet.Int64Var(p, n, v, u)
}
func FlagInt64(n string, v int64, u string) *int64 {
	effect("flags", "defines the flag -"+n)
	return flagSet.Int64(n, v, u)
}
func FlagUintVar(p *uint, n string, v uint, u string) {
	effect("flags", "defines the flag -"+n)
	flagSet.UintVar(p, n, v, u)
}
func FlagUint(n string, v uint, u string) *uint {
	effect("flags", "defines the flag -"+n)
	return flagSet.Uint(n, v, u)
}
func FlagDuration(n string, v time.Duration, u string) *time.Duration {
	effect("flags", "defines the flag -"+n)
	return flagSet.Duration(n, v, u)
}
func FlagArgs() []string   { return flagSet.Args() }
func FlagArg(i int) string { return flagSet.Arg(i) }
func FlagNArg() int        { return flagSet.NArg() }
func FlagParsed() bool     { return flagSet.Parsed() }
func FlagPrintDefaults()   { flagSet.PrintDefaults() }
func FlagParse() {
	effect("flags", "parses the command line")
	if err := flagSet.Parse(Args[1:]); err != nil {
		if err == flag.ErrHelp {
			OsExit(0)
		}
		OsExit(2)
	}
}

// ---- templates ------------------------------------------------------------

// TmplParseFiles is template.ParseFiles on the simulated file system.
func TmplParseFiles(names ...string) (*template.Template, error) {
	return TmplMethodParseFiles(nil, names...)
}

// TmplMethodParseFiles is (*template.Template).ParseFiles.
func TmplMethodParseFiles(t *template.Template, names ...string) (*template.Template, error) {
	if len(names) == 0 {
		return nil, fmt.Errorf("template: no files named in call to ParseFiles")
	}
	for _, n := range names {
		b, err := OsReadFile(n)
		if err != nil {
			return nil, err
		}
		base := path.Base(n)
		var x *template.Template
		if t == nil {
			t = template.New(base)
		}
		if base == t.Name() {
			x = t
		} else {
			x = t.New(base)
		}
		if _, err := x.Parse(string(b)); err != nil {
			return nil, err
		}
	}
	return t, nil
}

// TmplParseGlob is template.ParseGlob.
func TmplParseGlob(pat string) (*template.Template, error) {
	return TmplMethodParseGlob(nil, pat)
}

// TmplMethodParseGlob is (*template.Template).ParseGlob.
func TmplMethodParseGlob(t *template.Template, pat string) (*template.Template, error) {
	var l []string
	for p, n := range fsFiles {
		if ok, _ := path.Match(abs(pat), p); ok && !n.dir {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	if len(l) == 0 {
		return nil, fmt.Errorf("template: pattern matches no files: %#q", pat)
	}
	return TmplMethodParseFiles(t, l...)
}

var _ = bytes.NewReader
