package simrt

import (
	"context"
	"hash/fnv"
	"io"
	"io/fs"
	"os"
	"path"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---- io.Pipe ----------------------------------------------------------------

// Pipe ends stand in for those of package io.
type pipe struct {
	mu     Mutex
	cond   *Cond
	wmu    Mutex
	data   []byte
	full   bool
	rerr   error // set by the reader's Close
	werr   error // set by the writer's Close
	closed bool
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func IoPipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		switch {
		case p.rerr != nil:
			return 0, io.ErrClosedPipe
		case p.full:
			n := copy(b, p.data)
			p.data = p.data[n:]
			if len(p.data) == 0 {
				p.full = false
				p.cond.Broadcast()
			}
			return n, nil
		case p.werr != nil:
			return 0, p.werr
		}
		p.cond.Wait()
	}
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.mu.Lock()
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.mu.Unlock()
	r.p.cond.Broadcast()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.wmu.Lock()
	defer p.wmu.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	p.data, p.full = b, true
	p.cond.Broadcast()
	for p.full {
		if p.rerr != nil || p.werr != nil {
			n := len(b) - len(p.data)
			p.full = false
			if p.rerr != nil {
				return n, p.rerr
			}
			return n, io.ErrClosedPipe
		}
		p.cond.Wait()
	}
	return len(b), nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.p.mu.Lock()
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.mu.Unlock()
	w.p.cond.Broadcast()
	return nil
}

// ---- context ----------------------------------------------------------------

type simCtx struct {
	parent   context.Context
	mu       sync.Mutex
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	has      bool
	kids     []*simCtx
	key, val any
	timer    *Timer
}

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.has {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *simCtx) Done() <-chan struct{} {
	if c.done == nil {
		return c.parent.Done()
	}
	return c.done
}
func (c *simCtx) Err() error {
	if c.done == nil {
		return c.parent.Err()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *simCtx) Value(k any) any {
	if c.key != nil && c.key == k {
		return c.val
	}
	return c.parent.Value(k)
}

func (c *simCtx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err, c.cause = err, cause
	kids := c.kids
	c.kids = nil
	t := c.timer
	c.mu.Unlock()
	Close(c.done)
	if t != nil {
		t.Stop()
	}
	for p := c.parent; p != nil; {
		s, ok := p.(*simCtx)
		if !ok {
			break
		}
		if s.done == nil {
			p = s.parent
			continue
		}
		s.mu.Lock()
		for i := range s.kids {
			if s.kids[i] == c {
				s.kids = append(s.kids[:i:i], s.kids[i+1:]...)
				break
			}
		}
		s.mu.Unlock()
		break
	}
	for _, k := range kids {
		k.cancel(err, cause)
	}
}

func newCtx(parent context.Context) *simCtx {
	c := &simCtx{parent: parent, done: make(chan struct{})}
	p := parent
	for {
		s, ok := p.(*simCtx)
		if !ok {
			return c
		}
		if s.done == nil {
			p = s.parent
			continue
		}
		s.mu.Lock()
		err, cause := s.err, s.cause
		if err == nil {
			s.kids = append(s.kids, c)
		}
		s.mu.Unlock()
		if err != nil {
			c.cancel(err, cause)
		}
		return c
	}
}

func CtxWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(context.Canceled, context.Canceled) }
}

func CtxWithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(err error) {
		if err == nil {
			err = context.Canceled
		}
		c.cancel(context.Canceled, err)
	}
}

func CtxWithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return CtxWithTimeout(parent, d.Sub(TimeNow()))
}

func CtxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	at := TimeNow().Add(d)
	if p, ok := parent.Deadline(); !ok || at.Before(p) {
		c.deadline, c.has = at, true
		if d <= 0 {
			c.cancel(context.DeadlineExceeded, context.DeadlineExceeded)
		} else {
			t := AfterFunc(d, func() { c.cancel(context.DeadlineExceeded, context.DeadlineExceeded) })
			c.mu.Lock()
			c.timer = t
			over := c.err != nil
			c.mu.Unlock()
			if over {
				t.Stop()
			}
		}
	}
	return c, func() { c.cancel(context.Canceled, context.Canceled) }
}

func CtxWithValue(parent context.Context, k, v any) context.Context {
	return &simCtx{parent: parent, key: k, val: v}
}

func CtxCause(c context.Context) error {
	for {
		s, ok := c.(*simCtx)
		if !ok {
			return context.Cause(c)
		}
		if s.done != nil {
			s.mu.Lock()
			defer s.mu.Unlock()
			return s.cause
		}
		c = s.parent
	}
}

// ---- hash/maphash -------------------------------------------------------------

// MapSeed stands in for maphash.Seed; its seeds are the simulator's choice.
type MapSeed struct{ s uint64 }

func MapMakeSeed() MapSeed {
	if run == nil {
		return MapSeed{0x9E3779B97F4A7C15}
	}
	return MapSeed{uint64(Choose(1<<30))<<1 | 1}
}

// MapHash stands in for maphash.Hash.
type MapHash struct {
	seed MapSeed
	b    []byte
}

func (h *MapHash) init() {
	if h.seed.s == 0 {
		h.seed = MapMakeSeed()
	}
}
func (h *MapHash) Write(b []byte) (int, error) { h.init(); h.b = append(h.b, b...); return len(b), nil }
func (h *MapHash) WriteString(s string) (int, error) {
	h.init()
	h.b = append(h.b, s...)
	return len(s), nil
}
func (h *MapHash) WriteByte(b byte) error { h.init(); h.b = append(h.b, b); return nil }
func (h *MapHash) Reset()                 { h.init(); h.b = nil }
func (h *MapHash) Seed() MapSeed          { h.init(); return h.seed }
func (h *MapHash) SetSeed(s MapSeed)      { h.seed = s; h.b = nil }
func (h *MapHash) Size() int              { return 8 }
func (h *MapHash) BlockSize() int         { return 128 }
func (h *MapHash) Sum64() uint64          { h.init(); return MapBytes(h.seed, h.b) }
func (h *MapHash) Sum(b []byte) []byte {
	x := h.Sum64()
	return append(b, byte(x>>56), byte(x>>48), byte(x>>40), byte(x>>32), byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
}

func MapBytes(s MapSeed, b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	x := h.Sum64() ^ s.s*0x9E3779B97F4A7C15
	x = (x ^ x>>30) * 0xBF58476D1CE4E5B9
	x = (x ^ x>>27) * 0x94D049BB133111EB
	return x ^ x>>31
}
func MapString(s MapSeed, t string) uint64 { return MapBytes(s, []byte(t)) }
func MapComparable[T comparable](s MapSeed, v T) uint64 {
	return MapBytes(s, []byte(reflect.TypeOf(v).String()+keyText(v)))
}

// ---- more of os and path/filepath ------------------------------------------------

func OsMkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = OsTempDir()
	}
	tmpNo++
	name := path.Join(dir, strings.Replace(pattern, "*", "", 1)+itoa(1000+Choose(1<<20)+tmpNo))
	return name, OsMkdir(name, 0700)
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

func OsUserHomeDir() (string, error) {
	if h, ok := OsLookupEnv("HOME"); ok && h != "" {
		return h, nil
	}
	return "", os.ErrNotExist
}
func OsUserCacheDir() (string, error) {
	if h, ok := OsLookupEnv("XDG_CACHE_HOME"); ok && h != "" {
		return h, nil
	}
	h, err := OsUserHomeDir()
	return path.Join(h, ".cache"), err
}
func OsUserConfigDir() (string, error) {
	h, err := OsUserHomeDir()
	return path.Join(h, ".config"), err
}

func OsUnsetenv(k string) error {
	if _, ok := env.Vars[k]; ok || len(env.Any) > 0 {
		effect("environment", "removes the environment variable "+k)
	}
	delete(env.Vars, k)
	return nil
}

// OsClearenv is os.Clearenv.
func OsClearenv() {
	effect("environment", "removes all environment variables")
	env.Vars, env.Any = nil, nil
}

func OsChtimes(name string, _, mt time.Time) error {
	effect("files", "changes the times of "+name)
	n := fsFiles[abs(name)]
	if n == nil {
		return perr("chtimes", name, syscall.ENOENT)
	}
	n.mod = mt.UnixNano()
	return nil
}

func OsChdir(name string) error {
	effect("directory", "changes the working directory to "+name)
	n := fsFiles[abs(name)]
	if n == nil || !n.dir {
		return perr("chdir", name, syscall.ENOENT)
	}
	env.Cwd = abs(name)
	return nil
}

func OsLink(from, to string) error {
	ioStep()
	if err := fault("rename"); err != nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: err}
	}
	n := fsFiles[abs(from)]
	switch {
	case n == nil:
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.ENOENT}
	case fsFiles[abs(to)] != nil:
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.EEXIST}
	}
	setName(abs(to), n)
	return nil
}

func OsSymlink(from, to string) error {
	return &os.LinkError{Op: "symlink", Old: from, New: to, Err: syscall.EPERM}
}
func OsReadlink(name string) (string, error) { return "", perr("readlink", name, syscall.EINVAL) }
func OsSameFile(a, b os.FileInfo) bool {
	x, ok := a.(fileInfo)
	y, ok2 := b.(fileInfo)
	return ok && ok2 && x.n == y.n
}

func dirNames(dir string) (l []string) {
	d := abs(dir)
	for p := range fsFiles {
		if p != "/" && path.Dir(p) == d {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return l
}

func OsReadDir(name string) ([]os.DirEntry, error) {
	ioStep()
	if err := fault("open"); err != nil {
		return nil, perr("open", name, err)
	}
	n := fsFiles[abs(name)]
	if n == nil || !n.dir {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var l []os.DirEntry
	for _, p := range dirNames(name) {
		n := fsFiles[p]
		l = append(l, fs.FileInfoToDirEntry(fileInfo{p, n, int64(len(n.data)), n.mod}))
	}
	return l, nil
}

func IoutilReadDir(name string) ([]os.FileInfo, error) {
	es, err := OsReadDir(name)
	var l []os.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		l = append(l, i)
	}
	return l, err
}

func PathGlob(pat string) ([]string, error) {
	if _, err := path.Match(pat, ""); err != nil {
		return nil, err
	}
	var l []string
	for p := range fsFiles {
		if ok, _ := path.Match(abs(pat), p); ok {
			if !path.IsAbs(pat) {
				p = strings.TrimPrefix(strings.TrimPrefix(p, env.Cwd), "/")
			}
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return l, nil
}

func PathEvalSymlinks(p string) (string, error) {
	if fsFiles[abs(p)] == nil {
		return "", perr("lstat", p, syscall.ENOENT)
	}
	return path.Clean(p), nil
}

func PathWalk(root string, f func(string, os.FileInfo, error) error) error {
	n := fsFiles[abs(root)]
	if n == nil {
		return f(root, nil, perr("lstat", root, syscall.ENOENT))
	}
	err := f(root, fileInfo{root, n, int64(len(n.data)), n.mod}, nil)
	if err == fs.SkipDir {
		return nil
	}
	if err != nil || !n.dir {
		return err
	}
	for _, p := range dirNames(root) {
		if err := PathWalk(path.Join(root, path.Base(p)), f); err != nil {
			if err == fs.SkipDir {
				return nil
			}
			return err
		}
	}
	return nil
}

func PathWalkDir(root string, f fs.WalkDirFunc) error {
	return PathWalk(root, func(p string, i os.FileInfo, err error) error {
		if i == nil {
			return f(p, nil, err)
		}
		return f(p, fs.FileInfoToDirEntry(i), err)
	})
}

// User stands in for os/user.User.
type User struct{ Uid, Gid, Username, Name, HomeDir string }

func UserCurrent() (*User, error) {
	h, _ := OsUserHomeDir()
	return &User{Uid: itoa(env.PID % 2000), Gid: "100", Username: path.Base(h) + env.Host, Name: env.Host, HomeDir: h}, nil
}

// RtCaller is runtime.Caller; the sources lie in the directory the process was
// started in.
func RtCaller(skip int) (pc uintptr, file string, line int, ok bool) {
	pc, file, line, ok = runtime.Caller(skip + 1)
	if ok && env != nil {
		file = path.Join(env.Cwd, path.Base(file))
	}
	return pc, file, line, ok
}

// RtReadMemStats is runtime.ReadMemStats: numbers of the simulator's choice.
func RtReadMemStats(m *runtime.MemStats) {
	*m = runtime.MemStats{}
	v := uint64(1+Choose(1<<12)) << 16
	m.Alloc, m.TotalAlloc, m.Sys, m.Mallocs = v, 2*v, 3*v+1<<20, v/64
	m.HeapAlloc, m.HeapSys, m.HeapInuse, m.NextGC = v, 2*v, v, 2*v
	m.NumGC = uint32(Choose(100))
	m.LastGC = uint64(now + setBy)
}
