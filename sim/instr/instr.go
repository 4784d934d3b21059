// Package instr rewrites Go packages so that the simulator decides every
// source of nondeterminism in them: a yield point is put before every
// statement, after every shared load and call, and between the operands of
// && and ||; synchronisation, goroutine, channel, clock, randomness, map
// iteration and operating-system primitives are redirected to the simulation
// runtime. Package-level state gets a generated reset function, so that one
// process can simulate many process lifetimes.
package instr

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
)

// Site is one yield point.
type Site struct {
	Pos  string `json:"pos"`
	Kind string `json:"kind"`
	Func string `json:"func"`
}

// Result of instrumenting a set of packages.
type State struct {
	Sites    []Site
	Literals map[uint64]bool
	Words    map[string]bool
	RTPath   string // import path of the simulation runtime
	Level    int    // 0: everything; 1: statement yields and redirections only
	Features map[string]int
}

const rtName = "zzsimrt"

// File is one output file.
type File struct {
	Name string
	Src  []byte
}

// redirects maps import path -> name -> runtime name.
var redirects = map[string]map[string]string{
	"sync": {
		"Mutex": "Mutex", "RWMutex": "RWMutex", "Once": "Once", "WaitGroup": "WaitGroup",
		"Cond": "Cond", "NewCond": "NewCond", "Pool": "Pool", "Map": "Map",
		"OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues",
	},
	"time": {
		"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "TimeSleep",
		"After": "TimeAfter", "Tick": "TimeTick", "NewTimer": "NewTimer", "AfterFunc": "AfterFunc", "NewTicker": "NewTicker",
		"Timer": "Timer", "Ticker": "Ticker",
	},
	"runtime": {
		"Gosched": "Gosched", "NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "NumGoroutine": "NumGoroutine",
		"GC": "RunGC", "LockOSThread": "LockOSThread", "UnlockOSThread": "UnlockOSThread", "Caller": "RtCaller", "ReadMemStats": "RtReadMemStats",
	},
	"math/rand": {
		"Seed": "RandSeed", "Int": "Rand1Int", "Intn": "Rand1Intn", "Int31": "Rand1Int31", "Int31n": "Rand1Int31n",
		"Int63": "Rand1Int63", "Int63n": "Rand1Int63n", "Uint32": "Rand1Uint32", "Uint64": "Rand1Uint64",
		"Float32": "Rand1Float32", "Float64": "Rand1Float64", "Perm": "Rand1Perm", "Shuffle": "Rand1Shuffle",
		"NormFloat64": "Rand1NormFloat64", "ExpFloat64": "Rand1ExpFloat64", "Read": "Rand1Read",
	},
	"os": {
		"Create": "OsCreate", "Open": "OsOpen", "OpenFile": "OsOpenFile", "ReadFile": "OsReadFile",
		"WriteFile": "OsWriteFile", "Rename": "OsRename", "Remove": "OsRemove", "RemoveAll": "OsRemoveAll", "Stat": "OsStat", "Lstat": "OsStat",
		"Exit": "OsExit", "Getenv": "OsGetenv", "LookupEnv": "OsLookupEnv", "Environ": "OsEnviron", "Hostname": "OsHostname", "Getwd": "OsGetwd",
		"Getpid": "OsGetpid", "Getppid": "OsGetpid", "Getuid": "OsGetpid", "Geteuid": "OsGetpid", "Getgid": "OsGetpid", "Getegid": "OsGetpid", "File": "File", "Stdout": "Stdout", "Stderr": "Stderr", "Args": "Args",
		"CreateTemp": "OsCreateTemp", "Truncate": "OsTruncate", "Chmod": "OsChmod", "TempDir": "OsTempDir", "MkdirAll": "OsMkdirAll", "Mkdir": "OsMkdir",
		"Stdin": "Stdin", "Setenv": "OsSetenv", "Clearenv": "OsClearenv", "ExpandEnv": "OsExpandEnv", "Executable": "OsExecutable",
		"MkdirTemp": "OsMkdirTemp", "UserHomeDir": "OsUserHomeDir", "UserCacheDir": "OsUserCacheDir", "UserConfigDir": "OsUserConfigDir", "Unsetenv": "OsUnsetenv",
		"Chtimes": "OsChtimes", "Chdir": "OsChdir", "Link": "OsLink", "Symlink": "OsSymlink", "Readlink": "OsReadlink", "SameFile": "OsSameFile", "ReadDir": "OsReadDir",
	},
	"io/ioutil": {
		"ReadFile": "OsReadFile", "WriteFile": "OsWriteFile", "TempFile": "OsCreateTemp", "ReadAll": "IoReadAll", "TempDir": "OsMkdirTemp", "ReadDir": "IoutilReadDir",
	},
	"log": {
		"Fatal": "LogFatal", "Fatalf": "LogFatalf", "Fatalln": "LogFatalln",
		"Print": "LogPrint", "Printf": "LogPrintf", "Println": "LogPrintln",
		"Panic": "LogPanic", "Panicf": "LogPanicf", "Panicln": "LogPanic",
		"SetFlags": "LogSet", "SetPrefix": "LogSetS", "SetOutput": "LogSetW", "Default": "LogDefault", "Output": "LogOutput",
	},
	"fmt": {
		"Print": "FmtPrint", "Printf": "FmtPrintf", "Println": "FmtPrintln",
	},
	"flag": {
		"StringVar": "FlagStringVar", "String": "FlagString", "Bool": "FlagBool", "BoolVar": "FlagBoolVar",
		"Int": "FlagInt", "IntVar": "FlagIntVar", "Parse": "FlagParse", "Args": "FlagArgs", "Arg": "FlagArg", "NArg": "FlagNArg",
		"Int64Var": "FlagInt64Var", "Int64": "FlagInt64", "Parsed": "FlagParsed",
		"Usage": "FlagUsage", "UintVar": "FlagUintVar", "Uint": "FlagUint", "Duration": "FlagDuration", "PrintDefaults": "FlagPrintDefaults",
	},
	"text/template": {
		"ParseFiles": "TmplParseFiles", "ParseGlob": "TmplParseGlob",
	},
	"crypto/rand": {"Read": "RandRead", "Reader": "RandReader"},
	"math/rand/v2": {
		"Int": "RandInt", "IntN": "RandIntn", "Int32": "RandInt31", "Int32N": "RandInt31n", "Int64": "RandInt63", "Int64N": "RandInt63n",
		"Uint32": "RandUint32", "Uint64": "RandUint64", "Uint32N": "RandUint32N", "Uint64N": "RandUint64N",
		"Float32": "RandFloat32", "Float64": "RandFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle",
		"NormFloat64": "RandNormFloat64", "ExpFloat64": "RandExpFloat64",
	},
	"io":            {"ReadAll": "IoReadAll", "Pipe": "IoPipe", "PipeReader": "PipeReader", "PipeWriter": "PipeWriter"},
	"path/filepath": {"Abs": "PathAbs", "Glob": "PathGlob", "EvalSymlinks": "PathEvalSymlinks", "Walk": "PathWalk", "WalkDir": "PathWalkDir"},
	"context": {
		"WithCancel": "CtxWithCancel", "WithCancelCause": "CtxWithCancelCause", "WithDeadline": "CtxWithDeadline", "WithTimeout": "CtxWithTimeout",
		"WithValue": "CtxWithValue", "Cause": "CtxCause",
	},
	"hash/maphash": {"Hash": "MapHash", "Seed": "MapSeed", "MakeSeed": "MapMakeSeed", "String": "MapString", "Bytes": "MapBytes", "Comparable": "MapComparable"},
	"runtime/debug": {"SetGCPercent": "DebugSetGCPercent", "SetMemoryLimit": "DebugSetMemoryLimit", "SetMaxStack": "DebugSetMaxStack", "SetMaxThreads": "DebugSetMaxThreads",
		"SetTraceback": "DebugSetTraceback", "PrintStack": "DebugPrintStack", "SetPanicOnFault": "DebugSetPanicOnFault"},
	"os/signal": {"Notify": "SigNotify", "Ignore": "SigIgnore", "Reset": "SigReset", "Stop": "SigStop"},
	"log/slog":  {"Debug": "SlogLog", "Info": "SlogLog", "Warn": "SlogLog", "Error": "SlogLog", "DebugContext": "SlogLogC", "InfoContext": "SlogLogC", "WarnContext": "SlogLogC", "ErrorContext": "SlogLogC"},
	"os/user":   {"Current": "UserCurrent", "User": "User"},
	"os/exec":   {"Command": "ExecCommand", "CommandContext": "ExecCommandContext", "LookPath": "ExecLookPath", "Cmd": "ExecCmd"},
	"syscall": {"Getenv": "OsLookupEnv", "Setenv": "OsSetenv", "Exit": "OsExit", "Getpid": "OsGetpid", "Getuid": "OsGetpid", "Kill": "SysKill", "Exec": "SysExec",
		"Unlink": "OsRemove", "Rename": "OsRename", "Chdir": "OsChdir", "Rmdir": "OsRemove", "Umask": "SysUmask", "Write": "SysWrite", "Setpriority": "SysSetpriority"},
}

// methodRedirects maps "pkgpath.Type.Method" -> runtime function taking the
// receiver first.
var methodRedirects = map[string]string{
	"text/template.Template.ParseFiles": "TmplMethodParseFiles",
	"text/template.Template.ParseGlob":  "TmplMethodParseGlob",
	"log.Logger.Fatal":                  "LogLoggerFatal",
	"log.Logger.Fatalf":                 "LogLoggerFatalf",
	"log.Logger.Fatalln":                "LogLoggerFatalln",
}

// genRedirects is the same, in generators only: formatting a big.Float with an
// exponent of thousands takes a millisecond, and a generator does it tens of
// thousands of times.
var genRedirects = map[string]string{
	"math/big.Float.Text":   "BigText",
	"math/big.Float.Append": "BigAppend",
	"math/big.Float.String": "BigString",
}

type rewriter struct {
	st      *State
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	base    string // repository root, for site positions
	fn      string
	tmp     int
	usedRT  bool
	noYield bool
	gen     bool
	// replaced maps an original initialiser to its instrumented form.
	replaced map[ast.Expr]ast.Expr
}

// Package instruments one type-checked package. srcs maps file name to parsed
// file. mainName, when not empty, renames the package (a generator's package
// main) and its function main to Main.
func (st *State) Package(fset *token.FileSet, files []*ast.File, names []string, pkg *types.Package, info *types.Info, base, mainName string) ([]File, error) {
	r := &rewriter{st: st, fset: fset, info: info, pkg: pkg, base: base, replaced: map[ast.Expr]ast.Expr{}}
	// A generator without goroutines has no interleavings: no yield points.
	r.noYield = mainName != ""
	r.gen = mainName != ""
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.GoStmt); ok {
				r.noYield = false
			}
			return true
		})
	}
	if st.Level >= 2 {
		r.noYield = true
	}
	var out []File
	// Reset functions per file.
	fileOf := func(p token.Pos) int {
		for i, f := range files {
			if f.FileStart <= p && p <= f.FileEnd {
				return i
			}
		}
		return 0
	}
	type resetFn struct {
		file int
		name string
		init *types.Initializer
	}
	var resets []resetFn
	for i, in := range info.InitOrder {
		resets = append(resets, resetFn{fileOf(in.Lhs[0].Pos()), fmt.Sprintf("zzReset%d", i), in})
	}
	initialised := map[*types.Var]bool{}
	for _, in := range info.InitOrder {
		for _, l := range in.Lhs {
			initialised[l] = true
		}
	}
	var zeroVars []string
	scope := pkg.Scope()
	for _, n := range scope.Names() {
		if v, ok := scope.Lookup(n).(*types.Var); ok && !initialised[v] {
			zeroVars = append(zeroVars, n)
		}
	}
	sort.Strings(zeroVars)
	initNo := 0
	var initNames []string
	for fi, f := range files {
		r.usedRT = false
		importUses := r.countImportUses(f)
		// Instrument function bodies and initialisers. Note: the reset
		// functions share the initialiser expressions.
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				r.fn = d.Name.Name
				if d.Recv != nil && len(d.Recv.List) > 0 {
					r.fn = types.ExprString(d.Recv.List[0].Type) + "." + r.fn
				}
				if d.Body != nil {
					r.block(d.Body)
				}
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					r.fn = "init"
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						r.valueSpec(vs)
					}
				}
			}
		}
		// Redirect selectors (types, functions, methods).
		r.redirect(f)
		// Init functions become callable.
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if fd.Name.Name == "init" {
				nm := fmt.Sprintf("zzInit%d", initNo)
				initNo++
				initNames = append(initNames, nm)
				fd.Name = ast.NewIdent(nm)
			}
			if mainName != "" && fd.Name.Name == "main" {
				fd.Name = ast.NewIdent("Main")
			}
		}
		for _, rs := range resets {
			if rs.file != fi {
				continue
			}
			var lhs []ast.Expr
			for _, l := range rs.init.Lhs {
				lhs = append(lhs, ast.NewIdent(l.Name()))
			}
			rhs := rs.init.Rhs
			if w, ok := r.replaced[rhs]; ok {
				rhs = w
			}
			f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent(rs.name), Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}}}})
		}
		if mainName != "" {
			f.Name = ast.NewIdent(mainName)
		}
		r.fixImports(f, importUses)
		f.Comments = nil
		stripDocs(f)
		var buf bytes.Buffer
		if err := format.Node(&buf, fset, f); err != nil {
			return nil, fmt.Errorf("printing %s: %v", names[fi], err)
		}
		out = append(out, File{filepath.Base(names[fi]), buf.Bytes()})
	}
	// The reset entry point.
	var b bytes.Buffer
	pname := pkg.Name()
	if mainName != "" {
		pname = mainName
	}
	fmt.Fprintf(&b, "package %s\n\nimport %s %q\n\nvar _ = %s.Y\n\n", pname, rtName, st.RTPath, rtName)
	fmt.Fprintf(&b, "// ZZReset puts the package-level state back to that of a fresh process.\nfunc ZZReset() {\n")
	for _, z := range zeroVars {
		if z == "_" {
			continue
		}
		fmt.Fprintf(&b, "\t%s.Zero(&%s)\n", rtName, z)
	}
	for _, rs := range resets {
		fmt.Fprintf(&b, "\t%s()\n", rs.name)
	}
	for _, n := range initNames {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	fmt.Fprintf(&b, "}\n")
	// All variables, of one process of several.
	var vars []string
	for _, n := range scope.Names() {
		if _, ok := scope.Lookup(n).(*types.Var); ok && n != "_" {
			vars = append(vars, n)
		}
	}
	fmt.Fprintf(&b, "\n// ZZSave saves the package-level state; what it returns brings it back.\nfunc ZZSave() func() {\n")
	for i, n := range vars {
		fmt.Fprintf(&b, "\tv%d := %s\n", i, n)
	}
	fmt.Fprintf(&b, "\treturn func() {\n")
	for i, n := range vars {
		fmt.Fprintf(&b, "\t\t%s = v%d\n", n, i)
	}
	fmt.Fprintf(&b, "\t}\n}\n")
	out = append(out, File{"zz_reset_gen.go", b.Bytes()})
	return out, nil
}

// stripDocs removes comments, except directives such as //go:embed.
func stripDocs(f *ast.File) {
	keep := func(g *ast.CommentGroup) *ast.CommentGroup {
		if g == nil {
			return nil
		}
		var l []*ast.Comment
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:embed") || strings.HasPrefix(c.Text, "//go:linkname") {
				l = append(l, c)
			}
		}
		if l == nil {
			return nil
		}
		return &ast.CommentGroup{List: l}
	}
	f.Doc = nil
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = keep(d.Doc)
		case *ast.GenDecl:
			d.Doc = keep(d.Doc)
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					s.Doc, s.Comment = nil, nil
				case *ast.TypeSpec:
					s.Doc, s.Comment = nil, nil
				case *ast.ImportSpec:
					s.Doc, s.Comment = nil, nil
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if fl, ok := n.(*ast.Field); ok {
			fl.Doc, fl.Comment = nil, nil
		}
		return true
	})
}
