// Package build makes the instrumented scratch copy of the repository and
// compiles the simulation binaries from it.
package build

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"

	"floatsim/instr"
)

// Meta is what the simulation binaries need to know about the build.
type Meta struct {
	Module   string         `json:"module"`
	Level    int            `json:"level"`
	Sites    []instr.Site   `json:"sites"`
	Literals []uint64       `json:"literals"`
	Words    []string       `json:"words"`
	Features map[string]int `json:"features"`
	Packages []string       `json:"packages"`
	Gens     []Gen          `json:"gens"`
}

// Gen is one golden-test generator.
type Gen struct {
	Dir   string   `json:"dir"`
	Files []string `json:"files"`
	Args  []string `json:"args"`
	Alias string   `json:"alias"`
}

// Opts of a build.
type Opts struct {
	Repo, Sim, Work string
	Gens            bool // build the generator simulation
	Race            bool // also build with the race detector
}

// Out of a build.
type Out struct {
	Plain, Race, MetaFile string
	Meta                  Meta
	Notes                 []string
}

func copyTree(from, to string) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if d.IsDir() {
			if d.Name() == ".git" || d.Name() == "testdata" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(to, rel), 0755)
		}
		if strings.HasSuffix(p, "_test.go") || !d.Type().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0644)
	})
}

var modRe = regexp.MustCompile(`(?m)^module\s+(\S+)`)
var goRe = regexp.MustCompile(`(?m)^go\s+(\S+)`)

func run(dir string, env []string, args ...string) error {
	c := exec.Command(args[0], args[1:]...)
	c.Dir = dir
	c.Env = env
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	if err := c.Run(); err != nil {
		s := b.String()
		if len(s) > 4000 {
			s = s[:4000]
		}
		return fmt.Errorf("%s: %v\n%s", strings.Join(args, " "), err, s)
	}
	return nil
}

// Build does everything.
func Build(o Opts) (*Out, error) {
	src := filepath.Join(o.Work, "src")
	if err := copyTree(o.Repo, src); err != nil {
		return nil, err
	}
	mod, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		return nil, err
	}
	m := modRe.FindSubmatch(mod)
	if m == nil {
		return nil, fmt.Errorf("no module line in go.mod")
	}
	module := string(m[1])
	// The stub of github.com/pkg/errors, which is not in the module cache.
	stub := filepath.Join(src, "zz_stub", "errors")
	if err := os.MkdirAll(stub, 0755); err != nil {
		return nil, err
	}
	b, err := os.ReadFile(filepath.Join(o.Sim, "_stub", "errors.go"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(stub, "errors.go"), b, 0644); err != nil {
		return nil, err
	}
	gens, err := findGens(src)
	if err != nil {
		return nil, err
	}
	if !o.Gens {
		gens = nil
	}
	env := append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod")
	// What the generators import must be listed too.
	pats := []string{"./..."}
	seen := map[string]bool{}
	for _, g := range gens {
		for _, f := range g.Files {
			af, err := parser.ParseFile(token.NewFileSet(), filepath.Join(src, g.Dir, f), nil, parser.ImportsOnly)
			if err != nil {
				return nil, err
			}
			for _, im := range af.Imports {
				p := strings.Trim(im.Path.Value, `"`)
				if p == "github.com/pkg/errors" || p == "C" || seen[p] {
					continue
				}
				seen[p] = true
				pats = append(pats, p)
			}
		}
	}
	list, err := instr.List(src, env, pats...)
	if err != nil {
		return nil, err
	}
	lang := "go1.13"
	if g := goRe.FindSubmatch(mod); g != nil {
		lang = "go" + string(g[1])
	}
	var out *Out
	var first error
	for level := 0; level <= 2; level++ {
		out, err = attempt(o, src, module, mod, lang, list, gens, level)
		if err == nil {
			if level > 0 {
				out.Notes = append(out.Notes, fmt.Sprintf("instrumented at fallback level %d: %v", level, first))
			}
			return out, nil
		}
		if first == nil {
			first = err
		}
	}
	return nil, first
}

func attempt(o Opts, src, module string, mod []byte, lang string, list []instr.ListedPkg, gens []Gen, level int) (*Out, error) {
	dst := filepath.Join(o.Work, fmt.Sprintf("out%d", level))
	st := &instr.State{Literals: map[uint64]bool{}, RTPath: module + "/zzsim/rt", Level: level, Features: map[string]int{}}
	meta := Meta{Module: module, Level: level}
	write := func(rel string, b []byte) error {
		p := filepath.Join(dst, rel)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		return os.WriteFile(p, b, 0644)
	}
	remap := map[string]string{"github.com/pkg/errors": module + "/zz_stub/errors"}
	var resets []string
	for _, p := range instr.Own(list, module) {
		if p.Name == "main" {
			continue
		}
		rel, err := filepath.Rel(src, p.Dir)
		if err != nil {
			return nil, err
		}
		var names []string
		for _, f := range p.GoFiles {
			names = append(names, filepath.Join(p.Dir, f))
		}
		if strings.HasPrefix(rel, "zz_stub") {
			for _, n := range names {
				b, _ := os.ReadFile(n)
				if err := write(filepath.Join(rel, filepath.Base(n)), b); err != nil {
					return nil, err
				}
			}
			continue
		}
		fset := token.NewFileSet()
		files, pkg, info, err := instr.Check(fset, p.ImportPath, names, list, lang, remap)
		if err != nil {
			return nil, fmt.Errorf("type-checking %s: %v", p.ImportPath, err)
		}
		fs, err := st.Package(fset, files, names, pkg, info, src, "")
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			if err := write(filepath.Join(rel, f.Name), f.Src); err != nil {
				return nil, err
			}
		}
		for _, e := range p.EmbedFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, e))
			if err != nil {
				return nil, err
			}
			if err := write(filepath.Join(rel, e), b); err != nil {
				return nil, err
			}
		}
		resets = append(resets, p.ImportPath)
		meta.Packages = append(meta.Packages, p.ImportPath)
	}
	st.Words = map[string]bool{}
	for gi := range gens {
		g := &gens[gi]
		g.Alias = fmt.Sprintf("zzgen%d", gi)
		var names []string
		for _, f := range g.Files {
			names = append(names, filepath.Join(src, g.Dir, f))
		}
		fset := token.NewFileSet()
		files, pkg, info, err := instr.Check(fset, module+"/zz_gen/"+g.Alias, names, list, lang, remap)
		if err != nil {
			return nil, fmt.Errorf("type-checking generator %s: %v", g.Dir, err)
		}
		fs, err := st.Package(fset, files, names, pkg, info, src, g.Alias)
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			s := bytes.ReplaceAll(f.Src, []byte(`"github.com/pkg/errors"`), []byte(`"`+module+`/zz_stub/errors"`))
			if err := write(filepath.Join("zz_gen", g.Alias, f.Name), s); err != nil {
				return nil, err
			}
		}
		// Non-Go files beside the generator may be embedded.
		ents, _ := os.ReadDir(filepath.Join(src, g.Dir))
		for _, e := range ents {
			if e.Type().IsRegular() && !strings.HasSuffix(e.Name(), ".go") {
				b, _ := os.ReadFile(filepath.Join(src, g.Dir, e.Name()))
				if err := write(filepath.Join("zz_gen", g.Alias, e.Name()), b); err != nil {
					return nil, err
				}
			}
		}
	}
	for i := range st.Sites {
		_ = i
	}
	meta.Sites = st.Sites
	meta.Features = st.Features
	meta.Gens = gens
	for l := range st.Literals {
		meta.Literals = append(meta.Literals, l)
	}
	for s := range st.Words {
		meta.Words = append(meta.Words, s)
	}
	sort.Strings(meta.Words)
	sort.Slice(meta.Literals, func(i, j int) bool { return meta.Literals[i] < meta.Literals[j] })
	// The runtime and the harness.
	cp := func(from, to string) error {
		ents, err := os.ReadDir(from)
		if err != nil {
			return err
		}
		for _, e := range ents {
			b, err := os.ReadFile(filepath.Join(from, e.Name()))
			if err != nil {
				return err
			}
			b = bytes.ReplaceAll(b, []byte("github.com/mewmew/float"), []byte(module))
			if err := write(filepath.Join(to, e.Name()), b); err != nil {
				return err
			}
		}
		return nil
	}
	if err := cp(filepath.Join(o.Sim, "_rt"), "zzsim/rt"); err != nil {
		return nil, err
	}
	if err := cp(filepath.Join(o.Sim, "_work"), "zzsim/work"); err != nil {
		return nil, err
	}
	main := "lib"
	if o.Gens {
		main = "gen"
	}
	if err := cp(filepath.Join(o.Sim, "_"+main), "zzsim/"+main); err != nil {
		return nil, err
	}
	var rb bytes.Buffer
	fmt.Fprintf(&rb, "package main\n\nimport (\n")
	for i, p := range resets {
		fmt.Fprintf(&rb, "\tr%d %q\n", i, p)
	}
	for _, g := range gens {
		fmt.Fprintf(&rb, "\t%s %q\n", g.Alias, module+"/zz_gen/"+g.Alias)
	}
	fmt.Fprintf(&rb, ")\n\nfunc resetAll() {\n")
	for i := range resets {
		fmt.Fprintf(&rb, "\tr%d.ZZReset()\n", i)
	}
	fmt.Fprintf(&rb, "}\n")
	if o.Gens {
		fmt.Fprintf(&rb, "\nfunc saveAll() func() {\n\tl := []func(){")
		for i := range resets {
			fmt.Fprintf(&rb, "r%d.ZZSave(), ", i)
		}
		for _, g := range gens {
			fmt.Fprintf(&rb, "%s.ZZSave(), ", g.Alias)
		}
		fmt.Fprintf(&rb, "}\n\treturn func() {\n\t\tfor _, f := range l {\n\t\t\tf()\n\t\t}\n\t}\n}\n")
		fmt.Fprintf(&rb, "\nvar genResets = []func(){")
		for _, g := range gens {
			fmt.Fprintf(&rb, "%s.ZZReset, ", g.Alias)
		}
		fmt.Fprintf(&rb, "}\n")
		fmt.Fprintf(&rb, "\nvar genMains = []func(){")
		for _, g := range gens {
			fmt.Fprintf(&rb, "%s.Main, ", g.Alias)
		}
		fmt.Fprintf(&rb, "}\n")
	}
	if err := write("zzsim/"+main+"/zz_reset.go", rb.Bytes()); err != nil {
		return nil, err
	}
	// Generics need a newer language version; below 1.22 loop variables keep
	// their old meaning.
	nm := goRe.ReplaceAll(mod, []byte("go 1.20"))
	if !goRe.Match(mod) {
		nm = append(nm, []byte("\ngo 1.20\n")...)
	}
	if err := write("go.mod", nm); err != nil {
		return nil, err
	}
	if b, err := os.ReadFile(filepath.Join(src, "go.sum")); err == nil {
		if err := write("go.sum", b); err != nil {
			return nil, err
		}
	}
	mj, err := json.Marshal(meta)
	if err != nil {
		return nil, err
	}
	if err := write("meta.json", mj); err != nil {
		return nil, err
	}
	out := &Out{Meta: meta, MetaFile: filepath.Join(dst, "meta.json"), Plain: filepath.Join(o.Work, "sim"), Race: filepath.Join(o.Work, "simrace")}
	ov, err := overlay(o, dst)
	if err != nil {
		return nil, err
	}
	env := append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod")
	if err := run(dst, env, "go", "build", "-trimpath", "-overlay", ov, "-o", out.Plain, "./zzsim/"+main); err != nil {
		return nil, err
	}
	if o.Race {
		env := append(os.Environ(), "CGO_ENABLED=1", "GOFLAGS=-mod=mod")
		if err := run(dst, env, "go", "build", "-race", "-trimpath", "-overlay", ov, "-o", out.Race, "./zzsim/"+main); err != nil {
			return nil, err
		}
	}
	return out, nil
}

// overlay replaces sync.Pool of the standard library, whose real behaviour
// depends on processors, the collector and (in race builds) chance.
func overlay(o Opts, dst string) (string, error) {
	gr, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", err
	}
	root := strings.TrimSpace(string(gr))
	if root == "" {
		root = runtime.GOROOT()
	}
	p := filepath.Join(o.Work, "zz_pool.go")
	b, err := os.ReadFile(filepath.Join(o.Sim, "_stub", "pool.go"))
	if err != nil {
		return "", err
	}
	if err := os.WriteFile(p, b, 0644); err != nil {
		return "", err
	}
	j, _ := json.Marshal(map[string]map[string]string{"Replace": {
		filepath.Join(root, "src/sync/pool.go"): p,
	}})
	f := filepath.Join(o.Work, "overlay.json")
	return f, os.WriteFile(f, j, 0644)
}

// findGens looks for generators: files of package main, excluded from the
// build, with a function main.
func findGens(src string) ([]Gen, error) {
	byDir := map[string][]string{}
	hasMain := map[string]int{}
	args := map[string][]string{}
	err := filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, filepath.Dir(p))
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if w := strings.Fields(c.Text); len(w) > 2 && w[0] == "//go:generate" && w[1] == "go" && w[2] == "run" {
					i := 3
					for i < len(w) && (strings.HasSuffix(w[i], ".go") || w[i] == ".") {
						i++
					}
					args[rel] = w[i:]
				}
			}
		}
		if f.Name.Name != "main" {
			return nil
		}
		byDir[rel] = append(byDir[rel], filepath.Base(p))
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				hasMain[rel]++
			}
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	var l []Gen
	for dir, fs := range byDir {
		if hasMain[dir] != 1 {
			continue
		}
		sort.Strings(fs)
		a := args[dir]
		if a == nil {
			a = []string{"-o", "extra_test.go"}
		}
		l = append(l, Gen{Dir: dir, Files: fs, Args: a})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Dir < l[j].Dir })
	return l, nil
}
