package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"strings"
)

// ListedPkg is what `go list -json` says about a package.
type ListedPkg struct {
	Dir          string
	ImportPath   string
	Name         string
	Export       string
	Standard     bool
	GoFiles      []string
	EmbedFiles   []string
	Imports      []string
	Deps         []string
	DepsErrors   []struct{ Err string }
	Error        *struct{ Err string }
	IgnoredFiles []string `json:"IgnoredGoFiles"`
}

// List runs go list with export data.
func List(dir string, env []string, pkgs ...string) ([]ListedPkg, error) {
	args := append([]string{"list", "-e", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,Standard,GoFiles,EmbedFiles,Imports,Deps,DepsErrors,Error,IgnoredGoFiles"}, pkgs...)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = env
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var l []ListedPkg
	for {
		var p ListedPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		l = append(l, p)
	}
	return l, nil
}

// Check parses and type-checks files with export data from list.
func Check(fset *token.FileSet, path string, names []string, list []ListedPkg, lang string, remap map[string]string) ([]*ast.File, *types.Package, *types.Info, error) {
	exports := map[string]string{}
	for _, p := range list {
		exports[p.ImportPath] = p.Export
	}
	lookup := func(p string) (io.ReadCloser, error) {
		if to, ok := remap[p]; ok {
			p = to
		}
		e := exports[p]
		if e == "" {
			return nil, fmt.Errorf("no export data for %q", p)
		}
		return os.Open(e)
	}
	var files []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(fset, n, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, nil, nil, err
		}
		files = append(files, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), GoVersion: lang, Sizes: types.SizesFor("gc", "amd64")}
	pkg, err := conf.Check(path, fset, files, info)
	if err != nil {
		return nil, nil, nil, err
	}
	return files, pkg, info, nil
}

// Own lists the module's own packages; go list -deps puts imported ones first.
func Own(list []ListedPkg, module string) []ListedPkg {
	var own []ListedPkg
	for _, p := range list {
		if !p.Standard && (p.ImportPath == module || strings.HasPrefix(p.ImportPath, module+"/")) {
			own = append(own, p)
		}
	}
	return own
}
