package instr

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
)

func (r *rewriter) pkgNameOf(id *ast.Ident) *types.PkgName {
	p, _ := r.info.Uses[id].(*types.PkgName)
	return p
}

func (r *rewriter) countImportUses(f *ast.File) map[string]int {
	n := map[string]int{}
	ast.Inspect(f, func(nd ast.Node) bool {
		if id, ok := nd.(*ast.Ident); ok {
			if p := r.pkgNameOf(id); p != nil {
				n[p.Imported().Path()]++
			}
		}
		return true
	})
	return n
}

// redirect points selected names of the standard library at the simulation
// runtime.
func (r *rewriter) redirect(f *ast.File) {
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.CallExpr:
			sel, ok := x.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			s, ok := r.info.Selections[sel]
			if !ok || s.Kind() != types.MethodVal {
				return true
			}
			rt := s.Recv()
			if p, ok := rt.(*types.Pointer); ok {
				rt = p.Elem()
			}
			n, ok := rt.(*types.Named)
			if !ok || n.Obj().Pkg() == nil {
				return true
			}
			key := fmt.Sprintf("%s.%s.%s", n.Obj().Pkg().Path(), n.Obj().Name(), sel.Sel.Name)
			to, ok := methodRedirects[key]
			if !ok && r.gen {
				to, ok = genRedirects[key]
			}
			if ok {
				r.st.Features["redirect:"+key]++
				recv := sel.X
				if _, ptr := s.Recv().(*types.Pointer); !ptr {
					recv = &ast.UnaryExpr{Op: token.AND, X: recv}
				}
				x.Fun = r.rt(to)
				x.Args = append([]ast.Expr{recv}, x.Args...)
			}
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok {
				return true
			}
			p := r.pkgNameOf(id)
			if p == nil {
				return true
			}
			if to, ok := redirects[p.Imported().Path()][x.Sel.Name]; ok {
				r.st.Features["redirect:"+p.Imported().Path()+"."+x.Sel.Name]++
				x.X = ast.NewIdent(rtName)
				x.Sel = ast.NewIdent(to)
				r.usedRT = true
			}
		}
		return true
	})
}

// fixImports drops imports that are no longer used and adds the runtime.
func (r *rewriter) fixImports(f *ast.File, before map[string]int) {
	after := r.countImportUses(f)
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		var keep []ast.Spec
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if before[path] > 0 && after[path] == 0 {
				if is.Name == nil || (is.Name.Name != "_" && is.Name.Name != ".") {
					is.Name = ast.NewIdent("_")
				}
			}
			keep = append(keep, s)
		}
		gd.Specs = keep
		gd.Lparen = 1
	}
	r.usedRT = true
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(rtName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.st.RTPath)}}}}
	use := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(rtName), Sel: ast.NewIdent("Y")}}}}}
	decls := []ast.Decl{imp}
	i := 0
	for ; i < len(f.Decls); i++ {
		gd, ok := f.Decls[i].(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			break
		}
		decls = append(decls, gd)
	}
	decls = append(decls, use)
	f.Decls = append(decls, f.Decls[i:]...)
}
