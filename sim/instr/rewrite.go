package instr

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"strconv"
	"strings"
)

func (r *rewriter) rt(name string) ast.Expr {
	r.usedRT = true
	return &ast.SelectorExpr{X: ast.NewIdent(rtName), Sel: ast.NewIdent(name)}
}

func (r *rewriter) site(p token.Pos, kind string) ast.Expr {
	pos := r.fset.Position(p)
	fn := pos.Filename
	if rel, err := filepath.Rel(r.base, fn); err == nil {
		fn = rel
	}
	r.st.Sites = append(r.st.Sites, Site{Pos: fmt.Sprintf("%s:%d:%d", fn, pos.Line, pos.Column), Kind: kind, Func: r.pkg.Name() + "." + r.fn})
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(r.st.Sites) - 1)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rewriter) temp() *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("zzt%d", r.tmp))
}

func (r *rewriter) yield(p token.Pos) ast.Stmt {
	return &ast.ExprStmt{X: call(r.rt("Y"), r.site(p, "stmt"))}
}

func (r *rewriter) wrap(e, orig ast.Expr, kind string) ast.Expr {
	if r.noYield || r.st.Level > 0 {
		return e
	}
	return call(r.rt("V"), r.site(orig.Pos(), kind), e)
}

func (r *rewriter) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isPtr(t types.Type) bool   { _, ok := under(t).(*types.Pointer); return ok }
func isArray(t types.Type) bool { _, ok := under(t).(*types.Array); return ok }
func isMap(t types.Type) bool   { _, ok := under(t).(*types.Map); return ok }
func isChan(t types.Type) bool  { _, ok := under(t).(*types.Chan); return ok }

// ---- statements -----------------------------------------------------------

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	pos := b.Pos()
	b.List = r.list(b.List)
	_ = pos
}

// loopBody makes sure that every iteration passes a yield point.
func (r *rewriter) loopBody(b *ast.BlockStmt) {
	empty := len(b.List) == 0
	p := b.Pos()
	r.block(b)
	if empty && !r.noYield {
		b.List = []ast.Stmt{r.yield(p)}
	}
}

func (r *rewriter) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); !ok && !r.noYield {
			out = append(out, r.yield(s.Pos()))
		}
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		s.X = r.exprW(s.X, false)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(r.rt("Send"), r.expr(s.Chan), r.expr(s.Value))}
	case *ast.IncDecStmt:
		if r.splittable(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			lhs := cloneExpr(s.X)
			return &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{
				&ast.BinaryExpr{X: r.expr(s.X), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}
		}
		s.X = r.lhs(s.X)
	case *ast.AssignStmt:
		return r.assign(s)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		r.callInner(s.Call)
	case *ast.ReturnStmt:
		if len(s.Results) == 1 {
			s.Results[0] = r.expr(s.Results[0])
		} else {
			for i := range s.Results {
				s.Results[i] = r.expr(s.Results[i])
			}
		}
	case *ast.BranchStmt, *ast.EmptyStmt:
	case *ast.BlockStmt:
		r.block(s)
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = r.simple(s.Init)
		}
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.stmt(s.Else)
		}
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = r.simple(s.Init)
		}
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		if s.Post != nil {
			s.Post = r.simple(s.Post)
		}
		r.loopBody(s.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = r.simple(s.Init)
		}
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.list(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			s.Init = r.simple(s.Init)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.list(cc.Body)
		}
	case *ast.SelectStmt:
		return r.selectStmt(s, nil)
	case *ast.LabeledStmt:
		if sel, ok := s.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(sel, s.Label)
		}
		if rg, ok := s.Stmt.(*ast.RangeStmt); ok {
			out := r.rangeStmt(rg)
			if b, ok := out.(*ast.BlockStmt); ok {
				// The label must stay on the loop.
				last := len(b.List) - 1
				b.List[last] = &ast.LabeledStmt{Label: s.Label, Stmt: b.List[last]}
				return b
			}
			s.Stmt = out
			return s
		}
		s.Stmt = r.stmt(s.Stmt)
	case *ast.DeclStmt:
		if gd, ok := s.Decl.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				r.valueSpec(sp.(*ast.ValueSpec))
			}
		}
	}
	return s
}

// simple handles statements in init and post positions, where only simple
// statements are allowed.
func (r *rewriter) simple(s ast.Stmt) ast.Stmt { return r.stmt(s) }

func (r *rewriter) valueSpec(vs *ast.ValueSpec) {
	multi := len(vs.Names) > 1 && len(vs.Values) == 1
	for i, v := range vs.Values {
		nv := v
		if u, ok := unparen(v).(*ast.UnaryExpr); ok && multi && u.Op == token.ARROW {
			nv = call(r.rt("Recv2"), r.expr(u.X))
		} else {
			nv = r.exprW(v, !multi)
		}
		r.replaced[v] = nv
		vs.Values[i] = nv
	}
}

func (r *rewriter) assign(s *ast.AssignStmt) ast.Stmt {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		if r.splittable(s.Lhs[0]) {
			op := assignOp(s.Tok)
			lhs := cloneExpr(s.Lhs[0])
			return &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{
				&ast.BinaryExpr{X: r.expr(s.Lhs[0]), Op: op, Y: &ast.ParenExpr{X: r.expr(s.Rhs[0])}}}}
		}
		s.Lhs[0] = r.lhs(s.Lhs[0])
		s.Rhs[0] = r.expr(s.Rhs[0])
		return s
	}
	multi := len(s.Lhs) > 1 && len(s.Rhs) == 1
	if s.Tok == token.ASSIGN {
		for i := range s.Lhs {
			s.Lhs[i] = r.lhs(s.Lhs[i])
		}
	}
	if multi {
		// Comma-ok receive.
		if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			s.Rhs[0] = call(r.rt("Recv2"), r.expr(u.X))
			return s
		}
		s.Rhs[0] = r.exprW(s.Rhs[0], false)
		return s
	}
	for i := range s.Rhs {
		s.Rhs[i] = r.expr(s.Rhs[i])
	}
	return s
}

func assignOp(t token.Token) token.Token {
	switch t {
	case token.ADD_ASSIGN:
		return token.ADD
	case token.SUB_ASSIGN:
		return token.SUB
	case token.MUL_ASSIGN:
		return token.MUL
	case token.QUO_ASSIGN:
		return token.QUO
	case token.REM_ASSIGN:
		return token.REM
	case token.AND_ASSIGN:
		return token.AND
	case token.OR_ASSIGN:
		return token.OR
	case token.XOR_ASSIGN:
		return token.XOR
	case token.SHL_ASSIGN:
		return token.SHL
	case token.SHR_ASSIGN:
		return token.SHR
	case token.AND_NOT_ASSIGN:
		return token.AND_NOT
	}
	panic("assignOp")
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// splittable reports whether x op= y may be turned into x = x op y: x is
// possibly shared and has no side effects.
func (r *rewriter) splittable(e ast.Expr) bool {
	if r.noYield || r.st.Level > 0 {
		return false
	}
	e = unparen(e)
	return r.pure(e) && r.sharedLoad(e)
}

func (r *rewriter) pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return r.pure(e.X)
	case *ast.SelectorExpr:
		return r.pure(e.X)
	case *ast.StarExpr:
		return r.pure(e.X)
	case *ast.IndexExpr:
		return r.pure(e.X) && r.pure(e.Index)
	}
	return false
}

// sharedLoad reports whether evaluating the addressable expression e reads
// memory that another goroutine might access.
func (r *rewriter) sharedLoad(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		return r.isPkgVar(e)
	case *ast.SelectorExpr:
		if _, ok := r.info.Selections[e]; !ok {
			return false // qualified identifier
		}
		if sel := r.info.Selections[e]; sel.Kind() != types.FieldVal {
			return false
		} else if sel.Indirect() {
			return true
		}
		return r.sharedLoad(e.X)
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		t := under(r.typ(e.X))
		switch t.(type) {
		case *types.Slice, *types.Map, *types.Pointer:
			return true
		case *types.Array:
			return r.sharedLoad(e.X)
		}
	}
	return false
}

func (r *rewriter) isPkgVar(id *ast.Ident) bool {
	v, ok := r.info.Uses[id].(*types.Var)
	return ok && !v.IsField() && v.Pkg() == r.pkg && v.Parent() == r.pkg.Scope()
}

// cloneExpr copies the pure expression e without instrumentation. Sub-nodes
// get fresh nodes, so that later rewriting of one copy leaves the other alone.
func cloneExpr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident:
		return ast.NewIdent(e.Name)
	case *ast.BasicLit:
		return &ast.BasicLit{Kind: e.Kind, Value: e.Value}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: cloneExpr(e.X)}
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: cloneExpr(e.X), Sel: ast.NewIdent(e.Sel.Name)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: cloneExpr(e.X)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: cloneExpr(e.X), Index: cloneExpr(e.Index)}
	}
	panic(fmt.Sprintf("cloneExpr %T", e))
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	r.st.Features["go"]++
	c := s.Call
	var pre []ast.Stmt
	if tv := r.info.Types[c.Fun]; tv.IsBuiltin() {
		r.builtinStandIn(c)
	} else if _, ok := c.Fun.(*ast.FuncLit); !ok {
		if id, ok := c.Fun.(*ast.Ident); !ok || r.info.Uses[id] == nil || !isBuiltin(r.info.Uses[id]) {
			t := r.temp()
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.exprW(c.Fun, false)}})
			c.Fun = ast.NewIdent(t.Name)
		}
	} else {
		c.Fun = r.exprW(c.Fun, false)
	}
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			continue
		}
		t := r.temp()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(a)}})
		c.Args[i] = ast.NewIdent(t.Name)
	}
	c.Rparen, c.Lparen = 0, 0
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
	pre = append(pre, &ast.ExprStmt{X: call(r.rt("Go"), body)})
	return &ast.BlockStmt{List: pre}
}

func isBuiltin(o types.Object) bool { _, ok := o.(*types.Builtin); return ok }

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := r.typ(s.X)
	switch {
	case isMap(t):
		r.st.Features["maprange"]++
		// { m := X; for _, k := range rt.MapKeys(m) { v, ok := m[k]; if !ok { continue }; K, V = k, v; body } }
		m, k, v, ok := r.temp(), r.temp(), r.temp(), r.temp()
		x := r.exprW(s.X, false)
		var head []ast.Stmt
		head = append(head,
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v.Name), ast.NewIdent(ok.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: ast.NewIdent(m.Name), Index: ast.NewIdent(k.Name)}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}},
		)
		asg := func(dst ast.Expr, src *ast.Ident) {
			if dst == nil {
				return
			}
			if id, ok := dst.(*ast.Ident); ok && id.Name == "_" {
				return
			}
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{dst}, Tok: s.Tok, Rhs: []ast.Expr{ast.NewIdent(src.Name)}})
		}
		asg(s.Key, k)
		asg(s.Value, v)
		r.loopBody(s.Body)
		s.Body.List = append(head, s.Body.List...)
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
			&ast.RangeStmt{Key: ast.NewIdent("_"), Value: ast.NewIdent(k.Name), Tok: token.DEFINE, X: call(r.rt("MapKeys"), ast.NewIdent(m.Name)), Body: s.Body},
		}}
	case isChan(t):
		r.st.Features["chanrange"]++
		c, v, ok := r.temp(), r.temp(), r.temp()
		x := r.exprW(s.X, false)
		head := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v.Name), ast.NewIdent(ok.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt("Recv2"), ast.NewIdent(c.Name))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}},
		}
		if id, isId := s.Key.(*ast.Ident); s.Key != nil && !(isId && id.Name == "_") {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
		}
		r.loopBody(s.Body)
		s.Body.List = append(head, s.Body.List...)
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
			&ast.ForStmt{Body: s.Body},
		}}
	}
	if s.Tok == token.ASSIGN {
		if s.Key != nil {
			s.Key = r.lhs(s.Key)
		}
		if s.Value != nil {
			s.Value = r.lhs(s.Value)
		}
	}
	if !isArray(t) {
		s.X = r.exprW(s.X, false)
	} else {
		s.X = r.addr(s.X)
	}
	r.loopBody(s.Body)
	return s
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	r.st.Features["select"]++
	var pre []ast.Stmt
	var args []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := "false"
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.list(cc.Body)})
			continue
		}
		t := r.temp()
		var head []ast.Stmt
		recv := func(u *ast.UnaryExpr) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt("RecvCase"), r.expr(u.X))}})
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt("SendCase"), r.expr(cm.Chan), r.expr(cm.Value))}})
		case *ast.ExprStmt:
			recv(unparen(cm.X).(*ast.UnaryExpr))
		case *ast.AssignStmt:
			recv(unparen(cm.Rhs[0]).(*ast.UnaryExpr))
			rhs := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(t.Name), Sel: ast.NewIdent("V")}}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(t.Name), Sel: ast.NewIdent("OK")})
			}
			head = append(head, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: rhs})
		}
		args = append(args, ast.NewIdent(t.Name))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}},
			Body: append(head, r.list(cc.Body)...)})
		n++
	}
	sw.Tag = call(r.rt("Select"), append([]ast.Expr{ast.NewIdent(hasDefault)}, args...)...)
	var last ast.Stmt = sw
	if label != nil {
		last = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, last)}
}

// ---- expressions ----------------------------------------------------------

func (r *rewriter) expr(e ast.Expr) ast.Expr { return r.exprW(e, true) }

// lhs processes an assignment target.
func (r *rewriter) lhs(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.lhs(x.X)
		return x
	}
	return r.addr(e)
}

// addr processes e without wrapping the load of e itself, keeping it
// addressable.
func (r *rewriter) addr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.addr(x.X)
	case *ast.SelectorExpr:
		if _, ok := r.info.Selections[x]; !ok {
			return x
		}
		if isPtr(r.typ(x.X)) {
			x.X = r.expr(x.X)
		} else {
			x.X = r.addr(x.X)
		}
	case *ast.IndexExpr:
		if isArray(r.typ(x.X)) {
			x.X = r.addr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Index = r.expr(x.Index)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.Ident, *ast.BasicLit:
	default:
		return r.exprW(e, false)
	}
	return e
}

func (r *rewriter) exprW(e ast.Expr, w bool) ast.Expr {
	if e == nil {
		return nil
	}
	tv, known := r.info.Types[e]
	if known && tv.Value != nil {
		r.literal(tv.Value)
		return e
	}
	if known && (tv.IsType() || tv.IsBuiltin() || tv.IsNil()) {
		return e
	}
	switch x := e.(type) {
	case *ast.Ident:
		if w && r.isPkgVar(x) {
			return r.wrap(x, x, "load")
		}
		return x
	case *ast.ParenExpr:
		x.X = r.exprW(x.X, w)
		return x
	case *ast.FuncLit:
		r.block(x.Body)
		return x
	case *ast.SelectorExpr:
		sel, ok := r.info.Selections[x]
		if !ok {
			return x
		}
		shared := w && sel.Kind() == types.FieldVal && r.sharedLoad(x)
		if sel.Kind() == types.MethodVal {
			r.recv(x)
			return x
		}
		r.addr(x)
		if shared {
			return r.wrap(x, x, "load")
		}
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		if w {
			return r.wrap(x, x, "load")
		}
		return x
	case *ast.IndexExpr:
		if _, ok := under(r.typ(x.X)).(*types.Signature); ok {
			return x
		}
		shared := w && r.sharedLoad(x)
		r.addr(x)
		if shared {
			return r.wrap(x, x, "load")
		}
		return x
	case *ast.SliceExpr:
		if isArray(r.typ(x.X)) {
			x.X = r.addr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		if x.Low != nil {
			x.Low = r.expr(x.Low)
		}
		if x.High != nil {
			x.High = r.expr(x.High)
		}
		if x.Max != nil {
			x.Max = r.expr(x.Max)
		}
		return x
	case *ast.TypeAssertExpr:
		if x.Type == nil {
			return x
		}
		x.X = r.expr(x.X)
		return x
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			x.X = r.addr(x.X)
			return x
		case token.ARROW:
			return call(r.rt("Recv"), r.expr(x.X))
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X = r.expr(x.X)
		x.Y = r.expr(x.Y)
		if (x.Op == token.LAND || x.Op == token.LOR) && !r.noYield && r.st.Level == 0 && plainBool(r.typ(x.X)) && plainBool(r.typ(x.Y)) {
			fn, op := "YT", token.LAND
			if x.Op == token.LOR {
				fn, op = "YF", token.LOR
			}
			x.Y = &ast.ParenExpr{X: &ast.BinaryExpr{X: call(r.rt(fn), r.site(x.Y.Pos(), "cond")), Op: op, Y: &ast.ParenExpr{X: x.Y}}}
		}
		return x
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
		return x
	case *ast.CompositeLit:
		_, isStruct := under(r.typ(x)).(*types.Struct)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
				continue
			}
			x.Elts[i] = r.expr(el)
		}
		return x
	case *ast.CallExpr:
		ftv := r.info.Types[x.Fun]
		if ftv.IsType() {
			for i := range x.Args {
				x.Args[i] = r.expr(x.Args[i])
			}
			return x
		}
		if ftv.IsBuiltin() {
			return r.builtin(x)
		}
		r.callInner(x)
		if !w || !known || tv.IsVoid() {
			return x
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			return x
		}
		return r.wrap(x, x, "call")
	}
	return e
}

func plainBool(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// recv processes the receiver operand of a method selector.
func (r *rewriter) recv(x *ast.SelectorExpr) {
	t := r.typ(x.X)
	sel := r.info.Selections[x]
	ptrRecv := false
	if f, ok := sel.Obj().(*types.Func); ok {
		if rv := f.Type().(*types.Signature).Recv(); rv != nil {
			ptrRecv = isPtr(rv.Type())
		}
	}
	if isPtr(t) {
		x.X = r.expr(x.X)
		return
	}
	if ptrRecv {
		x.X = r.addr(x.X)
		return
	}
	if len(sel.Index()) > 1 {
		// A promoted method may need an addressable operand.
		x.X = r.addr(x.X)
		return
	}
	x.X = r.expr(x.X)
}

func (r *rewriter) callInner(x *ast.CallExpr) {
	if ftv := r.info.Types[x.Fun]; ftv.IsBuiltin() {
		r.builtin(x)
		return
	} else if ftv.IsType() {
		for i := range x.Args {
			x.Args[i] = r.expr(x.Args[i])
		}
		return
	}
	switch f := unparen(x.Fun).(type) {
	case *ast.SelectorExpr:
		if sel, ok := r.info.Selections[f]; ok {
			if sel.Kind() == types.MethodVal {
				r.recv(f)
			} else {
				x.Fun = r.exprW(x.Fun, true)
			}
		}
	case *ast.Ident:
	default:
		x.Fun = r.exprW(x.Fun, false)
	}
	if len(x.Args) == 1 {
		if t := r.typ(x.Args[0]); t != nil {
			if _, ok := t.(*types.Tuple); ok {
				x.Args[0] = r.exprW(x.Args[0], false)
				return
			}
		}
	}
	for i := range x.Args {
		x.Args[i] = r.expr(x.Args[i])
	}
}

func (r *rewriter) builtinName(x *ast.CallExpr) string {
	switch f := unparen(x.Fun).(type) {
	case *ast.Ident:
		return f.Name
	case *ast.SelectorExpr:
		return "unsafe." + f.Sel.Name
	}
	return ""
}

func (r *rewriter) builtinArgs(x *ast.CallExpr) {
	name := r.builtinName(x)
	switch name {
	case "len", "cap":
		x.Args[0] = r.addr(x.Args[0])
	case "new", "recover":
	case "make":
		for i := 1; i < len(x.Args); i++ {
			x.Args[i] = r.expr(x.Args[i])
		}
	default:
		if len(name) > 7 && name[:7] == "unsafe." {
			return
		}
		for i := range x.Args {
			x.Args[i] = r.exprW(x.Args[i], true)
		}
	}
}

func (r *rewriter) builtin(x *ast.CallExpr) ast.Expr {
	r.builtinArgs(x)
	r.builtinStandIn(x)
	return x
}

// builtinStandIn replaces the builtin functions that can be seen from outside.
func (r *rewriter) builtinStandIn(x *ast.CallExpr) {
	switch r.builtinName(x) {
	case "close":
		x.Fun = r.rt("Close")
	case "print":
		x.Fun = r.rt("BuiltinPrint")
	case "println":
		x.Fun = r.rt("BuiltinPrintln")
	}
}

func (r *rewriter) literal(v constant.Value) {
	switch v.Kind() {
	case constant.String:
		if s := constant.StringVal(v); r.st.Words != nil && len(s) > 1 && len(s) < 80 && !strings.ContainsAny(s, "%\n") {
			r.st.Words[s] = true
		}
	case constant.Int:
		if u, ok := constant.Uint64Val(v); ok {
			r.st.Literals[u] = true
		} else if i, ok := constant.Int64Val(v); ok {
			r.st.Literals[uint64(i)] = true
		}
	}
}

var _ = strconv.Itoa
