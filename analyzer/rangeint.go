package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/packages"
)

// lowerRangeInt rewrites, in the type-checked syntax, the loops over an integer
//
//	for i := range n { … }
//
// as the counting loops they stand for
//
//	n_ := n
//	for i := T(0); i < n_; i++ { … }
//
// so that both spellings give the same intermediate representation. A loop is
// left alone when its body changes the variable (the two then differ).
func lowerRangeInt(p *packages.Package) {
	info := p.TypesInfo
	rewrite := func(s ast.Stmt) []ast.Stmt {
		var lab *ast.LabeledStmt
		in := s
		if l, ok := s.(*ast.LabeledStmt); ok {
			lab, in = l, l.Stmt
		}
		r, ok := in.(*ast.RangeStmt)
		if !ok || r.Value != nil || (r.Key != nil && r.Tok != token.DEFINE) {
			return nil
		}
		bt, ok := info.TypeOf(r.X).Underlying().(*types.Basic)
		if !ok || bt.Info()&types.IsInteger == 0 {
			return nil
		}
		pos := r.X.Pos()
		var v types.Object
		key, _ := r.Key.(*ast.Ident)
		if r.Key != nil && key == nil {
			return nil
		}
		if key != nil && key.Name != "_" {
			v = info.Defs[key]
			if v == nil {
				return nil
			}
			if assigned(info, r.Body, v) {
				return nil
			}
		}
		t := info.TypeOf(r.X)
		if v != nil {
			t = v.Type()
		}
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			t = types.Typ[types.Int]
		}
		if v == nil {
			key = &ast.Ident{NamePos: pos, Name: "i_"}
			v = types.NewVar(pos, p.Types, "i_", t)
			info.Defs[key] = v
		}
		nv := types.NewVar(pos, p.Types, "n_", t)
		nd := &ast.Ident{NamePos: pos, Name: "n_"}
		info.Defs[nd] = nv
		use := func(o types.Object) *ast.Ident {
			id := &ast.Ident{NamePos: pos, Name: o.Name()}
			info.Uses[id] = o
			info.Types[id] = types.TypeAndValue{Type: t}
			return id
		}
		zero := &ast.BasicLit{ValuePos: pos, Kind: token.INT, Value: "0"}
		info.Types[zero] = types.TypeAndValue{Type: t, Value: constant.MakeInt64(0)}
		cond := &ast.BinaryExpr{X: use(v), OpPos: pos, Op: token.LSS, Y: use(nv)}
		info.Types[cond] = types.TypeAndValue{Type: types.Typ[types.Bool]}
		loop := &ast.ForStmt{
			For:  r.For,
			Init: &ast.AssignStmt{Lhs: []ast.Expr{key}, TokPos: pos, Tok: token.DEFINE, Rhs: []ast.Expr{zero}},
			Cond: cond,
			Post: &ast.IncDecStmt{X: use(v), TokPos: pos, Tok: token.INC},
			Body: r.Body,
		}
		out := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{nd}, TokPos: pos, Tok: token.DEFINE, Rhs: []ast.Expr{r.X}}}
		if lab != nil {
			lab.Stmt = loop
			return append(out, lab)
		}
		return append(out, loop)
	}
	list := func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if r := rewrite(s); r != nil {
				out = append(out, r...)
			} else {
				out = append(out, s)
			}
		}
		return out
	}
	for _, f := range p.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				n.List = list(n.List)
			case *ast.CaseClause:
				n.Body = list(n.Body)
			case *ast.CommClause:
				n.Body = list(n.Body)
			}
			return true
		})
	}
}

// assigned reports whether n assigns v or takes its address.
func assigned(info *types.Info, n ast.Node, v types.Object) bool {
	is := func(x ast.Expr) bool {
		id, ok := ast.Unparen(x).(*ast.Ident)
		return ok && info.Uses[id] == v
	}
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, x := range n.Lhs {
				found = found || is(x)
			}
		case *ast.RangeStmt:
			found = found || (n.Key != nil && is(n.Key)) || (n.Value != nil && is(n.Value))
		case *ast.IncDecStmt:
			found = found || is(n.X)
		case *ast.UnaryExpr:
			found = found || (n.Op == token.AND && is(n.X))
		}
		return !found
	})
	return found
}

// lowerCaptured rewrites loops whose variable is captured by a function in the body
// and changed by the loop only,
//
//	for i := a; c(i); p(i) { … func() { … i … } … }
//
// with one variable that counts and one that is captured, which every iteration has
// its own of anyway:
//
//	for i_ := a; c(i_); p(i_) { i := i_; … }
func lowerCaptured(p *packages.Package) {
	info := p.TypesInfo
	lower := func(f *ast.ForStmt) {
		init, ok := f.Init.(*ast.AssignStmt)
		if !ok || init.Tok != token.DEFINE {
			return
		}
		for _, x := range init.Lhs {
			id, ok := x.(*ast.Ident)
			if !ok {
				continue
			}
			v, ok := info.Defs[id].(*types.Var)
			if !ok || !usedInFunc(info, f.Body, v) || assigned(info, f.Body, v) {
				continue
			}
			if f.Cond != nil && usedInFunc(info, f.Cond, v) || f.Post != nil && usedInFunc(info, f.Post, v) {
				continue
			}
			w := types.NewVar(id.Pos(), p.Types, v.Name(), v.Type())
			info.Defs[id] = w
			for _, n := range []ast.Node{f.Cond, f.Post} {
				if n == nil || n == ast.Expr(nil) || n == ast.Stmt(nil) {
					continue
				}
				ast.Inspect(n, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok && info.Uses[id] == types.Object(v) {
						info.Uses[id] = w
					}
					return true
				})
			}
			def := &ast.Ident{NamePos: id.Pos(), Name: v.Name()}
			use := &ast.Ident{NamePos: id.Pos(), Name: v.Name()}
			info.Defs[def] = v
			info.Uses[use] = w
			info.Types[use] = types.TypeAndValue{Type: v.Type()}
			own := &ast.AssignStmt{Lhs: []ast.Expr{def}, TokPos: id.Pos(), Tok: token.DEFINE, Rhs: []ast.Expr{use}}
			f.Body.List = append([]ast.Stmt{own}, f.Body.List...)
		}
	}
	for _, f := range p.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			if n, ok := n.(*ast.ForStmt); ok {
				lower(n)
			}
			return true
		})
	}
}

// usedInFunc: a function in n uses v.
func usedInFunc(info *types.Info, n ast.Node, v types.Object) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok {
			ast.Inspect(fl, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && info.Uses[id] == v {
					found = true
				}
				return !found
			})
		}
		return !found
	})
	return found
}
