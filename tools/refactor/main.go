// refactor rewrites a copy of the repository without changing what it does, so that
// the checks can be run on it and must stay quiet.
//
//	refactor DIR KIND [PKGSUFFIX…]
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var (
	fset *token.FileSet
	info *types.Info
	pkg  *packages.Package
	cnt  int
	tmp  int
)

func name(p string) string   { tmp++; return fmt.Sprintf("%s_%d", p, tmp) }
func id(s string) *ast.Ident { return ast.NewIdent(s) }

func main() {
	dir, kind := os.Args[1], os.Args[2]
	only := os.Args[3:]
	fset = token.NewFileSet()
	pkgs, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: dir, Fset: fset}, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			fmt.Println(p.Errors)
			os.Exit(2)
		}
		if strings.Contains(p.PkgPath, "/gen/") {
			continue
		}
		if len(only) > 0 {
			ok := false
			for _, o := range only {
				ok = ok || strings.HasSuffix(p.PkgPath, o)
			}
			if !ok {
				continue
			}
		}
		pkg, info = p, p.TypesInfo
		for i, f := range p.Syntax {
			src, _ := os.ReadFile(p.GoFiles[i])
			if bytes.Contains(src, []byte("go:embed")) || bytes.Contains(src, []byte("DO NOT EDIT")) {
				continue
			}
			before := cnt
			f.Comments = nil
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.FuncDecl:
					x.Doc = nil
				case *ast.GenDecl:
					x.Doc = nil
				case *ast.Field:
					x.Doc, x.Comment = nil, nil
				case *ast.ValueSpec:
					x.Doc, x.Comment = nil, nil
				case *ast.TypeSpec:
					x.Doc, x.Comment = nil, nil
				case *ast.ImportSpec:
					x.Doc, x.Comment = nil, nil
				}
				return true
			})
			kinds[kind](f)
			if cnt == before {
				continue
			}
			var b bytes.Buffer
			if err := printer.Fprint(&b, token.NewFileSet(), f); err != nil {
				panic(err)
			}
			out, err := format.Source(b.Bytes())
			if err != nil {
				fmt.Println(p.GoFiles[i], err)
				os.WriteFile("/tmp/bad.go", b.Bytes(), 0644)
				os.Exit(2)
			}
			os.WriteFile(p.GoFiles[i], out, 0644)
		}
	}
	fmt.Println(kind, cnt, "places")
}

var kinds = map[string]func(f *ast.File){
	"rename": rename, "invert": invert, "else": elseAfter, "index": indexLoops, "results": results,
	"args": args, "split": split, "ifchain": ifchain, "typeif": typeIf, "guard": guard, "flip": flip,
	"lens": lens, "lits": lits, "defers": defers, "early": early, "closure": closure, "named": named, "body": loopBody,
	"conds": conds, "dup": dup, "thunk": thunk, "extract": extract, "fields": fields, "cases": cases, "swap": swap,
	"rangify": rangify, "getter": getter, "caps": caps, "errw": errw, "debug": debugLog,
}

// unexported names of the repository
func rename(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		i, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		o := info.Defs[i]
		if o == nil {
			o = info.Uses[i]
		}
		if o == nil || o.Exported() || o.Pkg() == nil || !strings.Contains(o.Pkg().Path(), "requiemdb") || strings.Contains(o.Pkg().Path(), "/gen/") || i.Name == "_" || i.Name == "main" || i.Name == "init" {
			return true
		}
		if _, ok := o.(*types.PkgName); ok {
			return true
		}
		i.Name = i.Name + "Rn"
		cnt++
		return true
	})
	// symbolic variables of type switches have no object of their own
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.TypeSwitchStmt); ok {
			if a, ok := s.Assign.(*ast.AssignStmt); ok {
				i := a.Lhs[0].(*ast.Ident)
				if !strings.HasSuffix(i.Name, "Rn") {
					i.Name += "Rn"
				}
			}
		}
		return true
	})
}

func not(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return x.X
		}
	case *ast.ParenExpr:
		return not(x.X)
	case *ast.BinaryExpr:
		switch x.Op {
		case token.EQL:
			return &ast.BinaryExpr{X: x.X, Op: token.NEQ, Y: x.Y}
		case token.NEQ:
			return &ast.BinaryExpr{X: x.X, Op: token.EQL, Y: x.Y}
		}
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

// if c {A} else {B} => if !c {B} else {A};  if c {A} => if !c {} else {A}
func invert(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.IfStmt)
		if !ok {
			return true
		}
		switch e := s.Else.(type) {
		case *ast.BlockStmt:
			s.Cond, s.Body, s.Else = not(s.Cond), e, s.Body
			cnt++
		}
		return true
	})
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	_, ok := l[len(l)-1].(*ast.ReturnStmt)
	return ok
}

// if c { …return }; rest; return => if c { …return } else { rest; return }
func elseAfter(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		b, ok := n.(*ast.BlockStmt)
		if !ok {
			return true
		}
		for i := len(b.List) - 2; i >= 0; i-- {
			s, ok := b.List[i].(*ast.IfStmt)
			if !ok || s.Else != nil || !terminates(s.Body.List) || !terminates(b.List[i+1:]) && !allIf(b.List[i+1:]) {
				continue
			}
			if s.Init != nil { // scope of its variables
				b.List[i] = &ast.BlockStmt{List: []ast.Stmt{s.Init, s}}
				_ = 0
				b.List[i] = s
				continue
			}
			s.Else = &ast.BlockStmt{List: append([]ast.Stmt(nil), b.List[i+1:]...)}
			b.List = b.List[:i+1]
			cnt++
		}
		return true
	})
}

func allIf(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	s, ok := l[len(l)-1].(*ast.IfStmt)
	return ok && s.Else != nil && terminates(s.Body.List)
}

func isSlice(e ast.Expr) bool {
	t := info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// for i, x := range xs => ls := xs; for i := 0; i < len(ls); i++ { x := ls[i]
func indexLoops(f *ast.File) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		r, ok := c.Node().(*ast.RangeStmt)
		if !ok || r.Tok != token.DEFINE || !isSlice(r.X) || c.Index() < 0 {
			return true
		}
		if _, ok := c.Parent().(*ast.LabeledStmt); ok {
			return true
		}
		ls := name("ls")
		var k string
		if i, ok := r.Key.(*ast.Ident); ok && i.Name != "_" {
			k = i.Name
		} else {
			k = name("ix")
		}
		body := r.Body
		if v, ok := r.Value.(*ast.Ident); ok && v.Name != "_" {
			body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(ls), Index: id(k)}}}}, &ast.BlockStmt{List: body.List})
		}
		c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(ls)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.X}})
		c.Replace(&ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{id(k)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
			Cond: &ast.BinaryExpr{X: id(k), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{id(ls)}}},
			Post: &ast.IncDecStmt{X: id(k), Tok: token.INC},
			Body: body,
		})
		cnt++
		return true
	})
}

// return f(x) => r := f(x); return r
func results(f *ast.File) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		r, ok := c.Node().(*ast.ReturnStmt)
		if !ok || len(r.Results) != 1 || c.Index() < 0 {
			return true
		}
		call, ok := r.Results[0].(*ast.CallExpr)
		if !ok {
			return true
		}
		if tv, ok := info.Types[call.Fun]; !ok || tv.IsType() || tv.IsBuiltin() {
			return true
		}
		n := 1
		if t, ok := info.TypeOf(call).(*types.Tuple); ok {
			n = t.Len()
		}
		var lhs, res []ast.Expr
		for i := 0; i < n; i++ {
			v := name("r")
			lhs, res = append(lhs, id(v)), append(res, id(v))
		}
		c.InsertBefore(&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call}})
		c.Replace(&ast.ReturnStmt{Results: res})
		cnt++
		return true
	})
}

// f(g(x)) as a statement => t := g(x); f(t)
func args(f *ast.File) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.ExprStmt)
		if !ok || c.Index() < 0 {
			return true
		}
		call, ok := s.X.(*ast.CallExpr)
		if !ok {
			return true
		}
		if tv := info.Types[call.Fun]; tv.IsBuiltin() || tv.IsType() {
			return true
		}
		for i, a := range call.Args {
			in, ok := a.(*ast.CallExpr)
			if !ok {
				break // order of evaluation
			}
			if _, ok := info.TypeOf(in).(*types.Tuple); ok {
				break
			}
			v := name("a")
			c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{in}})
			call.Args[i] = id(v)
			cnt++
		}
		return true
	})
}

// func F(a T) R { body } => func F(a T) R { return fBody(a) }; func fBody(a T) R { body }
func split(f *ast.File) {
	var out []ast.Decl
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		out = append(out, d)
		if !ok || fd.Body == nil || fd.Type.TypeParams != nil || fd.Name.Name == "init" || fd.Name.Name == "main" || len(fd.Body.List) < 2 {
			continue
		}
		if fd.Recv != nil {
			if _, ok := recvBase(fd.Recv.List[0].Type).(*ast.Ident); !ok {
				continue
			}
		}
		var as []ast.Expr
		ell := token.NoPos
		for _, p := range fd.Type.Params.List {
			if len(p.Names) == 0 {
				p.Names = []*ast.Ident{id(name("p"))}
			}
			for i, n := range p.Names {
				if n.Name == "_" {
					p.Names[i] = id(name("p"))
				}
				as = append(as, id(p.Names[i].Name))
			}
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				ell = 1
			}
		}
		hn := "bodyOf_" + fd.Name.Name
		h := &ast.FuncDecl{Name: id(hn), Type: fd.Type, Body: fd.Body, Recv: fd.Recv}
		var fun ast.Expr = id(hn)
		if fd.Recv != nil {
			r := fd.Recv.List[0]
			if len(r.Names) == 0 || r.Names[0].Name == "_" {
				r.Names = []*ast.Ident{id(name("rc"))}
			}
			fun = &ast.SelectorExpr{X: id(r.Names[0].Name), Sel: id(hn)}
		} else {
			h.Name = id(hn + "Of")
			fun = id(hn + "Of")
		}
		call := &ast.CallExpr{Fun: fun, Args: as, Ellipsis: ell}
		var st ast.Stmt = &ast.ExprStmt{X: call}
		if fd.Type.Results != nil {
			st = &ast.ReturnStmt{Results: []ast.Expr{call}}
		}
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{st}}
		out = append(out, h)
		cnt++
	}
	f.Decls = out
}

func recvBase(e ast.Expr) ast.Expr {
	if s, ok := e.(*ast.StarExpr); ok {
		return s.X
	}
	return e
}

func hasBreak(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BranchStmt:
			if x.Tok == token.BREAK && x.Label == nil || x.Tok == token.FALLTHROUGH {
				found = true
			}
		case *ast.FuncLit:
			return false
		}
		return true
	})
	return found
}

// switch v { case a: … } => if v == a { … } else if …
func ifchain(f *ast.File) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.SwitchStmt)
		if !ok || hasBreak(s.Body) || c.Index() < 0 || len(s.Body.List) == 0 {
			return true
		}
		if _, ok := c.Parent().(*ast.LabeledStmt); ok {
			return true
		}
		var tag ast.Expr
		var pre []ast.Stmt
		if s.Init != nil {
			pre = append(pre, s.Init)
		}
		if s.Tag != nil {
			v := name("tag")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Tag}})
			tag = id(v)
		}
		var first, last *ast.IfStmt
		var def *ast.BlockStmt
		for _, cl := range s.Body.List {
			cc := cl.(*ast.CaseClause)
			if cc.List == nil {
				def = &ast.BlockStmt{List: cc.Body}
				continue
			}
			var cond ast.Expr
			for _, e := range cc.List {
				var t ast.Expr = e
				if tag != nil {
					t = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: e}
				} else if _, ok := e.(*ast.BinaryExpr); ok {
					t = &ast.ParenExpr{X: e}
				}
				if cond == nil {
					cond = t
				} else {
					cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: t}
				}
			}
			n := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cc.Body}}
			if first == nil {
				first = n
			} else {
				last.Else = n
			}
			last = n
		}
		if first == nil {
			return true
		}
		if def != nil {
			last.Else = def
		}
		for _, p := range pre {
			c.InsertBefore(p)
		}
		if s.Init != nil {
			return true
		}
		c.Replace(first)
		cnt++
		return true
	})
}

// switch e := x.(type) { case *A: … } => if e, ok := x.(*A); ok { … } else …
func typeIf(f *ast.File) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.TypeSwitchStmt)
		if !ok || hasBreak(s.Body) || s.Init != nil || c.Index() < 0 {
			return true
		}
		if _, ok := c.Parent().(*ast.LabeledStmt); ok {
			return true
		}
		v := ""
		var x ast.Expr
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			v = a.Lhs[0].(*ast.Ident).Name
			x = a.Rhs[0].(*ast.TypeAssertExpr).X
		case *ast.ExprStmt:
			x = a.X.(*ast.TypeAssertExpr).X
		}
		for _, cl := range s.Body.List {
			cc := cl.(*ast.CaseClause)
			if len(cc.List) > 1 {
				return true
			}
			if len(cc.List) == 1 {
				if i, ok := cc.List[0].(*ast.Ident); ok && i.Name == "nil" {
					return true
				}
			}
		}
		xs := name("x")
		var first, last *ast.IfStmt
		var def *ast.BlockStmt
		for _, cl := range s.Body.List {
			cc := cl.(*ast.CaseClause)
			uses := false
			if v != "" {
				o := info.Implicits[cc]
				for _, b := range cc.Body {
					ast.Inspect(b, func(n ast.Node) bool {
						if i, ok := n.(*ast.Ident); ok && o != nil && info.Uses[i] == o {
							uses = true
						}
						return true
					})
				}
			}
			if cc.List == nil {
				def = &ast.BlockStmt{List: cc.Body}
				if uses {
					def.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{id(xs)}}}, def.List...)
				}
				continue
			}
			w := "_"
			if uses {
				w = v
			}
			okv := name("ok")
			n := &ast.IfStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{id(w), id(okv)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: id(xs), Type: cc.List[0]}}},
				Cond: id(okv), Body: &ast.BlockStmt{List: cc.Body}}
			if first == nil {
				first = n
			} else {
				last.Else = n
			}
			last = n
		}
		if first == nil {
			return true
		}
		if def != nil {
			last.Else = def
		}
		c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(xs)}, Tok: token.DEFINE, Rhs: []ast.Expr{x}})
		c.Replace(first)
		cnt++
		return true
	})
}

// for … { if c { body } } => for … { if !c { continue }; body }
func guard(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch x := n.(type) {
		case *ast.ForStmt:
			b = x.Body
		case *ast.RangeStmt:
			b = x.Body
		default:
			return true
		}
		if len(b.List) == 0 {
			return true
		}
		s, ok := b.List[len(b.List)-1].(*ast.IfStmt)
		if !ok || s.Else != nil || s.Init != nil {
			return true
		}
		g := &ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}
		b.List = append(append(b.List[:len(b.List)-1:len(b.List)-1], g), s.Body.List...)
		cnt++
		return true
	})
}

// if c { continue }; rest => if !c { rest }
func early(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch x := n.(type) {
		case *ast.ForStmt:
			b = x.Body
		case *ast.RangeStmt:
			b = x.Body
		default:
			return true
		}
		for i := len(b.List) - 2; i >= 0; i-- {
			s, ok := b.List[i].(*ast.IfStmt)
			if !ok || s.Else != nil || s.Init != nil || len(s.Body.List) != 1 {
				continue
			}
			br, ok := s.Body.List[0].(*ast.BranchStmt)
			if !ok || br.Tok != token.CONTINUE || br.Label != nil {
				continue
			}
			b.List = append(b.List[:i:i], &ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: append([]ast.Stmt(nil), b.List[i+1:]...)}})
			cnt++
		}
		return true
	})
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if i, is := x.Fun.(*ast.Ident); !is || i.Name != "len" {
				ok = false
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// a == b => b == a
func flip(f *ast.File) {
	m := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
	ast.Inspect(f, func(n ast.Node) bool {
		b, ok := n.(*ast.BinaryExpr)
		if !ok {
			return true
		}
		op, ok := m[b.Op]
		if !ok || !pure(b.X) || !pure(b.Y) {
			return true
		}
		b.X, b.Y, b.Op = paren(b.Y), paren(b.X), op
		cnt++
		return true
	})
}

func paren(e ast.Expr) ast.Expr {
	if _, ok := e.(*ast.BinaryExpr); ok {
		return &ast.ParenExpr{X: e}
	}
	return e
}

func isLen(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	i, ok := c.Fun.(*ast.Ident)
	return ok && i.Name == "len"
}

// s == "" => len(s) == 0; len(x) == 0 => len(x) < 1; len(x) > 0 => len(x) != 0
func lens(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		b, ok := n.(*ast.BinaryExpr)
		if !ok {
			return true
		}
		l, ok := b.Y.(*ast.BasicLit)
		if !ok {
			return true
		}
		switch {
		case l.Value == `""` && (b.Op == token.EQL || b.Op == token.NEQ):
			b.X = &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{b.X}}
			b.Y = &ast.BasicLit{Kind: token.INT, Value: "0"}
			cnt++
		case l.Value == "0" && isLen(b.X):
			switch b.Op {
			case token.EQL:
				b.Op, b.Y = token.LSS, &ast.BasicLit{Kind: token.INT, Value: "1"}
				cnt++
			case token.GTR:
				b.Op = token.NEQ
				cnt++
			case token.NEQ:
				b.Op = token.GTR
				cnt++
			}
		}
		return true
	})
}

// x := &T{A: a} => x := new(T); x.A = a
func lits(f *ast.File) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		a, ok := c.Node().(*ast.AssignStmt)
		if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 || c.Index() < 0 {
			return true
		}
		u, ok := a.Rhs[0].(*ast.UnaryExpr)
		if !ok || u.Op != token.AND {
			return true
		}
		l, ok := u.X.(*ast.CompositeLit)
		if !ok {
			return true
		}
		if _, ok := info.TypeOf(l).Underlying().(*types.Struct); !ok {
			return true
		}
		x := a.Lhs[0].(*ast.Ident)
		for _, e := range l.Elts {
			if _, ok := e.(*ast.KeyValueExpr); !ok {
				return true
			}
			bad := false
			ast.Inspect(e.(*ast.KeyValueExpr).Value, func(n ast.Node) bool {
				if i, ok := n.(*ast.Ident); ok && i.Name == x.Name {
					bad = true
				}
				return true
			})
			if bad {
				return true
			}
		}
		for i := len(l.Elts) - 1; i >= 0; i-- {
			kv := l.Elts[i].(*ast.KeyValueExpr)
			c.InsertAfter(&ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id(x.Name), Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
		}
		a.Rhs[0] = &ast.CallExpr{Fun: id("new"), Args: []ast.Expr{l.Type}}
		cnt++
		return true
	})
}

// defer x.F() => defer func() { x.F() }()
func defers(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		d, ok := n.(*ast.DeferStmt)
		if !ok || len(d.Call.Args) != 0 {
			return true
		}
		s, ok := d.Call.Fun.(*ast.SelectorExpr)
		if !ok || !pure(s.X) {
			return true
		}
		d.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: s}}}}}}
		cnt++
		return true
	})
}

// loops whose body does not leave it: the body becomes a function
func loopBody(f *ast.File) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		r, ok := c.Node().(*ast.RangeStmt)
		if !ok || r.Tok != token.DEFINE || c.Index() < 0 {
			return true
		}
		if _, ok := c.Parent().(*ast.LabeledStmt); ok {
			return true
		}
		leaves := false
		ast.Inspect(r.Body, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.BranchStmt, *ast.ReturnStmt, *ast.DeferStmt:
				leaves = true
			case *ast.FuncLit:
				return false
			}
			return true
		})
		if leaves {
			return true
		}
		ps := &ast.FieldList{}
		var as []ast.Expr
		for _, e := range []ast.Expr{r.Key, r.Value} {
			if i, ok := e.(*ast.Ident); ok && i.Name != "_" {
				ps.List = append(ps.List, &ast.Field{Names: []*ast.Ident{id(i.Name)}, Type: typeExpr(info.TypeOf(i))})
				if ps.List[len(ps.List)-1].Type == nil {
					ps = nil
					break
				}
				as = append(as, id(i.Name))
			}
		}
		if ps == nil {
			return true
		}
		fn := name("fn")
		c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(fn)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: ps}, Body: &ast.BlockStmt{List: []ast.Stmt{r.Body}}}}})
		r.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: id(fn), Args: as}}}}
		cnt++
		return true
	})
}

// the expression of a type in the current package
func typeExpr(t types.Type) ast.Expr {
	bad := false
	s := types.TypeString(t, func(p *types.Package) string {
		if p == pkg.Types {
			return ""
		}
		if n := importName(p); n != "" {
			return n
		}
		bad = true
		return "?"
	})
	if bad || strings.Contains(s, "?") {
		return nil
	}
	return id(s)
}

var curFile *ast.File

func importName(p *types.Package) string {
	for _, i := range curFile.Imports {
		if strings.Trim(i.Path.Value, `"`) == p.Path() {
			if i.Name != nil {
				return i.Name.Name
			}
			return p.Name()
		}
	}
	return ""
}

func init() {
	for k, fn := range kinds {
		fn := fn
		kinds[k] = func(f *ast.File) { curFile = f; fn(f) }
	}
}

// functions with statements: the whole body becomes a closure that is called
func closure(f *ast.File) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || len(fd.Body.List) < 2 || fd.Name.Name == "init" {
			continue
		}
		if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 && len(fd.Type.Results.List[0].Names) > 0 {
			continue
		}
		rec := false
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if i, ok := n.(*ast.Ident); ok && i.Name == "recover" {
				rec = true
			}
			return true
		})
		if rec {
			continue
		}
		v := name("fn")
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: fd.Type.Results}, Body: fd.Body}
		call := &ast.CallExpr{Fun: id(v)}
		var st ast.Stmt = &ast.ExprStmt{X: call}
		if fd.Type.Results != nil {
			st = &ast.ReturnStmt{Results: []ast.Expr{call}}
		}
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{lit}}, st}}
		cnt++
	}
}

// unnamed results get names, and return x => r = x; return
func named(f *ast.File) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Type.Results == nil {
			continue
		}
		ok = true
		var ns []ast.Expr
		for _, r := range fd.Type.Results.List {
			if len(r.Names) > 0 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		for _, r := range fd.Type.Results.List {
			v := name("res")
			r.Names = []*ast.Ident{id(v)}
			ns = append(ns, id(v))
		}
		astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
			_, lit := c.Node().(*ast.FuncLit)
			return !lit
		}, func(c *astutil.Cursor) bool {
			r, ok := c.Node().(*ast.ReturnStmt)
			if !ok || c.Index() < 0 || len(r.Results) == 0 {
				return true
			}
			var lhs []ast.Expr
			for _, n := range ns {
				lhs = append(lhs, id(n.(*ast.Ident).Name))
			}
			c.InsertBefore(&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: r.Results})
			c.Replace(&ast.ReturnStmt{})
			return true
		})
		cnt++
	}
}

// if a && b { X } => if a { if b { X } };  if a || b => variable
func conds(f *ast.File) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || c.Index() < 0 {
			return true
		}
		b, ok := s.Cond.(*ast.BinaryExpr)
		if !ok {
			return true
		}
		switch {
		case b.Op == token.LAND && s.Else == nil:
			s.Cond = b.X
			s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
			cnt++
		case s.Init == nil:
			v := name("c")
			c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{b}})
			s.Cond = id(v)
			cnt++
		}
		return true
	})
}

// variables are copied before use: x := f() => t := f(); x := t
func dup(f *ast.File) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		a, ok := c.Node().(*ast.AssignStmt)
		if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 || c.Index() < 0 {
			return true
		}
		if tv := info.Types[a.Rhs[0]]; tv.Value != nil || tv.IsNil() {
			return true
		}
		v := name("t")
		c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: a.Rhs})
		a.Rhs = []ast.Expr{id(v)}
		cnt++
		return true
	})
}

func controls(l []ast.Stmt) bool {
	bad := false
	for _, s := range l {
		ast.Inspect(s, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.BranchStmt, *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
				bad = true
			case *ast.FuncLit:
				return false
			}
			return true
		})
	}
	return bad
}

// bodies of ifs and loops become closures that are called
func thunk(f *ast.File) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		b, ok := c.Node().(*ast.BlockStmt)
		if !ok || len(b.List) == 0 || controls(b.List) {
			return true
		}
		switch c.Parent().(type) {
		case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: b}}}}})
			cnt++
		}
		return true
	})
}

// bodies of ifs and loops become functions, when they only read variables
func extract(f *ast.File) {
	var more []ast.Decl
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Type.TypeParams != nil {
			continue
		}
		if fd.Recv != nil {
			if _, ok := recvBase(fd.Recv.List[0].Type).(*ast.Ident); !ok {
				continue
			}
		}
		astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
			b, ok := c.Node().(*ast.BlockStmt)
			if !ok || len(b.List) == 0 || controls(b.List) {
				return true
			}
			switch c.Parent().(type) {
			case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
			default:
				return true
			}
			seen := map[types.Object]string{}
			var order []types.Object
			bad := false
			written := func(e ast.Expr) {
				for {
					switch x := e.(type) {
					case *ast.ParenExpr:
						e = x.X
						continue
					case *ast.SelectorExpr:
						if _, ok := info.TypeOf(x.X).Underlying().(*types.Pointer); ok {
							return
						}
						e = x.X
						continue
					case *ast.IndexExpr:
						switch info.TypeOf(x.X).Underlying().(type) {
						case *types.Array:
							e = x.X
							continue
						}
						return
					case *ast.Ident:
						o := info.Uses[x]
						if o == nil {
							return
						}
						if o.Pos() < b.Pos() || o.Pos() > b.End() {
							bad = true
						}
					}
					return
				}
			}
			ast.Inspect(b, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					for _, l := range x.Lhs {
						written(l)
					}
				case *ast.IncDecStmt:
					written(x.X)
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						written(x.X)
					}
				case *ast.CallExpr:
					// methods with pointer receivers on variables
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						if sel := info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
							if sg, ok := sel.Obj().Type().(*types.Signature); ok && sg.Recv() != nil {
								if _, ptr := sg.Recv().Type().(*types.Pointer); ptr {
									if _, isPtr := info.TypeOf(s.X).Underlying().(*types.Pointer); !isPtr {
										written(s.X)
									}
								}
							}
						}
					}
				case *ast.RangeStmt:
					if x.Tok == token.ASSIGN {
						bad = true
					}
				case *ast.Ident:
					v, ok := info.Uses[x].(*types.Var)
					if !ok || v.IsField() || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() {
						return true
					}
					if v.Pos() >= b.Pos() && v.Pos() <= b.End() {
						return true
					}
					if _, ok := seen[v]; !ok {
						seen[v] = x.Name
						order = append(order, v)
					}
				}
				return true
			})
			if bad || len(order) == 0 {
				return true
			}
			ps := &ast.FieldList{}
			var as []ast.Expr
			for _, o := range order {
				te := typeExpr(o.Type())
				if te == nil || strings.Contains(te.(*ast.Ident).Name, "struct{") {
					return true
				}
				if n, ok := o.Type().(*types.Named); ok {
					if _, st := n.Underlying().(*types.Struct); st {
						return true // a copy
					}
				}
				ps.List = append(ps.List, &ast.Field{Names: []*ast.Ident{id(seen[o])}, Type: te})
				as = append(as, id(seen[o]))
			}
			for o := range seen {
				if _, ok := o.Type().Underlying().(*types.Array); ok {
					return true
				}
			}
			fn := name("step")
			more = append(more, &ast.FuncDecl{Name: id(fn), Type: &ast.FuncType{Params: ps}, Body: b})
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: id(fn), Args: as}}}})
			cnt++
			return false
		}, nil)
	}
	f.Decls = append(f.Decls, more...)
}

// fields of struct literals in another order
func fields(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		l, ok := n.(*ast.CompositeLit)
		if !ok || len(l.Elts) < 2 {
			return true
		}
		if t := info.TypeOf(l); t == nil {
			return true
		} else if p, ok := t.Underlying().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Struct); !ok {
				return true
			}
		} else if _, ok := t.Underlying().(*types.Struct); !ok {
			return true
		}
		calls := 0
		for _, e := range l.Elts {
			kv, ok := e.(*ast.KeyValueExpr)
			if !ok {
				return true
			}
			if !pure(kv.Value) {
				calls++
			}
		}
		if calls > 1 {
			return true
		}
		for i, j := 0, len(l.Elts)-1; i < j; i, j = i+1, j-1 {
			l.Elts[i], l.Elts[j] = l.Elts[j], l.Elts[i]
		}
		cnt++
		return true
	})
}

// cases in another order, for type switches on concrete types and switches over constants
func cases(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch x := n.(type) {
		case *ast.SwitchStmt:
			if x.Tag == nil {
				return true
			}
			b = x.Body
		case *ast.TypeSwitchStmt:
			b = x.Body
		default:
			return true
		}
		for _, cl := range b.List {
			for _, e := range cl.(*ast.CaseClause).List {
				tv := info.Types[e]
				if tv.IsType() {
					if types.IsInterface(tv.Type) {
						return true
					}
				} else if tv.Value == nil && !tv.IsNil() {
					return true
				}
			}
		}
		ft := false
		ast.Inspect(b, func(n ast.Node) bool {
			if br, ok := n.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				ft = true
			}
			return true
		})
		if ft {
			return true
		}
		for i, j := 0, len(b.List)-1; i < j; i, j = i+1, j-1 {
			b.List[i], b.List[j] = b.List[j], b.List[i]
		}
		cnt++
		return true
	})
}

// neighbours that do not depend on each other change places
func swap(f *ast.File) {
	simple := func(s ast.Stmt) (def, use map[string]bool, ok bool) {
		a, is := s.(*ast.AssignStmt)
		if !is || a.Tok != token.DEFINE && a.Tok != token.ASSIGN {
			return
		}
		def, use = map[string]bool{}, map[string]bool{}
		for _, l := range a.Lhs {
			switch x := l.(type) {
			case *ast.Ident:
				def[x.Name] = true
			case *ast.SelectorExpr:
				i, ok := x.X.(*ast.Ident)
				if !ok {
					return nil, nil, false
				}
				if a.Tok == token.DEFINE {
					return nil, nil, false
				}
				def[i.Name+"."+x.Sel.Name] = true
				use[i.Name] = true
			default:
				return nil, nil, false
			}
		}
		for _, r := range a.Rhs {
			if _, lit := r.(*ast.FuncLit); lit || !pure(r) {
				return nil, nil, false
			}
			ast.Inspect(r, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.SelectorExpr:
					if i, ok := x.X.(*ast.Ident); ok {
						use[i.Name+"."+x.Sel.Name] = true
					}
				case *ast.Ident:
					use[x.Name] = true
				}
				return true
			})
		}
		return def, use, true
	}
	ast.Inspect(f, func(n ast.Node) bool {
		b, ok := n.(*ast.BlockStmt)
		if !ok {
			return true
		}
		for i := 0; i+1 < len(b.List); i++ {
			d1, u1, ok1 := simple(b.List[i])
			d2, u2, ok2 := simple(b.List[i+1])
			if !ok1 || !ok2 {
				continue
			}
			dep := false
			for k := range d1 {
				dep = dep || u2[k] || d2[k]
			}
			for k := range d2 {
				dep = dep || u1[k]
			}
			if dep {
				continue
			}
			b.List[i], b.List[i+1] = b.List[i+1], b.List[i]
			cnt++
			i++
		}
		return true
	})
}

// for i := 0; i < len(xs); i++ => for i := range xs;  for _, x := range xs => for i := range xs { x := xs[i]
func rangify(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		r, ok := n.(*ast.RangeStmt)
		if !ok || r.Tok != token.DEFINE || !isSlice(r.X) || !pure(r.X) {
			return true
		}
		v, ok := r.Value.(*ast.Ident)
		if !ok || v.Name == "_" {
			return true
		}
		k, ok := r.Key.(*ast.Ident)
		if !ok || k.Name == "_" {
			k = id(name("ix"))
			r.Key = k
		}
		assigned := false
		ast.Inspect(r.Body, func(n ast.Node) bool {
			if a, ok := n.(*ast.AssignStmt); ok {
				for _, l := range a.Lhs {
					if src(l) == src(r.X) {
						assigned = true
					}
				}
			}
			return true
		})
		if assigned {
			return true
		}
		r.Value = nil
		r.Body = &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{id(v.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: r.X, Index: id(k.Name)}}},
			&ast.BlockStmt{List: r.Body.List}}}
		cnt++
		return true
	})
}

func src(n ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, token.NewFileSet(), n)
	return b.String()
}

// m.F => m.GetF() where messages are read
func getter(f *ast.File) {
	astutil.Apply(f, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.AssignStmt:
			_ = x
		}
		return true
	}, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.SelectorExpr)
		if !ok {
			return true
		}
		sel := info.Selections[s]
		if sel == nil || sel.Kind() != types.FieldVal || len(sel.Index()) != 1 {
			return true
		}
		o := sel.Obj()
		if o.Pkg() == nil || !strings.Contains(o.Pkg().Path(), "/gen/") {
			return true
		}
		p, ok := info.TypeOf(s.X).(*types.Pointer)
		if !ok {
			return true
		}
		m, _, _ := types.LookupFieldOrMethod(p, true, o.Pkg(), "Get"+o.Name())
		fn, ok := m.(*types.Func)
		if !ok || !types.Identical(fn.Type().(*types.Signature).Results().At(0).Type(), o.Type()) {
			return true
		}
		switch q := c.Parent().(type) {
		case *ast.AssignStmt:
			for _, l := range q.Lhs {
				if l == s {
					return true
				}
			}
		case *ast.UnaryExpr:
			if q.Op == token.AND {
				return true
			}
		case *ast.IncDecStmt:
			return true
		case *ast.IndexExpr, *ast.SelectorExpr, *ast.SliceExpr:
			// may be written through; slices and pointers are the same either way
			if _, ok := o.Type().Underlying().(*types.Slice); !ok {
				if _, ok := o.Type().Underlying().(*types.Pointer); !ok {
					if _, ok := o.Type().Underlying().(*types.Interface); !ok {
						return true
					}
				}
			}
		}
		c.Replace(&ast.CallExpr{Fun: &ast.SelectorExpr{X: s.X, Sel: id("Get" + o.Name())}})
		cnt++
		return true
	})
}

// make([]T, 0, n) => make([]T, 0)
func caps(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok || len(c.Args) != 3 || !pure(c.Args[2]) {
			return true
		}
		if i, ok := c.Fun.(*ast.Ident); ok && i.Name == "make" && src(c.Args[1]) == "0" && !strings.Contains(src(c.Args[2]), "cols") {
			c.Args = c.Args[:2]
			cnt++
		}
		return true
	})
}

// return err => return fmt.Errorf("…: %w", err)
func errw(f *ast.File) {
	before := cnt
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.IfStmt)
		if !ok || src(s.Cond) != "err != nil" || len(s.Body.List) == 0 {
			return true
		}
		r, ok := s.Body.List[len(s.Body.List)-1].(*ast.ReturnStmt)
		if !ok || len(r.Results) == 0 || src(r.Results[len(r.Results)-1]) != "err" {
			return true
		}
		r.Results[len(r.Results)-1] = &ast.CallExpr{Fun: &ast.SelectorExpr{X: id("fmt"), Sel: id("Errorf")}, Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"failed: %w"`}, id("err")}}
		cnt++
		return true
	})
	if cnt > before {
		astutil.AddImport(fset, f, "fmt")
	}
}

// a debug message in every function
func debugLog(f *ast.File) {
	before := cnt
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || len(fd.Body.List) < 2 {
			continue
		}
		fd.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: id("slog"), Sel: id("Debug")}, Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", fd.Name.Name)}}}}}, fd.Body.List...)
		cnt++
	}
	if cnt > before {
		astutil.AddImport(fset, f, "log/slog")
	}
}
