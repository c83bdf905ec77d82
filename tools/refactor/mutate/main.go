// mutate DIR FILE…: lists small changes of the given files, one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
)

type mut struct {
	File, Op, Old, New string
	Off, End, Line     int
	Func               string
}

func main() {
	dir := os.Args[1]
	want := map[string]bool{}
	for _, f := range os.Args[2:] {
		want[f] = true
	}
	fset := token.NewFileSet()
	pkgs, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: dir, Fset: fset}, "./...")
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, p := range pkgs {
		info := p.TypesInfo
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			rel := strings.TrimPrefix(name, dir+"/")
			if len(want) > 0 && !want[rel] || strings.Contains(rel, "gen/") {
				continue
			}
			content, _ := os.ReadFile(name)
			if strings.Contains(string(content), "DO NOT EDIT") {
				continue
			}
			off := func(q token.Pos) int { return fset.Position(q).Offset }
			text := func(n ast.Node) string { return string(content[off(n.Pos()):off(n.End())]) }
			fn := ""
			emit := func(op string, a, b token.Pos, nw string) {
				o, e := off(a), off(b)
				if string(content[o:e]) == nw {
					return
				}
				enc.Encode(mut{rel, op, string(content[o:e]), nw, o, e, fset.Position(a).Line, fn})
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				fn = fd.Name.Name
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.IfStmt:
						emit("negate", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
						emit("never", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
						emit("always", x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
					case *ast.BinaryExpr:
						m := map[token.Token]string{token.LAND: "||", token.LOR: "&&", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-", token.SUB: "+", token.MUL: "+", token.QUO: "*", token.REM: "/"}
						if s, ok := m[x.Op]; ok {
							if t, ok := info.TypeOf(x).Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 {
								break
							}
							emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
						}
					case *ast.BranchStmt:
						if x.Label == nil {
							switch x.Tok {
							case token.CONTINUE:
								emit("break", x.Pos(), x.End(), "break")
							case token.BREAK:
								emit("continue", x.Pos(), x.End(), "continue")
							}
							emit("nobranch", x.Pos(), x.End(), "")
						}
					case *ast.ExprStmt:
						emit("drop", x.Pos(), x.End(), "")
					case *ast.DeferStmt:
						emit("nodefer", x.Pos(), x.End(), "")
						emit("now", x.Pos(), x.Call.Pos(), "")
					case *ast.GoStmt:
						emit("nogo", x.Pos(), x.Call.Pos(), "")
					case *ast.AssignStmt:
						if x.Tok == token.ASSIGN {
							emit("drop", x.Pos(), x.End(), "")
						}
						if x.Tok == token.DEFINE && len(x.Lhs) == 1 {
							if lit, ok := x.Rhs[0].(*ast.BasicLit); ok && lit.Kind == token.INT {
								break
							}
						}
					case *ast.IncDecStmt:
						emit("drop", x.Pos(), x.End(), "")
					case *ast.BasicLit:
						switch x.Kind {
						case token.INT:
							if x.Value == "0" {
								emit("const", x.Pos(), x.End(), "1")
							} else {
								emit("const", x.Pos(), x.End(), x.Value+"+1")
							}
						case token.STRING:
							if len(x.Value) > 2 {
								emit("str", x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"x"+x.Value[len(x.Value)-1:])
							}
						}
					case *ast.KeyValueExpr:
						emit("nofield", x.Pos(), x.End()+1, "")
					case *ast.SelectorExpr:
						sel := info.Selections[x]
						if sel == nil {
							// constants of the same type
							if c, ok := info.Uses[x.Sel].(*types.Const); ok && c.Pkg() != nil {
								sc := c.Pkg().Scope()
								k := 0
								for _, nm := range sc.Names() {
									if o, ok := sc.Lookup(nm).(*types.Const); ok && o != c && o.Exported() && types.Identical(o.Type(), c.Type()) && o.Val() != c.Val() {
										if b, ok := c.Type().(*types.Named); ok && b != nil && k < 2 {
											emit("constant", x.Sel.Pos(), x.Sel.End(), nm)
											k++
										}
									}
								}
							}
							break
						}
						// another field or method of the same type
						switch sel.Kind() {
						case types.FieldVal:
							t := sel.Recv()
							if q, ok := t.Underlying().(*types.Pointer); ok {
								t = q.Elem()
							}
							st, ok := t.Underlying().(*types.Struct)
							if !ok {
								break
							}
							k := 0
							for i := 0; i < st.NumFields(); i++ {
								fl := st.Field(i)
								if fl.Name() != x.Sel.Name && types.Identical(fl.Type(), sel.Type()) && (fl.Exported() || fl.Pkg() == p.Types) && k < 2 {
									emit("field", x.Sel.Pos(), x.Sel.End(), fl.Name())
									k++
								}
							}
						case types.MethodVal:
							ms := types.NewMethodSet(sel.Recv())
							k := 0
							for i := 0; i < ms.Len(); i++ {
								o := ms.At(i).Obj()
								if o.Name() != x.Sel.Name && (o.Exported() || o.Pkg() == p.Types) && types.Identical(ms.At(i).Type(), sel.Type()) && k < 2 && !strings.HasPrefix(o.Name(), "XXX") {
									emit("method", x.Sel.Pos(), x.Sel.End(), o.Name())
									k++
								}
							}
						}
					case *ast.CallExpr:
						for i := 0; i+1 < len(x.Args); i++ {
							if ta, tb := info.TypeOf(x.Args[i]), info.TypeOf(x.Args[i+1]); ta != nil && tb != nil && types.Identical(ta, tb) && text(x.Args[i]) != text(x.Args[i+1]) {
								emit("args", x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]))
							}
						}
					case *ast.ReturnStmt:
						if len(x.Results) > 0 {
							l := x.Results[len(x.Results)-1]
							if t := info.TypeOf(l); t != nil && t.String() == "error" && text(l) != "nil" {
								emit("noerr", l.Pos(), l.End(), "nil")
							}
							if t := info.TypeOf(l); t != nil && types.Identical(t, types.Typ[types.Bool]) {
								emit("negret", l.Pos(), l.End(), "!("+text(l)+")")
							}
						}
					case *ast.Ident:
						// another local of the same type
						v, ok := info.Uses[x].(*types.Var)
						if !ok || v.IsField() || v.Parent() == nil || v.Pkg() != p.Types || v.Parent() == p.Types.Scope() {
							break
						}
						k := 0
						for sc := v.Parent(); sc != nil && sc != p.Types.Scope() && k < 1; sc = sc.Parent() {
							for _, nm := range sc.Names() {
								o, ok := sc.Lookup(nm).(*types.Var)
								if ok && o != v && o.Pos() < x.Pos() && types.Identical(o.Type(), v.Type()) && nm != "_" && k < 1 {
									emit("var", x.Pos(), x.End(), nm)
									k++
								}
							}
						}
					}
					return true
				})
			}
		}
	}
	fmt.Fprint(os.Stderr, "")
}
