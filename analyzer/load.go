package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type checked repository together with its SSA form.
type Program struct {
	Dir     string
	Mod     string
	Pkgs    []*packages.Package
	Prog    *ssa.Program
	Fset    *token.FileSet
	byPath  map[string]*ssa.Package
	globals map[string]*ssa.Global
	mutated map[*ssa.Global]bool
	files   map[*ssa.Global]string // embedded file
	All     []*ssa.Function // functions of the repository, generated code excluded
	gen     map[string]bool // packages that only hold generated code
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Dir: dir, byPath: map[string]*ssa.Package{}, globals: map[string]*ssa.Global{}, mutated: map[*ssa.Global]bool{}, files: map[*ssa.Global]string{}, gen: map[string]bool{}}
	for _, x := range ps {
		if len(x.Errors) > 0 {
			return nil, fmt.Errorf("package %s does not type check: %v", x.PkgPath, x.Errors[0])
		}
		if x.Module != nil && p.Mod == "" {
			p.Mod = x.Module.Path
		}
		p.Fset = x.Fset
	}
	if len(ps) < 20 {
		return nil, fmt.Errorf("only %d packages found", len(ps))
	}
	p.Pkgs = ps
	for _, x := range ps {
		lowerRangeInt(x)
		lowerCaptured(x)
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	for i, sp := range sps {
		if sp == nil {
			return nil, fmt.Errorf("no ssa for %s", ps[i].PkgPath)
		}
		p.byPath[sp.Pkg.Path()] = sp
		gen := len(ps[i].Syntax) > 0
		for _, f := range ps[i].Syntax {
			if !ast.IsGenerated(f) {
				gen = false
			}
		}
		p.gen[sp.Pkg.Path()] = gen
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				p.globals[sp.Pkg.Path()+"."+g.Name()] = g
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		pk := fnPkg(fn)
		if pk == nil || !p.isRepo(pk) || p.gen[pk.Path()] || fn.Blocks == nil {
			continue
		}
		p.All = append(p.All, fn)
	}
	sort.Slice(p.All, func(i, j int) bool {
		a, b := p.All[i].String(), p.All[j].String()
		if a != b {
			return a < b
		}
		return p.All[i].Pos() < p.All[j].Pos()
	})
	p.embedded()
	// package variables assigned outside of initialisation
	for _, fn := range p.All {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok {
					// a map which is not only read
					if g, ok := u.X.(*ssa.Global); ok && !onlyRead(u) {
						p.mutated[g] = true
					}
				}
				if st, ok := in.(*ssa.Store); ok {
					v := st.Addr
					for {
						switch a := v.(type) {
						case *ssa.FieldAddr:
							v = a.X
							continue
						case *ssa.IndexAddr:
							v = a.X
							continue
						}
						break
					}
					if g, ok := v.(*ssa.Global); ok {
						p.mutated[g] = true
					}
				}
			}
		}
	}
	return p, nil
}

// embedded marks variables whose content comes from a file.
func (p *Program) embedded() {
	for _, pk := range p.Pkgs {
		sp := p.byPath[pk.PkgPath]
		if sp == nil {
			continue
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, s := range gd.Specs {
					vs, ok := s.(*ast.ValueSpec)
					if !ok {
						continue
					}
					for _, cg := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
						if cg == nil {
							continue
						}
						for _, cm := range cg.List {
							if !strings.HasPrefix(cm.Text, "//go:embed") {
								continue
							}
							for _, n := range vs.Names {
								if g, ok := sp.Members[n.Name].(*ssa.Global); ok {
									p.mutated[g] = true
									p.files[g] = strings.TrimSpace(strings.TrimPrefix(cm.Text, "//go:embed"))
								}
							}
						}
					}
				}
			}
		}
	}
}

// onlyRead: a map loaded from a package variable is used for nothing but lookups.
func onlyRead(u *ssa.UnOp) bool {
	if _, ok := u.Type().Underlying().(*types.Map); !ok {
		return true
	}
	for _, r := range *u.Referrers() {
		switch r := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if ob := f.Object(); ob != nil && ob.Pkg() != nil {
			return ob.Pkg()
		}
	}
	return nil
}

func (p *Program) isRepo(pk *types.Package) bool {
	return pk != nil && (pk.Path() == p.Mod || strings.HasPrefix(pk.Path(), p.Mod+"/"))
}

func (p *Program) isGen(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && p.gen[pk.Path()]
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// pkg finds a package by its path below the module.
func (p *Program) pkg(rel string) *ssa.Package { return p.byPath[p.Mod+"/"+rel] }

// fn finds a function or method: "internal/store.(*Storage).Scan" or "internal/x.TimeBounds".
func (p *Program) fn(spec string) (*ssa.Function, error) {
	i := strings.LastIndexByte(spec, '/')
	j := strings.IndexByte(spec[i+1:], '.') + i + 1
	pk := p.pkg(spec[:j])
	if pk == nil {
		return nil, fmt.Errorf("package %s not found", spec[:j])
	}
	name := spec[j+1:]
	if strings.HasPrefix(name, "(") {
		k := strings.IndexByte(name, ')')
		recv, m := name[1:k], name[k+2:]
		ptr := strings.HasPrefix(recv, "*")
		t := pk.Type(strings.TrimPrefix(recv, "*"))
		if t == nil {
			return nil, fmt.Errorf("type %s not found", recv)
		}
		var typ types.Type = t.Type()
		if ptr {
			typ = types.NewPointer(typ)
		}
		sel := types.NewMethodSet(typ).Lookup(pk.Pkg, m)
		if sel == nil {
			return nil, fmt.Errorf("method %s not found", spec)
		}
		fn := p.Prog.MethodValue(sel)
		if fn == nil || fn.Blocks == nil {
			return nil, fmt.Errorf("method %s has no body", spec)
		}
		return fn, nil
	}
	fn := pk.Func(name)
	if fn == nil || fn.Blocks == nil {
		return nil, fmt.Errorf("function %s not found", spec)
	}
	return fn, nil
}

// typ finds the type of something in an imported (or own) package.
func (p *Program) typ(path, name string) types.Type {
	if o := p.object(path, name); o != nil {
		return o.Type()
	}
	return nil
}

func (p *Program) object(path, name string) types.Object {
	var find func(pk *types.Package, seen map[*types.Package]bool) types.Object
	find = func(pk *types.Package, seen map[*types.Package]bool) types.Object {
		if seen[pk] {
			return nil
		}
		seen[pk] = true
		if pk.Path() == path {
			return pk.Scope().Lookup(name)
		}
		for _, i := range pk.Imports() {
			if t := find(i, seen); t != nil {
				return t
			}
		}
		return nil
	}
	seen := map[*types.Package]bool{}
	for _, x := range p.Pkgs {
		if t := find(x.Types, seen); t != nil {
			return t
		}
	}
	return nil
}
