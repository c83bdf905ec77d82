package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- memory of keys

func init() {
	register("C34", "every byte slice given to a transaction, a sequence or a cache is traced to the memory it refers to; nothing that can run before the transaction ends writes to it or gives it away, and no prefix is extended twice in the same memory", c34)
}

func top(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func hasTxnParam(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isNamedPtr(p.Type(), "github.com/dgraph-io/badger/v4.Txn") {
			return true
		}
	}
	return false
}

// rootName describes memory without naming a line.
func rootName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			return "the result of " + shortName(fnName(f))
		}
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			return "the result of " + b.Name()
		}
	case *ssa.Parameter:
		return "the parameter " + v.Name()
	case *ssa.Global:
		return "the variable " + v.Name()
	case *ssa.Alloc:
		return "the variable " + v.Comment
	}
	return v.Name()
}

func c34(c *Check) {
	const rule = "memory given to storage is not changed before the transaction ends"
	m := newMem(c.P)
	var fns []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		fns = append(fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range c.P.All {
		if f.Parent() == nil && f.Origin() == nil {
			add(f)
		}
	}
	for _, f := range fns {
		m.sum(f)
	}
	for _, f := range fns {
		c.Counts["functions"]++
		name := shortName(fnName(top(f)))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := m.calleeOf(ci.Common())
				for k := range m.kept(ci) {
					arg := ci.Common().Args[k]
					if mi, ok := arg.(*ssa.MakeInterface); ok && !holdsMemory(mi.X.Type()) {
						continue
					}
					c.Counts["byte slices given away"]++
					c.c34kept(m, rule, f, fns, in, callee, arg, fmt.Sprintf("%s/%s/%d", name, shortName(fnName(callee)), k))
				}
				for _, k := range m.lent(ci) {
					c.Counts["borrowed values"]++
					c.c34lent(m, name, in, ci.Common().Args[k])
				}
			}
		}
		c.c34prefix(m, name, f)
	}
	c.Min["functions"] = 300
	c.Min["byte slices given away"] = 6
	c.Min["borrowed values"] = 6
	c.assume("badger keeps the slices given to Txn.Set until commit and the one given to GetSequence for good; ristretto hashes keys; UnmarshalBinary of bitmaps copies")
}

func (c *Check) c34kept(m *mem, rule string, f *ssa.Function, fns []*ssa.Function, in ssa.Instruction, callee *ssa.Function, arg ssa.Value, key string) {
	roots := m.roots(arg)
	bad := ""
	pos := in.Pos()
	for root := range roots {
		def, _ := root.(ssa.Instruction)
		var stop ssa.Instruction
		if def != nil && def.Parent() == f {
			stop = def
			if a, ok := root.(*ssa.Alloc); ok && !a.Heap {
				stop = nil
			}
		}
		for _, ev := range m.sum(f).events {
			if !ev.roots[root] || ev.at == in && ev.kind != "release" {
				continue
			}
			_, isDefer := ev.at.(*ssa.Defer)
			if isDefer || follows(in, ev.at, stop) {
				bad = fmt.Sprintf("%s: %s, later %s", rootName(root), c.P.pos(in.Pos()), ev.what)
				if ev.at.Pos().IsValid() {
					bad += " at " + c.P.pos(ev.at.Pos())
				}
			}
		}
		// memory that others can reach
		shared := false
		switch r := root.(type) {
		case *ssa.Global:
			shared = true
		case *ssa.Parameter:
			if p, ok := r.Type().Underlying().(*types.Pointer); ok && !hasTxnParam(top(f)) {
				_, shared = p.Elem().Underlying().(*types.Struct)
			}
		}
		if shared {
			for _, g := range fns {
				if g.Pkg != nil && top(f).Pkg != nil && fnPkg(top(g)) != fnPkg(top(f)) {
					continue
				}
				for _, ev := range m.sum(g).events {
					for x := range ev.roots {
						if x == root || sameShared(x, root) {
							bad = fmt.Sprintf("%s, which others can use at the same time, and %s at %s", rootName(root), ev.what, c.P.pos(ev.at.Pos()))
						}
					}
				}
			}
		}
	}
	if bad == "" {
		bad = c.reused(m, in, arg, roots)
	}
	c.ob("kept/"+key, rule, bad == "", pos, "%s keeps %s", shortName(fnName(callee)), bad)
}

// reused: the slice was made by a function literal that writes every result to
// the same memory, and made another one since.
func (c *Check) reused(m *mem, in ssa.Instruction, arg ssa.Value, roots map[ssa.Value]bool) string {
	v, ok := m.through(arg).(*ssa.Call)
	if !ok {
		return ""
	}
	f := m.calleeOf(&v.Call)
	if f == nil || !m.own(f) || f.Parent() == nil {
		return ""
	}
	for _, ev := range m.sum(f).events {
		for x := range ev.roots {
			if !roots[x] {
				continue
			}
			for _, b := range v.Parent().Blocks {
				for _, i := range b.Instrs {
					y, ok := i.(*ssa.Call)
					if !ok || m.calleeOf(&y.Call) != f || !follows(v, y, nil) {
						continue
					}
					if in.Parent() != v.Parent() || follows(y, in, v) {
						return fmt.Sprintf("%s, and another slice is made in the same memory at %s", rootName(x), c.P.pos(y.Pos()))
					}
				}
			}
		}
	}
	return ""
}

func sameShared(x, y ssa.Value) bool {
	p, ok1 := x.(*ssa.Parameter)
	q, ok2 := y.(*ssa.Parameter)
	if !ok1 || !ok2 || !types.Identical(p.Type(), q.Type()) {
		return false
	}
	pt, ok := p.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = pt.Elem().Underlying().(*types.Struct)
	return ok
}

// c34lent: what storage lends to a function is copied if it is needed later.
func (c *Check) c34lent(m *mem, name string, in ssa.Instruction, arg ssa.Value) {
	const rule = "memory that storage lends for the time of a call is copied, not kept"
	v := m.through(arg)
	var fn *ssa.Function
	switch v := v.(type) {
	case *ssa.MakeClosure:
		fn = v.Fn.(*ssa.Function)
	case *ssa.Function:
		fn = v
	case *ssa.Parameter:
		return // checked where it is passed
	}
	if !c.ob("lent/known/"+name, rule, fn != nil, in.Pos(), "%s lends memory to an unknown function", name) {
		return
	}
	if fn.Synthetic != "" || len(fn.Blocks) == 0 {
		n := fn.Name()
		c.ob("lent/"+name+"/"+strings.TrimSuffix(n, "$bound"), rule, !strings.Contains(n, "Unsafe") && !strings.Contains(n, "FromBuffer"), in.Pos(), "%s keeps the memory it is given", n)
		return
	}
	var val *ssa.Parameter
	for _, p := range fn.Params {
		if byteSlice(p.Type()) {
			val = p
		}
	}
	if val == nil {
		return
	}
	bad := token.NoPos
	what := ""
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			esc := func(v ssa.Value, how string) {
				if m.roots(v)[val] && holdsMemoryOrString(v.Type()) {
					bad, what = i.Pos(), how
				}
			}
			switch i := i.(type) {
			case *ssa.Store:
				a := resolveFree(i.Addr)
				if al, ok := a.(*ssa.Alloc); ok && al.Parent() == fn && !captured(al) {
					continue
				}
				esc(i.Val, "stores it")
			case *ssa.MapUpdate:
				esc(i.Value, "stores it in a map")
			case *ssa.Send:
				esc(i.X, "sends it")
			case *ssa.Go:
				for _, a := range i.Call.Args {
					esc(a, "uses it in another goroutine")
				}
			case ssa.CallInstruction:
				cc := i.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "append" && !byteSlice(cc.Args[0].Type()) && len(cc.Args) > 1 {
					esc(cc.Args[1], "adds it to a list")
				}
				if f := cc.StaticCallee(); f != nil && (strings.Contains(f.Name(), "Unsafe") || f.Name() == "FromBuffer") {
					for _, a := range cc.Args {
						esc(a, "passes it to "+f.Name())
					}
				}
			}
		}
	}
	c.ob("lent/"+name, rule, what == "", bad, "the function given to %s %s", name, what)
}

func holdsMemoryOrString(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsString != 0
	}
	return holdsMemory(t)
}

func captured(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if _, ok := r.(*ssa.MakeClosure); ok {
			return true
		}
	}
	return false
}

// c34prefix: keys made of the same prefix don't share memory.
func (c *Check) c34prefix(m *mem, name string, f *ssa.Function) {
	const rule = "keys that start with the same prefix do not share memory"
	type ext struct {
		call *ssa.Call
		base ssa.Value
	}
	var exts []ext
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			var base ssa.Value
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok {
				if bi.Name() != "append" || !byteSlice(call.Call.Args[0].Type()) {
					continue
				}
				base = call.Call.Args[0]
			} else if g := m.calleeOf(&call.Call); g != nil && !m.own(g) {
				if k := appends(fnOrigin(g)); k >= 0 && k < len(call.Call.Args) && byteSlice(call.Call.Args[k].Type()) && fnOrigin(g) != "slices.Grow" {
					base = call.Call.Args[k]
				}
			}
			if base == nil {
				continue
			}
			c.Counts["extended byte slices"]++
			if m.full(base) {
				continue
			}
			exts = append(exts, ext{call, base})
		}
	}
	for i, x := range exts {
		for j, y := range exts {
			if i == j && !follows(x.call, x.call, nil) {
				continue
			}
			if i != j && !follows(x.call, y.call, nil) {
				continue
			}
			if !m.sameSlice(x.base, y.base) || backTo(x.call, x.base) {
				continue
			}
			if i == j {
				if d, ok := x.base.(ssa.Instruction); ok && !follows(x.call, x.call, d) {
					continue // another slice in every iteration
				}
			}
			// the first result is used once the second was made
			bad := m.outlives(x.call, y.call, f)
			c.ob("prefix/"+name, rule, bad == "", y.call.Pos(), "%s and %s extend the same memory, and the first %s", c.P.pos(x.call.Pos()), c.P.pos(y.call.Pos()), bad)
		}
		// memory of an object, extended by whoever calls
		if u, ok := x.base.(*ssa.UnOp); ok && u.Op == token.MUL && !backTo(x.call, x.base) {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if _, ok := m.soleParam(fa); ok {
					bad := m.outlives(x.call, nil, f)
					c.ob("prefix/"+name, rule, bad == "", x.call.Pos(), "%s extends memory that every call extends, and the result %s", c.P.pos(x.call.Pos()), bad)
				}
			}
		}
	}
}

// soleParam: the field is one of an object that was passed.
func (m *mem) soleParam(fa *ssa.FieldAddr) (*ssa.Parameter, bool) {
	p, ok := m.through(fa.X).(*ssa.Parameter)
	return p, ok
}

// sameSlice: x and y are the same slice.
func (m *mem) sameSlice(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	ux, ok1 := x.(*ssa.UnOp)
	uy, ok2 := y.(*ssa.UnOp)
	if ok1 && ok2 && ux.Op == token.MUL && uy.Op == token.MUL {
		return sameAddr(ux.X, uy.X)
	}
	sx, ok1 := x.(*ssa.Slice)
	sy, ok2 := y.(*ssa.Slice)
	return ok1 && ok2 && m.sameSlice(sx.X, sy.X)
}

func sameAddr(x, y ssa.Value) bool {
	x, y = resolveFree(x), resolveFree(y)
	if x == y {
		return true
	}
	fx, ok1 := x.(*ssa.FieldAddr)
	fy, ok2 := y.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return fx.Field == fy.Field && sameAddr(fx.X, fy.X)
	}
	ux, ok1 := x.(*ssa.UnOp)
	uy, ok2 := y.(*ssa.UnOp)
	return ok1 && ok2 && ux.Op == token.MUL && uy.Op == token.MUL && sameAddr(ux.X, uy.X)
}

// backTo: the extended slice replaces the one that was extended.
func backTo(call *ssa.Call, base ssa.Value) bool {
	for {
		s, ok := base.(*ssa.Slice)
		if !ok {
			break
		}
		base = s.X
	}
	var addr ssa.Value
	if u, ok := base.(*ssa.UnOp); ok && u.Op == token.MUL {
		addr = u.X
	}
	vals := []ssa.Value{call}
	for _, r := range *call.Referrers() {
		if x, ok := r.(*ssa.Extract); ok {
			vals = append(vals, x)
		}
	}
	for _, v := range vals {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Phi:
				if ssa.Value(r) == base {
					return true
				}
			case *ssa.Store:
				if addr != nil && r.Val == v && sameAddr(r.Addr, addr) {
					return true
				}
			}
		}
	}
	return false
}

// outlives tells how the result of x is still used when y was executed.
func (m *mem) outlives(x, y *ssa.Call, f *ssa.Function) string {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if in == ssa.Instruction(x) || in == ssa.Instruction(y) {
				continue
			}
			uses := false
			var ops []*ssa.Value
			for _, o := range in.Operands(ops) {
				if *o != nil && byteSlice((*o).Type()) && m.roots(*o)[x] {
					uses = true
				}
			}
			if !uses {
				continue
			}
			switch i := in.(type) {
			case *ssa.Store:
				if a, ok := resolveFree(i.Addr).(*ssa.Alloc); !ok || captured(a) {
					return "is stored"
				}
			case *ssa.MapUpdate:
				return "is stored in a map"
			case *ssa.Send:
				return "is sent"
			case *ssa.Return:
				return "is returned"
			case ssa.CallInstruction:
				for k := range m.kept(i) {
					if m.roots(i.Common().Args[k])[x] {
						return "is kept by " + shortName(fnName(m.calleeOf(i.Common())))
					}
				}
			}
			if y != nil && x != y && follows(y, in, nil) {
				if _, ok := in.(*ssa.Phi); !ok {
					return "is used later"
				}
			}
		}
	}
	return ""
}
