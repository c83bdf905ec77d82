package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- pools

func init() {
	register("C23", "the memory of every object that is put in a pool is evaluated where it is put: each field has a value that does not depend on its use, or every use overwrites it first; after the object was put nothing refers to it, on no path is it put twice, and it is not returned or kept by who puts it", c23)
}


type poolCheck struct {
	c       *Check
	m       *mem
	fns     []*ssa.Function
	callers map[*ssa.Function][]ssa.CallInstruction
	first   map[string]map[*ssa.Function]int // field: does a function read before it overwrites
	kills   map[string]map[*ssa.Function]int
	done    map[string]bool
	busy    map[*ssa.Function]bool
	keep    map[*ssa.Function]map[int]int
}

func c23(c *Check) {
	p := &poolCheck{c: c, m: newMem(c.P), callers: map[*ssa.Function][]ssa.CallInstruction{}, first: map[string]map[*ssa.Function]int{}, kills: map[string]map[*ssa.Function]int{}, done: map[string]bool{}, busy: map[*ssa.Function]bool{}, keep: map[*ssa.Function]map[int]int{}}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		p.fns = append(p.fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range c.P.All {
		if f.Parent() == nil && (f.Synthetic == "" || strings.HasPrefix(f.Synthetic, "instance")) {
			add(f)
		}
	}
	for _, f := range p.fns {
		p.m.sum(f)
		p.each(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil {
					p.callers[g] = append(p.callers[g], ci)
				}
			}
		})
	}
	todo := map[*ssa.Function]bool{}
	var order []*ssa.Function
	var want func(f *ssa.Function)
	want = func(f *ssa.Function) {
		if !todo[f] {
			todo[f] = true
			order = append(order, f)
		}
	}
	for _, f := range p.fns {
		if p.calls(f, poolPut) {
			want(top(f))
		}
	}
	for i := 0; i < len(order); i++ {
		if p.clean(order[i]) {
			continue
		}
		// a helper that puts any object in a pool it is given
		for _, ci := range p.callers[order[i]] {
			want(top(ci.Parent()))
		}
	}
	for _, f := range p.fns {
		p.uses(f)
	}
	p.schemas()
	c.Min["objects put in a pool"] = 10
	c.Min["fields"] = 40
	c.Min["returns to a pool"] = 40
	c.Min["records built with pooled schemas"] = 1
	c.assume("what Reset, Clear and proto.Reset of libraries leave of an object does not show; NewRecord and WriteParquet of a schema leave nothing in it; a zstd coder that was reset starts anew")
	c.assume("fields of the same type are told apart by their name, not by object, when it is decided whether they are overwritten before they are used")
}

func (p *poolCheck) each(f *ssa.Function, do func(in ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			do(in)
		}
	}
}

func (p *poolCheck) calls(f *ssa.Function, name string) (has bool) {
	p.each(f, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok {
			if g := ci.Common().StaticCallee(); g != nil && fnName(g) == name {
				has = true
			}
		}
	})
	return
}

// ---- what an object holds when it is put in a pool

// clean evaluates a function that puts objects in a pool. It tells false if the type of
// the object isn't known there.
func (p *poolCheck) clean(f *ssa.Function) bool {
	c := p.c
	e := c.engine()
	if _, ok := e.Hook[poolPut]; ok {
		panic(analysisError{"hook"})
	}
	known := true
	empty := func(i int) func(fr *frame, n string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return func(fr *frame, n string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
			v := e.mk(ONil, "")
			if len(args) > i+1 && !fixedVal(args[i+1]) {
				v = e.mk(OCall, "reset", args[i+1])
			}
			e.setContent(st, args[i], v)
			fr.emit("setclear", n, args[i:i+1], nil, in)
			return e.mk(OTuple, ""), st
		}
	}
	e.Hook["google.golang.org/protobuf/proto.Reset"] = empty(0)
	e.Hook[zenc+"Reset"] = empty(0)
	e.Hook[zdec+"Reset"] = func(fr *frame, n string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		empty(0)(fr, n, args, in, st)
		return e.mk(ONil, ""), st
	}
	e.Hook["(*bytes.Buffer).Truncate"] = func(fr *frame, n string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		v := e.mk(ONil, "")
		if args[1].Op != OConst || args[1].Aux != "0" {
			v = e.mk(OCall, "truncated", args[1])
		}
		e.setContent(st, args[0], v)
		return e.mk(OTuple, ""), st
	}
	e.Hook[poolPut] = func(fr *frame, n string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		now := fr.emit("call", n, args, nil, in)
		var t types.Type
		if mi, ok := in.(ssa.CallInstruction).Common().Args[1].(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		for _, a := range args[1].arms() {
			x := a.T
			typ := t
			for x.Op == OIface {
				if typ == nil {
					typ = x.Typ
				}
				x = x.Args[0]
			}
			if typ == nil && x.Typ != nil && !types.IsInterface(x.Typ) {
				typ = x.Typ
			}
			if typ == nil {
				known = false
				continue
			}
			c.Counts["objects put in a pool"]++
			ck := &cleanCheck{p: p, e: e, st: st, at: now, f: f, pool: p.poolVar(in.(ssa.CallInstruction).Common().Args[0])}
			name := shortName(fnName(f))
			what := shortName(typ.String())
			bad := ck.object(x, typ)
			c.Counts["fields"] += ck.fields
			if len(bad) == 0 {
				c.ob("clean/"+name+"/"+what, "what is put in a pool was reset", true, in.Pos(), "")
			}
			for _, b := range bad {
				c.ob("clean/"+name+"/"+what+b.field, "what is put in a pool was reset", false, in.Pos(), "%s puts a %s back, its %s still %s", name, what, strings.TrimPrefix(b.field+" ", ". "), b.why)
			}
		}
		return e.mk(OTuple, ""), st
	}
	c.run(e, f)
	return known
}

type notClean struct{ field, why string }

type cleanCheck struct {
	p      *poolCheck
	e      *Engine
	st     *State
	at     *Effect
	f      *ssa.Function
	pool   *ssa.Global
	fields int
}

// fixed: the value is the same after every use.
func fixedVal(t *Term) bool {
	switch t.Op {
	case OConst, ONil, OZero, OFunc, OMake, OAlloc, OGlobal:
		return true
	case OParam, OCall, OLV, OElem, OKey, OCbArg, OOpaque, OUndef:
		return false
	case OChoice:
		for _, a := range t.Arms {
			if !fixedVal(a.T) {
				return false
			}
		}
		return true
	}
	if len(t.Args) == 0 {
		return false
	}
	for _, a := range t.Args {
		if !fixedVal(a) {
			return false
		}
	}
	return true
}

func (k *cleanCheck) object(x *Term, t types.Type) []notClean {
	ptr, ok := t.Underlying().(*types.Pointer)
	if !ok {
		if tp, ok := t.(*types.TypeParam); ok {
			_ = tp
			return k.value(x, "", t, "", nil, 0)
		}
		return []notClean{{"", "is no pointer"}}
	}
	return k.value(x, "", ptr.Elem(), "", nil, 0)
}

// cleared: everything in a map or an array was removed.
func (k *cleanCheck) cleared(kind, adder string, is func(x *Term) bool, except *Term) bool {
	e := k.e
	r := bF
	last := -1
	for _, f := range e.effects {
		if f.Seq > k.at.Seq || len(f.Args) == 0 {
			continue
		}
		if f.Kind == kind && is(f.Args[0]) {
			own := f.Loops
			for i := 0; len(own) > 0 && i < len(k.at.Loops) && own[0] == k.at.Loops[i]; i++ {
				own = own[1:] // of the same iteration
			}
			if e.allOf(own) == "" {
				r = e.bdd.Or(r, f.Cond)
				last = f.Seq
			}
			continue
		}
		if adder != "" && f.Kind == adder && is(f.Args[0]) && f.Seq > last {
			r = bF
		}
	}
	if except != nil {
		r = e.bdd.Or(r, e.Cond(e.isEmpty(except)))
	}
	return e.implies(k.at.Cond, r)
}

// unused: under the condition c the value is the zero value of its type or an empty list or map.
func (k *cleanCheck) unused(v *Term, t types.Type, c B) bool {
	e := k.e
	switch v.Op {
	case OChoice:
		for _, a := range v.Arms {
			if !k.unused(a.T, t, e.bdd.And(c, a.C)) {
				return false
			}
		}
		return true
	}
	if c == bF || fixedVal(v) {
		return true
	}
	zero := e.mk(ONil, "")
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			zero = e.mk(OConst, `""`)
		case u.Info()&types.IsBoolean != 0:
			zero = e.mk(OConst, "false")
		case u.Info()&types.IsNumeric != 0:
			zero = e.mk(OConst, "0")
		default:
			return false
		}
	case *types.Slice, *types.Map:
		return e.implies(c, e.Cond(e.isEmpty(v)))
	case *types.Pointer, *types.Interface, *types.Chan, *types.Signature:
	default:
		return false
	}
	return e.implies(c, e.Cond(e.eq(zero, v, t)))
}

func (k *cleanCheck) value(root *Term, path string, t types.Type, name string, owner *types.Named, idx int) []notClean {
	e := k.e
	k.fields++
	v := e.raw(k.st, root, path)
	if _, set := k.st.cells[cellKey{root, path}]; set && (fixedVal(v) || k.unused(v, t, k.at.Cond)) {
		return nil
	}
	fail := func(v *Term) []notClean {
		if owner != nil && k.p.harmless(owner, idx) {
			return nil
		}
		if owner == nil && k.p.restarted(t, k.pool) {
			return nil
		}
		return []notClean{{name, "holds " + trunc(e.Str(v), 80)}}
	}
	wholly := func() bool {
		// one of the items of a list that was cleared in a loop
		return k.cleared("setclear", "", func(x *Term) bool {
			if x.Op != OIndex && x.Op != OElem || x.Args[0].Op != OSeq {
				return false
			}
			for _, i := range x.Args[0].Args {
				for i.Op == OItem {
					i = i.Args[0]
				}
				if i.Op == OAddr && i.Args[0] == root && i.Aux == path {
					return true
				}
			}
			return false
		}, nil)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n, _ := t.(*types.Named)
		whole := e.raw(k.st, root, path+"#content")
		if _, set := k.st.cells[cellKey{root, path + "#content"}]; set && fixedVal(whole) {
			return nil
		}
		if n == nil || isProtoMsg(types.NewPointer(n)) || !k.p.c.P.isRepo(n.Obj().Pkg()) {
			// of a library
			if wholly() {
				return nil
			}
			return fail(whole)
		}
		var out []notClean
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			out = append(out, k.value(root, path+"."+f.Name(), f.Type(), name+"."+f.Name(), n.Origin(), i)...)
		}
		return out
	case *types.Pointer:
		n, _ := u.Elem().(*types.Named)
		if n != nil && k.p.c.P.isRepo(n.Obj().Pkg()) && n.Obj().Pkg().Name() != "v1" && owner != nil && !k.p.changed(owner, idx, false) {
			if _, ok := n.Underlying().(*types.Struct); ok {
				return k.value(v, "", n, name, nil, 0)
			}
		}
	case *types.Map:
		if k.cleared("clear", "mapset", func(x *Term) bool { return x == v }, v) {
			return nil
		}
	case *types.Array:
		if k.cleared("clear", "", func(x *Term) bool {
			return x.Op == OArrSlice && x.Aux == "" && (x.Args[0] == e.addr(root, path) || x.Args[0].Op == OAddr && x.Args[0].Args[0] == root && x.Args[0].Aux == path)
		}, nil) {
			return nil
		}
	case *types.Interface:
		if _, ok := t.(*types.TypeParam); ok {
			v := e.raw(k.st, root, "#content")
			if _, set := k.st.cells[cellKey{root, "#content"}]; set && fixedVal(v) {
				return nil
			}
			return fail(v)
		}
	}
	return fail(v)
}

// ---- fields that need no reset

func fieldKey(n *types.Named, idx int) string { return fmt.Sprintf("%s#%d", n.Origin().Obj().Id()+"@"+n.Obj().Pkg().Path(), idx) }

func fieldOfAddr(fa *ssa.FieldAddr) (string, bool) {
	ptr, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return "", false
	}
	n, ok := ptr.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "", false
	}
	return fieldKey(n.Origin(), fa.Field), true
}

// harmless: nothing of the last use can show although the field keeps its value.
func (p *poolCheck) harmless(n *types.Named, idx int) bool {
	if !p.changed(n, idx, true) {
		return true
	}
	key := fieldKey(n, idx)
	for _, f := range p.fns {
		if f.Parent() == nil && len(p.callers[f]) == 0 && p.readsFirst(key, f) {
			return false
		}
	}
	return true
}

// changed: the field, or what it refers to, is given another value after the object was made.
func (p *poolCheck) changed(n *types.Named, idx int, deep bool) bool {
	key := fieldKey(n, idx)
	found := false
	for _, f := range p.fns {
		p.each(f, func(in ssa.Instruction) {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok || found {
				return
			}
			if k, ok := fieldOfAddr(fa); !ok || k != key {
				return
			}
			if _, ok := resolveFree(fa.X).(*ssa.Alloc); ok {
				return // being made
			}
			for _, r := range *fa.Referrers() {
				switch r := r.(type) {
				case *ssa.DebugRef:
				case *ssa.UnOp:
					if !deep {
						continue
					}
					for _, w := range *r.Referrers() {
						switch w := w.(type) {
						case *ssa.MapUpdate, ssa.CallInstruction, *ssa.FieldAddr, *ssa.IndexAddr:
							found = true
						default:
							_ = w
						}
					}
				default:
					found = true
				}
			}
		})
	}
	return found
}

func resets(ci ssa.CallInstruction, v ssa.Value) bool {
	g := ci.Common().StaticCallee()
	if g == nil || len(ci.Common().Args) == 0 || ci.Common().Args[0] != v {
		return false
	}
	switch methodBase(fnName(g)) {
	case "Reset", "Clear":
		return true
	}
	return false
}

// emptied: the slice is only used for its memory.
func emptied(u *ssa.UnOp) bool {
	for _, r := range *u.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Slice:
			if k, ok := r.High.(*ssa.Const); !ok || r.Low != nil || k.Value == nil || k.Value.ExactString() != "0" {
				return false
			}
		default:
			if ci, ok := r.(ssa.CallInstruction); ok {
				if b, ok := ci.Common().Value.(*ssa.Builtin); ok && (b.Name() == "clear" || b.Name() == "cap") {
					continue
				}
			}
			return false
		}
	}
	return true
}

// access tells what an instruction does with the field: 1 reads it, 2 overwrites it.
func (p *poolCheck) access(key string, in ssa.Instruction) int {
	isField := func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		k, ok := fieldOfAddr(fa)
		return ok && k == key
	}
	switch in := in.(type) {
	case *ssa.Store:
		if isField(in.Addr) {
			return 2
		}
	case *ssa.UnOp:
		if in.Op == token.MUL && isField(in.X) && !emptied(in) {
			return 1
		}
	case ssa.CallInstruction:
		if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "clear" {
			return 0
		}
		for _, a := range in.Common().Args {
			if isField(a) {
				if resets(in, a) {
					return 2
				}
				return 1
			}
			if mi, ok := a.(*ssa.MakeInterface); ok && isField(mi.X) {
				return 1
			}
			if mc, ok := a.(*ssa.MakeClosure); ok && p.readsFirst(key, mc.Fn.(*ssa.Function)) {
				return 1
			}
		}
		g := p.m.calleeOf(in.Common())
		if g == nil {
			return 0
		}
		if p.readsFirst(key, g) {
			return 1
		}
		if _, ok := in.(*ssa.Call); ok && p.overwrites(key, g) {
			return 2
		}
	case *ssa.FieldAddr, *ssa.DebugRef:
	default:
		for _, o := range in.Operands(nil) {
			if isField(*o) {
				return 1
			}
		}
	}
	return 0
}

// readsFirst: the field can be read in f before it is overwritten.
func (p *poolCheck) readsFirst(key string, f *ssa.Function) bool {
	if p.first[key] == nil {
		p.first[key] = map[*ssa.Function]int{}
	}
	if v, ok := p.first[key][f]; ok {
		return v == 1
	}
	p.first[key][f] = 0
	if len(f.Blocks) == 0 {
		return false
	}
	r := p.walk(f, func(in ssa.Instruction) int { return p.access(key, in) }) == 1
	if r {
		p.first[key][f] = 1
	}
	return r
}

// overwrites: f overwrites the field on every path.
func (p *poolCheck) overwrites(key string, f *ssa.Function) bool {
	if p.kills[key] == nil {
		p.kills[key] = map[*ssa.Function]int{}
	}
	if v, ok := p.kills[key][f]; ok {
		return v == 1
	}
	p.kills[key][f] = 0
	if len(f.Blocks) == 0 {
		return false
	}
	r := p.walk(f, func(in ssa.Instruction) int {
		if _, ok := in.(*ssa.Return); ok {
			return 1
		}
		return p.access(key, in)
	}) == 0
	if r {
		p.kills[key][f] = 1
	}
	return r
}

// walk follows every path from the start of f until do tells 2. It returns 1 if do told so.
func (p *poolCheck) walk(f *ssa.Function, do func(in ssa.Instruction) int) int {
	return p.walkFrom(f.Blocks[0], 0, do)
}

func (p *poolCheck) walkFrom(b *ssa.BasicBlock, i int, do func(in ssa.Instruction) int) int {
	seen := map[*ssa.BasicBlock]bool{}
	scan := func(ins []ssa.Instruction) int {
		for _, in := range ins {
			if x := do(in); x != 0 {
				return x
			}
		}
		return 0
	}
	switch scan(b.Instrs[i:]) {
	case 1:
		return 1
	case 2:
		return 0
	}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		switch scan(x.Instrs) {
		case 1:
			return 1
		case 2:
		default:
			work = append(work, x.Succs...)
		}
	}
	return 0
}

// restarted: whoever takes an object of this type of a library from a pool resets it first.
func (p *poolCheck) restarted(t types.Type, pool *ssa.Global) bool {
	if strings.HasPrefix(t.String(), "github.com/gernest/arrow3.Schema[") {
		return true // see schemas
	}
	n := 0
	for _, f := range p.fns {
		bad := false
		p.each(f, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || fnName(call.Call.StaticCallee()) != poolGet {
				return
			}
			if g := p.poolVar(call.Call.Args[0]); g != nil && pool != nil && g != pool {
				return
			}
			for _, r := range *call.Referrers() {
				ta, ok := r.(*ssa.TypeAssert)
				if !ok {
					bad = true
					continue
				}
				if ptr, ok := ta.AssertedType.Underlying().(*types.Pointer); ok && types.Identical(ptr.Elem(), t) {
					n++
					bad = bad || !p.resetFirst(ta, 0)
				}
			}
		})
		if bad {
			return false
		}
	}
	return n > 0
}

// poolVar is the variable of the package that holds the pool.
func (p *poolCheck) poolVar(v ssa.Value) *ssa.Global {
	v = p.m.through(v)
	if u, ok := v.(*ssa.UnOp); ok {
		v = u.X
	}
	g, _ := v.(*ssa.Global)
	return g
}

func (p *poolCheck) resetFirst(v ssa.Value, depth int) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || depth > 4 {
		return false
	}
	i := 0
	for j, x := range in.Block().Instrs {
		if x == in {
			i = j + 1
		}
	}
	good := true
	p.walkFrom(in.Block(), i, func(x ssa.Instruction) int {
		has := false
		for _, o := range x.Operands(nil) {
			has = has || *o == v
		}
		if !has {
			return 0
		}
		switch x := x.(type) {
		case *ssa.DebugRef, *ssa.Defer:
			return 0
		case *ssa.Return:
			if len(p.callers[x.Parent()]) == 0 {
				good = false
			}
			for _, ci := range p.callers[x.Parent()] {
				w, ok := ci.(*ssa.Call)
				good = good && ok && p.resetFirst(w, depth+1)
			}
			return 0
		case ssa.CallInstruction:
			if resets(x, v) {
				return 2
			}
		}
		good = false
		return 1
	})
	return good
}

// ---- nobody uses what is in a pool

// object is what v refers to, with the name of the part of it.
func (p *poolCheck) base(v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		v = resolveFree(v)
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.TypeAssert:
			if x.CommaOk {
				return v
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			if w := p.only(x); w != nil {
				v = w
				continue
			}
			return v
		case *ssa.Call:
			if r := p.sameAs(x); r != nil {
				v = r
				continue
			}
			return v
		default:
			return v
		}
	}
	return v
}

// only is the one value of a variable where it is read.
func (p *poolCheck) only(u *ssa.UnOp) ssa.Value {
	if w := p.m.latest(u); w != nil {
		return w
	}
	al, ok := resolveFree(u.X).(*ssa.Alloc)
	if !ok {
		return nil
	}
	switch al.Type().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Array, *types.Struct:
		return nil
	}
	if s := p.m.stored(al); len(s) == 1 {
		return s[0]
	}
	return nil
}

// sameAs: the call returns one of its arguments.
func (p *poolCheck) sameAs(c *ssa.Call) ssa.Value {
	g := p.m.calleeOf(&c.Call)
	if !p.m.own(g) || g.Signature.Results().Len() != 1 {
		return nil
	}
	var r ssa.Value
	n := 0
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				prm, ok := p.m.through(ret.Results[0]).(*ssa.Parameter)
				if !ok || prm.Parent() != g {
					if call, ok2 := ret.Results[0].(*ssa.Call); ok2 {
						if w, ok3 := p.sameAs2(call); ok3 {
							prm, ok = w, w.Parent() == g
						}
					}
				}
				if !ok {
					return nil
				}
				k := paramIndex(prm)
				if k >= len(c.Call.Args) || n > 0 && r != c.Call.Args[k] {
					return nil
				}
				r = c.Call.Args[k]
				n++
			}
		}
	}
	return r
}

func (p *poolCheck) sameAs2(c *ssa.Call) (*ssa.Parameter, bool) {
	v := p.sameAs(c)
	if v == nil {
		return nil, false
	}
	prm, ok := p.m.through(v).(*ssa.Parameter)
	return prm, ok
}

// releases lists the objects that an instruction puts in a pool.
func (p *poolCheck) releases(in ssa.Instruction) (out []ssa.Value) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	c := ci.Common()
	g := p.m.calleeOf(c)
	if g == nil {
		return nil
	}
	if fnName(g) == poolPut {
		return []ssa.Value{c.Args[1]}
	}
	if !p.m.own(g) {
		return nil
	}
	for k := range p.putsParam(g) {
		if k < len(c.Args) {
			out = append(out, c.Args[k])
		}
	}
	if g.Parent() != nil {
		// a function literal that is called or deferred here
		p.each(g, func(x ssa.Instruction) {
			for _, v := range p.releases(x) {
				b := p.base(v)
				if w, ok := b.(ssa.Instruction); !ok || w.Parent() != g {
					if prm, ok := b.(*ssa.Parameter); ok && prm.Parent() == g {
						continue
					}
					if u, ok := v.(*ssa.UnOp); ok {
						if fv, ok := u.X.(*ssa.FreeVar); ok {
							if al, ok := resolveFree(fv).(*ssa.Alloc); ok && b == v {
								_ = al
								continue // has several values
							}
						}
					}
					out = append(out, b)
				}
			}
		})
	}
	return
}

// putsParam lists the parameters that f itself, not something it got from them, puts in a pool.
func (p *poolCheck) putsParam(f *ssa.Function) map[int]bool {
	out := map[int]bool{}
	if p.done[f.String()] {
		return out
	}
	p.done[f.String()] = true
	defer delete(p.done, f.String())
	p.each(f, func(in ssa.Instruction) {
		for _, v := range p.releases(in) {
			if prm, ok := p.base(v).(*ssa.Parameter); ok && prm.Parent() == f && p.whole(v) {
				out[paramIndex(prm)] = true
			}
		}
	})
	return out
}

// whole: v is the object itself, not a part of it.
func (p *poolCheck) whole(v ssa.Value) bool {
	for i := 0; i < 50; i++ {
		v = resolveFree(v)
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.UnOp:
			if w := p.only(x); w != nil {
				v = w
				continue
			}
			return false
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
			return false
		case *ssa.Call:
			if r := p.sameAs(x); r != nil {
				v = r
				continue
			}
			return true
		default:
			return true
		}
	}
	return false
}

// reach lists the values of f that surely refer to memory of the object.
func (p *poolCheck) reach(f *ssa.Function, obj ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{obj: true}
	isOf := func(v ssa.Value) bool {
		if v == nil {
			return false
		}
		if out[v] {
			return true
		}
		b := p.base(v)
		return b == obj || out[b]
	}
	for n := -1; n != len(out); {
		n = len(out)
		p.each(f, func(in ssa.Instruction) {
			v, ok := in.(ssa.Value)
			if !ok || out[v] || !holdsMemory(v.Type()) {
				return
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.Alloc, *ssa.MakeClosure:
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert:
				if isOf(*in.Operands(nil)[0]) {
					out[v] = true
				}
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return
				}
				if isOf(v) || out[x.X] {
					if _, ok := x.X.(*ssa.Alloc); !ok || isOf(v) {
						out[v] = true
					}
				}
			case *ssa.Call:
				for r := range p.m.result(x, 0) {
					if r == obj || out[r] && r != v {
						out[v] = true
					}
				}
				if g := p.m.calleeOf(&x.Call); g != nil && !p.m.own(g) {
					if k := shares(fnOrigin(g)); k >= 0 && k < len(x.Call.Args) && isOf(x.Call.Args[k]) {
						out[v] = true
					}
				}
				if isOf(v) {
					out[v] = true
				}
			case *ssa.Extract:
				if call, ok := x.Tuple.(*ssa.Call); ok {
					for r := range p.m.result(call, x.Index) {
						if r == obj || out[r] && r != v {
							out[v] = true
						}
					}
				}
			}
		})
	}
	// memory made of several
	return out
}

func objName(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			if st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
				return "the field " + st.Field(fa.Field).Name()
			}
		}
		return "what a variable refers to"
	}
	if ta, ok := v.(*ssa.TypeAssert); ok {
		return "the " + shortName(ta.AssertedType.String())
	}
	return rootName(v)
}

// uses checks what a function does with the objects it puts in a pool.
func (p *poolCheck) uses(f *ssa.Function) {
	c := p.c
	type rel struct {
		at  ssa.Instruction
		val ssa.Value
		obj ssa.Value
	}
	var rels []rel
	p.each(f, func(in ssa.Instruction) {
		for _, v := range p.releases(in) {
			rels = append(rels, rel{in, v, p.base(v)})
		}
	})
	name := shortName(fnName(f))
	sort.SliceStable(rels, func(i, j int) bool { return rels[i].at.Pos() < rels[j].at.Pos() })
	for i, r := range rels {
		c.Counts["returns to a pool"]++
		key := fmt.Sprintf("%s/%s", name, objName(r.obj))
		stop, _ := r.obj.(ssa.Instruction)
		if stop != nil && stop.Parent() != f {
			stop = nil
		}
		_, deferred := r.at.(*ssa.Defer)
		live := p.reach(f, r.obj)
		bad := ""
		pos := r.at.Pos()
		// put twice
		for j, o := range rels {
			if o.obj != r.obj || i == j && (deferred || !follows(r.at, r.at, stop)) {
				if i == j && deferred && follows(r.at, r.at, stop) {
					bad = "it is put back once for every time the defer at " + c.P.pos(r.at.Pos()) + " is executed"
				}
				continue
			}
			if !p.sameField(r.val, o.val) {
				continue
			}
			_, d2 := o.at.(*ssa.Defer)
			if follows(r.at, o.at, stop) || deferred && d2 && (i < j) && (follows(o.at, r.at, stop)) || deferred && !d2 && follows(o.at, r.at, stop) {
				bad = "it is put back again at " + c.P.pos(o.at.Pos())
			}
		}
		c.ob("once/"+key, "an object is put back once", bad == "", pos, "%s puts %s back, and %s", name, objName(r.obj), bad)

		// used afterwards
		bad = ""
		if !p.whole(r.val) {
			bad = p.forgotten(f, r.at, r.val)
			c.ob("forgotten/"+key, "whoever puts a part of something in a pool forgets it", bad == "", pos, "%s puts %s back, %s", name, objName(r.obj), bad)
			continue
		}
		if u, ok := r.obj.(*ssa.UnOp); ok {
			if _, ok := resolveFree(u.X).(*ssa.Alloc); !ok {
				bad = p.forgotten(f, r.at, u)
				c.ob("forgotten/"+key, "whoever puts a part of something in a pool forgets it", bad == "", pos, "%s puts %s back, %s", name, objName(r.obj), bad)
				continue
			}
		}
		if deferred {
			bad = p.escapes(f, live, stop)
		} else {
			bad = p.after(r.at, live, r.obj, stop)
			if bad == "" {
				bad = p.kept(f, live)
			}
		}
		c.ob("after/"+key, "what was put back is not used", bad == "", pos, "%s puts %s back, but %s", name, objName(r.obj), bad)
	}
}

func (p *poolCheck) sameField(a, b ssa.Value) bool {
	fa, ok1 := fieldLoad(a)
	fb, ok2 := fieldLoad(b)
	if ok1 != ok2 {
		return false
	}
	return !ok1 || fa.Field == fb.Field
}

func fieldLoad(v ssa.Value) (*ssa.FieldAddr, bool) {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil, false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return fa, ok
}

// after finds a use of a dead object on a path from at.
func (p *poolCheck) after(at ssa.Instruction, live map[ssa.Value]bool, obj ssa.Value, stop ssa.Instruction) string {
	type state struct {
		b   *ssa.BasicBlock
		key string
	}
	f := at.Parent()
	seen := map[state]bool{}
	bad := ""
	keyOf := func(phis map[ssa.Value]bool) string {
		var o []string
		for v := range phis {
			o = append(o, v.Name())
		}
		sort.Strings(o)
		return strings.Join(o, ",")
	}
	var walk func(b *ssa.BasicBlock, i int, from *ssa.BasicBlock, dead map[ssa.Value]bool, on bool)
	walk = func(b *ssa.BasicBlock, i int, from *ssa.BasicBlock, phis map[ssa.Value]bool, on bool) {
		if bad != "" {
			return
		}
		n := map[ssa.Value]bool{}
		for v := range phis {
			n[v] = true
		}
		dead := func(v ssa.Value) bool { return on && live[v] || n[v] }
		if from != nil {
			k := 0
			for j, q := range b.Preds {
				if q == from {
					k = j
				}
			}
			m := map[ssa.Value]bool{}
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if dead(ph.Edges[k]) {
					m[ph] = true
				}
				delete(n, ph)
			}
			for v := range m {
				n[v] = true
			}
			s := state{b, fmt.Sprint(on) + keyOf(n)}
			if seen[s] {
				return
			}
			seen[s] = true
		}
		for _, in := range b.Instrs[i:] {
			if in == stop {
				on = false
				continue
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.BinOp:
				continue
			case *ssa.Defer:
				_ = x
			}
			if v, ok := in.(ssa.Value); ok && n[v] {
				delete(n, v)
			}
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				if al, ok := u.X.(*ssa.Alloc); ok && n[al] {
					n[u] = true
					continue
				}
			}
			if st, ok := in.(*ssa.Store); ok {
				if al, ok := st.Addr.(*ssa.Alloc); ok {
					if dead(st.Val) {
						n[al] = true
					} else {
						delete(n, al)
					}
					continue
				}
			}
			for _, o := range in.Operands(nil) {
				if *o != nil && dead(*o) {
					if _, ok := (*o).(*ssa.Alloc); ok && n[*o] && !live[*o] {
						continue
					}
					if rel := p.releases(in); len(rel) > 0 {
						continue // put back twice, see there
					}
					bad = "it is used at " + c23pos(p, in)
					return
				}
			}
			if mc, ok := in.(ssa.CallInstruction); ok {
				// a function literal that uses it is called
				for _, g := range p.closuresOf(mc.Common()) {
					if on && p.refers(g, live, obj) {
						bad = "it is used at " + c23pos(p, in)
						return
					}
				}
			}
		}
		if !on && len(n) == 0 {
			return
		}
		for _, s := range b.Succs {
			walk(s, 0, b, n, on)
		}
	}
	i := 0
	for j, in := range at.Block().Instrs {
		if in == at {
			i = j + 1
		}
	}
	// variables that hold it by then
	cells := map[ssa.Value]bool{}
	p.each(f, func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok || !live[st.Val] || !(st.Block() == at.Block() && before(st, at) || st.Block() != at.Block() && st.Block().Dominates(at.Block())) {
			return
		}
		al, ok := st.Addr.(*ssa.Alloc)
		if !ok {
			return
		}
		for _, r := range *al.Referrers() {
			if o, ok := r.(*ssa.Store); ok && o != st && o.Addr == al && follows(st, o, at) && follows(o, at, stop) {
				return
			}
		}
		cells[al] = true
	})
	walk(at.Block(), i, nil, cells, true)
	return bad
}

func c23pos(p *poolCheck, in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return p.c.P.pos(in.Pos())
	}
	if _, ok := in.(*ssa.Return); ok {
		return "the return"
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && (*o).Pos().IsValid() {
			return p.c.P.pos((*o).Pos())
		}
	}
	return "the end of " + shortName(fnName(in.Parent()))
}

func (p *poolCheck) closuresOf(c *ssa.CallCommon) (out []*ssa.Function) {
	for _, a := range append([]ssa.Value{c.Value}, c.Args...) {
		if mc, ok := p.m.through(a).(*ssa.MakeClosure); ok {
			out = append(out, mc.Fn.(*ssa.Function))
		}
	}
	return
}

// refers: a function literal uses the object.
func (p *poolCheck) refers(g *ssa.Function, live map[ssa.Value]bool, obj ssa.Value) (has bool) {
	p.each(g, func(in ssa.Instruction) {
		for _, o := range in.Operands(nil) {
			if *o == nil {
				continue
			}
			if _, ok := (*o).(*ssa.FreeVar); !ok {
				if u, ok := (*o).(*ssa.UnOp); !ok || u.Op != token.MUL {
					continue
				}
			}
			if b := p.base(*o); b == obj {
				if u, ok := in.(*ssa.UnOp); ok && u.X == *o {
					continue
				}
				has = true
			}
		}
	})
	return
}

// escapes: an object that is put back when the function ends is returned, or kept by others.
func (p *poolCheck) escapes(f *ssa.Function, live map[ssa.Value]bool, stop ssa.Instruction) string {
	bad := ""
	p.each(f, func(in ssa.Instruction) {
		r, ok := in.(*ssa.Return)
		if !ok {
			return
		}
		for _, v := range r.Results {
			if p.may(v, live, map[ssa.Value]bool{}) {
				bad = "it is returned at " + c23pos(p, in)
			}
		}
	})
	if bad == "" {
		bad = p.kept(f, live)
	}
	return bad
}

// may: v can be the object, or hold it.
func (p *poolCheck) may(v ssa.Value, live, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if !holdsMemory(v.Type()) {
		return false
	}
	if live[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if p.may(e, live, seen) {
				return true
			}
		}
	case *ssa.MakeInterface:
		return p.may(x.X, live, seen)
	case *ssa.ChangeType:
		return p.may(x.X, live, seen)
	case *ssa.ChangeInterface:
		return p.may(x.X, live, seen)
	case *ssa.Slice:
		return p.may(x.X, live, seen)
	case *ssa.TypeAssert:
		return p.may(x.X, live, seen)
	case *ssa.UnOp:
		if al, ok := resolveFree(x.X).(*ssa.Alloc); ok && x.Op == token.MUL {
			if w := p.m.latest(x); w != nil {
				return p.may(w, live, seen)
			}
			for _, s := range p.m.stored(al) {
				if p.may(s, live, seen) {
					return true
				}
			}
		}
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, w := range *fa.Referrers() {
				if st, ok := w.(*ssa.Store); ok && st.Addr == fa && p.may(st.Val, live, seen) {
					return true
				}
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return p.may(x.Call.Args[0], live, seen)
		}
	}
	return false
}

// kept: the object is stored where others find it, or given to a goroutine.
func (p *poolCheck) kept(f *ssa.Function, live map[ssa.Value]bool) string {
	bad := ""
	p.each(f, func(in ssa.Instruction) {
		var v, where ssa.Value
		switch x := in.(type) {
		case *ssa.Store:
			v, where = x.Val, x.Addr
		case *ssa.MapUpdate:
			v, where = x.Value, x.Map
		case *ssa.Send:
			v, where = x.X, x.Chan
		case *ssa.Call:
			g := p.m.calleeOf(&x.Call)
			if g == nil || !p.m.own(g) {
				return
			}
			for k, by := range p.keeps(g) {
				if k < len(x.Call.Args) && live[x.Call.Args[k]] && !live[x.Call.Args[by]] {
					bad = shortName(fnName(g)) + " keeps it, called at " + c23pos(p, in)
				}
			}
			return
		case *ssa.Go:
			for _, a := range x.Call.Args {
				if live[a] {
					bad = "a goroutine uses it, started at " + c23pos(p, in)
				}
			}
			for _, g := range p.closuresOf(&x.Call) {
				for o := range live {
					if p.refers(g, live, o) {
						bad = "a goroutine uses it, started at " + c23pos(p, in)
					}
				}
			}
			return
		default:
			return
		}
		if !holdsMemory(v.Type()) {
			return
		}
		held := live[v]
		for _, x := range p.parts(v, 0) {
			held = held || live[x]
		}
		if !held {
			return
		}
		switch b := p.base(where).(type) {
		case *ssa.Parameter, *ssa.Global:
			if live[b] {
				return
			}
			bad = "it is stored in " + rootName(b) + " at " + c23pos(p, in)
		}
	})
	return bad
}

// parts lists what a value that is stored holds: the elements added to a slice, the
// fields of a new object.
func (p *poolCheck) parts(v ssa.Value, depth int) (out []ssa.Value) {
	if depth > 4 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return append(p.parts(x.X, depth+1), x.X)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			out = append(out, p.parts(x.Call.Args[1], depth+1)...)
			return append(out, p.parts(x.Call.Args[0], depth+1)...)
		}
	case *ssa.Slice:
		return p.parts(x.X, depth+1)
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			var addr ssa.Value
			switch r := r.(type) {
			case *ssa.FieldAddr:
				addr = r
			case *ssa.IndexAddr:
				addr = r
			default:
				continue
			}
			for _, w := range *addr.Referrers() {
				if st, ok := w.(*ssa.Store); ok && st.Addr == addr {
					out = append(out, st.Val)
					out = append(out, p.parts(st.Val, depth+1)...)
				}
			}
		}
	}
	return
}

// keeps lists the parameters that f stores in the memory of another.
func (p *poolCheck) keeps(f *ssa.Function) map[int]int {
	out := map[int]int{}
	if p.busy[f] {
		return out
	}
	if r, ok := p.keep[f]; ok {
		return r
	}
	p.busy[f] = true
	prm := func(v ssa.Value) int {
		if q, ok := p.m.through(v).(*ssa.Parameter); ok && q.Parent() == f {
			return paramIndex(q)
		}
		return -1
	}
	p.each(f, func(in ssa.Instruction) {
		var v, where ssa.Value
		switch x := in.(type) {
		case *ssa.Store:
			v, where = x.Val, x.Addr
		case *ssa.MapUpdate:
			v, where = x.Value, x.Map
		case *ssa.Call:
			g := p.m.calleeOf(&x.Call)
			if g == nil || !p.m.own(g) {
				return
			}
			for k, by := range p.keeps(g) {
				if k < len(x.Call.Args) && by < len(x.Call.Args) {
					if i, ok := p.base(x.Call.Args[by]).(*ssa.Parameter); ok && i.Parent() == f && prm(x.Call.Args[k]) >= 0 {
						out[prm(x.Call.Args[k])] = paramIndex(i)
					}
				}
			}
			return
		default:
			return
		}
		b, ok := p.base(where).(*ssa.Parameter)
		if !ok || b.Parent() != f {
			return
		}
		if _, ok := where.(*ssa.Alloc); ok {
			return
		}
		for _, x := range append(p.parts(v, 0), v) {
			if k := prm(x); k >= 0 && k != paramIndex(b) {
				if _, ok := x.Type().Underlying().(*types.Pointer); ok {
					out[k] = paramIndex(b)
				}
			}
		}
	})
	delete(p.busy, f)
	if len(p.busy) == 0 {
		p.keep[f] = out
	}
	return out
}

// forgotten: the place from which the object was taken is overwritten on every path.
func (p *poolCheck) forgotten(f *ssa.Function, at ssa.Instruction, v ssa.Value) string {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	// the field, or the field that holds the list
	var fa *ssa.FieldAddr
	a := u.X
	elem := false
	for fa == nil {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			fa = x
		case *ssa.IndexAddr:
			elem = true
			w, ok := x.X.(*ssa.UnOp)
			if !ok {
				return ""
			}
			a = w.X
		default:
			return ""
		}
	}
	if _, ok := p.base(fa.X).(*ssa.Parameter); !ok {
		return ""
	}
	_ = elem
	key, _ := fieldOfAddr(fa)
	if _, ok := at.(*ssa.Defer); ok {
		return ""
	}
	i := 0
	for j, in := range at.Block().Instrs {
		if in == at {
			i = j + 1
		}
	}
	bad := ""
	var over func(in ssa.Instruction) bool
	over = func(in ssa.Instruction) bool {
		if st, ok := in.(*ssa.Store); ok {
			if g, ok := st.Addr.(*ssa.FieldAddr); ok {
				k, _ := fieldOfAddr(g)
				return k == key
			}
			return p.base(st.Addr) == p.base(fa.X) // the whole object
		}
		if call, ok := in.(*ssa.Call); ok {
			if g := p.m.calleeOf(&call.Call); g != nil && p.m.own(g) && p.overwrites(key, g) {
				return true
			}
		}
		return false
	}
	// already overwritten between the load and the release
	if u.Parent() == at.Parent() {
		k := 0
		for j, in := range u.Block().Instrs {
			if in == ssa.Instruction(u) {
				k = j + 1
			}
		}
		if p.walkFrom(u.Block(), k, func(in ssa.Instruction) int {
			if over(in) {
				return 2
			}
			if in == at {
				return 1
			}
			return 0
		}) != 1 {
			return ""
		}
	}
	r := p.walkFrom(at.Block(), i, func(in ssa.Instruction) int {
		if over(in) {
			return 2
		}
		if _, ok := in.(*ssa.Return); ok {
			return 1
		}
		return 0
	})
	if r == 1 {
		bad = "and goes on referring to it"
	}
	return bad
}

// ---- schemas of records

// schemas: a schema is given back without the rows that were added to it.
func (p *poolCheck) schemas() {
	const ext = "(*github.com/gernest/arrow3.Schema["
	c := p.c
	is := func(in ssa.Instruction, names ...string) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || ci.Common().StaticCallee() == nil {
			return false
		}
		n := fnName(ci.Common().StaticCallee())
		if !strings.HasPrefix(n, ext) {
			return false
		}
		for _, x := range names {
			if methodBase(n) == x {
				return true
			}
		}
		return false
	}
	leaves := map[*ssa.Function]bool{}
	var cleans func(f *ssa.Function, depth int) bool
	cleaner := func(in ssa.Instruction, depth int) bool {
		if is(in, "NewRecord", "WriteParquet") {
			_, ok := in.(*ssa.Go)
			return !ok
		}
		call, ok := in.(*ssa.Call)
		if !ok || depth > 4 {
			return false
		}
		g := p.m.calleeOf(&call.Call)
		return g != nil && p.m.own(g) && cleans(g, depth+1)
	}
	cleans = func(f *ssa.Function, depth int) bool {
		return p.walk(f, func(in ssa.Instruction) int {
			if cleaner(in, depth) {
				return 2
			}
			if _, ok := in.(*ssa.Return); ok {
				return 1
			}
			return 0
		}) == 0
	}
	adds := func(in ssa.Instruction) bool {
		if is(in, "Append") {
			return true
		}
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if g := p.m.calleeOf(ci.Common()); g != nil && leaves[g] {
			return true
		}
		for _, g := range p.closuresOf(ci.Common()) {
			if leaves[g] {
				return true
			}
		}
		return false
	}
	for n := -1; n != len(leaves); {
		n = len(leaves)
		for _, f := range p.fns {
			if leaves[f] {
				continue
			}
			p.each(f, func(in ssa.Instruction) {
				if !adds(in) || leaves[f] {
					return
				}
				i := 0
				for j, x := range in.Block().Instrs {
					if x == in {
						i = j + 1
					}
				}
				if p.walkFrom(in.Block(), i, func(x ssa.Instruction) int {
					if cleaner(x, 0) {
						return 2
					}
					if _, ok := x.(*ssa.Return); ok {
						return 1
					}
					return 0
				}) == 1 {
					leaves[f] = true
				}
			})
		}
	}
	for _, f := range p.fns {
		p.each(f, func(in ssa.Instruction) {
			if !adds(in) {
				return
			}
			c.Counts["records built with pooled schemas"]++
		})
		// who puts the schema back
		puts := false
		p.each(f, func(in ssa.Instruction) {
			for _, v := range p.releases(in) {
				puts = puts || strings.Contains(p.base(v).Type().String(), "gernest/arrow3.Schema[")
			}
		})
		if puts {
			bad := leaves[f]
			c.ob("schema/"+shortName(fnName(f)), "a schema is given back without rows", !bad, f.Pos(), "%s can end with rows in the schema that it gives back", shortName(fnName(f)))
		}
	}
}
