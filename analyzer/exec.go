package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (fr *frame) val(v ssa.Value) *Term {
	e := fr.e
	switch v := v.(type) {
	case *ssa.Const:
		return e.constTerm(v)
	case *ssa.Global:
		n := v.Pkg.Pkg.Path() + "." + v.Name()
		e.P.globals[n] = v
		return e.mkT(v.Type(), OGlobal, n)
	case *ssa.Function:
		t := e.mkT(v.Type(), OFunc, v.String())
		t.Fn = v
		return t
	case *ssa.Builtin:
		return e.mk(OFunc, "builtin "+v.Name())
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	return e.mk(OUndef, "")
}

func (e *Engine) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.Struct); ok {
			return e.mk(OZero, "")
		}
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Kind() != types.UntypedNil && b.Kind() != types.UnsafePointer {
			return e.zero(c.Type())
		}
		if _, ok := c.Type().Underlying().(*types.Array); ok {
			return e.mk(OZero, "")
		}
		return e.mk(ONil, "")
	}
	if c.Value.Kind() == constant.String {
		return e.mk(OConst, fmt.Sprintf("%q", constant.StringVal(c.Value)))
	}
	return e.mk(OConst, c.Value.ExactString())
}

func (e *Engine) bornNow(t *Term) {
	if e.born == nil {
		e.born = map[*Term][]*Loop{}
	}
	e.born[t] = e.loopsNow()
}

func (e *Engine) loopsNow() []*Loop {
	return append([]*Loop(nil), e.loopStack...)
}

func (fr *frame) emit(kind, callee string, args []*Term, res *Term, in ssa.Instruction) *Effect {
	e := fr.e
	ef := &Effect{Kind: kind, Callee: callee, Args: args, Res: res, Cond: e.cur, Loops: e.loopsNow(), Fn: fr.fn, Cx: fr.cx, Instr: in}
	if in != nil {
		ef.Pos = in.Pos()
	}
	ef.Seq = len(e.effects)
	if e.suppress == 0 {
		e.effects = append(e.effects, ef)
	}
	return ef
}

func (fr *frame) instrs(b *ssa.BasicBlock, st *State, lc *loopCtl) []edge {
	e := fr.e
	for _, in := range b.Instrs {
		e.steps++
		if e.steps > maxSteps {
			panic(analysisError{"analysis of " + fr.fn.String() + " exceeds the step limit"})
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			t := e.mkT(in.Type(), OAlloc, fmt.Sprintf("%s:%s@%d", fr.fn.String(), in.Name()+"/"+in.Comment, fr.cx.id))
			for k := range st.cells {
				if k.root == t {
					delete(st.cells, k)
				}
			}
			st.cells[cellKey{t, "#live"}] = e.mk(OConst, "1")
			e.bornNow(t)
			fr.env[in] = t
		case *ssa.FieldAddr:
			f := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(in.Field)
			x := fr.val(in.X)
			fr.env[in] = e.addrChoice(x, "."+f.Name())
			fr.deref(x, in.X.Type(), in)
		case *ssa.Field:
			f := in.X.Type().Underlying().(*types.Struct).Field(in.Field)
			fr.env[in] = e.typed(e.field(fr.val(in.X), f.Name()), in.Type())
		case *ssa.IndexAddr:
			x, i := fr.val(in.X), fr.val(in.Index)
			fr.env[in] = e.indexAddr(x, i)
			if e.Panics {
				fr.emit("index", indexed(in.X.Type()), []*Term{x, i}, nil, in)
			}
		case *ssa.Index:
			if e.Panics {
				fr.emit("index", indexed(in.X.Type()), []*Term{fr.val(in.X), fr.val(in.Index)}, nil, in)
			}
			fr.env[in] = e.typed(e.index(fr.val(in.X), fr.val(in.Index)), in.Type())
		case *ssa.Store:
			a, v := fr.val(in.Addr), fr.val(in.Val)
			if in.Val.Type() != nil && v.Typ == nil && v.Op != OConst && v.Op != ONil {
				v.Typ = in.Val.Type()
			}
			fr.emit("store", "", []*Term{a, v}, nil, in)
			e.store(st, a, v)
		case *ssa.MapUpdate:
			fr.emit("mapset", "", []*Term{fr.val(in.Map), fr.val(in.Key), fr.val(in.Value)}, nil, in)
			if e.inInit {
				m, k := fr.val(in.Map), fr.val(in.Key)
				e.constMaps[m] = append(e.constMaps[m], constEntry{k, fr.val(in.Value), k.Op == OConst && e.cur == bT && len(e.loopStack) == 0})
			}
		case *ssa.Lookup:
			m, k := fr.val(in.X), fr.val(in.Index)
			v := e.lookup(m, k)
			if _, ok := in.X.Type().Underlying().(*types.Map); e.Panics && !ok {
				fr.emit("index", "string", []*Term{m, k}, nil, in)
			}
			if e.Loads {
				fr.emit("lookup", "", []*Term{m, k}, v, in)
			}
			if in.CommaOk {
				fr.env[in] = e.mk(OTuple, "", e.typed(v, in.Type().(*types.Tuple).At(0).Type()), e.Bool(e.has(m, k)))
			} else {
				fr.env[in] = e.typed(v, in.Type())
			}
		case *ssa.UnOp:
			fr.env[in] = fr.unop(in, st)
		case *ssa.BinOp:
			if e.Panics && (in.Op == token.QUO || in.Op == token.REM) {
				if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					fr.emit("divide", "", []*Term{fr.val(in.Y)}, nil, in)
				}
			}
			fr.env[in] = e.typed(e.bin(in.Op, fr.val(in.X), fr.val(in.Y), in.X.Type()), in.Type())
		case *ssa.ChangeType:
			fr.env[in] = fr.val(in.X)
		case *ssa.ChangeInterface:
			fr.env[in] = fr.val(in.X)
		case *ssa.Convert:
			x := fr.val(in.X)
			if isBytes(in.X.Type()) {
				x = fr.bytesVal(st, x)
			}
			fr.env[in] = e.typed(e.conv(x, in.X.Type(), in.Type()), in.Type())
		case *ssa.MultiConvert:
			fr.env[in] = e.typed(e.conv(fr.val(in.X), in.X.Type(), in.Type()), in.Type())
		case *ssa.SliceToArrayPointer:
			if e.Panics {
				n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
				fr.emit("toarray", fmt.Sprint(n), []*Term{fr.val(in.X)}, nil, in)
			}
			fr.env[in] = fr.val(in.X)
		case *ssa.MakeInterface:
			x := fr.val(in.X)
			fr.env[in] = e.iface(x, in.X.Type())
		case *ssa.TypeAssert:
			if e.Panics && !in.CommaOk {
				_, is := e.assert(fr.val(in.X), in.AssertedType)
				fr.emit("assert", in.AssertedType.String(), []*Term{fr.val(in.X), e.Bool(is)}, nil, in)
			}
			fr.env[in] = e.typeAssert(fr.val(in.X), in)
		case *ssa.MakeClosure:
			var bs []*Term
			for _, b := range in.Bindings {
				bs = append(bs, fr.val(b))
			}
			fn := in.Fn.(*ssa.Function)
			t := e.mkT(in.Type(), OClosure, fn.String(), bs...)
			t.Fn = fn
			fr.env[in] = t
		case *ssa.MakeMap:
			t := e.mkT(in.Type(), OAlloc, fmt.Sprintf("%s:%s/map@%d", fr.fn.String(), in.Name(), fr.cx.id))
			st.cells[cellKey{t, "#live"}] = e.mk(OConst, "1")
			fr.env[in] = t
		case *ssa.MakeChan:
			fr.env[in] = e.mkT(in.Type(), OAlloc, fmt.Sprintf("%s:%s/chan@%d", fr.fn.String(), in.Name(), fr.cx.id))
		case *ssa.MakeSlice:
			n := fr.val(in.Len)
			if k, ok := constInt(n); ok && k == 0 {
				fr.env[in] = e.mkT(in.Type(), OSeq, "", e.mk(ONil, ""))
				break
			}
			t := e.mkT(in.Type(), OMake, fmt.Sprintf("%s:%s@%d", fr.fn.String(), in.Name(), fr.cx.id), n)
			for k := range st.cells {
				if k.root == t {
					delete(st.cells, k)
				}
			}
			st.cells[cellKey{t, "#live"}] = e.mk(OConst, "1")
			fr.env[in] = t
		case *ssa.Slice:
			if e.Panics && (in.Low != nil || in.High != nil || in.Max != nil) {
				fr.emit("slice", indexed(in.X.Type()), []*Term{fr.val(in.X), fr.maybe(in.Low), fr.maybe(in.High), fr.maybe(in.Max)}, nil, in)
			}
			fr.env[in] = e.typed(fr.slice(in, st), in.Type())
		case *ssa.Extract:
			fr.env[in] = e.typed(e.extract(fr.val(in.Tuple), in.Index), in.Type())
		case *ssa.Range:
			if e.Loads {
				fr.emit("lookup", "", []*Term{fr.val(in.X)}, nil, in)
			}
			fr.env[in] = e.mk(OIter, "range", fr.val(in.X))
		case *ssa.Next:
			it := fr.val(in.Iter)
			src := it
			if it.Op == OIter {
				src = it.Args[0]
			}
			ok := e.mk(OHasNext, fmt.Sprintf("%s@%d", in.Name(), fr.cx.id), it)
			if in.IsString && fr.str != "" && src.Op == OConst {
				if s, _ := unquote(src.Aux); s == fr.str {
					k := fr.strAt
					if k >= len(s) {
						fr.env[in] = e.mk(OTuple, "", e.mk(OConst, "false"), e.mk(OConst, "0"), e.mk(OConst, "0"))
					} else {
						fr.env[in] = e.mk(OTuple, "", e.mk(OConst, "true"), e.mk(OConst, fmt.Sprint(k)), e.mk(OConst, fmt.Sprint(s[k])))
					}
					break
				}
			}
			if in.IsString {
				fr.env[in] = e.mk(OTuple, "", ok, e.mk(OKey, "", src), e.mk(OElem, "", src))
				break
			}
			tup := in.Type().(*types.Tuple)
			k, v := e.mk(OKey, "", src), e.mk(OElem, "", src)
			if tup.At(1).Type() != types.Typ[types.Invalid] {
				k = e.typed(k, tup.At(1).Type())
			}
			if tup.At(2).Type() != types.Typ[types.Invalid] {
				v = e.typed(v, tup.At(2).Type())
			}
			fr.env[in] = e.mk(OTuple, "", ok, k, v)
		case *ssa.Call:
			t, nst := fr.call(&in.Call, in, st)
			if nst == nil {
				return nil // does not return
			}
			st = nst
			fr.env[in] = e.typedTuple(t, in.Type())
		case *ssa.Go:
			fn, args := fr.callTerms(&in.Call)
			fr.emit("go", calleeName(&in.Call, fn), append([]*Term{fn}, args...), nil, in)
		case *ssa.Defer:
			call := &in.Call
			fn, args := fr.callTerms(call)
			fr.emit("defer", calleeName(call, fn), append([]*Term{fn}, args...), nil, in)
			d := in
			fr.addDefer(deferRec{c: e.cur, instr: d, run: func(st *State) *State {
				_, ns := fr.callWith(call, fn, args, d, st)
				return ns
			}})
		case *ssa.RunDefers:
			st = fr.runDefers(st)
			if st == nil {
				return nil
			}
		case *ssa.Send:
			fr.emit("send", "", []*Term{fr.val(in.Chan), fr.val(in.X)}, nil, in)
		case *ssa.Select:
			var ts []*Term
			for _, s := range in.States {
				ts = append(ts, fr.val(s.Chan))
			}
			id := fmt.Sprintf("%s@%d", in.Name(), fr.cx.id)
			n := in.Type().(*types.Tuple).Len()
			args := make([]*Term, n)
			for i := range args {
				args[i] = e.mk(OCall, fmt.Sprintf("select%d@%s", i, id), ts...)
			}
			fr.emit("select", "", ts, args[0], in)
			fr.env[in] = e.mk(OTuple, "", args...)
		case *ssa.If:
			c := e.Cond(e.simplify(fr.val(in.Cond)))
			if lc != nil && b == lc.l.header {
				inT, inF := lc.l.blocks[b.Succs[0]], lc.l.blocks[b.Succs[1]]
				if inT != inF {
					member := false
					if x := fr.val(in.Cond); x.Op == OHasNext {
						lc.iter = x.Args[0]
						if lc.iter.Op == OIter {
							lc.iter = lc.iter.Args[0]
						}
						member = inT
					}
					if lc.m.over != nil {
						member = true
					}
					ct, cf := e.cur, e.cur
					if !member {
						if inT {
							ct = e.bdd.And(e.cur, c)
						} else {
							cf = e.bdd.And(e.cur, e.bdd.Not(c))
						}
					}
					return []edge{fr.out(b, 0, ct, st), fr.out(b, 1, cf, st.clone())}
				}
			}
			ct, cf := e.bdd.And(e.cur, c), e.bdd.And(e.cur, e.bdd.Not(c))
			var out []edge
			if ct != bF {
				out = append(out, fr.out(b, 0, ct, st))
			}
			if cf != bF {
				out = append(out, fr.out(b, 1, cf, st.clone()))
			}
			return out
		case *ssa.Jump:
			return []edge{fr.out(b, 0, e.cur, st)}
		case *ssa.Return:
			var v *Term
			switch len(in.Results) {
			case 0:
				v = e.mk(OTuple, "")
			case 1:
				v = fr.val(in.Results[0])
			default:
				var ts []*Term
				for _, r := range in.Results {
					ts = append(ts, fr.val(r))
				}
				v = e.mk(OTuple, "", ts...)
			}
			fr.rets = append(fr.rets, retRec{e.cur, v, st})
			return nil
		case *ssa.Panic:
			fr.emit("panic", "", []*Term{fr.val(in.X)}, nil, in)
			return nil
		default:
			e.note(fmt.Sprintf("unsupported instruction %T", in), in.Pos())
			if v, ok := in.(ssa.Value); ok {
				fr.env[v] = e.mkT(v.Type(), OOpaque, fmt.Sprintf("%s@%d", v.Name(), fr.cx.id))
			}
		}
	}
	return nil
}

func (fr *frame) addDefer(d deferRec) {
	for i, x := range fr.defers {
		if x.instr == d.instr {
			// the same statement again, in a later pass over a loop
			fr.defers[i] = d
			return
		}
	}
	fr.defers = append(fr.defers, d)
}

func (fr *frame) runDefers(st *State) *State {
	e := fr.e
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		here := e.cur
		both := e.bdd.And(here, d.c)
		if both == bF {
			continue
		}
		e.cur = both
		ns := d.run(st.clone())
		ran := e.cur
		if ns == nil {
			ran = bF
		}
		rest := e.bdd.And(here, e.bdd.Not(d.c))
		var es []edge
		if ran != bF {
			es = append(es, edge{c: ran, st: ns})
		}
		if rest != bF {
			es = append(es, edge{c: rest, st: st})
		}
		if len(es) == 0 {
			return nil
		}
		e.cur = e.bdd.Or(ran, rest)
		st = e.mergeStates(es, e.cur)
	}
	return st
}

// deref notes that memory behind x is accessed here.
func (fr *frame) deref(x *Term, typ types.Type, in ssa.Instruction) {
	e := fr.e
	if e.suppress > 0 {
		return
	}
	p, ok := typ.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	if !isProtoMsg(p) && !(e.Panics && isOneof(p)) {
		return
	}
	fr.emit("deref", "", []*Term{x}, nil, in)
}

func (e *Engine) addrChoice(x *Term, path string) *Term {
	if x.Op == OAddr {
		return e.mk(OAddr, x.Aux+path, x.Args[0])
	}
	return e.mk(OAddr, path, x)
}

func (e *Engine) indexAddr(x, i *Term) *Term {
	switch x.Op {
	case OChoice:
		var arms []Arm
		for _, a := range x.Arms {
			arms = append(arms, Arm{a.C, e.indexAddr(a.T, i)})
		}
		return e.Choice(arms)
	case OArrSlice:
		return e.addrChoice(x.Args[0], e.idxPath(x, i))
	}
	return e.addrChoice(x, e.idxPath(x, i))
}

func (e *Engine) lookup(m, k *Term) *Term {
	if m.Op == OChoice {
		var arms []Arm
		for _, a := range m.Arms {
			arms = append(arms, Arm{a.C, e.lookup(a.T, k)})
		}
		return e.Choice(arms)
	}
	if ents, ok := e.constMap(m); ok && k.Op != OConst {
		var arms []Arm
		rest := bT
		for _, x := range ents {
			c := e.Cond(e.eq(x.k, k, k.Typ))
			arms = append(arms, Arm{e.bdd.And(rest, c), x.v})
			rest = e.bdd.And(rest, e.bdd.Not(c))
		}
		if mt, ok := m.Typ.Underlying().(*types.Map); ok {
			return e.Choice(append(arms, Arm{rest, e.zero(mt.Elem())}))
		}
	} else if ok {
		for _, x := range ents {
			if x.k == k {
				return x.v
			}
		}
	}
	return e.mk(OIndex, "", m, k)
}

type constEntry struct {
	k, v *Term
	ok   bool
}

// constMap is the content of a package variable which is a map of constants that is only read.
func (e *Engine) constMap(m *Term) ([]constEntry, bool) {
	ents := e.constMaps[m]
	if len(ents) == 0 || len(ents) > 64 {
		return nil, false
	}
	seen := map[*Term]bool{}
	for _, x := range ents {
		if !x.ok || seen[x.k] {
			return nil, false
		}
		seen[x.k] = true
	}
	return ents, true
}

func (e *Engine) has(m, k *Term) B {
	if m.Op == OChoice {
		out := bF
		for _, a := range m.Arms {
			out = e.bdd.Or(out, e.bdd.And(a.C, e.has(a.T, k)))
		}
		return out
	}
	if ents, ok := e.constMap(m); ok {
		out := bF
		for _, x := range ents {
			out = e.bdd.Or(out, e.Cond(e.eq(x.k, k, k.Typ)))
		}
		return out
	}
	return e.Cond(e.mk(OHas, "", m, k))
}

func (e *Engine) extract(t *Term, i int) *Term {
	switch t.Op {
	case OTuple:
		if i < len(t.Args) {
			return t.Args[i]
		}
	case OChoice:
		var arms []Arm
		for _, a := range t.Arms {
			arms = append(arms, Arm{a.C, e.extract(a.T, i)})
		}
		return e.Choice(arms)
	}
	return e.mk(OExtract, fmt.Sprint(i), t)
}

func (e *Engine) typedTuple(t *Term, typ types.Type) *Term {
	if tup, ok := typ.(*types.Tuple); ok {
		if t.Op == OTuple && len(t.Args) == tup.Len() {
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = e.typed(a, tup.At(i).Type())
			}
			return e.mk(OTuple, "", args...)
		}
		if tup.Len() > 1 && t.Op != OTuple {
			args := make([]*Term, tup.Len())
			for i := range args {
				args[i] = e.typed(e.extract(t, i), tup.At(i).Type())
			}
			return e.mk(OTuple, "", args...)
		}
		return t
	}
	return e.typed(t, typ)
}

func (fr *frame) unop(in *ssa.UnOp, st *State) *Term {
	e := fr.e
	x := fr.val(in.X)
	switch in.Op {
	case token.MUL:
		v := e.load(st, x, in.Type())
		if e.Loads {
			for _, g := range e.targets(x) {
				if !isFresh(g.root) {
					fr.emit("load", "", []*Term{e.mk(OAddr, g.path, g.root)}, v, in)
				}
			}
		}
		return v
	case token.NOT:
		return e.Bool(e.bdd.Not(e.Cond(x)))
	case token.ARROW:
		t := e.mk(OCall, fmt.Sprintf("recv@%s@%d", in.Name(), fr.cx.id), x)
		fr.emit("recv", "", []*Term{x}, t, in)
		if in.CommaOk {
			return e.mk(OTuple, "", t, e.mk(OExtract, "ok", t))
		}
		return t
	case token.SUB, token.XOR:
		if x.Op == OConst && in.Op == token.SUB {
			if k, ok := constInt(x); ok {
				return e.mk(OConst, fmt.Sprint(-k))
			}
		}
		if x.Op == OConst {
			v := constant.MakeFromLiteral(x.Aux, token.INT, 0)
			if v.Kind() == constant.Int {
				var prec uint
				if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
					prec = 64
				}
				return e.mk(OConst, constant.UnaryOp(in.Op, v, prec).ExactString())
			}
		}
		return e.mkT(in.Type(), OUn, in.Op.String(), x)
	}
	return e.mkT(in.Type(), OUn, in.Op.String(), x)
}

func (e *Engine) dist1(x *Term, f func(*Term) *Term) *Term {
	if x.Op == OChoice {
		arms := make([]Arm, len(x.Arms))
		for i, a := range x.Arms {
			arms[i] = Arm{a.C, f(a.T)}
		}
		return e.Choice(arms)
	}
	return f(x)
}

func (e *Engine) dist2(x, y *Term, f func(x, y *Term) *Term) *Term {
	if (x.Op == OChoice || y.Op == OChoice) && len(x.arms())*len(y.arms()) <= 36 {
		var arms []Arm
		for _, a := range x.arms() {
			for _, b := range y.arms() {
				c := e.bdd.And(a.C, b.C)
				if c != bF {
					arms = append(arms, Arm{c, f(a.T, b.T)})
				}
			}
		}
		return e.Choice(arms)
	}
	return f(x, y)
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) bin(op token.Token, x, y *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return e.dist2(x, y, func(x, y *Term) *Term { return e.eq(x, y, typ) })
	case token.NEQ:
		t := e.dist2(x, y, func(x, y *Term) *Term { return e.eq(x, y, typ) })
		return e.Bool(e.bdd.Not(e.Cond(t)))
	case token.LSS:
		return e.dist2(x, y, func(x, y *Term) *Term { return e.lt(x, y) })
	case token.GTR:
		return e.dist2(x, y, func(x, y *Term) *Term { return e.lt(y, x) })
	case token.LEQ:
		return e.dist2(x, y, func(x, y *Term) *Term { return e.Bool(e.bdd.Not(e.Cond(e.lt(y, x)))) })
	case token.GEQ:
		return e.dist2(x, y, func(x, y *Term) *Term { return e.Bool(e.bdd.Not(e.Cond(e.lt(x, y)))) })
	case token.AND:
		if typ != nil {
			if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				return e.Bool(e.bdd.And(e.Cond(x), e.Cond(y)))
			}
		}
	}
	if op == token.ADD && typ != nil && isStringType(typ) {
		return e.dist2(x, y, func(x, y *Term) *Term { return e.concat(x, y) })
	}
	return e.dist2(x, y, func(x, y *Term) *Term { return e.arith(op, x, y) })
}

func (e *Engine) arith(op token.Token, x, y *Term) *Term {
	if x.Op == OConst && y.Op == OConst {
		a, b := constant.MakeFromLiteral(x.Aux, token.INT, 0), constant.MakeFromLiteral(y.Aux, token.INT, 0)
		if a.Kind() == constant.Int && b.Kind() == constant.Int {
			switch op {
			case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
				return e.mk(OConst, constant.BinaryOp(a, op, b).ExactString())
			case token.QUO, token.REM:
				if constant.Sign(b) != 0 {
					if op == token.QUO {
						op = token.QUO_ASSIGN
					}
					return e.mk(OConst, constant.BinaryOp(a, op, b).ExactString())
				}
			case token.SHL, token.SHR:
				if s, ok := constant.Uint64Val(b); ok && s < 512 {
					return e.mk(OConst, constant.Shift(a, op, uint(s)).ExactString())
				}
			}
		}
	}
	if op == token.ADD || op == token.SUB {
		// x ± a ± b
		if k, ok := constInt(y); ok {
			if op == token.SUB {
				k = -k
			}
			if x.Op == OBin && (x.Aux == "-" || x.Aux == "+") {
				if k2, ok := constInt(x.Args[1]); ok {
					if x.Aux == "-" {
						k2 = -k2
					}
					return e.addConst(x.Args[0], k+k2)
				}
			}
			return e.addConst(x, k)
		}
		if k, ok := constInt(x); ok && op == token.ADD {
			return e.addConst(y, k)
		}
	}
	if op == token.MUL || op == token.ADD || op == token.AND || op == token.OR || op == token.XOR {
		if x.ID > y.ID {
			x, y = y, x
		}
	}
	if op == token.SHL {
		// x << k is x * 2^k
		if k, ok := constInt(y); ok && k >= 0 && k < 62 {
			return e.arith(token.MUL, x, e.mk(OConst, fmt.Sprint(int64(1)<<k)))
		}
	}
	if op == token.MUL {
		for _, p := range [][2]*Term{{x, y}, {y, x}} {
			if k, ok := constInt(p[0]); ok && k == 1 {
				return p[1]
			}
		}
	}
	return e.mk(OBin, op.String(), x, y)
}

func (e *Engine) addConst(x *Term, k int64) *Term {
	if c, ok := constInt(x); ok {
		return e.mk(OConst, fmt.Sprint(c+k))
	}
	switch {
	case k == 0:
		return x
	case k > 0:
		return e.mk(OBin, "+", x, e.mk(OConst, fmt.Sprint(k)))
	}
	return e.mk(OBin, "-", x, e.mk(OConst, fmt.Sprint(-k)))
}

func nonNil(t *Term) bool {
	switch t.Op {
	case OAlloc, OAddr, OClosure, OFunc, OGlobal, OMake, OArrSlice, OIface, OStruct:
		return true
	case OSeq:
		for _, p := range t.Args[1:] {
			if p.Op == OItem {
				return true
			}
		}
	}
	return false
}

func isSliceLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// oneofWrapper: t is the generated type of one of the members of a oneof.
func oneofWrapper(t types.Type) bool {
	if t == nil {
		return true
	}
	s, ok := elemOf(t).(*types.Struct)
	return ok && s.NumFields() == 1 && strings.Contains(s.Tag(0), ",oneof")
}

func (e *Engine) eq(x, y *Term, typ types.Type) *Term {
	if x == y {
		return e.Bool(bT)
	}
	if x.Op == OConst && y.Op == OConst {
		return e.Bool(bF)
	}
	if y.Op == ONil || y.Op == OConst {
		x, y = y, x
	}
	// x is the constant, if any
	if x.Op == OConst && x.Aux == "0" && y.Op == OIndex && y.Args[0].Op == OCall && strings.HasPrefix(y.Args[0].Aux, "(time.Time).Format") {
		// times are written in digits and letters
		return e.Bool(bF)
	}
	if x.Op == ONil {
		if nonNil(y) {
			return e.Bool(bF)
		}
		if y.Op == OSeq || (typ != nil && isSliceLike(typ)) {
			return e.isEmpty(y)
		}
		if y.Op == OZero {
			return e.Bool(bT)
		}
		if y.Op == OField && y.Aux == "*" && y.Args[0].Op == OGlobal && typ != nil && types.Identical(typ, errorType) {
			// io.EOF and the like
			return e.Bool(bF)
		}
		if y.Op == OCall {
			n := strings.TrimPrefix(y.Aux, "github.com/pkg/")
			switch {
			case n == "errors.Join":
				all := bT
				for _, a := range y.Args {
					if a.Op == OSpread {
						all = e.bdd.And(all, e.Cond(e.mk(OEq, "", x, a)))
					} else {
						all = e.bdd.And(all, e.Cond(e.dist1(a, func(a *Term) *Term { return e.eq(x, a, errorType) })))
					}
				}
				return e.Bool(all)
			case n == "errors.New", n == "fmt.Errorf", n == "errors.Errorf":
				return e.Bool(bF)
			case n == "errors.Wrap", n == "errors.Wrapf", n == "errors.WithMessage", n == "errors.WithStack", n == "errors.WithMessagef":
				return e.eq(x, y.Args[0], typ)
			}
		}
		// the message inside a oneof wrapper
		if y.Op == OField && y.Args[0].Op == OAssert && oneofWrapper(y.Args[0].Typ) {
			return e.Bool(bF)
		}
		return e.mk(OEq, "", x, y)
	}
	if x.Op == OConst {
		switch x.Aux {
		case `""`:
			return e.isEmpty(y)
		case "true":
			return e.Bool(e.Cond(y))
		case "false":
			return e.Bool(e.bdd.Not(e.Cond(y)))
		case "0":
			if y.Op == OLen {
				return e.isEmpty(y.Args[0])
			}
		}
		return e.mk(OEq, "", x, y)
	}
	if y.isBool() && x.isBool() {
		a, b := e.Cond(x), e.Cond(y)
		return e.Bool(e.bdd.Ite(a, b, e.bdd.Not(b)))
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return e.mk(OEq, "", x, y)
}

func (e *Engine) lt(x, y *Term) *Term {
	if x == y {
		return e.Bool(bF)
	}
	a, okA := constInt(x)
	b, okB := constInt(y)
	if okA && okB {
		return e.Bool(boolB(a < b))
	}
	if okA && y.Op == OLen {
		if a == 0 {
			return e.Bool(e.bdd.Not(e.Cond(e.isEmpty(y.Args[0]))))
		}
		if a < 0 {
			return e.Bool(bT)
		}
	}
	if okB && x.Op == OLen {
		if b == 1 {
			return e.isEmpty(x.Args[0])
		}
		if b <= 0 {
			return e.Bool(bF)
		}
	}
	if okB && b == 0 && x.Typ != nil {
		if t, ok := x.Typ.Underlying().(*types.Basic); ok && t.Info()&types.IsUnsigned != 0 {
			return e.Bool(bF)
		}
	}
	if okA && a == 0 && y.Typ != nil {
		// 0 < y is y != 0 for unsigned y
		if t, ok := y.Typ.Underlying().(*types.Basic); ok && t.Info()&types.IsUnsigned != 0 {
			return e.Bool(e.bdd.Not(e.Cond(e.eq(x, y, y.Typ))))
		}
	}
	return e.mk(OLt, "", x, y)
}

func boolB(b bool) B {
	if b {
		return bT
	}
	return bF
}

func (e *Engine) isEmpty(x *Term) *Term {
	switch x.Op {
	case ONil, OZero:
		return e.Bool(bT)
	case OConst:
		return e.Bool(boolB(x.Aux == `""`))
	case OSeq:
		r := e.Cond(e.isEmpty(x.Args[0]))
		for _, p := range x.Args[1:] {
			if p.Op == OItem {
				return e.Bool(bF)
			}
			r = e.bdd.And(r, e.Cond(e.isEmpty(p.Args[0])))
		}
		return e.Bool(r)
	case OChoice:
		return e.dist1(x, e.isEmpty)
	case OSet:
		if len(x.Args) > 1 {
			return e.Bool(bF)
		}
		return e.isEmpty(x.Args[0])
	case OMake:
		return e.dist1(x.Args[0], func(n *Term) *Term {
			if n.Op == OLen {
				return e.isEmpty(n.Args[0])
			}
			return e.eq(e.mk(OConst, "0"), n, nil)
		})
	case OHex, ONum, OU64:
		if x.Op != OHex {
			return e.Bool(bF)
		}
		return e.isEmpty(x.Args[0])
	}
	return e.mk(OIsEmpty, "", x)
}

func (e *Engine) length(x *Term) *Term {
	switch x.Op {
	case ONil, OZero:
		return e.mk(OConst, "0")
	case OConst:
		if s, ok := unquote(x.Aux); ok {
			return e.mk(OConst, fmt.Sprint(len(s)))
		}
	case OMake:
		return x.Args[0]
	case OArrSlice:
		if p, ok := x.Args[0].Typ.(*types.Pointer); ok && x.Args[0].Typ != nil {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				if x.Aux == "" {
					return e.mk(OConst, fmt.Sprint(a.Len()))
				}
				lo, hi, _ := strings.Cut(x.Aux, ":")
				if lo == "" {
					lo = "0"
				}
				if hi == "" {
					hi = fmt.Sprint(a.Len())
				}
				i, err1 := strconv.Atoi(lo)
				j, err2 := strconv.Atoi(hi)
				if err1 == nil && err2 == nil {
					return e.mk(OConst, fmt.Sprint(j-i))
				}
			}
		}
	case OChoice:
		return e.dist1(x, e.length)
	case OSeq:
		if x.Args[0].Op == ONil {
			n := 0
			for _, p := range x.Args[1:] {
				if p.Op != OItem {
					return e.mk(OLen, "", x)
				}
				n++
			}
			return e.mk(OConst, fmt.Sprint(n))
		}
	}
	return e.mk(OLen, "", x)
}

func unquote(s string) (string, bool) {
	if len(s) < 2 || s[0] != '"' {
		return "", false
	}
	var out string
	if _, err := fmt.Sscanf(s, "%q", &out); err != nil {
		return "", false
	}
	return out, true
}

// concat joins two byte sequences (or strings).
func (e *Engine) concat(x, y *Term) *Term {
	pieces := append(e.pieces(x), e.pieces(y)...)
	return e.bytesOf(pieces)
}

// pieces lists the parts of a byte sequence.
func (e *Engine) pieces(x *Term) []*Term {
	switch x.Op {
	case ONil:
		return nil
	case OZero:
		return nil
	case OConst:
		if x.Aux == `""` {
			return nil
		}
		return []*Term{e.mk(OSpread, "", x)}
	case OSeq:
		out := e.pieces(x.Args[0])
		for _, p := range x.Args[1:] {
			if p.Op == OSpread {
				out = append(out, e.pieces(p.Args[0])...)
				continue
			}
			out = append(out, p)
		}
		return out
	}
	return []*Term{e.mk(OSpread, "", x)}
}

func (e *Engine) bytesOf(ps []*Term) *Term {
	var out []*Term
	cs := ""
	flush := func() {
		if cs != "" {
			out = append(out, e.mk(OSpread, "", e.mk(OConst, fmt.Sprintf("%q", cs))))
			cs = ""
		}
	}
	for _, p := range ps {
		a := p.Args[0]
		if p.Op == OSpread && a.Op == OConst {
			if s, ok := unquote(a.Aux); ok {
				cs += s
				continue
			}
		}
		if p.Op == OItem && a.Op == OConst {
			if k, ok := constInt(a); ok {
				cs += string([]byte{byte(k)})
				continue
			}
		}
		flush()
		out = append(out, p)
	}
	flush()
	if len(out) == 0 {
		return e.mk(OConst, `""`)
	}
	if len(out) == 1 && out[0].Op == OSpread {
		return out[0].Args[0]
	}
	return e.mk(OSeq, "b", append([]*Term{e.mk(ONil, "")}, out...)...)
}

func sameBasic(a, b types.Type) bool {
	x, ok1 := a.Underlying().(*types.Basic)
	y, ok2 := b.Underlying().(*types.Basic)
	return ok1 && ok2 && x.Kind() == y.Kind()
}

func isBytes(t types.Type) bool {
	if isStringType(t) {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *Engine) conv(x *Term, from, to types.Type) *Term {
	if sameBasic(from, to) || (isBytes(from) && isBytes(to)) {
		return x
	}
	if x.Op == OConst {
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if _, ok := constInt(x); ok && !strings.Contains(x.Aux, ".") {
				return x
			}
		}
	}
	return e.dist1(x, func(x *Term) *Term {
		return e.mkT(to, OConv, to.Underlying().String(), x)
	})
}

func (e *Engine) iface(x *Term, typ types.Type) *Term {
	if x.Op == OChoice {
		return e.dist1(x, func(y *Term) *Term { return e.iface(y, typ) })
	}
	return e.mkT(typ, OIface, typ.String(), x)
}

func (e *Engine) typeAssert(x *Term, in *ssa.TypeAssert) *Term {
	v, ok := e.assert(x, in.AssertedType)
	if in.CommaOk {
		return e.mk(OTuple, "", e.typed(v, in.AssertedType), e.Bool(ok))
	}
	return e.typed(v, in.AssertedType)
}

func (e *Engine) assert(x *Term, to types.Type) (*Term, B) {
	switch x.Op {
	case OChoice:
		var arms []Arm
		ok := bF
		for _, a := range x.Arms {
			v, o := e.assert(a.T, to)
			ok = e.bdd.Or(ok, e.bdd.And(a.C, o))
			arms = append(arms, Arm{a.C, v})
		}
		return e.Choice(arms), ok
	case ONil, OZero:
		return e.mk(OZero, ""), bF
	case OIface:
		if types.IsInterface(to) {
			if types.Implements(x.Typ, to.Underlying().(*types.Interface)) {
				return x, bT
			}
			return e.mk(OZero, ""), bF
		}
		if types.Identical(x.Typ, to) {
			return x.Args[0], bT
		}
		return e.mk(OZero, ""), bF
	}
	if types.IsInterface(to) {
		// keep the value: only the method set changes
		return x, e.Cond(e.mk(OTypeIs, to.String(), x))
	}
	c := e.Cond(e.mkT(to, OTypeIs, to.String(), x))
	return e.mkT(to, OAssert, to.String(), x), c
}

func (fr *frame) slice(in *ssa.Slice, st *State) *Term {
	e := fr.e
	x := fr.val(in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = fr.val(in.Low)
	}
	if in.High != nil {
		hi = fr.val(in.High)
	}
	if hi != nil {
		if k, ok := constInt(hi); ok && k == 0 {
			return e.mk(OSeq, "", e.mk(ONil, ""))
		}
	}
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		arr, ok := p.Elem().Underlying().(*types.Array)
		if ok {
			full := (lo == nil || lo.Aux == "0") && (hi == nil || hi.Aux == fmt.Sprint(arr.Len()))
			al, isAlloc := in.X.(*ssa.Alloc)
			if isAlloc && (al.Comment == "slicelit" || al.Comment == "varargs") && full {
				args := []*Term{e.mk(ONil, "")}
				for i := int64(0); i < arr.Len(); i++ {
					v := e.load(st, e.addrChoice(x, fmt.Sprintf("[%d]", i)), arr.Elem())
					args = append(args, e.mk(OItem, "", v))
				}
				return e.mk(OSeq, "", args...)
			}
			if isAlloc && full {
				if v := e.load(st, x, p.Elem()); v.Op == OCall && strings.HasPrefix(v.Aux, "digest ") {
					return v
				}
			}
			rng := ""
			if !full {
				rng = termText(lo) + ":" + termText(hi)
			}
			t := e.mk(OArrSlice, rng, x)
			return t
		}
	}
	zeroLo := lo == nil || lo.Aux == "0"
	if zeroLo && hi == nil {
		return x
	}
	if zeroLo && hi != nil && hi.Op == OLen && hi.Args[0] == x {
		return x
	}
	if x.Op == OConst && lo != nil && hi == nil {
		if s, ok := unquote(x.Aux); ok {
			if k, ok := constInt(lo); ok && int(k) <= len(s) {
				return e.mk(OConst, fmt.Sprintf("%q", s[k:]))
			}
		}
	}
	if x.Op == OSeq && (zeroLo || hi == nil) {
		// cut where something was appended
		cut := hi
		if hi == nil {
			cut = lo
		}
		ps := e.pieces(x)
		for k := 1; k < len(ps); k++ {
			if e.length(e.bytesOf(ps[:k])) == cut {
				if hi == nil {
					return e.bytesOf(ps[k:])
				}
				return e.bytesOf(ps[:k])
			}
		}
	}
	if lo == nil {
		lo = e.mk(OConst, "0")
	}
	if hi == nil {
		hi = e.mk(OUndef, "")
	}
	return e.mk(OSub, "", x, lo, hi)
}

func termText(t *Term) string {
	if t == nil {
		return ""
	}
	if t.Op == OConst {
		return t.Aux
	}
	return fmt.Sprintf("#%d", t.ID)
}

// indexed names what an index or slice expression applies to.
func indexed(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		return fmt.Sprintf("array %d", u.Len())
	case *types.Basic:
		return "string"
	}
	return "slice"
}

// maybe is the value of an operand that can be left out.
func (fr *frame) maybe(v ssa.Value) *Term {
	if v == nil {
		return fr.e.mk(OUndef, "")
	}
	return fr.val(v)
}
