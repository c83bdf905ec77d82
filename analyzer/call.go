package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State)

// ---- who is called

func (fr *frame) callTerms(call *ssa.CallCommon) (*Term, []*Term) {
	e := fr.e
	var args []*Term
	var fn *Term
	if call.IsInvoke() {
		fn = e.mk(OFunc, "invoke "+call.Method.FullName())
		args = append(args, fr.val(call.Value))
	} else {
		fn = fr.val(call.Value)
	}
	for _, a := range call.Args {
		args = append(args, fr.val(a))
	}
	return fn, args
}

func calleeName(call *ssa.CallCommon, fn *Term) string {
	if call.IsInvoke() {
		return call.Method.FullName()
	}
	if f := call.StaticCallee(); f != nil {
		return fnName(f)
	}
	if fn != nil && fn.Fn != nil {
		return fnName(fn.Fn)
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return "dynamic"
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (fr *frame) call(call *ssa.CallCommon, in ssa.Instruction, st *State) (*Term, *State) {
	fn, args := fr.callTerms(call)
	return fr.callWith(call, fn, args, in, st)
}

// split runs f for every alternative of t.
func (fr *frame) split(t *Term, st *State, f func(t *Term, st *State) (*Term, *State)) (*Term, *State) {
	e := fr.e
	if t.Op != OChoice {
		return f(t, st)
	}
	entry := e.cur
	var arms []Arm
	var es []edge
	total := bF
	for _, a := range t.Arms {
		if a.T.Op == ONil || a.T.Op == OUndef || a.T.Op == OZero {
			continue
		}
		c := e.bdd.And(entry, a.C)
		if c == bF {
			continue
		}
		e.cur = c
		r, ns := f(a.T, st.clone())
		if ns == nil {
			continue
		}
		total = e.bdd.Or(total, e.cur)
		arms = append(arms, Arm{e.cur, r})
		es = append(es, edge{c: e.cur, st: ns})
	}
	e.cur = total
	if len(es) == 0 {
		return e.mk(OUndef, ""), nil
	}
	for i := range arms {
		arms[i].C = e.bdd.Cof(arms[i].C, total)
	}
	return e.choiceTuple(arms), e.mergeStates(es, total)
}

func (fr *frame) callWith(call *ssa.CallCommon, fn *Term, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
	e := fr.e
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return fr.builtin(b.Name(), call, args, in, st)
	}
	if call.IsInvoke() {
		return fr.split(args[0], st, func(recv *Term, st *State) (*Term, *State) {
			as := append([]*Term{recv}, args[1:]...)
			if recv.Op == OIface {
				as[0] = recv.Args[0]
				typ := recv.Typ
				sel := types.NewMethodSet(typ).Lookup(call.Method.Pkg(), call.Method.Name())
				if sel != nil {
					if f := e.P.Prog.MethodValue(sel); f != nil {
						// promoted methods of external types keep their wrapper
						return fr.callFn(f, as, nil, in, st)
					}
				}
			}
			return fr.named(call.Method.FullName(), nil, call.Signature(), as, in, st)
		})
	}
	return fr.split(fn, st, func(fn *Term, st *State) (*Term, *State) {
		return fr.apply(fn, args, in, st, call.Signature())
	})
}

// apply calls the function value fn.
func (fr *frame) apply(fn *Term, args []*Term, in ssa.Instruction, st *State, sig *types.Signature) (*Term, *State) {
	switch fn.Op {
	case OClosure:
		return fr.callFn(fn.Fn, args, fn.Args, in, st)
	case OFunc:
		if fn.Fn != nil {
			return fr.callFn(fn.Fn, args, nil, in, st)
		}
	case OIface:
		return fr.apply(fn.Args[0], args, in, st, sig)
	}
	return fr.named("dynamic", fn, sig, args, in, st)
}

func (fr *frame) siteKey(in ssa.Instruction) string {
	n := ""
	if v, ok := in.(ssa.Value); ok {
		n = v.Name()
	} else if in != nil && in.Block() != nil {
		for i, x := range in.Block().Instrs {
			if x == in {
				n = fmt.Sprintf("b%d.%d", in.Block().Index, i)
			}
		}
	}
	return fmt.Sprintf("%s:%s@%d", fr.fn.String(), n, fr.cx.id)
}

func (fr *frame) callFn(fn *ssa.Function, args, free []*Term, in ssa.Instruction, st *State) (*Term, *State) {
	e := fr.e
	name := fnName(fn)
	if h := e.Hook[name]; h != nil {
		return fr.noteErr(name, fn.Signature, in)(h(fr, name, args, in, st))
	}
	if m := models[name]; m != nil {
		return fr.noteErr(name, fn.Signature, in)(m(fr, name, args, in, st))
	}
	e.curSt = st
	t, ok := e.protoGetter(fn, args)
	e.curSt = nil
	if ok {
		return t, st
	}
	pk := fnPkg(fn)
	repo := e.P.isRepo(pk)
	if fn.Blocks != nil && !(repo && e.P.isGen(fn)) && (e.Opaque == nil || !e.Opaque(fn)) && !fr.cx.has(fn) && fr.cx.depth() < e.MaxDepth {
		cx := &Ctx{id: e.ctxID(fr.cx, in, ""), parent: fr.cx, fn: fn, site: in}
		if repo && fn.Synthetic == "" {
			e.fns++
		}
		fr.emit("enter", name, args, nil, in)
		return e.evalFn(fn, args, free, st, cx)
	}
	return fr.named(name, nil, fn.Signature, args, in, st)
}

var purePrefixes = []string{
	"strings.", "strconv.", "(time.Time).", "time.Unix", "time.Date", "time.ParseDuration", "time.Parse", "(time.Duration).", "math.", "encoding/hex.",
	"bytes.", "path/filepath.", "path.", "errors.Is", "errors.As", "unicode", "(net/url", "slices.Equal", "slices.Contains", "slices.Index", "slices.Max", "slices.Min", "maps.Equal",
	"github.com/gernest/rbf/quantum.", "(github.com/gernest/rbf/quantum",
	"(*google.golang.org/protobuf/types/known/timestamppb.Timestamp).", "(*google.golang.org/protobuf/types/known/durationpb.Duration).",
	"google.golang.org/protobuf/types/known/timestamppb.New", "google.golang.org/protobuf/types/known/durationpb.New",
	"(*google.golang.org/protobuf/types/known/timestamppb", "(*google.golang.org/protobuf/types/known/durationpb",
	"google.golang.org/protobuf/proto.Marshal", "(google.golang.org/protobuf/proto.MarshalOptions).Marshal", "google.golang.org/protobuf/proto.Equal", "google.golang.org/protobuf/proto.Clone",
	"(reflect.", "reflect.", "fmt.Sprint", "github.com/pkg/errors.", "errors.New", "fmt.Errorf",
	"(go.opentelemetry.io/otel", "(*go.opentelemetry.io/otel/attribute", "go.opentelemetry.io/otel/attribute", "(go.opentelemetry.io/otel/sdk",
	"(context.Context).", "(error).Error", "(*github.com/apache/arrow/go/v17/parquet/schema.", "(github.com/apache/arrow/go/v17/arrow.Record).Num",
}

// fillsArg: what the call is for is to change what it was given.
func fillsArg(name string) bool {
	m := methodBase(name)
	return strings.HasPrefix(m, "Unmarshal") || strings.Contains(m, "scan") || strings.HasPrefix(m, "Scan") || m == "As" || m == "Set"
}

var noMutate = []string{"log/slog.", "(*log/slog.", "fmt.", "errors.", "log.", "(github.com/apache/arrow"}

func isPure(name string) bool {
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) {
			return !strings.HasPrefix(name, "time.Now")
		}
	}
	return false
}

var noReturn = map[string]bool{"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "runtime.Goexit": true}

// named calls something whose body is not analysed.
func (fr *frame) named(name string, fn *Term, sig *types.Signature, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
	e := fr.e
	if h := e.Hook[name]; h != nil {
		return fr.noteErr(name, sig, in)(h(fr, name, args, in, st))
	}
	if m := models[name]; m != nil {
		return fr.noteErr(name, sig, in)(m(fr, name, args, in, st))
	}
	if i := strings.LastIndexByte(name, '.'); i > 0 && strings.HasSuffix(name[:i], ")") && strings.HasPrefix(name[i+1:], "Get") && len(args) == 1 {
		// getter through an interface
		e.curSt = st
		t, ok := e.getterByName(args[0], name[i+4:])
		e.curSt = nil
		if ok {
			return t, st
		}
	}
	return fr.outside(name, fn, sig, args, in, st)
}

// outside calls something of which nothing is known.
func (fr *frame) outside(name string, fn *Term, sig *types.Signature, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
	e := fr.e
	vals := make([]*Term, len(args))
	for i, a := range args {
		vals[i] = fr.bytesVal(st, a)
	}
	if noReturn[name] {
		fr.emit("call", name, vals, nil, in)
		return e.mk(OUndef, ""), nil
	}
	targs := vals
	if fn != nil {
		targs = append([]*Term{fn}, vals...)
	}
	aux := name
	pure := isPure(name) || e.Pure != nil && e.Pure(name)
	if !pure {
		aux = name + "@" + fr.siteKey(in)
	}
	res := e.mk(OCall, aux, targs...)
	out := res
	if sig != nil {
		switch n := sig.Results().Len(); {
		case n == 1:
			e.typed(res, sig.Results().At(0).Type())
		case n > 1:
			ts := make([]*Term, n)
			for i := range ts {
				ts[i] = e.typed(e.mk(OExtract, fmt.Sprint(i), res), sig.Results().At(i).Type())
			}
			out = e.mk(OTuple, "", ts...)
		}
	}
	ef := fr.emit("call", name, targs, out, in)
	_ = ef
	fr.noteErr(name, sig, in)(out, st)
	if pure {
		return out, st
	}
	// functions handed over may be called any number of times
	for _, a := range args {
		st = fr.callbacks(a, name, in, st)
	}
	mut := true
	for _, p := range noMutate {
		if strings.HasPrefix(name, p) && !fillsArg(name) {
			mut = false
		}
	}
	if mut {
		for i, a := range args {
			x := a
			if x.Op == OIface {
				x = x.Args[0]
			}
			root := x
			path := ""
			if x.Op == OAddr {
				root, path = x.Args[0], x.Aux
			}
			if root.Op == OAlloc {
				if p, ok := root.Typ.(*types.Pointer); ok {
					if isProtoMsg(p) {
						continue
					}
					e.setCell(st, root, path, e.mk(OOpaque, fmt.Sprintf("after %s#%d", aux, i), root))
					st.cells[cellKey{root, "#live"}] = e.mk(OConst, "1")
				}
			}
		}
	}
	return out, st
}

// noteErr records where an error comes into the analysed code.
func (fr *frame) noteErr(name string, sig *types.Signature, in ssa.Instruction) func(*Term, *State) (*Term, *State) {
	return func(out *Term, st *State) (*Term, *State) {
		if sig == nil || st == nil || out == nil {
			return out, st
		}
		n := sig.Results().Len()
		if n == 0 || !types.Identical(sig.Results().At(n-1).Type(), errorType) {
			return out, st
		}
		t := out
		if n > 1 {
			t = fr.e.extract(out, n-1)
		}
		fr.emit("error", name, nil, t, in)
		return out, st
	}
}

func (fr *frame) callbacks(a *Term, name string, in ssa.Instruction, st *State) *State {
	e := fr.e
	switch a.Op {
	case OClosure, OFunc:
		if a.Fn != nil && a.Fn.Blocks != nil {
			var args []*Term
			for i, p := range a.Fn.Params {
				args = append(args, e.mkT(p.Type(), OCbArg, fmt.Sprintf("%s#%d@%s", name, i, fr.siteKey(in))))
			}
			_, ns := fr.runCallback(a, args, in, st, true)
			return ns
		}
	case OIface:
		return fr.callbacks(a.Args[0], name, in, st)
	case OChoice:
		for _, x := range a.Arms {
			st = fr.callbacks(x.T, name, in, st)
		}
	case OSeq:
		for _, p := range a.Args[1:] {
			if p.Op == OItem {
				st = fr.callbacks(p.Args[0], name, in, st)
			}
		}
	}
	return st
}

// runCallback analyses a function value that an external function may call.
func (fr *frame) runCallback(fn *Term, args []*Term, in ssa.Instruction, st *State, maybe bool) (*Term, *State) {
	e := fr.e
	entry := e.cur
	if !maybe {
		return fr.apply(fn, args, in, st, nil)
	}
	l := &Loop{Key: "cb:" + fr.siteKey(in), Fn: fr.fn, Kind: "callback", Pos: in.Pos()}
	inv := e.Cond(e.mk(OInvoked, fr.siteKey(in), fn))
	e.loopStack = append(e.loopStack, l)
	e.cur = e.bdd.And(entry, inv)
	l.Entry = e.cur
	r, ns := fr.apply(fn, args, in, st.clone(), nil)
	e.loopStack = e.loopStack[:len(e.loopStack)-1]
	after := e.cur
	e.cur = entry
	if ns == nil {
		return r, st
	}
	return r, e.mergeStates([]edge{{c: after, st: ns}, {c: e.bdd.And(entry, e.bdd.Not(inv)), st: st}}, entry)
}

// ---- protocol buffer messages

var protoCache = map[types.Type]bool{}

func isProtoMsg(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok {
		return false
	}
	if v, ok := protoCache[n]; ok {
		return v
	}
	r := false
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == "ProtoReflect" {
			r = true
		}
	}
	protoCache[n] = r
	return r
}

// isOneofWrapper tells whether t is *Msg_Field.
func isOneofWrapper(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || !strings.Contains(n.Obj().Name(), "_") {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		if strings.HasPrefix(n.Method(i).Name(), "is") {
			return true
		}
	}
	return false
}

func (e *Engine) protoGetter(fn *ssa.Function, args []*Term) (*Term, bool) {
	if len(args) != 1 || !strings.HasPrefix(fn.Name(), "Get") || fn.Signature.Recv() == nil {
		return nil, false
	}
	rt := fn.Signature.Recv().Type()
	if !isProtoMsg(rt) {
		return nil, false
	}
	return e.protoField(args[0], rt, fn.Name()[3:])
}

func (e *Engine) getterByName(recv *Term, name string) (*Term, bool) {
	if recv.Op == OIface {
		return e.protoField(recv.Args[0], recv.Typ, name)
	}
	return nil, false
}

func (e *Engine) protoField(recv *Term, rt types.Type, name string) (*Term, bool) {
	p, ok := rt.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok {
		return nil, false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Name() == name {
			return e.getField(recv, name, f.Type()), true
		}
	}
	// a member of a oneof
	w := n.Obj().Pkg().Scope().Lookup(n.Obj().Name() + "_" + name)
	if w == nil {
		return nil, false
	}
	ws, ok := w.Type().Underlying().(*types.Struct)
	if !ok || ws.NumFields() != 1 {
		return nil, false
	}
	pw := types.NewPointer(w.Type())
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		it, ok := f.Type().Underlying().(*types.Interface)
		if !ok || !f.Exported() || !types.Implements(pw, it) {
			continue
		}
		one := e.getField(recv, f.Name(), f.Type())
		v, is := e.assert(one, pw)
		val := e.getField(v, ws.Field(0).Name(), ws.Field(0).Type())
		return e.Choice([]Arm{{is, val}, {e.bdd.Not(is), e.zero(ws.Field(0).Type())}}), true
	}
	return nil, false
}

// Heap is consulted by getField for messages built by the repository itself.
func (e *Engine) getField(recv *Term, name string, typ types.Type) *Term {
	if e.curSt == nil {
		return e.typed(e.field(recv, name), typ)
	}
	return e.dist1(recv, func(r *Term) *Term {
		if r.Op == ONil || r.Op == OZero || r.Op == OUndef {
			return e.zero(typ)
		}
		return e.load(e.curSt, e.addr(r, "."+name), typ)
	})
}

// ---- byte sequences in memory

// bytesVal replaces a slice of known memory by what the memory holds now.
func (fr *frame) bytesVal(st *State, t *Term) *Term {
	e := fr.e
	switch t.Op {
	case OMake, OArrSlice:
		root := t
		rng := ""
		if t.Op == OArrSlice {
			root, rng = t.Args[0], t.Aux
		}
		var v *Term
		if t.Op == OMake {
			v = st.cells[cellKey{root, "#content"}]
		} else if ts := e.targets(root); len(ts) == 1 {
			v = st.cells[cellKey{ts[0].root, ts[0].path + "#content"}]
		}
		if v == nil {
			return t
		}
		if rng != "" {
			i := strings.IndexByte(rng, ':')
			lo, hi := rng[:i], rng[i+1:]
			if lo == "" {
				lo = "0"
			}
			return e.mk(OSub, "", v, e.mk(OConst, lo), e.mk(OConst, hi))
		}
		return v
	}
	return t
}

// ---- builtins

func (fr *frame) builtin(name string, call *ssa.CallCommon, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
	e := fr.e
	switch name {
	case "append":
		return fr.append(call, args[0], args[1], in, st), st
	case "len":
		if _, ok := call.Args[0].Type().Underlying().(*types.Map); ok && e.Loads {
			fr.emit("lookup", "", []*Term{args[0]}, nil, in)
		}
		return e.length(args[0]), st
	case "cap":
		return e.mk(OCall, "cap", args[0]), st
	case "min", "max":
		return e.minmax(name, args), st
	case "copy":
		src := fr.bytesVal(st, args[1])
		fr.emit("copy", "", []*Term{args[0], src}, nil, in)
		d := args[0]
		if d.Op == OArrSlice && d.Aux == "" {
			e.store(st, e.addr(d.Args[0], "#content"), src)
		} else if d.Op == OArrSlice {
			old := e.load(st, e.addr(d.Args[0], "#content"), nil)
			e.store(st, e.addr(d.Args[0], "#content"), e.mk(OCall, "patched "+d.Aux, old, src))
		} else if d.Op == OMake {
			e.setCell(st, d, "#content", src)
		}
		return e.length(src), st
	case "delete", "clear", "close", "print", "println":
		fr.emit(name, "", args, nil, in)
		return e.mk(OTuple, ""), st
	case "recover":
		return e.mk(OCall, "recover"), st
	case "ssa:wrapnilchk":
		return args[0], st
	}
	e.note("builtin "+name, in.Pos())
	return e.mk(OOpaque, name+"@"+fr.siteKey(in), args...), st
}

func (e *Engine) minmax(name string, args []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == OCall && t.Aux == name {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, a := range args {
		add(a)
	}
	if len(out) == 1 {
		return out[0]
	}
	sortTerms(out)
	return e.mk(OCall, name, out...)
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].ID < ts[j-1].ID; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

func (fr *frame) append(call *ssa.CallCommon, x, y *Term, in ssa.Instruction, st *State) *Term {
	e := fr.e
	typ := call.Args[0].Type()
	if isBytes(typ) {
		return e.concat(fr.bytesVal(st, x), fr.bytesVal(st, y))
	}
	site := fr.siteKey(in)
	var pieces []*Term
	if y.Op == OSeq && y.Args[0].Op == ONil {
		for i, p := range y.Args[1:] {
			pieces = append(pieces, e.mk(p.Op, fmt.Sprintf("%s#%d", site, i), p.Args[0]))
		}
	} else if y.Op == ONil || y.Op == OZero {
	} else {
		pieces = append(pieces, e.mk(OSpread, site, y))
	}
	ef := fr.emit("append", "", append([]*Term{x}, pieces...), nil, in)
	for _, p := range pieces {
		e.siteEff[p.Aux] = ef
	}
	if len(pieces) == 0 {
		return x
	}
	var args []*Term
	switch {
	case x.Op == OSeq:
		args = append(args, x.Args...)
	case x.Op == OZero:
		args = append(args, e.mk(ONil, ""))
	default:
		args = append(args, x)
	}
	r := e.mkT(typ, OSeq, "", append(args, pieces...)...)
	ef.Res = r
	return r
}

// isOneof: t is the wrapper of an alternative of a oneof.
func isOneof(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		if g := m.Type().(*types.Signature); !m.Exported() && strings.HasPrefix(m.Name(), "is") && strings.Contains(m.Name(), "_") && g.Params().Len() == 0 && g.Results().Len() == 0 {
			return true
		}
	}
	return false
}
