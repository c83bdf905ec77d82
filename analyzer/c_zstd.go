package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- compression

func init() {
	register("C25", "one-shot functions are executed symbolically with a model of encoder and decoder (what was written since the last reset, and where it goes): what they return or write on success is compared with the compressed or decompressed input. Methods of streams are executed with the codec present and gone: what they do to it, when it goes back to the pool and whether it is forgotten then", c25)
}

const (
	zpkg = "github.com/klauspost/compress/zstd"
	zenc = "(*" + zpkg + ".Encoder)."
	zdec = "(*" + zpkg + ".Decoder)."
)

// zsites collects what the models of the codecs were used for.
type zuse struct {
	name string
	obj  *Term
	res  *Term // whole result
	err  *Term
	in   *Term // what is written or read
	out  *Term // where it goes
	eff  *Effect
}

type zmodel struct {
	c    *Check
	e    *Engine
	uses []*zuse
}

// packed is what compressing b yields, in the two writes that any number of
// writes are considered as.
func (z *zmodel) packed(b *Term) (*Term, *Term) {
	return z.e.mk(OCall, "zstd.first", b), z.e.mk(OCall, "zstd.rest", b)
}

func (z *zmodel) compressed(b *Term) *Term {
	x, y := z.packed(b)
	return z.e.concat(x, y)
}

func (z *zmodel) plain(b *Term) *Term { return z.e.mk(OCall, "zstd.decoded", b) }

func (z *zmodel) get(st *State, obj *Term, f string) *Term {
	return z.e.load(st, z.e.addr(obj, "#z"+f), nil)
}

func (z *zmodel) set(st *State, obj *Term, f string, v *Term) {
	z.e.store(st, z.e.addr(obj, "#z"+f), v)
}

// source is what a reader yields.
func (z *zmodel) source(fr *frame, st *State, r *Term) *Term {
	e := z.e
	return e.dist1(r, func(r *Term) *Term {
		x := r
		if x.Op == OIface {
			x = x.Args[0]
		}
		if x.Op == OCall {
			for _, n := range []string{"bytes.NewReader", "bytes.NewBuffer"} {
				if strings.HasPrefix(x.Aux, n) && len(x.Args) == 1 {
					return x.Args[0]
				}
			}
		}
		if r.Op == OIface && r.Aux == "*bytes.Buffer" {
			return fr.get(st, x)
		}
		return e.mk(OCall, "read", r)
	})
}

// sink writes to an unknown writer.
func (z *zmodel) sink(fr *frame, st *State, w, b *Term, in ssa.Instruction) *State {
	e := z.e
	x, y := z.packed(b)
	if strings.HasPrefix(b.Aux, "zstd.decoded") {
		x, y = b, nil
	}
	if w.Op == OIface {
		switch w.Aux {
		case "*bytes.Buffer", "*strings.Builder":
			fr.write(st, w.Args[0], x)
			if y != nil {
				fr.write(st, w.Args[0], y)
			}
			return st
		}
		if t := w.Args[0].Typ; t != nil {
			if m := e.P.Prog.LookupMethod(t, nil, "Write"); m != nil && z.c.P.isRepo(fnPkg(m)) {
				var r *Term
				for _, p := range []*Term{x, y} {
					if p == nil || st == nil {
						continue
					}
					at := e.cur
					r, st = fr.callFn(m, []*Term{w.Args[0], p}, nil, in, st)
					// all is written
					ok := r.Op == OTuple && len(r.Args) == 2
					for _, a := range e.alts(e.extract(r, 0), at) {
						ok = ok && (a.T == e.length(p) || isNever(e, a.C))
					}
					z.c.ob("writer/"+fnName(m), "a writer reports everything it was given as written", ok, m.Pos(), "%s is reported", trunc(e.Str(r), 200))
				}
				return st
			}
		}
	}
	fr.emit("call", "zstd.out", []*Term{w, b}, nil, in)
	return st
}

// model sets the models of the codecs.
func (z *zmodel) model() {
	e := z.e
	use := func(fr *frame, name string, args []*Term, in ssa.Instruction, ss ...*Term) *zuse {
		var r *Term
		sig := in.(ssa.CallInstruction).Common().Signature()
		u := &zuse{name: methodBase(name), obj: args[0]}
		if n := sig.Results().Len(); n > 0 {
			id := e.mk(OCall, name+"@"+fr.siteKey(in), args...)
			if n == 1 {
				r = e.typed(id, sig.Results().At(0).Type())
				u.err = r
			} else {
				ts := make([]*Term, n)
				for i := range ts {
					ts[i] = e.typed(e.mk(OExtract, string(rune('0'+i)), id), sig.Results().At(i).Type())
				}
				u.err = ts[n-1]
				r = e.mk(OTuple, "", ts...)
			}
			if !types.Identical(sig.Results().At(n-1).Type(), errorType) {
				u.err = nil
			}
		} else {
			r = e.mk(OTuple, "")
		}
		u.res = r
		u.eff = fr.emit("call", name, args, r, in)
		z.uses = append(z.uses, u)
		return u
	}
	empty := e.mk(OConst, `""`)
	start := func(k string) func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
			u := use(fr, name, args, in)
			if k == "enc" {
				z.set(st, args[0], "w", args[1])
				z.set(st, args[0], "d", empty)
			} else {
				z.set(st, args[0], "r", args[1])
			}
			return u.res, st
		}
	}
	e.Hook[zenc+"Reset"] = start("enc")
	e.Hook[zdec+"Reset"] = start("dec")
	e.Hook[zenc+"Write"] = func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		u := use(fr, name, args, in)
		u.in = fr.bytesVal(st, args[1])
		z.set(st, args[0], "d", e.dist1(z.get(st, args[0], "d"), func(o *Term) *Term { return e.concat(o, u.in) }))
		return u.res, st
	}
	e.Hook[zenc+"ReadFrom"] = func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		u := use(fr, name, args, in)
		u.in = z.source(fr, st, args[1])
		z.set(st, args[0], "d", e.dist1(z.get(st, args[0], "d"), func(o *Term) *Term { return e.concat(o, u.in) }))
		return u.res, st
	}
	e.Hook[zenc+"Flush"] = func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return use(fr, name, args, in).res, st
	}
	e.Hook[zenc+"Close"] = func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		u := use(fr, name, args, in)
		u.in, u.out = z.get(st, args[0], "d"), z.get(st, args[0], "w")
		st = z.sink(fr, st, u.out, u.in, in)
		if st != nil {
			z.set(st, args[0], "d", e.mk(OCall, "zstd.closed"))
		}
		return u.res, st
	}
	e.Hook[zenc+"EncodeAll"] = func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		use(fr, name, args, in)
		return e.concat(fr.bytesVal(st, args[2]), z.compressed(fr.bytesVal(st, args[1]))), st
	}
	e.Hook[zdec+"DecodeAll"] = func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		u := use(fr, name, args, in)
		return e.mk(OTuple, "", e.concat(fr.bytesVal(st, args[2]), z.plain(fr.bytesVal(st, args[1]))), u.err), st
	}
	e.Hook[zdec+"WriteTo"] = func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		u := use(fr, name, args, in)
		u.in, u.out = z.source(fr, st, z.get(st, args[0], "r")), args[1]
		return u.res, z.sink(fr, st, args[1], z.plain(u.in), in)
	}
	e.Hook[zdec+"Read"] = func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return use(fr, name, args, in).res, st
	}
	unwrap := func(r *Term) *Term {
		if r.Op == OIface && r.Aux == "*"+zpkg+".Decoder" {
			return r.Args[0]
		}
		return nil
	}
	e.Hook["io.ReadAll"] = func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		if d := unwrap(args[0]); d != nil {
			u := use(fr, name, []*Term{d}, in)
			u.in = z.source(fr, st, z.get(st, d, "r"))
			return e.mk(OTuple, "", z.plain(u.in), u.err), st
		}
		return fr.outside(name, nil, in.(ssa.CallInstruction).Common().Signature(), args, in, st)
	}
	e.Hook["io.Copy"] = func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		if d := unwrap(args[1]); d != nil {
			u := use(fr, name, []*Term{d, args[0]}, in)
			u.in, u.out = z.source(fr, st, z.get(st, d, "r")), args[0]
			return u.res, z.sink(fr, st, args[0], z.plain(u.in), in)
		}
		return fr.outside(name, nil, in.(ssa.CallInstruction).Common().Signature(), args, in, st)
	}
	e.Hook["(*bytes.Buffer).ReadFrom"] = func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		if d := unwrap(args[1]); d != nil {
			u := use(fr, name, []*Term{d, args[0]}, in)
			u.in = z.source(fr, st, z.get(st, d, "r"))
			fr.write(st, args[0], z.plain(u.in))
			return u.res, st
		}
		return fr.outside(name, nil, in.(ssa.CallInstruction).Common().Signature(), args, in, st)
	}
	for _, n := range []string{"NewWriter", "NewReader"} {
		n := n
		e.Hook[zpkg+"."+n] = func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
			id := e.mk(OCall, name+"@"+fr.siteKey(in))
			sig := in.(ssa.CallInstruction).Common().Signature()
			o := e.typed(e.mk(OExtract, "0", id), sig.Results().At(0).Type())
			er := e.typed(e.mk(OExtract, "1", id), sig.Results().At(1).Type())
			fr.emit("call", name, args, e.mk(OTuple, "", o, er), in)
			z.uses = append(z.uses, &zuse{name: n, obj: o, err: er, eff: e.effects[len(e.effects)-1]})
			if n == "NewWriter" {
				z.set(st, o, "w", args[0])
				z.set(st, o, "d", empty)
			} else {
				z.set(st, o, "r", args[0])
			}
			return e.mk(OTuple, "", o, er), st
		}
	}
	const mo = "(google.golang.org/protobuf/proto.MarshalOptions)."
	marshal := func(buf, msg func(args []*Term) *Term) func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
			b := e.mk(OConst, `""`)
			if buf != nil {
				b = fr.bytesVal(st, buf(args))
			}
			id := e.mk(OCall, name+"@"+fr.siteKey(in))
			er := e.typed(e.mk(OExtract, "1", id), errorType)
			u := &zuse{name: "Marshal", in: msg(args), err: er}
			r := e.mk(OTuple, "", e.concat(b, e.mk(OCall, "marshalled", msg(args))), er)
			u.eff = fr.emit("call", name, args, r, in)
			z.uses = append(z.uses, u)
			return r, st
		}
	}
	nth := func(i int) func([]*Term) *Term { return func(a []*Term) *Term { return a[i] } }
	e.Hook[mo+"MarshalAppend"] = marshal(nth(1), nth(2))
	e.Hook[mo+"Marshal"] = marshal(nil, nth(1))
	e.Hook["google.golang.org/protobuf/proto.Marshal"] = marshal(nil, nth(0))
}

func (c *Check) zrun(name string, names ...string) (*zmodel, *Result) {
	return c.zrunFn(c.fn(name), names...)
}

func (c *Check) zrunFn(fn *ssa.Function, names ...string) (*zmodel, *Result) {
	e := c.engine()
	z := &zmodel{c: c, e: e}
	z.model()
	r := c.run(e, fn, names...)
	return z, r
}

// failures: an error of a codec is an error of the function, and nothing is used
// after it was given back.
func (z *zmodel) failures(id string, r *Result) {
	c, e := z.c, z.e
	n := r.Fn.Signature.Results().Len()
	success := bF
	for _, a := range e.alts(r.Val, bT) {
		t := a.T
		if n > 1 {
			t = e.extract(t, n-1)
		}
		success = e.bdd.Or(success, e.bdd.And(a.C, e.isNil(t)))
	}
	success = e.bdd.And(success, z.running())
	for _, u := range z.uses {
		if u.err == nil || u.name == "Reset" { // errors of resets show when reading
			continue
		}
		c.Counts["failures"]++
		d := e.bdd.And(e.bdd.And(u.eff.Cond, e.bdd.Not(e.isNil(u.err))), success)
		c.ob(id+"/error/"+u.name, "errors of codecs are returned", isNever(e, d), u.eff.Pos, "no error is returned when %s failed and %s", u.name, e.causes(d))
	}
	z.given(id)
}

// given: a codec is not used after it went back to the pool.
func (z *zmodel) given(id string) {
	c, e := z.c, z.e
	const rule = "a codec is not used any more once it is given back, and is given back once"
	for _, p := range e.effects {
		if p.Callee != "(*sync.Pool).Put" || len(p.Args) < 2 {
			continue
		}
		for _, v := range e.alts(p.Args[1], p.Cond) {
			o := v.T
			if o.Op == OIface {
				o = o.Args[0]
			}
			if !isCodec(o.Typ) {
				continue
			}
			c.Counts["codecs given back"]++
			bad := bF
			what := ""
			for _, f := range e.effects {
				if f.Seq <= p.Seq || f.Kind != "call" {
					continue
				}
				for _, a := range f.Args {
					for _, w := range e.alts(a, f.Cond) {
						x := w.T
						if x.Op == OIface {
							x = x.Args[0]
						}
						if x == o {
							if d := e.bdd.And(v.C, w.C); !isNever(e, d) {
								bad = e.bdd.Or(bad, d)
								what = f.Callee
							}
						}
					}
				}
			}
			c.ob(id+"/given", rule, isNever(e, bad), p.Pos, "%s is called after that", what)
		}
	}
}

func isCodec(t types.Type) bool {
	if t == nil {
		return false
	}
	s := types.TypeString(t, nil)
	return s == "*"+zpkg+".Encoder" || s == "*"+zpkg+".Decoder"
}

// running: loops are left, and the process did not end.
func (z *zmodel) running() B {
	e := z.e
	d := e.exited()
	for _, f := range e.effects {
		if f.Kind == "call" && noReturn[f.Callee] {
			d = e.bdd.And(d, e.bdd.Not(f.Cond))
		}
	}
	return d
}

// yields: on success the first result is want.
func (z *zmodel) yields(id, rule string, r *Result, want *Term) {
	c, e := z.c, z.e
	n := 0
	for _, a := range e.alts(r.Val, e.exited()) {
		v, er := e.extract(a.T, 0), e.extract(a.T, 1)
		for _, b := range e.alts(v, e.bdd.And(a.C, e.isNil(er))) {
			if isNever(e, b.C) {
				continue
			}
			n++
			c.ob(id, rule, b.T == want, r.Fn.Pos(), "%s is returned when %s", trunc(e.Str(b.T), 200), e.causes(b.C))
		}
	}
	c.ob(id+"/some", rule, n > 0, r.Fn.Pos(), "nothing is returned without an error")
}

func c25(c *Check) {
	const there = "compressing writes the whole input, and decompressing gives all of it back"
	// one shot
	z, r := c.zrun("internal/compress.Compress", "data")
	z.yields("Compress", there, r, z.compressed(r.Args[0]))
	z.failures("Compress", r)
	z, r = c.zrun("internal/compress.Decompress", "data")
	z.yields("Decompress", there, r, z.plain(r.Args[0]))
	z.failures("Decompress", r)
	z, r = c.zrun("internal/compress.To", "w", "data")
	z.written("To", there, r, r.Args[0], r.Args[1])
	z.failures("To", r)

	// messages
	z, r = c.zrun("internal/arena.(*Arena).Marshal", "a", "msg")
	m := z.e.mk(OCall, "marshalled", r.Args[1])
	z.yields("Arena.Marshal", there, r, m)
	z.failures("Arena.Marshal", r)
	z, r = c.zrun("internal/arena.(*Arena).Compress", "a", "msg")
	m = z.e.mk(OCall, "marshalled", r.Args[1])
	z.yields("Arena.Compress", there, r, z.compressed(m))
	z.failures("Arena.Compress", r)
	c.unpack()
	c.codecOptions()
	c.streams()
	c.assume("encoder and decoder of klauspost/compress do what their documentation says, and are made with options that can be mixed")
	c.Min["failures"] = 8
	c.Min["codecs given back"] = 6
	c.Min["methods of streams"] = 3
}

// written: on success all of data, and nothing else, is written to w.
func (z *zmodel) written(id, rule string, r *Result, w, data *Term) {
	c, e := z.c, z.e
	done := bF
	twice := bF
	for _, f := range e.effects {
		if f.Callee != "zstd.out" {
			continue
		}
		for _, a := range e.alts(f.Args[0], f.Cond) {
			for _, b := range e.alts(f.Args[1], a.C) {
				ok := a.T == w && b.T == data
				c.ob(id+"/written", rule, ok || isNever(e, b.C), f.Pos, "%s is written to %s", trunc(e.Str(b.T), 120), trunc(e.Str(a.T), 80))
				twice = e.bdd.Or(twice, e.bdd.And(done, b.C))
				done = e.bdd.Or(done, b.C)
			}
		}
	}
	c.ob(id+"/once", rule, isNever(e, twice), r.Fn.Pos(), "it is written twice")
	d := e.bdd.And(e.isNil(r.Val), e.bdd.Not(done))
	d = e.bdd.And(d, z.running())
	c.ob(id+"/all", rule, isNever(e, d), r.Fn.Pos(), "it is not written, and no error returned, when %s", e.causes(d))
}

// unpack: the function that decompresses into a message.
func (c *Check) unpack() {
	const rule = "a message is read from the decompressed data"
	fn := c.fn("internal/x.Decompress")
	_, r := c.zrunFn(fn, "msg")
	cl := r.Val
	if !c.ob("x.Decompress/func", rule, cl != nil && cl.Op == OClosure, fn.Pos(), "no function is returned") {
		return
	}
	e := c.engine()
	z := &zmodel{c: c, e: e}
	z.model()
	var un []*Effect
	msg := e.mkT(fn.Params[0].Type(), OParam, "msg")
	var free []*Term
	for _, v := range cl.Fn.FreeVars {
		t := v.Type()
		if p, ok := t.(*types.Pointer); ok && types.Identical(p.Elem(), fn.Params[0].Type()) {
			cell := e.mkT(t, OParam, "&msg")
			free = append(free, cell)
			continue
		}
		if types.Identical(t, fn.Params[0].Type()) {
			free = append(free, msg)
			continue
		}
		free = append(free, e.mkT(t, OParam, v.Name()))
	}
	res := e.runFree(cl.Fn, free)
	data := res.Args[0]
	for _, f := range e.effects {
		if f.Kind == "call" && strings.HasPrefix(methodBase(f.Callee), "Unmarshal") {
			un = append(un, f)
		}
	}
	done := bF
	for _, f := range un {
		n := len(f.Args)
		m := f.Args[n-1]
		okMsg := m == msg || (m.Op == OField || m.Op == OContent) && len(m.Args) > 0 && m.Args[0].Aux == "&msg" || strings.Contains(e.Str(m), "msg")
		for _, b := range e.alts(f.Args[n-2], f.Cond) {
			c.ob("x.Decompress/data", rule, b.T == z.plain(data) && okMsg || isNever(e, b.C), f.Pos, "%s is read into %s", trunc(e.Str(b.T), 100), trunc(e.Str(m), 100))
		}
		_, er := results(f)
		z.uses = append(z.uses, &zuse{name: "Unmarshal", err: er, eff: f})
		done = e.bdd.Or(done, f.Cond)
	}
	d := e.bdd.And(e.isNil(res.Val), e.bdd.Not(done))
	d = e.bdd.And(d, z.running())
	c.ob("x.Decompress/done", rule, isNever(e, d), fn.Pos(), "nothing is read when %s", e.causes(d))
	z.failures("x.Decompress", res)
}

var codecOptions = map[string]bool{
	"WithEncoderLevel": true, "WithEncoderConcurrency": true, "WithEncoderCRC": true, "WithLowerEncoderMem": true, "WithSingleSegment": true,
	"WithNoEntropyCompression": true, "WithAllLitEntropyCompression": true, "WithWindowSize": true, "WithEncoderPadding": true, "WithZeroFrames": true,
	"WithDecoderConcurrency": true, "WithDecoderLowmem": true, "IgnoreChecksum": true, "WithDecodeBuffersBelow": true,
}

// codecOptions: nothing that could make the decoder reject what the encoder makes.
func (c *Check) codecOptions() {
	for _, f := range c.P.All {
		if !c.P.isRepo(fnPkg(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil || fnPkg(g) == nil || fnPkg(g).Path() != zpkg {
					continue
				}
				if res := g.Signature.Results(); res.Len() == 1 && strings.HasSuffix(res.At(0).Type().String(), "Option") {
					c.ob("option/"+g.Name(), "every decoder reads what every encoder writes", codecOptions[g.Name()], in.Pos(), "%s limits what can be read", g.Name())
				}
				if g.Name() == "NewWriter" || g.Name() == "NewReader" {
					c.Counts["codecs made"]++
				}
			}
		}
	}
	c.Min["codecs made"] = 2
}

// streams: types which hold a codec.
func (c *Check) streams() {
	const rule = "a stream forgets its codec when it gives it back, and does nothing without one"
	type stream struct {
		t     *types.Named
		field *types.Var
	}
	var ss []stream
	for _, p := range c.repoPkgs() {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := nt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if isCodec(st.Field(i).Type()) {
					ss = append(ss, stream{nt, st.Field(i)})
				}
			}
		}
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].t.String() < ss[j].t.String() })
	kinds := map[string]bool{}
	for _, s := range ss {
		c.Counts["streams"]++
		enc := strings.HasSuffix(s.field.Type().String(), "Encoder")
		kinds[map[bool]string{true: "writer", false: "reader"}[enc]] = true
		ptr := types.NewPointer(s.t)
		declared := map[string]*ssa.Function{}
		ms := c.P.Prog.MethodSets.MethodSet(ptr)
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i)
			if len(m.Index()) == 1 {
				if f := c.P.Prog.MethodValue(m); f != nil && m.Obj().Exported() {
					declared[m.Obj().Name()] = f
				}
			} else if s.field.Embedded() {
				n := m.Obj().Name()
				end := n == "Close" && enc || !enc && (n == "Read" || n == "WriteTo")
				c.ob("stream/"+s.t.Obj().Name()+"/"+n, rule, !end, s.field.Pos(), "%s goes straight to the codec, which may be gone", n)
			}
		}
		need := "Read"
		if enc {
			need = "Close"
		}
		c.ob("stream/"+s.t.Obj().Name(), rule, declared[need] != nil, s.field.Pos(), "there is no %s", need)
		var names []string
		for n := range declared {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			c.streamMethod(s.t.Obj().Name()+"."+n, declared[n], s.field.Name(), rule, n)
		}
	}
	c.Min["streams"] = 2
	c.Counts["kinds of streams"] = len(kinds)
	c.Min["kinds of streams"] = 2
	c.makers()
}

// inPool: what is given back is the codec of the stream.
func (c *Check) streamMethod(id string, fn *ssa.Function, field, rule, name string) {
	c.Counts["methods of streams"]++
	e := c.engine()
	z := &zmodel{c: c, e: e}
	z.model()
	st0 := newState()
	r := c.run(e, fn, "s", "p")
	recv := r.Args[0]
	had := e.load(st0, e.addr(recv, "."+field), nil)
	var ft types.Type
	if p, ok := recv.Typ.Underlying().(*types.Pointer); ok {
		if s, ok := p.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == field {
					ft = s.Field(i).Type()
				}
			}
		}
	}
	had = e.typed(had, ft)
	gone := e.Cond(e.eq(had, e.mk(ONil, ""), ft))
	here := e.bdd.Not(gone)
	put := bF
	for _, f := range e.effects {
		if f.Kind != "call" {
			continue
		}
		for i, a := range f.Args {
			for _, v := range e.alts(a, f.Cond) {
				x := v.T
				if x.Op == OIface {
					x = x.Args[0]
				}
				if x != had && !(x.Op == ONil && i == 0 && strings.HasPrefix(f.Callee, "(*"+zpkg)) {
					continue
				}
				d := e.bdd.And(v.C, gone)
				c.ob(id+"/gone", rule, isNever(e, d), f.Pos, "%s is called on a codec that is gone", f.Callee)
				if f.Callee == "(*sync.Pool).Put" {
					d := e.bdd.And(put, v.C)
					c.ob(id+"/twice", rule, isNever(e, d), f.Pos, "the codec is given back twice")
					put = e.bdd.Or(put, v.C)
				}
			}
		}
	}
	if r.St != nil {
		after := e.at(r.St, recv, field)
		for _, v := range e.alts(after, bT) {
			if v.T == had {
				d := e.bdd.And(v.C, e.bdd.And(put, here))
				c.ob(id+"/forgotten", rule, isNever(e, d), fn.Pos(), "the stream still has the codec it gave back when %s", e.causes(d))
				continue
			}
			if isNil := v.T.Op == ONil || v.T.Op == OZero; !c.ob(id+"/other", rule, isNil || isNever(e, v.C), fn.Pos(), "the stream gets another codec") {
				continue
			}
			d := e.bdd.And(v.C, e.bdd.And(here, e.bdd.Not(put)))
			d = e.bdd.And(d, e.exited())
			c.ob(id+"/lost", rule, isNever(e, d), fn.Pos(), "the codec is dropped without giving it back when %s", e.causes(d))
		}
	}
	z.given(id)
	// what the caller gets
	var main []*zuse
	for _, u := range z.uses {
		if u.name == name && u.obj == had {
			main = append(main, u)
		}
	}
	const pass = "a stream passes on what its codec does"
	called := bF
	for _, u := range main {
		called = e.bdd.Or(called, u.eff.Cond)
		for i := 1; i < len(u.eff.Args) && i < len(r.Args); i++ {
			c.ob(id+"/args", pass, u.eff.Args[i] == r.Args[i], u.eff.Pos, "%s is called with %s", name, trunc(e.Str(u.eff.Args[i]), 120))
		}
		for _, a := range e.alts(r.Val, e.bdd.And(u.eff.Cond, e.exited())) {
			got, want := a.T, u.res
			n := fn.Signature.Results().Len()
			for i := 0; i < n; i++ {
				g, w := got, want
				if n > 1 {
					g, w = e.extract(got, i), e.extract(want, i)
				}
				for _, x := range e.alts(g, a.C) {
					same := x.T == w || isNever(e, x.C)
					if !same && x.T.Op == ONil {
						same = isNever(e, e.bdd.And(x.C, e.bdd.Not(e.isNil(w))))
					}
					c.ob(id+"/result", pass, same, fn.Pos(), "result %d is %s", i, trunc(e.Str(x.T), 150))
				}
			}
		}
	}
	if len(main) > 0 || name == "Close" || name == "Read" || name == "WriteTo" || name == "Write" {
		d := e.bdd.And(here, e.bdd.Not(called))
		d = e.bdd.And(d, e.exited())
		c.ob(id+"/called", pass, isNever(e, d), fn.Pos(), "the codec is not asked when %s", e.causes(d))
	}
	if name == "Read" {
		// the end must not look like data
		for _, a := range e.alts(r.Val, e.bdd.And(gone, e.exited())) {
			er := e.extract(a.T, 1)
			d := e.bdd.And(a.C, e.isNil(er))
			c.ob(id+"/end", "reading after the end reports the end", z.zero(e.extract(a.T, 0), a.C) && isNever(e, d), fn.Pos(), "(%s, %s) is returned", e.Str(e.extract(a.T, 0)), e.Str(er))
		}
		for _, u := range main {
			d := e.bdd.And(put, e.isNil(u.err))
			c.ob(id+"/early", "a reader keeps its codec until it failed or ended", isNever(e, d), u.eff.Pos, "the codec is given back before the end")
		}
	}
	if name == "WriteTo" || name == "Close" {
		for _, a := range e.alts(r.Val, e.bdd.And(gone, e.exited())) {
			t := a.T
			if name == "WriteTo" {
				c.ob(id+"/end", "reading after the end reports the end", z.zero(e.extract(t, 0), a.C), fn.Pos(), "%s is returned", e.Str(e.extract(t, 0)))
				continue
			}
			d := e.bdd.And(a.C, e.bdd.Not(e.isNil(t)))
			c.ob(id+"/again", "closing again does nothing", isNever(e, d), fn.Pos(), "%s is returned", e.Str(t))
		}
	}
}

// zero: t is 0 under c.
func (z *zmodel) zero(t *Term, c B) bool {
	for _, a := range z.e.alts(t, c) {
		if a.T.Aux != "0" && a.T.Op != OZero && !isNever(z.e, a.C) {
			return false
		}
	}
	return true
}

// makers: what makes the streams of RPCs.
func (c *Check) makers() {
	const rule = "streams read and write what they are made for"
	var comp types.Type
	for _, p := range c.repoPkgs() {
		for _, m := range p.Members {
			f, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok || call.Common().StaticCallee() == nil || fnName(call.Common().StaticCallee()) != "google.golang.org/grpc/encoding.RegisterCompressor" {
						continue
					}
					if x, ok := call.Common().Args[0].(*ssa.MakeInterface); ok {
						comp = x.X.Type()
					}
				}
			}
		}
	}
	if !c.ob("compressor", rule, comp != nil, 0, "no compressor is registered") {
		return
	}
	for _, k := range []struct{ m, f string }{{"Compress", "w"}, {"Decompress", "r"}} {
		sel := c.P.Prog.MethodSets.MethodSet(comp).Lookup(nil, k.m)
		if sel == nil {
			c.ob("compressor/"+k.m, rule, false, 0, "the compressor has no method %s", k.m)
			continue
		}
		fn := c.P.Prog.MethodValue(sel)
		z, r := c.zrunFn(fn, "c", "rw")
		e := z.e
		n := 0
		for _, a := range e.alts(r.Val, e.exited()) {
			v, er := e.extract(a.T, 0), e.extract(a.T, 1)
			d := e.bdd.And(a.C, e.isNil(er))
			if isNever(e, d) {
				continue
			}
			n++
			o := v
			if o.Op == OIface {
				o = o.Args[0]
			}
			var codec *Term
			if o.Typ != nil {
				if p, ok := o.Typ.Underlying().(*types.Pointer); ok {
					if s, ok := p.Elem().Underlying().(*types.Struct); ok {
						for i := 0; i < s.NumFields(); i++ {
							if isCodec(s.Field(i).Type()) {
								codec = e.at(r.St, o, s.Field(i).Name())
							}
						}
					}
				}
			}
			if !c.ob("compressor/"+k.m+"/stream", rule, codec != nil, fn.Pos(), "%s is returned", trunc(e.Str(v), 150)) {
				continue
			}
			at := z.get(r.St, codec, k.f)
			c.ob("compressor/"+k.m, rule, at == r.Args[len(r.Args)-1], fn.Pos(), "the codec is for %s", trunc(e.Str(at), 150))
			if k.m == "Compress" {
				x := z.get(r.St, codec, "d")
				c.ob("compressor/"+k.m+"/empty", rule, x.Op == OConst && x.Aux == `""`, fn.Pos(), "the codec already has data")
			}
			for _, f := range e.effects {
				c.ob("compressor/"+k.m+"/kept", rule, f.Callee != "(*sync.Pool).Put" || isNever(e, e.bdd.And(f.Cond, d)), f.Pos, "the codec is given back while the stream uses it")
			}
		}
		c.ob("compressor/"+k.m+"/some", rule, n > 0, fn.Pos(), "no stream is returned")
		for _, u := range z.uses {
			if u.err != nil && u.name != "Reset" {
				z.failures("compressor/"+k.m, r)
			}
		}
	}
}

// repoPkgs are the packages of the repository, by path.
func (c *Check) repoPkgs() (out []*ssa.Package) {
	for _, p := range c.P.byPath {
		if p != nil && c.P.isRepo(p.Pkg) {
			out = append(out, p)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pkg.Path() < out[j].Pkg.Path() })
	return
}
