package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var models = map[string]model{}

const (
	r64    = "(*github.com/RoaringBitmap/roaring/roaring64.Bitmap)."
	r64p   = "github.com/RoaringBitmap/roaring/roaring64."
	digest = "(*github.com/cespare/xxhash/v2.Digest)."
	bpkg   = "github.com/dgraph-io/badger/v4."
)

func nilErr(e *Engine) *Term { return e.mk(ONil, "") }

func reg(names string, m model) {
	for _, n := range strings.Fields(names) {
		models[n] = m
	}
}

func identity(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
	return args[0], st
}

func void(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
	fr.emit("call", name, args, nil, in)
	return fr.e.mk(OTuple, ""), st
}

func stop(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
	fr.emit("call", name, args, nil, in)
	return fr.e.mk(OUndef, ""), nil
}

// content of a set or buffer object; what was never written is empty.
func (fr *frame) get(st *State, p *Term) *Term {
	v := fr.e.content(st, p)
	return fr.e.dist1(v, func(v *Term) *Term {
		if v.Op == OZero {
			return fr.e.mk(ONil, "")
		}
		return v
	})
}

func (e *Engine) setAdd(base, x *Term) *Term {
	if base.Op == OSet {
		for _, a := range base.Args[1:] {
			if a == x {
				return base
			}
		}
		el := append([]*Term{x}, base.Args[1:]...)
		sortTerms(el)
		return e.mk(OSet, "", append([]*Term{base.Args[0]}, el...)...)
	}
	return e.mk(OSet, "", base, x)
}

func (e *Engine) comm(op Op, x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return e.mk(op, "", x, y)
}

// expandFormat turns a printf call into the pieces it writes.
func (fr *frame) expandFormat(st *State, format *Term, list *Term) ([]*Term, bool) {
	e := fr.e
	f, ok := unquote(format.Aux)
	if format.Op != OConst || !ok {
		return nil, false
	}
	var args []*Term
	switch {
	case list.Op == ONil:
	case list.Op == OSeq && list.Args[0].Op == ONil:
		for _, p := range list.Args[1:] {
			if p.Op != OItem {
				return nil, false
			}
			args = append(args, p.Args[0])
		}
	default:
		return nil, false
	}
	lit := func(s string) *Term { return e.mk(OSpread, "", e.mk(OConst, fmt.Sprintf("%q", s))) }
	var out []*Term
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = append(out, lit(f[i:]))
			break
		}
		if j > 0 {
			out = append(out, lit(f[i:i+j]))
		}
		i += j
		if i+1 >= len(f) {
			return nil, false
		}
		verb := f[i+1]
		i += 2
		if verb == '%' {
			out = append(out, lit("%"))
			continue
		}
		if len(args) == 0 {
			return nil, false
		}
		a := args[0]
		args = args[1:]
		out = append(out, e.mk(OSpread, "", e.dist1(a, func(a *Term) *Term { return fr.fmtOne(st, verb, a) })))
	}
	return out, len(args) == 0
}

func hasString(t types.Type) bool {
	if t == nil {
		return true
	}
	for _, n := range []string{"String", "Error", "Format"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, n); o != nil {
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	return false
}

func (fr *frame) fmtOne(st *State, verb byte, a *Term) *Term {
	e := fr.e
	if a.Op == OIface {
		v, t := a.Args[0], a.Typ
		b, isBasic := t.Underlying().(*types.Basic)
		switch verb {
		case 'd':
			if isBasic && b.Info()&types.IsInteger != 0 {
				return e.num(v)
			}
		case 's':
			if isBytes(t) && !hasString(t) {
				return fr.bytesVal(st, v)
			}
		case 'x':
			if isBytes(t) && !hasString(t) {
				return e.hex(fr.bytesVal(st, v))
			}
		case 'v':
			if isBasic && !hasString(t) {
				if b.Info()&types.IsInteger != 0 {
					return e.num(v)
				}
				if b.Info()&types.IsString != 0 {
					return v
				}
			}
		}
	}
	return e.mk(OCall, "fmt%"+string(verb), a)
}

// num is the decimal representation of v.
func (e *Engine) num(v *Term) *Term {
	for v.Op == OConv {
		t, ok := v.Typ.Underlying().(*types.Basic)
		if !ok || t.Info()&types.IsInteger == 0 {
			break
		}
		switch t.Kind() {
		case types.Int64, types.Uint64, types.Int, types.Uint:
			v = v.Args[0]
			continue
		}
		break
	}
	if v.Op == OConst {
		return e.mk(OConst, fmt.Sprintf("%q", v.Aux))
	}
	return e.mk(ONum, "", v)
}

func (e *Engine) hex(v *Term) *Term {
	if v.Op == ONil {
		return e.mk(OConst, `""`)
	}
	return e.mk(OHex, "", v)
}

func (e *Engine) hash(c *Term) *Term { return e.mk(OHash, "", c) }

func (fr *frame) write(st *State, buf *Term, bytes *Term) {
	e := fr.e
	old := e.content(st, buf)
	old = e.dist1(old, func(o *Term) *Term {
		if o.Op == OZero {
			return e.mk(OConst, `""`)
		}
		return o
	})
	e.setContent(st, buf, e.dist2(old, bytes, func(o, b *Term) *Term { return e.concat(o, b) }))
}

func (fr *frame) poolGet(in ssa.Instruction, pool *Term, st *State) (*Term, *State) {
	e := fr.e
	nf := e.load(st, e.addr(pool, ".New"), nil)
	if nf.Op == OClosure || nf.Op == OFunc {
		fr.emit("call", "(*sync.Pool).Get", []*Term{pool}, nil, in)
		return fr.apply(nf, nil, in, st, nil)
	}
	return e.mk(OCall, "(*sync.Pool).Get@"+fr.siteKey(in), pool), st
}

func init() {
	reg("os.Exit log.Fatal log.Fatalf log.Fatalln runtime.Goexit", stop)
	reg("(*sync.Pool).Put (*sync.Mutex).Lock (*sync.Mutex).Unlock (*sync.RWMutex).Lock (*sync.RWMutex).Unlock (*sync.RWMutex).RLock (*sync.RWMutex).RUnlock", void)
	reg("slices.Clip slices.Clone bytes.Clone strings.Clone", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return fr.bytesVal(st, args[0]), st
	})
	reg("slices.Grow", identity)
	reg("slices.Concat", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return fr.e.mk(OCall, name, args...), st
	})
	reg("(*sync.Pool).Get", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return fr.poolGet(in, args[0], st)
	})
	reg("(*sync.Once).Do", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return fr.runCallback(args[1], nil, in, st, true)
	})

	// text
	reg("fmt.Sprintf", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		if ps, ok := fr.expandFormat(st, args[0], args[1]); ok {
			return fr.e.bytesFrom(ps), st
		}
		return fr.e.mk(OCall, name, args...), st
	})
	reg("fmt.Appendf", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		if ps, ok := fr.expandFormat(st, args[1], args[2]); ok {
			return fr.e.concat(fr.bytesVal(st, args[0]), fr.e.bytesFrom(ps)), st
		}
		return fr.e.mk(OCall, name, args...), st
	})
	reg("fmt.Fprintf", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		if ps, ok := fr.expandFormat(st, args[1], args[2]); ok {
			fr.write(st, args[0], e.bytesFrom(ps))
		} else {
			fr.write(st, args[0], e.mk(OCall, name, args[1:]...))
		}
		return e.mk(OTuple, "", e.mk(OCall, "n"), nilErr(e)), st
	})
	reg("fmt.Sprint", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		if l := args[0]; l.Op == OSeq && len(l.Args) == 2 && l.Args[1].Op == OItem {
			return e.dist1(l.Args[1].Args[0], func(a *Term) *Term { return fr.fmtOne(st, 'v', a) }), st
		}
		return e.mk(OCall, name, args...), st
	})
	reg("strconv.FormatUint strconv.FormatInt", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		if args[1].Aux == "10" {
			return fr.e.num(args[0]), st
		}
		return fr.e.mk(OCall, name, args...), st
	})
	reg("strconv.Itoa", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return fr.e.num(args[0]), st
	})
	reg("strconv.AppendUint strconv.AppendInt", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		if args[2].Aux == "10" {
			return fr.e.concat(fr.bytesVal(st, args[0]), fr.e.num(args[1])), st
		}
		return fr.e.mk(OCall, name, args...), st
	})
	reg("encoding/hex.EncodeToString", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return fr.e.hex(fr.bytesVal(st, args[0])), st
	})
	reg("encoding/hex.AppendEncode", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return fr.e.concat(fr.bytesVal(st, args[0]), fr.e.hex(fr.bytesVal(st, args[1]))), st
	})

	// integers as bytes
	put := func(kind string) model {
		return func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
			e := fr.e
			v := e.mk(OU64, kind, args[2])
			d := args[1]
			switch {
			case d.Op == OMake:
				e.setCell(st, d, "#content", v)
			case d.Op == OArrSlice:
				e.store(st, e.addr(d.Args[0], "#content"), v)
			}
			fr.emit("call", name, args, nil, in)
			return e.mk(OTuple, ""), st
		}
	}
	app := func(kind string) model {
		return func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
			return fr.e.concat(fr.bytesVal(st, args[1]), fr.e.mk(OU64, kind, args[2])), st
		}
	}
	gt := func(kind string) model {
		return func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
			b := fr.bytesVal(st, args[1])
			if b.Op == OU64 && b.Aux == kind {
				return b.Args[0], st
			}
			return fr.e.mk(OCall, "decode "+kind, b), st
		}
	}
	for _, w := range []string{"16", "32", "64"} {
		for _, o := range []string{"big", "little"} {
			k := "(encoding/binary." + o + "Endian)."
			models[k+"PutUint"+w] = put(o[:1] + w)
			models[k+"AppendUint"+w] = app(o[:1] + w)
			models[k+"Uint"+w] = gt(o[:1] + w)
		}
	}

	// buffers
	for _, b := range []string{"(*bytes.Buffer).", "(*strings.Builder)."} {
		reg(b+"Write "+b+"WriteString", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
			v := fr.bytesVal(st, args[1])
			fr.write(st, args[0], v)
			return fr.e.mk(OTuple, "", fr.e.length(v), nilErr(fr.e)), st
		})
		reg(b+"WriteByte "+b+"WriteRune", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
			e := fr.e
			fr.write(st, args[0], e.bytesFrom([]*Term{e.mk(OItem, "", args[1])}))
			if strings.HasSuffix(name, "Rune") {
				return e.mk(OTuple, "", e.mk(OCall, "n"), nilErr(e)), st
			}
			return nilErr(e), st
		})
		reg(b+"Reset", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
			fr.e.setContent(st, args[0], fr.e.mk(OConst, `""`))
			return fr.e.mk(OTuple, ""), st
		})
		reg(b+"Bytes "+b+"String", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
			return fr.get(st, args[0]), st
		})
		reg(b+"Len", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
			return fr.e.length(fr.get(st, args[0])), st
		})
		reg(b+"Grow", void)
	}

	// hashes
	reg(digest+"Reset", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		fr.e.setContent(st, args[0], fr.e.mk(OConst, `""`))
		return fr.e.mk(OTuple, ""), st
	})
	reg("github.com/cespare/xxhash/v2.New", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		t := e.mk(OAlloc, "digest:"+fr.siteKey(in))
		st.cells[cellKey{t, "#live"}] = e.mk(OConst, "1")
		e.setContent(st, t, e.mk(OConst, `""`))
		return t, st
	})
	reg(digest+"Write "+digest+"WriteString", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		v := fr.bytesVal(st, args[1])
		old := e.content(st, args[0])
		if old.Op == OZero {
			old = e.mk(OOpaque, "digest that was not initialised")
		}
		e.setContent(st, args[0], e.dist2(old, v, func(o, b *Term) *Term { return e.concat(o, b) }))
		return e.mk(OTuple, "", e.length(v), nilErr(e)), st
	})
	reg(digest+"Sum64", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		c := fr.e.content(st, args[0])
		return fr.e.dist1(c, fr.e.hash), st
	})
	reg(r64+"WriteTo", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		w := args[1]
		if w.Op != OIface || w.Aux != "*github.com/cespare/xxhash/v2.Digest" {
			return fr.outside(name, nil, in.(ssa.CallInstruction).Common().Signature(), args, in, st)
		}
		w = w.Args[0]
		v := e.mk(OCall, "bytes of bitmap", fr.get(st, args[0]))
		old := e.content(st, w)
		if old.Op == OZero {
			old = e.mk(OOpaque, "digest that was not initialised")
		}
		e.setContent(st, w, e.dist1(old, func(o *Term) *Term { return e.concat(o, v) }))
		return e.mk(OTuple, "", e.length(v), nilErr(e)), st
	})
	reg("github.com/cespare/xxhash/v2.Sum64 github.com/cespare/xxhash/v2.Sum64String", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return fr.e.dist1(fr.bytesVal(st, args[0]), fr.e.hash), st
	})

	// sets
	reg(r64p+"New "+r64p+"NewBitmap", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		t := fr.e.mk(OAlloc, "bitmap:"+fr.siteKey(in))
		fr.e.bornNow(t)
		for k := range st.cells {
			if k.root == t {
				delete(st.cells, k)
			}
		}
		st.cells[cellKey{t, "#live"}] = fr.e.mk(OConst, "1")
		return t, st
	})
	reg(r64+"Add "+r64+"CheckedAdd", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		fr.emit("setadd", name, args, nil, in)
		e.setContent(st, args[0], e.dist1(fr.get(st, args[0]), func(b *Term) *Term { return e.setAdd(b, args[1]) }))
		if strings.HasSuffix(name, "CheckedAdd") {
			return e.mkT(types.Typ[types.Bool], OCall, name+"@"+fr.siteKey(in), args...), st
		}
		return e.mk(OTuple, ""), st
	})
	reg(r64+"AddMany", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		fr.emit("setaddmany", name, args, nil, in)
		e.setContent(st, args[0], e.setAdd(fr.get(st, args[0]), e.mk(OSpread, "", args[1])))
		return e.mk(OTuple, ""), st
	})
	reg(r64+"Contains", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		return e.dist2(fr.get(st, args[0]), args[1], func(s, x *Term) *Term { return e.mk(OIn, "", x, s) }), st
	})
	reg(r64+"IsEmpty", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return fr.e.isEmpty(fr.get(st, args[0])), st
	})
	reg(r64+"Clear", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		fr.emit("setclear", name, args, nil, in)
		fr.e.setContent(st, args[0], fr.e.mk(ONil, ""))
		return fr.e.mk(OTuple, ""), st
	})
	bin := func(op Op, kind string) model {
		return func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
			e := fr.e
			fr.emit(kind, name, args, nil, in)
			e.setContent(st, args[0], e.comm(op, fr.get(st, args[0]), fr.get(st, args[1])))
			return e.mk(OTuple, ""), st
		}
	}
	reg(r64+"And", bin(OInter, "setand"))
	reg(r64+"Or", bin(OUnion, "setor"))
	upd := func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		fr.emit("setop", name, args, nil, in)
		vals := []*Term{fr.get(st, args[0])}
		for _, a := range args[1:] {
			vals = append(vals, a)
		}
		e.setContent(st, args[0], e.mk(OCall, name, vals...))
		return e.mk(OTuple, ""), st
	}
	reg(r64+"Remove "+r64+"RemoveRange "+r64+"AddRange "+r64+"Flip", upd)
	reg(r64+"AndNot "+r64+"Xor", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		fr.emit("setop", name, args, nil, in)
		e.setContent(st, args[0], e.mk(OCall, name, fr.get(st, args[0]), fr.get(st, args[1])))
		return e.mk(OTuple, ""), st
	})
	reg(r64+"RunOptimize", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return fr.e.mk(OTuple, ""), st
	})
	reg(r64+"GetCardinality", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return fr.e.mk(OCard, "", fr.get(st, args[0])), st
	})
	reg(r64+"AndCardinality "+r64+"OrCardinality", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		op := OInter
		if strings.HasSuffix(name, "OrCardinality") {
			op = OUnion
		}
		return fr.e.mk(OCard, "", fr.e.comm(op, fr.get(st, args[0]), fr.get(st, args[1]))), st
	})
	reg(r64+"Intersects", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		return e.Bool(e.bdd.Not(e.Cond(e.isEmpty(e.comm(OInter, fr.get(st, args[0]), fr.get(st, args[1])))))), st
	})
	reg(r64p+"And "+r64p+"Or", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		op := OInter
		if strings.HasSuffix(name, ".Or") {
			op = OUnion
		}
		t := e.mk(OAlloc, "bitmap:"+fr.siteKey(in))
		fr.e.bornNow(t)
		for k := range st.cells {
			if k.root == t {
				delete(st.cells, k)
			}
		}
		st.cells[cellKey{t, "#live"}] = e.mk(OConst, "1")
		e.setContent(st, t, e.comm(op, fr.get(st, args[0]), fr.get(st, args[1])))
		return t, st
	})
	reg(r64+"ToArray", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return fr.get(st, args[0]), st
	})
	reg(r64+"Minimum "+r64+"Maximum", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		n := "first"
		if strings.HasSuffix(name, "Maximum") {
			n = "last"
		}
		return fr.e.mk(OCall, n, fr.get(st, args[0])), st
	})
	reg(r64+"Select", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		r := e.mk(OCall, "select", fr.get(st, args[0]), args[1])
		return e.mk(OTuple, "", e.mk(OExtract, "0", r), e.typed(e.mk(OExtract, "1", r), types.Universe.Lookup("error").Type())), st
	})
	reg(r64+"Iterator "+r64+"ManyIterator", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return fr.e.mk(OIter, "", fr.get(st, args[0])), st
	})
	reg(r64+"ReverseIterator", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return fr.e.mk(OIter, "rev", fr.get(st, args[0])), st
	})
	hasNext := func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return fr.e.mk(OHasNext, "", args[0]), st
	}
	next := func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		it := args[0]
		if it.Op != OIter {
			return e.mk(OElem, "", it), st
		}
		inLoop := false
		for _, l := range e.loopStack {
			if l.Over == it.Args[0] || l.Over == it {
				inLoop = true
			}
		}
		// called once, outside of a loop over the iterator
		if !inLoop {
			known := false
			for _, l := range e.loopStack {
				if l.Fn == fr.fn {
					known = true
				}
			}
			if !known {
				if it.Aux == "rev" {
					return e.mk(OCall, "last", it.Args[0]), st
				}
				return e.mk(OCall, "first", it.Args[0]), st
			}
		}
		return e.mk(OElem, "", it.Args[0]), st
	}
	for _, i := range []string{"(github.com/RoaringBitmap/roaring/roaring64.IntPeekable64).", "(github.com/RoaringBitmap/roaring/roaring64.IntIterable64).", "(*github.com/RoaringBitmap/roaring/roaring64.intIterator).", "(github.com/RoaringBitmap/roaring.IntIterable)."} {
		models[i+"HasNext"] = hasNext
		models[i+"Next"] = next
	}
	reg("crypto/sha256.Sum256 crypto/sha256.Sum224 crypto/sha512.Sum512 crypto/sha512.Sum512_256 crypto/sha512.Sum384", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		return fr.e.mk(OCall, "digest "+name, args[0]), st
	})
	reg(r64+"UnmarshalBinary", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		fr.emit("call", name, args, nil, in)
		e.setContent(st, args[0], e.mk(OCall, "bitmap of", args[1]))
		return e.typed(e.mk(OCall, name, args[1]), types.Universe.Lookup("error").Type()), st
	})
	reg(r64+"MarshalBinary "+r64+"ToBytes", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		r := e.mk(OCall, "bytes of bitmap", fr.get(st, args[0]))
		return e.mk(OTuple, "", r, e.typed(e.mk(OExtract, "1", r), types.Universe.Lookup("error").Type())), st
	})
	reg(r64+"Clone", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		t := e.mk(OAlloc, "bitmap:"+fr.siteKey(in))
		fr.e.bornNow(t)
		st.cells[cellKey{t, "#live"}] = e.mk(OConst, "1")
		e.setContent(st, t, fr.get(st, args[0]))
		return t, st
	})

	// key value store
	txn := func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		err := types.Universe.Lookup("error").Type()
		tx := e.mk(OCall, "txn@"+fr.siteKey(in), args[0])
		fr.emit("call", name, append([]*Term{tx}, args...), nil, in)
		r, ns := fr.apply(args[1], []*Term{tx}, in, st, nil)
		if ns == nil {
			return r, nil
		}
		if strings.HasSuffix(name, "View") {
			fr.emit("txnend", name, []*Term{tx, r}, nil, in)
			return e.typed(r, err), ns
		}
		ok := e.Cond(e.eq(e.mk(ONil, ""), r, err))
		if r.Op == OChoice {
			ok = e.Cond(e.dist1(r, func(x *Term) *Term { return e.eq(e.mk(ONil, ""), x, err) }))
		}
		ce := e.typed(e.mk(OCall, "commit@"+fr.siteKey(in), tx), err)
		fr.emit("txnend", name, []*Term{tx, r}, nil, in)
		return e.Choice([]Arm{{ok, ce}, {e.bdd.Not(ok), r}}), ns
	}
	reg("(*"+bpkg+"DB).View (*"+bpkg+"DB).Update", txn)
	reg("(*"+bpkg+"Txn).Get", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		k := fr.bytesVal(st, args[1])
		r := e.mk(OCall, "get", args[0], k)
		fr.emit("call", name, []*Term{args[0], k}, r, in)
		return e.mk(OTuple, "", e.mk(OExtract, "0", r), e.typed(e.mk(OExtract, "1", r), types.Universe.Lookup("error").Type())), st
	})
	reg("(*"+bpkg+"Item).Value", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		v := e.mk(OCall, "value", args[0])
		return fr.split(args[1], st, func(f *Term, st *State) (*Term, *State) {
			return fr.apply(f, []*Term{v}, in, st, nil)
		})
	})
	reg("(*"+bpkg+"Item).ValueCopy", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		v := e.mk(OCall, "value", args[0])
		return e.mk(OTuple, "", v, e.typed(e.mk(OExtract, "1", v), types.Universe.Lookup("error").Type())), st
	})
	reg("(*"+bpkg+"Txn).Set", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		a := []*Term{args[0], fr.bytesVal(st, args[1]), fr.bytesVal(st, args[2])}
		r := e.typed(e.mk(OCall, "set", a...), types.Universe.Lookup("error").Type())
		fr.emit("call", name, a, r, in)
		return r, st
	})

	// names of units of time: those of the calendar fields in the zone of the time
	reg("github.com/gernest/rbf/quantum.ViewsByTime", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		q, ok := "", false
		if args[2].Op == OConst {
			q, ok = unquote(args[2].Aux)
		}
		if !ok {
			return e.mk(OCall, name, args...), st
		}
		str := types.Typ[types.String]
		f := e.typed(e.mk(OCall, "(time.Time).Format", args[1], e.typed(e.mk(OConst, `"2006010215"`), str)), str)
		list := []*Term{e.mk(ONil, "")}
		for _, u := range q {
			n := map[rune]int64{'Y': 4, 'M': 6, 'D': 8, 'H': 10}[u]
			if n == 0 {
				continue
			}
			t := f
			if n < 10 {
				t = e.typed(e.mk(OSub, "", f, e.mk(OConst, "0"), e.mk(OConst, fmt.Sprint(n))), str)
			}
			list = append(list, e.mk(OItem, "", e.concat(e.concat(args[0], e.typed(e.mk(OConst, `"_"`), str)), t)))
		}
		return e.mk(OSeq, "", list...), st
	})

	// errors
	reg("errors.Is", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		var is func(t *Term) B
		is = func(t *Term) B {
			r := bF
			for _, a := range e.alts(t, bT) {
				if a.T.Op == ONil {
					if args[1].Op == ONil {
						r = e.bdd.Or(r, a.C)
					}
					continue
				}
				if w := wrappedBy(a.T); w != nil && args[1].Op != ONil {
					r = e.bdd.Or(r, e.bdd.And(a.C, is(w)))
					continue
				}
				x := e.Cond(e.mkT(types.Typ[types.Bool], OCall, name, a.T, args[1]))
				if a.T == args[1] {
					x = bT
				}
				if args[1].Op != ONil {
					x = e.bdd.And(x, e.bdd.Not(e.Cond(e.eq(e.mk(ONil, ""), a.T, errorType))))
				}
				r = e.bdd.Or(r, e.bdd.And(a.C, x))
			}
			return r
		}
		r := is(args[0])
		return e.Bool(r), st
	})
	reg("errors.Join", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		var out []*Term
		if args[0].Op == OSeq && args[0].Args[0].Op == ONil {
			for _, p := range args[0].Args[1:] {
				if p.Op == OItem && p.Args[0].Op == ONil {
					continue
				}
				if p.Op == OItem {
					out = append(out, p.Args[0])
				} else {
					out = append(out, p)
				}
			}
		} else if args[0].Op == ONil {
		} else {
			out = append(out, e.mk(OSpread, "", args[0]))
		}
		if len(out) == 0 {
			return e.mk(ONil, ""), st
		}
		if len(out) == 1 && out[0].Op != OSpread {
			return out[0], st
		}
		return e.mkT(types.Universe.Lookup("error").Type(), OCall, name, out...), st
	})
}

// bytesFrom is the byte sequence made of the pieces ps.
func (e *Engine) bytesFrom(ps []*Term) *Term {
	for i, p := range ps {
		if p.Op == OSpread && p.Args[0].Op == OChoice {
			// keep the choice around the whole sequence
			return e.dist1(p.Args[0], func(x *Term) *Term {
				n := append([]*Term(nil), ps...)
				n[i] = e.mk(OSpread, "", x)
				return e.bytesFrom(n)
			})
		}
	}
	var out []*Term
	for _, p := range ps {
		if p.Op == OSpread {
			out = append(out, e.pieces(p.Args[0])...)
		} else {
			out = append(out, p)
		}
	}
	return e.bytesOf(out)
}

// wrappedBy is the error that t adds a message to.
func wrappedBy(t *Term) *Term {
	if t.Op != OCall {
		return nil
	}
	switch name := strings.SplitN(t.Aux, "@", 2)[0]; name {
	case "fmt.Errorf":
		f, ok := unquoteTerm(t.Args[0])
		if !ok || strings.Count(f, "%w") != 1 || len(t.Args) != 2 || t.Args[1].Op != OSeq {
			return nil
		}
		f = strings.ReplaceAll(f[:strings.Index(f, "%w")], "%%", "")
		if strings.ContainsAny(f, "[*") {
			return nil
		}
		items := t.Args[1].Args[1:]
		n := strings.Count(f, "%")
		if n >= len(items) || items[n].Op != OItem {
			return nil
		}
		for _, p := range items[:n] {
			if p.Op != OItem {
				return nil
			}
		}
		return stripIface(items[n].Args[0])
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack":
		return t.Args[0]
	}
	return nil
}
