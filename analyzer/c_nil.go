package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- telemetry that is not complete

func init() {
	register("C32", "every access through a message, index, slice, conversion to an array, type assertion and integer division in the code that receives, indexes, trims, combines and renders telemetry is found by symbolic execution, with the condition of its path: none is reached where the message is missing or the bytes too short; the process ends only where an operation of the environment failed; the size of stored keys is bounded", c32)
}

const maxBadgerKey = 65000

type nilCheck struct {
	c    *Check
	e    *Engine
	m    string
	sets map[*Term][]*Effect // what is put into a map
	miss map[*Term]bool      // parameters that can be missing
}

// entry is code to look at, with the parameters that can be missing.
type entry struct {
	fn     *ssa.Function
	opaque []string
	save   bool
	miss   []bool
}

// mayBeNil is the part of c where t, a pointer to a message, can be missing in a
// decoded message.
func (n *nilCheck) mayBeNil(t *Term, c B) B {
	e := n.e
	switch t.Op {
	case OParam:
		if !n.miss[t] {
			return bF
		}
	case OAlloc, OMake, OAddr, OClosure, OGlobal:
		return bF
	case OElem:
		return bF // elements of repeated fields are never missing
	case OIndex:
		if sets := n.sets[t.Args[0]]; sets != nil {
			// what is found in a map was put there
			for _, s := range sets {
				for _, a := range e.alts(s.Args[2], s.Cond) {
					if n.mayBeNil(a.T, a.C) != bF {
						return c
					}
				}
			}
			return e.missing(c, e.has(t.Args[0], t.Args[1]))
		}
		if s := t.Args[0]; s.Op == OField && s.Typ != nil {
			if _, ok := s.Typ.Underlying().(*types.Slice); ok {
				return bF
			}
		}
	case OAssert:
		is := e.Cond(e.mkT(t.Typ, OTypeIs, t.Aux, t.Args[0]))
		return e.missing(n.sameKind(c, is), is)
	case OField:
		x := t.Args[0]
		if x.Op == OAssert && isOneof(x.Typ) {
			return bF // the message of an alternative is there
		}
		if x.Typ != nil && strings.HasSuffix(x.Typ.String(), "/rq/v1.Sample") && t.Aux == "Data" {
			return bF // see samplesHaveData
		}
	}
	return e.missing(n.sameKind(c), e.bdd.Not(e.isNil(t)))
}

// sameKind is c with the alternatives of what was found in a map replaced by those
// of what was put there under the same key.
func (n *nilCheck) sameKind(c B, also ...B) B {
	e := n.e
	atoms := e.support(c)
	for _, b := range also {
		atoms = append(atoms, e.support(b)...)
	}
	for _, a := range atoms {
		if a.Op != OTypeIs || a.Args[0].Op != OField || a.Args[0].Args[0].Op != OIndex {
			continue
		}
		f := a.Args[0]
		x := f.Args[0]
		var vs []*Term
		for _, s := range n.sets[x.Args[0]] {
			if s.Args[1] == x.Args[1] {
				vs = append(vs, s.Args[2])
			}
		}
		if len(vs) == 0 {
			continue
		}
		was := e.Cond(e.mkT(a.Typ, OTypeIs, a.Aux, e.mkT(f.Typ, OField, f.Aux, vs[0])))
		is := e.Cond(a)
		n.c.assume("what is found under a key has the kind of what was put there under an equal key: C11 decides that keys tell kinds apart")
		c = e.bdd.And(c, e.bdd.Or(e.bdd.And(is, was), e.bdd.And(e.bdd.Not(is), e.bdd.Not(was))))
		for _, v := range vs[1:] {
			if v != vs[0] {
				return c
			}
		}
	}
	return c
}

// found: x is a part of what was found in a map.
func (n *nilCheck) found(x *Term) bool {
	for x.Op == OField {
		x = x.Args[0]
	}
	return x.Op == OIndex && n.sets[x.Args[0]] != nil
}

// given: x is data of the input, not of a structure of the program.
func given(x *Term) bool {
	for {
		switch x.Op {
		case OParam:
			return true
		case OField, OElem, OIndex, OAssert, OConv, OSub:
			if x.Op == OIndex && x.Args[0].Op != OField {
				return false
			}
			x = x.Args[0]
		default:
			return false
		}
	}
}

// shorter is the part of c where x can have no more than n elements.
func (n *nilCheck) shorter(x *Term, c B, k int64) B {
	e := n.e
	if x.Op == OConst {
		if s, ok := unquote(x.Aux); ok && int64(len(s)) > k {
			return bF
		}
	}
	c = e.bdd.And(c, e.theory(c))
	if k == 0 {
		return e.missing(c, e.bdd.Not(e.Cond(e.isEmpty(x))))
	}
	l := e.mk(OLen, "", x)
	// what is known about the length
	for _, a := range e.support(c) {
		var lo, hi int64 = 0, 1 << 40
		switch {
		case a.Op == OEq && a.Args[1] == l:
			if v, ok := constInt(a.Args[0]); ok && v > k {
				c = e.bdd.And(c, e.bdd.Not(e.Cond(a)))
			}
			continue
		case a.Op == OEq && a.Args[0] == l:
			if v, ok := constInt(a.Args[1]); ok && v > k {
				c = e.bdd.And(c, e.bdd.Not(e.Cond(a)))
			}
			continue
		case a.Op == OLt && a.Args[1] == l:
			if v, ok := constInt(a.Args[0]); ok {
				lo = v + 1
			}
			if lo > k {
				c = e.bdd.And(c, e.bdd.Not(e.Cond(a)))
			}
		case a.Op == OLt && a.Args[0] == l:
			if v, ok := constInt(a.Args[1]); ok {
				hi = v
			}
			if hi <= k+1 {
				c = e.bdd.And(c, e.Cond(a)) // otherwise it is long enough
			}
		}
	}
	return c
}

func c32(c *Check) {
	var todo []entry
	for _, in := range []struct {
		fn     string
		opaque []string
		save   bool
	}{
		{"internal/transform.(*Context).ProcessSamples", nil, false},
		{"internal/visit.(*All).Visit", nil, false},
		{"internal/visit.(*All).Compile", nil, false},
		{"internal/data.CollapseMetrics", nil, false},
		{"internal/data.CollapseLogs", nil, false},
		{"internal/data.CollapseTrace", nil, false},
		{"internal/render.MetricsData", nil, false},
		{"internal/f2.(*Metrics).Append", []string{"internal/arrow3"}, false},
		{"internal/service.(*Metrics).Export", nil, true},
		{"internal/service.(*Logs).Export", nil, true},
		{"internal/service.(*Trace).Export", nil, true},
		{"internal/service.(*Service).ScanSamples", []string{"internal/data.Collapse", "internal/visit."}, false},
	} {
		todo = append(todo, entry{fn: c.fn(in.fn), opaque: in.opaque, save: in.save})
	}
	done := map[string]bool{}
	for i := 0; i < len(todo); i++ {
		k := fnName(todo[i].fn) + fmt.Sprint(todo[i].miss)
		if done[k] {
			continue
		}
		done[k] = true
		todo = append(todo, c.complete(todo[i])...)
	}
	c.boundedKeys()
	c.Min["accesses through messages"] = 500
	c.Min["lists and bytes accessed by position"] = 60
	c.Min["samples made"] = 3
	c.assume("decoded messages hold no missing elements in lists and no missing messages in alternatives that are set, and are not nested deeper than the decoder allows")
	c.assume("all data that is combined is of one kind: C01 and C15 decide which samples are read")
}

// complete decides that code accesses nothing that is missing. It returns the
// recursive calls that are found.
func (c *Check) complete(in entry) (calls []entry) {
	const whole = "no part of a message that can be missing is accessed"
	{
		e := c.engine()
		e.Panics = true
		e.Opaque = func(f *ssa.Function) bool {
			for _, o := range in.opaque {
				if strings.Contains(fnName(f), o) {
					return true
				}
			}
			return false
		}
		r := c.run(e, in.fn)
		m := shortName(fnName(in.fn))
		n := &nilCheck{c: c, e: e, m: m, sets: map[*Term][]*Effect{}, miss: map[*Term]bool{}}
		for i, x := range in.miss {
			n.miss[r.Args[i]] = x
		}
		for _, f := range e.effects {
			if f.Kind == "mapset" {
				n.sets[f.Args[0]] = append(n.sets[f.Args[0]], f)
			}
		}
		seen := map[string]int{}
		key := func(kind string, x *Term) string {
			k := kind + "/" + m + "/" + trunc(e.path(x), 120)
			seen[k]++
			if i := seen[k]; i > 1 {
				k = fmt.Sprintf("%s#%d", k, i)
			}
			return k
		}
		stored := 0
		for _, f := range e.effects {
			pos := f.Pos
			switch f.Kind {
			case "store":
				// a sample that is made
				a := f.Args[0]
				if in.save && a.Op == OAddr && a.Aux == ".Data" && a.Args[0].Typ != nil && strings.HasSuffix(a.Args[0].Typ.String(), "/rq/v1.Sample") {
					stored++
					for _, x := range e.alts(f.Args[1], f.Cond) {
						d := n.mayBeNil(x.T, x.C)
						c.ob(key("sample", a), "samples have data", d == bF, pos, "%s saves a sample without data when %s", m, trunc(e.CondStr(d), 300))
					}
				}
			case "deref":
				c.Counts["accesses through messages"]++
				for _, a := range e.alts(f.Args[0], f.Cond) {
					d := n.mayBeNil(a.T, a.C)
					c.ob(key("access", a.T), whole, d == bF, pos, "%s accesses %s, which is missing when %s", m, trunc(e.path(a.T), 200), trunc(e.CondStr(d), 300))
				}
			case "index", "slice", "toarray":
				x := f.Args[0]
				if strings.HasPrefix(f.Callee, "array") {
					continue // constants are checked by the compiler, others are below
				}
				for _, a := range e.alts(x, f.Cond) {
					if !given(a.T) {
						continue
					}
					c.Counts["lists and bytes accessed by position"]++
					need := int64(-1)
					switch f.Kind {
					case "index":
						i := f.Args[1]
						if i.Op == OIdx && (i.Args[0] == a.T || i.Args[0] == x) {
							continue
						}
						if k, ok := constInt(i); ok {
							need = k
						}
					case "toarray":
						fmt.Sscan(f.Callee, &need)
						need--
					case "slice":
						need = 0
						ok := true
						for _, b := range f.Args[1:] {
							if b.Op == OUndef || b.Op == OLen && b.Args[0] == a.T {
								continue
							}
							k, is := constInt(b)
							ok = ok && is
							need = max(need, k)
						}
						if !ok {
							need = -1
						} else if need == 0 {
							continue
						} else {
							need--
						}
					}
					d := a.C
					if need >= 0 {
						d = n.shorter(a.T, a.C, need)
					}
					c.ob(key(f.Kind, a.T), "lists and bytes are not accessed behind their end", d == bF || e.absurd(d), pos, "%s accesses %s by position, which can be too short when %s", m, trunc(e.path(a.T), 200), trunc(e.CondStr(d), 300))
				}
			case "assert":
				c.Counts["type assertions"]++
				is := e.Cond(f.Args[1])
				d := e.missing(n.sameKind(f.Cond, is), is)
				c.ob(key("assert", f.Args[0]), "the kind of data is tested before it is used", d == bF || !given(f.Args[0]) && !n.found(f.Args[0]), pos, "%s asserts that %s is a %s when %s", m, trunc(e.path(f.Args[0]), 200), f.Callee, trunc(e.CondStr(d), 300))
			case "divide":
				x := f.Args[0]
				if k, ok := constInt(x); ok && k != 0 || !anyTerm(x, func(x *Term) bool { return x.Op == OParam }) {
					continue
				}
				d := e.missing(f.Cond, e.bdd.Not(e.Cond(e.eq(e.mk(OConst, "0"), x, types.Typ[types.Int]))))
				c.ob(key("divide", x), "nothing is divided by zero", d == bF, pos, "%s divides by %s when %s", m, trunc(e.path(x), 200), trunc(e.CondStr(d), 300))
			case "panic", "call":
				if call, ok := f.Instr.(ssa.CallInstruction); ok && f.Kind == "call" {
					// a recursive call: the function is looked at for itself
					if fn := call.Common().StaticCallee(); fn != nil && fn.Blocks != nil && c.P.isRepo(fnPkg(fn)) && !c.P.isGen(fn) && !e.Opaque(fn) {
						in := entry{fn: fn, opaque: in.opaque, miss: make([]bool, len(fn.Params))}
						for i, x := range f.Args {
							if i >= len(in.miss) || !isMessage(fn.Params[i].Type()) {
								continue
							}
							for _, a := range e.alts(x, f.Cond) {
								if n.mayBeNil(a.T, a.C) != bF {
									in.miss[i] = true
								}
							}
						}
						calls = append(calls, in)
						c.Counts["recursive calls"]++
					}
				}
				if f.Kind == "call" && !endsProcess(f.Callee) {
					continue
				}
				c.Counts["places that end the process"]++
				d := n.withoutFailures(f.Cond)
				c.ob(key("end", e.mk(OConst, f.Callee)), "input never ends the process", d == bF, pos, "%s ends the process when %s", m, trunc(e.CondStr(d), 300))
			}
		}
		if in.save {
			c.ob("samples/"+m, "samples have data", stored > 0, in.fn.Pos(), "%s makes no sample", m)
			c.Counts["samples made"] += stored
		}
	}
	return calls
}

func endsProcess(name string) bool {
	switch name {
	case "os.Exit", "runtime.Goexit":
		return true
	}
	return strings.HasSuffix(name, "internal/logger.Fail") || strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic")
}

// withoutFailures is the part of c where no operation of the environment failed.
func (n *nilCheck) withoutFailures(c B) B {
	e := n.e
	for _, f := range e.effects {
		if f.Kind == "error" && n.c.isIO(f) {
			for _, t := range f.Args {
				if t.Typ != nil && types.Identical(t.Typ, errorType) {
					c = e.bdd.And(c, e.isNil(t))
				}
			}
			if f.Res != nil {
				_, err := results(f)
				c = e.bdd.And(c, e.isNil(err))
			}
		}
	}
	if e.absurd(c) {
		return bF
	}
	return c
}

// boundedKeys: the keys of labels are not longer than the database accepts.
func (c *Check) boundedKeys() {
	const rule = "no label is too long to be stored"
	for _, name := range []string{"TranslateKey", "Find"} {
		fn := c.fn("internal/translate.(*Translate)." + name)
		e := c.engine()
		r := c.run(e, fn, "t", "key")
		for _, f := range e.effects {
			if !isCall(f, txnGet) && !isCall(f, txnSet) {
				continue
			}
			c.Counts["keys"]++
			for _, a := range e.alts(f.Args[1], f.Cond) {
				why := e.unbounded(a.T, a.C, r.Args[0])
				c.ob("key/"+name+"/"+trunc(e.path(a.T), 100), rule, why == "", f.Pos, "%s gives the database a key of any length: %s", name, why)
			}
		}
	}
	c.Min["keys"] = 4
}

// unbounded tells which part of a key can have any length.
func (e *Engine) unbounded(k *Term, c B, recv *Term) string {
	parts := []*Term{k}
	if k.Op == OSeq {
		parts = k.Args
	}
	var free []*Term
	for _, p := range parts {
		switch p.Op {
		case ONil, OZero, OMake, OItem:
			continue
		case OSpread:
			p = p.Args[0]
		}
		if p.Op == OChoice {
			var inner []*Term
			for _, q := range parts[:len(parts)-1] {
				inner = append(inner, q)
			}
			if parts[len(parts)-1].Op == OSpread && parts[len(parts)-1].Args[0] == p {
				for _, a := range e.alts(p, c) {
					if why := e.unbounded(e.mk(OSeq, k.Aux, append(append([]*Term{}, inner...), e.mk(OSpread, "", a.T))...), a.C, recv); why != "" {
						return why
					}
				}
				return ""
			}
		}
		switch {
		case p.Op == OConst, p.Op == OU64, p.Op == OHash, p.Op == ONum, p.Op == OArrSlice:
		case p.Op == OCall && strings.HasPrefix(p.Aux, "digest "):
		case p.Op == OField && p.Args[0] == recv: // made by the constructor
		default:
			free = append(free, p)
		}
	}
	if len(free) == 0 {
		return ""
	}
	c = e.bdd.And(c, e.theory(c))
	for _, a := range e.support(c) {
		for _, lit := range []B{e.Cond(a), e.bdd.Not(e.Cond(a))} {
			if e.missing(c, lit) != bF {
				continue
			}
			m, k, ok := e.linearForm(lit)
			if !ok {
				continue
			}
			// sum of factors * terms > k
			bound := -k - 1
			all := bound <= maxBadgerKey
			for _, p := range free {
				all = all && m["len("+e.path(p)+")"] < 0
			}
			for _, f := range m {
				all = all && f < 0
			}
			if all {
				return ""
			}
		}
	}
	return e.path(free[0])
}

func isMessage(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isProtoMsg(p)
}
