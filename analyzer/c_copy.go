package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

func init() {
	register("C11", "the result of trimming is followed field by field through the objects it is built of: every field is a copy of the same field of the original, lists hold original elements or copies of them in their order, nothing collected is dropped, and containers are added exactly when they hold something", c11)
}

// copier follows a result that is a partial copy of an original.
type copier struct {
	c     *Check
	e     *Engine
	effs  []*Effect
	pos   token.Pos
	leafs map[string]bool
	done  map[string][]*Effect
	kdone map[string]bool
	cells map[string][]fieldStore
}

func (w *copier) ob(key, rule string, ok bool, pos token.Pos, f string, a ...any) bool {
	return w.c.ob(key, rule, ok, pos, f, a...)
}

// within: the loop visits something inside of p.
func (w *copier) within(l *Loop, p string) bool {
	return l.Over != nil && (strings.HasPrefix(w.e.path(l.Over), p+".") || strings.HasPrefix(w.e.path(l.Over), p+"["))
}

// objs lists the objects t can be; p is what they are copies of. A pointer that is
// carried by a loop has to start as nil for each p.
func (w *copier) objs(t *Term, p string) (out []*Term, why string) {
	e := w.e
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] || why != "" {
			return
		}
		seen[t] = true
		switch t.Op {
		case ONil, OUndef, OZero:
		case OIface:
			rec(t.Args[0])
		case OChoice:
			for _, a := range t.Arms {
				if !e.absurd(a.C) {
					rec(a.T)
				}
			}
		case OLV:
			if t.LV == nil || t.LV.Loop == nil {
				why = "its origin is not known"
				return
			}
			if !w.within(t.LV.Loop, p) {
				why = fmt.Sprintf("it is carried over from one iteration over %s to the next", e.loopStr(t.LV.Loop))
				return
			}
			rec(t.LV.Init)
			rec(t.LV.Update)
		case OAlloc:
			out = append(out, t)
		default:
			why = "it is " + trunc(e.Str(t), 120)
		}
	}
	rec(t)
	if why == "" && len(out) == 0 {
		why = "it is never set"
	}
	return
}

// stores lists what is written to a field of obj.
type fieldStore struct {
	c    B
	v    *Term
	f    *Effect
	made B // when obj was made on the way to the store
}

// madeHere tells when the object was made on the way to the store; otherwise it
// was found in a carried variable.
func (w *copier) madeHere(p, obj *Term) B {
	switch p.Op {
	case OAddr, OIface:
		return w.madeHere(p.Args[0], obj)
	case OChoice:
		r := bF
		for _, a := range p.Arms {
			r = w.e.bdd.Or(r, w.e.bdd.And(a.C, w.madeHere(a.T, obj)))
		}
		return r
	}
	if p == obj {
		return bT
	}
	return bF
}

func (w *copier) stores(obj *Term, field string) []fieldStore {
	key := fmt.Sprint(obj.ID, field)
	if out, ok := w.cells[key]; ok {
		return out
	}
	var out []fieldStore
	defer func() { w.cells[key] = out }()
	e := w.e
	for _, f := range w.effs {
		if f.Kind != "store" {
			continue
		}
		old := e.cur
		e.cur = f.Cond
		for _, t := range e.targets(f.Args[0]) {
			if t.root != obj {
				continue
			}
			switch {
			case t.path == field:
				out = append(out, fieldStore{e.bdd.And(f.Cond, t.c), f.Args[1], f, e.bdd.And(f.Cond, w.madeHere(f.Args[0], obj))})
			case t.path == "" && f.Args[1].Op == OStruct:
				out = append(out, fieldStore{e.bdd.And(f.Cond, t.c), e.project(f.Args[1], field), f, e.bdd.And(f.Cond, w.madeHere(f.Args[0], obj))})
			}
		}
		e.cur = old
	}
	return out
}

type listItem struct {
	elem *Term
	app  *Effect
}

// list walks everything a list can hold.
func (w *copier) list(v *Term, p, key string, obj *Term) (items []listItem, ok bool) {
	e := w.e
	ok = true
	seen := map[*Term]bool{}
	seenItem := map[*Term]bool{}
	bad := func(pos token.Pos, f string, a ...any) {
		ok = false
		w.ob("list/"+key, "a list of the result holds elements of the same list of the original, in their order", false, pos, f, a...)
	}
	// a list that may start over: only for an object that was just made
	fresh := func(c B) bool {
		for _, a := range e.support(c) {
			if a.Op != OEq {
				continue
			}
			for i := 0; i < 2; i++ {
				x := a.Args[i]
				if a.Args[1-i].Op != ONil || x.Op != OLV && x.Op != OChoice {
					continue
				}
				if e.bdd.And(c, e.bdd.Not(e.Cond(a))) != bF {
					continue
				}
				if os, why := w.objs(x, p); why == "" {
					for _, o := range os {
						if o == obj {
							return true
						}
					}
				}
			}
		}
		return false
	}
	var lvs []*Term
	var rec func(t *Term, c B, lv *Term, pos token.Pos)
	rec = func(t *Term, c B, lv *Term, pos token.Pos) {
		if !ok || e.absurd(c) {
			return
		}
		switch t.Op {
		case ONil, OZero, OMake, OUndef:
			if t.Op == OMake {
				if n := t.Args[0]; n.Op != OConst || n.Aux != "0" {
					bad(pos, "it starts with empty elements")
					return
				}
			}
			if lv != nil && !fresh(c) {
				bad(pos, "elements collected before are dropped when %s", trunc(e.CondStr(c), 200))
			}
		case OChoice:
			carries := false
			for _, a := range t.Arms {
				carries = carries || a.T.Op == OLV && e.cellOf(a.T)
			}
			for _, a := range t.Arms {
				ac := e.bdd.And(c, a.C)
				if carries && (a.T.Op == ONil || a.T.Op == OZero) && !e.absurd(ac) && !fresh(ac) {
					bad(pos, "elements collected before are dropped when %s", trunc(e.CondStr(ac), 200))
				}
				rec(a.T, ac, lv, pos)
			}
		case OLV:
			if lv != nil && t != lv {
				// the outer accumulator of the same list
				found := false
				for _, x := range lvs {
					found = found || x == t
				}
				if !found && !(lv.LV.Init == t) {
					if os := lvsOf(t); len(os) == 0 || os[0] != t || !w.within(t.LV.Loop, p) {
						bad(pos, "what is extended is another list: %s", trunc(e.Str(t), 120))
						return
					}
				}
			}
			if seen[t] {
				return
			}
			seen[t] = true
			lvs = append(lvs, t)
			if t.LV == nil || t.LV.Update == nil || t.LV.Loop == nil {
				bad(pos, "its origin is not known: %s", trunc(e.Str(t), 120))
				return
			}
			l := t.LV.Loop
			if !w.within(l, p) && !fresh(c) {
				bad(l.Pos, "it is carried over from one iteration over %s to the next", e.loopStr(l))
				return
			}
			if l.Kind != "range" && l.Kind != "iter" {
				bad(l.Pos, "it is collected by a loop that does not go from first to last")
				return
			}
			rec(t.LV.Update, bT, t, l.Pos)
			if obj == nil || !e.cellOf(t) {
				rec(t.LV.Init, bT, nil, l.Pos)
			}
		case OSeq:
			rec(t.Args[0], c, lv, pos)
			for _, it := range t.Args[1:] {
				if it.Op != OItem {
					bad(pos, "%s is added as a whole", trunc(e.Str(it), 120))
					return
				}
				ef := e.siteEff[it.Aux]
				if seenItem[it] {
					continue
				}
				seenItem[it] = true
				items = append(items, listItem{it.Args[0], ef})
			}
		default:
			bad(pos, "it is %s", trunc(e.Str(t), 160))
		}
	}
	rec(v, bT, nil, 0)
	return
}

// cellOf: the carried value is the content of a field.
func (e *Engine) cellOf(t *Term) bool { return strings.Contains(t.Aux, "!") }

// flags lists the carried values whose being set c depends on.
func (w *copier) flags(c B, p string) (lvs []*Term, set B, any B) {
	e := w.e
	set, any = bT, bF
	for _, a := range e.support(c) {
		var v *Term
		switch {
		case a.Op == OIsEmpty && a.Args[0].Op == OLV:
			v = a.Args[0]
		case a.Op == OEq && a.Args[0].Op == ONil && a.Args[1].Op == OLV:
			v = a.Args[1]
		case a.Op == OEq && a.Args[1].Op == ONil && a.Args[0].Op == OLV:
			v = a.Args[0]
		}
		if v == nil || v.LV == nil || v.LV.Loop == nil || !w.within(v.LV.Loop, p) {
			continue
		}
		n := e.bdd.Not(e.Cond(a))
		if e.bdd.And(c, e.Cond(a)) != bF {
			continue // c can hold when v is empty: v does not decide it
		}
		lvs = append(lvs, v)
		set = e.bdd.And(set, n)
		any = e.bdd.Or(any, n)
	}
	return
}

// forget drops the carried flags from a condition.
func (w *copier) forget(c B) B {
	e := w.e
	for _, a := range e.support(c) {
		if a.Op == OBroke {
			continue
		}
		lv := len(directTerms(a, func(x *Term) bool { return x.Op == OLV })) > 0
		if lv && (a.Op == OIsEmpty || a.Op == OEq && (a.Args[0].Op == ONil || a.Args[1].Op == ONil)) {
			v := e.vars[a.ID]
			c = e.bdd.Or(e.bdd.restrict(c, v, true), e.bdd.restrict(c, v, false))
		}
	}
	return c
}

func (w *copier) nonempty(t *Term) B {
	e := w.e
	r := bF
	for _, a := range e.alts(t, bT) {
		switch a.T.Op {
		case ONil, OZero, OUndef:
		case OLV:
			n := e.mk(ONil, "")
			x := e.bdd.Not(e.Cond(e.isEmpty(a.T)))
			if _, ok := typeOf(a.T).(*types.Pointer); ok {
				x = e.bdd.Not(e.Cond(e.eq(n, a.T, a.T.Typ)))
			}
			r = e.bdd.Or(r, e.bdd.And(a.C, x))
		case OSeq:
			r = e.bdd.Or(r, e.bdd.And(a.C, e.bdd.Not(e.Cond(e.isEmpty(a.T)))))
		default:
			r = e.bdd.Or(r, a.C)
		}
	}
	return r
}

func typeOf(t *Term) types.Type {
	if t.Typ == nil {
		return nil
	}
	return t.Typ.Underlying()
}

// kept decides that a container is added exactly when one of its elements was.
func (w *copier) kept(key, p string, it listItem, children []*Effect) {
	e := w.e
	a := it.app
	if a == nil {
		return
	}
	lvs, set, any := w.flags(a.Cond, p)
	pos := a.Pos
	if len(children) == 0 {
		return
	}
	m := e.missing(a.Cond, any)
	w.ob("empty/"+key, "resources, scopes and metrics appear only when they keep an item", m == bF, pos, "an empty one is added when %s", trunc(e.CondStr(m), 300))
	for _, ch := range children {
		cc := w.forget(ch.Cond)
		m := e.missing(e.bdd.And(cc, set), a.Cond)
		w.ob("added/"+key, "what contains a kept item is part of the result", m == bF, pos, "it is left out when %s", trunc(e.CondStr(m), 300))
		for _, v := range lvs {
			ne := w.nonempty(v.LV.Update)
			m := e.missing(ch.Cond, ne)
			w.ob("noted/"+key, "what contains a kept item is part of the result", m == bF, ch.Pos, "an item is kept, but %s (of %s) stays empty when %s", e.Str(v), w.c.P.pos(a.Pos), trunc(e.CondStr(m), 300))
		}
	}
	for _, v := range lvs {
		// what was found stays found
		m := e.bdd.And(w.nonempty(v), e.bdd.Not(w.nonempty(v.LV.Update)))
		w.ob("stays/"+key, "what contains a kept item is part of the result", e.absurd(m), v.LV.Loop.Pos, "%s is emptied when %s", e.Str(v), trunc(e.CondStr(m), 300))
		w.ob("all/"+key, "what contains a kept item is part of the result", e.allOf([]*Loop{v.LV.Loop}) == "", v.LV.Loop.Pos, "%s", e.allOf([]*Loop{v.LV.Loop}))
	}
}

// copyOf decides that obj, of struct type st, is a copy of what p names. It
// returns the effects by which it gets elements.
func (w *copier) copyOf(obj *Term, typ types.Type, p string) (children []*Effect) {
	e := w.e
	key := fmt.Sprint(obj.ID, p)
	if ch, ok := w.done[key]; ok {
		return ch
	}
	w.done[key] = nil
	defer func() { w.done[key] = children }()
	st, ok := deptr(typ).Underlying().(*types.Struct)
	if !ok {
		w.ob("copy/"+p, "the result is made of copies", false, 0, "%s is not a message", typ)
		return nil
	}
	w.c.Counts["copied messages"]++
	made := bF
	type fv struct {
		name string
		vs   []fieldStore
		typ  types.Type
	}
	var fs []fv
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		vs := w.stores(obj, "."+f.Name())
		fs = append(fs, fv{f.Name(), vs, f.Type()})
		for _, v := range vs {
			made = e.bdd.Or(made, v.made)
		}
	}
	for _, f := range fs {
		q := p + "." + f.name
		if !w.ob("copy/"+q, "every field around a kept item is preserved", len(f.vs) > 0, w.posOf(fs[0].vs), "%s is not part of the result", q) {
			continue
		}
		w.c.Counts["copied fields"]++
		plain := bF
		isPlain := true
		for _, v := range f.vs {
			for _, a := range e.alts(v.v, v.c) {
				if e.path(a.T) == q {
					plain = e.bdd.Or(plain, a.C)
					continue
				}
				isPlain = false
			}
		}
		if isPlain {
			m := e.missing(w.forget(made), w.forget(plain))
			w.ob("copy/"+q, "every field around a kept item is preserved", m == bF, f.vs[0].f.Pos, "%s is not copied when %s", q, trunc(e.CondStr(m), 300))
			continue
		}
		if sl, ok := f.typ.Underlying().(*types.Slice); ok {
			got := map[*Term]bool{}
			defined := true
			for _, v := range f.vs {
				items, ok := w.list(v.v, p, q, obj)
				if !ok {
					defined = false
					continue
				}
				for _, it := range items {
					if got[it.elem] && it.app == nil {
						continue
					}
					got[it.elem] = true
					if it.app != nil {
						children = append(children, it.app)
					}
					if e.path(it.elem) == q+"[*]" {
						w.leafs[q+"[*]"] = true
						continue
					}
					os, why := w.objs(it.elem, q+"[*]")
					if !w.ob("element/"+q, "a list of the result holds elements of the same list of the original", why == "", v.f.Pos, "an element of %s is not a copy of an original one: %s", q, why) {
						continue
					}
					for _, o := range os {
						ch := w.copyOf(o, sl.Elem(), q+"[*]")
						w.kept(q+"[*]", q+"[*]", it, ch)
						w.c.Counts["containers"]++
					}
				}
			}
			if defined {
				w.ob("filled/"+q, "every field around a kept item is preserved", len(got) > 0, f.vs[0].f.Pos, "%s of the result is always empty", q)
			}
			continue
		}
		for _, v := range f.vs {
			for _, a := range e.alts(v.v, v.c) {
				if e.path(a.T) == q {
					continue
				}
				switch a.T.Op {
				case OIface:
					if a.T.Args[0].Op == OAlloc {
						children = append(children, w.copyOf(a.T.Args[0], a.T.Typ, q)...)
						continue
					}
				case OAlloc:
					children = append(children, w.copyOf(a.T, f.typ, q)...)
					continue
				}
				os, why := w.objs(a.T, q)
				if w.ob("copy/"+q, "every field around a kept item is preserved", why == "", v.f.Pos, "%s becomes %s", q, trunc(e.Str(a.T), 160)) {
					for _, o := range os {
						children = append(children, w.copyOf(o, f.typ, q)...)
					}
				}
			}
		}
	}
	return
}

func (w *copier) posOf(vs []fieldStore) token.Pos {
	if len(vs) > 0 {
		return vs[0].f.Pos
	}
	return w.pos
}

func deptr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func c11(c *Check) {
	e := c.engine()
	fn := c.fn(visitAll + "Visit")
	r := c.run(e, fn, "o", "data")
	w := &copier{c: c, e: e, effs: e.effects, pos: fn.Pos(), leafs: map[string]bool{}, done: map[string][]*Effect{}, kdone: map[string]bool{}, cells: map[string][]fieldStore{}}
	typ := fn.Signature.Results().At(0).Type()
	known := e.knownKind("data.Data")
	n := 0
	for _, a := range e.alts(r.Val, bT) {
		switch {
		case e.path(a.T) == "data":
			// not trimmed: only without filters, or when there is nothing to trim
			nilO := e.Cond(e.eq(e.mk(ONil, ""), r.Args[0], r.Args[0].Typ))
			m := e.bdd.And(e.bdd.And(a.C, known), e.bdd.Not(nilO))
			c.ob("trimmed", "data of every kind is trimmed", e.absurd(m), fn.Pos(), "data is returned as it is when %s", e.CondStr(m))
		default:
			os, why := w.objs(a.T, "data")
			if c.ob("result", "the result is a copy of the data", why == "", fn.Pos(), "the result is not understood: %s", why) {
				for _, o := range os {
					w.copyOf(o, typ, "data")
					n++
				}
			}
		}
	}
	for _, it := range leafItems("data.Data") {
		c.ob("leaf/"+it.kind+it.point, "items that are kept are part of the result", w.leafs[it.path], fn.Pos(), "%s is never part of the result", it.path)
	}
	c.count("copied fields", 0, 45)
	c.count("containers", 0, 11)
}
