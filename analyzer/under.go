package main

import "go/token"

// view looks at terms and conditions in the cases where g holds: choices anywhere
// inside are narrowed to what they can be then.
type view struct {
	e     *Engine
	g     B
	terms map[*Term]*Term
	conds map[B]B
}

func (e *Engine) view(g B) *view {
	return &view{e, g, map[*Term]*Term{}, map[B]B{}}
}

func (w *view) term(t *Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := w.terms[t]; ok {
		return r
	}
	w.terms[t] = t
	r := w.rebuild(t)
	w.terms[t] = r
	return r
}

func (w *view) rebuild(t *Term) *Term {
	e := w.e
	switch t.Op {
	case OChoice:
		u := e.under(t, w.g)
		if u.Op == OChoice {
			var arms []Arm
			for _, a := range u.Arms {
				arms = append(arms, Arm{w.cond(a.C), w.term(a.T)})
			}
			return e.Choice(arms)
		}
		return w.term(u)
	case OBool:
		return e.Bool(w.cond(t.B))
	case OLV, OAlloc, OClosure, OParam, OConst, OGlobal, OFunc, OField, OElem, OIface, OContent:
		return t
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = w.term(a)
		same = same && args[i] == a
	}
	if same {
		return t
	}
	switch t.Op {
	case OEq:
		return e.dist2(args[0], args[1], func(x, y *Term) *Term { return e.eq(x, y, x.Typ) })
	case OLt:
		return e.dist2(args[0], args[1], e.lt)
	case OIsEmpty:
		return e.dist1(args[0], e.isEmpty)
	case OBin:
		ops := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM}
		if o, ok := ops[t.Aux]; ok {
			return e.bin(o, args[0], args[1], t.Typ)
		}
	case OCard:
		return e.dist1(args[0], func(x *Term) *Term { return e.mk(OCard, "", x) })
	case OLen:
		return e.dist1(args[0], e.length)
	}
	return e.mkT(t.Typ, t.Op, t.Aux, args...)
}

func (w *view) cond(c B) B {
	if c == bT || c == bF {
		return c
	}
	if r, ok := w.conds[c]; ok {
		return r
	}
	e := w.e
	n := e.bdd.nodes[c]
	a := e.atoms[n.v]
	r := e.bdd.Ite(e.Cond(w.term(a)), w.cond(n.hi), w.cond(n.lo))
	w.conds[c] = r
	return r
}
