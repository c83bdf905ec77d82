package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// restrict narrows the value of t to what it can be when g holds.
func (e *Engine) under(t *Term, g B) *Term {
	if t == nil || t.Op != OChoice {
		return t
	}
	var arms []Arm
	for _, a := range t.Arms {
		c := e.bdd.And(a.C, g)
		if c == bF || e.absurd(c) {
			continue
		}
		arms = append(arms, Arm{e.bdd.Cof(a.C, g), a.T})
	}
	if len(arms) == 0 {
		return t
	}
	if len(arms) == 1 {
		return arms[0].T
	}
	return e.Choice(arms)
}

// evalNum evaluates t over small integers given for some of its subterms; all
// values t can have for the conditions that remain open are returned.
func (e *Engine) evalNum(t *Term, env map[*Term]int64, g B, depth int) (vals []int64, ok bool) {
	if depth > 40 {
		return nil, false
	}
	if v, ok := env[t]; ok {
		return []int64{v}, true
	}
	cross := func(f func(a, b int64) (int64, bool)) ([]int64, bool) {
		cur, ok := e.evalNum(t.Args[0], env, g, depth+1)
		if !ok {
			return nil, false
		}
		for _, x := range t.Args[1:] {
			ys, ok := e.evalNum(x, env, g, depth+1)
			if !ok {
				return nil, false
			}
			var n []int64
			for _, a := range cur {
				for _, b := range ys {
					v, ok := f(a, b)
					if !ok {
						return nil, false
					}
					n = append(n, v)
				}
			}
			cur = n
		}
		return cur, true
	}
	switch t.Op {
	case OZero:
		return []int64{0}, true
	case OConst:
		if k, ok := constInt(t); ok {
			return []int64{k}, true
		}
		return nil, false
	case OConv:
		return e.evalNum(t.Args[0], env, g, depth+1)
	case OChoice:
		for _, a := range t.Arms {
			c := e.bdd.And(e.fixAtoms(a.C, env, g, depth), g)
			if c == bF || e.absurd(c) {
				continue
			}
			v, ok := e.evalNum(a.T, env, g, depth+1)
			if !ok {
				return nil, false
			}
			vals = append(vals, v...)
		}
		return vals, len(vals) > 0
	case OCall:
		switch t.Aux {
		case "min":
			return cross(func(a, b int64) (int64, bool) { return min(a, b), true })
		case "max":
			return cross(func(a, b int64) (int64, bool) { return max(a, b), true })
		}
	}
	return nil, false
}

// fixAtoms decides the comparisons in c that env determines.
func (e *Engine) fixAtoms(c B, env map[*Term]int64, g B, depth int) B {
	for _, a := range e.support(c) {
		if a.Op != OEq && a.Op != OLt {
			continue
		}
		x, ok := e.evalNum(a.Args[0], env, g, depth+1)
		if !ok || len(x) != 1 {
			continue
		}
		y, ok := e.evalNum(a.Args[1], env, g, depth+1)
		if !ok || len(y) != 1 {
			continue
		}
		v := x[0] == y[0]
		if a.Op == OLt {
			v = x[0] < y[0]
		}
		c = e.bdd.restrict(c, e.vars[a.ID], v)
	}
	return c
}

// lvsOf lists the loop carried values t depends on.
func lvsOf(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OLV {
			out = append(out, t)
			if t.LV != nil {
				rec(t.LV.Init)
				rec(t.LV.Update)
			}
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
		for _, a := range t.Arms {
			rec(a.T)
		}
	}
	rec(t)
	return out
}

// foldCheck decides whether the value final includes leaf, combined by want with
// everything seen before.
type foldSpec struct {
	name string
	want func(acc, leaf int64) int64
}

// leafStep finds the carried value whose update combines it with leaf.
func (e *Engine) foldOf(final *Term, leafPath string, sp foldSpec) (string, token.Pos) {
	lvs := lvsOf(final)
	why := fmt.Sprintf("%s is never looked at", leafPath)
	var pos token.Pos
	for _, v := range lvs {
		u := v.LV.Update
		if u == nil {
			continue
		}
		leaves := directTerms(u, func(x *Term) bool { return x.Op == OField && e.path(x) == leafPath })
		if len(leaves) == 0 {
			continue
		}
		leaf := leaves[0]
		pos = v.LV.Loop.Pos
		g := e.exist(leaf)
		if w := e.allOf([]*Loop{v.LV.Loop}); w != "" {
			why = w
			continue
		}
		bad := ""
		for a := int64(0); a < 4 && bad == ""; a++ {
			for b := int64(0); b < 4 && bad == ""; b++ {
				env := map[*Term]int64{v: a, leaf: b}
				r, ok := e.evalNum(u, env, g, 0)
				if !ok {
					// other inputs take part
					others := directTerms(u, func(x *Term) bool { return x.Op == OField && e.path(x) != leafPath || x.Op == OLV && x != v })
					for _, o := range others {
						if _, ok := env[o]; !ok {
							env[o] = 1
						}
					}
					r, ok = e.evalNum(u, env, g, 0)
				}
				if !ok {
					bad = "the update " + trunc(e.Str(u), 200) + " is not understood"
					break
				}
				for _, x := range r {
					if x != sp.want(a, b) {
						bad = fmt.Sprintf("with the bound at %d, an item at %d makes it %d instead of %d", a, b, x, sp.want(a, b))
					}
				}
			}
		}
		if bad != "" {
			why = bad
			continue
		}
		if w := e.reaches(final, v, g); w != "" {
			why = w
			continue
		}
		return "", pos
	}
	return why, pos
}

// directTerms finds subterms without entering carried values.
func directTerms(t *Term, f func(*Term) bool) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if f(t) {
			out = append(out, t)
			return
		}
		if t.Op == OLV {
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
		for _, a := range t.Arms {
			rec(a.T)
		}
	}
	rec(t)
	return out
}

// reaches decides that the accumulated value v ends up in final whenever g holds.
func (e *Engine) reaches(final, v *Term, g B) string {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	why := ""
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		defer delete(seen, t)
		switch t.Op {
		case OLV:
			if e.allOf([]*Loop{t.LV.Loop}) != "" {
				why = e.allOf([]*Loop{t.LV.Loop})
				return false
			}
			if t.LV.Update == nil {
				return false
			}
			if rec(t.LV.Update) {
				// what this loop accumulated has to survive its later iterations
				return true
			}
			return rec(t.LV.Init)
		case OChoice:
			any := false
			for _, a := range t.Arms {
				c := e.bdd.And(a.C, g)
				if c == bF || e.absurd(c) || e.absurd(e.bdd.And(c, e.noErr(c))) {
					continue
				}
				if !rec(a.T) {
					return false
				}
				any = true
			}
			return any
		case OCall:
			if t.Aux == "min" || t.Aux == "max" {
				for _, a := range t.Args {
					if rec(a) {
						return true
					}
				}
			}
		}
		return false
	}
	if rec(final) {
		// and every carried value on the way starts from the one around it
		return e.chained(final, v, g)
	}
	if why == "" {
		why = "what was accumulated is not part of the result"
	}
	return why
}

// chained: the accumulator of an inner loop starts with that of the outer one, so
// nothing accumulated before is lost.
func (e *Engine) chained(final, v *Term, g B) string {
	// walk inits from v outwards; each carried value that contains v in its update
	// has to be reached
	reach := map[*Term]bool{}
	var back func(t *Term)
	back = func(t *Term) {
		if t == nil || reach[t] {
			return
		}
		reach[t] = true
		switch t.Op {
		case OLV:
			back(t.LV.Init)
		case OChoice:
			for _, a := range t.Arms {
				back(a.T)
			}
		case OCall:
			for _, a := range t.Args {
				back(a)
			}
		}
	}
	back(v)
	if v.LV.Loop == nil {
		return ""
	}
	for _, l := range v.LV.Loop.Outer {
		inFinal := false
		for _, w := range lvsOf(final) {
			if w.LV.Loop == l {
				inFinal = true
			}
		}
		found := false
		for w := range reach {
			if w.Op == OLV && w.LV.Loop == l {
				found = true
			}
		}
		if inFinal && !found {
			return fmt.Sprintf("what earlier iterations of the loop at %s accumulated is dropped", e.P.pos(l.Pos))
		}
	}
	return ""
}

func (e *Engine) fullyContains(t, v *Term) bool {
	for _, x := range lvsOf(t) {
		if x == v {
			return true
		}
	}
	return false
}

func c03(c *Check) {
	e := c.engine()
	e.Opaque = opaque(batchAddFn)
	res := c.run(e, c.fn("internal/transform.(*Context).ProcessSamples"), "c", "ls")
	_ = res
	var minT, maxT *Term
	var minE, maxE, hand *Effect
	for _, f := range e.effects {
		switch {
		case f.Kind == "store" && e.path(f.Args[0]) == "ls[*].MinTs":
			minT, minE = f.Args[1], f
		case f.Kind == "store" && e.path(f.Args[0]) == "ls[*].MaxTs":
			maxT, maxE = f.Args[1], f
		case f.Kind == "call" && f.Callee == batchAddFn:
			hand = f
		}
	}
	if !c.ob("stored/min", "the earliest time of a sample is recorded", minT != nil, token.NoPos, "MinTs is never set") ||
		!c.ob("stored/max", "the latest time of a sample is recorded", maxT != nil, token.NoPos, "MaxTs is never set") ||
		!c.ob("handed", "a sample is indexed at its earliest time", hand != nil, token.NoPos, "no sample is handed to the batch") {
		return
	}
	for n, f := range map[string]*Effect{"min": minE, "max": maxE} {
		c.ob("stored/"+n+"/always", "time bounds are recorded for every sample", e.allOf(f.Loops) == "" && e.implies(bT, f.Cond) && len(f.Loops) == 1, f.Pos,
			"only when %s", e.CondStr(f.Cond))
	}
	lo := foldSpec{"min", func(a, b int64) int64 {
		if b == 0 {
			return a
		}
		if a == 0 {
			return b
		}
		return min(a, b)
	}}
	hi := foldSpec{"max", func(a, b int64) int64 { return max(a, b) }}
	for _, k := range kinds("ls[*].Data.Data") {
		type row struct{ lo, hi string }
		var rows []row
		switch k.name {
		case "METRICS":
			for _, p := range pointKinds {
				t := k.item + ".Data." + p + ".DataPoints[*].TimeUnixNano"
				rows = append(rows, row{t, t})
			}
		case "TRACES":
			rows = append(rows, row{k.item + ".StartTimeUnixNano", k.item + ".EndTimeUnixNano"})
		case "LOGS":
			rows = append(rows, row{k.item + ".TimeUnixNano", k.item + ".TimeUnixNano"})
		}
		for _, r := range rows {
			w, pos := e.foldOf(minT, r.lo, lo)
			c.ob("min/"+r.lo, "the earliest time covers every item: the bound is lowered by each item that is earlier and kept otherwise", w == "", pos, "%s: %s", r.lo, w)
			w, pos = e.foldOf(maxT, r.hi, hi)
			c.ob("max/"+r.hi, "the latest time covers every item: the bound is raised by each item that is later and kept otherwise", w == "", pos, "%s: %s", r.hi, w)
			c.Counts["item times"]++
		}
	}
	for n, t := range map[string]*Term{"min": minT, "max": maxT} {
		for _, v := range lvsOf(t) {
			_ = v
		}
		// the bounds start over for every sample
		ok, why := e.startsAtZero(t, hand.Loops)
		c.ob("reset/"+n, "time bounds of one sample do not leak into the next", ok, token.NoPos, "%s", why)
	}
	at := hand.Args[2]
	var nano *Term
	for _, x := range directTerms(at, func(x *Term) bool { return x.Op == OCall && strings.HasPrefix(x.Aux, "time.Unix") }) {
		if len(x.Args) == 2 && x.Args[0] == e.mk(OConst, "0") {
			nano = x.Args[1]
		}
		if len(x.Args) == 1 {
			nano = nil
		}
	}
	c.ob("indexed at", "a sample is indexed at its earliest time", nano != nil && e.stripConv(nano) == e.stripConv(minT), hand.Pos, "it is indexed at %s", trunc(e.Str(at), 300))
	c.ob("indexed in UTC", "a sample is indexed in UTC, the zone its views are named in", at.Op == OCall && strings.HasPrefix(at.Aux, "(time.Time).UTC"), hand.Pos, "it is indexed at %s", trunc(e.Str(at), 300))
	c.count("item times", 0, 7)
}

// stripConv drops numeric conversions.
func (e *Engine) stripConv(t *Term) *Term {
	switch t.Op {
	case OConv:
		if !lossless(t.Args[0].Typ, t.Typ) {
			return t
		}
		return e.stripConv(t.Args[0])
	case OZero:
		return e.mk(OConst, "0")
	case OChoice:
		var arms []Arm
		for _, a := range t.Arms {
			arms = append(arms, Arm{a.C, e.stripConv(a.T)})
		}
		return e.Choice(arms)
	}
	return t
}

// lossless: no two values are converted to the same.
func lossless(from, to types.Type) bool {
	if from == nil || to == nil {
		return true
	}
	a, ok1 := from.Underlying().(*types.Basic)
	b, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return true
	}
	if a.Info()&types.IsNumeric == 0 || b.Info()&types.IsNumeric == 0 {
		return true
	}
	if a.Info()&types.IsInteger != 0 && b.Info()&types.IsInteger != 0 {
		s := types.SizesFor("gc", "amd64")
		return s.Sizeof(b) >= s.Sizeof(a)
	}
	return a.Kind() == b.Kind() || a.Info()&types.IsFloat != 0 && b.Kind() == types.Float64
}

// startsAtZero: no accumulator of t is carried by one of the loops over samples.
func (e *Engine) startsAtZero(t *Term, outer []*Loop) (bool, string) {
	for _, v := range lvsOf(t) {
		for _, l := range outer {
			if v.LV.Loop == l {
				return false, "the bound " + trunc(e.Str(v), 80) + " is carried from one sample to the next"
			}
		}
		if v.LV.Init != nil && len(lvsOf(v.LV.Init)) == 0 {
			for _, a := range v.LV.Init.arms() {
				if a.T.Op == OZero {
					continue
				}
				if k, ok := constInt(a.T); ok && k == 0 {
					continue
				}
				if len(directTerms(a.T, func(x *Term) bool { return x.Op == OLV })) > 0 {
					continue
				}
				return false, "the bound starts as " + trunc(e.Str(a.T), 120)
			}
		}
	}
	return true, ""
}
