package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- saving samples

func init() {
	register("C05", "every write of index data while saving is found, with the calls that make and store the data of samples; its shard, name and content are those of one entry of the fragments, for every entry, after the data was stored", c05)
}

// keysOf: l has all keys of m.
func (e *Engine) keysOf(l, m *Term) bool {
	if l.Op == OCall && len(l.Args) > 0 {
		n := l.Aux
		if strings.HasPrefix(n, "slices.Collect") || strings.HasPrefix(n, "slices.Sorted") {
			k := l.Args[0]
			return k.Op == OCall && strings.HasPrefix(k.Aux, "maps.Keys") && k.Args[0] == m
		}
	}
	if l.Op != OLV || l.LV == nil || l.LV.Loop == nil || l.LV.Loop.Over != m || e.allOf([]*Loop{l.LV.Loop}) != "" || !e.emptyList(l.LV.Init) {
		return false
	}
	u := l.LV.Update
	if u.Op != OSeq || len(u.Args) != 2 || u.Args[0] != l || u.Args[1].Op != OItem {
		return false
	}
	k := u.Args[1].Args[0]
	return k.Op == OKey && k.Args[0] == m
}

// entryOf tells that k and v are key and value of the entry of m that lp visits.
func (e *Engine) entryOf(lp *Loop, m, k, v *Term) bool {
	if k == nil || lp == nil {
		return false
	}
	same := k.Op == OKey && k.Args[0] == m && lp.Over == m
	if !same && k.Op == OElem && k.Args[0] == lp.Over && e.keysOf(lp.Over, m) {
		same = true
	}
	if !same {
		return false
	}
	if v == e.lookup(m, k) {
		return true
	}
	for _, a := range v.arms() {
		x := a.T
		switch {
		case x.Op == OElem && x.Args[0] == m && lp.Over == m:
		case x.Op == OIndex && x.Args[0] == m && x.Args[1] == k:
		case x.Op == ONil || x.Op == OZero:
			// not found, which can't be
			if x := e.bdd.And(a.C, e.Cond(e.mk(OHas, "", m, k))); x != bF {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// returnsFragments: what the function makes is to be written to the index.
func returnsFragments(mod string, f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() == 2 && types.TypeString(r.At(0).Type(), nil) == mod+"/internal/batch.Fragments" && returnsErr(f)
}

func c05(c *Check) {
	const rule = "the data of samples is stored before they are indexed"
	fn := c.fn("internal/store.(*Storage).SaveSamples")
	e := c.engine()
	// making fragments and storing data are other properties
	frame := c.fn("internal/dataframe.(*DataFrame).Append")
	e.Opaque = func(f *ssa.Function) bool {
		return f == frame || f.Pkg != nil && fnPkg(f) != fnPkg(fn) && c.P.isRepo(fnPkg(f)) && returnsFragments(c.P.Mod, f)
	}
	r := c.run(e, fn, "s", "ctx", "list")
	list := e.mkT(fn.Params[len(fn.Params)-1].Type(), OParam, "list")
	items := e.field(list, "Items")
	some := e.bdd.Not(e.Cond(e.isEmpty(items)))
	whole := func(f *Effect) string {
		for _, a := range f.Args {
			for _, x := range a.arms() {
				if e.wholeList(x.T, items) && len(f.Loops) == 0 {
					return ""
				}
				if t := x.T; len(f.Loops) == 1 && t.Op == OSeq && len(t.Args) == 2 && t.Args[1].Op == OItem && t.Args[1].Args[0].Op == OElem && t.Args[1].Args[0].Args[0] == items && f.Loops[0].Over == items {
					return e.allOf(f.Loops)
				}
			}
		}
		return "it gets something else than the samples of the list"
	}
	var prep, data *Effect
	for _, f := range e.effects {
		if f.Kind != "call" {
			continue
		}
		switch {
		case f.Callee == fnName(frame):
			c.ob("data/once", "the data of every sample is stored once", data == nil, f.Pos, "SaveSamples stores data more than once")
			data = f
		case prep == nil || f.Callee != prep.Callee:
			if g := callee(f); g != nil && returnsFragments(c.P.Mod, g) && e.Opaque(g) {
				prep = f
			}
		default:
			c.ob("index/once", "every sample is indexed once", false, f.Pos, "SaveSamples makes fragments more than once")
		}
	}
	if !c.ob("data", "the data of every sample is stored", data != nil, fn.Pos(), "SaveSamples does not store data") || !c.ob("index", "every sample is indexed", prep != nil, fn.Pos(), "SaveSamples does not make fragments of the index") {
		return
	}
	for _, x := range []struct {
		n string
		f *Effect
	}{{"data", data}, {"index", prep}} {
		w := whole(x.f)
		c.ob(x.n+"/all", "nothing of the batch is left out", w == "", x.f.Pos, "%s: %s", shortName(x.f.Callee), w)
		d := e.missing(e.bdd.And(some, r.Cond), x.f.Cond)
		c.ob(x.n+"/always", "every batch is stored and indexed", d == bF, x.f.Pos, "%s is not called when %s", shortName(x.f.Callee), trunc(e.CondStr(d), 300))
		c.Counts["steps"]++
	}
	if len(prep.Loops) != 0 {
		c.ob("index/all", "nothing of the batch is left out", false, prep.Pos, "fragments are made sample by sample")
		return
	}
	frags := e.extract(prep.Res, 0)
	stored := e.bdd.And(data.Cond, e.nilErr(data.Res))
	n := 0
	for i, w := range e.effects {
		if w.Kind != "call" {
			continue
		}
		if w.Callee == rbfBegin {
			c.txn(e, r, "SaveSamples", i, w)
		}
		m, ok := strings.CutPrefix(w.Callee, rbfTx)
		if !ok || !txWrites[m] || m == "Commit" {
			continue
		}
		n++
		key := "write/" + m
		if !c.ob(key, "index data is written as it was made", m == "AddRoaring" && len(w.Args) == 3, w.Pos, "SaveSamples writes with %s", m) {
			continue
		}
		// after the data
		x := e.bdd.And(w.Cond, e.bdd.Not(stored))
		c.ob(key+"/after", rule, data.Seq < w.Seq && (x == bF || e.absurd(x)), w.Pos, "a fragment is written when %s", trunc(e.CondStr(x), 400))
		// every fragment
		if !c.ob(key+"/loops", "every fragment of every shard and time unit is written", len(w.Loops) == 2, w.Pos, "fragments are written in %d loops", len(w.Loops)) {
			continue
		}
		if why := e.allOf(w.Loops); !c.ob(key+"/all", "every fragment of every shard and time unit is written", why == "", w.Pos, "%s", why) {
			continue
		}
		d := e.missing(e.bdd.And(some, r.Cond), w.Cond)
		c.ob(key+"/always", "every fragment of every shard and time unit is written", d == bF, w.Pos, "a fragment is not written when %s", trunc(e.CondStr(d), 300))
		name, bm := w.Args[1], w.Args[2]
		// the shard it is for
		tx := w.Args[0]
		var begin *Effect
		for _, b := range e.effects {
			if b.Kind == "call" && b.Callee == rbfBegin && e.extract(b.Res, 0) == tx {
				begin = b
			}
		}
		if !c.ob(key+"/tx", "a fragment is written to the shard it is for", begin != nil && len(begin.Loops) >= 1, w.Pos, "a fragment is written in %s", e.Str(tx)) {
			continue
		}
		lp := w.Loops[0]
		views := w.Loops[1].Over
		var shard *Term
		for _, a := range e.alts(begin.Args[0], begin.Cond) {
			k := c.shardOf(e, a.T)
			if shard == nil {
				shard = k
			}
			c.ob(key+"/shard", "a fragment is written to the shard it is for", k != nil && k == shard, w.Pos, "a fragment is written to %s", e.Str(a.T))
		}
		// the views of the shard, and what is written under a name
		vm := views
		for _, m := range mapsOf(e, w.Loops[1]) {
			vm = m
			if shard != nil && e.entryOf(lp, frags, shard, vm) {
				break
			}
		}
		okShard := shard != nil && e.entryOf(lp, frags, shard, vm)
		c.ob(key+"/fragment", "a fragment is written to the shard it is for", okShard, w.Pos, "fragments of %s are written to shard %s", e.Str(vm), e.str0(shard))
		c.ob(key+"/view", "a fragment is written for the time unit it is for", e.entryOf(w.Loops[1], vm, name, bm), w.Pos, "%s is written as %s", e.Str(bm), e.Str(name))
		c.Counts["fragments written"]++
	}
	c.ob("write", "every fragment of every shard and time unit is written", n == 1, fn.Pos(), "SaveSamples writes to the index %d times", n)
	c.errorsOf(e, r, "SaveSamples")
	c.Min["fragments written"] = 1
	c.Min["steps"] = 2
	c.Min["failing operations"] = 4
	c.Min["transactions"] = 1
}

// mapsOf lists the maps a loop may visit the entries of.
func mapsOf(e *Engine, lp *Loop) []*Term {
	if lp.Over.Op == OLV && lp.Over.LV != nil && lp.Over.LV.Loop != nil && lp.Over.LV.Loop.Over != nil {
		return []*Term{lp.Over, lp.Over.LV.Loop.Over}
	}
	if lp.Over.Op == OCall && len(lp.Over.Args) > 0 && lp.Over.Args[0].Op == OCall && len(lp.Over.Args[0].Args) > 0 {
		return []*Term{lp.Over, lp.Over.Args[0].Args[0]}
	}
	return []*Term{lp.Over}
}

// shardOf is the number of the shard that a database is for.
func (c *Check) shardOf(e *Engine, db *Term) *Term {
	if db.Op == OIndex && isDBMap(db.Args[0].Typ) {
		return db.Args[1]
	}
	var k *Term
	for _, p := range c.dbPaths(e, db) {
		_, name, ok := e.joinOf(p)
		if !ok {
			return nil
		}
		for _, t := range findTerms(name, func(t *Term) bool { return t.Op == ONum }) {
			if e.isDecimal(name, t.Args[0]) {
				k = t.Args[0]
			}
		}
		if k == nil {
			return nil
		}
	}
	return k
}

// callee is the function a call effect calls.
func callee(f *Effect) *ssa.Function {
	if ci, ok := f.Instr.(ssa.CallInstruction); ok {
		return ci.Common().StaticCallee()
	}
	return nil
}

func (e *Engine) str0(t *Term) string {
	if t == nil {
		return "none"
	}
	return e.Str(t)
}
