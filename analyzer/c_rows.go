package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- matching labels

func init() {
	register("C09", "labels of a query are divided by the shard they belong to; in every shard and view rows must have all of the labels of that shard; the rows of shards are intersected, and nothing but an empty intersection ends the search early", c09)
}

// entriesOf reads a loop over the entries of a map, or over its keys.
func (e *Engine) entriesOf(lp *Loop) (m, k *Term, v func(*Term) bool) {
	for _, m := range mapsOf(e, lp) {
		if lp.Over != m && e.keysOf(lp.Over, m) {
			key := e.mk(OElem, "", lp.Over)
			return m, key, func(t *Term) bool { return e.entryOf(lp, m, key, t) }
		}
	}
	m = lp.Over
	key := e.mk(OKey, "", m)
	return m, key, func(t *Term) bool { return e.entryOf(lp, m, key, t) }
}

// baseObj is the object p points to, or into.
func baseObj(p *Term) *Term {
	for p.Op == OAddr || p.Op == OIface {
		p = p.Args[0]
	}
	return p
}

func c09(c *Check) {
	const rule = "a row is found when it has all labels of the query"
	e := c.engine()
	c.searchOpaque(e)
	fn := c.fn("internal/shards.(*Shards).Rows")
	r := c.run(e, fn, "s", "start", "end", "columns")
	width := c.constVal("github.com/gernest/roaring/shardwidth", "ShardWidth")
	res := map[*Term]*Effect{}
	var scans, ands, adds, sets []*Effect
	var search *Effect
	for _, f := range e.effects {
		if f.Res != nil && f.Kind == "call" {
			res[f.Res] = f
			if f.Res.Op == OTuple {
				res[f.Res.Args[0]] = f
			}
		}
		switch {
		case f.Kind == "call" && strings.HasPrefix(f.Callee, rbfTx) && !finishes(f.Callee):
			c.Counts["reads of the index"]++
			if c.ob("read", rule, strings.HasSuffix(f.Callee, ".ApplyFilter"), f.Pos, "the index is read with %s", f.Callee) {
				scans = append(scans, f)
			}
		case isCall(f, c.P.Mod+"/internal/view.Search"):
			search = f
		case strings.HasPrefix(f.Kind, "set"):
			sets = append(sets, f)
		}
	}
	if !c.ob("scans", rule, len(scans) == 1, fn.Pos(), "the index is read at %d places", len(scans)) || !c.ob("views", "all views of the range are searched", search != nil, fn.Pos(), "the views of the range are not determined") {
		return
	}
	c.ob("views/range", "views are those of the range of the query", search.Args[0] == r.Args[1] && search.Args[1] == r.Args[2], search.Pos, "views of %s to %s are searched", e.Str(search.Args[0]), e.Str(search.Args[1]))
	f := scans[0]
	if !c.ob("loops", "all views of all shards are searched", len(f.Loops) == 2, f.Pos, "the index is read in %d loops", len(f.Loops)) {
		return
	}
	shards, views := f.Loops[0], f.Loops[1]
	c.ob("views/all", "all views of the range are searched", views.Over == search.Res && elemOfLoop(f.Args[1], views), f.Pos, "the views searched are %s of %s", trunc(e.Str(f.Args[1]), 200), e.loopStr(views))
	why := e.allOf([]*Loop{views})
	c.ob("views/end", "all views of the range are searched", why == "", views.Pos, "%s", why)
	k0, ok := constInt(f.Args[2])
	c.ob("start", "rows are searched from the first", ok && k0 == 0, f.Pos, "the search starts at %s", e.Str(f.Args[2]))
	always := func(name string, g *Effect) {
		d := e.missing(f.Loops[0].Entry, g.Cond)
		c.ob("always/"+name, rule, d == bF, g.Pos, "%s is skipped when %s", name, trunc(e.CondStr(d), 300))
	}
	always("search", f)
	// labels by shard
	m, key, isList := e.entriesOf(shards)
	if !c.ob("partition", "labels are divided by shard", m != nil, shards.Pos, "shards are visited in a loop over %s", e.loopStr(shards)) {
		return
	}
	n := 0
	for _, g := range e.effects {
		if g.Kind != "mapset" || g.Args[0] != m {
			continue
		}
		n++
		c.Counts["divisions of labels"]++
		v := g.Args[2]
		var col *Term
		if v.Op == OSeq && len(v.Args) == 2 && v.Args[1].Op == OItem {
			col = v.Args[1].Args[0]
			base := v.Args[0]
			c.ob("partition/kept", "no label of a shard is dropped", e.sameEntry(base, m, g.Args[1]), g.Pos, "labels are added to %s", e.Str(base))
		}
		if !c.ob("partition/label", "every label is one that is searched", col != nil && len(g.Loops) == 1 && elemOfLoop(col, g.Loops[0]), g.Pos, "%s is noted for a shard", e.Str(v)) {
			continue
		}
		over := e.path(g.Loops[0].Over)
		c.ob("partition/of", "the labels of the query are searched", strings.HasPrefix(over, "columns.Bitmap"), g.Pos, "labels are those of %s", over)
		c.ob("partition/shard", "a label is searched in its shard", isDiv(g.Args[1], col, width), g.Pos, "the shard of a label is %s", e.Str(g.Args[1]))
		why := e.allOf(g.Loops)
		d := e.missing(g.Loops[0].Entry, g.Cond)
		c.ob("partition/all", "every label is searched", why == "" && d == bF, g.Pos, "a label is left out: %s %s", why, trunc(e.CondStr(d), 300))
	}
	c.ob("partition/one", "labels are divided by shard", n == 1 && isFresh(m), fn.Pos(), "labels are divided at %d places", n)
	// transaction of the shard
	tx := f.Args[0]
	var db *Term
	if g := res[tx]; g != nil && isCall(g, rbfBegin) {
		db = g.Args[0]
		always("transaction", g)
	}
	if c.ob("shard/tx", "the shard of the labels is searched", db != nil, f.Pos, "the transaction is %s", trunc(e.Str(tx), 200)) {
		g := res[db]
		ok := g != nil && callee(g) != nil && e.Opaque(callee(g))
		has := false
		if ok {
			for _, a := range g.Args {
				has = has || a == key
			}
		}
		c.ob("shard", "the shard of the labels is searched", ok && has, f.Pos, "the shard searched is %s", trunc(e.Str(db), 200))
	}
	// filters
	flt := res[f.Args[3]]
	if f.Args[3].Op == OIface {
		flt = res[f.Args[3].Args[0]]
	}
	if !c.ob("filter", rule, flt != nil && strings.HasSuffix(flt.Callee, ".NewBitmapRowFilter"), f.Pos, "rows are chosen by %s", trunc(e.Str(f.Args[3]), 200)) {
		return
	}
	fs := flt.Args[1]
	u := (*Term)(nil)
	if fs.Op == OLV && fs.LV != nil && fs.LV.Loop != nil && fs.LV.Update != nil && e.emptyList(fs.LV.Init) {
		if x := fs.LV.Update; x.Op == OSeq && len(x.Args) == 2 && x.Args[0] == fs && x.Args[1].Op == OItem {
			u = x.Args[1].Args[0]
		}
	}
	if u != nil && u.Op == OIface {
		u = u.Args[0]
	}
	if c.ob("filters", rule, u != nil, flt.Pos, "the conditions on rows are %s", trunc(e.Str(fs), 300)) {
		lp := fs.LV.Loop
		g := res[u]
		if c.ob("filters/label", rule, g != nil && strings.HasSuffix(g.Callee, ".NewBitmapColumnFilter") && len(g.Args) == 1, flt.Pos, "a condition on rows is %s", trunc(e.Str(u), 200)) {
			x := g.Args[0]
			if y := modOf(x, width); y != nil {
				x = y
			}
			ok := elemOfLoop(x, lp)
			c.ob("filters/column", "the label is looked up in its column", ok, g.Pos, "the column is %s", e.Str(x))
			c.ob("filters/own", "labels are looked up in their shard", isList(lp.Over), g.Pos, "the labels are %s", e.Str(lp.Over))
			why := e.allOf([]*Loop{lp})
			d := e.missing(shards.Entry, g.Cond)
			c.ob("filters/all", rule, why == "" && d == bF, g.Pos, "a label is not required %s %s", why, trunc(e.CondStr(d), 200))
			c.Counts["conditions on rows"]++
		}
	}
	// rows
	var b *Term
	for _, g := range sets {
		in := false
		for _, lp := range g.Loops {
			in = in || lp.Kind == "callback"
		}
		if g.Kind == "setadd" && in && len(findTerms(g.Args[1], func(t *Term) bool { return t.Op == OCbArg })) > 0 {
			adds = append(adds, g)
			b = baseObj(g.Args[0])
		}
		if g.Kind == "setand" {
			ands = append(ands, g)
		}
	}
	if !c.ob("rows", "every row found is part of the result", len(adds) == 1 && adds[0].Args[1].Op == OCbArg, f.Pos, "rows are added to the result at %d places", len(adds)) {
		return
	}
	g := adds[0]
	if c.ob("rows/callback", "every row found is part of the result", len(g.Loops) == 3 && g.Loops[0] == shards && g.Loops[1] == views, g.Pos, "rows are added elsewhere") {
		d := e.missing(g.Loops[2].Entry, g.Cond)
		c.ob("rows/all", "every row found is part of the result", d == bF, g.Pos, "a row is not added when %s", trunc(e.CondStr(d), 300))
	}
	c.ob("rows/fn", "the search of rows goes on until the last", cbReturnsNil(flt.Args[0]), flt.Pos, "the callback can end the search early")
	fresh := b.Op == OAlloc && !has(e.born[b], views) && has(e.born[b], shards)
	c.ob("rows/own", "the rows of every shard are collected separately, and those of all its views together", fresh, g.Pos, "rows of shards are collected in %s", e.Str(b))
	// intersection
	ret := e.extract(r.Val, 0)
	okRet := e.nilErr(e.extract(r.Val, 1))
	var acc *Term
	for _, a := range ret.arms() {
		d := e.missing(e.bdd.And(a.C, okRet), bF)
		if d == bF {
			continue
		}
		if a.T.Op == OLV && a.T.LV != nil && a.T.LV.Loop == shards {
			acc = a.T
		}
	}
	if !c.ob("result", "the result is the intersection of the rows of shards", acc != nil, fn.Pos(), "the result is %s", trunc(e.Str(ret), 300)) {
		return
	}
	first := e.nilErr(acc)
	c.ob("result/start", "the result is the intersection of the rows of shards", acc.LV.Init.Op == ONil || acc.LV.Init.Op == OZero, fn.Pos(), "the result starts as %s", e.Str(acc.LV.Init))
	for _, a := range ret.arms() {
		d := e.missing(e.bdd.And(a.C, okRet), bF)
		if d == bF || a.T == acc {
			continue
		}
		c.ob("result/early", "the result is the intersection of the rows of shards", a.T == b && e.missing(d, first) == bF, fn.Pos(), "%s is returned when %s", trunc(e.Str(a.T), 200), trunc(e.CondStr(d), 300))
	}
	for _, a := range acc.LV.Update.arms() {
		switch {
		case a.T == b:
			d := e.missing(a.C, first)
			okay := d == bF
			c.ob("result/first", "the result is the intersection of the rows of shards", okay, fn.Pos(), "the rows of a shard replace those before when %s", trunc(e.CondStr(d), 300))
		case a.T == acc:
			d := e.missing(e.bdd.And(a.C, first), bF)
			c.ob("result/set", "the result is the intersection of the rows of shards", d == bF, fn.Pos(), "the rows of the first shard are ignored when %s", trunc(e.CondStr(d), 300))
		default:
			c.ob("result/other", "the result is the intersection of the rows of shards", e.missing(a.C, bF) == bF, fn.Pos(), "the result becomes %s", trunc(e.Str(a.T), 200))
		}
	}
	meets := bF
	last := 0
	for _, g := range ands {
		x, y := baseObj(g.Args[0]), baseObj(g.Args[1])
		c.Counts["intersections"]++
		only := e.bdd.And(g.Cond, e.bdd.Not(first))
		x, y = e.armWhen(x, only), e.armWhen(y, only)
		if c.ob("and", "rows of a shard are intersected with those of the shards before", x == acc && y == b, g.Pos, "%s is intersected with %s", e.Str(x), e.Str(y)) && len(g.Loops) == 1 && g.Loops[0] == shards {
			meets = e.bdd.Or(meets, g.Cond)
			last = g.Seq
		}
	}
	// nothing is to be intersected with an empty set
	none := func(d B) B {
		r := meets
		for _, a := range e.support(d) {
			if a.Op == OIsEmpty && contentOf(a.Args[0], acc) {
				r = e.bdd.Or(r, e.Cond(a))
			}
		}
		return e.missing(d, r)
	}
	d := none(e.missing(e.bdd.And(f.Loops[0].Entry, e.bdd.Not(first)), meets))
	c.ob("and/always", "rows of every shard are intersected with those of the shards before", d == bF, fn.Pos(), "the rows of a shard are ignored when %s", trunc(e.CondStr(d), 300))
	// nothing else changes them
	for _, g := range sets {
		if g == adds[0] || g.Kind == "setand" && len(g.Loops) == 1 {
			continue
		}
		for _, a := range baseObj(g.Args[0]).arms() {
			x := e.bdd.And(a.C, g.Cond)
			switch a.T {
			case acc:
				d := e.missing(e.bdd.And(x, okRet), bF)
				if len(g.Loops) > 0 {
					d = e.missing(x, bF)
				}
				c.ob("kept/result", "the result is the intersection of the rows of shards", d == bF, g.Pos, "%s changes the result when %s", g.Callee, trunc(e.CondStr(d), 300))
			case b:
				// not needed any more once it was intersected
				d := e.missing(x, bF)
				if len(g.Loops) > 0 {
					d = e.missing(e.bdd.And(x, first), bF)
					if g.Seq < last {
						d = e.missing(x, bF)
					}
				} else {
					d = e.missing(e.bdd.And(d, okRet), bF)
				}
				c.ob("kept/rows", "the result is the intersection of the rows of shards", d == bF, g.Pos, "%s changes the rows of a shard when %s", g.Callee, trunc(e.CondStr(d), 300))
			}
		}
	}
	// ending early
	for i, x := range shards.Exits {
		c.Counts["exits"]++
		d := e.missing(x.Cond, bF)
		if d == bF {
			continue
		}
		d2 := none(e.missing(e.bdd.And(d, e.bdd.Not(first)), meets))
		c.ob("exit/after", "a search ends early only when nothing can match", d2 == bF, x.Pos, "the search ends before the rows of the shard are considered when %s", trunc(e.CondStr(d2), 300))
		full := bT
		for _, a := range e.support(d) {
			if a.Op != OIsEmpty {
				continue
			}
			ts := []*Term{a.Args[0]}
			if ts[0].Op == OInter {
				ts = ts[0].Args
			}
			ok := true
			for _, t := range ts {
				ok = ok && (contentOf(t, acc) || contentOf(t, b))
			}
			if ok {
				full = e.bdd.And(full, e.bdd.Not(e.Cond(a)))
			}
		}
		d = e.missing(e.bdd.And(d, full), bF)
		c.ob(fmt.Sprintf("exit/%d", i), "a search ends early only when nothing can match", d == bF, x.Pos, "the search ends early when %s", trunc(e.CondStr(d), 300))
	}
	c.Min["reads of the index"] = 1
	c.Min["divisions of labels"] = 1
	c.Min["conditions on rows"] = 1
	c.Min["intersections"] = 1
	c.assume("bits of one label in one view are in the rows of the ids that have it (C04, C05)")
}

// contentOf: t is what the object o held, before this iteration or now.
func contentOf(t, o *Term) bool {
	if t.Op == OLV && t.LV != nil {
		return t.LV.Root == o && strings.HasSuffix(t.LV.Cell, "#content")
	}
	if t.Op != OContent {
		return false
	}
	t = t.Args[0]
	for t.Op == OField || t.Op == OAddr {
		t = t.Args[0]
	}
	return t == o
}

func has(ls []*Loop, l *Loop) bool {
	for _, x := range ls {
		if x == l {
			return true
		}
	}
	return false
}

// armWhen is what t is when c.
func (e *Engine) armWhen(t *Term, c B) *Term {
	var out *Term
	for _, a := range t.arms() {
		if e.missing(e.bdd.And(a.C, c), bF) == bF {
			continue
		}
		if out != nil {
			return t
		}
		out = a.T
	}
	if out == nil {
		return t
	}
	return out
}

// sameEntry: t is what m has for key k.
func (e *Engine) sameEntry(t, m, k *Term) bool {
	for _, a := range t.arms() {
		switch {
		case a.T.Op == OIndex && a.T.Args[0] == m && a.T.Args[1] == k:
		case a.T.Op == ONil || a.T.Op == OZero:
			if e.missing(e.bdd.And(a.C, e.Cond(e.mk(OHas, "", m, k))), bF) != bF {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// cbReturnsNil: function t has no error to return.
func cbReturnsNil(t *Term) bool {
	if t.Op == OIface {
		t = t.Args[0]
	}
	if t.Op != OClosure && t.Op != OFunc || t.Fn == nil {
		return false
	}
	for _, b := range t.Fn.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				if len(r.Results) != 1 {
					return false
				}
				if k, ok := r.Results[0].(*ssa.Const); !ok || !k.IsNil() {
					return false
				}
			}
		}
	}
	return true
}

// searchOpaque leaves opening shards and choosing units to other properties.
func (c *Check) searchOpaque(e *Engine) {
	search := c.fn("internal/view.Search")
	e.Opaque = func(f *ssa.Function) bool {
		if f == search {
			return true
		}
		r := f.Signature.Results()
		return r.Len() == 2 && c.P.isRepo(fnPkg(f)) && isNamedPtr(r.At(0).Type(), "github.com/gernest/rbf.DB") && returnsErr(f)
	}
}
