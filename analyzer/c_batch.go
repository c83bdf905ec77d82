package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- bits of the index

func init() {
	register("C04", "every bit set in a fragment while samples are processed is found; its row is the id of the sample, its column the label, its shard that of the label and its view a unit of the time of the sample, for every sample, label and unit", c04)
}

// lists are slices to which one loop appends one item per iteration.
type lists struct {
	e    *Engine
	used map[*Term]bool
}

// appended is the item that each iteration adds to the list l.
func (ls *lists) appended(l *Term) *Term {
	if l.Op != OLV || l.LV == nil || l.LV.Loop == nil {
		return nil
	}
	u := l.LV.Update
	if u.Op == OSeq && len(u.Args) == 2 && u.Args[0] == l && u.Args[1].Op == OItem {
		return u.Args[1].Args[0]
	}
	return nil
}

// entry reads t in terms of the items that were appended to lists: elements of
// lists made together, at the same position, are of the same iteration.
func (ls *lists) entry(t *Term) *Term {
	e := ls.e
	switch t.Op {
	case OElem, OIndex:
		l := t.Args[0]
		if x := ls.appended(l); x != nil {
			if t.Op == OIndex {
				i := t.Args[1]
				if i.Op != OIdx && i.Op != OKey || i.Args[0].LV == nil || i.Args[0].LV.Loop != l.LV.Loop || ls.appended(i.Args[0]) == nil {
					return t
				}
				ls.used[i.Args[0]] = true
			}
			ls.used[l] = true
			return x
		}
	case OField:
		if x := ls.entry(t.Args[0]); x != t.Args[0] {
			return e.field(x, t.Aux)
		}
	case OAddr:
		if x := ls.entry(t.Args[0]); x != t.Args[0] {
			return e.addr(x, t.Aux)
		}
	case OContent:
		if x := ls.entry(t.Args[0]); x != t.Args[0] {
			return e.mk(OContent, t.Aux, x)
		}
	case OIface:
		return ls.entry(t.Args[0])
	}
	return t
}

// settled drops from f what can't be, as the entries of lists are objects and texts
// that were made before.
func (ls *lists) settled(f B, digits map[string]int) B {
	e := ls.e
	r := bT
	for _, a := range e.support(f) {
		if a.Op != OEq {
			continue
		}
		for i := range a.Args {
			x, y := a.Args[i], a.Args[1-i]
			if x.Op == ONil && nonNil(ls.entry(y)) && ls.entry(y) != y {
				r = e.bdd.And(r, e.bdd.Not(e.Cond(a)))
			}
			if obj, k := ls.byteOf(y); x.Aux == "0" && x.Op == OConst && obj != "" && k < digits[obj] {
				r = e.bdd.And(r, e.bdd.Not(e.Cond(a)))
			}
		}
	}
	return e.bdd.And(f, r)
}

// array names an array that is part of an object.
func (ls *lists) array(t *Term) string {
	for t.Op == OContent || t.Op == OArrSlice && t.Aux == "" {
		t = t.Args[0]
	}
	if t.Op != OAddr && t.Op != OField {
		return fmt.Sprint(ls.entry(t).ID)
	}
	return fmt.Sprint(ls.entry(t.Args[0]).ID) + "." + strings.TrimPrefix(t.Aux, ".")
}

// byteOf: t is a byte of an array in an object.
func (ls *lists) byteOf(t *Term) (string, int) {
	if t.Op == OIndex {
		if k, ok := constInt(t.Args[1]); ok {
			return ls.array(t.Args[0]), int(k)
		}
	}
	return "", 0
}

func c04(c *Check) {
	const rule = "for every label of a sample, the bit of the sample is set in the row and the view of the shard of the label"
	fn := c.fn("internal/transform.(*Context).ProcessSamples")
	e := c.engine()
	r := c.run(e, fn, "c", "ls")
	samples := r.Args[1]
	sample := e.mk(OElem, "", samples)
	ls := &lists{e: e, used: map[*Term]bool{}}
	width := c.constVal("github.com/gernest/roaring/shardwidth", "ShardWidth")
	var minTs *Term
	var adds []*Effect
	for _, f := range e.effects {
		if f.Kind == "store" && e.path(f.Args[0]) == "ls[*].MinTs" {
			minTs = f.Args[1]
		}
		if f.Kind == "call" && strings.HasPrefix(f.Callee, "(*github.com/gernest/roaring.Bitmap).") {
			c.Counts["bitmap operations"]++
			switch f.Callee[strings.LastIndex(f.Callee, ".")+1:] {
			case "DirectAdd", "Add":
				adds = append(adds, f)
			default:
				c.ob("operation", rule, false, f.Pos, "%s on a bitmap of the index", f.Callee)
			}
		}
	}
	if !c.ob("bits", rule, len(adds) > 0, fn.Pos(), "no bits are set for samples") || !c.ob("time", rule, minTs != nil, fn.Pos(), "the time of samples is not known") {
		return
	}
	// texts of time, kept in arrays
	text := map[string]*Effect{}
	digits := map[string]int{}
	for _, f := range e.effects {
		if f.Kind != "copy" || len(f.Args) < 2 || f.Args[0].Op != OArrSlice || f.Args[0].Aux != "" {
			continue
		}
		at, layout := e.unitOf(e.mk(OSeq, "", e.mk(ONil, ""), e.mk(OSpread, "", f.Args[1])), "")
		if at == nil {
			continue
		}
		text[ls.array(f.Args[0])] = f
		digits[ls.array(f.Args[0])] = len(layout)
	}
	seen := map[string]bool{}
	var frags *Term
	for _, f := range adds {
		c.Counts["bits set"]++
		pos := f.Args[1]
		if pos.Op == OSeq && len(pos.Args) == 2 && pos.Args[1].Op == OItem {
			pos = pos.Args[1].Args[0]
		}
		id, col := rowColumn(e, pos, width)
		if !c.ob("position", "the position of a bit is that of the row of the sample and the column of the label in its shard", id != nil, f.Pos, "the position is %s", trunc(e.Str(pos), 300)) {
			continue
		}
		got := ls.entry(id)
		c.ob("row", "the row of a bit is the id of the sample", got == e.field(sample, "Id"), f.Pos, "the row is %s", e.Str(got))
		// loops over samples, labels and units
		var labels *Term
		var units, outer *Loop
		for _, lp := range f.Loops {
			switch {
			case lp.Over == samples || ls.appended(lp.Over) != nil && ls.appended(lp.Over).Op != OSpread && labels == nil && units == nil && outer == nil:
				outer = lp
			case col.Op == OElem && lp.Over == col.Args[0]:
				labels = lp.Over
			default:
				units = lp
			}
		}
		if !c.ob("samples", "bits are set for every sample", outer != nil, f.Pos, "bits are not set in a loop over samples") {
			continue
		}
		if !c.ob("labels", "bits are set for every label", labels != nil, f.Pos, "the column is %s", trunc(e.Str(col), 300)) {
			continue
		}
		if outer.Over != samples {
			ls.used[outer.Over] = true
		}
		// the set of labels of this sample
		set := ls.entry(labels)
		c.labelSet(e, ls, f, set, samples)
		// shard and view of the bitmap
		ok := e.bdd.And(f.Cond, e.noErr(f.Cond))
		ok = ls.settled(ok, digits)
		ms, view, why := e.heldIn(f.Args[0], ok, f)
		if !c.ob("kept", "bits are set in bitmaps of the fragments", why == "", f.Pos, "%s", why) {
			continue
		}
		for _, m := range ms {
			top, shard, why := e.heldIn(m.T, m.C, f)
			if !c.ob("kept/shard", "bits are set in bitmaps of the fragments", why == "", f.Pos, "%s", why) {
				continue
			}
			for _, t := range top {
				c.ob("fragments/one", "bits are set in the fragments that are returned", frags == nil || frags == t.T, f.Pos, "bits are set in %s and in %s", e.str0(frags), e.Str(t.T))
				frags = t.T
			}
			// the shard is that of the label
			want := e.is2(shard, func(t *Term) bool { return isDiv(t, col, width) })
			for _, a := range shard.arms() {
				if isDiv(a.T, col, width) {
					continue
				}
				for _, at := range e.support(a.C) {
					if at.Op == OEq && (at.Args[0] == a.T && isDiv(at.Args[1], col, width) || at.Args[1] == a.T && isDiv(at.Args[0], col, width)) {
						want = e.bdd.Or(want, e.bdd.And(a.C, e.Cond(at)))
					}
				}
			}
			d := e.bdd.And(m.C, e.bdd.Not(want))
			c.ob("shard", "a bit is in the shard of its label", d == bF || e.absurd(d), f.Pos, "the shard is %s", trunc(e.Str(shard), 300))
		}
		// views
		type named struct{ t *Term }
		var names []named
		if units != nil && elemOfLoop(view, units) {
			for _, a := range units.Over.arms() {
				x := ls.settled(e.bdd.And(a.C, ok), digits)
				if x == bF || e.absurd(x) {
					continue
				}
				items := e.listItems(a.T)
				c.ob("views/list", "bits are set in the views of the units of the time", items != nil, f.Pos, "the views are %s", trunc(e.Str(a.T), 300))
				for _, t := range items {
					names = append(names, named{t})
				}
			}
		} else {
			names = append(names, named{view})
		}
		prefix := unitPrefix(c)
		for _, n := range names {
			c.Counts["units"]++
			at, layout := ls.unit(n.t, prefix, text, f)
			if !c.ob("view", "a bit is in the view of a unit of the time of the sample", at != nil, f.Pos, "the view is %s", trunc(e.Str(n.t), 300)) {
				continue
			}
			c.ob("view/time/"+layout, "the unit is that of the time of the sample", e.utcNanoOf(at, minTs), f.Pos, "the time is %s, the sample is of %s", trunc(e.Str(at), 300), trunc(e.Str(minTs), 300))
			seen[layout] = true
		}
		// always
		entry := f.Loops[0].Entry
		for _, lp := range f.Loops {
			why := ls.left(lp, digits)
			c.ob("all", "bits are set for every sample, label and unit", why == "", f.Pos, "%s", why)
		}
		d := ls.settled(e.bdd.And(entry, e.bdd.Not(f.Cond)), digits)
		d = e.missing(d, bF)
		c.ob("always", "bits are set for every sample, label and unit", d == bF, f.Pos, "no bit is set when %s", trunc(e.CondStr(d), 300))
	}
	for _, l := range layouts {
		c.ob("unit/"+l, "bits are set in the views of the year, month, day and hour", seen[l], fn.Pos(), "no bit is set in the view named by %s", l)
	}
	for l := range seen {
		c.ob("known/"+l, "bits are set in the views of the year, month, day and hour", contains(layouts, l), fn.Pos(), "bits are set in the view named by %s", l)
	}
	// lists are made of all samples, and start empty
	for l := range ls.used {
		c.Counts["lists"]++
		lp := l.LV.Loop
		why := e.allOf([]*Loop{lp})
		c.ob("list/all", "nothing of the batch is left out", lp.Over == samples && why == "", lp.Pos, "entries are made in a loop over %s %s", e.loopStr(lp), why)
		if e.emptyList(l.LV.Init) {
			continue
		}
		// what the list was before, it is again afterwards
		old := l.LV.Init
		clean := old.Op == OField && r.St != nil
		if clean {
			end := e.load(r.St, e.addr(old.Args[0], "."+strings.TrimPrefix(old.Aux, ".")), nil)
			x := ls.settled(r.Cond, digits)
			x = e.bdd.And(x, e.complete(x))
			for _, a := range end.arms() {
				if y := ls.settled(e.bdd.And(a.C, x), digits); e.missing(y, bF) != bF && !e.emptyList(a.T) {
					clean = false
					old = a.T
				}
			}
		}
		c.ob("list/empty", "samples are not indexed again with the next batch", clean, lp.Pos, "the list is %s afterwards", trunc(e.Str(old), 300))
	}
	// the fragments with the bits are returned, and not kept
	if frags == nil {
		return
	}
	got := e.extract(r.Val, 0)
	for _, a := range got.arms() {
		x := ls.settled(e.bdd.And(a.C, r.Cond), digits)
		if e.missing(x, bF) == bF {
			continue
		}
		c.ob("returned", "the fragments with the bits of the samples are returned", a.T == frags, fn.Pos(), "%s is returned", e.Str(a.T))
	}
	errT := e.extract(r.Val, 1)
	x := ls.settled(e.bdd.And(r.Cond, e.bdd.Not(e.nilErr(errT))), digits)
	c.ob("returned/error", "the fragments with the bits of the samples are returned", e.missing(x, bF) == bF, fn.Pos(), "an error is returned when %s", trunc(e.CondStr(x), 300))
	if frags.Op == OField {
		end := e.load(r.St, e.addr(frags.Args[0], "."+strings.TrimPrefix(frags.Aux, ".")), nil)
		for _, a := range end.arms() {
			y := ls.settled(e.bdd.And(a.C, r.Cond), digits)
			if e.missing(y, bF) == bF {
				continue
			}
			c.ob("fragments/fresh", "bits of a batch are not written again with the next one", a.T != frags && (a.T.Op == OAlloc || a.T.Op == ONil), fn.Pos(), "the fragments are %s afterwards", e.Str(a.T))
		}
	}
	c.Min["bitmap operations"] = 1
	c.Min["units"] = 4
	c.Min["label sets"] = 1
	c.Min["labels added"] = 3
}

// elemOfLoop: t is what a loop visits.
func elemOfLoop(t *Term, lp *Loop) bool {
	for _, a := range t.arms() {
		x := a.T
		switch {
		case x.Op == OElem && x.Args[0] == lp.Over:
		case (x.Op == OElem || x.Op == OIndex && x.Args[1].Op == OIdx && x.Args[1].Args[0] == lp.Over) && isArm(lp.Over, x.Args[0]):
		default:
			return false
		}
	}
	return true
}

func isArm(t, x *Term) bool {
	for _, a := range t.arms() {
		if a.T == x {
			return true
		}
	}
	return false
}

// left tells when a loop ends early although nothing failed.
func (ls *lists) left(lp *Loop, digits map[string]int) string {
	e := ls.e
	switch lp.Kind {
	case "range", "reverse", "iter", "callback":
	default:
		return "a loop does not visit everything of a collection"
	}
	for _, x := range lp.Exits {
		d := ls.settled(x.Cond, digits)
		if d != bF {
			d = e.missing(d, bF)
		}
		if d != bF {
			return "the loop ends early when " + trunc(e.CondStr(d), 300)
		}
	}
	return ""
}

// rowColumn reads a position: row*width + column%width.
func rowColumn(e *Engine, t *Term, width string) (row, col *Term) {
	if t.Op != OBin || t.Aux != "+" && t.Aux != "|" {
		return nil, nil
	}
	for i := range t.Args {
		x, y := t.Args[i], t.Args[1-i]
		var r, k *Term
		if x.Op == OBin && x.Aux == "*" {
			for j := range x.Args {
				if x.Args[j].Aux == width && x.Args[j].Op == OConst {
					r = x.Args[1-j]
				}
			}
		}
		k = modOf(y, width)
		if r != nil && k != nil {
			return r, k
		}
	}
	return nil, nil
}

// modOf is x when y is x modulo the width.
func modOf(y *Term, width string) *Term {
	if y.Op == OBin && y.Aux == "%" && y.Args[1].Aux == width && y.Args[1].Op == OConst {
		return y.Args[0]
	}
	if y.Op == OBin && y.Aux == "&" {
		for j := range y.Args {
			if y.Args[j].Op == OConst && isMask(y.Args[j].Aux, width) {
				return y.Args[1-j]
			}
		}
	}
	return nil
}

func isMask(s, width string) bool {
	var m, w uint64
	fmt.Sscan(s, &m)
	fmt.Sscan(width, &w)
	return w != 0 && w&(w-1) == 0 && m == w-1
}

// isDiv: t is x divided by the width.
func isDiv(t, x *Term, width string) bool {
	if t.Op != OBin || t.Args[0] != x || t.Args[1].Op != OConst {
		return false
	}
	if t.Aux == "/" {
		return t.Args[1].Aux == width
	}
	var k uint
	var w uint64
	fmt.Sscan(t.Args[1].Aux, &k)
	fmt.Sscan(width, &w)
	return t.Aux == ">>" && w == 1<<k
}

func (e *Engine) is2(t *Term, p func(*Term) bool) B {
	r := bF
	for _, a := range t.arms() {
		if p(a.T) {
			r = e.bdd.Or(r, a.C)
		}
	}
	return r
}

// none: t, which was looked up, is nil.
func (e *Engine) none(t *Term) B {
	return e.bdd.Or(e.nilErr(t), e.Cond(e.dist1(t, func(t *Term) *Term { return e.isEmpty(t) })))
}

// heldIn: every value of v, when c holds, was found in a map under one key, or is
// put there by the time of f.
func (e *Engine) heldIn(v *Term, c B, f *Effect) (maps []Arm, key *Term, why string) {
	add := func(m, k *Term, c B) {
		for _, a := range m.arms() {
			x := e.bdd.And(a.C, c)
			if x == bF || e.absurd(x) {
				continue
			}
			maps = append(maps, Arm{x, a.T})
		}
		if key != nil && key != k {
			why = "it is kept under " + e.Str(key) + " and " + e.Str(k)
		}
		key = k
	}
	for _, a := range v.arms() {
		x := e.bdd.And(a.C, c)
		if x == bF || e.absurd(x) {
			continue
		}
		switch t := a.T; {
		case t.Op == OIndex:
			d := e.bdd.And(x, e.bdd.Not(e.Cond(e.mk(OHas, "", t.Args[0], t.Args[1]))))
			// there is none that is nil
			d = e.bdd.And(e.bdd.And(d, e.nilErr(t)), e.Cond(e.isEmpty(t)))
			if d != bF && !e.absurd(d) {
				return nil, nil, "it is used although there may be none under " + trunc(e.Str(t.Args[1]), 200)
			}
			add(t.Args[0], t.Args[1], x)
		default:
			cov := bF
			for _, s := range e.effects {
				if s.Kind != "mapset" || s.Seq > f.Seq || !sameLoops(s.Loops, f.Loops) {
					continue
				}
				if y := e.bdd.And(e.bdd.And(x, s.Cond), e.is(s.Args[2], t)); y != bF && !e.absurd(y) {
					cov = e.bdd.Or(cov, y)
					// nothing is replaced
					old := e.lookup(s.Args[0], s.Args[1])
					y = e.bdd.And(y, e.has(s.Args[0], s.Args[1]))
					y = e.bdd.And(y, e.bdd.Not(e.none(old)))
					if y != bF && !e.absurd(y) {
						return nil, nil, "what is kept under " + trunc(e.Str(s.Args[1]), 200) + " is replaced when " + trunc(e.CondStr(y), 300)
					}
					add(s.Args[0], s.Args[1], y)
				}
			}
			d := e.bdd.And(x, e.bdd.Not(cov))
			if d != bF && !e.absurd(d) {
				return nil, nil, trunc(e.Str(t), 200) + " is not kept when " + trunc(e.CondStr(d), 300)
			}
		}
	}
	if key == nil && why == "" {
		why = "it is not kept in a map"
	}
	return
}

// unit reads the name of a view whose digits may be kept in an array of an entry.
func (ls *lists) unit(t *Term, prefix string, text map[string]*Effect, f *Effect) (at *Term, layout string) {
	e := ls.e
	if at, layout = e.unitOf(t, prefix); at != nil {
		return ls.entry(at), layout
	}
	p, name := e.keyOf(t)
	if p != prefix || name == nil || name.Op != OArrSlice {
		return nil, ""
	}
	arr := ls.array(name.Args[0])
	w := text[arr]
	if w == nil {
		return nil, ""
	}
	// that is all that is written there, for every sample
	for _, g := range e.effects {
		if g == w || len(g.Args) == 0 || g.Seq > f.Seq {
			continue
		}
		switch g.Kind {
		case "copy", "clear", "store":
			b := g.Args[0]
			for b.Op == OArrSlice {
				b = b.Args[0]
			}
			if k := ls.array(b); k == arr || strings.HasPrefix(k, arr+"[") {
				return nil, ""
			}
		}
	}
	if len(w.Loops) == 0 || e.lacking(w.Loops[len(w.Loops)-1].Entry, w.Cond) != bF {
		return nil, ""
	}
	at, layout = e.unitOf(e.mk(OSeq, "", e.mk(ONil, ""), e.mk(OSpread, "", w.Args[1])), "")
	if at == nil {
		return nil, ""
	}
	lo, hi, _ := strings.Cut(name.Aux, ":")
	if lo != "" && lo != "0" {
		return nil, ""
	}
	if hi != "" {
		k := -1
		fmt.Sscan(hi, &k)
		if k < 0 || k > len(layout) || layout != "2006010215" {
			return nil, ""
		}
		layout = layout[:k]
	}
	return at, layout
}

func (e *Engine) utcNanoOf(t, ns *Term) bool { return e.utcNano(t, ns) }

// labelSet: the set whose members are indexed is that of the labels of one sample.
func (c *Check) labelSet(e *Engine, ls *lists, f *Effect, set *Term, samples *Term) {
	c.Counts["label sets"]++
	root := set
	for root.Op == OAddr || root.Op == OField || root.Op == OContent || root.Op == OSet {
		root = root.Args[0]
	}
	if !c.ob("labels/own", "a sample has a set of labels of its own", root.Op == OAlloc && e.born[root] != nil, f.Pos, "the labels are those of %s", trunc(e.Str(set), 300)) {
		return
	}
	in := false
	for _, lp := range e.born[root] {
		in = in || lp.Over == samples
	}
	c.ob("labels/own", "a sample has a set of labels of its own", in, f.Pos, "%s is shared by samples", e.Str(root))
	of := func(t *Term) bool {
		return anyTerm(t, func(x *Term) bool { return x == root })
	}
	for _, g := range e.effects {
		switch {
		case strings.HasPrefix(g.Kind, "set") && strings.Contains(g.Callee, "roaring64.Bitmap)"):
			switch m := g.Callee[strings.LastIndex(g.Callee, ".")+1:]; {
			case m == "Add" || m == "AddMany" || m == "CheckedAdd":
				c.Counts["labels added"]++
				c.ob("labels/added", "all labels of a sample are in its set", of(g.Args[0]) && g.Seq < f.Seq, g.Pos, "a label is added to %s", e.Str(g.Args[0]))
			case of(g.Args[0]) && g.Seq < f.Seq:
				c.ob("labels/stay", "all labels of a sample stay in its set", false, g.Pos, "%s on the labels before they are indexed", m)
			}
		case g.Kind == "call" && g.Seq < f.Seq && strings.HasSuffix(g.Callee, "Pool).Put") && of(g.Args[1]):
			c.ob("labels/stay", "all labels of a sample stay in its set", false, g.Pos, "the set is returned to the pool before it is used")
		}
	}
}

var _ *ssa.Function
