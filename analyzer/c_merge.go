package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

func init() {
	register("C13", "every input element reaches the result on exactly one way: it is taken over with what contains it, or appended to the same list of the object with the same identity; objects which collect are part of the result, whose order is that of first appearance", c13)
	register("C14", "the keys under which resources, scopes and metrics are combined contain every part of their identity, in a form that can be parsed back", c14)
}

// ---- keys

type keyPiece struct {
	t    *Term
	over *Loop // pieces repeated by a loop
	sub  []keyAlt
}

type keyAlt struct {
	c  B
	ps []keyPiece
}

// keyAlts lists the byte sequences that t can be.
func (e *Engine) keyAlts(t *Term, c B) []keyAlt {
	open := map[*Term]bool{}
	var rec func(t *Term, c B, stop *Term) []keyAlt
	cross := func(as []keyAlt, f func(c B) []keyAlt) (out []keyAlt) {
		for _, a := range as {
			for _, b := range f(a.c) {
				x := e.bdd.And(a.c, b.c)
				if x == bF {
					continue
				}
				out = append(out, keyAlt{x, append(append([]keyPiece(nil), a.ps...), b.ps...)})
			}
		}
		return
	}
	rec = func(t *Term, c B, stop *Term) []keyAlt {
		if t == stop {
			return []keyAlt{{c, nil}}
		}
		switch t.Op {
		case ONil, OZero, OMake, OUndef:
			return []keyAlt{{c, nil}}
		case OConst:
			if t.Aux == `""` {
				return []keyAlt{{c, nil}}
			}
		case OChoice:
			var out []keyAlt
			for _, a := range t.Arms {
				if x := e.bdd.And(a.C, c); x != bF && !e.absurd(x) {
					out = append(out, rec(a.T, x, stop)...)
				}
			}
			return out
		case OSeq:
			out := rec(t.Args[0], c, stop)
			for _, p := range t.Args[1:] {
				q := p
				if p.Op == OItem || p.Op == OSpread {
					q = p.Args[0]
				}
				out = cross(out, func(c B) []keyAlt { return rec(q, c, stop) })
				if e.keySteps += len(out); e.keySteps > 200000 {
					panic(analysisError{"the keys under which things are combined are not understood"})
				}
			}
			return out
		case OU64, OConv:
			if a := e.stripConv(t.Args[0]); a.Op == OChoice {
				var out []keyAlt
				for _, x := range a.Arms {
					if y := e.bdd.And(x.C, c); y != bF && !e.absurd(y) {
						out = append(out, keyAlt{y, []keyPiece{{t: e.mk(t.Op, t.Aux, x.T)}}})
					}
				}
				return out
			}
		case OLV:
			if t.LV != nil && t.LV.Update != nil && t.LV.Loop != nil && !open[t] {
				open[t] = true
				defer delete(open, t)
				p := keyPiece{t: t, over: t.LV.Loop, sub: rec(t.LV.Update, bT, t)}
				return cross(rec(t.LV.Init, c, stop), func(c B) []keyAlt { return []keyAlt{{c, []keyPiece{p}}} })
			}
		}
		return []keyAlt{{c, []keyPiece{{t: t}}}}
	}
	return rec(t, c, nil)
}

func (e *Engine) canonPieces(ps []keyPiece) string {
	var o []string
	for _, p := range ps {
		if p.over != nil {
			o = append(o, "("+e.loopStr(p.over)+": "+e.canonAlts(p.sub)+")*")
		} else {
			o = append(o, e.canonKey(p.t))
		}
	}
	return strings.Join(o, "+")
}

func (e *Engine) canonAlts(as []keyAlt) string {
	seen := map[string]bool{}
	var o []string
	for _, a := range as {
		s := e.canonPieces(a.ps)
		if !seen[s] {
			seen[s] = true
			o = append(o, s)
		}
	}
	sort.Strings(o)
	return strings.Join(o, "|")
}

// canonKey writes a key such that the same computation made in another place of
// the program is written the same.
func (e *Engine) canonKey(t *Term) string {
	switch t.Op {
	case OHash:
		return "hash{" + e.canonAlts(e.keyAlts(t.Args[0], bT)) + "}"
	case OU64, OConv:
		return "u64(" + e.canonKey(e.stripConv(t.Args[0])) + ")"
	case OExtract:
		return e.canonKey(t.Args[0]) + "#" + t.Aux
	case OCall:
		var o []string
		for _, a := range t.Args {
			if a.Op == OSeq || a.Op == OZero {
				continue
			}
			o = append(o, e.canonKey(a))
		}
		return strings.SplitN(shortName(t.Aux), "@", 2)[0] + "(" + strings.Join(o, ",") + ")"
	case OLen:
		return "len(" + e.canonKey(t.Args[0]) + ")"
	case OChoice:
		seen := map[string]bool{}
		var o []string
		for _, a := range t.Arms {
			s := e.canonKey(a.T)
			if !seen[s] {
				seen[s] = true
				o = append(o, s)
			}
		}
		sort.Strings(o)
		if len(o) == 1 {
			return o[0]
		}
		return "{" + strings.Join(o, "|") + "}"
	}
	return e.path(t)
}

// ---- what happens to the elements

type placement struct {
	level  int
	path   string // of the element
	f      *Effect
	result bool
	target *Term // object whose list is extended
	key    *Term
	m      *Term // map the object was found in
	obj    *Term // the object
}

type registration struct {
	level int
	m, k  *Term
	f     *Effect
}

type merge struct {
	c     *Check
	e     *Engine
	k     kind
	fn    string
	pos   token.Pos
	r     *Result
	effs  []*Effect
	paths []string // of the levels, points excluded
	list  *Term    // resources of the result
	pl    []placement
	regs  []registration
}

var mergeFns = map[string]string{"METRICS": "CollapseMetrics", "TRACES": "CollapseTrace", "LOGS": "CollapseLogs"}

const (
	dataPkg  = "internal/data."
	fullData = "github.com/gernest/requiemdb/" + dataPkg
)

func newMerge(c *Check, k kind) *merge {
	e := c.engine()
	fn := c.fn(dataPkg + mergeFns[k.name])
	r := c.run(e, fn, "ds")
	m := &merge{c: c, e: e, k: k, fn: fnName(fn), pos: fn.Pos(), r: r, effs: e.effects}
	cut := func(p string) string { // data.Metrics.ResourceMetrics -> ds[*].ResourceMetrics
		i := strings.Index(p, ".Resource")
		return "ds[*]" + p[i:]
	}
	m.paths = []string{cut(k.resource), cut(k.scope), cut(k.item)}
	m.find()
	return m
}

// levelOf tells which level a path names; points are level 3.
func (m *merge) levelOf(p string) int {
	for i, x := range m.paths {
		if x == p {
			return i
		}
	}
	if m.k.name == "METRICS" {
		for _, q := range pointKinds {
			if p == m.paths[2]+".Data."+q+".DataPoints[*]" {
				return 3
			}
		}
	}
	return -1
}

func (m *merge) parent(p string) string {
	if m.levelOf(p) == 3 {
		return m.paths[2]
	}
	return p[:strings.LastIndex(strings.TrimSuffix(p, "[*]"), ".")]
}

func (m *merge) find() {
	e, c := m.e, m.c
	// the list of the result
	field := m.paths[0][len("ds[*]."):]
	field = strings.TrimSuffix(field, "[*]")
	for _, a := range e.alts(m.r.Val, bT) {
		if a.T.Op != OAlloc {
			c.ob("result/"+m.k.name, "the result is a new object with the combined resources", false, m.pos, "the result is %s", e.Str(a.T))
			continue
		}
		n := 0
		for _, f := range m.effs {
			if f.Kind == "store" && f.Args[0].Op == OAddr && f.Args[0].Args[0] == a.T && f.Args[0].Aux == "."+field {
				m.list = f.Args[1]
				n++
			}
		}
		c.ob("result/"+m.k.name, "the result is a new object with the combined resources", n == 1, m.pos, "%s of the result is set %d times", field, n)
	}
	for _, f := range m.effs {
		switch f.Kind {
		case "append":
			for _, p := range f.Args[1:] {
				q := e.path(p.Args[0])
				if p.Op == OSpread {
					q += "[*]"
				}
				l := m.levelOf(q)
				if l < 0 {
					continue
				}
				pl := placement{level: l, path: q, f: f}
				for _, s := range m.effs {
					if s.Kind == "store" && s.Args[1] == f.Res && s.Args[0].Op == OAddr {
						pl.target = s.Args[0]
					}
				}
				m.pl = append(m.pl, pl)
			}
		case "mapset":
			if l := m.levelOf(e.path(f.Args[2])); l >= 0 {
				m.regs = append(m.regs, registration{l, f.Args[0], f.Args[1], f})
			}
		}
	}
	for i := range m.pl {
		p := &m.pl[i]
		if p.target == nil {
			continue
		}
		o := p.target.Args[0]
		if o.Op == OChoice { // writing through nil is not a way to add
			var as []*Term
			for _, a := range e.alts(o, p.f.Cond) {
				if a.T.Op != ONil && a.T.Op != OZero {
					as = append(as, a.T)
				}
			}
			if len(as) == 1 {
				o = as[0]
				p.target = e.addr(o, p.target.Aux)
			}
		}
		for o.Op == OField || o.Op == OAssert {
			o = o.Args[0]
		}
		if o.Op == OIndex {
			p.obj, p.m, p.key = o, o.Args[0], o.Args[1]
		}
	}
	sort.SliceStable(m.pl, func(i, j int) bool { return m.pl[i].level < m.pl[j].level })
}

// appended walks a list that is collected by appending.
func (e *Engine) appended(v *Term) (items []listItem, bad string) {
	seen := map[*Term]bool{}
	got := map[string]bool{}
	var rec func(t *Term, inLoop *Term)
	rec = func(t *Term, lv *Term) {
		if t == lv && lv != nil {
			return
		}
		switch t.Op {
		case ONil, OZero, OUndef, OMake:
			if t.Op == OMake && !(t.Args[0].Op == OConst && t.Args[0].Aux == "0") {
				bad = "it starts with empty elements"
			}
			if lv != nil {
				bad = "elements collected before are dropped"
			}
		case OChoice:
			for _, a := range t.Arms {
				if !e.absurd(a.C) {
					rec(a.T, lv)
				}
			}
		case OLV:
			if seen[t] {
				return
			}
			seen[t] = true
			if t.LV == nil || t.LV.Update == nil {
				bad = "it is " + e.Str(t)
				return
			}
			rec(t.LV.Update, t)
			rec(t.LV.Init, nil)
		case OSeq:
			rec(t.Args[0], lv)
			for _, p := range t.Args[1:] {
				if p.Op != OItem {
					bad = "more than an element is added"
					return
				}
				if !got[p.Aux] {
					got[p.Aux] = true
					items = append(items, listItem{p.Args[0], e.siteEff[p.Aux]})
				}
			}
		default:
			bad = "it is " + trunc(e.Str(t), 160)
		}
	}
	rec(v, nil)
	return
}

// overAll: the effect happens for every element of paths that the loops visit.
func (m *merge) overAll(key string, f *Effect, path string) {
	e := m.e
	why := e.allOf(f.Loops)
	m.c.ob("all/"+key, "everything of every input is visited", why == "", f.Pos, "%s", why)
	want := map[string]bool{}
	for i := 0; i < len(path); i++ {
		if strings.HasPrefix(path[i:], "[*]") {
			want[path[:i]] = true
		}
	}
	if f.Kind == "append" && len(f.Args) > 1 && f.Args[1].Op == OSpread {
		delete(want, strings.TrimSuffix(path, "[*]"))
	}
	for _, l := range f.Loops {
		p := ""
		if l.Over != nil {
			p = e.path(l.Over)
		}
		if !want[p] {
			m.c.ob("once/"+key, "nothing is duplicated", false, f.Pos, "it is added again for each iteration over %s", e.loopStr(l))
		}
		delete(want, p)
	}
	for p := range want {
		m.c.ob("all/"+key, "everything of every input is visited", false, f.Pos, "not all of %s are visited", p)
	}
}

func (m *merge) run() {
	e, c := m.e, m.c
	if m.list == nil {
		return
	}
	K := m.k.name
	items, bad := e.appended(m.list)
	if !c.ob("list/"+K, "the result has the resources that were collected", bad == "" && len(items) > 0, m.pos, "the resources of the result are not understood: %s", bad) {
		return
	}
	var m0 *Term
	resAt := B(bF)
	resEff := map[*Effect]bool{}
	for _, it := range items {
		switch {
		case e.path(it.elem) == m.paths[0]:
			m.overAll(K+"/resource", it.app, m.paths[0])
			for i := range m.pl {
				if m.pl[i].f == it.app {
					m.pl[i].result = true
				}
			}
			resAt = e.bdd.Or(resAt, it.app.Cond)
			resEff[it.app] = true
		case it.elem.Op == OIndex || it.elem.Op == OElem:
			m0 = it.elem.Args[0]
			var key *Term
			if it.elem.Op == OIndex {
				key = it.elem.Args[1]
			}
			why := e.allOf(it.app.Loops)
			c.ob("list/"+K, "the result has the resources that were collected", why == "" && it.app.Cond == bT && len(it.app.Loops) == 1, it.app.Pos, "some are left out: %s %s", why, e.CondStr(it.app.Cond))
			m.order(m0, key, it)
		default:
			c.ob("list/"+K, "the result has the resources that were collected", false, it.app.Pos, "a resource of the result is %s", trunc(e.Str(it.elem), 200))
		}
	}
	if m0 != nil {
		for _, r := range m.regs {
			if r.m == m0 && r.level == 0 {
				m.overAll(K+"/resource", r.f, m.paths[0])
				resAt = e.bdd.Or(resAt, r.f.Cond)
				resEff[r.f] = true
				has := e.Cond(e.mk(OHas, "", r.m, r.k))
				c.ob("kept/"+K, "nothing collected before is replaced", e.bdd.And(r.f.Cond, has) == bF, r.f.Pos, "a resource replaces an earlier one with the same identity when %s", trunc(e.CondStr(e.bdd.And(r.f.Cond, has)), 200))
			}
		}
	}
	// every way of every element
	leafs := []string{m.paths[2]}
	if K == "METRICS" {
		leafs = nil
		for _, q := range pointKinds {
			leafs = append(leafs, m.paths[2]+".Data."+q+".DataPoints[*]")
		}
	}
	for _, leaf := range leafs {
		known := B(bT)
		name := K
		for _, q := range pointKinds {
			if strings.Contains(leaf, ".Data."+q+".") {
				known = e.typeIs(m.paths[2]+".Data", "Metric_"+q)
				name = K + "/" + q
			}
		}
		type way struct {
			c B
			f *Effect
		}
		var ws []way
		for f := range resEff {
			ws = append(ws, way{f.Cond, f})
		}
		for _, p := range m.pl {
			if p.level == 0 || !strings.HasPrefix(leaf, p.path) || p.level == 3 && p.path != leaf {
				continue
			}
			ws = append(ws, way{p.f.Cond, p.f})
		}
		sort.Slice(ws, func(i, j int) bool { return ws[i].f.Seq < ws[j].f.Seq })
		all := B(bF)
		for i, w := range ws {
			all = e.bdd.Or(all, w.c)
			for _, v := range ws[i+1:] {
				x := e.bdd.And(e.bdd.And(w.c, v.c), known)
				c.ob("once/"+name, "every item is part of the result once", e.absurd(x), v.f.Pos, "it is added at %s and again here when %s", c.P.pos(w.f.Pos), trunc(e.CondStr(x), 300))
			}
		}
		miss := e.missing(known, all)
		c.ob("lossless/"+name, "every item is part of the result", miss == bF, m.pos, "items are lost when %s", trunc(e.CondStr(miss), 300))
		c.Counts["ways of an item into the result"] += len(ws)
	}
	// appended to the right place
	for _, p := range m.pl {
		if p.level == 0 {
			continue
		}
		name := fmt.Sprintf("%s/%s", K, p.path[strings.Index(p.path, ".")+1:])
		m.overAll(name, p.f, p.path)
		par := m.parent(p.path)
		suffix := strings.TrimSuffix(p.path[len(par):], "[*]")
		rule := "elements are added to the same list of the object with the same identity"
		if !c.ob("target/"+name, rule, p.key != nil, p.f.Pos, "%s is added to %s", p.path, e.targetStr(p.target)) {
			continue
		}
		obj := p.obj
		got := e.path(p.target)
		c.ob("field/"+name, rule, got == e.path(obj)+suffix, p.f.Pos, "%s is added to %s", p.path, trunc(got, 300))
		base := p.f.Args[0]
		cell := strings.Contains(base.Aux, fmt.Sprintf("!%d%s", p.target.Args[0].ID, p.target.Aux))
		c.ob("extends/"+name, "nothing collected before is replaced", base.Op == OLV && cell || e.path(base) == got, p.f.Pos, "the list is replaced by one that extends %s", trunc(e.Str(base), 200))
		// the object found has the identity of the parent, and is part of the result
		want := e.canonKey(p.key)
		n := 0
		for _, r := range m.regs {
			if r.m != p.m {
				continue
			}
			n++
			c.ob("identity/"+name, rule, e.canonKey(r.k) == want && e.path(r.f.Args[2]) == par, p.f.Pos, "it is looked up by %s, but registered at %s under %s", trunc(want, 300), c.P.pos(r.f.Pos), trunc(e.canonKey(r.k), 300))
			both := e.bdd.And(r.f.Cond, p.f.Cond)
			c.ob("other/"+name, "nothing is duplicated", e.absurd(both), r.f.Pos, "an object is registered and then added to itself when %s", trunc(e.CondStr(both), 200))
			// registered objects are part of the result
			in := B(bF)
			for f := range resEff {
				in = e.bdd.Or(in, f.Cond)
			}
			for _, q := range m.pl {
				if q.level > 0 && q.level <= r.level {
					in = e.bdd.Or(in, q.f.Cond)
				}
			}
			miss := e.missing(r.f.Cond, in)
			c.ob("collects/"+name, "what collects items is part of the result", miss == bF, r.f.Pos, "items are added to an object that is not part of the result when %s", trunc(e.CondStr(miss), 200))
		}
		c.ob("registered/"+name, rule, n > 0, p.f.Pos, "%s is never filled", e.Str(p.m))
		found := e.Cond(e.mk(OHas, "", p.m, p.key))
		nilObj := e.Cond(e.eq(e.mk(ONil, ""), obj, obj.Typ))
		miss := e.missing(p.f.Cond, e.bdd.Or(found, e.bdd.Not(nilObj)))
		c.ob("found/"+name, rule, miss == bF, p.f.Pos, "it is added although no such object is known when %s", trunc(e.CondStr(miss), 200))
		c.Counts["lists that are extended"]++
	}
	// what is part of the result is known when something with the same identity follows
	for lvl := 0; lvl < 3; lvl++ {
		var m0 *Term
		have := B(bF)
		for _, p := range m.pl {
			if p.level == lvl+1 && p.key != nil {
				m0 = p.m
				have = e.bdd.Or(have, e.Cond(e.mk(OHas, "", p.m, p.key)))
			}
		}
		if m0 == nil {
			continue
		}
		pos := m.pos
		for _, r := range m.regs {
			if r.m == m0 && e.path(r.f.Args[2]) == m.paths[lvl] {
				have = e.bdd.Or(have, r.f.Cond)
				pos = r.f.Pos
				m.overAll(fmt.Sprint(K, "/known", lvl), r.f, m.paths[lvl])
			}
		}
		miss := e.missing(bT, have)
		c.ob(fmt.Sprint("known/", K, lvl), "what is in the result is found when something with the same identity follows", miss == bF, pos, "%s is not known later when %s", m.paths[lvl], trunc(e.CondStr(miss), 300))
		c.Counts["levels that are looked up"]++
	}
}

func (e *Engine) targetStr(t *Term) string {
	if t == nil {
		return "something that is not kept"
	}
	return trunc(e.Str(t), 200)
}

// order decides that the result has every key of m0 once, in the order in which
// they were added.
func (m *merge) order(m0, key *Term, it listItem) {
	e, c := m.e, m.c
	K := m.k.name
	rule := "resources are in the order of their first appearance"
	// adds lists the effects that add a resource
	var adds []*Effect
	addC := B(bF)
	for _, r := range m.regs {
		if r.m == m0 && r.level == 0 {
			adds = append(adds, r.f)
			addC = e.bdd.Or(addC, r.f.Cond)
		}
	}
	// companion: another map or list which gets the same keys at the same time
	same := func(f *Effect, k *Term) bool {
		for _, a := range adds {
			if a.Cond == f.Cond && e.canonKey(a.Args[1]) == e.canonKey(k) && len(a.Loops) == len(f.Loops) {
				return true
			}
		}
		return false
	}
	keysOf := func(t *Term) bool { // map with exactly the same keys
		if t == m0 {
			return true
		}
		n := 0
		for _, f := range m.effs {
			if f.Kind == "mapset" && f.Args[0] == t {
				if !same(f, f.Args[1]) {
					return false
				}
				n++
			}
		}
		return n == len(adds) && n > 0
	}
	// lists every key once; sorted tells if in order
	var allKeys func(l *Term) (ok, sorted bool)
	allKeys = func(l *Term) (ok, sorted bool) {
		its, bad := e.appended(l)
		if bad != "" || len(its) != 1 {
			return false, false
		}
		x := its[0]
		if x.elem.Op == OKey && keysOf(x.elem.Args[0]) && len(x.app.Loops) == 1 && e.allOf(x.app.Loops) == "" && x.app.Cond == bT {
			return true, false
		}
		if same(x.app, x.elem) {
			return true, true
		}
		return false, false
	}
	// number of elements of t equals the number of resources
	size := func(t *Term) bool {
		if t.Op == OLen {
			t = t.Args[0]
		}
		if keysOf(t) {
			return true
		}
		ok, _ := allKeys(t)
		return ok
	}
	positions := func(l *Term) bool { // 0..n-1
		its, bad := e.appended(l)
		if bad != "" || len(its) != 1 {
			return false
		}
		x := its[0]
		return x.elem.Op == OIdx && size(x.elem.Args[0]) && len(x.app.Loops) == 1 && e.allOf(x.app.Loops) == "" && x.app.Cond == bT
	}
	var sorted bool
	var by string // template of the key in terms of a position or element
	var list *Term
	over := it.app.Loops
	switch {
	case key == nil:
		list = m0
		by = ""
	case key.Op == OElem:
		ok, s := allKeys(key.Args[0])
		if !c.ob("order/"+K, rule, ok, it.app.Pos, "the resources of the result are those of the keys %s", e.Str(key.Args[0])) {
			return
		}
		sorted, list = s, key.Args[0]
	case key.Op == OIndex && key.Args[1].Op == OElem:
		ok, _ := allKeys(key.Args[0])
		pok := positions(key.Args[1].Args[0])
		if !c.ob("order/"+K, rule, ok && pok, it.app.Pos, "not every resource is taken once: keys %s at %s", e.Str(key.Args[0]), e.Str(key.Args[1].Args[0])) {
			return
		}
		list = key.Args[1].Args[0]
	default:
		c.ob("order/"+K, rule, false, it.app.Pos, "the resource of the result is taken by the key %s", e.Str(key))
		return
	}
	if key != nil && list != nil && len(over) == 1 {
		c.ob("order/"+K, rule, over[0].Over == list && over[0].Kind != "reverse", it.app.Pos, "the result is put together by a loop over %s", e.loopStr(over[0]))
	}
	_ = by
	if sorted {
		return
	}
	// sorted by the number given on first appearance
	why := "it is never sorted"
	for _, f := range m.effs {
		if f.Kind != "sort" || f.Res == nil || f.Cond != bT || len(f.Loops) != 0 || f.Seq > it.app.Seq || len(f.Args) < 3 {
			continue
		}
		w := m.comparison(f, list, key, m0, keysOf)
		if w == "" {
			why = ""
			break
		}
		why = w
	}
	c.ob("sorted/"+K, rule, why == "", it.app.Pos, "%s", why)
}

func (m *merge) comparison(f *Effect, list, key, m0 *Term, keysOf func(*Term) bool) string {
	e := m.e
	i, j := f.Args[1], f.Args[2]
	// the key of the element at position i
	at := func(x *Term) []*Term {
		var el *Term
		switch {
		case key == nil:
			return nil
		case strings.HasPrefix(f.Callee, "slices."): // elements
			el = x
		default:
			el = e.index(list, x)
		}
		if key.Op == OElem {
			return []*Term{el}
		}
		return []*Term{e.index(key.Args[0], el)}
	}
	if len(f.Args) > 3 { // sort.Sort
		if n := f.Args[3]; n == nil || n.Op != OLen && !keysOf(n) {
			return "the length that is sorted is " + e.Str(f.Args[3])
		}
		swap := map[string]string{}
		for k := 4; k+1 < len(f.Args); k += 2 {
			swap[e.Str(f.Args[k])] = e.Str(f.Args[k+1])
		}
		want := map[string]string{
			e.Str(e.addr(list, e.idxPath(list, i))): e.Str(e.index(list, j)),
			e.Str(e.addr(list, e.idxPath(list, j))): e.Str(e.index(list, i)),
		}
		if len(swap) != 2 {
			return "sorting does not exchange two elements"
		}
		for a, v := range want {
			if swap[a] != v {
				return "sorting exchanges " + trunc(fmt.Sprint(swap), 200)
			}
		}
	} else if f.Args[0] != list {
		return "what is sorted is " + e.Str(f.Args[0])
	}
	// the number of a key
	num := func(t *Term, x *Term) string {
		t = e.stripConv(t)
		if t.Op != OIndex || !keysOf(t.Args[0]) || t.Args[0] == m0 {
			return "it compares " + trunc(e.Str(t), 200)
		}
		for _, k := range at(x) {
			if k == t.Args[1] {
				return m.counter(t.Args[0])
			}
		}
		return "it compares the number of " + trunc(e.Str(t.Args[1]), 200)
	}
	var l, r *Term
	res := f.Res
	if res.Op == OBool || res.Op == OLt {
		for _, a := range e.support(e.Cond(res)) {
			if a.Op == OLt && e.Cond(a) == e.Cond(res) {
				l, r = a.Args[0], a.Args[1]
			}
		}
	} else if res.Op == OCall && strings.HasPrefix(res.Aux, "cmp.Compare") && len(res.Args) == 2 {
		l, r = res.Args[0], res.Args[1]
	} else if res.Op == OBin && res.Aux == "-" {
		l, r = res.Args[0], res.Args[1]
	}
	if l == nil {
		return "the order is " + trunc(e.Str(res), 200)
	}
	if w := num(l, i); w != "" {
		return w
	}
	return num(r, j)
}

// counter: the numbers in the map increase from one addition to the next.
func (m *merge) counter(t *Term) string {
	e := m.e
	for _, f := range m.effs {
		if f.Kind != "mapset" || f.Args[0] != t {
			continue
		}
		v := e.stripConv(f.Args[2])
		if v.Op == OLen {
			continue // size of what is collected
		}
		ok := false
		for _, lv := range findTerms(v, func(x *Term) bool { return x.Op == OLV && x.LV != nil }) {
			// the counter changes when, and only when, something is added
			for _, o := range lvsOf(lv) {
				u := o.LV.Update
				for _, a := range e.alts(u, f.Cond) {
					if b := e.stripConv(a.T); b.Op == OBin && b.Aux == "+" && (b.Args[0] == lv || b.Args[1] == lv) && (v == b || v == lv) {
						ok = true
					}
				}
			}
		}
		if !ok {
			return "the number of a resource is " + trunc(e.Str(v), 200)
		}
	}
	return ""
}

// mapped: list has f(x) for every element x of the list over; returns f(x).
func (e *Engine) mapped(list *Term, over string) (*Term, string) {
	if list.Op == OMake && list.Args[0].Op == OLen && e.path(list.Args[0].Args[0]) == over {
		var v *Term
		for _, f := range e.effects {
			if f.Kind != "store" || f.Args[0].Op != OAddr || f.Args[0].Args[0] != list {
				continue
			}
			if v != nil {
				return nil, "it is filled more than once"
			}
			if len(f.Loops) != 1 || e.path(f.Loops[0].Over) != over || e.allOf(f.Loops) != "" {
				return nil, "it is not filled for every element"
			}
			if m := e.missing(f.Loops[0].Entry, f.Cond); m != bF {
				return nil, "an element is left out when " + e.CondStr(m)
			}
			src := f.Loops[0].Over
			if f.Args[0].Aux != fmt.Sprintf("[#%d]", e.mk(OIdx, "", src).ID) && f.Args[0].Aux != e.idxPath(src, e.mk(OIdx, "", src)) {
				return nil, "its elements are set at other positions: " + f.Args[0].Aux
			}
			v = f.Args[1]
		}
		if v == nil {
			return nil, "it is never filled"
		}
		return v, ""
	}
	its, bad := e.appended(list)
	if bad != "" {
		return nil, bad
	}
	if len(its) != 1 {
		return nil, "its elements come from several places"
	}
	f := its[0].app
	if len(f.Loops) != 1 || e.path(f.Loops[0].Over) != over || e.allOf(f.Loops) != "" || f.Loops[0].Kind == "reverse" {
		return nil, "it is not filled for every element in order"
	}
	if m := e.missing(f.Loops[0].Entry, f.Cond); m != bF {
		return nil, "an element is left out when " + e.CondStr(m)
	}
	return its[0].elem, ""
}

func c13(c *Check) {
	for _, k := range kinds("x.Data") {
		newMerge(c, k).run()
	}
	// all inputs, each with its own kind
	e := c.engine()
	var ops []string
	for _, n := range mergeFns {
		ops = append(ops, fullData+n)
	}
	e.Opaque = opaque(ops...)
	fn := c.fn(dataPkg + "Collapse")
	r := c.run(e, fn, "ts")
	rule := "all inputs are combined as data of their kind"
	one, none := B(bF), B(bF)
	for _, a := range e.condsOf(r.Val) {
		if a.Op == OEq && a.Args[0].Op == OConst && a.Args[0].Aux == "1" && e.path(a.Args[1]) == "len(ts)" {
			one = e.Cond(a)
		}
		if a.Op == OIsEmpty && e.path(a.Args[0]) == "ts" {
			none = e.Cond(a)
		}
	}
	got := map[string]B{}
	for _, a := range e.alts(r.Val, bT) {
		switch {
		case a.T.Op == ONil:
			kn := e.bdd.Not(none)
			any := bF
			for _, k := range []string{"Metrics", "Traces", "Logs"} {
				any = e.bdd.Or(any, e.typeIs("ts[0].Data", "Data_"+k))
			}
			x := e.bdd.And(a.C, e.bdd.And(kn, any))
			c.ob("all/nil", rule, e.absurd(x), fn.Pos(), "there is no result when %s", e.CondStr(x))
		case e.path(a.T) == "ts[0]":
			x := e.missing(a.C, one)
			c.ob("all/one", rule, x == bF, fn.Pos(), "only the first input is the result when %s", e.CondStr(x))
		case a.T.Op == OAlloc:
			// the effect that makes it
			for _, f := range e.effects {
				if f.Kind != "call" || e.bdd.And(f.Cond, a.C) == bF {
					continue
				}
				for K, n := range mergeFns {
					if f.Callee != fullData+n {
						continue
					}
					name := title(K)
					v, why := e.mapped(f.Args[0], "ts")
					if !c.ob("inputs/"+K, rule, v != nil, f.Pos, "the inputs of %s are not all of ts: %s", n, why) {
						continue
					}
					p := ""
					for _, x := range e.alts(v, bT) {
						if x.T.Op != ONil && x.T.Op != OZero {
							p = e.path(x.T)
						}
					}
					c.ob("inputs/"+K, rule, p == "ts[*].Data."+name, f.Pos, "the inputs of %s are %s", n, p)
					got[K] = e.bdd.Or(got[K], e.bdd.And(a.C, f.Cond))
					// result wraps what the call returns
					ok := false
					for _, s := range e.effects {
						if s.Kind == "store" && f.Res != nil && s.Args[1] == f.Res && strings.HasSuffix(e.path(s.Args[0]), "."+name) {
							ok = true
						}
					}
					c.ob("wrapped/"+K, rule, ok, f.Pos, "what %s returns is not the result", n)
				}
			}
		default:
			c.ob("all/other", rule, false, fn.Pos(), "the result is %s", e.Str(a.T))
		}
	}
	for K := range mergeFns {
		need := e.bdd.And(e.typeIs("ts[0].Data", "Data_"+title(K)), e.bdd.And(e.bdd.Not(none), e.bdd.Not(one)))
		miss := e.missing(need, got[K])
		c.ob("kind/"+K, rule, got[K] != bF && miss == bF, fn.Pos(), "%s are not combined when %s", K, e.CondStr(miss))
	}
	c.count("ways of an item into the result", 0, 26)
	c.count("lists that are extended", 0, 11)
	c.count("levels that are looked up", 0, 7)
}

// condsOf lists the atoms of the conditions under which a value is one or another.
func (e *Engine) condsOf(t *Term) (out []*Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.Op != OChoice {
			return
		}
		for _, a := range t.Arms {
			for _, x := range e.support(a.C) {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			rec(a.T)
		}
	}
	rec(t)
	return
}

// ---- C14

type identityPart struct {
	path string
	list bool
}

func c14(c *Check) {
	for _, k := range kinds("x.Data") {
		m := newMerge(c, k)
		e := m.e
		seen := map[string]bool{}
		for _, p := range m.pl {
			if p.key == nil || p.level == 0 {
				continue
			}
			par := m.parent(p.path)
			lvl := m.levelOf(par)
			id := fmt.Sprint(lvl, e.canonKey(p.key))
			if seen[id] {
				continue
			}
			seen[id] = true
			name := k.name + "/" + []string{"resource", "scope", "metric"}[lvl]
			m.identity(name, par, lvl, p.key, p.f.Pos)
			c.Counts["identity keys"]++
		}
		for _, r := range m.regs {
			id := fmt.Sprint(r.level, e.canonKey(r.k))
			if seen[id] || r.level > 2 {
				continue
			}
			seen[id] = true
			name := k.name + "/" + []string{"resource", "scope", "metric"}[r.level]
			m.identity(name, m.paths[r.level], r.level, r.k, r.f.Pos)
			c.Counts["identity keys"]++
		}
	}
	c.count("identity keys", 0, 7)
	c.count("identity parts", 0, 26)
}

func (m *merge) identity(name, p string, lvl int, key *Term, pos token.Pos) {
	e, c := m.e, m.c
	rule := "things are combined only when all parts of their identity are equal"
	content := key
	var alts []keyAlt
	for _, a := range e.alts(key, bT) {
		content = a.T
		if content.Op == OHash {
			content = content.Args[0]
		}
		alts = append(alts, e.keyAlts(content, a.C)...)
	}
	c.ob("key/"+name, rule, len(alts) > 0, pos, "the key is %s", trunc(e.Str(key), 200))
	parts := []identityPart{{p + ".SchemaUrl", false}}
	switch lvl {
	case 0:
		parts = append(parts, identityPart{p + ".Resource.Attributes", true})
	case 1:
		parts = append(parts, identityPart{p + ".Scope.Name", false}, identityPart{p + ".Scope.Version", false}, identityPart{p + ".Scope.Attributes", true})
	case 2:
		parts = []identityPart{{p + ".Name", false}, {p + ".Description", false}, {p + ".Unit", false}, {p + ".Metadata", true}}
		for _, k := range []string{"Sum", "Histogram", "ExponentialHistogram"} {
			parts = append(parts, identityPart{p + ".Data." + k + ".AggregationTemporality", false})
		}
		parts = append(parts, identityPart{p + ".Data.Sum.IsMonotonic", false})
	}
	for _, part := range parts {
		c.Counts["identity parts"]++
		for _, a := range alts {
			if e.hasPart(a.ps, part) {
				continue
			}
			// not needed when there is nothing, or when another part of the
			// program distinguishes the values
			none := e.partAbsent(a.c, part.path)
			miss := e.missing(a.c, none)
			c.ob("part/"+name+strings.TrimPrefix(part.path, p), rule, miss == bF, pos, "%s is not part of the key %s when %s", part.path, trunc(e.canonPieces(a.ps), 300), trunc(e.CondStr(miss), 300))
		}
		c.ob("part/"+name+strings.TrimPrefix(part.path, p), rule, true, pos, "")
	}
	if lvl > 0 {
		// the identity of what contains it
		for _, a := range alts {
			ok := false
			for _, x := range a.ps {
				if x.t != nil && x.over == nil && strings.Contains(e.canonKey(x.t), "hash{") && strings.Contains(e.canonKey(x.t), m.paths[lvl-1]+".SchemaUrl") {
					ok = true
				}
			}
			c.ob("within/"+name, rule, ok, pos, "the key does not name what contains it: %s", trunc(e.canonPieces(a.ps), 300))
		}
	}
	if lvl == 2 {
		m.kindsDiffer(name, p, alts, pos)
	}
	for _, a := range alts {
		w := e.unparsable(a.ps)
		c.ob("parse/"+name, "identities of different content are different", w == "", pos, "%s", w)
	}
}

// kindsDiffer: metrics of different types have keys which differ by a constant.
func (m *merge) kindsDiffer(name, p string, alts []keyAlt, pos token.Pos) {
	e, c := m.e, m.c
	of := func(a keyAlt) (ks []string) {
		for _, k := range pointKinds {
			if !e.absurd(e.bdd.And(a.c, e.typeIs(p+".Data", "Metric_"+k))) {
				ks = append(ks, k)
			}
		}
		return
	}
	rule := "things are combined only when all parts of their identity are equal"
	differ := func(a, b keyAlt) bool {
		for i := 0; i < len(a.ps) && i < len(b.ps); i++ {
			x, y := a.ps[i], b.ps[i]
			if x.over != nil || y.over != nil {
				if x.t != y.t && e.canonPieces(a.ps[i:i+1]) != e.canonPieces(b.ps[i:i+1]) {
					return false
				}
				continue
			}
			s, t := e.canonKey(x.t), e.canonKey(y.t)
			if s == t {
				continue
			}
			if isConstPiece(x.t) && isConstPiece(y.t) {
				return true
			}
			if x.t.Op == OU64 && y.t.Op == OU64 {
				continue // as long, and may be equal
			}
			return false
		}
		return len(a.ps) != len(b.ps)
	}
	for i, a := range alts {
		for _, b := range alts[i:] {
			for _, k := range of(a) {
				for _, l := range of(b) {
					if k == l {
						continue
					}
					c.ob("types/"+name, rule, differ(a, b), pos, "%s and %s metrics can have the same key %s", k, l, trunc(e.canonPieces(a.ps), 200))
				}
			}
		}
	}
}

func isConstPiece(t *Term) bool {
	for t.Op == OU64 || t.Op == OConv {
		t = t.Args[0]
	}
	return t.Op == OConst
}

func (e *Engine) hasPart(ps []keyPiece, part identityPart) bool {
	for _, x := range ps {
		if x.over != nil {
			if !part.list || x.over.Over == nil || e.path(x.over.Over) != part.path || e.allOf([]*Loop{x.over}) != "" {
				continue
			}
			full := len(x.sub) > 0
			for _, s := range x.sub {
				full = full && e.hasElement(s.ps, part.path+"[*]")
			}
			if full {
				return true
			}
			continue
		}
		if part.list {
			if e.wholeOf(x.t, part.path) {
				return true
			}
			continue
		}
		t := x.t
		for t.Op == OU64 || t.Op == OConv || t.Op == ONum {
			t = t.Args[0]
		}
		if e.path(t) == part.path {
			return true
		}
	}
	return false
}

// wholeOf: t is an encoding of all of what path names.
func (e *Engine) wholeOf(t *Term, path string) bool {
	for t.Op == OExtract || t.Op == OConv {
		t = t.Args[0]
	}
	if t.Op == OCall && (strings.Contains(t.Aux, "Marshal") || strings.Contains(t.Aux, "String")) {
		for _, a := range t.Args {
			if e.path(a) == path {
				return true
			}
		}
	}
	return false
}

func (e *Engine) hasElement(ps []keyPiece, path string) bool {
	k, v := false, false
	for _, x := range ps {
		if x.over != nil {
			continue
		}
		if e.wholeOf(x.t, path) {
			return true
		}
		k = k || e.path(x.t) == path+".Key"
		v = v || e.wholeOf(x.t, path+".Value")
	}
	return k && v
}

// partAbsent: what path names is empty, or the value of a flag is decided by c.
func (e *Engine) partAbsent(c B, path string) B {
	r := bF
	for _, a := range e.support(c) {
		switch a.Op {
		case OIsEmpty:
			if e.path(a.Args[0]) == path {
				r = e.bdd.Or(r, e.Cond(a))
			}
		case OEq:
			for i := 0; i < 2; i++ {
				if a.Args[i].Op == ONil && strings.HasPrefix(path, e.path(a.Args[1-i])+".") {
					r = e.bdd.Or(r, e.Cond(a))
				}
			}
		case OTypeIs:
			// another member of the oneof
			q := e.path(a.Args[0])
			if strings.HasPrefix(path, q+".") {
				member := strings.SplitN(path[len(q)+1:], ".", 2)[0]
				if strings.HasSuffix(a.Aux, "_"+member) {
					r = e.bdd.Or(r, e.bdd.Not(e.Cond(a)))
				} else {
					r = e.bdd.Or(r, e.Cond(a))
				}
			}
		default:
			if e.path(a) == path { // a flag
				v := e.Cond(a)
				if e.bdd.And(c, v) == bF || e.bdd.And(c, e.bdd.Not(v)) == bF {
					r = bT
				}
			}
		}
	}
	return r
}

// unparsable tells what keeps two different contents from having different bytes.
func (e *Engine) unparsable(ps []keyPiece) string {
	for i, x := range ps {
		if x.over != nil {
			for _, s := range x.sub {
				if len(s.ps) == 1 && i == len(ps)-1 {
					// elements of one part each, still without a border between them
				}
				if w := e.unparsable(append(append([]keyPiece(nil), s.ps...), keyPiece{t: e.mk(OConst, "end")})); w != "" {
					return w
				}
			}
			continue
		}
		t := x.t
		switch t.Op {
		case OU64, OHash, OConst, ONum:
			if t.Op == ONum && i < len(ps)-1 {
				return e.path(t) + " can run into what follows it"
			}
			continue
		}
		if i == len(ps)-1 {
			continue
		}
		if n := ps[i+1].t; n != nil && ps[i+1].over == nil && n.Op == OConst {
			if s, ok := unquote(n.Aux); ok && s != "" && s[0] >= 0xf8 {
				continue // not part of any text
			}
		}
		if i > 0 && ps[i-1].over == nil {
			l := ps[i-1].t
			for l.Op == OU64 || l.Op == OConv || l.Op == OExtract {
				l = l.Args[0]
			}
			if l.Op == OLen && e.canonKey(l.Args[0]) == e.canonKey(t) {
				continue
			}
		}
		return e.canonKey(t) + " can run into what follows it"
	}
	return ""
}
