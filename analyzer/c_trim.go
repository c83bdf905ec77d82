package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "the condition under which the trimmed result keeps an item is computed for every kind of item and compared, in both directions, with the conjunction of the filters over the fields they name and the time range; the representation of filters is read off Compile", c10)
	register("C12", "compiling filters is analysed for every property: each adds exactly its own value, under an unambiguous hash, to a set of its own, every filter is compiled, and releasing clears every set", c12)
}

// trimFilter tells how a filter on prop is represented.
type trimFilter struct {
	prop  string
	attr  bool
	set   string // field of the compiled form that holds the wanted values
	hash  string // path of what is hashed
	value string // part of hash that stands for the value of an item
	cond  B
	eff   *Effect
}

const visitAll = "internal/visit.(*All)."

func trimFilters(c *Check, e *Engine) (map[string][]*trimFilter, *Result) {
	from := len(e.effects)
	r := c.run(e, c.fn(visitAll+"Compile"), "o", "filters")
	out := map[string][]*trimFilter{}
	type pv struct {
		name, val string
		attr      bool
	}
	var props []pv
	for n, v := range enumValues(c, "Scan_BaseProp") {
		props = append(props, pv{strings.TrimPrefix(n, "Scan_"), v, false})
	}
	for n, v := range enumValues(c, "Scan_AttributeProp") {
		props = append(props, pv{strings.TrimPrefix(n, "Scan_"), v, true})
	}
	sort.Slice(props, func(i, j int) bool { return props[i].name < props[j].name })
	for _, p := range props {
		cls, suf := "Scan_Filter_Base", "Base.Prop"
		if p.attr {
			cls, suf = "Scan_Filter_Attr", "Attr.Prop"
		}
		is := e.typeIs("filters[*].Value", cls)
		var lit B = bF
		for _, a := range e.atoms {
			if a.Op == OEq && a.Args[0].Op == OConst && a.Args[0].Aux == p.val && e.path(a.Args[1]) == "filters[*].Value."+suf {
				lit = e.Cond(a)
			}
		}
		if lit == bF {
			continue
		}
		is = e.bdd.And(is, lit)
		for _, f := range e.effects[from:] {
			if f.Kind != "setadd" {
				continue
			}
			for _, v := range e.alts(f.Args[1], f.Cond) {
				x := e.bdd.And(v.C, is)
				if x == bF || e.absurd(x) {
					continue
				}
				t := &trimFilter{prop: p.name, attr: p.attr, set: strings.TrimPrefix(e.path(f.Args[0]), "o"), cond: v.C, eff: f}
				if v.T.Op == OHash {
					t.hash = e.path(v.T.Args[0])
				}
				if !p.attr {
					for _, y := range findTerms(v.T, func(y *Term) bool { return e.path(y) == "filters[*].Value.Base.Value" }) {
						t.value = e.path(y)
					}
					for _, y := range findTerms(v.T, func(y *Term) bool { return y.Op == OCall && strings.HasPrefix(y.Aux, "encoding/hex.DecodeString") }) {
						t.value = e.path(y) + "#0"
					}
				}
				out[p.name] = append(out[p.name], t)
			}
		}
	}
	return out, r
}

var idProps = map[string]bool{"TRACE_ID": true, "SPAN_ID": true, "PARENT_SPAN_ID": true}

func propNames() (base, attr []string) {
	return []string{"RESOURCE_SCHEMA", "SCOPE_SCHEMA", "SCOPE_NAME", "SCOPE_VERSION", "NAME", "TRACE_ID", "SPAN_ID", "PARENT_SPAN_ID", "LOGS_LEVEL"},
		[]string{"RESOURCE_ATTRIBUTES", "SCOPE_ATTRIBUTES", "ATTRIBUTES"}
}

func c12(c *Check) {
	e := c.engine()
	fs, _ := trimFilters(c, e)
	base, attr := propNames()
	owner := map[string]string{}
	for i, ps := range [][]string{base, attr} {
		for _, p := range ps {
			cls, suf := "Scan_Filter_Base", "Base"
			if i == 1 {
				cls, suf = "Scan_Filter_Attr", "Attr"
			}
			l := fs[p]
			if !c.ob("constrains/"+p, "a filter constrains the field it names", len(l) > 0, 0, "a filter on %s has no effect", p) {
				continue
			}
			cover := bF
			for _, t := range l {
				cover = e.bdd.Or(cover, t.cond)
				w := e.allOf(t.eff.Loops)
				c.ob("every/"+p, "every filter is compiled", w == "" && len(t.eff.Loops) == 1 && e.path(t.eff.Loops[0].Over) == "filters", t.eff.Pos, "%s", w)
				c.ob("one set/"+p, "a filter constrains only the field it names", t.set == l[0].set, t.eff.Pos, "a filter on %s is added to %s and to %s", p, t.set, l[0].set)
				if o, ok := owner[t.set]; ok && o != p {
					c.ob("own set/"+p, "filters on different fields are kept apart", false, t.eff.Pos, "filters on %s and %s are both added to %s", p, o, t.set)
				}
				owner[t.set] = p
				want := "filters[*].Value.Base.Value"
				switch {
				case idProps[p]:
					want = t.value
					c.ob("value/"+p, "ids are given in hexadecimal", t.hash != "" && t.hash == want && strings.Contains(want, "DecodeString"), t.eff.Pos, "what is added for %s is %s", p, t.hash)
				case i == 0:
					c.ob("value/"+p, "a filter wants exactly its own value", t.hash == want, t.eff.Pos, "what is added for %s is %s", p, t.hash)
				default:
					v := "filters[*].Value.Attr."
					c.ob("value/"+p, "a filter on an attribute wants its key and value", strings.Contains(t.hash, v+"Key") && strings.Contains(t.hash, v+"Value"), t.eff.Pos, "what is added for %s is %s", p, t.hash)
					// key and value are set apart by bytes that neither can contain
					mid := strings.TrimSuffix(strings.TrimPrefix(t.hash, v+"Key+"), "+"+v+"Value")
					c.ob("apart/"+p, "different attributes are kept apart", strings.Trim(mid, `"`) == `\xff` || strings.HasPrefix(t.hash, "le64(len("), t.eff.Pos,
						"key and value are put together as %s; a key that contains %s gives the hash of another attribute", t.hash, mid)
				}
			}
			have := e.typeIs("filters[*].Value", cls)
			val := enumValues(c, "Scan_BaseProp")["Scan_"+p]
			if i == 1 {
				val = enumValues(c, "Scan_AttributeProp")["Scan_"+p]
			}
			for _, a := range e.atoms {
				if a.Op == OEq && a.Args[0].Op == OConst && a.Args[0].Aux == val && e.path(a.Args[1]) == "filters[*].Value."+suf+".Prop" {
					have = e.bdd.And(have, e.Cond(a))
				}
			}
			m := e.missing(have, cover)
			c.ob("always/"+p, "a filter constrains the field it names", m == bF, l[0].eff.Pos, "a filter on %s has no effect when %s", p, e.CondStr(m))
			c.Counts["filter properties"]++
		}
	}
	c.count("filter properties", 0, 12)
	// nothing is left for the next query
	rel := c.fn(visitAll + "Release")
	e2 := c.engine()
	r := c.run(e2, rel, "a")
	cleared := clearedSets(e2, e2.effects)
	st := rel.Params[0].Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		p := e2.addr(r.Args[0], "."+f.Name())
		if strings.HasSuffix(f.Type().String(), "roaring64.Bitmap") {
			ok := cleared["a."+f.Name()] == bT || emptySet(e2.content(r.St, p))
			c.ob("clear/"+f.Name(), "nothing of the filters before is left when the compiled form is used again", ok, rel.Pos(), "%s keeps its values", f.Name())
		} else {
			v := e2.load(r.St, p, f.Type())
			k, isK := constInt(v)
			c.ob("clear/"+f.Name(), "nothing of the filters before is left when the compiled form is used again", v.Op == OZero || v.Op == ONil || isK && k == 0, rel.Pos(), "%s keeps its value", f.Name())
		}
		c.Counts["fields cleared"]++
	}
	c.count("fields cleared", 0, 14)
	put := bF
	for _, f := range e2.effects {
		if f.Kind == "call" && f.Callee == "(*sync.Pool).Put" && e2.path(f.Args[len(f.Args)-1]) == "a" {
			put = e2.bdd.Or(put, f.Cond)
		}
	}
	c.Counts["released"]++
}

// clearedSets tells when the set at a path is cleared.
func clearedSets(e *Engine, effs []*Effect) map[string]B {
	out := map[string]B{}
	for _, f := range effs {
		if f.Kind != "setclear" {
			continue
		}
		t := f.Args[0]
		if (t.Op == OIndex || t.Op == OElem) && t.Args[0].Op == OSeq {
			if e.allOf(f.Loops) != "" {
				continue
			}
			for _, p := range t.Args[0].Args[1:] {
				if p.Op == OItem {
					q := e.path(p.Args[0])
					out[q] = e.bdd.Or(out[q], f.Cond)
				}
			}
			continue
		}
		q := e.path(t)
		out[q] = e.bdd.Or(out[q], f.Cond)
	}
	return out
}

// wants is the condition for a value to be accepted by the filters on one property.
func (e *Engine) wants(o *Term, t *trimFilter, row labelRow) (B, string) {
	set := e.content(newState(), e.addr(o, t.set))
	empty := e.Cond(e.isEmpty(set))
	if !row.attr {
		leaf := strings.TrimSuffix(strings.TrimPrefix(row.path, "hex("), ")")
		want := strings.Replace(t.hash, t.value, leaf, 1)
		for _, a := range e.atoms {
			if a.Op == OIn && a.Args[1] == set && a.Args[0].Op == OHash && e.path(a.Args[0].Args[0]) == want {
				return e.bdd.Or(empty, e.Cond(a)), ""
			}
		}
		return bF, fmt.Sprintf("%s is never compared with the filter", leaf)
	}
	want := strings.Replace(t.hash, "filters[*].Value.Attr.Key", row.path+"[*].Key", 1)
	want = strings.Replace(want, "filters[*].Value.Attr.Value", row.path+"[*].Value.Value.StringValue", 1)
	why := fmt.Sprintf("%s is never compared with the filter", row.path)
	for _, a := range e.atoms {
		if a.Op != OEq || a.Args[0].Op != OCard || a.Args[1].Op != OCard {
			continue
		}
		x, y := a.Args[0].Args[0], a.Args[1].Args[0]
		if y.Op == OInter {
			x, y = y, x
		}
		if x.Op != OInter || y != set {
			continue
		}
		p, q := x.Args[0], x.Args[1]
		if p == set {
			p, q = q, p
		}
		if q != set {
			continue
		}
		if ok, w := e.collects(p, want, row.path); ok {
			return e.bdd.Or(empty, e.Cond(a)), ""
		} else if w != "" {
			why = w
		}
	}
	return bF, why
}

// collects: the set p has the hash want for every element of the list, nothing else.
func (e *Engine) collects(p *Term, want, list string) (bool, string) {
	if p.Op != OLV || p.LV == nil || p.LV.Update == nil || p.LV.Loop.Over == nil {
		return false, ""
	}
	l := p.LV.Loop
	if e.path(l.Over) != list {
		return false, ""
	}
	if w := e.allOf([]*Loop{l}); w != "" {
		return false, w
	}
	if !emptySet(p.LV.Init) {
		return false, "attributes of another list are compared: the set starts as " + trunc(e.Str(p.LV.Init), 120)
	}
	cover := bF
	var at *Term
	for _, a := range e.alts(p.LV.Update, bT) {
		switch {
		case a.T == p:
		case a.T.Op == OSet && len(a.T.Args) == 2 && a.T.Args[0] == p && a.T.Args[1].Op == OHash:
			if g := e.path(a.T.Args[1].Args[0]); g != want {
				return false, "attributes are compared as " + g
			}
			cover = e.bdd.Or(cover, a.C)
			at = a.T.Args[1]
		default:
			return false, "the attributes found so far become " + trunc(e.Str(a.T), 160)
		}
	}
	if at == nil {
		return false, "no attribute is ever compared"
	}
	need := bT
	for _, x := range findTerms(at, func(x *Term) bool { return x.Op == OField && x.Aux == "StringValue" }) {
		need = e.bdd.And(need, e.exist(x))
	}
	if m := e.missing(need, cover); m != bF {
		return false, "attributes are left out when " + trunc(e.CondStr(m), 200)
	}
	return true, ""
}

// orderings runs f for every weak ordering of the terms, with the condition that
// fixes the comparisons between them.
func (e *Engine) orderings(ts []*Term, f func(vals []int, given B)) {
	n := len(ts)
	vals := make([]int, n)
	seen := map[string]bool{}
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			// only comparisons matter
			key := ""
			for a := range vals {
				for b := range vals {
					switch {
					case vals[a] < vals[b]:
						key += "<"
					case vals[a] == vals[b]:
						key += "="
					default:
						key += ">"
					}
				}
			}
			if seen[key] {
				return
			}
			seen[key] = true
			g := bT
			for _, a := range e.atoms {
				if a.Op != OLt && a.Op != OEq {
					continue
				}
				x, y := -1, -1
				for k, t := range ts {
					if e.path(a.Args[0]) == e.path(t) {
						x = k
					}
					if e.path(a.Args[1]) == e.path(t) {
						y = k
					}
				}
				if x < 0 || y < 0 {
					continue
				}
				v := vals[x] < vals[y]
				if a.Op == OEq {
					v = vals[x] == vals[y]
				}
				if v {
					g = e.bdd.And(g, e.Cond(a))
				} else {
					g = e.bdd.And(g, e.bdd.Not(e.Cond(a)))
				}
			}
			f(vals, g)
			return
		}
		for v := 0; v < n; v++ {
			vals[i] = v
			rec(i + 1)
		}
	}
	rec(0)
}

type leafItem struct {
	kind, path, time, point string
}

func leafItems(base string) []leafItem {
	var out []leafItem
	for _, k := range kinds(base) {
		switch k.name {
		case "METRICS":
			for _, p := range pointKinds {
				x := k.item + ".Data." + p + ".DataPoints[*]"
				out = append(out, leafItem{k.name, x, x + ".TimeUnixNano", p})
			}
		case "TRACES":
			out = append(out, leafItem{k.name, k.item, k.item + ".StartTimeUnixNano", ""})
		case "LOGS":
			out = append(out, leafItem{k.name, k.item, k.item + ".TimeUnixNano", ""})
		}
	}
	return out
}

// timeFields are the fields that hold the range.
func timeFields(c *Check, e *Engine) (start, end string) {
	from := len(e.effects)
	c.run(e, c.fn(visitAll+"SetTimeRange"), "o", "start", "end")
	for _, f := range e.effects[from:] {
		if f.Kind == "store" && f.Cond == bT {
			switch e.path(f.Args[1]) {
			case "start":
				start = e.path(f.Args[0])
			case "end":
				end = e.path(f.Args[0])
			}
		}
	}
	return
}

func c10(c *Check) {
	e := c.engine()
	fs, comp := trimFilters(c, e)
	start, end := timeFields(c, e)
	if !c.ob("range", "the time range is recorded", start != "" && end != "" && start != end, 0, "SetTimeRange records start in %q and end in %q", start, end) {
		return
	}
	from := len(e.effects)
	c.run(e, c.fn(visitAll+"Visit"), "o", "data")
	effs := e.effects[from:]
	o := comp.Args[0]
	for _, it := range leafItems("data.Data") {
		var keep []*Effect
		var conds []B
		var leaf *Term
		for _, f := range effs {
			if f.Kind != "append" {
				continue
			}
			for _, x := range f.Args[1:] {
				for _, a := range e.alts(x, f.Cond) {
					t := a.T
					if t.Op == OItem {
						t = t.Args[0]
					}
					if e.path(t) == it.path {
						keep = append(keep, f)
						conds = append(conds, a.C)
						leaf = t
					}
				}
			}
		}
		name := it.kind + it.point
		if !c.ob("kept/"+name, "an item that satisfies the query is kept", len(keep) > 0, 0, "%s is never part of the result", it.path) {
			continue
		}
		got := bF
		for i, f := range keep {
			got = e.bdd.Or(got, conds[i])
			w := e.allOf(f.Loops)
			c.ob("all/"+name, "every item is considered", w == "", f.Pos, "%s", w)
			cs := colls(leaf)
			for _, l := range f.Loops {
				c.ob("all/"+name+"/only", "whether an item is kept depends only on the item and what contains it", l.Over != nil && cs[l.Over], f.Pos, "the loop over %s takes part", e.loopStr(l))
			}
		}
		there := e.bdd.And(e.exist(leaf), e.bdd.Not(e.Cond(e.eq(e.mk(ONil, ""), o, o.Typ))))
		want := bT
		for _, r := range labelRows("data.Data") {
			if r.kind != it.kind || it.kind == "METRICS" && r.prop == "ATTRIBUTES" && !strings.HasPrefix(r.path, it.path) {
				continue
			}
			l := fs[r.prop]
			if len(l) == 0 {
				continue // C12
			}
			x, why := e.wants(o, l[0], r)
			if !c.ob("compared/"+name+"/"+r.prop, "a filter is compared with the field it names", why == "", keep[0].Pos, "filters on %s: %s", r.prop, why) {
				x = bT
			}
			want = e.bdd.And(want, x)
			c.Counts["filters on items"]++
		}
		pick := func(p string) *Term {
			for _, a := range e.support(got) {
				for _, x := range findTerms(a, func(x *Term) bool { return e.path(x) == p }) {
					return x
				}
			}
			return nil
		}
		ts := []*Term{pick(it.time), pick(start), pick(end)}
		if !c.ob("time/"+name, "the time of an item is compared with both ends of the range", ts[0] != nil && ts[1] != nil && ts[2] != nil, keep[0].Pos,
			"comparisons with the time of the item (%v), the start (%v), the end (%v)", ts[0] != nil, ts[1] != nil, ts[2] != nil) {
			continue
		}
		e.orderings(ts, func(v []int, g B) {
			in := v[0] >= v[1] && v[0] < v[2]
			at := fmt.Sprintf("time %d, start %d, end %d", v[0], v[1], v[2])
			x := e.bdd.And(got, g)
			if !in {
				c.ob("outside/"+name, "items outside of the time range are left out", x == bF || e.absurd(x), keep[0].Pos, "an item is kept with %s", at)
				return
			}
			w := e.bdd.And(want, g)
			m := e.missing(e.bdd.And(w, there), x)
			c.ob("keeps/"+name, "an item that satisfies all filters is kept", m == bF, keep[0].Pos, "with %s, an item is left out when %s", at, trunc(e.CondStr(m), 400))
			m = e.missing(x, w)
			c.ob("leaves out/"+name, "an item that does not satisfy a filter is left out", m == bF, keep[0].Pos, "with %s, an item is kept when %s", at, trunc(e.CondStr(m), 400))
			c.Counts["orderings of times"]++
		})
		c.Counts["kinds of items"]++
	}
	c.count("kinds of items", 0, 7)
	c.count("filters on items", 0, 60)
}

var _ *ssa.Function
