package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

func init() {
	register("C02", "the keys under which filters are looked up are computed symbolically: they name kind, property, key and value of the filter, can be read back in one way only, and are the keys that indexing writes for the same field; every filter is looked up and its column required, and a key which does not exist empties the columns", c02)
}

// fields of a key in order; each must be delimited so that different values never
// give the same key.
func (e *Engine) ambiguous(t *Term) string {
	var ps []*Term
	if t.Op == OSeq {
		for _, p := range t.Args {
			if p.Op == ONil || p.Op == OZero || p.Op == OMake {
				continue
			}
			if p.Op == OSpread || p.Op == OItem {
				p = p.Args[0]
			}
			ps = append(ps, p)
		}
	} else {
		ps = []*Term{t}
	}
	for i, p := range ps {
		if p.Op == OConst || i == len(ps)-1 {
			continue
		}
		n := ps[i+1]
		switch p.Op {
		case ONum:
			if n.Op != OConst {
				return e.path(p) + " is followed by " + e.path(n) + " without a separator"
			}
			if s := strings.Trim(n.Aux, "\""); s == "" || s[0] >= '0' && s[0] <= '9' {
				return "the separator after " + e.path(p) + " can be part of it"
			}
		case OU64, OHash:
		default:
			return e.path(p) + " can contain what follows it"
		}
	}
	return ""
}

func enumValues(c *Check, typ string) map[string]string {
	p := c.P.pkg(v1Pkg)
	out := map[string]string{}
	for _, n := range p.Pkg.Scope().Names() {
		if o, ok := p.Pkg.Scope().Lookup(n).(*types.Const); ok {
			if nt, ok := o.Type().(*types.Named); ok && nt.Obj().Name() == typ {
				out[n] = o.Val().ExactString()
			}
		}
	}
	return out
}

func c02(c *Check) {
	e := c.engine()
	q := queryLabelsOf(c, e)
	filters := "scan.Filters[*].Value"
	isBase, isAttr := e.typeIs(filters, "Scan_Filter_Base"), e.typeIs(filters, "Scan_Filter_Attr")
	// 1. what a key names
	class := func(name string, as []Arm, must ...string) {
		for _, a := range as {
			p := e.path(a.T)
			for _, m := range must {
				c.ob("names/"+name+"/"+m, "the key looked up for a filter names all it asks for", strings.Contains(p, m), 0, "the key %s does not name %s", p, m)
			}
			amb := e.ambiguous(a.T)
			c.ob("injective/"+name+"/"+p, "no two filters with different values have the same key", amb == "", 0, "%s", amb)
			c.Counts["key templates"]++
		}
	}
	class("none", q.none, "scan.Scope")
	class("base", q.base, "scan.Scope", filterAt+"Base.Prop", filterAt+"Base.Value")
	var full []Arm
	for _, a := range q.attr {
		p := e.path(a.T)
		if !strings.Contains(p, "Attr.Value") {
			// only allowed for a filter that has no value
			fs := findTerms(a.T, func(x *Term) bool { return x.Op == OField && x.Aux == "Key" })
			ok := false
			for _, x := range fs {
				v := e.mkT(x.Typ, OField, "Value", x.Args[0])
				ok = ok || e.missing(a.C, e.Cond(e.isEmpty(v))) == bF
			}
			c.ob("names/attr/value", "the key of an attribute filter names its value", ok, 0, "the value is left out when %s", e.CondStr(a.C))
			class("attr", []Arm{a}, "scan.Scope", filterAt+"Attr.Prop", filterAt+"Attr.Key")
			continue
		}
		full = append(full, a)
	}
	class("attr", full, "scan.Scope", filterAt+"Attr.Prop", filterAt+"Attr.Key", filterAt+"Attr.Value")
	// 2. properties have distinct numbers
	seen := map[string]string{"0": "(marker)"}
	for _, t := range []string{"Scan_BaseProp", "Scan_AttributeProp"} {
		vs := enumValues(c, t)
		c.count("filter properties", len(vs), 14)
		for n, v := range vs {
			if strings.Contains(n, "UNK") {
				continue
			}
			if o, ok := seen[v]; ok {
				c.ob("distinct/"+n, "properties have different numbers", false, 0, "%s and %s are both %s", n, o, v)
			}
			seen[v] = n
		}
	}
	// 3. every filter is looked up
	noFilters := bT
	need := map[string]B{"base": isBase, "attr": isAttr}
	got := map[string]B{"base": bF, "attr": bF, "none": bF}
	var list *Term
	for _, f := range q.finds {
		why := e.allOf(f.Loops)
		c.ob("every filter", "every filter is looked up", why == "", f.Pos, "%s", why)
		for _, l := range f.Loops {
			c.ob("all filters/"+e.path(l.Over), "every filter is looked up", e.path(l.Over) == "scan.Filters", f.Pos, "lookup depends on %s", e.path(l.Over))
			list = l.Over
		}
		for _, a := range e.alts(f.Args[len(f.Args)-1], f.Cond) {
			k := "none"
			p := e.path(a.T)
			if strings.Contains(p, filterAt+"Base.") {
				k = "base"
			} else if strings.Contains(p, filterAt+"Attr.") {
				k = "attr"
			}
			got[k] = e.bdd.Or(got[k], a.C)
		}
	}
	if list != nil {
		noFilters = e.Cond(e.isEmpty(list))
		for _, k := range []string{"base", "attr"} {
			m := e.missing(e.bdd.And(need[k], e.bdd.Not(noFilters)), got[k])
			c.ob("looked up/"+k, "every filter is looked up", m == bF, q.finds[0].Pos, "a filter is ignored when %s", e.CondStr(m))
		}
	} else {
		c.ob("looked up", "every filter is looked up", false, 0, "no loop over the filters")
	}
	m := e.missing(noFilters, got["none"])
	c.ob("looked up/none", "without filters the label of the kind is looked up", m == bF, 0, "nothing is required when %s", e.CondStr(m))
	// 4. the column is required
	errOf := func(f *Effect) B {
		return e.bdd.Not(e.Cond(e.eq(e.mk(ONil, ""), e.extract(f.Res, 1), errorType)))
	}
	cols := q.res.Args[len(q.res.Args)-1]
	for _, f := range q.finds {
		id := e.extract(f.Res, 0)
		cover := bF
		var pos token.Pos = f.Pos
		for _, a := range e.effects {
			if a.Kind != "setadd" || e.rootOf(a.Args[0]) != cols {
				continue
			}
			for _, v := range e.alts(a.Args[1], a.Cond) {
				if v.T == id {
					cover = e.bdd.Or(cover, v.C)
				}
			}
		}
		m := e.missing(f.Cond, cover)
		c.ob("required", "the column of every filter is required", m == bF, pos, "the column found is not added when %s", e.CondStr(m))
		c.Counts["lookups"]++
	}
	for _, a := range e.effects {
		if a.Kind == "setadd" && e.rootOf(a.Args[0]) == cols {
			for _, v := range e.alts(a.Args[1], a.Cond) {
				ok := false
				for _, f := range q.finds {
					ok = ok || v.T == e.extract(f.Res, 0)
				}
				c.ob("only/"+e.path(v.T), "only columns of filters are required", ok, a.Pos, "%s is added to the columns", e.path(v.T))
			}
		}
	}
	// 5. a key that does not exist
	broke := func(x B) B {
		r := bT
		for _, a := range e.support(x) {
			if a.Op == OBroke {
				r = e.bdd.And(r, e.Cond(a))
			}
		}
		return r
	}
	content := e.content(q.res.St, e.addr(cols, ".Bitmap"))
	initial := e.content(newState(), e.addr(cols, ".Bitmap"))
	for _, f := range q.finds {
		if len(f.Loops) == 0 {
			continue
		}
		left := bF
		for _, x := range f.Loops[len(f.Loops)-1].Exits {
			left = e.bdd.Or(left, x.Cond)
		}
		m := e.bdd.And(e.bdd.And(f.Cond, errOf(f)), e.bdd.Not(left))
		c.ob("stops", "a filter whose label can not be looked up is not passed over", e.absurd(m), f.Pos, "the next filters are looked up when %s", e.CondStr(m))
	}
	for _, v := range e.alts(q.res.Val, bT) {
		if v.T.Op != ONil {
			continue
		}
		for _, f := range q.finds {
			fail := e.bdd.And(v.C, errOf(f))
			if len(f.Loops) > 0 {
				fail = e.bdd.And(fail, broke(v.C))
			}
			fail = e.bdd.And(fail, f.Cond)
			if fail == bF || e.absurd(fail) {
				continue
			}
			nf := bF
			for _, a := range e.support(v.C) {
				if s := e.path(a); strings.Contains(s, "ErrKeyNotFound") {
					nf = e.bdd.Or(nf, e.Cond(a))
				}
			}
			c.ob("failed", "only a label that does not exist is treated as no match", e.bdd.And(fail, e.bdd.Not(nf)) == bF, f.Pos, "the lookup fails, but no error is returned when %s", e.CondStr(e.bdd.And(fail, e.bdd.Not(nf))))
			for _, s := range e.alts(content, fail) {
				ok := s.T == initial && len(f.Loops) == 0 || emptySet(s.T)
				c.ob("no match", "a filter whose label does not exist selects nothing", ok, f.Pos, "columns are %s when %s", e.Str(s.T), trunc(e.CondStr(s.C), 300))
			}
			c.Counts["missing labels"]++
		}
	}
	for _, v := range e.alts(q.res.Val, bT) {
		if v.T.Op == ONil {
			continue
		}
		for _, f := range q.finds {
			fail := e.bdd.And(e.bdd.And(v.C, f.Cond), errOf(f))
			if len(f.Loops) > 0 {
				fail = e.bdd.And(fail, broke(v.C))
			}
			err := e.extract(f.Res, 1)
			absent := bF
			for _, a := range e.atoms {
				if y, ok := isNotFound(a); ok && sameArm(y, err) {
					absent = e.bdd.Or(absent, e.Cond(a))
				}
			}
			if absent != bF {
				fail = e.bdd.And(fail, absent)
			}
			c.ob("absent", "a label that does not exist is no failure", fail == bF || e.absurd(fail), f.Pos, "an error is returned for a label that does not exist when %s", trunc(e.CondStr(fail), 300))
		}
	}
	c.count("missing labels", 0, 1)
	// 6. indexing writes the same keys
	base := pick(e, q.base, func(p string) bool { return strings.Contains(p, "Base.Value") })
	attr := pick(e, q.attr, func(p string) bool { return strings.Contains(p, "Attr.Key") && strings.Contains(p, "Attr.Value") })
	none := pick(e, q.none, func(p string) bool { return strings.Contains(p, "scan.Scope") })
	if base == nil || attr == nil || none == nil {
		panic(analysisError{"CompileFilters: the labels looked up for filters were not found"})
	}
	e.Opaque = opaque(batchAddFn)
	from := len(e.effects)
	c.run(e, c.fn("internal/transform.(*Context).ProcessSamples"), "c", "ls")
	written := map[string]*add{}
	for _, a := range labelAdds(e, e.effects[from:]) {
		if a.key != nil {
			written[a.path] = a
		}
	}
	want := map[string]bool{}
	for _, r := range labelRows("ls[*].Data.Data") {
		k := c.constVal(v1Pkg, "RESOURCE_"+r.kind)
		p := c.constVal(v1Pkg, "Scan_"+r.prop)
		var w string
		if r.attr {
			w = e.path(q.instance(attr, k, p))
			w = strings.Replace(w, filterAt+"Attr.Key", r.path+"[*].Key", 1)
			w = strings.Replace(w, filterAt+"Attr.Value", r.path+"[*].Value.Value.StringValue", 1)
		} else {
			w = strings.Replace(e.path(q.instance(base, k, p)), filterAt+"Base.Value", r.path, 1)
		}
		want[w] = true
		c.ob("same/"+r.kind+"/"+r.prop+"/"+r.path, "indexing writes the key that a filter looks up", written[w] != nil, 0, "no key %s is written", w)
	}
	for _, k := range kinds("") {
		w := e.path(q.instance(none, c.constVal(v1Pkg, "RESOURCE_"+k.name), "0"))
		want[w] = true
		c.ob("same/"+k.name, "indexing writes the key that a query without filters looks up", written[w] != nil, 0, "no key %s is written", w)
	}
	c.count("keys compared", len(want), 36)
	// 7. the kind a query asks for has the number that indexing uses
	res, scope := enumValues(c, "RESOURCE"), enumValues(c, "Scan_SCOPE")
	for n, v := range scope {
		n = strings.TrimPrefix(n, "Scan_")
		if strings.Contains("METRICS TRACES LOGS", n) {
			c.ob("kind/"+n, "kinds have the same number in queries and labels", res["RESOURCE_"+n] == v, 0, "%s is %s in queries and %s in labels", n, v, res["RESOURCE_"+n])
			c.Counts["kinds"]++
		}
	}
	c.count("kinds", 0, 3)
}

func emptySet(t *Term) bool {
	return t.Op == OSet && len(t.Args) == 1 && (t.Args[0].Op == ONil || t.Args[0].Op == OZero) || t.Op == OZero || t.Op == ONil
}

var _ = fmt.Sprint
