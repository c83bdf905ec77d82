package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const v1Pkg = "gen/go/rq/v1"

type kind struct {
	name      string // METRICS
	container string // path of the resources in the data of a sample
	resource  string // path of one resource
	scope     string
	item      string
}

func kinds(base string) []kind {
	return []kind{
		{"METRICS", base + ".Metrics.ResourceMetrics", base + ".Metrics.ResourceMetrics[*]", base + ".Metrics.ResourceMetrics[*].ScopeMetrics[*]",
			base + ".Metrics.ResourceMetrics[*].ScopeMetrics[*].Metrics[*]"},
		{"TRACES", base + ".Traces.ResourceSpans", base + ".Traces.ResourceSpans[*]", base + ".Traces.ResourceSpans[*].ScopeSpans[*]",
			base + ".Traces.ResourceSpans[*].ScopeSpans[*].Spans[*]"},
		{"LOGS", base + ".Logs.ResourceLogs", base + ".Logs.ResourceLogs[*]", base + ".Logs.ResourceLogs[*].ScopeLogs[*]",
			base + ".Logs.ResourceLogs[*].ScopeLogs[*].LogRecords[*]"},
	}
}

var pointKinds = []string{"Gauge", "Sum", "Histogram", "ExponentialHistogram", "Summary"}

// expected label of a sample
type labelRow struct {
	kind, prop, path string // path of the value, attributes: path of the list
	attr             bool
}

func labelRows(base string) []labelRow {
	var out []labelRow
	for _, k := range kinds(base) {
		add := func(prop, path string, attr bool) { out = append(out, labelRow{k.name, prop, path, attr}) }
		add("RESOURCE_SCHEMA", k.resource+".SchemaUrl", false)
		add("RESOURCE_ATTRIBUTES", k.resource+".Resource.Attributes", true)
		add("SCOPE_SCHEMA", k.scope+".SchemaUrl", false)
		add("SCOPE_NAME", k.scope+".Scope.Name", false)
		add("SCOPE_VERSION", k.scope+".Scope.Version", false)
		add("SCOPE_ATTRIBUTES", k.scope+".Scope.Attributes", true)
		switch k.name {
		case "METRICS":
			add("NAME", k.item+".Name", false)
			for _, p := range pointKinds {
				add("ATTRIBUTES", k.item+".Data."+p+".DataPoints[*].Attributes", true)
			}
		case "TRACES":
			add("NAME", k.item+".Name", false)
			add("TRACE_ID", "hex("+k.item+".TraceId)", false)
			add("SPAN_ID", "hex("+k.item+".SpanId)", false)
			add("PARENT_SPAN_ID", "hex("+k.item+".ParentSpanId)", false)
			add("ATTRIBUTES", k.item+".Attributes", true)
		case "LOGS":
			add("LOGS_LEVEL", k.item+".SeverityText", false)
			add("TRACE_ID", "hex("+k.item+".TraceId)", false)
			add("SPAN_ID", "hex("+k.item+".SpanId)", false)
			add("ATTRIBUTES", k.item+".Attributes", true)
		}
	}
	return out
}

const (
	findFn   = "(*github.com/gernest/requiemdb/internal/translate.Translate).Find"
	filterAt = "scan.Filters[*].Value."
)

// queryLabels finds how a filter is looked up: the encoded label in terms of the
// request.
type queryLabels struct {
	e                *Engine
	none, base, attr []Arm
	finds            []*Effect
	res              *Result
}

func opaque(names ...string) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		n := fnName(f)
		for _, x := range names {
			if x == n {
				return true
			}
		}
		return false
	}
}

func queryLabelsOf(c *Check, e *Engine) *queryLabels {
	q := &queryLabels{e: e}
	old := e.Opaque
	e.Opaque = opaque(findFn)
	from := len(e.effects)
	q.res = c.run(e, c.fn("internal/store.(*Storage).CompileFilters"), "storage", "scan", "columns")
	e.Opaque = old
	for _, f := range e.effects[from:] {
		if f.Kind != "call" || f.Callee != findFn {
			continue
		}
		q.finds = append(q.finds, f)
		for _, a := range e.alts(f.Args[len(f.Args)-1], f.Cond) {
			p := e.path(a.T)
			switch {
			case strings.Contains(p, filterAt+"Base."):
				q.base = append(q.base, a)
			case strings.Contains(p, filterAt+"Attr."):
				q.attr = append(q.attr, a)
			default:
				q.none = append(q.none, a)
			}
		}
	}
	return q
}

// instance is the label looked up for a filter on prop of the scope kind.
func (q *queryLabels) instance(t *Term, kind, prop string) *Term {
	m := map[*Term]*Term{}
	anyTerm(t, func(x *Term) bool {
		switch q.e.path(x) {
		case "scan.Scope":
			m[x] = q.e.mk(OConst, kind)
		case filterAt + "Base.Prop", filterAt + "Attr.Prop":
			m[x] = q.e.mk(OConst, prop)
		}
		return false
	})
	return q.e.subst(t, m)
}

func pick(e *Engine, as []Arm, f func(p string) bool) *Term {
	for _, a := range as {
		if f(e.path(a.T)) {
			return a.T
		}
	}
	return nil
}

const batchAddFn = "(*github.com/gernest/requiemdb/internal/batch.Batch).Add"

func init() {
	register("C01", "the sample processor is analysed for all inputs (value provenance with reaching conditions); for every field a filter can name, an obligation: "+
		"the label a query would look up for that value is added to the label set handed over for the same sample, whenever the value is present, for every element of every collection on the way", c01)
	register("C03", "the time bounds written to a sample are the fold, over every item of the sample, of the item's times: the update of the carried bounds is evaluated on all orderings of (bound, time)", c03)
}

// add is a label added to an index set.
type add struct {
	f    *Effect
	c    B
	val  *Term
	key  *Term
	path string
	used bool
}

func labelAdds(e *Engine, effs []*Effect) []*add {
	var adds []*add
	for _, f := range effs {
		if f.Kind != "setadd" {
			continue
		}
		for _, a := range e.alts(f.Args[1], f.Cond) {
			if a.T.Op != OCall || len(a.T.Args) < 2 {
				adds = append(adds, &add{f: f, c: a.C, val: a.T, path: e.path(a.T)})
				continue
			}
			for _, k := range e.alts(a.T.Args[len(a.T.Args)-1], a.C) {
				adds = append(adds, &add{f: f, c: k.C, val: a.T, key: k.T, path: e.path(k.T)})
			}
		}
	}
	return adds
}

func c01(c *Check) {
	e := c.engine()
	q := queryLabelsOf(c, e)
	base := pick(e, q.base, func(p string) bool { return strings.Contains(p, "Base.Value") })
	attr := pick(e, q.attr, func(p string) bool { return strings.Contains(p, "Attr.Key") && strings.Contains(p, "Attr.Value") })
	none := pick(e, q.none, func(p string) bool { return strings.Contains(p, "scan.Scope") })
	if base == nil || attr == nil || none == nil {
		panic(analysisError{"CompileFilters: the labels looked up for filters were not found"})
	}
	e.Opaque = opaque(batchAddFn)
	from := len(e.effects)
	c.run(e, c.fn("internal/transform.(*Context).ProcessSamples"), "c", "ls")
	effs := e.effects[from:]
	var handed []*Effect
	adds := labelAdds(e, effs)
	for _, f := range effs {
		if f.Kind == "call" && f.Callee == batchAddFn {
			handed = append(handed, f)
		}
	}
	if !c.ob("handed", "every processed sample is handed to the batch", len(handed) > 0, 0, "no call of Batch.Add reached from ProcessSamples") {
		return
	}
	h := handed[0]
	hc := bF
	for _, f := range handed {
		hc = e.bdd.Or(hc, f.Cond)
		c.ob("handed/loops", "every processed sample is handed to the batch", e.allOf(f.Loops) == "" && len(f.Loops) == 1 && e.path(f.Loops[0].Over) == "ls", f.Pos, "%s", e.allOf(f.Loops))
		c.ob("handed/id", "labels are handed over together with the id of the same sample", e.path(f.Args[1]) == "ls[*].Id", f.Pos, "id is %s", e.path(f.Args[1]))
	}
	sampleThere := bT
	if len(h.Loops) == 1 {
		sampleThere = e.bdd.Not(e.Cond(e.isEmpty(h.Loops[0].Over)))
	}
	m := e.missing(sampleThere, hc)
	c.ob("handed/always", "every processed sample is handed to the batch", m == bF, h.Pos, "not handed over when %s", e.CondStr(m))
	bm := h.Args[len(h.Args)-1]
	onBatch := func(f *Effect) bool {
		return e.rootOf(f.Args[0]) == e.rootOf(bm)
	}
	row := func(key, rule, want string, give func(a *add) B) {
		// attributes may be a choice, so several adds may share the work
		cover, need := bF, bF
		var at *add
		why := ""
		for _, a := range adds {
			if a.key == nil || a.path != want {
				continue
			}
			a.used = true
			if !onBatch(a.f) {
				why = "the label is added to a set that is not the one handed over for the sample"
				continue
			}
			if w := e.allOf(a.f.Loops); w != "" {
				why = w
				continue
			}
			cs := colls(a.key)
			bad := false
			for _, l := range a.f.Loops {
				if l.Over != nil && !cs[l.Over] && e.path(l.Over) != "ls" {
					why = "only when " + e.loopStr(l) + " has elements"
					bad = true
				}
			}
			if bad {
				continue
			}
			at = a
			cover = e.bdd.Or(cover, a.c)
			need = e.bdd.Or(need, give(a))
		}
		if at == nil {
			c.ob(key, rule, false, h.Pos, "no label %s is added: %s", want, why)
			return
		}
		m := e.missing(need, cover)
		c.ob(key, rule, m == bF, at.f.Pos, "label %s is not added when %s", want, e.CondStr(m))
		c.Counts["label additions"]++
	}
	for _, r := range labelRows("ls[*].Data.Data") {
		k := c.constVal(v1Pkg, "RESOURCE_"+r.kind)
		key := r.kind + "/" + r.prop + "/" + r.path
		rule := "a present value is indexed under the label a filter on " + r.prop + " looks up"
		if r.attr {
			p := c.constVal(v1Pkg, "Scan_"+r.prop)
			want := e.path(q.instance(attr, k, p))
			want = strings.Replace(want, filterAt+"Attr.Key", r.path+"[*].Key", 1)
			want = strings.Replace(want, filterAt+"Attr.Value", r.path+"[*].Value.Value.StringValue", 1)
			row(key, rule, want, func(a *add) B {
				g := bT
				for _, x := range findTerms(a.key, func(x *Term) bool { return x.Op == OField && x.Aux == "StringValue" }) {
					g = e.bdd.And(g, e.given(x))
				}
				return g
			})
			continue
		}
		p := c.constVal(v1Pkg, "Scan_"+r.prop)
		want := strings.Replace(e.path(q.instance(base, k, p)), filterAt+"Base.Value", r.path, 1)
		leaf := r.path
		leaf = strings.TrimSuffix(strings.TrimPrefix(leaf, "hex("), ")")
		row(key, rule, want, func(a *add) B {
			g := bT
			for _, x := range findTerms(a.key, func(x *Term) bool { return x.Op == OField && e.path(x) == leaf }) {
				g = e.bdd.And(g, e.given(x))
			}
			return g
		})
	}
	// every sample has the label that selects all samples of its kind
	for _, k := range kinds("ls[*].Data.Data") {
		want := e.path(q.instance(none, c.constVal(v1Pkg, "RESOURCE_"+k.name), "0"))
		row(k.name+"/all", "a sample is indexed under the label that selects everything of its kind", want, func(a *add) B {
			return e.typeIs("ls[*].Data.Data", "Data_"+title(k.name))
		})
	}
	for _, a := range adds {
		if !a.used && onBatch(a.f) && !e.absurd(e.bdd.And(a.c, e.knownKind("ls[*].Data.Data"))) {
			c.ob("extra/"+a.path, "a sample is only indexed under labels of values it has", false, a.f.Pos, "label %s does not name a value that filters of that field mean; added when %s", a.path, e.CondStr(a.c))
		}
	}
	c.count("label additions", 0, 36)
}

func title(s string) string { return s[:1] + strings.ToLower(s[1:]) }

// typeIs is the atom saying that the value at path holds a type whose name ends
// with suffix.
func (e *Engine) typeIs(path, suffix string) B {
	r := bF
	for _, a := range e.atoms {
		if a.Op == OTypeIs && strings.HasSuffix(a.Aux, "."+suffix) && e.path(a.Args[0]) == path {
			r = e.bdd.Or(r, e.Cond(a))
		}
	}
	if r == bF {
		panic(analysisError{fmt.Sprintf("nothing tests whether %s is %s", path, suffix)})
	}
	return r
}

func (e *Engine) knownKind(path string) B {
	return e.bdd.Or(e.typeIs(path, "Data_Metrics"), e.bdd.Or(e.typeIs(path, "Data_Traces"), e.typeIs(path, "Data_Logs")))
}

func (e *Engine) rootOf(p *Term) *Term {
	for p != nil {
		switch p.Op {
		case OAddr, OIface, OArrSlice:
			p = p.Args[0]
			continue
		}
		break
	}
	return p
}
