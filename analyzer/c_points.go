package main

import (
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- metrics that are stored as points

func init() {
	register("C35", "the state of the point that is appended is computed by symbolic execution, for each kind of metric: every field is compared with where it must come from, the set of columns is expanded to what was added to it since it was empty, and every data point is shown to be appended; positions, hash and id must be those of the same iteration", c35)
}

type pointKind struct {
	name   string // of the alternative
	kind   string // constant
	fields map[string]want
}

func points(c *Check) []pointKind {
	const m = "(*v1.Metric_"
	num := func(x *conv, id, in string, got *Term, cond B) {
		byType(".Value", map[string]want{
			"*v1.NumberDataPoint_AsDouble": pointTo(".AsDouble"),
			"*v1.NumberDataPoint_AsInt":    pointTo(".AsInt"),
		})(x, id, in, got, cond)
		// nothing of the last point when there is no value
		d := cond
		for _, a := range x.e.atoms {
			if a.Op == OTypeIs && x.show(a.Args[0]) == in+".Value" {
				d = x.e.bdd.And(d, x.e.bdd.Not(x.e.Cond(a)))
			}
		}
		for _, a := range x.arms(got, d) {
			if !isZeroVal(a.T) {
				x.fail(id+"/none", "%s is %s without a value", id, x.show(a.T))
			}
		}
	}
	temp := func(k string) want { return ofMetric(".Data." + m + k + ")." + k + ".AggregationTemporality") }
	k := func(name string) string { return c.constVal("gen/go/store/v1", "Metric_"+name) }
	hist := map[string]want{}
	for _, f := range []string{"Count", "Sum", "BucketCounts", "ExplicitBounds", "Min", "Max"} {
		hist[f] = from("." + f)
	}
	exp := map[string]want{}
	for _, f := range []string{"Count", "Sum", "Scale", "ZeroCount", "Positive", "Negative", "Min", "Max", "ZeroThreshold"} {
		exp[f] = from("." + f)
	}
	sum := map[string]want{}
	for _, f := range []string{"Count", "Sum", "QuantileValues"} {
		sum[f] = from("." + f)
	}
	return []pointKind{
		{"Gauge", k("GAUGE"), map[string]want{"Gauge": num, "Exemplars": from(".Exemplars")}},
		{"Sum", k("SUM"), map[string]want{"Counter": num, "Exemplars": from(".Exemplars"), "AggregationTemporality": temp("Sum"), "IsMonotonic": ofMetric(".Data." + m + "Sum).Sum.IsMonotonic")}},
		{"Histogram", k("HISTOGRAM"), map[string]want{"Histogram": literal("store/v1.HistogramDataPoint", hist), "Exemplars": from(".Exemplars"), "AggregationTemporality": temp("Histogram")}},
		{"ExponentialHistogram", k("EXPONENTIAL_HISTOGRAM"), map[string]want{"ExponentialHistogram": literal("store/v1.ExponentialHistogramDataPoint", exp), "Exemplars": from(".Exemplars"), "AggregationTemporality": temp("ExponentialHistogram")}},
		{"Summary", k("SUMMARY"), map[string]want{"Summary": literal("store/v1.SummaryDataPoint", sum)}},
	}
}

const (
	pointResource = "data.ResourceMetrics[*]"
	pointScope    = pointResource + ".ScopeMetrics[*]"
	pointMetric   = pointScope + ".Metrics[*]"
)

func ofMetric(path string) want {
	return func(x *conv, id, in string, got *Term, cond B) { from(path)(x, id, pointMetric, got, cond) }
}

// pointTo is a pointer to the number.
func pointTo(path string) want {
	return func(x *conv, id, in string, got *Term, cond B) {
		for _, a := range x.arms(got, cond) {
			s := x.show(a.T)
			ok := (a.T.Op == OAddr || a.T.Op == OAlloc && sameLoops(x.e.born[a.T], x.loops)) && (s == in+path || s == "float64("+in+path+")")
			if !ok {
				x.fail(id, "%s is %s instead of %s when %s", id, trunc(s, 200), in+path, trunc(x.e.CondStr(a.C), 200))
				return
			}
		}
		x.good(id)
	}
}

var (
	trName   = regexp.MustCompile(`^\(\*?[\w./-]*internal/f2\.\w+\)\.Tr$`)
	ownField = regexp.MustCompile(`^m\.\w+$`)
)

func c35(c *Check) {
	const add = "(*github.com/gernest/requiemdb/internal/arrow3.Schema[T]).Append"
	e := c.engine()
	e.Opaque = func(f *ssa.Function) bool {
		return strings.Contains(fnName(f), "internal/arrow3") || trName.MatchString(fnName(f))
	}
	e.Hook = map[string]model{add: func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		fr.emit("call", name, args, nil, in).St = st.clone()
		return e.mk(OTuple, ""), st
	}}
	fn := c.fn("internal/f2.(*Metrics).Append")
	c.run(e, fn, "m", "data")
	var appends []*Effect
	for _, f := range e.effects {
		if f.St != nil {
			appends = append(appends, f)
		}
	}
	msg, _ := c.P.object(c.P.pkg("gen/go/store/v1").Pkg.Path(), "Metric").Type().Underlying().(*types.Struct)
	if msg == nil {
		panic(analysisError{"store/v1.Metric is not a message"})
	}
	for _, k := range points(c) {
		rule := "every data point of a metric is stored with its own data"
		x := c.conv(e, rule)
		src := pointMetric + ".Data.(*v1.Metric_" + k.name + ")." + k.name + ".DataPoints"
		var mine []*Effect
		for _, f := range appends {
			if len(f.Loops) > 0 && x.over(f.Loops[len(f.Loops)-1], f) == src {
				mine = append(mine, f)
			}
		}
		if !c.ob(k.name+"/stored", rule, len(mine) == 1, fn.Pos(), "data points of %s are appended at %d places", k.name, len(mine)) {
			continue
		}
		c.Counts["kinds of points"]++
		f := mine[0]
		x.loops = f.Loops
		c.allPoints(x, k.name, f)
		o := f.Args[1]
		in := src + "[*]"
		val := func(n string) *Term { return e.at(f.St, o, n) }
		seen := map[string]bool{"Attributes": true, "Hash": true, "Id": true}
		check := func(n, in string, w want) {
			seen[n] = true
			c.Counts["fields"]++
			w(x, k.name+"."+n, in, val(n), f.Cond)
		}
		check("Name", pointMetric, from(".Name"))
		check("Description", pointMetric, from(".Description"))
		check("Unit", pointMetric, from(".Unit"))
		check("StartTimeUnixNano", in, from(".StartTimeUnixNano"))
		check("TimeUnixNano", in, from(".TimeUnixNano"))
		check("Kind", "", func(x *conv, id, in string, got *Term, cond B) {
			for _, a := range x.arms(got, cond) {
				c.ob(id, rule, a.T.Aux == k.kind && a.T.Op == OConst || k.kind == "0" && isZeroVal(a.T), f.Pos, "the kind is %s", x.show(a.T))
			}
		})
		for n, w := range k.fields {
			check(n, in, w)
		}
		for i := 0; i < msg.NumFields(); i++ {
			n := msg.Field(i).Name()
			if !msg.Field(i).Exported() || seen[n] {
				continue
			}
			check(n, in, func(x *conv, id, in string, got *Term, cond B) {
				for _, a := range x.arms(got, cond) {
					c.ob(id, rule, isZeroVal(a.T), f.Pos, "%s of a %s is %s", n, k.name, trunc(x.show(a.T), 200))
				}
			})
		}
		lists := []string{pointResource + ".Resource.Attributes", pointScope + ".Scope.Attributes", in + ".Attributes"}
		for _, a := range x.arms(val("Attributes"), f.Cond) {
			var got []string
			if a.T.Op == OSeq {
				for _, p := range a.T.Args {
					if !isZeroVal(p) {
						got = append(got, x.show(p))
					}
				}
			}
			want := []string{lists[0] + "...", lists[1] + "...", lists[2] + "..."}
			sort.Strings(got)
			sort.Strings(want)
			c.ob(k.name+".Attributes", "a point has the attributes of its resource, scope and data point", strings.Join(got, " ") == strings.Join(want, " "), f.Pos, "the attributes are %s", trunc(x.show(a.T), 400))
		}
		c.pointColumns(x, k.name, f, val("Hash"), val("Id"), lists)
	}
	c.ob("appends", "nothing else is stored", len(appends) == c.Counts["kinds of points"], fn.Pos(), "%d places append points", len(appends))
	c.pointNames()
	c.Min["kinds of points"] = 5
	c.Min["fields"] = 60
	c.Min["columns"] = 20
	c.assume("objects taken from pools are empty: C23 decides that")
	c.assume("the record keeps what it is given: C38")
}

// allPoints: nothing is left out.
func (c *Check) allPoints(x *conv, k string, f *Effect) {
	const rule = "every data point is stored"
	e := x.e
	over := []string{"data.ResourceMetrics", pointResource + ".ScopeMetrics", pointScope + ".Metrics", pointMetric + ".Data.(*v1.Metric_" + k + ")." + k + ".DataPoints"}
	if !c.ob(k+"/loops", rule, len(f.Loops) == len(over), f.Pos, "points are appended in %d loops", len(f.Loops)) {
		return
	}
	reach := bT
	for i, lp := range f.Loops {
		c.Counts["loops"]++
		why := e.allOf([]*Loop{lp})
		c.ob(k+"/loop/"+over[i], rule, why == "", lp.Pos, "%s", why)
		s := x.over(lp, f)
		c.ob(k+"/loop/"+over[i], rule, s == over[i], lp.Pos, "the loop is over %s", s)
		if i == len(over)-1 {
			reach = e.bdd.And(reach, x.typeIs(pointMetric+".Data", "*v1.Metric_"+k))
		}
		d := e.bdd.And(reach, e.bdd.Not(lp.Entry))
		d = e.bdd.And(d, x.entered(lp, f, s))
		c.ob(k+"/loop/"+over[i], rule, isNever(e, d), lp.Pos, "%s are left out when %s", s, trunc(e.CondStr(d), 300))
		reach = e.bdd.And(reach, lp.Entry)
	}
	d := e.bdd.And(reach, e.bdd.Not(f.Cond))
	for _, g := range e.effects {
		if g.Kind == "call" && g.Callee == seqNext && g.Seq < f.Seq {
			d = e.bdd.And(d, e.isNil(e.extract(g.Res, 1))) // the process ends otherwise
		}
	}
	c.ob(k+"/appended", rule, isNever(e, d), f.Pos, "a data point is not appended when %s", trunc(e.CondStr(d), 300))
}

type setMember struct {
	t    *Term
	c    B
	loop *Loop
}

// members are what was added to a set since it was empty.
func (e *Engine) members(t *Term, c B, lp *Loop, in []*Loop, out *[]setMember) string {
	switch t.Op {
	case ONil, OZero:
		return ""
	case OSet:
		for _, x := range t.Args[1:] {
			*out = append(*out, setMember{x, c, lp})
		}
		return e.members(t.Args[0], c, lp, in, out)
	case OUnion:
		for _, x := range t.Args {
			if why := e.members(x, c, lp, in, out); why != "" {
				return why
			}
		}
		return ""
	case OChoice:
		for _, a := range e.alts(t, c) {
			if why := e.members(a.T, a.C, lp, in, out); why != "" {
				return why
			}
		}
		return ""
	case OLV:
		if t.LV == nil {
			break
		}
		for _, l := range in {
			if t.LV.Loop == l {
				return "it keeps what the last iteration over " + e.loopStr(l) + " added"
			}
		}
		if lp != nil {
			return "it is changed in nested loops"
		}
		if why := e.members(t.LV.Init, c, nil, in, out); why != "" {
			return why
		}
		for _, a := range e.alts(t.LV.Update, bT) {
			switch {
			case a.T == t:
			case a.T.Op == OSet && a.T.Args[0] == t:
				for _, x := range a.T.Args[1:] {
					*out = append(*out, setMember{x, a.C, t.LV.Loop})
				}
			default:
				return "it is replaced in a loop by " + trunc(e.Str(a.T), 200)
			}
		}
		return ""
	}
	return "it holds " + trunc(e.Str(t), 200)
}

// columnText is the label whose column a member is.
func (x *conv) columnText(t *Term) string {
	if t.Op != OCall || !trName.MatchString(strings.SplitN(t.Aux, "@", 2)[0]) || len(t.Args) != 2 || !ownField.MatchString(x.show(t.Args[0])) {
		return x.show(t)
	}
	k := t.Args[1]
	parts := []*Term{k}
	if k.Op == OSeq {
		parts = k.Args
	}
	s := ""
	for _, p := range parts {
		if p.Op == OSpread {
			p = p.Args[0]
		}
		if isZeroVal(p) {
			continue
		}
		if q, ok := unquote(p.Aux); ok && p.Op == OConst {
			s += q
		} else {
			s += "{" + x.show(p) + "}"
		}
	}
	return s
}

func (c *Check) pointColumns(x *conv, k string, f *Effect, hash, id *Term, lists []string) {
	const rule = "a point is indexed by all of its attributes and its name"
	e := x.e
	width := c.constVal("github.com/gernest/roaring/shardwidth", "ShardWidth")
	const str = ".Value.Value.(*v1.AnyValue_StringValue).StringValue"
	// the id is new
	fresh := false
	for _, g := range e.effects {
		if g.Kind == "call" && g.Callee == seqNext && g.Res != nil && sameLoops(g.Loops, f.Loops) && strings.HasPrefix(x.show(g.Args[0]), "m.") {
			all := true
			for _, a := range x.arms(id, f.Cond) {
				all = all && a.T == e.extract(g.Res, 0)
			}
			fresh = fresh || all
		}
	}
	c.ob(k+".Id", "every point has an id of its own", fresh, f.Pos, "the id is %s", trunc(x.show(id), 200))
	var sets []*Term
	for _, a := range x.arms(hash, f.Cond) {
		ok := a.T.Op == OHash && a.T.Args[0].Op == OCall && a.T.Args[0].Aux == "bytes of bitmap"
		if c.ob(k+".Hash", "the hash of a point is that of its columns", ok, f.Pos, "the hash is %s", trunc(x.show(a.T), 200)) {
			sets = append(sets, a.T.Args[0].Args[0])
		}
	}
	for _, set := range sets {
		var ms []setMember
		if why := e.members(set, f.Cond, nil, f.Loops, &ms); !c.ob(k+"/columns", rule, why == "", f.Pos, "the set of columns: %s", why) {
			continue
		}
		want := map[string]int{"__name__={" + pointMetric + ".Name}": -1}
		for i, l := range lists {
			want["{"+l+"[*].Key}={"+l+"[*]"+str+"}"] = i
		}
		for _, m := range ms {
			c.Counts["columns"]++
			s := x.columnText(m.t)
			i, ok := want[s]
			if !c.ob(k+"/columns/"+s, rule, ok, f.Pos, "%s is indexed by %s", k, s) {
				continue
			}
			delete(want, s)
			if i < 0 {
				d := e.bdd.And(f.Cond, e.bdd.Not(m.c))
				c.ob(k+"/columns/"+s, rule, m.loop == nil && isNever(e, d), f.Pos, "the column is only added when %s", trunc(e.CondStr(m.c), 200))
				continue
			}
			if !c.ob(k+"/columns/"+s, rule, m.loop != nil && x.show(m.loop.Over) == "seq(nil, "+lists[i]+"...)" || m.loop != nil && x.show(m.loop.Over) == lists[i], f.Pos, "the loop is not over %s", lists[i]) {
				continue
			}
			why := e.allOf([]*Loop{m.loop})
			c.ob(k+"/columns/"+s, rule, why == "", m.loop.Pos, "%s", why)
			d := e.bdd.And(e.bdd.And(m.loop.Entry, x.typeIs(lists[i]+"[*].Value.Value", "*v1.AnyValue_StringValue")), e.bdd.Not(m.c))
			c.ob(k+"/columns/"+s, rule, isNever(e, d), m.loop.Pos, "an attribute is not indexed when %s", trunc(e.CondStr(d), 300))
		}
		for _, s := range sortedKeys(want) {
			c.ob(k+"/columns/"+s, rule, false, f.Pos, "%s is not indexed by %s", k, s)
		}
		// one bit for each column
		n := 0
		for _, g := range e.effects {
			if g.Kind != "setadd" || !ownField.MatchString(strings.TrimLeft(x.show(g.Args[0]), "&*(")) || len(g.Loops) != len(f.Loops)+1 || !sameLoops(g.Loops[:len(f.Loops)], f.Loops) {
				continue
			}
			n++
			row, col := rowColumn(e, g.Args[1], width)
			okRow := row != nil
			if okRow {
				for _, a := range x.arms(id, f.Cond) {
					okRow = okRow && a.T == row
				}
			}
			lp := g.Loops[len(f.Loops)]
			c.ob(k+"/bit", rule, okRow && col.Op == OElem && col.Args[0] == set, g.Pos, "the position is %s", trunc(x.show(g.Args[1]), 300))
			why := e.allOf([]*Loop{lp})
			d := e.bdd.And(f.Cond, e.bdd.Not(lp.Entry))
			d = e.bdd.And(d, x.entered(lp, g, x.show(lp.Over)))
			miss := e.bdd.And(lp.Entry, e.bdd.Not(g.Cond))
			c.ob(k+"/bit/all", rule, why == "" && isNever(e, d) && isNever(e, miss), g.Pos, "no bit is set for columns when %s %s %s", trunc(e.CondStr(d), 200), trunc(e.CondStr(miss), 200), why)
		}
		c.ob(k+"/bits", rule, n == 1, f.Pos, "positions are set at %d places", n)
	}
	c.ob(k+"/sets", rule, len(sets) > 0, f.Pos, "there is no set of columns")
}

// pointNames: the number of a label is that of the dictionary.
func (c *Check) pointNames() {
	const rule = "the column of a label is the number of the label"
	e := c.engine()
	e.Opaque = func(f *ssa.Function) bool { return strings.HasSuffix(fnName(f), "translate.Translate).TranslateKey") }
	fn := c.oneFn("the translation of labels to columns", func(f *ssa.Function) bool { return trName.MatchString(fnName(f)) })
	r := c.run(e, fn, "b", "key")
	var id *Term
	for _, f := range e.effects {
		if f.Kind == "call" && strings.HasSuffix(f.Callee, "translate.Translate).TranslateKey") {
			if c.ob("label/translated", rule, e.path(f.Args[1]) == "key", f.Pos, "%s is translated", e.path(f.Args[1])) {
				id = e.extract(f.Res, 0)
			}
		}
	}
	var cached *Term
	for _, f := range e.effects {
		switch {
		case f.Kind == "call" && strings.HasSuffix(f.Callee, "ristretto.Cache).Get"):
			if c.ob("label/looked up", rule, stripIface(f.Args[1]) == r.Args[1], f.Pos, "%s is looked up", trunc(e.Str(f.Args[1]), 100)) {
				cached = e.extract(f.Res, 0)
			}
		case f.Kind == "call" && strings.HasSuffix(f.Callee, "ristretto.Cache).Set"):
			c.Counts["cached labels"]++
			c.ob("label/cached", rule, stripIface(f.Args[1]) == r.Args[1] && stripIface(f.Args[2]) == id, f.Pos, "%s is cached for %s", trunc(e.Str(f.Args[2]), 100), trunc(e.Str(f.Args[1]), 100))
		}
	}
	for _, a := range e.alts(r.Val, bT) {
		if isNever(e, a.C) {
			continue
		}
		t := a.T
		if t.Op == OAssert || t.Op == OConv {
			t = t.Args[0]
		}
		c.ob("label/number", rule, id != nil && (t == id || cached != nil && t == cached), fn.Pos(), "the number is %s", trunc(e.Str(a.T), 200))
	}
	c.Min["cached labels"] = 1
}
