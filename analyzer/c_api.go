package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "each method of the query builder is analysed for every input: the only part of the request it writes is the one it names, and the value is the one given (constants, filters appended with property, key and value, times built from milliseconds, relative ranges from the evaluation time)", c27)
	register("C28", "the calls made for a query are computed symbolically: the scan function gets the request, trimming gets the filters and the time bounds of the same request at the clock of the runtime before it visits the data that was scanned, data is returned whole only without range and filters, and errors are returned", c28)
	register("C36", "the sample added to the buffer by each export is computed symbolically: its kind and its resources are those of the request, its id is new, and success implies that it was added", c36)
}

// at follows a path of fields from a pointer, through interfaces and pointers.
func (e *Engine) at(st *State, p *Term, fields ...string) *Term {
	for _, f := range fields {
		p = e.dist1(p, func(p *Term) *Term {
			if p.Op == OIface {
				p = p.Args[0]
			}
			if p.Op == ONil || p.Op == OZero {
				return e.mk(ONil, "")
			}
			return e.load(st, e.addr(p, "."+f), nil)
		})
	}
	return p
}

// dynType is the dynamic type of an interface value made by the analysed code.
func dynType(t *Term) string {
	if t.Op == OIface && t.Typ != nil {
		s := t.Typ.String()
		return s[strings.LastIndexAny(s, "./")+1:]
	}
	return ""
}

// writes lists what of objects that exist outside of the function was changed.
func (e *Engine) writes(st *State) map[cellKey]*Term {
	out := map[cellKey]*Term{}
	for k, v := range st.cells {
		if isFresh(k.root) || strings.HasPrefix(k.path, "#live") || k.root.Op == OGlobal {
			continue
		}
		if strings.Contains(k.path, "#") && !strings.HasPrefix(k.path, "#content") {
			// positions of a list
		}
		if v == e.initial(k.root, k.path) {
			continue
		}
		out[k] = v
	}
	return out
}

// successOf is the condition under which an error result is nil.
func (e *Engine) successOf(errT *Term) B {
	ok := bF
	for _, a := range e.alts(errT, bT) {
		if a.T.Op == ONil {
			ok = e.bdd.Or(ok, a.C)
		} else {
			ok = e.bdd.Or(ok, e.bdd.And(a.C, e.Cond(e.eq(e.mk(ONil, ""), a.T, errorType))))
		}
	}
	return ok
}

func opaquePkg(parts ...string) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		if f.Pkg == nil {
			return false
		}
		for _, p := range parts {
			if strings.Contains(f.Pkg.Pkg.Path(), p) {
				return true
			}
		}
		return false
	}
}

// newOf is the argument of timestamppb.New or durationpb.New.
func newOf(t *Term) *Term {
	if t.Op == OCall && (strings.HasPrefix(t.Aux, "google.golang.org/protobuf/types/known/timestamppb.New") || strings.HasPrefix(t.Aux, "google.golang.org/protobuf/types/known/durationpb.New")) && len(t.Args) == 1 {
		return t.Args[0]
	}
	return nil
}

func stripUTC(t *Term) *Term {
	for t.Op == OCall && strings.HasSuffix(t.Aux, "(time.Time).UTC") {
		t = t.Args[0]
	}
	return t
}

const scanBuilder = "internal/js.(*Scan)."

func c27(c *Check) {
	// the request and the runtime of a builder
	scanT := c.fn(scanBuilder + "Scan").Signature.Recv().Type()
	scanF := c.fieldOf(scanT, "the request", c.pointerTo(v1Pkg+".Scan"))
	runF := c.fieldOf(scanT, "the runtime", c.pointerTo("internal/js.JS"))
	clock := func(e *Engine, s *Term, t *Term, cond B) string {
		noNow := e.Cond(e.eq(e.mk(ONil, ""), e.at(newState(), s, scanF, "Now"), nil))
		noClock := e.Cond(e.eq(e.mk(ONil, ""), e.at(newState(), s, runF, "Now"), nil))
		t = stripUTC(t)
		p := e.path(t)
		switch {
		case strings.HasSuffix(p, "AsTime(s."+scanF+".Now)"):
			if !e.absurd(e.bdd.And(cond, noNow)) {
				return "the time of the request is used when it has none"
			}
		case t.Op == OCall && len(t.Args) == 1 && t.Args[0] == e.at(newState(), s, runF, "Now"):
			if !e.absurd(e.bdd.And(cond, e.bdd.Not(noNow))) {
				return "the clock is used although the request has a time"
			}
		case t.Op == OCall && strings.HasPrefix(t.Aux, "time.Now"):
			if !e.absurd(e.bdd.And(cond, e.bdd.Not(noNow))) || !e.absurd(e.bdd.And(cond, e.bdd.Not(noClock))) {
				return "the time of day is used although there is an evaluation time"
			}
		default:
			return p + " is not the evaluation time"
		}
		return ""
	}
	type ctx struct {
		e   *Engine
		r   *Result
		s   *Term // receiver
		obj *Term // the request
		ok  B     // the call succeeds
		m   string
	}
	// method runs m and checks that it writes nothing but field
	method := func(m, field string, names ...string) *ctx {
		e := c.engine()
		e.Opaque = opaquePkg("jinzhu/now")
		r := c.run(e, c.fn(scanBuilder+m), append([]string{"s"}, names...)...)
		x := &ctx{e: e, r: r, s: r.Args[0], m: m, ok: bT}
		x.obj = e.at(newState(), x.s, scanF)
		if r.Val != nil && r.Val.Op != OTuple && (r.Val.Op == OChoice || isErr(r.Val) || r.Val.Op == ONil) && m != "Scan" && m != "Create" {
			x.ok = e.successOf(r.Val)
		}
		for k, v := range e.writes(r.St) {
			ok := k.root == x.obj && (k.path == "."+field || strings.HasPrefix(k.path, "."+field+"."))
			c.ob("only/"+m+"/"+e.path(k.root)+k.path, "a call changes nothing but what it names", ok, r.Fn.Pos(), "%s changes %s%s to %s", m, e.path(k.root), k.path, e.Str(v))
		}
		c.Counts["builder methods"]++
		return x
	}
	final := func(x *ctx, field string) []Arm {
		return x.e.alts(x.e.at(x.r.St, x.obj, field), x.ok)
	}
	must := func(x *ctx, field string, f func(a Arm) string) {
		for _, a := range final(x, field) {
			if x.e.absurd(a.C) {
				continue
			}
			why := f(a)
			c.ob("value/"+x.m+"/"+field, "a call sets what it names to the given value", why == "", x.r.Fn.Pos(), "%s: %s when %s", field, why, x.e.CondStr(a.C))
		}
	}
	// kinds
	for _, m := range []string{"Resource", "Create"} {
		x := method(m, "Scope", "resource")
		e := x.e
		obj := x.obj
		if m == "Create" {
			n := e.at(x.r.St, x.r.Val, scanF)
			c.ob("create/new", "a created request is a new one", n.Op == OAlloc && x.r.Val.Op == OAlloc, x.r.Fn.Pos(), "Create returns %s with request %s", e.Str(x.r.Val), e.Str(n))
			c.ob("create/clock", "a created request uses the clock of the runtime", e.at(x.r.St, x.r.Val, runF) == e.at(newState(), x.s, runF), x.r.Fn.Pos(), "the runtime is %s", e.Str(e.at(x.r.St, x.r.Val, runF)))
			obj = n
			for k, v := range x.r.St.cells {
				if k.root == n && k.path != ".Scope" && !strings.HasPrefix(k.path, "#") {
					c.ob("create/only"+k.path, "a created request asks for nothing but its kind", v.Op == OZero || v.Op == ONil, x.r.Fn.Pos(), "%s is %s", k.path, e.Str(v))
				}
			}
		}
		v := e.at(x.r.St, obj, "Scope")
		for _, k := range []string{"metrics", "traces", "logs"} {
			g := e.Cond(e.eq(e.mk(OConst, "\""+k+"\""), x.r.Args[1], x.r.Args[1].Typ))
			w := e.view(g)
			t := w.term(v)
			want := c.constVal(v1Pkg, "Scan_"+strings.ToUpper(k))
			for _, a := range e.alts(t, e.bdd.And(w.cond(bT), g)) {
				c.ob("value/"+m+"/"+k, "the kind is the one that was named", e.absurd(a.C) || a.T.Op == OConst && a.T.Aux == want, x.r.Fn.Pos(), "kind %s is set to %s when %s", k, e.Str(a.T), e.CondStr(a.C))
			}
		}
	}
	x := method("Scan", "")
	c.ob("value/Scan", "the request that was built is returned", x.r.Val == x.obj, x.r.Fn.Pos(), "%s is returned", x.e.Str(x.r.Val))
	x = method("Limit", "Limit", "limit")
	must(x, "Limit", func(a Arm) string {
		if x.e.stripConv(a.T) == x.r.Args[1] {
			return ""
		}
		return x.e.Str(a.T)
	})
	x = method("Reverse", "Reverse")
	must(x, "Reverse", func(a Arm) string {
		if a.T.Op == OConst && a.T.Aux == "true" || a.T.Op == OBool && x.e.implies(a.C, a.T.B) {
			return ""
		}
		return x.e.Str(a.T)
	})
	x = method("Now", "Now", "ms")
	must(x, "Now", func(a Arm) string { return isMilli(x.e, a.T, x.r.Args[1]) })
	x = method("Offset", "Offset", "duration")
	must(x, "Offset", func(a Arm) string {
		d := newOf(a.T)
		if d != nil && d.Op == OExtract && d.Aux == "0" && d.Args[0].Op == OCall && strings.HasPrefix(d.Args[0].Aux, "time.ParseDuration") && d.Args[0].Args[0] == x.r.Args[1] {
			return ""
		}
		return x.e.Str(a.T)
	})
	parseErr := func(x *ctx) {
		// an invalid duration is an error
		e := x.e
		for _, f := range e.effects {
			if f.Kind == "call" && strings.HasPrefix(f.Callee, "time.ParseDuration") {
				bad := e.bdd.And(f.Cond, e.bdd.Not(e.Cond(e.eq(e.mk(ONil, ""), e.extract(f.Res, 1), errorType))))
				c.ob("error/"+x.m, "a value that can not be parsed is an error", e.absurd(e.bdd.And(bad, x.ok)), f.Pos, "%s succeeds although the duration is invalid", x.m)
				c.Counts["parsed durations"]++
			}
		}
	}
	parseErr(x)
	// filters
	filter := func(m, typ, prop string, fields map[string]string) {
		var names []string
		if typ == "Attr" {
			names = []string{"key", "value"}
		} else {
			names = []string{"value"}
		}
		x := method(m, "Filters", names...)
		e := x.e
		must(x, "Filters", func(a Arm) string {
			if a.T.Op != OSeq || a.T.Args[0] != e.at(newState(), x.obj, "Filters") || len(a.T.Args) != 2 || a.T.Args[1].Op != OItem {
				return "filters are " + e.Str(a.T)
			}
			it := a.T.Args[1].Args[0]
			v := e.at(x.r.St, it, "Value")
			if dynType(v) != "Scan_Filter_"+typ {
				return "the filter is of type " + dynType(v)
			}
			in := e.at(x.r.St, v, typ)
			if p := e.at(x.r.St, in, "Prop"); p.Op != OConst || p.Aux != prop {
				return "the property is " + e.Str(p)
			}
			for f, n := range fields {
				if t := e.at(x.r.St, in, f); e.path(t) != n {
					return f + " is " + e.Str(t)
				}
			}
			c.Counts["filter methods"]++
			return ""
		})
	}
	for m, p := range map[string]string{
		"ResourceSchema": "RESOURCE_SCHEMA", "ScopeSchema": "SCOPE_SCHEMA", "ScopeName": "SCOPE_NAME", "ScopeVersion": "SCOPE_VERSION", "Name": "NAME",
		"TraceID": "TRACE_ID", "SpanID": "SPAN_ID", "ParentSpanID": "PARENT_SPAN_ID", "LogLevel": "LOGS_LEVEL",
	} {
		filter(m, "Base", c.constVal(v1Pkg, "Scan_"+p), map[string]string{"Value": "value"})
	}
	for m, p := range map[string]string{"ResourceAttr": "RESOURCE_ATTRIBUTES", "ScopeAttr": "SCOPE_ATTRIBUTES", "Attr": "ATTRIBUTES"} {
		filter(m, "Attr", c.constVal(v1Pkg, "Scan_"+p), map[string]string{"Key": "key", "Value": "value"})
	}
	// ranges
	rangeOf := func(x *ctx, start, end func(t *Term, c B) string) {
		e := x.e
		for i, f := range []string{"Start", "End"} {
			for _, a := range e.alts(e.at(x.r.St, x.obj, "TimeRange", f), x.ok) {
				if e.absurd(a.C) {
					continue
				}
				why := "it is " + e.Str(a.T)
				if d := newOf(a.T); d != nil {
					why = ""
					for _, b := range e.alts(d, a.C) {
						var w string
						if i == 0 {
							w = start(b.T, b.C)
						} else {
							w = end(b.T, b.C)
						}
						if w != "" {
							why = w
						}
					}
				}
				c.ob("range/"+x.m+"/"+f, "a range has the bounds it names", why == "", x.r.Fn.Pos(), "%s of the range: %s when %s", f, why, e.CondStr(a.C))
				c.Counts["range bounds"]++
			}
		}
	}
	x = method("TimeRange", "TimeRange", "from", "to")
	rangeOf(x, func(t *Term, _ B) string { return milli(x.e, t, x.r.Args[1]) }, func(t *Term, _ B) string { return milli(x.e, t, x.r.Args[2]) })
	for m, b := range map[string]string{"Today": "BeginningOfDay", "ThisWeek": "BeginningOfWeek", "ThisMonth": "BeginningOfMonth", "ThisYear": "BeginningOfYear"} {
		x := method(m, "TimeRange")
		e := x.e
		rangeOf(x, func(t *Term, cond B) string {
			t = stripUTC(t)
			if t.Op != OCall || !strings.Contains(t.Aux, "jinzhu/now.Now)."+b+"@") && !strings.HasSuffix(t.Aux, "jinzhu/now.Now)."+b) {
				return "it is " + e.path(t)
			}
			for _, w := range e.alts(t.Args[0], cond) {
				if w.T.Op == OCall && (strings.Contains(w.T.Aux, "jinzhu/now.With@") || strings.Contains(w.T.Aux, "jinzhu/now.New@")) {
					for _, a := range e.alts(w.T.Args[0], w.C) {
						if why := clock(e, x.s, a.T, a.C); why != "" {
							return why
						}
					}
				} else {
					return "it is computed from " + e.path(w.T)
				}
			}
			return ""
		}, func(t *Term, cond B) string { return clock(e, x.s, t, cond) })
	}
	x = method("Ago", "TimeRange", "duration")
	rangeOf(x, func(t *Term, cond B) string {
		e := x.e
		var base []Arm
		for _, f := range e.timeForms(t, cond) {
			if len(f.sum) != 1 {
				return "it is " + f.String()
			}
			for k, n := range f.sum {
				if n != -1 || !strings.Contains(k, "ParseDuration(duration)#0") {
					return "it is " + f.String()
				}
			}
			base = append(base, Arm{f.c, f.term})
		}
		for _, b := range base {
			if why := clock(e, x.s, b.T, b.C); why != "" {
				return why
			}
		}
		return ""
	}, func(t *Term, cond B) string { return clock(x.e, x.s, t, cond) })
	parseErr(x)
	c.count("builder methods", 0, 24)
	c.count("filter methods", 0, 12)
	c.count("range bounds", 0, 12)
	c.count("parsed durations", 0, 2)
}

func milli(e *Engine, t, ms *Term) string {
	t = stripUTC(t)
	if t.Op == OCall && t.Aux == "time.UnixMilli" && e.stripConv(t.Args[0]) == ms {
		return ""
	}
	if t.Op == OCall && t.Aux == "time.Unix" && len(t.Args) == 2 {
		s, n := e.stripConv(t.Args[0]), e.stripConv(t.Args[1])
		times := func(t *Term, f func(x *Term) bool, k int64) bool {
			if t.Op != OBin || t.Aux != "*" {
				return false
			}
			for i := range t.Args {
				if n, ok := constInt(t.Args[i]); ok && n == k && f(e.stripConv(t.Args[1-i])) {
					return true
				}
			}
			return false
		}
		op := func(o string) func(t *Term) bool {
			return func(t *Term) bool {
				if t.Op != OBin || t.Aux != o {
					return false
				}
				k, ok := constInt(t.Args[1])
				return ok && k == 1000 && e.stripConv(t.Args[0]) == ms
			}
		}
		if k, ok := constInt(s); ok && k == 0 && times(n, func(x *Term) bool { return x == ms }, 1000000) {
			return ""
		}
		if op("/")(s) && times(n, op("%"), 1000000) {
			return ""
		}
	}
	return "it is " + e.path(t)
}

func isMilli(e *Engine, t, ms *Term) string {
	if d := newOf(t); d != nil {
		return milli(e, d, ms)
	}
	return "it is " + e.path(t)
}

func c28(c *Check) {
	e := c.engine()
	var sets, comps, visits []*snap
	c.snapshot(e, &sets, "internal/visit.(*All).SetTimeRange")
	c.snapshot(e, &comps, "internal/visit.(*All).Compile")
	c.snapshot(e, &visits, "internal/visit.(*All).Visit")
	r := c.run(e, c.fn("internal/js.(*JS).Scan"), "r", "scan")
	pos := r.Fn.Pos()
	scan := r.Args[1]
	noRange := nilField(e, scan, "TimeRange")
	noFilters := e.Cond(e.isEmpty(e.mustField(scan, "Filters")))
	scanFn := e.at(newState(), r.Args[0], "ScanFn")
	noFn := e.Cond(e.eq(e.mk(ONil, ""), scanFn, nil))
	var scanned []*Effect
	for _, f := range e.effects {
		if f.Kind == "call" && len(f.Args) > 0 && f.Args[0] == scanFn {
			scanned = append(scanned, f)
			c.ob("request", "the request of the script is scanned", len(f.Args) == 2 && f.Args[1] == scan, f.Pos, "%s is scanned", e.path(f.Args[len(f.Args)-1]))
			c.Counts["scans"]++
		}
	}
	if !c.ob("scanned", "a query is scanned once", len(scanned) == 1, pos, "%d scans", len(scanned)) {
		return
	}
	data := e.extract(scanned[0].Res, 0)
	scanErr := e.extract(scanned[0].Res, 1)
	val, errT := e.extract(r.Val, 0), e.extract(r.Val, 1)
	ok := e.successOf(errT)
	failed := e.bdd.And(scanned[0].Cond, e.bdd.Not(e.Cond(e.eq(e.mk(ONil, ""), scanErr, errorType))))
	c.ob("errors", "errors of the scan reach the script", e.absurd(e.bdd.And(ok, failed)), scanned[0].Pos, "no error is returned when %s", e.CondStr(e.bdd.And(ok, failed)))
	m := e.missing(e.bdd.And(e.bdd.Not(ok), e.bdd.Not(noFn)), bF)
	c.ob("success", "a query succeeds when its scan does", m == bF, pos, "an error is returned when %s", e.CondStr(m))
	for _, a := range e.alts(val, ok) {
		if e.absurd(a.C) {
			continue
		}
		c.Counts["results"]++
		if a.T == data {
			m := e.missing(a.C, e.bdd.And(noRange, noFilters))
			c.ob("whole", "data is returned whole only without range and filters", m == bF, pos, "data is not trimmed when %s", e.CondStr(m))
			continue
		}
		var v *snap
		for _, s := range visits {
			if s.res == a.T {
				v = s
			}
		}
		if !c.ob("result", "the result is the scanned data, trimmed", v != nil, pos, "%s is returned when %s", e.path(a.T), e.CondStr(a.C)) {
			continue
		}
		c.ob("visited", "the data that was scanned is trimmed", v.args[1] == data, v.in.Pos(), "%s is trimmed", e.path(v.args[1]))
		all := e.rootOf(v.args[0])
		filters := bF
		for _, s := range comps {
			if e.rootOf(s.args[0]) != all {
				continue
			}
			f := s.args[1]
			c.ob("filters", "the filters of the request trim its result", e.wholeList(f, e.mustField(scan, "Filters")), s.in.Pos(), "filters %s are compiled", e.path(f))
			if s.fx < v.fx {
				filters = e.bdd.Or(filters, s.cond)
			}
		}
		m := e.missing(e.bdd.And(a.C, e.bdd.Not(noFilters)), filters)
		c.ob("filtered", "the filters of the request trim its result", m == bF, v.in.Pos(), "data is trimmed without the filters when %s", e.CondStr(m))
		bounded := bF
		for _, s := range sets {
			if e.rootOf(s.args[0]) != all {
				continue
			}
			if s.fx < v.fx {
				bounded = e.bdd.Or(bounded, s.cond)
			}
			nano := func(t *Term) *Term {
				return e.dist1(t, func(t *Term) *Term {
					t = e.stripConv(t)
					if t.Op == OCall && strings.HasSuffix(t.Aux, "(time.Time).UnixNano") {
						return t.Args[0]
					}
					return t
				})
			}
			boundForms(c, e, "trim", s.in.Pos(), scan, nano(s.args[1]), nano(s.args[2]), s.cond, func(t *Term, cond B) string {
				noClock := e.Cond(e.eq(e.mk(ONil, ""), e.at(newState(), r.Args[0], "Now"), nil))
				t = stripUTC(t)
				if t.Op == OCall && len(t.Args) == 1 && t.Args[0] == e.at(newState(), r.Args[0], "Now") {
					return ""
				}
				if t.Op == OCall && strings.HasPrefix(t.Aux, "time.Now") {
					if m := e.bdd.And(cond, e.bdd.Not(noClock)); !e.absurd(m) {
						return "the time of day is used although the runtime has a clock"
					}
					return ""
				}
				return e.path(t) + " is not the clock of the runtime"
			})
		}
		m = e.missing(a.C, bounded)
		c.ob("bounded", "the time bounds of the request trim its result", m == bF, v.in.Pos(), "data is trimmed without time bounds when %s", e.CondStr(m))
	}
	c.count("results", 0, 1)
	// the server scans the request it gets
	e = c.engine()
	var scans []*snap
	c.snapshot(e, &scans, "internal/store.(*Storage).Scan")
	r = c.run(e, c.fn("internal/service.(*Service).ScanSamples"), "s", "ctx", "req")
	okv := e.successOf(e.extract(r.Val, 1))
	found := false
	for _, s := range scans {
		found = true
		c.ob("server/request", "the server scans the request it gets", s.args[2] == r.Args[2], s.in.Pos(), "%s is scanned", e.path(s.args[2]))
		bad := e.bdd.And(s.cond, e.bdd.Not(e.Cond(e.eq(e.mk(ONil, ""), e.mk(OExtract, "1", s.res), errorType))))
		c.ob("server/errors", "errors of the scan reach the client", e.absurd(e.bdd.And(okv, bad)), s.in.Pos(), "an error is dropped when %s", e.CondStr(e.bdd.And(okv, bad)))
		for _, a := range e.alts(e.extract(r.Val, 0), okv) {
			c.ob("server/data", "the data that was scanned is returned", e.absurd(a.C) || a.T == e.mk(OExtract, "0", s.res), s.in.Pos(), "%s is returned when %s", e.path(a.T), e.CondStr(a.C))
		}
	}
	c.ob("server", "the server scans the request it gets", found, r.Fn.Pos(), "ScanSamples does not scan")
	c.scriptOutput()
}

// scriptOutput: what scripts print and render is written to the output of the
// command, and they scan the server.
func (c *Check) scriptOutput() {
	const rule = "what a script prints and renders is written to its output"
	for _, m := range []struct {
		name string
		args []string
	}{{"Print", []string{"args"}}, {"PrintLn", []string{"args"}}, {"RenderMetricsData", []string{"data", "opts"}}, {"RenderMetricsDataJSON", []string{"data", "opts"}}} {
		e := c.engine()
		e.Opaque = func(f *ssa.Function) bool {
			return f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/internal/render")
		}
		r := c.run(e, c.fn("internal/js.(*JS)."+m.name), append([]string{"o"}, m.args...)...)
		out := e.at(newState(), r.Args[0], "Output")
		written := bF
		for _, f := range e.effects {
			if f.Kind != "call" || len(f.Args) < 2 || e.stripIface(f.Args[0]) != out && f.Args[0] != out {
				continue
			}
			all := true
			for _, p := range r.Args[1:] {
				has := false
				for _, a := range f.Args[1:] {
					has = has || containsTerm(a, p)
				}
				all = all && has
			}
			if all {
				written = e.bdd.Or(written, f.Cond)
			}
		}
		ok := r.Cond
		if returnsErr(r.Fn) {
			ok = e.bdd.And(ok, e.successOf(r.Val))
		}
		d := e.missing(ok, written)
		c.ob("output/"+m.name, rule, d == bF, r.Fn.Pos(), "%s writes nothing to the output when %s", m.name, trunc(e.CondStr(d), 300))
		c.Counts["functions that write output"]++
	}
	// the command
	e := c.engine()
	fn := c.actionOf("internal/commands/query.Cmd")
	runs := 0
	var scan *Term
	var at *State
	e.Hook = map[string]model{"(*github.com/dop251/goja.Runtime).RunProgram": func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		runs++
		n := 0
		for k, v := range st.cells {
			if k.path != ".Output" && k.path != ".ScanFn" || k.root.Typ == nil || !strings.HasSuffix(k.root.Typ.String(), "internal/js.JS") {
				continue
			}
			if k.path == ".ScanFn" {
				scan, at = v, st.clone()
				continue
			}
			n++
			for _, a := range e.alts(v, e.cur) {
				c.ob("output/command", "scripts write to the standard output", strings.HasSuffix(e.path(e.stripIface(a.T)), "os.Stdout"), in.Pos(), "the output of scripts is %s", e.path(a.T))
			}
		}
		c.ob("output/set", "scripts write to the standard output", n == 1, in.Pos(), "the output of scripts is set for %d runtimes", n)
		return fr.outside(name, nil, in.(ssa.CallInstruction).Common().Signature(), args, in, st)
	}}
	c.run(e, fn)
	c.ob("output/run", "scripts write to the standard output", runs > 0, fn.Pos(), "no script is run")
	const ask = "scripts scan the server"
	if !c.ob("scan/set", ask, scan != nil && scan.Op == OClosure, fn.Pos(), "scripts have no scan function") {
		return
	}
	from := len(e.effects)
	req := e.mkT(scan.Fn.Params[0].Type(), OParam, "request")
	old := e.cur
	v, _ := e.evalFn(scan.Fn, []*Term{req}, scan.Args, at, &Ctx{id: e.ctxID(nil, nil, scan.Fn.String()), fn: scan.Fn})
	e.cur = old
	n := 0
	for _, f := range e.effects[from:] {
		if f.Kind != "call" || methodBase(f.Callee) != "ScanSamples" {
			continue
		}
		n++
		has := false
		for _, a := range f.Args {
			has = has || a == req
		}
		c.ob("scan/request", ask, has, f.Pos, "another request is sent than that of the script")
		if v != nil && v.Op == OTuple && f.Res.Op == OTuple {
			bad := e.bdd.And(e.bdd.And(e.isNil(v.Args[1]), e.bdd.Not(e.isNil(f.Res.Args[1]))), f.Cond)
			c.ob("scan/errors", "errors of the scan reach the script", isNever(e, bad), f.Pos, "an error of the server is dropped")
			for _, a := range e.alts(v.Args[0], e.bdd.And(f.Cond, e.isNil(v.Args[1]))) {
				c.ob("scan/data", ask, isNever(e, a.C) || a.T == f.Res.Args[0], f.Pos, "the script gets %s", e.path(a.T))
			}
		} else {
			c.ob("scan/errors", "errors of the scan reach the script", v == f.Res, f.Pos, "the script gets %s", e.Str(v))
		}
	}
	c.ob("scan", ask, n == 1, fn.Pos(), "the server is asked %d times", n)
}

func (e *Engine) stripIface(t *Term) *Term {
	if t.Op == OIface {
		return t.Args[0]
	}
	return t
}

// wholeList: t has the elements of list and nothing else.
func (e *Engine) wholeList(t, list *Term) bool {
	if t == list {
		return true
	}
	if t.Op == OSeq && len(t.Args) == 2 && (t.Args[0].Op == ONil || t.Args[0].Op == OMake) && t.Args[1].Op == OSpread {
		return t.Args[1].Args[0] == list
	}
	return false
}

func c36(c *Check) {
	for _, k := range []struct{ recv, kind, list string }{
		{"Metrics", "Metrics", "ResourceMetrics"}, {"Trace", "Traces", "ResourceSpans"}, {"Logs", "Logs", "ResourceLogs"},
	} {
		e := c.engine()
		var ids []*snap
		c.snapshot(e, &ids, "internal/seq.(*Seq).SampleID")
		r := c.run(e, c.fn("internal/service.(*"+k.recv+").Export"), "r", "ctx", "req")
		pos := r.Fn.Pos()
		ok := e.successOf(e.extract(r.Val, 1))
		st := r.St
		var buf *Term
		for k2 := range e.writes(st) {
			if k2.path == ".Items" && strings.HasPrefix(e.path(k2.root), "r.") {
				c.ob("buffer/"+k.kind, "an export is added to one buffer", buf == nil || buf == k2.root, pos, "%s is changed too", e.path(k2.root))
				buf = k2.root
			}
		}
		if !c.ob("buffer/"+k.kind, "an export is added to one buffer", buf != nil, pos, "nothing is added to a buffer") {
			continue
		}
		list := e.at(st, buf, "Items")
		old := e.at(newState(), buf, "Items")
		req := e.at(newState(), r.Args[2], k.list)
		for _, a := range e.alts(list, ok) {
			if e.absurd(a.C) {
				continue
			}
			c.Counts["exports"]++
			if !c.ob("added/"+k.kind, "an export is acknowledged only after its sample was added to the buffer", a.T.Op == OSeq && a.T.Args[0] == old && len(a.T.Args) == 2 && a.T.Args[1].Op == OItem, pos, "the buffer is %s when %s", e.Str(a.T), e.CondStr(a.C)) {
				continue
			}
			it := a.T.Args[1].Args[0]
			id := e.at(st, it, "Id")
			isNew := false
			for _, s := range ids {
				isNew = isNew || id == s.res
			}
			c.ob("id/"+k.kind, "a sample gets a new id", isNew, pos, "the id is %s", e.Str(id))
			d := e.at(st, it, "Data", "Data")
			c.ob("kind/"+k.kind, "a sample is of the kind that was exported", dynType(d) == "Data_"+k.kind, pos, "the data is %s %s", dynType(d), e.Str(d))
			rs := e.at(st, d, k.kind, k.list)
			c.ob("resources/"+k.kind, "a sample holds all resources of the request", e.wholeList(rs, req), pos, "the resources are %s", e.Str(rs))
			ts := e.at(st, it, "MinTs")
			c.ob("clean/"+k.kind, "a sample has no times before it was processed", ts.Op == OZero || ts.Op == OConst && ts.Aux == "0", pos, "the lower bound is %s", e.Str(ts))
		}
		for k2 := range e.writes(st) {
			if k2.root == buf && (k2.path == ".Items" || strings.HasPrefix(k2.path, ".Items[")) {
				continue
			}
			c.ob("only/"+k.kind+"/"+e.path(k2.root)+k2.path, "an export changes nothing but the buffer", !anyTerm(k2.root, func(t *Term) bool { return t == r.Args[2] }), pos, "%s%s is changed", e.path(k2.root), k2.path)
		}
	}
	c.count("exports", 0, 3)
	_ = token.NoPos
}
