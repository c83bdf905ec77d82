package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "the requests a scan makes are computed symbolically: the bounds handed to the search and to reading, the set of samples left after choosing the latest and applying the limit (compared with the first and last samples of the found set), the kind that is read, the order of the results, and the formulas of the time bounds; what is read is the set and the columns of the kind", c15)
}

// snap is one call made by the analysed code, with what its arguments held then.
type snap struct {
	name string
	args []*Term
	held []*Term // content of the arguments
	cond B
	res  *Term
	fx   int
	in   ssa.Instruction
}

// snapshot records calls of the functions with the given full names instead of
// analysing them. mutates lists arguments whose content changes.
func snapshot(e *Engine, sig *types.Signature, out *[]*snap, name string, mutates ...int) {
	e.Hook[name] = func(fr *frame, n string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		s := &snap{name: n, args: args, cond: e.cur, fx: len(e.effects), in: in}
		for _, a := range args {
			var h *Term
			if a.Typ != nil {
				if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
					if _, ok := p.Elem().Underlying().(*types.Struct); ok {
						h = e.content(st, e.addr(a, ".Bitmap"))
					}
				}
			}
			s.held = append(s.held, h)
		}
		res := e.mk(OCall, n+"@"+fr.siteKey(in), args...)
		s.res = res
		var r *Term
		switch k := sig.Results().Len(); k {
		case 0:
			r = e.mk(OTuple, "")
		case 1:
			r = e.typed(res, sig.Results().At(0).Type())
			s.res = r
		default:
			ts := make([]*Term, k)
			for i := range ts {
				ts[i] = e.typed(e.mk(OExtract, fmt.Sprint(i), res), sig.Results().At(i).Type())
			}
			r = e.mk(OTuple, "", ts...)
		}
		for _, i := range mutates {
			e.setContent(st, e.addr(args[i], ".Bitmap"), e.mk(OCall, "set by "+n, args...))
		}
		*out = append(*out, s)
		fr.emit("call", n, args, r, in)
		return r, st
	}
}

func (c *Check) snapshot(e *Engine, out *[]*snap, name string, mutates ...int) {
	f := c.fn(name)
	snapshot(e, f.Signature, out, fnName(f), mutates...)
}

// ---- time arithmetic

// timeSum writes a point in time or a duration as a base and a multiset of signed
// durations.
func (e *Engine) timeSum(t *Term, sign int, sum map[string]int, terms map[string]*Term) (base *Term) {
	add := func(k string, x *Term) {
		sum[k] += sign
		terms[k] = x
		if sum[k] == 0 {
			delete(sum, k)
		}
	}
	switch t.Op {
	case OCall:
		n := t.Aux
		if strings.HasSuffix(n, "(time.Time).Add") && len(t.Args) == 2 {
			e.timeSum(t.Args[1], sign, sum, terms)
			return e.timeSum(t.Args[0], sign, sum, terms)
		}
		if strings.HasSuffix(n, "(time.Time).UTC") && len(t.Args) == 1 {
			return e.timeSum(t.Args[0], sign, sum, terms)
		}
	case OUn:
		if t.Aux == "-" {
			return e.timeSum(t.Args[0], -sign, sum, terms)
		}
	case OBin:
		if t.Aux == "*" {
			for i := range t.Args {
				if n, ok := constInt(t.Args[i]); ok && n == -1 {
					return e.timeSum(t.Args[1-i], -sign, sum, terms)
				}
			}
		}
		if t.Aux == "+" || t.Aux == "-" {
			b := e.timeSum(t.Args[0], sign, sum, terms)
			s := sign
			if t.Aux == "-" {
				s = -s
			}
			e.timeSum(t.Args[1], s, sum, terms)
			return b
		}
	case OConst:
		var n int64
		if _, err := fmt.Sscan(t.Aux, &n); err == nil {
			sum["const"] += int(n) * sign
			if sum["const"] == 0 {
				delete(sum, "const")
			}
			return nil
		}
	}
	if t.Typ != nil && strings.HasSuffix(t.Typ.String(), "time.Time") {
		return t
	}
	add(e.path(t), t)
	return nil
}

type timeForm struct {
	c    B
	base string
	sum  map[string]int
	term *Term
}

// timeForms lists the values of t as base and durations; choices inside are
// distributed.
func (e *Engine) timeForms(t *Term, c B) []timeForm {
	var out []timeForm
	var expand func(t *Term, c B) []Arm
	expand = func(t *Term, c B) []Arm {
		if c == bF || e.absurd(c) {
			return nil
		}
		if t.Op == OChoice {
			var o []Arm
			for _, a := range t.Arms {
				o = append(o, expand(a.T, e.bdd.And(c, a.C))...)
			}
			return o
		}
		if len(t.Args) == 0 || t.Op == OField || t.Op == OParam {
			return []Arm{{c, t}}
		}
		switch t.Op {
		case OCall, OUn, OBin:
		default:
			return []Arm{{c, t}}
		}
		res := []Arm{{c, t}}
		for i := range t.Args {
			var n []Arm
			for _, r := range res {
				for _, x := range expand(r.T.Args[i], r.C) {
					as := append([]*Term(nil), r.T.Args...)
					as[i] = x.T
					n = append(n, Arm{x.C, e.mkT(t.Typ, t.Op, t.Aux, as...)})
				}
			}
			res = n
		}
		return res
	}
	for _, a := range expand(t, c) {
		sum := map[string]int{}
		b := e.timeSum(a.T, 1, sum, map[string]*Term{})
		s := "?"
		if b != nil {
			s = e.path(b)
		}
		out = append(out, timeForm{a.C, s, sum, b})
	}
	return out
}

func (f timeForm) String() string {
	var ks []string
	for k, n := range f.sum {
		ks = append(ks, fmt.Sprintf("%+d·%s", n, k))
	}
	sort.Strings(ks)
	return f.base + " " + strings.Join(ks, " ")
}

// nilField is the condition that field f of scan is nil.
func nilField(e *Engine, scan *Term, f string) B {
	return e.Cond(e.eq(e.mk(ONil, ""), e.mustField(scan, f), e.mustField(scan, f).Typ))
}

// mustField is the initial field f of the message m points to.
func (e *Engine) mustField(m *Term, f string) *Term {
	t := e.load(newState(), e.addr(m, "."+f), nil)
	return t
}

// boundsOf checks the formulas of time bounds.
func boundsOf(c *Check) {
	e := c.engine()
	r := c.run(e, c.fn("internal/x.TimeBounds"), "now", "scan")
	boundForms(c, e, "bounds", r.Fn.Pos(), r.Args[1], e.extract(r.Val, 0), e.extract(r.Val, 1), bT, func(t *Term, cond B) string {
		t = stripUTC(t)
		if t.Op == OCall && len(t.Args) == 1 && t.Args[0] == r.Args[0] {
			return ""
		}
		return e.path(t) + " is not the given clock"
	})
	c.count("time formulas", 0, 6)
}

// boundForms checks that start and end are the time bounds of scan.
func boundForms(c *Check, e *Engine, key string, pos token.Pos, scan, start, end *Term, cond B, clock func(t *Term, c B) string) {
	noRange := nilField(e, scan, "TimeRange")
	noNow := nilField(e, scan, "Now")
	noOff := nilField(e, scan, "Offset")
	sp := e.path(scan)
	isField := func(b, f string) bool {
		return strings.HasSuffix(b, "AsTime("+sp+"."+f+")")
	}
	for i, v := range []*Term{start, end} {
		what := []string{"start", "end"}[i]
		field := []string{"TimeRange.Start", "TimeRange.End"}[i]
		for _, f := range e.timeForms(v, e.bdd.And(cond, e.bdd.Not(noRange))) {
			c.Counts["time formulas"]++
			ok := isField(f.base, field) && len(f.sum) == 0
			c.ob(key+"/"+what+"/range", "with a time range the bounds are those of the range", ok, pos, "%s is %s when %s", what, f, e.CondStr(f.c))
		}
		for _, f := range e.timeForms(v, e.bdd.And(cond, noRange)) {
			c.Counts["time formulas"]++
			if isField(f.base, "Now") {
				m := e.bdd.And(f.c, noNow)
				c.ob(key+"/"+what+"/now", "the evaluation time of the request is used when it has one", e.absurd(m), pos, "the time of the request is used when it has none: %s", e.CondStr(m))
			} else {
				why := "it is relative to nothing"
				if f.term != nil {
					why = clock(f.term, f.c)
				}
				c.ob(key+"/"+what+"/base", "bounds are relative to the evaluation time", why == "", pos, "%s is %s: %s when %s", what, f, why, e.CondStr(f.c))
				m := e.bdd.And(f.c, e.bdd.Not(noNow))
				c.ob(key+"/"+what+"/now", "the evaluation time of the request is used when it has one", e.absurd(m), pos, "the clock is used although the request has a time: %s", e.CondStr(m))
			}
			off := false
			window := false
			for k, n := range f.sum {
				switch {
				case k == "const":
					window = n < 0
					c.ob(key+"/"+what+"/window", "without a time range the window ends at the evaluation time", i == 0 && n < 0, pos, "%s is %s when %s", what, f, e.CondStr(f.c))
				case strings.Contains(k, sp+".Offset") && n == -1:
					off = true
				default:
					c.ob(key+"/"+what+"/sum", "bounds are made of evaluation time, offset and window", false, pos, "%s is %s when %s", what, f, e.CondStr(f.c))
				}
			}
			if !off {
				m := e.bdd.And(f.c, e.bdd.Not(noOff))
				c.ob(key+"/"+what+"/offset", "the offset of the request moves both bounds back", e.absurd(m), pos, "%s is %s when %s", what, f, e.CondStr(m))
			}
			if i == 0 {
				c.ob(key+"/start/window", "without a time range the window has a length", window, pos, "%s is %s when %s", what, f, e.CondStr(f.c))
			}
		}
	}
}

func c15(c *Check) {
	boundsOf(c)
	scanRequests(c)
	kindsRead(c)
}

func scanRequests(c *Check) {
	e := c.engine()
	var bounds, compiled, rows, reads, zero, coll, rev []*snap
	c.snapshot(e, &bounds, "internal/x.TimeBounds")
	c.snapshot(e, &compiled, "internal/store.(*Storage).CompileFilters", 2)
	c.snapshot(e, &rows, "internal/shards.(*Shards).Rows")
	scopes := map[string]string{}
	for _, k := range []string{"Metrics", "Traces", "Logs"} {
		f := c.fn("internal/dataframe.(*DataFrame)." + k)
		scopes[fnName(f)] = c.constVal(v1Pkg, "Scan_"+strings.ToUpper(k))
		c.snapshot(e, &reads, "internal/dataframe.(*DataFrame)."+k)
	}
	c.snapshot(e, &zero, "internal/data.Zero")
	c.snapshot(e, &coll, "internal/data.Collapse")
	e.Hook["slices.Reverse"] = func(fr *frame, n string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		rev = append(rev, &snap{name: n, args: args, cond: e.cur, fx: len(e.effects), in: in})
		return e.mk(OTuple, ""), st
	}
	r := c.run(e, c.fn("internal/store.(*Storage).Scan"), "s", "ctx", "scan")
	scan := r.Args[2]
	pos := r.Fn.Pos()
	scope := e.mustField(scan, "Scope")
	isScope := func(v string) B { return e.Cond(e.eq(e.mk(OConst, v), scope, scope.Typ)) }
	instant := nilField(e, scan, "TimeRange")
	reverse := e.Cond(e.mustField(scan, "Reverse"))
	limit := e.mustField(scan, "Limit")
	if len(bounds) == 0 || len(compiled) == 0 || len(rows) == 0 || len(reads) < 3 {
		panic(analysisError{fmt.Sprintf("Scan: expected calls of TimeBounds, CompileFilters, Rows and of the readers, found %d, %d, %d, %d", len(bounds), len(compiled), len(rows), len(reads))})
	}
	// the same bounds of the same request
	isBound := func(t *Term, i int) bool {
		for _, b := range bounds {
			if b.args[1] == scan && t == e.mk(OExtract, fmt.Sprint(i), b.res) {
				return true
			}
		}
		return false
	}
	boundArgs := func(key string, s *snap, from int) {
		for i := 0; i < 2; i++ {
			for _, a := range e.alts(s.args[from+i], s.cond) {
				c.ob("bounds used/"+key+"/"+fmt.Sprint(i), "finding and reading use the time bounds of the request", isBound(a.T, i), s.in.Pos(), "%s is used as bound %d when %s", e.path(a.T), i, e.CondStr(a.C))
			}
		}
	}
	for _, s := range rows {
		boundArgs("find", s, 1)
		cols := s.args[3]
		ok := false
		for _, k := range compiled {
			ok = ok || e.rootOf(k.args[2]) == e.rootOf(cols) && k.args[1] == scan && s.held[3] != nil && s.held[3].Op == OCall && strings.HasPrefix(s.held[3].Aux, "set by ")
		}
		c.ob("columns", "the search gets the columns of the request's filters", ok, s.in.Pos(), "the search gets %s", e.path(cols))
	}
	if len(rows) != 1 {
		c.ob("search", "samples are searched once", false, pos, "%d searches", len(rows))
		return
	}
	found := rows[0]
	foundP := e.mk(OExtract, "0", found.res)
	s0 := e.content(newState(), e.addr(foundP, ".Bitmap"))
	noneFound := e.bdd.Or(e.Cond(e.isEmpty(s0)), e.Cond(e.eq(e.mk(ONil, ""), foundP, foundP.Typ)))
	var noColumns B = bF
	for _, k := range compiled {
		noColumns = e.bdd.Or(noColumns, e.Cond(e.isEmpty(e.mk(OCall, "set by "+k.name, k.args...))))
	}
	latest := e.mk(OCall, "last", s0)
	noLimit := e.Cond(e.eq(e.mk(OConst, "0"), limit, limit.Typ))
	for _, s := range reads {
		k := shortName(s.name)
		boundArgs(k, s, 2)
		m := e.missing(s.cond, isScope(scopes[s.name]))
		c.ob("kind/"+k, "what is read is of the kind the request asks for", m == bF, s.in.Pos(), "%s is called when %s", k, e.CondStr(m))
		root := e.rootOf(s.args[4])
		c.ob("samples/"+k, "the samples read are those that were found", root == foundP, s.in.Pos(), "%s is read", e.path(s.args[4]))
		if s.held[4] == nil {
			continue
		}
		var held []Arm
		for _, g := range []B{instant, e.bdd.Not(instant)} {
			w := e.view(g)
			for _, a := range e.alts(w.term(s.held[4]), w.cond(e.bdd.And(s.cond, g))) {
				held = append(held, a)
			}
		}
		for _, a := range held {
			c.Counts["sets of samples read"]++
			x, ops := a.T, []*Term(nil)
			for x.Op == OCall && strings.HasSuffix(x.Aux, ".RemoveRange") {
				ops = append(ops, x)
				x = x.Args[0]
			}
			one := x.Op == OSet && len(x.Args) == 2 && x.Args[1] == latest && (x.Args[0].Op == ONil || x.Args[0].Op == OZero)
			switch {
			case one:
				m := e.bdd.And(a.C, e.bdd.Not(instant))
				c.ob("instant/"+k, "all samples are read when there is a time range", e.absurd(m), s.in.Pos(), "only the last sample is read when %s", e.CondStr(m))
				m = e.bdd.And(a.C, noneFound)
				c.ob("instant empty/"+k, "there is a last sample when it is taken", e.absurd(m), s.in.Pos(), "the last of no samples is taken when %s", e.CondStr(m))
			case x == s0:
				m := e.bdd.And(a.C, instant)
				c.ob("instant/"+k, "only the latest matching sample is read without a time range", e.absurd(m), s.in.Pos(), "other samples are read when %s", e.CondStr(m))
			default:
				c.ob("set/"+k, "the samples read are the found ones, or the last one of them", false, s.in.Pos(), "%s is read when %s", e.Str(a.T), e.CondStr(a.C))
				continue
			}
			size := e.mk(OCard, "", x)
			within := e.bdd.Not(e.Cond(e.lt(limit, size)))
			if one {
				// one sample is within any limit but 0
				within = bT
			}
			switch len(ops) {
			case 0:
				m := e.bdd.And(a.C, e.bdd.Not(e.bdd.Or(noLimit, within)))
				m = e.missing(m, bF)
				c.ob("limit/"+k, "a limit is applied unless there are fewer samples", m == bF, s.in.Pos(), "no limit is applied when %s", e.CondStr(m))
			case 1:
				lo, hi := ops[0].Args[1], ops[0].Args[2]
				sel := func(t *Term) *Term {
					if t.Op == OExtract && t.Aux == "0" && t.Args[0].Op == OCall && t.Args[0].Aux == "select" && t.Args[0].Args[0] == x {
						return t.Args[0].Args[1]
					}
					return nil
				}
				past := func(t *Term) bool {
					if t.Op == OConst {
						return t.Aux == "18446744073709551615"
					}
					if t.Op == OBin && t.Aux == "+" {
						for i := range t.Args {
							if l := t.Args[i]; l.Op == OCall && l.Aux == "last" && l.Args[0] == x && t.Args[1-i].Op == OConst && t.Args[1-i].Aux >= "1" {
								return true
							}
						}
					}
					return false
				}
				zeroT := func(t *Term) bool { return t.Op == OConst && t.Aux == "0" || t.Op == OZero }
				rest := e.arith2("-", size, limit)
				switch {
				case sel(lo) == limit && past(hi):
					m := e.bdd.And(a.C, reverse)
					c.ob("limit first/"+k, "the last samples are kept in reverse", e.absurd(m), s.in.Pos(), "the first samples are kept when %s", e.CondStr(m))
					m = e.bdd.And(a.C, noLimit)
					c.ob("limit zero/"+k, "a limit of 0 is no limit", e.absurd(m), s.in.Pos(), "nothing is kept when %s", e.CondStr(m))
				case zeroT(lo) && sel(hi) != nil && sel(hi) == rest:
					m := e.bdd.And(a.C, e.bdd.Not(reverse))
					c.ob("limit last/"+k, "the first samples are kept unless in reverse", e.absurd(m), s.in.Pos(), "the last samples are kept when %s", e.CondStr(m))
				default:
					c.ob("limit range/"+k, "exactly the samples past the limit are removed", false, s.in.Pos(), "the range from %s to %s is removed when %s", e.path(lo), e.path(hi), e.CondStr(a.C))
				}
			default:
				c.ob("limit once/"+k, "exactly the samples past the limit are removed", false, s.in.Pos(), "several ranges are removed when %s", e.CondStr(a.C))
			}
		}
	}
	c.count("sets of samples read", 0, 9)
	// results
	val, errT := e.extract(r.Val, 0), e.extract(r.Val, 1)
	var noErr, failed B = bF, bF
	for _, a := range e.alts(errT, bT) {
		if a.T.Op == ONil {
			noErr = e.bdd.Or(noErr, a.C)
		} else {
			ok := e.Cond(e.eq(e.mk(ONil, ""), a.T, errorType))
			noErr = e.bdd.Or(noErr, e.bdd.And(a.C, ok))
			failed = e.bdd.Or(failed, e.bdd.And(a.C, e.bdd.Not(ok)))
		}
	}
	known := bF
	for _, v := range scopes {
		known = e.bdd.Or(known, isScope(v))
	}
	// errors only for kinds that do not exist
	m := e.bdd.And(failed, known)
	if m != bF {
		m = e.missing(m, bF)
	}
	c.ob("errors", "a scan of a known kind succeeds unless something it does fails", m == bF, pos, "an error is returned when %s", e.CondStr(m))
	for _, a := range e.alts(val, noErr) {
		if e.absurd(a.C) {
			continue
		}
		c.Counts["results"]++
		var z, k *snap
		for _, s := range zero {
			if a.T == s.res {
				z = s
			}
		}
		for _, s := range coll {
			if a.T == s.res {
				k = s
			}
		}
		switch {
		case z != nil:
			c.ob("empty/kind", "an empty result is of the kind asked for", e.stripConv(z.args[0]) == e.stripConv(scope), z.in.Pos(), "the empty result is %s", e.path(a.T))
			none := e.bdd.Or(noColumns, noneFound)
			for _, s := range reads {
				l := e.mk(OExtract, "0", s.res)
				none = e.bdd.Or(none, e.bdd.And(isScope(scopes[s.name]), e.Cond(e.isEmpty(l))))
			}
			none = e.bdd.Or(none, e.bdd.Not(known))
			m := e.missing(a.C, none)
			c.ob("empty", "the result is empty only when nothing matches", m == bF, z.in.Pos(), "an empty result is returned when %s", e.CondStr(m))
		case k != nil:
			for _, l := range e.alts(k.args[0], a.C) {
				src := (*snap)(nil)
				for _, s := range reads {
					if l.T == e.mk(OExtract, "0", s.res) {
						src = s
					}
				}
				if !c.ob("combined", "all data that was read is combined", src != nil, k.in.Pos(), "%s is combined when %s", e.path(l.T), e.CondStr(l.C)) {
					continue
				}
				m := e.missing(l.C, isScope(scopes[src.name]))
				c.ob("combined kind/"+shortName(src.name), "the data of the kind asked for is combined", m == bF, k.in.Pos(), "%s is combined when %s", e.path(l.T), e.CondStr(m))
				// order
				done := bF
				for _, v := range rev {
					for _, x := range e.alts(v.args[0], v.cond) {
						if x.T == l.T {
							if done != bF && e.bdd.And(done, x.C) != bF {
								c.ob("reversed once", "results are reversed once", false, v.in.Pos(), "results are reversed again when %s", e.CondStr(x.C))
							}
							if v.fx > k.fx {
								c.ob("reversed before", "samples are reversed before they are combined", false, v.in.Pos(), "samples are reversed after they were combined")
							}
							done = e.bdd.Or(done, x.C)
						}
					}
				}
				m = e.missing(e.bdd.And(l.C, reverse), done)
				c.ob("reverse", "results are in descending order when asked for", m == bF, k.in.Pos(), "the order is ascending when %s", e.CondStr(m))
				m = e.missing(e.bdd.And(l.C, done), reverse)
				c.ob("not reversed", "results are in ascending order unless asked otherwise", m == bF, k.in.Pos(), "the order is descending when %s", e.CondStr(m))
			}
		default:
			c.ob("result", "the result is the combined data, or empty", false, pos, "%s is returned when %s", e.path(a.T), e.CondStr(a.C))
		}
	}
	c.count("results", 0, 2)
}

// arith2 is the normal form of x op y.
func (e *Engine) arith2(op string, x, y *Term) *Term {
	switch op {
	case "-":
		return e.bin(token.SUB, x, y, x.Typ)
	}
	return nil
}

// kindsRead: reading a kind takes the set and the columns of that kind, over all
// records of the time range.
func kindsRead(c *Check) {
	colsF := c.fieldOf(c.fn("internal/dataframe.(*DataFrame).Metrics").Signature.Recv().Type(), "the columns", c.pointerTo("internal/dataframe.Columns"))
	colPath := map[string]string{}
	for _, k := range []string{"Metrics", "Traces", "Logs"} {
		e := c.engine()
		var search, reads []*snap
		c.snapshot(e, &search, "internal/view.Search")
		readFn := c.schemaMethod("Read")
		snapshot(e, readFn.Signature, &reads, fnName(readFn))
		r := c.run(e, c.fn("internal/dataframe.(*DataFrame)."+k), "df", "ctx", "start", "end", "samples")
		low := strings.ToLower(k)
		samples := e.content(newState(), e.addr(r.Args[4], ".Bitmap"))
		if !c.ob("read/"+k+"/search", "the records of the time range are read", len(search) == 1 && search[0].args[0] == r.Args[2] && search[0].args[1] == r.Args[3], r.Fn.Pos(), "the records to read are not searched with start and end") {
			continue
		}
		views := search[0].res
		view := e.mk(OElem, "", views)
		var gets []*Effect
		var ands []*Effect
		for _, f := range e.effects {
			if f.Kind == "call" && strings.HasSuffix(f.Callee, "Txn).Get") {
				gets = append(gets, f)
			}
			if f.Kind == "setand" {
				ands = append(ands, f)
			}
		}
		rec, set := 0, 0
		for _, g := range gets {
			why := e.allOf(g.Loops)
			c.ob("read/"+k+"/all", "every record of the time range is read", why == "" && len(g.Loops) > 0 && g.Loops[0].Over == views, g.Pos, "%s", why)
			p, v := e.keyOf(g.Args[1])
			switch {
			case v == view && p == "":
				rec++
			case v == view && p == e.setPrefix(c, low):
				set++
			default:
				c.ob("read/"+k+"/key", "the record and the set of its kind are read", false, g.Pos, "%s is read", e.path(g.Args[1]))
			}
			c.Counts["keys read"]++
		}
		c.ob("read/"+k+"/keys", "the record and the set of its kind are read", rec > 0 && set > 0, r.Fn.Pos(), "%d reads of the record, %d of the set of %s", rec, set, low)
		only := bF
		for _, a := range ands {
			if len(a.Args) == 2 && e.rootOf(a.Args[1]) == r.Args[4] {
				only = e.bdd.Or(only, a.Cond)
			}
		}
		asked := e.bdd.Not(e.Cond(e.eq(e.mk(ONil, ""), r.Args[4], r.Args[4].Typ)))
		for _, s := range reads {
			m := e.missing(e.bdd.And(s.cond, asked), only)
			c.ob("read/"+k+"/only", "only samples that were asked for are read", m == bF, s.in.Pos(), "the set of samples is not intersected with the ones asked for (%s) when %s", e.path(samples), e.CondStr(m))
		}
		for _, s := range reads {
			cols, ok := strings.CutPrefix(e.path(s.args[3]), "df."+colsF+".")
			ok = ok && (colPath[k] == "" || colPath[k] == cols)
			colPath[k] = cols
			c.ob("read/"+k+"/columns", "the columns of the kind are read", ok, s.in.Pos(), "columns %s are read", e.path(s.args[3]))
			c.Counts["records decoded"]++
		}
	}
	c.count("keys read", 0, 6)
	c.count("records decoded", 0, 3)
	// columns by name
	e := c.engine()
	e.Opaque = opaque("github.com/gernest/requiemdb/internal/dataframe.get")
	r := c.run(e, c.fn("internal/dataframe.NewColumns"))
	for _, k := range []string{"metrics", "traces", "logs"} {
		l := e.load(r.St, e.addr(r.Val, "."+colPath[strings.ToUpper(k[:1])+k[1:]]), nil)
		adds := bF
		var site *Effect
		bad := ""
		for _, f := range e.effects {
			if f.Kind != "append" || len(f.Args) < 2 || f.Res == nil {
				continue
			}
			if !anyTerm(l, func(x *Term) bool {
				return x.Op == OLV && anyTerm(x.LV.Update, func(y *Term) bool { return y == f.Res }) || x == f.Res
			}) {
				continue
			}
			site = f
			adds = e.bdd.Or(adds, f.Cond)
			if why := e.allOf(f.Loops); why != "" && len(f.Loops) > 0 && f.Loops[0].Kind != "while" {
				bad = why
			}
		}
		want := fmt.Sprintf("%q", k+".")
		ok := site != nil
		hit := false
		for _, a := range e.support(adds) {
			if s := e.path(a); strings.Contains(s, "HasPrefix") {
				if strings.Contains(s, want) {
					hit = true
					m := e.bdd.And(adds, e.bdd.Not(e.Cond(a)))
					ok = ok && e.absurd(m)
				}
			}
		}
		var at = r.Fn.Pos()
		if site != nil {
			at = site.Pos
		}
		c.ob("columns/"+k, "the columns of a kind are those whose path starts with its name", ok && hit && bad == "", at, "columns are added when %s %s", e.CondStr(adds), bad)
		c.Counts["column lists"]++
	}
	c.count("column lists", 0, 3)
}

// setPrefix is how the key of the set of samples of a kind starts when it is written.
func (e *Engine) setPrefix(c *Check, kind string) string {
	if c.prefixes == nil {
		c.prefixes = setPrefixes(c)
	}
	return c.prefixes[kind]
}

// schemaMethod is a method of the record schema.
func (c *Check) schemaMethod(name string) *ssa.Function {
	for _, p := range c.P.Prog.AllPackages() {
		if p.Pkg.Path() == "github.com/gernest/arrow3" {
			t := p.Type("Schema")
			if t == nil {
				break
			}
			n := t.Object().Type().(*types.Named)
			for i := 0; i < n.NumMethods(); i++ {
				if m := n.Method(i); m.Name() == name {
					if f := c.P.Prog.FuncValue(m); f != nil {
						return f
					}
				}
			}
		}
	}
	panic(analysisError{"no method " + name + " of arrow3.Schema"})
}

// setPrefixes finds under which prefix the set of samples of each kind is written.
func setPrefixes(c *Check) map[string]string {
	a := c.appendRun()
	out := map[string]string{}
	for _, f := range a.sets {
		p, v := a.e.keyOf(f.Args[1])
		if v != a.view || p == "" {
			continue
		}
		for kind := range addedKinds(a.e, f.Args[2]) {
			out[kind] = p
		}
	}
	return out
}

// addedKinds lists the kinds of the samples whose ids are in a written set.
func addedKinds(e *Engine, v *Term) map[string][]Arm {
	out := map[string][]Arm{}
	seen := map[*Term]bool{}
	var visit func(t *Term, c B)
	visit = func(t *Term, c B) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case OChoice:
			for _, a := range t.Arms {
				visit(a.T, a.C)
			}
			return
		case OLV:
			visit(t.LV.Init, bT)
			visit(t.LV.Update, bT)
			return
		case OSet:
			visit(t.Args[0], bT)
			for _, a := range t.Args[1:] {
				for _, k := range []string{"Metrics", "Traces", "Logs"} {
					is := bF
					for _, at := range e.support(c) {
						if at.Op == OTypeIs && strings.HasSuffix(at.Aux, "Data_"+k) {
							is = e.bdd.Or(is, e.Cond(at))
						}
					}
					if is != bF && e.implies(c, is) {
						out[strings.ToLower(k)] = append(out[strings.ToLower(k)], Arm{c, a})
					}
				}
			}
			return
		}
		for _, a := range t.Args {
			visit(a, bT)
		}
	}
	visit(v, bT)
	return out
}
