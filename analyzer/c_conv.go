package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- conversions between data types
//
// A conversion is specified by what each field of the result is made from. Values
// are compared by where they come from, however the code gets them there; objects
// by the values that are stored in them, and lists by what is appended for which
// element.

type conv struct {
	c     *Check
	e     *Engine
	rule  string
	loops []*Loop // around what is looked at
	err   *Term   // the error that is returned
	shown map[*Term]string
}

// want checks that got, when cond holds, is what in is to be converted to.
type want func(x *conv, id, in string, got *Term, cond B)

func (c *Check) conv(e *Engine, rule string) *conv {
	return &conv{c: c, e: e, rule: rule, shown: map[*Term]string{}}
}

// show says where a value comes from.
func (x *conv) show(t *Term) string {
	if t == nil {
		return "<none>"
	}
	if s, ok := x.shown[t]; ok {
		return s
	}
	x.shown[t] = "…"
	s := x.show1(t)
	x.shown[t] = s
	return s
}

func (x *conv) show1(t *Term) string {
	switch t.Op {
	case OField:
		if t.Aux == "*" {
			return x.show(t.Args[0])
		}
		return x.show(t.Args[0]) + "." + t.Aux
	case OAddr:
		if strings.HasPrefix(t.Aux, "[*") {
			return x.show(t.Args[0]) + "[*]"
		}
		return x.show(t.Args[0]) + t.Aux
	case OIface, OContent:
		return x.show(t.Args[0])
	case OAssert:
		return x.show(t.Args[0]) + ".(" + shortName(t.Aux) + ")"
	case OArrSlice:
		return x.show(t.Args[0]) + "[:]"
	case OElem:
		if l := t.Args[0]; l.Op == OSeq && len(l.Args) == 2 && l.Args[0].Op == ONil && l.Args[1].Op == OSpread {
			return x.show(l.Args[1].Args[0]) + "[*]" // of a copy of the list
		}
		return x.show(t.Args[0]) + "[*]"
	case OIndex:
		if idxOf(t.Args[1], t.Args[0]) {
			return x.show(t.Args[0]) + "[*]"
		}
		return x.show(t.Args[0]) + "[" + x.show(t.Args[1]) + "]"
	case OAlloc:
		if v := x.content(t); v != nil {
			return x.show(v)
		}
	case OConv:
		if sameSize(t.Args[0].Typ, t.Typ) {
			return x.show(t.Args[0])
		}
		return t.Aux + "(" + x.show(t.Args[0]) + ")"
	case OExtract:
		return x.show(t.Args[0]) + "#" + t.Aux
	case OCall:
		n := stripAt(t.Aux)
		if strings.HasPrefix(n, "(") && len(t.Args) > 0 {
			m := methodBase(n)
			r := x.show(t.Args[0])
			if strings.HasSuffix(n, "attribute.Iterator).Attribute") {
				return r + "[*]"
			}
			var o []string
			for _, a := range t.Args[1:] {
				o = append(o, x.show(a))
			}
			return r + "." + m + "(" + strings.Join(o, ",") + ")"
		}
		var o []string
		for _, a := range t.Args {
			o = append(o, x.show(a))
		}
		return shortName(n) + "(" + strings.Join(o, ",") + ")"
	case OParam, OConst, OGlobal, OFunc:
		return t.Aux
	}
	return x.e.Str(t)
}

func sameSize(a, b types.Type) bool {
	if a == nil || b == nil {
		return false
	}
	x, ok := a.Underlying().(*types.Basic)
	y, ok2 := b.Underlying().(*types.Basic)
	if !ok || !ok2 || x.Info()&types.IsInteger == 0 || y.Info()&types.IsInteger == 0 {
		return false
	}
	s := types.SizesFor("gc", "amd64")
	return s.Sizeof(x) == s.Sizeof(y)
}

// content is the only value a variable of its own ever has.
func (x *conv) content(root *Term) *Term {
	var v *Term
	for _, f := range x.e.effects {
		if f.Kind != "store" || len(f.Args) != 2 {
			continue
		}
		if baseObj(f.Args[0]) != root {
			continue
		}
		if f.Args[0] != root || v != nil {
			return nil
		}
		// a variable of an outer loop has other values as well
		if !sameLoops(f.Loops, x.e.born[root]) {
			return nil
		}
		v = f.Args[1]
	}
	return v
}

func (x *conv) fail(id, format string, args ...any) {
	x.c.ob(id, x.rule, false, 0, format, args...)
}

func (x *conv) good(id string) { x.c.ob(id, x.rule, true, 0, "") }

// arms are the values got can have.
func (x *conv) arms(got *Term, cond B) []Arm {
	var out []Arm
	for _, a := range x.e.alts(got, cond) {
		if !isNever(x.e, a.C) {
			out = append(out, a)
		}
	}
	return out
}

// holds: the condition implies something that is shown as one of the given; a
// leading ! negates.
func (x *conv) holds(c B, what []string) bool {
	e := x.e
	for _, a := range e.support(c) {
		pos := e.bdd.And(c, e.bdd.Not(e.Cond(a))) == bF
		neg := e.bdd.And(c, e.Cond(a)) == bF
		if !pos && !neg {
			continue
		}
		s := x.showAtom(a)
		for _, w := range what {
			if pos && w == s || neg && w == "!"+s {
				return true
			}
		}
	}
	return false
}

// given: there is a value to be exported, under the condition: one of the reasons
// for which there is none is excluded.
func (x *conv) given(c B, unless []string) bool {
	if len(unless) == 0 {
		return true
	}
	var not []string
	for _, s := range unless {
		if t, ok := strings.CutPrefix(s, "!"); ok {
			not = append(not, t)
		} else {
			not = append(not, "!"+s)
		}
	}
	return x.holds(c, not)
}

func (x *conv) showAtom(a *Term) string {
	switch a.Op {
	case OEq:
		l, r := x.show(a.Args[0]), x.show(a.Args[1])
		if a.Args[0].Op == ONil {
			l = "nil"
		}
		if l > r {
			l, r = r, l
		}
		return l + "==" + r
	case OIsEmpty:
		return "empty(" + x.show(a.Args[0]) + ")"
	case OTypeIs:
		return x.show(a.Args[0]) + " is " + shortName(a.Aux)
	}
	return x.show(a)
}

// when is the condition of comparisons with $ that hold if in has the value k.
func (x *conv) when(in, k string) B {
	e := x.e
	r := bT
	for _, a := range e.atoms {
		if a.Op != OEq {
			continue
		}
		l, v := a.Args[0], a.Args[1]
		if v.Op == OConst {
			l, v = v, l
		}
		if l.Op != OConst || x.show(v) != in {
			continue
		}
		if l.Aux == k {
			r = e.bdd.And(r, e.Cond(a))
		} else {
			r = e.bdd.And(r, e.bdd.Not(e.Cond(a)))
		}
	}
	return r
}

func isZeroVal(t *Term) bool {
	return t.Op == ONil || t.Op == OZero || t.Op == OConst && (t.Aux == "0" || t.Aux == `""` || t.Aux == "false")
}

// from: the value is that of the input; nothing when one of the conditions holds.
func from(path string, unless ...string) want {
	return func(x *conv, id, in string, got *Term, cond B) {
		for _, a := range x.arms(got, cond) {
			s := x.show(a.T)
			if s == in+path && x.given(a.C, prefixed(in, unless)) {
				continue
			}
			if isZeroVal(a.T) && x.holds(a.C, prefixed(in, unless)) {
				continue
			}
			x.fail(id, "%s is %s instead of %s when %s", id, trunc(s, 200), in+path, trunc(x.e.CondStr(a.C), 200))
			return
		}
		x.good(id)
	}
}

// prefixed replaces the $ in conditions by the input.
func prefixed(in string, cs []string) []string {
	var out []string
	for _, c := range cs {
		out = append(out, strings.ReplaceAll(c, "$", in))
	}
	return out
}

// instant is a time in nanoseconds, nothing for the zero time.
func instant(path string) want { return from(path+".UnixNano()", "$"+path+".IsZero()") }

// deref is a pointer to a variable with the value.
func pointer(path string, unless ...string) want {
	return func(x *conv, id, in string, got *Term, cond B) {
		for _, a := range x.arms(got, cond) {
			if isZeroVal(a.T) && x.holds(a.C, prefixed(in, unless)) {
				continue
			}
			if a.T.Op == OAlloc && sameLoops(x.e.born[a.T], x.loops) && x.show(a.T) == in+path && x.given(a.C, prefixed(in, unless)) {
				continue
			}
			x.fail(id, "%s is %s instead of %s when %s", id, trunc(x.show(a.T), 200), in+path, trunc(x.e.CondStr(a.C), 200))
			return
		}
		x.good(id)
	}
}

// enum maps constants of the input to constants of the result.
func enum(path string, m map[string]string) want {
	return func(x *conv, id, in string, got *Term, cond B) {
		for _, k := range sortedKeys(m) {
			w := x.e.bdd.And(cond, x.when(in+path, k))
			ok := !isNever(x.e, w)
			s := "nothing"
			for _, a := range x.arms(got, w) {
				s = x.show(a.T)
				if isZeroVal(a.T) {
					s = "0"
				}
				ok = ok && s == m[k]
			}
			if !ok {
				x.fail(id, "%s is %s for %s, not %s", id, s, k, m[k])
				return
			}
		}
		x.good(id)
	}
}

// choose selects what is wanted by a constant of the input.
func choose(path string, m map[string]want) want {
	return func(x *conv, id, in string, got *Term, cond B) {
		for _, k := range sortedKeys(m) {
			w := x.e.bdd.And(cond, x.when(in+path, k))
			if isNever(x.e, w) {
				x.fail(id+"/"+k, "nothing is made for %s", k)
				continue
			}
			m[k](x, id+"/"+k, in, got, w)
		}
	}
}

// byType selects what is wanted by the type of the input.
func byType(path string, m map[string]want) want {
	return func(x *conv, id, in string, got *Term, cond B) {
		for _, k := range sortedKeys(m) {
			w := x.e.bdd.And(cond, x.typeIs(in+path, k))
			if isNever(x.e, w) {
				x.fail(id+"/"+k, "nothing is made for %s", k)
				continue
			}
			m[k](x, id+"/"+k, in+path+".("+k+")", got, w)
		}
	}
}

func (x *conv) typeIs(in, k string) B {
	e := x.e
	r := bT
	for _, a := range e.atoms {
		if a.Op != OTypeIs || x.show(a.Args[0]) != in {
			continue
		}
		if shortName(a.Aux) == k {
			r = e.bdd.And(r, e.Cond(a))
		} else {
			r = e.bdd.And(r, e.bdd.Not(e.Cond(a)))
		}
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// at looks at a part of the input.
func at(path string, w want) want {
	return func(x *conv, id, in string, got *Term, cond B) { w(x, id, in+path, got, cond) }
}

// maybe is nothing when one of the conditions holds.
func maybe(w want, unless ...string) want {
	return func(x *conv, id, in string, got *Term, cond B) {
		for _, a := range x.arms(got, cond) {
			if isZeroVal(a.T) && x.holds(a.C, prefixed(in, unless)) {
				continue
			}
			w(x, id, in, a.T, a.C)
		}
	}
}

// literal is a new object with the given fields.
func literal(typ string, m map[string]want) want {
	return func(x *conv, id, in string, got *Term, cond B) {
		e := x.e
		as := x.arms(got, cond)
		if len(as) == 0 {
			x.fail(id, "nothing is made")
		}
		for _, a := range as {
			o := a.T
			if o.Op == OIface {
				o = o.Args[0]
			}
			okObj := o.Op == OAlloc && o.Typ != nil && strings.HasSuffix(types.TypeString(o.Typ, nil), typ)
			if okObj && !sameLoops(e.born[o], x.loops) {
				x.fail(id, "the same %s is used again", typ)
				continue
			}
			if !x.c.ob(id, x.rule, okObj, 0, "%s is %s instead of a new %s when %s", id, trunc(x.show(o), 200), typ, trunc(e.CondStr(a.C), 200)) {
				continue
			}
			x.c.Counts["objects"]++
			fs, why := x.fields(o)
			if why != "" {
				x.fail(id, "%s: %s", id, why)
				continue
			}
			for _, f := range sortedKeys(m) {
				v := fs[f]
				if v == nil {
					v = e.mk(OZero, "")
				}
				x.c.Counts["fields"]++
				m[f](x, id+"."+f, in, v, a.C)
			}
		}
	}
}

// fields are the final values of an object's fields.
func (x *conv) fields(o *Term) (map[string]*Term, string) {
	e := x.e
	out := map[string]*Term{}
	for _, f := range e.effects {
		if f.Kind != "store" || len(f.Args) != 2 || baseObj(f.Args[0]) != o {
			continue
		}
		p := f.Args[0]
		if v := f.Args[1]; p == o && v.Op == OStruct && len(out) == 0 && sameLoops(f.Loops, e.born[o]) {
			// the whole object, as it is written out
			for i, n := range strings.Split(v.Aux, ",") {
				out[strings.TrimPrefix(n, ".")] = e.Choice([]Arm{{f.Cond, v.Args[i+1]}, {e.bdd.Not(f.Cond), e.mk(OZero, "")}})
			}
			continue
		}
		if p.Op != OAddr || !strings.HasPrefix(p.Aux, ".") || strings.ContainsAny(p.Aux[1:], ".[") {
			return nil, "stores to " + trunc(e.Str(p), 100)
		}
		if !sameLoops(f.Loops, e.born[o]) {
			return nil, p.Aux + " is stored in another loop"
		}
		n := p.Aux[1:]
		old := out[n]
		if old == nil {
			old = e.mk(OZero, "")
		}
		out[n] = e.Choice([]Arm{{f.Cond, f.Args[1]}, {e.bdd.Not(f.Cond), old}})
	}
	return out, ""
}

// each is a list with one item for each element of the input.
func each(path string, w want, skip ...string) want {
	return eachWhen(path, w, nil, skip...)
}

// eachWhen is each for elements of the known kinds; all others must have been reported.
func eachWhen(path string, w want, known func(x *conv, in string) []B, skip ...string) want {
	return func(x *conv, id, in string, got *Term, cond B) {
		e := x.e
		src := in + path
		empty := []string{"empty(" + src + ")", "0==" + src + ".Len()"}
		n := 0
		seen := map[*Term]bool{}
		for _, a := range x.arms(got, cond) {
			l := a.T
			if l.Op == ONil || l.Op == OZero || l.Op == OMake && x.holds(a.C, empty) {
				if !x.holds(a.C, empty) {
					x.fail(id, "%s is empty when %s", id, trunc(e.CondStr(a.C), 200))
					return
				}
				continue
			}
			n++
			if seen[l] {
				continue
			}
			seen[l] = true
			lp, item, f, why := x.listOf(l)
			if why != "" {
				x.fail(id, "%s: %s", id, why)
				return
			}
			if s := x.over(lp, f); s != src {
				x.fail(id, "%s is made from %s instead of %s", id, s, src)
				return
			}
			d := x.e.bdd.And(lp.Entry, e.bdd.Not(f.Cond))
			d = e.bdd.And(d, x.entered(lp, f, src))
			for _, s := range prefixed(src+"[*]", skip) {
				d = e.bdd.And(d, e.bdd.Not(x.atom(s)))
			}
			cases := []B{bT}
			if known != nil {
				cases = known(x, src+"[*]")
				x.c.Counts["kinds"] += len(cases)
				all := bF
				for _, k := range cases {
					all = e.bdd.Or(all, k)
				}
				o := e.bdd.And(f.Cond, e.bdd.Not(all))
				x.c.ob(id+"/unknown", "what is of an unknown kind is left out", isNever(e, o), f.Pos, "an element is converted when %s", trunc(e.CondStr(o), 300))
				x.c.ob(id+"/reported", "what is left out is reported", x.reports(x.err, f.Loops, d), f.Pos, "no error is returned when an element is left out")
			}
			for _, k := range cases {
				if d := e.bdd.And(k, d); !isNever(e, d) {
					x.fail(id, "%s has nothing of an element when %s", id, trunc(e.CondStr(d), 300))
					return
				}
			}
			old := x.loops
			x.loops = f.Loops
			w(x, id+"[]", src+"[*]", item, f.Cond)
			x.loops = old
		}
		if x.c.ob(id, x.rule, n > 0, 0, "%s is never made", id) {
			x.c.Counts["lists"]++
		}
	}
}

// atom is the condition shown as s.
func (x *conv) atom(s string) B {
	neg := strings.HasPrefix(s, "!")
	s = strings.TrimPrefix(s, "!")
	for _, a := range x.e.atoms {
		if x.showAtom(a) == s {
			c := x.e.Cond(a)
			if neg {
				c = x.e.bdd.Not(c)
			}
			return c
		}
	}
	return bF
}

// entered: in an iteration of the loop, there is something to iterate.
func (x *conv) entered(lp *Loop, f *Effect, src string) B {
	e := x.e
	r := bT
	for _, s := range []string{"empty(" + src + ")", "0==" + src + ".Len()"} {
		if c := x.atom(s); c != bF {
			r = e.bdd.And(r, e.bdd.Not(c))
		}
	}
	if lp.Kind == "while" {
		if a := x.next(f); a != nil {
			r = e.bdd.And(r, e.Cond(a))
		}
	}
	return r
}

// over is what a loop iterates.
func (x *conv) over(lp *Loop, f *Effect) string {
	if lp.Kind != "while" {
		return x.show(lp.Over)
	}
	if a := x.next(f); a != nil {
		return x.show(a.Args[0])
	}
	return "something else"
}

// next is the condition with which an iterator goes on.
func (x *conv) next(f *Effect) *Term {
	e := x.e
	for _, a := range e.support(f.Cond) {
		if a.Op == OCall && strings.HasSuffix(stripAt(a.Aux), "attribute.Iterator).Next") && e.bdd.And(f.Cond, e.bdd.Not(e.Cond(a))) == bF {
			return a
		}
	}
	return nil
}

func stripAt(s string) string {
	if i := strings.IndexByte(s, '@'); i > 0 {
		return s[:i]
	}
	return s
}

// listOf finds the loop that makes a list, and the item it adds for an element.
func (x *conv) listOf(l *Term) (lp *Loop, item *Term, f *Effect, why string) {
	e := x.e
	n := 0
	for _, ef := range e.effects {
		switch {
		case ef.Kind == "append" && ef.Res != nil && e.flowsTo(ef.Res, l):
			if len(ef.Args) != 2 || ef.Args[1].Op != OItem && ef.Args[1].Op == OSpread {
				return nil, nil, nil, "lists are appended"
			}
			item = ef.Args[1]
			if item.Op == OItem {
				item = item.Args[0]
			}
			f = ef
			n++
			if l.Op == OLV && l.LV != nil && !e.emptyList(l.LV.Init) {
				return nil, nil, nil, "the list has items already"
			}
		case ef.Kind == "store" && len(ef.Args) == 2 && ef.Args[0].Op == OAddr && ef.Args[0].Args[0] == l && strings.HasPrefix(ef.Args[0].Aux, "["):
			item, f = ef.Args[1], ef
			n++
			if len(ef.Loops) == 0 {
				return nil, nil, nil, "an element is set"
			}
			lp := ef.Loops[len(ef.Loops)-1]
			ix := strings.TrimSuffix(strings.TrimPrefix(ef.Args[0].Aux, "["), "]")
			ok := strings.HasPrefix(ix, "*")
			if id, err := strconv.Atoi(strings.TrimPrefix(ix, "#")); err == nil && strings.HasPrefix(ix, "#") && id < len(e.all) {
				i := e.all[id]
				ok = i.Op == OIdx && i.Args[0] == lp.Over
			}
			if l.Op != OMake || !ok || lp.Kind == "while" || len(l.Args) == 0 || l.Args[0].Op != OLen || l.Args[0].Args[0] != lp.Over {
				return nil, nil, nil, fmt.Sprintf("element %s of %s is set", ef.Args[0].Aux, trunc(e.Str(l), 100))
			}
		}
	}
	if n != 1 {
		return nil, nil, nil, fmt.Sprintf("items are added at %d places to %s", n, trunc(e.Str(l), 100))
	}
	if len(f.Loops) != len(x.loops)+1 || !sameLoops(f.Loops[:len(x.loops)], x.loops) {
		return nil, nil, nil, "items are not added in one loop"
	}
	lp = f.Loops[len(f.Loops)-1]
	switch lp.Kind {
	case "range", "iter":
		if w := e.allOf([]*Loop{lp}); w != "" {
			return nil, nil, nil, w
		}
	case "while":
		if len(lp.Exits) > 0 {
			return nil, nil, nil, "the loop is left early"
		}
	default:
		return nil, nil, nil, "the list is made by a loop of kind " + lp.Kind
	}
	return lp, item, f, ""
}

// ---- attributes

func keyValue(pkg string) want {
	any := func(f, m string) want {
		return literal("AnyValue_"+f, map[string]want{f: from("." + m + "()")})
	}
	list := func(f, m string) want {
		return literal("AnyValue_ArrayValue", map[string]want{"ArrayValue": literal("ArrayValue", map[string]want{
			"Values": each("."+m+"()", literal("AnyValue", map[string]want{"Value": literal("AnyValue_"+f, map[string]want{f: from("")})})),
		})})
	}
	vals := map[string]want{
		"1": any("BoolValue", "AsBool"), "2": any("IntValue", "AsInt64"), "3": any("DoubleValue", "AsFloat64"), "4": any("StringValue", "AsString"),
		"5": list("BoolValue", "AsBoolSlice"), "6": list("IntValue", "AsInt64Slice"), "7": list("DoubleValue", "AsFloat64Slice"), "8": list("StringValue", "AsStringSlice"),
	}
	return literal("KeyValue", map[string]want{
		"Key":   from(".Key"),
		"Value": at(".Value", literal("AnyValue", map[string]want{"Value": choose(".Type()", vals)})),
	})
}

func init() {
	register("C30", "what each field of an exported span is made from is computed symbolically for all fields, types of values and lists, and compared with a table; spans are grouped by the keys of their own resource and scope", c30)
}

func (c *Check) spanWant() want {
	attrs := func(p string) want { return each(p, keyValue("")) }
	kind := map[string]string{"1": "1", "2": "2", "3": "3", "4": "4", "5": "5"}
	for k, n := range map[string]string{"Internal": "INTERNAL", "Server": "SERVER", "Client": "CLIENT", "Producer": "PRODUCER", "Consumer": "CONSUMER"} {
		kind[c.constVal("go.opentelemetry.io/otel/trace", "SpanKind"+k)] = c.constVal("go.opentelemetry.io/proto/otlp/trace/v1", "Span_SPAN_KIND_"+n)
	}
	code := map[string]string{}
	for k, n := range map[string]string{"Unset": "UNSET", "Ok": "OK", "Error": "ERROR"} {
		code[c.constVal("go.opentelemetry.io/otel/codes", k)] = c.constVal("go.opentelemetry.io/proto/otlp/trace/v1", "Status_STATUS_CODE_"+n)
	}
	return literal("Span", map[string]want{
		"TraceId":                from(".SpanContext().TraceID()[:]"),
		"SpanId":                 from(".SpanContext().SpanID()[:]"),
		"ParentSpanId":           from(".Parent().SpanID()[:]", "!$.Parent().SpanID().IsValid()", "!$.Parent().HasSpanID()"),
		"TraceState":             from(".SpanContext().TraceState().String()"),
		"Name":                   from(".Name()"),
		"Kind":                   enum(".SpanKind()", kind),
		"StartTimeUnixNano":      from(".StartTime().UnixNano()"),
		"EndTimeUnixNano":        from(".EndTime().UnixNano()"),
		"Attributes":             attrs(".Attributes()"),
		"DroppedAttributesCount": from1("uint32", ".DroppedAttributes()"),
		"DroppedEventsCount":     from1("uint32", ".DroppedEvents()"),
		"DroppedLinksCount":      from1("uint32", ".DroppedLinks()"),
		"Status": literal("Status", map[string]want{
			"Code":    enum(".Status().Code", code),
			"Message": from(".Status().Description"),
		}),
		"Links": each(".Links()", literal("Span_Link", map[string]want{
			"TraceId":                from(".SpanContext.TraceID()[:]"),
			"SpanId":                 from(".SpanContext.SpanID()[:]"),
			"TraceState":             from(".SpanContext.TraceState().String()"),
			"Attributes":             attrs(".Attributes"),
			"DroppedAttributesCount": from1("uint32", ".DroppedAttributeCount"),
		})),
		"Events": each(".Events()", literal("Span_Event", map[string]want{
			"Name":                   from(".Name"),
			"TimeUnixNano":           from(".Time.UnixNano()"),
			"Attributes":             attrs(".Attributes"),
			"DroppedAttributesCount": from1("uint32", ".DroppedAttributeCount"),
		})),
	})
}

// from1 is from with a conversion of the number.
func from1(to, path string) want {
	return func(x *conv, id, in string, got *Term, cond B) {
		for _, a := range x.arms(got, cond) {
			if s := x.show(a.T); s != in+path && s != to+"("+in+path+")" {
				x.fail(id, "%s is %s instead of %s when %s", id, trunc(s, 200), in+path, trunc(x.e.CondStr(a.C), 200))
				return
			}
		}
		x.good(id)
	}
}

func c30(c *Check) {
	const rule = "a span is exported with its own data, in the fields they belong to"
	fn := c.fn("internal/self/trace/tracetransform.Spans")
	e := c.engine()
	r := c.run(e, fn, "spans")
	x := c.conv(e, rule)
	_ = r
	var adds []*Effect
	for _, f := range e.effects {
		if f.Kind == "append" && len(f.Args) == 2 && elemNamed(f, "/trace/v1.Span") {
			adds = append(adds, f)
		}
	}
	if !c.ob("spans", rule, len(adds) == 1 && len(adds[0].Loops) == 1, fn.Pos(), "spans are added at %d places", len(adds)) {
		return
	}
	add := adds[0]
	lp := add.Loops[0]
	in := x.show(lp.Over) + "[*]"
	x.loops = add.Loops
	item := add.Args[1]
	if item.Op == OItem {
		item = item.Args[0]
	}
	c.spanWant()(x, "span", in, item, add.Cond)
	d := e.bdd.And(e.bdd.And(lp.Entry, x.entered(lp, add, x.show(lp.Over))), e.bdd.Not(add.Cond))
	d = e.bdd.And(d, e.bdd.Not(x.atom("nil=="+in)))
	c.ob("spans/all", "every span is exported", isNever(e, d) && e.allOf(add.Loops) == "", add.Pos, "a span is not exported when %s %s", e.allOf(add.Loops), trunc(e.CondStr(d), 300))
	// the group of its scope
	resKey, scopeKey := in+".Resource().Equivalent()", in+".InstrumentationScope()"
	scopes := x.group("scope", add, "Spans", map[string]want{
		"Scope":     at(".InstrumentationScope()", maybe(literal("InstrumentationScope", map[string]want{"Name": from(".Name"), "Version": from(".Version")}), "$==zero")),
		"SchemaUrl": from(".InstrumentationScope().SchemaURL"),
	}, in, resKey, scopeKey)
	if scopes == nil {
		return
	}
	// the group of its resource
	put := bF
	for _, f := range e.effects {
		if f.Kind != "append" && f.Kind != "store" || len(f.Args) != 2 || !elemNamed(f, "/trace/v1.ScopeSpans") {
			continue
		}
		if f.Kind == "store" && !(f.Args[0].Op == OAddr && f.Args[0].Aux == "[0]" && strings.Contains(e.Str(f.Args[0].Args[0]), "slicelit")) {
			continue
		}
		it := f.Args[1]
		if it.Op == OItem {
			it = it.Args[0]
		}
		c.Counts["scopes added"]++
		resources := x.group("resource", f, "ScopeSpans", map[string]want{
			"Resource":  maybe(literal("Resource", map[string]want{"Attributes": each(".Resource().Iter()", keyValue(""))}), "$.Resource()==nil", "nil==$.Resource()"),
			"SchemaUrl": from(".Resource().SchemaURL()"),
		}, in, resKey)
		if resources == nil {
			continue
		}
		for _, a := range x.arms(it, f.Cond) {
			if a.T == scopes.obj {
				put = e.bdd.Or(put, a.C)
				continue
			}
			// the group is there already
			d := e.bdd.And(a.C, e.bdd.Not(resources.fresh))
			c.ob("scope/once", rule, isNever(e, d), f.Pos, "a scope is added again when %s", trunc(e.CondStr(d), 300))
		}
		// what is returned
		n := 0
		for _, g := range e.effects {
			if g.Kind != "append" || len(g.Args) != 2 || !elemNamed(g, "/trace/v1.ResourceSpans") {
				continue
			}
			it := g.Args[1]
			if it.Op == OItem {
				it = it.Args[0]
			}
			ok := false
			if len(g.Loops) == 1 && g.Loops[0] == lp {
				ok = it == resources.obj && e.missing(resources.made, g.Cond) == bF && e.missing(g.Cond, resources.made) == bF
			} else if len(g.Loops) == 1 {
				m, _, isVal := e.entriesOf(g.Loops[0])
				d := e.bdd.And(g.Loops[0].Entry, e.bdd.Not(g.Cond))
				for _, a := range e.support(d) {
					if a.Op == OIsEmpty && (a.Args[0] == m || a.Args[0] == g.Loops[0].Over) {
						d = e.bdd.And(d, e.bdd.Not(e.Cond(a)))
					}
				}
				ok = m == resources.m && isVal(it) && e.allOf(g.Loops) == "" && isNever(e, d)
			}
			// in the result
			back := false
			for _, a := range e.alts(r.Val, bT) {
				back = back || e.flowsTo(g.Res, a.T)
			}
			n++
			c.ob("result", "every span is exported", ok && back, g.Pos, "%s is returned when %s", trunc(x.show(it), 200), trunc(e.CondStr(g.Cond), 300))
		}
		c.ob("results", "every span is exported", n == 1, f.Pos, "resources are returned at %d places", n)
	}
	c.Min["scopes added"] = 1
	d = e.bdd.And(scopes.fresh, e.bdd.Not(put))
	c.ob("scope/added", rule, isNever(e, d), add.Pos, "a scope is not added to its resource when %s", trunc(e.CondStr(d), 300))
	for _, a := range e.alts(r.Val, bT) {
		if a.T.Op == ONil {
			c.ob("result/none", "every span is exported", x.holds(a.C, []string{"empty(" + x.show(lp.Over) + ")"}), fn.Pos(), "nothing is returned when %s", trunc(e.CondStr(a.C), 300))
		}
	}
	c.Min["objects"], c.Min["fields"], c.Min["lists"] = 30, 60, 15
}

type grouping struct {
	m     *Term // all groups, by key
	obj   *Term // a new group
	fresh B     // what is added is the first of a new group
	made  B     // a group is made
}

// group: what is added goes to the group of its keys, which is made when there is none.
func (x *conv) group(id string, add *Effect, field string, fields map[string]want, in string, keys ...string) *grouping {
	e, c := x.e, x.c
	var into *Effect
	for _, f := range e.effects {
		if f.Kind != "store" || len(f.Args) != 2 || f.Seq < add.Seq && add.Kind == "append" || into != nil {
			continue
		}
		p := f.Args[0]
		if p.Op == OAddr && p.Aux == "."+field || p.Op == OChoice && p.Arms[0].T.Op == OAddr && p.Arms[0].T.Aux == "."+field {
			if add.Kind == "append" && f.Args[1] == add.Res || add.Kind == "store" && f.Args[1].Op == OSeq && len(f.Args[1].Args) == 2 && f.Args[1].Args[1].Args[0] == add.Args[1] {
				into = f
			}
		}
	}
	if !c.ob(id+"/into", x.rule, into != nil, add.Pos, "what is added is not kept in a group") {
		return nil
	}
	g := &grouping{fresh: bF}
	for _, a := range x.arms(into.Args[0], into.Cond) {
		o := a.T.Args[0]
		var os []Arm
		for _, b := range x.arms(o, a.C) {
			os = append(os, b)
		}
		for _, b := range os {
			switch o := b.T; {
			case o.Op == OAlloc && sameLoops(e.born[o], x.loops):
				c.ob(id+"/one", x.rule, g.obj == nil || g.obj == o, into.Pos, "groups are made at two places")
				g.obj, g.fresh = o, e.bdd.Or(g.fresh, b.C)
			case o.Op == OIndex:
				x.keyed(id, o.Args[1], into, keys)
				c.ob(id+"/map", x.rule, g.m == nil || g.m == o.Args[0], into.Pos, "groups are kept at two places")
				g.m = o.Args[0]
			default:
				c.ob(id+"/group", x.rule, false, into.Pos, "%s is added to %s when %s", field, trunc(e.Str(o), 200), trunc(e.CondStr(b.C), 200))
				return nil
			}
		}
	}
	if g.obj == nil {
		// made elsewhere: only known groups are changed here
		for _, f := range e.effects {
			if f.Kind == "mapset" && f.Args[0] == g.m && f.Args[2].Op == OAlloc {
				g.obj = f.Args[2]
			}
		}
	}
	if !c.ob(id+"/made", x.rule, g.obj != nil && (g.m != nil || g.fresh != bF), into.Pos, "groups are never made") {
		return nil
	}
	kept := bF
	for _, f := range e.effects {
		if f.Kind != "mapset" {
			continue
		}
		for _, a := range x.arms(f.Args[2], f.Cond) {
			if a.T == g.obj {
				if g.m == nil {
					g.m = f.Args[0]
				}
				c.ob(id+"/map", x.rule, g.m == f.Args[0], f.Pos, "groups are kept at two places")
				x.keyed(id, f.Args[1], f, keys)
				kept = e.bdd.Or(kept, a.C)
			}
		}
	}
	d := e.bdd.And(g.fresh, e.bdd.Not(kept))
	c.ob(id+"/kept", x.rule, isNever(e, d), into.Pos, "a group is made and forgotten when %s", trunc(e.CondStr(d), 200))
	g.made = g.fresh
	if g.made == bF {
		g.made = kept
	}
	fs, why := x.fields(g.obj)
	if !c.ob(id+"/fields", x.rule, why == "", into.Pos, "%s", why) {
		return nil
	}
	for _, f := range sortedKeys(fields) {
		v := fs[f]
		if v == nil {
			v = e.mk(OZero, "")
		}
		fields[f](x, id+"."+f, in, v, g.made)
	}
	return g
}

func (x *conv) keyed(id string, k *Term, f *Effect, keys []string) {
	for _, want := range keys {
		ok := false
		var walk func(t *Term)
		walk = func(t *Term) {
			ok = ok || x.show(t) == want
			if t.Op == OStruct || t.Op == OIface {
				for _, a := range t.Args {
					walk(a)
				}
			}
		}
		walk(k)
		x.c.ob(id+"/key", x.rule, ok, f.Pos, "the key %s does not contain %s", trunc(x.e.Str(k), 200), want)
	}
}

func elemNamed(f *Effect, suffix string) bool {
	t := f.Args[1]
	if t.Op == OItem {
		t = t.Args[0]
	}
	for _, a := range t.arms() {
		if a.T.Typ != nil && strings.HasSuffix(types.TypeString(a.T.Typ, nil), suffix) {
			return true
		}
	}
	return false
}

func init() {
	register("C31", "what each field of an exported metric and its points, exemplars and attributes is made from is computed symbolically for all kinds of metrics and compared with a table; metrics of known kinds are never left out, and others reported", c31)
}

func (c *Check) metricWant() (want, func(x *conv, in string) []B) {
	md := func(n string) string { return "metricdata." + n }
	iter := func(p string) want { return each(p, keyValue("")) }
	tmp := map[string]string{
		c.constVal("go.opentelemetry.io/otel/sdk/metric/metricdata", "CumulativeTemporality"): c.constVal("go.opentelemetry.io/proto/otlp/metrics/v1", "AggregationTemporality_AGGREGATION_TEMPORALITY_CUMULATIVE"),
		c.constVal("go.opentelemetry.io/otel/sdk/metric/metricdata", "DeltaTemporality"):      c.constVal("go.opentelemetry.io/proto/otlp/metrics/v1", "AggregationTemporality_AGGREGATION_TEMPORALITY_DELTA"),
	}
	number := func(obj, t string) want {
		if t == "int64" {
			return literal(obj+"_AsInt", map[string]want{"AsInt": from(".Value")})
		}
		return literal(obj+"_AsDouble", map[string]want{"AsDouble": from(".Value")})
	}
	exemplars := func(t string) want {
		return each(".Exemplars", literal("Exemplar", map[string]want{
			"FilteredAttributes": iter(".FilteredAttributes"),
			"TimeUnixNano":       instant(".Time"),
			"SpanId":             from(".SpanID"),
			"TraceId":            from(".TraceID"),
			"Value":              number("Exemplar", t),
		}))
	}
	points := func(typ string, more map[string]want) want {
		m := map[string]want{
			"Attributes":        iter(".Attributes.Iter()"),
			"StartTimeUnixNano": instant(".StartTime"),
			"TimeUnixNano":      instant(".Time"),
		}
		for k, v := range more {
			m[k] = v
		}
		return each(".DataPoints", literal(typ, m))
	}
	float := func(p, t string, unless ...string) want {
		if t == "float64" {
			return pointer(p, unless...)
		}
		return pointerOf("float64", p, unless...)
	}
	data := map[string]want{}
	for _, t := range []string{"int64", "float64"} {
		nums := points("NumberDataPoint", map[string]want{"Exemplars": exemplars(t), "Value": number("NumberDataPoint", t)})
		hist := func(more map[string]want) map[string]want {
			m := map[string]want{
				"Count":     from(".Count"),
				"Sum":       float(".Sum", t),
				"Exemplars": exemplars(t),
				"Min":       float(".Min.Value()#0", t, "!$.Min.Value()#1"),
				"Max":       float(".Max.Value()#0", t, "!$.Max.Value()#1"),
			}
			for k, v := range more {
				m[k] = v
			}
			return m
		}
		buckets := func(p string) want {
			return at(p, literal("ExponentialHistogramDataPoint_Buckets", map[string]want{"Offset": from(".Offset"), "BucketCounts": from(".Counts")}))
		}
		data[md("Gauge["+t+"]")] = literal("Metric_Gauge", map[string]want{"Gauge": literal("Gauge", map[string]want{"DataPoints": nums})})
		data[md("Sum["+t+"]")] = literal("Metric_Sum", map[string]want{"Sum": literal("Sum", map[string]want{
			"AggregationTemporality": enum(".Temporality", tmp), "IsMonotonic": from(".IsMonotonic"), "DataPoints": nums})})
		data[md("Histogram["+t+"]")] = literal("Metric_Histogram", map[string]want{"Histogram": literal("Histogram", map[string]want{
			"AggregationTemporality": enum(".Temporality", tmp),
			"DataPoints":             points("HistogramDataPoint", hist(map[string]want{"BucketCounts": from(".BucketCounts"), "ExplicitBounds": from(".Bounds")}))})})
		data[md("ExponentialHistogram["+t+"]")] = literal("Metric_ExponentialHistogram", map[string]want{"ExponentialHistogram": literal("ExponentialHistogram", map[string]want{
			"AggregationTemporality": enum(".Temporality", tmp),
			"DataPoints": points("ExponentialHistogramDataPoint", hist(map[string]want{
				"Scale": from(".Scale"), "ZeroCount": from(".ZeroCount"), "Positive": buckets(".PositiveBucket"), "Negative": buckets(".NegativeBucket")}))})})
	}
	data[md("Summary")] = literal("Metric_Summary", map[string]want{"Summary": literal("Summary", map[string]want{
		"DataPoints": points("SummaryDataPoint", map[string]want{
			"Count": from(".Count"), "Sum": from(".Sum"),
			"QuantileValues": each(".QuantileValues", literal("SummaryDataPoint_ValueAtQuantile", map[string]want{"Quantile": from(".Quantile"), "Value": from(".Value")})),
		})})})
	kinds := map[string]bool{}
	for k := range data {
		kinds[k] = !strings.Contains(k, "Gauge") && !strings.Contains(k, "Summary")
	}
	return literal("Metric", map[string]want{
		"Name":        from(".Name"),
		"Description": from(".Description"),
		"Unit":        from(".Unit"),
		"Data":        byType(".Data", data),
	}), knownKinds(kinds, tmp)
}

// pointerOf is a pointer to a variable with the converted value.
func pointerOf(to, path string, unless ...string) want {
	return func(x *conv, id, in string, got *Term, cond B) {
		for _, a := range x.arms(got, cond) {
			if isZeroVal(a.T) && x.holds(a.C, prefixed(in, unless)) {
				continue
			}
			s := x.show(a.T)
			if a.T.Op == OAlloc && sameLoops(x.e.born[a.T], x.loops) && s == to+"("+in+path+")" && x.given(a.C, prefixed(in, unless)) {
				continue
			}
			x.fail(id, "%s is %s instead of %s(%s) when %s", id, trunc(s, 200), to, in+path, trunc(x.e.CondStr(a.C), 200))
			return
		}
		x.good(id)
	}
}

func c31(c *Check) {
	const rule = "a metric is exported with its own data, in the fields they belong to"
	fn := c.fn("internal/self/metrics/transform.ResourceMetrics")
	e := c.engine()
	r := c.run(e, fn, "rm")
	x := c.conv(e, rule)
	val := r.Val
	if !c.ob("result", rule, val.Op == OTuple && len(val.Args) == 2, fn.Pos(), "the result is %s", trunc(e.Str(val), 200)) {
		return
	}
	metric, known := c.metricWant()
	x.err = val.Args[1]
	literal("ResourceMetrics", map[string]want{
		"Resource":  literal("Resource", map[string]want{"Attributes": each(".Resource.Iter()", keyValue(""))}),
		"SchemaUrl": from(".Resource.SchemaURL()"),
		"ScopeMetrics": each(".ScopeMetrics", literal("ScopeMetrics", map[string]want{
			"Scope":     literal("InstrumentationScope", map[string]want{"Name": from(".Scope.Name"), "Version": from(".Scope.Version")}),
			"SchemaUrl": from(".Scope.SchemaURL"),
			"Metrics":   eachWhen(".Metrics", metric, known),
		})),
	})(x, "metrics", "rm", val.Args[0], bT)
	x.onlyErrors()
	c.Min["objects"], c.Min["fields"], c.Min["lists"] = 100, 300, 30
}

// onlyErrors: what is added to a list of errors is an error.
func (x *conv) onlyErrors() {
	e := x.e
	n := 0
	for _, f := range e.effects {
		if f.Kind != "append" || len(f.Args) != 2 || f.Args[1].Op != OItem {
			continue
		}
		v, ok := f.Instr.(ssa.Value)
		if !ok {
			continue
		}
		if l, ok := v.Type().Underlying().(*types.Slice); !ok || !types.Identical(l.Elem(), errorType) {
			continue
		}
		n++
		bad := e.bdd.And(f.Cond, e.isNil(f.Args[1].Args[0]))
		x.c.ob(fmt.Sprintf("only-errors/%s#%d", shortName(fnName(f.Fn)), n), "an error is reported only when something was left out", isNever(e, bad), f.Pos, "nil is added to the errors when %s", trunc(e.CondStr(bad), 300))
	}
	x.c.Counts["errors that are collected"] += n
}

// reports: the error err is not nil when d held in an iteration of the loops.
func (x *conv) reports(err *Term, loops []*Loop, d B) bool {
	e := x.e
	var collects func(l *Term, depth int) bool
	collects = func(l *Term, depth int) bool {
		if depth > 8 {
			return false
		}
		for _, f := range e.effects {
			if f.Kind != "append" || f.Res == nil || len(f.Args) != 2 || !e.flowsTo(f.Res, l) {
				continue
			}
			it := f.Args[1]
			if it.Op == OSpread {
				// all of another list
				if f.Args[1].Args[0] == l || len(f.Loops) >= len(loops) || !sameLoops(f.Loops, loops[:len(f.Loops)]) {
					continue
				}
				m := bF
				for _, a := range it.Args[0].arms() {
					if !collects(a.T, depth+1) {
						m = e.bdd.Or(m, a.C)
						continue
					}
					m = e.bdd.Or(m, e.bdd.And(e.bdd.Not(e.Cond(e.mk(OIsEmpty, "", a.T))), e.bdd.Not(f.Cond)))
				}
				if isNever(e, m) {
					return true
				}
				continue
			}
			if sameLoops(f.Loops, loops) && isNever(e, e.bdd.And(d, e.bdd.Not(f.Cond))) {
				return true
			}
		}
		return false
	}
	n := 0
	for _, a := range x.arms(err, bT) {
		if a.T.Op != ONil {
			n++
			continue
		}
		ok := false
		for _, s := range e.support(a.C) {
			if s.Op == OIsEmpty && e.bdd.And(a.C, e.bdd.Not(e.Cond(s))) == bF && collects(s.Args[0], 0) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return n > 0
}

// knownKinds are the cases of known types of data, and known temporalities of them.
func knownKinds(kinds map[string]bool, tmp map[string]string) func(x *conv, in string) []B {
	return func(x *conv, in string) []B {
		var out []B
		for _, k := range sortedKeys(kinds) {
			t := x.typeIs(in+".Data", k)
			if t == bT {
				x.fail("kinds/"+k, "%s is not told from other kinds", k)
			}
			if !kinds[k] {
				out = append(out, t)
				continue
			}
			for _, v := range sortedKeys(tmp) {
				out = append(out, x.e.bdd.And(t, x.when(in+".Data.("+k+").Temporality", v)))
			}
		}
		return out
	}
}
