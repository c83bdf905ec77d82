package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- naming

// path names where a value comes from, independent of how the code reaches it:
// ls[*].Data.Metrics.ResourceMetrics[*].SchemaUrl
func (e *Engine) path(t *Term) string {
	if t == nil {
		return "<none>"
	}
	switch t.Op {
	case OParam, OConst, OGlobal, OFunc:
		return t.Aux
	case OField:
		if t.Aux == "*" {
			return e.path(t.Args[0])
		}
		return e.path(t.Args[0]) + "." + t.Aux
	case OAssert, OIface, OContent, OArrSlice:
		return e.path(t.Args[0])
	case OElem:
		return e.path(t.Args[0]) + "[*" + t.Aux + "]"
	case OKey:
		return "key(" + e.path(t.Args[0]) + ")"
	case OIndex:
		return e.path(t.Args[0]) + "[" + e.path(t.Args[1]) + "]"
	case OAddr:
		return e.path(t.Args[0]) + t.Aux
	case OSpread, OItem:
		return e.path(t.Args[0])
	case OLen:
		return "len(" + e.path(t.Args[0]) + ")"
	case OHex:
		return "hex(" + e.path(t.Args[0]) + ")"
	case ONum:
		return "dec(" + e.path(t.Args[0]) + ")"
	case OHash:
		return "hash(" + e.path(t.Args[0]) + ")"
	case OU64:
		return t.Aux + "(" + e.path(t.Args[0]) + ")"
	case OConv:
		return shortName(t.Aux) + "(" + e.path(t.Args[0]) + ")"
	case OBin:
		return "(" + e.path(t.Args[0]) + t.Aux + e.path(t.Args[1]) + ")"
	case OUn:
		return t.Aux + e.path(t.Args[0])
	case OExtract:
		return e.path(t.Args[0]) + "#" + t.Aux
	case OSeq:
		var o []string
		for _, a := range t.Args {
			if a.Op == ONil || a.Op == OZero || (a.Op == OMake) {
				continue
			}
			o = append(o, e.path(a))
		}
		return strings.Join(o, "+")
	case OCall:
		n := t.Aux
		if i := strings.LastIndexByte(n, '@'); i > 0 {
			n = n[:i]
		}
		var o []string
		for _, a := range t.Args {
			o = append(o, e.path(a))
		}
		return shortName(n) + "(" + strings.Join(o, ",") + ")"
	case OChoice:
		var o []string
		for _, a := range t.Arms {
			o = append(o, e.path(a.T))
		}
		sort.Strings(o)
		return "{" + strings.Join(o, "|") + "}"
	}
	return e.Str(t)
}

// alts lists the values t can have when c holds.
func (e *Engine) alts(t *Term, c B) []Arm {
	if t.Op != OChoice {
		return []Arm{{c, t}}
	}
	var out []Arm
	for _, a := range t.Arms {
		if x := e.bdd.And(a.C, c); x != bF && !e.absurd(x) {
			out = append(out, Arm{x, a.T})
		}
	}
	return out
}

// ---- conditions

// exist is the condition for t to be reachable in the input: every oneof on the
// way holds the right alternative, no message is missing.
func (e *Engine) exist(t *Term) B {
	switch t.Op {
	case OAssert:
		return e.bdd.And(e.exist(t.Args[0]), e.Cond(e.mk(OTypeIs, t.Aux, t.Args[0])))
	case OField:
		r := e.exist(t.Args[0])
		if x := t.Args[0]; x.Typ != nil && x.Op != OAssert {
			if _, ok := x.Typ.Underlying().(*types.Pointer); ok {
				r = e.bdd.And(r, e.bdd.Not(e.Cond(e.eq(e.mk(ONil, ""), x, x.Typ))))
			}
		}
		return r
	case OElem:
		return e.bdd.And(e.exist(t.Args[0]), e.bdd.Not(e.Cond(e.isEmpty(t.Args[0]))))
	case OChoice, OLV:
		return bT
	case OAlloc, OMake, OClosure:
		return bT
	}
	r := bT
	for _, a := range t.Args {
		r = e.bdd.And(r, e.exist(a))
	}
	return r
}

// given is exist plus the value itself not being empty.
func (e *Engine) given(t *Term) B {
	return e.bdd.And(e.exist(t), e.bdd.Not(e.Cond(e.isEmpty(t))))
}

func (e *Engine) support(f B) []*Term {
	m := map[int32]bool{}
	e.bdd.Support(f, m)
	var ks []int
	for k := range m {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	var out []*Term
	for _, k := range ks {
		out = append(out, e.atoms[k])
	}
	return out
}

func isErr(t *Term) bool {
	return t.Typ != nil && types.Identical(t.Typ, errorType)
}

func (e *Engine) isErrAtom(a *Term) bool {
	if a.Op != OEq {
		return false
	}
	x, y := a.Args[0], a.Args[1]
	if y.Op == ONil {
		x, y = y, x
	}
	return x.Op == ONil && e.errLike(y)
}

func (e *Engine) errLike(y *Term) bool {
	if isErr(y) {
		return true
	}
	if y.Op == OChoice {
		for _, a := range y.Arms {
			if a.T.Op != ONil && !e.errLike(a.T) {
				return false
			}
		}
		return true
	}
	return false
}

// noErr assumes that no operation outside of the analysed code fails.
func (e *Engine) noErr(f B) B {
	r := bT
	for _, a := range e.support(f) {
		if e.isErrAtom(a) {
			x := e.Cond(a)
			if e.Absent {
				for _, b := range e.support(f) {
					if y, ok := isNotFound(b); ok && (a.Args[0] == y || a.Args[1] == y) {
						x = e.bdd.Or(x, e.Cond(b))
					}
				}
			}
			r = e.bdd.And(r, x)
		}
	}
	return r
}

// isNotFound: the condition a is that the error y means that a key does not exist.
func isNotFound(a *Term) (y *Term, ok bool) {
	missing := func(t *Term) bool {
		return t.Op == OField && t.Args[0].Op == OGlobal && strings.HasSuffix(t.Args[0].Aux, "ErrKeyNotFound")
	}
	switch {
	case a.Op == OCall && a.Aux == "errors.Is" && len(a.Args) == 2 && missing(a.Args[1]):
		return a.Args[0], true
	case a.Op == OEq && missing(a.Args[0]):
		return a.Args[1], true
	case a.Op == OEq && missing(a.Args[1]):
		return a.Args[0], true
	}
	return nil, false
}

// notFound is the condition under which the code sees that a key does not exist.
func (e *Engine) notFound(err *Term) B {
	r := bF
	for _, f := range e.effects {
		for _, a := range e.support(f.Cond) {
			if y, ok := isNotFound(a); ok && y == err {
				r = e.bdd.Or(r, e.bdd.And(e.Cond(a), e.bdd.Not(e.nilErr(err))))
			}
		}
	}
	return r
}

// theory lists facts that hold between the atoms of f.
func (e *Engine) theory(f B) B {
	as := e.support(f)
	r := bT
	and := func(x B) { r = e.bdd.And(r, x) }
	lit := func(t *Term) B { return e.Cond(t) }
	nilOf := func(a *Term) *Term {
		if a.Op == OEq && a.Args[0].Op == ONil {
			return a.Args[1]
		}
		if a.Op == OEq && a.Args[1].Op == ONil {
			return a.Args[0]
		}
		return nil
	}
	for i, a := range as {
		for _, b := range as[i+1:] {
			x, y := a, b
			if x.Op == OTypeIs && y.Op == OTypeIs && x.Args[0] == y.Args[0] {
				and(e.bdd.Not(e.bdd.And(lit(x), lit(y))))
			}
			if x.Op == OEq && y.Op == OEq && x.Args[0].Op == OConst && y.Args[0].Op == OConst &&
				x.Args[1] == y.Args[1] && x.Args[0] != y.Args[0] {
				and(e.bdd.Not(e.bdd.And(lit(x), lit(y))))
			}
			if x.Op == OLt && y.Op == OLt && x.Args[0] == y.Args[1] && x.Args[1] == y.Args[0] {
				and(e.bdd.Not(e.bdd.And(lit(x), lit(y))))
			}
			if x.Op == OLt && y.Op == OEq {
				x, y = y, x
			}
			if x.Op == OEq && y.Op == OLt && (x.Args[0] == y.Args[0] && x.Args[1] == y.Args[1] || x.Args[0] == y.Args[1] && x.Args[1] == y.Args[0]) {
				and(e.bdd.Not(e.bdd.And(lit(x), lit(y))))
			}
			if n, ok := isNotFound(a); ok && n == nilOf(b) {
				and(e.bdd.Not(e.bdd.And(lit(a), lit(b))))
			}
			if n, ok := isNotFound(b); ok && n == nilOf(a) {
				and(e.bdd.Not(e.bdd.And(lit(a), lit(b))))
			}
			x, y = a, b
			if y.Op == OTypeIs {
				x, y = y, x
			}
			if n := nilOf(y); n != nil && x.Op == OTypeIs && n == x.Args[0] {
				and(e.bdd.Not(e.bdd.And(lit(x), lit(y))))
			}
		}
	}
	return r
}

// absurd tells that f can not hold.
func (e *Engine) absurd(f B) bool {
	return f == bF || e.bdd.And(f, e.theory(f)) == bF
}

// implies decides f => g using what is known about the atoms.
func (e *Engine) implies(f, g B) bool { return e.missing(f, g) == bF }

// missing is the part of f that g does not cover.
func (e *Engine) missing(f, g B) B {
	r := e.bdd.And(f, e.bdd.Not(g))
	if r == bF {
		return bF
	}
	if x := e.bdd.And(r, e.theory(r)); x == bF {
		return bF
	} else {
		r = x
	}
	if x := e.bdd.And(r, e.noErr(r)); x == bF {
		return bF
	} else {
		r = x
	}
	if x := e.bdd.And(r, e.complete(r)); x == bF {
		return bF
	} else {
		r = x
	}
	return r
}

// complete says that loops which are left early only because of an error are not
// left early.
func (e *Engine) complete(f B) B {
	r := bT
	for _, a := range e.support(f) {
		if a.Op != OBroke {
			continue
		}
		m := e.memo[a.Aux]
		if m != nil && e.neverLeft(m.loop) {
			r = e.bdd.And(r, e.bdd.Not(e.Cond(a)))
		}
	}
	return r
}

// neverLeft: without errors the loop visits all of its elements.
func (e *Engine) neverLeft(l *Loop) bool {
	for _, x := range l.Exits {
		c := x.Cond
		if c == bF {
			continue
		}
		c = e.bdd.And(c, e.noErr(c))
		c = e.bdd.And(c, e.theory(c))
		if c != bF {
			c = e.bdd.And(c, e.complete(c))
		}
		if c != bF {
			return false
		}
	}
	return true
}

// allOf: the loops visit every element of what they iterate.
func (e *Engine) allOf(ls []*Loop) string {
	for _, l := range ls {
		switch l.Kind {
		case "range", "reverse", "iter", "callback":
			if !e.neverLeft(l) {
				return fmt.Sprintf("the loop at %s over %s can end before it visited everything: when %s", e.P.pos(l.Pos), e.loopStr(l), e.CondStr(l.Exits[0].Cond))
			}
		default:
			return fmt.Sprintf("the loop at %s does not visit everything of a collection", e.P.pos(l.Pos))
		}
	}
	return ""
}

// ---- reporting

type Obl struct {
	Key    string `json:"key"`
	Rule   string `json:"rule"`
	OK     bool   `json:"ok"`
	Detail string `json:"detail,omitempty"`
	Pos    string `json:"pos,omitempty"`
}

type Check struct {
	P        *Program
	ID       string
	Tier     string
	Obls     []Obl
	Counts   map[string]int
	Min      map[string]int
	Assume   []string
	engs     []*Engine
	prefixes map[string]string
}

func (c *Check) ob(key, rule string, ok bool, pos token.Pos, format string, args ...any) bool {
	o := Obl{Key: key, Rule: rule, OK: ok}
	if pos.IsValid() {
		o.Pos = c.P.pos(pos)
	}
	if !ok {
		o.Detail = fmt.Sprintf(format, args...)
	}
	c.Obls = append(c.Obls, o)
	return ok
}

// count records how many instances of something were analysed; fewer than min is
// a failure.
func (c *Check) count(what string, n, min int) {
	c.Counts[what] += n
	c.Min[what] = min
}

func (c *Check) assume(s string) {
	for _, x := range c.Assume {
		if x == s {
			return
		}
	}
	c.Assume = append(c.Assume, s)
}

func (c *Check) fn(name string) *ssa.Function {
	f, err := c.P.fn(name)
	if err != nil {
		panic(analysisError{err.Error()})
	}
	return f
}

func (c *Check) engine() *Engine {
	e := newEngine(c.P)
	c.engs = append(c.engs, e)
	return e
}

// run analyses fn; names are given to its parameters in order, receiver first.
func (c *Check) run(e *Engine, fn *ssa.Function, names ...string) *Result {
	var args []*Term
	for i, p := range fn.Params {
		n := fmt.Sprintf("$%d", i)
		if i < len(names) {
			n = names[i]
		}
		args = append(args, e.mkT(p.Type(), OParam, n))
	}
	c.Counts["entry points analysed"]++
	r := e.run(fn, args)
	return r
}

func (c *Check) constVal(pkg, name string) string {
	if p := c.P.pkg(pkg); p != nil {
		pkg = p.Pkg.Path()
	}
	o, ok := c.P.object(pkg, name).(*types.Const)
	if !ok {
		panic(analysisError{"no constant " + pkg + "." + name})
	}
	return o.Val().ExactString()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "…"
	}
	return s
}

// subst replaces terms inside byte sequences.
func (e *Engine) subst(t *Term, m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	switch t.Op {
	case OSeq:
		var ps []*Term
		for _, p := range t.Args {
			if p.Op == OItem || p.Op == OSpread {
				ps = append(ps, e.pieces(e.mk(OSeq, t.Aux, e.mk(ONil, ""), e.mk(p.Op, "", e.subst(p.Args[0], m))))...)
			} else {
				ps = append(ps, e.pieces(p)...)
			}
		}
		return e.bytesOf(ps)
	case ONum:
		return e.num(e.subst(t.Args[0], m))
	case OHex:
		return e.hex(e.subst(t.Args[0], m))
	case OConv:
		x := e.subst(t.Args[0], m)
		if x.Op == OConst {
			return x
		}
		return e.mkT(t.Typ, OConv, t.Aux, x)
	}
	return t
}

// find lists the subterms of t that satisfy f.
func findTerms(t *Term, f func(*Term) bool) []*Term {
	var out []*Term
	anyTerm(t, func(x *Term) bool {
		if f(x) {
			out = append(out, x)
		}
		return false
	})
	return out
}

// colls is the set of collections t is an element of.
func colls(ts ...*Term) map[*Term]bool {
	m := map[*Term]bool{}
	for _, t := range ts {
		anyTerm(t, func(x *Term) bool {
			if x.Op == OElem || x.Op == OIdx || x.Op == OKey {
				m[x.Args[0]] = true
			}
			return false
		})
	}
	return m
}

// fieldOf is the name of the one field of a struct that has a type, for fields whose name may change.
func (c *Check) fieldOf(named types.Type, what string, ok func(t types.Type) bool) string {
	s, _ := bareType(named).Underlying().(*types.Struct)
	found := ""
	if s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if ok(s.Field(i).Type()) {
				if found != "" {
					panic(analysisError{"two fields of " + named.String() + " hold " + what})
				}
				found = s.Field(i).Name()
			}
		}
	}
	if found == "" {
		panic(analysisError{"no field of " + named.String() + " holds " + what})
	}
	return found
}

func bareType(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// pointerTo tells whether t is a pointer to a type of the repository.
func (c *Check) pointerTo(rel string) func(types.Type) bool {
	return func(t types.Type) bool {
		p, ok := t.(*types.Pointer)
		return ok && strings.TrimPrefix(p.Elem().String(), c.P.Mod+"/") == rel
	}
}

// oneFn is the one function of the repository that is asked for.
func (c *Check) oneFn(what string, ok func(*ssa.Function) bool) *ssa.Function {
	var found *ssa.Function
	for _, f := range c.P.All {
		if f.Synthetic == "" && f.Parent() == nil && ok(f) {
			if found != nil && found != f {
				panic(analysisError{"two functions are " + what})
			}
			found = f
		}
	}
	if found == nil {
		panic(analysisError{"nothing is " + what})
	}
	return found
}
