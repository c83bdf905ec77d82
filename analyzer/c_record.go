package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- record format

func init() {
	register("C38", "for every kind of field, repeated or not, inside a oneof or not, the node that is made for it is computed symbolically, and then what its writer does with a value that is set or not, and what its reader does: the same builder, column type and array, conversions that lose nothing in either direction, absence kept where it can be told, every element of lists and every field of messages visited, and columns found under the names they were given", c38)
}

const protoRefl = "google.golang.org/protobuf/reflect/protoreflect."
const arrowPkg = "github.com/apache/arrow/go/v17/"

type recField struct {
	kind        int64
	name        string
	list, oneof bool
	msg         string // "", "message" or "any"
}

func (f recField) String() string {
	s := f.name
	if f.list {
		s = "repeated " + s
	}
	if f.oneof {
		s += " in a oneof"
	}
	return s
}

// recDomain: which values a kind has, by which accessor and constructor they are
// taken from and put into a value.
type recDomain struct {
	dom, get string
	make     []string
}

var recKinds = []struct {
	name string
	kind int64
	d    recDomain
}{
	{"enum", 14, recDomain{"i32", "Enum", []string{"ValueOfEnum"}}},
	{"bool", 8, recDomain{"bool", "Bool", []string{"ValueOfBool"}}},
	{"int32", 5, recDomain{"i32", "Int", []string{"ValueOfInt32"}}},
	{"sint32", 17, recDomain{"i32", "Int", []string{"ValueOfInt32"}}},
	{"sfixed32", 15, recDomain{"i32", "Int", []string{"ValueOfInt32"}}},
	{"uint32", 13, recDomain{"u32", "Uint", []string{"ValueOfUint32"}}},
	{"fixed32", 7, recDomain{"u32", "Uint", []string{"ValueOfUint32"}}},
	{"int64", 3, recDomain{"i64", "Int", []string{"ValueOfInt64"}}},
	{"sint64", 18, recDomain{"i64", "Int", []string{"ValueOfInt64"}}},
	{"sfixed64", 16, recDomain{"i64", "Int", []string{"ValueOfInt64"}}},
	{"uint64", 4, recDomain{"u64", "Uint", []string{"ValueOfUint64"}}},
	{"fixed64", 6, recDomain{"u64", "Uint", []string{"ValueOfUint64"}}},
	{"float", 2, recDomain{"f32", "Float", []string{"ValueOfFloat32"}}},
	{"double", 1, recDomain{"f64", "Float", []string{"ValueOfFloat64"}}},
	{"string", 9, recDomain{"string", "String", []string{"ValueOfString"}}},
	{"bytes", 12, recDomain{"bytes", "Bytes", []string{"ValueOfBytes"}}},
}

// recHolds: the columns that hold a domain, and the basic types which do.
var recHolds = map[string]struct{ cols, types []string }{
	"i32":    {[]string{"Int32", "Int64"}, []string{"int32", "int64", "int"}},
	"u32":    {[]string{"Uint32", "Uint64", "Int64"}, []string{"uint32", "uint64", "uint", "int64", "int"}},
	"i64":    {[]string{"Int64"}, []string{"int64", "int"}},
	"u64":    {[]string{"Uint64"}, []string{"uint64", "uint"}},
	"f32":    {[]string{"Float32", "Float64"}, []string{"float32", "float64"}},
	"f64":    {[]string{"Float64"}, []string{"float64"}},
	"bool":   {[]string{"Boolean"}, []string{"bool"}},
	"string": {[]string{"String", "LargeString"}, []string{"string"}},
	"bytes":  {[]string{"Binary", "LargeBinary"}, []string{"[]byte", "[]uint8"}},
}

// recNames are the fields of a node, found by their types.
type recNames struct {
	node                                             *types.Named
	setup, encode, write, field, desc, children, idx string
	create                                           *ssa.Function
}

type recModel struct {
	c *Check
	e *Engine
	f recField
	n *recNames
}

func typeStr(t types.Type) string { return types.TypeString(t, nil) }

func (c *Check) recNames() *recNames {
	p := c.P.pkg("internal/arrow3")
	if p == nil {
		panic(analysisError{"no package internal/arrow3"})
	}
	var found *recNames
	for _, m := range p.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		nt, ok := t.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		n := &recNames{node: nt}
		for i := 0; i < st.NumFields(); i++ {
			v := st.Field(i)
			switch u := v.Type().Underlying().(type) {
			case *types.Signature:
				ps, rs := u.Params(), u.Results()
				switch {
				case ps.Len() == 3 && rs.Len() == 1 && typeStr(rs.At(0).Type()) == protoRefl+"Value":
					n.encode = v.Name()
				case ps.Len() == 1 && rs.Len() == 1 && strings.HasSuffix(typeStr(ps.At(0).Type()), "array.Builder"):
					n.setup = v.Name()
				case ps.Len() == 2 && rs.Len() == 1:
					n.write = v.Name()
				}
			case *types.Map:
				n.idx = v.Name()
			case *types.Slice:
				n.children = v.Name()
			default:
				switch {
				case strings.HasSuffix(typeStr(v.Type()), "arrow.Field"):
					n.field = v.Name()
				case strings.HasPrefix(typeStr(v.Type()), protoRefl):
					n.desc = v.Name()
				}
			}
		}
		if n.encode != "" && n.setup != "" && n.field != "" {
			found = n
		}
	}
	if found == nil || found.desc == "" || found.children == "" || found.idx == "" {
		panic(analysisError{"the nodes of the record format were not found"})
	}
	for _, f := range c.P.All {
		if fnPkg(f) == nil || fnPkg(f) != p.Pkg || f.Parent() != nil || f.Signature.Results().Len() != 1 {
			continue
		}
		if r, ok := f.Signature.Results().At(0).Type().(*types.Pointer); !ok || !types.Identical(r.Elem(), found.node) {
			continue
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if typeStr(f.Signature.Params().At(i).Type()) == protoRefl+"FieldDescriptor" && calls(f, f) {
				found.create = f
			}
		}
	}
	if found.create == nil {
		panic(analysisError{"no function makes the node of a field"})
	}
	return found
}

// calls: a calls b, directly or through functions of its package.
func calls(a, b *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, x := range f.AnonFuncs {
			if walk(x) {
				return true
			}
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					g := call.Common().StaticCallee()
					if g == b || g != nil && fnPkg(g) == fnPkg(a) && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(a)
}

func (m *recModel) constBool(v bool) *Term {
	return m.e.mkT(types.Typ[types.Bool], OConst, fmt.Sprint(v))
}

func (m *recModel) hooks() {
	e := m.e
	e.Hook = map[string]model{}
	desc := "(" + protoRefl + "FieldDescriptor)."
	set := func(name string, t func(sig *types.Signature) *Term) {
		e.Hook[desc+name] = func(fr *frame, n string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
			sig := in.(ssa.CallInstruction).Common().Signature()
			if args[0].Op != OParam || args[0].Aux != "field" {
				return fr.outside(n, nil, sig, args, in, st)
			}
			return t(sig), st
		}
	}
	b := func(v bool) func(*types.Signature) *Term {
		return func(*types.Signature) *Term { return m.constBool(v) }
	}
	num := func(v int64) func(*types.Signature) *Term {
		return func(s *types.Signature) *Term { return e.mkT(s.Results().At(0).Type(), OConst, fmt.Sprint(v)) }
	}
	obj := func(v bool, name string) func(*types.Signature) *Term {
		return func(s *types.Signature) *Term {
			t := s.Results().At(0).Type()
			if !v {
				return e.typed(e.mk(ONil, ""), t)
			}
			return e.mkT(t, OIface, name, e.mk(OParam, name))
		}
	}
	card := int64(1)
	if m.f.list {
		card = 3
	}
	set("IsList", b(m.f.list))
	set("IsMap", b(false))
	set("HasOptionalKeyword", b(false))
	set("HasPresence", b(m.f.oneof || m.f.msg != "" && !m.f.list))
	set("Cardinality", num(card))
	set("Kind", num(m.f.kind))
	set("ContainingOneof", obj(m.f.oneof, "oneof"))
	set("Message", obj(m.f.msg != "", "message"))
	e.Pure = func(n string) bool {
		return strings.Contains(n, protoRefl) || strings.Contains(n, arrowPkg+"arrow")
	}
}

// assume: what holds without being said: the types of the arrow package exist, and
// messages are, or are not, values of attributes.
func (m *recModel) assume() B {
	e := m.e
	a := bT
	for _, t := range append([]*Term{}, e.atoms...) {
		if t == nil {
			continue
		}
		v := e.bdd.Var(e.vars[t.ID])
		s := e.Str(t)
		switch {
		case strings.HasPrefix(s, "nil=="+arrowPkg):
			a = e.bdd.And(a, e.bdd.Not(v))
		case m.isKind(t) && m.f.msg != "":
			if m.f.msg == "any" {
				a = e.bdd.And(a, v)
			} else {
				a = e.bdd.And(a, e.bdd.Not(v))
			}
		case t.Op == OLt && len(findTerms(t, func(x *Term) bool { return x.Op == OParam && x.Aux == "depth" })) > 0:
			// messages are not deeper than nodes
			if len(t.Args) == 2 && t.Args[0].Op == OParam {
				a = e.bdd.And(a, v)
			} else {
				a = e.bdd.And(a, e.bdd.Not(v))
			}
		}
	}
	return a
}

// isKind: a comparison with the descriptor, or the name, of the message.
func (m *recModel) isKind(t *Term) bool {
	if t.Op != OEq {
		return false
	}
	for _, a := range t.Args {
		for a.Op == OConv || a.Op == OIface && a.Aux != "message" {
			a = a.Args[0]
		}
		if x := m.callArgs(a, "Name"); x != nil {
			a = x[0]
		}
		if (a.Op == OParam || a.Op == OIface) && a.Aux == "message" {
			return true
		}
	}
	return false
}

// noErr: nothing has failed since effect n.
func (m *recModel) noErr(n int) B {
	e := m.e
	a := bT
	for _, f := range e.effects[n:] {
		if f.Kind == "error" && f.Res != nil {
			// errors that are made here are the consequence of others
			if c := e.isNil(f.Res); c != bF && !strings.HasPrefix(f.Callee, "fmt.") && !strings.Contains(f.Callee, "errors.") {
				a = e.bdd.And(a, c)
			}
		}
	}
	return a
}

func (m *recModel) callArgs(t *Term, name string) []*Term {
	if t == nil || t.Op != OCall {
		return nil
	}
	n := t.Aux
	if i := strings.Index(n, "@"); i > 0 {
		n = n[:i]
	}
	if strings.HasSuffix(n, name) {
		return t.Args
	}
	return nil
}

// root strips assertions and embedding from a builder or array.
func recRoot(t *Term) (*Term, string) {
	typ := ""
	for {
		switch t.Op {
		case OAssert:
			if typ == "" {
				typ = t.Aux
				if t.Typ != nil {
					typ = typeStr(t.Typ)
				}
			}
			t = t.Args[0]
		case OAddr, OIface, OField:
			t = t.Args[0]
		default:
			return t, typ
		}
	}
}

func arrayName(typ string) string {
	if i := strings.LastIndex(typ, "."); i >= 0 {
		typ = typ[i+1:]
	}
	return typ
}

type recEvent struct {
	root   *Term
	typ    string
	method string
	args   []*Term
	cond   B
	f      *Effect
}

// events are the writes to builders since effect n.
func (m *recModel) events(n int, given B) (out []recEvent) {
	e := m.e
	for _, f := range e.effects[n:] {
		if f.Kind != "call" || !strings.Contains(f.Callee, arrowPkg+"arrow/array.") || len(f.Args) == 0 {
			continue
		}
		b := methodBase(f.Callee)
		if !strings.HasPrefix(b, "Append") && !strings.HasPrefix(b, "UnsafeAppend") && !strings.HasPrefix(b, "SetNull") {
			continue
		}
		c := e.bdd.And(f.Cond, given)
		if isNever(e, c) {
			continue
		}
		r, t := recRoot(f.Args[0])
		if t == "" {
			i := strings.Index(f.Callee, "array.")
			t = strings.TrimSuffix(f.Callee[i+6:], ")."+b)
		}
		out = append(out, recEvent{r, arrayName(t), b, f.Args[1:], c, f})
	}
	return
}

func isWord(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// keepsAll strips conversions between types that hold the domain.
func keepsAll(t *Term, dom string) (*Term, string) {
	for t.Op == OConv {
		u := t.Aux
		if t.Typ != nil {
			u = typeStr(t.Typ.Underlying())
		}
		if !isWord(u, recHolds[dom].types) {
			return t, u
		}
		t = t.Args[0]
	}
	return t, ""
}

func trueConst(t *Term) bool {
	return t.Op == OConst && t.Aux == "true" || t.Op == OBool && t.B == bT
}

// element: how the elements of the list in value are taken out of it; the event is
// in a loop over all of them.
func (m *recModel) element(ev recEvent, value *Term, given B) (*Term, string) {
	e := m.e
	if len(ev.f.Loops) == 0 {
		return nil, "elements are not written in a loop"
	}
	l := ev.f.Loops[0]
	if l.Kind != "range" && l.Kind != "iter" {
		return nil, "the elements are not visited in order"
	}
	for _, x := range l.Exits {
		if !isNever(e, e.bdd.And(x.Cond, given)) {
			return nil, "the loop over the elements can end early, when " + trunc(e.CondStr(x.Cond), 200)
		}
	}
	ln := m.callArgs(l.Over, "List).Len")
	if ln == nil {
		return nil, "the loop visits " + trunc(e.Str(l.Over), 100)
	}
	lv := m.callArgs(ln[0], "Value).List")
	if lv == nil || lv[0] != value {
		return nil, "the elements are those of " + trunc(e.Str(ln[0]), 100)
	}
	get := findTerms(m.all(ev), func(t *Term) bool { return m.callArgs(t, "List).Get") != nil })
	for _, g := range get {
		if g.Args[0] == ln[0] && g.Args[1].Op == OIdx && g.Args[1].Args[0] == l.Over {
			return g, ""
		}
	}
	return nil, "no element is taken from the list at the position of the loop"
}

func (m *recModel) all(ev recEvent) *Term {
	return m.e.mk(OTuple, "", append([]*Term{}, ev.args...)...)
}

func c38(c *Check) {
	n := c.recNames()
	for _, k := range recKinds {
		for _, list := range []bool{false, true} {
			for _, oneof := range []bool{false, true} {
				if list && oneof {
					continue
				}
				d := k.d
				c.recNode(n, recField{kind: k.kind, name: k.name, list: list, oneof: oneof}, &d)
			}
		}
	}
	for _, msg := range []string{"any", "message"} {
		for _, list := range []bool{false, true} {
			for _, oneof := range []bool{false, true} {
				if list && oneof {
					continue
				}
				name := "message"
				if msg == "any" {
					name = "attribute value"
				}
				c.recNode(n, recField{kind: 11, name: name, list: list, oneof: oneof, msg: msg}, nil)
			}
		}
	}
	c.recRoots(n)
	c.Min["kinds of fields"] = 54
}

type recWriter struct {
	err    string
	events []recEvent
	n      int
	given  B
	res    *Term
}

func (c *Check) recNode(n *recNames, f recField, d *recDomain) {
	e := c.engine()
	m := &recModel{c: c, e: e, f: f, n: n}
	m.hooks()
	var names []string
	for _, p := range n.create.Params {
		switch {
		case typeStr(p.Type()) == protoRefl+"FieldDescriptor":
			names = append(names, "field")
		case types.Identical(p.Type(), types.NewPointer(n.node)):
			names = append(names, "parent")
		default:
			names = append(names, "depth")
		}
	}
	c.Counts["kinds of fields"]++
	r := c.run(e, n.create, names...)
	g := e.bdd.And(r.Cond, m.assume())
	pos := n.create.Pos()
	key := strings.ReplaceAll(f.String(), " ", "-")
	if f.msg == "any" {
		// that they are told apart
		var cmp []*Term
		for _, t := range e.atoms {
			if t != nil && m.isKind(t) {
				cmp = append(cmp, t)
			}
		}
		ok := len(cmp) > 0
		for _, t := range cmp {
			ok = ok && strings.Contains(e.Str(t), "AnyValue")
		}
		c.ob(key+"/told", "values of attributes are told apart by their type", ok, pos, "%d comparisons with the type of the message", len(cmp))
	}
	count := 0
	for _, a := range e.alts(r.Val, g) {
		if isNever(e, a.C) {
			continue
		}
		obj := a.T
		part := func(name string) []Arm { return e.alts(e.at(r.St, obj, name), a.C) }
		null := e.load(r.St, e.addr(obj, "."+n.field+".Nullable"), nil)
		nullable := bF
		for _, x := range e.alts(null, a.C) {
			switch {
			case trueConst(x.T):
				nullable = e.bdd.Or(nullable, x.C)
			case x.T.Op == OBool:
				nullable = e.bdd.Or(nullable, e.bdd.And(x.C, x.T.B))
			}
		}
		name := e.load(r.St, e.addr(obj, "."+n.field+".Name"), nil)
		nm := name
		for nm.Op == OConv {
			nm = nm.Args[0]
		}
		na := m.callArgs(nm, "Name")
		c.ob(key+"/name", "columns are named after their fields", na != nil && na[0].Op == OParam && na[0].Aux == "field", pos, "the column is named %s", trunc(e.Str(name), 120))
		ds := e.at(r.St, obj, n.desc)
		if ds.Op == OIface {
			ds = ds.Args[0]
		}
		c.ob(key+"/field", "the node of a field keeps its descriptor", ds.Op == OParam && ds.Aux == "field", pos, "the node has the descriptor %s", trunc(e.Str(ds), 120))
		for _, w := range part(n.setup) {
			if isNever(e, w.C) {
				continue
			}
			if !c.ob(key+"/writer", "every field has a writer", w.T.Fn != nil, pos, "the writer is %s", trunc(e.Str(w.T), 100)) {
				continue
			}
			ty := e.load(r.St, e.addr(obj, "."+n.field+".Type"), nil)
			col := ""
			for _, x := range e.alts(ty, w.C) {
				if isNever(e, x.C) {
					continue
				}
				s := m.column(x.T)
				if col != "" && col != s {
					s = "?"
				}
				col = s
			}
			m.checkWriter(key, r, w, d, col, !e.implies(w.C, nullable))
			count++
		}
		for _, rd := range part(n.encode) {
			if isNever(e, rd.C) {
				continue
			}
			if !c.ob(key+"/reader", "every field has a reader", rd.T.Fn != nil, pos, "the reader is %s", trunc(e.Str(rd.T), 100)) {
				continue
			}
			m.checkReader(key, r, rd, d)
		}
		if f.msg == "message" && !f.list && !f.oneof {
			m.childNodes(key, r, obj, a.C, n, func(fields *Term) bool {
				fa := m.callArgs(fields, "MessageDescriptor).Fields")
				return fa != nil && len(findTerms(fa[0], func(x *Term) bool { return x.Op == OParam && x.Aux == "message" })) > 0
			})
		}
	}
	c.ob(key+"/node", "every field that can be stored has a node", count > 0, pos, "no node is made for a field that is %s", f)
}

// column names the type of a column: "Int64", "List<Int64>", "Struct".
func (m *recModel) column(t *Term) string {
	e := m.e
	if t.Op == OIface && t.Args[0].Op == OCall {
		return m.column(t.Args[0])
	}
	for _, l := range []string{"arrow.ListOf", "arrow.ListOfNonNullable"} {
		if a := m.callArgs(t, l); a != nil {
			return "List<" + m.column(a[0]) + ">"
		}
	}
	if m.callArgs(t, "arrow.StructOf") != nil {
		return "Struct"
	}
	s := e.Str(t)
	if t.Op == OIface {
		return strings.TrimSuffix(arrayName(t.Aux), "Type")
	}
	for _, p := range []string{"arrow.PrimitiveTypes.", "arrow.FixedWidthTypes.", "arrow.BinaryTypes."} {
		if i := strings.LastIndex(s, p); i >= 0 && !strings.ContainsAny(s[i+len(p):], " {;>.") {
			return s[i+len(p):]
		}
	}
	return "<" + trunc(s, 80) + ">"
}

func (m *recModel) eval(fn *Term, st *State, key string, args ...*Term) (*Term, *State, int) {
	e := m.e
	e.cur = bT
	n := len(e.effects)
	cx := &Ctx{id: e.ctxID(nil, nil, key), fn: fn.Fn}
	v, s := e.evalFn(fn.Fn, args, fn.Args, st, cx)
	if s == nil {
		s = st
	}
	return v, s, n
}

func (m *recModel) checkWriter(key string, r *Result, w Arm, d *recDomain, col string, notNull bool) {
	c, e, f := m.c, m.e, m.f
	pos := w.T.Fn.Pos()
	builder := e.mkT(w.T.Fn.Params[0].Type(), OParam, "builder")
	v, st, n0 := m.eval(w.T, r.St, "setup", builder)
	if f.msg == "message" {
		m.childWriters(key, n0, builder)
	}
	for _, fn := range e.alts(v, e.bdd.And(w.C, m.assume())) {
		if isNever(e, fn.C) {
			continue
		}
		if !c.ob(key+"/writer", "every field has a writer", fn.T.Fn != nil, pos, "the writer is %s", trunc(e.Str(fn.T), 100)) {
			continue
		}
		for _, set := range []bool{true, false} {
			value := e.mkT(fn.T.Fn.Params[0].Type(), OParam, "value")
			_, _, n1 := m.eval(fn.T, st, fmt.Sprint("write", set), value, m.constBool(set))
			given := e.bdd.And(e.bdd.And(fn.C, m.assume()), m.noErr(n1))
			evs := m.events(n1, given)
			rule := "a value that is set is written once, unchanged, to a column that can hold it"
			k := key + "/set"
			if !set {
				rule = "a field that is not set is written as what reads as not set"
				k = key + "/unset"
			}
			why := ""
			switch {
			case set:
				why = m.written(evs, n1, builder, value, d, col, given)
			default:
				why = m.absent(evs, n1, builder, value, d, col, given, notNull)
			}
			c.ob(k, rule, why == "", fn.T.Fn.Pos(), "%s: %s", f, why)
		}
	}
}

// one: exactly one of the events is for the builder itself, unconditional.
func (m *recModel) one(evs []recEvent, builder *Term, given B) (*recEvent, []recEvent, string) {
	e := m.e
	var own *recEvent
	var rest []recEvent
	for i, ev := range evs {
		if ev.root != builder {
			rest = append(rest, ev)
			continue
		}
		if own != nil {
			return nil, nil, "more than one row is written"
		}
		own = &evs[i]
	}
	if own == nil {
		return nil, rest, "no row is written"
	}
	if len(own.f.Loops) > 0 {
		return nil, rest, "rows are written in a loop"
	}
	if x := e.missing(given, own.cond); x != bF {
		return nil, rest, "no row is written when " + trunc(e.CondStr(x), 200)
	}
	return own, rest, ""
}

func (m *recModel) written(evs []recEvent, n int, builder, value *Term, d *recDomain, col string, given B) string {
	e := m.e
	own, rest, why := m.one(evs, builder, given)
	if why != "" {
		return why
	}
	if !m.f.list {
		if m.f.msg == "message" {
			return m.structWritten(*own, rest, n, value, col, given)
		}
		if len(rest) > 0 {
			return "something else is written to " + trunc(e.Str(rest[0].root), 80)
		}
		return m.scalarWritten(*own, value, d, col)
	}
	if strings.TrimSuffix(strings.TrimPrefix(own.typ, "base"), "Builder") != "List" || own.method != "Append" || !trueConst(own.args[0]) {
		return "a list is written by " + own.method + " of a " + own.typ
	}
	if !strings.HasPrefix(col, "List<") {
		return "a list is written to a column of type " + col
	}
	col = strings.TrimSuffix(strings.TrimPrefix(col, "List<"), ">")
	if own.f.Seq > 0 {
		for _, ev := range rest {
			if ev.f.Seq < own.f.Seq {
				return "elements are written before their list is started"
			}
		}
	}
	var vals *recEvent
	var deeper []recEvent
	for i, ev := range rest {
		vb := m.callArgs(ev.root, "ValueBuilder")
		if vb == nil {
			deeper = append(deeper, ev)
			continue
		}
		if x, _ := recRoot(vb[0]); x != builder {
			return "elements are written to another list"
		}
		if vals != nil {
			return "an element is written twice"
		}
		vals = &rest[i]
	}
	if vals == nil {
		return "no elements are written"
	}
	if m.f.msg == "message" {
		return m.structWritten(*vals, deeper, n, value, col, given)
	}
	if len(deeper) > 0 {
		return "something else is written to " + trunc(e.Str(deeper[0].root), 80)
	}
	src, why := m.element(*vals, value, given)
	if why != "" {
		return why
	}
	if x := e.missing(given, vals.cond); x != bF {
		return "an element is left out when " + trunc(e.CondStr(x), 200)
	}
	return m.scalarWritten(*vals, src, d, col)
}

func (m *recModel) scalarWritten(ev recEvent, src *Term, d *recDomain, col string) string {
	e := m.e
	b := strings.TrimSuffix(ev.typ, "Builder")
	if b != col {
		return "a column of type " + col + " is written with a " + ev.typ
	}
	if ev.method != "Append" && ev.method != "AppendString" {
		return "the value is written by " + ev.method
	}
	if d == nil {
		if b != "Binary" && b != "LargeBinary" {
			return "an encoded message is written to a column of type " + b
		}
		for _, a := range e.alts(ev.args[0], ev.cond) {
			t := a.T
			if t.Op == OExtract && t.Aux == "0" {
				t = t.Args[0]
			}
			ma := m.callArgs(t, "proto.Marshal")
			if ma == nil {
				return trunc(e.Str(a.T), 120) + " is written"
			}
			x, _ := recRoot(ma[len(ma)-1])
			i := m.callArgs(x, "Message).Interface")
			if i == nil {
				return "the message that is written is " + trunc(e.Str(x), 120)
			}
			mm := m.callArgs(i[0], "Value).Message")
			if mm == nil || mm[0] != src {
				return "the message that is written is " + trunc(e.Str(x), 120)
			}
		}
		return ""
	}
	if !isWord(b, recHolds[d.dom].cols) {
		return "a column of type " + b + " does not hold all values"
	}
	for _, a := range e.alts(ev.args[0], ev.cond) {
		t, bad := keepsAll(a.T, d.dom)
		if bad != "" {
			return "the value is converted to " + bad
		}
		ga := m.callArgs(t, "Value)."+d.get)
		if ga == nil || ga[0] != src {
			return trunc(e.Str(a.T), 160) + " is written"
		}
	}
	return ""
}

// structWritten: a row of a struct, and then every field of the message.
func (m *recModel) structWritten(ev recEvent, rest []recEvent, n int, value *Term, col string, given B) string {
	e := m.e
	if ev.method != "Append" || !trueConst(ev.args[0]) || strings.TrimSuffix(ev.typ, "Builder") != "Struct" {
		return "a message is written by " + ev.method + " of a " + ev.typ
	}
	if col != "Struct" {
		return "a message is written to a column of type " + col
	}
	if x := e.missing(given, ev.cond); x != bF {
		return "a message is left out when " + trunc(e.CondStr(x), 200)
	}
	if len(rest) > 0 {
		return "something else is written to " + trunc(e.Str(rest[0].root), 80)
	}
	why := m.fieldsWritten(n, given, func(msg *Term, loops []*Loop) string {
		mm := m.callArgs(msg, "Value).Message")
		if mm == nil {
			return "the fields of " + trunc(e.Str(msg), 100) + " are written"
		}
		if !m.f.list {
			if mm[0] != value {
				return "the fields of " + trunc(e.Str(mm[0]), 100) + " are written"
			}
			return ""
		}
		if len(loops) == 0 {
			return "the elements are not written in a loop"
		}
		x := ev
		x.args = []*Term{mm[0]}
		src, why := m.element(x, value, given)
		if why == "" && src != mm[0] {
			why = "the fields of " + trunc(e.Str(mm[0]), 100) + " are written"
		}
		return why
	})
	return why
}

// fieldsWritten: the writer of each field is called with the value of that field.
func (m *recModel) fieldsWritten(n int, given B, isMsg func(msg *Term, outer []*Loop) string) string {
	e := m.e
	count := 0
	for _, f := range e.effects[n:] {
		if f.Kind != "call" || f.Callee != "dynamic" && !strings.HasSuffix(f.Callee, "dynamic") || isNever(e, e.bdd.And(f.Cond, given)) {
			continue
		}
		if len(f.Args) < 3 {
			continue
		}
		count++
		get, has := m.callArgs(f.Args[1], "Message).Get"), m.callArgs(f.Args[2], "Message).Has")
		if get == nil {
			return "the writer of a field is given " + trunc(e.Str(f.Args[1]), 120)
		}
		if has == nil {
			return "whether a field is set is " + trunc(e.Str(f.Args[2]), 120)
		}
		if get[0] != has[0] || get[1] != has[1] {
			return "whether a field is set is asked of another one"
		}
		if len(f.Loops) == 0 {
			return "the fields are not visited in a loop"
		}
		l := f.Loops[len(f.Loops)-1]
		if why := isMsg(get[0], f.Loops[:len(f.Loops)-1]); why != "" {
			return why
		}
		fg := m.callArgs(get[1], "FieldDescriptors).Get")
		ln := m.callArgs(l.Over, "FieldDescriptors).Len")
		if l.Kind != "range" || fg == nil || ln == nil && e.Str(fg[1]) == "" {
			return "the fields are not visited in order: " + trunc(e.Str(get[1]), 100)
		}
		if ln != nil && ln[0] != fg[0] || fg[1].Op != OIdx || fg[1].Args[0] != l.Over {
			return "not every field is visited: " + trunc(e.loopStr(l), 100)
		}
		for _, x := range l.Exits {
			if !isNever(e, e.bdd.And(x.Cond, given)) {
				return "fields are left out when " + trunc(e.CondStr(x.Cond), 150)
			}
		}
		if x := e.missing(given, f.Cond); x != bF {
			return "a field is left out when " + trunc(e.CondStr(x), 200)
		}
		if why := sameIndex(f.Instr); why != "" {
			return why
		}
	}
	if count == 0 {
		return "no fields are written"
	}
	if count > 1 {
		return "a field is written twice"
	}
	return ""
}

// sameIndex: the writer is taken from the position of the field it is given.
func sameIndex(in ssa.Instruction) string {
	call, ok := in.(ssa.CallInstruction)
	if !ok || len(call.Common().Args) == 0 {
		return ""
	}
	idx := func(v ssa.Value) ssa.Value {
		for d := 0; d < 4; d++ {
			switch x := v.(type) {
			case *ssa.UnOp:
				v = x.X
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				return x.Index
			default:
				return nil
			}
		}
		return nil
	}
	w := idx(call.Common().Value)
	g, ok := call.Common().Args[0].(*ssa.Call)
	if w == nil || !ok || len(g.Call.Args) == 0 {
		return ""
	}
	fd, ok := g.Call.Args[len(g.Call.Args)-1].(*ssa.Call)
	if !ok || len(fd.Call.Args) == 0 {
		return ""
	}
	i := fd.Call.Args[len(fd.Call.Args)-1]
	if w != i {
		if _, ok := w.(*ssa.BinOp); ok {
			return "a field is written with the writer of another one"
		}
		if _, ok := i.(*ssa.BinOp); ok {
			return "a field is written with the writer of another one"
		}
	}
	return ""
}

func (m *recModel) absent(evs []recEvent, n int, builder, value *Term, d *recDomain, col string, given B, notNull bool) string {
	own, rest, why := m.one(evs, builder, given)
	if why != "" {
		return why
	}
	presence := m.f.oneof || m.f.msg != ""
	switch own.method {
	case "AppendNull":
		if len(rest) > 0 {
			return "more than an absent value is written"
		}
		if notNull && !m.f.list {
			return "an absent value is written to a column that must have values"
		}
		return ""
	case "AppendEmptyValue":
		if m.f.list || !presence {
			return ""
		}
		return "a field that is not set is written as an empty one"
	}
	if m.f.list {
		if own.method == "Append" && len(rest) == 0 {
			return ""
		}
		return m.written(evs, n, builder, value, d, col, given)
	}
	if presence {
		return "a field that is not set is written by " + own.method
	}
	if len(rest) == 0 && own.method == "Append" && d != nil && len(own.args) == 1 && strings.TrimSuffix(own.typ, "Builder") == col {
		if z := own.args[0]; z.Op == OZero || z.Op == ONil || z.Op == OConst && isWord(z.Aux, []string{"0", "false", `""`}) {
			return ""
		}
	}
	return m.written(evs, n, builder, value, d, col, given)
}

// childWriters: the writer of each child is made for the builder of its column.
func (m *recModel) childWriters(key string, n int, builder *Term) {
	c, e := m.c, m.e
	const rule = "the writer of a field writes to the column of that field"
	why := m.setups(n, func(b *Term) (*Term, string) {
		fb := m.callArgs(b, "FieldBuilder")
		if fb == nil {
			return nil, "a field is written to " + trunc(e.Str(b), 100)
		}
		r, _ := recRoot(fb[0])
		if m.f.list {
			if vb := m.callArgs(r, "ValueBuilder"); vb != nil {
				r, _ = recRoot(vb[0])
			}
		}
		if r != builder {
			return nil, "a field is written to " + trunc(e.Str(b), 100)
		}
		return fb[1], ""
	})
	c.ob(key+"/columns", rule, why == "", m.n.create.Pos(), "%s: %s", m.f, why)
}

func (m *recModel) setups(n int, col func(b *Term) (*Term, string)) string {
	e := m.e
	count := 0
	for _, f := range e.effects[n:] {
		if f.Kind != "call" || f.Callee != "dynamic" || len(f.Args) != 2 || isNever(e, e.bdd.And(f.Cond, m.assume())) {
			continue
		}
		count++
		i, why := col(f.Args[1])
		if why != "" {
			return why
		}
		if i.Op != OIdx || len(f.Loops) == 0 {
			return "the position of the column is " + trunc(e.Str(i), 80)
		}
		w := f.Args[0]
		for w.Op == OField {
			w = w.Args[0]
		}
		l := f.Loops[len(f.Loops)-1]
		if w.Op == OElem && w.Args[0] != i.Args[0] && m.firstArm(i.Args[0]) != w.Args[0] && !strings.Contains(e.Str(i.Args[0]), e.Str(w.Args[0])) {
			return "the writer of another field is used: " + trunc(e.Str(w), 100)
		}
		if i.Args[0] != l.Over {
			return "the position of the column is " + trunc(e.Str(i), 80)
		}
		if why := e.allOfStrict(f.Loops); why != "" {
			return why
		}
		if why := sameColumn(f.Instr); why != "" {
			return why
		}
	}
	if count == 0 {
		return "no writers are made for fields"
	}
	return ""
}

func (m *recModel) firstArm(t *Term) *Term {
	for _, a := range t.arms() {
		return a.T
	}
	return nil
}

// sameColumn: the child and the column are taken from one position.
func sameColumn(in ssa.Instruction) string {
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	b, ok := call.Common().Args[0].(*ssa.Call)
	if !ok || len(b.Call.Args) == 0 {
		return ""
	}
	ci := b.Call.Args[len(b.Call.Args)-1]
	if _, ok := ci.(*ssa.BinOp); ok {
		// the induction variable of a range loop is an addition to its phi
		v := call.Common().Value
		for d := 0; d < 6; d++ {
			switch x := v.(type) {
			case *ssa.UnOp:
				v = x.X
				continue
			case *ssa.FieldAddr:
				v = x.X
				continue
			case *ssa.IndexAddr:
				if x.Index != ci {
					return "the writer of another field is used"
				}
			}
			break
		}
	}
	return ""
}

// childNodes: a node is made for every field, kept at its position, under its name.
func (m *recModel) childNodes(key string, r *Result, obj *Term, given B, n *recNames, isFields func(*Term) bool) {
	c, e := m.c, m.e
	create := n.create
	const rule = "every field of a message has a node, which readers find under the name of its column"
	name := fnName(create)
	why, made := "", 0
	var res, pos *Term
	for _, f := range e.effects {
		if f.Kind != "call" || f.Callee != name || isNever(e, e.bdd.And(f.Cond, given)) {
			continue
		}
		made++
		res = f.Res
		if len(f.Loops) != 1 {
			why = fmt.Sprintf("nodes of fields are not made in a loop: %d %s %s", len(f.Loops), f.Callee, e.P.pos(f.Pos))
			continue
		}
		if s := e.allOfStrict(f.Loops); s != "" {
			why = s
		}
		var fld *Term
		for i, p := range create.Params {
			if typeStr(p.Type()) == protoRefl+"FieldDescriptor" {
				fld = f.Args[i]
			}
		}
		fg := m.callArgs(fld, "FieldDescriptors).Get")
		ln := m.callArgs(f.Loops[0].Over, "FieldDescriptors).Len")
		switch {
		case fg == nil || !isFields(fg[0]):
			why = "a node is made for " + trunc(e.Str(fld), 100)
		case ln == nil || ln[0] != fg[0] || fg[1].Op != OIdx || fg[1].Args[0] != f.Loops[0].Over:
			why = "not every field has a node: " + trunc(e.loopStr(f.Loops[0]), 100)
		default:
			pos = fg[1]
		}
		if x := e.missing(e.bdd.And(given, r.Cond), f.Cond); x != bF {
			why = "a field has no node when " + trunc(e.CondStr(x), 200)
		}
	}
	if made != 1 && why == "" {
		why = fmt.Sprintf("nodes of fields are made at %d places", made)
	}
	if why == "" {
		at := fmt.Sprintf("[#%d]", pos.ID)
		kept, column := false, false
		hash := false
		for _, f := range e.effects {
			if f.Kind == "store" && len(f.Args) == 2 && len(f.Loops) == 1 && e.implies(given, f.Cond) && f.Args[0].Op == OAddr && strings.HasSuffix(f.Args[0].Aux, at) {
				switch {
				case f.Args[1] == res:
					kept = true
				case strings.Contains(e.Str(f.Args[1]), e.Str(res)):
					column = true
				}
			}
			if x := e.grows(f); x != nil && len(f.Loops) == 1 && e.implies(given, f.Cond) {
				switch {
				case x == res:
					for _, g := range e.effects {
						if g.Kind == "store" && len(g.Args) == 2 && g.Args[0].Op == OAddr && strings.HasSuffix(g.Args[0].Aux, "."+n.children) && e.flowsTo(f.Res, g.Args[1]) && e.implies(given, g.Cond) {
							kept = true
						}
					}
				case strings.Contains(e.Str(x), e.Str(res)):
					column = true
				}
			}
			if f.Kind == "mapset" && len(f.Loops) == 1 && e.implies(given, f.Cond) {
				v := f.Args[len(f.Args)-1]
				k := f.Args[len(f.Args)-2]
				if v == res && strings.HasSuffix(e.Str(k), ".Name") && strings.Contains(e.Str(k), e.Str(res)) {
					hash = true
				}
			}
		}
		switch {
		case !kept:
			why = "the node of a field is not kept at its position"
		case !column:
			why = "a field has no column at its position"
		case !hash:
			why = "a field is not found under the name of its column"
		}
	}
	c.ob(key+"/fields", rule, why == "", r.Fn.Pos(), "%s", why)
}

func (m *recModel) checkReader(key string, r *Result, rd Arm, d *recDomain) {
	c, e, f := m.c, m.e, m.f
	ps := rd.T.Fn.Params
	value, arr, row := e.mkT(ps[0].Type(), OParam, "value"), e.mkT(ps[1].Type(), OParam, "arr"), e.mkT(ps[2].Type(), OParam, "row")
	v, _, n := m.eval(rd.T, r.St, "encode", value, arr, row)
	given := e.bdd.And(e.bdd.And(rd.C, m.assume()), m.noErr(n))
	// only rows that are not null are read
	for _, t := range append([]*Term{}, e.atoms...) {
		if t == nil {
			continue
		}
		if a := m.callArgs(t, "IsNull"); a != nil && a[0] == arr && a[1] == row {
			given = e.bdd.And(given, e.bdd.Not(e.bdd.Var(e.vars[t.ID])))
		}
		if a := m.callArgs(t, "IsValid"); a != nil && a[0] == arr && a[1] == row {
			given = e.bdd.And(given, e.bdd.Var(e.vars[t.ID]))
		}
	}
	const rule = "a value is read as it was written, from the row it was written to"
	why := ""
	switch {
	case f.msg == "message":
		msg := func(t *Term) bool {
			mm := m.callArgs(t, "Value).Message")
			return mm != nil && mm[0] == value
		}
		why = m.fieldsRead(n, given, msg, arr, row)
		if why == "" {
			for _, a := range e.alts(v, given) {
				if a.T != value && !isNever(e, a.C) {
					why = "it returns " + trunc(e.Str(a.T), 100)
				}
			}
		}
	case f.msg == "any":
		got := bF
		for _, x := range e.effects[n:] {
			if x.Kind != "call" || !strings.HasSuffix(x.Callee, "proto.Unmarshal") && !strings.HasSuffix(x.Callee, ").Unmarshal") || isNever(e, e.bdd.And(x.Cond, given)) {
				continue
			}
			got = e.bdd.Or(got, x.Cond)
			i := m.callArgs(x.Args[len(x.Args)-1], "Message).Interface")
			var mm []*Term
			if i != nil {
				mm = m.callArgs(i[0], "Value).Message")
			}
			if mm == nil || mm[0] != value {
				why = "the row is decoded into " + trunc(e.Str(x.Args[len(x.Args)-1]), 100)
			}
			for _, a := range e.alts(x.Args[len(x.Args)-2], e.bdd.And(given, x.Cond)) {
				if s := m.cell(a, arr, row, []string{"Binary", "LargeBinary"}); s != "" {
					why = s
				}
			}
		}
		if x := e.missing(given, got); x != bF && why == "" {
			why = "the row is not decoded when " + trunc(e.CondStr(x), 150)
		}
		for _, a := range e.alts(v, given) {
			if a.T != value && !isNever(e, a.C) && why == "" {
				why = "it returns " + trunc(e.Str(a.T), 100)
			}
		}
	default:
		for _, a := range e.alts(v, given) {
			if isNever(e, a.C) {
				continue
			}
			var in []*Term
			for _, mk := range d.make {
				if x := m.callArgs(a.T, "protoreflect."+mk); x != nil {
					in = x
				}
			}
			if in == nil {
				why = "it returns " + trunc(e.Str(a.T), 120)
				continue
			}
			for _, b := range e.alts(in[0], a.C) {
				if isNever(e, b.C) {
					continue
				}
				t, bad := keepsAll(b.T, d.dom)
				if bad != "" {
					why = "the value is converted to " + bad
					continue
				}
				if s := m.cell(Arm{b.C, t}, arr, row, recHolds[d.dom].cols); s != "" {
					why = s
				}
			}
		}
	}
	c.ob(key+"/read", rule, why == "", rd.T.Fn.Pos(), "%s: %s", f, why)
}

// cell: t is the value of a row of an array.
func (m *recModel) cell(a Arm, arr, row *Term, cols []string) string {
	e := m.e
	t := a.T
	// strings and bytes may be taken out by either
	va := m.callArgs(t, ").Value")
	if va == nil || len(va) != 2 {
		return trunc(e.Str(t), 120) + " is read"
	}
	x, typ := recRoot(va[0])
	if !isWord(arrayName(typ), cols) {
		return "a column is read as " + arrayName(typ)
	}
	if dict := m.callArgs(x, "Dictionary"); dict != nil {
		y, _ := recRoot(dict[0])
		ix := m.callArgs(va[1], "GetValueIndex")
		if y != arr || ix == nil || ix[1] != row {
			return "a row of a dictionary is read as " + trunc(e.Str(t), 100)
		}
		if z, _ := recRoot(ix[0]); z != arr {
			return "the position of another dictionary is used"
		}
		// the array is a dictionary
		for _, at := range append([]*Term{}, e.atoms...) {
			if at == nil {
				continue
			}
			v := e.bdd.Var(e.vars[at.ID])
			s := e.Str(at)
			if at.Op == OEq && strings.Contains(s, "DataType).ID") && strings.Contains(s, "29==") || at.Op == OTypeIs && strings.Contains(s, "Dictionary") {
				if e.implies(a.C, v) {
					return ""
				}
			}
		}
		return "an array is read as a dictionary when it need not be one"
	}
	if x != arr || va[1] != row {
		return trunc(e.Str(t), 120) + " is read"
	}
	return ""
}

// fieldsRead: every column that has a value in the row sets the field it belongs to.
func (m *recModel) fieldsRead(n int, given B, isMsg func(*Term) bool, arr, row *Term) string {
	e := m.e
	sets := 0
	var lists, scalars B = bF, bF
	var loop *Loop
	var colT, nodeT *Term
	for _, f := range e.effects[n:] {
		mutable := strings.HasSuffix(f.Callee, "protoreflect.Message).Mutable")
		if f.Kind != "call" || !strings.HasSuffix(f.Callee, "protoreflect.Message).Set") && !mutable || isNever(e, e.bdd.And(f.Cond, given)) {
			continue
		}
		sets++
		if !isMsg(f.Args[0]) {
			return "a field of " + trunc(e.Str(f.Args[0]), 100) + " is set"
		}
		if len(f.Loops) == 0 {
			return "the columns are not visited in a loop"
		}
		l := f.Loops[len(f.Loops)-1]
		loop = l
		ds, _ := recRoot(f.Args[1])
		if f.Args[1].Op == OField || f.Args[1].Op == OAssert {
			ds = f.Args[1]
			for ds.Op == OAssert {
				ds = ds.Args[0]
			}
		}
		if ds.Op != OField || ds.Aux != m.n.desc {
			return "the field that is set is " + trunc(e.Str(f.Args[1]), 100)
		}
		node := ds.Args[0]
		if node.Op != OIndex {
			return "the field that is set is " + trunc(e.Str(f.Args[1]), 100)
		}
		// found under the name of the column
		nameOf := node.Args[1]
		col, why := m.columnNamed(nameOf, arr, l)
		if why != "" {
			return why
		}
		what := f.Res
		if !mutable {
			what = f.Args[2]
		}
		for _, v := range e.alts(what, f.Cond) {
			val := v.T
			if m.encodes(val) == nil {
				// a list
				s := m.listRead(n, given, f, val, node, col, row)
				if s != "" {
					return s
				}
				lists = e.bdd.Or(lists, f.Cond)
				continue
			}
			d := m.encodes(val)
			if len(d) != 4 {
				return "the value of a field is " + trunc(e.Str(val), 100)
			}
			nf := m.callArgs(d[1], "Message).NewField")
			switch {
			case d[0].Op != OField || d[0].Aux != m.n.encode || d[0].Args[0] != node:
				return "a column is read by the reader of another field"
			case nf == nil || !isMsg(nf[0]) || nf[1] != f.Args[1]:
				return "a column is read into " + trunc(e.Str(d[1]), 100)
			case !m.isColumn(d[2], col):
				return "a field is read from " + trunc(e.Str(d[2]), 100)
			case d[3] != row && row != nil:
				return "a field is read from row " + trunc(e.Str(d[3]), 100)
			}
			scalars = e.bdd.Or(scalars, f.Cond)
		}
		colT, nodeT = col, node
	}
	if sets == 0 {
		return "no field is set"
	}
	// a column that has a value sets its field
	need := e.bdd.And(given, m.known(nodeT))
	isList, isMap, differ := bF, bF, bF
	for _, t := range append([]*Term{}, e.atoms...) {
		if t == nil {
			continue
		}
		v := e.bdd.Var(e.vars[t.ID])
		if a := m.callArgs(t, "IsNull"); a != nil && m.isColumn(a[0], colT) && (row == nil || a[1] == row) {
			need = e.bdd.And(need, e.bdd.Not(v))
		}
		if a := m.callArgs(t, "IsValid"); a != nil && m.isColumn(a[0], colT) && (row == nil || a[1] == row) {
			need = e.bdd.And(need, v)
		}
		if a := m.callArgs(t, "IsList"); a != nil && len(findTerms(a[0], func(x *Term) bool { return x == nodeT })) > 0 {
			isList = e.bdd.Or(isList, v)
		}
		if a := m.callArgs(t, "IsMap"); a != nil && len(findTerms(a[0], func(x *Term) bool { return x == nodeT })) > 0 {
			isMap = e.bdd.Or(isMap, v)
		}
		if (t.Op == OEq || t.Op == OLt) && len(findTerms(t, func(x *Term) bool {
			o := m.callArgs(x, "ValueOffsets")
			return o != nil && m.isColumn(o[0], colT) && (row == nil || o[1] == row)
		})) > 0 {
			differ = e.bdd.Or(differ, m.nonEmpty(t, v))
		}
	}
	if differ == bF {
		differ = bT
	}
	need = e.bdd.And(need, e.bdd.Not(isMap))
	for _, x := range loop.Exits {
		// unknown columns and maps are no part of a record
		if !isNever(e, e.bdd.And(e.bdd.And(x.Cond, given), e.bdd.And(m.known(nodeT), e.bdd.Not(isMap)))) {
			return "columns are left out when " + trunc(e.CondStr(x.Cond), 200)
		}
	}
	if x := e.missing(e.bdd.And(need, e.bdd.And(isList, differ)), lists); x != bF {
		return "a list is not read when " + trunc(e.CondStr(x), 250)
	}
	if x := e.missing(e.bdd.And(need, e.bdd.Not(isList)), scalars); x != bF {
		return "a field is not read when " + trunc(e.CondStr(x), 250)
	}
	return ""
}

// offset: t is offset i of a list.
func (m *recModel) offset(t *Term, i string) bool {
	for t.Op == OConv {
		t = t.Args[0]
	}
	return t.Op == OExtract && t.Aux == i && m.callArgs(t.Args[0], "ValueOffsets") != nil
}

// length: t is the number of elements of a list.
func (m *recModel) length(t *Term) bool {
	for t.Op == OConv {
		t = t.Args[0]
	}
	return t.Op == OBin && t.Aux == "-" && m.offset(t.Args[0], "1") && m.offset(t.Args[1], "0")
}

// nonEmpty: when a comparison says that a list has elements.
func (m *recModel) nonEmpty(t *Term, v B) B {
	zero := func(x *Term) bool { return x.Op == OConst && x.Aux == "0" }
	if len(t.Args) != 2 {
		return bF
	}
	a, b := t.Args[0], t.Args[1]
	off := func(i, j string) bool { return m.offset(a, i) && m.offset(b, j) }
	switch {
	case t.Op == OEq && (off("0", "1") || off("1", "0") || zero(a) && m.length(b) || zero(b) && m.length(a)):
		return m.e.bdd.Not(v)
	case t.Op == OLt && (off("0", "1") || zero(a) && m.length(b)):
		return v
	}
	return bF
}

// known: the column is that of a field.
func (m *recModel) known(node *Term) B {
	e := m.e
	k := bT
	for _, t := range append([]*Term{}, e.atoms...) {
		if t != nil && t.Op == OHas && node != nil && t.Args[0] == node.Args[0] && t.Args[1] == node.Args[1] {
			k = e.bdd.And(k, e.bdd.Var(e.vars[t.ID]))
		}
	}
	return k
}

// encodes: t is the result of calling a reader.
func (m *recModel) encodes(t *Term) []*Term {
	if t.Op == OExtract {
		t = t.Args[0]
	}
	for _, f := range m.e.effects {
		if f.Kind == "call" && f.Callee == "dynamic" && f.Res == t && len(f.Args) == 4 {
			return f.Args
		}
	}
	return nil
}

// columnNamed: which column a name is the name of.
func (m *recModel) columnNamed(name, arr *Term, l *Loop) (*Term, string) {
	e := m.e
	bad := "fields are looked up under " + trunc(e.Str(name), 100)
	var idx, over *Term
	if cn := m.callArgs(name, "ColumnName"); cn != nil {
		idx, over = cn[1], cn[0]
	} else if name.Op == OField && name.Aux == "Name" {
		fd := m.callArgs(name.Args[0], "StructType).Field")
		if fd == nil {
			fd = m.callArgs(name.Args[0], "Schema).Field")
		}
		if fd == nil {
			return nil, bad
		}
		idx, over = fd[1], fd[0]
	} else {
		return nil, bad
	}
	r, _ := recRoot(over)
	for _, n := range []string{"DataType", "Schema"} {
		if a := m.callArgs(r, n); a != nil {
			r, _ = recRoot(a[0])
		}
	}
	if r != arr {
		return nil, bad
	}
	if l.Over == nil {
		return nil, "the columns are not all visited"
	}
	full := m.callArgs(l.Over, "NumField")
	if full == nil {
		full = m.callArgs(l.Over, "NumCols")
	}
	ov := l.Over
	for full == nil && ov.Op == OConv {
		ov = ov.Args[0]
		full = m.callArgs(ov, "NumField")
		if full == nil {
			full = m.callArgs(ov, "NumCols")
		}
	}
	if l.Over == nil || full == nil || l.Kind != "range" {
		return nil, "the columns are not all visited: " + trunc(e.loopStr(l), 100)
	}
	if x, _ := recRoot(full[0]); x != arr {
		return nil, "the columns are not all visited: " + trunc(e.loopStr(l), 100)
	}
	if idx.Op != OIdx || idx.Args[0] != l.Over {
		return nil, bad
	}
	return idx, ""
}

// isColumn: t is the column at position idx.
func (m *recModel) isColumn(t, idx *Term) bool {
	r, _ := recRoot(t)
	a := m.callArgs(r, "Struct).Field")
	if a == nil {
		a = m.callArgs(r, "Column")
	}
	return a != nil && len(a) == 2 && a[1] == idx
}

// listRead: the list that is set was filled with every element of the row.
func (m *recModel) listRead(n int, given B, set *Effect, val, node, col, row *Term) string {
	e := m.e
	count := 0
	for _, f := range e.effects[n:] {
		if f.Kind != "call" || !strings.HasSuffix(f.Callee, "protoreflect.List).Append") || isNever(e, e.bdd.And(f.Cond, given)) {
			continue
		}
		lv := m.callArgs(f.Args[0], "Value).List")
		if lv == nil || lv[0] != val {
			return "elements are added to " + trunc(e.Str(f.Args[0]), 100)
		}
		count++
		d := m.encodes(f.Args[1])
		if d == nil {
			return "an element is " + trunc(e.Str(f.Args[1]), 100)
		}
		ne := m.callArgs(d[1], "NewElement")
		if d[0].Op != OField || d[0].Aux != m.n.encode || d[0].Args[0] != node {
			return "elements are read by the reader of another field"
		}
		if ne == nil || ne[0] != f.Args[0] {
			return "an element is read into " + trunc(e.Str(d[1]), 100)
		}
		vals := m.callArgs(d[2], "ListValues")
		if vals == nil || !m.isColumn(vals[0], col) {
			return "elements are read from " + trunc(e.Str(d[2]), 100)
		}
		if len(f.Loops) < 2 {
			return "elements are not read in a loop"
		}
		l := f.Loops[len(f.Loops)-1]
		k := d[3]
		for k.Op == OConv {
			k = k.Args[0]
		}
		off := func(t *Term, i string) bool {
			for t.Op == OConv {
				t = t.Args[0]
			}
			if t.Op != OExtract || t.Aux != i {
				return false
			}
			a := m.callArgs(t.Args[0], "ValueOffsets")
			return a != nil && m.isColumn(a[0], col) && (row == nil || a[1] == row)
		}
		if k.Op == OBin && k.Aux == "+" {
			a, b := k.Args[0], k.Args[1]
			for _, x := range [][2]*Term{{a, b}, {b, a}} {
				i := x[1]
				for i.Op == OConv {
					i = i.Args[0]
				}
				if off(x[0], "0") && i.Op == OIdx && i.Args[0] == l.Over && m.length(l.Over) && l.Kind == "range" {
					k = nil
					break
				}
			}
		}
		if k == nil {
			if x := e.missing(e.bdd.And(set.Cond, given), f.Cond); x != bF {
				return "an element is left out when " + trunc(e.CondStr(x), 200)
			}
			for _, x := range l.Exits {
				if !isNever(e, e.bdd.And(x.Cond, given)) {
					return "elements are left out when " + trunc(e.CondStr(x.Cond), 200)
				}
			}
			continue
		}
		if k.Op != OLV {
			return "the elements that are read are " + trunc(e.Str(k), 100)
		}
		if !off(k.LV.Init, "0") {
			return "the first element that is read is " + trunc(e.Str(k.LV.Init), 100)
		}
		up := k.LV.Update
		if up == nil || up.Op != OBin || up.Aux != "+" || !(up.Args[0] == k && up.Args[1].Aux == "1" || up.Args[1] == k && up.Args[0].Aux == "1") {
			return "elements are left out: the next one is " + trunc(e.Str(up), 100)
		}
		ok := false
		// in every iteration, which there are as long as v
		in := func(v B) bool {
			return e.implies(f.Cond, v) && e.implies(e.bdd.And(e.bdd.And(set.Cond, given), v), f.Cond)
		}
		for _, t := range append([]*Term{}, e.atoms...) {
			if t == nil || len(t.Args) != 2 {
				continue
			}
			v := e.bdd.Var(e.vars[t.ID])
			switch {
			case t.Op == OLt && t.Args[0] == k && off(t.Args[1], "1"):
				ok = ok || in(v)
			case t.Op == OEq && (t.Args[0] == k && off(t.Args[1], "1") || t.Args[1] == k && off(t.Args[0], "1")):
				ok = ok || in(e.bdd.Not(v))
			}
		}
		if !ok {
			return "the elements are not read up to the last one"
		}
		for _, x := range l.Exits {
			if !isNever(e, e.bdd.And(x.Cond, given)) {
				return "elements are left out when " + trunc(e.CondStr(x.Cond), 200)
			}
		}
	}
	if count != 1 {
		return fmt.Sprintf("elements are added at %d places", count)
	}
	return ""
}

// recRoots: messages themselves.
func (c *Check) recRoots(n *recNames) {
	p := c.P.pkg("internal/arrow3")
	writers, readers, builders, binders := 0, 0, 0, 0
	var fns []*ssa.Function
	for _, f := range c.P.All {
		if fnPkg(f) == p.Pkg && f.Parent() == nil && f.Synthetic == "" && f.Blocks != nil && f != n.create {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	// of those that do it, the ones that no other of them calls
	tops := func(ok func(*ssa.Function) bool) (out []*ssa.Function) {
		var l []*ssa.Function
		for _, f := range fns {
			if ok(f) {
				l = append(l, f)
			}
		}
		for _, f := range l {
			top := true
			for _, g := range l {
				if g != f && calls(g, f) && !calls(f, g) {
					top = false
				}
			}
			if top {
				out = append(out, f)
			}
		}
		return
	}
	takes := func(f *ssa.Function, typ string) bool {
		for _, q := range f.Params {
			if strings.HasSuffix(typeStr(q.Type()), typ) {
				return true
			}
		}
		return false
	}
	start := func(f *ssa.Function) (*recModel, *Result) {
		e := c.engine()
		m := &recModel{c: c, e: e, n: n}
		m.hooks()
		e.Opaque = func(g *ssa.Function) bool { return g == n.create }
		return m, c.run(e, f)
	}
	for _, f := range tops(func(f *ssa.Function) bool {
		return takes(f, "protoreflect.Message") && callsTo(f, "protoreflect.Message).Has") && !callsTo(f, "arrow.NewSchema")
	}) {
		writers++
		m, r := start(f)
		e := m.e
		why := m.fieldsWritten(0, e.bdd.And(r.Cond, m.noErr(0)), func(msg *Term, outer []*Loop) string {
			if msg.Op != OParam {
				return "the fields of " + trunc(e.Str(msg), 100) + " are written"
			}
			return ""
		})
		c.ob("root/written", "every field of a stored message is written", why == "", f.Pos(), "%s", why)
	}
	for _, f := range tops(func(f *ssa.Function) bool {
		return takes(f, "arrow.Record") && callsTo(f, "protoreflect.Message).Set") && f.Signature.Recv() == nil
	}) {
		readers++
		m, r := start(f)
		var rec *Term
		for i, q := range f.Params {
			if strings.HasSuffix(typeStr(q.Type()), "arrow.Record") {
				rec = r.Args[i]
			}
		}
		var row *Term
		for _, x := range m.e.effects {
			if x.Kind == "call" && (methodBase(x.Callee) == "IsNull" || methodBase(x.Callee) == "IsValid") && len(x.Args) == 2 {
				row = x.Args[1]
			}
		}
		why := m.fieldsRead(0, r.Cond, func(t *Term) bool { return m.callArgs(t, "Message).New") != nil }, rec, row)
		c.ob("root/read", "every field of a stored message is read", why == "", f.Pos(), "%s", why)
	}
	for _, f := range tops(func(f *ssa.Function) bool {
		return takes(f, "protoreflect.Message") && calls(f, n.create) && callsTo(f, "arrow.NewSchema")
	}) {
		builders++
		m, r := start(f)
		m.childNodes("root", r, nil, r.Cond, n, func(t *Term) bool { return m.callArgs(t, "MessageDescriptor).Fields") != nil })
	}
	for _, f := range tops(func(f *ssa.Function) bool {
		return takes(f, "memory.Allocator") && callsTo(f, "array.NewRecordBuilder") && !callsTo(f, "arrow.NewSchema")
	}) {
		binders++
		m, _ := start(f)
		e := m.e
		why := m.setups(0, func(b *Term) (*Term, string) {
			a := m.callArgs(b, "RecordBuilder).Field")
			if a == nil {
				return nil, "a field is written to " + trunc(e.Str(b), 100)
			}
			return a[1], ""
		})
		c.ob("root/columns", "the writer of a field writes to the column of that field", why == "", f.Pos(), "%s", why)
	}
	c.count("functions that write messages", writers, 1)
	c.count("functions that read messages", readers, 1)
	c.count("functions that describe messages", builders, 1)
	c.count("functions that make builders", binders, 1)
}

// callsTo: f, or a function of its package that it calls, calls something so named.
func callsTo(f *ssa.Function, suffix string) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		if hasCall(g, suffix) {
			return true
		}
		for _, x := range g.AnonFuncs {
			if walk(x) {
				return true
			}
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if h := call.Common().StaticCallee(); h != nil && fnPkg(h) == fnPkg(f) && walk(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

func hasCall(f *ssa.Function, suffix string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				n := ""
				if call.Common().IsInvoke() {
					n = call.Common().Method.FullName()
				} else if g := call.Common().StaticCallee(); g != nil {
					n = g.String()
				}
				if strings.HasSuffix(n, suffix) {
					return true
				}
			}
		}
	}
	return false
}

// grows: f adds one element, in every iteration, to a list that was empty before the
// loop and is changed only here, so the element is at the position of the iteration.
func (e *Engine) grows(f *Effect) *Term {
	if f.Kind != "append" || len(f.Args) != 2 || f.Args[1].Op != OItem || f.Res == nil {
		return nil
	}
	l := f.Args[0]
	if l.Op != OLV || l.LV == nil || l.LV.Update != f.Res {
		return nil
	}
	n := e.length(l.LV.Init)
	if k, ok := constInt(n); !ok || k != 0 {
		return nil
	}
	return f.Args[1].Args[0]
}
