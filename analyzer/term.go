package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OParam    Op = iota // an input of the analysed entry point
	OConst              // literal; aux is its exact text
	ONil                // nil
	OZero               // zero value of a not further known type
	OGlobal             // address of a package variable
	OAlloc              // address of an object created at one site, in one call context
	OAddr               // address of the part `aux` of object args[0]
	OField              // field aux of args[0], as it was initially
	OElem               // element of collection args[0]
	OKey                // key of map args[0]
	OIdx                // position of the element OElem in args[0]
	OIndex              // args[0][args[1]]
	OHas                // map args[0] has key args[1]
	OCall               // result of calling aux
	OExtract            // component aux of tuple args[0]
	OTuple              // several results
	OBin                // binary operation
	OUn                 // unary operation
	OConv               // conversion to aux
	OAssert             // type assertion to aux
	OTypeIs             // dynamic type test
	OIface              // interface holding args[0] of type aux
	OClosure            // function literal with its bindings
	OFunc               // function
	OChoice             // value selected by conditions
	OBool               // truth value given by a condition
	OLV                 // value at the head of a loop that changes from one iteration to the next
	OStruct             // struct value; aux lists field names
	OSeq                // args[0] followed by pieces
	OItem               // piece: one element
	OSpread             // piece: all elements of args[0]
	OLen                // length
	OIsEmpty            // atom
	OEq                 // atom
	OLt                 // atom
	OHash               // hash of a byte sequence
	OSet                // set of integers: base set args[0] plus args[1:]
	OInter              // intersection
	OUnion              // union
	OCard               // cardinality
	OIn                 // membership
	OIter               // iterator over args[0]
	OHasNext            // atom
	OContent            // initial content of object args[0]
	OBroke              // atom: the loop was left early
	OUndef              // no value
	OU64                // 8 byte encoding of an integer
	ONum                // decimal encoding of an integer
	OHex                // hexadecimal encoding of bytes
	OCbArg              // argument of a callback
	OInvoked            // atom: callback ran
	OSub                // args[0][args[1]:args[2]]
	OOpaque             // result of a construct the engine does not model
	OMake               // slice made with args[0] zero elements; aux is the site
	OArrSlice           // slice of array object args[0]
)

var opNames = map[Op]string{
	OParam: "param", OCall: "call", OBin: "bin", OUn: "un", OConv: "conv",
}

type Arm struct {
	C B
	T *Term
}

type Term struct {
	ID   int
	Op   Op
	Aux  string
	Args []*Term
	Arms []Arm
	B    B
	Typ  types.Type
	Fn   *ssa.Function
	LV   *LVInfo
}

type LVInfo struct {
	Init, Update *Term
	Loop         *Loop
	Cell         string
	Root         *Term // object that Cell is part of
}

type Terms struct {
	all   []*Term
	byKey map[string]*Term
	bdd   *BDD
	atoms []*Term       // by bdd variable
	vars  map[int]int32 // term id -> variable
}

func newTerms() *Terms {
	t := &Terms{byKey: map[string]*Term{}, bdd: newBDD(), vars: map[int]int32{}}
	return t
}

func (ts *Terms) intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(t.Op)))
	sb.WriteByte('|')
	sb.WriteString(t.Aux)
	for _, a := range t.Args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	for _, a := range t.Arms {
		fmt.Fprintf(&sb, "|%d:%d", a.C, a.T.ID)
	}
	if t.Op == OBool {
		fmt.Fprintf(&sb, "|b%d", t.B)
	}
	k := sb.String()
	if o, ok := ts.byKey[k]; ok {
		if o.Typ == nil {
			o.Typ = t.Typ
		}
		return o
	}
	t.ID = len(ts.all)
	ts.all = append(ts.all, t)
	ts.byKey[k] = t
	return t
}

func (ts *Terms) mk(op Op, aux string, args ...*Term) *Term {
	return ts.intern(&Term{Op: op, Aux: aux, Args: args})
}

func (ts *Terms) mkT(typ types.Type, op Op, aux string, args ...*Term) *Term {
	return ts.intern(&Term{Op: op, Aux: aux, Args: args, Typ: typ})
}

func (ts *Terms) Bool(b B) *Term {
	switch b {
	case bT:
		return ts.mk(OConst, "true")
	case bF:
		return ts.mk(OConst, "false")
	}
	return ts.intern(&Term{Op: OBool, B: b})
}

// Cond turns a boolean term into a condition.
func (ts *Terms) Cond(t *Term) B {
	switch t.Op {
	case OConst:
		if t.Aux == "true" {
			return bT
		}
		if t.Aux == "false" {
			return bF
		}
	case OBool:
		return t.B
	case OZero:
		return bF
	case OChoice:
		r := bF
		for _, a := range t.Arms {
			r = ts.bdd.Or(r, ts.bdd.And(a.C, ts.Cond(a.T)))
		}
		return r
	}
	v, ok := ts.vars[t.ID]
	if !ok {
		v = int32(len(ts.atoms))
		ts.atoms = append(ts.atoms, t)
		ts.vars[t.ID] = v
	}
	return ts.bdd.Var(v)
}

func (t *Term) isBool() bool {
	switch t.Op {
	case OBool, OEq, OLt, OIsEmpty, OIn, OHas, OTypeIs, OHasNext, OBroke, OInvoked:
		return true
	case OConst:
		return t.Aux == "true" || t.Aux == "false"
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return true
		}
	}
	return false
}

func (ts *Terms) Choice(arms []Arm) *Term {
	m := map[int]int{}
	var out []Arm
	var add func(c B, t *Term)
	add = func(c B, t *Term) {
		if c == bF {
			return
		}
		if t.Op == OChoice {
			for _, a := range t.Arms {
				add(ts.bdd.And(c, a.C), a.T)
			}
			return
		}
		if i, ok := m[t.ID]; ok {
			out[i].C = ts.bdd.Or(out[i].C, c)
			return
		}
		m[t.ID] = len(out)
		out = append(out, Arm{c, t})
	}
	for _, a := range arms {
		add(a.C, a.T)
	}
	// values that never existed on some path cannot be used there
	if len(out) > 1 {
		n := out[:0]
		for _, a := range out {
			if a.T.Op != OUndef {
				n = append(n, a)
			}
		}
		if len(n) > 0 {
			out = n
		}
	}
	if len(out) == 0 {
		return ts.mk(OUndef, "")
	}
	if len(out) == 1 {
		return out[0].T
	}
	allBool := true
	for _, a := range out {
		if !a.T.isBool() {
			allBool = false
		}
	}
	if allBool {
		r := bF
		for _, a := range out {
			r = ts.bdd.Or(r, ts.bdd.And(a.C, ts.Cond(a.T)))
		}
		return ts.Bool(r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].T.ID < out[j].T.ID })
	var typ types.Type
	for _, a := range out {
		if a.T.Typ != nil {
			typ = a.T.Typ
			break
		}
	}
	return ts.intern(&Term{Op: OChoice, Arms: out, Typ: typ})
}

// arms lists the possible values of t.
func (t *Term) arms() []Arm {
	if t.Op == OChoice {
		return t.Arms
	}
	return []Arm{{bT, t}}
}

func (ts *Terms) Str(t *Term) string { return ts.str(t, 0) }

func (ts *Terms) str(t *Term, d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 14 {
		return "…"
	}
	s := func(x *Term) string { return ts.str(x, d+1) }
	l := func(xs []*Term) string {
		var o []string
		for _, x := range xs {
			o = append(o, s(x))
		}
		return strings.Join(o, ", ")
	}
	switch t.Op {
	case OParam, OConst, OGlobal, OFunc:
		return t.Aux
	case ONil:
		return "nil"
	case OZero:
		return "zero"
	case OAlloc:
		return "new(" + short(t.Aux) + ")"
	case OMake:
		return "make(" + short(t.Aux) + ", " + l(t.Args) + ")"
	case OArrSlice:
		return s(t.Args[0]) + "[:]"
	case OAddr:
		return "&" + s(t.Args[0]) + t.Aux
	case OField:
		return s(t.Args[0]) + "." + t.Aux
	case OElem:
		return s(t.Args[0]) + "[*" + t.Aux + "]"
	case OKey:
		return "key(" + s(t.Args[0]) + ")"
	case OIdx:
		return "idx(" + s(t.Args[0]) + ")"
	case OIndex:
		return s(t.Args[0]) + "[" + s(t.Args[1]) + "]"
	case OHas:
		return s(t.Args[1]) + " in " + s(t.Args[0])
	case OCall:
		n := t.Aux
		if i := strings.LastIndexByte(n, '@'); i > 0 {
			n = n[:i]
		}
		return shortName(n) + "(" + l(t.Args) + ")"
	case OExtract:
		return s(t.Args[0]) + "#" + t.Aux
	case OBin:
		return "(" + s(t.Args[0]) + " " + t.Aux + " " + s(t.Args[1]) + ")"
	case OUn:
		return t.Aux + s(t.Args[0])
	case OConv:
		return shortName(t.Aux) + "(" + s(t.Args[0]) + ")"
	case OAssert:
		return s(t.Args[0]) + ".(" + shortName(t.Aux) + ")"
	case OTypeIs:
		return s(t.Args[0]) + " is " + shortName(t.Aux)
	case OIface:
		return s(t.Args[0])
	case OChoice:
		var o []string
		for _, a := range t.Arms {
			o = append(o, ts.CondStr(a.C)+" -> "+s(a.T))
		}
		return "{" + strings.Join(o, "; ") + "}"
	case OBool:
		return "[" + ts.CondStr(t.B) + "]"
	case OLV:
		return "carried(" + short(t.Aux) + ")"
	case OStruct:
		f := strings.Split(t.Aux, ",")
		var o []string
		for i, a := range t.Args {
			if i == 0 {
				if a.Op != OZero {
					o = append(o, s(a))
				}
				continue
			}
			n := fmt.Sprint(i)
			if i <= len(f) {
				n = f[i-1]
			}
			o = append(o, n+": "+s(a))
		}
		return "{" + strings.Join(o, ", ") + "}"
	case OSeq:
		return "seq(" + l(t.Args) + ")"
	case OItem:
		return s(t.Args[0])
	case OSpread:
		return s(t.Args[0]) + "..."
	case OEq:
		return s(t.Args[0]) + "==" + s(t.Args[1])
	case OLt:
		return s(t.Args[0]) + "<" + s(t.Args[1])
	case OIsEmpty:
		return "empty(" + s(t.Args[0]) + ")"
	case OLen:
		return "len(" + s(t.Args[0]) + ")"
	case OContent:
		return s(t.Args[0])
	case OUndef:
		return "undef"
	}
	n := map[Op]string{OHash: "hash", OSet: "set", OInter: "inter", OUnion: "union", OCard: "card", OIn: "in", OIter: "iter", OHasNext: "hasnext",
		OBroke: "broke", OU64: "u64", ONum: "num", OHex: "hex", OCbArg: "cbarg", OInvoked: "invoked", OSub: "sub", OOpaque: "opaque", OClosure: "func", OTuple: "tuple"}[t.Op]
	a := t.Aux
	if t.Op == OClosure || t.Op == OBroke || t.Op == OSet {
		a = short(a)
	}
	return n + "<" + a + ">(" + l(t.Args) + ")"
}

func short(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

// shortName drops import paths from a qualified name.
func shortName(s string) string {
	var sb strings.Builder
	start := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '/':
			start = i + 1
		case '(', '*', ')', '[', ']', ',', ' ':
			sb.WriteString(s[start : i+1])
			start = i + 1
		}
	}
	sb.WriteString(s[start:])
	return sb.String()
}

func (ts *Terms) CondStr(b B) string {
	if b == bT {
		return "always"
	}
	if b == bF {
		return "never"
	}
	var cubes []string
	var rec func(b B, lits []string)
	rec = func(b B, lits []string) {
		if len(cubes) > 8 {
			return
		}
		if b == bT {
			cubes = append(cubes, strings.Join(lits, " && "))
			return
		}
		if b == bF {
			return
		}
		n := ts.bdd.nodes[b]
		a := ts.str(ts.atoms[n.v], 6)
		rec(n.hi, append(lits[:len(lits):len(lits)], a))
		rec(n.lo, append(lits[:len(lits):len(lits)], "!"+a))
	}
	rec(b, nil)
	s := strings.Join(cubes, " || ")
	if len(s) > 600 {
		s = s[:600] + "…"
	}
	return s
}
