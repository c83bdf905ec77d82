package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mem follows memory: which objects a slice or pointer may refer to, and which
// instructions write to them or give them away.

type mem struct {
	P     *Program
	memo  map[ssa.Value]map[ssa.Value]bool
	busy  map[ssa.Value]bool
	cut   bool
	sums  map[*ssa.Function]*memSum
	cells map[*ssa.Alloc][]ssa.Value // what is stored in a variable
}

type memSum struct {
	busy     bool
	events   []memEvent
	writes   map[int]bool // parameters whose memory is written
	releases map[int]bool // parameters that are put in a pool
	retains  map[int]token.Pos
	lends    map[int]bool // function parameters that are given memory for the duration of the call
}

type memEvent struct {
	kind  string // write, release
	at    ssa.Instruction
	roots map[ssa.Value]bool
	what  string
}

func newMem(p *Program) *mem {
	return &mem{P: p, memo: map[ssa.Value]map[ssa.Value]bool{}, busy: map[ssa.Value]bool{}, sums: map[*ssa.Function]*memSum{}, cells: map[*ssa.Alloc][]ssa.Value{}}
}

func one(v ssa.Value) map[ssa.Value]bool { return map[ssa.Value]bool{v: true} }

func meet(a, b map[ssa.Value]bool) bool {
	for v := range a {
		if b[v] {
			return true
		}
	}
	return false
}

// binding is what a closure captured.
func binding(v *ssa.FreeVar) ssa.Value {
	fn := v.Parent()
	k := -1
	for i, f := range fn.FreeVars {
		if f == v {
			k = i
		}
	}
	if fn.Parent() == nil || k < 0 {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				return mc.Bindings[k]
			}
		}
	}
	return nil
}

func resolveFree(v ssa.Value) ssa.Value {
	for {
		f, ok := v.(*ssa.FreeVar)
		if !ok {
			return v
		}
		b := binding(f)
		if b == nil {
			return v
		}
		v = b
	}
}

// stored lists the values that a variable is assigned.
func (m *mem) stored(a *ssa.Alloc) []ssa.Value {
	if r, ok := m.cells[a]; ok {
		return r
	}
	var r []ssa.Value
	var refs func(v ssa.Value)
	refs = func(v ssa.Value) {
		for _, in := range *v.Referrers() {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == v {
					r = append(r, in.Val)
				}
			case *ssa.MakeClosure:
				for i, b := range in.Bindings {
					if b == v {
						refs(in.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	refs(a)
	m.cells[a] = r
	return r
}

// latest is the one value that a variable has where it is read, nil if there may be several.
func (m *mem) latest(u *ssa.UnOp) ssa.Value {
	al, ok := resolveFree(u.X).(*ssa.Alloc)
	if !ok {
		return nil
	}
	switch al.Type().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Array, *types.Struct:
		return nil
	}
	fn := u.Parent()
	var here []*ssa.Store
	good := true
	var refs func(v ssa.Value)
	refs = func(v ssa.Value) {
		for _, in := range *v.Referrers() {
			switch in := in.(type) {
			case *ssa.Store:
				switch {
				case in.Addr != v:
					good = false
				case in.Parent() == fn:
					here = append(here, in)
				default:
					// before the function exists
					mk := creates(fn, in.Parent())
					good = good && mk != nil && !follows(mk, in, nil)
				}
			case *ssa.MakeClosure:
				for i, b := range in.Bindings {
					if b == v {
						refs(in.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				good = false
			}
		}
	}
	refs(al)
	if !good {
		return nil
	}
	for _, s := range here {
		if s.Block() != u.Block() && !s.Block().Dominates(u.Block()) || !follows(s, u, nil) || s.Block() == u.Block() && before(u, s) {
			continue
		}
		last := true
		for _, t := range here {
			last = last && (t == s || !follows(s, t, u) || !follows(t, u, s))
		}
		if last {
			return s.Val
		}
	}
	return nil
}

// creates is the instruction of in that creates fn, or the function fn is part of.
func creates(fn, in *ssa.Function) ssa.Instruction {
	for fn != nil && fn.Parent() != in {
		fn = fn.Parent()
	}
	if fn == nil {
		return nil
	}
	for _, b := range in.Blocks {
		for _, i := range b.Instrs {
			if mk, ok := i.(*ssa.MakeClosure); ok && mk.Fn == fn {
				return mk
			}
		}
	}
	return nil
}

// before: a comes before b in the same block.
func before(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

func holdsMemory(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsMemory(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return holdsMemory(u.Elem())
	}
	return false
}

// roots are the objects that v may refer to.
func (m *mem) roots(v ssa.Value) map[ssa.Value]bool {
	if r, ok := m.memo[v]; ok {
		return r
	}
	if m.busy[v] {
		m.cut = true
		return nil
	}
	m.busy[v] = true
	old := m.cut
	m.cut = false
	r := m.find(v)
	delete(m.busy, v)
	if !m.cut || len(m.busy) == 0 {
		m.memo[v] = r
	}
	m.cut = m.cut && len(m.busy) > 0 || old
	return r
}

func (m *mem) union(vs ...ssa.Value) map[ssa.Value]bool {
	r := map[ssa.Value]bool{}
	for _, v := range vs {
		for x := range m.roots(v) {
			r[x] = true
		}
	}
	return r
}

func (m *mem) with(r map[ssa.Value]bool, v ssa.Value) map[ssa.Value]bool {
	o := map[ssa.Value]bool{v: true}
	for x := range r {
		o[x] = true
	}
	return o
}

func (m *mem) find(v ssa.Value) map[ssa.Value]bool {
	switch v := v.(type) {
	case *ssa.FreeVar:
		if b := binding(v); b != nil {
			return m.roots(b)
		}
		return one(v)
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	case *ssa.FieldAddr:
		return m.roots(v.X)
	case *ssa.IndexAddr:
		return m.roots(v.X)
	case *ssa.Field:
		return m.roots(v.X)
	case *ssa.Index:
		return m.roots(v.X)
	case *ssa.Slice:
		return m.roots(v.X)
	case *ssa.Lookup:
		return m.roots(v.X)
	case *ssa.ChangeType:
		return m.roots(v.X)
	case *ssa.MakeInterface:
		return m.roots(v.X)
	case *ssa.ChangeInterface:
		return m.roots(v.X)
	case *ssa.TypeAssert:
		return m.roots(v.X)
	case *ssa.SliceToArrayPointer:
		return m.roots(v.X)
	case *ssa.Convert:
		_, s1 := v.X.Type().Underlying().(*types.Slice)
		_, s2 := v.Type().Underlying().(*types.Slice)
		if s1 != s2 {
			return one(v) // copies
		}
		return m.roots(v.X)
	case *ssa.Phi:
		return m.union(v.Edges...)
	case *ssa.MakeClosure:
		return m.union(v.Bindings...)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return one(v)
		}
		a := resolveFree(v.X)
		if al, ok := a.(*ssa.Alloc); ok {
			if w := m.latest(v); w != nil {
				return m.roots(w)
			}
			switch al.Type().(*types.Pointer).Elem().Underlying().(type) {
			case *types.Array, *types.Struct:
				return m.with(m.union(m.stored(al)...), al)
			}
			return m.union(m.stored(al)...)
		}
		return m.roots(v.X)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return m.result(c, v.Index)
		}
		switch t := v.Tuple.(type) {
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				return m.roots(rg.X)
			}
		case *ssa.Lookup:
			return m.roots(t.X)
		case *ssa.TypeAssert:
			return m.roots(t.X)
		}
		return one(v)
	case *ssa.Call:
		return m.result(v, 0)
	}
	return one(v)
}

// full tells that appending to v does not write to memory others can see.
func (m *mem) full(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Slice:
		return v.Max != nil && (v.Max == v.High || isLenOf(v.Max, v.X))
	case *ssa.MakeSlice:
		return v.Len == v.Cap
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e != v && !m.full(e) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return m.full(v.X)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if w := m.latest(v); w != nil {
				return m.full(w)
			}
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			return fnOrigin(f) == "slices.Clip"
		}
	}
	return false
}

func isLenOf(x, of ssa.Value) bool {
	c, ok := x.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && c.Call.Args[0] == of
}

func fnOrigin(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

// through is the value of a variable that is assigned once.
func (m *mem) through(v ssa.Value) ssa.Value {
	v = resolveFree(v)
	if ct, ok := v.(*ssa.ChangeType); ok {
		return m.through(ct.X)
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a, ok := resolveFree(u.X).(*ssa.Alloc); ok {
			if s := m.stored(a); len(s) == 1 {
				return m.through(s[0])
			}
		}
	}
	return v
}

// calleeOf resolves functions and function literals.
func (m *mem) calleeOf(c *ssa.CallCommon) *ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return f
	}
	if c.IsInvoke() {
		return nil
	}
	switch v := m.through(c.Value).(type) {
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.Function:
		return v
	}
	return nil
}

func (m *mem) own(f *ssa.Function) bool {
	return f != nil && len(f.Blocks) > 0 && (f.Pkg == nil && m.P.isRepo(fnPkg(f)) || f.Pkg != nil && m.P.isRepo(f.Pkg.Pkg))
}

// appends: the function extends the slice that is this argument, and returns it.
func appends(name string) int {
	base := name[strings.LastIndex(name, ".")+1:]
	switch {
	case strings.HasPrefix(name, "fmt.Append"), strings.HasPrefix(name, "strconv.Append"), strings.HasPrefix(name, "encoding/hex.Append"), strings.HasPrefix(name, "slices.Insert"), strings.HasPrefix(name, "encoding/binary.Append"), strings.HasPrefix(name, "unicode/utf8.Append"), name == "slices.Grow":
		return 0
	case base == "MarshalAppend" || strings.HasPrefix(base, "AppendUint") || strings.HasPrefix(base, "AppendEncode") || base == "AppendFormat" || strings.HasPrefix(base, "AppendTo"):
		return 1
	}
	return -1
}

// shares: the result refers to the memory of this argument.
func shares(name string) int {
	switch name {
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Next", "(*bytes.Buffer).AvailableBuffer", "bytes.NewBuffer", "bytes.NewReader", "slices.Clip",
		"(*github.com/dgraph-io/badger/v4.Item).Key", "(*bufio.Writer).AvailableBuffer", "bufio.NewWriter", "bufio.NewReader":
		return 0
	}
	if strings.HasPrefix(name, "bytes.Trim") || strings.HasPrefix(name, "bytes.Split") || strings.HasPrefix(name, "bytes.Fields") || strings.HasPrefix(name, "bytes.Cut") {
		return 0
	}
	return -1
}

func (m *mem) result(c *ssa.Call, i int) map[ssa.Value]bool {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if m.full(c.Call.Args[0]) {
				return one(c)
			}
			return m.with(m.roots(c.Call.Args[0]), c)
		case "String", "StringData", "Slice", "SliceData", "ssa:wrapnilchk", "min", "max", "Add":
			if len(c.Call.Args) > 0 {
				return m.roots(c.Call.Args[0])
			}
		}
		return one(c)
	}
	f := m.calleeOf(&c.Call)
	if f == nil {
		return one(c)
	}
	if !m.own(f) {
		name := fnOrigin(f)
		if k := appends(name); k >= 0 && k < len(c.Call.Args) {
			if m.full(c.Call.Args[k]) {
				return one(c)
			}
			return m.with(m.roots(c.Call.Args[k]), c)
		}
		if k := shares(name); k >= 0 && k < len(c.Call.Args) {
			return m.roots(c.Call.Args[k])
		}
		return one(c)
	}
	out := map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok || i >= len(r.Results) {
				continue
			}
			for x := range m.roots(r.Results[i]) {
				switch y := x.(type) {
				case *ssa.Parameter:
					k := paramIndex(y)
					if y.Parent() == f && k < len(c.Call.Args) {
						for z := range m.roots(c.Call.Args[k]) {
							out[z] = true
						}
						continue
					}
					out[x] = true
				case *ssa.Global:
					out[x] = true
				default:
					if in, ok := x.(ssa.Instruction); ok && in.Parent() != f {
						out[x] = true // of the function around a literal
						continue
					}
					out[c] = true
				}
			}
		}
	}
	return out
}

func paramIndex(p *ssa.Parameter) int {
	for i, x := range p.Parent().Params {
		if x == p {
			return i
		}
	}
	return -1
}

// writer tells that a type can be written to.
func isWriter(t types.Type) bool {
	if it, ok := t.Underlying().(*types.Interface); ok {
		for i := 0; i < it.NumMethods(); i++ {
			if strings.HasPrefix(it.Method(i).Name(), "Write") {
				return true
			}
		}
		return false
	}
	s := t.String()
	return s == "*bytes.Buffer" || s == "*bufio.Writer"
}

// writesArg: an external function writes to the memory of its argument i.
func writesArg(f *ssa.Function, name string, i int) bool {
	base := name[strings.LastIndex(name, ".")+1:]
	if appends(name) == i {
		return name != "slices.Grow"
	}
	switch {
	case strings.HasPrefix(name, "(*bytes.Buffer)."):
		return i == 0 && (strings.HasPrefix(base, "Write") && base != "WriteTo" || base == "ReadFrom")
	case strings.Contains(name, "encoding/binary.") && strings.HasPrefix(base, "Put"):
		return i == 0 && f.Signature.Recv() == nil || i == 1 && f.Signature.Recv() != nil
	case name == "encoding/hex.Encode" || name == "encoding/hex.Decode" || name == "io.ReadFull" && i == 1:
		return i == 0 || name == "io.ReadFull"
	case strings.HasPrefix(name, "slices.Sort") || name == "slices.Reverse" || strings.HasPrefix(name, "sort."):
		return i == 0
	}
	ps := f.Signature.Params()
	k := i
	if f.Signature.Recv() != nil {
		k--
	}
	if k >= 0 && k < ps.Len() {
		return isWriter(ps.At(k).Type())
	}
	return false
}

const (
	memTxnSet = "(*github.com/dgraph-io/badger/v4.Txn).Set"
	memEntry  = "github.com/dgraph-io/badger/v4.NewEntry"
	memSeq    = "(*github.com/dgraph-io/badger/v4.DB).GetSequence"
	memCache  = "(*github.com/dgraph-io/ristretto.Cache).Set"
	memValue  = "(*github.com/dgraph-io/badger/v4.Item).Value"
	poolPut   = "(*sync.Pool).Put"
	poolGet   = "(*sync.Pool).Get"
)

// keeps lists the arguments whose memory an external function goes on using.
func keeps(name string) map[int]string {
	switch {
	case name == memTxnSet:
		return map[int]string{1: "key", 2: "value"}
	case name == memEntry:
		return map[int]string{0: "key", 1: "value"}
	case name == memSeq:
		return map[int]string{1: "key"}
	case strings.HasPrefix(name, "(*github.com/dgraph-io/ristretto.Cache).Set"):
		return map[int]string{2: "value"}
	}
	return nil
}

func (m *mem) sum(f *ssa.Function) *memSum {
	if s, ok := m.sums[f]; ok {
		return s
	}
	s := &memSum{busy: true, writes: map[int]bool{}, releases: map[int]bool{}, retains: map[int]token.Pos{}, lends: map[int]bool{}}
	m.sums[f] = s
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, ev := range m.eventsOf(in) {
				s.events = append(s.events, ev)
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				for k, pos := range m.kept(ci) {
					for x := range m.roots(ci.Common().Args[k]) {
						if p, ok := x.(*ssa.Parameter); ok && p.Parent() == f {
							s.retains[paramIndex(p)] = pos
						}
					}
				}
				for _, k := range m.lent(ci) {
					for x := range m.roots(ci.Common().Args[k]) {
						if p, ok := x.(*ssa.Parameter); ok && p.Parent() == f {
							s.lends[paramIndex(p)] = true
						}
					}
					if p, ok := m.through(ci.Common().Args[k]).(*ssa.Parameter); ok {
						m.sum(p.Parent()).lends[paramIndex(p)] = true
					}
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		m.sum(a)
	}
	for _, ev := range s.events {
		for x := range ev.roots {
			if p, ok := x.(*ssa.Parameter); ok && p.Parent() == f {
				if ev.kind == "write" {
					s.writes[paramIndex(p)] = true
				} else {
					s.releases[paramIndex(p)] = true
				}
			}
		}
	}
	s.busy = false
	return s
}

// kept lists arguments of a call whose memory is used after it returned.
func (m *mem) kept(ci ssa.CallInstruction) map[int]token.Pos {
	c := ci.Common()
	f := m.calleeOf(c)
	if f == nil {
		return nil
	}
	out := map[int]token.Pos{}
	if m.own(f) {
		for k := range m.sum(f).retains {
			if k < len(c.Args) {
				out[k] = ci.Pos()
			}
		}
		return out
	}
	for k := range keeps(fnOrigin(f)) {
		if k < len(c.Args) {
			out[k] = ci.Pos()
		}
	}
	return out
}

// lent lists function arguments that are called with memory they must not keep.
func (m *mem) lent(ci ssa.CallInstruction) (out []int) {
	c := ci.Common()
	f := m.calleeOf(c)
	if f == nil {
		return nil
	}
	if m.own(f) {
		for k := range m.sum(f).lends {
			if k < len(c.Args) {
				out = append(out, k)
			}
		}
		return out
	}
	if f.String() == memValue {
		return []int{1}
	}
	return nil
}

// eventsOf lists what an instruction does to memory.
func (m *mem) eventsOf(in ssa.Instruction) (out []memEvent) {
	add := func(kind string, v ssa.Value, what string) {
		out = append(out, memEvent{kind, in, m.roots(v), what})
	}
	switch in := in.(type) {
	case *ssa.Store:
		switch a := in.Addr.(type) {
		case *ssa.IndexAddr:
			if byteSlice(a.X.Type()) {
				add("write", a.X, "an element is assigned")
			}
		case *ssa.Alloc:
			if arr, ok := a.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok && isByte(arr.Elem()) {
				add("write", a, "the array is assigned")
			}
		}
	case ssa.CallInstruction:
		c := in.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if byteSlice(c.Args[0].Type()) && !m.full(c.Args[0]) {
					add("write", c.Args[0], "it is appended to")
				}
			case "copy":
				if byteSlice(c.Args[0].Type()) {
					add("write", c.Args[0], "it is copied to")
				}
			case "clear":
				if byteSlice(c.Args[0].Type()) {
					add("write", c.Args[0], "it is cleared")
				}
			}
			return
		}
		f := m.calleeOf(c)
		if f == nil {
			if c.IsInvoke() {
				if strings.HasPrefix(c.Method.Name(), "Write") {
					add("write", c.Value, c.Method.Name())
				}
				for i, a := range c.Args {
					if i < c.Signature().Params().Len() && isWriter(c.Signature().Params().At(i).Type()) {
						add("write", a, c.Method.Name())
					}
				}
			}
			return
		}
		if f.String() == poolPut {
			add("release", c.Args[1], "it is put in a pool")
			return
		}
		if m.own(f) {
			s := m.sum(f)
			for k := range s.writes {
				if k < len(c.Args) {
					add("write", c.Args[k], "by "+shortName(fnName(f)))
				}
			}
			for k := range s.releases {
				if k < len(c.Args) {
					add("release", c.Args[k], "by "+shortName(fnName(f)))
				}
			}
			for _, a := range c.Args {
				if mc, ok := a.(*ssa.MakeClosure); ok {
					for _, ev := range m.sum(mc.Fn.(*ssa.Function)).events {
						out = append(out, memEvent{ev.kind, in, ev.roots, ev.what})
					}
				}
			}
			if f.Parent() != nil {
				// what a function literal does to what it captured
				for _, ev := range s.events {
					out = append(out, memEvent{ev.kind, in, ev.roots, ev.what})
				}
			}
			return
		}
		name := fnOrigin(f)
		for i, a := range c.Args {
			if writesArg(f, name, i) {
				add("write", a, "by "+shortName(name))
			}
			if mc, ok := a.(*ssa.MakeClosure); ok {
				for _, ev := range m.sum(mc.Fn.(*ssa.Function)).events {
					out = append(out, memEvent{ev.kind, in, ev.roots, ev.what})
				}
			}
		}
	}
	return
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// byteSlice: a slice of bytes, or a pointer to an array of them.
func byteSlice(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return isByte(u.Elem())
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return isByte(a.Elem())
		}
	}
	return false
}

// follows: instruction b can be executed after a without passing stop.
func follows(a, b ssa.Instruction, stop ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	scan := func(ins []ssa.Instruction) (found, ended bool) {
		for _, in := range ins {
			if in == stop {
				return false, true
			}
			if in == b {
				return true, true
			}
		}
		return false, false
	}
	blk := a.Block()
	i := 0
	for j, in := range blk.Instrs {
		if in == a {
			i = j + 1
		}
	}
	found, ended := scan(blk.Instrs[i:])
	if found || ended {
		return found
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, blk.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		found, ended := scan(x.Instrs)
		if found {
			return true
		}
		if !ended {
			work = append(work, x.Succs...)
		}
	}
	return false
}
