package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine computes, for one entry point, where every value comes from and
// under which condition every effect happens. It is a dataflow analysis over
// SSA: each block of each function is visited in reverse post order, values
// meeting at a join are kept with the condition selecting them, loops are
// brought to a fixpoint with an opaque value for whatever changes from one
// iteration to the next. Functions of the repository are analysed in the
// context of their callers; everything else is an uninterpreted operation or
// one of the library models.

type cellKey struct {
	root *Term
	path string
}

type State struct {
	cells map[cellKey]*Term
}

func newState() *State { return &State{cells: map[cellKey]*Term{}} }

func (s *State) clone() *State {
	n := make(map[cellKey]*Term, len(s.cells))
	for k, v := range s.cells {
		n[k] = v
	}
	return &State{cells: n}
}

type Loop struct {
	Key   string
	Fn    *ssa.Function
	Kind  string // range, reverse, iter, while, callback
	Over  *Term
	Count bool // Over is a number of iterations rather than a collection
	Exits []LoopExit
	Pos   token.Pos
	Dup   string
	Outer []*Loop
	Entry B // when the loop is entered
	Ends  B // when its condition ends it
}

type LoopExit struct {
	Cond B
	To   *ssa.BasicBlock
	Pos  token.Pos
}

type loopMemo struct {
	loop  *Loop
	mod   map[cellKey]bool
	over  *Term
	phi   *ssa.Phi
	off   int64
	kind  string
	iter  *Term
	fixed map[cellKey]bool
}

type Ctx struct {
	id     int
	parent *Ctx
	fn     *ssa.Function
	site   ssa.Instruction
}

func (c *Ctx) has(fn *ssa.Function) bool {
	for ; c != nil; c = c.parent {
		if c.fn == fn {
			return true
		}
	}
	return false
}

func (c *Ctx) depth() int {
	n := 0
	for ; c != nil; c = c.parent {
		n++
	}
	return n
}

type Effect struct {
	Kind   string // call, enter, store, mapset, append, go, defer, send, panic
	Callee string
	Args   []*Term
	Res    *Term
	Cond   B
	Loops  []*Loop
	Pos    token.Pos
	Fn     *ssa.Function
	Cx     *Ctx
	Instr  ssa.Instruction
	Seq    int
	St     *State // only kept when Engine.KeepState
}

type Engine struct {
	*Terms
	P         *Program
	effects   []*Effect
	loopStack []*Loop
	born      map[*Term][]*Loop // loops in which objects are created
	cur       B
	memo      map[string]*loopMemo
	ctxs      map[string]int
	base      map[cellKey]*Term
	inInit    bool
	constMaps map[*Term][]constEntry
	initDone  map[*ssa.Package]bool
	Opaque    func(*ssa.Function) bool
	Absent    bool // keys that do not exist are not failures
	Hook      map[string]model
	Pure      func(name string) bool // calls that only depend on their arguments
	notes     map[string]token.Pos
	siteEff   map[string]*Effect // piece site -> effect of the append
	fnInfos   map[*ssa.Function]*fnInfo
	steps     int
	keySteps  int
	KeepState func(*Effect) bool
	inits     map[cellKey]types.Type
	fns       int
	inlined   map[*ssa.Function]bool
	MaxDepth  int
	Panics    bool // also report where a run time panic is possible
	Loads     bool // also report what is read from memory that existed before
	suppress  int
	curSt     *State
	last      *State  // state when the entry point returned
	final     *Result
}

func newEngine(p *Program) *Engine {
	return &Engine{
		Terms:     newTerms(),
		P:         p,
		cur:       bT,
		memo:      map[string]*loopMemo{},
		ctxs:      map[string]int{},
		base:      map[cellKey]*Term{},
		initDone:  map[*ssa.Package]bool{},
		constMaps: map[*Term][]constEntry{},
		Hook:      map[string]model{},
		notes:     map[string]token.Pos{},
		siteEff:   map[string]*Effect{},
		fnInfos:   map[*ssa.Function]*fnInfo{},
		inlined:   map[*ssa.Function]bool{},
		MaxDepth:  40,
	}
}

type analysisError struct{ msg string }

func (a analysisError) Error() string { return a.msg }

func (e *Engine) note(msg string, pos token.Pos) {
	if _, ok := e.notes[msg]; !ok {
		e.notes[msg] = pos
	}
}

// ---- function structure

type loopNest struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopNest
}

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopNest // by header
	inner map[*ssa.BasicBlock]*loopNest // innermost loop of a block
}

func analyseFn(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{loops: map[*ssa.BasicBlock]*loopNest{}, inner: map[*ssa.BasicBlock]*loopNest{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopNest{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var back func(x *ssa.BasicBlock)
				back = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							back(p)
						}
					}
				}
				back(b)
			}
		}
	}
	for _, l := range fi.loops {
		for _, m := range fi.loops {
			if m != l && m.blocks[l.header] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	for _, b := range fi.rpo {
		for _, l := range fi.loops {
			if l.blocks[b] && (fi.inner[b] == nil || len(l.blocks) < len(fi.inner[b].blocks)) {
				fi.inner[b] = l
			}
		}
	}
	return fi
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	fi := e.fnInfos[fn]
	if fi == nil {
		fi = analyseFn(fn)
		e.fnInfos[fn] = fi
	}
	return fi
}

// ---- heap

func (e *Engine) initial(root *Term, path string) *Term {
	t := root
	for path != "" {
		switch path[0] {
		case '.':
			j := 1
			for j < len(path) && path[j] != '.' && path[j] != '[' && path[j] != '#' {
				j++
			}
			t = e.field(t, path[1:j])
			path = path[j:]
		case '[':
			j := strings.IndexByte(path, ']')
			in := path[1:j]
			if strings.HasPrefix(in, "*") {
				t = e.mk(OElem, in[1:], t)
			} else if strings.HasPrefix(in, "#") {
				var id int
				fmt.Sscanf(in[1:], "%d", &id)
				t = e.index(t, e.all[id])
			} else {
				t = e.index(t, e.mk(OConst, in))
			}
			path = path[j+1:]
		case '#':
			t = e.mk(OContent, path[1:], t)
			path = ""
		default:
			panic("bad path " + path)
		}
	}
	if t == root && path == "" {
		return e.deref(root)
	}
	return t
}

func (e *Engine) deref(p *Term) *Term {
	switch p.Op {
	case OElem, OParam, OField, OIndex, OExtract, OCall, OCbArg, OAssert, OLV, OKey, OContent:
		return p // value and pointer share one name
	}
	return e.mk(OField, "*", p)
}

func isFresh(root *Term) bool { return root.Op == OAlloc || root.Op == OMake }

func (e *Engine) raw(st *State, root *Term, path string) *Term {
	if v, ok := st.cells[cellKey{root, path}]; ok {
		return v
	}
	if strings.HasSuffix(path, "]") {
		// an element of memory filled as a whole
		i := strings.LastIndexByte(path, '[')
		if v, ok := st.cells[cellKey{root, path[:i] + "#content"}]; ok {
			return e.elemOf(v, path[i+1:len(path)-1])
		}
	}
	for p := path; p != ""; {
		i := strings.LastIndexAny(p, ".[#")
		if i < 0 {
			break
		}
		p = p[:i]
		if v, ok := st.cells[cellKey{root, p}]; ok {
			return e.project(v, path[i:])
		}
	}
	if isFresh(root) {
		if _, ok := st.cells[cellKey{root, "#live"}]; ok {
			if strings.HasSuffix(path, "#content") {
				return e.mk(OZero, "content")
			}
			return e.mk(OZero, "")
		}
		if v, ok := e.base[cellKey{root, path}]; ok {
			return v
		}
		if _, ok := e.base[cellKey{root, "#live"}]; ok {
			return e.mk(OZero, "")
		}
		return e.mk(OUndef, "")
	}
	if root.Op == OGlobal {
		if v, ok := e.globalInit(root, path); ok {
			return v
		}
	}
	return e.initial(root, path)
}

// elemOf is the element of a value that a path names.
func (e *Engine) elemOf(v *Term, in string) *Term {
	switch {
	case strings.HasPrefix(in, "*"):
		return e.mk(OElem, in[1:], v)
	case strings.HasPrefix(in, "#"):
		var id int
		fmt.Sscanf(in[1:], "%d", &id)
		return e.index(v, e.all[id])
	}
	return e.index(v, e.mk(OConst, in))
}

func (e *Engine) project(v *Term, path string) *Term {
	if path == "" {
		return v
	}
	if v.Op == OZero || v.Op == OUndef {
		return v
	}
	if v.Op == OChoice {
		var arms []Arm
		for _, a := range v.Arms {
			arms = append(arms, Arm{a.C, e.project(a.T, path)})
		}
		return e.Choice(arms)
	}
	return e.initial(v, path)
}

// field is the value of field f of struct (or pointer to struct) t.
func (e *Engine) field(t *Term, f string) *Term {
	switch t.Op {
	case OZero, OUndef:
		return t
	case ONil:
		return e.mk(OZero, "")
	case OChoice:
		var arms []Arm
		for _, a := range t.Arms {
			arms = append(arms, Arm{a.C, e.field(a.T, f)})
		}
		return e.Choice(arms)
	case OStruct:
		names := strings.Split(t.Aux, ",")
		var on []string
		var ov []*Term
		for i, n := range names {
			if n == "."+f {
				return t.Args[i+1]
			}
			if strings.HasPrefix(n, "."+f+".") || strings.HasPrefix(n, "."+f+"[") || strings.HasPrefix(n, "."+f+"#") {
				on = append(on, n[len(f)+1:])
				ov = append(ov, t.Args[i+1])
			}
		}
		b := e.field(t.Args[0], f)
		if len(on) == 0 {
			return b
		}
		return e.mk(OStruct, strings.Join(on, ","), append([]*Term{b}, ov...)...)
	case OField:
		if t.Aux == "*" {
			return e.mk(OField, f, t.Args[0])
		}
	}
	return e.mk(OField, f, t)
}

func (e *Engine) index(t, i *Term) *Term {
	if t.Op == OZero {
		return t
	}
	if t.Op == OSeq && i.Op == OConst {
		var k int
		if _, err := fmt.Sscanf(i.Aux, "%d", &k); err == nil {
			if b := t.Args[0]; b.Op == ONil && k+1 < len(t.Args) {
				ok := true
				for _, p := range t.Args[1 : k+2] {
					if p.Op != OItem {
						ok = false
					}
				}
				if ok {
					return t.Args[k+1].Args[0]
				}
			}
		}
	}
	if t.Op == OConst {
		if s, ok := unquote(t.Aux); ok && strings.HasPrefix(t.Aux, "\"") {
			if k, ok := constInt(i); ok && k >= 0 && k < int64(len(s)) {
				return e.mk(OConst, fmt.Sprint(s[k]))
			}
		}
	}
	if idxOf(i, t) {
		return e.mk(OElem, i.Aux, t)
	}
	return e.mk(OIndex, "", t, i)
}

// idxOf: i is the position that a loop over the list is at.
func idxOf(i, list *Term) bool {
	if i.Op != OIdx {
		return false
	}
	if i.Args[0].Op == OChoice {
		for _, a := range i.Args[0].Arms {
			if a.T == list {
				return true
			}
		}
	}
	return i.Args[0] == list
}

func (e *Engine) idxPath(coll, i *Term) string {
	if idxOf(i, coll) {
		return "[*" + i.Aux + "]"
	}
	if i.Op == OConst {
		return "[" + i.Aux + "]"
	}
	return fmt.Sprintf("[#%d]", i.ID)
}

type target struct {
	c    B
	root *Term
	path string
}

func (e *Engine) targets(p *Term) []target {
	switch p.Op {
	case OChoice:
		var out []target
		for _, a := range p.Arms {
			if a.T.Op == ONil || a.T.Op == OUndef || a.T.Op == OZero {
				continue
			}
			if e.bdd.Disj(a.C, e.cur) {
				continue
			}
			for _, t := range e.targets(a.T) {
				out = append(out, target{e.bdd.And(a.C, t.c), t.root, t.path})
			}
		}
		if len(out) == 1 {
			out[0].c = bT
		}
		return out
	case OAddr:
		out := e.targets(p.Args[0])
		o := make([]target, len(out))
		for i, t := range out {
			o[i] = target{t.c, t.root, t.path + p.Aux}
		}
		return o
	case OIface:
		return e.targets(p.Args[0])
	case OLV:
		if objs, ok := e.lvTargets(p); ok {
			if len(objs) == 1 {
				return e.targets(objs[0])
			}
			var out []target
			for _, o := range objs {
				c := e.Cond(e.mk(OEq, "", p, o))
				for _, t := range e.targets(o) {
					out = append(out, target{c, t.root, t.path})
				}
			}
			return out
		}
	}
	return []target{{bT, p, ""}}
}

// lvTargets are the objects a loop carried pointer can point to, when all of
// them are known.
func (e *Engine) lvTargets(p *Term) ([]*Term, bool) {
	var out []*Term
	seen := map[*Term]bool{}
	ok := true
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case ONil, OUndef, OZero:
		case OChoice:
			for _, a := range t.Arms {
				rec(a.T)
			}
		case OLV:
			if t.LV == nil || (t.LV.Init == nil && t.LV.Update == nil) {
				ok = false
				return
			}
			rec(t.LV.Init)
			rec(t.LV.Update)
		case OAlloc, OMake:
			out = append(out, t)
			ok = ok && !e.earlier(p, t)
		case OAddr:
			if t.Args[0].Op == OAlloc {
				out = append(out, t)
				ok = ok && !e.earlier(p, t.Args[0])
			} else {
				ok = false
			}
		default:
			ok = false
		}
	}
	rec(p)
	return out, ok && len(out) > 0
}

// earlier tells that object o is created anew by every iteration of the loop
// that carries p: what p points to is the object of another iteration.
func (e *Engine) earlier(p, o *Term) bool {
	if p.LV == nil || p.LV.Loop == nil {
		return false
	}
	for _, l := range e.born[o] {
		if l == p.LV.Loop {
			return true
		}
	}
	return false
}

func (e *Engine) typed(v *Term, typ types.Type) *Term {
	if typ == nil {
		return v
	}
	switch v.Op {
	case OZero:
		if v.Aux == "content" {
			return v
		}
		return e.zero(typ)
	case OChoice:
		ch := false
		arms := make([]Arm, len(v.Arms))
		for i, a := range v.Arms {
			n := e.typed(a.T, typ)
			if n != a.T {
				ch = true
			}
			arms[i] = Arm{a.C, n}
		}
		if ch {
			return e.Choice(arms)
		}
		return v
	}
	if v.Typ == nil && v.Op != OConst && v.Op != ONil && v.Op != OUndef {
		v.Typ = typ
	}
	return v
}

func (e *Engine) zero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.mk(OConst, "false")
		case u.Info()&types.IsString != 0:
			return e.mk(OConst, `""`)
		case u.Info()&types.IsNumeric != 0:
			return e.mk(OConst, "0")
		}
		return e.mk(ONil, "")
	case *types.Struct, *types.Array:
		return e.mk(OZero, "")
	}
	return e.mk(ONil, "")
}

// simplify drops the alternatives that the current condition excludes.
func (e *Engine) simplify(v *Term) *Term {
	if v.Op != OChoice {
		if v.Op == OBool {
			return e.Bool(e.bdd.Cof(v.B, e.cur))
		}
		return v
	}
	var arms []Arm
	for _, a := range v.Arms {
		if !e.bdd.Disj(a.C, e.cur) {
			arms = append(arms, Arm{e.bdd.Cof(a.C, e.cur), a.T})
		}
	}
	if len(arms) == 0 {
		return v
	}
	return e.Choice(arms)
}

func (e *Engine) loadAt(st *State, root *Term, path string, typ types.Type) *Term {
	v := e.raw(st, root, path)
	if typ != nil {
		if _, ok := typ.Underlying().(*types.Struct); ok {
			// parts of the struct that were written separately
			var names []string
			for k := range st.cells {
				if k.root == root && len(k.path) > len(path) && strings.HasPrefix(k.path, path) && k.path[len(path)] == '.' {
					names = append(names, k.path[len(path):])
				}
			}
			if len(names) > 0 {
				sort.Strings(names)
				args := []*Term{e.typed(v, typ)}
				same := true
				for _, n := range names {
					x := st.cells[cellKey{root, path + n}]
					if x != e.project(v, n) {
						same = false
					}
					args = append(args, x)
				}
				if !same {
					return e.mkT(typ, OStruct, strings.Join(names, ","), args...)
				}
			}
		}
	}
	return e.typed(v, typ)
}

func (e *Engine) load(st *State, ptr *Term, typ types.Type) *Term {
	ts := e.targets(ptr)
	if len(ts) == 1 {
		return e.simplify(e.loadAt(st, ts[0].root, ts[0].path, typ))
	}
	var arms []Arm
	for _, t := range ts {
		arms = append(arms, Arm{t.c, e.loadAt(st, t.root, t.path, typ)})
	}
	if len(arms) == 0 {
		return e.mk(OUndef, "")
	}
	return e.simplify(e.Choice(arms))
}

func (e *Engine) setCell(st *State, root *Term, path string, v *Term) {
	for k := range st.cells {
		if k.root == root && len(k.path) > len(path) && strings.HasPrefix(k.path, path) && path != "" && strings.IndexByte(".[#", k.path[len(path)]) >= 0 {
			delete(st.cells, k)
		}
		if path == "" && k.root == root && k.path != "#live" {
			delete(st.cells, k)
		}
	}
	if p, ok := strings.CutSuffix(path, "#content"); ok {
		for k := range st.cells {
			if k.root == root && strings.HasPrefix(k.path, p+"[") {
				delete(st.cells, k)
			}
		}
	}
	if strings.HasSuffix(path, "]") {
		k := cellKey{root, path[:strings.LastIndexByte(path, '[')] + "#content"}
		if old, ok := st.cells[k]; ok {
			st.cells[k] = e.mk(OCall, "patched "+path[len(k.path)-len("#content"):], old, v)
		}
	}
	st.cells[cellKey{root, path}] = v
}

func (e *Engine) store(st *State, ptr, v *Term) {
	ts := e.targets(ptr)
	for _, t := range ts {
		if len(ts) == 1 {
			e.setCell(st, t.root, t.path, v)
			continue
		}
		old := e.raw(st, t.root, t.path)
		e.setCell(st, t.root, t.path, e.Choice([]Arm{{t.c, v}, {e.bdd.Not(t.c), old}}))
	}
}

// rootObj gives the unique object and path a pointer denotes.
func (e *Engine) rootObj(p *Term) (*Term, string, bool) {
	ts := e.targets(p)
	if len(ts) != 1 {
		return nil, "", false
	}
	return ts[0].root, ts[0].path, true
}

func (e *Engine) content(st *State, p *Term) *Term {
	return e.load(st, e.addr(p, "#content"), nil)
}

func (e *Engine) setContent(st *State, p, v *Term) {
	e.store(st, e.addr(p, "#content"), v)
}

func (e *Engine) addr(p *Term, path string) *Term {
	if p.Op == OAddr {
		return e.mk(OAddr, p.Aux+path, p.Args[0])
	}
	if p.Op == OIface {
		return e.addr(p.Args[0], path)
	}
	return e.mk(OAddr, path, p)
}

// ---- package variables

func (e *Engine) globalInit(root *Term, path string) (*Term, bool) {
	g := e.P.globals[root.Aux]
	if g == nil || g.Pkg == nil || !e.P.isRepo(g.Pkg.Pkg) {
		return nil, false
	}
	if e.P.mutated[g] {
		return nil, false
	}
	if !e.initDone[g.Pkg] {
		e.initDone[g.Pkg] = true
		e.runInit(g.Pkg)
	}
	if v, ok := e.base[cellKey{root, path}]; ok {
		return v, true
	}
	for p := path; p != ""; {
		i := strings.LastIndexAny(p, ".[#")
		if i < 0 {
			break
		}
		p = p[:i]
		if v, ok := e.base[cellKey{root, p}]; ok {
			return e.project(v, path[i:]), true
		}
	}
	if path == "" {
		// never assigned
		return e.zero(g.Type().(*types.Pointer).Elem()), true
	}
	return nil, false
}

func (e *Engine) runInit(p *ssa.Package) {
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	cur, eff, stack := e.cur, e.effects, e.loopStack
	e.cur, e.effects, e.loopStack = bT, nil, nil
	e.suppress++
	inInit := e.inInit
	e.inInit = true
	defer func() { e.inInit = inInit }()
	st := newState()
	_, out := e.evalFn(fn, nil, nil, st, &Ctx{id: e.ctxID(nil, nil, "init:"+p.Pkg.Path()), fn: fn})
	e.suppress--
	e.cur, e.effects, e.loopStack = cur, eff, stack
	if out != nil {
		for k, v := range out.cells {
			e.base[k] = v
		}
	}
}

func (e *Engine) ctxID(parent *Ctx, site ssa.Instruction, extra string) int {
	pid := 0
	if parent != nil {
		pid = parent.id
	}
	k := fmt.Sprintf("%d|%p|%s", pid, site, extra)
	if id, ok := e.ctxs[k]; ok {
		return id
	}
	id := len(e.ctxs) + 1
	e.ctxs[k] = id
	return id
}

// ---- evaluation

type edge struct {
	from *ssa.BasicBlock
	idx  int // predecessor index at the target
	to   *ssa.BasicBlock
	c    B
	st   *State
	vals map[*ssa.Phi]*Term
}

type retRec struct {
	c  B
	v  *Term
	st *State
}

type deferRec struct {
	c     B
	run   func(st *State) *State
	instr *ssa.Defer
	loops int
}

type frame struct {
	e      *Engine
	fn     *ssa.Function
	cx     *Ctx
	env    map[ssa.Value]*Term
	free   []*Term
	fi     *fnInfo
	rets   []retRec
	defers []deferRec
	str    string // constant text whose bytes an unrolled loop visits
	strAt  int
}

const maxSteps = 4_000_000

func (e *Engine) evalFn(fn *ssa.Function, args, free []*Term, st *State, cx *Ctx) (*Term, *State) {
	fr := &frame{e: e, fn: fn, cx: cx, env: map[ssa.Value]*Term{}, free: free, fi: e.info(fn)}
	e.inlined[fn] = true
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			fr.env[p] = free[i]
		}
	}
	entry := e.cur
	pend := map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{idx: -1, to: fn.Blocks[0], c: e.cur, st: st}}}
	fr.region(nil, pend)
	if len(fr.rets) == 0 {
		e.cur = bF
		return e.mk(OUndef, ""), nil
	}
	total := bF
	for _, r := range fr.rets {
		total = e.bdd.Or(total, r.c)
	}
	e.cur = total
	var arms []Arm
	var es []edge
	for _, r := range fr.rets {
		arms = append(arms, Arm{e.bdd.Cof(r.c, total), r.v})
		es = append(es, edge{c: r.c, st: r.st})
	}
	_ = entry
	return e.choiceTuple(arms), e.mergeStates(es, total)
}

func (e *Engine) choiceTuple(arms []Arm) *Term {
	if len(arms) == 1 {
		return arms[0].T
	}
	if arms[0].T != nil && arms[0].T.Op == OTuple {
		n := len(arms[0].T.Args)
		args := make([]*Term, n)
		for i := 0; i < n; i++ {
			var as []Arm
			for _, a := range arms {
				if a.T.Op != OTuple {
					continue
				}
				as = append(as, Arm{a.C, a.T.Args[i]})
			}
			args[i] = e.Choice(as)
		}
		return e.mk(OTuple, "", args...)
	}
	return e.Choice(arms)
}

func (e *Engine) mergeStates(es []edge, total B) *State {
	if len(es) == 1 {
		return es[0].st.clone()
	}
	keys := map[cellKey]bool{}
	for _, x := range es {
		for k := range x.st.cells {
			keys[k] = true
		}
	}
	out := newState()
	for k := range keys {
		var v *Term
		same := true
		for i, x := range es {
			w, ok := x.st.cells[k]
			if !ok {
				w = e.raw(x.st, k.root, k.path)
			}
			if i == 0 {
				v = w
			} else if v != w {
				same = false
			}
		}
		if same {
			out.cells[k] = v
			continue
		}
		var arms []Arm
		for _, x := range es {
			w, ok := x.st.cells[k]
			if !ok {
				w = e.raw(x.st, k.root, k.path)
			}
			arms = append(arms, Arm{e.bdd.Cof(x.c, total), w})
		}
		out.cells[k] = e.Choice(arms)
	}
	return out
}

func (fr *frame) region(l *loopNest, pend map[*ssa.BasicBlock][]edge) (back, exits []edge) {
	route := func(x edge) {
		if l != nil {
			if x.to == l.header {
				back = append(back, x)
				return
			}
			if !l.blocks[x.to] {
				exits = append(exits, x)
				return
			}
		}
		pend[x.to] = append(pend[x.to], x)
	}
	for _, b := range fr.fi.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		in := fr.fi.inner[b]
		if m := fr.fi.loops[b]; m != nil && m != l {
			if m.parent != l {
				continue
			}
			if es := pend[b]; len(es) > 0 {
				for _, x := range fr.loop(m, es) {
					route(x)
				}
			}
			continue
		}
		if in != l {
			continue
		}
		es := pend[b]
		if len(es) == 0 {
			continue
		}
		for _, x := range fr.block(b, es) {
			route(x)
		}
	}
	return
}

func predIndex(from, to *ssa.BasicBlock, nth int) int {
	n := 0
	for i, p := range to.Preds {
		if p == from {
			if n == nth {
				return i
			}
			n++
		}
	}
	return -1
}

func (fr *frame) out(b *ssa.BasicBlock, i int, c B, st *State) edge {
	to := b.Succs[i]
	nth := 0
	for j := 0; j < i; j++ {
		if b.Succs[j] == to {
			nth++
		}
	}
	x := edge{from: b, idx: predIndex(b, to, nth), to: to, c: c, st: st}
	// values of the phis along this edge, before anything is overwritten
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if x.vals == nil {
			x.vals = map[*ssa.Phi]*Term{}
		}
		x.vals[phi] = fr.val(phi.Edges[x.idx])
	}
	return x
}

func (fr *frame) block(b *ssa.BasicBlock, es []edge) []edge {
	e := fr.e
	c := bF
	for _, x := range es {
		c = e.bdd.Or(c, x.c)
	}
	if c == bF {
		return nil
	}
	st := e.mergeStates(es, c)
	e.cur = c
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var arms []Arm
		for _, x := range es {
			if x.idx >= 0 {
				arms = append(arms, Arm{e.bdd.Cof(x.c, c), x.vals[phi]})
			}
		}
		if len(arms) > 0 {
			fr.env[phi] = e.typed(e.Choice(arms), phi.Type())
		}
	}
	return fr.instrs(b, st, nil)
}

func (fr *frame) loopKey(l *loopNest) string {
	return fmt.Sprintf("%s/%d@%d", fr.fn.String(), l.header.Index, fr.cx.id)
}

type induction struct {
	phi    *ssa.Phi
	step   int64
	tested ssa.Value
	bound  ssa.Value
	op     token.Token
	first  int64 // offset of the tested value relative to the phi
}

// induction finds a counter phi = phi(init, phi+c) tested in the header.
func findInduction(l *loopNest) *induction {
	h := l.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	op := cmp.Op
	x, y := cmp.X, cmp.Y
	if !l.blocks[h.Succs[0]] {
		// the loop continues when the condition is false
		switch op {
		case token.GEQ:
			op = token.LSS
		case token.LSS:
			op = token.GEQ
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		case token.EQL:
			op = token.NEQ
		default:
			return nil
		}
	}
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := phi.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		var step int64
		good := true
		for i, p := range h.Preds {
			if !l.blocks[p] {
				continue
			}
			bo, ok := phi.Edges[i].(*ssa.BinOp)
			if !ok || bo.X != phi || (bo.Op != token.ADD && bo.Op != token.SUB) {
				good = false
				break
			}
			k, ok := bo.Y.(*ssa.Const)
			if !ok || k.Value == nil {
				good = false
				break
			}
			s, _ := constant.Int64Val(constant.ToInt(k.Value))
			if bo.Op == token.SUB {
				s = -s
			}
			if step != 0 && step != s {
				good = false
				break
			}
			step = s
		}
		if !good || step == 0 {
			continue
		}
		match := func(v ssa.Value) (int64, bool) {
			if v == phi {
				return 0, true
			}
			if bo, ok := v.(*ssa.BinOp); ok && bo.X == phi && bo.Op == token.ADD {
				if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil {
					s, _ := constant.Int64Val(constant.ToInt(k.Value))
					return s, true
				}
			}
			return 0, false
		}
		if off, ok := match(x); ok {
			return &induction{phi, step, x, y, op, off}
		}
		if off, ok := match(y); ok {
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
			return &induction{phi, step, y, x, op, off}
		}
	}
	return nil
}

func constInt(t *Term) (int64, bool) {
	if t == nil || t.Op != OConst {
		return 0, false
	}
	var k int64
	if n, err := fmt.Sscanf(t.Aux, "%d", &k); err != nil || n != 1 {
		return 0, false
	}
	return k, true
}

func (fr *frame) loop(l *loopNest, entry []edge) []edge {
	e := fr.e
	key := fr.loopKey(l)
	m := e.memo[key]
	if m == nil {
		m = &loopMemo{mod: map[cellKey]bool{}, fixed: map[cellKey]bool{}}
		m.loop = &Loop{Key: key, Fn: fr.fn, Kind: "while", Pos: loopPos(l)}
		e.memo[key] = m
	}
	c0 := bF
	for _, x := range entry {
		c0 = e.bdd.Or(c0, x.c)
	}
	if c0 == bF {
		return nil
	}
	m.loop.Entry = c0
	st0 := e.mergeStates(entry, c0)
	inits := map[*ssa.Phi]*Term{}
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		var arms []Arm
		for _, x := range entry {
			if x.idx >= 0 {
				arms = append(arms, Arm{e.bdd.Cof(x.c, c0), x.vals[phi]})
			}
		}
		inits[phi] = e.typed(e.Choice(arms), phi.Type())
	}
	ind := findInduction(l)
	if n, str, ok := fr.tripCount(l, ind, inits); ok {
		return fr.unroll(l, entry, n, str)
	}
	mark := len(e.effects)
	baseLoops := len(e.loopStack)
	var exits []edge
	for pass := 0; ; pass++ {
		if pass > 12 {
			panic(analysisError{"no fixpoint for loop in " + fr.fn.String()})
		}
		e.effects = e.effects[:mark]
		st := st0.clone()
		for k := range m.mod {
			if m.fixed[k] {
				continue
			}
			lv := e.lvTerm(key + cellName(k))
			init, ok := st0.cells[k]
			if !ok {
				init = e.raw(st0, k.root, k.path)
			}
			lv.LV.Init, lv.LV.Loop, lv.LV.Cell, lv.LV.Root = init, m.loop, k.path, k.root
			if init.Typ != nil && lv.Typ == nil {
				lv.Typ = init.Typ
			}
			st.cells[k] = lv
		}
		m.loop.Dup = ""
		if m.over != nil {
			for _, o := range e.loopStack {
				if o.Over == m.over {
					m.loop.Dup += "'"
				}
			}
		}
		for _, phi := range phis {
			if ind != nil && phi == ind.phi && m.over != nil {
				idx := e.mkT(phi.Type(), OIdx, m.loop.Dup, m.over)
				fr.env[phi] = e.bin(token.SUB, idx, e.mk(OConst, fmt.Sprint(m.off)), phi.Type())
				continue
			}
			lv := e.lvTerm(key + "/" + phiName(phi))
			lv.LV.Init, lv.LV.Loop = inits[phi], m.loop
			lv.Typ = phi.Type()
			fr.env[phi] = lv
		}
		m.loop.Exits = nil
		m.loop.Outer = append([]*Loop(nil), e.loopStack[:baseLoops]...)
		m.loop.Over, m.loop.Kind = m.over, "while"
		if m.over != nil {
			m.loop.Kind = m.kind
		}
		e.loopStack = append(e.loopStack[:baseLoops:baseLoops], m.loop)
		e.cur = c0
		lc := &loopCtl{m: m, l: l}
		outs := fr.instrs(l.header, st, lc)
		pend := map[*ssa.BasicBlock][]edge{}
		var normal []edge
		for _, x := range outs {
			if x.to == l.header {
				continue
			}
			if l.blocks[x.to] {
				pend[x.to] = append(pend[x.to], x)
			} else {
				normal = append(normal, x)
			}
		}
		back, early := fr.region(l, pend)
		for _, x := range outs {
			if x.to == l.header {
				back = append(back, x)
			}
		}
		e.loopStack = e.loopStack[:baseLoops]
		changed := false
		// what changes from one iteration to the next
		cb := bF
		for _, x := range back {
			cb = e.bdd.Or(cb, x.c)
		}
		if cb != bF {
			bst := e.mergeStates(back, cb)
			for k, v := range bst.cells {
				h, ok := st.cells[k]
				if !ok {
					h = e.raw(st, k.root, k.path)
				}
				if m.mod[k] {
					if !m.fixed[k] {
						lv := e.lvTerm(key + cellName(k))
						if lv.LV.Update != v {
							lv.LV.Update = v
							changed = changed || lvMatters(lv, v)
						}
					} else if v != h {
						delete(m.fixed, k)
						changed = true
					}
					continue
				}
				if v != h {
					m.mod[k] = true
					changed = true
				}
			}
			for _, phi := range phis {
				if ind != nil && phi == ind.phi && m.over != nil {
					continue
				}
				var arms []Arm
				for _, x := range back {
					arms = append(arms, Arm{e.bdd.Cof(x.c, cb), x.vals[phi]})
				}
				lv := e.lvTerm(key + "/" + phiName(phi))
				u := e.typed(e.Choice(arms), phi.Type())
				if lv.LV.Update != u {
					lv.LV.Update = u
					changed = true
				}
			}
		}
		// recognise complete iterations
		var over *Term
		var off int64
		kind := "range"
		if lc.iter != nil {
			over, kind = lc.iter, "iter"
		} else if ind != nil {
			bound := fr.val(ind.bound)
			init := inits[ind.phi]
			switch {
			case ind.step == 1 && (ind.op == token.LSS || ind.op == token.NEQ):
				if k, ok := constInt(init); ok && k+ind.first == 0 && !containsLoop(bound, key) {
					over, off = fr.overOf(ind.bound, bound), ind.first
				}
			case ind.step == 1 && ind.op == token.LEQ:
				if k, ok := constInt(init); ok && k+ind.first == 0 && bound.Op == OBin && bound.Aux == "-" && !containsLoop(bound, key) {
					if o, ok := constInt(bound.Args[1]); ok && o == 1 {
						over, off = e.overOf(bound.Args[0]), ind.first
					}
				}
			case ind.step == -1 && ind.first == 0 && (ind.op == token.GEQ || ind.op == token.GTR):
				want := int64(0)
				if ind.op == token.GTR {
					want = -1
				}
				if k, ok := constInt(bound); ok && k == want && init.Op == OBin && init.Aux == "-" {
					if o, ok := constInt(init.Args[1]); ok && o == 1 {
						over, kind = e.overOf(init.Args[0]), "reverse"
					}
				}
			}
		}
		if over != m.over || (over != nil && (off != m.off || kind != m.kind)) {
			m.over, m.off, m.kind = over, off, kind
			changed = true
		}
		for _, x := range early {
			m.loop.Exits = append(m.loop.Exits, LoopExit{x.c, x.to, blockPos(x.from)})
		}
		exits = exits[:0]
		m.loop.Ends = bF
		for _, x := range normal {
			m.loop.Ends = e.bdd.Or(m.loop.Ends, x.c)
		}
		if len(early) > 0 && len(normal) > 0 {
			br := e.Cond(e.mk(OBroke, key))
			for i := range normal {
				normal[i].c = e.bdd.And(normal[i].c, e.bdd.Not(br))
			}
			for i := range early {
				early[i].c = e.bdd.And(early[i].c, br)
			}
		}
		exits = append(append(exits, normal...), early...)
		if !changed {
			// cells that no iteration really changes
			drop := false
			for k := range m.mod {
				if m.fixed[k] {
					continue
				}
				lv := e.lvTerm(key + cellName(k))
				if lv.LV.Update == lv && !m.fixed[k] {
					m.fixed[k] = true
					drop = true
				}
			}
			if drop {
				continue
			}
			break
		}
	}
	// an element stored for every position of the iterated collection
	if m.over != nil && len(m.loop.Exits) == 0 {
		suffix := fmt.Sprintf("[#%d]", e.mk(OIdx, m.loop.Dup, m.over).ID)
		for k := range m.mod {
			if !strings.HasSuffix(k.path, suffix) {
				continue
			}
			lv := e.lvTerm(key + cellName(k))
			u := lv.LV.Update
			if u == nil || containsTerm(u, lv) {
				continue
			}
			for i := range exits {
				if v := exits[i].st.cells[k]; v == lv {
					exits[i].st.cells[k] = u
				}
			}
		}
	}
	return exits
}

const maxUnroll = 8

// tripCount tells how often a loop runs at most when it counts between small
// constants, or goes through the bytes of a short constant text.
func (fr *frame) tripCount(l *loopNest, ind *induction, inits map[*ssa.Phi]*Term) (n int, str string, ok bool) {
	e := fr.e
	for _, in := range l.header.Instrs {
		nx, isNext := in.(*ssa.Next)
		if !isNext || !nx.IsString {
			continue
		}
		it, _ := nx.Iter.(*ssa.Range)
		if it == nil || l.blocks[it.Block()] {
			return 0, "", false
		}
		t := fr.val(it)
		if t.Op == OIter {
			t = t.Args[0]
		}
		if t.Op != OConst {
			return 0, "", false
		}
		s, good := unquote(t.Aux)
		if !good || len(s) == 0 || len(s) > maxUnroll {
			return 0, "", false
		}
		for i := 0; i < len(s); i++ {
			if s[i] >= 0x80 {
				return 0, "", false
			}
		}
		return len(s), s, true
	}
	if ind == nil {
		return 0, "", false
	}
	init, good := constInt(inits[ind.phi])
	if !good {
		return 0, "", false
	}
	var bt *Term
	switch b := ind.bound.(type) {
	case *ssa.Const:
		bt = fr.val(b)
	case ssa.Instruction:
		if !l.blocks[b.Block()] {
			bt = fr.val(ind.bound)
		} else if c, isCall := b.(*ssa.Call); isCall {
			bi, isLen := c.Call.Value.(*ssa.Builtin)
			if !isLen || bi.Name() != "len" {
				return 0, "", false
			}
			if a, isIn := c.Call.Args[0].(ssa.Instruction); isIn && l.blocks[a.Block()] {
				return 0, "", false
			}
			bt = e.length(fr.val(c.Call.Args[0]))
		}
	}
	if bt != nil && bt.Op == OChoice {
		// as it is when the loop is reached
		bt = e.simplify(bt)
	}
	bound, good := constInt(bt)
	if !good {
		return 0, "", false
	}
	x := init + ind.first // the value tested first
	for k := 0; k <= maxUnroll; k++ {
		var in bool
		switch ind.op {
		case token.LSS:
			in = x < bound
		case token.LEQ:
			in = x <= bound
		case token.GTR:
			in = x > bound
		case token.GEQ:
			in = x >= bound
		case token.NEQ:
			in = x != bound
		default:
			return 0, "", false
		}
		if !in {
			return k, "", k > 0
		}
		x += ind.step
	}
	return 0, "", false
}

// unroll follows every iteration of a loop by itself.
func (fr *frame) unroll(l *loopNest, cur []edge, n int, str string) (exits []edge) {
	e := fr.e
	cx := fr.cx
	defer func() { fr.cx = cx }()
	key := fmt.Sprintf("%s/%d", fr.fn.String(), l.header.Index)
	// what is used after the loop has the value of the iteration that left it
	live := l.liveOut()
	after := map[ssa.Value][]Arm{}
	seen := 0
	leave := func() {
		for _, x := range exits[seen:] {
			for _, v := range live {
				if t := fr.env[v]; t != nil {
					after[v] = append(after[v], Arm{x.c, t})
				}
			}
		}
		seen = len(exits)
	}
	defer func() {
		for _, v := range live {
			if len(after[v]) > 1 {
				fr.env[v] = e.typed(e.Choice(after[v]), v.Type())
			} else if len(after[v]) == 1 {
				fr.env[v] = after[v][0].T
			}
		}
	}()
	for it := 0; it <= n && len(cur) > 0; it++ {
		c0 := bF
		for _, x := range cur {
			c0 = e.bdd.Or(c0, x.c)
		}
		if c0 == bF {
			return
		}
		st := e.mergeStates(cur, c0)
		vals := map[*ssa.Phi]*Term{}
		for _, in := range l.header.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			var arms []Arm
			for _, x := range cur {
				if x.idx >= 0 {
					arms = append(arms, Arm{e.bdd.Cof(x.c, c0), x.vals[phi]})
				}
			}
			vals[phi] = e.typed(e.Choice(arms), phi.Type())
		}
		for phi, v := range vals {
			fr.env[phi] = v
		}
		fr.cx = &Ctx{id: e.ctxID(cx, nil, fmt.Sprint(key, "#", it)), parent: cx.parent, fn: cx.fn, site: cx.site}
		fr.str, fr.strAt = str, it
		e.cur = c0
		outs := fr.instrs(l.header, st, nil)
		pend := map[*ssa.BasicBlock][]edge{}
		var back []edge
		for _, x := range outs {
			switch {
			case x.to == l.header:
				back = append(back, x)
			case l.blocks[x.to]:
				pend[x.to] = append(pend[x.to], x)
			default:
				exits = append(exits, x)
			}
		}
		b, early := fr.region(l, pend)
		exits = append(exits, early...)
		leave()
		cur = append(back, b...)
	}
	if len(cur) > 0 {
		panic(analysisError{"the number of iterations of a loop in " + fr.fn.String() + " is not what it seemed"})
	}
	return
}

// liveOut are the values of a loop that are used outside of it.
func (l *loopNest) liveOut() (out []ssa.Value) {
	for _, b := range l.header.Parent().Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !l.blocks[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	return
}

func lvMatters(lv, v *Term) bool { return true }

func cellName(k cellKey) string { return fmt.Sprintf("!%d%s", k.root.ID, k.path) }

func phiName(p *ssa.Phi) string {
	return p.Name() + ":" + p.Comment
}

func (e *Engine) lvTerm(aux string) *Term {
	t := e.mk(OLV, aux)
	if t.LV == nil {
		t.LV = &LVInfo{}
	}
	return t
}

// overOf is what has the length b.
func (fr *frame) overOf(v ssa.Value, b *Term) *Term {
	if c, ok := v.(*ssa.Call); ok && b.Op == OChoice {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if x := fr.val(c.Call.Args[0]); x.Op == OChoice {
				return x
			}
		}
	}
	return fr.e.overOf(b)
}

func (e *Engine) overOf(b *Term) *Term {
	if b.Op == OLen {
		return b.Args[0]
	}
	if b.Op == OChoice {
		// the length of one of some lists
		var arms []Arm
		for _, a := range b.Arms {
			if a.T.Op != OLen {
				return b
			}
			arms = append(arms, Arm{a.C, a.T.Args[0]})
		}
		return e.Choice(arms)
	}
	return b
}

func loopPos(l *loopNest) token.Pos {
	best := token.NoPos
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

func containsLoop(t *Term, key string) bool {
	return anyTerm(t, func(x *Term) bool { return x.Op == OLV && strings.HasPrefix(x.Aux, key) })
}

func containsTerm(t, x *Term) bool {
	return anyTerm(t, func(y *Term) bool { return y == x })
}

func anyTerm(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		for _, a := range t.Arms {
			if rec(a.T) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

type loopCtl struct {
	m    *loopMemo
	l    *loopNest
	iter *Term
}
