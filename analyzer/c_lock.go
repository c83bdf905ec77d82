package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- locks

var lockCalls = map[string]string{
	"(*sync.Mutex).Lock": "W+", "(*sync.Mutex).Unlock": "W-",
	"(*sync.RWMutex).Lock": "W+", "(*sync.RWMutex).Unlock": "W-",
	"(*sync.RWMutex).RLock": "R+", "(*sync.RWMutex).RUnlock": "R-",
	"(sync.Locker).Lock": "W+", "(sync.Locker).Unlock": "W-",
}

// isLock: a type whose values guard other state.
func isLock(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// guardedType is the struct with a lock in it that t, or what it points to, is.
func guardedType(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i).Type()
		if p, ok := f.(*types.Pointer); ok {
			f = p.Elem()
		}
		if isLock(f) {
			return n
		}
	}
	return nil
}

// afterLock is what another thread may have left behind when a lock is acquired.
const afterLock = "since "

func stripLock(t *Term) *Term {
	for t.Op == OOpaque && strings.HasPrefix(t.Aux, afterLock) {
		t = t.Args[0]
	}
	return t
}

// lockHook forgets what is known about the owner of a lock.
func lockHook(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
	e := fr.e
	fr.emit("call", name, args, nil, in)
	if len(args) == 1 && strings.HasSuffix(lockCalls[name], "+") {
		for _, g := range e.targets(args[0]) {
			if isFresh(g.root) {
				continue
			}
			typ := g.root.Typ
			v := e.mk(OOpaque, afterLock+fr.siteKey(in), g.root)
			if typ != nil {
				if p, ok := typ.Underlying().(*types.Pointer); ok {
					v = e.typed(v, p.Elem())
				}
			}
			e.setCell(st, g.root, "", v)
		}
	}
	return e.mk(OTuple, ""), st
}

func (e *Engine) hookLocks() {
	if e.Hook == nil {
		e.Hook = map[string]model{}
	}
	for n := range lockCalls {
		e.Hook[n] = lockHook
	}
}

// held tells, for each lock, when it is held.
type held struct{ w, r map[string]B }

func (h *held) clone() *held {
	n := &held{map[string]B{}, map[string]B{}}
	for k, v := range h.w {
		n.w[k] = v
	}
	for k, v := range h.r {
		n.r[k] = v
	}
	return n
}

type lockErr struct {
	ef   *Effect
	what string
	when B
}

// locks follows the locks through the effects of an entry point; visit is called
// for every other effect with what is held there.
func (e *Engine) locks(r *Result, visit func(ef *Effect, h *held)) (bad []lockErr, ops int) {
	h := &held{map[string]B{}, map[string]B{}}
	dead := bF
	left := e.exited()
	none := func(x B) bool {
		x = e.bdd.And(x, left)
		return x == bF || e.absurd(x)
	}
	get := func(m map[string]B, k string) B {
		if v, ok := m[k]; ok {
			return v
		}
		return bF
	}
	for _, ef := range e.effects {
		op := ""
		if ef.Kind == "call" {
			op = lockCalls[ef.Callee]
			if noReturn[ef.Callee] {
				dead = e.bdd.Or(dead, ef.Cond)
			}
		}
		if ef.Kind == "panic" {
			dead = e.bdd.Or(dead, ef.Cond)
		}
		if op == "" {
			visit(ef, h)
			continue
		}
		ops++
		k := e.lockName(ef.Args[0])
		m := h.w
		if op[0] == 'R' {
			m = h.r
		}
		alive := e.bdd.And(ef.Cond, e.bdd.Not(dead))
		if op[1] == '+' {
			again := get(h.w, k)
			if op[0] == 'W' {
				again = e.bdd.Or(again, get(h.r, k))
			}
			if x := e.bdd.And(alive, again); !none(x) {
				bad = append(bad, lockErr{ef, "acquires " + k + " while it already holds it", x})
			}
			m[k] = e.bdd.Or(get(m, k), ef.Cond)
			continue
		}
		if x := e.bdd.And(alive, e.bdd.Not(get(m, k))); !none(x) {
			bad = append(bad, lockErr{ef, "releases " + k + " which it does not hold that way", x})
		}
		m[k] = e.bdd.And(get(m, k), e.bdd.Not(ef.Cond))
	}
	end := e.bdd.And(r.Cond, e.bdd.Not(dead))
	for _, m := range []map[string]B{h.w, h.r} {
		for k, c := range m {
			if x := e.bdd.And(end, c); !none(x) {
				bad = append(bad, lockErr{nil, "returns without releasing " + k, x})
			}
		}
	}
	return
}

// exited: a loop that was left early was left by one of its exits.
func (e *Engine) exited() B {
	r := bT
	var ks []string
	for k := range e.memo {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		l := e.memo[k].loop
		br := e.Cond(e.mk(OBroke, l.Key))
		x := bF
		for _, o := range l.Exits {
			x = e.bdd.Or(x, o.Cond)
		}
		r = e.bdd.And(r, e.bdd.Or(e.bdd.Not(e.bdd.And(br, l.Entry)), x))
	}
	return r
}

// terminated: loops other than those around what is looked at come to their end.
func (e *Engine) terminated(around []*Loop) B {
	r := bT
	var ks []string
	for k := range e.memo {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		l := e.memo[k].loop
		in := l.Kind != "while"
		for _, o := range around {
			in = in || o == l
		}
		if in {
			continue
		}
		end := l.Ends
		switch {
		case len(l.Exits) > 0 && end != bF:
			end = e.bdd.Or(end, e.Cond(e.mk(OBroke, l.Key)))
		case len(l.Exits) > 0:
			for _, x := range l.Exits {
				end = e.bdd.Or(end, x.Cond)
			}
		}
		if end == bF {
			continue // runs until the process ends
		}
		r = e.bdd.And(r, e.bdd.Or(e.bdd.Not(l.Entry), end))
	}
	return r
}

// lockName names a lock by the object it is part of.
func (e *Engine) lockName(t *Term) string {
	if t.Op == OAddr {
		return e.ownerName(t.Args[0]) + t.Aux
	}
	return e.ownerName(t)
}

func (e *Engine) ownerName(t *Term) string {
	return e.Str(e.unlocked(t))
}

// unlocked is t without regard to when it was read.
func (e *Engine) unlocked(t *Term) *Term {
	t = stripLock(t)
	switch t.Op {
	case OField, OElem, OIndex, OAddr, OCall:
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = e.unlocked(a)
		}
		return e.mk(t.Op, t.Aux, args...)
	}
	return t
}

// place is a part of the state of an object that has a lock.
type place struct {
	typ   *types.Named
	owner string
	path  string
}

// placeOf finds what an access to t touches; content is added for what t holds.
func (e *Engine) placeOf(t *Term, rest string) (place, bool) {
	for t != nil {
		t = stripLock(t)
		if t.Op == OAddr {
			rest = t.Aux + rest
			t = t.Args[0]
			continue
		}
		if isFresh(t) {
			return place{}, false
		}
		if n := guardedType(t.Typ); n != nil && rest != "" {
			return place{n, e.ownerName(t), rest}, true
		}
		switch t.Op {
		case OField:
			rest = "." + t.Aux + rest
		case OElem, OIndex, OKey:
			rest = "[]" + rest
		default:
			return place{}, false
		}
		t = t.Args[0]
	}
	return place{}, false
}

type access struct {
	place
	write bool
	held  *held
	ef    *Effect
	fn    string
	orig  *Effect
	moved B // when the owner no longer refers to it
}

// lockRoots are the functions from which everything that uses locks is reached:
// those which are not only called from within their package.
func (c *Check) lockRoots(pkgs map[*types.Package]bool) (out []*ssa.Function) {
	called := map[*ssa.Function]bool{}
	spawned := map[*ssa.Function]bool{}
	for _, fn := range c.P.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					spawned[g] = true
					continue
				}
				if fnPkg(fn) == fnPkg(g) && fn != g {
					called[g] = true
				}
			}
		}
	}
	for _, fn := range c.P.All {
		if !pkgs[fnPkg(fn)] || fn.Synthetic != "" {
			continue
		}
		if fn.TypeParams() != nil && fn.TypeArgs() == nil {
			continue
		}
		if spawned[fn] {
			out = append(out, fn)
			continue
		}
		if fn.Parent() != nil {
			continue
		}
		exported := fn.Object() != nil && fn.Object().Exported()
		if exported || !called[fn] {
			out = append(out, fn)
		}
	}
	return
}

// lockPackages are those that declare a struct with a lock, or a lock of their own.
func (c *Check) lockPackages() map[*types.Package]bool {
	out := map[*types.Package]bool{}
	for _, p := range c.P.Pkgs {
		if c.P.gen[p.PkgPath] {
			continue
		}
		s := p.Types.Scope()
		for _, n := range s.Names() {
			o := s.Lookup(n)
			if _, ok := o.(*types.TypeName); ok && guardedType(o.Type()) != nil {
				out[p.Types] = true
			}
			if v, ok := o.(*types.Var); ok && (isLock(v.Type()) || guardedType(v.Type()) != nil) {
				out[p.Types] = true
			}
		}
		// locks that are local to a function
		for _, fn := range c.P.All {
			if fnPkg(fn) != p.Types {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil && lockCalls[fnName(g)] != "" {
							out[p.Types] = true
						}
					}
				}
			}
		}
	}
	return out
}

type lockRun struct {
	e    *Engine
	r    *Result
	name string
	acc  []access
	bad  []lockErr
	ops  int
	at   map[*Effect]*held
}

func (c *Check) lockRuns(loads bool) (out []*lockRun) {
	return c.lockRunsOf(c.lockPackages(), loads, nil)
}

func (c *Check) lockRunsOf(pkgs map[*types.Package]bool, loads bool, opaque func(*ssa.Function) bool) (out []*lockRun) {
	for _, fn := range c.lockRoots(pkgs) {
		e := c.engine()
		e.Loads = loads
		e.Opaque = opaque
		e.hookLocks()
		var free []*Term
		for _, f := range fn.FreeVars {
			free = append(free, e.mkT(f.Type(), OParam, f.Name()))
		}
		var r *Result
		if free != nil {
			r = e.runFree(fn, free)
		} else {
			r = c.run(e, fn)
		}
		l := &lockRun{e: e, r: r, name: shortName(fnName(fn))}
		replaced := map[string]B{}
		l.at = map[*Effect]*held{}
		l.bad, l.ops = e.locks(r, func(ef *Effect, h *held) {
			switch ef.Kind {
			case "call", "append", "mapset", "store", "load":
				l.at[ef] = h.clone()
			}
			add := func(t *Term, rest string, write bool) {
				for _, a := range t.arms() {
					p, ok := e.placeOf(a.T, rest)
					if !ok {
						continue
					}
					cond := e.bdd.And(ef.Cond, a.C)
					if cond == bF {
						continue
					}
					moved := bF
					i := 1
					for i < len(p.path) && strings.IndexByte(".[", p.path[i]) < 0 {
						i++
					}
					if i < len(p.path) {
						if m, ok := replaced[p.owner+p.path[:i]]; ok {
							moved = m
						}
					}
					if write && i == len(p.path) {
						k := p.owner + p.path
						if _, ok := replaced[k]; !ok {
							replaced[k] = bF
						}
						replaced[k] = e.bdd.Or(replaced[k], cond)
					}
					x := *ef
					x.Cond = cond
					l.acc = append(l.acc, access{p, write, h.clone(), &x, l.name, ef, moved})
				}
			}
			switch ef.Kind {
			case "load":
				add(ef.Args[0], "", false)
			case "store":
				add(ef.Args[0], "", true)
			case "lookup":
				add(ef.Args[0], "[]", false)
			case "mapset":
				add(ef.Args[0], "[]", true)
			case "delete", "clear":
				add(ef.Args[0], "[]", true)
			case "copy", "sort":
				add(ef.Args[0], "[]", true)
			}
		})
		out = append(out, l)
	}
	return
}

// runFree analyses a function literal by itself.
func (e *Engine) runFree(fn *ssa.Function, free []*Term) *Result {
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, e.mkT(p.Type(), OParam, p.Name()))
	}
	e.cur = bT
	cx := &Ctx{id: e.ctxID(nil, nil, fn.String()), fn: fn}
	v, st := e.evalFn(fn, args, free, newState(), cx)
	return &Result{E: e, Fn: fn, Args: args, Val: v, St: st, Cond: e.cur}
}

// overlap: one access may touch what the other does.
func overlap(a, b string) bool {
	return a == b || strings.HasPrefix(a, b) && strings.IndexByte(".[", a[len(b)]) >= 0 || strings.HasPrefix(b, a) && strings.IndexByte(".[", b[len(a)]) >= 0
}

func init() {
	register("C18", "every read and write of state of an object that has a lock is found, with the locks held there; for whatever is changed after construction there must be one lock held at every access, exclusively for writes", c18)
	register("C20", "the condition under which each lock is held is followed through every path of each function that uses locks; none is held at the end, acquired twice, or released without being held", c20)
}

func c18(c *Check) {
	type key struct {
		typ  *types.Named
		path string
	}
	accs := map[key][]access{}
	mutated := map[key]bool{}
	eng := map[*Effect]*Engine{}
	runs := c.lockRuns(true)
	for _, l := range runs {
		c.Counts["functions"]++
		for _, a := range l.acc {
			k := key{a.typ, a.path}
			accs[k] = append(accs[k], a)
			eng[a.ef] = l.e
			if a.write {
				mutated[k] = true
			}
		}
	}
	var keys []key
	for k := range mutated {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i].typ.String()+keys[i].path < keys[j].typ.String()+keys[j].path
	})
	for _, k := range keys {
		c.Counts["guarded places"]++
		name := shortName(k.typ.String()) + k.path
		s := k.typ.Underlying().(*types.Struct)
		var best []string
		lock := ""
		first := true
		var pos *Effect
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			ft := f.Type()
			if p, ok := ft.(*types.Pointer); ok {
				ft = p.Elem()
			}
			if !isLock(ft) {
				continue
			}
			var miss []string
			var at *Effect
			for k2, as := range accs {
				if k2 != k {
					continue
				}
				for _, a := range as {
					e := eng[a.ef]
					left := e.exited()
					id := a.owner + "." + f.Name()
					ok := a.moved
					if x, has := a.held.w[id]; has {
						ok = e.bdd.Or(ok, x)
					}
					if x, has := a.held.r[id]; has && !a.write {
						ok = e.bdd.Or(ok, x)
					}
					if d := e.bdd.And(a.ef.Cond, e.bdd.Not(ok)); d != bF && e.bdd.And(d, left) != bF && !e.absurd(e.bdd.And(d, left)) {
						what := "read"
						if a.write {
							what = "written"
						}
						miss = append(miss, fmt.Sprintf("%s in %s at %s", what, a.fn, c.P.pos(a.ef.Pos)))
						at = a.ef
					}
				}
			}
			if first || len(miss) < len(best) {
				best, lock, pos = miss, f.Name(), at
				first = false
			}
		}
		c.Counts["accesses"] += len(accs[k])
		if pos == nil && len(accs[k]) > 0 {
			pos = accs[k][0].ef
		}
		c.ob("guarded/"+name, "state that changes is only accessed under its lock", len(best) == 0, pos.Pos, "%s is changed after construction but accessed without %s: %s", name, lock, strings.Join(best, "; "))
	}
	// the id of a sample and its place in the buffer are decided in one critical section
	for _, l := range runs {
		e := l.e
		left := e.exited()
		for i, n := range e.effects {
			if n.Kind != "call" || n.Callee != "(*github.com/dgraph-io/badger/v4.Sequence).Next" {
				continue
			}
			for j, w := range e.effects {
				// anything that grows a list of a guarded object
				if w.Kind != "append" {
					continue
				}
				both := e.bdd.And(e.bdd.And(n.Cond, w.Cond), left)
				p, ok := e.placeOf(w.Args[0], "")
				if !ok || both == bF || e.absurd(both) {
					continue
				}
				c.Counts["ids assigned"]++
				lo, hi := i, j
				if lo > hi {
					lo, hi = hi, lo
				}
				why := ""
				h := l.at[e.effects[lo]]
				held := bF
				lock := ""
				for k, x := range h.w {
					if strings.HasPrefix(k, p.owner+".") {
						if e.bdd.And(both, e.bdd.Not(x)) == bF {
							held, lock = bT, k
						}
					}
				}
				if held == bF {
					why = "no lock of " + p.owner + " is held"
				}
				for _, u := range e.effects[lo:hi] {
					if u.Kind == "call" && strings.HasSuffix(lockCalls[u.Callee], "-") && e.lockName(u.Args[0]) == lock {
						if x := e.bdd.And(both, u.Cond); x != bF && !e.absurd(x) {
							why = lock + " is released in between at " + c.P.pos(u.Pos)
						}
					}
				}
				c.ob("atomic/"+l.name, "a number of the sequence is given to a sample in the critical section that adds the sample", why == "", n.Pos, "%s: %s", l.name, why)
			}
		}
	}
	c.Min["ids assigned"] = 1
	c.Min["functions"] = 10
	c.Min["guarded places"] = 3
	c.Min["accesses"] = 8
}

func c20(c *Check) {
	for _, l := range c.lockRuns(false) {
		if l.ops == 0 {
			continue
		}
		c.Counts["functions"]++
		c.Counts["lock operations"] += l.ops
		var msgs []string
		pos := l.r.Fn.Pos()
		for _, b := range l.bad {
			if b.ef != nil {
				pos = b.ef.Pos
			}
			msgs = append(msgs, b.what+" when "+trunc(l.e.CondStr(b.when), 3000))
		}
		sort.Strings(msgs)
		c.ob("balanced/"+l.name, "locks are released on every path, and only when they are held", len(msgs) == 0, pos, "%s: %s", l.name, strings.Join(msgs, "; "))
	}
	c.Min["functions"] = 5
	c.Min["lock operations"] = 15
}
