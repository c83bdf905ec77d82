package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- starting and stopping

func init() {
	register("C24", "every component that is opened is closed once on every way out, before everything it was built from, and not used afterwards; closing a component closes what it opened; background work checks under a lock whether its component is closed", c24)
}

var closers = map[string]bool{"Close": true, "Release": true, "Stop": true, "GracefulStop": true, "Shutdown": true}

func methodBase(name string) string { return name[strings.LastIndex(name, ".")+1:] }

// closable: values of this type must be closed.
func closable(t types.Type) bool {
	if t == nil {
		return false
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj()
		if closers[f.Name()] && f.Exported() {
			return f.Type().(*types.Signature).Params().Len() < 2
		}
	}
	return false
}

// inMemory: not closing such a value loses nothing once the process ends.
func (c *Check) inMemory(t types.Type) bool {
	s := t.String()
	switch s {
	case "*github.com/dgraph-io/ristretto.Cache", "*" + c.P.Mod + "/internal/snippets.Snippets", "*" + c.P.Mod + "/internal/store.Storage":
		return true
	}
	return false
}

// pooled: objects of our own that are given back to a pool, not closed.
func (c *Check) pooled(t types.Type) bool {
	p, ok := derefNamed(t)
	if !ok || !strings.HasPrefix(p, c.P.Mod+"/") {
		return false
	}
	for _, x := range componentPkgs {
		if p == c.P.Mod+"/internal/"+x {
			return false
		}
	}
	return true
}

var componentPkgs = []string{"translate", "shards", "seq", "service", "self", "store", "snippets"}

type component struct {
	val    *Term
	typ    types.Type
	opened *Effect
	when   B // opened
	closed []*Effect
	needs  map[*component]bool
}

func (k *component) name() string { return shortName(k.typ.String()) }

func resultType(f *Effect) types.Type {
	ci, ok := f.Instr.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	sig := ci.Common().Signature()
	if sig == nil || sig.Results().Len() == 0 {
		return nil
	}
	return sig.Results().At(0).Type()
}

// components finds what a function opens and closes.
func (c *Check) components(e *Engine) (ks []*component) {
	by := map[*Term]*component{}
	for _, f := range e.effects {
		if f.Kind != "call" || f.Res == nil {
			continue
		}
		t := resultType(f)
		if !closable(t) || c.pooled(t) || strings.Contains(f.Callee, ".With") || strings.HasPrefix(f.Callee, "(") && !strings.Contains(methodBase(f.Callee), "Open") && methodBase(f.Callee) != "GetSequence" {
			continue
		}
		v, when := f.Res, f.Cond
		if v.Op == OTuple {
			n := len(v.Args)
			if n > 0 && isErr(v.Args[n-1]) {
				when = e.bdd.And(when, e.Cond(e.eq(v.Args[n-1], e.mk(ONil, ""), errorType)))
			}
			v = v.Args[0]
		}
		if by[v] != nil {
			continue
		}
		k := &component{val: v, typ: t, opened: f, when: when, needs: map[*component]bool{}}
		for _, a := range f.Args {
			for o, oc := range by {
				if e.builtFrom(a, o) {
					k.needs[oc] = true
				}
			}
		}
		by[v] = k
		ks = append(ks, k)
	}
	for _, f := range e.effects {
		if f.Kind != "call" || len(f.Args) == 0 {
			continue
		}
		if closers[methodBase(f.Callee)] {
			for _, a := range f.Args[0].arms() {
				x := a.T
				for x.Op == OIface {
					x = x.Args[0]
				}
				if k := by[x]; k != nil {
					g := *f
					g.Cond = e.bdd.And(f.Cond, a.C)
					k.closed = append(k.closed, &g)
				}
			}
			continue
		}
		// what a server is told to serve
		k := by[baseObj(f.Args[0])]
		if k == nil || !strings.HasSuffix(k.typ.String(), "grpc.Server") {
			continue
		}
		for _, a := range f.Args[1:] {
			for o, oc := range by {
				if oc != k && !strings.HasSuffix(oc.typ.String(), "net.Listener") && e.builtFrom(a, o) {
					k.needs[oc] = true
				}
			}
		}
	}
	return
}

// builtFrom: t refers to o.
func (e *Engine) builtFrom(t, o *Term) bool { return e.refersTo(t, o, map[*Term]bool{}) }

func (e *Engine) refersTo(t, o *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t == o {
		return true
	}
	for _, a := range t.Args {
		if e.refersTo(a, o, seen) {
			return true
		}
	}
	for _, a := range t.arms() {
		if a.T != t && e.refersTo(a.T, o, seen) {
			return true
		}
	}
	if isFresh(t) && e.last != nil {
		for k, v := range e.last.cells {
			if k.root == t && e.refersTo(v, o, seen) {
				return true
			}
		}
	}
	return false
}

func (c *Check) c24ways(e *Engine, name string, ks []*component, returned func(*component) bool) {
	const rule = "what was opened is closed on every way out, once"
	used := map[string]int{}
	for _, k := range ks {
		n := name + "/" + shortName(k.opened.Callee)
		used[n]++
		if used[n] > 1 {
			n += "'"
		}
		if returned != nil && c.inMemory(k.typ) {
			continue
		}
		all := bF
		twice := bF
		for _, f := range k.closed {
			twice = e.bdd.Or(twice, e.bdd.And(all, f.Cond))
			all = e.bdd.Or(all, f.Cond)
			c.Counts["ways to close"]++
		}
		need := k.when
		if returned != nil {
			need = e.bdd.And(need, e.bdd.Not(e.returned(k)))
		}
		c.Counts["components"]++
		if isNever(e, need) && all == bF {
			continue
		}
		if d := e.bdd.And(need, e.bdd.Not(all)); !isNever(e, d) {
			c.ob("closed/"+n, rule, false, k.opened.Pos, "%s is not closed when %s", k.name(), e.causes(d))
			continue
		}
		if d := e.bdd.And(all, e.bdd.Not(k.when)); !isNever(e, d) {
			c.ob("closed/"+n, rule, false, k.opened.Pos, "%s is closed when it could not be opened", k.name())
			continue
		}
		if !strings.HasSuffix(k.typ.String(), "net.Listener") && !isNever(e, twice) {
			c.ob("closed/"+n, rule, false, k.opened.Pos, "%s is closed twice", k.name())
			continue
		}
		c.ob("closed/"+n, rule, true, k.opened.Pos, "")
	}
	c.c24order(e, name, ks)
}

func isNever(e *Engine, d B) bool { return d == bF || e.absurd(d) }

// causes describes a way out by the calls that failed.
func (e *Engine) causes(d B) string {
	var out []string
	for _, a := range e.support(d) {
		if e.bdd.And(d, e.Cond(a)) == bF && a.Op == OEq {
			for _, x := range a.Args {
				if x.Op == OExtract || x.Op == OCall {
					y := x
					if x.Op == OExtract {
						y = x.Args[0]
					}
					out = append(out, shortName(y.Aux)+" fails")
				}
			}
		}
	}
	sort.Strings(out)
	if len(out) == 0 {
		return trunc(e.CondStr(d), 300)
	}
	return strings.Join(out, ", ")
}

func (c *Check) c24order(e *Engine, name string, ks []*component) {
	const rule = "nothing is closed while what was built on it is open, or used later"
	for _, k := range ks {
		for _, f := range k.closed {
			bad := ""
			for o := range k.needs {
				for _, g := range o.closed {
					if g.Seq < f.Seq && !isNever(e, e.bdd.And(f.Cond, g.Cond)) {
						bad = o.name() + " is closed before " + k.name()
					}
				}
			}
			for _, g := range e.effects {
				if g.Kind != "call" || g.Seq <= f.Seq || closers[methodBase(g.Callee)] || isNever(e, e.bdd.And(f.Cond, g.Cond)) {
					continue
				}
				for _, a := range g.Args {
					if baseObj(a) == k.val {
						bad = k.name() + " is used by " + shortName(g.Callee) + " after it was closed"
					}
				}
			}
			c.Counts["orders"]++
			c.ob("order/"+name+"/"+shortName(k.opened.Callee), rule, bad == "", f.Pos, "%s", bad)
		}
	}
}

// kept tells when the function returns the component to its caller.
func (e *Engine) returned(k *component) B {
	r := bF
	for _, a := range e.alts(e.final.Val, bT) {
		v := a.T
		if v.Op == OTuple && len(v.Args) > 0 {
			for _, b := range e.alts(v.Args[0], a.C) {
				if e.builtFrom(b.T, k.val) {
					r = e.bdd.Or(r, b.C)
				}
			}
			continue
		}
		if e.builtFrom(v, k.val) {
			r = e.bdd.Or(r, a.C)
		}
	}
	return r
}

func (c *Check) opaqueIn(own string) func(*ssa.Function) bool {
	ps := map[string]bool{}
	for _, p := range []string{"translate", "shards", "seq", "service", "self", "store", "snippets", "samples", "dataframe", "transform", "visit"} {
		ps[c.P.Mod+"/internal/"+p] = true
	}
	delete(ps, own)
	return func(f *ssa.Function) bool {
		p := fnPkg(f)
		return p != nil && ps[p.Path()]
	}
}

func c24(c *Check) {
	// the server
	_, cmds := c.commands()
	if len(cmds) == 0 || cmds[0].action == nil {
		return
	}
	fn := cmds[0].action
	e := c.engine()
	e.Opaque = c.opaqueIn("")
	r := c.run(e, fn)
	e.last, e.final = r.St, r
	ks := c.components(e)
	c.Counts["components of the server"] = len(ks)
	c.Min["components of the server"] = 8
	c.c24ways(e, "run", ks, nil)
	// components
	for _, x := range [][2]string{
		{"internal/translate.New", "internal/translate.(*Translate).Close"},
		{"internal/seq.New", "internal/seq.(*Seq).Release"},
		{"internal/snippets.New", "internal/snippets.(*Snippets).Close"},
		{"internal/store.NewStore", "internal/store.(*Storage).Close"},
		{"internal/service.NewService", "internal/service.(*Service).Close"},
	} {
		c.c24own(x[0], x[1])
	}
	c.c24setup()
	c.c24shards()
	c.c24quiet()
	c.assume("handlers of requests that are already running when the server stops are not waited for (grpc.Server.Stop)")
}

// c24own: a component closes what its constructor opened.
func (c *Check) c24own(ctor, closer string) {
	const rule = "closing a component closes what it opened"
	fn := c.fn(ctor)
	e := c.engine()
	e.Opaque = c.opaqueIn(fnPkg(fn).Path())
	r := c.run(e, fn)
	e.last, e.final = r.St, r
	ks := c.components(e)
	name := shortName(fnName(fn))
	c.ob("own/"+name, rule, len(ks) > 0, fn.Pos(), "%s opens nothing", name)
	c.c24ways(e, name, ks, func(*component) bool { return true })
	fields := map[string]*component{}
	for k, v := range r.St.cells {
		if !isFresh(k.root) {
			continue
		}
		for _, o := range ks {
			for _, a := range v.arms() {
				if a.T == o.val || a.T.Op == OIface && a.T.Args[0] == o.val {
					if n, ok := derefNamed(k.root.Typ); ok && n == fnPkg(fn).Path() {
						fields[k.path] = o
					}
				}
			}
		}
	}
	c.ob("own/fields/"+name, rule, len(fields) == len(ks), fn.Pos(), "%s opens %d components and keeps %d", name, len(ks), len(fields))
	cf := c.fn(closer)
	e2 := c.engine()
	e2.Opaque = c.opaqueIn(fnPkg(cf).Path())
	r2 := c.run(e2, cf, "s")
	var paths []string
	for p := range fields {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		c.Counts["components of components"]++
		want := "s" + p
		all := bF
		n := 0
		var last *Effect
		for _, f := range e2.effects {
			if f.Kind == "call" && closers[methodBase(f.Callee)] && len(f.Args) > 0 && e2.path(e2.unlocked(f.Args[0])) == want {
				all = e2.bdd.Or(all, f.Cond)
				n++
				last = f
			}
		}
		d := e2.bdd.Not(all)
		if !c.ob("own/"+shortName(fnName(cf))+p, rule, n == 1 && isNever(e2, d) && len(last.Loops) == 0, cf.Pos(), "%s is closed at %d places by %s, not when %s", p, n, shortName(fnName(cf)), trunc(e2.CondStr(d), 200)) {
			continue
		}
		bad := ""
		for _, g := range e2.effects {
			if g.Kind == "call" && g.Seq > last.Seq && !closers[methodBase(g.Callee)] {
				for _, a := range g.Args {
					if q := e2.path(e2.unlocked(a)); q == want || strings.HasPrefix(q, want+".") {
						bad = shortName(g.Callee)
					}
				}
			}
		}
		c.ob("own/later/"+shortName(fnName(cf))+p, rule, bad == "", cf.Pos(), "%s is used by %s after it was closed", p, bad)
	}
	_ = r2
}

func derefNamed(t types.Type) (string, bool) {
	if t == nil {
		return "", false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "", false
	}
	return n.Obj().Pkg().Path(), true
}

// c24setup: the providers are all shut down, also when one of them fails.
func (c *Check) c24setup() {
	const rule = "closing a component closes what it opened"
	fn := c.fn("internal/self.Setup")
	e := c.engine()
	r := c.run(e, fn)
	e.last, e.final = r.St, r
	ks := c.components(e)
	n := 0
	for _, k := range ks {
		if strings.HasSuffix(k.typ.String(), "Provider") {
			n++
		}
	}
	c.ob("setup", rule, n >= 2, fn.Pos(), "Setup makes %d providers", n)
	var ps []*component
	for _, k := range ks {
		if strings.HasSuffix(k.typ.String(), "Provider") {
			ps = append(ps, k)
		}
	}
	c.c24ways(e, "Setup", ps, func(*component) bool { return true })
	var cf *ssa.Function
	if m := c.methodOfResult(e, r); m != nil {
		cf = m
	}
	if !c.ob("setup/shutdown", rule, cf != nil, fn.Pos(), "what Setup returns is not known") {
		return
	}
	e2 := c.engine()
	c.run(e2, cf, "o")
	var f *Effect
	k := 0
	for _, g := range e2.effects {
		if g.Kind == "call" && methodBase(g.Callee) == "Shutdown" {
			f = g
			k++
		}
	}
	if !c.ob("setup/all", rule, k == 1 && len(f.Loops) == 1, cf.Pos(), "providers are shut down at %d places", k) {
		return
	}
	why := e2.allOfStrict(f.Loops)
	d := e2.bdd.And(f.Loops[0].Entry, e2.bdd.Not(f.Cond))
	if isNever(e2, d) {
		d = bF
	}
	c.ob("setup/each", rule, why == "" && d == bF && elemOfLoop(f.Args[0], f.Loops[0]), f.Pos, "a provider is not shut down: %s %s", why, trunc(e2.CondStr(d), 300))
}

// allOfStrict: the loops visit every element, whatever fails.
func (e *Engine) allOfStrict(ls []*Loop) string {
	if why := e.allOf(ls); why != "" {
		return why
	}
	for _, l := range ls {
		for _, x := range l.Exits {
			if !isNever(e, x.Cond) {
				return "it ends when " + trunc(e.CondStr(x.Cond), 200)
			}
		}
	}
	return ""
}

// methodOfResult finds the Shutdown method of what is returned.
func (c *Check) methodOfResult(e *Engine, r *Result) *ssa.Function {
	for _, a := range e.alts(r.Val, bT) {
		for _, t := range findTerms(a.T, func(t *Term) bool { return t.Op == OIface && t.Typ != nil }) {
			x := t.Args[0]
			ty := x.Typ
			if ty == nil {
				continue
			}
			if o := types.NewMethodSet(ty).Lookup(nil, "Shutdown"); o != nil {
				return c.P.Prog.MethodValue(o)
			}
		}
	}
	return nil
}

// c24shards: every open shard is closed.
func (c *Check) c24shards() {
	const rule = "closing a component closes what it opened"
	fn := c.fn("internal/shards.(*Shards).Close")
	e := c.engine()
	c.run(e, fn, "s")
	n := 0
	for _, f := range e.effects {
		if !isCall(f, "(*github.com/gernest/rbf.DB).Close") {
			continue
		}
		n++
		if !c.ob("shards/loop", rule, len(f.Loops) == 1, f.Pos, "shards are closed in %d loops", len(f.Loops)) {
			continue
		}
		m, _, v := e.entriesOf(f.Loops[0])
		why := e.allOfStrict(f.Loops)
		d := e.bdd.And(f.Loops[0].Entry, e.bdd.Not(f.Cond))
		if isNever(e, d) {
			d = bF
		}
		c.ob("shards/all", rule, m != nil && v(f.Args[0]) && strings.HasPrefix(e.path(e.unlocked(m)), "s.") && why == "" && d == bF, f.Pos, "a shard is left open: %s %s", why, trunc(e.CondStr(d), 300))
	}
	c.ob("shards", rule, n > 0, fn.Pos(), "shards are not closed")
}

// c24quiet: work in the background ends before what it uses is closed.
func (c *Check) c24quiet() {
	const rule = "background work does not use what is closed"
	cf := c.fn("internal/service.(*Service).Close")
	pkg := fnPkg(cf)
	spawned := map[*ssa.Function]bool{}
	for _, f := range c.P.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if h := g.Call.StaticCallee(); h != nil {
						spawned[h] = true
					}
				}
			}
		}
	}
	runs := c.lockRunsOf(map[*types.Package]bool{pkg: true}, true, c.opaqueIn(pkg.Path()))
	type setting struct {
		flag  string
		locks map[string]bool
		seq   int
	}
	var set []setting
	closeSeq := map[string]int{}
	for _, l := range runs {
		if l.r.Fn != cf {
			continue
		}
		for _, f := range l.e.effects {
			if f.Kind == "store" && len(f.Args) > 1 && f.Args[1] == l.e.Bool(bT) && isNever(l.e, l.e.bdd.Not(f.Cond)) {
				if p, ok := l.e.placeOf(f.Args[0], ""); ok {
					set = append(set, setting{p.path, l.heldAt(f), f.Seq})
				}
			}
			if f.Kind == "call" && closers[methodBase(f.Callee)] && len(f.Args) > 0 && c.closesComponent(f) {
				if p, ok := l.e.placeOf(f.Args[0], ""); ok {
					closeSeq[p.path] = f.Seq
				}
			}
		}
	}
	n := 0
	for _, l := range runs {
		if !spawned[l.r.Fn] {
			continue
		}
		for _, f := range l.e.effects {
			if f.Kind != "call" || len(f.Args) == 0 {
				continue
			}
			p, ok := l.e.placeOf(f.Args[0], "")
			if !ok || closeSeq[p.path] == 0 {
				continue
			}
			n++
			guarded := false
			h := l.heldAt(f)
			for _, a := range l.e.support(f.Cond) {
				q, ok := l.e.placeOf(a, "")
				if !ok || l.e.bdd.And(f.Cond, l.e.Cond(a)) != bF {
					continue
				}
				for _, s := range set {
					same := false
					for k := range s.locks {
						same = same || h[k]
					}
					if s.flag == q.path && s.seq < closeSeq[p.path] && same {
						guarded = true
					}
				}
			}
			c.ob("quiet/"+l.name+p.path, rule, guarded, f.Pos, "%s uses %s, which may be closed", shortName(f.Callee), p.path)
		}
	}
	c.Counts["uses in the background"] = n
	c.Min["uses in the background"] = 1
}

func (c *Check) closesComponent(f *Effect) bool {
	ci, ok := f.Instr.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if ci.Common().IsInvoke() {
		return true
	}
	g := callee(f)
	return g != nil && g.Signature.Recv() != nil && !c.pooled(g.Signature.Recv().Type())
}

// heldAt lists the locks that are held exclusively at an effect, without the name of their owner.
func (l *lockRun) heldAt(f *Effect) map[string]bool {
	out := map[string]bool{}
	h := l.at[f]
	if h == nil {
		return out
	}
	for k, b := range h.w {
		if isNever(l.e, l.e.bdd.And(f.Cond, l.e.bdd.Not(b))) {
			out[k[strings.Index(k, ".")+1:]] = true
		}
	}
	return out
}
