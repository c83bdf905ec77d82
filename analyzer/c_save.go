package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- received samples are saved

func init() {
	register("C21", "every replacement of the buffer and every call that saves a list of samples, with the locks and conditions under which they happen, and the order of saving, closing and further saving at shutdown", c21)
}

// saves: the function stores a list of samples.
func (c *Check) saves(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() == nil || !f.Object().Exported() {
		return false
	}
	for _, p := range f.Params[1:] {
		if isNamedPtr(p.Type(), c.P.Mod+"/internal/samples.List") {
			return true
		}
	}
	return false
}

func c21(c *Check) {
	// who saves samples
	pkgs := map[*types.Package]bool{}
	names := map[string]bool{}
	closers := map[string]bool{}
	for _, fn := range c.P.All {
		if !c.P.isRepo(fnPkg(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Object() == nil || fnPkg(g) == fnPkg(fn) || !c.P.isRepo(fnPkg(g)) || !c.saves(g) {
					continue
				}
				pkgs[fnPkg(fn)] = true
				names[fnName(g)] = true
				// closing the receiver ends saving
				rt := g.Signature.Recv().Type()
				ms := types.NewMethodSet(rt)
				if s := ms.Lookup(fnPkg(g), "Close"); s != nil {
					closers[fnName(c.P.Prog.MethodValue(s))] = true
				}
			}
		}
	}
	runs := c.lockRunsOf(pkgs, true, func(f *ssa.Function) bool {
		return f.Parent() == nil && f.Pkg != nil && (names[fnName(f)] || closers[fnName(f)] || c.P.isRepo(fnPkg(f)) && !pkgs[fnPkg(f)] && !strings.HasSuffix(fnPkg(f).Path(), "/internal/samples"))
	})
	bufLocks := func(p place) []string { return c.locksOf(runs, p) }
	type saving struct {
		l    *lockRun
		ef   *Effect
		load *Effect
		p    place
		lock map[string]bool
	}
	var all []*saving
	for _, l := range runs {
		e := l.e
		left := e.exited()
		bad := func(f B) bool {
			f = e.bdd.And(f, left)
			return f != bF && !e.absurd(f)
		}
		for _, k := range e.effects {
			if k.Kind != "call" || !names[k.Callee] {
				continue
			}
			c.Counts["savings"]++
			s := &saving{l: l, ef: k, lock: map[string]bool{}}
			all = append(all, s)
			var list *Term
			for _, a := range k.Args[1:] {
				if a.Typ != nil && isNamedPtr(a.Typ, c.P.Mod+"/internal/samples.List") {
					list = a
				}
				if a.Typ != nil && types.TypeString(a.Typ, nil) == "context.Context" || a.Op == OCall && strings.HasPrefix(a.Aux, "context.") || a.Op == OIface {
					c.ob("context/"+l.name, "samples are saved even when the context is already cancelled", lasting(a), k.Pos, "%s saves with the context %s", l.name, e.Str(a))
				}
			}
			if list == nil {
				list = k.Args[len(k.Args)-1]
			}
			// one saving at a time
			for key, w := range l.at[k].w {
				if !bad(e.bdd.And(k.Cond, e.bdd.Not(w))) {
					s.lock[key[strings.LastIndexByte(key, '.'):]] = true
				}
			}
			p, ok := e.placeOf(list, "")
			if !c.ob("buffer/"+l.name, "what is saved is the buffer of received samples", ok, k.Pos, "%s saves %s", l.name, e.Str(list)) {
				continue
			}
			s.p = p
			for _, f := range e.effects {
				if f.Kind == "load" && f.Res == list && bad(e.bdd.And(f.Cond, k.Cond)) {
					s.load = f
				}
			}
			if !c.ob("taken/"+l.name, "what is saved is the buffer of received samples", s.load != nil && sameLoops(s.load.Loops, k.Loops), k.Pos, "%s saves a list taken elsewhere: %s", l.name, e.Str(list)) {
				continue
			}
			// and the buffer is replaced in the same critical section
			repl := bF
			why := "it is not replaced"
			for _, f := range e.effects {
				if f.Kind != "store" {
					continue
				}
				q, ok := e.placeOf(f.Args[0], "")
				if !ok || q != p {
					continue
				}
				if w := l.section(s.load, f, p, bufLocks(p), bad); w != "" {
					why = w
					continue
				}
				fresh := true
				for _, v := range f.Args[1].arms() {
					fresh = fresh && isNewList(v.T, list)
					if v.T.Op == OAlloc && l.r.St != nil {
						for _, x := range e.at(l.r.St, v.T, "Items").arms() {
							fresh = fresh && (x.T.Op == ONil || x.T.Op == OZero || e.emptyList(x.T))
						}
					}
				}
				if !fresh {
					why = "it is replaced by " + e.Str(f.Args[1])
					continue
				}
				repl = e.bdd.Or(repl, f.Cond)
			}
			c.ob("replaced/"+l.name, "the buffer that is saved is replaced by a new one in the same critical section", !bad(e.bdd.And(k.Cond, e.bdd.Not(repl))), k.Pos, "%s saves the buffer but %s", l.name, why)
			// once
			for _, k2 := range e.effects {
				if k2 != k && k2.Kind == "call" && names[k2.Callee] && bad(e.bdd.And(k.Cond, k2.Cond)) {
					for _, a := range k2.Args {
						c.ob("once/"+l.name, "a list of samples is saved once", a != list, k2.Pos, "%s saves the same list twice", l.name)
					}
				}
			}
			// nothing of it changes before it is saved
			for _, a := range l.acc {
				if a.write && a.ef.Seq < k.Seq && a.moved != bF && a.owner == p.owner && strings.HasPrefix(a.path, p.path) && a.path != p.path && bad(e.bdd.And(e.bdd.And(a.ef.Cond, a.moved), k.Cond)) {
					c.ob("intact/"+l.name, "the list is saved as it was received", false, a.ef.Pos, "%s changes the list before it saves it", l.name)
				}
			}
		}
	}
	// the lock that keeps savings apart
	lock := ""
	var common []string
	for i, s := range all {
		if i == 0 {
			for k := range s.lock {
				common = append(common, k)
			}
			sort.Strings(common)
			continue
		}
		var both []string
		for _, k := range common {
			if s.lock[k] {
				both = append(both, k)
			}
		}
		common = both
	}
	if len(common) > 0 {
		lock = common[0]
	}
	for _, s := range all {
		c.ob("alone/"+s.l.name, "lists are saved one after the other", lock != "" && s.lock[lock], s.ef.Pos, "%s saves without holding the lock that others hold", s.l.name)
	}
	// the buffer is only given up to save it
	for _, l := range runs {
		e := l.e
		left := e.exited()
		bad := func(f B) bool {
			f = e.bdd.And(f, left)
			return f != bF && !e.absurd(f)
		}
		for _, a := range l.acc {
			if !a.write {
				continue
			}
			for _, s := range all {
				if s.load == nil || a.typ != s.p.typ || a.path != s.p.path {
					continue
				}
				saved := bF
				for _, s2 := range all {
					if s2.l == l && s2.load != nil && l.section(s2.load, a.orig, s2.p, bufLocks(s2.p), bad) == "" {
						saved = e.bdd.Or(saved, s2.ef.Cond)
					}
				}
				c.Counts["replacements"]++
				c.ob("kept/"+l.name, "a buffer that is given up is saved", !bad(e.bdd.And(a.ef.Cond, e.bdd.Not(saved))), a.ef.Pos, "%s replaces the buffer without saving it when %s", l.name, trunc(e.CondStr(e.bdd.And(a.ef.Cond, e.bdd.Not(saved))), 400))
				break
			}
		}
		// and only grows until then
		for _, f := range e.effects {
			if f.Kind != "store" && f.Kind != "clear" {
				continue
			}
			for _, s := range all {
				if s.load == nil {
					continue
				}
				q, ok := e.placeOf(f.Args[0], "")
				if !ok || q.typ != s.p.typ || !strings.HasPrefix(q.path, s.p.path+".") {
					continue
				}
				moved := bF
				for _, a := range l.acc {
					if a.ef.Instr == f.Instr && a.ef.Seq == f.Seq {
						moved = e.bdd.Or(moved, a.moved)
					}
				}
				grows := f.Kind == "store"
				if grows {
					for _, v := range f.Args[1].arms() {
						grows = grows && v.T.Op == OSeq && len(v.T.Args) > 1 && v.T.Args[0].Op != ONil
						if grows {
							o, ok := e.placeOf(v.T.Args[0], "")
							grows = ok && o == q
						}
					}
				}
				c.Counts["changes of the buffer"]++
				c.ob("grows/"+l.name, "a received sample stays in the buffer until it is saved", grows || !bad(e.bdd.And(f.Cond, e.bdd.Not(moved))), f.Pos, "%s changes the samples in the buffer", l.name)
				break
			}
		}
	}
	// shutdown
	guard := ""
	for _, s := range all {
		e, l := s.l.e, s.l
		left := e.exited()
		bad := func(f B) bool {
			f = e.bdd.And(f, left)
			return f != bF && !e.absurd(f)
		}
		open := ""
		for _, a := range e.support(s.ef.Cond) {
			x := a
			if x.Op == OBool {
				continue
			}
			q, ok := e.placeOf(x, "")
			if !ok || q.typ != s.p.typ || e.bdd.And(s.ef.Cond, e.Cond(a)) != bF {
				continue
			}
			// it is read in the section of the save
			for _, f := range e.effects {
				if f.Kind == "load" && f.Res == a && l.sectionOf(f, s.ef, s.p.owner+lock, bad) == "" {
					open = q.path
				}
			}
		}
		if !c.ob("guard/"+l.name, "nothing is saved after shutdown", open != "" && (guard == "" || guard == open), s.ef.Pos, "%s saves without knowing, under the lock of saving, that storage is still open", l.name) {
			continue
		}
		guard = open
	}
	for _, l := range runs {
		e := l.e
		left := e.exited()
		for _, k := range e.effects {
			if k.Kind != "call" || !closers[k.Callee] {
				continue
			}
			c.Counts["shutdowns"]++
			saved, shut := bF, bF
			for _, f := range e.effects {
				if f.Seq > k.Seq {
					if f.Kind == "call" && names[f.Callee] {
						x := e.bdd.And(e.bdd.And(f.Cond, k.Cond), left)
						c.ob("after/"+l.name, "nothing is saved after storage was closed", x == bF || e.absurd(x), f.Pos, "%s saves after it closed storage", l.name)
					}
					continue
				}
				if f.Kind == "call" && names[f.Callee] && shut == bF {
					saved = e.bdd.Or(saved, f.Cond)
				}
				if f.Kind == "store" && len(f.Args) == 2 {
					if q, ok := e.placeOf(f.Args[0], ""); ok && q.path == guard && guard != "" {
						w := bF
						if h := l.at[f]; h != nil {
							w = h.w[q.owner+lock]
						}
						if v := f.Args[1]; v.Op == OConst && v.Aux == "true" || v.Op == OBool && v.B == bT {
							shut = e.bdd.Or(shut, e.bdd.And(f.Cond, w))
						} else {
							shut = e.bdd.And(shut, e.bdd.Not(f.Cond))
						}
					}
				}
			}
			// already shut down means saved before
			done := bF
			for _, a := range e.support(saved) {
				if q, ok := e.placeOf(a, ""); ok && q.path == guard && guard != "" {
					done = e.bdd.Or(done, e.Cond(a))
				}
			}
			d := e.bdd.And(e.bdd.And(k.Cond, e.bdd.Not(e.bdd.Or(saved, done))), left)
			c.ob("flushed/"+l.name, "shutting down saves the buffer before storage is closed", saved != bF && (d == bF || e.absurd(d)), k.Pos, "%s closes storage without saving when %s", l.name, trunc(e.CondStr(d), 400))
			d = e.bdd.And(e.bdd.And(k.Cond, e.bdd.Not(e.bdd.Or(shut, done))), left)
			c.ob("shut/"+l.name, "shutting down ends saving, after the last save and before storage is closed", d == bF || e.absurd(d), k.Pos, "%s closes storage while others may still save", l.name)
		}
		// nothing reopens it
		for _, a := range l.acc {
			if a.write && guard != "" && a.path == guard && len(a.ef.Args) == 2 {
				v := a.ef.Args[1]
				c.ob("stays/"+l.name, "shutdown is final", v.Op == OConst && v.Aux == "true" || v.Op == OBool && v.B == bT, a.ef.Pos, "%s sets %s to %s", l.name, guard, e.Str(v))
			}
		}
	}
	// saved again and again
	spawned := map[string]B{}
	for _, l := range runs {
		for _, f := range l.e.effects {
			if f.Kind == "go" {
				spawned[shortName(strings.TrimPrefix(f.Callee, "go "))] = f.Cond
			}
		}
	}
	for _, s := range all {
		e, l, k := s.l.e, s.l, s.ef
		if len(k.Loops) == 0 {
			continue
		}
		c.Counts["periodic savings"]++
		cond, ok := spawned[l.name]
		c.ob("started/"+l.name, "the buffer is saved periodically", ok && cond == bT, k.Pos, "%s is not started", l.name)
		c.ob("forever/"+l.name, "the buffer is saved periodically", len(k.Loops) == 1 && k.Loops[0].Kind == "while" || len(k.Loops) == 1, k.Pos, "%s saves in %d loops", l.name, len(k.Loops))
		// the case of the timer
		tick := bF
		for _, f := range e.effects {
			if f.Kind != "select" && f.Kind != "recv" || !sameLoops(f.Loops, k.Loops) {
				continue
			}
			for i, ch := range f.Args {
				if !isTicker(ch) {
					continue
				}
				if f.Kind == "recv" {
					tick = f.Cond
					continue
				}
				tick = e.bdd.Or(tick, e.chosen(f, i))
				for j := 0; j < i; j++ {
					tick = e.bdd.And(tick, e.bdd.Not(e.chosen(f, j)))
				}
			}
		}
		open := bT
		for _, a := range e.support(k.Cond) {
			if q, ok := e.placeOf(a, ""); ok && q.path == guard && guard != "" {
				open = e.bdd.And(open, e.bdd.Not(e.Cond(a)))
			}
		}
		d := e.missing(e.bdd.And(tick, open), k.Cond)
		c.ob("tick/"+l.name, "the buffer is saved whenever the timer fires", tick != bF && d == bF, k.Pos, "%s does not save when %s", l.name, trunc(e.CondStr(d), 400))
		for _, x := range k.Loops[0].Exits {
			y := e.bdd.And(x.Cond, tick)
			c.ob("stop/"+l.name, "saving goes on until shutdown", y == bF || e.absurd(y), x.Pos, "%s stops when the timer fires", l.name)
		}
	}
	c.Min["savings"] = 2
	c.Min["replacements"] = 2
	c.Min["changes of the buffer"] = 1
	c.Min["shutdowns"] = 1
	c.Min["periodic savings"] = 1
}

// locksOf lists the locks that are held at every access to a part of an object.
func (c *Check) locksOf(runs []*lockRun, p place) (out []string) {
	s := p.typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if q, ok := ft.(*types.Pointer); ok {
			ft = q.Elem()
		}
		if !isLock(ft) {
			continue
		}
		n := "." + s.Field(i).Name()
		always := true
		for _, l := range runs {
			for _, a := range l.acc {
				if a.typ != p.typ || a.path != p.path {
					continue
				}
				e := l.e
				ok := e.bdd.Or(a.moved, e.bdd.Or(a.held.w[a.owner+n], bF))
				if !a.write {
					ok = e.bdd.Or(ok, a.held.r[a.owner+n])
				}
				if d := e.bdd.And(e.bdd.And(a.ef.Cond, e.bdd.Not(ok)), e.exited()); d != bF && !e.absurd(d) {
					always = false
				}
			}
		}
		if always {
			out = append(out, n)
		}
	}
	return
}

// chosen: the i-th case of the select is taken.
func (e *Engine) chosen(sel *Effect, i int) B {
	if sel.Res == nil {
		return bF
	}
	return e.Cond(e.eq(e.mk(OConst, fmt.Sprint(i)), sel.Res, types.Typ[types.Int]))
}

// isTicker: the channel of a timer that fires again and again.
func isTicker(ch *Term) bool {
	for _, a := range ch.arms() {
		t := a.T
		if t.Op == OField && t.Aux == "C" {
			t = t.Args[0]
		}
		if t.Op != OCall || !strings.HasPrefix(t.Aux, "time.NewTicker") && !strings.HasPrefix(t.Aux, "time.Tick") {
			return false
		}
		if d := t.Args[0]; d.Op == OConst && (strings.HasPrefix(d.Aux, "-") || d.Aux == "0") {
			return false
		}
	}
	return true
}

// lasting: a context that is not cancelled with the one of the caller.
func lasting(t *Term) bool {
	for _, a := range t.arms() {
		x := a.T
		for x.Op == OIface || x.Op == OConv {
			x = x.Args[0]
		}
		if x.Op == OCall && strings.HasPrefix(x.Aux, "context.WithValue") {
			if !lasting(x.Args[0]) {
				return false
			}
			continue
		}
		if x.Op != OCall || !strings.HasPrefix(x.Aux, "context.WithoutCancel") && !strings.HasPrefix(x.Aux, "context.Background") && !strings.HasPrefix(x.Aux, "context.TODO") {
			return false
		}
	}
	return true
}

// isNewList: a list nobody else has.
func isNewList(t, old *Term) bool {
	for t.Op == OAssert || t.Op == OIface || t.Op == OConv {
		t = t.Args[0]
	}
	if t == old {
		return false
	}
	return t.Op == OAlloc || t.Op == OCall && strings.HasPrefix(t.Aux, "(*sync.Pool).Get")
}

// section: b happens in the critical section of a lock of p in which a happens.
func (l *lockRun) section(a, b *Effect, p place, locks []string, bad func(B) bool) string {
	why := "no lock guards it"
	for _, k := range locks {
		if why = l.sectionOf(a, b, p.owner+k, bad); why == "" {
			return ""
		}
	}
	return why
}

func (l *lockRun) sectionOf(a, b *Effect, lock string, bad func(B) bool) string {
	e := l.e
	if a.Seq > b.Seq {
		a, b = b, a
	}
	both := e.bdd.And(a.Cond, b.Cond)
	if !bad(both) {
		return "it happens at another time"
	}
	for _, x := range []*Effect{a, b} {
		h := l.at[x]
		if h == nil {
			return lock + " is not held"
		}
		w, ok := h.w[lock]
		if !ok || bad(e.bdd.And(both, e.bdd.Not(w))) {
			return lock + " is not held"
		}
	}
	for _, u := range e.effects {
		if u.Seq <= a.Seq || u.Seq >= b.Seq || u.Kind != "call" {
			continue
		}
		if strings.HasSuffix(lockCalls[u.Callee], "-") && e.lockName(u.Args[0]) == lock && bad(e.bdd.And(both, u.Cond)) {
			return lock + " is released in between"
		}
	}
	return ""
}
