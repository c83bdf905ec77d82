package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the files of the index and their transactions

const (
	rbfOpen  = "(*github.com/gernest/rbf.DB).Open"
	rbfBegin = "(*github.com/gernest/rbf.DB).Begin"
	rbfTx    = "(*github.com/gernest/rbf.Tx)."
)

func isNamedPtr(t types.Type, name string) bool {
	p, ok := t.(*types.Pointer)
	return ok && types.TypeString(p.Elem(), nil) == name
}

// nilErr is the condition for an error result to be nil.
func (e *Engine) nilErr(t *Term) B {
	return e.Cond(e.dist1(t, func(t *Term) *Term { return e.eq(e.mk(ONil, ""), t, errorType) }))
}

// is tells when t is x.
func (e *Engine) is(t, x *Term) B {
	r := bF
	for _, a := range t.arms() {
		if a.T == x {
			r = e.bdd.Or(r, a.C)
		}
	}
	return r
}

// open is a call that opens a file of the index, with how its result is kept.
type openCall struct {
	l    *lockRun
	i    int
	ef   *Effect
	done B // it did not fail
	reg  []*Effect
}

func (c *Check) opens() (out []*openCall, runs []*lockRun) {
	runs = c.lockRunsOf(c.pkgsCalling(rbfOpen), false, nil)
	for _, l := range runs {
		e := l.e
		for i, o := range e.effects {
			if o.Kind != "call" || o.Callee != rbfOpen {
				continue
			}
			x := &openCall{l: l, i: i, ef: o}
			x.done = e.bdd.And(o.Cond, e.nilErr(o.Res))
			for _, r := range e.effects {
				if r.Kind == "mapset" && e.bdd.And(e.is(r.Args[2], o.Args[0]), r.Cond) != bF {
					x.reg = append(x.reg, r)
				}
			}
			out = append(out, x)
		}
	}
	return
}

// pkgsCalling are the packages with a call of one of the functions.
func (c *Check) pkgsCalling(names ...string) map[*types.Package]bool {
	out := map[*types.Package]bool{}
	for _, fn := range c.P.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						for _, n := range names {
							if fnName(g) == n && c.P.isRepo(fnPkg(fn)) {
								out[fnPkg(fn)] = true
							}
						}
					}
				}
			}
		}
	}
	return out
}

func init() {
	register("C19", "for every place that opens a file of the index, the conditions and locks under which it is reached: the exclusive lock is held, the absence from the registry was seen under the same lock, and success is registered before the lock is released", c19)
	register("C17", "the name under which a shard is opened, the list of shards all-shard operations iterate, and the transaction each gets", c17)
	register("C22", "for every begun transaction the conditions under which it is committed, rolled back, used, and under which work on it failed", c22)
}

func c19(c *Check) {
	opens, runs := c.opens()
	for _, x := range opens {
		l, e, o := x.l, x.l.e, x.ef
		c.Counts["openings"]++
		left := e.exited()
		bad := func(f B) bool {
			f = e.bdd.And(f, left)
			return f != bF && !e.absurd(f)
		}
		name := l.name
		if !c.ob("registered/"+name, "a shard that was opened is registered", len(x.reg) > 0, o.Pos, "%s opens a shard which it does not register", name) {
			continue
		}
		all := bF
		for _, r := range x.reg {
			all = e.bdd.Or(all, e.bdd.And(r.Cond, e.is(r.Args[2], o.Args[0])))
			c.ob("loop/"+name, "a shard is registered where it is opened", sameLoops(r.Loops, o.Loops), r.Pos, "%s registers the shard in another iteration", name)
			// when it is opened it is not registered yet, as seen since the lock was acquired
			m, k := r.Args[0], r.Args[1]
			has := e.Cond(e.dist1(m, func(m *Term) *Term { return e.mk(OHas, "", m, k) }))
			c.ob("checked/"+name, "a shard is opened only when nobody has done so, as seen under the exclusive lock", !bad(e.bdd.And(o.Cond, has)), o.Pos, "%s can open a shard that is registered: the registry %s is not known to lack %s when %s", name, e.Str(m), e.Str(k), trunc(e.CondStr(o.Cond), 500))
			p, ok := e.placeOf(m, "")
			if !c.ob("guarded/"+name, "the registry of shards is state of an object with a lock", ok, r.Pos, "%s registers shards in %s", name, e.Str(m)) {
				continue
			}
			lock := ""
			for k, w := range l.at[o].w {
				if strings.HasPrefix(k, p.owner+".") && !bad(e.bdd.And(o.Cond, e.bdd.Not(w))) {
					lock = k
				}
			}
			if !c.ob("locked/"+name, "a shard is opened while the exclusive lock of the registry is held", lock != "", o.Pos, "%s opens a shard without the exclusive lock of %s", name, p.owner) {
				continue
			}
			held := false
			for k, w := range l.at[r].w {
				if k == lock && !bad(e.bdd.And(r.Cond, e.bdd.Not(w))) {
					held = true
				}
			}
			gap := ""
			for _, u := range e.effects[x.i:] {
				if u == r {
					break
				}
				if u.Kind == "call" && strings.HasSuffix(lockCalls[u.Callee], "-") && e.lockName(u.Args[0]) == lock && bad(e.bdd.And(r.Cond, u.Cond)) {
					gap = c.P.pos(u.Pos)
				}
			}
			c.ob("section/"+name, "a shard is registered before the lock is released", held && gap == "", r.Pos, "%s releases %s before it registers the shard (%s)", name, lock, gap)
		}
		c.ob("success/"+name, "exactly the shards that were opened without error are registered", !bad(e.bdd.And(all, e.bdd.Not(x.done))) && !bad(e.bdd.And(x.done, e.bdd.Not(all))), o.Pos, "%s registers when %s, opens without error when %s", name, trunc(e.CondStr(all), 400), trunc(e.CondStr(x.done), 400))
	}
	// nothing else is in the registry, and callers get what is registered
	for _, l := range runs {
		e := l.e
		for _, r := range e.effects {
			if r.Kind != "mapset" || !isDBMap(r.Args[0].Typ) {
				continue
			}
			c.Counts["registrations"]++
			for _, v := range e.alts(r.Args[2], r.Cond) {
				ok := bF
				for _, o := range opens {
					if o.l == l && o.ef.Args[0] == v.T {
						ok = e.bdd.Or(ok, o.done)
					}
				}
				d := e.bdd.And(v.C, e.bdd.Not(ok))
				c.ob("only/"+l.name, "only shards that were opened without error are registered", d == bF || e.absurd(d), r.Pos, "%s registers %s, not opened when %s", l.name, e.Str(v.T), trunc(e.CondStr(d), 400))
			}
		}
		sig := l.r.Fn.Signature
		if sig.Results().Len() != 2 || !isNamedPtr(sig.Results().At(0).Type(), "github.com/gernest/rbf.DB") || !returnsErr(l.r.Fn) {
			continue
		}
		ok := e.successOf(e.extract(l.r.Val, 1))
		for _, v := range e.alts(e.extract(l.r.Val, 0), e.bdd.And(ok, l.r.Cond)) {
			c.ob("result/"+l.name, "what is returned is registered", c.registered(e, opens, l, v, nil), l.r.Fn.Pos(), "%s returns %s when %s", l.name, e.Str(v.T), trunc(e.CondStr(v.C), 300))
		}
	}
	// transactions are begun on registered shards
	for _, l := range c.lockRunsOf(c.pkgsCalling(rbfBegin), false, nil) {
		e := l.e
		for _, b := range e.effects {
			if b.Kind != "call" || b.Callee != rbfBegin {
				continue
			}
			c.Counts["transactions"]++
			for _, v := range e.alts(b.Args[0], b.Cond) {
				var here []*openCall
				for i, o := range e.effects {
					if o.Kind == "call" && o.Callee == rbfOpen {
						here = append(here, &openCall{l: l, i: i, ef: o, done: e.bdd.And(o.Cond, e.nilErr(o.Res))})
					}
				}
				c.ob("begin/"+l.name, "transactions are begun on registered shards", c.registered(e, here, l, v, nil), b.Pos, "%s begins a transaction on %s when %s", l.name, trunc(e.Str(v.T), 300), trunc(e.CondStr(v.C), 300))
			}
		}
	}
	c.Min["openings"] = 1
	c.Min["registrations"] = 1
	c.Min["transactions"] = 3
}

func isDBMap(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && isNamedPtr(m.Elem(), "github.com/gernest/rbf.DB")
}

// registered: v was found in the registry, or opened without error.
func (c *Check) registered(e *Engine, opens []*openCall, l *lockRun, v Arm, key *Term) bool {
	if v.T.Op == OIndex && isDBMap(v.T.Args[0].Typ) {
		d := e.bdd.And(v.C, e.bdd.Not(e.Cond(e.mk(OHas, "", v.T.Args[0], v.T.Args[1]))))
		return (d == bF || e.absurd(d)) && (key == nil || v.T.Args[1] == key)
	}
	for _, o := range opens {
		if o.l == l && o.ef.Args[0] == v.T {
			d := e.bdd.And(v.C, e.bdd.Not(o.done))
			return d == bF || e.absurd(d)
		}
	}
	return false
}

func sameLoops(a, b []*Loop) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- C17

func c17(c *Check) {
	// a shard is stored under its number
	opens, _ := c.opens()
	var dirs []string
	for _, x := range opens {
		e, o := x.l.e, x.ef
		for _, r := range x.reg {
			c.Counts["openings"]++
			why := ""
			for _, p := range c.dbPaths(e, o.Args[0]) {
				dir, name, ok := e.joinOf(p)
				if !ok {
					why = "the path is " + e.Str(p)
					continue
				}
				dirs = append(dirs, e.path(e.unlocked(dir)))
				if !e.isDecimal(name, r.Args[1]) {
					why = "the name is " + e.Str(name) + " for shard " + e.Str(r.Args[1])
				}
			}
			c.ob("name/"+x.l.name, "a shard is opened under its own number", why == "", o.Pos, "%s: %s", x.l.name, why)
		}
	}
	for _, d := range dirs {
		c.ob("dir", "all shards are in one directory", d == dirs[0], 0, "shards are in %s and %s", d, dirs[0])
	}

	// operations over all shards
	for _, fn := range c.P.All {
		if !c.P.isRepo(fnPkg(fn)) || fn.Parent() != nil || fn.Synthetic != "" || !overShards(fn) {
			continue
		}
		name := shortName(fnName(fn))
		e := c.engine()
		e.Opaque = func(f *ssa.Function) bool {
			rs := f.Signature.Results()
			return f != fn && f.Parent() == nil && rs.Len() > 0 && isNamedPtr(rs.At(0).Type(), "github.com/gernest/rbf.DB")
		}
		r := c.run(e, fn)
		cb := callbackParam(fn)
		n := 0
		for _, f := range e.effects {
			if f.Kind != "call" || f.Callee != "dynamic" || f.Args[0] != r.Args[cb] {
				continue
			}
			n++
			c.Counts["all-shard operations"]++
			if !c.ob("each/"+name, "the operation is run for each shard", len(f.Loops) == 1, f.Pos, "%s calls it in %d loops", name, len(f.Loops)) {
				continue
			}
			lp := f.Loops[0]
			why := e.allOf([]*Loop{lp})
			c.ob("whole/"+name, "no shard is left out", why == "", f.Pos, "%s: %s", name, why)
			tx, shard := f.Args[1], f.Args[2]
			var begun *Effect
			for _, b := range e.effects {
				if b.Kind == "call" && b.Callee == rbfBegin && e.extract(b.Res, 0) == tx {
					begun = b
				}
			}
			if !c.ob("tx/"+name, "the operation gets a transaction of the shard", begun != nil, f.Pos, "%s passes %s", name, e.Str(tx)) {
				continue
			}
			db := begun.Args[0]
			own := false
			for _, g := range e.effects {
				if g.Kind == "call" && g.Res != nil && e.extract(g.Res, 0) == db {
					for _, a := range g.Args {
						own = own || a == shard
					}
				}
			}
			c.ob("own/"+name, "the operation gets the transaction and the number of the same shard", own && sameLoops(begun.Loops, f.Loops), f.Pos, "%s passes shard %s with a transaction of %s", name, e.Str(shard), e.Str(db))
			// reached for every element of the list
			c.ob("all/"+name, "the operation is run for each shard", e.implies(e.loopBody(lp), f.Cond), f.Pos, "%s skips a shard when %s", name, trunc(e.CondStr(e.missing(e.loopBody(lp), f.Cond)), 400))
			c.shardList(e, r, name, lp, shard, dirs)
		}
		c.ob("found/"+name, "the operation is run for each shard", n == 1, fn.Pos(), "%s calls it %d times", name, n)
	}
	c.Min["openings"] = 1
	c.Min["all-shard operations"] = 1
	c.Min["lists"] = 1
}

// overShards: fn runs a function on the transaction of each shard.
func overShards(fn *ssa.Function) bool { return callbackParam(fn) >= 0 && !hasShardParam(fn) }

func callbackParam(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if s, ok := p.Type().Underlying().(*types.Signature); ok && s.Params().Len() == 2 && isNamedPtr(s.Params().At(0).Type(), "github.com/gernest/rbf.Tx") {
			return i
		}
	}
	return -1
}

func hasShardParam(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
			return true
		}
	}
	return false
}

// loopBody is the condition under which an iteration of the loop starts.
func (e *Engine) loopBody(l *Loop) B {
	return l.Entry
}

// shardList checks where the numbers of all shards come from.
func (c *Check) shardList(e *Engine, r *Result, name string, lp *Loop, shard *Term, dirs []string) {
	c.Counts["lists"]++
	// the directory
	var rd *Effect
	for _, f := range e.effects {
		if f.Kind == "call" && (f.Callee == "os.ReadDir" || f.Callee == "(*os.File).ReadDir" || f.Callee == "io/ioutil.ReadDir") {
			rd = f
		}
	}
	if !c.ob("disk/"+name, "all shards on disk are found", rd != nil && rd.Callee == "os.ReadDir", lp.Pos, "%s does not read the directory of shards", name) {
		return
	}
	same := len(dirs) > 0
	for _, d := range dirs {
		same = same && d == e.path(e.unlocked(rd.Args[0]))
	}
	c.ob("disk/"+name, "all shards on disk are found", same, rd.Pos, "%s reads %s, shards are in %v", name, e.Str(rd.Args[0]), dirs)
	entries := e.extract(rd.Res, 0)
	readOK := e.nilErr(e.extract(rd.Res, 1))
	for _, a := range e.alts(shard, readOK) {
		if e.missing(e.bdd.And(a.C, readOK), bF) == bF {
			continue // only after a failure
		}
		s := a.T
		if s.Op != OElem && (s.Op != OIndex || s.Args[1].Op != OIdx) {
			c.ob("list/"+name, "all shards on disk are found", false, lp.Pos, "%s runs for %s", name, e.Str(s))
			continue
		}
		l := s.Args[0]
		why := e.numbersOf(l, entries)
		c.ob("list/"+name, "all shards on disk are found", why == "", rd.Pos, "%s: %s", name, why)
		sorted := ""
		for _, s := range e.effects {
			if s.Kind == "sort" && s.Args[0] == l && e.ascending(s) && e.implies(e.bdd.And(a.C, readOK), s.Cond) {
				sorted = s.Callee
			}
		}
		c.ob("order/"+name, "shards are visited in ascending order", sorted != "", rd.Pos, "%s visits shards in the order of %s (%s)", name, e.Str(l), sorted)
		c.Counts["shard lists"]++
	}
	c.Min["shard lists"] = 1
}

// numbersOf checks that l holds the number of every entry whose name is one.
func (e *Engine) numbersOf(l, entries *Term) string {
	if l.Op != OLV || l.LV == nil || l.LV.Loop == nil {
		return "the list is " + e.Str(l)
	}
	lp := l.LV.Loop
	if x := e.allOf([]*Loop{lp}); x != "" {
		return x
	}
	for _, x := range lp.Exits {
		f := x.Cond
		for _, a := range e.support(f) {
			// that a name is no number is not a failure
			if e.isErrAtom(a) && !anyTerm(a, func(t *Term) bool { return t.Op == OCall && strings.HasPrefix(t.Aux, "strconv.") }) {
				f = e.bdd.And(f, e.Cond(a))
			}
		}
		if !e.absurd(f) {
			return "files that are no shards end it"
		}
	}
	if lp.Over != entries {
		return "the list is made from " + e.loopStr(lp)
	}
	if !e.emptyList(l.LV.Init) {
		return "the list starts with " + e.Str(l.LV.Init)
	}
	added := bF
	for _, a := range l.LV.Update.arms() {
		if a.T == l {
			continue
		}
		if a.T.Op != OSeq || a.T.Args[0] != l || len(a.T.Args) != 2 || a.T.Args[1].Op != OItem {
			return "an iteration makes the list " + e.Str(a.T)
		}
		n := a.T.Args[1].Args[0]
		call := n
		for call.Op != OCall && len(call.Args) > 0 {
			call = call.Args[0]
		}
		if call.Op != OCall || !strings.HasPrefix(call.Aux, "strconv.ParseUint") || e.extract(call, 0) != n {
			return "an entry adds " + e.Str(n)
		}
		if len(call.Args) != 3 || call.Args[1].Aux != "10" || call.Args[2].Aux != "64" && call.Args[2].Aux != "0" {
			return "a name is read as " + e.Str(call)
		}
		nm := call.Args[0]
		if nm.Op != OCall || !strings.Contains(nm.Aux, "DirEntry).Name") || len(nm.Args) != 1 || nm.Args[0].Op != OElem || nm.Args[0].Args[0] != entries {
			return "a number is read from " + e.Str(nm)
		}
		added = e.bdd.Or(added, a.C)
	}
	if d := e.missing(lp.Entry, added); d != bF {
		return "an entry is left out when " + trunc(e.CondStr(d), 300)
	}
	return ""
}

func (e *Engine) emptyList(t *Term) bool {
	for _, a := range t.arms() {
		x := a.T
		if x.Op == ONil || x.Op == OZero || x.Op == OSeq && len(x.Args) == 1 && e.emptyList(x.Args[0]) {
			continue
		}
		if x.Op == OMake && strings.HasPrefix(e.Str(x), "make") && (len(x.Args) == 0 || e.Cond(e.isEmpty(x)) == bT) {
			continue
		}
		return false
	}
	return true
}

// ascending: the sort orders numbers from the smallest.
func (e *Engine) ascending(f *Effect) bool {
	if f.Res == nil {
		return true
	}
	if len(f.Args) < 3 {
		return false
	}
	var l, r *Term
	res := f.Res
	if res.Op == OBool || res.Op == OLt {
		for _, a := range e.support(e.Cond(res)) {
			if a.Op == OLt && e.Cond(a) == e.Cond(res) {
				l, r = a.Args[0], a.Args[1]
			}
		}
	} else if res.Op == OCall && strings.HasPrefix(res.Aux, "cmp.Compare") && len(res.Args) == 2 {
		l, r = res.Args[0], res.Args[1]
	}
	if l == nil {
		return false
	}
	at := func(t, i *Term) bool {
		return t == i || t.Op == OIndex && t.Args[0] == f.Args[0] && t.Args[1] == i || t.Op == OElem && t.Args[0] == f.Args[0]
	}
	return at(l, f.Args[1]) && at(r, f.Args[2])
}

// dbPaths lists the paths a database is made with.
func (c *Check) dbPaths(e *Engine, db *Term) (out []*Term) {
	for _, f := range e.effects {
		if f.Kind == "call" && f.Callee == "github.com/gernest/rbf.NewDB" && f.Res == db {
			out = append(out, f.Args[0])
		}
	}
	return
}

// joinOf splits a path into directory and name.
func (e *Engine) joinOf(p *Term) (dir, name *Term, ok bool) {
	if p.Op != OCall || !strings.HasPrefix(p.Aux, "path/filepath.Join") && !strings.HasPrefix(p.Aux, "path.Join") || len(p.Args) != 1 {
		return
	}
	l := p.Args[0]
	if l.Op != OSeq || len(l.Args) != 3 || l.Args[1].Op != OItem || l.Args[2].Op != OItem {
		return
	}
	return l.Args[1].Args[0], l.Args[2].Args[0], true
}

// isDecimal: s is the decimal form of n.
func (e *Engine) isDecimal(s, n *Term) bool {
	return e.Str(s) == "num<>("+e.Str(n)+")"
}

// ---- C22

// beginCalls start transactions that have to be finished by whoever begins them.
var beginCalls = map[string]bool{rbfBegin: true, "(*github.com/dgraph-io/badger/v4.DB).NewTransaction": true, "(*github.com/dgraph-io/badger/v4.DB).NewTransactionAt": true}

func finishes(name string) bool {
	switch name[strings.LastIndexByte(name, '.')+1:] {
	case "Commit", "Rollback", "Discard", "CommitAt":
		return true
	}
	return false
}

// txWrites change data, so they need a transaction that may.
var txWrites = map[string]bool{"Add": true, "AddRoaring": true, "Remove": true, "RemoveContainer": true, "PutContainer": true, "CreateBitmap": true, "CreateBitmapIfNotExists": true, "DeleteBitmap": true, "DeleteBitmapsWithPrefix": true, "RenameBitmap": true, "ImportRoaringBits": true, "Commit": true}

func c22(c *Check) {
	pkgs := c.pkgsCalling(rbfBegin, "(*github.com/dgraph-io/badger/v4.DB).NewTransaction", "(*github.com/dgraph-io/badger/v4.DB).NewTransactionAt")
	// and those that work in transactions others begin
	for _, fn := range c.P.All {
		for _, p := range fn.Params {
			if isNamedPtr(p.Type(), "github.com/gernest/rbf.Tx") && c.P.isRepo(fnPkg(fn)) {
				pkgs[fnPkg(fn)] = true
			}
		}
	}
	for _, fn := range c.lockRoots(pkgs) {
		if fn.Parent() != nil {
			continue
		}
		e := c.engine()
		r := c.run(e, fn)
		name := shortName(fnName(fn))
		for i, b := range e.effects {
			if b.Kind == "call" && beginCalls[b.Callee] {
				c.txn(e, r, name, i, b)
			}
		}
	}
	c.Min["transactions"] = 4
	c.Min["committed"] = 1
}

func (c *Check) txn(e *Engine, r *Result, name string, i int, b *Effect) {
	c.Counts["transactions"]++
	tx, ok := b.Res, b.Cond
	if b.Callee == rbfBegin {
		tx = e.extract(b.Res, 0)
		ok = e.bdd.And(ok, e.nilErr(e.extract(b.Res, 1)))
	}
	writable := len(b.Args) > 1 && b.Args[1].Op == OConst && b.Args[1].Aux == "true"
	axiom := e.bdd.And(e.exited(), e.leaving(b.Loops))
	bad := func(f B) bool {
		f = e.bdd.And(f, axiom)
		return f != bF && !e.absurd(f)
	}
	name += "/" + shortName(fnName(b.Fn))
	finished, committed, dead := bF, bF, bF
	var failing []*Effect
	seen := map[string]bool{}
	for _, f := range e.effects[i+1:] {
		uses := bF
		for _, a := range f.Args {
			uses = e.bdd.Or(uses, e.is(a, tx))
		}
		if f.Kind == "call" && noReturn[f.Callee] {
			dead = e.bdd.Or(dead, f.Cond)
		}
		if f.Kind == "error" {
			if isUse(e, f, tx) && c.isIO(f) && !finishes(f.Callee) {
				failing = append(failing, f)
			}
			continue
		}
		if f.Kind != "call" {
			continue
		}
		x := e.bdd.And(e.bdd.And(f.Cond, uses), ok)
		if x == bF {
			continue
		}
		if f.Callee == "dynamic" || strings.HasPrefix(f.Callee, rbfTx) || finishes(f.Callee) {
			m := f.Callee[strings.LastIndexByte(f.Callee, '.')+1:]
			if m != "Rollback" && m != "Discard" {
				y := e.bdd.And(x, finished)
				c.ob("late/"+name+"/"+m, "a transaction is not used after it was finished", !bad(y), f.Pos, "%s uses the transaction after it ended when %s", name, trunc(e.CondStr(y), 400))
			}
			if txWrites[m] && !writable {
				c.ob("readonly/"+name+"/"+m, "changes are made in transactions that may change data", false, f.Pos, "%s changes data in a transaction that can not", name)
			}
			if finishes(f.Callee) {
				seen[m] = true
				c.Counts["endings"]++
				if n := len(b.Loops); len(f.Loops) > n {
					// ends a transaction that is older than the loop: the loop is over
					lp := f.Loops[n]
					ex := bF
					for _, o := range lp.Exits {
						ex = e.bdd.Or(ex, o.Cond)
					}
					c.ob("again/"+name, "a transaction is not used after it was finished", !bad(e.bdd.And(x, e.bdd.Not(ex))), f.Pos, "%s ends the transaction in a loop that goes on", name)
				}
				if m == "Commit" || m == "CommitAt" {
					committed = e.bdd.Or(committed, x)
					for _, s := range failing {
						d := e.dropped(s, e.bdd.And(x, axiom))
						c.ob("failed/"+name+"/"+shortName(s.Callee), "a transaction is committed only if all of its work succeeded", d == bF, f.Pos, "%s commits although %s failed, when %s", name, shortName(s.Callee), trunc(e.CondStr(d), 400))
					}
				}
				finished = e.bdd.Or(finished, x)
			}
		}
	}
	ended := e.terminated(b.Loops)
	open := e.bdd.And(e.bdd.And(e.bdd.And(ok, e.bdd.Not(finished)), e.bdd.Not(dead)), ended)
	c.ob("finished/"+name, "a transaction that is begun is committed or rolled back", !bad(open), b.Pos, "%s leaves the transaction open when %s", name, trunc(e.CondStr(open), 600))
	if writable {
		c.Counts["committed"]++
		d := e.missing(e.bdd.And(e.bdd.And(e.bdd.And(ok, axiom), ended), e.bdd.Not(dead)), committed)
		c.ob("committed/"+name, "work that succeeded is committed", d == bF, b.Pos, "%s does not commit when %s", name, trunc(e.CondStr(d), 400))
	}
}

// isUse: the operation works in the transaction, or runs code that does.
func isUse(e *Engine, f *Effect, tx *Term) bool {
	if f.Res == nil {
		return false
	}
	return anyTerm(f.Res, func(t *Term) bool { return t == tx })
}
