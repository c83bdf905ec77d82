package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- errors reach the caller

// ioPackages are the packages whose operations read or write storage, the index,
// sequences, files, connections, or run scripts.
var ioPackages = []string{
	"github.com/dgraph-io/badger", "github.com/gernest/rbf", "github.com/gernest/arrow3", "github.com/dgraph-io/ristretto",
	"os", "io", "io/fs", "net", "bufio", "google.golang.org/grpc", "github.com/dop251/goja", "github.com/apache/arrow", "github.com/klauspost/compress",
	"github.com/cenkalti/backoff", "go.opentelemetry.io/proto", "compress", "archive", "syscall",
}

// harmless lists operations whose errors carry no information for the caller: they
// undo something that has failed already, only release it, or the operation that
// follows fails as well.
var harmless = []string{
	"(io.Closer).Close", "github.com/gernest/arrow3.New", "(*github.com/gernest/rbf.Tx).Rollback",
	"(*google.golang.org/grpc.ClientConn).Close", "os.Remove", "os.RemoveAll", "os.MkdirAll",
	"(*github.com/gernest/roaring", "(*github.com/klauspost/compress/zstd.Decoder).Reset",
	// only registers gauges
	"github.com/gernest/requiemdb/internal/store.MonitorSize",
}

// opPackage is the package an operation belongs to.
func opPackage(name string) string {
	n := strings.TrimLeft(name, "(*")
	i := strings.LastIndexByte(n, '/')
	j := strings.IndexByte(n[i+1:], '.')
	if j < 0 {
		return n
	}
	return n[:i+1+j]
}

// isIO: the operation can fail for reasons outside of the program.
func (c *Check) isIO(src *Effect) bool {
	name := src.Callee
	if hasPrefixOf(name, harmless) {
		return false
	}
	if name == "dynamic" {
		return true
	}
	if strings.HasPrefix(name, "(*os.File).Close") {
		// closing a file that is only read
		return !anyTerm(src.Res, func(t *Term) bool { return t.Op == OCall && strings.HasPrefix(t.Aux, "os.Open@") })
	}
	if strings.HasPrefix(name, "(*github.com/RoaringBitmap/") {
		return strings.HasSuffix(name, "Binary") || strings.HasSuffix(name, ".WriteTo") || strings.HasSuffix(name, ".ReadFrom")
	}
	p := opPackage(name)
	if strings.HasPrefix(p, c.P.Mod) {
		return true // generated clients and functions analysed on their own
	}
	for _, x := range ioPackages {
		if p == x || strings.HasPrefix(p, x+"/") {
			return true
		}
	}
	return false
}

// absence lists errors which say that there is nothing, not that something failed.
var absence = []string{"badger/v4.ErrKeyNotFound", "os.ErrNotExist", "io/fs.ErrNotExist", "io.EOF"}

func hasPrefixOf(s string, ps []string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// leaving: the iteration in which the exit condition of a loop holds leaves it.
func (e *Engine) leaving(ls []*Loop) B {
	r := bT
	for _, l := range ls {
		x := bF
		for _, o := range l.Exits {
			x = e.bdd.Or(x, o.Cond)
		}
		if x == bF {
			continue
		}
		r = e.bdd.And(r, e.bdd.Or(e.bdd.Not(x), e.Cond(e.mk(OBroke, l.Key))))
	}
	return r
}

// joined: an error collected in a list is part of what the list is joined to.
func (e *Engine) joined(src *Effect, bad B, f B) B {
	r := bT
	for _, a := range e.support(f) {
		if a.Op != OEq || a.Args[0].Op != ONil || a.Args[1].Op != OSpread {
			continue
		}
		list := a.Args[1].Args[0]
		for _, ef := range e.effects {
			if ef.Seq < src.Seq {
				continue
			}
			holds := func(v *Term) B {
				c := bF
				for _, x := range v.arms() {
					if x.T == src.Res {
						c = e.bdd.Or(c, x.C)
					}
				}
				return c
			}
			switch ef.Kind {
			case "append":
				for _, p := range ef.Args[1:] {
					if p.Op != OItem {
						continue
					}
					if c := e.bdd.And(ef.Cond, holds(p.Args[0])); c != bF && e.flowsTo(ef.Res, list) {
						r = e.bdd.And(r, e.bdd.Not(e.bdd.And(e.bdd.And(c, bad), e.Cond(a))))
					}
				}
			case "store":
				if len(ef.Args) == 2 && ef.Args[0].Op == OAddr && strings.HasPrefix(ef.Args[0].Aux, "[") && e.sameList(ef.Args[0].Args[0], list) {
					if c := e.bdd.And(ef.Cond, holds(ef.Args[1])); c != bF {
						r = e.bdd.And(r, e.bdd.Not(e.bdd.And(e.bdd.And(c, bad), e.Cond(a))))
					}
				}
			}
		}
	}
	return r
}

func (e *Engine) sameList(x, list *Term) bool {
	for _, a := range list.arms() {
		if a.T == x || anyTerm(a.T, func(t *Term) bool { return t == x }) {
			return true
		}
	}
	return false
}

// flowsTo: the list l is (an earlier value of) list.
func (e *Engine) flowsTo(l, list *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t == l {
			return true
		}
		if t.Op == OLV && t.LV != nil {
			return walk(t.LV.Init) || walk(t.LV.Update)
		}
		if t.Op == OSeq {
			return walk(t.Args[0])
		}
		for _, a := range t.Arms {
			if walk(a.T) {
				return true
			}
		}
		return false
	}
	return walk(list)
}

// sameArm: x and y are, in some case, the same value.
func sameArm(x, y *Term) bool {
	for _, a := range x.arms() {
		for _, b := range y.arms() {
			if a.T == b.T {
				return true
			}
		}
	}
	return false
}

// kept: a variable which, once it is not nil, stays so over the iterations of a loop
// is nil in the end only when no iteration has set it.
func (e *Engine) kept(src *Effect, ok B) B {
	r := bT
	for _, a := range e.support(ok) {
		if a.Op != OEq || a.Args[0].Op != ONil || a.Args[1].Op != OLV || a.Args[1].LV == nil {
			continue
		}
		lv := a.Args[1].LV
		in := false
		for _, l := range src.Loops {
			in = in || l == lv.Loop
		}
		if !in || lv.Update == nil {
			continue
		}
		set := e.Cond(e.dist1(lv.Update, func(t *Term) *Term { return e.eq(e.mk(ONil, ""), t, errorType) }))
		if e.bdd.And(set, e.bdd.Not(e.Cond(a))) != bF {
			continue
		}
		r = e.bdd.And(r, e.bdd.Or(e.bdd.Not(e.Cond(a)), set))
	}
	return r
}

// dropped is when fn returns no error although src failed.
func (e *Engine) dropped(src *Effect, ok B) B {
	failed := e.bdd.Not(e.Cond(e.dist1(src.Res, func(t *Term) *Term { return e.eq(e.mk(ONil, ""), t, errorType) })))
	bad := e.bdd.And(src.Cond, failed)
	if bad == bF {
		return bF
	}
	r := e.bdd.And(ok, bad)
	r = e.bdd.And(r, e.leaving(src.Loops))
	r = e.bdd.And(r, e.kept(src, ok))
	if r == bF {
		return bF
	}
	r = e.bdd.And(r, e.joined(src, bad, r))
	if r == bF {
		return bF
	}
	// what was found to be absent did not fail
	for _, a := range e.support(r) {
		if a.Op == OCall && (a.Aux == "errors.Is") && len(a.Args) == 2 && sameArm(a.Args[0], src.Res) {
			for _, s := range absence {
				if strings.Contains(e.Str(a.Args[1]), s) || strings.HasSuffix(a.Args[1].Aux, s) || (a.Args[1].Op == OField && strings.HasSuffix(a.Args[1].Args[0].Aux, s)) {
					r = e.bdd.And(r, e.bdd.Not(e.Cond(a)))
				}
			}
		}
		if a.Op == OCall && strings.HasPrefix(a.Aux, "os.IsNotExist") && len(a.Args) == 1 && sameArm(a.Args[0], src.Res) {
			r = e.bdd.And(r, e.bdd.Not(e.Cond(a)))
		}
		// compared with the variable itself
		if a.Op == OEq {
			for i := range a.Args {
				if x := a.Args[i]; x.Op == OField && x.Args[0].Op == OGlobal && sameArm(a.Args[1-i], src.Res) {
					for _, s := range absence {
						if strings.HasSuffix(x.Args[0].Aux, s) {
							r = e.bdd.And(r, e.bdd.Not(e.Cond(a)))
						}
					}
				}
			}
		}
	}
	if r == bF || e.absurd(r) {
		return bF
	}
	return r
}

// errorsOf checks that every failure inside of an entry point is returned.
func (c *Check) errorsOf(e *Engine, r *Result, name string) {
	sig := r.Fn.Signature
	n := sig.Results().Len()
	ok := bT
	if n > 0 && types.Identical(sig.Results().At(n-1).Type(), errorType) {
		t := r.Val
		if n > 1 {
			t = e.extract(r.Val, n-1)
		}
		ok = e.successOf(t)
	}
	ok = e.bdd.And(ok, r.Cond)
	for _, src := range e.effects {
		if src.Kind != "error" || !c.isIO(src) {
			continue
		}
		if strings.HasPrefix(name, "rq.") && (closing(src.Callee) || silent(src.Cx)) {
			continue // at shutdown there is nobody to return to
		}
		c.Counts["failing operations"]++
		d := e.dropped(src, ok)
		c.ob("dropped/"+name+"/"+shortName(src.Callee), "a failure is returned to the caller", d == bF, src.Pos, "%s returns no error although %s failed, when %s", name, shortName(src.Callee), trunc(e.CondStr(d), 600))
	}
}

func init() {
	register("C16", "every operation that can fail, in everything called by an entry point, is found; that it fails and the entry point returns no error is refuted from the conditions of both", c16)
}

func c16(c *Check) {
	for _, pk := range []string{"internal/store", "internal/dataframe", "internal/shards", "internal/translate", "internal/seq", "internal/service", "internal/batch", "internal/transform", "internal/f2", "internal/self", "internal/js", "internal/commands/query", "internal/compile", "internal/snippets", "internal/render", "internal/compress", "cmd/rq"} {
		for _, fn := range c.P.All {
			if fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/"+pk) || fn.Synthetic != "" || fn.Parent() != nil {
				continue
			}
			if fn.TypeParams() != nil && fn.TypeArgs() == nil {
				continue
			}
			if !returnsErr(fn) {
				continue
			}
			e := c.engine()
			e.Opaque = func(f *ssa.Function) bool {
				// analysed on its own
				return f != fn && f.Parent() == nil && returnsErr(f) && !takesFunc(f) && c.P.isRepo(fnPkg(f))
			}
			r := c.run(e, fn)
			c.Counts["entry points"]++
			c.errorsOf(e, r, shortName(fnName(fn)))
		}
	}
	c.lost()
	c.Min["entry points"] = 50
	c.Min["failing operations"] = 100
}

// lost: a failure that can not be returned to anyone is at least logged, or ends the
// program.
func (c *Check) lost() {
	for _, pk := range []string{"internal/store", "internal/service", "internal/commands/query", "cmd/rq"} {
		for _, fn := range c.P.All {
			if fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/"+pk) || fn.Synthetic != "" || returnsErr(fn) || fn.Name() == "init" {
				continue
			}
			if fn.TypeParams() != nil && fn.TypeArgs() == nil {
				continue
			}
			if fn.Parent() != nil && !startedByGo(fn) {
				continue
			}
			e := c.engine()
			e.Opaque = func(f *ssa.Function) bool {
				return f != fn && f.Parent() == nil && returnsErr(f) && !takesFunc(f) && c.P.isRepo(fnPkg(f))
			}
			r := c.run(e, fn)
			for _, f := range e.effects {
				if f.Kind == "call" && f.Callee == "os.Exit" && len(f.Args) == 1 {
					c.ob("exit/"+shortName(fnName(fn)), "the program fails when something failed", f.Args[0].Op == OConst && f.Args[0].Aux != "0", f.Pos, "the program ends with %s", e.Str(f.Args[0]))
				}
			}
			for _, src := range e.effects {
				if src.Kind != "error" || closing(src.Callee) || !c.isIO(src) && !strings.Contains(src.Callee, "cli/v3") {
					continue
				}
				told := bF
				for _, f := range e.effects {
					if f.Kind != "call" || f.Seq < src.Seq || !strings.Contains(f.Callee, "slog.") {
						continue
					}
					for _, a := range f.Args {
						if anyTerm(a, func(t *Term) bool { return t == src.Res }) {
							told = e.bdd.Or(told, f.Cond)
						}
					}
				}
				c.Counts["failures without a caller"]++
				d := e.dropped(src, e.bdd.And(r.Cond, e.bdd.Not(told)))
				c.ob("lost/"+shortName(fnName(fn))+"/"+shortName(src.Callee), "a failure that can not be returned is logged or ends the program", d == bF, src.Pos, "%s goes on silently although %s failed, when %s", shortName(fnName(fn)), shortName(src.Callee), trunc(e.CondStr(d), 600))
			}
		}
	}
}

// silent: one of the functions that were called to get there can not return an error.
func silent(cx *Ctx) bool {
	for ; cx != nil && cx.parent != nil; cx = cx.parent {
		if cx.fn != nil && !returnsErr(cx.fn) {
			return true
		}
	}
	return false
}

// closing: the operation only ends the use of something.
func closing(name string) bool {
	switch methodBase(name) {
	case "Close", "Release", "Shutdown", "Stop":
		return true
	}
	return false
}

func startedByGo(f *ssa.Function) bool {
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			g, ok := in.(*ssa.Go)
			if !ok {
				continue
			}
			if m, ok := g.Call.Value.(*ssa.MakeClosure); ok && m.Fn == f || g.Call.Value == f {
				return true
			}
		}
	}
	return false
}

func returnsErr(f *ssa.Function) bool {
	n := f.Signature.Results().Len()
	return n > 0 && types.Identical(f.Signature.Results().At(n-1).Type(), errorType)
}

func takesFunc(f *ssa.Function) bool {
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}
