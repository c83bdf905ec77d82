package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- compiling scripts

func init() {
	register("C29", "the name of a cached script is computed from the whole source and the version; only a complete, successfully compiled script is moved to that name; what is executed is either read from it or just compiled; temporary files and directories are removed on every path", c29)
}

// actionOf is the function that a command runs.
func (c *Check) actionOf(name string) *ssa.Function {
	fn := c.fn(name)
	var found *ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldName(fa) != "Action" {
				continue
			}
			v := st.Val
			if ct, ok := v.(*ssa.ChangeType); ok {
				v = ct.X
			}
			switch v := v.(type) {
			case *ssa.Function:
				found = v
			case *ssa.MakeClosure:
				found = v.Fn.(*ssa.Function)
			}
		}
	}
	if found == nil {
		panic(analysisError{"no action of the command in " + name})
	}
	return found
}

func fieldName(fa *ssa.FieldAddr) string {
	s := structOf(fa.X.Type())
	if s == nil {
		return ""
	}
	return s.Field(fa.Field).Name()
}

// results splits the result of a call in its value and its error.
func results(f *Effect) (v, err *Term) {
	if f.Res == nil {
		return nil, nil
	}
	if f.Res.Op == OTuple {
		return f.Res.Args[0], f.Res.Args[len(f.Res.Args)-1]
	}
	return f.Res, f.Res
}

func (e *Engine) isNil(t *Term) B {
	return e.Cond(e.dist1(t, func(t *Term) *Term { return e.eq(t, e.mk(ONil, ""), errorType) }))
}

// succeeded: the call was made and did not fail.
func (e *Engine) succeeded(f *Effect) B {
	_, err := results(f)
	if err == nil {
		return f.Cond
	}
	return e.bdd.And(f.Cond, e.isNil(err))
}

func c29(c *Check) {
	const rule = "a cached script was completely written by a compilation of the same source with the same version"
	fn := c.actionOf("internal/commands/query.Cmd")
	e := c.engine()
	e.Opaque = func(f *ssa.Function) bool {
		p := fnPkg(f)
		return p != nil && (p.Path() == c.P.Mod+"/internal/compile" || p.Path() == c.P.Mod+"/internal/js")
	}
	r := c.run(e, fn, "ctx", "cmd")
	var renames, compiles, runs, progs, reads []*Effect
	for _, f := range e.effects {
		if f.Kind != "call" {
			continue
		}
		switch {
		case f.Callee == "os.Rename":
			renames = append(renames, f)
		case isCall(f, c.P.Mod+"/internal/compile.Compile"):
			compiles = append(compiles, f)
		case strings.HasSuffix(f.Callee, "/internal/js.JS).Run"):
			runs = append(runs, f)
		case strings.HasPrefix(f.Callee, "github.com/dop251/goja.Compile"):
			progs = append(progs, f)
		case f.Callee == "os.ReadFile":
			reads = append(reads, f)
		}
	}
	if !c.ob("sites", rule, len(renames) == 1 && len(compiles) == 1 && len(runs) == 1 && len(progs) == 1, fn.Pos(), "scripts are compiled at %d places, kept at %d, translated at %d and executed at %d", len(compiles), len(renames), len(progs), len(runs)) {
		return
	}
	ren, comp, run, prog := renames[0], compiles[0], runs[0], progs[0]
	key := ren.Args[1]
	code, compErr := results(comp)
	// the source
	src := comp.Args[0]
	okSrc := false
	for _, r := range reads {
		v, err := results(r)
		if v == src && r.Args[0] != key {
			okSrc = true
			bad := e.bdd.And(comp.Cond, e.bdd.Not(e.isNil(err)))
			c.ob("source/read", "the script is compiled as it was read", isNever(e, bad), comp.Pos, "a script is compiled that could not be read")
		}
	}
	c.ob("source", "the script is compiled as it was read", okSrc, comp.Pos, "what is compiled is %s", trunc(e.Str(src), 200))
	// the key
	hashed := len(findTerms(key, func(t *Term) bool { return t.Op == OHash && len(t.Args) == 1 && t.Args[0] == src })) > 0
	c.ob("key/source", rule, hashed, ren.Pos, "the name %s is not computed from the whole source", trunc(e.Str(key), 300))
	vers := len(findTerms(key, func(t *Term) bool {
		return t.Op == OGlobal && strings.HasPrefix(t.Aux, c.P.Mod+"/internal/version.")
	})) > 0
	c.ob("key/version", rule, vers, ren.Pos, "the name %s does not depend on the version", trunc(e.Str(key), 300))
	// uses of the name
	for _, f := range e.effects {
		if f.Kind != "call" || !strings.HasPrefix(f.Callee, "os.") && !strings.HasPrefix(f.Callee, "io/") {
			continue
		}
		for i, a := range f.Args {
			if a != key {
				continue
			}
			c.Counts["uses of the name"]++
			ok := f.Callee == "os.ReadFile" || f.Callee == "os.Open" || f.Callee == "os.Stat" || f.Callee == "os.Remove" || f == ren && i == 1
			c.ob("name/"+f.Callee, rule, ok, f.Pos, "%s uses the name of a cached script", f.Callee)
		}
	}
	c.Min["uses of the name"] = 2
	// the temporary file
	var tmp *Effect
	var file *Term
	for _, f := range e.effects {
		if isCall(f, "os.CreateTemp") {
			v, _ := results(f)
			if e.nameOf(ren.Args[0], v) {
				tmp, file = f, v
			}
		}
	}
	if !c.ob("temp", rule, tmp != nil, ren.Pos, "%s is moved to the cache", trunc(e.Str(ren.Args[0]), 200)) {
		return
	}
	c.ob("temp/dir", "the file is moved within its directory", e.dirOf(tmp.Args[0], key), tmp.Pos, "the file is made in %s", trunc(e.Str(tmp.Args[0]), 200))
	n := 0
	need := bF
	closed := bF
	for _, f := range e.effects {
		if f.Kind != "call" || len(f.Args) == 0 || f.Args[0] != file {
			continue
		}
		switch methodBase(f.Callee) {
		case "Write", "WriteString", "WriteAt", "ReadFrom":
			n++
			v := f.Args[1]
			c.ob("temp/content", rule, v == code || v.Op == OConv && v.Args[0] == code, f.Pos, "%s is written to the cache", trunc(e.Str(v), 200))
			c.ob("temp/order", rule, f.Seq < ren.Seq, f.Pos, "the file is written after it was moved")
			need = e.succeeded(f)
		case "Close":
			if f.Seq < ren.Seq {
				closed = e.bdd.Or(closed, e.succeeded(f))
			}
		case "Truncate", "Seek":
			n++
		}
	}
	c.ob("temp/once", rule, n == 1, tmp.Pos, "the file is written at %d places", n)
	ok := e.bdd.And(e.bdd.And(need, closed), e.isNil(compErr))
	d := e.bdd.And(ren.Cond, e.bdd.Not(ok))
	c.ob("moved", rule, isNever(e, d), ren.Pos, "a script is moved to the cache although %s", e.causes(d))
	// removed
	gone := bF
	for _, f := range e.effects {
		if isCall(f, "os.Remove") && e.nameOf(f.Args[0], file) {
			gone = e.bdd.Or(gone, f.Cond)
		}
	}
	left := e.bdd.And(e.succeeded(tmp), e.bdd.Not(e.succeeded(ren)))
	d = e.bdd.And(left, e.bdd.Not(gone))
	c.ob("removed", "temporary files are removed when something fails", isNever(e, d), tmp.Pos, "the temporary file stays when %s", e.causes(d))
	// what is executed
	for _, a := range e.alts(prog.Args[1], prog.Cond) {
		t := a.T
		for t.Op == OConv {
			t = t.Args[0]
		}
		why := ""
		switch {
		case t == code:
			if !isNever(e, e.bdd.And(a.C, e.bdd.Not(e.succeeded(comp)))) {
				why = "a script that failed to compile"
			}
		default:
			why = trunc(e.Str(t), 200)
			for _, r := range reads {
				if v, _ := results(r); v == t && r.Args[0] == key {
					why = ""
					if !isNever(e, e.bdd.And(a.C, e.bdd.Not(e.succeeded(r)))) {
						why = "a cached script that could not be read"
					}
				}
			}
		}
		c.Counts["sources of the executed script"]++
		c.ob("executed", "what is executed is the script, cached or just compiled", why == "", prog.Pos, "%s is executed", why)
	}
	c.Min["sources of the executed script"] = 2
	// errors
	fails := append([]*Effect{comp, prog, run}, reads...)
	c.errorsReach(e, "errors", "errors of compiling and executing reach the user", r, fails, func(f *Effect) bool {
		// that there is no cached script is not a failure
		return f.Callee == "os.ReadFile" && f.Args[0] == key
	})
	pv, _ := results(prog)
	okRun := len(run.Args) > 1
	for _, a := range e.alts(run.Args[len(run.Args)-1], run.Cond) {
		okRun = okRun && (a.T == pv || isNever(e, a.C))
	}
	okRun = okRun && isNever(e, e.bdd.And(run.Cond, e.bdd.Not(e.succeeded(prog))))
	c.ob("run", "what is executed is the script, cached or just compiled", okRun, run.Pos, "%s is executed", trunc(e.Str(run.Args[len(run.Args)-1]), 200))
	c.c29compile()
	c.c29run()
	c.assume("two scripts with the same 64 bit hash, and files damaged after they were moved in place, are not considered")
}

// errorsReach: the last result is an error when one of the calls failed.
func (c *Check) errorsReach(e *Engine, id, rule string, r *Result, calls []*Effect, skip func(f *Effect) bool) {
	res := r.Val
	success := bF
	for _, a := range e.alts(res, bT) {
		t := a.T
		if t.Op == OTuple {
			t = t.Args[len(t.Args)-1]
		}
		success = e.bdd.Or(success, e.bdd.And(a.C, e.isNil(t)))
	}
	success = e.bdd.And(success, e.exited())
	for _, f := range calls {
		if skip != nil && skip(f) {
			continue
		}
		c.Counts["failures"]++
		_, err := results(f)
		d := e.bdd.And(e.bdd.And(f.Cond, e.bdd.Not(e.isNil(err))), success)
		d = e.bdd.And(d, e.leaving(f.Loops))
		c.ob(id+"/"+methodBase(f.Callee), rule, isNever(e, d), f.Pos, "no error is returned when %s failed and %s", f.Callee, e.causes(d))
	}
}

// nameOf: t is the name of the file.
func (e *Engine) nameOf(t, file *Term) bool {
	return t.Op == OCall && strings.Contains(t.Aux, "Name") && len(t.Args) > 0 && t.Args[len(t.Args)-1] == file
}

// dirOf: t is the directory of the path.
func (e *Engine) dirOf(t, path *Term) bool {
	if t.Op == OCall && strings.HasPrefix(t.Aux, "path/filepath.Dir") && t.Args[len(t.Args)-1] == path {
		return true
	}
	if path.Op == OCall && strings.HasPrefix(path.Aux, "path/filepath.Join") && len(path.Args) == 1 && path.Args[0].Op == OSeq && len(path.Args[0].Args) == 3 {
		x := path.Args[0].Args[1]
		return x.Op == OItem && x.Args[0] == t
	}
	return false
}

// joined splits a path in a directory and the rest.
func joined(t *Term) (dir, rest *Term) {
	if t.Op == OCall && strings.HasPrefix(t.Aux, "path/filepath.Join") && len(t.Args) == 1 && t.Args[0].Op == OSeq && len(t.Args[0].Args) == 3 {
		a, b := t.Args[0].Args[1], t.Args[0].Args[2]
		if a.Op == OItem && b.Op == OItem {
			return a.Args[0], b.Args[0]
		}
	}
	return nil, nil
}

func (c *Check) c29compile() {
	const rule = "a script is compiled with the library, in a directory that is removed"
	fn := c.fn("internal/compile.Compile")
	e := c.engine()
	r := c.run(e, fn, "data")
	data := r.Args[0]
	var mk, build *Effect
	n := 0
	for _, f := range e.effects {
		switch {
		case isCall(f, "os.MkdirTemp"):
			mk = f
			n++
		case strings.HasPrefix(f.Callee, "github.com/evanw/esbuild/pkg/api.Build"):
			build = f
			n++
		}
	}
	if !c.ob("compile/sites", rule, mk != nil && build != nil && n == 2, fn.Pos(), "no single temporary directory and build") {
		return
	}
	dir, _ := results(mk)
	made := e.succeeded(mk)
	gone := bF
	for _, f := range e.effects {
		if !isCall(f, "os.RemoveAll") {
			continue
		}
		for _, a := range e.alts(f.Args[0], f.Cond) {
			if a.T == dir {
				gone = e.bdd.Or(gone, a.C)
			}
			c.Counts["removals"]++
		}
		d := e.bdd.And(f.Cond, build.Cond)
		c.ob("compile/early", rule, f.Seq > build.Seq || isNever(e, d), f.Pos, "the directory is removed before it is used")
	}
	d := e.bdd.And(made, e.bdd.Not(gone))
	d = e.bdd.And(d, e.exited())
	c.ob("compile/removed", "temporary files are removed when something fails", isNever(e, d), mk.Pos, "the directory stays when %s", e.causes(d))
	field := func(n string) *Term {
		v := e.project(build.Args[0], "."+n)
		if w := e.view(build.Cond); v != nil {
			v = w.term(v)
		}
		return v
	}
	c.ob("compile/dir", rule, field("AbsWorkingDir") == dir, build.Pos, "the build runs in %s", trunc(e.Str(field("AbsWorkingDir")), 200))
	c.ob("compile/bundle", rule, field("Bundle") == e.Bool(bT), build.Pos, "the library is not included")
	ep := field("EntryPoints")
	var entry *Term
	if ep != nil && ep.Op == OSeq && len(ep.Args) == 2 && ep.Args[1].Op == OItem {
		entry = ep.Args[1].Args[0]
	}
	c.ob("compile/entry", rule, entry != nil, build.Pos, "the entry points are %s", trunc(e.Str(ep), 200))
	var script, libs []*Effect
	for _, f := range e.effects {
		if !isCall(f, "os.WriteFile") {
			continue
		}
		dd, rest := joined(f.Args[0])
		if !c.ob("compile/inside", rule, dd == dir, f.Pos, "a file is written to %s", trunc(e.Str(f.Args[0]), 200)) {
			continue
		}
		if rest == entry && len(f.Loops) == 0 {
			script = append(script, f)
		} else {
			libs = append(libs, f)
		}
	}
	if c.ob("compile/script", rule, len(script) == 1, fn.Pos(), "the script is written at %d places", len(script)) {
		f := script[0]
		d := e.bdd.And(build.Cond, e.bdd.Not(e.succeeded(f)))
		c.ob("compile/source", rule, f.Args[1] == data && isNever(e, d) && f.Seq < build.Seq, f.Pos, "what is compiled is %s", trunc(e.Str(f.Args[1]), 200))
	}
	// the library
	alias := field("Alias")
	if c.ob("compile/library", rule, len(libs) == 1 && len(libs[0].Loops) == 1 && alias != nil, fn.Pos(), "the library is written at %d places", len(libs)) {
		f := libs[0]
		m, key, isVal := e.entriesOf(f.Loops[0])
		_, rest := joined(f.Args[0])
		why := e.allOf(f.Loops)
		d := e.missing(f.Loops[0].Entry, f.Cond)
		c.ob("compile/modules", rule, m != nil && isVal(f.Args[1]) && e.isPackages(m, c) && why == "" && d == bF, f.Pos, "a module of the library is not available: %s %s", why, trunc(e.CondStr(d), 200))
		k := 0
		for _, g := range e.effects {
			if g.Kind != "mapset" || g.Args[0] != alias {
				continue
			}
			k++
			got := g.Args[2]
			c.ob("compile/alias", rule, g.Args[1] == key && e.relative(got, rest), g.Pos, "%s is found as %s, and written to %s", trunc(e.Str(g.Args[1]), 100), trunc(e.Str(got), 200), trunc(e.Str(rest), 200))
			d := e.missing(g.Loops[0].Entry, g.Cond)
			c.ob("compile/aliases", rule, d == bF, g.Pos, "a module is not found when %s", trunc(e.CondStr(d), 200))
		}
		c.ob("compile/aliased", rule, k == 1, build.Pos, "modules are named at %d places", k)
	}
	var fails []*Effect
	for _, f := range e.effects {
		if f.Kind == "call" && (f == mk || isCall(f, "os.WriteFile")) {
			fails = append(fails, f)
		}
	}
	c.errorsReach(e, "compile/errors", "errors of compiling and executing reach the user", r, fails, nil)
	// the result
	bv, _ := results(build)
	for _, a := range e.alts(r.Val, bT) {
		if a.T.Op != OTuple || len(a.T.Args) != 2 {
			continue
		}
		okc := e.bdd.And(a.C, e.isNil(a.T.Args[1]))
		for _, b := range e.alts(a.T.Args[0], okc) {
			if isNever(e, e.bdd.And(b.C, e.exited())) {
				continue
			}
			c.Counts["results"]++
			p := e.path(b.T)
			good := containsTerm(b.T, bv) && strings.HasSuffix(p, "OutputFiles[0].Contents")
			errs := e.Cond(e.isEmpty(e.project(bv, ".Errors")))
			d := e.bdd.And(b.C, e.bdd.Not(errs))
			c.ob("compile/result", rule, good && isNever(e, d), build.Pos, "the result is %s when %s", trunc(p, 200), trunc(e.CondStr(d), 200))
		}
	}
	c.Min["results"] = 1

}

// isPackages: m is the map of bundled modules.
func (e *Engine) isPackages(m *Term, c *Check) bool {
	if strings.Contains(e.Str(m), "bundle.PKG") {
		return true
	}
	g := e.P.globals[c.P.Mod+"/internal/js/bundle.PKG"]
	if g == nil {
		return false
	}
	v := e.load(newState(), e.mkT(g.Type(), OGlobal, c.P.Mod+"/internal/js/bundle.PKG"), g.Type())
	return v == m
}

// relative: t is the file in the current directory.
func (e *Engine) relative(t, file *Term) bool {
	ps, qs := e.pieces(t), e.pieces(file)
	if len(ps) == 0 || termText(ps[0]) == "" {
		return false
	}
	if s, ok := unquoteTerm(ps[0]); ok && s == "./" {
		ps = ps[1:]
	} else {
		return false
	}
	if len(ps) != len(qs) {
		return false
	}
	for i := range ps {
		if ps[i] != qs[i] {
			return false
		}
	}
	return true
}

func unquoteTerm(t *Term) (string, bool) {
	for (t.Op == OItem || t.Op == OSpread) && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return unquote(t.Aux)
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// c29run: executing a script returns the error of executing it.
func (c *Check) c29run() {
	const rule = "errors of compiling and executing reach the user"
	fn := c.fn("internal/js.(*JS).Run")
	e := c.engine()
	r := c.run(e, fn, "o", "program")
	var runs []*Effect
	for _, f := range e.effects {
		if f.Kind == "call" && strings.HasSuffix(f.Callee, "goja.Runtime).RunProgram") {
			runs = append(runs, f)
		}
	}
	if c.ob("execute", "what is executed is the script, cached or just compiled", len(runs) == 1 && runs[0].Cond == bT && len(runs[0].Loops) == 0 && runs[0].Args[1] == r.Args[1], fn.Pos(), "the script is executed at %d places", len(runs)) {
		c.errorsReach(e, "execute/error", rule, r, runs, nil)
	}
}
