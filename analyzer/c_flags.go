package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- configuration

func init() {
	register("C39", "the commands and flags the program declares are found, and in the action of every command each read of a flag, which must be declared with the type it is read as; the value of every flag and of the data directory must reach what it configures, and nothing else may", c39)
}

type cliFlag struct {
	name, typ string
	env       []string
	def       string
}

type cliCommand struct {
	name   string
	up     *cliCommand
	flags  map[string]*cliFlag
	action *ssa.Function
	e      *Engine
	r      *Result
	read   map[string]bool
	used   map[string]bool
}

const cliPkg = "github.com/urfave/cli/"

// listItems are the items of a list that is written out.
func listItems(t *Term) ([]*Term, bool) {
	if isZeroVal(t) {
		return nil, true
	}
	if t.Op != OSeq {
		return nil, false
	}
	var out []*Term
	if t.Args[0].Op == OSeq {
		l, ok := listItems(t.Args[0])
		if !ok {
			return nil, false
		}
		out = l
	} else if t.Args[0].Op != ONil && t.Args[0].Op != OZero {
		return nil, false
	}
	for _, a := range t.Args[1:] {
		if a.Op == OSpread {
			l, ok := listItems(a.Args[0])
			if !ok {
				return nil, false
			}
			out = append(out, l...)
			continue
		}
		if a.Op != OItem {
			return nil, false
		}
		out = append(out, a.Args[0])
	}
	return out, true
}

func bare(t *Term) *Term {
	for t.Op == OIface || t.Op == OItem {
		t = t.Args[0]
	}
	return t
}

func (c *Check) c39commands(x *conv, obj *Term, up *cliCommand) []*cliCommand {
	const rule = "commands and their flags are declared"
	e := x.e
	fs, why := x.fields(obj)
	if !c.ob("declared", rule, why == "", 0, "a command that is not written out: %s", why) {
		return nil
	}
	name, _ := unquoteTerm(e.orZero(fs["Name"]))
	k := &cliCommand{name: name, up: up, flags: map[string]*cliFlag{}, read: map[string]bool{}, used: map[string]bool{}}
	c.Counts["commands"]++
	items, ok := listItems(e.orZero(fs["Flags"]))
	c.ob("flags of "+name, rule, ok, 0, "the flags of %s are %s", name, trunc(e.Str(e.orZero(fs["Flags"])), 200))
	for _, it := range items {
		it = bare(it)
		ff, why := x.fields(it)
		if !c.ob("flag of "+name, rule, why == "" && it.Op == OAlloc, 0, "a flag that is not written out: %s", trunc(e.Str(it), 200)) {
			continue
		}
		f := &cliFlag{}
		var isConst bool
		f.name, isConst = unquoteTerm(e.orZero(ff["Name"]))
		c.ob("flag of "+name, rule, isConst && k.flags[f.name] == nil, 0, "the name of a flag of %s is %s", name, e.Str(e.orZero(ff["Name"])))
		if t := ff["Value"]; t != nil {
			f.def = t.Aux
		}
		if p, ok := it.Typ.(*types.Pointer); ok {
			if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && n.TypeArgs().Len() > 0 {
				f.typ = n.TypeArgs().At(0).String()
			}
		}
		if s := ff["Sources"]; s != nil {
			okEnv := s.Op == OCall && strings.Contains(s.Aux, "EnvVars") || s.Op == OCall
			var l []*Term
			if okEnv {
				l, okEnv = listItems(s.Args[0])
			}
			for _, v := range l {
				if n, ok := unquoteTerm(v); ok && n != "" {
					f.env = append(f.env, n)
				}
			}
			c.ob("env/"+f.name, "a flag has a variable of its own", okEnv && len(f.env) == len(l) && len(l) > 0, 0, "the variables of %s are %s", f.name, trunc(e.Str(s), 200))
		}
		k.flags[f.name] = f
		c.Counts["flags"]++
	}
	if a := fs["Action"]; a != nil {
		for a.Op == OConv || a.Op == OIface {
			a = a.Args[0]
		}
		if c.ob("action of "+name, rule, a.Fn != nil, 0, "the action of %s is %s", name, trunc(e.Str(a), 200)) {
			k.action = a.Fn
		}
	}
	out := []*cliCommand{k}
	subs, ok := listItems(e.orZero(fs["Commands"]))
	c.ob("commands of "+name, rule, ok, 0, "the commands of %s are %s", name, trunc(e.Str(e.orZero(fs["Commands"])), 200))
	for _, s := range subs {
		out = append(out, c.c39commands(x, bare(s), k)...)
	}
	return out
}

func (e *Engine) orZero(t *Term) *Term {
	if t == nil {
		return e.mk(OZero, "")
	}
	return t
}

var flagReads = map[string]string{"String": "string", "Duration": "time.Duration", "Int": "int64", "Uint": "uint64", "Bool": "bool", "Float": "float64", "StringSlice": "[]string"}

// commands are the commands of the program, the program itself first.
func (c *Check) commands() (*conv, []*cliCommand) {
	mainFn := c.fn("cmd/rq.main")
	e := c.engine()
	c.run(e, mainFn)
	x := c.conv(e, "commands and their flags are declared")
	var root *Term
	for _, f := range e.effects {
		if f.Kind == "call" && strings.HasPrefix(f.Callee, "(*"+cliPkg) && methodBase(f.Callee) == "Run" {
			c.ob("program", x.rule, root == nil, f.Pos, "two programs are run")
			root = f.Args[0]
		}
	}
	if !c.ob("program", x.rule, root != nil, mainFn.Pos(), "no program is run") {
		return nil, nil
	}
	cmds := c.c39commands(x, bare(root), nil)
	return x, cmds
}

func c39(c *Check) {
	const rule = "a flag that is read is declared, with the type it is read as"
	// what is declared
	_, cmds := c.commands()
	if cmds == nil {
		return
	}
	c.Min["commands"], c.Min["flags"], c.Min["reads"] = 3, 5, 5
	envs := map[string]string{}
	for _, k := range cmds {
		for _, n := range sortedKeys(k.flags) {
			for _, v := range k.flags[n].env {
				c.ob("env/"+v, "a flag has a variable of its own", envs[v] == "" || envs[v] == n, 0, "the variable %s sets both %s and %s", v, envs[v], n)
				envs[v] = n
			}
		}
	}
	// what is read
	for _, k := range cmds {
		if k.action == nil {
			continue
		}
		k.e = c.engine()
		k.e.Opaque = func(f *ssa.Function) bool {
			return c.component(f)
		}
		k.r = c.run(k.e, k.action)
		if len(k.r.Args) < 2 {
			c.ob("action of "+k.name, rule, false, k.action.Pos(), "no command is given to the action")
			continue
		}
		self := k.r.Args[len(k.r.Args)-1]
		for _, f := range k.e.effects {
			if f.Kind != "call" || !strings.HasPrefix(f.Callee, "(*"+cliPkg) || len(f.Args) != 2 {
				continue
			}
			want, ok := flagReads[methodBase(f.Callee)]
			if !ok {
				continue
			}
			c.Counts["reads"]++
			n, ok := unquoteTerm(f.Args[1])
			if !c.ob("read/"+k.name, rule, ok, f.Pos, "a flag of a name that is computed is read: %s", trunc(k.e.Str(f.Args[1]), 200)) {
				continue
			}
			var in *cliCommand
			start := k
			recv := f.Args[0]
			if recv != self {
				ok := recv.Op == OCall && strings.Contains(recv.Aux, "(*"+cliPkg) && len(recv.Args) == 1 && recv.Args[0] == self
				for _, g := range k.e.effects {
					if g.Kind == "call" && g.Res == recv {
						ok = strings.HasPrefix(g.Callee, "(*"+cliPkg) && methodBase(g.Callee) == "Root" && g.Args[0] == self
					}
				}
				if !c.ob("read/"+k.name+"/"+n, rule, ok, f.Pos, "%s is read from %s", n, trunc(k.e.Str(recv), 200)) {
					continue
				}
				for start.up != nil {
					start = start.up
				}
			}
			for in = start; in != nil && in.flags[n] == nil; in = in.up {
			}
			if !c.ob("read/"+k.name+"/"+n, rule, in != nil, f.Pos, "the flag %s is read by %s but not declared", n, k.name) {
				continue
			}
			c.ob("read/"+k.name+"/"+n, rule, in.flags[n].typ == want, f.Pos, "the flag %s of type %s is read as %s", n, in.flags[n].typ, want)
			in.read[n] = true
			if w := c.effect(k.e, f.Res, f.Seq, 0); w != "" {
				in.used[n] = true
				c.Counts["effects of flags"]++
			}
		}
	}
	for _, k := range cmds {
		for _, n := range sortedKeys(k.flags) {
			c.ob("flag/"+k.name+"/"+n, "every flag has an effect", k.read[n], 0, "the flag %s of %s is never read", n, k.name)
			if k.read[n] {
				c.ob("effect/"+k.name+"/"+n, "every flag has an effect", k.used[n], 0, "the value of flag %s of %s has no effect", n, k.name)
			}
		}
	}
	c.c39server(cmds)
	c.c39client(cmds)
	c.c39log(cmds)
	c.assume("cli finds the flags of a command and of the commands above it by name, as its documentation says")
}

// component: not part of commands, configuration and logging.
func (c *Check) component(f *ssa.Function) bool {
	p := fnPkg(f)
	if p == nil || !strings.HasPrefix(p.Path(), c.P.Mod+"/") {
		return false
	}
	n := strings.TrimPrefix(p.Path(), c.P.Mod+"/")
	return !strings.HasPrefix(n, "cmd/") && !strings.HasPrefix(n, "internal/commands") && n != "internal/logger"
}

// effect is a call outside of the repository, except for logging, that is given the value.
func (c *Check) effect(e *Engine, v *Term, seq, depth int) string {
	for _, f := range e.effects {
		if f.Kind != "call" || f.Seq < seq || f.Res == v {
			continue
		}
		if logging(f.Callee) || strings.HasPrefix(f.Callee, "fmt.") || strings.HasPrefix(f.Callee, "errors.") || strings.HasPrefix(f.Callee, "(*"+cliPkg) {
			continue
		}
		for i, a := range f.Args {
			if !c.madeOf(a, v) {
				continue
			}
			ci, ok := f.Instr.(ssa.CallInstruction)
			if !ok {
				return f.Callee
			}
			fn := ci.Common().StaticCallee()
			if fn == nil || fn.Blocks == nil || fnPkg(fn) == nil || !strings.HasPrefix(fnPkg(fn).Path(), c.P.Mod+"/") {
				return f.Callee
			}
			if depth > 6 || i >= len(fn.Params) {
				continue
			}
			// what the component does with it
			e2 := c.engine()
			r := c.run(e2, fn)
			if w := c.effect(e2, r.Args[i], 0, depth+1); w != "" {
				return w
			}
			if p := r.Args[i]; e2.storesValue(p) {
				return f.Callee
			}
		}
	}
	return ""
}

// madeOf: v is part of t, other than by what a component returned for it.
func (c *Check) madeOf(t, v *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t == v {
			return true
		}
		if t.Op == OCall && strings.Contains(t.Aux, c.P.Mod+"/") && strings.HasPrefix(strings.TrimLeft(t.Aux, "(*"), c.P.Mod+"/") {
			return false
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		for _, a := range t.Arms {
			if walk(a.T) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// storesValue: the value is stored somewhere.
func (e *Engine) storesValue(v *Term) bool {
	for _, f := range e.effects {
		if f.Kind == "store" && len(f.Args) == 2 && f.Args[0].Op == OAddr && strings.HasPrefix(f.Args[0].Aux, ".") {
			for _, a := range f.Args[1].arms() {
				if a.T == v {
					return true
				}
			}
		}
	}
	return false
}

func logging(n string) bool {
	return strings.HasPrefix(n, "log/slog.") || strings.HasPrefix(n, "(*log/slog.Logger)") || strings.HasPrefix(n, "log.")
}

// flagOf is the flag a value was read from.
func flagOf(cmds []*cliCommand, k *cliCommand, v *Term) *cliFlag {
	for _, f := range k.e.effects {
		if f.Kind != "call" || f.Res != v || !strings.HasPrefix(f.Callee, "(*"+cliPkg) || len(f.Args) != 2 {
			continue
		}
		if n, ok := unquoteTerm(f.Args[1]); ok {
			for in := k; in != nil; in = in.up {
				if in.flags[n] != nil {
					return in.flags[n]
				}
			}
		}
	}
	return nil
}

func (c *Check) c39server(cmds []*cliCommand) {
	const rule = "the server listens at the configured address"
	k := cmds[0]
	if k.e == nil {
		c.ob("server", rule, false, 0, "the program has no action")
		return
	}
	e := k.e
	for _, f := range e.effects {
		switch {
		case isCall(f, "net.Listen"), f.Kind == "call" && methodBase(f.Callee) == "Listen" && strings.HasPrefix(f.Callee, "(*net.ListenConfig)"):
			c.Counts["listeners"]++
			addr := f.Args[len(f.Args)-1]
			for _, a := range e.alts(addr, f.Cond) {
				c.ob("listen", rule, isNever(e, a.C) || flagOf(cmds, k, a.T) != nil, f.Pos, "the server listens at %s when %s", trunc(e.Str(a.T), 200), trunc(e.CondStr(a.C), 200))
			}
			// requests are served there
			l, _ := results(f)
			served := false
			for _, g := range e.effects {
				if g.Kind == "go" || isCall(g, "grpc.Server).Serve") {
					if g.Kind == "go" && !(len(g.Args) > 0 && g.Args[0].Fn != nil && serves(g.Args[0].Fn)) {
						continue
					}
					for _, a := range g.Args {
						served = served || e.holdsValue(a, l)
					}
				}
			}
			c.ob("served", rule, served, f.Pos, "requests to the address are not served")
		case isCall(f, "badger/v4.Open"), strings.HasSuffix(f.Callee, "badger/v4.Open") && f.Kind == "call":
			c.Counts["storage"]++
		}
	}
	c.Min["listeners"], c.Min["paths"] = 1, 2
	// the data directory
	const where = "all data is kept in the given directory, records and index apart"
	type place struct {
		what string
		f    *Effect
		ps   []condPath
	}
	var places []place
	for _, f := range e.effects {
		if f.Kind != "call" {
			continue
		}
		switch {
		case strings.HasSuffix(f.Callee, "badger/v4.DefaultOptions"):
			places = append(places, place{"records", f, e.paths(f.Args[0], f.Cond)})
		case strings.HasSuffix(f.Callee, "internal/shards.New"):
			places = append(places, place{"index", f, e.paths(f.Args[0], f.Cond)})
		}
	}
	seen := map[string]bool{}
	for i, p := range places {
		c.Counts["paths"]++
		seen[p.what] = true
		for _, q := range p.ps {
			dir := e.firstArg()
			if !c.ob("data/"+p.what, where, dir != nil, p.f.Pos, "no directory is given") {
				continue
			}
			given := e.bdd.And(q.c, e.bdd.Not(e.Cond(e.mk(OIsEmpty, "", dir))))
			ok := len(q.ps) > 1 && q.ps[0] == e.Str(dir)
			if p.f == nil || isNever(e, given) {
				ok = true
				c.ob("data/"+p.what+"/default", where, len(q.ps) > 1 && q.ps[0] != `""` && !strings.HasPrefix(q.ps[0], "tmp"), p.f.Pos, "data is kept in %s when no directory is given", strings.Join(q.ps, "/"))
			}
			c.ob("data/"+p.what, where, ok, p.f.Pos, "%s are kept in %s", p.what, trunc(strings.Join(q.ps, "/"), 300))
			for _, o := range places[:i] {
				for _, r := range o.ps {
					if isNever(e, e.bdd.And(q.c, r.c)) {
						continue
					}
					a, b := strings.Join(q.ps, "/")+"/", strings.Join(r.ps, "/")+"/"
					c.ob("data/apart", where, !strings.HasPrefix(a, b) && !strings.HasPrefix(b, a), p.f.Pos, "%s and %s are both kept in %s", p.what, o.what, trunc(a, 200))
					c.ob("data/same", where, len(q.ps) > 1 && len(r.ps) > 1 && q.ps[0] == r.ps[0], p.f.Pos, "%s are kept in %s, %s in %s", p.what, trunc(a, 200), o.what, trunc(b, 200))
				}
			}
		}
	}
	c.ob("data", where, seen["records"] && seen["index"] && len(places) == 2, k.action.Pos(), "there is no single place of records and index")
}

// serves: the function hands connections of a listener to a server.
func serves(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && (strings.HasSuffix(fnName(f), "grpc.Server).Serve") || fnPkg(f) == fnPkg(fn) && f != fn && serves(f)) {
					return true
				}
			}
		}
	}
	return strings.HasSuffix(fnName(fn), "grpc.Server).Serve")
}

// holdsValue: v is part of t, or in a variable that is.
func (e *Engine) holdsValue(t, v *Term) bool {
	return anyTerm(t, func(t *Term) bool {
		if t == v {
			return true
		}
		if t.Op == OAlloc {
			for _, f := range e.effects {
				if f.Kind == "store" && len(f.Args) == 2 && f.Args[0] == t {
					for _, a := range f.Args[1].arms() {
						if a.T == v {
							return true
						}
					}
				}
			}
		}
		return false
	})
}

type condPath struct {
	c  B
	ps []string
}

// firstArg is the first argument of the program.
func (e *Engine) firstArg() *Term {
	for _, f := range e.effects {
		if f.Kind == "call" && strings.HasPrefix(f.Callee, "("+cliPkg) && methodBase(f.Callee) == "First" {
			return f.Res
		}
	}
	return nil
}

// paths are the elements of a path, in each case.
func (e *Engine) paths(t *Term, cond B) []condPath {
	var out []condPath
	for _, a := range e.alts(t, cond) {
		if isNever(e, a.C) {
			continue
		}
		v := bare(a.T)
		if v.Op == OCall && strings.HasPrefix(v.Aux, "path/filepath.Join") && len(v.Args) == 1 {
			for _, b := range e.alts(v.Args[0], a.C) {
				if isNever(e, b.C) {
					continue
				}
				l, ok := listItems(b.T)
				if !ok {
					out = append(out, condPath{b.C, []string{e.Str(b.T)}})
					continue
				}
				cur := []condPath{{b.C, nil}}
				for _, it := range l {
					var next []condPath
					for _, p := range cur {
						for _, q := range e.paths(it, p.c) {
							next = append(next, condPath{q.c, append(append([]string{}, p.ps...), q.ps...)})
						}
					}
					cur = next
				}
				out = append(out, cur...)
			}
			continue
		}
		out = append(out, condPath{a.C, []string{e.Str(v)}})
	}
	return out
}

func (c *Check) c39client(cmds []*cliCommand) {
	const rule = "commands connect to the configured address"
	for _, k := range cmds[1:] {
		if k.e == nil {
			continue
		}
		for _, f := range k.e.effects {
			if f.Kind != "call" || !strings.HasPrefix(f.Callee, "google.golang.org/grpc.") {
				continue
			}
			i := 0
			switch methodBase(f.Callee) {
			case "Dial", "NewClient":
			case "DialContext":
				i = 1
			default:
				continue
			}
			c.Counts["connections"]++
			for _, a := range k.e.alts(f.Args[i], f.Cond) {
				fl := flagOf(cmds, k, a.T)
				if !c.ob("connect/"+k.name, rule, isNever(k.e, a.C) || fl != nil, f.Pos, "%s connects to %s when %s", k.name, trunc(k.e.Str(a.T), 200), trunc(k.e.CondStr(a.C), 200)) || fl == nil {
					continue
				}
				// without configuration, the server on the same machine is found
				port := func(s string) string { s, _ = unquote(s); return s[strings.LastIndexByte(s, ':')+1:] }
				ok := false
				for _, g := range cmds[0].flags {
					ok = ok || g.typ == "string" && strings.Contains(g.def, ":") && port(g.def) == port(fl.def)
				}
				c.ob("connect/"+k.name+"/default", rule, ok, f.Pos, "%s connects to %s by default, where no server listens", k.name, fl.def)
			}
		}
	}
	c.Min["connections"] = 2
}

func (c *Check) c39log(cmds []*cliCommand) {
	const rule = "the configured level decides what is logged"
	for _, k := range cmds {
		if k.e == nil {
			continue
		}
		e := k.e
		for _, f := range e.effects {
			if f.Kind != "store" || len(f.Args) != 2 || f.Args[0].Op != OAddr || f.Args[0].Aux != ".Level" || !typeIn(f.Args[0].Args[0], "log/slog.HandlerOptions") {
				continue
			}
			c.Counts["loggers"]++
			fl := e.dependsOnFlag(cmds, k, bare(f.Args[1]))
			c.ob("level/"+k.name, rule, fl != nil, f.Pos, "the level of %s is %s", k.name, trunc(e.Str(f.Args[1]), 200))
		}
		// the database logs at the same level
		m := map[string]string{}
		for a, b := range map[string]string{"Info": "INFO", "Debug": "DEBUG", "Warn": "WARNING", "Error": "ERROR"} {
			m[c.constVal("log/slog", "Level"+a)] = c.constVal("github.com/dgraph-io/badger/v4", b)
		}
		var set []*Effect
		for _, f := range e.effects {
			if isCall(f, "badger/v4.Options).WithLoggingLevel") {
				set = append(set, f)
			}
		}
		if k.up != nil {
			continue
		}
		x := c.conv(e, rule)
		for _, v := range sortedKeys(m) {
			n := 0
			for _, f := range set {
				w := e.bdd.And(f.Cond, x.levelIs(f, v))
				for _, a := range x.arms(f.Args[1], w) {
					n++
					c.ob("level/database/"+v, rule, a.T.Aux == m[v], f.Pos, "the database logs at level %s when the level is %s", e.Str(a.T), v)
				}
			}
			c.ob("level/database/"+v, rule, n > 0, k.action.Pos(), "the database does not log at level %s", v)
			c.Counts["levels"] += n
		}
	}
	c.Min["loggers"], c.Min["levels"] = 2, 4
}

// levelIs is the condition of comparisons with a level that hold if it is v.
func (x *conv) levelIs(f *Effect, v string) B {
	e := x.e
	r := bT
	for _, a := range e.support(f.Cond) {
		if a.Op != OEq {
			continue
		}
		k, l := a.Args[0], a.Args[1]
		if l.Op == OConst {
			k, l = l, k
		}
		if k.Op != OConst || l.Typ == nil && k.Typ == nil {
			continue
		}
		t := l.Typ
		if t == nil {
			t = k.Typ
		}
		if !strings.HasSuffix(t.String(), "slog.Level") && !strings.Contains(e.Str(l), "slog.Level") {
			continue
		}
		if k.Aux == v {
			r = e.bdd.And(r, e.Cond(a))
		} else {
			r = e.bdd.And(r, e.bdd.Not(e.Cond(a)))
		}
	}
	return r
}

func typeIn(t *Term, suffix string) bool {
	return t.Typ != nil && strings.HasSuffix(strings.TrimPrefix(types.TypeString(t.Typ, nil), "*"), suffix)
}

// dependsOnFlag: the value is computed from that of a flag.
func (e *Engine) dependsOnFlag(cmds []*cliCommand, k *cliCommand, t *Term) *cliFlag {
	var fl *cliFlag
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || fl != nil {
			return
		}
		seen[t] = true
		if f := flagOf(cmds, k, t); f != nil {
			fl = f
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, a := range t.Arms {
			walk(a.T)
			for _, s := range e.support(a.C) {
				walk(s)
			}
		}
		if t.Op == OOpaque && strings.HasPrefix(t.Aux, "after ") {
			for _, f := range e.effects {
				if f.Kind != "call" || !strings.HasPrefix(t.Aux, "after "+f.Callee+"@") {
					continue
				}
				for _, a := range f.Args {
					walk(a)
				}
			}
		}
	}
	walk(t)
	return fl
}

var _ = sort.Strings
var _ = fmt.Sprint
