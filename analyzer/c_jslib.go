package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the library of scripts

func init() {
	register("C26", "functions of the library are evaluated symbolically over the syntax trees of its sources and of the bundle; every call on a host object is resolved against the method set of the Go type that is bound under that name, with the types of parameters on both sides, and every member of the declared types against the Go types they stand for; the two evaluations are compared", c26)
}

//go:embed js/facts.js
var jsFacts []byte

type jsTerm = any

type jsParam struct {
	Type     []any
	Optional bool
	Rest     bool
}

type jsEffect struct {
	Guards []jsTerm
	Set    string
	Assign jsTerm
	Term   jsTerm
	Line   string
}

type jsReturn struct {
	Guards []jsTerm
	Term   jsTerm
}

type jsFunc struct {
	Params  []jsParam
	Effects []jsEffect
	Returns []jsReturn
	Casts   [][]any
	Line    string
	Private bool
}

type jsExport struct {
	Kind    string
	Members map[string]any
	Base    *string
	Ctor    *jsFunc
	Methods map[string]*jsFunc
	Statics map[string]*jsFunc
	jsFunc
}

type jsMember struct {
	Name     string
	Method   bool
	Optional bool
	Params   [][]any
	Type     []any
	File     string
	Line     int
}

type jsSide struct {
	Exports    map[string]*jsExport
	Interfaces map[string][]jsMember
	Enums      map[string]map[string]any
}

type jsLib struct {
	Source, Bundle jsSide
	Package        string
}

type hosts struct {
	c     *Check
	names map[string]types.Type
	tag   string // field names come from this tag
	uncap bool
	side  *jsSide
	memo  map[string]bool
}

func (c *Check) jsFiles() (entry, bundle, name string) {
	// the embedded file
	for g, f := range c.P.files {
		if !strings.HasSuffix(f, ".js") || g.Pkg == nil {
			continue
		}
		dir := ""
		for _, pk := range c.P.Pkgs {
			if pk.PkgPath == g.Pkg.Pkg.Path() && len(pk.GoFiles) > 0 {
				dir = filepath.Dir(pk.GoFiles[0])
			}
		}
		rel, err := filepath.Rel(c.P.Dir, filepath.Join(dir, f))
		if err != nil {
			continue
		}
		if bundle != "" {
			panic(analysisError{"more than one embedded script"})
		}
		bundle = rel
		name = c.jsName(g)
	}
	if bundle == "" {
		panic(analysisError{"no embedded script library"})
	}
	ms, _ := filepath.Glob(filepath.Join(c.P.Dir, "packages", "*", "package.json"))
	for _, m := range ms {
		b, err := os.ReadFile(m)
		if err != nil {
			continue
		}
		var d struct{ Name string }
		if json.Unmarshal(b, &d) != nil || d.Name != name {
			continue
		}
		dir := filepath.Dir(m)
		e := "src/index.ts"
		if b, err := os.ReadFile(filepath.Join(dir, "build.js")); err == nil {
			if x := regexp.MustCompile(`entryPoints:\s*\[\s*["']([^"']+)["']`).FindSubmatch(b); x != nil {
				e = string(x[1])
			}
		}
		entry, _ = filepath.Rel(c.P.Dir, filepath.Join(dir, e))
	}
	if entry == "" {
		panic(analysisError{"no sources of " + name})
	}
	return
}

// jsName is the name under which scripts import the embedded library.
func (c *Check) jsName(g *ssa.Global) string {
	for _, f := range g.Pkg.Members {
		fn, ok := f.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				k, ok := mu.Key.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				if u, ok := mu.Value.(*ssa.UnOp); ok && u.X == g {
					return constant.StringVal(k.Value)
				}
			}
		}
	}
	panic(analysisError{"the embedded library has no name"})
}

func c26(c *Check) {
	entry, bundle, name := c.jsFiles()
	lib := c.jsRead(entry, bundle)
	const step = "the bundle is in step with the sources of the library"
	c.ob("name", step, lib.Package == name, 0, "scripts import %s, the library is %s", name, lib.Package)
	c.inStep(step, lib)
	h := c.hosts()
	h.side = &lib.Source
	names := namesOf(lib.Source.Exports)
	for _, n := range names {
		x := lib.Source.Exports[n]
		switch x.Kind {
		case "func":
			h.function(n, nil, n, &x.jsFunc)
		case "class":
			for _, m := range namesOf(x.Methods) {
				h.function(n+"."+m, x, m, x.Methods[m])
			}
			for _, m := range namesOf(x.Statics) {
				h.function(n+"."+m, nil, m, x.Statics[m])
			}
			if x.Ctor != nil {
				h.calls(n, x, x.Ctor)
			}
		}
	}
	h.resources()
	c.count("exports", len(names), 8)
	c.Min["library functions"] = 40
	c.Min["host calls"] = 40
	c.Min["members of declared types"] = 80
	c.assume("the runtime finds methods and fields as goja documents: methods under their Go names, fields under the name in their tag, arguments converted by kind")
}

func namesOf[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (c *Check) jsRead(entry, bundle string) *jsLib {
	cmd := exec.Command("node", "-", c.P.Dir, entry, bundle)
	cmd.Stdin = bytes.NewReader(jsFacts)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		panic(analysisError{"the library could not be read: " + err.Error() + " " + trunc(errb.String(), 300)})
	}
	var lib jsLib
	if err := json.Unmarshal(out, &lib); err != nil {
		panic(analysisError{"the library could not be read: " + err.Error()})
	}
	return &lib
}

// ---- sources and bundle

func (f *jsFunc) what() string {
	type eff struct {
		G []jsTerm
		S string
		A jsTerm
		T jsTerm
	}
	var es []eff
	for _, x := range f.Effects {
		es = append(es, eff{x.Guards, x.Set, x.Assign, x.Term})
	}
	var rest []int
	for i, p := range f.Params {
		if p.Rest {
			rest = append(rest, i)
		}
	}
	b, _ := json.Marshal([]any{es, f.Returns, rest})
	return string(b)
}

func (c *Check) inStep(rule string, lib *jsLib) {
	for _, n := range namesOf(lib.Source.Exports) {
		s, b := lib.Source.Exports[n], lib.Bundle.Exports[n]
		if !c.ob("step/"+n, rule, b != nil && b.Kind == s.Kind, 0, "%s is not in the bundle", n) {
			continue
		}
		same := func(m string, x, y *jsFunc) {
			if x == nil {
				c.ob("step/"+n+"."+m, rule, y == nil || y.what() == "[null,null,null]", 0, "%s of %s is only in the bundle", m, n)
				return
			}
			if !c.ob("step/"+n+"."+m, rule, y != nil, 0, "%s of %s is not in the bundle", m, n) {
				return
			}
			c.Counts["functions compared with the bundle"]++
			c.ob("step/"+n+"."+m+"/same", rule, x.what() == y.what(), 0, "%s (%s) does\n    %s\n  in the sources and\n    %s\n  in the bundle", m, x.Line, trunc(x.what(), 500), trunc(y.what(), 500))
		}
		switch s.Kind {
		case "enum":
			c.ob("step/"+n+"/members", rule, reflect.DeepEqual(s.Members, b.Members), 0, "%v in the sources, %v in the bundle", s.Members, b.Members)
		case "func":
			same("", &s.jsFunc, &b.jsFunc)
		case "class":
			same("constructor", s.Ctor, b.Ctor)
			for _, m := range union(s.Methods, b.Methods) {
				if x := s.Methods[m]; x == nil || !x.Private {
					same(m, x, b.Methods[m])
				}
			}
			for _, m := range union(s.Statics, b.Statics) {
				if x := s.Statics[m]; x == nil || !x.Private {
					same(m, x, b.Statics[m])
				}
			}
		}
	}
	for _, n := range namesOf(lib.Bundle.Exports) {
		c.ob("step/"+n, rule, lib.Source.Exports[n] != nil, 0, "%s is only in the bundle", n)
	}
	c.Min["functions compared with the bundle"] = 40
}

func union[V any](a, b map[string]V) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return namesOf(m)
}

// ---- host objects

func (c *Check) hosts() *hosts {
	const rule = "the objects of the host are bound under the names that the library uses"
	h := &hosts{c: c, names: map[string]types.Type{}, memo: map[string]bool{}}
	var mapper, sets []*ssa.Call
	for _, f := range c.P.All {
		if !c.P.isRepo(fnPkg(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil {
					continue
				}
				switch fnName(call.Call.StaticCallee()) {
				case "(*github.com/dop251/goja.Runtime).Set", "(*github.com/dop251/goja.Object).Set":
					k, ok := call.Call.Args[1].(*ssa.Const)
					if !ok || k.Value == nil {
						panic(analysisError{"an object is bound under a name that is not constant at " + c.P.pos(in.Pos())})
					}
					n := constant.StringVal(k.Value)
					v := call.Call.Args[2]
					if x, ok := v.(*ssa.MakeInterface); ok {
						v = x.X
					}
					if t, ok := h.names[n]; ok && !types.Identical(t, v.Type()) {
						c.ob("bound/"+n, rule, false, in.Pos(), "%s is bound to different types", n)
					}
					h.names[n] = v.Type()
					sets = append(sets, call)
				case "(*github.com/dop251/goja.Runtime).SetFieldNameMapper":
					was := [2]any{h.tag, h.uncap}
					mapper = append(mapper, call)
					a := call.Call.Args[1]
					if x, ok := a.(*ssa.MakeInterface); ok {
						a = x.X
					}
					m, ok := a.(*ssa.Call)
					if !ok || m.Call.StaticCallee() == nil {
						panic(analysisError{"an unknown mapper of names at " + c.P.pos(in.Pos())})
					}
					switch fnName(m.Call.StaticCallee()) {
					case "github.com/dop251/goja.TagFieldNameMapper":
						t, ok1 := m.Call.Args[0].(*ssa.Const)
						u, ok2 := m.Call.Args[1].(*ssa.Const)
						if !ok1 || !ok2 {
							panic(analysisError{"an unknown mapper of names at " + c.P.pos(in.Pos())})
						}
						h.tag = constant.StringVal(t.Value)
						h.uncap = constant.BoolVal(u.Value)
					case "github.com/dop251/goja.UncapFieldNameMapper":
						h.tag, h.uncap = "", true
					default:
						panic(analysisError{"an unknown mapper of names at " + c.P.pos(in.Pos())})
					}
					c.ob("mapper", rule, len(mapper) == 1 || was == [2]any{h.tag, h.uncap}, in.Pos(), "names are mapped in different ways")
				}
			}
		}
	}
	// names are looked up with the mapper that was set when the object was bound
	for _, m := range mapper {
		for _, s := range sets {
			if s.Parent() != m.Parent() {
				continue
			}
			before := m.Block() == s.Block() && index(m) < index(s) || m.Block() != s.Block() && m.Block().Dominates(s.Block())
			c.ob("mapper/first", rule, before, s.Pos(), "an object is bound before names are mapped")
		}
	}
	c.count("host objects", len(h.names), 2)
	return h
}

func index(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// method finds what a script reaches under a name.
func (h *hosts) method(t types.Type, name string) *types.Func {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		n := f.Name()
		if h.uncap {
			n = strings.ToLower(n[:1]) + n[1:]
		}
		if n == name {
			return f
		}
	}
	return nil
}

var jsIdent = regexp.MustCompile(`^[A-Za-z_$][A-Za-z0-9_$]*$`)

func (h *hosts) field(t types.Type, name string) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			continue
		}
		n := f.Name()
		if h.tag != "" {
			n = reflect.StructTag(s.Tag(i)).Get(h.tag)
			n, _, _ = strings.Cut(n, ",")
			if !jsIdent.MatchString(n) {
				n = ""
			}
		} else if h.uncap {
			n = strings.ToLower(n[:1]) + n[1:]
		}
		if n == name && n != "" {
			return f
		}
		if f.Embedded() {
			if x := h.field(f.Type(), name); x != nil {
				return x
			}
		}
	}
	return nil
}

// typeOf is the Go type of a value that comes from the host.
func (h *hosts) typeOf(t jsTerm, cls *jsExport) types.Type {
	l, ok := t.([]any)
	if !ok || len(l) < 2 {
		return nil
	}
	switch l[0] {
	case "global":
		n, _ := l[1].(string)
		return h.names[n]
	case "prop":
		n, _ := l[2].(string)
		if x, ok := l[1].([]any); ok && len(x) == 1 && x[0] == "this" {
			if cls == nil || cls.Ctor == nil {
				return nil
			}
			for _, e := range cls.Ctor.Effects {
				if e.Set == n {
					return h.typeOf(e.Term, cls)
				}
			}
			return nil
		}
		o := h.typeOf(l[1], cls)
		if o == nil {
			return nil
		}
		if f := h.field(o, n); f != nil {
			return f.Type()
		}
		if m := h.method(o, n); m != nil {
			return m.Type()
		}
	case "call", "optcall":
		p, ok := l[1].([]any)
		if !ok || len(p) < 3 || p[0] != "prop" {
			return nil
		}
		o := h.typeOf(p[1], cls)
		if o == nil {
			return nil
		}
		n, _ := p[2].(string)
		if m := h.method(o, n); m != nil {
			rs := m.Type().(*types.Signature).Results()
			if rs.Len() > 0 && !types.Identical(rs.At(0).Type(), errorType) {
				return rs.At(0).Type()
			}
		}
	}
	return nil
}

func (h *hosts) function(id string, cls *jsExport, name string, f *jsFunc) {
	c := h.c
	c.Counts["library functions"]++
	n := h.calls(id, cls, f)
	const own = "a function of the library reaches the function of the host that it names"
	if f.Private {
		return
	}
	c.ob(id+"/reaches", own, n > 0, 0, "%s (%s) calls nothing of the host", id, f.Line)
	// the function of the host with the same name
	objs := map[string]types.Type{}
	if cls != nil && cls.Ctor != nil {
		for _, e := range cls.Ctor.Effects {
			if e.Set != "" {
				if t := h.typeOf(e.Term, cls); t != nil {
					objs[js([]any{"prop", []any{"this"}, e.Set})] = t
				}
			}
		}
	} else {
		for n, t := range h.names {
			objs[js([]any{"global", n})] = t
		}
	}
	for o, t := range objs {
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj().(*types.Func)
			if !m.Exported() || !strings.EqualFold(m.Name(), name) {
				continue
			}
			c.Counts["functions with a host function of the same name"]++
			found := false
			for _, e := range f.Effects {
				l, ok := e.Term.([]any)
				if !ok || len(l) < 2 || l[0] != "call" || len(e.Guards) > 0 {
					continue
				}
				p, ok := l[1].([]any)
				if !ok || p[0] != "prop" || js(p[1]) != o || h.method(t, fmt.Sprint(p[2])) != m {
					continue
				}
				ok = len(l)-2 == len(f.Params)
				for i := 0; ok && i < len(f.Params); i++ {
					ok = passes(l[2+i], i)
				}
				found = found || ok
			}
			c.ob(id+"/own", own, found, m.Pos(), "%s (%s) does not pass what it is given to %s", id, f.Line, m.Name())
		}
	}
	// queries return the data of their kind
	if cls != nil && cls.Ctor != nil {
		kind := ""
		for _, e := range cls.Ctor.Effects {
			if l, ok := e.Term.([]any); ok && e.Set != "" && l[0] == "call" && len(l) == 3 {
				if k, ok := l[2].([]any); ok && k[0] == "const" {
					kind, _ = k[1].(string)
				}
			}
		}
		for _, r := range f.Returns {
			l, ok := r.Term.([]any)
			if !ok || l[0] != "call" || kind == "" {
				continue
			}
			p, ok := l[1].([]any)
			if !ok || p[0] != "prop" {
				continue
			}
			if n, _ := p[2].(string); strings.HasPrefix(n, "Get") && h.typeOf(p[1], cls) != nil {
				c.Counts["queries"]++
				c.ob(id+"/kind", "a query returns data of the kind it asks for", strings.EqualFold(n, "Get"+kind), 0, "%s (%s) asks for %s and returns %s", id, f.Line, kind, n)
			}
		}
	}
}

func js(t jsTerm) string {
	b, _ := json.Marshal(t)
	return string(b)
}

// passes: the argument is the i-th parameter.
func passes(t jsTerm, i int) bool {
	l, ok := t.([]any)
	if !ok || len(l) < 2 {
		return false
	}
	switch l[0] {
	case "param":
		f, ok := l[1].(float64)
		return ok && int(f) == i
	case "spread", "default":
		return passes(l[1], i)
	case "call":
		p, ok := l[1].([]any)
		return ok && len(l) == 2 && p[0] == "prop" && (p[2] == "getTime" || p[2] == "valueOf") && passes(p[1], i)
	}
	return false
}

// calls checks every call on an object of the host.
func (h *hosts) calls(id string, cls *jsExport, f *jsFunc) int {
	c := h.c
	const rule = "functions that the library calls exist on the objects of the host, and take what they are given"
	n := 0
	seen := map[string]bool{}
	for _, e := range f.Effects {
		l, ok := e.Term.([]any)
		if !ok || len(l) < 2 || l[0] != "call" && l[0] != "optcall" {
			continue
		}
		p, ok := l[1].([]any)
		if !ok || len(p) < 3 || p[0] != "prop" {
			if ok && p[0] == "global" {
				c.ob(id+"/global", rule, jsGlobals[fmt.Sprint(p[1])] || h.names[fmt.Sprint(p[1])] != nil, 0, "%s at %s is not bound", p[1], e.Line)
			}
			continue
		}
		if g, ok := p[1].([]any); ok && g[0] == "global" {
			gn := fmt.Sprint(g[1])
			c.ob(id+"/global", rule, jsGlobals[gn] || h.names[gn] != nil, 0, "%s at %s is not bound by the host", gn, e.Line)
		}
		o := h.typeOf(p[1], cls)
		if o == nil {
			// a value of the library itself, unless it hangs on the host
			c.ob(id+"/lost", rule, !h.onHost(p[1], cls), 0, "%s at %s is called on something the host does not have", p[2], e.Line)
			continue
		}
		name, _ := p[2].(string)
		key := id + "/" + name
		n++
		if seen[js(e.Term)] {
			continue
		}
		seen[js(e.Term)] = true
		c.Counts["host calls"]++
		m := h.method(o, name)
		if !c.ob(key, rule, m != nil, 0, "%s at %s: %s has no method of that name", name, e.Line, types.TypeString(o, shortPkg)) {
			continue
		}
		sig := m.Type().(*types.Signature)
		args := l[2:]
		spread := false
		for _, a := range args {
			if x, ok := a.([]any); ok && x[0] == "spread" {
				spread = true
			}
		}
		want := sig.Params().Len()
		okN := len(args) == want
		if sig.Variadic() {
			okN = len(args) >= want-1
		} else if spread {
			okN = false
		}
		c.ob(key+"/arity", rule, okN, m.Pos(), "%s is called with %d arguments at %s and has %d parameters", name, len(args), e.Line, want)
		for i, a := range args {
			j := i
			if sig.Variadic() && j >= want-1 {
				j = want - 1
			}
			if j >= want {
				break
			}
			pt := sig.Params().At(j).Type()
			if sig.Variadic() && j == want-1 {
				pt = pt.(*types.Slice).Elem()
			}
			why := h.argument(a, pt, cls, f)
			c.ob(fmt.Sprintf("%s/arg%d", key, i), rule, why == "", m.Pos(), "argument %d of %s at %s: %s", i+1, name, e.Line, why)
		}
	}
	for _, cast := range f.Casts {
		if len(cast) != 2 {
			continue
		}
		if g := h.typeOf(cast[1], cls); g != nil {
			t, _ := cast[0].([]any)
			why := h.stands(t, g)
			c.ob(id+"/declared", "declared types have members that the data has", why == "", 0, "%s (%s): %s", id, f.Line, why)
		}
	}
	return n
}

var jsGlobals = map[string]bool{
	"Object": true, "Array": true, "String": true, "Number": true, "Boolean": true, "Math": true, "JSON": true, "Date": true, "Error": true, "TypeError": true,
	"Map": true, "Set": true, "Symbol": true, "Promise": true, "parseInt": true, "parseFloat": true, "isNaN": true, "isFinite": true, "BigInt": true, "Uint8Array": true,
}

// onHost: the value would have come from an object of the host.
func (h *hosts) onHost(t jsTerm, cls *jsExport) bool {
	l, ok := t.([]any)
	if !ok || len(l) < 2 {
		return false
	}
	switch l[0] {
	case "call", "optcall":
		p, ok := l[1].([]any)
		return ok && len(p) > 1 && (h.typeOf(p[1], cls) != nil || h.onHost(p[1], cls))
	case "prop", "optional":
		if x, ok := l[1].([]any); ok && len(x) == 1 && x[0] == "this" {
			return true
		}
		return h.typeOf(l[1], cls) != nil || h.onHost(l[1], cls)
	}
	return false
}

// argument tells why an argument can't be given to a parameter of the host.
func (h *hosts) argument(a jsTerm, pt types.Type, cls *jsExport, f *jsFunc) string {
	if g := h.typeOf(a, cls); g != nil {
		if types.AssignableTo(g, pt) {
			return ""
		}
		return fmt.Sprintf("%s is not a %s", types.TypeString(g, shortPkg), types.TypeString(pt, shortPkg))
	}
	l, ok := a.([]any)
	if !ok || len(l) == 0 {
		return ""
	}
	switch l[0] {
	case "undef":
		return ""
	case "const":
		switch l[1].(type) {
		case string:
			return h.accepts([]any{"string"}, pt)
		case float64:
			return h.accepts([]any{"number"}, pt)
		case bool:
			return h.accepts([]any{"boolean"}, pt)
		}
	case "param":
		i, _ := l[1].(float64)
		if int(i) < len(f.Params) {
			return h.accepts(f.Params[int(i)].Type, pt)
		}
	case "default":
		if w := h.argument(l[1], pt, cls, f); w != "" {
			return w
		}
		return h.argument(l[2], pt, cls, f)
	case "spread":
		if x, ok := l[1].([]any); ok && x[0] == "param" {
			i, _ := x[1].(float64)
			t := f.Params[int(i)].Type
			if len(t) == 2 && t[0] == "array" {
				e, _ := t[1].([]any)
				return h.accepts(e, pt)
			}
		}
	case "call":
		p, ok := l[1].([]any)
		if !ok || p[0] != "prop" {
			return ""
		}
		switch p[2] {
		case "getTime", "valueOf", "length":
			return h.accepts([]any{"number"}, pt)
		case "toString", "toISOString", "toLowerCase", "toUpperCase", "trim":
			return h.accepts([]any{"string"}, pt)
		}
	case "cond":
		if len(l) == 4 {
			if w := h.argument(l[2], pt, cls, f); w != "" {
				return w
			}
			return h.argument(l[3], pt, cls, f)
		}
	}
	return ""
}

func shortPkg(p *types.Package) string { return p.Name() }

func basic(t types.Type) types.BasicInfo {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()
	}
	return 0
}

// accepts tells why a value of the script's type can't become a g.
func (h *hosts) accepts(t []any, g types.Type) string {
	no := fmt.Sprintf("%s is given for %s", js(t), types.TypeString(g, shortPkg))
	if it, ok := g.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
		return ""
	}
	if len(t) == 0 {
		return ""
	}
	switch t[0] {
	case "any", "other", "union":
		return ""
	case "string":
		if basic(g)&types.IsString != 0 {
			return ""
		}
	case "number":
		if basic(g)&(types.IsInteger|types.IsFloat) != 0 {
			return ""
		}
	case "boolean":
		if basic(g)&types.IsBoolean != 0 {
			return ""
		}
	case "enum":
		n, _ := t[1].(string)
		for _, v := range h.side.Enums[n] {
			k := "number"
			if _, ok := v.(string); ok {
				k = "string"
			}
			if w := h.accepts([]any{k}, g); w != "" {
				return w
			}
		}
		return ""
	case "bytes":
		if s, ok := g.Underlying().(*types.Slice); ok && basic(s.Elem())&types.IsInteger != 0 {
			return ""
		}
	case "array":
		if s, ok := g.Underlying().(*types.Slice); ok {
			e, _ := t[1].([]any)
			return h.accepts(e, s.Elem())
		}
	case "date":
		if types.TypeString(g, nil) == "time.Time" {
			return ""
		}
	case "ref", "object":
		return h.stands(t, g)
	}
	return no
}

// stands tells why a declared type does not describe g.
func (h *hosts) stands(t []any, g types.Type) string {
	if len(t) == 0 {
		return ""
	}
	no := fmt.Sprintf("%s is declared for %s", js(t), types.TypeString(g, shortPkg))
	var ms []jsMember
	who := "the object"
	switch t[0] {
	case "any", "other", "union":
		return ""
	case "string":
		if basic(g)&types.IsString == 0 {
			return no
		}
		return ""
	case "number":
		if basic(g)&(types.IsInteger|types.IsFloat) == 0 {
			return no
		}
		return ""
	case "boolean":
		if basic(g)&types.IsBoolean == 0 {
			return no
		}
		return ""
	case "bytes":
		if s, ok := g.Underlying().(*types.Slice); ok && basic(s.Elem())&types.IsInteger != 0 {
			return ""
		}
		return no
	case "array":
		if s, ok := g.Underlying().(*types.Slice); ok {
			e, _ := t[1].([]any)
			return h.stands(e, s.Elem())
		}
		return no
	case "enum":
		n, _ := t[1].(string)
		return h.enum(n, g)
	case "ref":
		who, _ = t[1].(string)
		ms = h.side.Interfaces[who]
	case "object":
		b, _ := json.Marshal(t[1])
		if json.Unmarshal(b, &ms) != nil {
			return no
		}
	default:
		return no
	}
	u := g
	if p, ok := u.Underlying().(*types.Pointer); ok {
		u = p.Elem()
	}
	if _, ok := u.Underlying().(*types.Struct); !ok {
		if it, ok := u.Underlying().(*types.Interface); !ok || it.NumMethods() == 0 {
			return no
		}
	}
	key := js(t) + "|" + types.TypeString(g, nil)
	if h.memo[key] {
		return ""
	}
	h.memo[key] = true
	why := ""
	for _, m := range ms {
		h.c.Counts["members of declared types"]++
		w := ""
		if m.Method {
			f := h.method(g, m.Name)
			if f == nil {
				w = "there is no such function"
			} else {
				sig := f.Type().(*types.Signature)
				if len(m.Params) != sig.Params().Len() {
					w = "it has other parameters"
				}
				if sig.Results().Len() > 0 && w == "" {
					w = h.stands(m.Type, sig.Results().At(0).Type())
				}
			}
		} else if f := h.field(g, m.Name); f != nil {
			w = h.stands(m.Type, f.Type())
		} else {
			w = "there is no such field"
		}
		h.c.ob("type/"+who+"."+m.Name, "declared types have members that the data has", w == "", 0, "%s.%s (%s:%d) of %s: %s", who, m.Name, m.File, m.Line, types.TypeString(g, shortPkg), w)
	}
	return why
}

// enum: constants have the values of the Go type.
func (h *hosts) enum(n string, g types.Type) string {
	if basic(g)&(types.IsInteger|types.IsString) == 0 {
		return fmt.Sprintf("%s is declared for %s", n, types.TypeString(g, shortPkg))
	}
	nt, ok := g.(*types.Named)
	if !ok || nt.Obj().Pkg() == nil {
		return ""
	}
	sc := nt.Obj().Pkg().Scope()
	for _, m := range namesOf(h.side.Enums[n]) {
		v := h.side.Enums[n][m]
		found, same := false, false
		for _, k := range sc.Names() {
			o, ok := sc.Lookup(k).(*types.Const)
			if !ok || !types.Identical(o.Type(), g) || k != m && !strings.HasSuffix(k, "_"+m) {
				continue
			}
			found = true
			if f, ok := v.(float64); ok {
				if x, ok := constant.Int64Val(constant.ToInt(o.Val())); ok && float64(x) == f {
					same = true
				}
			}
		}
		h.c.Counts["constants"]++
		h.c.ob("constant/"+n+"."+m, "constants of the library have the values of the host", found && same, 0, "%s.%s is %v", n, m, v)
	}
	return ""
}

// resources: kinds that the library names are kinds that the host knows.
func (h *hosts) resources() {
	c := h.c
	for _, n := range namesOf(h.side.Exports) {
		x := h.side.Exports[n]
		if x.Kind != "class" || x.Ctor == nil {
			continue
		}
		for _, e := range x.Ctor.Effects {
			l, ok := e.Term.([]any)
			if !ok || len(l) != 3 || l[0] != "call" {
				continue
			}
			p, ok := l[1].([]any)
			if !ok || p[0] != "prop" {
				continue
			}
			o := h.typeOf(p[1], x)
			k, ok := l[2].([]any)
			if o == nil || !ok || k[0] != "const" || e.Set == "" {
				continue
			}
			v, _ := k[1].(string)
			m := h.method(o, fmt.Sprint(p[2]))
			if m == nil {
				continue
			}
			c.Counts["kinds"]++
			c.ob("kind/"+n, "kinds that the library asks for are known to the host", c.compares(c.P.Prog.FuncValue(m), v, map[*ssa.Function]bool{}), m.Pos(), "%s asks for %q", n, v)
		}
	}
	c.Min["kinds"] = 3
}

// compares: f, or what it calls, tells the text from others.
func (c *Check) compares(f *ssa.Function, s string, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] || !c.P.isRepo(fnPkg(f)) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == s {
					return true
				}
				if g, ok := (*op).(*ssa.Global); ok && c.inTable(g, s) {
					return true
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok && c.compares(ci.Common().StaticCallee(), s, seen) {
				return true
			}
		}
	}
	return false
}

// inTable: s is a key of the map that a package variable starts with.
func (c *Check) inTable(g *ssa.Global, s string) bool {
	fn := g.Pkg.Func("init")
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != g {
				continue
			}
			if refs := st.Val.Referrers(); refs != nil {
				for _, r := range *refs {
					if mu, ok := r.(*ssa.MapUpdate); ok {
						if k, ok := mu.Key.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == s {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
