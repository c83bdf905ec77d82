package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: rqstatic check ID TIER | dump FUNC")
		os.Exit(1)
	}
	switch os.Args[1] {
	case "dump":
		dump(os.Args[2:])
	case "check":
		if len(os.Args) < 4 {
			fmt.Println("usage: rqstatic check ID… TIER")
			os.Exit(1)
		}
		p, err := loadProgram(repoDir())
		code := 0
		ids := os.Args[2 : len(os.Args)-1]
		if len(ids) == 1 && ids[0] == "all" {
			ids = nil
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		for _, id := range ids {
			if runCheck(p, err, id, os.Args[len(os.Args)-1]) != 0 {
				code = 1
				if os.Getenv("RQ_FIRST") != "" {
					break
				}
			}
		}
		os.Exit(code)
	}
}

func repoDir() string {
	if d := os.Getenv("RQ_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func dump(args []string) {
	p, err := loadProgram(repoDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fn, err := p.fn(args[0])
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	e := newEngine(p)
	if o := os.Getenv("RQ_OPAQUE"); o != "" {
		e.Opaque = func(f *ssa.Function) bool {
			for _, x := range strings.Split(o, ",") {
				if strings.HasSuffix(fnName(f), x) {
					return true
				}
			}
			return false
		}
	}
	e.Panics = os.Getenv("RQ_PANICS") != ""
	r := e.run(fn, nil)
	kinds := map[string]bool{}
	for _, k := range args[1:] {
		kinds[k] = true
	}
	for _, f := range e.effects {
		if len(kinds) > 0 && !kinds[f.Kind] || len(kinds) == 0 && (f.Kind == "store" || f.Kind == "enter" || f.Kind == "deref") {
			continue
		}
		fmt.Printf("%-8s %s", f.Kind, shortName(f.Callee))
		for _, a := range f.Args {
			fmt.Printf("  | %s", e.Str(a))
		}
		fmt.Printf("\n      if %s", e.CondStr(f.Cond))
		for _, l := range f.Loops {
			fmt.Printf("  loop(%s %s)", l.Kind, e.loopStr(l))
		}
		fmt.Printf("  %s\n", p.pos(f.Pos))
	}
	fmt.Println("returns", e.Str(r.Val))
	for _, a := range e.alts(r.Val, bT) {
		fmt.Println("   when", e.CondStr(a.C), "->", e.Str(a.T))
	}
	for n, pos := range e.notes {
		fmt.Println("note", n, p.pos(pos))
	}
	fmt.Println("atoms", len(e.atoms), "terms", len(e.all), "bdd", len(e.bdd.nodes), "steps", e.steps)
}
