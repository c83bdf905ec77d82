package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Sorting permutes in place: what a list holds does not change. The effect "sort"
// has the sorted object, its length for sort.Sort, the symbolic positions (or
// elements) that are compared, and the result of comparing them.
func init() {
	arg := func(fr *frame, in ssa.Instruction, n string, t types.Type) *Term {
		return fr.e.mkT(t, OCbArg, n+"@"+fr.siteKey(in))
	}
	reg("sort.Sort sort.Stable", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		obj := args[0]
		if obj.Op != OIface {
			fr.emit("sort", name, args, nil, in)
			return e.mk(OTuple, ""), st
		}
		i, j := arg(fr, in, "i", types.Typ[types.Int]), arg(fr, in, "j", types.Typ[types.Int])
		call := func(m string, as ...*Term) (*Term, []*Effect) {
			sel := types.NewMethodSet(obj.Typ).Lookup(nil, m)
			if sel == nil {
				return nil, nil
			}
			f := e.P.Prog.MethodValue(sel)
			if f == nil {
				return nil, nil
			}
			from := len(e.effects)
			r, _ := fr.callFn(f, append([]*Term{obj.Args[0]}, as...), nil, in, st.clone())
			es := append([]*Effect(nil), e.effects[from:]...)
			e.effects = e.effects[:from]
			return r, es
		}
		less, _ := call("Less", i, j)
		n, _ := call("Len")
		_, sw := call("Swap", i, j)
		out := []*Term{obj.Args[0], i, j, n}
		for _, f := range sw {
			if f.Kind == "store" {
				out = append(out, f.Args[0], f.Args[1])
			}
		}
		fr.emit("sort", name, out, less, in)
		return e.mk(OTuple, ""), st
	})
	cmp := func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		e := fr.e
		if len(args) < 2 {
			fr.emit("sort", name, args, nil, in)
			return e.mk(OTuple, ""), st
		}
		list := args[0]
		if list.Op == OIface {
			list = list.Args[0]
		}
		var as []*Term
		if f := args[1].Fn; f != nil {
			for k, p := range f.Params {
				if k < 2 {
					as = append(as, arg(fr, in, fmt.Sprintf("c%d", k), p.Type()))
				}
			}
		}
		if len(as) != 2 {
			fr.emit("sort", name, args, nil, in)
			return e.mk(OTuple, ""), st
		}
		from := len(e.effects)
		r, _ := fr.apply(args[1], as, in, st.clone(), nil)
		e.effects = e.effects[:from]
		fr.emit("sort", name, []*Term{list, as[0], as[1]}, r, in)
		return e.mk(OTuple, ""), st
	}
	reg("sort.Slice sort.SliceStable slices.SortFunc slices.SortStableFunc", cmp)
	reg("slices.Sort sort.Ints sort.Strings", func(fr *frame, name string, args []*Term, in ssa.Instruction, st *State) (*Term, *State) {
		fr.emit("sort", name, args, nil, in)
		return fr.e.mk(OTuple, ""), st
	})
}
