package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Result of analysing one entry point.
type Result struct {
	E    *Engine
	Fn   *ssa.Function
	Args []*Term
	Val  *Term
	St   *State
	Cond B
}

// run analyses fn with unknown inputs.
func (e *Engine) run(fn *ssa.Function, args []*Term) *Result {
	for i, p := range fn.Params {
		if i < len(args) {
			continue
		}
		args = append(args, e.mkT(p.Type(), OParam, p.Name()))
	}
	e.cur = bT
	cx := &Ctx{id: e.ctxID(nil, nil, fn.String()), fn: fn}
	v, st := e.evalFn(fn, args, nil, newState(), cx)
	return &Result{E: e, Fn: fn, Args: args, Val: v, St: st, Cond: e.cur}
}

func (e *Engine) loopStr(l *Loop) string {
	if l.Over == nil {
		return ""
	}
	return e.Str(l.Over)
}

var errorType = types.Universe.Lookup("error").Type()
