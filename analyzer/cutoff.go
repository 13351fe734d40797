package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// cutoff justifies the enumeration of small shapes: the functions reachable from fns must not
// compare sizes or counters with constants above max, since then larger inputs could behave
// differently from all enumerated ones.
func (c *C) cutoff(key string, fns []*ssa.Function, max int64, stop func(n string) bool) {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || !c.P.IsRepo(f) || stop != nil && stop(c.P.fnName(f)) {
			return
		}
		seen[f] = true
		bad := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				switch bo.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.REM:
				default:
					continue
				}
				for _, v := range []ssa.Value{bo.X, bo.Y} {
					k, ok := v.(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
						continue
					}
					if bt, ok := k.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Int {
						continue
					}
					if i, ok := constant.Int64Val(k.Value); !ok || i > max {
						bad = true
						c.Ob("cutoff:"+key+":"+c.P.fnName(f), bo.Pos(), false, "%s depends on whether a number exceeds %v: inputs of that size are treated differently from smaller ones", c.P.fnName(f), k.Value)
					}
				}
			}
		}
		if !bad {
			c.Ob("cutoff:"+key+":"+c.P.fnName(f), f.Pos(), true, "")
		}
		for _, g := range repoCallees(c.P, f) {
			visit(g)
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, f := range fns {
		visit(f)
	}
}
