package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Cone describes what a rule is about: fields, functions and globals. Repository functions that
// transitively mention none of them are outside the cone and need not be explored; branch facts
// that mention none of them need not be tracked.
type Cone struct {
	P      *Program
	Fields map[*types.Var]bool
	Calls  map[string]bool
	memo   map[*ssa.Function]bool
	fmemo  map[*Term]bool
}

func (c *C) NewCone(fields []*types.Var, calls ...string) *Cone {
	k := &Cone{P: c.P, Fields: map[*types.Var]bool{}, Calls: map[string]bool{}, memo: map[*ssa.Function]bool{}, fmemo: map[*Term]bool{}}
	for _, f := range fields {
		if f != nil {
			k.Fields[f.Origin()] = true
		}
	}
	for _, n := range calls {
		k.Calls[n] = true
	}
	return k
}

// direct reports whether the body of f itself mentions the cone.
func (k *Cone) direct(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				s := structOf(in.X.Type())
				if s != nil && k.Fields[s.Field(in.Field).Origin()] {
					return true
				}
			case *ssa.Field:
				s := structOf(in.X.Type())
				if s != nil && k.Fields[s.Field(in.Field).Origin()] {
					return true
				}
			case ssa.CallInstruction:
				cc := in.Common()
				if c := cc.StaticCallee(); c != nil && k.Calls[k.P.fnName(c)] {
					return true
				}
				if cc.IsInvoke() && k.Calls[k.P.objName(cc.Method)] {
					return true
				}
			}
		}
	}
	return false
}

// In reports whether f, or a repository function it reaches, mentions the cone or calls a
// function value it was given.
func (k *Cone) In(f *ssa.Function) bool {
	if v, ok := k.memo[f]; ok {
		return v
	}
	k.memo[f] = false
	r := k.Calls[k.P.fnName(f)] || k.direct(f)
	if !r {
		for _, g := range repoCallees(k.P, f) {
			if k.In(g) {
				r = true
				break
			}
		}
	}
	if !r {
		r = dynCalls(f)
	}
	if r {
		k.memo[f] = true
	} else {
		delete(k.memo, f)
		// recompute lazily: a cycle may have cut the search short
		k.memo[f] = k.reach(f, map[*ssa.Function]bool{})
	}
	return k.memo[f]
}

func (k *Cone) reach(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	if k.Calls[k.P.fnName(f)] || k.direct(f) || dynCalls(f) {
		return true
	}
	for _, g := range repoCallees(k.P, f) {
		if k.reach(g, seen) {
			return true
		}
	}
	return false
}

func dynCalls(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				cc := ci.Common()
				if cc.IsInvoke() || cc.StaticCallee() != nil {
					continue
				}
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				if _, ok := cc.Value.(*ssa.MakeClosure); ok {
					continue
				}
				return true
			}
		}
	}
	return false
}

// repoCallees lists repository functions f calls or makes closures of.
func repoCallees(P *Program, f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if s := ci.Common().StaticCallee(); s != nil && P.IsRepo(s) {
					out = append(out, s)
				}
			}
			var rands []*ssa.Value
			for _, o := range in.Operands(rands) {
				if g, ok := (*o).(*ssa.Function); ok && P.IsRepo(g) {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

// Fact reports whether a branch fact mentions the cone.
func (k *Cone) Fact(t *Term) bool {
	if v, ok := k.fmemo[t]; ok {
		return v
	}
	hit := false
	t.walk(func(u *Term) bool {
		switch u.op {
		case OpSel:
			if v, ok := u.obj.(*types.Var); ok && k.Fields[v] {
				hit = true
			}
		case OpCall:
			if k.Calls[u.str] {
				hit = true
			}
		}
		return !hit
	})
	k.fmemo[t] = hit
	return hit
}
