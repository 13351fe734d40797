package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initState is the abstract state after the initialisation of package rel: what its variables and
// the objects they refer to hold when the first function is called.
func (c *C) initState(rel string) *State {
	if s, ok := c.inits[rel]; ok {
		return s
	}
	sp := c.P.SSAPkg(rel)
	if !c.Anchor("package "+rel, sp != nil) {
		return NewState()
	}
	fn := sp.Func("init")
	h := &Hooks{Forward: true, MaxDepth: 6}
	h.Opaque = func(f *ssa.Function, n string) bool {
		return f.Pkg != sp && f.Pkg != nil || f.Name() == "init" && f.Pkg != sp
	}
	h.Decide = func(x *Exec, st *State, a *Term) (bool, bool) {
		if strings.Contains(a.String(), "init$guard") {
			return false, true
		}
		return false, false
	}
	x := NewExec(c.P, c.T, h)
	x.Globals = map[*Term]*Term{}
	for n, m := range sp.Members {
		if g, ok := m.(*ssa.Global); ok {
			x.Globals[c.T.mk(OpGlobal, sp.Pkg.Name()+"."+n, 0, g, g.Type())] = c.T.Zero(deref(g.Type()))
		}
	}
	outs := x.Run(fn, nil, NewState())
	var st *State
	for _, o := range outs {
		if o.panic {
			continue
		}
		if st == nil || len(o.st.mem) > len(st.mem) {
			st = o.st
		}
	}
	if !c.Anchor("initialisation of package "+rel, st != nil) {
		return NewState()
	}
	st = st.clone()
	st.frames, st.trace = nil, nil
	st.hist, st.old, st.aux = map[*Term]*Term{}, map[*Term]bool{}, map[string]string{}
	if c.inits == nil {
		c.inits = map[string]*State{}
	}
	c.inits[rel] = st
	return st
}

// global is the value of a package variable of the state.
func (c *C) global(x *Exec, st *State, rel, name string) *Term {
	sp := c.P.SSAPkg(rel)
	g, ok := sp.Members[name].(*ssa.Global)
	if !c.Anchor("variable "+name, ok) {
		return c.T.Nil()
	}
	return x.load(st, c.T.mk(OpGlobal, sp.Pkg.Name()+"."+name, 0, g, g.Type()))
}
