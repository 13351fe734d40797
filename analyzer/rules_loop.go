package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C05", Title: "Every authority hint is followed, without loops, up to the anchors", Min: 10,
		Technique: "property simulation of the recursive step, forward and converse",
		Rule:      "abstract interpretation of the recursive step on an arbitrary node: a superior is added only on paths that establish that its id is not among the ids below and that the current entity is no configured anchor; the ids below a new node are those below plus the authority; the recursion passes on the node and the same anchors; every iteration over the hints whose fetches and checks succeed adds the superior, and the step returns early only for an empty node or an anchor",
		Assume:    []string{"strset has set semantics"},
		Run:       runLoopRule,
	})
}

func runLoopRule(c *C) {
	m := newTreeModel(c)
	if m == nil {
		return
	}
	T := c.T
	ta := c.P.Named("", "TrustAnchor")
	idF := c.Field(ta, "EntityID")
	for _, fn := range m.stepFns() {
		name := c.P.fnName(fn)
		af, ok := m.accRoles(fn, false)
		if !ok || !c.Anchor("set of ids below in the tree node", af.ids != nil) {
			return
		}
		cone := c.NewCone([]*types.Var{af.ids, idF, c.Field(m.stmt, "AuthorityHints"), c.Field(m.stmt, "Issuer"), c.Field(m.stmt, "Subject")}, "oidfed.TrustAnchors.EntityIDs")
		r := m.runStep(fn, cone, &Hooks{Memoryless: m.overHints(fn)})
		c.Done(r.x, "step")
		c.Anchor("a node for an authority is added to the tree in "+name, len(r.accepts) > 0)
		te := T.SelVar(r.t, m.entity)
		b := T.BoundN(1)
		notAnchor := func(st *State) bool {
			for _, id := range []*Term{c.Sel(te, m.stmt, "Issuer"), c.Sel(te, m.stmt, "Subject")} {
				if r.anchors != nil && (r.x.Proves(st, T.Exists(r.anchors, T.Eq(T.SelVar(T.Elem(r.anchors, b), idF), id)), false) || r.x.Proves(st, T.Empty(r.anchors), true)) {
					return true
				}
			}
			return false
		}
		for _, a := range r.accepts {
			c.Paths++
			x, st, p := r.x, a.st, a.in.Pos()
			set := x.deref(st, T.SelVar(r.t, af.ids))
			loopFree := false
			for id := range x.eqClass(st, c.Sel(a.ent, m.stmt, "Issuer")) {
				if x.Proves(st, T.Has(set, id), false) {
					loopFree = true
				}
			}
			for id := range x.eqClass(st, c.Sel(a.ent, m.stmt, "Subject")) {
				if x.Proves(st, T.Has(set, id), false) {
					loopFree = true
				}
			}
			c.Ob("loop:new-id:"+name, p, loopFree, "a superior is added although it is not known to be absent from the path below it%s", c.Path(st))
			c.Ob("stop:anchor:"+name, p, notAnchor(st), "a superior is added although the current entity is not known to be no trust anchor%s", c.Path(st))
			ids := x.deref(st, T.SelVar(a.val, af.ids))
			c.Ob("loop:ids-below:"+name, p, m.extends(x, st, ids, x.deref(st, T.SelVar(r.t, af.ids)), func(e *Term) bool {
				return x.Same(st, e, c.Sel(a.ent, m.stmt, "Issuer")) || x.Same(st, e, c.Sel(a.ent, m.stmt, "Subject")) || m.hintOf(x, st, r, e) != nil
			}), "the ids below the new node are not those below plus the authority: %v", ids)
			c.Ob("loop:fresh-set:"+name, p, T.SelVar(a.val, af.ids) != T.SelVar(r.t, af.ids), "the new node shares its id set with the node below: siblings hide each other")
		}
		for _, o := range r.outs {
			if o.panic {
				continue
			}
			k := T.mk(OpSel, "", 0, af.ids, af.ids.Type(), r.t)
			v := r.x.deref(o.st, T.SelVar(r.t, af.ids))
			c.Ob("loop:unchanged:"+name, fn.Pos(), v == k || v == T.SelVar(r.t, af.ids), "the id set of the current node is changed while its superiors are processed: %v", v)
		}
		c.Ob("recursion:"+name, fn.Pos(), len(r.recs) > 0, "the step never continues with a superior")
		for _, a := range r.recs {
			for i, p := range fn.Params {
				if m.anchors != nil && types.Identical(p.Type(), m.anchors) {
					c.Ob("recursion:anchors:"+name, a.in.Pos(), a.args[i] == r.anchors, "the recursion continues with other anchors: %v", a.args[i])
				}
			}
		}
		// converse: every hint is processed, and added when all its checks succeed
		hints := c.Sel(te, m.stmt, "AuthorityHints")
		early, skipped, covered := "", "", false
		h := &Hooks{Memoryless: m.overHints(fn)}
		h.Decide = m.favour(te, nil)
		h.OnBranch = func(x *Exec, st *State, in *ssa.If, atom *Term, val bool) {
			a, pol := stripNot(atom)
			if a.op != OpLt || a.args[1].op != OpLen || a.args[1].args[0] != hints || a.args[0].op != OpSym {
				return
			}
			covered = true
			if st.aux["hint"] == "open" && skipped == "" {
				skipped = c.Path(st)
			}
			delete(st.aux, "hint")
			if val == pol {
				st.aux["hint"] = "open"
			}
		}
		h.OnAccept = func(st *State) {
			if st.aux["hint"] == "open" {
				st.aux["hint"] = "used"
			}
		}
		c2 := c.NewCone([]*types.Var{af.ids, idF, c.Field(m.stmt, "AuthorityHints"), c.Field(m.stmt, "Issuer"), c.Field(m.stmt, "Subject")}, "oidfed.TrustAnchors.EntityIDs", "oidfed.GetEntityConfiguration", "oidfed.FetchEntityStatement", "unixtime.VerifyTime")
		rf := m.runStep(fn, c2, h)
		c.Done(rf.x, "step, all checks succeeding")
		c.Ob("follow:adds:"+name, fn.Pos(), len(rf.accepts) > 0, "a superior whose statements pass every check is never added")
		c.Ob("follow:all-hints:"+name, fn.Pos(), covered, "the step does not iterate over all authority hints of the entity")
		c.Ob("follow:every-hint:"+name, fn.Pos(), skipped == "", "an authority hint is skipped although the superior's statements pass every check%s", skipped)
		for _, o := range rf.outs {
			if !o.panic && o.st.aux["hint"] != "" {
				early = c.Path(o.st)
			}
		}
		// no early exit, whatever fails
		h3 := &Hooks{Memoryless: m.overHints(fn), OnBranch: func(x *Exec, st *State, in *ssa.If, atom *Term, val bool) {
			a, pol := stripNot(atom)
			if a.op != OpLt || a.args[1].op != OpLen || a.args[1].args[0] != hints {
				return
			}
			delete(st.aux, "hint")
			if val == pol {
				st.aux["hint"] = "open"
			}
		}}
		r3 := m.runStep(fn, cone, h3)
		c.Done(r3.x, "step, early exits")
		for _, o := range r3.outs {
			if !o.panic && o.st.aux["hint"] != "" && early == "" {
				early = c.Path(o.st)
			}
		}
		c.Ob("follow:no-early-exit:"+name, fn.Pos(), early == "", "the step returns while authority hints are left%s", early)
	}
}

// overHints recognises the authority hints of the node the step fn works on.
func (m *treeModel) overHints(fn *ssa.Function) func(s *Term) bool {
	for i, p := range fn.Params {
		if m.isTree(p.Type()) {
			t := m.c.T.mk(OpParam, fmt.Sprintf("%d:%s", i, p.Name()), 0, nil, p.Type())
			hints := m.c.Sel(m.c.T.SelVar(t, m.entity), m.stmt, "AuthorityHints")
			return func(s *Term) bool { return s == hints }
		}
	}
	return nil
}

// favour decides the atoms of a step in favour of the superior: fetches succeed, identifiers
// agree, times are valid, the superior is new and publishes a fetch endpoint, no constraints.
func (m *treeModel) favour(te *Term, more func(a *Term) (bool, bool)) func(x *Exec, st *State, a *Term) (bool, bool) {
	cf := fieldOf(m.stmt, "Constraints")
	return func(x *Exec, st *State, a *Term) (bool, bool) {
		if more != nil {
			if v, ok := more(a); ok {
				return v, ok
			}
		}
		switch a.op {
		case OpIsNil:
			t := a.args[0]
			if t.op == OpSel && t.obj == any(cf) {
				return true, true
			}
			if t.op == OpRes && t.num == 1 {
				return true, true
			}
			if t.op == OpCall {
				return true, true // the time check's error
			}
			if t.op == OpRes || t.op == OpSel {
				return false, true
			}
		case OpCall:
			return true, true
		case OpEmpty:
			if t := a.args[0]; t.op == OpSel {
				if b, ok := t.typ.(*types.Basic); ok && b.Kind() == types.String {
					return false, true
				}
			}
		case OpEq, OpExists:
			for _, t := range a.args {
				if strings.Contains(t.String(), "EntityID") {
					return false, true // not at an anchor
				}
			}
			if a.op == OpEq {
				for _, t := range a.args {
					if _, isInt := constInt(t); isInt || t.op == OpSym && t.str == "i" {
						return false, false
					}
				}
				return true, true
			}
		case OpHas:
			return false, true
		}
		return false, false
	}
}
