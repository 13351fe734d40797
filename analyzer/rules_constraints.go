package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// matcherShape decides whether fn(args) is the naming predicate: constraint at index ci, id at ii.
func (m *treeModel) matcherShape(fn *ssa.Function, ci int) string {
	c := m.c
	T := c.T
	lower := func(t *Term) *Term { return T.mk(OpCall, "strings.ToLower", 0, nil, nil, t) }
	upper := func(t *Term) *Term { return T.mk(OpCall, "strings.ToUpper", 0, nil, nil, t) }
	x := NewExec(c.P, c.T, &Hooks{Model: func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
		switch ev.Name {
		case "strings.EqualFold":
			// host names and their constraints are ASCII
			return []Outcome{{res: T.Eq(lower(ev.Args[0]), lower(ev.Args[1])), st: st}}, true
		case "strings.HasPrefix":
			// a dot has no case
			if a := ev.Args[0]; a.op == OpCall && (a.str == "strings.ToLower" || a.str == "strings.ToUpper") {
				if p, ok := strOf(ev.Args[1]); ok && p == "." {
					return []Outcome{{res: T.mk(OpCall, "strings.HasPrefix", 0, nil, nil, a.args[0], ev.Args[1]), st: st}}, true
				}
			}
		}
		return nil, false
	}})
	args, outs := x.RunEntry(fn)
	c.Done(x, c.P.fnName(fn))
	con, id := args[ci], args[1-ci]
	type reading struct{ parse, lower, upper *Term }
	var readings []reading
	for _, cs := range []func(*Term) *Term{nil, lower, upper} {
		id := id
		if cs != nil {
			id = cs(id)
		}
		parse := T.mk(OpCall, "net/url.Parse", 0, nil, nil, id)
		host := T.mk(OpCall, "net/url.URL.Hostname", 0, nil, nil, T.mk(OpRes, "", 0, nil, nil, parse))
		r := reading{parse, lower(host), upper(host)}
		if cs != nil {
			if r = (reading{parse, host, host}); id.str == "strings.ToLower" {
				r.upper = upper(host)
			} else {
				r.lower = lower(host)
			}
		}
		readings = append(readings, r)
	}
	parsed := func(st *State, ok bool) bool {
		for _, r := range readings {
			if x.Proves(st, T.IsNil(T.mk(OpRes, "", 1, nil, nil, r.parse)), ok) {
				return true
			}
		}
		return false
	}
	dot := func(st *State, want bool) bool {
		if x.Proves(st, T.mk(OpCall, "strings.HasPrefix", 0, nil, nil, con, T.Const(`"."`, types.Typ[types.String])), want) {
			return true
		}
		for _, k := range []*Term{con, lower(con), upper(con)} {
			if !want && x.Proves(st, T.Empty(k), true) {
				return true
			}
			first := T.mk(OpElem, "", 0, nil, types.Typ[types.Byte], k, T.Int(0))
			if x.Proves(st, T.Eq(first, T.Const("46", types.Typ[types.Byte])), want) {
				return true
			}
		}
		return false
	}
	// host names are compared regardless of case
	holds := func(st *State, want bool, rel func(h, k *Term) *Term) bool {
		for _, r := range readings {
			if x.Proves(st, rel(r.lower, lower(con)), want) || x.Proves(st, rel(r.upper, upper(con)), want) {
				return true
			}
		}
		return false
	}
	suf := func(h, k *Term) *Term { return T.mk(OpCall, "strings.HasSuffix", 0, nil, nil, h, k) }
	eq := func(h, k *Term) *Term { return T.Eq(k, h) }
	pos := 0
	for _, o := range outs {
		if o.panic {
			return "the naming predicate can panic"
		}
		for _, b := range []bool{true, false} {
			st := o.st.clone()
			if o.res.op != OpAny && !x.assume(st, o.res, b) {
				continue
			}
			c.Paths++
			bad, good := parsed(st, false), parsed(st, true)
			d, nd := dot(st, true), dot(st, false)
			if b {
				pos++
				if !(good && (d && holds(st, true, suf) || nd && holds(st, true, eq))) {
					return "an id is considered matched although neither the host equals the constraint nor (for a constraint with leading dot) ends in it, regardless of case" + c.Path(st)
				}
				continue
			}
			if !(bad || good && (d && holds(st, false, suf) || nd && holds(st, false, eq))) {
				return "an id is considered not matched although its host equals the constraint or, for a constraint with leading dot, ends in it, regardless of case" + c.Path(st)
			}
		}
	}
	if pos == 0 {
		return "nothing matches"
	}
	return ""
}

func init() {
	register(&Check{
		ID: "C04", Title: "Constraints of superiors are enforced on everything below them", Min: 10,
		Technique: "path-sensitive abstract interpretation with quantified loop facts",
		Rule:      "abstract interpretation of the recursive resolution step: a superior is added to the tree only on paths that establish, for the constraints in its statement, max_path_length >= number of intermediates below, no id below is excluded and every id below is permitted, and the entity types below minus the allowed ones are empty; a superior is refused for its constraints only if one of these fails; the accumulated depth, ids and types of a new node are those of the node below extended by the new authority, in fresh sets",
		Assume:    []string{"strset.Difference, Copy, Add and New have set semantics", "net/url.Parse and Hostname extract the host"},
		Run:       func(c *C) { runConstraints(c) },
	})
}

// setFields finds the fields of the tree node by role: ids below, types below, depth.
type accFields struct{ ids, types, depth *types.Var }

func runConstraints(c *C) {
	m := newTreeModel(c)
	if m == nil {
		return
	}
	T := c.T
	for _, fn := range m.stepFns() {
		name := c.P.fnName(fn)
		af, okRoot := m.accRoles(fn, true)
		if !okRoot {
			return
		}
		if !c.Anchor("depth, id set and type set of the tree node", af.ids != nil && af.types != nil && af.depth != nil) {
			return
		}
		cf := c.Field(m.stmt, "Constraints")
		cs := c.P.Named("", "ConstraintSpecification")
		ns := c.P.Named("", "NamingConstraints")
		if !c.Anchor("constraint types", cs != nil && ns != nil) {
			return
		}
		var matcher *ssa.Function
		var matchers []*ssa.Function
		inner := map[*ssa.Function]bool{}
		for f := range reachFrom(c.P, fn) {
			if m.nameMatcher(f) {
				matchers = append(matchers, f)
				for _, g := range repoCallees(c.P, f) {
					inner[g] = true
				}
			}
		}
		for _, f := range matchers {
			if inner[f] {
				continue
			}
			if matcher != nil && matcher != f {
				c.Anchor("a single naming predicate", false)
			}
			matcher = f
		}
		if !c.Anchor("naming predicate on (constraint, id)", matcher != nil) {
			return
		}
		ci := 0
		w := m.matcherShape(matcher, 0)
		if w != "" {
			if m.matcherShape(matcher, 1) == "" {
				w, ci = "", 1
			}
		}
		c.Ob("naming:predicate:"+c.P.fnName(matcher), matcher.Pos(), w == "", "%s", w)
		match := func(con, id *Term) *Term {
			a := []*Term{con, id}
			if ci == 1 {
				a = []*Term{id, con}
			}
			return T.mk(OpCall, c.P.fnName(matcher), 0, nil, types.Typ[types.Bool], a...)
		}
		var fields []*types.Var
		for _, n := range []string{"MaxPathLength", "NamingConstraints", "AllowedEntityTypes"} {
			fields = append(fields, c.Field(cs, n))
		}
		fields = append(fields, c.Field(ns, "Excluded"), c.Field(ns, "Permitted"), cf, af.ids, af.types, af.depth)
		r := m.runStep(fn, c.NewCone(fields, c.P.fnName(matcher)), &Hooks{Memoryless: m.overHints(fn)})
		c.Done(r.x, "step")
		c.Anchor("a node for an authority is added to the tree in "+name, len(r.accepts) > 0)
		depth := T.SelVar(r.t, af.depth)
		for _, a := range r.accepts {
			c.Paths++
			x, st, p := r.x, a.st, a.in.Pos()
			con := c.Sel(a.sub, m.stmt, "Constraints")
			if !x.Proves(st, T.IsNil(con), true) {
				for _, w := range m.satisfied(x, st, r, con, af, cs, ns, match) {
					c.Ob("enforced:"+w[0]+":"+name, p, w[1] == "", "%s%s", w[1], c.Path(st))
				}
			}
			// accumulation
			d := T.SelVar(a.val, af.depth)
			c.Ob("accumulate:depth:"+name, p, d == r.x.add(depth, T.Int(1)), "the depth of the new node is %v", d)
			ids := x.deref(st, T.SelVar(a.val, af.ids))
			c.Ob("accumulate:ids:"+name, p, m.extends(x, st, ids, x.deref(st, T.SelVar(r.t, af.ids)), func(e *Term) bool {
				return x.Same(st, e, c.Sel(a.ent, m.stmt, "Issuer")) || x.Same(st, e, c.Sel(a.ent, m.stmt, "Subject")) || m.hintOf(x, st, r, e) != nil
			}), "the ids below the new node are not those below plus the authority: %v", ids)
			ty := x.deref(st, T.SelVar(a.val, af.types))
			c.Ob("accumulate:types:"+name, p, m.extends(x, st, ty, x.deref(st, T.SelVar(r.t, af.types)), func(e *Term) bool {
				return strings.Contains(e.String(), "GuessEntityTypes") && e.contains(c.Sel(a.ent, m.stmt, "Metadata"))
			}), "the entity types below the new node are not those below plus the authority's: %v", ty)
			c.Ob("accumulate:fresh:"+name, p, T.SelVar(a.val, af.ids) != T.SelVar(r.t, af.ids) && T.SelVar(a.val, af.types) != T.SelVar(r.t, af.types), "the new node shares its sets with the node below")
		}
		// the sets of the current node must not change while its authorities are processed
		for _, o := range r.outs {
			if o.panic {
				continue
			}
			for _, f := range []*types.Var{af.ids, af.types} {
				k := T.mk(OpSel, "", 0, f, f.Type(), r.t)
				v := r.x.deref(o.st, T.SelVar(r.t, f))
				c.Ob("accumulate:unchanged:"+f.Name()+":"+name, fn.Pos(), v == k || v == T.SelVar(r.t, f), "a set of the current node is changed while its superiors are processed: %v", v)
			}
		}
		m.converse(fn, af, cs, ns, cf, match)
	}
}

// accRoles finds the accumulating fields of the tree node by their role at the root.
func (m *treeModel) accRoles(fn *ssa.Function, check bool) (af accFields, ok bool) {
	c, T := m.c, m.c.T
	s := structOf(m.tree)
	cone := c.NewCone([]*types.Var{c.Field(m.stmt, "Subject")}, "oidfed.Metadata.GuessEntityTypes")
	roots := m.rootRun(fn, cone)
	if !c.Anchor("Resolve starts the recursion", len(roots) > 0) {
		return af, false
	}
	x0 := m.curExec
	for _, r := range roots {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				af.depth = f
				if check {
					c.Ob("root:depth", r.in.Pos(), T.SelVar(r.val, f).isConst("0"), "the starting entity's depth is not 0")
				}
			}
			if strings.Contains(f.Type().String(), "strset.Set") {
				v := x0.deref(r.st, T.SelVar(r.val, f))
				subj := c.Sel(r.ent, m.stmt, "Subject")
				iss := c.Sel(r.ent, m.stmt, "Issuer")
				switch {
				case strings.Contains(v.String(), "GuessEntityTypes"):
					af.types = f
				case v.contains(subj) || v.contains(iss) || strings.Contains(v.String(), "StartingEntity"):
					af.ids = f
					els := setElems(v)
					c.Ob("root:ids", r.in.Pos(), len(els) == 1, "the ids below the starting entity's superiors are not exactly the starting entity: %v", v)
				}
			}
		}
	}
	return af, true
}

// deref reads the content of a set object.
func (x *Exec) deref(st *State, t *Term) *Term { return x.load(st, t) }

// setElems lists the elements a set term is built from.
func setElems(v *Term) []*Term {
	switch v.op {
	case OpCall:
		switch v.str {
		case "#set":
			if v.args[0].op == OpList {
				return v.args[0].args
			}
			if v.args[0].isNilConst() {
				return nil
			}
			return []*Term{v.args[0]}
		case "#setadd", "#setaddall":
			if v.args[1].isNilConst() {
				return setElems(v.args[0])
			}
			return append(append([]*Term(nil), setElems(v.args[0])...), v.args[1])
		}
	}
	return []*Term{v}
}

// extends: set v is base plus elements accepted by ok (at least one of them).
func (m *treeModel) extends(x *Exec, st *State, v, base *Term, ok func(*Term) bool) bool {
	n := 0
	for v.op == OpCall && (v.str == "#setadd" || v.str == "#setaddall") {
		if !ok(v.args[1]) {
			return false
		}
		n++
		v = v.args[0]
	}
	return v == base && n > 0
}

// satisfied lists the constraint kinds and, for each, why st does not entail it.
func (m *treeModel) satisfied(x *Exec, st *State, r *stepRun, con *Term, af accFields, cs, ns *types.Named, match func(con, id *Term) *Term) [][2]string {
	c := m.c
	T := c.T
	var out [][2]string
	add := func(k string, ok bool, why string) {
		if ok {
			why = ""
		}
		out = append(out, [2]string{k, why})
	}
	mpl := T.SelVar(con, fieldOf(cs, "MaxPathLength"))
	depth := T.SelVar(r.t, af.depth)
	add("max_path_length", x.Proves(st, T.IsNil(mpl), true) || x.Proves(st, T.Lt(mpl, depth), false),
		"a superior is accepted although its max_path_length is not known to be at least the number of intermediates below it")
	nm := T.SelVar(con, fieldOf(cs, "NamingConstraints"))
	if x.Proves(st, T.IsNil(nm), true) {
		add("excluded", true, "")
		add("permitted", true, "")
	} else {
		ids := T.SelVar(r.t, af.ids)
		lists := []*Term{ids, T.mk(OpCall, "#setlist", 0, nil, nil, ids)}
		ex := T.SelVar(nm, fieldOf(ns, "Excluded"))
		pe := T.SelVar(nm, fieldOf(ns, "Permitted"))
		okE, okP := false, x.Proves(st, T.IsNil(pe), true)
		if x.Proves(st, T.Empty(ex), true) {
			okE = true
		}
		b1, b2 := T.BoundN(1), T.BoundN(2)
		for _, l := range lists {
			for _, e := range []*Term{
				T.Exists(l, T.Exists(ex, match(T.Elem(ex, b1), T.Elem(l, b2)))),
				T.Exists(ex, T.Exists(l, match(T.Elem(ex, b2), T.Elem(l, b1)))),
			} {
				if x.Proves(st, e, false) {
					okE = true
				}
			}
			if x.Proves(st, T.Exists(l, T.Not(T.Exists(pe, match(T.Elem(pe, b1), T.Elem(l, b2))))), false) {
				okP = true
			}
			if x.Proves(st, T.Empty(l), true) {
				okE, okP = true, true
			}
		}
		add("excluded", okE, "a superior is accepted although it is not established that no entity below it is excluded by its naming constraints")
		add("permitted", okP, "a superior is accepted although it is not established that every entity below it is permitted by its naming constraints")
	}
	al := T.SelVar(con, fieldOf(cs, "AllowedEntityTypes"))
	okT := x.Proves(st, T.IsNil(al), true)
	ty := T.SelVar(r.t, af.types)
	for f, v := range st.facts {
		if !v || f.op != OpEmpty || f.args[0].op != OpCall || f.args[0].str != "#setdiff" {
			continue
		}
		d := f.args[0]
		if len(d.args) == 2 && d.args[0] == ty && m.allowedSet(d.args[1], al) {
			okT = true
		}
	}
	// or element-wise
	if !okT {
		for f, v := range st.facts {
			if v || f.op != OpExists {
				continue
			}
			s := f.args[0]
			if s.op == OpCall && s.str == "#setlist" {
				s = s.args[0]
			}
			if s == ty && f.contains(al) && strings.Contains(f.String(), "federation_entity") {
				okT = true
			}
		}
	}
	add("allowed_entity_types", okT, "a superior is accepted although it is not established that every entity type below it is allowed")
	return out
}

// allowedSet: s contains the allowed types and federation_entity, and nothing else.
func (m *treeModel) allowedSet(s, al *Term) bool {
	var els []*Term
	var flat func(t *Term) bool
	flat = func(t *Term) bool {
		switch t.op {
		case OpApp:
			if !flat(t.args[0]) {
				return false
			}
			els = append(els, t.args[1:]...)
			return true
		case OpAppS:
			return flat(t.args[0]) && flat(t.args[1])
		case OpList:
			els = append(els, t.args...)
			return true
		case OpConst:
			if t.isNilConst() {
				return true
			}
		}
		els = append(els, t)
		return true
	}
	for _, e := range setElems(s) {
		if !flat(e) {
			return false
		}
	}
	hasAl, hasFed := false, false
	for _, e := range els {
		switch {
		case e == al:
			hasAl = true
		case e.isConst(`"federation_entity"`):
			hasFed = true
		default:
			return false
		}
	}
	return hasAl && hasFed
}

// converse: with absent constraints, or with every constraint satisfied, the statement is not
// refused. The step is explored with the constraint atoms decided in favour of the statement.
func (m *treeModel) converse(fn *ssa.Function, af accFields, cs, ns *types.Named, cf *types.Var, match func(con, id *Term) *Term) {
	c := m.c
	T := c.T
	name := c.P.fnName(fn)
	mp, nmF, alF := fieldOf(cs, "MaxPathLength"), fieldOf(cs, "NamingConstraints"), fieldOf(cs, "AllowedEntityTypes")
	perm := fieldOf(ns, "Permitted")
	matcher := match(T.Nil(), T.Nil()).str
	type mode struct {
		name string
		null map[*types.Var]bool
	}
	modes := []mode{
		{"no constraints", map[*types.Var]bool{cf: true}},
		{"empty constraints", map[*types.Var]bool{mp: true, nmF: true, alF: true}},
		{"max_path_length only", map[*types.Var]bool{nmF: true, alF: true}},
		{"naming only", map[*types.Var]bool{mp: true, alF: true}},
		{"excluded only", map[*types.Var]bool{mp: true, alF: true, perm: true}},
		{"types only", map[*types.Var]bool{mp: true, nmF: true}},
		{"all", map[*types.Var]bool{}},
	}
	for _, md := range modes {
		good := 0
		h := &Hooks{Memoryless: m.overHints(fn)}
		h.Decide = func(x *Exec, st *State, a *Term) (bool, bool) {
			switch a.op {
			case OpIsNil:
				t := a.args[0]
				if t.op == OpSel {
					if v, ok := t.obj.(*types.Var); ok && (v == cf || v == mp || v == nmF || v == alF || v == perm) {
						return md.null[v], true
					}
				}
				// fetches succeed, the fetched objects are complete
				if t.op == OpRes && t.num == 1 {
					return true, true
				}
				if t.op == OpRes || t.op == OpSel {
					return false, true
				}
			case OpLt:
				if a.args[0].op == OpSel && a.args[0].obj == any(mp) {
					return false, true
				}
			case OpCall:
				if a.str == matcher {
					for _, arg := range a.args {
						if strings.Contains(arg.String(), "Excluded") {
							return false, true
						}
					}
					return true, true
				}
				return true, true
			case OpEmpty:
				t := a.args[0]
				if t.op == OpCall && t.str == "#setdiff" {
					return true, true
				}
				if t.op == OpSel && t.obj == any(perm) {
					return false, true
				}
				if t.op == OpSel {
					if b, ok := t.typ.(*types.Basic); ok && b.Kind() == types.String {
						return false, true
					}
				}
			case OpEq, OpExists:
				for _, t := range a.args {
					if strings.Contains(t.String(), "EntityID") {
						return false, true // not (yet) at an anchor
					}
				}
				if a.op == OpEq {
					return true, true
				}
			case OpHas:
				return false, true
			}
			if a.op == OpIsNil && a.args[0].op == OpCall {
				return true, true // time check
			}
			return false, false
		}
		c2 := c.NewCone([]*types.Var{mp, nmF, alF, cf, perm, fieldOf(ns, "Excluded"), af.ids}, matcher, "oidfed.GetEntityConfiguration")
		rr := m.runStepFav(fn, c2, h)
		c.Done(rr.x, "step with satisfied constraints ("+md.name+")")
		good = len(rr.accepts)
		// every completed iteration that fetched a statement accepted it: the loop body was
		// explored with all decisions in favour, so a refusal shows as a fetch without accept
		c.Ob("converse:"+md.name+":"+name, fn.Pos(), good > 0, "a superior whose constraints are satisfied (%s) is never accepted", md.name)
		c.Ob("converse-refusal:"+md.name+":"+name, fn.Pos(), rr.refused == "", "a superior is refused although its constraints are satisfied (%s): %s", md.name, rr.refused)
	}
}

func reachFrom(P *Program, f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if out[g] {
			return
		}
		out[g] = true
		for _, h := range repoCallees(P, g) {
			visit(h)
		}
	}
	visit(f)
	return out
}

// runStepFav is runStep, also watching for fetched statements that are not used.
func (m *treeModel) runStepFav(fn *ssa.Function, cone *Cone, h *Hooks) *stepRun {
	var why string
	late := func(st *State) {
		if st.aux["pending"] != "" && why == "" {
			why = "the fetched statement is not used" + m.c.Path(st)
		}
	}
	h.OnResult = func(x *Exec, st *State, ev *CallEvent, res *Term) {
		if ev.Name == "oidfed.FetchEntityStatement" {
			st.aux["pending"] = "1"
		}
	}
	h.OnCall = func(x *Exec, st *State, ev *CallEvent) {
		if ev.Name == "oidfed.GetEntityConfiguration" {
			late(st)
			delete(st.aux, "pending")
		}
	}
	h.OnAccept = func(st *State) { delete(st.aux, "pending") }
	r := m.runStep(fn, cone, h)
	for _, o := range r.outs {
		if !o.panic {
			late(o.st)
		}
	}
	r.refused = why
	return r
}
