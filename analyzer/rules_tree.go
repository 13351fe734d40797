package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// treeModel names the constructs of the trust tree by role.
type treeModel struct {
	c        *C
	resolver *types.Named
	tree     *types.Named // the self-recursive node type held by the resolver
	treeFld  *types.Var
	entity   *types.Var
	sub      *types.Var
	auths    *types.Var
	stmt     *types.Named
	anchors  *types.Named
	curExec  *Exec
}

func newTreeModel(c *C) *treeModel {
	m := &treeModel{c: c}
	m.resolver = c.P.Named("", "TrustResolver")
	m.stmt = c.P.Named("", "EntityStatement")
	m.anchors = c.P.Named("", "TrustAnchors")
	if !c.Anchor("type TrustResolver", m.resolver != nil) || !c.Anchor("type EntityStatement", m.stmt != nil) {
		return nil
	}
	s := structOf(m.resolver)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok {
			continue
		}
		ns := structOf(n)
		for j := 0; ns != nil && j < ns.NumFields(); j++ {
			if sl, ok := ns.Field(j).Type().Underlying().(*types.Slice); ok {
				e := sl.Elem()
				if p, ok := e.(*types.Pointer); ok {
					e = p.Elem()
				}
				if types.Identical(e, n) {
					m.tree, m.treeFld, m.auths = n, s.Field(i), ns.Field(j)
				}
			}
		}
	}
	if !c.Anchor("self-recursive trust tree type held by TrustResolver", m.tree != nil) {
		return nil
	}
	m.entity = c.Field(m.tree, "Entity")
	m.sub = c.Field(m.tree, "Subordinate")
	if m.entity == nil || m.sub == nil {
		return nil
	}
	return m
}

// recursiveFrom finds the functions reachable from entry that call themselves (possibly
// through others) and are entered from outside their cycle.
func (c *C) recursiveFrom(entry *ssa.Function, want func(f *ssa.Function) bool) []*ssa.Function {
	reach := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	callees := func(f *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if s := ci.Common().StaticCallee(); s != nil && c.P.IsRepo(s) {
						out = append(out, s)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					out = append(out, mc.Fn.(*ssa.Function))
				}
			}
		}
		return out
	}
	visit = func(f *ssa.Function) {
		if reach[f] {
			return
		}
		reach[f] = true
		for _, g := range callees(f) {
			visit(g)
		}
	}
	visit(entry)
	reaches := func(from, to *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var dfs func(f *ssa.Function) bool
		dfs = func(f *ssa.Function) bool {
			for _, g := range callees(f) {
				if g == to {
					return true
				}
				if !seen[g] {
					seen[g] = true
					if dfs(g) {
						return true
					}
				}
			}
			return false
		}
		return dfs(from)
	}
	var out []*ssa.Function
	for f := range reach {
		if !reaches(f, f) || !want(f) {
			continue
		}
		// entered from outside its cycle
		head := f == entry
		for g := range reach {
			if g != f && !reaches(f, g) {
				for _, h := range callees(g) {
					if h == f {
						head = true
					}
				}
			}
		}
		if head {
			out = append(out, f)
		}
	}
	return out
}

func hasParamOf(f *ssa.Function, n *types.Named) int {
	for i, p := range f.Params {
		t := p.Type()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if types.Identical(t, n) {
			return i
		}
	}
	return -1
}

func (m *treeModel) isTree(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.Identical(t, m.tree)
}

// accept is the event "a node for an authority becomes part of the tree".
type accept struct {
	st   *State
	in   ssa.Instruction
	val  *Term
	ent  *Term // authority's entity configuration
	sub  *Term // statement about the current entity
	from string
	args []*Term
}

// opaqueTree is the granularity of the tree rules: fetching is an API boundary, statement and
// time predicates are decided by their own rules.
func (m *treeModel) opaque(f *ssa.Function, name string) bool {
	switch name {
	case "oidfed.GetEntityConfiguration", "oidfed.FetchEntityStatement", "unixtime.VerifyTime",
		"oidfed.Metadata.GuessEntityTypes", "internal/utils.NilAllExceptByTag", "oidfed.EntityStatement.Verify",
		"cache.Get", "cache.Set", "oidfed.TrustAnchors.EntityIDs":
		return true
	}
	return m.nameMatcher(f)
}

// nameMatcher: a pure predicate on two strings is a naming predicate, decided on its own.
func (m *treeModel) nameMatcher(f *ssa.Function) bool {
	if !m.c.P.IsRepo(f) || f.Parent() != nil {
		return false
	}
	s := f.Signature
	if s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 1 || s.Variadic() {
		return false
	}
	isS := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.String
	}
	b, ok := s.Results().At(0).Type().Underlying().(*types.Basic)
	if f.Origin() != nil || len(f.TypeArgs()) > 0 {
		return false
	}
	return ok && b.Kind() == types.Bool && isS(s.Params().At(0).Type()) && isS(s.Params().At(1).Type())
}

func (m *treeModel) model(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
	T := x.T
	switch ev.Name {
	case "oidfed.TrustAnchors.EntityIDs":
		f := fieldOf(m.c.P.Named("", "TrustAnchor"), "EntityID")
		if f == nil {
			return nil, false
		}
		fv := T.mk(OpFn, "field:"+f.Name(), 0, f, nil)
		return []Outcome{{st: st, res: T.mk(OpCall, "#mapped", 0, nil, nil, ev.Args[0], fv)}}, true
	case "cache.Get":
		// a cached tree is the subject of the cache rules
		return nil, false
	}
	return nil, false
}

func (m *treeModel) pure(name string) bool {
	switch name {
	case "unixtime.VerifyTime", "oidfed.Metadata.GuessEntityTypes", "oidfed.EntityStatement.Verify":
		return true
	}
	return false
}

// cone restricts the exploration to what the rule is about: functions outside the cone that take
// no part in building nodes stay opaque, facts outside it are not tracked.
func (m *treeModel) cone(h *Hooks, cone *Cone, step *ssa.Function) {
	writes := func(f *ssa.Function) bool { return m.buildsNodes(f, map[*ssa.Function]bool{}) }
	h.Relevant = cone.Fact
	h.Strict = true
	h.Opaque = func(f *ssa.Function, n string) bool {
		if m.opaque(f, n) {
			return true
		}
		return m.c.P.IsRepo(f) && f != step && f.Synthetic == "" && !cone.In(f) && !writes(f) && !returnsPointerLike(f)
	}
}

// returnsPointerLike: functions that hand out statements are explored, to keep identities.
func returnsPointerLike(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		switch rs.At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Struct, *types.Interface:
			return true
		}
	}
	return false
}

// buildsNodes reports whether f, or a repository function it calls, stores tree nodes.
func (m *treeModel) buildsNodes(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if m.isTree(in.Val.Type()) {
					return true
				}
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && m.isTree(fa.X.Type()) {
					return true
				}
			case *ssa.FieldAddr:
				if m.isTree(in.X.Type()) {
					s := structOf(in.X.Type())
					if s.Field(in.Field) == m.entity || s.Field(in.Field) == m.sub || s.Field(in.Field) == m.auths {
						return true
					}
				}
			}
		}
	}
	for _, g := range repoCallees(m.c.P, f) {
		if m.buildsNodes(g, seen) {
			return true
		}
	}
	return false
}

func (m *treeModel) linkCone() *Cone {
	c := m.c
	return c.NewCone([]*types.Var{
		c.Field(m.stmt, "Issuer"), c.Field(m.stmt, "Subject"), c.Field(m.stmt, "AuthorityHints"),
		c.Field(m.resolver, "StartingEntity"),
	})
}

// stepRun explores the recursive resolution step on an arbitrary node t whose entity
// configuration has iss == sub (induction hypothesis).
type stepRun struct {
	m       *treeModel
	fn      *ssa.Function
	t       *Term // the node
	anchors *Term
	x       *Exec
	accepts []accept
	recs    []accept
	outs    []Outcome
	refused string
}

func (m *treeModel) stepFns() []*ssa.Function {
	c := m.c
	entry := c.Fn("", "TrustResolver.Resolve")
	if entry == nil {
		return nil
	}
	fs := c.recursiveFrom(entry, func(f *ssa.Function) bool { return hasParamOf(f, m.tree) >= 0 })
	c.Anchor("recursive resolution step reachable from Resolve", len(fs) > 0)
	return fs
}

func (m *treeModel) runStep(fn *ssa.Function, cone *Cone, h *Hooks) *stepRun {
	r := &stepRun{m: m, fn: fn}
	m.cone(h, cone, fn)
	if h.Model == nil {
		h.Model = m.model
	}
	h.Pure = m.pure
	h.Forward = true
	onStore, onCall := h.OnStore, h.OnCall
	h.OnStore = func(x *Exec, st *State, in ssa.Instruction, a, v *Term) {
		if onStore != nil {
			onStore(x, st, in, a, v)
		}
		if a.op == OpElem && a.root().op != OpAlloc {
			if st2, ok := in.(*ssa.Store); ok && m.isTree(st2.Val.Type()) {
				v := x.content(st, v)
				r.accepts = append(r.accepts, accept{st.clone(), in, v, x.T.SelVar(v, m.entity), x.T.SelVar(v, m.sub), "store", nil})
				if h.OnAccept != nil {
					h.OnAccept(st)
				}
			}
		}
	}
	h.OnAppend = func(x *Exec, st *State, in ssa.Instruction, base *Term, es []*Term) {
		ci := in.(ssa.CallInstruction).Common()
		if sl, ok := ci.Args[0].Type().Underlying().(*types.Slice); ok && m.isTree(sl.Elem()) {
			for _, v := range es {
				v := x.content(st, v)
				r.accepts = append(r.accepts, accept{st.clone(), in, v, x.T.SelVar(v, m.entity), x.T.SelVar(v, m.sub), "append", nil})
			}
			if h.OnAccept != nil {
				h.OnAccept(st)
			}
		}
	}
	h.OnCall = func(x *Exec, st *State, ev *CallEvent) {
		if onCall != nil {
			onCall(x, st, ev)
		}
		if ev.Fn == fn {
			i := hasParamOf(fn, m.tree)
			v := x.content(st, ev.Addrs[i])
			r.recs = append(r.recs, accept{st.clone(), ev.Instr, v, x.T.SelVar(v, m.entity), x.T.SelVar(v, m.sub), "recursion", ev.Args})
		}
	}
	x := NewExec(m.c.P, m.c.T, h)
	r.x = x
	var args []*Term
	for i, p := range fn.Params {
		a := x.Param(fmt.Sprintf("%d:%s", i, p.Name()), p.Type())
		args = append(args, a)
		if m.isTree(p.Type()) && r.t == nil {
			r.t = a
		}
		if m.anchors != nil && types.Identical(p.Type(), m.anchors) {
			r.anchors = a
		}
	}
	st := NewState()
	e := m.c.T.SelVar(r.t, m.entity)
	st.facts[m.c.T.Eq(m.c.Sel(e, m.stmt, "Issuer"), m.c.Sel(e, m.stmt, "Subject"))] = true
	r.outs = x.Run(fn, args, st)
	return r
}

// rootRun explores Resolve up to the call of the recursive step.
func (m *treeModel) rootRun(step *ssa.Function, cone *Cone) []accept {
	c := m.c
	entry := c.Fn("", "TrustResolver.Resolve")
	if entry == nil {
		return nil
	}
	var evs []accept
	h := &Hooks{Pure: m.pure, Forward: true}
	m.cone(h, cone, step)
	o := h.Opaque
	h.Opaque = func(f *ssa.Function, n string) bool { return f == step || o(f, n) }
	h.Model = m.model
	h.OnCall = func(x *Exec, st *State, ev *CallEvent) {
		if ev.Fn == step {
			i := hasParamOf(step, m.tree)
			v := x.content(st, ev.Addrs[i])
			evs = append(evs, accept{st.clone(), ev.Instr, v, x.T.SelVar(v, m.entity), x.T.SelVar(v, m.sub), "root", ev.Args})
		}
	}
	x := NewExec(c.P, c.T, h)
	x.RunEntry(entry)
	m.curExec = x
	c.Done(x, "Resolve")
	return evs
}

func (m *treeModel) hintOf(x *Exec, st *State, r *stepRun, id *Term) *Term {
	hints := m.c.Sel(m.c.T.SelVar(r.t, m.entity), m.stmt, "AuthorityHints")
	for t := range x.eqClass(st, id) {
		if t.op == OpElem && t.args[0] == hints {
			return t
		}
	}
	return nil
}

func isOpResOf(t *Term, name string) bool {
	return t.op == OpRes && t.num == 0 && t.args[0].op == OpCall && t.args[0].str == name
}

func (m *treeModel) verifyTimeAtom(s *Term) *Term {
	T := m.c.T
	call := T.mk(OpCall, "unixtime.VerifyTime", 0, nil, nil, m.c.Sel(s, m.stmt, "IssuedAt"), m.c.Sel(s, m.stmt, "ExpiresAt"))
	return T.IsNil(call)
}

func init() {
	register(&Check{
		ID: "C01", Title: "Only correctly linked statements enter a trust chain", Min: 8,
		Rule: "property simulation over the recursive resolution step on an arbitrary node: whenever a node for an authority is added to the tree, the path condition entails config.iss = config.sub = statement.iss = an authority hint of the current entity and statement.sub = the current entity's id; the root node is entered only with iss = sub = the requested id",
		Run: func(c *C) {
			m := newTreeModel(c)
			if m == nil {
				return
			}
			for _, fn := range m.stepFns() {
				cone := m.linkCone()
				r := m.runStep(fn, cone, &Hooks{})
				c.Done(r.x, "step")
				name := c.P.fnName(fn)
				c.Anchor("a node for an authority is added to the tree in "+name, len(r.accepts) > 0)
				te := c.T.SelVar(r.t, m.entity)
				for _, a := range r.accepts {
					c.Paths++
					x, st := r.x, a.st
					p := a.in.Pos()
					fromCfg := isOpResOf(a.ent, "oidfed.GetEntityConfiguration")
					fromFetch := isOpResOf(a.sub, "oidfed.FetchEntityStatement")
					c.Ob("link:config-origin:"+name, p, fromCfg, "the node's entity is not the fetched entity configuration of the authority but %v%s", a.ent, c.Path(st))
					c.Ob("link:statement-origin:"+name, p, fromFetch, "the node's subordinate statement is not the one fetched from the authority but %v%s", a.sub, c.Path(st))
					gi, gs := c.Sel(a.ent, m.stmt, "Issuer"), c.Sel(a.ent, m.stmt, "Subject")
					fi, fs := c.Sel(a.sub, m.stmt, "Issuer"), c.Sel(a.sub, m.stmt, "Subject")
					hint := m.hintOf(x, st, r, gi)
					c.Ob("link:config.iss=hint:"+name, p, hint != nil, "an authority's configuration is accepted although its iss is not known to equal the authority hint%s", c.Path(st))
					c.Ob("link:config.sub=config.iss:"+name, p, x.Same(st, gi, gs), "an authority's configuration is accepted although its sub is not known to equal its iss%s", c.Path(st))
					c.Ob("link:statement.iss=authority:"+name, p, x.Same(st, fi, gi), "a subordinate statement is accepted although its iss is not known to be the authority%s", c.Path(st))
					c.Ob("link:statement.sub=entity:"+name, p, x.Same(st, fs, c.Sel(te, m.stmt, "Issuer")), "a subordinate statement is accepted although its sub is not known to be the entity below%s", c.Path(st))
				}
				evs := m.rootRun(fn, cone)
				c.Anchor("Resolve starts the recursion", len(evs) > 0)
				for _, a := range evs {
					c.Paths++
					x, st := m.curExec, a.st
					start := c.Sel(x.Param("recv", types.NewPointer(m.resolver)), m.resolver, "StartingEntity")
					i, s := c.Sel(a.ent, m.stmt, "Issuer"), c.Sel(a.ent, m.stmt, "Subject")
					c.Ob("link:root.iss=requested", a.in.Pos(), x.Same(st, i, start), "the starting entity's configuration is used although its iss is not known to be the requested entity%s", c.Path(st))
					c.Ob("link:root.sub=requested", a.in.Pos(), x.Same(st, s, start), "the starting entity's configuration is used although its sub is not known to be the requested entity%s", c.Path(st))
				}
			}
		},
	})
	register(&Check{
		ID: "C02", Title: "Expired or not yet valid statements are never used", Min: 6,
		Rule: "property simulation: every statement stored in the trust tree (root configuration, authority configuration, subordinate statement) has passed the time check with its own iat and exp on every path; the time check answers nil only on paths that compared both bounds with the current time",
		Run: func(c *C) {
			m := newTreeModel(c)
			if m == nil {
				return
			}
			for _, fn := range m.stepFns() {
				r := m.runStep(fn, c.NewCone(nil, "unixtime.VerifyTime"), &Hooks{})
				c.Done(r.x, "step")
				name := c.P.fnName(fn)
				c.Anchor("a node for an authority is added to the tree in "+name, len(r.accepts) > 0)
				for _, a := range r.accepts {
					c.Paths++
					c.Ob("time:authority-config:"+name, a.in.Pos(), r.x.Proves(a.st, m.verifyTimeAtom(a.ent), true), "an authority's configuration enters the tree without having passed the time check%s", c.Path(a.st))
					c.Ob("time:subordinate-statement:"+name, a.in.Pos(), r.x.Proves(a.st, m.verifyTimeAtom(a.sub), true), "a subordinate statement enters the tree without having passed the time check%s", c.Path(a.st))
				}
				evs := m.rootRun(fn, c.NewCone(nil, "unixtime.VerifyTime"))
				c.Anchor("Resolve starts the recursion", len(evs) > 0)
				for _, a := range evs {
					c.Paths++
					c.Ob("time:root-config", a.in.Pos(), m.curExec.Proves(a.st, m.verifyTimeAtom(a.ent), true), "the starting entity's configuration is used without having passed the time check%s", c.Path(a.st))
				}
			}
			c.timeCheck()
		},
	})
}

// timeCheck decides that unixtime.VerifyTime accepts exactly the times between iat and exp.
func (c *C) timeCheck() {
	// the time check itself
	vt := c.Fn("unixtime", "VerifyTime")
	if vt == nil {
		return
	}
	x := NewExec(c.P, c.T, &Hooks{Pin: func(g *Term) bool { return g.op == OpCall && g.str == "time.Now" }})
	args, outs := x.RunEntry(vt)
	c.Done(x, "VerifyTime")
	okPaths, errPaths := 0, 0
	for _, o := range outs {
		if o.panic {
			continue
		}
		if v, ok := x.Known(o.st, c.T.IsNil(o.res)); ok && !v {
			errPaths++
			// refused only when one of the bounds is on the wrong side of now
			ok := false
			for f, v := range o.st.facts {
				if v && f.op == OpBefore {
					if isNow(f.args[0]) && f.args[1] == args[0] || f.args[0] == args[1] && isNow(f.args[1]) {
						ok = true
					}
				}
			}
			c.Ob("time:check:refuses-only-outside", vt.Pos(), ok, "a time inside the validity interval is refused%s", c.Path(o.st))
			continue
		}
		okPaths++
		iatOK := x.Proves(o.st, c.T.IsNil(args[0]), true) || zeroTime(x, o.st, args[0])
		expOK := x.Proves(o.st, c.T.IsNil(args[1]), true) || zeroTime(x, o.st, args[1])
		for f, v := range o.st.facts {
			if !v && f.op == OpBefore && isNow(f.args[0]) && f.args[1] == args[0] {
				iatOK = true
			}
			if v && f.op == OpBefore && isNow(f.args[1]) && f.args[0] == args[0] {
				iatOK = true
			}
			if !v && f.op == OpBefore && isNow(f.args[1]) && f.args[0] == args[1] {
				expOK = true
			}
			if v && f.op == OpBefore && isNow(f.args[0]) && f.args[1] == args[1] {
				expOK = true
			}
		}
		c.Ob("time:check:iat", vt.Pos(), iatOK, "the time check succeeds on a path that did not establish iat <= now%s", c.Path(o.st))
		c.Ob("time:check:exp", vt.Pos(), expOK, "the time check succeeds on a path that did not establish now <= exp%s", c.Path(o.st))
	}
	c.Ob("time:check:both-answers", vt.Pos(), okPaths > 0 && errPaths > 0, "the time check has %d succeeding and %d failing paths", okPaths, errPaths)
}

func zeroTime(x *Exec, st *State, t *Term) bool {
	return x.Proves(st, x.T.mk(OpCall, "#iszerotime", 0, nil, types.Typ[types.Bool], t), true)
}

func isNow(t *Term) bool {
	for t.op == OpSnap || t.op == OpOut {
		t = t.args[0]
	}
	return t.op == OpCall && t.str == "time.Now"
}
