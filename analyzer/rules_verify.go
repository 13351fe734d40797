package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// arr is an abstract slice of n elements named name.
func (c *C) arr(name string, n int) *Term {
	T := c.T
	return T.mk(OpCall, "#arr", 0, nil, nil, T.Int(n), T.Const(name, types.Typ[types.UntypedString]))
}

// verifyFns are the recursive functions over the tree reachable from VerifySignatures.
func (m *treeModel) verifyFns() []*ssa.Function {
	c := m.c
	entry := c.Fn("", "TrustResolver.VerifySignatures")
	if entry == nil {
		return nil
	}
	fs := c.recursiveFrom(entry, func(f *ssa.Function) bool { return hasParamOf(f, m.tree) >= 0 })
	c.Anchor("recursive signature verification reachable from VerifySignatures", len(fs) > 0)
	return fs
}

func (m *treeModel) chainFns() []*ssa.Function {
	c := m.c
	entry := c.Fn("", "TrustResolver.Chains")
	if entry == nil {
		return nil
	}
	fs := c.recursiveFrom(entry, func(f *ssa.Function) bool { return hasParamOf(f, m.tree) >= 0 })
	c.Anchor("recursive chain construction reachable from Chains", len(fs) > 0)
	return fs
}

type verifyOut struct {
	st    *State
	res   *Term
	final *Term   // final value of the authorities slice
	kept  []*Term // its elements
	known bool

	answer bool
}

// splitAnswer makes the answer of every outcome definite.
func (m *treeModel) splitAnswer(x *Exec, outs []verifyOut) []verifyOut {
	var l []verifyOut
	for _, o := range outs {
		if v, ok := x.Known(o.st, o.res); ok {
			o.answer = v
			l = append(l, o)
			continue
		}
		for _, b := range []bool{true, false} {
			n := o
			n.st = o.st.clone()
			n.answer = b
			if o.res.op == OpAny || x.assume(n.st, o.res, b) {
				l = append(l, n)
			}
		}
	}
	return l
}

// verifyRun explores the verification step with nAuth authorities and nTA anchors.
func (m *treeModel) verifyRun(fn *ssa.Function, nAuth, nTA int, decide func(a *Term) (bool, bool)) (x *Exec, node, auths, tas *Term, outs []verifyOut, st0 *State) {
	c := m.c
	T := c.T
	rec := c.P.fnName(fn)
	h := &Hooks{Forward: true}
	if decide != nil {
		h.Decide = func(x *Exec, st *State, a *Term) (bool, bool) { return decide(a) }
	}
	verified := m.verifiedFlag()
	h.Opaque = func(f *ssa.Function, n string) bool {
		return n == "oidfed.EntityStatement.Verify" || strings.HasPrefix(n, "cache.")
	}
	h.Pure = func(n string) bool { return n == "oidfed.EntityStatement.Verify" }
	x = NewExec(c.P, c.T, h)
	var args []*Term
	for i, p := range fn.Params {
		a := x.Param(fmt.Sprintf("%d:%s", i, p.Name()), p.Type())
		if m.isTree(p.Type()) && node == nil {
			node = a
		}
		if m.anchors != nil && types.Identical(p.Type(), m.anchors) {
			tas = c.arr("anchors", nTA)
			a = tas
		}
		args = append(args, a)
	}
	_ = rec
	st := NewState()
	auths = T.Nil()
	if nAuth >= 0 {
		auths = c.arr("auths", nAuth)
	}
	st.mem[T.mk(OpSel, "", 0, m.auths, m.auths.Type(), node)] = auths
	if verified != nil {
		st.mem[T.mk(OpSel, "", 0, verified, verified.Type(), node)] = T.Bool(false)
		for i := 0; i < nAuth; i++ {
			_ = i
		}
	}
	st0 = st.clone()
	for _, o := range x.Run(fn, args, st) {
		if o.panic {
			continue
		}
		v := verifyOut{st: o.st, res: o.res}
		v.final = x.load(o.st, T.mk(OpSel, "", 0, m.auths, m.auths.Type(), node))
		if n, ok := constInt(T.Len(v.final)); ok {
			v.known = true
			for i := 0; i < n; i++ {
				e := T.Elem(v.final, T.Int(i))
				v.kept = append(v.kept, x.content(o.st, e))
			}
		}
		outs = append(outs, v)
	}
	c.Done(x, fmt.Sprintf("verify[%d authorities, %d anchors]", nAuth, nTA))
	return
}

// verifiedFlag is the boolean field of the tree written by the verification.
func (m *treeModel) verifiedFlag() *types.Var {
	s := structOf(m.tree)
	var v *types.Var
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if v != nil {
				return fieldOf(m.tree, "signaturesVerified")
			}
			v = s.Field(i)
		}
	}
	return v
}

func (m *treeModel) verifyAtom(s, keys *Term) *Term {
	return m.c.T.mk(OpCall, "oidfed.EntityStatement.Verify", 0, nil, types.Typ[types.Bool], s, keys)
}

// checkKept decides whether a kept authority is justified in st.
func (m *treeModel) checkKept(x *Exec, st *State, fn *ssa.Function, node, e *Term) string {
	T := m.c.T
	name := m.c.P.fnName(fn)
	ea := T.SelVar(e, m.auths)
	// the node must be the verified object: its authorities are those the recursion left in it
	var call *Term
	if ea.op == OpSel && ea.args[0].op == OpOut && ea.args[0].args[0].op == OpCall && ea.args[0].args[0].str == name {
		call = ea.args[0].args[0]
	}
	if call == nil {
		return fmt.Sprintf("the kept authority is not the node whose verification pruned it (its authorities are %v)", ea)
	}
	if v, ok := x.Known(st, call); !ok || !v {
		return "an authority is kept although its own verification did not succeed"
	}
	te, ts := T.SelVar(node, m.entity), T.SelVar(node, m.sub)
	keys := m.c.Sel(T.SelVar(e, m.sub), m.stmt, "JWKS")
	if !x.Proves(st, m.verifyAtom(te, keys), true) {
		return "an authority is kept although the entity's configuration was not verified with the keys in the authority's statement"
	}
	if !x.Proves(st, T.IsNil(ts), true) && !x.Proves(st, m.verifyAtom(ts, keys), true) {
		return "an authority is kept although the statement about the entity was not verified with the keys in the authority's statement"
	}
	return ""
}

// anchored decides whether st establishes that node is a trust anchor verified with its keys.
func (m *treeModel) anchored(x *Exec, st *State, node, tas *Term, nTA int) string {
	c := m.c
	T := c.T
	te, ts := T.SelVar(node, m.entity), T.SelVar(node, m.sub)
	taT := c.P.Named("", "TrustAnchor")
	why := "no configured anchor has the entity's id"
	for i := 0; i < nTA; i++ {
		ta := T.Elem(tas, T.Int(i))
		id := c.Sel(ta, taT, "EntityID")
		if !x.Same(st, id, c.Sel(te, m.stmt, "Issuer")) {
			continue
		}
		if !x.Same(st, id, c.Sel(te, m.stmt, "Subject")) {
			why = "the anchor's id is not known to be the entity's sub"
			continue
		}
		keys := c.Sel(ta, taT, "JWKS")
		var use []*Term
		if x.Proves(st, T.IsNil(keys), true) {
			use = []*Term{c.Sel(te, m.stmt, "JWKS")}
		} else if x.Proves(st, T.IsNil(keys), false) {
			use = []*Term{keys}
		} else {
			use = []*Term{keys}
		}
		for _, k := range use {
			if !x.Proves(st, m.verifyAtom(te, k), true) {
				why = "the anchor's configuration was not verified with the anchor's keys"
				continue
			}
			if x.Proves(st, T.IsNil(ts), true) {
				return ""
			}
			if !x.Same(st, id, c.Sel(ts, m.stmt, "Issuer")) {
				why = "the statement below the anchor is not known to be issued by it"
				continue
			}
			if !x.Proves(st, m.verifyAtom(ts, k), true) {
				why = "the statement issued by the anchor was not verified with the anchor's keys"
				continue
			}
			return ""
		}
	}
	return why
}

func init() {
	register(&Check{
		ID: "C03", Title: "Every statement of a returned chain is verified with its superior's keys", Min: 10,
		Technique: "abstract interpretation of the verification step over a symbolic tree node",
		Rule:      "path-sensitive abstract interpretation of the recursive verification step on an arbitrary node, for 0..2 authorities and 0..2 anchors (uniform loop bodies): it answers true only for a node that is a configured anchor verified with the configured keys (its own only if none are configured), or whose kept authorities each answered true themselves and whose statement about the node carries keys that verify the node's configuration and the node's own subordinate statement; kept authorities are the verified objects",
		Assume:    []string{"EntityStatement.Verify answers true only for a valid signature (decided by C18)", "the loop bodies treat every authority and every anchor alike (two elements suffice; checked: nothing compares a size with a constant above one)"},
		Run: func(c *C) {
			m := newTreeModel(c)
			if m == nil {
				return
			}
			T := c.T
			c.cutoff("verify", m.verifyFns(), 1, func(n string) bool {
				return !strings.HasPrefix(n, "oidfed.") || strings.HasSuffix(n, ".Verify") || strings.HasPrefix(n, "internal")
			})
			for _, fn := range m.verifyFns() {
				name := c.P.fnName(fn)
				trues, falses := 0, 0
				for nA := -1; nA <= 2; nA++ {
					for nT := 0; nT <= 2; nT++ {
						x, node, _, tas, outs, _ := m.verifyRun(fn, nA, nT, nil)
						if !c.Anchor(name+" takes the node and the anchors", node != nil && tas != nil) {
							return
						}
						for _, o := range m.splitAnswer(x, outs) {
							c.Paths++
							if !c.Ob("verify:kept-known:"+name, fn.Pos(), o.known, "which authorities are kept is not determined: %v%s", o.final, c.Path(o.st)) {
								continue
							}
							flag := m.verifiedFlag()
							isTrue := o.answer
							if flag != nil {
								fv := x.load(o.st, T.mk(OpSel, "", 0, flag, flag.Type(), node))
								if b, known := x.Known(o.st, fv); !known || b {
									isTrue = true
								}
							}
							all := ""
							for _, e := range o.kept {
								if w := m.checkKept(x, o.st, fn, node, e); w != "" {
									all = w
								}
							}
							if !isTrue {
								falses++
								if x.Proves(o.st, T.IsNil(T.SelVar(node, m.sub)), false) || x.Proves(o.st, T.IsNil(T.SelVar(node, m.entity)), true) {
									continue // dropped by the node above, or empty
								}
								empty := len(o.kept) == 0 && T.IsNil(o.final).isConst("false")
								c.Ob("verify:rejected-start:"+name, fn.Pos(), empty, "the starting entity is not verified, but its tree still yields a chain%s", c.Path(o.st))
								continue
							}
							trues++
							w := m.anchored(x, o.st, node, tas, nT)
							if w == "" {
								c.Ob("verify:anchor:"+name, fn.Pos(), true, "")
								continue
							}
							if len(o.kept) > 0 {
								c.Ob("verify:trusted:"+name, fn.Pos(), all == "", "the node is reported verified although %s%s", all, c.Path(o.st))
								continue
							}
							c.Ob("verify:anchor:"+name, fn.Pos(), false, "the node is reported verified without any verified authority, and %s%s", w, c.Path(o.st))
						}
					}
				}
				c.Ob("verify:both-answers:"+name, fn.Pos(), trues > 0 && falses > 0, "the verification has %d positive and %d negative outcomes", trues, falses)
			}
			for _, fn := range m.verifyFns() {
				m.keepsVerified(fn)
			}
			m.verifiedWriters()
			m.validOrder()
		},
	})
}

// keepsVerified: the authorities that verify are kept, in order, and no others.
func (m *treeModel) keepsVerified(fn *ssa.Function) {
	c, T := m.c, m.c.T
	name := c.P.fnName(fn)
	for pat := 0; pat < 8; pat++ {
		auths := c.arr("auths", 3)
		decide := func(a *Term) (bool, bool) {
			if a.op != OpCall {
				return false, false
			}
			if a.str == "oidfed.EntityStatement.Verify" {
				return true, true
			}
			if a.str == name {
				for i := 0; i < 3; i++ {
					if a.contains(T.Elem(auths, T.Int(i))) {
						return pat>>i&1 == 1, true
					}
				}
			}
			return false, false
		}
		var want []int
		for i := 0; i < 3; i++ {
			if pat>>i&1 == 1 {
				want = append(want, i)
			}
		}
		x, _, _, _, outs, _ := m.verifyRun(fn, 3, 0, decide)
		for _, o := range m.splitAnswer(x, outs) {
			c.Paths++
			ok := o.known && len(o.kept) == len(want) && o.answer == (len(want) > 0)
			for k := 0; ok && k < len(want); k++ {
				ok = o.kept[k].contains(T.Elem(auths, T.Int(want[k])))
			}
			c.Ob("verify:keeps-all-verified:"+name, fn.Pos(), ok, "with three authorities of which %v verify, %d are kept and the answer is %v", want, len(o.kept), o.answer)
		}
		c.Ob("verify:keeps-explored:"+name, fn.Pos(), len(outs) > 0, "no outcome")
	}
}

// verifiedWriters: only the verification (or code resetting the tree) may set the verified flag.
func (m *treeModel) verifiedWriters() {
	c := m.c
	flag := m.verifiedFlag()
	if !c.Anchor("flag recording that a node is verified", flag != nil) {
		return
	}
	allowed := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if allowed[f] {
			return
		}
		allowed[f] = true
		for _, g := range repoCallees(c.P, f) {
			visit(g)
		}
	}
	for _, f := range m.verifyFns() {
		visit(f)
	}
	n := 0
	for _, f := range c.P.RepoFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || structOf(fa.X.Type()).Field(fa.Field) != flag {
					continue
				}
				n++
				if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "false" {
					continue
				}
				c.Ob("verify:flag-writer:"+c.P.fnName(f), st.Pos(), allowed[f], "a node is marked verified outside the signature verification")
			}
		}
	}
	c.Anchor("writes of the verified flag", n > 0)
}

// validOrder: the valid-chain entry points answer from the cache or from a tree that was built
// and then verified with the resolver's anchors.
func (m *treeModel) validOrder() {
	c := m.c
	T := c.T
	var fns []*ssa.Function
	for _, n := range []string{"TrustResolver.ResolveToValidChainsWithoutVerifyingMetadata", "TrustResolver.ResolveToValidChains"} {
		if f := c.Fn("", n); f != nil {
			fns = append(fns, f)
		}
	}
	steps := map[*ssa.Function]string{}
	for _, f := range m.stepFns() {
		steps[f] = "resolve"
	}
	for _, f := range m.verifyFns() {
		steps[f] = "verify"
	}
	for _, f := range m.chainFns() {
		steps[f] = "chains"
	}
	anchorsFld := c.Field(m.resolver, "TrustAnchors")
	for _, fn := range fns {
		name := c.P.fnName(fn)
		var recv *Term
		built := 0
		cone := c.NewCone([]*types.Var{m.treeFld, anchorsFld})
		h := &Hooks{Forward: true, Relevant: func(t *Term) bool { return false }, Strict: true}
		h.Opaque = func(f *ssa.Function, n string) bool {
			if steps[f] != "" || strings.HasPrefix(n, "cache.") {
				return true
			}
			if n == "oidfed.GetEntityConfiguration" || n == "internal/utils.NilAllExceptByTag" || n == "oidfed.Metadata.GuessEntityTypes" {
				return true
			}
			_ = cone
			return n == "oidfed.TrustChains.Filter"
		}
		h.OnCall = func(x *Exec, st *State, ev *CallEvent) {
			switch steps[ev.Fn] {
			case "resolve":
				st.aux["tree"] = "built"
				for i, p := range ev.Fn.Params {
					if m.anchors != nil && types.Identical(p.Type(), m.anchors) {
						c.Ob("order:resolve-anchors:"+name, ev.Instr.Pos(), ev.Args[i] == T.SelVar(recv, anchorsFld), "the tree is built for other anchors than the resolver's: %v", ev.Args[i])
					}
				}
			case "verify":
				st.aux["tree"] = "verified"
				for i, p := range ev.Fn.Params {
					if m.anchors != nil && types.Identical(p.Type(), m.anchors) {
						c.Ob("order:verify-anchors:"+name, ev.Instr.Pos(), ev.Args[i] == T.SelVar(recv, anchorsFld), "signatures are verified against other anchors than the resolver's: %v", ev.Args[i])
					}
				}
				i := hasParamOf(ev.Fn, m.tree)
				a := unMk(ev.Addrs[i])
				c.Ob("order:verify-tree:"+name, ev.Instr.Pos(), a.op == OpSel && a.obj == any(m.treeFld), "the verified tree is not the resolver's tree but %v", a)
			case "chains":
				built++
				c.Ob("order:verified-before-chains:"+name, ev.Instr.Pos(), st.aux["tree"] == "verified", "chains are taken from the tree without verifying its signatures after it was built (state %q)%s", st.aux["tree"], c.Path(st))
			}
		}
		x := NewExec(c.P, c.T, h)
		var args []*Term
		for i, p := range fn.Params {
			a := x.Param(fmt.Sprintf("%d:%s", i, p.Name()), p.Type())
			if i == 0 {
				recv = a
			}
			args = append(args, a)
		}
		outs := x.Run(fn, args, NewState())
		c.Done(x, name)
		c.Anchor("chains are taken from the tree in "+name, built > 0)
		for _, o := range outs {
			c.Paths++
			if o.panic {
				continue
			}
			ok := o.res.isNilConst() || m.chainSource(o.res)
			c.Ob("order:result:"+name, fn.Pos(), ok, "the result is neither a cached nor a freshly verified set of chains: %v", o.res)
		}
	}
}

// chainSource: t is what the chain construction or the cache returned, possibly filtered.
func (m *treeModel) chainSource(t *Term) bool {
	switch t.op {
	case OpAny:
		for _, a := range t.args {
			if !m.chainSource(a) {
				return false
			}
		}
		return true
	case OpCall:
		if t.str == "oidfed.TrustChains.Filter" {
			return m.chainSource(t.args[0])
		}
		for _, f := range m.chainFns() {
			if t.str == m.c.P.fnName(f) {
				return true
			}
		}
	case OpOut:
		return t.args[0].op == OpCall && t.args[0].str == "cache.Get"
	case OpConst:
		return t.isNilConst()
	}
	return false
}

var _ = token.NoPos
