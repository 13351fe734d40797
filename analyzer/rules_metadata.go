package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C10", Title: "The policies of all superiors, and only those for its type, reach each metadata",
		Rule:      "Symbolic evaluation of TrustChain.Metadata (policies of two to five statements, absent and present) down to the combination of policies, and of Metadata.ApplyPolicy (by partial evaluation of its reflection) over the presence of policy and metadata of each entity type down to the application of a policy to a claim.",
		Technique: "symbolic evaluation with partial evaluation of reflection; provenance of every combined and applied policy",
		Min:       20,
		Run:       runPolicyFlow,
	})
	register(&Check{
		ID: "C16", Title: "A policy entry applies to the claim it is named after",
		Rule:      "Partial evaluation of the reflection in ApplyPolicy of every metadata type, once per claim of the type: the entry named like the claim (or like no claim of the type) is applied to that claim's value and presence, the result is stored in that claim, and no other claim changes.",
		Technique: "symbolic evaluation with partial evaluation of reflection over all claims of all metadata types",
		Min:       200,
		Run:       runClaims,
	})
}

// policyTypes are the named metadata types to which a MetadataPolicy can be applied.
func (c *C) policyTypes() []*types.Named {
	pol := c.P.Named("", "MetadataPolicy")
	sp := c.P.SSAPkg("")
	if pol == nil || sp == nil {
		return nil
	}
	var out []*types.Named
	for _, n := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, ok := nt.Underlying().(*types.Struct); !ok {
			continue
		}
		for i := 0; i < nt.NumMethods(); i++ {
			f := nt.Method(i)
			s := f.Type().(*types.Signature)
			if f.Name() == "ApplyPolicy" && s.Params().Len() == 1 && types.Identical(s.Params().At(0).Type(), pol) {
				out = append(out, nt)
			}
		}
	}
	return out
}

func jsonTag(s *types.Struct, i int) (string, bool) {
	t, ok := reflect.StructTag(s.Tag(i)).Lookup("json")
	if !ok {
		return "", false
	}
	t, _, _ = strings.Cut(t, ",")
	return t, t != "-" && t != ""
}

// ---- C10 ----

func runPolicyFlow(c *C) {
	c.chainPolicies()
	c.metadataPolicies()
}

// combineLeaves lists the policies a combined policy was made from; fail reports a reason.
func (c *C) combineLeaves(x *Exec, st *State, v *Term, out *[]*Term) string {
	v = unMk(v)
	if v.isNilConst() || v.op == OpZero {
		return ""
	}
	if v.op == OpRes && len(v.args) == 1 && v.args[0].op == OpCall && strings.HasSuffix(v.args[0].str, "CombineMetadataPolicy") {
		cl := v.args[0]
		if ok, known := x.Known(st, c.T.IsNil(c.T.mk(OpRes, "", 1, nil, nil, cl))); !known || !ok {
			return "the result of a combination is used although it may have failed"
		}
		for _, a := range cl.args[1:] {
			l, ok := x.listOf(st, a)
			if !ok {
				return "the policies that are combined are not known"
			}
			for _, p := range l {
				p = unMk(p)
				if p.op == OpRes {
					if r := c.combineLeaves(x, st, p, out); r != "" {
						return r
					}
					continue
				}
				*out = append(*out, p)
			}
		}
		return ""
	}
	return "a policy is used that was not verified and combined"
}

func (c *C) chainPolicies() {
	T := c.T
	fn := c.Fn("", "TrustChain.Metadata")
	es, mps, pol, md := c.P.Named("", "EntityStatement"), c.P.Named("", "MetadataPolicies"), c.P.Named("", "MetadataPolicy"), c.P.Named("", "Metadata")
	if fn == nil || !c.Anchor("types EntityStatement, MetadataPolicies, MetadataPolicy and Metadata", es != nil && mps != nil && pol != nil && md != nil) {
		return
	}
	ps := mps.Underlying().(*types.Struct)
	var extra *types.Var
	for i := 0; i < ps.NumFields(); i++ {
		if _, ok := ps.Field(i).Type().(*types.Map); ok {
			extra = ps.Field(i)
		}
	}
	if !c.Anchor("policies for other entity types", extra != nil) {
		return
	}
	key := func(s string) *Term { return strConst(c, s) }
	type shape struct {
		pol   []bool // which statements carry policies
		extra []int  // which of the keys a (1), b (2) their policies for other types have
	}
	shapes := []shape{
		{[]bool{false, true}, []int{0, 1}}, {[]bool{false, false}, []int{0, 0}},
		{[]bool{false, true, false}, []int{0, 3, 0}}, {[]bool{false, false, true}, []int{0, 0, 1}},
		{[]bool{false, true, true}, []int{0, 1, 1}}, {[]bool{false, true, true, false}, []int{0, 1, 2, 0}},
		{[]bool{false, false, true, true}, []int{0, 0, 3, 1}}, {[]bool{false, true, false, true}, []int{0, 2, 0, 2}},
		{[]bool{false, true, true, true, false}, []int{0, 1, 1, 3, 0}},
	}
	for _, sh := range shapes {
		n := len(sh.pol)
		name := fmt.Sprintf("policies%v%v", sh.pol, sh.extra)
		h := &Hooks{Forward: true, Exact: true, Reflect: true}
		isApply := func(n string) bool { return n == "oidfed.Metadata.ApplyPolicy" }
		h.Opaque = func(f *ssa.Function, n string) bool {
			return strings.HasPrefix(n, "cache.") || isApply(n) || strings.HasSuffix(n, "CombineMetadataPolicy") || strings.HasSuffix(n, "TrustChain.hash") || strings.HasSuffix(n, ".ExpiresAt")
		}
		h.Model = setLib
		h.Pin = func(g *Term) bool { return g.op == OpCall }
		arr := c.arr("c", n)
		reached := 0
		var leaf *Term
		h.OnCall = func(x *Exec, st *State, ev *CallEvent) {
			if !isApply(ev.Name) || len(ev.Addrs) != 2 {
				return
			}
			reached++
			// the metadata
			m := ev.Addrs[0]
			own := m == leaf || m == x.load(st, leaf) || x.content(st, m) == x.content(st, leaf)
			none, known := x.Known(st, T.IsNil(leaf))
			if known && none {
				own = true
				for i := 0; i < md.Underlying().(*types.Struct).NumFields(); i++ {
					v := T.Sel(m, md.Underlying().(*types.Struct), i)
					if m.op == OpAlloc {
						v = x.load(st, x.fieldAddr(m, md.Underlying().(*types.Struct), i))
					}
					if z, ok := x.Known(st, T.IsNil(v)); !ok || !z {
						own = false
					}
				}
			}
			c.Ob("subject-metadata", fn.Pos(), own, "the policies are not applied to the metadata of the chain's first statement but to %v%s", m, c.Path(st))
			// the policies
			p := ev.Addrs[1]
			for i := 0; i < ps.NumFields(); i++ {
				f := ps.Field(i)
				if f == extra {
					continue
				}
				var leaves []*Term
				v := x.load(st, x.fieldAddr(p, ps, i))
				if r := c.combineLeaves(x, st, v, &leaves); r != "" {
					c.Ob("combined:"+f.Name(), fn.Pos(), false, "%s: %v%s", r, v, c.Path(st))
					continue
				}
				c.leafSet("combined:"+f.Name(), fn, x, st, leaves, func(k int, q *Term) []*Term {
					if !sh.pol[k] {
						return nil
					}
					return []*Term{x.load(st, x.fieldAddr(q, ps, i))}
				}, arr, es, n)
			}
			for i := 0; i < ps.NumFields(); i++ {
				if ps.Field(i) != extra {
					continue
				}
				mv := x.load(st, x.fieldAddr(p, ps, i))
				for b, k := range []string{"type_a", "type_b"} {
					want, may := 0, 0
					for j, e := range sh.extra {
						if e&(1<<b) != 0 {
							may++
							if j > 0 && j < n-1 {
								want++
							}
						}
					}
					keys, ok := x.mapKeys(st, unMk(mv))
					if !ok {
						c.Ob("combined:other-types", fn.Pos(), false, "the policies for other entity types are not known%s", c.Path(st))
						continue
					}
					has, _ := x.hasKey(st, keys, key(k))
					if !has || may == 0 {
						c.Ob("combined:other-types", fn.Pos(), has && may > 0 || !has && want == 0, "the policies for an entity type without own field are lost or made up%s", c.Path(st))
						continue
					}
					var leaves []*Term
					v := x.load(st, T.Elem(unMk(mv), key(k)))
					if r := c.combineLeaves(x, st, v, &leaves); r != "" {
						c.Ob("combined:other-types", fn.Pos(), false, "%s: %v%s", r, v, c.Path(st))
						continue
					}
					c.leafSet("combined:other-types", fn, x, st, leaves, func(j int, q *Term) []*Term {
						if sh.extra[j]&(1<<b) == 0 {
							return nil
						}
						return []*Term{x.load(st, T.Elem(x.load(st, x.fieldAddr(q, ps, i)), key(k)))}
					}, arr, es, n)
				}
			}
		}
		x := NewExec(c.P, c.T, h)
		st := NewState()
		if m := newPolicyModel(c); m != nil {
			st = m.state()
		}
		for i := 0; i < n; i++ {
			s := T.Elem(arr, T.Int(i))
			st.facts[T.IsNil(s)] = false
			st.mem[c.Sel(s, es, "MetadataPolicyCrit")] = T.mk(OpList, "", 0, nil, nil)
			q := c.Sel(s, es, "MetadataPolicy")
			if !sh.pol[i] {
				st.mem[q] = T.Nil()
				continue
			}
			qp := T.mk(OpParam, fmt.Sprintf("policies%d", i), 0, nil, types.NewPointer(mps))
			st.mem[q] = qp
			st.facts[T.IsNil(qp)] = false
			var ks []*Term
			for b, k := range []string{"type_a", "type_b"} {
				if sh.extra[i]&(1<<b) != 0 {
					ks = append(ks, key(k))
				}
			}
			for j := 0; j < ps.NumFields(); j++ {
				if ps.Field(j) == extra {
					x.SetKeys(st, x.load(st, x.fieldAddr(qp, ps, j)), ks...)
				}
			}
		}
		leaf = c.Sel(T.Elem(arr, T.Int(0)), es, "Metadata")
		outs := x.Run(fn, []*Term{arr}, st)
		c.Done(x, name)
		c.Anchor("policies are applied for "+name, reached > 0)
		for _, o := range outs {
			if o.panic || o.res.op != OpTuple || len(o.res.args) != 2 {
				continue
			}
			c.Paths++
			bad := false
			for f, v := range o.st.facts {
				b, _ := stripNot(f)
				if b.op == OpIsNil && !v && b.args[0].op == OpRes && b.args[0].num == 1 && b.args[0].args[0].op == OpCall {
					s := b.args[0].args[0].str
					if strings.HasSuffix(s, "CombineMetadataPolicy") || isApply(s) {
						bad = true
					}
				}
			}
			isErr, known := isErrTerm(x, o.st, o.res.args[1])
			if bad {
				c.Ob("errors", fn.Pos(), known && isErr, "policies that could not be combined or applied do not lead to an error%s", c.Path(o.st))
				continue
			}
			v := unMk(o.res.args[0])
			fromCache := false
			for f, w := range o.st.facts {
				b, p := stripNot(f)
				if b.op == OpRes && b.args[0].op == OpCall && strings.HasPrefix(b.args[0].str, "cache.Get") && b.num == 0 && w == p {
					fromCache = true
				}
			}
			if fromCache {
				continue
			}
			ok := known && !isErr && v.op == OpRes && v.num == 0 && v.args[0].op == OpCall && isApply(v.args[0].str)
			c.Ob("result", fn.Pos(), ok, "what is returned is not the outcome of applying the policies: %v%s", o.res, c.Path(o.st))
		}
	}
}

// leafSet compares the combined policies with those of the superiors; the policies of the first
// and the last statement (an entity's own) may or may not be among them.
func (c *C) leafSet(key string, fn *ssa.Function, x *Exec, st *State, leaves []*Term, of func(i int, q *Term) []*Term, arr *Term, es *types.Named, n int) {
	left := map[*Term]bool{}
	for _, l := range leaves {
		left[l] = true
	}
	for i := 0; i < n; i++ {
		s := c.T.Elem(arr, c.T.Int(i))
		for _, w := range of(i, x.load(st, c.Sel(s, es, "MetadataPolicy"))) {
			w = unMk(w)
			has := left[w]
			delete(left, w)
			if has || i == 0 || i == n-1 {
				continue
			}
			nilp, k1 := x.Known(st, c.T.IsNil(w))
			emp, k2 := x.Known(st, c.T.Empty(w))
			c.Ob(key, fn.Pos(), k1 && nilp || k2 && emp, "the policy %v of the statement at position %d of %d does not reach the combined policy%s", w, i, n, c.Path(st))
		}
	}
	for l := range left {
		nilp, k1 := x.Known(st, c.T.IsNil(l))
		c.Ob(key, fn.Pos(), k1 && nilp, "%v is combined with the policies of this entity type, but is none of them%s", l, c.Path(st))
	}
	c.Ob(key, fn.Pos(), true, "")
}

// metadataPolicies: the policy of an entity type is applied to the metadata of that type.
func (c *C) metadataPolicies() {
	T := c.T
	fn := c.Fn("", "Metadata.ApplyPolicy")
	mps, md := c.P.Named("", "MetadataPolicies"), c.P.Named("", "Metadata")
	if fn == nil || mps == nil || md == nil || !c.Anchor("ApplyPolicy takes policies", len(fn.Params) == 2) {
		return
	}
	ps, ms := mps.Underlying().(*types.Struct), md.Underlying().(*types.Struct)
	// fields correspond by the name of the entity type
	polOf := map[int]int{}
	mExtra, pExtra := -1, -1
	var fields []int
	for i := 0; i < ms.NumFields(); i++ {
		tag, ok := jsonTag(ms, i)
		if !ok {
			mExtra = i
			continue
		}
		fields = append(fields, i)
		polOf[i] = -1
		for j := 0; j < ps.NumFields(); j++ {
			if t, ok := jsonTag(ps, j); ok && t == tag {
				polOf[i] = j
			}
		}
		c.Ob("policy-field:"+tag, ms.Field(i).Pos(), polOf[i] >= 0, "there is metadata for the entity type %s but no policy", tag)
		if polOf[i] < 0 {
			return
		}
	}
	for j := 0; j < ps.NumFields(); j++ {
		if _, ok := jsonTag(ps, j); !ok {
			pExtra = j
		}
	}
	if !c.Anchor("metadata and policies of other entity types", mExtra >= 0 && pExtra >= 0) {
		return
	}
	mapAny := types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
	pols := c.policyTypes()
	isType := func(t types.Type) bool {
		for _, p := range pols {
			if types.Identical(p, deref(t)) {
				return true
			}
		}
		return false
	}
	run := func(mode map[int]int, extra int, name string) {
		h := &Hooks{Forward: true, Exact: true, Reflect: true}
		h.Opaque = func(f *ssa.Function, n string) bool { return strings.HasSuffix(n, "MetadataPolicyEntry.ApplyTo") }
		h.Pin = func(g *Term) bool { return g.op == OpCall }
		applied := func(m, p *Term) *Term { return T.mk(OpCall, "#applied", 0, nil, nil, m, p) }
		h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
			if ev.Fn == nil || ev.Fn.Name() != "ApplyPolicy" || ev.Fn.Signature.Recv() == nil || !isType(ev.Fn.Signature.Recv().Type()) || len(ev.Addrs) != 2 {
				return nil, false
			}
			m := ev.Addrs[0]
			if _, ok := ev.Fn.Signature.Recv().Type().(*types.Pointer); ok {
				m = x.load(st, m)
			}
			a := applied(m, ev.Addrs[1])
			e := T.mk(OpCall, "#failure", 0, nil, nil, a)
			s2 := st.clone()
			st.facts[T.IsNil(e)] = false
			s2.facts[T.IsNil(a)] = false
			s2.facts[a] = true
			r := T.mk(OpMk, "", 0, nil, types.NewPointer(deref(ev.Fn.Signature.Recv().Type())), a)
			return []Outcome{{st: s2, res: T.mk(OpTuple, "", 0, nil, nil, r, T.Nil())}, {st: st, res: T.mk(OpTuple, "", 0, nil, nil, T.Nil(), e)}}, true
		}
		x := NewExec(c.P, c.T, h)
		st := NewState()
		m, p := x.Param("m", md), x.Param("p", types.NewPointer(mps))
		st.facts[T.IsNil(p)] = false
		for _, i := range fields {
			st.facts[T.IsNil(T.Sel(m, ms, i))] = mode[i]&1 == 0
			pv := x.load(st, x.fieldAddr(p, ps, polOf[i]))
			st.facts[T.IsNil(pv)] = mode[i]&2 == 0
			st.facts[T.Empty(pv)] = mode[i]&2 == 0
		}
		ka, kb, kc := strConst(c, "type_a"), strConst(c, "type_b"), strConst(c, "type_c")
		claim, other := strConst(c, "claim"), strConst(c, "other")
		mx, px := T.Sel(m, ms, mExtra), x.load(st, x.fieldAddr(p, ps, pExtra))
		var va, vb *Term
		switch extra {
		case 0:
			x.SetKeys(st, mx)
			x.SetKeys(st, px, ka)
		case 1, 2:
			x.SetKeys(st, mx, ka, kb)
			x.SetKeys(st, px, ka, kc)
			va = T.mk(OpParam, "a", 0, nil, mapAny)
			vb = T.mk(OpParam, "b", 0, nil, nil)
			x.SetKeys(st, va, claim, other)
			if extra == 2 {
				x.SetKeys(st, va, other)
			}
			st.mem[T.Elem(mx, ka)] = T.mk(OpMk, "", 0, nil, mapAny, va)
			st.mem[T.Elem(mx, kb)] = vb
			pa := T.mk(OpParam, "pa", 0, nil, c.P.Named("", "MetadataPolicy"))
			x.SetKeys(st, pa, claim)
			st.facts[T.IsNil(pa)] = false
			st.mem[T.Elem(px, ka)] = pa
		}
		outs := x.Run(fn, []*Term{m, p}, st)
		c.Done(x, name)
		good := 0
		for _, o := range outs {
			if o.panic || o.res.op != OpTuple || len(o.res.args) != 2 {
				c.Ob("no-panic", fn.Pos(), !o.panic, "applying policies panics%s", c.Path(o.st))
				continue
			}
			c.Paths++
			isErr, known := isErrTerm(x, o.st, o.res.args[1])
			failedSome := false
			for f, v := range o.st.facts {
				b, pol := stripNot(f)
				if b.op == OpIsNil && (b.args[0].op == OpCall && b.args[0].str == "#failure" || isApplyToErr(b.args[0])) && v != pol {
					failedSome = true
				}
			}
			if !known || isErr != failedSome {
				c.Ob("errors", fn.Pos(), false, "an error is returned without an operator having failed, or the failure of one is not reported%s", c.Path(o.st))
				continue
			}
			if isErr {
				c.Ob("errors", fn.Pos(), true, "")
				continue
			}
			good++
			r := o.res.args[0]
			for _, i := range fields {
				tag, _ := jsonTag(ms, i)
				v := x.load(o.st, x.fieldAddr(r, ms, i))
				mv := T.Sel(m, ms, i)
				pv := x.load(o.st, x.fieldAddr(p, ps, polOf[i]))
				var ok bool
				switch mode[i] {
				case 0, 2:
					z, k := x.Known(o.st, T.IsNil(v))
					ok = k && z
				case 1:
					ok = unMk(v) == unMk(mv)
				case 3:
					u := unMk(v)
					ok = u.op == OpCall && u.str == "#applied" && (u.args[0] == mv || u.args[0] == x.load(o.st, mv) || x.content(o.st, u.args[0]) == x.content(o.st, mv)) && u.args[1] == pv
				}
				c.Ob("type:"+tag, fn.Pos(), ok, "metadata of the type %s (present: %v, policy: %v) becomes %v%s", tag, mode[i]&1 == 1, mode[i]&2 == 2, v, c.Path(o.st))
			}
			ev := x.load(o.st, x.fieldAddr(r, ms, mExtra))
			if extra == 0 {
				ks, ok := x.mapKeys(o.st, unMk(ev))
				c.Ob("other-types", fn.Pos(), ok && len(ks) == 0, "metadata of an entity type that the entity does not have appears%s", c.Path(o.st))
				continue
			}
			ks, ok := x.mapKeys(o.st, unMk(ev))
			hasA, _ := x.hasKey(o.st, ks, ka)
			hasB, _ := x.hasKey(o.st, ks, kb)
			if !c.Ob("other-types", fn.Pos(), ok && hasA && hasB && len(ks) == 2, "the metadata of entity types without own field is not kept%s", c.Path(o.st)) {
				continue
			}
			gb := x.load(o.st, T.Elem(unMk(ev), kb))
			c.Ob("other-types", fn.Pos(), unMk(gb) == vb, "metadata of an entity type for which there is no policy becomes %v%s", gb, c.Path(o.st))
			ga := unMk(x.load(o.st, T.Elem(unMk(ev), ka)))
			ck, ok := x.mapKeys(o.st, ga)
			if !c.Ob("other-types-claims", fn.Pos(), ok, "the claims of metadata of an entity type without own field are not known: %v%s", ga, c.Path(o.st)) {
				continue
			}
			c.otherClaims(fn, x, o.st, "other-types-claims", ga, ck, va, px, ka, claim, other, extra == 1)
			c.Ob("other-types-claims", fn.Pos(), ga != va, "the metadata of the entity itself is overwritten%s", c.Path(o.st))
		}
		c.Anchor("policies can be applied for "+name, good > 0)
	}
	for _, i := range fields {
		tag, _ := jsonTag(ms, i)
		for own := 0; own < 4; own++ {
			for rest := 0; rest < 4; rest++ {
				mode := map[int]int{}
				for _, j := range fields {
					mode[j] = rest
				}
				mode[i] = own
				run(mode, (own+rest)%3, fmt.Sprintf("%s:%d/%d", tag, own, rest))
			}
		}
	}
	// no policies at all
	h := &Hooks{Forward: true, Reflect: true}
	x := NewExec(c.P, c.T, h)
	st := NewState()
	m := x.Param("m", md)
	outs := x.Run(fn, []*Term{m, T.Nil()}, st)
	c.Done(x, "none")
	for _, o := range outs {
		c.Paths++
		r := o.res.args[0]
		ok := o.res.args[1].isNilConst()
		for i := 0; i < ms.NumFields(); i++ {
			ok = ok && unMk(x.load(o.st, x.fieldAddr(r, ms, i))) == T.Sel(m, ms, i)
		}
		c.Ob("no-policies", fn.Pos(), ok, "without policies the metadata changes%s", c.Path(o.st))
	}
}

func isApplyToErr(t *Term) bool {
	return t.op == OpRes && t.num == 1 && len(t.args) == 1 && t.args[0].op == OpCall && strings.HasSuffix(t.args[0].str, "MetadataPolicyEntry.ApplyTo")
}

// otherClaims compares a map of claims with the application of a policy {claim: ...} to {claim?, other}.
func (c *C) otherClaims(fn *ssa.Function, x *Exec, st *State, key string, got *Term, keys []*Term, orig, px, ka, claim, other *Term, had bool) {
	T := c.T
	n := 0
	if has, _ := x.hasKey(st, keys, other); has {
		n++
		v := x.load(st, T.Elem(got, other))
		c.Ob(key, fn.Pos(), unMk(v) == unMk(x.load(st, T.Elem(orig, other))), "a claim without policy changes to %v%s", v, c.Path(st))
	} else {
		c.Ob(key, fn.Pos(), false, "a claim without policy is lost%s", c.Path(st))
	}
	if has, _ := x.hasKey(st, keys, claim); has {
		n++
		v := unMk(x.load(st, T.Elem(got, claim)))
		ok := v.op == OpRes && v.num == 0 && strings.HasSuffix(v.args[0].str, "MetadataPolicyEntry.ApplyTo")
		if ok {
			ok = c.applyToArgs(x, st, v.args[0], x.load(st, T.Elem(x.load(st, T.Elem(px, ka)), claim)), orig, claim, had)
		}
		c.Ob(key, fn.Pos(), ok, "a claim with a policy entry becomes %v instead of the result of applying the entry to it%s", v, c.Path(st))
		return
	}
	// removed: the entry's result is nothing
	none := false
	for f, v := range st.facts {
		b, p := stripNot(f)
		if b.op == OpIsNil && v == p && b.args[0].op == OpRes && b.args[0].num == 0 && strings.HasSuffix(b.args[0].args[0].str, "MetadataPolicyEntry.ApplyTo") {
			none = c.applyToArgs(x, st, b.args[0].args[0], x.load(st, T.Elem(x.load(st, T.Elem(px, ka)), claim)), orig, claim, had)
		}
	}
	c.Ob(key, fn.Pos(), none, "a claim with a policy entry is missing although applying the entry may give a value%s", c.Path(st))
	c.Ob(key, fn.Pos(), n == len(keys), "claims are made up%s", c.Path(st))
}

func (c *C) applyToArgs(x *Exec, st *State, call, entry, orig, claim *Term, had bool) bool {
	if len(call.args) < 3 || unMk(call.args[0]) != unMk(entry) {
		return false
	}
	set, ok := x.Known(st, call.args[2])
	if !ok || set != had {
		return false
	}
	if had {
		return unMk(call.args[1]) == unMk(x.load(st, c.T.Elem(orig, claim)))
	}
	nilv, ok := x.Known(st, c.T.IsNil(call.args[1]))
	return ok && nilv
}

// ---- C16 ----

func runClaims(c *C) {
	T := c.T
	pol, ent := c.P.Named("", "MetadataPolicy"), c.P.Named("", "MetadataPolicyEntry")
	ts := c.policyTypes()
	if !c.Anchor("types MetadataPolicy and MetadataPolicyEntry", pol != nil && ent != nil) || !c.Anchor("metadata types to which policies apply", len(ts) >= 6) {
		return
	}
	for _, nt := range ts {
		fn := c.P.Func("", nt.Obj().Name()+".ApplyPolicy")
		if fn == nil || !c.Anchor("ApplyPolicy of "+nt.Obj().Name(), len(fn.Params) == 2) {
			continue
		}
		s := nt.Underlying().(*types.Struct)
		ex, ws := -1, -1
		var claims []int
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if _, ok := jsonTag(s, i); ok && f.Exported() {
				claims = append(claims, i)
				continue
			}
			if m, ok := f.Type().Underlying().(*types.Map); ok {
				switch {
				case types.IsInterface(m.Elem()):
					ex = i
				case types.Identical(m.Elem(), types.Typ[types.Bool]):
					ws = i
				}
			}
		}
		if !c.Anchor("presence and further claims of "+nt.Obj().Name(), ex >= 0 && ws >= 0) {
			continue
		}
		for _, i := range append(claims, -1) {
			c.claimRun(fn, nt, s, i, ex, ws, claims, ent)
		}
	}
	_ = T
}

// claimRun applies a policy for claim i of the type (-1: for a claim the type does not have).
func (c *C) claimRun(fn *ssa.Function, nt *types.Named, s *types.Struct, i, ex, ws int, claims []int, ent *types.Named) {
	T := c.T
	tag := "x_claim"
	var ft types.Type
	if i >= 0 {
		tag, _ = jsonTag(s, i)
		ft = s.Field(i).Type()
	}
	key := nt.Obj().Name() + ":" + tag
	kt, ko := strConst(c, tag), strConst(c, "x_other")
	modes := []string{"set", "foreign"}
	if i < 0 {
		modes = []string{"set", "new", "empty"}
	}
	if tag == "scope" {
		modes = append(modes, "strings")
	}
	for _, mode := range modes {
		h := &Hooks{Forward: true, Exact: true, Reflect: true}
		h.Pin = func(g *Term) bool { return g.op == OpCall }
		x := NewExec(c.P, c.T, h)
		st := NewState()
		m, p := x.Param("m", nt), x.Param("p", fn.Params[1].Type())
		if _, ok := fn.Params[0].Type().(*types.Pointer); ok {
			m = x.Param("m", types.NewPointer(nt))
			st.facts[T.IsNil(m)] = false
		}
		get := func(st *State, i int) *Term {
			if _, ok := fn.Params[0].Type().(*types.Pointer); ok {
				return x.load(NewState(), x.fieldAddr(m, s, i))
			}
			return T.Sel(m, s, i)
		}
		st.facts[T.IsNil(p)] = false
		x.SetKeys(st, p, kt)
		e := T.mk(OpParam, "entry", 0, nil, ent)
		st.mem[T.Elem(p, kt)] = e
		extra := get(st, ex)
		var had *Term
		switch {
		case i < 0 && mode == "set":
			x.SetKeys(st, extra, kt, ko)
			had = T.mk(OpParam, "had", 0, nil, nil)
			st.mem[T.Elem(extra, kt)] = had
			st.mem[T.Elem(extra, ko)] = T.mk(OpParam, "other", 0, nil, nil)
			st.facts[T.IsNil(extra)] = false
		case mode == "empty":
			x.SetKeys(st, extra)
		default:
			x.SetKeys(st, extra, ko)
			st.mem[T.Elem(extra, ko)] = T.mk(OpParam, "other", 0, nil, nil)
			st.facts[T.IsNil(extra)] = false
		}
		val := T.mk(OpParam, "value", 0, nil, nil)
		failure := T.mk(OpParam, "failure", 0, nil, nil)
		calls := 0
		h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
			if ev.Fn == nil || !strings.HasSuffix(ev.Name, "MetadataPolicyEntry.ApplyTo") || len(ev.Addrs) < 3 {
				return nil, false
			}
			calls++
			ok := unMk(ev.Addrs[0]) == e
			c.Ob("entry:"+key, fn.Pos(), ok, "the policy entry that is applied is not the one of the claim but %v", ev.Addrs[0])
			cur, set := unMk(ev.Addrs[1]), ev.Addrs[2]
			switch {
			case i >= 0:
				c.Ob("current:"+key, fn.Pos(), cur == get(st, i) || cur == x.load(st, get(st, i)) || x.content(st, cur) == x.content(st, get(st, i)), "the entry is applied to %v instead of the claim's value", ev.Addrs[1])
				w := x.load(st, T.Elem(get(st, ws), strConst(c, s.Field(i).Name())))
				c.Ob("presence:"+key, fn.Pos(), set == w || set == T.Elem(get(st, ws), strConst(c, s.Field(i).Name())), "the entry is applied with %v instead of the claim's presence", set)
			case had != nil:
				b, k := x.Known(st, set)
				c.Ob("current:"+key, fn.Pos(), cur == had && k && b, "the entry is applied to (%v, %v) instead of the value of a claim that is set", ev.Addrs[1], set)
			default:
				b, k := x.Known(st, set)
				z, kz := x.Known(st, T.IsNil(cur))
				c.Ob("current:"+key, fn.Pos(), k && !b && kz && z, "the entry of a claim that is not set is applied to (%v, %v)", ev.Addrs[1], set)
			}
			vt := ft
			if i < 0 {
				vt = types.Typ[types.String]
			}
			if mode == "foreign" {
				vt = types.NewMap(types.Typ[types.String], types.Typ[types.Int8])
			}
			if mode == "strings" {
				vt = types.NewSlice(types.Typ[types.String])
			}
			v := val
			if !types.IsInterface(vt) {
				v = T.mk(OpMk, "", 0, nil, vt, val)
			}
			s2, s3 := st.clone(), st.clone()
			fl := func(n string) *Term { return T.mk(OpParam, n, 0, nil, nil) }
			st.facts[T.IsNil(failure)] = false
			st.facts[fl("failed")] = true
			s2.facts[fl("gave")] = true
			s2.facts[T.IsNil(val)] = false
			s3.facts[fl("removed")] = true
			tu := func(a, b *Term) *Term { return T.mk(OpTuple, "", 0, nil, nil, a, b) }
			return []Outcome{{st: s2, res: tu(v, T.Nil())}, {st: s3, res: tu(T.Nil(), T.Nil())}, {st: st, res: tu(T.Nil(), failure)}}, true
		}
		outs := x.Run(fn, []*Term{m, p}, st)
		c.Done(x, key)
		if !c.Anchor("the entry for "+key+" is applied", calls > 0) {
			continue
		}
		for _, o := range outs {
			c.Paths++
			if o.panic || o.res == nil || o.res.op != OpTuple || len(o.res.args) != 2 {
				c.Ob("no-panic:"+key, fn.Pos(), false, "applying a policy to this claim panics%s", c.Path(o.st))
				continue
			}
			was := func(n string) bool { return o.st.facts[T.mk(OpParam, n, 0, nil, nil)] }
			isErr, known := isErrTerm(x, o.st, o.res.args[1])
			if was("failed") {
				c.Ob("error:"+key, fn.Pos(), known && isErr, "the error of an operator is not returned%s", c.Path(o.st))
				continue
			}
			if !known || isErr && mode != "foreign" {
				c.Ob("error:"+key, fn.Pos(), false, "an error is returned although no operator failed%s", c.Path(o.st))
				continue
			}
			if isErr {
				c.Ob("error:"+key, fn.Pos(), was("gave"), "an error is returned although no operator failed%s", c.Path(o.st))
				continue
			}
			r := unMk(o.res.args[0])
			field := func(j int) *Term {
				if r.op == OpAlloc || r.op == OpParam {
					return x.load(o.st, x.fieldAddr(r, s, j))
				}
				return T.Sel(r, s, j)
			}
			for _, j := range claims {
				v := unMk(field(j))
				if j != i {
					c.Ob("others:"+key, fn.Pos(), v == unMk(get(o.st, j)), "the policy entry of this claim changes the claim %s to %v%s", s.Field(j).Name(), v, c.Path(o.st))
					continue
				}
				switch {
				case was("removed"):
					z := v == T.Zero(ft) || v.op == OpZero
					if e := T.Eq(v, T.Zero(ft)); e.isConst("true") {
						z = true
					}
					if b, k := x.Known(o.st, T.Eq(v, T.Zero(ft))); k && b {
						z = true
					}
					c.Ob("stored:"+key, fn.Pos(), z, "an operator removed the claim, but it becomes %v%s", v, c.Path(o.st))
				case mode == "strings":
					c.Ob("stored:"+key, fn.Pos(), v.op == OpCall && v.str == "strings.Join" && v.args[0] == val && v.args[1].isConst(`" "`), "a list of scopes resulting from applying the entry becomes %v%s", v, c.Path(o.st))
				case mode == "foreign":
					c.Ob("stored:"+key, fn.Pos(), v.contains(val), "the result of applying the entry is not stored in the claim, which becomes %v%s", v, c.Path(o.st))
				default:
					c.Ob("stored:"+key, fn.Pos(), v == val, "the result of applying the entry is not stored in the claim, which becomes %v%s", v, c.Path(o.st))
				}
			}
			ev := unMk(field(ex))
			ks, ok := x.mapKeys(o.st, ev)
			if !c.Ob("further:"+key, fn.Pos(), ok, "the further claims are not known after applying the policy: %v%s", ev, c.Path(o.st)) {
				continue
			}
			n := 0
			if mode != "empty" {
				has, _ := x.hasKey(o.st, ks, ko)
				c.Ob("further:"+key, fn.Pos(), has && x.load(o.st, T.Elem(ev, ko)) == T.mk(OpParam, "other", 0, nil, nil), "a further claim without policy entry changes or is lost%s", c.Path(o.st))
				n++
			}
			if i < 0 {
				has, _ := x.hasKey(o.st, ks, kt)
				if was("gave") {
					n++
					c.Ob("stored:"+key, fn.Pos(), has && unMk(x.load(o.st, T.Elem(ev, kt))) == val, "the result of applying an entry to a further claim is not stored%s", c.Path(o.st))
				} else {
					c.Ob("stored:"+key, fn.Pos(), !has, "a further claim that an operator removed is still there%s", c.Path(o.st))
				}
				// the entity's own metadata stays as it is
				oks, ok := x.mapKeys(o.st, extra)
				oh, _ := x.hasKey(o.st, oks, kt)
				c.Ob("unshared:"+key, fn.Pos(), ok && oh == (had != nil) && (had == nil || x.load(o.st, T.Elem(extra, kt)) == had), "the claims of the entity itself are changed%s", c.Path(o.st))
			}
			c.Ob("further:"+key, fn.Pos(), len(ks) == n, "further claims are made up: %v%s", ks, c.Path(o.st))
		}
	}
}
