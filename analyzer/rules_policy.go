package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The operators of metadata policies that the specification defines, in the order of application:
// an operator is applied after those of lower rank.
var opRank = map[string]int{"value": 0, "add": 1, "default": 2, "one_of": 3, "subset_of": 3, "superset_of": 4, "essential": 5}
var opNamesSorted = []string{"value", "add", "default", "one_of", "subset_of", "superset_of", "essential"}

// opAlone lists the pairs of operators that must not appear together.
var opForbidden = map[[2]string]bool{
	{"one_of", "subset_of"}: true, {"one_of", "superset_of"}: true, {"add", "one_of"}: true,
}

func forbidden(a, b string) bool { return opForbidden[[2]string{a, b}] || opForbidden[[2]string{b, a}] }

// policyModel is the registry of operators and verifiers as the package initialisation leaves it.
type policyModel struct {
	c     *C
	st0   *State
	ops   map[string]*Term // name -> operator object (interface value)
	order []string
	ifc   *types.Interface
}

func newPolicyModel(c *C) *policyModel {
	m := &policyModel{c: c, ops: map[string]*Term{}}
	n := c.P.Named("", "PolicyOperator")
	if !c.Anchor("type PolicyOperator", n != nil) {
		return nil
	}
	m.ifc = n.Underlying().(*types.Interface)
	m.st0 = c.initState("")
	x := NewExec(c.P, c.T, &Hooks{Forward: true})
	// the registry is the package's map of operators by name, the order its list of names
	sp := c.P.SSAPkg("")
	on := c.P.Named("", "PolicyOperatorName")
	if !c.Anchor("type PolicyOperatorName", on != nil) {
		return nil
	}
	for _, mem := range sp.Members {
		g, ok := mem.(*ssa.Global)
		if !ok {
			continue
		}
		t := deref(g.Type())
		v := x.load(m.st0, c.T.mk(OpGlobal, sp.Pkg.Name()+"."+g.Name(), 0, g, g.Type()))
		switch u := t.Underlying().(type) {
		case *types.Map:
			if !types.Identical(u.Key(), on) || !types.Identical(u.Elem(), n) {
				continue
			}
			ks, ok := x.mapKeys(m.st0, v)
			if !c.Anchor("registry of policy operators", ok) {
				return nil
			}
			for _, k := range ks {
				m.ops[strings.Trim(k.str, `"`)] = x.load(m.st0, c.T.Elem(v, k))
			}
		case *types.Slice:
			if types.Identical(u.Elem(), on) && g.Object() != nil && g.Object().Exported() {
				l, ok := x.listOf(m.st0, v)
				if !c.Anchor("order of policy operators", ok) {
					return nil
				}
				for _, k := range l {
					m.order = append(m.order, strings.Trim(k.str, `"`))
				}
			}
		}
	}
	return m
}

func (m *policyModel) state() *State { return m.st0.clone() }

// method is the operator method a call invokes, if any.
func (m *policyModel) method(ev *CallEvent, name string) bool {
	if ev.Fn == nil {
		return strings.HasSuffix(ev.Name, "PolicyOperator."+name)
	}
	return m.methodFn(ev.Fn, name)
}

func (m *policyModel) methodFn(f *ssa.Function, name string) bool {
	return f.Name() == name && f.Signature.Recv() != nil && types.Implements(f.Signature.Recv().Type(), m.ifc)
}

// opOf is the name of the operator object t.
func (m *policyModel) opOf(t *Term) string {
	for n, o := range m.ops {
		if unMk(o) == unMk(t) {
			return n
		}
	}
	return "?"
}

func strConst(c *C, s string) *Term { return c.T.Const(`"`+s+`"`, types.Typ[types.UntypedString]) }

// bitsets of operators
func opSets(max int) [][]string {
	var out [][]string
	for b := 0; b < 1<<len(opNamesSorted); b++ {
		var s []string
		for i, o := range opNamesSorted {
			if b&(1<<i) != 0 {
				s = append(s, o)
			}
		}
		if len(s) <= max {
			out = append(out, s)
		}
	}
	return out
}

// ---- truth tables ----

type atoms struct {
	names []string
	terms map[string][]*Term
}

func (a *atoms) add(name string, ts ...*Term) {
	if a.terms == nil {
		a.terms = map[string][]*Term{}
	}
	if _, ok := a.terms[name]; !ok {
		a.names = append(a.names, name)
	}
	a.terms[name] = append(a.terms[name], ts...)
}

// each calls f for every valuation of the atoms that agrees with what is known in st.
func (a *atoms) each(x *Exec, st *State, f func(v map[string]bool)) {
	fix := map[string]bool{}
	var free []string
	for _, n := range a.names {
		known := false
		for _, t := range a.terms[n] {
			if v, ok := x.Known(st, t); ok {
				fix[n] = v
				known = true
			}
		}
		if !known {
			free = append(free, n)
		}
	}
	for b := 0; b < 1<<len(free); b++ {
		v := map[string]bool{}
		for k, w := range fix {
			v[k] = w
		}
		for i, n := range free {
			v[n] = b&(1<<i) != 0
		}
		f(v)
	}
}

// eval evaluates a boolean term under a valuation.
func (a *atoms) eval(t *Term, v map[string]bool) (bool, bool) {
	t = unMk(t)
	t, pol := stripNot(t)
	if t.isConst("true") || t.isConst("false") {
		return t.isConst("true") == pol, true
	}
	for _, n := range a.names {
		for _, u := range a.terms[n] {
			b, p2 := stripNot(u)
			if b == t {
				return (v[n] == p2) == pol, true
			}
		}
	}
	return false, false
}

// utilCall strips Slicify and reports the call of the repository's value helper name.
func isUtil(t *Term, name string) bool {
	return t.op == OpCall && strings.HasSuffix(t.str, "internal/utils."+name)
}

func unSlicify(t *Term) *Term {
	t = unMk(t)
	for isUtil(t, "Slicify") {
		t = unMk(t.args[0])
	}
	return t
}

// sameSet: t is the policy value p, possibly converted to another slice type.
func castOf(t, p *Term) bool {
	t = unSlicify(t)
	for isUtil(t, "ReflectSliceCast") {
		t = unSlicify(t.args[0])
	}
	return t == p
}

func setCall(t *Term, name string, a, b *Term, sym bool) bool {
	t = unMk(t)
	if !isUtil(t, name) || len(t.args) != 2 {
		return false
	}
	if castOf(t.args[0], a) && castOf(t.args[1], b) {
		return true
	}
	return sym && castOf(t.args[0], b) && castOf(t.args[1], a)
}

// utilsOpaque keeps the reflection helpers (their meaning is property C15) as symbols.
func utilsOpaque(f *ssa.Function, n string) bool {
	i := strings.LastIndex(n, "internal/utils.")
	if i < 0 {
		return false
	}
	switch n[i+len("internal/utils."):] {
	case "ReflectSliceCast", "ReflectSliceContains", "ReflectUnion", "ReflectIntersect", "ReflectIsSubsetOf", "IsSlice", "SliceEqual", "Slicify":
		return true
	}
	return false
}

// setFacts collects the atoms of st that test set relations between values of policies.
func relAtoms(x *Exec, st *State, at *atoms, name map[*Term]string) {
	reg := func(t *Term) {
		u := unMk(t)
		if u.op != OpCall || len(u.args) != 2 {
			return
		}
		a, aok := name[unSlicify(u.args[0])]
		b, bok := name[unSlicify(u.args[1])]
		if !aok || !bok {
			return
		}
		switch {
		case isUtil(u, "ReflectSliceContains"):
			at.add(a+" in "+b, u)
		case isUtil(u, "ReflectIsSubsetOf"):
			at.add(a+" subset "+b, u)
		case isUtil(u, "ReflectIsSupersetOf"):
			at.add(b+" subset "+a, u)
		case isUtil(u, "SliceEqual"):
			if a > b {
				a, b = b, a
			}
			at.add(a+" equals "+b, u)
		}
	}
	for f := range st.facts {
		b, _ := stripNot(f)
		reg(b)
	}
}

func init() {
	register(&Check{
		ID: "C09", Title: "Critical policy operators that are not understood invalidate the chain",
		Rule:      "Symbolic evaluation of TrustChain.Metadata for chains of one to three statements, each listing zero to two critical operators: every path that computes metadata has established, for every listed operator, that it is among the operators the package applies; every path that fails has a reason.",
		Technique: "path-sensitive abstract interpretation with symbolic statements; membership facts for every critical operator",
		Min:       3,
		Run:       runCrit,
	})
	register(&Check{
		ID: "C11", Title: "Policy operators are applied one after the other in the specified order",
		Rule:      "Symbolic evaluation of MetadataPolicyEntry.ApplyTo for every subset of the operators: the result is the value threaded through each operator of the entry exactly once, in the specified order, with the entry's policy value and essential flag, every error returned.",
		Technique: "symbolic evaluation over all operator subsets; operator applications as uninterpreted terms compared with the specified composition",
		Min:       100,
		Run:       runApplyOrder,
	})
	register(&Check{
		ID: "C12", Title: "Each policy operator has its specified effect on a value",
		Rule:      "Symbolic evaluation of each registered operator's Apply; every path's result is compared with the specified table for every valuation of value/policy presence, essential and the tested set relation that agrees with the path.",
		Technique: "path-sensitive abstract interpretation, outcome by outcome comparison with a truth table",
		Min:       7,
		Run:       runAppliers,
	})
	register(&Check{
		ID: "C13", Title: "Policies of several superiors are merged operator by operator",
		Rule:      "Symbolic evaluation of each operator's Merge against the specified table, and of CombineMetadataPolicy over maps of every small shape: the result contains exactly the claims and operators of the inputs, merged where both have them, and each of its entries was verified.",
		Technique: "symbolic evaluation over parametric map shapes with a data-independence rule; truth-table comparison for the operators",
		Min:       20,
		Run:       runMerge,
	})
	register(&Check{
		ID: "C14", Title: "Contradictory policies are rejected",
		Rule:      "Symbolic evaluation of MetadataPolicyEntry.Verify with the registered verifiers for every subset of the operators: it fails exactly when two operators must not be combined or a specified relation between their values does not hold; unknown operators have no influence.",
		Technique: "symbolic evaluation over all operator subsets, truth-table comparison",
		Min:       100,
		Run:       runVerifiers,
	})
}

// ---- C09 ----

func isErrTerm(x *Exec, st *State, t *Term) (bool, bool) {
	v, ok := x.Known(st, x.T.IsNil(t))
	return !v, ok
}

// forkIn decides v ∈ list, forking the state where that is open.
func (x *Exec) forkIn(st *State, v *Term, list []*Term) (in, out []*State) {
	cur := []*State{st}
	for _, e := range list {
		var next []*State
		for _, s := range cur {
			eq := x.T.Eq(e, v)
			if b, ok := x.Known(s, eq); ok {
				if b {
					in = append(in, s)
				} else {
					next = append(next, s)
				}
				continue
			}
			s2 := s.clone()
			if x.assume(s2, eq, true) {
				in = append(in, s2)
			}
			s3 := s.clone()
			if x.assume(s3, eq, false) {
				next = append(next, s3)
			}
		}
		cur = next
	}
	return in, cur
}

// setLib models the list functions of tideland.dev/go/slices on lists whose elements are known.
func setLib(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
	T := x.T
	switch {
	case strings.HasSuffix(ev.Name, "tideland.dev/go/slices.Subtract") && len(ev.Args) == 2:
		a, ok := x.listOf(st, ev.Args[0])
		if !ok {
			return nil, false
		}
		b, bok := x.listOf(st, ev.Args[1])
		type part struct {
			st   *State
			rest []*Term
		}
		parts := []part{{st, nil}}
		for _, e := range a {
			var np []part
			for _, p := range parts {
				var in, out []*State
				if bok {
					in, out = x.forkIn(p.st, e, b)
				} else {
					at := T.In(e, ev.Args[1])
					if v, ok := x.Known(p.st, at); ok {
						if v {
							in = []*State{p.st}
						} else {
							out = []*State{p.st}
						}
					} else {
						s2 := p.st.clone()
						if x.assume(s2, at, true) {
							in = []*State{s2}
						}
						s3 := p.st.clone()
						if x.assume(s3, at, false) {
							out = []*State{s3}
						}
					}
				}
				for _, s := range in {
					np = append(np, part{s, p.rest})
				}
				for _, s := range out {
					np = append(np, part{s, append(append([]*Term(nil), p.rest...), e)})
				}
			}
			parts = np
		}
		var outs []Outcome
		for _, p := range parts {
			outs = append(outs, Outcome{st: p.st, res: T.mk(OpList, "", 0, nil, nil, p.rest...)})
		}
		return outs, true
	case ev.Name == "slices.Contains" && len(ev.Args) == 2:
		b, ok := x.listOf(st, ev.Args[0])
		if !ok {
			return nil, false
		}
		in, out := x.forkIn(st, ev.Args[1], b)
		var outs []Outcome
		for _, s := range in {
			outs = append(outs, Outcome{st: s, res: T.Bool(true)})
		}
		for _, s := range out {
			outs = append(outs, Outcome{st: s, res: T.Bool(false)})
		}
		return outs, true
	}
	return nil, false
}

func runCrit(c *C) {
	m := newPolicyModel(c)
	if m == nil {
		return
	}
	T := c.T
	fn := c.Fn("", "TrustChain.Metadata")
	es := c.P.Named("", "EntityStatement")
	if fn == nil || !c.Anchor("type EntityStatement", es != nil) {
		return
	}
	for _, o := range opNamesSorted {
		c.Ob("understood:"+o, fn.Pos(), m.ops[o] != nil && contains(m.order, o), "the operator %s of the specification is not among the operators that are understood", o)
	}
	for _, o := range m.order {
		c.Ob("registered:"+o, fn.Pos(), m.ops[o] != nil, "%s counts as understood but there is no operator that applies it", o)
	}
	c.cutoff("crit", []*ssa.Function{fn}, 1, func(n string) bool {
		return strings.HasPrefix(n, "cache.") || strings.Contains(n, "ApplyPolicy") || strings.Contains(n, "MergeMetadataPolicies")
	})
	for _, cf := range [][]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {0, 0, 1}, {0, 2, 0}, {1, 1, 1}, {1}} {
		h := &Hooks{Forward: true, Exact: true}
		h.Opaque = func(f *ssa.Function, n string) bool {
			return strings.HasPrefix(n, "cache.") || strings.HasSuffix(n, ".ApplyPolicy") || strings.HasSuffix(n, "MergeMetadataPolicies") || strings.HasSuffix(n, ".hash") || strings.HasSuffix(n, ".ExpiresAt")
		}
		h.Model = setLib
		x := NewExec(c.P, c.T, h)
		st := m.state()
		arr := c.arr("c", len(cf))
		var crits []*Term
		for i, n := range cf {
			s := T.Elem(arr, T.Int(i))
			st.facts[T.IsNil(s)] = false
			f := c.Sel(s, es, "MetadataPolicyCrit")
			var l []*Term
			for j := 0; j < n; j++ {
				l = append(l, T.mk(OpParam, fmt.Sprintf("crit%d.%d", i, j), 0, nil, nil))
			}
			crits = append(crits, l...)
			st.mem[f] = T.mk(OpList, "", 0, nil, nil, l...)
		}
		for i, a := range crits { // different operators; which of them are understood is open
			for _, b := range crits[:i] {
				st.facts[T.Eq(a, b)] = false
			}
		}
		outs := x.Run(fn, []*Term{arr}, st)
		name := fmt.Sprintf("shape%v", cf)
		c.Done(x, name)
		good := 0
		for _, o := range outs {
			if o.panic || o.res.op != OpTuple {
				continue
			}
			c.Paths++
			isErr, known := isErrTerm(x, o.st, o.res.args[1])
			applied := o.res.args[0].contains1(func(u *Term) bool { return u.op == OpCall && strings.HasSuffix(u.str, ".ApplyPolicy") })
			if known && isErr {
				unsup := false
				for _, e := range crits {
					if m.understood(x, o.st, e, false) {
						unsup = true
					}
				}
				other := o.res.args[1].contains1(func(u *Term) bool {
					return u.op == OpCall && (strings.HasSuffix(u.str, ".ApplyPolicy") || strings.HasSuffix(u.str, "MergeMetadataPolicies"))
				})
				c.Ob("rejected-with-reason", fn.Pos(), unsup || other, "a chain is rejected although all its critical operators are understood and its policies could be combined and applied%s", c.Path(o.st))
				continue
			}
			if !applied {
				continue // cached, or no superiors
			}
			good++
			for _, e := range crits {
				c.Ob("critical-understood", fn.Pos(), m.understood(x, o.st, e, true), "metadata is computed although the critical operator %v of a statement may not be understood (chain shape %v)%s", e, cf, c.Path(o.st))
			}
		}
		if len(cf) > 1 {
			c.Anchor("metadata is computed for "+name, good > 0)
		}
	}
}

func contains(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

// understood: e is known to be (or not to be) one of the operators in the order of application.
func (m *policyModel) understood(x *Exec, st *State, e *Term, want bool) bool {
	if want {
		for _, o := range m.order {
			if v, ok := x.Known(st, x.T.Eq(e, strConst(m.c, o))); ok && v {
				return true
			}
		}
		return false
	}
	for _, o := range m.order {
		if v, ok := x.Known(st, x.T.Eq(e, strConst(m.c, o))); !ok || v {
			return false
		}
	}
	return true
}

// ---- C11 ----

func runApplyOrder(c *C) {
	m := newPolicyModel(c)
	if m == nil {
		return
	}
	T := c.T
	fn := c.Fn("", "MetadataPolicyEntry.ApplyTo")
	if fn == nil || !c.Anchor("ApplyTo takes a value, its presence and a path", len(fn.Params) == 4) {
		return
	}
	sets := opSets(7)
	type variant struct {
		s    []string
		k    int
		mode string // dynamic type of the value of essential
	}
	var vs []variant
	for k, s := range sets {
		if !contains(s, "essential") {
			vs = append(vs, variant{s, k, ""})
			continue
		}
		vs = append(vs, variant{s, k, "bool"}, variant{s, k, "string"}, variant{s, k, "nil"})
	}
	for _, va := range vs {
		s, k, mode := va.s, va.k, va.mode
		withUnknown := k%5 == 1
		h := &Hooks{Forward: true}
		h.Opaque = func(f *ssa.Function, n string) bool { return m.methodFn(f, "Apply") }
		h.Model = setLib
		x := NewExec(c.P, c.T, h)
		st := m.state()
		var args []*Term
		for i, p := range fn.Params {
			args = append(args, x.Param(fmt.Sprintf("%d:%s", i, p.Name()), p.Type()))
		}
		p := args[0]
		st.facts[T.IsNil(p)] = false
		var ks []*Term
		for _, o := range s {
			ks = append(ks, strConst(c, o))
		}
		if withUnknown {
			ks = append(ks, strConst(c, "unknown_operator"))
		}
		x.SetKeys(st, p, ks...)
		ess := T.Bool(false)
		pe := T.Elem(p, strConst(c, "essential"))
		switch mode {
		case "bool":
			ess = x.Param("ess", types.Typ[types.Bool])
			st.mem[pe] = T.mk(OpMk, "", 0, nil, types.Typ[types.Bool], ess)
		case "string":
			st.mem[pe] = T.mk(OpMk, "", 0, nil, types.Typ[types.String], x.Param("ess", types.Typ[types.String]))
		case "nil":
			st.mem[pe] = T.Nil()
		}
		outs := x.Run(fn, args, st)
		key := "{" + strings.Join(s, ",") + "}" + mode
		c.Done(x, key)
		fine := false
		for _, o := range outs {
			if o.panic || o.res.op != OpTuple || len(o.res.args) != 2 {
				c.Ob("no-panic:"+key, fn.Pos(), !o.panic, "ApplyTo panics for an entry with operators %v", s)
				continue
			}
			c.Paths++
			isErr, known := isErrTerm(x, o.st, o.res.args[1])
			if known && isErr {
				e := o.res.args[1]
				c.Ob("error-of-operator:"+key, fn.Pos(), e.contains1(func(u *Term) bool { return u.op == OpCall && strings.HasSuffix(u.str, ".Apply") }), "ApplyTo fails for operators %v although no operator did%s", s, c.Path(o.st))
				continue
			}
			fine = true
			bad := m.composition(x, o.st, args, o.res.args[0], s, ess)
			c.Ob("composition:"+key, fn.Pos(), bad == "", "operators %v: %s; the result is %v%s", s, bad, o.res.args[0], c.Path(o.st))
		}
		c.Ob("succeeds:"+key, fn.Pos(), fine, "ApplyTo never succeeds for operators %v", s)
	}
}

// composition checks that v is the specified composition of the operators s over the arguments.
func (m *policyModel) composition(x *Exec, st *State, args []*Term, v *Term, s []string, essential *Term) string {
	T := x.T
	var seq []string
	cur := v
	left := map[string]bool{}
	for _, o := range s {
		left[o] = true
	}
	for cur.op == OpRes && cur.num == 0 && cur.args[0].op == OpCall && strings.HasSuffix(cur.args[0].str, ".Apply") {
		call := cur.args[0]
		if len(call.args) != 6 {
			return "an operator gets other arguments than expected"
		}
		name := m.opOf(call.args[0])
		seq = append([]string{name}, seq...)
		if !left[name] {
			return fmt.Sprintf("%s is applied although the entry does not contain it or it was applied before", name)
		}
		delete(left, name)
		pv := x.load(st, T.Elem(args[0], strConst(m.c, name)))
		if call.args[3] != pv && unMk(call.args[3]) != unMk(pv) {
			return fmt.Sprintf("%s is applied with %v instead of its policy value", name, call.args[3])
		}
		if !x.Proves(st, T.IsNil(T.mk(OpRes, "", 2, nil, nil, call)), true) {
			e := false
			for f, val := range st.facts {
				if f.op == OpIsNil && f.args[0].op == OpRes && f.args[0].num == 2 && f.args[0].args[0] == call && val {
					e = true
				}
			}
			if !e {
				return fmt.Sprintf("an error of %s is not returned", name)
			}
		}
		// essential flag
		ess := call.args[4]
		if !x.Same(st, ess, essential) && !m.sameBool(x, st, ess, essential) {
			return fmt.Sprintf("%s takes the claim as essential if %v, the policy says %v", name, ess, essential)
		}
		prev, set := call.args[1], call.args[2]
		if unMk(prev).op == OpRes && unMk(prev).args[0].op == OpCall && strings.HasSuffix(unMk(prev).args[0].str, ".Apply") {
			p := unMk(prev)
			if p.num != 0 || set.op != OpRes || set.num != 1 || set.args[0] != p.args[0] {
				return fmt.Sprintf("%s gets the value %v with presence %v", name, prev, set)
			}
			cur = p
			continue
		}
		if prev != args[1] || !x.Same(st, set, args[2]) && !m.sameBool(x, st, set, args[2]) {
			return fmt.Sprintf("%s gets the value %v with presence %v", name, prev, set)
		}
		cur = prev
		break
	}
	if cur != args[1] {
		return "the result does not start from the given value"
	}
	if len(left) > 0 {
		var l []string
		for o := range left {
			l = append(l, o)
		}
		sort.Strings(l)
		return fmt.Sprintf("%v are not applied", l)
	}
	for i := range seq {
		for j := i + 1; j < len(seq); j++ {
			if opRank[seq[i]] > opRank[seq[j]] {
				return fmt.Sprintf("%s is applied before %s", seq[i], seq[j])
			}
		}
	}
	return ""
}

func (m *policyModel) sameBool(x *Exec, st *State, a, b *Term) bool {
	v, ok := x.Known(st, a)
	w, ok2 := x.Known(st, b)
	return ok && ok2 && v == w
}

// ---- C12 ----

func runAppliers(c *C) {
	m := newPolicyModel(c)
	if m == nil {
		return
	}
	T := c.T
	for _, name := range opNamesSorted {
		op := m.ops[name]
		if !c.Anchor("operator "+name, op != nil && op.op == OpMk) {
			continue
		}
		fn := m.lookupMethod(op, "Apply")
		if !c.Anchor("Apply of "+name, fn != nil && len(fn.Params) == 6) {
			continue
		}
		h := &Hooks{Forward: true, Opaque: utilsOpaque, Model: setLib}
		x := NewExec(c.P, c.T, h)
		st := m.state()
		v, set, pol, ess, path := x.Param("value", fn.Params[1].Type()), x.Param("valueSet", fn.Params[2].Type()), x.Param("policyValue", fn.Params[3].Type()), x.Param("essential", fn.Params[4].Type()), x.Param("pathInfo", fn.Params[5].Type())
		outs := x.Run(fn, []*Term{unMk(op), v, set, pol, ess, path}, st)
		c.Done(x, name)
		c.Ob("nonempty:"+name, fn.Pos(), len(outs) > 0, "operator %s has no path", name)
		for _, o := range outs {
			if o.panic || o.res.op != OpTuple {
				c.Ob("no-panic:"+name, fn.Pos(), !o.panic, "operator %s panics", name)
				continue
			}
			c.Paths++
			at := &atoms{}
			at.add("nilV", T.IsNil(v))
			at.add("set", set)
			at.add("nilP", T.IsNil(pol))
			at.add("ess", ess)
			isZero := T.mk(OpCall, "reflect.Value.IsZero", 0, nil, types.Typ[types.Bool], T.mk(OpCall, "reflect.ValueOf", 0, nil, nil, v))
			at.add("zeroV", isZero)
			at.add("boolP", T.mk(OpIs, "", 0, nil, types.Typ[types.Bool], pol))
			at.add("trueP", T.mk(OpAs, "", 0, nil, types.Typ[types.Bool], pol))
			for f := range o.st.facts {
				b, _ := stripNot(f)
				if b.op == OpCall && b.str == "reflect.Value.IsZero" && b.contains(v) {
					at.add("zeroV", b)
				}
				if isUtil(b, "IsSlice") && unMk(b.args[0]) == v {
					at.add("sliceV", b)
				}
			}
			at.add("sliceV")
			relAtoms(x, o.st, at, map[*Term]string{v: "value", pol: "policy"})
			at.add("value in policy")
			at.add("policy subset value")
			key := "result:" + name
			at.each(x, o.st, func(w map[string]bool) {
				if w["nilV"] && (w["zeroV"] || w["sliceV"]) || w["trueP"] && !w["boolP"] || w["boolP"] && w["nilP"] || w["zeroV"] && w["sliceV"] && false {
					return
				}
				want := applyOracle(name, w)
				got := m.classify(x, o, at, w, v, set, pol)
				if want == "policy,*" && strings.HasPrefix(got, "policy,") || want == got {
					c.Ob(key, fn.Pos(), true, "")
					return
				}
				// a missing value is nil
				if w["nilV"] && strings.Replace(want, "value,", "nil,", 1) == strings.Replace(got, "value,", "nil,", 1) {
					c.Ob(key, fn.Pos(), true, "")
					return
				}
				if w["nilP"] && strings.Replace(want, "policy,", "nil,", 1) == strings.Replace(got, "policy,", "nil,", 1) {
					c.Ob(key, fn.Pos(), true, "")
					return
				}
				c.Ob(key, fn.Pos(), false, "operator %s: for %s the result is %s (%v), the specification says %s%s", name, showVal(w), got, o.res, want, c.Path(o.st))
			})
		}
	}
}

func showVal(w map[string]bool) string {
	var l []string
	for k, v := range w {
		if v {
			l = append(l, k)
		} else {
			l = append(l, "not "+k)
		}
	}
	sort.Strings(l)
	return "[" + strings.Join(l, ", ") + "]"
}

func (m *policyModel) lookupMethod(op *Term, name string) *ssa.Function {
	ms := m.c.P.SSA.MethodSets.MethodSet(op.typ)
	sel := ms.Lookup(m.c.P.SSAPkg("").Pkg, name)
	if sel == nil {
		return nil
	}
	return m.c.P.SSA.MethodValue(sel)
}

// classify names the result of an operator: "<value|policy|union|intersection|nil>,<present>" or "error".
func (m *policyModel) classify(x *Exec, o Outcome, at *atoms, w map[string]bool, v, set, pol *Term) string {
	r, s, e := o.res.args[0], o.res.args[1], o.res.args[2]
	if isErr, known := isErrTerm(x, o.st, e); !known {
		return "an undetermined error"
	} else if isErr {
		return "error"
	}
	val := ""
	switch {
	case unMk(r) == v:
		val = "value"
	case r.isNilConst():
		val = "nil"
	case castOf(r, pol):
		val = "policy"
	case setCall(r, "ReflectUnion", v, pol, true):
		val = "union"
	case setCall(r, "ReflectIntersect", v, pol, true):
		val = "intersection"
	default:
		val = r.String()
	}
	b, ok := at.eval(s, w)
	if !ok {
		return val + ",unknown presence " + s.String()
	}
	return fmt.Sprintf("%s,%v", val, b)
}

func applyOracle(op string, w map[string]bool) string {
	same := fmt.Sprintf("value,%v", w["set"])
	switch op {
	case "value":
		if w["nilP"] {
			return "nil,false"
		}
		return "policy,true"
	case "add":
		if w["nilV"] {
			return fmt.Sprintf("policy,%v", !w["nilP"])
		}
		if w["nilP"] {
			return same
		}
		return "union,true"
	case "default":
		if !w["set"] && (w["nilV"] || w["zeroV"]) {
			return "policy,true"
		}
		return same
	case "one_of", "subset_of", "superset_of":
		if !w["set"] && !w["ess"] || w["nilP"] {
			return same
		}
		if !w["set"] {
			return "error"
		}
		switch op {
		case "subset_of":
			return "intersection,true"
		case "one_of":
			if w["value in policy"] {
				return same
			}
		case "superset_of":
			if w["policy subset value"] {
				return same
			}
		}
		return "error"
	case "essential":
		if w["boolP"] && w["trueP"] && (w["nilV"] || (!w["sliceV"] || !w["set"]) && w["zeroV"]) {
			return "error"
		}
		return same
	}
	return "?"
}

// ---- C13 ----

func mergeOracle(op string, w map[string]bool) []string {
	switch op {
	case "value":
		if w["a equals b"] {
			return []string{"a", "b"}
		}
		return []string{"error"}
	case "essential":
		a, b := w["boolA"] && w["trueA"], w["boolB"] && w["trueB"]
		return []string{fmt.Sprint(a || b)}
	}
	if w["nilA"] {
		return []string{"b"}
	}
	if w["nilB"] {
		return []string{"a"}
	}
	switch op {
	case "add", "superset_of":
		return []string{"union"}
	case "one_of", "subset_of":
		return []string{"intersection"}
	case "default":
		if w["a equals b"] {
			return []string{"a", "b"}
		}
		return []string{"error"}
	}
	return nil
}

func runMerge(c *C) {
	m := newPolicyModel(c)
	if m == nil {
		return
	}
	T := c.T
	for _, name := range opNamesSorted {
		op := m.ops[name]
		if !c.Anchor("operator "+name, op != nil && op.op == OpMk) {
			continue
		}
		fn := m.lookupMethod(op, "Merge")
		if !c.Anchor("Merge of "+name, fn != nil && len(fn.Params) == 4) {
			continue
		}
		x := NewExec(c.P, c.T, &Hooks{Forward: true, Opaque: utilsOpaque, Model: setLib})
		a, b, path := x.Param("a", fn.Params[1].Type()), x.Param("b", fn.Params[2].Type()), x.Param("pathInfo", fn.Params[3].Type())
		outs := x.Run(fn, []*Term{unMk(op), a, b, path}, m.state())
		c.Done(x, "merge "+name)
		key := "merge:" + name
		c.Ob(key, fn.Pos(), len(outs) > 0, "Merge of %s has no path", name)
		for _, o := range outs {
			if o.panic || o.res.op != OpTuple {
				c.Ob(key, fn.Pos(), !o.panic, "Merge of %s panics", name)
				continue
			}
			c.Paths++
			at := &atoms{}
			bo := types.Typ[types.Bool]
			at.add("nilA", T.IsNil(a))
			at.add("nilB", T.IsNil(b))
			at.add("boolA", T.mk(OpIs, "", 0, nil, bo, a))
			at.add("boolB", T.mk(OpIs, "", 0, nil, bo, b))
			at.add("trueA", T.mk(OpAs, "", 0, nil, bo, a))
			at.add("trueB", T.mk(OpAs, "", 0, nil, bo, b))
			relAtoms(x, o.st, at, map[*Term]string{a: "a", b: "b"})
			at.add("a equals b")
			at.each(x, o.st, func(w map[string]bool) {
				if w["trueA"] && !w["boolA"] || w["trueB"] && !w["boolB"] || w["boolA"] && w["nilA"] || w["boolB"] && w["nilB"] {
					return
				}
				if w["nilA"] != w["nilB"] && w["a equals b"] {
					return
				}
				got := ""
				r := o.res.args[0]
				if isErr, known := isErrTerm(x, o.st, o.res.args[1]); !known {
					got = "an undetermined error"
				} else if isErr {
					got = "error"
				} else if v, ok := at.eval(r, w); ok && name == "essential" {
					got = fmt.Sprint(v)
				} else if castOf(r, a) {
					got = "a"
				} else if castOf(r, b) {
					got = "b"
				} else if setCall(r, "ReflectUnion", a, b, true) {
					got = "union"
				} else if setCall(r, "ReflectIntersect", a, b, true) {
					got = "intersection"
				} else if r.isNilConst() {
					got = "nil"
				} else {
					got = r.String()
				}
				want := mergeOracle(name, w)
				ok := contains(want, got)
				if got == "nil" && (w["nilA"] && contains(want, "a") || w["nilB"] && contains(want, "b")) {
					ok = true
				}
				if w["nilA"] && w["nilB"] && (got == "a" || got == "b") && (contains(want, "a") || contains(want, "b")) {
					ok = true
				}
				c.Ob(key, fn.Pos(), ok, "merging two %s operators: for %s the result is %s, the specification says %v%s", name, showVal(w), got, want, c.Path(o.st))
			})
		}
	}
	m.combine()
}

// combine evaluates CombineMetadataPolicy over maps of small shapes. A policy maps claims to
// entries, an entry maps operators to values.
func (m *policyModel) combine() {
	c := m.c
	T := c.T
	fn := c.Fn("", "CombineMetadataPolicy")
	if fn == nil || !c.Anchor("CombineMetadataPolicy takes a path and policies", len(fn.Params) == 2) {
		return
	}
	verify := c.Fn("", "MetadataPolicyEntry.Verify")
	if verify == nil {
		return
	}
	c.cutoff("combine", []*ssa.Function{fn}, 1, func(n string) bool { return strings.HasSuffix(n, "MetadataPolicyEntry.Verify") })
	polT := fn.Signature.Results().At(0).Type()
	entT := polT
	if mt, ok := polT.Underlying().(*types.Map); ok {
		entT = mt.Elem()
	}
	type entry = []string
	type policy = map[string]entry
	none := policy(nil)
	cases := [][]policy{
		{},
		{none},
		{{"x": {"value"}}},
		{none, {"x": {"value"}}},
		{{"x": {"value"}}, none},
		{none, none, {"x": {"add", "one_of"}}},
		{{"x": {"value"}}, {"y": {"default"}}},
		{{"x": {"value"}}, {"x": {"value"}}},
		{{"x": {"value", "add"}}, {"x": {"add", "essential"}}},
		{{"x": {"subset_of"}, "y": {"one_of"}}, {"y": {"one_of", "default"}, "z": {"value"}}},
		{{"x": {"custom"}}, {"x": {"custom", "value"}}},
		{{"x": {"custom", "value"}}, {"x": {"custom", "value"}}},
		{{"x": {"value"}}, {"x": {"value"}}, {"x": {"value"}}},
		{{"x": {"add"}}, none, {"x": {"add"}, "y": {"value"}}},
		{{"x": {"add"}}, {"y": {"value"}}, {"x": {"add", "default"}, "y": {"value"}}},
	}
	for ci, cs := range cases {
		for _, rev := range []bool{false, true} {
			name := fmt.Sprintf("combine:%d", ci)
			type ver struct {
				m   *Term
				ops string
			}
			h := &Hooks{Forward: true, MapRev: rev, Exact: true}
			h.Opaque = func(f *ssa.Function, n string) bool {
				return m.methodFn(f, "Merge") || f == verify || f.Origin() == verify
			}
			shape := func(x *Exec, st *State, t *Term) string {
				ks, ok := x.mapKeys(st, t)
				if !ok {
					return "?" + t.String()
				}
				var l []string
				for _, k := range ks {
					l = append(l, fmt.Sprintf("%v=%d", k, x.load(st, T.Elem(t, k)).id))
				}
				sort.Strings(l)
				return strings.Join(l, ";")
			}
			h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
				if ev.Fn == verify {
					// succeeds: remember what was verified; or fails with its error
					s2 := st.clone()
					st.aux["ver:"+shape(x, st, ev.Args[0])] = "1"
					e := T.mk(OpCall, "MetadataPolicyEntry.Verify", 0, nil, nil, ev.Args[0])
					s2.facts[T.IsNil(e)] = false
					return []Outcome{{st: st, res: T.Nil()}, {st: s2, res: e}}, true
				}
				if m.method(ev, "Merge") && len(ev.Args) == 4 {
					call := T.mk(OpCall, "PolicyOperator.Merge", 0, nil, nil, ev.Args[0], ev.Args[1], ev.Args[2])
					e := T.mk(OpRes, "", 1, nil, nil, call)
					s2 := st.clone()
					s2.facts[T.IsNil(e)] = false
					st.facts[T.IsNil(e)] = true
					return []Outcome{{st: st, res: T.mk(OpTuple, "", 0, nil, nil, T.mk(OpRes, "", 0, nil, nil, call), T.Nil())}, {st: s2, res: T.mk(OpTuple, "", 0, nil, nil, T.mk(OpRes, "", 0, nil, nil, call), e)}}, true
				}
				return setLib(x, st, ev)
			}
			x := NewExec(c.P, c.T, h)
			st := m.state()
			var pols []*Term
			want := map[string]map[string][]*Term{}
			for i, pl := range cs {
				if pl == nil {
					pols = append(pols, T.Nil())
					continue
				}
				pt := x.Param(fmt.Sprintf("policy%d", i), polT)
				var cls []string
				for k := range pl {
					cls = append(cls, k)
				}
				sort.Strings(cls)
				st.facts[T.IsNil(pt)] = false
				var ks []*Term
				for _, k := range cls {
					kt := strConst(c, k)
					ks = append(ks, kt)
					et := x.Param(fmt.Sprintf("entry%d.%s", i, k), entT)
					st.mem[T.Elem(pt, kt)] = et
					st.facts[T.IsNil(et)] = false
					var opl []*Term
					for _, o := range pl[k] {
						ot := strConst(c, o)
						opl = append(opl, ot)
						vt := x.Param(fmt.Sprintf("v%d.%s.%s", i, k, o), nil)
						st.mem[T.Elem(et, ot)] = vt
						if want[k] == nil {
							want[k] = map[string][]*Term{}
						}
						want[k][o] = append(want[k][o], vt)
					}
					x.SetKeys(st, et, opl...)
				}
				x.SetKeys(st, pt, ks...)
				pols = append(pols, pt)
			}
			outs := x.Run(fn, []*Term{x.Param("path", nil), T.mk(OpList, "", 0, nil, nil, pols...)}, st)
			c.Done(x, name)
			fine := false
			for _, o := range outs {
				if o.panic || o.res.op != OpTuple {
					c.Ob(name, fn.Pos(), !o.panic, "CombineMetadataPolicy panics")
					continue
				}
				c.Paths++
				isErr, known := isErrTerm(x, o.st, o.res.args[1])
				if known && isErr {
					ok := o.res.args[1].contains1(func(u *Term) bool {
						return u.op == OpCall && (u.str == "PolicyOperator.Merge" || u.str == "MetadataPolicyEntry.Verify")
					})
					c.Ob(name+":error", fn.Pos(), ok, "policies %v cannot be combined although all operators could be merged and all entries verified%s", cs, c.Path(o.st))
					continue
				}
				fine = true
				c.Ob(name+":error", fn.Pos(), known || noFailure(o.st), "an error is lost when combining %v%s", cs, c.Path(o.st))
				if failed(o.st) {
					c.Ob(name+":error", fn.Pos(), false, "policies %v are combined although an operator or entry failed%s", cs, c.Path(o.st))
					continue
				}
				r := o.res.args[0]
				got := map[string]bool{}
				cks, ok := x.mapKeys(o.st, r)
				if !ok {
					c.Ob(name, fn.Pos(), false, "the combination of %v is %v, whose claims are unknown", cs, r)
					continue
				}
				for _, ck := range cks {
					cl := strings.Trim(ck.str, `"`)
					got[cl] = true
					if want[cl] == nil {
						c.Ob(name, fn.Pos(), false, "the combination of %v has a claim %s", cs, cl)
						continue
					}
					e := x.load(o.st, T.Elem(r, ck))
					oks, ok := x.mapKeys(o.st, e)
					if !ok {
						c.Ob(name, fn.Pos(), false, "combining %v: the operators of claim %s are unknown (%v)", cs, cl, e)
						continue
					}
					gotO := map[string]bool{}
					for _, ot := range oks {
						on := strings.Trim(ot.str, `"`)
						gotO[on] = true
						v := x.load(o.st, T.Elem(e, ot))
						ws := want[cl][on]
						if m.ops[on] == nil {
							c.Ob(name, fn.Pos(), len(ws) > 0, "combining %v: the claim %s gets the operator %s from nowhere", cs, cl, on)
							continue
						}
						bad := m.mergedFrom(on, v, ws)
						c.Ob(name, fn.Pos(), bad == "", "combining %v: operator %s of claim %s %s%s", cs, on, cl, bad, c.Path(o.st))
					}
					for on := range want[cl] {
						c.Ob(name, fn.Pos(), gotO[on], "combining %v: operator %s of claim %s is lost%s", cs, on, cl, c.Path(o.st))
					}
					c.Ob(name+":verified", fn.Pos(), o.st.aux["ver:"+shape(x, o.st, e)] != "", "combining %v: the resulting entry for claim %s was not verified%s", cs, cl, c.Path(o.st))
				}
				for cl := range want {
					c.Ob(name, fn.Pos(), got[cl], "combining %v: claim %s is lost%s", cs, cl, c.Path(o.st))
				}
			}
			c.Ob(name+":succeeds", fn.Pos(), fine, "combining %v never succeeds", cs)
		}
	}
}

func noFailure(st *State) bool { return !failed(st) }

func failed(st *State) bool {
	for f, v := range st.facts {
		if f.op == OpIsNil && !v && f.args[0].contains1(func(u *Term) bool {
			return u.op == OpCall && (u.str == "PolicyOperator.Merge" || u.str == "MetadataPolicyEntry.Verify")
		}) && (f.args[0].op == OpCall || f.args[0].op == OpRes) {
			return true
		}
	}
	return false
}

// mergedFrom: v is the merge, by operator on, of exactly the values ws.
func (m *policyModel) mergedFrom(on string, v *Term, ws []*Term) string {
	left := map[*Term]int{}
	for _, w := range ws {
		left[w]++
	}
	var rec func(t *Term) string
	rec = func(t *Term) string {
		if t.op == OpRes && t.num == 0 && t.args[0].op == OpCall && t.args[0].str == "PolicyOperator.Merge" {
			call := t.args[0]
			if m.opOf(call.args[0]) != on {
				return "is merged by the operator " + m.opOf(call.args[0])
			}
			if s := rec(call.args[1]); s != "" {
				return s
			}
			return rec(call.args[2])
		}
		if left[t] == 0 {
			return "gets the value " + t.String()
		}
		left[t]--
		return ""
	}
	if s := rec(v); s != "" {
		return s
	}
	for t, n := range left {
		if n > 0 {
			return "loses the value " + t.String()
		}
	}
	return ""
}

// ---- C14 ----

func runVerifiers(c *C) {
	m := newPolicyModel(c)
	if m == nil {
		return
	}
	T := c.T
	fn := c.Fn("", "MetadataPolicyEntry.Verify")
	if fn == nil || !c.Anchor("Verify takes a path", len(fn.Params) == 2) {
		return
	}
	for k, s := range opSets(7) {
		withUnknown := k%3 == 1
		h := &Hooks{Forward: true, MapRev: k%2 == 1, Exact: true}
		h.Opaque = utilsOpaque
		h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) { return setLib(x, st, ev) }
		x := NewExec(c.P, c.T, h)
		st := m.state()
		p, path := x.Param("p", fn.Params[0].Type()), x.Param("pathInfo", fn.Params[1].Type())
		st.facts[T.IsNil(p)] = false
		var ks []*Term
		vals := map[string]*Term{}
		names := map[*Term]string{}
		for _, o := range s {
			ks = append(ks, strConst(c, o))
			vals[o] = x.Param("v."+o, nil)
			names[vals[o]] = o
			st.mem[T.Elem(p, strConst(c, o))] = vals[o]
		}
		if withUnknown {
			ks = append(ks, strConst(c, "unknown_operator"))
		}
		x.SetKeys(st, p, ks...)
		outs := x.Run(fn, []*Term{p, path}, st)
		key := "{" + strings.Join(s, ",") + "}"
		c.Done(x, key)
		c.Ob("verdict:"+key, fn.Pos(), len(outs) > 0, "Verify has no path for operators %v", s)
		for _, o := range outs {
			if o.panic {
				c.Ob("verdict:"+key, fn.Pos(), false, "Verify panics for operators %v", s)
				continue
			}
			c.Paths++
			isErr, known := isErrTerm(x, o.st, o.res)
			at := &atoms{}
			relAtoms(x, o.st, at, names)
			for _, r := range [][2]string{{"superset_of", "subset_of"}, {"add", "subset_of"}, {"add", "value"}, {"value", "subset_of"}} {
				if vals[r[0]] != nil && vals[r[1]] != nil {
					at.add(r[0] + " subset " + r[1])
				}
			}
			if vals["value"] != nil {
				at.add("nil value", T.IsNil(vals["value"]))
			}
			if v := vals["one_of"]; v != nil {
				at.add("nil one_of", T.IsNil(v))
				sl := T.mk(OpCall, "reflect.ValueOf", 0, nil, nil, T.mk(OpCall, "internal/utils.Slicify", 0, nil, nil, v))
				_ = sl
				for f := range o.st.facts {
					b, _ := stripNot(f)
					if b.op == OpEq && b.contains(v) && (b.args[0].isConst("0") || b.args[1].isConst("0")) {
						at.add("empty one_of", b)
					}
				}
				at.add("empty one_of")
			}
			at.each(x, o.st, func(w map[string]bool) {
				if w["nil one_of"] && w["empty one_of"] {
					return
				}
				why := ""
				for i, a := range s {
					for _, b := range s[i+1:] {
						if forbidden(a, b) {
							why = a + " beside " + b
						}
					}
				}
				for _, r := range []string{"superset_of subset subset_of", "add subset subset_of", "add subset value", "value subset subset_of"} {
					f := strings.Fields(r)
					if vals[f[0]] != nil && vals[f[2]] != nil && !w[r] {
						why = "not " + r
					}
				}
				if vals["value"] != nil && vals["default"] != nil && w["nil value"] {
					why = "default beside a null value"
				}
				if vals["one_of"] != nil && (w["nil one_of"] || w["empty one_of"]) {
					why = "one_of without values"
				}
				if !known {
					c.Ob("verdict:"+key, fn.Pos(), false, "the verdict on operators %v is undetermined: %v", s, o.res)
					return
				}
				if isErr {
					c.Ob("verdict:"+key, fn.Pos(), why != "", "an entry with operators %v (unknown operator: %v) is rejected for %s, nothing specified forbids it%s", s, withUnknown, showVal(w), c.Path(o.st))
				} else {
					c.Ob("verdict:"+key, fn.Pos(), why == "", "an entry with operators %v is accepted for %s, but: %s%s", s, showVal(w), why, c.Path(o.st))
				}
			})
		}
	}
}
