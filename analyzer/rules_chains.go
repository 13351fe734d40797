package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C06", Title: "Trust chains have the specified shape, one per path to an anchor", Min: 6,
		Technique: "symbolic path enumeration of one chain construction step",
		Rule:      "symbolic evaluation of the recursive chain construction on an arbitrary node with no, zero, one or two authorities that contribute up to two chains each (recursion as induction hypothesis): a node without authority list yields its subordinate statement and its configuration (a lone starting entity only its configuration, an empty node nothing), any other node exactly one chain per chain of each authority, prefixed with its subordinate statement (the starting entity with its configuration), in freshly allocated slices; larger shapes behave alike because no function involved compares a size with a constant above one",
		Run:       runChains,
	})
}

// listOf enumerates the elements of a sequence of constant length.
func (x *Exec) listOf(st *State, t *Term) ([]*Term, bool) {
	T := x.T
	if t == nil {
		return nil, false
	}
	if t.op == OpAlloc || t.op == OpMk {
		t = x.content(st, t)
	}
	n, ok := constInt(T.Len(t))
	if !ok {
		return nil, false
	}
	var l []*Term
	for i := 0; i < n; i++ {
		a := T.Elem(t, T.Int(i))
		l = append(l, x.content(st, a))
	}
	return l, true
}

func runChains(c *C) {
	m := newTreeModel(c)
	if m == nil {
		return
	}
	T := c.T
	c.cutoff("chains", m.chainFns(), 1, nil)
	for _, fn := range m.chainFns() {
		name := c.P.fnName(fn)
		type conf struct {
			auths  int   // -1: nil
			counts []int // chains contributed by each authority
		}
		confs := []conf{{-1, nil}, {0, nil}, {1, []int{0}}, {1, []int{1}}, {1, []int{2}}, {2, []int{1, 1}}, {2, []int{2, 1}}, {2, []int{0, 2}}, {3, []int{1, 2, 1}}}
		for _, cf := range confs {
			for root := 0; root < 3; root++ { // 0: with subordinate statement, 1: starting entity, 2: empty node
				if root == 2 && cf.auths != -1 {
					continue
				}
				auths := T.Nil()
				if cf.auths >= 0 {
					auths = c.arr("auths", cf.auths)
				}
				sub := func(i int) []*Term {
					var l []*Term
					for j := 0; j < cf.counts[i]; j++ {
						l = append(l, c.arr(fmt.Sprintf("chain%d.%d", i, j), 2))
					}
					return l
				}
				odd := ""
				h := &Hooks{Forward: true}
				h.Opaque = func(f *ssa.Function, n string) bool { return strings.HasPrefix(n, "cache.") }
				h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
					if ev.Fn != fn || len(x.stack) == 0 {
						return nil, false
					}
					for i := 0; i < cf.auths; i++ {
						for _, a := range append(append([]*Term(nil), ev.Args...), ev.Addrs...) {
							a = unMk(a)
							if a == T.Elem(auths, T.Int(i)) || x.content(st, a) == T.Elem(auths, T.Int(i)) {
								l := sub(i)
								if len(l) == 0 {
									return []Outcome{{st: st, res: T.Nil()}}, true
								}
								return []Outcome{{st: st, res: T.mk(OpList, "", 0, nil, nil, l...)}}, true
							}
						}
					}
					odd = fmt.Sprintf("the recursion is on %v, which is none of the authorities", ev.Args)
					return nil, false
				}
				x := NewExec(c.P, c.T, h)
				var node *Term
				var args []*Term
				for i, p := range fn.Params {
					a := x.Param(fmt.Sprintf("%d:%s", i, p.Name()), p.Type())
					if m.isTree(p.Type()) && node == nil {
						node = a
					}
					args = append(args, a)
				}
				if !c.Anchor("chain construction takes a node", node != nil) {
					return
				}
				st := NewState()
				for i, p := range fn.Params {
					if args[i] != node {
						continue
					}
					if _, ptr := p.Type().Underlying().(*types.Pointer); ptr {
						st.mem[T.mk(OpSel, "", 0, m.auths, m.auths.Type(), node)] = auths
					} else {
						args[i] = T.Snap(node, []*Term{T.mk(OpSel, "", 0, m.auths, m.auths.Type(), T.snapBase(nil)), auths})
					}
				}
				ent, sb := T.SelVar(node, m.entity), T.SelVar(node, m.sub)
				switch root {
				case 0:
					st.facts[T.IsNil(sb)] = false
					st.facts[T.IsNil(ent)] = false
				case 1:
					st.facts[T.IsNil(sb)] = true
					st.facts[T.IsNil(ent)] = false
				case 2:
					st.facts[T.IsNil(sb)] = true
					st.facts[T.IsNil(ent)] = true
				}
				want := map[string]int{}
				total := 0
				add := func(l ...*Term) {
					var ids []string
					for _, t := range l {
						ids = append(ids, t.String())
					}
					want[strings.Join(ids, " → ")]++
					total++
				}
				switch {
				case root == 2:
				case cf.auths == -1 && root == 0:
					add(sb, ent)
				case cf.auths == -1:
					add(ent)
				default:
					first := sb
					if root == 1 {
						first = ent
					}
					for i := 0; i < cf.auths; i++ {
						for _, s := range sub(i) {
							add(first, T.Elem(s, T.Int(0)), T.Elem(s, T.Int(1)))
						}
					}
				}
				outs := x.Run(fn, args, st)
				c.Done(x, "chains")
				c.Ob("chains:recursion:"+name, fn.Pos(), odd == "", "%s", odd)
				what := []string{"a node with subordinate statement", "the starting entity", "an empty node"}[root]
				key := fmt.Sprintf("chains:shape:%s:%s", []string{"inner", "start", "empty"}[root], name)
				if cf.auths == -1 {
					key = fmt.Sprintf("chains:end:%s:%s", []string{"inner", "start", "empty"}[root], name)
				}
				n := 0
				for _, o := range outs {
					c.Paths++
					if o.panic {
						c.Ob("chains:panic:"+name, fn.Pos(), false, "the chain construction panics for %s%s", what, c.Path(o.st))
						continue
					}
					n++
					l, ok := x.listOf(o.st, o.res)
					if !ok {
						c.Ob(key, fn.Pos(), false, "for %s with %d authorities the result is not a list of known length: %v", what, cf.auths, o.res)
						continue
					}
					got := map[string]int{}
					bad := ""
					for _, ch := range l {
						es, ok := x.listOf(o.st, ch)
						if !ok {
							bad = fmt.Sprintf("a chain of unknown shape: %v", ch)
							break
						}
						var ids []string
						for _, e := range es {
							ids = append(ids, e.String())
						}
						got[strings.Join(ids, " → ")]++
					}
					if bad == "" {
						for k, v := range want {
							if got[k] != v {
								bad = fmt.Sprintf("the chain %s occurs %d times instead of %d", k, got[k], v)
							}
						}
						for k := range got {
							if want[k] == 0 {
								bad = fmt.Sprintf("the unexpected chain %s occurs", k)
							}
						}
					}
					c.Ob(key, fn.Pos(), bad == "", "for %s with %d authorities contributing %v chains: %s", what, cf.auths, cf.counts, bad)
				}
				c.Ob("chains:total:"+name, fn.Pos(), n > 0, "no outcome for %s with %d authorities", what, cf.auths)
			}
		}
		m.freshChains(fn)
	}
	m.chainsEntry()
}

// freshChains: a chain under construction never shares its backing array with another one.
func (m *treeModel) freshChains(fn *ssa.Function) {
	c := m.c
	chain := c.P.Named("", "TrustChain")
	for f := range reachFrom(c.P, fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				bi, ok := ci.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" {
					continue
				}
				sl, ok := ci.Type().Underlying().(*types.Slice)
				if !ok || !types.Identical(sl, chain.Underlying()) {
					continue
				}
				bad := m.sharedBase(ci.Call.Args[0], b, 0)
				c.Ob("chains:fresh:"+c.P.fnName(f), in.Pos(), bad == "", "%s: chains may overwrite each other", bad)
			}
		}
	}
}

// sharedBase reports why extending the slice v in block b may write to memory that another chain
// also uses.
func (m *treeModel) sharedBase(v ssa.Value, b *ssa.BasicBlock, depth int) string {
	c := m.c
	outside := func(d *ssa.BasicBlock) bool { return len(loopsOf(d)) < len(loopsOf(b)) }
	switch v := v.(type) {
	case *ssa.ChangeType:
		return m.sharedBase(v.X, b, depth)
	case *ssa.Const:
		return ""
	case *ssa.Slice:
		if _, ok := v.X.(*ssa.Alloc); ok && v.Low == nil && v.High == nil {
			return "" // a literal has no spare capacity
		}
		if _, ok := v.X.(*ssa.Alloc); ok && !outside(v.Block()) {
			return ""
		}
		if v.Max != nil && v.Max == v.High {
			return ""
		}
		return "a part of another slice is extended in place"
	case *ssa.MakeSlice:
		if outside(v.Block()) && v.Len != v.Cap {
			return "a slice allocated outside the loop is extended for several chains"
		}
		return ""
	case *ssa.Phi:
		if outside(v.Block()) {
			return "a slice built outside the loop is extended for several chains"
		}
		return ""
	case *ssa.Call:
		if outside(v.Block()) {
			return "a slice built outside the loop is extended for several chains"
		}
		return ""
	case *ssa.Parameter:
		if depth > 3 {
			return "a chain given by the caller is extended in place"
		}
		i := -1
		for k, p := range v.Parent().Params {
			if p == v {
				i = k
			}
		}
		if outside(v.Parent().Blocks[0]) {
			return "a slice built outside the loop is extended for several chains"
		}
		n := 0
		for _, f := range c.P.RepoFuncs() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == v.Parent() {
						n++
						if w := m.sharedBase(ci.Common().Args[i], b, depth+1); w != "" {
							return w
						}
					}
				}
			}
		}
		if n == 0 {
			return "a chain given by the caller is extended in place"
		}
		return ""
	}
	return fmt.Sprintf("the chain %s is extended in place", v.Name())
}

// chainsEntry: Chains() hands out exactly what the construction yields for the resolver's tree
// (or a cached set).
func (m *treeModel) chainsEntry() {
	c := m.c
	fn := c.Fn("", "TrustResolver.Chains")
	if fn == nil {
		return
	}
	cf := map[*ssa.Function]bool{}
	for _, f := range m.chainFns() {
		cf[f] = true
	}
	h := &Hooks{Forward: true, Strict: true, Relevant: func(*Term) bool { return false }}
	h.Opaque = func(f *ssa.Function, n string) bool { return cf[f] || strings.HasPrefix(n, "cache.") }
	calls := 0
	h.OnCall = func(x *Exec, st *State, ev *CallEvent) {
		if cf[ev.Fn] {
			calls++
			i := hasParamOf(ev.Fn, m.tree)
			a := unMk(ev.Addrs[i])
			ok := a.op == OpSel && a.obj == any(m.treeFld)
			c.Ob("chains:entry-tree", ev.Instr.Pos(), ok, "chains are taken from something else than the resolver's tree: %v", a)
		}
	}
	x := NewExec(c.P, c.T, h)
	_, outs := x.RunEntry(fn)
	c.Done(x, "Chains")
	c.Anchor("Chains constructs chains from the tree", calls > 0)
	for _, o := range outs {
		if !o.panic {
			c.Ob("chains:entry-result", fn.Pos(), o.res.isNilConst() || m.chainSource(o.res), "Chains returns something else than the constructed or cached chains: %v", o.res)
		}
	}
}
