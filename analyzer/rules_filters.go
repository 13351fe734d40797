package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sortModel gives the sorting functions of the standard library their meaning on lists of known
// length: any order of the elements in which the comparison, evaluated on the list in this order,
// never puts an element before its predecessor.
func (c *C) sortModel(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
	T := c.T
	byIndex := false
	switch ev.Name {
	case "sort.Slice", "sort.SliceStable":
		byIndex = true
	case "slices.SortFunc", "slices.SortStableFunc":
	default:
		return nil, false
	}
	s := unMk(ev.Addrs[0])
	l, ok := x.listOf(st, s)
	if !ok || len(l) > 4 {
		return nil, false
	}
	cmp := unMk(ev.Addrs[1])
	f, binds, _ := x.callee(st, ev.Instr.Common(), cmp)
	if f == nil {
		if cmp.op == OpFn || cmp.op == OpClos {
			f, _ = cmp.obj.(*ssa.Function)
		}
		if f == nil {
			return nil, false
		}
	}
	if cmp.op == OpClos {
		f, binds = cmp.obj.(*ssa.Function), cmp.args
	} else if cmp.op == OpFn {
		f, _ = cmp.obj.(*ssa.Function)
		binds = nil
	}
	var outs []Outcome
	for _, perm := range permutations(len(l)) {
		s2 := st.clone()
		for i, p := range perm {
			x.store(s2, T.Elem(s, T.Int(i)), l[p])
		}
		states := []*State{s2}
		for i := 0; i+1 < len(l); i++ {
			var next []*State
			for _, s3 := range states {
				a, b := T.Int(i+1), T.Int(i)
				if !byIndex {
					a, b = x.content(s3, T.Elem(s, a)), x.content(s3, T.Elem(s, b))
				}
				for _, o := range x.exec(f, []*Term{a, b}, binds, s3, ev.Instr, ev.Ctx) {
					if o.panic {
						outs = append(outs, o)
						continue
					}
					atom := o.res
					if !byIndex {
						atom = T.Lt(o.res, T.Int(0))
						if o.res.op == OpCall && o.res.str == "cmp.Compare" {
							atom = T.Lt(o.res.args[0], o.res.args[1])
						} else if o.res.op == OpBin && o.res.str == "-" {
							atom = T.Lt(o.res.args[0], o.res.args[1])
						}
					}
					s4 := o.st.clone()
					if x.assume(s4, atom, false) {
						next = append(next, s4)
					}
				}
			}
			states = next
		}
		for _, s3 := range states {
			outs = append(outs, Outcome{st: s3, res: T.mk(OpTuple, "", 0, nil, nil)})
		}
	}
	return outs, true
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int(nil), p[:i]...)
			q = append(q, n-1)
			out = append(out, append(q, p[i:]...))
		}
	}
	return out
}

// listIn is a slice with the given elements.
func (c *C) listIn(st *State, name string, elems []*Term) *Term {
	a := c.arr(name, len(elems))
	for i, e := range elems {
		st.mem[c.T.Elem(a, c.T.Int(i))] = e
	}
	return a
}

// invoke calls a method of a value whose dynamic type is known.
func (x *Exec) invoke(st *State, recv *Term, method string, args ...*Term) ([]Outcome, string) {
	if recv == nil || recv.op != OpMk || recv.typ == nil {
		return nil, fmt.Sprintf("%v has no known type", recv)
	}
	ms := x.P.SSA.MethodSets.MethodSet(recv.typ)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == method {
			f := x.P.SSA.MethodValue(ms.At(i))
			if f == nil {
				break
			}
			return x.Run(f, append([]*Term{recv.args[0]}, args...), st), ""
		}
	}
	return nil, fmt.Sprintf("%v has no method %s", recv.typ, method)
}

type filterCase struct {
	name  string
	make  string                // constructor, or "" for a variable
	arg   func(x *Exec) []*Term // its arguments
	pass  func(x *Exec, st *State, chain *Term, all []*Term) (val, known bool)
	sizes [][]int // chain lengths
}

func runFilters(c *C) {
	T := c.T
	stmtT, payT := c.P.Named("", "EntityStatement"), c.P.Named("", "EntityStatementPayload")
	if !c.Anchor("entity statement types", stmtT != nil && payT != nil) {
		return
	}
	n := func(chain *Term) int { k, _ := constInt(T.Len(chain)); return k }
	pathLen := func(chain *Term) int { return max(0, n(chain)-3) }
	// results of calls found among the facts
	called := func(x *Exec, st *State, match func(*Term) bool) (bool, bool) {
		for a, v := range st.facts {
			if match(a) {
				return v, true
			}
		}
		return false, false
	}
	var checker, anchor *Term
	cases := []filterCase{
		{name: "NewTrustChainsFilterFromTrustChainChecker", make: "NewTrustChainsFilterFromTrustChainChecker",
			arg: func(x *Exec) []*Term {
				checker = x.Param("checker", c.Fn("", "NewTrustChainsFilterFromTrustChainChecker").Params[0].Type())
				return []*Term{checker}
			},
			pass: func(x *Exec, st *State, chain *Term, _ []*Term) (bool, bool) {
				return called(x, st, func(a *Term) bool {
					return a.op == OpCall && strings.HasSuffix(a.str, ".Check") && len(a.args) == 2 && a.args[0] == checker && a.args[1] == chain
				})
			}, sizes: [][]int{{}, {4}, {3, 4}, {3, 4, 5}}},
		{name: "NewTrustChainsFilterFromCheckerFnc", make: "NewTrustChainsFilterFromCheckerFnc",
			arg: func(x *Exec) []*Term {
				checker = x.Param("checker", c.Fn("", "NewTrustChainsFilterFromCheckerFnc").Params[0].Type())
				return []*Term{checker}
			},
			pass: func(x *Exec, st *State, chain *Term, _ []*Term) (bool, bool) {
				return called(x, st, func(a *Term) bool {
					return a.op == OpCall && a.str == "#dyn" && len(a.args) == 2 && a.args[0] == checker && a.args[1] == chain
				})
			}, sizes: [][]int{{}, {4}, {3, 4}, {3, 4, 5}}},
		{name: "TrustChainsFilterTrustAnchor", make: "TrustChainsFilterTrustAnchor",
			arg: func(x *Exec) []*Term {
				anchor = x.Param("anchor", types.Typ[types.String])
				return []*Term{anchor}
			},
			pass: func(x *Exec, st *State, chain *Term, _ []*Term) (bool, bool) {
				if n(chain) == 0 {
					return false, true
				}
				last := T.Elem(chain, T.Int(n(chain)-1))
				for _, f := range []string{"Issuer", "Subject"} { // of an entity configuration
					is := c.Sel(last, stmtT, "EntityStatementPayload")
					if v, ok := x.Known(st, T.Eq(c.Sel(is, payT, f), anchor)); ok {
						return v, true
					}
				}
				return false, false
			}, sizes: [][]int{{}, {0}, {1}, {3}, {3, 0, 5}, {1, 4, 3}}},
		{name: "TrustChainsFilterValidMetadata",
			pass: func(x *Exec, st *State, chain *Term, _ []*Term) (bool, bool) {
				v, ok := called(x, st, func(a *Term) bool {
					if a.op != OpIsNil {
						return false
					}
					m := resultOf(a.args[0], "oidfed.TrustChain.Metadata", 1)
					return m != nil && m.args[0] == chain
				})
				return v, ok
			}, sizes: [][]int{{}, {4}, {3, 4}, {1, 4, 3}}},
	}
	minimal := func(all []*Term) int {
		m := pathLen(all[0])
		for _, a := range all {
			m = min(m, pathLen(a))
		}
		return m
	}
	lens := [][]int{{}, {0}, {3, 1, 7}, {9}}
	for a := 3; a <= 6; a++ {
		lens = append(lens, []int{a})
		for b := 3; b <= 6; b++ {
			lens = append(lens, []int{a, b})
			for d := 3; d <= 6; d++ {
				lens = append(lens, []int{a, b, d})
			}
		}
	}
	cases = append(cases, filterCase{name: "TrustChainsFilterMinPathLength", sizes: lens,
		pass: func(x *Exec, st *State, chain *Term, all []*Term) (bool, bool) {
			return pathLen(chain) == minimal(all), true
		}})
	for m := 0; m <= 3; m++ {
		cases = append(cases, filterCase{name: fmt.Sprintf("TrustChainsFilterMaxPathLength(%d)", m), make: "TrustChainsFilterMaxPathLength", sizes: lens,
			arg:  func(*Exec) []*Term { return []*Term{T.Int(m)} },
			pass: func(x *Exec, st *State, chain *Term, all []*Term) (bool, bool) { return pathLen(chain) <= m, true }})
	}
	for _, fc := range cases {
		key := strings.SplitN(fc.name, "(", 2)[0]
		fn := c.Fn("", "TrustChains.Filter")
		if fn == nil {
			return
		}
		pos := fn.Pos()
		for _, size := range fc.sizes {
			h := &Hooks{Forward: true, Pin: func(g *Term) bool { return g.op == OpCall }}
			h.Opaque = func(f *ssa.Function, name string) bool { return name == "oidfed.TrustChain.Metadata" }
			h.Pure = func(name string) bool { return name == "#dyn" || strings.HasSuffix(name, ".Check") }
			x := NewExec(c.P, T, h)
			st := NewState()
			var filter *Term
			if fc.make == "" {
				st = c.initState("").clone()
				filter = c.global(x, st, "", fc.name)
			} else {
				mk := c.Fn("", fc.make)
				if mk == nil {
					break
				}
				pos = mk.Pos()
				outs := x.Run(mk, fc.arg(x), st)
				if !c.Ob("filter:made:"+key, pos, len(outs) == 1 && !outs[0].panic, "the filter is not made unconditionally (%d outcomes)", len(outs)) {
					break
				}
				filter, st = outs[0].res, outs[0].st
				st.frames = nil
			}
			if filter.op == OpAlloc {
				filter = x.content(st, filter)
			}
			var all []*Term
			for i, k := range size {
				all = append(all, c.arr(fmt.Sprintf("chain%d", i), k))
			}
			in := c.listIn(st, "chains", all)
			h.OnAppend = func(x *Exec, st *State, _ ssa.Instruction, base *Term, _ []*Term) {
				for base.op == OpApp || base.op == OpAppS {
					base = base.args[0]
				}
				c.Ob("filter:append:"+key, pos, base != in && !(base.op == OpSlice && base.args[0] == in), "the result is built in the memory of the given list%s", c.Path(st))
			}
			outs, why := x.invoke(st, filter, "Filter", in)
			c.Done(x, fmt.Sprintf("%s%v", fc.name, size))
			if !c.Ob("filter:type:"+key, pos, why == "", "%s", why) {
				break
			}
			live := 0
			for _, o := range outs {
				if o.panic {
					continue
				}
				live++
				c.Paths++
				got, ok := x.listOf(o.st, o.res)
				if o.res.isNilConst() {
					got, ok = nil, true
				}
				if !c.Ob("filter:result:"+key, pos, ok, "unclear result %v%s", o.res, c.Path(o.st)) {
					continue
				}
				j := 0
				for i, ch := range all {
					val, known := fc.pass(x, o.st, ch, all)
					in := j < len(got) && got[j] == ch
					if in {
						j++
					}
					if !known {
						c.Ob("filter:decided:"+key, pos, false, "whether chain %d of %v passes is not looked at; kept: %v%s", i, size, in, c.Path(o.st))
						continue
					}
					c.Ob("filter:kept:"+key, pos, in == val, "chain %d of chains of length %v passes: %v, but is kept: %v%s", i, size, val, in, c.Path(o.st))
				}
				c.Ob("filter:only:"+key, pos, j == len(got), "the result has chains beyond those that pass, in their order: %v of %v%s", got, size, c.Path(o.st))
				for i, ch := range all {
					c.Ob("filter:input:"+key, pos, x.content(o.st, T.Elem(in, T.Int(i))) == ch, "the given list is modified%s", c.Path(o.st))
				}
			}
			c.Ob("filter:possible:"+key, pos, live > 0, "no outcome for %v", size)
		}
	}
	c.filterAll()
	c.sorting()
	c.pathLen()
}

// filterAll: TrustChains.Filter applies all filters one after the other.
func (c *C) filterAll() {
	T := c.T
	fn := c.Fn("", "TrustChains.Filter")
	if fn == nil {
		return
	}
	for n := 0; n <= 3; n++ {
		h := &Hooks{Pin: func(g *Term) bool { return g.op == OpCall }, Pure: func(name string) bool { return strings.HasSuffix(name, "TrustChainsFilter.Filter") }}
		x := NewExec(c.P, T, h)
		recv := x.Param("recv", fn.Params[0].Type())
		fs := c.arr("filters", n)
		outs := x.Run(fn, []*Term{recv, fs}, NewState())
		c.Done(x, fmt.Sprintf("TrustChains.Filter[%d]", n))
		live, full := 0, 0
		for _, o := range outs {
			if o.panic {
				continue
			}
			live++
			c.Paths++
			// unwind the result
			var idx []int
			r := o.res
			for r.op == OpCall && strings.HasSuffix(r.str, ".Filter") && len(r.args) == 2 {
				k := -1
				for i := 0; i < n; i++ {
					if r.args[0] == T.Elem(fs, T.Int(i)) {
						k = i
					}
				}
				idx = append([]int{k}, idx...)
				r = r.args[1]
			}
			ok := r == recv
			for i, k := range idx {
				ok = ok && i == k
			}
			if ok && len(idx) < n {
				ok = x.Proves(o.st, T.Empty(o.res), true) && len(idx) > 0 || x.Proves(o.st, T.Empty(recv), true)
			} else {
				full++
			}
			if !ok && (o.res.isNilConst()) {
				// nothing was left by some filter
				for a, v := range o.st.facts {
					if v && a.op == OpEmpty && a.args[0].op == OpCall && strings.HasSuffix(a.args[0].str, ".Filter") {
						ok = true
					}
				}
			}
			c.Ob("filter:all", fn.Pos(), ok, "with %d filters the result is %v%s", n, o.res, c.Path(o.st))
		}
		c.Ob("filter:all:possible", fn.Pos(), live > 0 && full > 0, "no outcome with all %d filters applied", n)
	}
}

// sorting: SortAsc and SortDesc order the chains by their scores.
func (c *C) sorting() {
	T := c.T
	for _, s := range []struct {
		name string
		asc  bool
	}{{"TrustChains.SortAsc", true}, {"TrustChains.SortDesc", false}} {
		fn := c.Fn("", s.name)
		if fn == nil {
			continue
		}
		for n := 0; n <= 3; n++ {
			h := &Hooks{Forward: true, Exact: true, Pin: func(g *Term) bool { return g.op == OpCall }, Pure: func(name string) bool { return name == "#dyn" }}
			h.Model = c.sortModel
			x := NewExec(c.P, T, h)
			scorer := x.Param("scorer", fn.Params[1].Type())
			var all []*Term
			for i := 0; i < n; i++ {
				all = append(all, c.arr(fmt.Sprintf("chain%d", i), 3+i))
			}
			st := NewState()
			in := c.listIn(st, "chains", all)
			outs := x.Run(fn, []*Term{in, scorer}, st)
			c.Done(x, fmt.Sprintf("%s[%d]", s.name, n))
			live := 0
			for _, o := range outs {
				if o.panic {
					continue
				}
				live++
				c.Paths++
				got, ok := x.listOf(o.st, o.res)
				if !c.Ob("sort:result", fn.Pos(), ok, "unclear result %v of sorting%s", o.res, c.Path(o.st)) {
					continue
				}
				seen := map[*Term]int{}
				for _, g := range got {
					seen[g]++
				}
				perm := len(got) == n
				for _, a := range all {
					perm = perm && seen[a] == 1
				}
				if !c.Ob("sort:permutation", fn.Pos(), perm, "sorting %v yields %v%s", all, got, c.Path(o.st)) {
					continue
				}
				scoreOf := func(s, t *Term) bool {
					return s.op == OpCall && s.str == "#dyn" && len(s.args) == 2 && s.args[0] == scorer && s.args[1] == t
				}
				lt := func(a, b *Term) (bool, bool) {
					for f, v := range o.st.facts {
						if f.op == OpLt && scoreOf(f.args[0], a) && scoreOf(f.args[1], b) {
							return v, true
						}
					}
					return false, false
				}
				for i := 0; i+1 < n; i++ {
					a, b := got[i], got[i+1]
					if !s.asc {
						a, b = b, a
					}
					// a must not have the greater score
					v, known := lt(b, a)
					v2, known2 := lt(a, b)
					c.Ob("sort:order:"+s.name, fn.Pos(), known && !v || known2 && v2, "the order of %v in %v does not follow from their scores%s", []*Term{got[i], got[i+1]}, got, c.Path(o.st))
				}
			}
			c.Ob("sort:possible", fn.Pos(), live > 0, "no outcome")
		}
	}
}

// pathLen: the length of a path is the number of its intermediates.
func (c *C) pathLen() {
	T := c.T
	for _, name := range []string{"TrustChain.PathLen", "TrustChainScoringPathLen"} {
		fn := c.Fn("", name)
		if fn == nil {
			continue
		}
		for n := 0; n <= 8; n++ {
			x := NewExec(c.P, T, &Hooks{Forward: true})
			outs := x.Run(fn, []*Term{c.arr("chain", n)}, NewState())
			c.Done(x, fmt.Sprintf("%s[%d]", name, n))
			live := 0
			for _, o := range outs {
				if o.panic {
					continue
				}
				live++
				k, ok := constInt(o.res)
				c.Ob("pathlen:"+name, fn.Pos(), ok && k == max(0, n-3), "the path length of a chain of %d statements is %v", n, o.res)
			}
			c.Ob("pathlen:possible:"+name, fn.Pos(), live > 0, "no outcome")
		}
		// any length
		x := NewExec(c.P, T, &Hooks{Forward: true})
		args, outs := x.RunEntry(fn)
		c.Done(x, name)
		for _, o := range outs {
			if o.panic {
				continue
			}
			l := T.Len(args[0])
			ok := x.Same(o.st, o.res, x.add(l, T.Int(-3)))
			if k, isC := constInt(o.res); isC {
				// small chains
				ok = k == 0 && (x.Proves(o.st, T.Lt(T.Int(3), l), false) || x.Proves(o.st, T.Lt(l, T.Int(4)), true) || x.Proves(o.st, T.Lt(l, T.Int(3)), true) || x.Proves(o.st, T.Empty(args[0]), true) || x.Proves(o.st, T.Lt(T.Int(0), x.add(l, T.Int(-3))), false))
			}
			c.Ob("pathlen:any:"+name, fn.Pos(), ok, "the path length is %v%s", o.res, c.Path(o.st))
		}
	}
}

func init() {
	register(&Check{
		ID: "C24", Title: "Filters keep exactly the chains that meet their condition, sorting orders by score", Min: 50,
		Technique: "symbolic evaluation on lists of symbolic chains with every outcome of the conditions; sorting modelled by its contract",
		Rule:      "every predefined and constructed filter returns exactly the chains for which its condition is known to hold on the path, in the given order and without modifying the given list; Filter applies all filters in order; SortAsc and SortDesc return a permutation in which the score of each chain is known not to be greater (smaller) than that of the next, for any order a sorting function may produce according to its contract; PathLen is the number of intermediates",
		Run:       runFilters,
	})
}
