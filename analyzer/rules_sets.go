package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C15", Title: "Set operations on claim values treat them as sets of values",
		Rule:      "Partial evaluation of the reflection of each set operation on operands of every combination of representation (typed lists, lists of interfaces, single values, nothing) and every arrangement of up to two and three symbolic elements; the result is compared with the operation on sets, and no append or store reaches an operand's memory.",
		Technique: "symbolic evaluation with partial evaluation of reflection; elements are symbols that can only be compared (data independence)",
		Min:       6,
		Run:       runSets,
	})
}

// operand is a claim value and the set of elements it stands for.
type operand struct {
	t     *Term
	elems []string
	kind  string
}

func runSets(c *C) {
	T := c.T
	str, i64, f64 := types.Typ[types.String], types.Typ[types.Int64], types.Typ[types.Float64]
	anyT := types.NewInterfaceType(nil, nil)
	sym := func(n string, t types.Type) *Term { return T.mk(OpParam, n, 0, nil, t) }
	mk := func(t types.Type, v *Term) *Term { return T.mk(OpMk, "", 0, nil, t, v) }
	list := func(t types.Type, es ...*Term) *Term {
		return mk(types.NewSlice(t), T.mk(OpList, "", 0, nil, nil, es...))
	}
	build := func(kind string, es []string) (operand, bool) {
		var l []*Term
		o := operand{elems: es, kind: kind}
		switch kind {
		case "nothing":
			o.t = T.Nil()
			return o, len(es) == 0
		case "string":
			if len(es) != 1 {
				return o, false
			}
			o.t = mk(str, sym("s:"+es[0], str))
			return o, true
		case "[]string":
			for _, e := range es {
				l = append(l, sym("s:"+e, str))
			}
			o.t = list(str, l...)
		case "[]any(string)":
			for _, e := range es {
				l = append(l, mk(str, sym("s:"+e, str)))
			}
			o.t = list(anyT, l...)
		case "int64":
			if len(es) != 1 {
				return o, false
			}
			o.t = mk(i64, sym("i:"+es[0], i64))
			return o, true
		case "[]int64":
			for _, e := range es {
				l = append(l, sym("i:"+e, i64))
			}
			o.t = list(i64, l...)
		case "[]any(number)":
			for _, e := range es {
				l = append(l, mk(f64, sym("f:"+e, f64)))
			}
			o.t = list(anyT, l...)
		}
		return o, true
	}
	state := func() *State {
		st := NewState()
		u := []string{"x", "y", "z"}
		for i, a := range u {
			for j, b := range u {
				conv := T.mk(OpConv, "", 0, nil, f64, sym("i:"+a, i64))
				st.facts[T.Eq(conv, sym("f:"+b, f64))] = i == j
				if i < j {
					for _, p := range []string{"s:", "i:", "f:"} {
						t := map[string]types.Type{"s:": str, "i:": i64, "f:": f64}[p]
						st.facts[T.Eq(sym(p+a, t), sym(p+b, t))] = false
					}
				}
			}
		}
		return st
	}
	// which value an element term stands for
	var nameOf func(t *Term) string
	nameOf = func(t *Term) string {
		t = unMk(t)
		for t.op == OpConv {
			t = unMk(t.args[0])
		}
		if t.op == OpParam && len(t.str) == 3 && t.str[1] == ':' {
			return t.str[2:]
		}
		return "?" + t.String()
	}
	rel := "internal/utils"
	run := func(name string, a, b operand) (x *Exec, outs []Outcome, fn *ssa.Function) {
		fn = c.P.Func(rel, name)
		h := &Hooks{Forward: true, Exact: true, Reflect: true}
		writes := func(in ssa.Instruction, t *Term) {
			for _, o := range []operand{a, b} {
				v := unMk(o.t)
				if v.op == OpList && len(v.args) > 0 && t == v {
					c.Ob("operands-kept:"+name, in.Pos(), false, "%s appends to an operand (%s), and so may overwrite memory that others use", name, o.kind)
				}
			}
		}
		h.OnAppend = func(x *Exec, st *State, in ssa.Instruction, base *Term, elems []*Term) {
			if len(elems) > 0 {
				b := unMk(base)
				for b.op == OpApp || b.op == OpAppS || b.op == OpSlice {
					b = unMk(b.args[0])
				}
				writes(in, b)
			}
		}
		h.OnStore = func(x *Exec, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op == OpElem || addr.op == OpParam {
				r := addr
				for r.op == OpElem {
					r = unMk(r.args[0])
				}
				writes(in, r)
				if r.op == OpParam {
					c.Ob("operands-kept:"+name, in.Pos(), false, "%s writes to an element of an operand", name)
				}
			}
		}
		h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
			if ev.Name == "reflect.DeepEqual" && len(ev.Addrs) == 2 {
				p, q := ev.Addrs[0], ev.Addrs[1]
				if p.isNilConst() || q.isNilConst() {
					return []Outcome{{st: st, res: T.Bool(p == q)}}, true
				}
				if p.op == OpMk && q.op == OpMk {
					if !types.Identical(p.typ, q.typ) {
						return []Outcome{{st: st, res: T.Bool(false)}}, true
					}
					return []Outcome{{st: st, res: T.Eq(p.args[0], q.args[0])}}, true
				}
			}
			return nil, false
		}
		x = NewExec(c.P, c.T, h)
		outs = x.Run(fn, []*Term{a.t, b.t}, state())
		c.Done(x, fmt.Sprintf("%s(%s %v, %s %v)", name, a.kind, a.elems, b.kind, b.elems))
		return x, outs, fn
	}
	var as, bs [][]string
	as = [][]string{{}, {"x"}, {"x", "y"}}
	u := []string{"x", "y", "z"}
	bs = append(bs, []string{})
	for _, p := range u {
		bs = append(bs, []string{p})
		for _, q := range u {
			if q == p {
				continue
			}
			bs = append(bs, []string{p, q})
			for _, r := range u {
				if r != p && r != q && c.Tier == "thorough" {
					bs = append(bs, []string{p, q, r})
				}
			}
		}
	}
	bs = append(bs, []string{"y", "z", "x"})
	kinds := [][2]string{
		{"[]string", "[]string"}, {"[]any(string)", "[]string"}, {"[]string", "[]any(string)"}, {"[]any(string)", "[]any(string)"},
		{"string", "[]any(string)"}, {"[]string", "string"}, {"string", "string"}, {"nothing", "[]any(string)"}, {"[]string", "nothing"}, {"nothing", "nothing"},
		{"[]int64", "[]any(number)"}, {"[]any(number)", "[]int64"}, {"int64", "[]any(number)"}, {"[]any(number)", "[]any(number)"},
	}
	in := func(e string, l []string) bool {
		for _, o := range l {
			if o == e {
				return true
			}
		}
		return false
	}
	sub := func(a, b []string) bool {
		for _, e := range a {
			if !in(e, b) {
				return false
			}
		}
		return true
	}
	boolRes := func(name string, a, b operand, want bool) {
		x, outs, fn := run(name, a, b)
		for _, o := range outs {
			c.Paths++
			ok := !o.panic && o.res != nil
			if ok {
				v, k := x.Known(o.st, o.res)
				ok = k && v == want
			}
			c.Ob("result:"+name, fn.Pos(), ok, "%s(%s %v, %s %v) is not %v but %v%s", name, a.kind, a.elems, b.kind, b.elems, want, o.res, c.Path(o.st))
		}
	}
	setRes := func(name string, a, b operand, want []string) {
		x, outs, fn := run(name, a, b)
		for _, o := range outs {
			c.Paths++
			if o.panic || o.res == nil {
				c.Ob("result:"+name, fn.Pos(), false, "%s(%s %v, %s %v) panics%s", name, a.kind, a.elems, b.kind, b.elems, c.Path(o.st))
				continue
			}
			l, ok := x.listOf(o.st, unMk(o.res))
			var got []string
			for _, e := range l {
				got = append(got, nameOf(e))
			}
			sort.Strings(got)
			w := append([]string(nil), want...)
			sort.Strings(w)
			ok = ok && strings.Join(got, ",") == strings.Join(w, ",")
			c.Ob("result:"+name, fn.Pos(), ok, "%s(%s %v, %s %v) is not %v but %v%s", name, a.kind, a.elems, b.kind, b.elems, want, o.res, c.Path(o.st))
		}
	}
	for _, n := range []string{"ReflectSliceContains", "ReflectIsSubsetOf", "ReflectIsSupersetOf", "ReflectUnion", "ReflectIntersect", "SliceEqual"} {
		f := c.P.Func(rel, n)
		if !c.Anchor("set operation "+n, f != nil && len(f.Params) == 2) {
			return
		}
		c.Ob("operands-kept:"+n, f.Pos(), true, "")
	}
	// repeated elements
	for _, k := range kinds {
		for _, ds := range [][2][]string{{{"x", "x"}, {"x", "y"}}, {{"x", "y"}, {"y", "y"}}, {{"x", "y", "y"}, {"x", "z", "y"}}} {
			a, ok1 := build(k[0], ds[0])
			b, ok2 := build(k[1], ds[1])
			if ok1 && ok2 {
				boolRes("SliceEqual", a, b, false)
			}
		}
	}
	for _, k := range kinds {
		for _, ae := range as {
			a, ok := build(k[0], ae)
			if !ok {
				continue
			}
			for _, be := range bs {
				b, ok := build(k[1], be)
				if !ok {
					continue
				}
				var union, inter []string
				union = append(union, ae...)
				for _, e := range be {
					if !in(e, ae) {
						union = append(union, e)
					} else {
						inter = append(inter, e)
					}
				}
				boolRes("ReflectIsSubsetOf", a, b, sub(ae, be))
				boolRes("ReflectIsSupersetOf", a, b, sub(be, ae))
				if k[0] != "nothing" && k[1] != "nothing" {
					boolRes("SliceEqual", a, b, sub(ae, be) && sub(be, ae))
				} else {
					boolRes("SliceEqual", a, b, k[0] == k[1])
				}
				setRes("ReflectUnion", a, b, union)
				setRes("ReflectIntersect", a, b, inter)
				if k[0] == "string" || k[0] == "int64" {
					boolRes("ReflectSliceContains", a, b, strings.HasPrefix(k[1], "[]") && in(ae[0], be))
				}
			}
		}
	}
}
