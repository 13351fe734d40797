package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C37", Title: "Metadata is found under the entity type and claim it is named after",
		Rule:      "Partial evaluation of the reflection in the functions that look into Metadata by name, once per entity type and claim: the entity types reported, the display names, the claims handed to an iterator, the metadata that is decoded and the UI info field that is set are those with the wire name asked for, and no others.",
		Technique: "symbolic evaluation with partial evaluation of reflection over all entity types and claims",
		Min:       400,
		Run:       runNames,
	})
}

type namesModel struct {
	c     *C
	md    *types.Named
	s     *types.Struct
	types []int // fields of entity types
	extra int
}

// keyModel gives the functions listing the keys of maps their meaning on maps with known keys.
func (c *C) keyModel(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
	T := c.T
	switch ev.Name {
	case "slices.Sorted", "slices.Collect", "slices.SortedFunc":
		a := unMk(ev.Addrs[0])
		if a.op == OpCall && strings.HasPrefix(a.str, "maps.Keys") && len(a.args) > 0 {
			if ks, ok := x.mapKeys(st, unMk(a.args[0])); ok {
				ks = append([]*Term(nil), ks...)
				if ev.Name == "slices.Sorted" {
					sort.Slice(ks, func(i, j int) bool { return ks[i].str < ks[j].str })
				}
				return []Outcome{{st: st, res: T.mk(OpList, "", 0, nil, nil, ks...)}}, true
			}
		}
	case "sort.Strings", "slices.Sort":
		// any order will do
		return []Outcome{{st: st, res: T.mk(OpTuple, "", 0, nil, nil)}}, true
	}
	return nil, false
}

func runNames(c *C) {
	m := &namesModel{c: c, md: c.P.Named("", "Metadata"), extra: -1}
	if !c.Anchor("type Metadata", m.md != nil) {
		return
	}
	m.s = m.md.Underlying().(*types.Struct)
	for i := 0; i < m.s.NumFields(); i++ {
		t := m.s.Field(i).Type()
		if _, ok := jsonTag(m.s, i); ok {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				if _, ok := p.Elem().Underlying().(*types.Struct); ok {
					m.types = append(m.types, i)
				}
			}
			continue
		}
		if mp, ok := t.Underlying().(*types.Map); ok && types.IsInterface(mp.Elem()) {
			m.extra = i
		}
	}
	if !c.Anchor("entity types of Metadata", len(m.types) >= 6 && m.extra >= 0) {
		return
	}
	m.entityTypes()
	m.displayName()
	m.displayNames()
	m.iterate("Metadata.IterateStringClaim", types.Typ[types.String])
	m.iterate("Metadata.IterateStringSliceClaim", types.NewSlice(types.Typ[types.String]))
	m.find()
	m.uiInfo()
}

func (m *namesModel) tag(i int) string { t, _ := jsonTag(m.s, i); return t }

func (m *namesModel) elem(i int) (*types.Named, *types.Struct) {
	e := deref(m.s.Field(i).Type())
	nt, _ := e.(*types.Named)
	return nt, e.Underlying().(*types.Struct)
}

// exec sets up a run on arbitrary metadata.
func (m *namesModel) start(fn *ssa.Function, h *Hooks) (x *Exec, st *State, recv *Term, sel func(i int) *Term) {
	c := m.c
	h.Forward, h.Exact, h.Reflect = true, true, true
	if h.Pin == nil {
		h.Pin = func(g *Term) bool { return g.op == OpCall }
	}
	if h.Model == nil {
		h.Model = c.keyModel
	}
	x = NewExec(c.P, c.T, h)
	st = NewState()
	if p, ok := fn.Params[0].Type().(*types.Pointer); ok {
		recv = x.Param("m", p)
		st.facts[c.T.IsNil(recv)] = false
		sel = func(i int) *Term { return x.load(NewState(), x.fieldAddr(recv, m.s, i)) }
	} else {
		recv = x.Param("m", fn.Params[0].Type())
		sel = func(i int) *Term { return c.T.Sel(recv, m.s, i) }
	}
	return
}

func (m *namesModel) fn(name string, n int) *ssa.Function {
	fn := m.c.P.Func("", name)
	if !m.c.Anchor("function "+name, fn != nil && len(fn.Params) == n && types.Identical(deref(fn.Params[0].Type()), m.md)) {
		return nil
	}
	return fn
}

// entityTypes: exactly those for which metadata is present.
func (m *namesModel) entityTypes() {
	c, T := m.c, m.c.T
	fn := m.fn("Metadata.GuessEntityTypes", 1)
	if fn == nil {
		return
	}
	for _, more := range []int{0, 2} {
		h := &Hooks{}
		x, st, recv, sel := m.start(fn, h)
		var ks []*Term
		for i := 0; i < more; i++ {
			ks = append(ks, strConst(c, fmt.Sprintf("x_type_%d", i)))
		}
		x.SetKeys(st, sel(m.extra), ks...)
		if more > 0 {
			st.facts[T.IsNil(sel(m.extra))] = false
		}
		for _, k := range ks {
			v := T.mk(OpParam, "more"+k.str, 0, nil, nil)
			st.mem[T.Elem(sel(m.extra), k)] = v
			st.facts[T.IsNil(v)] = false
		}
		key := fmt.Sprintf("types:%d", more)
		outs := x.Run(fn, []*Term{recv}, st)
		c.Done(x, key)
		c.Anchor("results of "+fn.Name(), len(outs) > 0)
		for _, o := range outs {
			c.Paths++
			p := c.Path(o.st)
			if !c.Ob(key+":total", fn.Pos(), !o.panic && o.res != nil, "listing the entity types panics%s", p) {
				continue
			}
			l, ok := x.listOf(o.st, unMk(o.res))
			if !ok && !o.res.isNilConst() {
				c.Ob(key+":known", fn.Pos(), false, "the entity types are %v%s", o.res, p)
				continue
			}
			n := map[string]int{}
			for _, e := range l {
				s, ok := strOf(unMk(e))
				c.Ob(key+":known", fn.Pos(), ok, "there is the entity type %v%s", e, p)
				n[s]++
			}
			for _, i := range m.types {
				z, k := x.Known(o.st, T.IsNil(sel(i)))
				if !c.Ob(key+":"+m.tag(i), fn.Pos(), k, "the entity type %s is decided without looking whether there is metadata%s", m.tag(i), p) {
					continue
				}
				w := 0
				if !z {
					w = 1
				}
				c.Ob(key+":"+m.tag(i), fn.Pos(), n[m.tag(i)] == w, "metadata of %s: %v, listed %d times%s", m.tag(i), !z, n[m.tag(i)], p)
				delete(n, m.tag(i))
			}
			for _, k := range ks {
				s, _ := strOf(k)
				c.Ob(key+":more", fn.Pos(), n[s] == 1, "an entity type without a metadata type is listed %d times%s", n[s], p)
				delete(n, s)
			}
			var rest []string
			for s := range n {
				rest = append(rest, s)
			}
			sort.Strings(rest)
			c.Ob(key+":others", fn.Pos(), len(rest) == 0, "there are the entity types %q without metadata%s", rest, p)
		}
	}
}

var fallbackName = map[string]string{
	"openid_provider": "organization_name", "oauth_authorization_server": "organization_name", "federation_entity": "organization_name",
	"openid_relying_party": "client_name", "oauth_client": "client_name", "oauth_resource": "resource_name",
}

func fieldByTag(s *types.Struct, tag string) int {
	for i := 0; i < s.NumFields(); i++ {
		if t, ok := jsonTag(s, i); ok && t == tag {
			return i
		}
	}
	return -1
}

// displayName: the display name of one metadata type.
func (m *namesModel) displayName() {
	c, T := m.c, m.c.T
	for _, i := range m.types {
		nt, s := m.elem(i)
		dn, fb := fieldByTag(s, "display_name"), fieldByTag(s, fallbackName[m.tag(i)])
		var fn *ssa.Function
		if nt != nil {
			fn = c.P.Func("", nt.Obj().Name()+".GuessDisplayName")
		}
		if !c.Anchor("display name of "+m.tag(i), dn >= 0 && fb >= 0 && fn != nil && len(fn.Params) == 1) {
			continue
		}
		h := &Hooks{Forward: true, Exact: true}
		x := NewExec(c.P, c.T, h)
		st := NewState()
		recv := x.Param("m", fn.Params[0].Type())
		get := func(j int) *Term { return T.Sel(recv, s, j) }
		if _, ok := fn.Params[0].Type().(*types.Pointer); ok {
			st.facts[T.IsNil(recv)] = false
			get = func(j int) *Term { return x.load(NewState(), x.fieldAddr(recv, s, j)) }
		}
		key := "name:" + m.tag(i)
		outs := x.Run(fn, []*Term{recv}, st)
		c.Done(x, key)
		for _, o := range outs {
			c.Paths++
			p := c.Path(o.st)
			if !c.Ob(key, fn.Pos(), !o.panic && o.res != nil, "the display name panics%s", p) {
				continue
			}
			e, k := x.Known(o.st, T.Eq(get(dn), T.Const(`""`, types.Typ[types.String])))
			if !k {
				e, k = x.Known(o.st, T.Empty(get(dn)))
			}
			if !c.Ob(key, fn.Pos(), k || o.res == get(dn), "the display name is %v whether or not there is one%s", o.res, p) {
				continue
			}
			w := get(dn)
			if e {
				w = get(fb)
			}
			c.Ob(key, fn.Pos(), x.Same(o.st, o.res, w), "the display name is %v instead of %v%s", o.res, w, p)
		}
	}
}

// displayNames: those of the metadata that is present.
func (m *namesModel) displayNames() {
	c, T := m.c, m.c.T
	fn := m.fn("Metadata.GuessDisplayNames", 1)
	if fn == nil {
		return
	}
	h := &Hooks{}
	h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
		if strings.HasSuffix(ev.Name, ".GuessDisplayName") && len(ev.Addrs) == 1 {
			return []Outcome{{st: st, res: T.mk(OpCall, "#name", 0, nil, types.Typ[types.String], unMk(ev.Addrs[0]))}}, true
		}
		return c.keyModel(x, st, ev)
	}
	x, st, recv, sel := m.start(fn, h)
	x.SetKeys(st, sel(m.extra))
	outs := x.Run(fn, []*Term{recv}, st)
	c.Done(x, "names")
	c.Anchor("results of "+fn.Name(), len(outs) > 0)
	for _, o := range outs {
		c.Paths++
		p := c.Path(o.st)
		if !c.Ob("names:total", fn.Pos(), !o.panic && o.res != nil, "collecting the display names panics%s", p) {
			continue
		}
		ks, ok := x.mapKeys(o.st, unMk(o.res))
		if !c.Ob("names:known", fn.Pos(), ok, "the display names are %v%s", o.res, p) {
			continue
		}
		n := 0
		for _, i := range m.types {
			z, k := x.Known(o.st, T.IsNil(sel(i)))
			if !c.Ob("names:"+m.tag(i), fn.Pos(), k, "the display name of %s is decided without looking whether there is metadata%s", m.tag(i), p) {
				continue
			}
			kt := strConst(c, m.tag(i))
			has, _ := x.hasKey(o.st, ks, kt)
			if c.Ob("names:"+m.tag(i), fn.Pos(), has == !z, "metadata of %s: %v, display name: %v%s", m.tag(i), !z, has, p) && has {
				n++
				v := x.valueAt(o.st, unMk(o.res), kt)
				ok := v.op == OpCall && v.str == "#name" && (v.args[0] == sel(i) || x.content(o.st, v.args[0]) == x.content(o.st, sel(i)) || v.args[0] == x.load(o.st, sel(i)))
				c.Ob("names:"+m.tag(i), fn.Pos(), ok, "the display name of %s is %v%s", m.tag(i), v, p)
			}
		}
		c.Ob("names:others", fn.Pos(), len(ks) == n, "there are the display names %v%s", ks, p)
	}
}

// near returns names that are almost the given one.
func near(t string) []string {
	if len(t) < 2 {
		return nil
	}
	return []string{t + "_x", t[:len(t)-1], strings.ToUpper(t), t + ",omitempty"}
}

// iterate: the claim with the given name and type of every metadata that has it.
func (m *namesModel) iterate(name string, ct types.Type) {
	fn := m.fn(name, 3)
	if fn == nil {
		return
	}
	tags, variant := map[string]bool{"x_claim": true}, map[string]bool{}
	for _, i := range m.types {
		_, s := m.elem(i)
		for j := 0; j < s.NumFields(); j++ {
			if t, ok := jsonTag(s, j); ok {
				tags[t] = true
			}
		}
	}
	for _, t := range append(near("display_name"), near("contacts")...) {
		tags[t], variant[t] = true, true
	}
	var names []string
	for t := range tags {
		names = append(names, t)
	}
	sort.Strings(names)
	whole := 0
	for _, t := range names {
		// one entity type at a time
		all := true
		for _, i := range m.types {
			_, s := m.elem(i)
			j := fieldByTag(s, t)
			if j < 0 || !types.Identical(s.Field(j).Type(), ct) {
				all = false
			}
			if j >= 0 || t == "x_claim" || variant[t] && i == m.types[0] {
				m.iterateRun(fn, t, ct, []int{i})
			}
		}
		if all && whole < 3 {
			whole++
			m.iterateRun(fn, t, ct, m.types)
		}
	}
}

func (m *namesModel) iterateRun(fn *ssa.Function, tag string, ct types.Type, present []int) {
	c, T := m.c, m.c.T
	h := &Hooks{}
	iter := T.mk(OpParam, "iterator", 0, nil, fn.Params[2].Type())
	kt := strConst(c, tag)
	calls := map[string][2]*Term{}
	h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
		if ev.Name == "#dyn" && len(ev.Addrs) == 3 && ev.Addrs[0] == iter {
			k := fmt.Sprint(len(calls))
			calls[k] = [2]*Term{unMk(ev.Addrs[1]), unMk(ev.Addrs[2])}
			st.aux["#log"] += "call:" + k + ":;"
			return []Outcome{{st: st, res: T.mk(OpTuple, "", 0, nil, nil)}}, true
		}
		return c.keyModel(x, st, ev)
	}
	x, st, recv, sel := m.start(fn, h)
	st.facts[T.IsNil(iter)] = false
	x.SetKeys(st, sel(m.extra))
	for _, i := range m.types {
		here := false
		for _, j := range present {
			here = here || i == j
		}
		st.facts[T.IsNil(sel(i))] = !here
	}
	key := fn.Name() + ":" + tag
	if len(present) == 1 {
		key += ":" + m.tag(present[0])
	}
	outs := x.Run(fn, []*Term{recv, kt, iter}, st)
	c.Done(x, key)
	c.Anchor("results of "+fn.Name(), len(outs) > 0)
	for _, o := range outs {
		c.Paths++
		p := c.Path(o.st)
		if !c.Ob(key, fn.Pos(), !o.panic, "iterating over the claim panics%s", p) {
			continue
		}
		got := map[string][]*Term{}
		n := 0
		for _, e := range eventsOf(o.st) {
			if e.kind == "call" {
				et, ok := strOf(calls[e.key][0])
				c.Ob(key, fn.Pos(), ok, "the iterator gets the entity type %v%s", calls[e.key][0], p)
				got[et] = append(got[et], calls[e.key][1])
				n++
			}
		}
		for _, i := range present {
			_, s := m.elem(i)
			j := fieldByTag(s, tag)
			g := got[m.tag(i)]
			n -= len(g)
			if j < 0 || !types.Identical(s.Field(j).Type(), ct) {
				c.Ob(key, fn.Pos(), len(g) == 0, "the iterator gets %v for %s, which has no such claim%s", g, m.tag(i), p)
				continue
			}
			v := x.load(o.st, x.fieldAddr(sel(i), s, j))
			empty, k := false, false
			if isString(ct) {
				empty, k = x.Known(o.st, T.Eq(v, T.Const(`""`, types.Typ[types.String])))
			}
			if !k {
				if z, kz := x.Known(o.st, T.IsNil(v)); kz && !isString(ct) {
					empty, k = z, true
				}
			}
			if !k {
				empty, k = x.Known(o.st, T.Empty(v))
			}
			switch {
			case !k:
				c.Ob(key, fn.Pos(), len(g) == 1 && x.Same(o.st, g[0], v), "the iterator gets %v for %s without looking whether the claim is set%s", g, m.tag(i), p)
			case empty:
				c.Ob(key, fn.Pos(), len(g) == 0, "the iterator gets %v for %s, where the claim is not set%s", g, m.tag(i), p)
			default:
				c.Ob(key, fn.Pos(), len(g) == 1 && x.Same(o.st, g[0], v), "the iterator gets %v for %s instead of its claim %v%s", g, m.tag(i), v, p)
			}
		}
		c.Ob(key, fn.Pos(), n == 0, "the iterator is called for other entity types: %v%s", got, p)
	}
}

// find: the metadata of the entity type is decoded into the given object.
func (m *namesModel) find() {
	c, T := m.c, m.c.T
	fn := m.fn("Metadata.FindEntityMetadata", 3)
	if fn == nil {
		return
	}
	type want struct {
		tag   string
		field int // -1: further
		has   bool
	}
	var ws []want
	for _, i := range m.types {
		ws = append(ws, want{m.tag(i), i, true}, want{m.tag(i), i, false})
	}
	for _, i := range m.types {
		for _, t := range near(m.tag(i)) {
			if j := fieldByTag(m.s, t); j < 0 {
				ws = append(ws, want{t, -1, false}, want{t, -1, true})
			}
		}
	}
	ws = append(ws, want{"x_type", -1, true}, want{"x_type", -1, false}, want{"-", -1, false}, want{"", -1, false})
	for _, w := range ws {
		h := &Hooks{}
		obj := T.mk(OpParam, "object", 0, nil, nil)
		calls := map[string][]*Term{}
		failure := T.mk(OpParam, "failure", 0, nil, nil)
		h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
			switch ev.Name {
			case "encoding/json.Marshal":
				s2 := st.clone()
				s2.aux["#log"] += "marshal::err;"
				s2.facts[T.IsNil(failure)] = false
				d := T.mk(OpCall, "#json", 0, nil, nil, unMk(ev.Addrs[0]))
				return []Outcome{{st: st, res: T.mk(OpTuple, "", 0, nil, nil, d, T.Nil())}, {st: s2, res: T.mk(OpTuple, "", 0, nil, nil, T.Nil(), failure)}}, true
			case "encoding/json.Unmarshal":
				k := fmt.Sprint(len(calls))
				calls[k] = []*Term{unMk(ev.Addrs[0]), unMk(ev.Addrs[1])}
				s2 := st.clone()
				st.aux["#log"] += "decode:" + k + ":ok;"
				s2.aux["#log"] += "decode:" + k + ":err;"
				s2.facts[T.IsNil(failure)] = false
				return []Outcome{{st: st, res: T.Nil()}, {st: s2, res: failure}}, true
			}
			return c.keyModel(x, st, ev)
		}
		x, st, recv, sel := m.start(fn, h)
		st.facts[T.IsNil(obj)] = false
		other := strConst(c, "x_other")
		ks := []*Term{other}
		st.mem[T.Elem(sel(m.extra), other)] = T.mk(OpParam, "other", 0, nil, nil)
		found := T.mk(OpParam, "found", 0, nil, nil)
		if w.field < 0 && w.has {
			ks = append(ks, strConst(c, w.tag))
			st.mem[T.Elem(sel(m.extra), strConst(c, w.tag))] = found
		}
		x.SetKeys(st, sel(m.extra), ks...)
		st.facts[T.IsNil(sel(m.extra))] = false
		for _, i := range m.types {
			st.facts[T.IsNil(sel(i))] = i == w.field && !w.has
		}
		key := fmt.Sprintf("find:%s:%v", w.tag, w.has)
		outs := x.Run(fn, []*Term{recv, strConst(c, w.tag), obj}, st)
		c.Done(x, key)
		c.Anchor("results of "+fn.Name(), len(outs) > 0)
		for _, o := range outs {
			c.Paths++
			p := c.Path(o.st)
			if !c.Ob(key, fn.Pos(), !o.panic && o.res != nil, "finding the metadata panics%s", p) {
				continue
			}
			isErr, known := isErrTerm(x, o.st, o.res)
			n, failed, bad := 0, false, ""
			for _, e := range eventsOf(o.st) {
				failed = failed || e.what == "err"
				if e.kind != "decode" {
					continue
				}
				n++
				a := calls[e.key]
				d := a[0]
				src := found
				if w.field >= 0 {
					src = sel(w.field)
				}
				if d.op != OpCall || d.str != "#json" || d.args[0] != src && x.content(o.st, d.args[0]) != x.content(o.st, src) && d.args[0] != x.load(o.st, src) {
					bad = fmt.Sprintf("%v is decoded", d)
				}
				if a[1] != obj {
					bad = fmt.Sprintf("the metadata is decoded into %v", a[1])
				}
			}
			switch {
			case !w.has:
				c.Ob(key, fn.Pos(), known && isErr && n == 0, "there is no such metadata, but the result is %v after decoding %d objects%s", o.res, n, p)
			case failed:
				c.Ob(key, fn.Pos(), known && isErr, "decoding failed, but the result is %v%s", o.res, p)
			default:
				c.Ob(key, fn.Pos(), known && !isErr && n == 1 && bad == "", "the result is %v after decoding %d objects; %s%s", o.res, n, bad, p)
			}
		}
	}
}

// uiInfo: the field of the UI info with the given name is set.
func (m *namesModel) uiInfo() {
	c, T := m.c, m.c.T
	ent, ui := c.P.Named("", "CollectedEntity"), c.P.Named("", "UIInfo")
	if !c.Anchor("types CollectedEntity and UIInfo", ent != nil && ui != nil) {
		return
	}
	var fns []*ssa.Function
	for _, f := range c.P.RepoFuncs() {
		s := f.Signature
		if len(f.Params) != 4 || f.Parent() != nil || s.Results().Len() != 1 || !isErrorType(s.Results().At(0).Type()) {
			continue
		}
		if p, ok := f.Params[0].Type().(*types.Pointer); ok && types.Identical(p.Elem(), ent) && isString(f.Params[1].Type()) && isString(f.Params[2].Type()) && types.IsInterface(f.Params[3].Type()) {
			fns = append(fns, f)
		}
	}
	es, us := ent.Underlying().(*types.Struct), ui.Underlying().(*types.Struct)
	uis, ex := -1, -1
	for i := 0; i < es.NumFields(); i++ {
		if mp, ok := es.Field(i).Type().Underlying().(*types.Map); ok && types.Identical(mp.Elem(), ui) {
			uis = i
		}
	}
	var claims []int
	for i := 0; i < us.NumFields(); i++ {
		if _, ok := jsonTag(us, i); ok {
			claims = append(claims, i)
		} else if _, ok := us.Field(i).Type().Underlying().(*types.Map); ok {
			ex = i
		}
	}
	if !c.Anchor("UI infos", uis >= 0 && ex >= 0 && len(claims) > 0 && len(fns) > 0) {
		return
	}
	et, ot := strConst(c, "openid_provider"), strConst(c, "oauth_client")
	for _, fn := range fns {
		further := map[int]string{-1: "x_claim"}
		for k, t := range near("display_name") {
			further[-2-k] = t
		}
		fields := append([]int(nil), claims...)
		for k := 1; k <= len(further); k++ {
			fields = append(fields, -k)
		}
		for _, i := range fields {
			for _, mode := range []string{"none", "other", "there", "unfit"} {
				tag := further[i]
				var ft types.Type = types.Typ[types.String]
				if i >= 0 {
					tag, _ = jsonTag(us, i)
					ft = us.Field(i).Type()
				}
				if mode == "unfit" {
					if i < 0 {
						continue
					}
					ft = types.NewMap(types.Typ[types.String], types.Typ[types.Int8])
				}
				h := &Hooks{Forward: true, Exact: true, Reflect: true, Pin: func(g *Term) bool { return g.op == OpCall }, Model: c.keyModel}
				x := NewExec(c.P, c.T, h)
				st := NewState()
				recv := x.Param("e", fn.Params[0].Type())
				st.facts[T.IsNil(recv)] = false
				uf := es.Field(uis)
				addr := T.mk(OpSel, "", 0, uf, uf.Type(), recv)
				mp := T.mk(OpParam, "infos", 0, nil, uf.Type())
				st.mem[addr] = mp
				a, b := T.mk(OpParam, "info", 0, nil, ui), T.mk(OpParam, "otherinfo", 0, nil, ui)
				switch mode {
				case "none":
					st.facts[T.IsNil(mp)] = true
					x.SetKeys(st, mp)
				case "other":
					st.facts[T.IsNil(mp)] = false
					x.SetKeys(st, mp, ot)
					st.mem[T.Elem(mp, ot)] = b
				default:
					st.facts[T.IsNil(mp)] = false
					x.SetKeys(st, mp, ot, et)
					st.mem[T.Elem(mp, ot)] = b
					st.mem[T.Elem(mp, et)] = a
				}
				oe := T.Sel(a, us, ex)
				x.SetKeys(st, oe, strConst(c, "x_other"))
				st.facts[T.IsNil(oe)] = false
				st.mem[T.Elem(oe, strConst(c, "x_other"))] = T.mk(OpParam, "other", 0, nil, nil)
				val := T.mk(OpParam, "value", 0, nil, ft)
				key := fmt.Sprintf("ui:%s:%s", tag, mode)
				outs := x.Run(fn, []*Term{recv, et, strConst(c, tag), T.mk(OpMk, "", 0, nil, ft, val)}, st)
				c.Done(x, key)
				c.Anchor("results of "+fn.Name(), len(outs) > 0)
				for _, o := range outs {
					c.Paths++
					p := c.Path(o.st)
					if !c.Ob(key, fn.Pos(), !o.panic && o.res != nil, "setting UI info panics%s", p) {
						continue
					}
					isErr, known := isErrTerm(x, o.st, o.res)
					if mode == "unfit" {
						c.Ob(key, fn.Pos(), known && isErr, "a value that does not fit is accepted%s", p)
					} else if !c.Ob(key, fn.Pos(), known && !isErr, "setting UI info fails%s", p) {
						continue
					}
					now := x.load(o.st, addr)
					ks, ok := x.mapKeys(o.st, now)
					if !c.Ob(key, fn.Pos(), ok, "the UI infos become %v%s", now, p) {
						continue
					}
					n := 0
					if mode != "none" {
						n++
						has, _ := x.hasKey(o.st, ks, ot)
						c.Ob(key, fn.Pos(), has && x.valueAt(o.st, now, ot) == b, "the UI info of another entity type changes%s", p)
					}
					if has, _ := x.hasKey(o.st, ks, et); has || mode != "unfit" {
						n++
						if !c.Ob(key, fn.Pos(), has, "there is no UI info for the entity type%s", p) {
							continue
						}
					}
					c.Ob(key, fn.Pos(), len(ks) == n, "there is UI info of %v%s", ks, p)
					v := x.valueAt(o.st, now, et)
					before := func(j int) *Term {
						if mode == "there" || mode == "unfit" {
							return T.Sel(a, us, j)
						}
						return T.Zero(us.Field(j).Type())
					}
					same := func(g, w *Term) bool {
						return x.Same(o.st, g, w) || g.op == OpZero && w.op == OpZero || g.isNilConst() && w.op == OpZero
					}
					for _, j := range claims {
						g := unIface(T.Sel(v, us, j))
						if j == i && mode != "unfit" {
							c.Ob(key, fn.Pos(), x.Same(o.st, g, val), "the UI info %s becomes %v%s", tag, g, p)
							continue
						}
						w := before(j)
						c.Ob(key, fn.Pos(), same(g, w), "the UI info %s becomes %v when %s is set%s", us.Field(j).Name(), g, tag, p)
					}
					g := T.Sel(v, us, ex)
					if i >= 0 {
						c.Ob(key, fn.Pos(), same(g, before(ex)), "the further UI info becomes %v when %s is set%s", g, tag, p)
						continue
					}
					want := map[string]*Term{tag: val}
					if mode == "there" {
						want["x_other"] = T.mk(OpParam, "other", 0, nil, nil)
					}
					why := c.exactMap(x, o.st, unMk(g), want)
					c.Ob(key, fn.Pos(), why == "", "the further UI info is not as expected: %s%s", why, p)
				}
			}
		}
	}
}
