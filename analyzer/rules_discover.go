package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C38", Title: "Collectors and their filters return exactly the entities that qualify",
		Rule:      "Symbolic evaluation of every collector and entity filter of the library: the verified chains collectors, for lists of up to three entities and two filters with every outcome of resolving and filtering, keep exactly the entities for which a chain to the requested trust anchor is confirmed and all filters approve, in the given order; the filters for OPs, for every kind of metadata and every arrangement of needed and supported values, approve exactly those that meet the condition; the remote collectors ask with the given request, return what was answered, and try the endpoints of the anchors in order before collecting locally.",
		Technique: "symbolic evaluation with every outcome of resolution, filters and requests; bounded lists",
		Min:       60,
		Run:       runDiscover,
	})
}

type discModel struct {
	c                    *C
	ent, req, stmt, rreq *types.Named
	entList              types.Type
	terms                []*Term
	failure              *Term
}

func (m *discModel) remember(t *Term) string {
	for i, v := range m.terms {
		if v == t {
			return fmt.Sprint(i)
		}
	}
	m.terms = append(m.terms, t)
	return fmt.Sprint(len(m.terms) - 1)
}

func (m *discModel) term(key string) *Term {
	var i int
	if _, err := fmt.Sscan(key, &i); err != nil || i >= len(m.terms) {
		return nil
	}
	return m.terms[i]
}

func (m *discModel) ret(st *State, ts ...*Term) []Outcome {
	if len(ts) == 1 {
		return []Outcome{{st: st, res: ts[0]}}
	}
	return []Outcome{{st: st, res: m.c.T.mk(OpTuple, "", 0, nil, nil, ts...)}}
}

func (m *discModel) strs(st *State, name string, l []string) *Term {
	if l == nil {
		return m.c.T.Nil()
	}
	var ts []*Term
	for _, e := range l {
		ts = append(ts, strConst(m.c, e))
	}
	return m.c.listIn(st, name, ts)
}

// sameReq tells whether a request has the fields of another, except for the given ones.
func (m *discModel) sameReq(x *Exec, st *State, t, req *Term, except map[string]bool) string {
	t = unIface(t)
	if t.op == OpParam || t.op == OpAlloc || t.op == OpSel || t.op == OpSnap {
		if _, ok := t.typ.(*types.Pointer); ok {
			t = x.load(st, t)
		}
	}
	s := m.req.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i).Name()
		if except[f] {
			continue
		}
		a, b := x.content(st, m.c.Sel(t, m.req, f)), x.content(st, m.c.Sel(req, m.req, f))
		if a != b {
			return fmt.Sprintf("%s is %v", f, a)
		}
	}
	return ""
}

func (m *discModel) list(x *Exec, st *State, t *Term) ([]*Term, bool) {
	t = unMk(t)
	if t.isNilConst() || t.op == OpZero {
		return nil, true
	}
	return x.listOf(st, t)
}

// boolOf decides a result on a path.
func boolOf(x *Exec, st *State, t *Term) (bool, bool) {
	switch t {
	case x.T.Bool(true):
		return true, true
	case x.T.Bool(false):
		return false, true
	}
	return x.Known(st, t)
}

func runDiscover(c *C) {
	T := c.T
	m := &discModel{c: c}
	m.ent, m.req, m.stmt, m.rreq = c.P.Named("", "CollectedEntity"), c.P.Named("apimodel", "EntityCollectionRequest"), c.P.Named("", "EntityStatement"), c.P.Named("apimodel", "ResolveRequest")
	if !c.Anchor("collector types", m.ent != nil && m.req != nil && m.stmt != nil && m.rreq != nil) {
		return
	}
	m.entList = types.NewSlice(types.NewPointer(m.ent))
	m.failure = T.mk(OpParam, "failure", 0, nil, types.Universe.Lookup("error").Type())
	m.opCollector()
	m.verified()
	m.filters()
	m.remote()
	m.smart()
}

func isLogging(n string) bool {
	return strings.HasPrefix(n, "internal.Log") || strings.Contains(n, "logrus")
}

func isResolver(n, method string) bool {
	return strings.HasSuffix(n, "MetadataResolver."+method)
}

// opCollector: the collector for OPs collects with the given request, but only OPs.
func (m *discModel) opCollector() {
	c, T := m.c, m.c.T
	fn := c.Fn("", "SimpleOPCollector.CollectEntities")
	if fn == nil {
		return
	}
	req := T.mk(OpParam, "request", 0, nil, m.req)
	found := T.mk(OpParam, "collected", 0, nil, m.entList)
	h := &Hooks{Forward: true, Pin: func(g *Term) bool { return g.op == OpCall }}
	h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
		if ev.Name != "oidfed.SimpleEntityCollector.CollectEntities" {
			return nil, false
		}
		st = st.clone()
		st.aux["#log"] += "collect:"
		why := m.sameReq(x, st, ev.Args[1], req, map[string]bool{"EntityTypes": true})
		c.Ob("op:request", ev.Instr.Pos(), why == "", "entities are collected for another request: %s%s", why, c.Path(st))
		l, ok := m.list(x, st, x.content(st, c.Sel(unIface(ev.Args[1]), m.req, "EntityTypes")))
		c.Ob("op:type", ev.Instr.Pos(), ok && len(l) == 1 && l[0] == strConst(c, "openid_provider"), "entities of the types %v are collected%s", l, c.Path(st))
		return m.ret(st, found), true
	}
	x := NewExec(c.P, T, h)
	st := NewState()
	outs := x.Run(fn, []*Term{x.Param("recv", fn.Params[0].Type()), req}, st)
	c.Done(x, "SimpleOPCollector")
	c.Anchor("results of collecting OPs", len(outs) > 0)
	for _, o := range outs {
		c.Paths++
		c.Ob("op:result", fn.Pos(), !o.panic && o.st.aux["#log"] == "collect:" && x.Same(o.st, o.res, found), "the result is %v%s", o.res, c.Path(o.st))
	}
}

// verified: entities without a confirmed chain or approval are removed.
func (m *discModel) verified() {
	c := m.c
	col := c.P.Named("", "FilterableVerifiedChainsEntityCollector")
	if !c.Anchor("filterable collector", col != nil) {
		return
	}
	for _, name := range []string{"VerifiedChainsEntityCollector", "FilterableVerifiedChainsEntityCollector"} {
		fn := c.Fn("", name+".CollectEntities")
		if fn == nil {
			continue
		}
		inners, nf := []bool{false, true}, 2
		if name == "VerifiedChainsEntityCollector" {
			inners, nf = []bool{false}, 0
		}
		for _, inner := range inners {
			for f := 0; f <= nf; f++ {
				for n := 0; n <= 3; n++ {
					if f == 2 && n == 3 {
						continue
					}
					m.verifiedCase(fn, name, inner, f, n, col)
				}
			}
		}
	}
}

func (m *discModel) verifiedCase(fn *ssa.Function, name string, inner bool, nf, n int, col *types.Named) {
	c, T := m.c, m.c.T
	key := fmt.Sprintf("%s[%v,%d,%d]", name, inner, nf, n)
	anchor := T.mk(OpParam, "anchor", 0, nil, types.Typ[types.String])
	req := T.mk(OpParam, "request", 0, nil, m.req)
	ff := c.Field(m.req, "TrustAnchor")
	req = T.Snap(req, []*Term{T.mk(OpSel, "", 0, ff, ff.Type(), T.snapBase(nil)), anchor})
	st := NewState()
	var ents, ids []*Term
	for i := 0; i < n; i++ {
		p := T.mk(OpParam, fmt.Sprintf("entity%d", i), 0, nil, types.NewPointer(m.ent))
		st.facts[T.IsNil(p)] = false
		id := T.mk(OpParam, fmt.Sprintf("id%d", i), 0, nil, types.Typ[types.String])
		st.mem[c.fieldOf(p, "EntityID")] = id
		ents, ids = append(ents, p), append(ids, id)
	}
	found := c.listIn(st, "collected", ents)
	h := &Hooks{Forward: true, Exact: true, Pin: func(g *Term) bool { return g.op == OpCall || g.op == OpParam }}
	boolT := types.Typ[types.Bool]
	var filters []*Term
	innerT := T.mk(OpParam, "inner", 0, nil, nil)
	possible := func(i int) *Term { return T.mk(OpParam, fmt.Sprintf("chain-confirmed:%d", i), 0, nil, boolT) }
	approved := func(f, i int) *Term { return T.mk(OpParam, fmt.Sprintf("approved:%d:%d", f, i), 0, nil, boolT) }
	at := func(l []*Term, t *Term) int {
		for i, v := range l {
			if v == t {
				return i
			}
		}
		return -1
	}
	h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
		pos := ev.Instr.Pos()
		switch {
		case isLogging(ev.Name):
			return m.ret(st, T.mk(OpTuple, "", 0, nil, nil)), true
		case strings.HasSuffix(ev.Name, "EntityCollector.CollectEntities") && (ev.Fn == nil || ev.Name == "oidfed.SimpleEntityCollector.CollectEntities"):
			st = st.clone()
			st.aux["#log"] += "collect;"
			own := ev.Args[0] == innerT || unMk(ev.Args[0]) == innerT
			c.Ob("verified:inner:"+name, pos, own == inner, "%v collects the entities%s", ev.Args[0], c.Path(st))
			why := m.sameReq(x, st, ev.Args[1], req, nil)
			c.Ob("verified:request:"+name, pos, why == "", "entities are collected for another request: %s%s", why, c.Path(st))
			return m.ret(st, found), true
		case isResolver(ev.Name, "ResolvePossible"):
			rq := ev.Args[len(ev.Args)-1]
			l, ok := m.list(x, st, x.content(st, c.Sel(rq, m.rreq, "TrustAnchor")))
			c.Ob("verified:anchor:"+name, pos, ok && len(l) == 1 && l[0] == anchor, "a chain to %v is looked for%s", l, c.Path(st))
			et, ok := m.list(x, st, x.content(st, c.Sel(rq, m.rreq, "EntityTypes")))
			c.Ob("verified:types:"+name, pos, ok && len(et) == 0, "a chain is looked for only for the types %v%s", et, c.Path(st))
			i := at(ids, x.content(st, c.Sel(rq, m.rreq, "Subject")))
			if !c.Ob("verified:subject:"+name, pos, i >= 0, "a chain for %v is looked for%s", c.Sel(rq, m.rreq, "Subject"), c.Path(st)) {
				return nil, false
			}
			return m.ret(st, possible(i), T.mk(OpParam, fmt.Sprintf("chain-refuted:%d", i), 0, nil, boolT)), true
		case strings.HasSuffix(ev.Name, "EntityCollectionFilter.Filter") && ev.Fn == nil:
			f, i := at(filters, ev.Args[0]), at(ents, ev.Args[1])
			if !c.Ob("verified:filter:"+name, pos, f >= 0 && i >= 0, "%v filters %v%s", ev.Args[0], ev.Args[1], c.Path(st)) {
				return nil, false
			}
			return m.ret(st, approved(f, i)), true
		}
		return nil, false
	}
	x := NewExec(c.P, T, h)
	self := x.Param("recv", fn.Params[0].Type())
	if name != "VerifiedChainsEntityCollector" {
		ft := c.Field(col, "Filters").Type().(*types.Slice).Elem()
		for i := 0; i < nf; i++ {
			p := T.mk(OpParam, fmt.Sprintf("filter%d", i), 0, nil, ft)
			st.facts[T.IsNil(p)] = false
			filters = append(filters, p)
		}
		fc, fl := c.Field(col, "Collector"), c.Field(col, "Filters")
		innerT = T.mk(OpParam, "inner", 0, nil, fc.Type())
		st.facts[T.IsNil(innerT)] = false
		cv, fv := T.Nil(), T.Nil()
		if inner {
			cv = innerT
		}
		if nf > 0 {
			fv = c.listIn(st, "filters", filters)
		}
		sel := func(f *types.Var) *Term { return T.mk(OpSel, "", 0, f, f.Type(), T.snapBase(nil)) }
		self = T.Snap(self, []*Term{sel(fc), cv, sel(fl), fv})
	}
	outs := x.Run(fn, []*Term{self, req}, st)
	c.Done(x, key)
	c.Anchor("results of "+name, len(outs) > 0)
	full, none := false, false
	for _, o := range outs {
		c.Paths++
		p := c.Path(o.st)
		if !c.Ob("verified:total:"+name, fn.Pos(), !o.panic, "collecting panics%s", p) {
			continue
		}
		c.Ob("verified:once:"+name, fn.Pos(), o.st.aux["#log"] == "collect;", "entities are collected %d times%s", strings.Count(o.st.aux["#log"], ";"), p)
		got, ok := m.list(x, o.st, o.res)
		if !c.Ob("verified:result:"+name, fn.Pos(), ok, "the result %v is unclear%s", o.res, p) {
			continue
		}
		j := 0
		for i, e := range ents {
			var unknown []string
			no := ""
			conds := []*Term{possible(i)}
			for f := range filters {
				conds = append(conds, approved(f, i))
			}
			for _, t := range conds {
				v, known := x.Known(o.st, t)
				if !known {
					unknown = append(unknown, t.str)
				} else if !v {
					no = t.str
				}
			}
			if j < len(got) && got[j] == e {
				j++
				c.Ob("verified:kept:"+name, fn.Pos(), no == "" && len(unknown) == 0, "entity %d of %d is kept although not %s%v%s", i, n, no, unknown, p)
			} else {
				c.Ob("verified:dropped:"+name, fn.Pos(), no != "", "entity %d of %d is dropped although nothing is against it%s", i, n, p)
			}
		}
		full, none = full || j == n, none || j == 0
		c.Ob("verified:only:"+name, fn.Pos(), j == len(got), "the result is %v of %v%s", got, ents, p)
		if nf > 0 {
			for i, f := range filters {
				c.Ob("verified:filters:"+name, fn.Pos(), x.content(o.st, T.Elem(c.Sel(self, col, "Filters"), T.Int(i))) == f, "the filters of the collector are modified%s", p)
			}
		}
	}
	c.Ob("verified:possible:"+name, fn.Pos(), full && none, "%s keeps all: %v, none: %v", key, full, none)
}

// filters: the filters for OPs.
func (m *discModel) filters() {
	needs := [][]string{nil, {}, {"a"}, {"a", "b"}}
	has := [][]string{nil, {}, {"a"}, {"c"}, {"b", "a"}, {"c", "a"}, {"b", "c", "a"}}
	subset := func(need, have []string) bool {
		for _, n := range need {
			if !hasStr(have, n) {
				return false
			}
		}
		return true
	}
	for _, f := range []struct{ name, field string }{
		{"EntityCollectionFilterOPSupportedGrantTypesIncludes", "GrantTypesSupported"},
		{"EntityCollectionFilterOPSupportedScopesIncludes", "ScopesSupported"},
	} {
		for _, need := range needs {
			for _, have := range has {
				m.opFilter(f.name, f.field, need, have, true, subset(need, have))
			}
		}
	}
	regs := [][]string{nil, {}, {"automatic"}, {"explicit"}, {"explicit", "automatic"}, {"x", "automatic"}, {"x", "explicit", "y"}, {"Automatic", "Explicit"}}
	for _, have := range regs {
		m.opFilter("EntityCollectionFilterOPSupportsExplicitRegistration", "ClientRegistrationTypesSupported", nil, have, false, hasStr(have, "explicit"))
		m.opFilter("EntityCollectionFilterOPSupportsAutomaticRegistration", "ClientRegistrationTypesSupported", nil, have, false, hasStr(have, "automatic"))
	}
	for _, types := range [][]string{nil, {}, {"openid_provider"}, {"openid_relying_party"}, {"federation_entity", "openid_provider"}, {"openid_provider", "x"}, {"openid_provider_x"}} {
		m.opFilter("EntityCollectionFilterOPs", "", nil, types, false, hasStr(types, "openid_provider"))
	}
}

func (m *discModel) opFilter(name, field string, need, have []string, variadic, want bool) {
	c, T := m.c, m.c.T
	mk := c.Fn("", name)
	mdT, opT := c.P.Named("", "Metadata"), c.P.Named("", "OpenIDProviderMetadata")
	if mk == nil || !c.Anchor("metadata types", mdT != nil && opT != nil) {
		return
	}
	kinds := []string{"nil", "cached", "cached-other", "resolved", "resolved-other", "resolved-nil", "failed"}
	if field == "" {
		kinds = []string{"nil", "entity"}
	}
	for _, kind := range kinds {
		h := &Hooks{Forward: true, Exact: true, Reflect: true, Pin: func(g *Term) bool { return g.op == OpCall }}
		st := c.initState("").clone()
		st.facts[T.IsNil(m.failure)] = false
		anchors := m.strs(st, "anchors", []string{"https://ta1.example", "https://ta2.example"})
		id := T.mk(OpParam, "id", 0, nil, types.Typ[types.String])
		meta := func(other bool) *Term {
			p := T.mk(OpParam, "metadata", 0, nil, types.NewPointer(mdT))
			st.facts[T.IsNil(p)] = false
			f := c.fieldOf(p, "OpenIDProvider")
			if other {
				st.mem[f] = T.Nil()
				return p
			}
			op := T.mk(OpParam, "op", 0, nil, f.typ)
			st.facts[T.IsNil(op)] = false
			st.mem[f] = op
			var l []*Term
			for _, s := range have {
				l = append(l, strConst(c, s))
			}
			v := T.mk(OpList, "", 0, nil, nil, l...)
			if have == nil {
				v = T.Nil()
			}
			st.mem[c.fieldOf(op, field)] = v
			return p
		}
		ent := T.mk(OpParam, "entity", 0, nil, types.NewPointer(m.ent))
		st.facts[T.IsNil(ent)] = kind == "nil"
		if kind == "nil" {
			ent = T.Nil()
		} else {
			st.mem[c.fieldOf(ent, "EntityID")] = id
			var et []*Term
			for _, s := range have {
				et = append(et, strConst(c, s))
			}
			v := T.mk(OpList, "", 0, nil, nil, et...)
			if have == nil {
				v = T.Nil()
			}
			if field == "" {
				st.mem[c.fieldOf(ent, "EntityTypes")] = v
			}
		}
		var cached, res *Term = T.Nil(), T.Nil()
		switch kind {
		case "cached", "cached-other":
			cached = meta(kind == "cached-other")
		case "resolved", "resolved-other":
			res = meta(kind == "resolved-other")
		}
		expect := want && (kind == "cached" || kind == "resolved" || kind == "entity")
		if kind != "nil" {
			for _, f := range structFields(m.ent) {
				if p, ok := f.Type().(*types.Pointer); ok && types.Identical(p.Elem(), mdT) {
					st.mem[c.fieldOf(ent, f.Name())] = cached
				}
			}
		}
		h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
			if isLogging(ev.Name) {
				return m.ret(st, T.mk(OpTuple, "", 0, nil, nil)), true
			}
			if (ev.Name == "reflect.DeepEqual" || ev.Name == "slices.Contains" || ev.Name == "slices.Index") && len(ev.Addrs) == 2 {
				a, isA := strOf(unMk(x.content(st, unMk(ev.Addrs[0]))))
				b, isB := strOf(unMk(x.content(st, unMk(ev.Addrs[1]))))
				if isA && isB {
					return m.ret(st, T.Bool(a == b)), true
				}
				l, ok := m.list(x, st, ev.Addrs[0])
				hit, pos := false, -1
				for i, e := range l {
					s, isStr := strOf(e)
					ok = ok && isStr
					if s == b && !hit {
						hit, pos = true, i
					}
				}
				if ok && isB && ev.Name == "slices.Index" {
					return m.ret(st, T.Int(pos)), true
				}
				if ok && isB {
					return m.ret(st, T.Bool(hit)), true
				}
				return nil, false
			}
			if !isResolver(ev.Name, "Resolve") && !isResolver(ev.Name, "ResolveResponsePayload") {
				return nil, false
			}
			rq := ev.Args[len(ev.Args)-1]
			sub := x.content(st, c.Sel(rq, m.rreq, "Subject"))
			ta := x.content(st, c.Sel(rq, m.rreq, "TrustAnchor"))
			et, ok := m.list(x, st, x.content(st, c.Sel(rq, m.rreq, "EntityTypes")))
			l, ok2 := m.list(x, st, ta)
			c.Ob("filter:resolve:"+name, ev.Instr.Pos(), sub == id && ok2 && len(l) == 2 && l[0] == strConst(c, "https://ta1.example") && l[1] == strConst(c, "https://ta2.example") && ok && (len(et) == 0 || len(et) == 1 && et[0] == strConst(c, "openid_provider")), "metadata of %v of the types %v is resolved to %v%s", sub, et, ta, c.Path(st))
			c.Ob("filter:cached:"+name, ev.Instr.Pos(), strings.HasPrefix(kind, "resolved") || kind == "failed", "metadata is resolved although it is already known%s", c.Path(st))
			e := T.Nil()
			if kind == "failed" {
				e = m.failure
			}
			if isResolver(ev.Name, "ResolveResponsePayload") {
				pay := c.P.Named("", "ResolveResponsePayload")
				f := c.Field(pay, "Metadata")
				v := T.Snap(T.Zero(pay), []*Term{T.mk(OpSel, "", 0, f, f.Type(), T.snapBase(nil)), res})
				return m.ret(st, v, e), true
			}
			return m.ret(st, res, e), true
		}
		x := NewExec(c.P, T, h)
		var args []*Term
		if len(mk.Params) > 0 {
			args = append(args, anchors)
		}
		if variadic {
			var l []*Term
			for _, s := range need {
				l = append(l, strConst(c, s))
			}
			v := T.mk(OpList, "", 0, nil, nil, l...)
			if need == nil {
				v = T.Nil()
			}
			args = append(args, v)
		}
		outs := x.Run(mk, args, st)
		if !c.Ob("filter:made:"+name, mk.Pos(), len(outs) == 1 && !outs[0].panic, "the filter is not made unconditionally") {
			return
		}
		s2 := outs[0].st
		s2.frames = nil
		res2, why := x.invoke(s2, outs[0].res, "Filter", ent)
		if !c.Ob("filter:type:"+name, mk.Pos(), why == "", "%s", why) {
			return
		}
		c.Done(x, fmt.Sprintf("%s %s %q %q", name, kind, need, have))
		c.Anchor("results of "+name, len(res2) > 0)
		for _, o := range res2 {
			c.Paths++
			if !c.Ob("filter:total:"+name, mk.Pos(), !o.panic, "filtering (%s) panics%s", kind, c.Path(o.st)) {
				continue
			}
			v, known := boolOf(x, o.st, o.res)
			c.Ob("filter:approved:"+name, mk.Pos(), known && v == expect, "an entity (%s) with %q, if %q is needed, is approved: %v (%v)%s", kind, have, need, v, o.res, c.Path(o.st))
		}
	}
}

func structFields(n *types.Named) (l []*types.Var) {
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		l = append(l, s.Field(i))
	}
	return
}

// endpoint describes what an entity collection endpoint answers.
type endpoint struct {
	conf string // configuration of the anchor: ok, err, nometa, bare, noextra, number, empty
	ans  string // transport, error, null, empty, list
}

// requestModel models the request to an entity collection endpoint.
func (m *discModel) requestModel(req *Term, ans func(x *Exec, st *State, url *Term) string, fn string) func(*Exec, *State, *CallEvent) ([]Outcome, bool) {
	c, T := m.c, m.c.T
	get := c.Fn("internal/http", "Get")
	return func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
		pos := ev.Instr.Pos()
		switch {
		case isLogging(ev.Name) || strings.HasSuffix(ev.Name, "HttpError.Err"):
			return m.ret(st, m.failure), true
		case strings.HasSuffix(ev.Name, "/query.Values"):
			why := m.sameReq(x, st, ev.Args[0], req, nil)
			c.Ob("remote:request:"+fn, pos, why == "", "the parameters are of another request: %s%s", why, c.Path(st))
			if ans(x, st, nil) == "params" {
				st = st.clone()
				st.aux["#log"] += "params;"
				return m.ret(st, T.Nil(), m.failure), true
			}
			return m.ret(st, T.mk(OpCall, "#params", 0, nil, nil), T.Nil()), true
		case ev.Name == "internal/http.Get":
			c.Ob("remote:params:"+fn, pos, ev.Args[1].op == OpCall && ev.Args[1].str == "#params", "the parameters of the request are %v%s", ev.Args[1], c.Path(st))
			a := ans(x, st, ev.Args[0])
			st = st.clone()
			st.aux["#log"] += "get:" + m.remember(ev.Args[0]) + ":" + a + ";"
			switch a {
			case "transport":
				return m.ret(st, T.Nil(), T.Nil(), m.failure), true
			case "error":
				e := T.mk(OpParam, "errres", 0, nil, get.Signature.Results().At(1).Type())
				st.facts[T.IsNil(e)] = false
				return m.ret(st, T.Nil(), e, T.Nil()), true
			}
			dst := unIface(ev.Addrs[2])
			resT := c.P.Named("", "EntityCollectionResponse")
			ok := dst.op == OpAlloc
			if ok {
				p, isP := dst.typ.(*types.Pointer)
				ok = !isP || types.Identical(p.Elem(), resT)
			}
			if !c.Ob("remote:decoded:"+fn, pos, ok, "the answer is decoded to %v%s", dst, c.Path(st)) {
				return nil, false
			}
			x.store(st, c.fieldOf(dst, "FederationEntities"), m.answer(st, a, m.remember(ev.Args[0])))
			r := T.mk(OpParam, "response", 0, nil, get.Signature.Results().At(0).Type())
			st.facts[T.IsNil(r)] = false
			return m.ret(st, r, T.Nil(), T.Nil()), true
		}
		return nil, false
	}
}

func (m *discModel) answer(st *State, a, key string) *Term {
	switch a {
	case "list":
		return m.c.listIn(st, "answer:"+key, []*Term{m.c.T.mk(OpParam, "answered:"+key, 0, nil, types.NewPointer(m.ent))})
	case "empty":
		return m.c.T.mk(OpList, "", 0, nil, nil)
	}
	return m.c.T.Nil()
}

// remote: what one endpoint answers.
func (m *discModel) remote() {
	c, T := m.c, m.c.T
	fn := c.Fn("", "SimpleRemoteEntityCollector.CollectEntities")
	if fn == nil {
		return
	}
	for _, a := range []string{"params", "transport", "error", "null", "empty", "list"} {
		req := T.mk(OpParam, "request", 0, nil, m.req)
		h := &Hooks{Forward: true, Exact: true, Pin: func(g *Term) bool { return g.op == OpCall }}
		x := NewExec(c.P, T, h)
		self := x.Param("recv", fn.Params[0].Type())
		col := c.P.Named("", "SimpleRemoteEntityCollector")
		h.Model = m.requestModel(req, func(*Exec, *State, *Term) string { return a }, "simple")
		st := NewState()
		st.facts[T.IsNil(m.failure)] = false
		outs := x.Run(fn, []*Term{self, req}, st)
		c.Done(x, "SimpleRemoteEntityCollector "+a)
		c.Anchor("results of the remote collector", len(outs) > 0)
		for _, o := range outs {
			c.Paths++
			p := c.Path(o.st)
			if !c.Ob("remote:total", fn.Pos(), !o.panic, "collecting panics (%s)%s", a, p) {
				continue
			}
			evs := eventsOf(o.st)
			var url *Term
			if a != "params" {
				if !c.Ob("remote:asked", fn.Pos(), len(evs) == 1 && evs[0].kind == "get", "there are %d requests%s", len(evs), p) {
					continue
				}
				url = m.term(evs[0].key)
				c.Ob("remote:endpoint", fn.Pos(), x.Same(o.st, url, c.Sel(self, col, "EntityCollectionEndpoint")), "the request goes to %v%s", url, p)
			}
			m.answered(x, o, a, url, fn, "remote:answer")
		}
	}
}

func (m *discModel) answered(x *Exec, o Outcome, a string, url *Term, fn *ssa.Function, ob string) {
	c := m.c
	l, ok := m.list(x, o.st, o.res)
	switch a {
	case "list":
		want := c.T.mk(OpParam, "answered:"+m.remember(url), 0, nil, types.NewPointer(m.ent))
		ok = ok && len(l) == 1 && l[0] == want
	case "empty":
		ok = ok && len(l) == 0 && !o.res.isNilConst()
	default:
		ok = o.res.isNilConst() || o.res.op == OpZero
	}
	c.Ob(ob, fn.Pos(), ok, "if the answer is %q the result is %v%s", a, o.res, c.Path(o.st))
}

// smart: the endpoints of the anchors are asked in order.
func (m *discModel) smart() {
	c, T := m.c, m.c.T
	fn, cfg := c.Fn("", "SmartRemoteEntityCollector.CollectEntities"), c.Fn("", "GetEntityConfiguration")
	col, md, fe := c.P.Named("", "SmartRemoteEntityCollector"), c.P.Named("", "Metadata"), c.P.Named("", "FederationEntityMetadata")
	if fn == nil || cfg == nil || !c.Anchor("smart collector", col != nil && md != nil && fe != nil) {
		return
	}
	const ta, b, d = "https://ta.example", "https://b.example", "https://d.example"
	confs := []string{"err", "nometa", "bare", "noextra", "absent", "number", "empty"}
	anss := []string{"params", "transport", "error", "null", "empty", "list"}
	type scen struct {
		conf  []string
		world map[string]endpoint
	}
	var scens []scen
	lists := [][]string{nil, {}, {ta}, {b}, {b, ta}, {ta, b}, {b, d}, {b, ta, d}, {d, b}, {ta, ta}}
	okList := endpoint{"ok", "list"}
	for _, l := range lists {
		for _, cf := range confs {
			scens = append(scens, scen{l, map[string]endpoint{ta: {cf, ""}, b: okList, d: okList}})
			scens = append(scens, scen{l, map[string]endpoint{ta: {cf, ""}, b: {cf, ""}, d: {"ok", "empty"}}})
		}
		for _, a := range anss {
			scens = append(scens, scen{l, map[string]endpoint{ta: {"ok", a}, b: okList, d: okList}})
			scens = append(scens, scen{l, map[string]endpoint{ta: {"ok", "error"}, b: {"ok", a}, d: okList}})
			scens = append(scens, scen{l, map[string]endpoint{ta: {"ok", a}, b: {"err", ""}, d: {"ok", a}}})
		}
	}
	found := T.mk(OpParam, "collected", 0, nil, m.entList)
	for _, s := range scens {
		name := fmt.Sprintf("SmartRemoteEntityCollector %q %v", s.conf, s.world)
		st := NewState()
		st.facts[T.IsNil(m.failure)] = false
		ff := c.Field(m.req, "TrustAnchor")
		req := T.Snap(T.mk(OpParam, "request", 0, nil, m.req), []*Term{T.mk(OpSel, "", 0, ff, ff.Type(), T.snapBase(nil)), strConst(c, ta)})
		h := &Hooks{Forward: true, Exact: true, Reflect: true, Pin: func(g *Term) bool { return g.op == OpCall }}
		x := NewExec(c.P, T, h)
		confOf := map[string]*Term{}
		for id, e := range s.world {
			p := T.mk(OpParam, "conf:"+id, 0, nil, cfg.Signature.Results().At(0).Type())
			confOf[id] = p
			st.facts[T.IsNil(p)] = false
			mp := c.fieldOf(c.fieldOf(p, "EntityStatementPayload"), "Metadata")
			if e.conf == "nometa" {
				st.mem[mp] = T.Nil()
				continue
			}
			mt := T.mk(OpParam, "metadata:"+id, 0, nil, types.NewPointer(md))
			st.mem[mp] = mt
			st.facts[T.IsNil(mt)] = false
			fp := c.fieldOf(mt, "FederationEntity")
			if e.conf == "bare" {
				st.mem[fp] = T.Nil()
				continue
			}
			ft := T.mk(OpParam, "fedentity:"+id, 0, nil, types.NewPointer(fe))
			st.mem[fp] = ft
			st.facts[T.IsNil(ft)] = false
			xp := c.fieldOf(ft, "Extra")
			if e.conf == "noextra" {
				st.mem[xp] = T.Nil()
				continue
			}
			vals := map[string]*Term{"x_other": T.mk(OpMk, "", 0, nil, types.Typ[types.String], strConst(c, "https://other.example"))}
			switch e.conf {
			case "number":
				vals["federation_collection_endpoint"] = T.mk(OpMk, "", 0, nil, types.Typ[types.Float64], T.mk(OpParam, "number", 0, nil, types.Typ[types.Float64]))
			case "empty":
				vals["federation_collection_endpoint"] = T.mk(OpMk, "", 0, nil, types.Typ[types.String], strConst(c, ""))
			case "ok":
				vals["federation_collection_endpoint"] = T.mk(OpMk, "", 0, nil, types.Typ[types.String], strConst(c, id+"/collect"))
			}
			st.mem[xp] = c.mapIn(x, st, "extra:"+id, xp.typ, vals)
		}
		model := m.requestModel(req, func(x *Exec, st *State, url *Term) string {
			if url == nil {
				for _, e := range s.world { // building the parameters fails for all or none
					if e.ans == "params" {
						return "params"
					}
				}
				return ""
			}
			u, _ := strOf(url)
			e, ok := s.world[strings.TrimSuffix(u, "/collect")]
			if ok && e.ans != "params" {
				return e.ans
			}
			return "error"
		}, "smart")
		h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
			switch ev.Name {
			case "oidfed.GetEntityConfiguration":
				id, _ := strOf(ev.Args[0])
				e, ok := s.world[id]
				if !c.Ob("smart:config", ev.Instr.Pos(), ok, "the configuration of %v is obtained%s", ev.Args[0], c.Path(st)) || e.conf == "err" {
					return m.ret(st, T.Nil(), m.failure), true
				}
				return m.ret(st, confOf[id], T.Nil()), true
			case "oidfed.SimpleEntityCollector.CollectEntities":
				why := m.sameReq(x, st, ev.Args[1], req, nil)
				c.Ob("smart:local", ev.Instr.Pos(), why == "", "entities are collected for another request: %s%s", why, c.Path(st))
				st = st.clone()
				st.aux["#log"] += "local:;"
				return m.ret(st, found), true
			}
			return model(x, st, ev)
		}
		sf := c.Field(col, "TrustAnchors")
		listed := m.strs(st, "anchors", s.conf)
		if s.conf != nil && len(s.conf) == 0 {
			listed = T.mk(OpList, "", 0, nil, nil)
		}
		h.OnAppend = func(x *Exec, st *State, in ssa.Instruction, base *Term, _ []*Term) {
			for base.op == OpApp || base.op == OpAppS {
				base = base.args[0]
			}
			over := base.op == OpSlice && unMk(base.args[0]) == listed && base.args[2] != T.Len(listed)
			c.Ob("smart:kept", in.Pos(), !over, "the anchors of the collector are overwritten%s", c.Path(st))
		}
		self := T.Snap(x.Param("recv", fn.Params[0].Type()), []*Term{T.mk(OpSel, "", 0, sf, sf.Type(), T.snapBase(nil)), listed})
		if collapsed(col.Underlying().(*types.Struct), 0) {
			self = listed
		}
		// what should happen
		order := []string{ta}
		for _, id := range s.conf {
			if id != ta {
				order = append(order, id)
			}
		}
		var want []string
		answer, by := "local", ""
		params := false
		for _, e := range s.world {
			params = params || e.ans == "params"
		}
		for _, id := range order {
			e := s.world[id]
			if e.conf != "ok" {
				continue
			}
			if params {
				want = append(want, "params")
				continue
			}
			want = append(want, "get "+id+"/collect")
			if e.ans == "list" || e.ans == "empty" {
				answer, by = e.ans, id
				break
			}
		}
		if answer == "local" {
			want = append(want, "local")
		}
		outs := x.Run(fn, []*Term{self, req}, st)
		c.Done(x, name)
		c.Anchor("results of the smart collector", len(outs) > 0)
		for _, o := range outs {
			c.Paths++
			p := c.Path(o.st)
			if !c.Ob("smart:total", fn.Pos(), !o.panic, "collecting panics (%s)%s", name, p) {
				continue
			}
			var got []string
			var url *Term
			for _, e := range strings.Split(o.st.aux["#log"], ";") {
				f := strings.Split(e, ":")
				switch f[0] {
				case "get":
					url = m.term(f[1])
					u, _ := strOf(url)
					got = append(got, "get "+u)
				case "params", "local":
					got = append(got, f[0])
				}
			}
			noParams := func(l []string) string {
				var out []string
				for _, s := range l {
					if s != "params" {
						out = append(out, s)
					}
				}
				return strings.Join(out, ", ")
			}
			c.Ob("smart:order", fn.Pos(), noParams(got) == noParams(want), "with %s the requests are %q instead of %q%s", name, got, want, p)
			if answer == "local" {
				c.Ob("smart:result", fn.Pos(), x.Same(o.st, o.res, found), "if no endpoint answers the result is %v%s", o.res, p)
			} else if u, _ := strOf(url); u == by+"/collect" {
				m.answered(x, o, answer, url, fn, "smart:result")
			}
			for i, id := range s.conf {
				c.Ob("smart:kept", fn.Pos(), x.content(o.st, T.Elem(listed, T.Int(i))) == strConst(c, id), "the anchors of the collector are modified%s", p)
			}
		}
	}
}
