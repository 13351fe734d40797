package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func runLocal(c *C) {
	c.chainExpiry()
	c.localResolver()
}

// chainExpiry: a chain expires with the first of its statements.
func (c *C) chainExpiry() {
	T := c.T
	fn := c.Fn("", "TrustChain.ExpiresAt")
	stmt := c.P.Named("", "EntityStatement")
	if fn == nil || !c.Anchor("statement type", stmt != nil) {
		return
	}
	for n := 0; n <= 9; n++ {
		var orders [][]int // all orders of up to four expirations; of more, each as the earliest
		if n <= 4 {
			total := 1
			for i := 0; i < n; i++ {
				total *= n
			}
			for code := 0; code < total; code++ {
				var o []int
				for i, v := 0, code; i < n; i, v = i+1, v/n {
					o = append(o, v%n)
				}
				orders = append(orders, o)
			}
		} else {
			for k := 0; k < n; k++ {
				up, down := make([]int, n), make([]int, n)
				for i := range up {
					up[i], down[i] = i+1, n-i
				}
				up[k], down[k] = 0, 0
				orders = append(orders, up, down)
			}
		}
		for _, order := range orders {
			chain := c.arr("chain", n)
			rank := map[*Term]int{}
			exp := make([]*Term, n)
			for i := 0; i < n; i++ {
				exp[i] = c.instant(c.Sel(T.Elem(chain, T.Int(i)), stmt, "EntityStatementPayload.ExpiresAt"))
				rank[exp[i]] = order[i]
			}
			of := func(t *Term) (int, bool) {
				r, ok := rank[c.instant(t)]
				return r, ok
			}
			h := &Hooks{Forward: true, Exact: true}
			h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
				if !strings.HasPrefix(ev.Name, "time.Time.") {
					return nil, false
				}
				a, ok := of(ev.Args[0])
				if !ok {
					return nil, false
				}
				one := func(t *Term) ([]Outcome, bool) { return []Outcome{{st: st, res: t}}, true }
				switch m := strings.TrimPrefix(ev.Name, "time.Time."); m {
				case "Unix", "UnixNano", "UnixMilli", "UnixMicro":
					return one(T.Int(1000000 + a))
				case "IsZero":
					return one(T.Bool(false))
				case "Before", "After", "Equal", "Compare":
					b, ok := of(ev.Args[1])
					if !ok {
						return nil, false
					}
					switch m {
					case "Before":
						return one(T.Bool(a < b))
					case "After":
						return one(T.Bool(a > b))
					case "Equal":
						return one(T.Bool(a == b))
					}
					return one(T.Int(max(-1, min(1, a-b))))
				}
				return nil, false
			}
			x := NewExec(c.P, T, h)
			outs := x.Run(fn, []*Term{chain}, NewState())
			c.Done(x, fmt.Sprintf("TrustChain.ExpiresAt[%d]", n))
			live := 0
			for _, o := range outs {
				if o.panic {
					continue
				}
				c.Paths++
				live++
				r := c.instant(o.res)
				if n == 0 {
					c.Ob("expiry:empty", fn.Pos(), r.op == OpZero, "an empty chain expires at %v", r)
					continue
				}
				k, ok := rank[r]
				least := ok
				for _, v := range rank {
					least = least && k <= v
				}
				if n == 1 || ok {
					c.Ob("expiry:first", fn.Pos(), least, "a chain of %d statements whose expirations are ordered as %v expires at %v%s", n, order, r, c.Path(o.st))
				} else {
					c.Ob("expiry:first", fn.Pos(), false, "a chain of %d statements expires at %v%s", n, r, c.Path(o.st))
				}
			}
			c.Ob("expiry:possible", fn.Pos(), live == 1, "%d outcomes for %d statements", live, n)
		}
	}
}

// localResolver: the result of the local resolver.
func (c *C) localResolver() {
	T := c.T
	stmt, req, payload, md, tr := c.P.Named("", "EntityStatement"), c.P.Named("apimodel", "ResolveRequest"), c.P.Named("", "ResolveResponsePayload"), c.P.Named("", "Metadata"), c.P.Named("", "TrustResolver")
	anchorT := c.P.Named("", "TrustAnchor")
	if !c.Anchor("resolver types", stmt != nil && req != nil && payload != nil && md != nil && tr != nil && anchorT != nil) {
		return
	}
	errT := types.Universe.Lookup("error").Type()
	jwtF := ""
	s := stmt.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if strings.HasSuffix(deref(s.Field(i).Type()).String(), "jwx.ParsedJWT") {
			jwtF = s.Field(i).Name()
		}
	}
	if !c.Anchor("message of a statement", jwtF != "") {
		return
	}
	sizes := [][]int{{}, {3}, {1}, {3, 4}, {4, 3}, {3, 3}, {5, 3, 4}, {3, 5, 3}}
	for _, method := range []string{"Resolve", "ResolveResponsePayload", "ResolvePossible"} {
		fn := c.Fn("", "LocalMetadataResolver."+method)
		if fn == nil {
			continue
		}
		for _, size := range sizes {
			if method == "ResolveResponsePayload" && len(size) == 1 && size[0] == 1 {
				continue
			}
			h := &Hooks{Forward: true, Pin: func(g *Term) bool { return g.op == OpCall }}
			var all, anchors []*Term
			var p0 *Term
			h.Opaque = func(f *ssa.Function, n string) bool {
				return strings.Contains(n, "TrustMarkInfo") || n == "oidfed.TrustChain.Metadata"
			}
			h.Pure = func(n string) bool { return strings.Contains(n, "TrustMarkInfo") }
			h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
				if outs, ok := c.sortModel(x, st, ev); ok {
					return outs, true
				}
				switch ev.Name {
				case "oidfed.TrustResolver.ResolveToValidChains", "oidfed.TrustResolver.ResolveToValidChainsWithoutVerifyingMetadata":
					// what is resolved
					self := x.content(st, ev.Addrs[0])
					if method == "ResolvePossible" {
						c.Ob("local:metadata:"+method, ev.Instr.Pos(), strings.HasSuffix(ev.Name, ".ResolveToValidChains"), "chains whose metadata is not valid count")
					}
					want := func(f string) *Term { return c.Sel(p0, req, f) }
					got := func(f string) *Term { return x.content(st, c.Sel(self, tr, f)) }
					c.Ob("local:subject:"+method, ev.Instr.Pos(), x.Same(st, got("StartingEntity"), want("Subject")), "chains of %v are resolved", got("StartingEntity"))
					c.Ob("local:types:"+method, ev.Instr.Pos(), x.Same(st, got("Types"), want("EntityTypes")), "chains are resolved for the entity types %v", got("Types"))
					as, ok := x.listOf(st, got("TrustAnchors"))
					ok = ok && len(as) == len(anchors)
					for i := range as {
						if ok {
							id := x.content(st, c.Sel(as[i], anchorT, "EntityID"))
							ok = id == anchors[i]
						}
					}
					c.Ob("local:anchors:"+method, ev.Instr.Pos(), ok, "chains are resolved to the anchors %v", got("TrustAnchors"))
					s := st.clone()
					s.aux["#resolved"] += "+"
					res := c.listIn(s, "chains", all)
					if len(all) == 0 {
						res = T.Nil()
					}
					return []Outcome{{st: s, res: res}}, true
				case "oidfed.TrustChain.Metadata":
					idx := -1
					for i, a := range all {
						if x.content(st, ev.Args[0]) == a || ev.Args[0] == a || ev.Addrs[0] == a {
							idx = i
						}
					}
					if idx < 0 {
						return nil, false
					}
					var outs []Outcome
					k := fmt.Sprintf("#md%d", idx)
					for _, v := range []string{"ok", "bad"} {
						if w := st.aux[k]; w != "" && w != v {
							continue
						}
						s := st.clone()
						s.aux[k] = v
						m := T.mk(OpCall, k, 0, nil, types.NewPointer(md))
						e := T.mk(OpCall, k+"err", 0, nil, errT)
						if v == "ok" {
							outs = append(outs, Outcome{st: s, res: T.mk(OpTuple, "", 0, nil, nil, m, T.Nil())})
						} else {
							s.facts[T.IsNil(e)] = false
							outs = append(outs, Outcome{st: s, res: T.mk(OpTuple, "", 0, nil, nil, T.Nil(), e)})
						}
					}
					return outs, true
				}
				return nil, false
			}
			x := NewExec(c.P, T, h)
			st := NewState()
			for i, k := range size {
				all = append(all, c.arr(fmt.Sprintf("chain%d", i), k))
			}
			for i := 0; i < 2; i++ {
				anchors = append(anchors, T.mk(OpCall, fmt.Sprintf("#anchor%d", i), 0, nil, types.Typ[types.String]))
			}
			self := x.Param("0:r", fn.Params[0].Type())
			tf := c.Field(req, "TrustAnchor")
			p0 = T.Snap(x.Param("1:req", fn.Params[1].Type()), []*Term{T.mk(OpSel, "", 0, tf, tf.Type(), T.snapBase(nil)), c.listIn(st, "anchors", anchors)})
			outs := x.Run(fn, []*Term{self, p0}, st)
			c.Done(x, fmt.Sprintf("LocalMetadataResolver.%s%v", method, size))
			chosen := map[int]bool{}
			failed := false
			for _, o := range outs {
				if o.panic {
					continue
				}
				c.Paths++
				st := o.st
				p := c.Path(st)
				c.Ob("local:resolved:"+method, fn.Pos(), st.aux["#resolved"] == "+", "chains are resolved %d times%s", len(st.aux["#resolved"]), p)
				if method == "ResolvePossible" {
					is := func(t *Term, w bool) bool { return t == T.Bool(w) || x.Proves(st, t, w) }
					c.Ob("local:possible", fn.Pos(), is(c.resOf(o, 0), len(all) > 0) && is(c.resOf(o, 1), len(all) == 0), "with %d chains the result is %v, %v%s", len(all), c.resOf(o, 0), c.resOf(o, 1), p)
					continue
				}
				res, err := c.resOf(o, 0), c.resOf(o, 1)
				// the chains that may be chosen: those with valid metadata of the least length
				least, open := -1, false
				for i := range all {
					switch st.aux[fmt.Sprintf("#md%d", i)] {
					case "ok":
						if least < 0 || size[i] < least {
							least = size[i]
						}
					}
				}
				for i := range all {
					if st.aux[fmt.Sprintf("#md%d", i)] == "" && (least < 0 || max(3, size[i]) < max(3, least)) {
						open = true // a shorter one was not looked at
					}
				}
				if !c.Ob("local:asked:"+method, fn.Pos(), !open, "with chains of length %v a shorter chain or the only one is not considered%s", size, p) {
					continue
				}
				if least < 0 {
					failed = true
					empty := res.isNilConst() || method != "Resolve"
					c.Ob("local:none:"+method, fn.Pos(), isErr(x, st, err) && empty, "without a chain with valid metadata the result is %v, %v%s", res, err, p)
					continue
				}
				noErr := err.isNilConst() || x.Proves(st, T.IsNil(err), true)
				m := res
				if method == "ResolveResponsePayload" {
					m = x.content(st, c.Sel(res, payload, "Metadata"))
				}
				idx := -1
				for i := range all {
					if m.op == OpCall && m.str == fmt.Sprintf("#md%d", i) && st.aux[m.str] == "ok" && size[i] == least {
						idx = i
					}
				}
				if !c.Ob("local:chosen:"+method, fn.Pos(), noErr && idx >= 0, "with chains of length %v the metadata is %v, the error %v%s", size, m, err, p) {
					continue
				}
				chosen[idx] = true
				if method != "ResolveResponsePayload" {
					continue
				}
				msgs, ok := x.listOf(st, x.content(st, c.Sel(res, payload, "TrustChain")))
				ok = ok && len(msgs) == size[idx]
				for i := range msgs {
					if ok {
						w := c.Sel(T.Elem(all[idx], T.Int(i)), stmt, jwtF)
						ok = msgs[i] == w || x.Same(st, msgs[i], w)
					}
				}
				c.Ob("local:messages", fn.Pos(), ok, "the trust chain of the response is %v%s", c.Sel(res, payload, "TrustChain"), p)
				ex := c.Sel(res, payload, "Extra")
				c.Ob("local:extra", fn.Pos(), ex.op == OpZero || ex.isNilConst(), "the response has further claims %v%s", ex, p)
			}
			if method == "ResolvePossible" {
				c.Ob("local:possible", fn.Pos(), len(outs) > 0, "no outcome")
				continue
			}
			c.Ob("local:reached:"+method, fn.Pos(), failed, "resolving cannot fail with chains %v", size)
			for i := range all {
				c.Ob("local:reached:"+method, fn.Pos(), chosen[i], "chain %d of %v is never chosen", i, size)
			}
		}
	}
}

func init() {
	register(&Check{
		ID: "C25", Title: "Local resolution uses the shortest chain with valid metadata", Min: 20,
		Technique: "symbolic evaluation for all orders of expirations, lengths of chains and outcomes of their metadata; sorting modelled by its contract",
		Rule:      "ExpiresAt yields the least expiration for every order of those of up to four statements; the local resolver resolves the chains of the request's subject, anchors and types once, the metadata it returns is that of a chain of least length among those whose metadata is valid, the messages are those of its statements in order, without one it fails, and ResolvePossible tells whether there is a valid chain",
		Run:       runLocal,
	})
}
