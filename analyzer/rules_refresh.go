package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// refreshFields are the fields of the configuration of a trust mark by role.
type refreshFields struct {
	recvT                               *types.Named
	exp, tried, sub, ownEndpoint, ownIs *types.Var
}

func (c *C) refreshFields(verify, jwt *ssa.Function) *refreshFields {
	T := c.T
	f := &refreshFields{recvT: c.P.Named("", "EntityConfigurationTrustMarkConfig")}
	if f.recvT == nil {
		return nil
	}
	x := NewExec(c.P, T, &Hooks{Forward: true, Opaque: c.refreshOpaque})
	var args []*Term
	own := c.P.Named("", "TrustMarkIssuer")
	x.H.OnStore = func(x *Exec, st *State, in ssa.Instruction, a, v *Term) {
		if a.op != OpSel || len(a.args) == 0 || a.args[0].op != OpParam || a.args[0].str != "recv" {
			return
		}
		fld := a.obj.(*types.Var)
		switch {
		case v.op == OpParam && strings.HasPrefix(v.str, "1:"):
			f.sub = fld
		case v.op == OpParam && strings.HasPrefix(v.str, "2:"):
			f.ownEndpoint = fld
		case nowTerm(v) != nil:
			f.tried = fld
		case own != nil && types.Identical(deref(fld.Type()), own):
			f.ownIs = fld
		}
	}
	args, _ = x.RunEntry(verify)
	_ = args
	c.Done(x, "fields set by Verify")
	x.RunEntry(jwt)
	c.Done(x, "fields set by TrustMarkJWT")
	s := f.recvT.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if v := s.Field(i); f.tried != nil && v != f.tried && types.Identical(v.Type(), f.tried.Type()) {
			f.exp = v
		}
	}
	if f.exp == nil || f.tried == nil || f.sub == nil || f.ownEndpoint == nil || f.ownIs == nil {
		return nil
	}
	return f
}

func (c *C) refreshOpaque(fn *ssa.Function, name string) bool {
	switch name {
	case "oidfed.GetEntityConfiguration", "oidfed.ParseTrustMark", "internal/http.Get", "internal/http.Post", "oidfed.TrustMarkIssuer.IssueTrustMark":
		return true
	}
	return false
}

func runRefresh(c *C) {
	T := c.T
	verify, fn := c.Fn("", "EntityConfigurationTrustMarkConfig.Verify"), c.Fn("", "EntityConfigurationTrustMarkConfig.TrustMarkJWT")
	if verify == nil || fn == nil {
		return
	}
	F := c.refreshFields(verify, fn)
	if !c.Anchor("fields of the trust mark configuration (subject, own endpoint, own issuer, expiration, last attempt)", F != nil) {
		return
	}
	recvOf := func(x *Exec) *Term { return x.Param("recv", fn.Params[0].Type()) }
	val := func(recv *Term, v *types.Var) *Term { return T.mk(OpSel, "", 0, v, v.Type(), recv) }
	fld := func(recv *Term, name string) *Term { return c.Sel(recv, F.recvT, name) }
	counts := map[string]int{}

	// conditions to obtain a trust mark
	notTried := func(st *State, x *Exec, recv *Term) bool {
		for a, v := range st.facts {
			// a minute or more since the last attempt
			if a.op == OpLt && !v && a.args[0].op == OpCall && a.args[0].str == "time.Since" && a.args[0].args[0] == val(recv, F.tried) {
				if n, ok := constInt(a.args[1]); ok && n >= 60_000_000_000 {
					return true
				}
			}
			if a.op == OpLt && v && a.args[1].op == OpCall && a.args[1].str == "time.Since" && a.args[1].args[0] == val(recv, F.tried) {
				if n, ok := constInt(a.args[0]); ok && n >= 60_000_000_000-1 {
					return true
				}
			}
		}
		return false
	}
	untilCmp := func(x *Exec, st *State, recv *Term, bound string, soon bool) bool {
		// soon: Until(exp) <= bound is known; else Until(exp) > bound is known
		for _, name := range []string{"time.Until"} {
			u := T.mk(OpCall, name, 0, nil, types.Typ[types.Int64], val(recv, F.exp))
			for a, v := range st.facts {
				if a.op != OpLt {
					continue
				}
				is := func(t *Term) bool {
					return t.op == OpCall && t.str == u.str && len(t.args) == 1 && t.args[0] == u.args[0]
				}
				b := fld(recv, bound)
				if a.args[0] == b && is(a.args[1]) && v != soon {
					return true
				}
				if is(a.args[0]) && a.args[1] == b && v == soon {
					return true
				}
			}
		}
		return false
	}
	unlimited := func(st *State, x *Exec, recv *Term) (bool, bool) {
		for a, v := range st.facts {
			if a.op == OpCall && a.str == "#iszerotime" && a.args[0] == val(recv, F.exp) {
				return v, true
			}
		}
		return false, false
	}
	due := func(x *Exec, st *State, recv *Term, background bool) string {
		if !x.Proves(st, fld(recv, "Refresh"), true) {
			return "although it is not meant to be refreshed"
		}
		if x.Proves(st, T.Empty(fld(recv, "JWT")), true) {
			return ""
		}
		if u, known := unlimited(st, x, recv); u || !known {
			return "although the present one does not expire"
		}
		if background {
			if !untilCmp(x, st, recv, "RefreshGracePeriod", true) {
				return "before the grace period"
			}
		} else if !untilCmp(x, st, recv, "MinLifetime", true) {
			return "although the present one is valid long enough"
		}
		return ""
	}
	h := &Hooks{Opaque: c.refreshOpaque, Pin: func(g *Term) bool { return g.op == OpCall }}
	h.OnCall = func(x *Exec, st *State, ev *CallEvent) {
		recv := recvOf(x)
		bg := st.aux["go"] != ""
		switch ev.Name {
		case "oidfed.GetEntityConfiguration", "internal/http.Get", "internal/http.Post", "oidfed.TrustMarkIssuer.IssueTrustMark":
		default:
			return
		}
		pos := ev.Instr.Pos()
		why := due(x, st, recv, bg)
		c.Ob("refresh:due", pos, why == "", "a trust mark is obtained %s%s", why, c.Path(st))
		tried := x.load(st, val(recv, F.tried))
		c.Ob("refresh:rate", pos, notTried(st, x, recv) && nowTerm(tried) != nil, "a trust mark is obtained without a minute since the last attempt, or the attempt (%v) is not recorded%s", tried, c.Path(st))
		self := fld(recv, "SelfIssued")
		issuer := fld(recv, "TrustMarkIssuer")
		sub := val(recv, F.sub)
		switch ev.Name {
		case "oidfed.TrustMarkIssuer.IssueTrustMark":
			c.Ob("refresh:self", pos, x.Proves(st, self, true), "self-issued although not configured")
			own := x.content(st, val(recv, F.ownIs))
			ok := len(ev.Args) >= 3 && (x.content(st, ev.Args[0]) == own || x.Same(st, ev.Args[0], val(recv, F.ownIs))) && x.Same(st, ev.Args[1], fld(recv, "TrustMarkType")) && x.Same(st, ev.Args[2], sub) && (len(ev.Args) < 4 || x.Proves(st, T.Empty(ev.Args[3]), true))
			c.Ob("refresh:self:args", pos, ok, "issued by %v", ev.Args)
		case "internal/http.Post":
			c.Ob("refresh:get", pos, false, "trust marks are requested with POST")
		case "internal/http.Get":
			ep := ev.Args[0]
			cfg := findCall(ep, "oidfed.GetEntityConfiguration")
			switch {
			case x.Proves(st, T.Eq(issuer, sub), true):
				c.Ob("refresh:endpoint", pos, x.Same(st, ep, val(recv, F.ownEndpoint)), "own trust marks are requested at %v", ep)
				counts["own endpoint"]++
			case cfg != nil:
				ok := x.Same(st, cfg.args[0], issuer) && c.errKnownNil(x, st, cfg) && x.Proves(st, T.Empty(ep), false)
				ok = ok && ep.op == OpSel && strings.HasSuffix(ep.String(), "Metadata.FederationEntity.FederationTrustMarkEndpoint")
				c.Ob("refresh:endpoint", pos, ok && x.Proves(st, T.Eq(issuer, sub), false), "trust marks are requested at %v%s", ep, c.Path(st))
				counts["issuer's endpoint"]++
			default:
				c.Ob("refresh:endpoint", pos, false, "trust marks are requested at %v%s", ep, c.Path(st))
			}
			c.Ob("refresh:notself", pos, x.Proves(st, self, false), "requested although self-issued")
			why := c.params(x, st, ev.Addrs[1], map[string]*Term{"trust_mark_type": fld(recv, "TrustMarkType"), "sub": sub})
			c.Ob("refresh:params", pos, why == "", "%s%s", why, c.Path(st))
		}
	}
	isExp := func(x *Exec, st *State, e, src *Term) string {
		// e is the expiration claim src (a pointer): its value, or zero without
		nilp := T.IsNil(src)
		if x.Proves(st, nilp, true) {
			if e != T.Zero(F.exp.Type()) && !(e.op == OpConst && e.str == "zero") {
				return fmt.Sprintf("expiration %v is kept for a trust mark without", e)
			}
			return ""
		}
		if !x.Proves(st, nilp, false) {
			return fmt.Sprintf("expiration is %v without regard to whether the trust mark has one", e)
		}
		if !x.Same(st, e, src) && !x.Same(st, e, x.content(st, src)) && e != T.Elem(src, T.Int(0)) {
			return fmt.Sprintf("expiration is %v instead of %v", e, src)
		}
		return ""
	}
	markT, infoT := c.P.Named("", "TrustMark"), c.P.Named("", "TrustMarkInfo")
	outcome := func(x *Exec, st *State, errNil bool, res *Term) {
		recv := recvOf(x)
		aj, ae := fld(recv, "JWT"), val(recv, F.exp)
		j, e := st.mem[aj], st.mem[ae]
		if j == aj {
			j = nil
		}
		p := c.Path(st)
		c.Paths++
		if j == nil && e == nil {
			if res == nil || !errNil {
				return
			}
			c.Ob("refresh:returned", fn.Pos(), x.Same(st, res, aj), "%v is returned instead of the trust mark%s", res, p)
			if x.Proves(st, fld(recv, "Refresh"), false) {
				counts["fixed"]++
				return
			}
			ok := x.Proves(st, T.Empty(aj), false)
			u, known := unlimited(st, x, recv)
			kept := ok && (known && u || untilCmp(x, st, recv, "MinLifetime", false))
			c.Ob("refresh:kept", fn.Pos(), kept, "a trust mark is returned that may be absent or about to expire%s", p)
			counts["kept"]++
			soon := untilCmp(x, st, recv, "RefreshGracePeriod", true)
			if u {
				soon = false
			}
			c.Ob("refresh:grace", fn.Pos(), (st.aux["#go"] != "") == soon, "background refresh %v, expiring within the grace period known: %v%s", st.aux["#go"] != "", soon, p)
			if soon {
				counts["background"]++
			}
			return
		}
		if !c.Ob("refresh:both", fn.Pos(), j != nil && e != nil, "only one of trust mark and expiration is replaced (%v, %v)%s", j, e, p) {
			return
		}
		if res != nil && errNil {
			c.Ob("refresh:returned", fn.Pos(), x.Same(st, res, j), "%v is returned instead of the new trust mark%s", res, p)
		}
		for j.op == OpConv {
			j = j.args[0]
		}
		if iss := findCall(j, "oidfed.TrustMarkIssuer.IssueTrustMark"); iss != nil {
			ri := T.mk(OpRes, "", 0, nil, types.NewPointer(infoT), iss)
			c.Ob("refresh:source", fn.Pos(), x.Same(st, j, c.Sel(ri, infoT, "TrustMarkJWT")) && c.errKnownNil(x, st, iss), "the trust mark is replaced by %v%s", j, p)
			var inner *types.Var
			s := infoT.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if types.Identical(deref(s.Field(i).Type()), markT) {
					inner = s.Field(i)
				}
			}
			src := e
			if inner != nil {
				src = c.Sel(T.mk(OpSel, "", 0, inner, inner.Type(), ri), markT, "ExpiresAt")
			}
			why := isExp(x, st, e, src)
			c.Ob("refresh:expiration", fn.Pos(), why == "", "%s%s", why, p)
			counts["self-issued"]++
			return
		}
		var parse *Term
		if pc := findCall(j, "oidfed.ParseTrustMark"); pc != nil {
			parse = pc
		} else {
			for a, v := range st.facts {
				if v && a.op == OpIsNil {
					if pc := resultOf(a.args[0], "oidfed.ParseTrustMark", 1); pc != nil && unMk(pc.args[0]) == j {
						parse = pc
					}
				}
			}
		}
		if !c.Ob("refresh:parsed", fn.Pos(), parse != nil, "the trust mark is replaced by %v%s", j, p) {
			return
		}
		tm := T.mk(OpRes, "", 0, nil, types.NewPointer(markT), parse)
		get := findCall(parse.args[0], "internal/http.Get")
		src := get != nil && parse.args[0].op == OpCall && strings.HasSuffix(parse.args[0].str, "Response.Body") && resultOf(parse.args[0].args[0], "internal/http.Get", 0) != nil
		isRaw := j == parse.args[0] || strings.HasSuffix(j.String(), ".RawJWT")
		c.Ob("refresh:source", fn.Pos(), src && isRaw && c.errKnownNil(x, st, parse), "the trust mark is replaced by %v%s", j, p)
		if get != nil {
			for i := 1; i <= 2; i++ {
				ok := false
				for a, v := range st.facts {
					if a.op == OpIsNil && v && resultOf(a.args[0], "internal/http.Get", i) == get {
						ok = true
					}
				}
				c.Ob("refresh:response", fn.Pos(), ok, "the trust mark is replaced although the request may have failed (result %d)%s", i, p)
			}
		}
		c.Ob("refresh:type", fn.Pos(), x.Proves(st, T.Eq(c.Sel(tm, markT, "TrustMarkType"), fld(recv, "TrustMarkType")), true), "the new trust mark may be of another type%s", p)
		c.Ob("refresh:subject", fn.Pos(), x.Proves(st, T.Eq(c.Sel(tm, markT, "Subject"), val(recv, F.sub)), true), "the new trust mark may be about another entity%s", p)
		why := isExp(x, st, e, c.Sel(tm, markT, "ExpiresAt"))
		c.Ob("refresh:expiration", fn.Pos(), why == "", "%s%s", why, p)
		counts["fetched"]++
	}
	h.GoDone = func(x *Exec, in *ssa.Go, outs []Outcome) {
		for _, o := range outs {
			if !o.panic {
				outcome(x, o.st, false, nil)
			}
		}
	}
	x := NewExec(c.P, T, h)
	_, outs := x.RunEntry(fn)
	c.Done(x, "TrustMarkJWT")
	for _, o := range outs {
		if o.panic {
			continue
		}
		err := c.resOf(o, 1)
		errNil := x.Proves(o.st, T.IsNil(err), true)
		isErr, dec := isErrTerm(x, o.st, err)
		if !errNil && !dec {
			c.Ob("refresh:decided", fn.Pos(), false, "unclear error %v%s", err, c.Path(o.st))
		}
		if isErr {
			why := due(x, o.st, recvOf(x), false)
			c.Ob("refresh:error", fn.Pos(), why == "", "fails %s%s", why, c.Path(o.st))
		}
		outcome(x, o.st, errNil, c.resOf(o, 0))
	}
	for _, k := range []string{"fixed", "kept", "background", "self-issued", "fetched", "own endpoint", "issuer's endpoint"} {
		c.Ob("refresh:possible:"+k, fn.Pos(), counts[k] > 0, "no path for %s", k)
	}
	c.refreshVerify(F, verify)
}

// params decides that m holds exactly the given request parameters, one value each.
func (c *C) params(x *Exec, st *State, m *Term, want map[string]*Term) string {
	keys, ok := x.mapKeys(st, m)
	if !ok {
		return fmt.Sprintf("the parameters of the request are not known (%v)", m)
	}
	if len(keys) != len(want) {
		return fmt.Sprintf("the request has the parameters %v", keys)
	}
	for k, v := range want {
		kt := strConst(c, k)
		if has, _ := x.hasKey(st, keys, kt); !has {
			return fmt.Sprintf("the request has the parameters %v instead of %s", keys, k)
		}
		got := x.valueAt(st, m, kt)
		if got.op == OpList && len(got.args) == 1 {
			got = got.args[0]
		} else {
			return fmt.Sprintf("parameter %s is %v", k, got)
		}
		if v != nil && !x.Same(st, got, v) {
			return fmt.Sprintf("parameter %s is %v", k, got)
		}
	}
	return ""
}

func (c *C) refreshVerify(F *refreshFields, fn *ssa.Function) {
	T := c.T
	x := NewExec(c.P, T, &Hooks{Pin: func(g *Term) bool { return g.op == OpCall }, Opaque: c.refreshOpaque})
	args, outs := x.RunEntry(fn)
	c.Done(x, "Verify")
	recv := args[0]
	fld := func(name string) *Term { return c.Sel(recv, F.recvT, name) }
	specT, issT := c.P.Named("", "TrustMarkSpec"), c.P.Named("", "TrustMarkIssuer")
	counts := map[string]int{}
	for _, o := range outs {
		if o.panic {
			continue
		}
		c.Paths++
		st := o.st
		p := c.Path(st)
		err := c.resOf(o, 0)
		isErr, dec := isErrTerm(x, st, err)
		if !c.Ob("config:decided", fn.Pos(), dec, "unclear error %v%s", err, p) {
			continue
		}
		hasJWT := x.Proves(st, T.Empty(fld("JWT")), false)
		noJWT := x.Proves(st, T.Empty(fld("JWT")), true)
		typ, iss, self := fld("TrustMarkType"), fld("TrustMarkIssuer"), fld("SelfIssued")
		fromJWT := func(t *Term) *Term { // the parsed JWT a value is taken from
			var hit *Term
			t.walk(func(u *Term) bool {
				if hit == nil && u.op == OpCall && len(u.args) > 0 && unConv(u.args[0]) == fld("JWT") && (strings.HasPrefix(u.str, jwxp) || u.str == "oidfed.ParseTrustMark") {
					hit = u
				}
				return hit == nil
			})
			return hit
		}
		if isErr {
			ok := false
			switch {
			case hasJWT:
				for a, v := range st.facts {
					if a.op == OpIsNil && !v && fromJWT(a) != nil {
						ok = true
					}
				}
				if pc := fromJWT(err); pc != nil {
					ok = true
				}
			case noJWT:
				ok = x.Proves(st, T.Empty(typ), true) || x.Proves(st, self, false) && x.Proves(st, T.Empty(iss), true)
			}
			c.Ob("config:refused", fn.Pos(), ok, "a usable configuration is refused with %v%s", err, p)
			continue
		}
		c.Ob("config:sub", fn.Pos(), x.Same(st, x.load(st, T.mk(OpSel, "", 0, F.sub, F.sub.Type(), recv)), args[1]), "subject is not recorded%s", p)
		c.Ob("config:endpoint", fn.Pos(), x.Same(st, x.load(st, T.mk(OpSel, "", 0, F.ownEndpoint, F.ownEndpoint.Type(), recv)), args[2]), "own endpoint is not recorded%s", p)
		for _, f := range []string{"MinLifetime", "RefreshGracePeriod"} {
			a := fld(f)
			v := st.mem[a]
			z := T.Eq(a, T.Int(0))
			ok := false
			if x.Proves(st, z, true) {
				n, isConst := 0, false
				if v != nil {
					n, isConst = constInt(v)
				}
				ok = isConst && n > 0
			} else if x.Proves(st, z, false) {
				ok = v == nil || v == a
			}
			c.Ob("config:default:"+f, fn.Pos(), ok, "%s becomes %v%s", f, v, p)
		}
		switch {
		case hasJWT:
			counts["jwt"]++
			vi, ve := st.mem[iss], st.mem[T.mk(OpSel, "", 0, F.exp, F.exp.Type(), recv)]
			claim := func(v *Term, names ...string) bool {
				if v == nil {
					return false
				}
				pc := fromJWT(v)
				if pc == nil || !c.errKnownNil(x, st, pc) {
					return false
				}
				if pc.str == jwxp+"jwt.Parse" && x.Proves(st, T.Empty(pc.args[1]), true) {
					return false // fails without keys
				}
				for _, n := range names {
					if strings.Contains(v.String(), n) {
						return true
					}
				}
				return false
			}
			c.Ob("config:jwt:issuer", fn.Pos(), claim(vi, "jwt.Token.Issuer", ".Issuer"), "the issuer is not taken from the trust mark but is %v%s", vi, p)
			noExp := false
			if ve != nil && ve.op == OpConst {
				for a, v := range st.facts {
					if a.op == OpIsNil && v && strings.Contains(a.String(), "ExpiresAt") && fromJWT(a) != nil {
						noExp = true
					}
				}
			}
			c.Ob("config:jwt:expiration", fn.Pos(), noExp || claim(ve, "jwt.Token.Expiration", ".ExpiresAt"), "the expiration is not taken from the trust mark but is %v%s", ve, p)
			ok := claim(st.mem[typ], "TrustMarkType", "trust_mark_type")
			for a, v := range st.facts {
				if a.op == OpIsNil && v && a.args[0].op == OpCall && strings.HasSuffix(a.args[0].str, "jwt.Token.Get") && len(a.args[0].args) == 3 && a.args[0].args[1] == strConst(c, "trust_mark_type") && unMk(a.args[0].args[2]) == typ && fromJWT(a) != nil {
					ok = true
				}
			}
			c.Ob("config:jwt:type", fn.Pos(), ok, "the type is not taken from the trust mark%s", p)
		case noJWT:
			c.Ob("config:refresh", fn.Pos(), st.mem[fld("Refresh")] == T.Bool(true), "a trust mark that has to be obtained is not set up for refresh%s", p)
			c.Ob("config:type", fn.Pos(), x.Proves(st, T.Empty(typ), false), "there may be no type%s", p)
			if x.Proves(st, self, true) {
				counts["self"]++
				is := x.content(st, x.load(st, T.mk(OpSel, "", 0, F.ownIs, F.ownIs.Type(), recv)))
				c.Ob("config:self:id", fn.Pos(), x.Same(st, c.Sel(is, issT, "EntityID"), args[1]), "own issuer is %v%s", is, p)
				c.Ob("config:self:signer", fn.Pos(), x.Same(st, c.Sel(is, issT, "TrustMarkSigner"), args[3]), "own issuer is %v%s", is, p)
				cat := c.catalogField(issT, specT)
				ok := false
				if cat != nil {
					m := T.mk(OpSel, "", 0, cat, cat.Type(), is)
					m = c.Sel(is, issT, cat.Name())
					keys, known := x.mapKeys(st, m)
					if known && len(keys) == 1 && x.Same(st, keys[0], typ) {
						sp := x.content(st, x.valueAt(st, m, keys[0]))
						ok = true
						s := specT.Underlying().(*types.Struct)
						for i := 0; i < s.NumFields(); i++ {
							n := s.Field(i).Name()
							got, want := c.Sel(sp, specT, n), c.Sel(fld("SelfIssuanceSpec"), specT, n)
							if n == "TrustMarkType" {
								want = typ
							}
							if !x.Same(st, got, want) {
								ok = false
							}
						}
					}
				}
				c.Ob("config:self:spec", fn.Pos(), ok, "own issuer does not have exactly the configured specification under the type%s", p)
			} else {
				counts["fetch"]++
				c.Ob("config:issuer", fn.Pos(), x.Proves(st, self, false) && x.Proves(st, T.Empty(iss), false), "there may be no issuer%s", p)
			}
		default:
			c.Ob("config:kind", fn.Pos(), false, "accepted without looking for a trust mark%s", p)
		}
	}
	for _, k := range []string{"jwt", "self", "fetch"} {
		c.Ob("config:possible:"+k, fn.Pos(), counts[k] > 0, "never accepted: %s", k)
	}
}

func unConv(t *Term) *Term {
	for t.op == OpConv || t.op == OpMk {
		t = t.args[0]
	}
	return t
}

func init() {
	register(&Check{
		ID: "C23", Title: "Trust marks of the entity configuration are kept, renewed and replaced consistently", Min: 40,
		Technique: "path-sensitive abstract interpretation including goroutine bodies; fact rules on kept and replaced state",
		Rule:      "trust marks are obtained only when due, at most once a minute, from the right endpoint with the right parameters; trust mark and expiration are replaced together, by an issued or a parsed one of the configured type and subject; otherwise the present one is returned, only if it does not expire too soon; background refresh exactly in the grace period; Verify records what these rules need",
		Run:       runRefresh,
	})
}
