package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unIface strips interface and conversion wrappers.
func unIface(t *Term) *Term {
	for t != nil && (t.op == OpMk || t.op == OpConv) {
		t = t.args[0]
	}
	return t
}

// exactMap decides that m holds exactly the wanted keys; a wanted value of nil is not compared.
func (c *C) exactMap(x *Exec, st *State, m *Term, want map[string]*Term) string {
	keys, ok := x.mapKeys(st, m)
	if !ok {
		return fmt.Sprintf("the members of %v are not known", m)
	}
	var names []string
	for k := range want {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		kt := strConst(c, k)
		if has, _ := x.hasKey(st, keys, kt); !has {
			return fmt.Sprintf("%s is missing", k)
		}
		if v := want[k]; v != nil {
			got := unIface(x.valueAt(st, m, kt))
			if !x.Same(st, got, v) && !c.sameList(x, st, got, v) {
				return fmt.Sprintf("%s is %v instead of %v", k, got, v)
			}
		}
	}
	if len(keys) != len(want) {
		return fmt.Sprintf("there are the members %v", keys)
	}
	return ""
}

func (c *C) sameList(x *Exec, st *State, a, b *Term) bool {
	l, ok := x.listOf(st, a)
	l2, ok2 := x.listOf(st, b)
	if !ok || !ok2 || len(l) != len(l2) {
		return false
	}
	for i := range l {
		if !x.Same(st, unIface(l[i]), unIface(l2[i])) {
			return false
		}
	}
	return true
}

// mapIn is a map with the given members.
func (c *C) mapIn(x *Exec, st *State, name string, typ types.Type, members map[string]*Term) *Term {
	T := c.T
	m := T.mk(OpCall, "#makemap", 0, nil, typ, T.Const(name, types.Typ[types.UntypedString]))
	var names []string
	for k := range members {
		names = append(names, k)
	}
	sort.Strings(names)
	var keys []*Term
	for _, k := range names {
		kt := strConst(c, k)
		keys = append(keys, kt)
		st.mem[T.Elem(m, kt)] = members[k]
	}
	x.SetKeys(st, m, keys...)
	return m
}

// untouched decides that the map still has exactly the given members.
func (c *C) untouched(x *Exec, st *State, m *Term, members map[string]*Term) string {
	keys, ok := x.mapKeys(st, m)
	if !ok || len(keys) != len(members) {
		return fmt.Sprintf("the given values then are %v", keys)
	}
	for k, v := range members {
		if got := x.valueAt(st, m, strConst(c, k)); got != v {
			return fmt.Sprintf("the given value %s then is %v", k, got)
		}
	}
	return ""
}

type oidcModel struct {
	c         *C
	rop, leaf *types.Named
	key, alg  *types.Var
	life      *types.Var
	id        *types.Var
	producer  *types.Var
	op        *types.Named
}

func newOIDC(c *C) *oidcModel {
	m := &oidcModel{c: c, rop: c.P.Named("", "RequestObjectProducer"), leaf: c.P.Named("", "FederationLeaf"), op: c.P.Named("", "OpenIDProviderMetadata")}
	if !c.Anchor("request types", m.rop != nil && m.leaf != nil && m.op != nil) {
		return nil
	}
	s := m.rop.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch {
		case f.Type().String() == "crypto.Signer":
			m.key = f
		case f.Type().String() == jwxp+"jwa.SignatureAlgorithm":
			m.alg = f
		case f.Type() == types.Typ[types.String]:
			m.id = f
		case f.Type() == types.Typ[types.Int64]:
			m.life = f
		}
	}
	s = m.leaf.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(deref(s.Field(i).Type()), m.rop) {
			m.producer = s.Field(i)
		}
	}
	if !c.Anchor("fields of the request object producer", m.key != nil && m.alg != nil && m.id != nil && m.life != nil && m.producer != nil) {
		return nil
	}
	return m
}

// signedMap decides the claims signed on a path of producer rop; given are the claims that have
// to be there besides iss, iat, exp and jti.
func (m *oidcModel) signedMap(x *Exec, st *State, jwt, rop *Term, want map[string]*Term, ownJTI bool) string {
	c, T := m.c, m.c.T
	claims, s, why := c.claimsOf(x, st, jwt)
	if why != "" {
		return why
	}
	fld := func(f *types.Var) *Term { return T.mk(OpSel, "", 0, f, f.Type(), rop) }
	if !x.Same(st, s.key, fld(m.key)) {
		return fmt.Sprintf("signed with %v", s.key)
	}
	if !x.Same(st, s.alg, fld(m.alg)) {
		return fmt.Sprintf("signed with algorithm %v", s.alg)
	}
	w := map[string]*Term{"iss": fld(m.id), "iat": nil, "exp": nil}
	for k, v := range want {
		w[k] = v
	}
	if ownJTI {
		w["jti"] = nil
	}
	if why := c.exactMap(x, st, claims, w); why != "" {
		return why
	}
	iat, exp := unIface(x.valueAt(st, claims, strConst(c, "iat"))), unIface(x.valueAt(st, claims, strConst(c, "exp")))
	if !(iat.op == OpCall && iat.str == "time.Time.Unix" && nowTerm(c.instant(iat.args[0])) != nil) {
		return fmt.Sprintf("iat is %v", iat)
	}
	okExp := x.Same(st, exp, x.add(iat, fld(m.life)))
	if exp.op == OpCall && exp.str == "time.Time.Unix" {
		e := c.instant(exp.args[0])
		okExp = e.op == OpCall && e.str == "time.Time.Add" && nowTerm(c.instant(e.args[0])) == nowTerm(c.instant(iat.args[0])) && c.seconds(e.args[1], fld(m.life))
	}
	if !okExp {
		return fmt.Sprintf("exp is %v", exp)
	}
	if ownJTI {
		j := unIface(x.valueAt(st, claims, strConst(c, "jti")))
		u := findCall(j, "github.com/google/uuid.NewRandom")
		if u == nil {
			u = findCall(j, "github.com/google/uuid.NewString")
		}
		if u == nil || !(j.op == OpCall && strings.HasPrefix(j.str, "github.com/google/uuid.")) {
			return fmt.Sprintf("jti is %v instead of a new random identifier", j)
		}
		if u.str == "github.com/google/uuid.NewRandom" && !c.errKnownNil(x, st, u) {
			return "an error of generating jti is ignored"
		}
	}
	return ""
}

// uuidFailed reports whether a path failed to generate an identifier.
func (c *C) uuidFailed(st *State, err *Term) bool {
	is := func(t *Term) bool { return t.op == OpCall && strings.HasPrefix(t.str, "github.com/google/uuid.") }
	if err.contains1(is) {
		return true
	}
	for f, v := range st.facts {
		if !v && f.op == OpIsNil && f.contains1(is) {
			return true
		}
	}
	return false
}

func (m *oidcModel) hooks() *Hooks {
	h := m.c.issueHooks()
	h.Exact = true
	h.Opaque = func(f *ssa.Function, name string) bool {
		return strings.HasSuffix(name, "FederationLeaf.ResolveOPMetadata")
	}
	return h
}

func runOIDC(c *C) {
	m := newOIDC(c)
	if m == nil {
		return
	}
	m.requestObject()
	m.assertion()
	m.authURL()
	m.codeExchange()
}

func (m *oidcModel) requestObject() {
	c, T := m.c, m.c.T
	fn := c.Fn("", "RequestObjectProducer.RequestObject")
	if fn == nil {
		return
	}
	id := func(recv *Term) *Term { return T.mk(OpSel, "", 0, m.id, m.id.Type(), recv) }
	forbidden := []string{"sub", "client_secret"}
	forced := []string{"iss", "client_id", "iat", "exp"}
	var combos [][]string
	for bits := 0; bits < 32; bits++ {
		var l []string
		if bits&1 != 0 {
			l = append(l, "aud")
		}
		if bits&2 != 0 {
			l = append(l, "jti")
		}
		if bits&4 != 0 {
			l = append(l, forbidden...)
		}
		if bits&8 != 0 {
			l = append(l, forced...)
		}
		if bits&16 != 0 {
			l = append(l, "nonce", "state")
		}
		combos = append(combos, l)
	}
	for _, k := range append(append([]string(nil), forbidden...), forced...) {
		combos = append(combos, []string{"aud", k})
	}
	combos = append(combos, nil)
	for ci, keys := range combos {
		isNil := ci == len(combos)-1
		x := NewExec(c.P, T, m.hooks())
		recv := x.Param("recv", fn.Params[0].Type())
		st := NewState()
		given := map[string]*Term{}
		for _, k := range keys {
			given[k] = x.Param("given_"+k, types.Universe.Lookup("any").Type())
		}
		vals := T.Nil()
		if !isNil {
			vals = c.mapIn(x, st, "values", fn.Params[1].Type(), given)
		}
		outs := x.Run(fn, []*Term{recv, vals}, st)
		c.Done(x, fmt.Sprintf("RequestObject%v", keys))
		good := 0
		for _, o := range outs {
			if o.panic {
				c.Ob("request:panic", fn.Pos(), false, "panics with %v%s", keys, c.Path(o.st))
				continue
			}
			c.Paths++
			st := o.st
			if !isNil {
				why := c.untouched(x, st, vals, given)
				c.Ob("request:given", fn.Pos(), why == "", "%s%s", why, c.Path(st))
			}
			res, err := c.resOf(o, 0), c.resOf(o, 1)
			k := c.signedOutcome(x, &st, res, err)
			if k == 0 {
				if given["aud"] != nil {
					c.Ob("request:refused", fn.Pos(), c.signingFailed(x, st, err) || c.uuidFailed(st, err), "values %v are refused%s", keys, c.Path(st))
				}
				continue
			}
			if !c.Ob("request:decided", fn.Pos(), k > 0, "unclear result %v%s", err, c.Path(st)) {
				continue
			}
			if !c.Ob("request:aud", fn.Pos(), given["aud"] != nil, "a request object without aud is made from %v%s", keys, c.Path(st)) {
				continue
			}
			good++
			want := map[string]*Term{"client_id": id(recv)}
			for k, v := range given {
				if k != "sub" && k != "client_secret" && k != "iss" && k != "client_id" && k != "iat" && k != "exp" {
					want[k] = v
				}
			}
			why := m.signedMap(x, st, res, recv, want, given["jti"] == nil)
			c.Ob("request:claims", fn.Pos(), why == "", "made from %v: %s%s", keys, why, c.Path(st))
		}
		if given["aud"] != nil {
			c.Ob("request:possible", fn.Pos(), good > 0, "no request object is made from %v", keys)
		}
	}
}

func (m *oidcModel) assertion() {
	c, T := m.c, m.c.T
	fn := c.Fn("", "RequestObjectProducer.ClientAssertion")
	if fn == nil {
		return
	}
	x := NewExec(c.P, T, m.hooks())
	args, outs := x.RunEntry(fn)
	c.Done(x, "ClientAssertion")
	good := 0
	for _, o := range outs {
		if o.panic {
			continue
		}
		c.Paths++
		st := o.st
		res, err := c.resOf(o, 0), c.resOf(o, 1)
		k := c.signedOutcome(x, &st, res, err)
		if k == 0 {
			c.Ob("assertion:refused", fn.Pos(), c.signingFailed(x, st, err) || c.uuidFailed(st, err), "refused with %v%s", err, c.Path(st))
			continue
		}
		if !c.Ob("assertion:decided", fn.Pos(), k > 0, "unclear result %v%s", err, c.Path(st)) {
			continue
		}
		good++
		id := T.mk(OpSel, "", 0, m.id, m.id.Type(), args[0])
		why := m.signedMap(x, st, res, args[0], map[string]*Term{"sub": id, "aud": args[1]}, true)
		c.Ob("assertion:claims", fn.Pos(), why == "", "%s%s", why, c.Path(st))
	}
	c.Ob("assertion:possible", fn.Pos(), good > 0, "no assertion")
}

// leafOf is a leaf entity with its request object producer and provider metadata.
func (m *oidcModel) additional(x *Exec, st *State, typ types.Type, which int) (*Term, map[string]*Term) {
	c, T := m.c, m.c.T
	given := map[string]*Term{}
	list := func(n string, k int) *Term {
		var l []*Term
		for i := 0; i < k; i++ {
			l = append(l, x.Param(fmt.Sprintf("given_%s%d", n, i), types.Typ[types.String]))
		}
		return T.mk(OpList, "", 0, nil, nil, l...)
	}
	switch which {
	case 0:
		return T.Nil(), given
	case 1:
	case 2:
		given["nonce"], given["prompt"] = list("nonce", 1), list("prompt", 2)
	case 3:
		for _, k := range []string{"state", "scope", "client_id", "redirect_uri", "response_type", "aud", "sub", "iss", "grant_type", "code", "client_assertion", "client_assertion_type"} {
			given[k] = list(k, 1)
		}
	}
	return c.mapIn(x, st, "additional", typ, given), given
}

func (m *oidcModel) authURL() {
	c, T := m.c, m.c.T
	fn := c.Fn("", "FederationLeaf.GetAuthorizationURL")
	if fn == nil {
		return
	}
	for which := 0; which <= 3; which++ {
		h := m.hooks()
		x := NewExec(c.P, T, h)
		var args []*Term
		for i, p := range fn.Params {
			args = append(args, x.Param(fmt.Sprintf("%d:%s", i, p.Name()), p.Type()))
		}
		st := NewState()
		add, given := m.additional(x, st, fn.Params[5].Type(), which)
		args[5] = add
		f := args[0]
		ent := c.Sel(f, m.leaf, "FederationEntity")
		id := c.Sel(ent, c.P.Named("", "FederationEntity"), "EntityID")
		rop := T.mk(OpSel, "", 0, m.producer, m.producer.Type(), f)
		h.OnCall = func(x *Exec, st *State, ev *CallEvent) {
			if strings.HasSuffix(ev.Name, "net/url.URL.String") {
				st.mem[T.mk(OpCall, "#raw", 0, nil, nil)] = x.content(st, c.fieldOf(unMk(ev.Addrs[0]), "RawQuery"))
				return
			}
			if ev.Name != "net/url.Values.Encode" {
				return
			}
			mp := unMk(ev.Addrs[0])
			why := ""
			for k, v := range map[string]*Term{"client_id": id, "response_type": strConst(c, "code"), "redirect_uri": args[2], "scope": args[4]} {
				got := x.valueAt(st, mp, strConst(c, k))
				if got.op != OpList || len(got.args) != 1 || !x.Same(st, got.args[0], v) {
					why = fmt.Sprintf("the parameter %s is %v", k, got)
				}
			}
			if st.aux["#encode"] != "" {
				why = "several queries are encoded"
			}
			req := x.valueAt(st, mp, strConst(c, "request"))
			if req.op != OpList || len(req.args) != 1 {
				why = fmt.Sprintf("the parameter request is %v", req)
			} else {
				st.mem[T.mk(OpCall, "#request", 0, nil, nil)] = req.args[0]
			}
			if keys, ok := x.mapKeys(st, mp); ok && len(keys) != 5 {
				why = fmt.Sprintf("the parameters are %v", keys)
			}
			st.aux["#encode"] = "ok"
			if why != "" {
				st.aux["#encode"] = why
			}
		}
		outs := x.Run(fn, args, st)
		c.Done(x, fmt.Sprintf("GetAuthorizationURL[%d]", which))
		good := 0
		for _, o := range outs {
			if o.panic {
				continue
			}
			c.Paths++
			st := o.st
			p := c.Path(st)
			why := c.untouched(x, st, add, given)
			c.Ob("url:given", fn.Pos(), which == 0 || why == "", "%s%s", why, p)
			res, err := c.resOf(o, 0), c.resOf(o, 1)
			isErr, dec := isErrTerm(x, st, err)
			if !c.Ob("url:decided", fn.Pos(), dec, "unclear error %v%s", err, p) || isErr {
				continue
			}
			good++
			// the result is the authorization endpoint with the query
			var opm *Term
			res.contains1(func(t *Term) bool {
				if t.op == OpCall && strings.HasSuffix(t.str, "ResolveOPMetadata") {
					opm = t
				}
				return false
			})
			if !c.Ob("url:endpoint", fn.Pos(), opm != nil && opm.args[0] == f && x.Same(st, opm.args[1], args[1]) && c.errKnownNil(x, st, opm), "the URL %v does not come from the resolved metadata of the given issuer%s", res, p) {
				continue
			}
			md := T.mk(OpRes, "", 0, nil, nil, opm)
			ep := c.Sel(md, m.op, "AuthorizationEndpoint")
			parse := findCall(res, "net/url.Parse")
			c.Ob("url:parsed", fn.Pos(), res.op == OpCall && strings.HasSuffix(res.str, "net/url.URL.String") && parse != nil && x.Same(st, parse.args[0], ep) && c.errKnownNil(x, st, parse), "the URL is %v%s", res, p)
			c.Ob("url:query", fn.Pos(), st.aux["#encode"] == "ok", "%s%s", st.aux["#encode"], p)
			// the query of the endpoint is kept
			raw := st.mem[T.mk(OpCall, "#raw", 0, nil, nil)]
			kept := false
			if raw != nil && parse != nil {
				u := T.mk(OpRes, "", 0, nil, nil, parse)
				kept = findCall(raw, "net/url.Values.Encode") != nil && raw.contains1(func(t *Term) bool {
					return t.op == OpCall && strings.HasSuffix(t.str, "net/url.URL.Query") && sameRes(t.args[0], u) || t.op == OpSel && t.obj.(*types.Var).Name() == "RawQuery" && sameRes(t.args[0], u)
				})
			}
			c.Ob("url:kept", fn.Pos(), kept, "the query of the authorization endpoint is not kept in %v%s", res, p)
			req := st.mem[T.mk(OpCall, "#request", 0, nil, nil)]
			if req == nil {
				continue
			}
			want := map[string]*Term{"client_id": T.mk(OpSel, "", 0, m.id, m.id.Type(), rop), "aud": c.Sel(md, m.op, "Issuer"), "redirect_uri": args[2], "state": args[3], "response_type": strConst(c, "code"), "scope": args[4]}
			for k, v := range given {
				if want[k] == nil && k != "sub" && k != "iss" {
					want[k] = v
					if len(v.args) == 1 {
						want[k] = v.args[0]
					}
				}
			}
			why = m.signedMap(x, st, req, rop, want, true)
			c.Ob("url:request", fn.Pos(), why == "", "the request object: %s%s", why, p)
		}
		c.Ob("url:possible", fn.Pos(), good > 0, "no URL")
	}
}

func (m *oidcModel) codeExchange() {
	c, T := m.c, m.c.T
	fn := c.Fn("", "FederationLeaf.CodeExchange")
	tok, er := c.P.Named("", "OIDCTokenResponse"), c.P.Named("", "OIDCErrorResponse")
	if fn == nil || !c.Anchor("token response types", tok != nil && er != nil) {
		return
	}
	type run struct{ which, status int }
	var runs []run
	for which := 0; which <= 3; which++ {
		runs = append(runs, run{which, 200})
	}
	for _, s := range []int{199, 201, 204, 250, 299, 300, 302, 399, 400, 401, 404, 429, 500, 503, 599} {
		runs = append(runs, run{2, s})
	}
	for _, r := range runs {
		h := m.hooks()
		x := NewExec(c.P, T, h)
		var args []*Term
		for i, p := range fn.Params {
			args = append(args, x.Param(fmt.Sprintf("%d:%s", i, p.Name()), p.Type()))
		}
		st := NewState()
		add, given := m.additional(x, st, fn.Params[4].Type(), r.which)
		args[4] = add
		f := args[0]
		id := c.Sel(c.Sel(f, m.leaf, "FederationEntity"), c.P.Named("", "FederationEntity"), "EntityID")
		rop := T.mk(OpSel, "", 0, m.producer, m.producer.Type(), f)
		base := h.Model
		h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
			if k := postForm(ev.Name); k >= 0 {
				resp := ev.Fn.Signature.Results().At(0).Type()
				call := T.mk(OpCall, ev.Name, 0, T.site(ev.Instr, ev.Ctx), nil, ev.Args[k:]...)
				rp := T.mk(OpRes, "", 0, nil, resp, call)
				err := T.mk(OpRes, "", 1, nil, types.Universe.Lookup("error").Type(), call)
				var outs []Outcome
				for _, ok := range []bool{true, false} {
					s := st.clone()
					if !x.assume(s, T.IsNil(err), ok) {
						continue
					}
					if ok {
						s.facts[T.IsNil(rp)] = false
						s.mem[c.fieldOf(rp, "StatusCode")] = T.Int(r.status)
					}
					s.aux["#posted"] += "+"
					outs = append(outs, Outcome{st: s, res: T.mk(OpTuple, "", 0, nil, nil, rp, err)})
				}
				return outs, true
			}
			return base(x, st, ev)
		}
		h.OnCall = func(x *Exec, st *State, ev *CallEvent) {
			k := postForm(ev.Name)
			if k < 0 {
				return
			}
			ev = &CallEvent{Instr: ev.Instr, Name: ev.Name, Fn: ev.Fn, Args: ev.Args[k:], Addrs: ev.Addrs[k:], Ctx: ev.Ctx}
			var opm *Term
			ev.Args[0].contains1(func(t *Term) bool {
				if t.op == OpCall && strings.HasSuffix(t.str, "ResolveOPMetadata") {
					opm = t
				}
				return false
			})
			p := c.Path(st)
			if !c.Ob("code:endpoint", fn.Pos(), opm != nil && opm.args[0] == f && x.Same(st, opm.args[1], args[1]) && c.errKnownNil(x, st, opm), "the code is sent to %v%s", ev.Args[0], p) {
				return
			}
			md := T.mk(OpRes, "", 0, nil, nil, opm)
			ep := c.Sel(md, m.op, "TokenEndpoint")
			c.Ob("code:token-endpoint", fn.Pos(), x.Same(st, ev.Args[0], ep), "the code is sent to %v%s", ev.Args[0], p)
			mp := unMk(ev.Addrs[1])
			one := func(t *Term) *Term { return T.mk(OpList, "", 0, nil, nil, t) }
			want := map[string]*Term{"grant_type": one(strConst(c, "authorization_code")), "code": one(args[2]), "redirect_uri": one(args[3]), "client_id": one(id), "client_assertion_type": one(strConst(c, "urn:ietf:params:oauth:client-assertion-type:jwt-bearer")), "client_assertion": nil}
			for k, v := range given {
				if _, own := want[k]; !own {
					want[k] = v
				}
			}
			why := c.exactMap(x, st, mp, want)
			c.Ob("code:params", fn.Pos(), why == "", "the request: %s%s", why, p)
			as := x.valueAt(st, mp, strConst(c, "client_assertion"))
			if as.op == OpList && len(as.args) == 1 {
				why := m.signedMap(x, st, as.args[0], rop, map[string]*Term{"sub": T.mk(OpSel, "", 0, m.id, m.id.Type(), rop), "aud": ep}, true)
				c.Ob("code:assertion", fn.Pos(), why == "", "the client assertion: %s%s", why, p)
			} else {
				c.Ob("code:assertion", fn.Pos(), false, "the client assertion is %v%s", as, p)
			}
		}
		outs := x.Run(fn, args, st)
		c.Done(x, fmt.Sprintf("CodeExchange[%d, %d]", r.which, r.status))
		tokens, errors := 0, 0
		for _, o := range outs {
			if o.panic {
				continue
			}
			c.Paths++
			st := o.st
			p := c.Path(st)
			why := c.untouched(x, st, add, given)
			c.Ob("code:given", fn.Pos(), r.which == 0 || why == "", "%s%s", why, p)
			tk, ee, err := c.resOf(o, 0), c.resOf(o, 1), c.resOf(o, 2)
			isErr, dec := isErrTerm(x, st, err)
			if !c.Ob("code:decided", fn.Pos(), dec, "unclear error %v%s", err, p) || isErr {
				continue
			}
			c.Ob("code:once", fn.Pos(), st.aux["#posted"] == "+", "a result without exactly one request%s", p)
			decoded := func(v *Term) (*Term, bool) { // the body a value was decoded from
				cont := x.content(st, v)
				var call *Term
				cont.contains1(func(t *Term) bool {
					if t.op == OpCall && t.str == "encoding/json.Unmarshal" {
						call = t
					}
					return false
				})
				if call == nil {
					return nil, false
				}
				rd := findCall(call.args[0], "io.ReadAll")
				return call, rd != nil && (findCall(rd, "net/http.PostForm") != nil || findCall(rd, "net/http.Client.PostForm") != nil) && c.errKnownNil(x, st, rd) && c.errKnownNil(x, st, call)
			}
			if !ee.isNilConst() {
				errors++
				_, ok := decoded(ee)
				e := c.Sel(x.content(st, ee), er, "Error")
				c.Ob("code:error", fn.Pos(), ok && tk.isNilConst() && x.Proves(st, T.Empty(e), false), "an error response without error is returned (%v)%s", e, p)
				continue
			}
			tokens++
			_, ok := decoded(tk)
			c.Ob("code:token", fn.Pos(), ok && types.Identical(deref(fn.Signature.Results().At(0).Type()), tok), "the token response %v is not decoded from the body%s", tk, p)
			none := false
			for a, v := range st.facts {
				if v && a.op == OpEmpty && a.args[0].op == OpSel && a.args[0].obj.(*types.Var).Name() == "Error" || v && a.op == OpEq && strings.Contains(a.String(), ".Error") && strings.Contains(a.String(), `""`) {
					none = true
				}
			}
			c.Ob("code:no-error", fn.Pos(), none, "a token response is returned although the body may hold an error%s", p)
			c.Ob("code:status", fn.Pos(), r.status >= 200 && r.status <= 299, "a token response is returned for status %d%s", r.status, p)
		}
		c.Ob("code:possible", fn.Pos(), errors > 0 && (tokens > 0) == (r.status >= 200 && r.status <= 299), "status %d yields %d token and %d error responses", r.status, tokens, errors)
	}
}

// sameRes compares results of calls, whatever their types.
func sameRes(a, b *Term) bool {
	return a == b || a.op == OpRes && b.op == OpRes && a.num == b.num && a.args[0] == b.args[0]
}

// fieldOf selects a field by name of what p points to.
func (c *C) fieldOf(p *Term, name string) *Term {
	s := structOf(deref(p.typ))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return c.T.mk(OpSel, "", 0, s.Field(i), s.Field(i).Type(), p)
		}
	}
	return c.T.Nil()
}

func init() {
	register(&Check{
		ID: "C27", Title: "OIDC requests carry exactly the required and given parameters", Min: 25,
		Technique: "symbolic evaluation over maps of known shape; member by member comparison of what is signed and sent",
		Rule:      "for every combination of given members, on every path of RequestObject, ClientAssertion, GetAuthorizationURL and CodeExchange: the signed claims and the request parameters are exactly those specified (own values replace given ones, forbidden ones are removed), jti is a new identifier unless given, exp is iat plus the lifetime, the given maps stay as they are, and a token response is returned only for a success status and a body without error",
		Run:       runOIDC,
	})
}

// postForm is the index of the address in the arguments of a function that posts a form, or -1.
func postForm(name string) int {
	switch name {
	case "net/http.PostForm":
		return 0
	case "net/http.Client.PostForm":
		return 1
	}
	return -1
}
