package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// entityModel describes a federation entity with n trust marks.
type entityModel struct {
	c                   *C
	fed, pay, cfg, info *types.Named
}

func newEntityModel(c *C) *entityModel {
	m := &entityModel{c: c, fed: c.P.Named("", "FederationEntity"), pay: c.P.Named("", "EntityStatementPayload"), cfg: c.P.Named("", "EntityConfigurationTrustMarkConfig"), info: c.P.Named("", "TrustMarkInfo")}
	if !c.Anchor("federation entity types", m.fed != nil && m.pay != nil && m.cfg != nil && m.info != nil) {
		return nil
	}
	return m
}

// payload decides the claims of the configuration of entity f with the given trust marks.
func (m *entityModel) payload(x *Exec, st *State, claims, f *Term, marks []*Term, what string, fn *ssa.Function) {
	c, T := m.c, m.c.T
	p := c.Path(st)
	cl := func(n string) *Term { return c.Sel(claims, m.pay, n) }
	own := func(n string) *Term { return c.Sel(f, m.fed, n) }
	for claim, field := range map[string]string{"Issuer": "EntityID", "Subject": "EntityID", "JWKS": "jwks", "AuthorityHints": "AuthorityHints", "Metadata": "Metadata", "TrustMarkIssuers": "TrustMarkIssuers", "TrustMarkOwners": "TrustMarkOwners", "Extra": "Extra"} {
		c.Ob(what+":claim:"+claim, fn.Pos(), x.Same(st, cl(claim), own(field)), "%s is %v instead of the entity's %s%s", claim, cl(claim), field, p)
	}
	now := nowTerm(c.instant(cl("IssuedAt")))
	c.Ob(what+":iat", fn.Pos(), now != nil, "iat is not the current time but %v%s", cl("IssuedAt"), p)
	e := c.instant(cl("ExpiresAt"))
	ok := now != nil && e.op == OpCall && e.str == "time.Time.Add" && len(e.args) == 2 && nowTerm(c.instant(e.args[0])) == now && c.seconds(e.args[1], own("ConfigurationLifetime"))
	c.Ob(what+":exp", fn.Pos(), ok, "exp is %v instead of the configured number of seconds after iat%s", cl("ExpiresAt"), p)
	// everything else is absent
	s := m.pay.Underlying().(*types.Struct)
	set := map[string]bool{"Issuer": true, "Subject": true, "JWKS": true, "AuthorityHints": true, "Metadata": true, "TrustMarkIssuers": true, "TrustMarkOwners": true, "Extra": true, "IssuedAt": true, "ExpiresAt": true, "TrustMarks": true}
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		if set[n] {
			continue
		}
		v := cl(n)
		zero := v.op == OpZero || v.isNilConst() || v == strConst(c, "") || x.Proves(st, T.Empty(v), true)
		c.Ob(what+":absent:"+n, fn.Pos(), zero, "%s is %v%s", n, v, p)
	}
	// the trust marks
	var got []*Term
	tms := cl("TrustMarks")
	if !x.Proves(st, T.Empty(tms), true) && !tms.isNilConst() {
		var ok bool
		if got, ok = x.listOf(st, tms); !c.Ob(what+":marks", fn.Pos(), ok, "unclear trust marks %v%s", tms, p) {
			return
		}
	}
	j := 0
	for i, mk := range marks {
		var call *Term
		find := func(t *Term) {
			t.contains1(func(u *Term) bool {
				if u.op == OpCall && strings.HasSuffix(u.str, "EntityConfigurationTrustMarkConfig.TrustMarkJWT") && u.args[0] == mk {
					call = u
				}
				return false
			})
		}
		for a := range st.facts {
			find(a)
		}
		for _, g := range got {
			find(g)
		}
		if !c.Ob(what+":mark:asked", fn.Pos(), call != nil, "trust mark %d is not asked for its JWT%s", i, p) {
			continue
		}
		err := T.mk(OpRes, "", 1, nil, nil, call)
		failed, known := x.Known(st, T.IsNil(err))
		failed = !failed
		if !known {
			for a, v := range st.facts {
				if a.op == OpIsNil && a.args[0].op == OpRes && a.args[0].num == 1 && a.args[0].args[0] == call {
					failed, known = !v, true
				}
			}
		}
		if !c.Ob(what+":mark:err", fn.Pos(), known, "an error of trust mark %d is not looked at%s", i, p) {
			continue
		}
		if failed {
			continue
		}
		if !c.Ob(what+":mark:present", fn.Pos(), j < len(got), "trust mark %d is missing%s", i, p) {
			continue
		}
		g := got[j]
		j++
		jw, ty := c.Sel(g, m.info, "TrustMarkJWT"), c.Sel(g, m.info, "TrustMarkType")
		c.Ob(what+":mark:jwt", fn.Pos(), jw.op == OpRes && jw.num == 0 && jw.args[0] == call, "entry %d has the JWT %v%s", j, jw, p)
		mt := c.Sel(mk, m.cfg, "TrustMarkType")
		c.Ob(what+":mark:type", fn.Pos(), x.Same(st, ty, mt) || ty.op == OpSnap && x.Same(st, ty.args[0], mt), "entry %d has the type %v%s", j, ty, p)
	}
	c.Ob(what+":mark:only", fn.Pos(), j == len(got), "there are %d entries for %d trust marks%s", len(got), j, p)
}

// instant strips wrappers from a time.
func (c *C) instant(t *Term) *Term {
	for t != nil && (t.op == OpSnap && len(t.args) == 1 || t.op == OpConv) {
		t = t.args[0]
	}
	return t
}

// seconds reports whether d is n seconds.
func (c *C) seconds(d, n *Term) bool {
	strip := func(t *Term) *Term {
		for t.op == OpConv {
			t = t.args[0]
		}
		return t
	}
	d = strip(d)
	if d.op != OpBin || d.str != "*" {
		return false
	}
	a, b := strip(d.args[0]), strip(d.args[1])
	sec := func(t *Term) bool { k, ok := constInt(t); return ok && k == 1000000000 }
	return sec(a) && b == n || sec(b) && a == n
}

func runEntity(c *C) {
	m := newEntityModel(c)
	if m == nil {
		return
	}
	T := c.T
	hooks := func() *Hooks {
		h := c.issueHooks()
		h.Opaque = func(f *ssa.Function, name string) bool {
			return strings.HasSuffix(name, "EntityConfigurationTrustMarkConfig.TrustMarkJWT")
		}
		return h
	}
	entity := func(x *Exec, fn *ssa.Function, n int) (recv, f *Term, marks []*Term) {
		recv = x.Param("recv", fn.Params[0].Type())
		f = recv
		var fld *types.Var
		s := m.fed.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(deref(sl.Elem()), m.cfg) {
				fld = s.Field(i)
			}
		}
		if fld == nil {
			return
		}
		list := c.arr("marks", n)
		f = T.Snap(recv, []*Term{T.mk(OpSel, "", 0, fld, fld.Type(), T.snapBase(nil)), list})
		for i := 0; i < n; i++ {
			marks = append(marks, T.Elem(list, T.Int(i)))
		}
		return
	}
	// the payload and its signed form
	for _, name := range []string{"FederationEntity.EntityConfigurationPayload", "FederationEntity.EntityConfigurationJWT"} {
		fn := c.Fn("", name)
		if fn == nil {
			continue
		}
		what := "payload"
		if strings.HasSuffix(name, "JWT") {
			what = "jwt"
		}
		for n := 0; n <= 2; n++ {
			x := NewExec(c.P, T, hooks())
			recv, f, marks := entity(x, fn, n)
			_ = recv
			outs := x.Run(fn, []*Term{f}, NewState())
			c.Done(x, fmt.Sprintf("%s[%d trust marks]", name, n))
			good := 0
			for _, o := range outs {
				if o.panic {
					continue
				}
				c.Paths++
				if what == "payload" {
					good++
					m.payload(x, o.st, x.content(o.st, o.res), f, marks, what, fn)
					continue
				}
				st := o.st
				res, err := c.resOf(o, 0), c.resOf(o, 1)
				if ok := c.signedOutcome(x, &st, res, err); ok == 0 {
					c.Ob("jwt:refused", fn.Pos(), c.signingFailed(x, st, err), "fails with %v%s", err, c.Path(st))
					continue
				} else if !c.Ob("jwt:decided", fn.Pos(), ok > 0, "unclear result %v%s", err, c.Path(st)) {
					continue
				}
				claims, s, why := c.claimsOf(x, st, res)
				if !c.Ob("jwt:signed", fn.Pos(), why == "", "%s%s", why, c.Path(st)) {
					continue
				}
				good++
				key := c.Sel(c.Sel(c.Sel(f, m.fed, "EntityStatementSigner"), c.P.Named("", "EntityStatementSigner"), "GeneralJWTSigner"), c.P.Named("", "GeneralJWTSigner"), "key")
				c.Ob("jwt:key", fn.Pos(), x.Same(st, s.key, key), "signed with %v", s.key)
				c.Ob("jwt:typ", fn.Pos(), s.typ == strConst(c, "entity-statement+jwt"), "issued as %v", s.typ)
				m.payload(x, st, claims, f, marks, what, fn)
			}
			c.Ob(what+":possible", fn.Pos(), good > 0, "no outcome with %d trust marks", n)
		}
	}
	// statements about others are signed as they are
	if fn := c.Fn("", "FederationEntity.SignEntityStatement"); fn != nil {
		x := NewExec(c.P, T, hooks())
		args, outs := x.RunEntry(fn)
		c.Done(x, "FederationEntity.SignEntityStatement")
		good := 0
		for _, o := range outs {
			if o.panic {
				continue
			}
			st := o.st
			res, err := c.resOf(o, 0), c.resOf(o, 1)
			ok := c.signedOutcome(x, &st, res, err)
			if ok == 0 {
				c.Ob("statement:refused", fn.Pos(), c.signingFailed(x, st, err), "fails with %v%s", err, c.Path(st))
				continue
			}
			claims, s, why := c.claimsOf(x, st, res)
			if !c.Ob("statement:signed", fn.Pos(), ok > 0 && why == "", "%s%s", why, c.Path(st)) {
				continue
			}
			good++
			key := c.Sel(c.Sel(c.Sel(args[0], m.fed, "EntityStatementSigner"), c.P.Named("", "EntityStatementSigner"), "GeneralJWTSigner"), c.P.Named("", "GeneralJWTSigner"), "key")
			c.Ob("statement:key", fn.Pos(), x.Same(st, s.key, key), "signed with %v", s.key)
			c.Ob("statement:typ", fn.Pos(), s.typ == strConst(c, "entity-statement+jwt"), "issued as %v", s.typ)
			c.Ob("statement:payload", fn.Pos(), x.Same(st, claims, args[1]), "the signed payload is %v%s", claims, c.Path(st))
		}
		c.Ob("statement:possible", fn.Pos(), good > 0, "no outcome")
	}
	m.constructors()
	c.publishedKeys()
}

// signedOutcome decides whether a path yields a JWT (1) or an error (0); -1 if that is not clear.
func (c *C) signedOutcome(x *Exec, st **State, jwt, err *Term) int {
	for jwt != nil && (jwt.op == OpConv || jwt.op == OpMk) {
		jwt = jwt.args[0]
	}
	isErr, dec := isErrTerm(x, *st, err)
	sc := resultOf(jwt, jwxp+"jws.Sign", 0)
	if !dec && sc != nil && err.op == OpRes && err.args[0] == sc {
		s := (*st).clone()
		if !x.assume(s, c.T.IsNil(err), true) {
			return 0
		}
		*st = s
		return 1
	}
	if !dec {
		return -1
	}
	if isErr {
		return 0
	}
	return 1
}

// constructors: the new entities have the given properties.
func (m *entityModel) constructors() {
	c, T := m.c, m.c.T
	for _, name := range []string{"NewFederationEntity", "NewFederationLeaf"} {
		fn := c.Fn("", name)
		if fn == nil {
			continue
		}
		h := &Hooks{Forward: true}
		h.Opaque = func(f *ssa.Function, n string) bool { return strings.HasSuffix(n, ".KeyToJWKS") }
		x := NewExec(c.P, T, h)
		args, outs := x.RunEntry(fn)
		c.Done(x, name)
		// parameters by position, so that renaming them does not matter
		pos := map[string]int{"EntityID": 0, "AuthorityHints": 1, "Metadata": 2, "EntityStatementSigner": 3, "lifetime": 4, "Extra": 5}
		if name == "NewFederationLeaf" {
			pos = map[string]int{"EntityID": 0, "AuthorityHints": 1, "TrustAnchors": 2, "Metadata": 3, "EntityStatementSigner": 4, "lifetime": 5, "key": 6, "alg": 7, "Extra": 8}
		}
		kinds := map[bool]int{}
		for _, o := range outs {
			if o.panic {
				continue
			}
			c.Paths++
			err := c.resOf(o, 1)
			if !c.Ob("new:err:"+name, fn.Pos(), err.isNilConst(), "fails with %v%s", err, c.Path(o.st)) {
				continue
			}
			v := x.content(o.st, c.resOf(o, 0))
			f := v
			if name == "NewFederationLeaf" {
				leaf := c.P.Named("", "FederationLeaf")
				f = c.Sel(v, leaf, "FederationEntity")
				ta := c.Sel(v, leaf, "TrustAnchors")
				c.Ob("new:anchors", fn.Pos(), x.Same(o.st, ta, args[pos["TrustAnchors"]]), "the trust anchors are %v", ta)
				rop := c.P.Named("", "RequestObjectProducer")
				var rp *Term
				s := leaf.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if types.Identical(deref(s.Field(i).Type()), rop) {
						rp = x.content(o.st, c.Sel(v, leaf, s.Field(i).Name()))
					}
				}
				if c.Ob("new:producer", fn.Pos(), rp != nil, "no request object producer") {
					c.Ob("new:producer:id", fn.Pos(), x.Same(o.st, c.Sel(rp, rop, "EntityID"), args[0]), "requests are made as %v", c.Sel(rp, rop, "EntityID"))
					c.Ob("new:producer:key", fn.Pos(), x.Same(o.st, c.Sel(rp, rop, "key"), args[pos["key"]]) && x.Same(o.st, c.Sel(rp, rop, "alg"), args[pos["alg"]]), "requests are signed with %v", c.Sel(rp, rop, "key"))
					k, isC := constInt(c.Sel(rp, rop, "lifetime"))
					c.Ob("new:producer:lifetime", fn.Pos(), isC && k > 0, "requests last for %v", c.Sel(rp, rop, "lifetime"))
				}
			}
			for _, fl := range []string{"EntityID", "AuthorityHints", "Metadata", "EntityStatementSigner", "Extra"} {
				got := c.Sel(f, m.fed, fl)
				c.Ob("new:"+name+":"+fl, fn.Pos(), x.Same(o.st, got, args[pos[fl]]), "%s is %v", fl, got)
			}
			lt, given := c.Sel(f, m.fed, "ConfigurationLifetime"), args[pos["lifetime"]]
			if k, isC := constInt(lt); isC {
				kinds[true]++
				c.Ob("new:"+name+":lifetime", fn.Pos(), k > 0 && x.Proves(o.st, T.Lt(T.Int(0), given), false), "the lifetime is %d although a positive one may be given%s", k, c.Path(o.st))
			} else {
				kinds[false]++
				c.Ob("new:"+name+":lifetime", fn.Pos(), x.Same(o.st, lt, given) && x.Proves(o.st, T.Lt(T.Int(0), given), true), "the lifetime is %v, possibly not positive%s", lt, c.Path(o.st))
			}
			jk := c.Sel(f, m.fed, "jwks")
			call := findCall(jk, "jwks.KeyToJWKS")
			gen := c.P.Named("", "GeneralJWTSigner")
			g := c.Sel(args[pos["EntityStatementSigner"]], c.P.Named("", "EntityStatementSigner"), "GeneralJWTSigner")
			ok := call != nil
			if ok {
				pub := unMk(call.args[0])
				ok = pub.op == OpCall && strings.HasSuffix(pub.str, ".Public") && x.Same(o.st, pub.args[0], c.Sel(g, gen, "key")) && x.Same(o.st, call.args[1], c.Sel(g, gen, "alg"))
			}
			c.Ob("new:"+name+":jwks", fn.Pos(), ok, "the published keys are %v", jk)
		}
		c.Ob("new:possible:"+name, fn.Pos(), kinds[true] > 0 && kinds[false] > 0, "no outcome with the given or the default lifetime")
	}
}

// publishedKeys: a key set made from a key holds its public part only, with id, use and algorithm.
func (c *C) publishedKeys() {
	T := c.T
	fn := c.Fn("jwks", "KeyToJWKS")
	if fn == nil {
		return
	}
	h := &Hooks{Forward: true}
	x := NewExec(c.P, T, h)
	h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
		if strings.HasSuffix(ev.Name, ".Set") && len(ev.Addrs) == 3 && ev.Fn == nil {
			st2 := st.clone()
			st2.mem[T.mk(OpElem, "#set", 0, nil, nil, unMk(ev.Addrs[0]), ev.Addrs[1])] = unMk(ev.Args[2])
			st3 := st.clone()
			r := T.mk(OpCall, "#seterr", 0, T.site(ev.Instr, ev.Ctx), types.Universe.Lookup("error").Type())
			if !x.assume(st2, T.IsNil(r), true) || !x.assume(st3, T.IsNil(r), false) {
				return nil, false
			}
			return []Outcome{{st: st2, res: r}, {st: st3, res: r}}, true
		}
		return nil, false
	}
	var added []*Term
	h.OnCall = func(x *Exec, st *State, ev *CallEvent) {
		if strings.HasSuffix(ev.Name, ".AddKey") {
			added = append(added, unMk(ev.Addrs[1]))
			st.aux["#added"] += "+"
		}
	}
	args, outs := x.RunEntry(fn)
	c.Done(x, "jwks.KeyToJWKS")
	good := 0
	for _, o := range outs {
		if o.panic {
			continue
		}
		c.Paths++
		good++
		c.Ob("keys:one", fn.Pos(), o.st.aux["#added"] == "+", "not exactly one key is added%s", c.Path(o.st))
	}
	c.Ob("keys:possible", fn.Pos(), good > 0, "no outcome")
	for _, k := range added {
		pub := resultOf(k, jwxp+"jwk.PublicKeyOf", 0)
		if !c.Ob("keys:public", fn.Pos(), pub != nil && unMk(pub.args[0]) == args[0], "the key %v is published", k) {
			continue
		}
		for _, o := range outs {
			if o.panic {
				continue
			}
			get := func(n string) *Term {
				for a, v := range o.st.mem {
					if a.op == OpElem && a.str == "#set" && a.args[0] == k && a.args[1] == strConst(c, n) {
						return v
					}
				}
				return T.Nil()
			}
			c.Ob("keys:alg", fn.Pos(), get("alg") == args[1], "the algorithm is %v%s", get("alg"), c.Path(o.st))
			c.Ob("keys:use", fn.Pos(), get("use") == strConst(c, "sig"), "the use is %v%s", get("use"), c.Path(o.st))
			okID := false
			for a, v := range o.st.facts {
				if v && a.op == OpIsNil && a.args[0].op == OpCall && a.args[0].str == jwxp+"jwk.AssignKeyID" && unMk(a.args[0].args[0]) == k {
					okID = true
				}
			}
			c.Ob("keys:id", fn.Pos(), okID, "no id is assigned to the key%s", c.Path(o.st))
		}
	}
}

func init() {
	register(&Check{
		ID: "C36", Title: "The entity configuration states exactly what the entity is configured with", Min: 60,
		Technique: "symbolic evaluation of payload construction, signing and constructors; claim by claim comparison",
		Rule:      "on every path of EntityConfigurationPayload, and of the payload signed by EntityConfigurationJWT, iss and sub are the entity id, iat is now and exp the configured number of seconds later, keys, hints, metadata, trust mark issuers, owners and further claims are those of the entity, trust marks exactly those whose JWT is obtained without error, in order, and every other claim is absent; statements about others are signed as given; constructors keep all properties, replace only a lifetime that is not positive, and publish exactly the signer's public key with its algorithm, use and id",
		Run:       runEntity,
	})
}
