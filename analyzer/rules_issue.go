package main

import (
	"fmt"
	"go/types"
)

// issued runs fn and returns every outcome with the claims that were signed.
type issuedOutcome struct {
	o      Outcome
	claims *Term // value given to json.Marshal
	s      signedJWT
	why    string
}

func (c *C) issueHooks() *Hooks {
	return &Hooks{Forward: true, Pin: func(g *Term) bool { return g.op == OpCall }, Model: c.signHooks}
}

// claimsOf returns the value whose JSON the JWT's payload is.
func (c *C) claimsOf(x *Exec, st *State, jwt *Term) (claims *Term, s signedJWT, why string) {
	for jwt.op == OpConv || jwt.op == OpMk {
		jwt = jwt.args[0]
	}
	s = c.signed(x, st, jwt)
	if s.problem != "" {
		return nil, s, s.problem
	}
	mc := resultOf(s.payload, "encoding/json.Marshal", 0)
	if mc == nil {
		return nil, s, fmt.Sprintf("the payload is %v", s.payload)
	}
	if !c.errKnownNil(x, st, mc) {
		return nil, s, "an error of encoding the payload is ignored"
	}
	sc := resultOf(jwt, jwxp+"jws.Sign", 0)
	if !c.errKnownNil(x, st, sc) {
		return nil, s, "an error of signing is ignored"
	}
	return x.content(st, unMk(mc.args[0])), s, ""
}

// nowTerm returns the time.Now call a time was taken from.
func nowTerm(t *Term) *Term {
	for t != nil && t.op == OpSnap && len(t.args) == 1 {
		t = t.args[0]
	}
	if t != nil && t.op == OpCall && t.str == "time.Now" {
		return t
	}
	return nil
}

// validity decides iat (now) and exp (iat plus lifetime, absent if the lifetime is zero).
func (c *C) validity(x *Exec, st *State, iat, exp *Term, lifetime *Term) string {
	T := c.T
	now := nowTerm(iat)
	if now == nil {
		return fmt.Sprintf("iat is not the current time but %v", iat)
	}
	zero := T.Eq(lifetime, T.Int(0))
	if x.Proves(st, T.IsNil(exp), true) {
		if !x.Proves(st, zero, true) {
			return "there is no exp although the lifetime may not be zero"
		}
		return ""
	}
	if !x.Proves(st, T.IsNil(exp), false) && exp.op != OpAlloc {
		return fmt.Sprintf("exp is %v", exp)
	}
	if !x.Proves(st, zero, false) {
		return "there is an exp although the lifetime may be zero"
	}
	e := x.content(st, exp)
	if !c.plus(x, st, e, now, lifetime) {
		return fmt.Sprintf("exp is %v instead of %v from iat", e, lifetime)
	}
	return ""
}

// plus reports whether e = now.Add(d).
func (c *C) plus(x *Exec, st *State, e, now, d *Term) bool {
	if e.op != OpCall || e.str != "time.Time.Add" || len(e.args) != 2 {
		return false
	}
	a := e.args[0]
	if n := nowTerm(a); n != nil {
		a = n
	}
	return a == now && x.Same(st, e.args[1], d)
}

type issuerCase struct {
	recv, issue, new, add, catalog string // receiver type, methods and catalogue field
	spec, claims                   string // types
	typeFld, lifeFld               string
	role                           string
	copied                         []string // claims copied from the specification
}

func runIssue(c *C) {
	T := c.T
	for _, ic := range []issuerCase{
		{recv: "TrustMarkIssuer", issue: "IssueTrustMark", new: "NewTrustMarkIssuer", add: "AddTrustMark", spec: "TrustMarkSpec", claims: "TrustMark", typeFld: "TrustMarkType", lifeFld: "Lifetime", role: "trust-mark+jwt", copied: []string{"LogoURI", "Ref", "DelegationJWT", "Extra"}},
		{recv: "TrustMarkOwner", issue: "DelegationJWT", new: "NewTrustMarkOwner", add: "AddTrustMark", spec: "OwnedTrustMark", claims: "DelegationJWT", typeFld: "ID", lifeFld: "DelegationLifetime", role: "trust-mark-delegation+jwt", copied: []string{"Ref", "Extra"}},
	} {
		recvT, specT, claimT := c.P.Named("", ic.recv), c.P.Named("", ic.spec), c.P.Named("", ic.claims)
		fn := c.Fn("", ic.recv+"."+ic.issue)
		if !c.Anchor("types of "+ic.recv, recvT != nil && specT != nil && claimT != nil) || fn == nil {
			continue
		}
		catalog := c.catalogField(recvT, specT)
		if !c.Anchor("catalogue of "+ic.recv, catalog != nil) {
			continue
		}
		gen := c.P.Named("", "GeneralJWTSigner")
		signer := c.signerField(recvT, gen)
		if !c.Anchor("signer of "+ic.recv, signer != nil) {
			continue
		}
		for n := 0; n <= 1; n++ {
			x := NewExec(c.P, T, c.issueHooks())
			recv, typ, sub := x.Param("recv", fn.Params[0].Type()), x.Param("1:type", fn.Params[1].Type()), x.Param("2:sub", fn.Params[2].Type())
			lt := T.Nil()
			if n == 1 {
				lt = c.arr("lifetime", 1)
			}
			outs := x.Run(fn, []*Term{recv, typ, sub, lt}, NewState())
			c.Done(x, fmt.Sprintf("%s.%s[%d lifetimes]", ic.recv, ic.issue, n))
			cat := T.mk(OpSel, "", 0, catalog, catalog.Type(), recv)
			spec := T.Elem(cat, typ)
			known := T.Has(cat, typ)
			okN := map[string]int{}
			for _, o := range outs {
				if o.panic {
					continue
				}
				c.Paths++
				st := o.st
				res, err := c.resOf(o, 0), c.resOf(o, 1)
				p := c.Path(st)
				isErr, dec := isErrTerm(x, st, err)
				jwt := res
				if ic.claims == "TrustMark" {
					jwt = c.Sel(x.content(st, res), c.P.Named("", "TrustMarkInfo"), "TrustMarkJWT")
				}
				for jwt != nil && (jwt.op == OpConv || jwt.op == OpMk) {
					jwt = jwt.args[0]
				}
				sc := resultOf(jwt, jwxp+"jws.Sign", 0)
				if !dec && sc != nil && err.op == OpRes && err.args[0] == sc {
					// the result of signing is handed on
					st = st.clone()
					if !x.assume(st, T.IsNil(err), true) {
						continue
					}
				} else if isErr {
					// refused only for unknown types or when signing fails
					if x.Proves(st, known, true) {
						c.Ob("issue:refused:"+ic.recv, fn.Pos(), c.signingFailed(x, st, err), "a known type is refused with %v%s", err, p)
					}
					continue
				} else if !dec {
					c.Ob("issue:decided:"+ic.recv, fn.Pos(), false, "unclear result %v%s", err, p)
					continue
				}
				if !c.Ob("issue:unknown:"+ic.recv, fn.Pos(), x.Proves(st, known, true), "something is issued for a type that is not in the catalogue%s", p) {
					continue
				}
				claims, s, why := c.claimsOf(x, st, jwt)
				if !c.Ob("issue:signed:"+ic.recv, fn.Pos(), why == "", "%s%s", why, p) {
					continue
				}
				sg := T.mk(OpSel, "", 0, signer, signer.Type(), recv)
				key := c.Sel(c.Sel(sg, deref(signer.Type()), "GeneralJWTSigner"), gen, "key")
				c.Ob("issue:key:"+ic.recv, fn.Pos(), x.Same(st, s.key, key), "signed with %v", s.key)
				c.Ob("issue:typ:"+ic.recv, fn.Pos(), s.typ == strConst(c, ic.role), "issued as %v", s.typ)
				cl := func(f string) *Term { return c.Sel(claims, claimT, f) }
				c.Ob("issue:iss:"+ic.recv, fn.Pos(), x.Same(st, cl("Issuer"), c.Sel(recv, recvT, "EntityID")), "iss is %v%s", cl("Issuer"), p)
				c.Ob("issue:sub:"+ic.recv, fn.Pos(), x.Same(st, cl("Subject"), sub), "sub is %v%s", cl("Subject"), p)
				tt := cl("TrustMarkType")
				isType := func(t *Term) bool { return x.Same(st, t, typ) || x.Same(st, t, c.Sel(spec, specT, ic.typeFld)) }
				c.Ob("issue:type:"+ic.recv, fn.Pos(), isType(tt), "trust_mark_type is %v%s", tt, p)
				for _, f := range ic.copied {
					c.Ob("issue:spec:"+ic.recv+"."+f, fn.Pos(), x.Same(st, cl(f), c.Sel(spec, specT, f)), "%s is %v%s", f, cl(f), p)
				}
				life := c.Sel(spec, specT, ic.lifeFld)
				if n == 1 {
					life = T.Elem(lt, T.Int(0))
				}
				why = c.validity(x, st, cl("IssuedAt"), cl("ExpiresAt"), life)
				c.Ob(fmt.Sprintf("issue:validity:%s:%d", ic.recv, n), fn.Pos(), why == "", "%s%s", why, p)
				if x.Proves(st, T.IsNil(cl("ExpiresAt")), true) {
					okN["unlimited"]++
				} else {
					okN["limited"]++
				}
				if ic.claims != "TrustMark" {
					continue
				}
				info := c.P.Named("", "TrustMarkInfo")
				is := func(f string) *Term { return c.Sel(x.content(st, res), info, f) }
				c.Ob("issue:info:type", fn.Pos(), isType(is("TrustMarkType")), "the info shows type %v", is("TrustMarkType"))
				it := info.Underlying().(*types.Struct)
				for i := 0; i < it.NumFields(); i++ {
					if f := it.Field(i); types.Identical(deref(f.Type()), claimT) {
						got := is(f.Name())
						ok := x.Proves(st, T.IsNil(got), true)
						if !ok {
							v := x.content(st, got)
							ok = true
							for _, n := range append([]string{"Issuer", "Subject", "TrustMarkType", "IssuedAt", "ExpiresAt"}, ic.copied...) {
								ok = ok && x.Same(st, c.Sel(v, claimT, n), cl(n))
							}
						}
						c.Ob("issue:info:mark", fn.Pos(), ok, "the info holds another trust mark than the one signed: %v", got)
					}
				}
				ex := is("Extra")
				incl := c.Sel(spec, specT, "IncludeExtraClaimsInInfo")
				if x.Proves(st, incl, true) {
					okN["extra"]++
					c.Ob("issue:info:extra", fn.Pos(), x.Same(st, ex, c.Sel(spec, specT, "Extra")), "the info has further claims %v", ex)
				} else {
					okN["noextra"]++
					c.Ob("issue:info:extra", fn.Pos(), x.Proves(st, incl, false) && x.Proves(st, T.IsNil(ex), true), "the info has further claims %v although it is not meant to", ex)
				}
			}
			kinds := []string{"limited", "unlimited"}
			if ic.claims == "TrustMark" {
				kinds = append(kinds, "extra", "noextra")
			}
			for _, k := range kinds {
				c.Ob(fmt.Sprintf("issue:possible:%s:%s:%d", ic.recv, k, n), fn.Pos(), okN[k] > 0, "nothing is issued (%s)", k)
			}
		}
		c.catalogue(ic, recvT, specT, catalog, signer)
	}
}

// signingFailed reports whether err is the error of encoding, preparing or making a signature.
func (c *C) signingFailed(x *Exec, st *State, err *Term) bool {
	fails := func(t *Term) bool {
		return t.op == OpCall && (t.str == "encoding/json.Marshal" || len(t.str) > len(jwxp) && t.str[:len(jwxp)] == jwxp)
	}
	if err.contains1(fails) {
		return true
	}
	for f, v := range st.facts {
		if f.op != OpIsNil {
			continue
		}
		if v && f.args[0].op == OpSel && f.args[0].obj.(*types.Var).Name() == "key" {
			return true // no key
		}
		if !v && f.args[0].op != OpAlloc && f.args[0].contains1(fails) && f.args[0].typ != nil && types.Identical(f.args[0].typ, types.Universe.Lookup("error").Type()) {
			return true
		}
	}
	return false
}

// catalogField finds the field that maps types to specifications.
func (c *C) catalogField(recv, spec *types.Named) (hit *types.Var) {
	s := recv.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && types.Identical(deref(m.Elem()), spec) {
			hit = s.Field(i)
		}
	}
	return
}

// signerField finds the field with the signer.
func (c *C) signerField(recv, gen *types.Named) *types.Var {
	s := recv.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if t := structOf(deref(s.Field(i).Type())); t != nil {
			for j := 0; j < t.NumFields(); j++ {
				if types.Identical(deref(t.Field(j).Type()), gen) {
					return s.Field(i)
				}
			}
		}
	}
	return nil
}

// catalogue: the catalogue holds every given specification under its type.
func (c *C) catalogue(ic issuerCase, recvT, specT *types.Named, catalog, signer *types.Var) {
	T := c.T
	if fn := c.Fn("", ic.new); fn != nil {
		for v := 1; v <= 3; v++ {
			n := min(v, 2) // one; two of different types; two of the same type
			x := NewExec(c.P, T, &Hooks{})
			id, sg := x.Param("0:id", fn.Params[0].Type()), x.Param("1:signer", fn.Params[1].Type())
			specs := c.arr("specs", n)
			st := NewState()
			if n == 2 {
				k := func(i int) *Term { return c.Sel(T.Elem(specs, T.Int(i)), specT, ic.typeFld) }
				x.assume(st, T.Eq(k(0), k(1)), v == 3)
			}
			outs := x.Run(fn, []*Term{id, sg, specs}, st)
			c.Done(x, fmt.Sprintf("%s[%d]", ic.new, v))
			good := 0
			for _, o := range outs {
				if o.panic {
					continue
				}
				c.Paths++
				good++
				v := x.content(o.st, o.res)
				c.Ob("new:id:"+ic.new, fn.Pos(), x.Same(o.st, c.Sel(v, recvT, "EntityID"), id), "the entity id is %v", c.Sel(v, recvT, "EntityID"))
				gs := c.Sel(v, recvT, signer.Name())
				c.Ob("new:signer:"+ic.new, fn.Pos(), x.Same(o.st, gs, sg), "the signer is %v", gs)
				m := c.Sel(v, recvT, catalog.Name())
				for i := 0; i < n; i++ {
					s := T.Elem(specs, T.Int(i))
					k := c.Sel(s, specT, ic.typeFld)
					got := x.valueAt(o.st, m, k)
					ok := x.holdsKey(o.st, m, k) && (x.Same(o.st, got, s) || x.content(o.st, got) == x.content(o.st, s))
					for j := i + 1; !ok && j < n; j++ {
						s2 := T.Elem(specs, T.Int(j))
						ok = x.Same(o.st, c.Sel(s2, specT, ic.typeFld), k) && x.Same(o.st, got, s2)
					}
					c.Ob("new:catalogue:"+ic.new, fn.Pos(), ok, "specification %d of %d is not in the catalogue under its type (%v there)%s", i, n, got, c.Path(o.st))
				}
			}
			c.Ob("new:possible:"+ic.new, fn.Pos(), good > 0, "no outcome")
		}
	}
	if fn := c.Fn("", ic.recv+"."+ic.add); fn != nil {
		x := NewExec(c.P, T, &Hooks{})
		args, outs := x.RunEntry(fn)
		c.Done(x, ic.recv+"."+ic.add)
		m := T.mk(OpSel, "", 0, catalog, catalog.Type(), args[0])
		k := c.Sel(args[1], specT, ic.typeFld)
		for _, o := range outs {
			if o.panic {
				continue
			}
			c.Paths++
			mm := m
			if v := o.st.mem[m]; v != nil {
				mm = v
			}
			got := x.valueAt(o.st, mm, k)
			c.Ob("add:"+ic.recv, fn.Pos(), x.Proves(o.st, T.Has(mm, k), true) && (x.Same(o.st, got, args[1]) || x.content(o.st, got) == x.content(o.st, args[1])), "the specification is not in the catalogue under its type%s", c.Path(o.st))
		}
		c.Ob("add:"+ic.recv, fn.Pos(), len(outs) > 0, "no outcome")
	}
}

// holdsKey reports whether m is known to have key k.
func (x *Exec) holdsKey(st *State, m, k *Term) bool {
	if x.Proves(st, x.T.Has(m, k), true) {
		return true
	}
	for f, v := range st.facts {
		if v && f.op == OpHas && f.args[0] == m && x.Same(st, f.args[1], k) {
			return true
		}
	}
	return false
}

// valueAt is the value under key k in map m.
func (x *Exec) valueAt(st *State, m, k *Term) *Term {
	a := x.T.Elem(m, k)
	if v := st.mem[a]; v != nil {
		return v
	}
	for b, v := range st.mem {
		if b.op == OpElem && b.args[0] == m && x.Same(st, b.args[1], k) {
			return v
		}
	}
	return a
}

func init() {
	register(&Check{
		ID: "C22", Title: "Trust marks and delegations are issued as specified", Min: 30,
		Technique: "symbolic evaluation of issuance; claim by claim comparison of the signed payload",
		Rule:      "on every path of IssueTrustMark and DelegationJWT without error the type is in the catalogue and the signed payload has iss = the issuer, sub = the given subject, the type, the specification's further claims, iat = now and exp = iat + lifetime (the given one, else the specification's), absent exactly if that is zero, signed with the issuer's key in the right role; known types are refused only if signing fails; the catalogue holds every given specification under its type",
		Run:       runIssue,
	})
}
