package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const jwxp = "github.com/lestrrat-go/jwx/v3/"

// jwtParser is a function that turns a JWT into the object for one role.
type jwtParser struct {
	name string
	typ  string
	data func(x *Exec, st *State, args []*Term) *Term // where the JWT comes from
}

func jwtParsers(c *C) []jwtParser {
	arg0 := func(x *Exec, st *State, args []*Term) *Term { return args[0] }
	return []jwtParser{
		{"ParseEntityStatement", "entity-statement+jwt", arg0},
		{"ParseTrustMark", "trust-mark+jwt", arg0},
		{"TrustMark.Delegation", "trust-mark-delegation+jwt", func(x *Exec, st *State, args []*Term) *Term {
			return c.Sel(args[0], c.P.Named("", "TrustMark"), "DelegationJWT")
		}},
		{"ParseResolveResponse", "resolve-response+jwt", arg0},
	}
}

// resOf is result i of the outcome.
func (c *C) resOf(o Outcome, i int) *Term {
	if o.res != nil && o.res.op == OpTuple && i < len(o.res.args) {
		return o.res.args[i]
	}
	if i == 0 {
		return o.res
	}
	return c.T.Nil()
}

// findCall finds a call of name within t.
func findCall(t *Term, name string) (hit *Term) {
	t.walk(func(u *Term) bool {
		if hit == nil && u.op == OpCall && u.str == name {
			hit = u
		}
		return hit == nil
	})
	return
}

// resultOf reports whether t is result i of a call of name and returns the call.
func resultOf(t *Term, name string, i int) *Term {
	if t.op == OpRes && t.num == i && t.args[0].op == OpCall && t.args[0].str == name {
		return t.args[0]
	}
	return nil
}

// jwtRun explores a parser on a message with n signatures.
func (c *C) jwtRun(p jwtParser, fn *ssa.Function, n int, good bool) (x *Exec, args []*Term, outs []Outcome, sigs *Term) {
	T := c.T
	sigs = c.arr("signatures", n)
	h := &Hooks{Forward: true, Pin: func(g *Term) bool { return g.op == OpCall }}
	h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
		if ev.Name == jwxp+"jws.Message.Signatures" {
			return []Outcome{{st: st, res: sigs}}, true
		}
		return nil, false
	}
	if good {
		h.Decide = func(x *Exec, st *State, a *Term) (bool, bool) {
			if call := findCall(a, jwxp+"jws.Headers.Type"); call != nil {
				switch {
				case a.op == OpRes && a.num == 1:
					return true, true
				case a == T.Eq(T.mk(OpRes, "", 0, nil, types.Typ[types.String], call), strConst(c, p.typ)), a.op == OpEq && a.contains(strConst(c, p.typ)):
					return true, true
				}
			}
			if a.op == OpIsNil {
				u := a.args[0]
				if resultOf(u, jwxp+"jws.Parse", 1) != nil || u.op == OpCall && u.str == "encoding/json.Unmarshal" {
					return true, true
				}
				if resultOf(u, jwxp+"jws.Parse", 0) != nil {
					return false, true
				}
			}
			return false, false
		}
	}
	x = NewExec(c.P, T, h)
	args, outs = x.RunEntry(fn)
	c.Done(x, fmt.Sprintf("%s[%d signatures]", p.name, n))
	return
}

func runJWTTypes(c *C) {
	T := c.T
	for _, p := range jwtParsers(c) {
		fn := c.Fn("", p.name)
		if fn == nil {
			continue
		}
		accepted := 0
		for n := 0; n <= 2; n++ {
			x, _, outs, sigs := c.jwtRun(p, fn, n, false)
			for _, o := range outs {
				if o.panic {
					continue
				}
				c.Paths++
				if x.Proves(o.st, T.IsNil(c.resOf(o, 1)), false) {
					continue
				}
				obj := c.resOf(o, 0)
				if x.Proves(o.st, T.IsNil(obj), true) {
					continue
				}
				if p.name == "TrustMark.Delegation" && obj.op != OpAlloc {
					continue // the object parsed before
				}
				accepted++
				c.Ob("typ:signed:"+p.name, fn.Pos(), n > 0, "a message without any signature is accepted%s", c.Path(o.st))
				for i := 0; i < n; i++ {
					ty := T.mk(OpCall, jwxp+"jws.Headers.Type", 0, nil, nil, T.mk(OpCall, jwxp+"jws.Signature.ProtectedHeaders", 0, nil, nil, T.Elem(sigs, T.Int(i))))
					ok := false
					for f, v := range o.st.facts {
						if !v || f.op != OpEq {
							continue
						}
						if f.contains(strConst(c, p.typ)) && f.contains1(func(u *Term) bool { return u.op == OpRes && u.num == 0 && sameCall(u.args[0], ty) }) {
							ok = true
						}
					}
					c.Ob("typ:checked:"+p.name, fn.Pos(), ok, "accepted without the typ of protected header %d (of %d) being known to be %q%s", i, n, p.typ, c.Path(o.st))
				}
			}
		}
		c.Ob("typ:accepts:"+p.name, fn.Pos(), accepted > 0, "nothing is accepted at all")
		// a well-formed message of the right type is accepted
		x, args, outs, _ := c.jwtRun(p, fn, 1, true)
		good := 0
		for _, o := range outs {
			if o.panic || p.name == "TrustMark.Delegation" && !x.Proves(o.st, T.Empty(p.data(x, o.st, args)), false) {
				continue
			}
			c.Paths++
			good++
			c.Ob("typ:accepts:"+p.name, fn.Pos(), x.Proves(o.st, T.IsNil(c.resOf(o, 1)), true), "a message of type %q that parses is refused%s", p.typ, c.Path(o.st))
		}
		if p.name != "TrustMark.Delegation" {
			c.Anchor("favourable outcome of "+p.name, good > 0)
		}
	}
	for _, s := range []struct{ name, typ string }{
		{"EntityStatementSigner.JWT", "entity-statement+jwt"},
		{"TrustMarkSigner.JWT", "trust-mark+jwt"},
		{"TrustMarkDelegationSigner.JWT", "trust-mark-delegation+jwt"},
		{"ResolveResponseSigner.JWT", "resolve-response+jwt"},
		{"TypedJWTSigner.JWT", ""},
		{"GeneralJWTSigner.JWT", "#arg"},
	} {
		c.signerRun(s.name, s.typ)
	}
	c.signerFactories()
}

// sameCall compares calls by name and arguments (the result type is irrelevant).
func sameCall(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != OpCall || b.op != OpCall || a.str != b.str || len(a.args) < len(b.args) {
		return false
	}
	for i := range b.args {
		if !sameCall(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

func (c *C) setHeader(h, k *Term) *Term { return c.T.mk(OpCall, "#header", 0, nil, nil, h, k) }

// signedJWT describes the JWT a successful outcome returns.
type signedJWT struct {
	payload, alg, key, typ, kid *Term
	problem                     string
}

// signHooks records the headers put into JWTs.
func (c *C) signHooks(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
	T := c.T
	if ev.Name == jwxp+"jws.NewHeaders" {
		h := T.mk(OpCall, ev.Name, x.incarnation(st, T.site(ev.Instr, ev.Ctx)), T.site(ev.Instr, ev.Ctx), nil)
		x.assume(st, T.IsNil(h), false)
		return []Outcome{{st: st, res: h}}, true
	}
	if ev.Name != jwxp+"jws.Headers.Set" || len(ev.Args) != 3 {
		return nil, false
	}
	errT := T.mk(OpCall, ev.Name, 0, nil, nil, ev.Args...)
	bad := st.clone()
	var l []Outcome
	if x.assume(st, T.IsNil(errT), true) {
		k := unMk(ev.Args[1])
		st.mem[c.setHeader(ev.Args[0], k)] = unMk(ev.Args[2])
		l = append(l, Outcome{st: st, res: T.Nil()})
	}
	if x.assume(bad, T.IsNil(errT), false) {
		l = append(l, Outcome{st: bad, res: errT})
	}
	return l, true
}

// signed analyses the term of an issued JWT.
func (c *C) signed(x *Exec, st *State, jwt *Term) (s signedJWT) {
	T := c.T
	call := resultOf(jwt, jwxp+"jws.Sign", 0)
	if call == nil {
		s.problem = fmt.Sprintf("the result is not a signed JWT but %v", jwt)
		return
	}
	s.payload = call.args[0]
	opts := call.args[1]
	if n, ok := constInt(T.Len(opts)); !ok || n != 1 {
		s.problem = "the JWT is not signed with exactly one key"
		return
	}
	wk := unMk(T.Elem(opts, T.Int(0)))
	if wk.op != OpCall || wk.str != jwxp+"jws.WithKey" {
		s.problem = "the JWT is not signed with a key: " + wk.String()
		return
	}
	s.alg, s.key = unMk(wk.args[0]), unMk(wk.args[1])
	ph := findCall(wk, jwxp+"jws.WithProtectedHeaders")
	if ph == nil {
		s.problem = "the JWT has no protected headers of its own"
		return
	}
	hdr := unMk(ph.args[0])
	s.typ = st.mem[c.setHeader(hdr, strConst(c, "typ"))]
	s.kid = st.mem[c.setHeader(hdr, strConst(c, "kid"))]
	return
}

// signerRun decides what a signer issues.
func (c *C) signerRun(name, typ string) {
	T := c.T
	fn := c.Fn("", name)
	if fn == nil {
		return
	}
	h := &Hooks{Forward: true, Pin: func(g *Term) bool { return g.op == OpCall }, Model: c.signHooks}
	x := NewExec(c.P, T, h)
	args, outs := x.RunEntry(fn)
	c.Done(x, name)
	gen := c.P.Named("", "GeneralJWTSigner")
	sg := args[0]
	want := strConst(c, typ)
	recvT := fn.Signature.Recv().Type()
	if name != "GeneralJWTSigner.JWT" {
		sg = c.Sel(args[0], recvT, "GeneralJWTSigner")
	}
	switch typ {
	case "":
		want = c.Sel(args[0], recvT, "HeaderType")
	case "#arg":
		want = args[2]
	}
	okN := 0
	for _, o := range outs {
		if o.panic {
			continue
		}
		c.Paths++
		jwt, err := c.resOf(o, 0), c.resOf(o, 1)
		if x.Proves(o.st, T.IsNil(err), false) {
			continue
		}
		okN++
		s := c.signed(x, o.st, jwt)
		if !c.Ob("sign:form:"+name, fn.Pos(), s.problem == "", "%s%s", s.problem, c.Path(o.st)) {
			continue
		}
		c.Ob("sign:err:"+name, fn.Pos(), err == T.mk(OpRes, "", 1, nil, err.typ, jwt.args[0]) || x.Proves(o.st, T.IsNil(T.mk(OpRes, "", 1, nil, nil, jwt.args[0])), true) || resultOf(err, jwxp+"jws.Sign", 1) == jwt.args[0], "an error of signing is lost%s", c.Path(o.st))
		c.Ob("sign:typ:"+name, fn.Pos(), s.typ != nil && x.Same(o.st, s.typ, want), "issued with typ %v instead of %v", s.typ, want)
		c.Ob("sign:key:"+name, fn.Pos(), x.Same(o.st, s.key, c.Sel(sg, gen, "key")) && x.Same(o.st, s.alg, c.Sel(sg, gen, "alg")), "signed with key %v and algorithm %v", s.key, s.alg)
		c.Ob("sign:kid:"+name, fn.Pos(), s.kid != nil && c.thumbprintOf(x, o.st, s.kid, s.key), "the kid header is %v", s.kid)
		mc := resultOf(s.payload, "encoding/json.Marshal", 0)
		c.Ob("sign:payload:"+name, fn.Pos(), mc != nil && unMk(mc.args[0]) == args[1] && x.Proves(o.st, T.IsNil(T.mk(OpRes, "", 1, nil, nil, mc)), true) || mc != nil && unMk(mc.args[0]) == args[1] && c.errKnownNil(x, o.st, mc), "the payload is %v", s.payload)
	}
	c.Anchor("successful outcome of "+name, okN > 0)
}

// errKnownNil reports whether result 1 of call is known to be nil.
func (c *C) errKnownNil(x *Exec, st *State, call *Term) bool {
	for f, v := range st.facts {
		if v && f.op == OpIsNil && (f.args[0] == call || f.args[0].op == OpRes && f.args[0].args[0] == call) {
			return true
		}
	}
	return false
}

// thumbprintOf reports whether kid is the key id assigned to the imported key.
func (c *C) thumbprintOf(x *Exec, st *State, kid, key *Term) bool {
	call := resultOf(kid, jwxp+"jwk.Key.KeyID", 0)
	if call == nil {
		return false
	}
	imp := call.args[0]
	ic := resultOf(imp, jwxp+"jwk.Import", 0)
	if ic == nil || !x.Same(st, unMk(ic.args[0]), key) {
		return false
	}
	for f, v := range st.facts {
		if v && f.op == OpIsNil && f.args[0].op == OpCall && f.args[0].str == jwxp+"jwk.AssignKeyID" && f.args[0].args[0] == imp {
			return true
		}
	}
	return false
}

// signerFactories: every way to make a signer of a role uses the given key.
func (c *C) signerFactories() {
	T := c.T
	gen := c.P.Named("", "GeneralJWTSigner")
	pk := c.P.Pkg("")
	if gen == nil || pk == nil {
		return
	}
	n := 0
	for _, fn := range c.P.RepoFuncs() {
		if fn.Pkg == nil || fn.Pkg.Pkg != pk.Types || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Results().Len() != 1 {
			continue
		}
		rt, ok := deref(fn.Signature.Results().At(0).Type()).(*types.Named)
		if !ok || rt.Obj().Pkg() != pk.Types {
			continue
		}
		s := structOf(rt)
		if s == nil || (rt != gen && (s.NumFields() == 0 || deref(s.Field(0).Type()) != types.Type(gen) || !strings.HasSuffix(rt.Obj().Name(), "Signer"))) {
			continue
		}
		name := c.P.fnName(fn)
		x := NewExec(c.P, T, &Hooks{Forward: true})
		args, outs := x.RunEntry(fn)
		c.Done(x, name)
		for _, o := range outs {
			if o.panic {
				continue
			}
			c.Paths++
			v := x.content(o.st, c.resOf(o, 0))
			sg := v
			if rt != gen {
				sg = x.content(o.st, c.Sel(v, rt, "GeneralJWTSigner"))
			}
			key, alg := c.Sel(sg, gen, "key"), c.Sel(sg, gen, "alg")
			var wantKey, wantAlg, wantTyp *Term
			if fn.Signature.Recv() != nil {
				wantKey, wantAlg = c.Sel(args[0], gen, "key"), c.Sel(args[0], gen, "alg")
			}
			for i, p := range fn.Params {
				if fn.Signature.Recv() != nil && i == 0 {
					continue
				}
				switch {
				case types.Identical(p.Type(), c.Field(gen, "key").Type()):
					wantKey = args[i]
				case types.Identical(p.Type(), c.Field(gen, "alg").Type()):
					wantAlg = args[i]
				case isString(p.Type()):
					wantTyp = args[i]
				}
			}
			n++
			c.Ob("signer:"+name, fn.Pos(), wantKey != nil && wantAlg != nil && x.Same(o.st, key, wantKey) && x.Same(o.st, alg, wantAlg), "the signer has key %v and algorithm %v", key, alg)
			if rt.Obj().Name() == "TypedJWTSigner" && wantTyp != nil {
				c.Ob("signer:typ:"+name, fn.Pos(), x.Same(o.st, c.Sel(v, rt, "HeaderType"), wantTyp), "the signer has another type")
			}
		}
	}
	c.Anchor("functions that make signers", n >= 5)
}

// runJWTContent decides C18.
func runJWTContent(c *C) {
	T := c.T
	pj := c.P.Named("internal/jwx", "ParsedJWT")
	if !c.Anchor("jwx.ParsedJWT", pj != nil) {
		return
	}
	rawOf := func(m *Term) *Term { return c.Sel(m, pj, "RawJWT") }
	msgOf := func(m *Term) *Term { return c.Sel(m, pj, "Message") }
	// what was parsed is what is kept
	pair := func(x *Exec, st *State, m *Term) (data *Term, why string) {
		p := resultOf(msgOf(m), jwxp+"jws.Parse", 0)
		if p == nil {
			return nil, fmt.Sprintf("the message is not a parsed JWT but %v", msgOf(m))
		}
		if !x.Same(st, p.args[0], rawOf(m)) {
			return nil, fmt.Sprintf("the message was parsed from %v, but %v is kept for the verification", p.args[0], rawOf(m))
		}
		if !c.errKnownNil(x, st, p) {
			return nil, "the message is used although parsing failed"
		}
		return p.args[0], ""
	}
	if fn := c.Fn("internal/jwx", "Parse"); fn != nil {
		x := NewExec(c.P, T, &Hooks{Pin: func(g *Term) bool { return g.op == OpCall }})
		args, outs := x.RunEntry(fn)
		c.Done(x, "jwx.Parse")
		for _, o := range outs {
			if o.panic {
				continue
			}
			c.Paths++
			m := x.content(o.st, c.resOf(o, 0))
			err := c.resOf(o, 1)
			p := resultOf(msgOf(m), jwxp+"jws.Parse", 0)
			if x.Proves(o.st, T.IsNil(err), false) {
				continue
			}
			ok := p != nil && p.args[0] == args[0] && rawOf(m) == args[0]
			c.Ob("content:parse", fn.Pos(), ok, "Parse keeps %v and parses %v", rawOf(m), msgOf(m))
			c.Ob("content:parse:err", fn.Pos(), p != nil && (c.errKnownNil(x, o.st, p) || err.contains1(func(u *Term) bool { return resultOf(u, jwxp+"jws.Parse", 1) == p })), "an error of parsing is lost")
		}
		c.Ob("content:parse", fn.Pos(), len(outs) > 0, "no outcome")
	}
	if fn := c.Fn("internal/jwx", "ParsedJWT.UnmarshalMsgpack"); fn != nil {
		x := NewExec(c.P, T, &Hooks{Pin: func(g *Term) bool { return g.op == OpCall }})
		args, outs := x.RunEntry(fn)
		c.Done(x, "ParsedJWT.UnmarshalMsgpack")
		n := 0
		for _, o := range outs {
			if o.panic || x.Proves(o.st, T.IsNil(o.res), false) {
				continue
			}
			c.Paths++
			n++
			m := x.load(o.st, args[0])
			data, why := pair(x, o.st, m)
			ok := why == "" && findCall(data, "github.com/vmihailenco/msgpack/v5.Unmarshal") != nil && data.contains(args[1])
			c.Ob("content:decode", fn.Pos(), ok, "after decoding: %s (raw %v)", why, data)
		}
		c.Anchor("successful outcome of ParsedJWT.UnmarshalMsgpack", n > 0)
	}
	if fn := c.Fn("internal/jwx", "ParsedJWT.MarshalMsgpack"); fn != nil {
		x := NewExec(c.P, T, &Hooks{})
		args, outs := x.RunEntry(fn)
		c.Done(x, "ParsedJWT.MarshalMsgpack")
		for _, o := range outs {
			if o.panic || x.Proves(o.st, T.IsNil(c.resOf(o, 1)), false) {
				continue
			}
			c.Paths++
			call := resultOf(c.resOf(o, 0), "github.com/vmihailenco/msgpack/v5.Marshal", 0)
			c.Ob("content:encode", fn.Pos(), call != nil && unMk(call.args[0]) == rawOf(args[0]), "what is encoded is %v", c.resOf(o, 0))
		}
	}
	c.jwtVerify(rawOf, msgOf)
	c.statementVerify()
	// the claims of an object are decoded from the message it holds
	for _, p := range jwtParsers(c) {
		fn := c.Fn("", p.name)
		if fn == nil {
			continue
		}
		x, args, outs, _ := c.jwtRun(p, fn, 1, false)
		n := 0
		for _, o := range outs {
			if o.panic || x.Proves(o.st, T.IsNil(c.resOf(o, 1)), false) {
				continue
			}
			obj := c.resOf(o, 0)
			if obj.op != OpAlloc {
				continue
			}
			c.Paths++
			n++
			v := x.content(o.st, obj)
			t := deref(fn.Signature.Results().At(0).Type())
			var dec *Term
			v.walk(func(u *Term) bool {
				if u.op == OpOut && u.args[0].op == OpCall && u.args[0].str == "encoding/json.Unmarshal" {
					dec = u.args[0]
				}
				return dec == nil
			})
			if !c.Ob("content:claims:"+p.name, fn.Pos(), dec != nil && x.Proves(o.st, T.IsNil(dec), true), "the claims are not (successfully) decoded from JSON: %v%s", v, c.Path(o.st)) {
				continue
			}
			pl := dec.args[0]
			ok := pl.op == OpCall && pl.str == jwxp+"jws.Message.Payload"
			if !c.Ob("content:claims:"+p.name, fn.Pos(), ok, "the claims are decoded from %v instead of the payload of the message", pl) {
				continue
			}
			want := p.data(x, o.st, args)
			pc := resultOf(pl.args[0], jwxp+"jws.Parse", 0)
			c.Ob("content:source:"+p.name, fn.Pos(), pc != nil && (x.Same(o.st, pc.args[0], want) || pc.args[0].contains(want) && pc.args[0].op != OpCall), "the message is parsed from %v", pl.args[0])
			if fieldOf(t, "jwtMsg") != nil {
				m := x.content(o.st, c.msgField(x, o.st, obj, v, t, dec))
				_, why := pair(x, o.st, m)
				c.Ob("content:message:"+p.name, fn.Pos(), why == "" && msgOf(m) == pl.args[0], "the object does not hold the message its claims were decoded from: %s %v%s", why, m, c.Path(o.st))
			}
		}
		c.Anchor("outcome of "+p.name+" with a new object", n > 0)
	}
	c.statementCodec()
}

// msgField is the message held by a parsed object; decoding JSON into the object leaves unexported
// fields alone.
func (c *C) msgField(x *Exec, st *State, obj, v *Term, t types.Type, dec *Term) *Term {
	f := fieldOf(t, "jwtMsg")
	m := c.T.SelVar(v, f)
	if m.op == OpSel && m.args[0].op == OpOut && len(dec.args) > 1 {
		return c.T.SelVar(dec.args[1], f)
	}
	return m
}

func (c *C) jwtVerify(rawOf, msgOf func(*Term) *Term) {
	T := c.T
	fn := c.Fn("internal/jwx", "ParsedJWT.VerifyWithSet")
	if fn == nil {
		return
	}
	x := NewExec(c.P, T, &Hooks{Pin: func(g *Term) bool { return g.op == OpCall }})
	args, outs := x.RunEntry(fn)
	c.Done(x, "VerifyWithSet")
	n := 0
	for _, o := range outs {
		c.Ob("verify:total", fn.Pos(), !o.panic, "verification panics%s", c.Path(o.st))
		if o.panic {
			continue
		}
		c.Paths++
		err := c.resOf(o, 1)
		call := resultOf(err, jwxp+"jws.Verify", 1)
		if call == nil {
			err.walk(func(u *Term) bool {
				if k := resultOf(u, jwxp+"jws.Verify", 1); k != nil {
					call = k
				}
				return call == nil
			})
		}
		if call == nil && !x.Proves(o.st, T.IsNil(err), false) {
			o.res.walk(func(u *Term) bool {
				if k := resultOf(u, jwxp+"jws.Verify", 0); k != nil && c.errKnownNil(x, o.st, k) {
					call = k
				}
				return call == nil
			})
			if !c.Ob("verify:decided", fn.Pos(), call != nil, "a message is accepted without its signature being verified%s", c.Path(o.st)) {
				continue
			}
		}
		if call == nil {
			// refused: only for lack of a message or keys
			set := c.Sel(args[1], c.P.Named("jwks", "JWKS"), "Set")
			why := x.Proves(o.st, T.IsNil(args[0]), true) || x.Proves(o.st, T.IsNil(msgOf(args[0])), true) || x.Proves(o.st, T.IsNil(set), true)
			if !why {
				for f, v := range o.st.facts {
					if f.contains1(func(u *Term) bool { return u.op == OpCall && strings.HasSuffix(u.str, ".Len") && u.contains(args[1]) }) && v == (f.op == OpEq) {
						why = true
					}
				}
			}
			c.Ob("verify:refuses", fn.Pos(), why, "a message is refused without trying to verify it%s", c.Path(o.st))
			continue
		}
		n++
		c.Ob("verify:bytes", fn.Pos(), x.Same(o.st, call.args[0], rawOf(args[0])), "the signature is verified over %v", call.args[0])
		opts := call.args[1]
		k, known := constInt(T.Len(opts))
		if !c.Ob("verify:options", fn.Pos(), known && k > 0, "the options are %v", opts) {
			continue
		}
		sets, infer := 0, false
		for i := 0; i < k; i++ {
			op := unMk(T.Elem(opts, T.Int(i)))
			ok := false
			if op.op == OpCall {
				switch strings.TrimPrefix(op.str, jwxp+"jws.") {
				case "WithKeySet":
					ok = unMk(op.args[0]) == args[1] || op.args[0].root() == args[1] && !op.args[0].contains1(func(u *Term) bool { return u.op == OpCall })
					sets++
					if w := findCall(op, jwxp+"jws.WithInferAlgorithmFromKey"); w != nil && w.args[0].isConst("true") {
						infer = true
					}
				case "WithMessage", "WithKeyUsed", "WithContext", "WithValidateKey":
					ok = true
				}
			}
			c.Ob("verify:keys", fn.Pos(), ok, "the signature is verified with %v instead of the given keys", op)
		}
		c.Ob("verify:keys", fn.Pos(), sets == 1 && infer, "the given keys are not all used (%d key sets, algorithm inferred: %v)", sets, infer)
		c.Ob("verify:message", fn.Pos(), x.Proves(o.st, T.IsNil(msgOf(args[0])), false) || x.Proves(o.st, T.IsNil(args[0]), false), "verified without a message%s", c.Path(o.st))
	}
	c.Anchor("outcome of VerifyWithSet that verifies", n > 0)
}

// statementVerify: Verify of a statement answers what the verification of its message answers.
func (c *C) statementVerify() {
	T := c.T
	fn := c.Fn("", "EntityStatement.Verify")
	if fn == nil {
		return
	}
	ver := "internal/jwx.ParsedJWT.VerifyWithSet"
	x := NewExec(c.P, T, &Hooks{Pin: func(g *Term) bool { return g.op == OpCall }, Opaque: func(f *ssa.Function, n string) bool { return n == ver }, Pure: func(n string) bool { return n == ver }})
	args, outs := x.RunEntry(fn)
	c.Done(x, "EntityStatement.Verify")
	msg := c.Sel(args[0], c.P.Named("", "EntityStatement"), "jwtMsg")
	for _, o := range outs {
		if o.panic {
			continue
		}
		c.Paths++
		var call *Term
		look := func(t *Term) {
			t.walk(func(u *Term) bool {
				if k := resultOf(u, ver, 1); k != nil && (unMk(k.args[0]) == msg || x.content(o.st, k.args[0]) == x.content(o.st, msg)) && k.args[1] == args[1] {
					call = k
				}
				return call == nil
			})
		}
		look(o.res)
		for f := range o.st.facts {
			look(f)
		}
		if !c.Ob("verify:statement", fn.Pos(), call != nil, "the statement's own message is not verified with the given keys%s", c.Path(o.st)) {
			continue
		}
		for _, good := range []bool{true, false} {
			st := o.st.clone()
			if !x.assume(st, T.IsNil(T.mk(OpRes, "", 1, nil, types.Universe.Lookup("error").Type(), call)), good) {
				continue
			}
			v, ok := x.Known(st, o.res)
			c.Ob("verify:statement", fn.Pos(), ok && v == good, "Verify answers %v when the verification of the message succeeds: %v%s", o.res, good, c.Path(st))
		}
	}
}

// statementCodec: a cached statement is restored with its message.
func (c *C) statementCodec() {
	T := c.T
	est := c.P.Named("", "EntityStatement")
	mf, uf := c.Fn("", "EntityStatement.MarshalMsgpack"), c.Fn("", "EntityStatement.UnmarshalMsgpack")
	if mf == nil || uf == nil || est == nil {
		return
	}
	payF, msgF := c.Field(est, "EntityStatementPayload"), c.Field(est, "jwtMsg")
	const mp = "github.com/vmihailenco/msgpack/v5."
	x := NewExec(c.P, T, &Hooks{Pin: func(g *Term) bool { return g.op == OpCall }})
	args, outs := x.RunEntry(mf)
	c.Done(x, "EntityStatement.MarshalMsgpack")
	var fp, fm *types.Var
	n := 0
	for _, o := range outs {
		if o.panic || x.Proves(o.st, T.IsNil(c.resOf(o, 1)), false) {
			continue
		}
		c.Paths++
		call := resultOf(c.resOf(o, 0), mp+"Marshal", 0)
		if !c.Ob("codec:encode", mf.Pos(), call != nil, "the cached form is %v", c.resOf(o, 0)) {
			continue
		}
		v := unMk(call.args[0])
		s := structOf(v.typ)
		if s == nil {
			for f := range fieldsIn(v) {
				_ = f
			}
		}
		var p, m *types.Var
		for f := range fieldsIn(v) {
			w := T.SelVar(v, f)
			if w == T.SelVar(args[0], payF) {
				p = f
			}
			if w == T.SelVar(args[0], msgF) || x.content(o.st, w) == T.SelVar(args[0], msgF) {
				m = f
			}
		}
		c.Ob("codec:encode", mf.Pos(), p != nil, "the claims are not part of the cached form")
		if x.Proves(o.st, T.IsNil(T.SelVar(args[0], msgF)), true) {
			continue
		}
		c.Ob("codec:encode", mf.Pos(), m != nil, "the message is not part of the cached form")
		if p != nil && m != nil {
			n++
			fp, fm = p, m
		}
	}
	if !c.Anchor("cached form of entity statements", n > 0) {
		return
	}
	x = NewExec(c.P, T, &Hooks{Pin: func(g *Term) bool { return g.op == OpCall }})
	args, outs = x.RunEntry(uf)
	c.Done(x, "EntityStatement.UnmarshalMsgpack")
	n = 0
	for _, o := range outs {
		if o.panic || x.Proves(o.st, T.IsNil(o.res), false) {
			continue
		}
		c.Paths++
		n++
		var dec *Term
		e := x.load(o.st, args[0])
		pay := T.SelVar(e, payF)
		msg := x.content(o.st, T.SelVar(e, msgF))
		if pay.op == OpSel && pay.args[0].op == OpOut {
			dec = pay.args[0]
		}
		ok := dec != nil && pay == T.SelVar(dec, fp) && dec.args[0].str == mp+"Unmarshal" && dec.args[0].args[0] == args[1] && x.Proves(o.st, T.IsNil(dec.args[0]), true)
		c.Ob("codec:decode:claims", uf.Pos(), ok, "after decoding the claims are %v", pay)
		c.Ob("codec:decode:message", uf.Pos(), dec != nil && msg == T.SelVar(dec, fm), "after decoding the message is %v", msg)
	}
	c.Anchor("successful outcome of EntityStatement.UnmarshalMsgpack", n > 0)
}

// fieldsIn lists the fields selected in or overridden by a value.
func fieldsIn(v *Term) map[*types.Var]bool {
	l := map[*types.Var]bool{}
	v.walk(func(u *Term) bool {
		if f, ok := u.obj.(*types.Var); ok && u.op == OpSel {
			l[f] = true
		}
		return true
	})
	return l
}

func init() {
	register(&Check{
		ID: "C17", Title: "Every JWT is issued and accepted only with the typ of its role", Min: 20,
		Technique: "path-sensitive abstract interpretation of parsers and signers",
		Rule:      "every success path of a parser (0..2 signatures) has established that the protected header of every signature carries exactly the typ of the role, and the favourable path succeeds; every success path of a signer returns json.Marshal(claims) signed with the signer's key and algorithm and protected headers typ = the role's and kid = the id assigned to that key; every constructor hands the key on",
		Assume:    []string{"package jws reads and writes protected headers as documented"},
		Run:       runJWTTypes,
	})
	register(&Check{
		ID: "C18", Title: "Signatures vouch for exactly the content that is used", Min: 15,
		Technique: "path-sensitive abstract interpretation; provenance of verified and decoded bytes",
		Rule:      "the bytes kept for verification are those the message was parsed from (also after decoding from the cache); verification covers these bytes with exactly the given key set and its result decides; claims are decoded from the payload of the very message the object holds",
		Assume:    []string{"jws.Verify answers without error only for a valid signature of one of the keys over the given bytes", "json.Unmarshal leaves unexported fields of its target alone", "msgpack restores what it stored"},
		Run:       runJWTContent,
	})
}
