package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vws = "internal/jwx.ParsedJWT.VerifyWithSet"

type markModel struct {
	c                                     *C
	mark, info, del, stmt, owner, ta, req *types.Named
}

func newMarkModel(c *C) *markModel {
	m := &markModel{c: c}
	for n, p := range map[string]**types.Named{"TrustMark": &m.mark, "TrustMarkInfo": &m.info, "DelegationJWT": &m.del, "EntityStatement": &m.stmt, "TrustMarkOwnerSpec": &m.owner, "EntityStatementPayload": &m.ta} {
		*p = c.P.Named("", n)
		if !c.Anchor("type "+n, *p != nil) {
			return nil
		}
	}
	m.req = c.P.Named("apimodel", "ResolveRequest")
	if !c.Anchor("type apimodel.ResolveRequest", m.req != nil) {
		return nil
	}
	return m
}

// resolves reports whether a call resolves an entity on behalf of a request.
func (m *markModel) resolves(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if types.Identical(deref(sig.Params().At(i).Type()), m.req) {
			return true
		}
	}
	return false
}

func (m *markModel) hooks() *Hooks {
	h := &Hooks{Forward: true, Pin: func(g *Term) bool { return g.op == OpCall }}
	h.Opaque = func(f *ssa.Function, n string) bool {
		switch n {
		case vws, "unixtime.VerifyTime", "oidfed.TrustMark.Delegation", "oidfed.GetEntityConfiguration", "oidfed.ParseEntityStatement":
			return true
		}
		return m.resolves(f.Signature)
	}
	h.Pure = func(n string) bool {
		return n == vws || n == "unixtime.VerifyTime" || n == "oidfed.TrustMark.Delegation"
	}
	return h
}

func (m *markModel) call(name string, args ...*Term) *Term {
	return m.c.T.mk(OpCall, name, 0, nil, nil, args...)
}

func (m *markModel) errOf(call *Term, i int) *Term {
	return m.c.T.mk(OpRes, "", i, nil, types.Universe.Lookup("error").Type(), call)
}

// verified reports whether st knows that message msg verifies with keys.
func (m *markModel) verified(x *Exec, st *State, msg, keys *Term) bool {
	for f, v := range st.facts {
		if !v || f.op != OpIsNil {
			continue
		}
		k := resultOf(f.args[0], vws, 1)
		if k != nil && m.sameMsg(x, st, k.args[0], msg) && x.Same(st, k.args[1], keys) {
			return true
		}
	}
	return false
}

func (m *markModel) sameMsg(x *Exec, st *State, a, b *Term) bool {
	return x.Same(st, a, b) || x.content(st, a) == x.content(st, b)
}

// timely reports whether st knows that the object's times were checked.
func (m *markModel) timely(x *Exec, st *State, obj *Term, t types.Type) bool {
	iat, exp := m.c.Sel(obj, t, "IssuedAt"), m.c.Sel(obj, t, "ExpiresAt")
	for f, v := range st.facts {
		if v && f.op == OpIsNil && f.args[0].op == OpCall && f.args[0].str == "unixtime.VerifyTime" {
			a := f.args[0].args
			if (a[0] == iat || x.content(st, a[0]) == x.content(st, iat)) && (a[1] == exp || x.content(st, a[1]) == x.content(st, exp)) {
				return true
			}
		}
	}
	return false
}

// delegated decides that the mark carries a delegation of the owner.
func (m *markModel) delegated(x *Exec, st *State, tm, owner *Term) string {
	c, T := m.c, m.c.T
	dc := m.call("oidfed.TrustMark.Delegation", tm)
	d := T.mk(OpRes, "", 0, nil, types.NewPointer(m.del), dc)
	switch {
	case !x.Proves(st, T.IsNil(m.errOf(dc, 1)), true):
		return "the delegation was not successfully parsed"
	case !x.Proves(st, T.IsNil(d), false):
		return "a mark without delegation is accepted"
	case !x.Same(st, c.Sel(d, m.del, "TrustMarkType"), c.Sel(tm, m.mark, "TrustMarkType")):
		return "the delegation need not be for the type of the mark"
	case !x.Same(st, c.Sel(d, m.del, "Subject"), c.Sel(tm, m.mark, "Issuer")):
		return "the delegation need not be for the issuer of the mark"
	case !x.Same(st, c.Sel(d, m.del, "Issuer"), c.Sel(owner, m.owner, "ID")):
		return "the delegation need not be issued by the owner"
	case !m.timely(x, st, d, m.del):
		return "the times of the delegation are not checked"
	case !m.verified(x, st, c.Sel(d, m.del, "jwtMsg"), c.Sel(owner, m.owner, "JWKS")):
		return "the delegation is not verified with the owner's keys"
	}
	return ""
}

// issuerKeys decides that keys are those of the issuer of the mark within the anchor's federation.
func (m *markModel) issuerKeys(x *Exec, st *State, tm, ta, keys *Term) string {
	c, T := m.c, m.c.T
	iss, taID := c.Sel(tm, m.mark, "Issuer"), c.Sel(ta, m.ta, "Subject")
	if x.Same(st, keys, c.Sel(ta, m.ta, "JWKS")) {
		if x.Same(st, iss, taID) {
			return ""
		}
		return "the anchor's keys are used for another issuer"
	}
	if x.Proves(st, T.Eq(iss, taID), true) {
		// the anchor's own statement is what the caller trusts
		return "the keys for a mark of the anchor are not those in its statement"
	}
	src := keys
	if src.op == OpSel {
		src = src.args[0]
	}
	for src.op == OpSel {
		src = src.args[0]
	}
	sc := src
	if src.op == OpRes {
		sc = src.args[0]
	}
	if sc.op != OpCall || (sc.str != "oidfed.ParseEntityStatement" && sc.str != "oidfed.GetEntityConfiguration") || keys != c.Sel(src, m.stmt, "JWKS") {
		return fmt.Sprintf("the keys come from %v", keys)
	}
	if !x.Proves(st, T.IsNil(m.errOf(sc, 1)), true) {
		return "the statement with the keys was not successfully obtained"
	}
	// the resolution
	resolved := ""
	for f, v := range st.facts {
		if !v || f.op != OpIsNil || f.args[0].op != OpRes || f.args[0].args[0].op != OpCall {
			continue
		}
		rc := f.args[0].args[0]
		for _, a := range rc.args {
			a = x.content(st, unMk(a))
			if structOf(a.typ) == nil && a.op != OpSnap && a.op != OpZero {
				continue
			}
			if a.typ != nil && structOf(a.typ) != structOf(m.req) && a.op != OpSnap {
				continue
			}
			sub, tas := c.Sel(a, m.req, "Subject"), c.Sel(a, m.req, "TrustAnchor")
			if !x.Same(st, sub, iss) {
				continue
			}
			n, ok := constInt(T.Len(tas))
			if !ok || n != 1 || !x.Same(st, T.Elem(tas, T.Int(0)), taID) {
				resolved = "the issuer is resolved with other trust anchors"
				continue
			}
			if sc.str == "oidfed.ParseEntityStatement" {
				if !sc.args[0].contains(T.mk(OpRes, "", 0, nil, nil, rc)) || !sc.args[0].contains1(func(u *Term) bool {
					return u.op == OpElem && u.args[1].isConst("0")
				}) {
					resolved = "the keys are not taken from the first statement of the resolved chain"
					continue
				}
				return ""
			}
			if !x.Same(st, sc.args[0], iss) {
				return "the keys come from the configuration of another entity"
			}
			return ""
		}
	}
	if resolved == "" {
		resolved = "the issuer is not known to be a member of the anchor's federation"
	}
	return resolved
}

// issuerList reports whether t is the list of issuers an anchor names for a type.
func (m *markModel) issuerList(t *Term) bool {
	return t.op == OpElem && t.args[0].op == OpSel && t.args[0].obj.(*types.Var).Name() == "TrustMarkIssuers"
}

// good decides every condition of acceptance favourably.
func (m *markModel) good(x *Exec, st *State, a *Term) (bool, bool) {
	switch a.op {
	case OpIsNil:
		u := a.args[0]
		if u.op == OpCall && u.str == "unixtime.VerifyTime" {
			return true, true
		}
		if u.op == OpRes {
			k := u.args[0]
			if k.op != OpCall {
				return false, false
			}
			last := u.num > 0
			switch {
			case k.str == vws && u.num == 1:
				return true, true
			case k.str == "oidfed.TrustMark.Delegation", k.str == "oidfed.GetEntityConfiguration", k.str == "oidfed.ParseEntityStatement", k.str == "oidfed.TrustMarkInfo.TrustMark":
				return last, true
			}
			if u.typ != nil && types.Identical(u.typ, types.Universe.Lookup("error").Type()) {
				return true, true
			}
		}
	case OpExists:
		return true, true
	case OpEq:
		isLen := func(t *Term) bool { return t.op == OpCall && strings.HasSuffix(t.str, ".Len") }
		if isLen(a.args[0]) || isLen(a.args[1]) {
			return false, true
		}
		dc := func(t *Term) bool {
			return t.contains1(func(u *Term) bool {
				return u.op == OpCall && (u.str == "oidfed.TrustMark.Delegation" || u.str == "oidfed.TrustMarkInfo.TrustMark")
			})
		}
		if dc(a.args[0]) || dc(a.args[1]) {
			return true, true
		}
		// a loop in search of the issuer finds it
		for i := 0; i < 2; i++ {
			if a.args[i].op == OpElem && m.issuerList(a.args[i].args[0]) {
				return true, true
			}
		}
	case OpLt:
		if n := a.args[1]; n.op == OpLen && m.issuerList(n.args[0]) {
			return true, true
		}
		if a.contains1(func(u *Term) bool { return u.op == OpCall && strings.HasSuffix(u.str, ".Len") }) {
			return a.args[0].isConst("0"), true
		}
	}
	return false, false
}

func (m *markModel) runFed(fn *ssa.Function, decide bool) (*Exec, []*Term, []Outcome) {
	c := m.c
	h := m.hooks()
	if decide {
		h.Decide = m.good
	}
	x := NewExec(c.P, c.T, h)
	args, outs := x.RunEntry(fn)
	c.Done(x, c.P.fnName(fn))
	return x, args, outs
}

func runMarkFederation(c *C) {
	m := newMarkModel(c)
	if m == nil {
		return
	}
	c.timeCheck()
	T := c.T
	fn := c.Fn("", "TrustMark.VerifyFederation")
	if fn == nil {
		return
	}
	x, args, outs := m.runFed(fn, false)
	tm, ta := args[0], args[1]
	typ, iss := c.Sel(tm, m.mark, "TrustMarkType"), c.Sel(tm, m.mark, "Issuer")
	issuers, owners := c.Sel(ta, m.ta, "TrustMarkIssuers"), c.Sel(ta, m.ta, "TrustMarkOwners")
	list := T.Elem(issuers, typ)
	n := map[string]int{}
	for _, o := range outs {
		if o.panic {
			continue
		}
		c.Paths++
		sts := []*State{o.st}
		if _, known := isErrTerm(x, o.st, o.res); !known {
			sts = nil
			if s := o.st.clone(); x.assume(s, T.IsNil(o.res), true) {
				sts = []*State{s}
			}
		}
		for _, st := range sts {
			if isErr, _ := isErrTerm(x, st, o.res); isErr {
				continue
			}
			p := c.Path(st)
			listed := !x.Proves(st, T.IsNil(issuers), true) && !x.Proves(st, T.Has(issuers, typ), false)
			if listed {
				n["listed"]++
			} else {
				n["unlisted"]++
			}
			c.Ob("federation:issuer", fn.Pos(), !listed || m.member(x, st, iss, list), "accepted although the anchor names issuers for the type and the issuer is not known to be one of them%s", p)
			c.Ob("federation:time", fn.Pos(), m.timely(x, st, tm, m.mark), "accepted without checking the times of the mark%s", p)
			// signature
			why := "accepted without verifying the signature of the mark"
			for f, v := range st.facts {
				if k := (*Term)(nil); v && f.op == OpIsNil {
					if k = resultOf(f.args[0], vws, 1); k == nil || !m.sameMsg(x, st, k.args[0], c.Sel(tm, m.mark, "jwtMsg")) {
						continue
					}
					why = m.issuerKeys(x, st, tm, ta, k.args[1])
					if why == "" {
						break
					}
				}
			}
			c.Ob("federation:keys", fn.Pos(), why == "", "%s%s", why, p)
			if x.Same(st, iss, c.Sel(ta, m.ta, "Subject")) {
				n["anchor"]++
			} else {
				n["resolved"]++
			}
			if x.Proves(st, T.IsNil(owners), true) || x.Proves(st, T.Has(owners, typ), false) {
				n["unowned"]++
				continue
			}
			n["owned"]++
			why = m.delegated(x, st, tm, T.Elem(owners, typ))
			c.Ob("federation:delegation", fn.Pos(), why == "", "the anchor names an owner for the type, but %s%s", why, p)
		}
	}
	for _, k := range []string{"listed", "unlisted", "anchor", "resolved", "owned", "unowned"} {
		c.Ob("federation:possible:"+k, fn.Pos(), n[k] > 0, "no mark is accepted in the case %q", k)
	}
	x, _, outs = m.runFed(fn, true)
	for _, o := range outs {
		if o.panic {
			continue
		}
		c.Paths++
		c.Ob("federation:accepts", fn.Pos(), x.Proves(o.st, T.IsNil(o.res), true), "a mark that meets every condition is refused%s", c.Path(o.st))
	}
	c.Ob("federation:accepts", fn.Pos(), len(outs) > 0, "no outcome")
}

// member reports whether st knows that v is an element of list.
func (m *markModel) member(x *Exec, st *State, v, list *Term) bool {
	T := m.c.T
	if x.Proves(st, T.In(v, list), true) {
		return true
	}
	for f, val := range st.facts {
		if !val {
			continue
		}
		if f.op == OpEq {
			for i := 0; i < 2; i++ {
				if f.args[i].op == OpElem && f.args[i].args[0] == list && x.Same(st, f.args[1-i], v) {
					return true
				}
			}
		}
	}
	return false
}

func runMarkExternal(c *C) {
	m := newMarkModel(c)
	if m == nil {
		return
	}
	c.timeCheck()
	T := c.T
	fn := c.Fn("", "TrustMark.VerifyExternal")
	for n := 0; fn != nil && n <= 1; n++ {
		for _, decide := range []bool{false, true} {
			h := m.hooks()
			if decide {
				h.Decide = m.good
			}
			x := NewExec(c.P, T, h)
			tm, keys := x.Param("recv", fn.Params[0].Type()), x.Param("1:keys", fn.Params[1].Type())
			owners := c.arr("owners", n)
			if n == 0 {
				owners = T.Nil()
			}
			outs := x.Run(fn, []*Term{tm, keys, owners}, NewState())
			c.Done(x, fmt.Sprintf("TrustMark.VerifyExternal[%d owners]", n))
			good := 0
			for _, o := range outs {
				if o.panic {
					continue
				}
				c.Paths++
				isErr, known := isErrTerm(x, o.st, o.res)
				if decide {
					c.Ob(fmt.Sprintf("external:accepts:%d", n), fn.Pos(), known && !isErr, "a mark that meets every condition is refused%s", c.Path(o.st))
				}
				st := o.st
				if !known {
					st = st.clone()
					if !x.assume(st, T.IsNil(o.res), true) {
						continue
					}
				} else if isErr {
					continue
				}
				good++
				if decide {
					continue
				}
				p := c.Path(st)
				c.Ob("external:time", fn.Pos(), m.timely(x, st, tm, m.mark), "accepted without checking the times of the mark%s", p)
				c.Ob("external:signature", fn.Pos(), m.verified(x, st, c.Sel(tm, m.mark, "jwtMsg"), keys), "accepted without verifying the signature with the given keys%s", p)
				if n == 1 {
					why := m.delegated(x, st, tm, T.Elem(owners, T.Int(0)))
					c.Ob("external:delegation", fn.Pos(), why == "", "an owner is given, but %s%s", why, p)
				}
			}
			c.Ob(fmt.Sprintf("external:possible:%d", n), fn.Pos(), good > 0, "nothing is accepted")
		}
	}
	for _, name := range []string{"DelegationJWT.VerifyExternal", "DelegationJWT.VerifyFederation"} {
		fn := c.Fn("", name)
		if fn == nil {
			continue
		}
		for _, decide := range []bool{false, true} {
			h := m.hooks()
			if decide {
				h.Decide = func(x *Exec, st *State, a *Term) (bool, bool) {
					if a.op == OpHas {
						return true, true
					}
					return m.good(x, st, a)
				}
			}
			x := NewExec(c.P, T, h)
			args, outs := x.RunEntry(fn)
			c.Done(x, name)
			d := args[0]
			good := 0
			for _, o := range outs {
				if o.panic {
					continue
				}
				c.Paths++
				isErr, known := isErrTerm(x, o.st, o.res)
				if decide {
					c.Ob("delegation:accepts:"+name, fn.Pos(), known && !isErr, "a delegation that meets every condition is refused%s", c.Path(o.st))
				}
				st := o.st
				if !known {
					st = st.clone()
					if !x.assume(st, T.IsNil(o.res), true) {
						continue
					}
				} else if isErr {
					continue
				}
				good++
				if decide {
					continue
				}
				p := c.Path(st)
				keys := args[1]
				if strings.HasSuffix(name, "Federation") {
					typ := c.Sel(d, m.del, "TrustMarkType")
					owners := c.Sel(args[1], m.ta, "TrustMarkOwners")
					keys = c.Sel(T.Elem(owners, typ), m.owner, "JWKS")
					c.Ob("delegation:owner:"+name, fn.Pos(), x.Proves(st, T.Has(owners, typ), true), "accepted although the anchor names no owner for the type%s", p)
				}
				c.Ob("delegation:time:"+name, fn.Pos(), m.timely(x, st, d, m.del), "accepted without checking the times%s", p)
				c.Ob("delegation:signature:"+name, fn.Pos(), m.verified(x, st, c.Sel(d, m.del, "jwtMsg"), keys), "accepted without verifying the signature with the owner's keys%s", p)
			}
			c.Ob("delegation:possible:"+name, fn.Pos(), good > 0, "nothing is accepted")
		}
	}
}

// runMarkInfos decides C21.
func runMarkInfos(c *C) {
	m := newMarkModel(c)
	if m == nil {
		return
	}
	T := c.T
	tmf := "oidfed.TrustMarkInfo.TrustMark"
	// one trust mark info
	for _, name := range []string{"VerifyFederation", "VerifyExternal"} {
		fn := c.Fn("", "TrustMarkInfo."+name)
		if fn == nil {
			continue
		}
		inner := "oidfed.TrustMark." + name
		for _, decide := range []bool{false, true} {
			h := &Hooks{Forward: true, Pin: func(g *Term) bool { return g.op == OpCall }}
			h.Opaque = func(f *ssa.Function, n string) bool { return n == inner || n == tmf }
			h.Pure = func(n string) bool { return n == inner || n == tmf }
			if decide {
				h.Decide = func(x *Exec, st *State, a *Term) (bool, bool) {
					if a.op == OpIsNil && a.args[0].op == OpCall && a.args[0].str == inner {
						return true, true
					}
					return m.good(x, st, a)
				}
			}
			x := NewExec(c.P, T, h)
			args, outs := x.RunEntry(fn)
			c.Done(x, "TrustMarkInfo."+name)
			call := m.call(tmf, args[0])
			mark := T.mk(OpRes, "", 0, nil, types.NewPointer(m.mark), call)
			good := 0
			for _, o := range outs {
				if o.panic {
					continue
				}
				c.Paths++
				isErr, known := isErrTerm(x, o.st, o.res)
				if decide {
					c.Ob("info:accepts:"+name, fn.Pos(), known && !isErr, "a trust mark that verifies is refused%s", c.Path(o.st))
				}
				st := o.st
				if !known {
					st = st.clone()
					if !x.assume(st, T.IsNil(o.res), true) {
						continue
					}
				} else if isErr {
					continue
				}
				good++
				if decide {
					continue
				}
				p := c.Path(st)
				c.Ob("info:parsed:"+name, fn.Pos(), x.Proves(st, T.IsNil(m.errOf(call, 1)), true), "accepted although the trust mark could not be parsed%s", p)
				c.Ob("info:type:"+name, fn.Pos(), x.Same(st, c.Sel(mark, m.mark, "TrustMarkType"), c.Sel(args[0], m.info, "TrustMarkType")), "accepted although the type beside the JWT may differ from the type in it%s", p)
				ok := false
				for f, v := range st.facts {
					if v && f.op == OpIsNil && f.args[0].op == OpCall && f.args[0].str == inner {
						a := f.args[0].args
						same := len(a) == len(args)
						for i := 1; same && i < len(a); i++ {
							same = a[i] == args[i]
						}
						if same && x.content(st, a[0]) == x.content(st, mark) {
							ok = true
						}
					}
				}
				c.Ob("info:verified:"+name, fn.Pos(), ok, "accepted without the trust mark being verified with what was given%s", p)
			}
			c.Ob("info:possible:"+name, fn.Pos(), good > 0, "nothing is accepted")
		}
		m.filters(name, inner)
	}
	m.parsed(tmf)
	m.reported()
}

// filters: the Verified… methods keep exactly the trust marks that verify, in order.
func (m *markModel) filters(name, inner string) {
	c, T := m.c, m.c.T
	fn := c.Fn("", "TrustMarkInfos."+strings.Replace(name, "Verify", "Verified", 1))
	if fn == nil {
		return
	}
	one := "oidfed.TrustMarkInfo." + name
	for pat := 0; pat < 8; pat++ {
		list := c.arr("marks", 3)
		h := &Hooks{Forward: true, Exact: true, Pin: func(g *Term) bool { return g.op == OpCall }}
		h.Opaque = func(f *ssa.Function, n string) bool { return n == one }
		h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
			if ev.Name != one {
				return nil, false
			}
			v := x.content(st, ev.Args[0])
			for i := 0; i < 3; i++ {
				if v == T.Elem(list, T.Int(i)) || ev.Addrs[0] == T.Elem(list, T.Int(i)) {
					if pat>>i&1 == 1 {
						for j := 1; j < len(fn.Params); j++ {
							if ev.Args[j] != x.Param(fmt.Sprintf("%d:%s", j, fn.Params[j].Name()), fn.Params[j].Type()) {
								c.Ob("filter:"+name, ev.Instr.Pos(), false, "trust marks are verified with %v", ev.Args[j])
							}
						}
						return []Outcome{{st: st, res: T.Nil()}}, true
					}
					return []Outcome{{st: st, res: T.mk(OpCall, "#error", 0, nil, nil, T.Int(i))}}, true
				}
			}
			return nil, false
		}
		h.Decide = func(x *Exec, st *State, a *Term) (bool, bool) {
			if a.op == OpIsNil && a.args[0].op == OpCall && a.args[0].str == "#error" {
				return false, true
			}
			return false, false
		}
		x := NewExec(c.P, T, h)
		args := []*Term{list}
		for j := 1; j < len(fn.Params); j++ {
			args = append(args, x.Param(fmt.Sprintf("%d:%s", j, fn.Params[j].Name()), fn.Params[j].Type()))
		}
		outs := x.Run(fn, args, NewState())
		c.Done(x, "filter "+name)
		for _, o := range outs {
			if o.panic {
				continue
			}
			c.Paths++
			l, ok := x.listOf(o.st, o.res)
			var want []*Term
			for i := 0; i < 3; i++ {
				if pat>>i&1 == 1 {
					want = append(want, T.Elem(list, T.Int(i)))
				}
			}
			if o.res.isNilConst() {
				l, ok = nil, true
			}
			ok = ok && len(l) == len(want)
			for i := 0; ok && i < len(l); i++ {
				ok = sameMark(c, m, x, o.st, l[i], want[i])
			}
			c.Ob("filter:"+name, fn.Pos(), ok, "of three trust marks of which %03b (bits from the last) verify, %v are returned", pat, o.res)
		}
		c.Ob("filter:"+name, fn.Pos(), len(outs) > 0, "no outcome")
	}
}

// sameMark compares trust mark infos by their claims (the parsed form may have been added).
func sameMark(c *C, m *markModel, x *Exec, st *State, a, b *Term) bool {
	a, b = x.content(st, a), x.content(st, b)
	if a == b {
		return true
	}
	for _, f := range []string{"TrustMarkType", "TrustMarkJWT", "Extra"} {
		if c.Sel(a, m.info, f) != c.Sel(b, m.info, f) {
			return false
		}
	}
	return true
}

// parsed: TrustMark() is the parsed form of the JWT that is shown.
func (m *markModel) parsed(tmf string) {
	c, T := m.c, m.c.T
	fn := c.Fn("", "TrustMarkInfo.TrustMark")
	if fn == nil {
		return
	}
	const pt = "oidfed.ParseTrustMark"
	h := &Hooks{Forward: true, Pin: func(g *Term) bool { return g.op == OpCall }}
	h.Opaque = func(f *ssa.Function, n string) bool { return n == pt }
	h.Pure = func(n string) bool { return n == pt }
	x := NewExec(c.P, T, h)
	args, outs := x.RunEntry(fn)
	c.Done(x, tmf)
	f := c.Field(m.info, "trustmark")
	cached := T.SelVar(args[0], f)
	n := 0
	for _, o := range outs {
		if o.panic {
			continue
		}
		c.Paths++
		v, err := c.resOf(o, 0), c.resOf(o, 1)
		if x.Proves(o.st, T.IsNil(err), false) {
			continue
		}
		if v == cached {
			c.Ob("parse:cached", fn.Pos(), x.Proves(o.st, T.IsNil(c.Sel(cached, m.mark, "jwtMsg")), false), "a trust mark that was not parsed from a JWT (and cannot be verified) is taken for the parsed one%s", c.Path(o.st))
			continue
		}
		k := resultOf(v, pt, 0)
		n++
		c.Ob("parse:jwt", fn.Pos(), k != nil && x.Same(o.st, k.args[0], c.Sel(args[0], m.info, "TrustMarkJWT")), "the trust mark is %v instead of the parsed JWT%s", v, c.Path(o.st))
	}
	c.Anchor("outcome of TrustMarkInfo.TrustMark that parses", n > 0)
}

// reported: a resolve response reports only verified trust marks about the entity.
func (m *markModel) reported() {
	c, T := m.c, m.c.T
	fn := c.Fn("", "LocalMetadataResolver.ResolveResponsePayload")
	chainT := c.P.Named("", "TrustChain")
	resT := c.P.Named("", "ResolveResponsePayload")
	if fn == nil || !c.Anchor("types of resolve responses", chainT != nil && resT != nil) {
		return
	}
	marksF := c.Field(m.ta, "TrustMarks")
	const one, tmf = "oidfed.TrustMarkInfo.VerifyFederation", "oidfed.TrustMarkInfo.TrustMark"
	for pat := 0; pat < 16; pat++ {
		list, chain := c.arr("marks", 2), c.arr("chain", 2)
		leaf, top := T.Elem(chain, T.Int(0)), T.Elem(chain, T.Int(1))
		which := func(x *Exec, st *State, v *Term) int {
			for i := 0; i < 2; i++ {
				e := T.Elem(list, T.Int(i))
				if v == e || x.content(st, v) == e || sameMark(c, m, x, st, v, e) {
					return i
				}
			}
			return -1
		}
		about := func(i int) bool { return pat>>i&1 == 1 }
		valid := func(i int) bool { return pat>>(2+i)&1 == 1 }
		h := &Hooks{Forward: true, Exact: true, Pin: func(g *Term) bool { return g.op == OpCall }}
		h.Opaque = func(f *ssa.Function, n string) bool {
			if n == one || n == tmf {
				return true
			}
			for i := 0; f != fn && m.resolves(f.Signature) && i < f.Signature.Results().Len(); i++ {
				if types.Identical(f.Signature.Results().At(i).Type(), chainT) {
					return true
				}
			}
			return false
		}
		h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
			sig := ev.Instr.Common().Signature()
			if m.resolves(sig) && sig.Results().Len() >= 2 {
				var rs []*Term
				res := T.mk(OpCall, "#resolved", 0, nil, nil)
				hasChain := false
				for i := 0; i < sig.Results().Len(); i++ {
					t := sig.Results().At(i).Type()
					switch {
					case types.Identical(t, chainT):
						rs = append(rs, chain)
						hasChain = true
					case types.Identical(t, types.Universe.Lookup("error").Type()):
						rs = append(rs, T.Nil())
					default:
						rs = append(rs, res)
					}
				}
				if hasChain {
					return []Outcome{{st: st, res: T.mk(OpTuple, "", 0, nil, nil, rs...)}}, true
				}
			}
			switch ev.Name {
			case one:
				i := which(x, st, ev.Args[0])
				if i < 0 {
					return nil, false
				}
				taOK := x.content(st, ev.Args[1]) == x.content(st, T.mk(OpSel, "", 0, c.Field(m.stmt, "EntityStatementPayload"), c.Field(m.stmt, "EntityStatementPayload").Type(), top)) || ev.Args[1].contains(top)
				c.Ob("report:anchor", ev.Instr.Pos(), taOK, "trust marks are verified against %v instead of the anchor of the chain", ev.Args[1])
				if valid(i) {
					return []Outcome{{st: st, res: T.Nil()}}, true
				}
				return []Outcome{{st: st, res: T.mk(OpCall, "#error", 0, nil, nil, T.Int(i))}}, true
			case tmf:
				i := which(x, st, ev.Args[0])
				if i < 0 {
					return nil, false
				}
				mk := T.mk(OpCall, "#mark", 0, nil, types.NewPointer(m.mark), T.Int(i))
				return []Outcome{{st: st, res: T.mk(OpTuple, "", 0, nil, nil, mk, T.Nil())}}, true
			}
			return nil, false
		}
		h.Decide = func(x *Exec, st *State, a *Term) (bool, bool) {
			if a.op == OpIsNil {
				switch u := a.args[0]; {
				case u.op == OpCall && u.str == "#error":
					return false, true
				case u.op == OpCall && u.str == "#mark":
					return false, true
				}
			}
			if a.op == OpEq {
				for i := 0; i < 2; i++ {
					s := c.Sel(T.mk(OpCall, "#mark", 0, nil, nil, T.Int(i)), m.mark, "Subject")
					for j := 0; j < 2; j++ {
						if a.args[j] == s {
							o := a.args[1-j]
							ent := o == c.Sel(leaf, m.stmt, "Subject") || o == c.Sel(leaf, m.stmt, "Issuer") || o.op == OpSel && o.obj.(*types.Var).Name() == "Subject" && o.args[0].op == OpParam
							c.Ob("report:subject", fn.Pos(), ent, "the subject of trust marks is compared with %v", o)
							return about(i), true
						}
					}
				}
			}
			return false, false
		}
		x := NewExec(c.P, T, h)
		st := NewState()
		st.mem[T.mk(OpSel, "", 0, marksF, marksF.Type(), T.mk(OpSel, "", 0, c.Field(m.stmt, "EntityStatementPayload"), c.Field(m.stmt, "EntityStatementPayload").Type(), leaf))] = list
		args := []*Term{}
		for i, p := range fn.Params {
			args = append(args, x.Param(fmt.Sprintf("%d:%s", i, p.Name()), p.Type()))
		}
		outs := x.Run(fn, args, st)
		c.Done(x, "resolve response")
		n := 0
		for _, o := range outs {
			if o.panic {
				continue
			}
			if isErr, known := isErrTerm(x, o.st, c.resOf(o, 1)); known && isErr {
				continue
			}
			c.Paths++
			n++
			v := c.Sel(x.content(o.st, c.resOf(o, 0)), resT, "TrustMarks")
			l, ok := x.listOf(o.st, v)
			if v.isNilConst() {
				l, ok = nil, true
			}
			want := 0
			for i := 0; i < 2; i++ {
				if !about(i) || !valid(i) {
					continue
				}
				ok = ok && want < len(l) && sameMark(c, m, x, o.st, l[want], T.Elem(list, T.Int(i)))
				want++
			}
			ok = ok && want == len(l)
			c.Ob("report:marks", fn.Pos(), ok, "of two trust marks (about the entity: %v %v, valid: %v %v) %v are reported%s", about(0), about(1), valid(0), valid(1), v, c.Path(o.st))
		}
		c.Ob("report:possible", fn.Pos(), n > 0, "no response")
	}
}

func init() {
	register(&Check{
		ID: "C19", Title: "Trust marks count only if issuer and owner are accepted by the trust anchor", Min: 10,
		Technique: "path-sensitive abstract interpretation of the verification against a trust anchor",
		Rule:      "every path of TrustMark.VerifyFederation without error has established: the anchor names no issuers for the type or names this one; the times hold; the signature verifies with the anchor's own keys (if it is the issuer) or with the keys of the issuer's statement, obtained after the issuer was resolved to this very anchor; if the anchor names an owner, a delegation for this type and issuer by this owner, in time, verified with the owner's keys. With all conditions met no path fails",
		Assume:    []string{"a resolver answers without error only for members of the federation (C01-C06)"},
		Run:       runMarkFederation,
	})
	register(&Check{
		ID: "C20", Title: "Verification of trust marks and delegations with given keys is complete", Min: 12,
		Technique: "path-sensitive abstract interpretation",
		Rule:      "every path of VerifyExternal (with and without owner) and of the verification of delegations without error has established time, signature with the given keys, and for a given owner the complete delegation; with all conditions met no path fails",
		Run:       runMarkExternal,
	})
	register(&Check{
		ID: "C21", Title: "Only verified trust marks about the entity are reported", Min: 12,
		Technique: "path-sensitive abstract interpretation; enumeration of verification patterns",
		Rule:      "TrustMarkInfo verification establishes that the JWT parses, has the type shown beside it and verifies; the filters keep exactly the marks that verify, in order; TrustMark() is the parsed JWT; a resolve response reports exactly the marks about the entity that verify against the chain's anchor",
		Run:       runMarkInfos,
	})
}
