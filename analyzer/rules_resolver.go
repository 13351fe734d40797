package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// resolverModel describes metadata resolvers that use the resolve endpoints of other entities.
type resolverModel struct {
	c                          *C
	req, stmt, payload, simple *types.Named
	parsed, cfg                types.Type
	resp, herr                 types.Type
	codes                      []string
	calls                      map[string]*Term // url or entity of recorded calls
}

func newResolverModel(c *C) *resolverModel {
	m := &resolverModel{c: c, calls: map[string]*Term{}}
	m.req, m.stmt, m.payload, m.simple = c.P.Named("apimodel", "ResolveRequest"), c.P.Named("", "EntityStatement"), c.P.Named("", "ResolveResponsePayload"), c.P.Named("", "SimpleRemoteMetadataResolver")
	get, parse := c.Fn("internal/http", "Get"), c.Fn("", "ParseResolveResponse")
	cfg := c.Fn("", "GetEntityConfiguration")
	if !c.Anchor("resolver types", m.req != nil && m.stmt != nil && m.payload != nil && m.simple != nil && get != nil && parse != nil && cfg != nil) {
		return nil
	}
	m.resp, m.herr = get.Signature.Results().At(0).Type(), get.Signature.Results().At(1).Type()
	m.parsed, m.cfg = parse.Signature.Results().At(0).Type(), cfg.Signature.Results().At(0).Type()
	return m
}

// remember gives a term a name for the log of a path.
func (m *resolverModel) remember(t *Term) string {
	for k, v := range m.calls {
		if v == t {
			return k
		}
	}
	k := fmt.Sprintf("%d", len(m.calls))
	m.calls[k] = t
	return k
}

// hooks model the request, the parser and the entity configurations.
func (m *resolverModel) hooks(req *Term) *Hooks {
	c, T := m.c, m.c.T
	errT := types.Universe.Lookup("error").Type()
	h := &Hooks{Forward: true, Pin: func(g *Term) bool { return g.op == OpCall }}
	h.Opaque = func(f *ssa.Function, n string) bool {
		return strings.HasPrefix(n, "oidfed.LocalMetadataResolver.")
	}
	h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
		var outs []Outcome
		add := func(event string, rs []*Term, facts ...*Term) {
			s := st.clone()
			s.aux["#log"] += event + ";"
			for _, f := range facts {
				if f.op == OpNot {
					s.facts[f.args[0]] = false
				} else {
					s.facts[f] = true
				}
			}
			outs = append(outs, Outcome{st: s, res: T.mk(OpTuple, "", 0, nil, nil, rs...)})
		}
		set := func(t *Term) *Term { return T.mk(OpNot, "", 0, nil, nil, T.IsNil(t)) }
		newErr := func(what string) *Term {
			return T.mk(OpCall, "#failed:"+what, 0, nil, errT)
		}
		if strings.HasSuffix(ev.Name, "/query.Values") {
			e := newErr("params")
			add("params:err", []*Term{T.Nil(), e}, set(e))
			add("params:ok", []*Term{T.mk(OpCall, "#params", 0, nil, nil, unIface(ev.Args[0])), T.Nil()})
			return outs, true
		}
		switch ev.Name {
		case "internal/http.Get":
			url := ev.Args[0]
			k := m.remember(url)
			par := ev.Args[1]
			ok := par.op == OpCall && par.str == "#params"
			if ok {
				a := par.args[0]
				ok = a == req || x.Same(st, a, req) || x.content(st, a) == req || a.op == OpSnap && a.args[0] == req
			}
			c.Ob("resolve:request", ev.Instr.Pos(), ok, "the parameters of the resolve request are %v", par)
			e := newErr("transport")
			add("get:"+k+":transport", []*Term{T.Nil(), T.Nil(), e}, set(e))
			for _, code := range m.codes {
				he := T.mk(OpCall, "#errres:"+code, 0, nil, m.herr)
				n := len(outs)
				add("get:"+k+":"+code, []*Term{T.Nil(), he, T.Nil()}, set(he))
				outs[n].st.mem[c.fieldOf(he, "Error")] = strConst(c, code)
			}
			r := T.mk(OpCall, "#resp", 0, nil, m.resp, url)
			add("get:"+k+":ok", []*Term{r, T.Nil(), T.Nil()}, set(r))
			return outs, true
		case "oidfed.ParseResolveResponse":
			body := ev.Args[0]
			log := strings.Split(strings.TrimSuffix(st.aux["#log"], ";"), ";")
			last := log[len(log)-1]
			var url *Term
			if f := strings.Split(last, ":"); f[0] == "get" {
				url = m.calls[f[1]]
			}
			ok := body.contains1(func(t *Term) bool {
				return t.op == OpCall && t.str == "#resp" && t.args[0] == url
			})
			c.Ob("resolve:parsed", ev.Instr.Pos(), ok, "%v is parsed", body)
			e := newErr("parse")
			add("parse:err", []*Term{T.Nil(), e}, set(e))
			r := T.mk(OpCall, "#parsed", 0, nil, m.parsed, body)
			add("parse:ok", []*Term{r, T.Nil()}, set(r))
			return outs, true
		case "oidfed.GetEntityConfiguration":
			k := m.remember(ev.Args[0])
			e := newErr("config")
			add("config:"+k+":err", []*Term{T.Nil(), e}, set(e))
			r := T.mk(OpCall, "#config", 0, nil, m.cfg, ev.Args[0])
			add("config:"+k+":ok", []*Term{r, T.Nil()})
			return outs, true
		}
		return nil, false
	}
	return h
}

// event is an entry of the log of a path.
type event struct{ kind, key, what string }

func eventsOf(st *State) (l []event) {
	for _, s := range strings.Split(st.aux["#log"], ";") {
		f := strings.SplitN(s, ":", 3)
		switch len(f) {
		case 3:
			l = append(l, event{f[0], f[1], f[2]})
		case 2:
			l = append(l, event{f[0], "", f[1]})
		}
	}
	return
}

// outcome of one resolve request: "ok", "valid" (chain but no metadata), "invalid" or "" (unknown).
func verdict(get, parse string) string {
	switch get {
	case "ok":
		if parse == "ok" {
			return "ok"
		}
	case "invalid_metadata":
		return "valid"
	case "invalid_trust_chain":
		return "invalid"
	}
	return ""
}

// requests returns the verdict of every resolve request of the path with its url.
func (m *resolverModel) requests(st *State) (urls []*Term, verdicts []string) {
	evs := eventsOf(st)
	for i, e := range evs {
		if e.kind == "params" && e.what == "err" { // nothing could be sent
			urls, verdicts = append(urls, nil), append(verdicts, "")
		}
		if e.kind != "get" {
			continue
		}
		p := ""
		if i+1 < len(evs) && evs[i+1].kind == "parse" {
			p = evs[i+1].what
		}
		if e.what == "ok" && p == "" {
			p = "none"
		}
		urls = append(urls, m.calls[e.key])
		verdicts = append(verdicts, verdict(e.what, p))
	}
	return
}

// given decides the result of a method for a verdict, or for the result of the local resolver.
func (m *resolverModel) given(x *Exec, st *State, o Outcome, method, v string, fn *ssa.Function, what string) {
	c, T := m.c, m.c.T
	p := c.Path(st)
	if method == "ResolvePossible" {
		valid, invalid := c.resOf(o, 0), c.resOf(o, 1)
		wv, wi := v == "ok" || v == "valid", v == "invalid"
		is := func(t *Term, w bool) bool { return t == T.Bool(w) || x.Proves(st, t, w) }
		c.Ob(what+":possible", fn.Pos(), is(valid, wv) && is(invalid, wi), "a resolve request with the outcome %q yields valid %v, invalid %v%s", v, valid, invalid, p)
		return
	}
	res, err := c.resOf(o, 0), c.resOf(o, 1)
	if v != "ok" {
		bad := isErr(x, st, err)
		empty := res.isNilConst() || res.op == OpZero
		c.Ob(what+":failed", fn.Pos(), bad && (empty || method == "ResolveResponsePayload" && res.op != OpSel), "a resolve request with the outcome %q yields %v, %v%s", v, res, err, p)
		return
	}
	noErr := err.isNilConst() || x.Proves(st, T.IsNil(err), true)
	var pr *Term
	find := func(t *Term) bool {
		if t.op == OpCall && t.str == "#parsed" {
			pr = t
		}
		return pr != nil
	}
	res.contains1(find)
	if !c.Ob(what+":result", fn.Pos(), noErr && pr != nil, "a successful resolve request yields %v, %v%s", res, err, p) {
		return
	}
	want := c.Sel(pr, deref(m.parsed), "ResolveResponsePayload")
	if method == "Resolve" {
		want = c.Sel(want, m.payload, "Metadata")
	}
	c.Ob(what+":result", fn.Pos(), res == want || x.Same(st, res, want) || res.op == OpSnap && res.args[0] == want, "a successful resolve request yields %v%s", res, p)
}

func runResolver(c *C) {
	m := newResolverModel(c)
	if m == nil {
		return
	}
	T := c.T
	all := []string{"invalid_request", "invalid_client", "invalid_issuer", "invalid_subject", "invalid_trust_anchor", "invalid_trust_chain", "invalid_metadata", "not_found", "server_error", "temporarily_unavailable", "unsupported_parameter", "404 Not Found", ""}
	methods := []string{"Resolve", "ResolveResponsePayload", "ResolvePossible"}
	// one given endpoint
	for _, method := range append(methods, "ResolveResponse") {
		fn := c.Fn("", "SimpleRemoteMetadataResolver."+method)
		if fn == nil {
			continue
		}
		m.codes = all
		var req *Term
		h := m.hooks(nil)
		x := NewExec(c.P, T, h)
		self := x.Param("0:r", fn.Params[0].Type())
		req = x.Param("1:req", fn.Params[1].Type())
		x.H.Model = m.hooks(req).Model
		outs := x.Run(fn, []*Term{self, req}, NewState())
		c.Done(x, "SimpleRemoteMetadataResolver."+method)
		seen := map[string]bool{}
		statuses := map[string]map[string]bool{}
		for _, o := range outs {
			if o.panic {
				continue
			}
			c.Paths++
			urls, vs := m.requests(o.st)
			p := c.Path(o.st)
			if !c.Ob("remote:once:"+method, fn.Pos(), len(urls) <= 1, "%d requests%s", len(urls), p) {
				continue
			}
			v := ""
			if len(urls) == 1 {
				v = vs[0]
				want := c.Sel(self, m.simple, "ResolveEndpoint")
				c.Ob("remote:endpoint:"+method, fn.Pos(), urls[0] == nil || x.Same(o.st, urls[0], want), "%v is requested%s", urls[0], p)
			}
			seen[v] = true
			if method != "ResolveResponse" {
				m.given(x, o.st, o, method, v, fn, "remote:"+method)
				continue
			}
			// the response itself: only with a success; its status tells the verdicts apart
			res, status, err := c.resOf(o, 0), c.resOf(o, 1), c.resOf(o, 2)
			if v == "ok" {
				noErr := err.isNilConst() || x.Proves(o.st, T.IsNil(err), true)
				c.Ob("remote:response", fn.Pos(), noErr && res.op == OpCall && res.str == "#parsed", "a successful request yields %v, %v%s", res, err, p)
			} else {
				c.Ob("remote:response", fn.Pos(), res.isNilConst(), "a request with outcome %q yields %v%s", v, res, p)
			}
			if b, dec := isErrTerm(x, o.st, err); dec && b {
				continue
			}
			if statuses[v] == nil {
				statuses[v] = map[string]bool{}
			}
			statuses[v][status.String()] = true
		}
		for v, s := range statuses {
			for w, s2 := range statuses {
				if v < w {
					for k := range s {
						c.Ob("remote:status", fn.Pos(), !s2[k], "outcomes %q and %q have the status %s", v, w, k)
					}
				}
			}
		}
		for _, v := range []string{"ok", "valid", "invalid", ""} {
			c.Ob("remote:reached:"+method, fn.Pos(), seen[v], "no outcome %q", v)
		}
	}
	// the endpoints of the trust anchors
	for _, method := range methods {
		fn := c.Fn("", "SmartRemoteMetadataResolver."+method)
		if fn == nil {
			continue
		}
		m.codes = []string{"invalid_subject", "invalid_trust_chain", "invalid_metadata", "not_found"}
		for n := 0; n <= 2; n++ {
			x := NewExec(c.P, T, m.hooks(nil))
			st := NewState()
			self := x.Param("0:r", fn.Params[0].Type())
			p0 := x.Param("1:req", fn.Params[1].Type())
			var anchors []*Term
			for i := 0; i < n; i++ {
				anchors = append(anchors, T.mk(OpCall, fmt.Sprintf("#anchor%d", i), 0, nil, types.Typ[types.String]))
			}
			tf := c.Field(m.req, "TrustAnchor")
			req := T.Snap(p0, []*Term{T.mk(OpSel, "", 0, tf, tf.Type(), T.snapBase(nil)), c.listIn(st, "anchors", anchors)})
			x.H.Model = m.hooks(req).Model
			outs := x.Run(fn, []*Term{self, req}, st)
			c.Done(x, fmt.Sprintf("SmartRemoteMetadataResolver.%s[%d]", method, n))
			reached := map[string]bool{}
			for _, o := range outs {
				if o.panic {
					continue
				}
				c.Paths++
				m.smart(x, o, req, anchors, method, fn, reached)
			}
			want := []string{"local"}
			for i := 0; i < n; i++ {
				want = append(want, fmt.Sprintf("remote%d", i))
			}
			for _, k := range want {
				c.Ob("smart:reached:"+method, fn.Pos(), reached[k], "no path with %d anchors is answered by %s", n, k)
			}
		}
	}
}

// smart decides one path of a resolver that asks all anchors in turn.
func (m *resolverModel) smart(x *Exec, o Outcome, req *Term, anchors []*Term, method string, fn *ssa.Function, reached map[string]bool) {
	c, T := m.c, m.c.T
	st := o.st
	p := c.Path(st)
	urls, vs := m.requests(st)
	cfgs := map[*Term]string{}
	for _, e := range eventsOf(st) {
		if e.kind == "config" {
			cfgs[m.calls[e.key]] = e.what
		}
	}
	j := 0
	for i, a := range anchors {
		what := cfgs[a]
		if !c.Ob("smart:config:"+method, fn.Pos(), what != "", "the configuration of anchor %d is not obtained%s", i, p) {
			return
		}
		if what == "err" {
			continue
		}
		cfg := T.mk(OpCall, "#config", 0, nil, m.cfg, a)
		md := c.Sel(cfg, m.stmt, "EntityStatementPayload.Metadata")
		fe := c.Sel(md, c.P.Named("", "Metadata"), "FederationEntity")
		ep := c.Sel(fe, c.P.Named("", "FederationEntityMetadata"), "FederationResolveEndpoint")
		none := x.Proves(st, T.IsNil(cfg), true) || x.Proves(st, T.IsNil(md), true) || x.Proves(st, T.IsNil(fe), true) || x.Proves(st, T.Empty(ep), true)
		if none {
			continue
		}
		if !c.Ob("smart:asked:"+method, fn.Pos(), j < len(urls) && (urls[j] == nil || x.Same(st, urls[j], ep)), "the resolve endpoint of anchor %d is not requested%s", i, p) {
			return
		}
		v := vs[j]
		j++
		if v == "ok" || method == "ResolvePossible" && v != "" {
			c.Ob("smart:stop:"+method, fn.Pos(), j == len(urls), "another endpoint is requested after an answer%s", p)
			reached[fmt.Sprintf("remote%d", i)] = true
			m.given(x, st, o, method, v, fn, "smart:"+method)
			return
		}
	}
	c.Ob("smart:only:"+method, fn.Pos(), j == len(urls), "%d requests%s", len(urls), p)
	// nobody answered: the local resolver does
	reached["local"] = true
	isReq := func(t *Term) bool {
		return t == req || x.Same(st, t, req) || x.content(st, t) == req
	}
	var call *Term
	for i := 0; i < 2; i++ {
		c.resOf(o, i).contains1(func(t *Term) bool {
			if t.op == OpCall && strings.HasPrefix(t.str, "oidfed.LocalMetadataResolver.") {
				call = t
			}
			return false
		})
	}
	if !c.Ob("smart:local:"+method, fn.Pos(), call != nil && isReq(call.args[1]), "if no anchor answers the result is %v%s", o.res, p) {
		return
	}
	r0, r1 := c.resOf(o, 0), c.resOf(o, 1)
	ok := strings.HasSuffix(call.str, "."+method) && resultOf(r0, call.str, 0) != nil && resultOf(r1, call.str, 1) != nil
	if method == "Resolve" && strings.HasSuffix(call.str, ".ResolveResponsePayload") {
		e := T.mk(OpRes, "", 1, nil, nil, call)
		failed, known := x.Known(st, T.IsNil(e))
		if failed = !failed; !known {
			for a, v := range st.facts {
				if a.op == OpIsNil && a.args[0].op == OpRes && a.args[0].num == 1 && a.args[0].args[0] == call {
					failed, known = !v, true
				}
			}
		}
		if known && failed {
			ok = r0.isNilConst() && isErr(x, st, r1)
		} else {
			ok = known && r1.isNilConst() && r0.op == OpSel && r0.args[0].op == OpRes && r0.args[0].args[0] == call && r0.obj == c.Field(m.payload, "Metadata")
		}
	}
	c.Ob("smart:local:"+method, fn.Pos(), ok, "if no anchor answers the result is %v, %v%s", r0, r1, p)
}

func init() {
	register(&Check{
		ID: "C33", Title: "Answers of resolve endpoints are interpreted as specified", Min: 20,
		Technique: "symbolic evaluation with a model of the request for every error code; case analysis of anchors in order",
		Rule:      "for every error code and failure: Resolve and ResolveResponsePayload return the parsed response's content only for a successful one, ResolvePossible confirms validity for a successful response or invalid_metadata, invalidity for invalid_trust_chain, and nothing otherwise; the smart resolver asks the endpoints of the anchors in order until one answers and otherwise returns the local result for the request",
		Run:       runResolver,
	})
}
