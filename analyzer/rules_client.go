package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C28", Title: "Requests to other entities are limited in time and leave no traces", Min: 8,
		Technique: "symbolic evaluation of the configuration of every HTTP client, and a rule on every place that sends",
		Rule:      "every HTTP client the module makes is followed through the code that configures it (the initialisation of the packages and other functions that make one): in the end it has a positive timeout, no cookie jar, at most 10 retries with waits of at most a minute and a policy that ends after at most 20 redirects; nothing sends requests with the default client, a bare transport or a raw connection; no other place loosens the limits of a client; no TLS configuration switches the verification of certificates off",
		Assume:    []string{"the timeout of net/http and resty covers the whole exchange including reading the body", "the servers of the redis cache are not other entities"},
		Run:       func(c *C) { (&clientModel{c: c, seen: map[ssa.Instruction]bool{}}).run() },
	})
}

const (
	maxRetries   = 10
	maxRedirects = 20
	maxWait      = int64(60e9)
)

type clientModel struct {
	c      *C
	hc     *types.Named // net/http.Client
	seen   map[ssa.Instruction]bool
	judged map[string]bool
	made   int
}

// restyMake: functions of resty that make a client.
func restyMake(n string) bool {
	return n == restyPkg+"New" || n == restyPkg+"NewWithClient" || n == restyPkg+"NewWithLocalAddr"
}

func (m *clientModel) field(hc *Term, name string) *Term {
	s := m.hc.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return m.c.T.mk(OpSel, "", 0, s.Field(i).Origin(), s.Field(i).Type(), hc)
		}
	}
	return m.c.T.Nil()
}

func (m *clientModel) cell(name string, client *Term) *Term {
	return m.c.T.mk(OpCall, "#"+name, 0, nil, nil, client)
}

// isHC: is t the address of an http.Client?
func (m *clientModel) isHC(t *Term) bool {
	if t == nil || t.typ == nil || t.op != OpAlloc && t.op != OpGlobal && !(t.op == OpCall && t.str == "#hc") {
		return false
	}
	p, ok := t.typ.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), m.hc)
}

func (m *clientModel) hooks() *Hooks {
	c := m.c
	T := c.T
	one := func(s *State, r *Term) ([]Outcome, bool) { return []Outcome{{st: s, res: r}}, true }
	h := &Hooks{Forward: true}
	h.OnCall = func(x *Exec, st *State, ev *CallEvent) {
		m.seen[ev.Instr] = true
		if strings.HasPrefix(ev.Name, "net/http.Client.") && ev.Fn != nil && ev.Fn.Signature.Results().Len() == 2 {
			if a := unMk(ev.Addrs[0]); m.isHC(a) && a.op == OpAlloc {
				m.judge(x, st, a, nil, ev.Instr.Pos())
			}
		}
	}
	h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
		if !strings.HasPrefix(ev.Name, restyPkg) || ev.Fn == nil {
			return nil, false
		}
		n := strings.TrimPrefix(ev.Name, restyPkg)
		switch {
		case restyMake(ev.Name):
			s := st.clone()
			cl := T.mk(OpCall, "#resty", 0, T.site(ev.Instr, ev.Ctx), ev.Fn.Signature.Results().At(0).Type())
			s.facts[T.IsNil(cl)] = false
			var hc *Term
			if n == "NewWithClient" {
				hc = unMk(ev.Addrs[0])
			} else {
				hc = T.mk(OpCall, "#hc", 0, nil, types.NewPointer(m.hc), cl)
				s.facts[T.IsNil(hc)] = false
				x.store(s, m.field(hc, "Timeout"), T.Int(0))
				jar := T.mk(OpSym, "jar of resty", 0, nil, m.field(hc, "Jar").typ)
				s.facts[T.IsNil(jar)] = false
				x.store(s, m.field(hc, "Jar"), jar)
				x.store(s, m.field(hc, "CheckRedirect"), T.Nil())
			}
			s.mem[m.cell("hcOf", cl)] = hc
			s.mem[m.cell("retries", cl)] = T.Int(0)
			return one(s, cl)
		case n == "FlexibleRedirectPolicy" || n == "NoRedirectPolicy":
			k := T.Int(0)
			if n == "FlexibleRedirectPolicy" {
				k = ev.Args[0]
			}
			r := T.mk(OpCall, "#flexible", 0, nil, ev.Fn.Signature.Results().At(0).Type(), k)
			s := st.clone()
			s.facts[T.IsNil(r)] = false
			return one(s, r)
		case strings.HasPrefix(n, "Client."):
			cl := unMk(ev.Addrs[0])
			hc := st.mem[m.cell("hcOf", cl)]
			if hc == nil {
				m.local(ev.Instr) // a client made elsewhere
				if ev.Fn.Signature.Results().Len() == 1 && types.Identical(ev.Fn.Signature.Results().At(0).Type(), ev.Fn.Signature.Recv().Type()) {
					return one(st, ev.Addrs[0])
				}
				return nil, false
			}
			s := st.clone()
			switch strings.TrimPrefix(n, "Client.") {
			case "SetTimeout":
				x.store(s, m.field(hc, "Timeout"), ev.Args[1])
			case "SetCookieJar":
				x.store(s, m.field(hc, "Jar"), unIface(ev.Args[1]))
			case "SetRedirectPolicy":
				x.store(s, m.field(hc, "CheckRedirect"), T.mk(OpCall, "#policies", 0, nil, nil, ev.Args[1]))
			case "SetRetryCount":
				s.mem[m.cell("retries", cl)] = ev.Args[1]
			case "SetRetryWaitTime":
				s.mem[m.cell("wait", cl)] = ev.Args[1]
			case "SetRetryMaxWaitTime":
				s.mem[m.cell("max wait", cl)] = ev.Args[1]
			case "GetClient":
				return one(s, hc)
			}
			if r := ev.Fn.Signature.Results(); r.Len() == 1 && types.Identical(r.At(0).Type(), ev.Fn.Signature.Recv().Type()) {
				return one(s, ev.Addrs[0])
			}
		}
		return nil, false
	}
	return h
}

// small decides 0 < t (or 0 <= t) and t <= max.
func (m *clientModel) small(x *Exec, st *State, t *Term, min int, max int64) bool {
	if n, ok := constInt(t); ok {
		return n >= min && (max == 0 || int64(n) <= max)
	}
	if !x.Proves(st, m.c.T.Lt(t, m.c.T.Int(min)), false) {
		return false
	}
	return max == 0 || x.Proves(st, m.c.T.Lt(m.c.T.Int(int(max)), t), false)
}

// ends: does the redirect policy end after a limited number of redirects?
func (m *clientModel) ends(x *Exec, st *State, p *Term) bool {
	c := m.c
	if p == nil {
		return false
	}
	for p.op == OpMk || p.op == OpConv {
		p = p.args[0]
	}
	switch {
	case p.isNilConst() || p.op == OpZero:
		return true // ten
	case p.op == OpCall && p.str == "#flexible":
		n, ok := constInt(p.args[0])
		return ok && n <= maxRedirects
	case p.op == OpCall && p.str == "#policies":
		found := false
		p.args[0].contains1(func(t *Term) bool {
			if t.op == OpCall && t.str == "#flexible" || t.op == OpFn || t.op == OpClos {
				found = found || m.ends(x, st, t)
			}
			return false
		})
		// without policies resty uses the default one
		return found || p.args[0].isNilConst() || x.Proves(st, c.T.Empty(p.args[0]), true)
	case p.op == OpFn || p.op == OpClos:
		fn, ok := p.obj.(*ssa.Function)
		if !ok || len(fn.Blocks) == 0 || len(fn.Params) != 2 {
			return false
		}
		y := NewExec(c.P, c.T, &Hooks{})
		args, outs := y.RunEntry(fn)
		c.Done(y, c.P.fnName(fn))
		for _, o := range outs {
			if o.panic || isErr(y, o.st, o.res) {
				continue
			}
			limited := false
			for k := 0; k <= maxRedirects && !limited; k++ {
				limited = y.Proves(o.st, c.T.Lt(c.T.Int(k), c.T.Len(args[1])), false) || y.Proves(o.st, c.T.Lt(c.T.Len(args[1]), c.T.Int(k)), true)
			}
			if !limited {
				return false
			}
		}
		return len(outs) > 0
	}
	return false
}

// judge decides whether a client is limited in state st.
func (m *clientModel) judge(x *Exec, st *State, hc, resty *Term, pos token.Pos) {
	c := m.c
	m.made++
	key := "client:" + c.P.Pos(pos)
	p := c.Path(st)
	t := x.load(st, m.field(hc, "Timeout"))
	c.Ob(key+":timeout", pos, m.small(x, st, t, 1, 0), "the client has the timeout %v: requests to a server that never answers block forever%s", t, p)
	jar := unIface(x.load(st, m.field(hc, "Jar")))
	c.Ob(key+":cookies", pos, jar.isNilConst() || jar.op == OpZero || x.Proves(st, c.T.IsNil(jar), true), "the client keeps cookies between requests (%v)%s", jar, p)
	pol := x.load(st, m.field(hc, "CheckRedirect"))
	c.Ob(key+":redirects", pos, m.ends(x, st, pol), "the client follows more than %d redirects (%v)%s", maxRedirects, pol, p)
	if resty == nil {
		return
	}
	r := st.mem[m.cell("retries", resty)]
	n, ok := constInt(r)
	c.Ob(key+":retries", pos, ok && n <= maxRetries, "the client sends a request %v more times%s", r, p)
	for _, w := range []string{"wait", "max wait"} {
		if v := st.mem[m.cell(w, resty)]; v != nil {
			c.Ob(key+":"+w, pos, m.small(x, st, v, 0, maxWait), "the %s between attempts is %v%s", w, v, p)
		}
	}
}

// local decides a call that configures a client on its own: its arguments are limits themselves.
func (m *clientModel) local(in ssa.CallInstruction) {
	c := m.c
	f := in.Common().StaticCallee()
	if f == nil {
		return
	}
	n := strings.TrimPrefix(c.P.fnName(f), restyPkg+"Client.")
	args := in.Common().Args
	key := "configured:" + c.P.fnName(in.Parent()) + ":" + n
	num := func(min, max int64) bool {
		k, ok := args[1].(*ssa.Const)
		if !ok || k.Value == nil {
			return false
		}
		v, exact := constant.Int64Val(constant.ToInt(k.Value))
		return exact && v >= min && (max == 0 || v <= max)
	}
	switch n {
	case "SetTimeout":
		c.Ob(key, in.Pos(), num(1, 0), "a client is given a timeout that may not be positive")
	case "SetRetryCount":
		c.Ob(key, in.Pos(), num(-1<<62, maxRetries), "a client is given an unlimited number of retries")
	case "SetRetryWaitTime", "SetRetryMaxWaitTime":
		c.Ob(key, in.Pos(), num(0, maxWait), "a client is made to wait for an unlimited time between attempts")
	case "SetCookieJar":
		k, ok := args[1].(*ssa.Const)
		c.Ob(key, in.Pos(), ok && k.IsNil(), "a client is given a cookie jar")
	case "SetRedirectPolicy":
		c.Ob(key, in.Pos(), false, "the limit for redirects of a client is changed after it was made")
	}
}

func (m *clientModel) run() {
	c := m.c
	for _, p := range c.P.SSA.AllPackages() {
		if p.Pkg.Path() == "net/http" {
			if o := p.Pkg.Scope().Lookup("Client"); o != nil {
				m.hc, _ = o.Type().(*types.Named)
			}
		}
	}
	if !c.Anchor("type net/http.Client", m.hc != nil) {
		return
	}
	// where clients are made
	makers := map[*ssa.Function]bool{}
	for _, fn := range c.P.RepoFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.Alloc:
					if types.Identical(deref(v.Type()), m.hc) {
						makers[fn] = true
					}
				case ssa.CallInstruction:
					if f := v.Common().StaticCallee(); f != nil && restyMake(c.P.fnName(f)) {
						makers[fn] = true
					}
				}
			}
		}
	}
	covered := map[*ssa.Function]bool{}
	eval := func(fn *ssa.Function, init bool) {
		h := m.hooks()
		if init {
			h.MaxDepth = 6
			h.Opaque = func(f *ssa.Function, n string) bool { return f.Pkg != fn.Pkg && f.Pkg != nil }
			h.Decide = func(x *Exec, st *State, a *Term) (bool, bool) {
				if strings.Contains(a.String(), "init$guard") {
					return false, true
				}
				return false, false
			}
		}
		x := NewExec(c.P, c.T, h)
		var outs []Outcome
		if init {
			x.Globals = map[*Term]*Term{}
			for n, mb := range fn.Pkg.Members {
				if g, ok := mb.(*ssa.Global); ok {
					x.Globals[c.T.mk(OpGlobal, fn.Pkg.Pkg.Name()+"."+n, 0, g, g.Type())] = c.T.Zero(deref(g.Type()))
				}
			}
			outs = x.Run(fn, nil, NewState())
		} else {
			_, outs = x.RunEntry(fn)
		}
		c.Done(x, c.P.fnName(fn))
		for _, o := range outs {
			if o.panic {
				continue
			}
			c.Paths++
			done := map[*Term]bool{}
			check := func(hc, cl *Term) {
				if done[hc] {
					return
				}
				done[hc] = true
				pos := fn.Pos()
				src := hc
				if cl != nil {
					src = cl
				}
				if sc, ok := src.obj.(*Site); ok && sc.instr != nil {
					pos = sc.instr.Pos()
				}
				m.judge(x, o.st, hc, cl, pos)
			}
			for k, v := range o.st.mem {
				if k.op == OpCall && k.str == "#hcOf" {
					check(v, k.args[0])
				}
			}
			find := func(t *Term) bool {
				if m.isHC(t) && t.op != OpCall {
					check(t, nil)
				}
				return false
			}
			for k, v := range o.st.mem {
				k.contains1(find)
				v.contains1(find)
			}
			if o.res != nil {
				o.res.contains1(find)
			}
			for n, mb := range fn.Pkg.Members {
				if g, ok := mb.(*ssa.Global); ok && init && types.Identical(deref(g.Type()), m.hc) {
					find(c.T.mk(OpGlobal, fn.Pkg.Pkg.Name()+"."+n, 0, g, g.Type()))
				}
			}
		}
	}
	for _, pk := range c.P.SSA.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), c.P.Mod) {
			continue
		}
		fn := pk.Func("init")
		if fn == nil {
			continue
		}
		need := false
		for _, mb := range pk.Members {
			if g, ok := mb.(*ssa.Global); ok && types.Identical(deref(g.Type()), m.hc) {
				need = true
			}
		}
		for f := range m.inPkg(fn) {
			if makers[f] {
				need = true
				covered[f] = true
			}
		}
		if makers[fn] {
			need, covered[fn] = true, true
		}
		if need {
			eval(fn, true)
		}
	}
	for fn := range makers {
		if !covered[fn] && fn.Name() != "init" {
			eval(fn, false)
		}
	}
	c.Anchor("an HTTP client of the module", m.made > 0)
	m.sends()
}

// inPkg: the functions of its package that an initialisation calls.
func (m *clientModel) inPkg(fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg != fn.Pkg {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					walk(ci.Common().StaticCallee())
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
	return seen
}

// sends: nothing of the module sends requests past the limited clients.
func (m *clientModel) sends() {
	c := m.c
	sends := 0
	fns := c.P.RepoFuncs()
	for _, fn := range fns {
		name := c.P.fnName(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "net/http" && g.Name() == "DefaultClient" {
						c.Ob("default:"+name, in.Pos(), false, "%s uses the default client, which waits for an answer forever", name)
					}
				}
				switch v := in.(type) {
				case *ssa.Store:
					fa, ok := v.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
					if !ok {
						continue
					}
					if st.Field(fa.Field).Name() == "InsecureSkipVerify" && st.Field(fa.Field).Pkg().Path() == "crypto/tls" {
						k, ok := v.Val.(*ssa.Const)
						c.Ob("tls:"+name, v.Pos(), ok && k.Value != nil && !constant.BoolVal(k.Value), "%s switches the verification of certificates off", name)
					}
				case ssa.CallInstruction:
					cc := v.Common()
					if cc.IsInvoke() {
						if cc.Method.Name() == "RoundTrip" && cc.Method.Pkg().Path() == "net/http" {
							sends++
							c.Ob("transport:"+name, in.Pos(), fn.Name() == "RoundTrip", "%s sends a request with a bare transport, which waits for an answer forever", name)
						}
						continue
					}
					f := cc.StaticCallee()
					if f == nil {
						continue
					}
					n := c.P.fnName(f)
					switch {
					case n == "net/http.Get" || n == "net/http.Head" || n == "net/http.Post" || n == "net/http.PostForm":
						sends++
						c.Ob("default:"+name, in.Pos(), false, "%s sends a request with the default client, which waits for an answer forever", name)
					case n == "net/http.Transport.RoundTrip":
						sends++
						c.Ob("transport:"+name, in.Pos(), fn.Name() == "RoundTrip", "%s sends a request with a bare transport, which waits for an answer forever", name)
					case n == "net.Dial" || n == "net.DialTCP" || n == "net.DialTimeout" || n == "crypto/tls.Dial" || n == "crypto/tls.DialWithDialer" || strings.HasPrefix(n, "net.Dialer.Dial"):
						c.Ob("raw:"+name, in.Pos(), false, "%s opens a connection that is not limited in time", name)
					case strings.HasPrefix(n, "net/http.Client.") && f.Signature.Results().Len() == 2:
						sends++
						c.Ob("sends:"+name, in.Pos(), true, "")
					case strings.HasPrefix(n, restyPkg+"Request.") && f.Signature.Results().Len() == 2:
						sends++
						c.Ob("sends:"+name, in.Pos(), true, "")
					case strings.HasPrefix(n, restyPkg+"Client.") && !m.seen[in]:
						m.local(v)
					}
				}
			}
		}
	}
	c.Anchor("places that send requests", sends > 0)
}
