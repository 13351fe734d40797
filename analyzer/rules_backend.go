package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	goCachePkg = "github.com/TwiN/gocache/v2."
	redisPkg   = "github.com/redis/go-redis/v9."
)

func init() {
	register(&Check{
		ID: "C35", Title: "Cache backends return exactly what was last cached under a key", Min: 25,
		Technique: "symbolic evaluation of every backend against models of the stores and the encoding",
		Rule:      "on every path of every backend: Set encodes the value once and stores exactly that encoding under exactly the given key for the given duration, or returns the failure and stores nothing it could not encode; Get asks for exactly the given key, decodes what was found into the target, reports a missing entry as not found without an error and every other failure as an error; the module's functions use the configured backend; a redis server that does not answer is not used",
		Run:       runBackend,
	})
}

// backendModel models the stores of the cache backends: an entry is found, missing, of a foreign
// kind, or cannot be obtained.
func (c *C) backendModel() *Hooks {
	T := c.T
	errT := types.Universe.Lookup("error").Type()
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	mkErr := func(st *State, n string) *Term {
		e := T.mk(OpCall, "#error:"+n, 0, nil, errT)
		st.facts[T.IsNil(e)] = false
		return e
	}
	nilErr := c.redisNil()
	h := &Hooks{Forward: true, Exact: true, Pin: func(g *Term) bool { return g.op == OpCall }}
	cell := func(n string) *Term { return T.mk(OpCall, "#backend:"+n, 0, nil, nil) }
	tuple := func(ts ...*Term) *Term { return T.mk(OpTuple, "", 0, nil, nil, ts...) }
	stored := T.mk(OpCall, "#stored", 0, nil, bytesT)
	fork := func(st *State, aux string, vals ...string) (l []*State) {
		for _, v := range vals {
			s := st.clone()
			s.aux[aux] = v
			l = append(l, s)
		}
		return
	}
	write := func(st *State, key, val, dur *Term) *State {
		s := st.clone()
		s.aux["#writes"] += "+"
		s.mem[cell("key")], s.mem[cell("value")] = unMk(key), unMk(val)
		if dur != nil {
			s.mem[cell("duration")] = dur
		} else {
			s.mem[cell("duration")] = T.Nil()
		}
		return s
	}
	h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
		base := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
		one := func(s *State, t *Term) ([]Outcome, bool) { return []Outcome{{st: s, res: t}}, true }
		switch {
		case ev.Name == mpPkg+"Marshal":
			var outs []Outcome
			for _, s := range fork(st, "#encode", "ok", "failed") {
				if s.aux["#encode"] == "ok" {
					d := T.mk(OpCall, "#encoded", 0, nil, bytesT, unMk(ev.Addrs[0]))
					s.facts[T.IsNil(d)] = false
					outs = append(outs, Outcome{st: s, res: tuple(d, T.Nil())})
				} else {
					outs = append(outs, Outcome{st: s, res: tuple(T.Nil(), mkErr(s, "encode"))})
				}
			}
			return outs, true
		case ev.Name == mpPkg+"Unmarshal":
			var outs []Outcome
			for _, s := range fork(st, "#decode", "ok", "failed") {
				s.aux["#decodes"] += "+"
				s.mem[cell("data")], s.mem[cell("target")] = unMk(ev.Addrs[0]), ev.Addrs[1]
				if s.aux["#decode"] == "ok" {
					outs = append(outs, Outcome{st: s, res: T.Nil()})
				} else {
					outs = append(outs, Outcome{st: s, res: mkErr(s, "decode")})
				}
			}
			return outs, true
		case ev.Name == goCachePkg+"Cache.Get" || ev.Name == goCachePkg+"Cache.GetValue":
			var outs []Outcome
			for _, s := range fork(st, "#found", "hit", "miss", "foreign") {
				s.aux["#reads"] += "+"
				s.mem[cell("read")] = unMk(ev.Args[1])
				v, ok := T.Nil(), T.Bool(true)
				switch s.aux["#found"] {
				case "hit":
					s.facts[T.IsNil(stored)] = false
					v = T.mk(OpMk, "", 0, nil, bytesT, stored)
				case "foreign":
					v = T.mk(OpMk, "", 0, nil, types.Typ[types.Int], T.mk(OpCall, "#foreign", 0, nil, types.Typ[types.Int]))
				default:
					ok = T.Bool(false)
				}
				if base == "Get" {
					v = tuple(v, ok)
				}
				outs = append(outs, Outcome{st: s, res: v})
			}
			return outs, true
		case ev.Name == goCachePkg+"Cache.SetWithTTL":
			return one(write(st, ev.Args[1], ev.Addrs[2], ev.Args[3]), T.Nil())
		case ev.Name == goCachePkg+"Cache.Set":
			return one(write(st, ev.Args[1], ev.Addrs[2], nil), T.Nil())
		case strings.HasPrefix(ev.Name, goCachePkg+"Cache.") || strings.HasPrefix(ev.Name, redisPkg+"cmdable.") || strings.HasPrefix(ev.Name, redisPkg+"Client."):
			switch {
			case strings.HasPrefix(ev.Name, redisPkg) && base == "Get":
				var outs []Outcome
				for _, s := range fork(st, "#found", "hit", "miss", "error") {
					s.aux["#reads"] += "+"
					s.mem[cell("read")] = unMk(ev.Args[2])
					r := T.mk(OpCall, "#answer", 0, nil, ev.Fn.Signature.Results().At(0).Type())
					s.facts[T.IsNil(r)] = false
					outs = append(outs, Outcome{st: s, res: r})
				}
				return outs, true
			case strings.HasPrefix(ev.Name, redisPkg) && (base == "Set" || base == "SetEx"):
				var outs []Outcome
				for _, s := range fork(write(st, ev.Args[2], ev.Addrs[3], ev.Args[4]), "#stored", "ok", "failed") {
					r := T.mk(OpCall, "#status", 0, nil, ev.Fn.Signature.Results().At(0).Type())
					s.facts[T.IsNil(r)] = false
					outs = append(outs, Outcome{st: s, res: r})
				}
				return outs, true
			case strings.HasPrefix(ev.Name, redisPkg) && base == "Ping":
				var outs []Outcome
				for _, s := range fork(st, "#ping", "ok", "failed") {
					s.mem[cell("pinged")] = ev.Addrs[0]
					r := T.mk(OpCall, "#pong", 0, nil, ev.Fn.Signature.Results().At(0).Type())
					s.facts[T.IsNil(r)] = false
					outs = append(outs, Outcome{st: s, res: r})
				}
				return outs, true
			case base == "Close" || strings.HasPrefix(base, "With"):
				return nil, false
			}
			s := st.clone()
			s.aux["#others"] += " " + base
			return []Outcome{{st: s, res: c.T.mk(OpCall, ev.Name, 0, T.site(ev.Instr, ev.Ctx), nil)}}, true
		case ev.Name == redisPkg+"NewClient":
			s := st.clone()
			s.aux["#clients"] += "+"
			s.mem[cell("options")] = ev.Addrs[0]
			r := T.mk(OpCall, "#client", 0, nil, ev.Fn.Signature.Results().At(0).Type())
			s.facts[T.IsNil(r)] = false
			return one(s, r)
		case strings.HasPrefix(ev.Name, redisPkg) && (base == "Result" || base == "Bytes" || base == "Err" || base == "Val"):
			r := unMk(ev.Addrs[0])
			for (r.op == OpSel || r.op == OpSnap) && len(r.args) > 0 {
				r = unMk(r.args[0]) // promoted methods
			}
			if r.op != OpCall {
				return nil, false
			}
			s := st.clone()
			var err *Term
			val := strConst(c, "")
			switch r.str {
			case "#answer":
				switch s.aux["#found"] {
				case "hit":
					err, val = T.Nil(), stored
				case "miss":
					err = nilErr
				default:
					err = mkErr(s, "read")
					if nilErr != nil {
						s.facts[T.Eq(err, nilErr)] = false
						s.facts[T.Eq(err, unMk(nilErr))] = false
					}
				}
			case "#status", "#pong":
				err = T.Nil()
				if s.aux[map[string]string{"#status": "#stored", "#pong": "#ping"}[r.str]] == "failed" {
					err = mkErr(s, r.str)
				}
			default:
				return nil, false
			}
			switch base {
			case "Err":
				return one(s, err)
			case "Val":
				return one(s, val)
			}
			return one(s, tuple(val, err))
		case ev.Name == "errors.Is" || ev.Name == "github.com/pkg/errors.Is":
			e, w := ev.Addrs[0], ev.Addrs[1]
			if nilErr == nil || unMk(w) != unMk(nilErr) {
				return nil, false
			}
			if unMk(e) == unMk(nilErr) {
				return one(st, T.Bool(true))
			}
			if v := unIface(e); v.op == OpCall && strings.HasPrefix(v.str, "#error:") || v.isNilConst() {
				return one(st, T.Bool(false))
			}
		}
		return nil, false
	}
	return h
}

// redisNil is the error of the redis client for missing entries.
func (c *C) redisNil() *Term {
	for _, sp := range c.P.SSA.AllPackages() {
		if sp.Pkg.Path()+"." != redisPkg {
			continue
		}
		if k, ok := sp.Members["Nil"].(*ssa.NamedConst); ok {
			return c.T.mk(OpMk, "", 0, nil, k.Type(), constTerm(c.T, k.Value))
		}
	}
	return nil
}

func runBackend(c *C) {
	T := c.T
	cell := func(n string) *Term { return T.mk(OpCall, "#backend:"+n, 0, nil, nil) }
	bare := func(t *Term) *Term { // conversions between strings and bytes
		for t != nil && (t.op == OpConv || t.op == OpMk || t.op == OpSnap) && len(t.args) > 0 {
			t = t.args[0]
		}
		return t
	}
	gets, sets := c.backends("Get"), c.backends("Set")
	c.Anchor("every backend reads and writes", len(gets) == len(sets))
	c.Anchor("both backends", len(sets) >= 2)
	for _, fn := range sets {
		name := c.P.fnName(fn)
		x := NewExec(c.P, T, c.backendModel())
		st := NewState()
		var as []*Term
		for i, p := range fn.Params {
			as = append(as, x.Param(fmt.Sprintf("%d:%s", i, p.Name()), p.Type()))
		}
		seen := map[string]int{}
		for _, o := range x.Run(fn, as, st) {
			c.Paths++
			p := c.Path(o.st)
			if !c.Ob("set:total:"+name, fn.Pos(), !o.panic, "storing panics%s", p) {
				continue
			}
			err := unIface(o.res)
			isNil := x.Proves(o.st, T.IsNil(err), true)
			c.Ob("set:only:"+name, fn.Pos(), o.st.aux["#others"] == "", "storing also does%s%s", o.st.aux["#others"], p)
			if o.st.aux["#encode"] == "failed" {
				seen["encode"]++
				c.Ob("set:encode:"+name, fn.Pos(), !isNil && isErr(x, o.st, err), "a value that cannot be encoded yields %v%s", err, p)
				c.Ob("set:nothing:"+name, fn.Pos(), o.st.aux["#writes"] == "", "a value that cannot be encoded is stored%s", p)
				continue
			}
			if !c.Ob("set:once:"+name, fn.Pos(), o.st.aux["#writes"] == "+", "the value is stored %d times%s", len(o.st.aux["#writes"]), p) {
				continue
			}
			c.Ob("set:key:"+name, fn.Pos(), bare(o.st.mem[cell("key")]) == as[1], "the value is stored under %v%s", o.st.mem[cell("key")], p)
			v := bare(o.st.mem[cell("value")])
			c.Ob("set:value:"+name, fn.Pos(), v.op == OpCall && v.str == "#encoded" && unMk(v.args[0]) == unMk(as[2]), "%v is stored instead of the encoded value%s", v, p)
			c.Ob("set:duration:"+name, fn.Pos(), o.st.mem[cell("duration")] == as[3], "the value is stored for %v%s", o.st.mem[cell("duration")], p)
			if o.st.aux["#stored"] == "failed" {
				seen["failed"]++
				c.Ob("set:failed:"+name, fn.Pos(), !isNil && isErr(x, o.st, err), "a value that could not be stored yields %v%s", err, p)
				continue
			}
			seen["ok"]++
			c.Ob("set:ok:"+name, fn.Pos(), isNil, "a stored value yields %v%s", err, p)
		}
		c.Done(x, name)
		c.Ob("set:possible:"+name, fn.Pos(), seen["encode"] > 0 && seen["ok"] > 0, "not every outcome is possible: %v", seen)
	}
	for _, fn := range gets {
		name := c.P.fnName(fn)
		x := NewExec(c.P, T, c.backendModel())
		st := NewState()
		var as []*Term
		for i, p := range fn.Params {
			as = append(as, x.Param(fmt.Sprintf("%d:%s", i, p.Name()), p.Type()))
		}
		seen := map[string]int{}
		for _, o := range x.Run(fn, as, st) {
			c.Paths++
			p := c.Path(o.st)
			if !c.Ob("get:total:"+name, fn.Pos(), !o.panic, "reading panics%s", p) {
				continue
			}
			found, err := c.resOf(o, 0), unIface(c.resOf(o, 1))
			isNil := x.Proves(o.st, T.IsNil(err), true)
			isErr := !isNil && isErr(x, o.st, err)
			yes, no := found == T.Bool(true) || x.Proves(o.st, found, true), found == T.Bool(false) || x.Proves(o.st, found, false)
			c.Ob("get:only:"+name, fn.Pos(), o.st.aux["#others"] == "" && o.st.aux["#writes"] == "", "reading also does%s%s", o.st.aux["#others"], p)
			if !c.Ob("get:once:"+name, fn.Pos(), o.st.aux["#reads"] != "", "nothing is read%s", p) {
				continue
			}
			c.Ob("get:key:"+name, fn.Pos(), bare(o.st.mem[cell("read")]) == as[1], "the key %v is read%s", o.st.mem[cell("read")], p)
			kind := o.st.aux["#found"]
			if kind != "hit" {
				c.Ob("get:untouched:"+name, fn.Pos(), o.st.aux["#decodes"] == "", "something is decoded although no entry was obtained%s", p)
			}
			seen[kind]++
			switch kind {
			case "miss":
				c.Ob("get:miss:"+name, fn.Pos(), no && isNil, "a missing entry yields %v, %v%s", found, err, p)
			case "foreign", "error":
				c.Ob("get:error:"+name, fn.Pos(), no && isErr, "an entry that cannot be obtained yields %v, %v%s", found, err, p)
			case "hit":
				if !c.Ob("get:decode:"+name, fn.Pos(), o.st.aux["#decodes"] == "+", "a found entry is decoded %d times%s", len(o.st.aux["#decodes"]), p) {
					continue
				}
				d := bare(o.st.mem[cell("data")])
				c.Ob("get:data:"+name, fn.Pos(), d.op == OpCall && d.str == "#stored", "%v is decoded instead of the entry%s", d, p)
				c.Ob("get:target:"+name, fn.Pos(), unMk(o.st.mem[cell("target")]) == unMk(as[2]), "the entry is decoded into %v%s", o.st.mem[cell("target")], p)
				if o.st.aux["#decode"] == "failed" {
					c.Ob("get:undecodable:"+name, fn.Pos(), isErr, "an entry that cannot be decoded yields %v, %v%s", found, err, p)
				} else {
					seen["decoded"]++
					c.Ob("get:hit:"+name, fn.Pos(), yes && isNil, "a found entry yields %v, %v%s", found, err, p)
				}
			}
		}
		c.Done(x, name)
		c.Ob("get:possible:"+name, fn.Pos(), seen["miss"] > 0 && seen["decoded"] > 0, "not every outcome is possible: %v", seen)
	}
	c.backendFront()
	c.backendRedis()
}

// backendFront: the functions of the package use the backend that was set last.
func (c *C) backendFront() {
	T := c.T
	setCache := c.Fn("cache", "SetCache")
	if setCache == nil {
		return
	}
	errT := types.Universe.Lookup("error").Type()
	for _, n := range []string{"Get", "Set"} {
		fn := c.Fn("cache", n)
		if fn == nil {
			continue
		}
		var backend *Term
		var as []*Term
		calls := 0
		h := &Hooks{Forward: true, Exact: true, Pin: func(g *Term) bool { return g.op == OpCall }}
		h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
			if !strings.HasPrefix(ev.Name, "cache.Cache.") {
				return nil, false
			}
			s := st.clone()
			s.aux["#calls"] += " " + ev.Name[len("cache.Cache."):]
			ok := unMk(ev.Addrs[0]) == unMk(backend) && len(ev.Args) == len(as)+1
			for i := 0; ok && i < len(as); i++ {
				ok = unMk(ev.Addrs[i+1]) == unMk(as[i])
			}
			calls++
			c.Ob("front:"+n, ev.Instr.Pos(), ok, "the backend %v is given %v%s", ev.Addrs[0], ev.Args, c.Path(st))
			e := T.mk(OpCall, "#front:error", 0, nil, errT)
			if strings.HasSuffix(ev.Name, ".Set") {
				return []Outcome{{st: s, res: e}}, true
			}
			return []Outcome{{st: s, res: T.mk(OpTuple, "", 0, nil, nil, T.mk(OpCall, "#front:found", 0, nil, types.Typ[types.Bool]), e)}}, true
		}
		x := NewExec(c.P, T, h)
		backend = x.Param("backend", setCache.Params[0].Type())
		st := NewState()
		st.facts[T.IsNil(backend)] = false
		for i, p := range fn.Params {
			as = append(as, x.Param(fmt.Sprintf("%d:%s", i, p.Name()), p.Type()))
		}
		for _, o := range x.Run(setCache, []*Term{backend}, st) {
			if o.panic {
				continue
			}
			for _, d := range x.Run(fn, as, o.st) {
				c.Paths++
				p := c.Path(d.st)
				if !c.Ob("front:total:"+n, fn.Pos(), !d.panic, "%s panics%s", n, p) {
					continue
				}
				switch log := d.st.aux["#calls"]; {
				case log == "" && n == "Set": // outdated values are not stored (C08)
					c.Ob("front:outdated", fn.Pos(), x.Proves(d.st, T.IsNil(unIface(d.res)), true) && x.Proves(d.st, T.Lt(T.Int(0), as[2]), false), "a value is not stored%s", p)
				case log != " "+n:
					c.Ob("front:once:"+n, fn.Pos(), false, "%s uses the backend for%s%s", n, log, p)
				default:
					ok := false
					if n == "Set" {
						ok = c.frontErr(x, d.st, d.res)
					} else {
						f := c.resOf(d, 0)
						ok = c.frontErr(x, d.st, c.resOf(d, 1)) && (f.op == OpCall && f.str == "#front:found" || c.sameTruth(x, d.st, f))
					}
					c.Ob("front:result:"+n, fn.Pos(), ok, "%s returns %v instead of the result of the backend%s", n, d.res, p)
				}
			}
		}
		c.Done(x, "cache."+n)
		c.Anchor("cache."+n+" uses the backend", calls > 0)
	}
}

// sameTruth: f is what is known of the backend's answer.
func (c *C) sameTruth(x *Exec, st *State, f *Term) bool {
	t := c.T.mk(OpCall, "#front:found", 0, nil, types.Typ[types.Bool])
	return f == c.T.Bool(true) && x.Proves(st, t, true) || f == c.T.Bool(false) && x.Proves(st, t, false)
}

// frontErr: err is the error of the backend, or at least one if and only if that is.
func (c *C) frontErr(x *Exec, st *State, err *Term) bool {
	T := c.T
	e := T.mk(OpCall, "#front:error", 0, nil, types.Universe.Lookup("error").Type())
	err = unIface(err)
	switch {
	case err == e:
		return true
	case x.Proves(st, T.IsNil(e), true):
		return x.Proves(st, T.IsNil(err), true)
	case x.Proves(st, T.IsNil(e), false):
		return isErr(x, st, err)
	}
	return err.op == OpCall && len(err.args) > 0 && unIface(err.args[0]) == e && strings.HasPrefix(err.str, "github.com/pkg/errors.With")
}

// backendRedis: a redis server is used if and only if it answers.
func (c *C) backendRedis() {
	T := c.T
	fn := c.Fn("cache", "UseRedisCache")
	if fn == nil {
		return
	}
	cell := func(n string) *Term { return T.mk(OpCall, "#backend:"+n, 0, nil, nil) }
	h := c.backendModel()
	inner := h.Model
	h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
		if ev.Name == "cache.SetCache" {
			s := st.clone()
			s.aux["#switches"] += "+"
			s.mem[cell("backend")] = ev.Addrs[0]
			return []Outcome{{st: s, res: T.Nil()}}, true
		}
		return inner(x, st, ev)
	}
	x := NewExec(c.P, T, h)
	opt := x.Param("0:options", fn.Params[0].Type())
	seen := map[string]int{}
	for _, o := range x.Run(fn, []*Term{opt}, NewState()) {
		c.Paths++
		p := c.Path(o.st)
		if !c.Ob("redis:total", fn.Pos(), !o.panic, "connecting panics%s", p) {
			continue
		}
		err := unIface(o.res)
		isNil := x.Proves(o.st, T.IsNil(err), true)
		seen[o.st.aux["#ping"]]++
		if o.st.aux["#ping"] != "ok" {
			c.Ob("redis:failed", fn.Pos(), !isNil && isErr(x, o.st, err), "a server that does not answer yields %v%s", err, p)
			c.Ob("redis:unused", fn.Pos(), o.st.aux["#switches"] == "", "a server that does not answer is used%s", p)
			continue
		}
		c.Ob("redis:ok", fn.Pos(), isNil, "a server that answers yields %v%s", err, p)
		c.Ob("redis:options", fn.Pos(), o.st.aux["#clients"] == "+" && o.st.mem[cell("options")] == opt, "the client has the options %v%s", o.st.mem[cell("options")], p)
		if !c.Ob("redis:used", fn.Pos(), o.st.aux["#switches"] == "+", "the cache is switched %d times%s", len(o.st.aux["#switches"]), p) {
			continue
		}
		b := o.st.mem[cell("backend")]
		t := b.typ
		v := x.content(o.st, unMk(b))
		has := t != nil && strings.HasSuffix(c.P.fnName(fn), "UseRedisCache")
		if has {
			s, ok := deref(t).Underlying().(*types.Struct)
			has = false
			for i := 0; ok && i < s.NumFields(); i++ {
				f := T.Sel(unMk(v), s, i)
				if u := unMk(f); u.op == OpCall && u.str == "#client" {
					has = true
				}
			}
			has = has || unMk(v).op == OpCall && unMk(v).str == "#client"
		}
		c.Ob("redis:client", fn.Pos(), has, "the cache that is used is %v%s", v, p)
	}
	c.Done(x, "cache.UseRedisCache")
	c.Ob("redis:possible", fn.Pos(), seen["ok"] > 0 && seen["failed"] > 0, "not every outcome is possible: %v", seen)
}
