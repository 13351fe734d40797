package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const restyPkg = "github.com/go-resty/resty/v2."

// httpFns are the request functions of the internal http package.
func (c *C) httpFns() (fs []*ssa.Function) {
	for _, n := range []string{"Get", "Post"} {
		if f := c.Fn("internal/http", n); f != nil {
			fs = append(fs, f)
		}
	}
	return
}

func runHTTP(c *C) {
	T := c.T
	he := c.P.Named("internal/http", "HttpError")
	if !c.Anchor("http error type", he != nil) {
		return
	}
	errT := types.Universe.Lookup("error").Type()
	for _, fn := range c.httpFns() {
		name := fn.Name()
		for _, status := range []int{100, 101, 199, 200, 201, 204, 206, 226, 250, 299, 300, 301, 302, 304, 307, 399, 400, 401, 403, 404, 410, 429, 499, 500, 502, 503, 599} {
			for _, body := range []bool{true, false} { // the body holds an error
				if body && status < 400 {
					continue // only error responses are decoded into the error
				}
				h := &Hooks{Forward: true, Exact: true, Pin: func(g *Term) bool { return g.op == OpCall }}
				cell := func(n string) *Term { return T.mk(OpCall, "#req:"+n, 0, nil, nil) }
				h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
					if !strings.HasPrefix(ev.Name, restyPkg) {
						return nil, false
					}
					m := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
					one := func(s *State, t *Term) ([]Outcome, bool) { return []Outcome{{st: s, res: t}}, true }
					res := ev.Fn.Signature.Results()
					switch {
					case strings.HasPrefix(ev.Name, restyPkg+"Client.") && (m == "R" || m == "NewRequest"):
						s := st.clone()
						s.aux["#requests"] += "+"
						return one(s, T.mk(OpCall, "#request", 0, T.site(ev.Instr, ev.Ctx), nil))
					case strings.HasPrefix(ev.Name, restyPkg+"Request.") && (m == "Get" || m == "Post" || m == "Execute"):
						method := strings.ToUpper(m)
						url := ev.Args[1]
						if m == "Execute" {
							method, _ = strOf(ev.Args[1])
							url = ev.Args[2]
						}
						var outs []Outcome
						for _, ok := range []bool{true, false} {
							s := st.clone()
							rp := T.mk(OpCall, "#response", 0, nil, res.At(0).Type())
							err := T.mk(OpCall, "#transport", 0, nil, errT)
							if !x.assume(s, T.IsNil(err), ok) {
								continue
							}
							s.mem[cell("method")], s.mem[cell("url")] = strConst(c, method), url
							s.aux["#sent"] += "+"
							s.facts[T.IsNil(rp)] = false
							outs = append(outs, Outcome{st: s, res: T.mk(OpTuple, "", 0, nil, nil, rp, err)})
						}
						return outs, true
					case strings.HasPrefix(ev.Name, restyPkg+"Request.Set"):
						s := st.clone()
						s.mem[cell(m)] = unMk(ev.Addrs[1])
						return one(s, ev.Addrs[0])
					case strings.HasPrefix(ev.Name, restyPkg+"Response."):
						switch m {
						case "IsSuccess":
							return one(st, T.Bool(status >= 200 && status <= 299))
						case "IsError":
							return one(st, T.Bool(status > 399))
						case "StatusCode":
							return one(st, T.Int(status))
						case "Status":
							return one(st, strConst(c, fmt.Sprint(status)))
						case "Error":
							e := st.mem[cell("SetError")]
							if e == nil {
								return one(st, T.Nil())
							}
							s := st.clone()
							p := T.mk(OpCall, "#errbody", 0, nil, types.NewPointer(he))
							s.facts[T.IsNil(p)] = false
							ef := c.fieldOf(p, "Error")
							if body {
								s.facts[T.Empty(ef)] = false
							} else {
								s.mem[ef] = strConst(c, "")
							}
							return one(s, T.mk(OpMk, "", 0, nil, types.NewPointer(he), p))
						case "RawResponse":
						}
					}
					return nil, false
				}
				x := NewExec(c.P, T, h)
				st := NewState()
				// resp.RawResponse.StatusCode
				rp := T.mk(OpCall, "#response", 0, nil, fn.Signature.Results().At(0).Type())
				raw := c.fieldOf(rp, "RawResponse")
				st.mem[c.fieldOf(raw, "StatusCode")] = T.Int(status)
				st.facts[T.IsNil(raw)] = false
				var args []*Term
				for i, p := range fn.Params {
					args = append(args, x.Param(fmt.Sprintf("%d:%s", i, p.Name()), p.Type()))
				}
				outs := x.Run(fn, args, st)
				c.Done(x, fmt.Sprintf("%s[%d, error body %v]", name, status, body))
				got := map[string]int{}
				for _, o := range outs {
					if o.panic {
						continue
					}
					c.Paths++
					st := o.st
					p := c.Path(st)
					resp, he2, err := c.resOf(o, 0), c.resOf(o, 1), c.resOf(o, 2)
					c.Ob("http:once:"+name, fn.Pos(), st.aux["#sent"] == "+" && st.aux["#requests"] == "+", "%d requests are sent%s", len(st.aux["#sent"]), p)
					method := map[string]string{"Get": "GET", "Post": "POST"}[name]
					c.Ob("http:request:"+name, fn.Pos(), st.mem[cell("method")] == strConst(c, method) && st.mem[cell("url")] == args[0], "%v %v is requested%s", st.mem[cell("method")], st.mem[cell("url")], p)
					par := "SetQueryParamsFromValues"
					if name == "Post" {
						par = "SetBody"
					}
					c.Ob("http:params:"+name, fn.Pos(), st.mem[cell(par)] == args[1], "the request has %v as parameters%s", st.mem[cell(par)], p)
					c.Ob("http:result:"+name, fn.Pos(), st.mem[cell("SetResult")] == args[2], "the response is decoded into %v%s", st.mem[cell("SetResult")], p)
					ok, known := x.Known(st, T.IsNil(T.mk(OpCall, "#transport", 0, nil, errT)))
					if !c.Ob("http:transport:"+name, fn.Pos(), known, "an error of the transport is not looked at%s", p) {
						continue
					}
					errNil, d1 := x.Known(st, T.IsNil(err))
					if err.isNilConst() {
						errNil, d1 = true, true
					}
					heNil := he2.isNilConst() || x.Proves(st, T.IsNil(he2), true)
					heSet := he2.op == OpAlloc || x.Proves(st, T.IsNil(he2), false)
					respNil := resp.isNilConst()
					if !ok {
						got["transport"]++
						bad := d1 && !errNil || isErr(x, st, err)
						c.Ob("http:failed:"+name, fn.Pos(), bad && respNil, "a failed request yields %v, %v, %v%s", resp, he2, err, p)
						continue
					}
					if status >= 200 && status <= 299 {
						got["ok"]++
						c.Ob("http:ok:"+name, fn.Pos(), d1 && errNil && heNil && resp == rp, "status %d yields %v, %v, %v%s", status, resp, he2, err, p)
						continue
					}
					got["error"]++
					if !c.Ob("http:error:"+name, fn.Pos(), heSet && respNil && d1 && errNil, "status %d yields %v, %v, %v%s", status, resp, he2, err, p) {
						continue
					}
					v := x.content(st, he2)
					sc, isC := constInt(x.content(st, c.Sel(v, he, "Status")))
					if !isC {
						sc, isC = constInt(x.load(st, c.fieldOf(he2, "Status")))
					}
					c.Ob("http:status:"+name, fn.Pos(), isC && sc == status, "status %d is reported as %v%s", status, c.Sel(v, he, "Status"), p)
					if body {
						e := c.Sel(v, he, "Error")
						c.Ob("http:message:"+name, fn.Pos(), e.contains1(func(t *Term) bool { return t.op == OpCall && t.str == "#errbody" }), "the server's error is reported as %v%s", e, p)
					}
				}
				want := []string{"transport", "error"}
				if status >= 200 && status <= 299 {
					want[1] = "ok"
				}
				for _, k := range want {
					c.Ob("http:possible:"+name, fn.Pos(), got[k] > 0, "no outcome %s for status %d", k, status)
				}
			}
		}
	}
	c.httpCallers()
}

func isErr(x *Exec, st *State, err *Term) bool {
	b, dec := isErrTerm(x, st, err)
	return dec && b
}

// httpCallers: whoever sends a request fails if the request failed and uses only what it got.
func (c *C) httpCallers() {
	T := c.T
	isHTTP := func(name string) bool { return name == "internal/http.Get" || name == "internal/http.Post" }
	// functions that hand on the results of a request are part of their callers
	he := c.P.Named("internal/http", "HttpError")
	wrapper := func(f *ssa.Function) bool {
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if types.Identical(deref(res.At(i).Type()), he) {
				return fnPkgPath(f) != c.P.Mod+"/internal/http"
			}
		}
		return false
	}
	callers := map[*ssa.Function]bool{}
	for _, f := range c.P.RepoFuncs() {
		if fnPkgPath(f) == c.P.Mod+"/internal/http" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && (isHTTP(c.P.fnName(g)) || wrapper(g)) {
						top := f
						for top.Parent() != nil {
							top = top.Parent()
						}
						if !wrapper(top) {
							callers[top] = true
						}
					}
				}
			}
		}
	}
	if !c.Anchor("senders of requests", len(callers) >= 1) {
		return
	}
	errT := types.Universe.Lookup("error").Type()
	for _, fn := range c.P.RepoFuncs() {
		if !callers[fn] {
			continue
		}
		name := c.P.fnName(fn)
		h := &Hooks{Forward: true, Pin: func(g *Term) bool { return g.op == OpCall }}
		h.Opaque = func(f *ssa.Function, n string) bool {
			return isHTTP(n) || f.Parent() == nil && f.Signature.Results().Len() > 0 && f != fn && !callers[f] && !wrapper(f)
		}
		h.Pure = isHTTP
		h.OnResult = func(x *Exec, st *State, ev *CallEvent, res *Term) {
			if !isHTTP(ev.Name) {
				return
			}
			if a := unMk(ev.Addrs[2]); a.op == OpAlloc {
				x.store(st, a, T.mk(OpCall, "#decoded", 0, nil, deref(a.typ), res))
			}
		}
		x := NewExec(c.P, T, h)
		_, outs := x.RunEntry(fn)
		c.Done(x, name)
		good, bad := 0, 0
		res := fn.Signature.Results()
		for _, o := range outs {
			if o.panic {
				continue
			}
			c.Paths++
			st := o.st
			p := c.Path(st)
			// the requests that were sent on this path
			state := map[*Term][2]int{} // per error result: 0 unknown, 1 nil, 2 set
			for a, v := range st.facts {
				if a.op == OpIsNil && a.args[0].op == OpRes && a.args[0].args[0].op == OpCall && isHTTP(a.args[0].args[0].str) && a.args[0].num > 0 {
					s := state[a.args[0].args[0]]
					s[a.args[0].num-1] = map[bool]int{true: 2, false: 1}[!v]
					state[a.args[0].args[0]] = s
				}
			}
			failed := false
			for _, s := range state {
				if s[0] == 2 || s[1] == 2 {
					failed = true
				}
			}
			if failed {
				bad++
				reported, empty := false, true
				for i := 0; i < res.Len(); i++ {
					r := c.resOf(o, i)
					if types.Identical(res.At(i).Type(), errT) {
						reported = reported || isErr(x, st, r) || r.contains1(func(t *Term) bool {
							return t.op == OpRes && t.num > 0 && isHTTP(t.args[0].str) && x.Proves(st, T.IsNil(t), false)
						})
						continue
					}
					zero := r.isNilConst() || r.op == OpZero || r == strConst(c, "") || r.op == OpConst
					empty = empty && zero
				}
				c.Ob("caller:failed:"+name, fn.Pos(), empty && (reported || !hasErrorOnly(res, errT)), "a failed request yields %v%s", o.res, p)
				continue
			}
			// anything that depends on a response needs both errors to be absent
			uses := map[*Term]bool{}
			look := func(t *Term) {
				t.contains1(func(u *Term) bool {
					if u.op == OpCall && isHTTP(u.str) {
						uses[u] = true
					}
					return false
				})
			}
			for i := 0; i < res.Len(); i++ {
				look(c.resOf(o, i))
				look(x.content(st, unMk(c.resOf(o, i))))
			}
			for u := range uses {
				good++
				c.Ob("caller:checked:"+name, fn.Pos(), state[u] == [2]int{1, 1}, "the result depends on a request that may have failed%s", p)
			}
		}
		c.Ob("caller:possible:"+name, fn.Pos(), bad > 0 && good > 0, "%d failing and %d successful outcomes", bad, good)
	}
}

// hasErrorOnly reports whether failing can only be reported by an error: there is an error result
// and no other result that could report it.
func hasErrorOnly(res *types.Tuple, errT types.Type) bool {
	hasErr, other := false, false
	for i := 0; i < res.Len(); i++ {
		if types.Identical(res.At(i).Type(), errT) {
			hasErr = true
		} else if b, ok := res.At(i).Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			other = true
		}
	}
	return hasErr && !other
}

func init() {
	register(&Check{
		ID: "C26", Title: "Failed HTTP requests never count as successful", Min: 30,
		Technique: "symbolic evaluation with a model of the HTTP client for every class of status; fact rule on all callers",
		Rule:      "on every path of the request functions, exactly one request with the given method, url, parameters and result is sent; a transport error yields an error, a status that is not 2xx the server's error with that status, and only a 2xx status the response; every function that sends a request yields an error (or nothing) if either error is set, and a result that depends on the response only if both are known to be absent",
		Run:       runHTTP,
	})
}
