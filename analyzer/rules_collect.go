package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C32", Title: "Collecting entities reports exactly those that match, with what was asked for",
		Rule:      "Symbolic evaluation of collecting, with the goroutines and channels evaluated cooperatively, for every kind of subordinate (without configuration or metadata, leaf, intermediate), every filter of the request matching or not, every kind of trust mark, and every claim asked for: an entity is reported, once, if and only if it matches; it has the claims asked for with the values of its own configuration or resolution and no others; intermediates are descended into with the same request and their entities are all reported.",
		Technique: "symbolic evaluation of all subordinate kinds, filters and claims; cooperative scheduling of goroutines",
		Min:       300,
		Run:       runCollect,
	})
}

const (
	collTA, collA, collB = "https://ta.example", "https://a.example", "https://b.example"
	collList             = "https://ta.example/list"
	collMark, collMark2  = "https://mark.example", "https://mark2.example"
)

const debugCollect = false

// collCase is one kind of federation and request.
type collCase struct {
	name  string
	kind  string // of the first subordinate: leaf, noconf, nometa, bare, empty, inter
	anch  string // of the trust anchor: "", noconf, nometa, bare, empty, nolist
	types []string
	query string // "", hit, miss
	marks []string
	own   []string // trust marks of the entity: type/state, state of ok, bad, foreign, broken
	noTA  bool     // the configuration of the trust anchor cannot be obtained for verification
	claim []string
	res   string // resolution: ok, marks, err
}

func (k *collCase) String() string { return k.name }

type collModel struct {
	rev                                      bool
	c                                        *C
	k                                        *collCase
	ent, req, stmt, pay, info, mark, md, res *types.Named
	reqT, resT                               *types.Named
	setUI                                    map[*ssa.Function]bool
	root                                     *ssa.Function
	log                                      map[string]any
	reqTerm                                  *Term
	ta                                       *Term
	conf                                     map[string]*Term // entity configurations
	metas                                    map[*Term]string // metadata pointers
	infos                                    []*Term
	result                                   *Term
	nested                                   []*Term
	verifies                                 bool
}

func (m *collModel) s(v string) *Term { return strConst(m.c, v) }

func (m *collModel) snap(base *Term, n *types.Named, fields map[string]*Term) *Term {
	T := m.c.T
	s := n.Underlying().(*types.Struct)
	var ov []*Term
	for i := 0; i < s.NumFields(); i++ {
		if v, ok := fields[s.Field(i).Name()]; ok {
			ov = append(ov, T.mk(OpSel, "", 0, s.Field(i), s.Field(i).Type(), T.snapBase(nil)), v)
		}
	}
	return T.Snap(base, ov)
}

func (m *collModel) strs(st *State, name string, l []string) *Term {
	if l == nil {
		return m.c.T.Nil()
	}
	var ts []*Term
	for _, e := range l {
		ts = append(ts, m.s(e))
	}
	return m.c.listIn(st, name, ts)
}

func hasStr(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

// what the metadata of an entity says
var (
	collTypes  = []string{"openid_provider", "federation_entity", "x_type"}
	collNames  = map[string]string{"openid_provider": "The Provider", "federation_entity": "Our Organization", "x_type": ""}
	collClaims = map[string][]string{"description": {"openid_provider"}, "logo_uri": {"openid_provider", "federation_entity"}, "policy_uri": {"federation_entity"}, "information_uri": {"openid_provider"}}
	collLists  = map[string][]string{"keywords": {"openid_provider", "federation_entity"}}
)

func (m *collModel) value(id, et, claim string) *Term {
	return m.c.T.mk(OpParam, "claim:"+id+":"+et+":"+claim, 0, nil, nil)
}

func runCollect(c *C) {
	m := &collModel{c: c, setUI: map[*ssa.Function]bool{}}
	m.ent, m.req, m.stmt, m.pay = c.P.Named("", "CollectedEntity"), c.P.Named("apimodel", "EntityCollectionRequest"), c.P.Named("", "EntityStatement"), c.P.Named("", "EntityStatementPayload")
	m.info, m.mark, m.md, m.res = c.P.Named("", "TrustMarkInfo"), c.P.Named("", "TrustMark"), c.P.Named("", "Metadata"), c.P.Named("apimodel", "ResolveRequest")
	m.resT = c.P.Named("", "ResolveResponsePayload")
	m.root = c.Fn("", "SimpleEntityCollector.CollectEntities")
	if !c.Anchor("collector types", m.ent != nil && m.req != nil && m.stmt != nil && m.pay != nil && m.info != nil && m.mark != nil && m.md != nil && m.res != nil && m.resT != nil && m.root != nil && len(m.root.Params) == 2) {
		return
	}
	for _, f := range c.P.RepoFuncs() {
		s := f.Signature
		if len(f.Params) != 4 || f.Parent() != nil || s.Results().Len() != 1 || !isErrorType(s.Results().At(0).Type()) {
			continue
		}
		if p, ok := f.Params[0].Type().(*types.Pointer); ok && types.Identical(p.Elem(), m.ent) && isString(f.Params[1].Type()) && isString(f.Params[2].Type()) && types.IsInterface(f.Params[3].Type()) {
			m.setUI[f] = true
		}
	}
	if !c.Anchor("setter of UI infos", len(m.setUI) > 0) {
		return
	}
	var cases []*collCase
	add := func(k collCase) {
		if k.kind == "" {
			k.kind = "leaf"
		}
		if k.res == "" {
			k.res = "marks"
		}
		cases = append(cases, &k)
	}
	for _, k := range []string{"leaf", "noconf", "nometa", "bare", "empty", "inter"} {
		add(collCase{name: "kind:" + k, kind: k})
		add(collCase{name: "excluded:" + k, kind: k, types: []string{"oauth_client"}})
	}
	for _, a := range []string{"noconf", "nometa", "bare", "empty", "nolist"} {
		add(collCase{name: "anchor:" + a, anch: a})
	}
	add(collCase{name: "types:hit", types: []string{"oauth_client", "federation_entity"}})
	add(collCase{name: "types:first", types: []string{"openid_provider"}})
	add(collCase{name: "types:miss", types: []string{"oauth_client", "openid_relying_party"}})
	add(collCase{name: "query:hit", query: "hit"})
	add(collCase{name: "query:miss", query: "miss"})
	add(collCase{name: "query:types", query: "hit", types: []string{"oauth_client"}})
	add(collCase{name: "query:types2", query: "miss", types: []string{"openid_provider"}})
	one, two := []string{collMark}, []string{collMark, collMark2}
	add(collCase{name: "marks:absent", marks: one})
	add(collCase{name: "marks:ok", marks: one, own: []string{collMark2 + " bad", collMark + " ok"}})
	add(collCase{name: "marks:bad", marks: one, own: []string{collMark + " bad"}})
	add(collCase{name: "marks:other", marks: one, own: []string{collMark2 + " ok"}})
	add(collCase{name: "marks:foreign", marks: one, own: []string{collMark + " foreign"}})
	add(collCase{name: "marks:foreign-and-ok", marks: one, own: []string{collMark + " foreign", collMark + " ok"}})
	add(collCase{name: "marks:broken", marks: one, own: []string{collMark + " broken"}})
	add(collCase{name: "marks:both", marks: two, own: []string{collMark + " ok", collMark2 + " ok"}})
	add(collCase{name: "marks:first", marks: two, own: []string{collMark + " ok", collMark2 + " bad"}})
	add(collCase{name: "marks:second", marks: two, own: []string{collMark + " bad", collMark2 + " ok"}})
	add(collCase{name: "marks:missing", marks: two, own: []string{collMark2 + " ok"}})
	add(collCase{name: "marks:anchor", marks: one, own: []string{collMark + " ok"}, noTA: true})
	add(collCase{name: "marks:inter", marks: one, kind: "inter"})
	add(collCase{name: "marks:types", marks: one, own: []string{collMark + " ok"}, types: []string{"oauth_client"}})
	add(collCase{name: "marks:query", marks: one, own: []string{collMark + " ok"}, query: "miss"})
	add(collCase{name: "all", marks: one, own: []string{collMark + " ok"}, query: "hit", types: []string{"openid_provider"}})
	all := []string{"entity_types", "display_name", "description", "logo_uri", "policy_uri", "information_uri", "keywords", "metadata", "trust_chain", "trust_marks"}
	own := []string{collMark + " ok", collMark2 + " bad", "https://mark3.example foreign"}
	for _, cl := range all {
		for _, r := range []string{"ok", "marks", "err"} {
			add(collCase{name: "claim:" + cl + ":" + r, claim: []string{cl}, own: own, res: r})
		}
		if cl != "metadata" && cl != "trust_chain" {
			continue
		}
		for _, r := range []string{"ok", "marks", "err"} {
			add(collCase{name: "claim:" + cl + "+marks:" + r, claim: []string{"trust_marks", cl}, own: own, res: r})
		}
	}
	for _, r := range []string{"ok", "marks", "err"} {
		add(collCase{name: "claim:all:" + r, claim: all, own: own, res: r})
		add(collCase{name: "claim:marks:anchor:" + r, claim: []string{"trust_marks"}, own: own, res: r, noTA: true})
	}
	add(collCase{name: "claim:other", claim: []string{"x_claim"}})
	add(collCase{name: "claim:none", claim: []string{}})
	add(collCase{name: "claim:filtered", claim: []string{"trust_marks"}, marks: one, own: own})
	for _, k := range cases {
		if debugCollect && k.name != os.Getenv("CASE") {
			continue
		}
		m.k = k
		m.rev = false
		m.run()
		m.rev = true
		m.run()
	}
}

func (m *collModel) confOf(x *Exec, st *State, id, kind string) *Term {
	c, T := m.c, m.c.T
	p := T.mk(OpParam, "conf:"+id, 0, nil, types.NewPointer(m.stmt))
	st.facts[T.IsNil(p)] = false
	pay := c.fieldOf(p, "EntityStatementPayload")
	md := c.fieldOf(pay, "Metadata")
	st.mem[c.fieldOf(pay, "Subject")] = m.s(id)
	st.mem[c.fieldOf(pay, "Issuer")] = m.s(id)
	if kind == "nometa" {
		st.mem[md] = T.Nil()
		return p
	}
	mp := T.mk(OpParam, "metadata:"+id, 0, nil, types.NewPointer(m.md))
	st.facts[T.IsNil(mp)] = false
	st.mem[md] = mp
	m.metas[mp] = id
	fe := c.fieldOf(mp, "FederationEntity")
	if kind == "leaf" || kind == "bare" {
		st.mem[fe] = T.Nil()
		return p
	}
	fp := T.mk(OpParam, "fedentity:"+id, 0, nil, fe.typ)
	st.facts[T.IsNil(fp)] = false
	st.mem[fe] = fp
	url := ""
	if kind == "inter" || kind == "" || kind == "nolist" {
		url = id + "/list"
	}
	st.mem[c.fieldOf(fp, "FederationListEndpoint")] = m.s(url)
	return p
}

func (m *collModel) metaOf(x *Exec, st *State, t *Term) (string, bool) {
	for p, id := range m.metas {
		if t == p || t == x.content(st, p) || t == x.load(st, p) {
			return id, true
		}
	}
	return "", false
}

func (m *collModel) run() {
	c, T, k := m.c, m.c.T, m.k
	h := &Hooks{Exact: true, Sched: true, MapRev: m.rev, Reenter: 8, MaxDepth: 40, Pin: func(g *Term) bool { return g.op == OpCall }}
	x := NewExec(c.P, T, h)
	st := NewState()
	m.metas, m.conf, m.log = map[*Term]string{}, map[string]*Term{}, map[string]any{}
	errT := types.Universe.Lookup("error").Type()
	failure := T.mk(OpParam, "failure", 0, nil, errT)
	st.facts[T.IsNil(failure)] = false
	m.conf[collTA] = m.confOf(x, st, collTA, k.anch)
	m.conf[collA] = m.confOf(x, st, collA, k.kind)
	m.conf[collB] = m.confOf(x, st, collB, "leaf")
	marks := map[string]*Term{} // the parsed mark of an info
	m.infos = nil
	state := map[*Term]string{}
	for i, o := range k.own {
		f := strings.Fields(o)
		info := m.snap(T.mk(OpParam, fmt.Sprintf("info%d", i), 0, nil, m.info), m.info, map[string]*Term{"TrustMarkType": m.s(f[0])})
		mk := T.mk(OpParam, fmt.Sprintf("mark%d", i), 0, nil, types.NewPointer(m.mark))
		st.facts[T.IsNil(mk)] = false
		sub := collA
		if f[1] == "foreign" {
			sub = collB
		}
		st.mem[c.fieldOf(mk, "Subject")] = m.s(sub)
		st.mem[c.fieldOf(mk, "TrustMarkType")] = m.s(f[0])
		marks[fmt.Sprint(i)] = mk
		m.infos = append(m.infos, info)
		state[info] = f[1]
	}
	infoOf := func(st *State, p *Term) int {
		for i, in := range m.infos {
			for _, v := range []*Term{p, x.load(st, p), x.content(st, p)} {
				if v == in || v.op == OpSnap && v.args[0] == in.args[0] {
					return i
				}
			}
		}
		return -1
	}
	st.mem[c.fieldOf(c.fieldOf(m.conf[collA], "EntityStatementPayload"), "TrustMarks")] = c.listIn(st, "marks", m.infos)
	st.mem[c.fieldOf(c.fieldOf(m.conf[collB], "EntityStatementPayload"), "TrustMarks")] = T.Nil()
	names := map[string]*Term{}
	for et, n := range collNames {
		names[et] = m.s(n)
	}
	query := m.s(map[string]string{"": "", "hit": "tprv", "miss": "xyz"}[k.query])
	m.reqTerm = m.snap(T.mk(OpParam, "request", 0, nil, m.req), m.req, map[string]*Term{
		"TrustAnchor": m.s(collTA), "TrustMarkTypes": m.strs(st, "rmarks", k.marks), "EntityTypes": m.strs(st, "rtypes", k.types),
		"NameQuery": query, "Claims": m.strs(st, "rclaims", k.claim),
	})
	entT := types.NewPointer(m.ent)
	nest := func(i int, id string) *Term {
		p := T.mk(OpParam, fmt.Sprintf("nested%d", i), 0, nil, entT)
		st.facts[T.IsNil(p)] = false
		st.mem[c.fieldOf(p, "EntityID")] = m.s(id)
		return p
	}
	n0, n1 := nest(0, "https://n0.example"), nest(1, collB)
	m.nested = []*Term{n0, n1}
	nestedList := c.listIn(st, "nested", m.nested)
	listed := c.listIn(st, "listed", []*Term{m.s(collA), m.s(collB), m.s(collA)})
	for i, v := range []*Term{m.s(collA), m.s(collB), m.s(collA)} {
		st.mem[T.Elem(listed, T.Int(i))] = v
	}
	res := T.mk(OpParam, "resolved", 0, nil, m.resT)
	m.result = res
	h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
		pos := ev.Instr.Pos()
		ret := func(ts ...*Term) ([]Outcome, bool) {
			if len(ts) == 1 {
				return []Outcome{{st: st, res: ts[0]}}, true
			}
			return []Outcome{{st: st, res: T.mk(OpTuple, "", 0, nil, nil, ts...)}}, true
		}
		event := func(kind string, v any) {
			key := fmt.Sprint(len(m.log))
			m.log[key] = v
			st.aux["#log"] += kind + ":" + key + ":;"
		}
		if debugCollect {
			fmt.Println("CALL", ev.Name, ev.Addrs)
		}
		sig := ev.Instr.Common().Signature()
		if ev.Fn != nil {
			sig = ev.Fn.Signature
		}
		switch {
		case strings.HasPrefix(ev.Name, "internal.Log") || strings.Contains(ev.Name, "logrus") || strings.HasPrefix(ev.Name, "internal/log"):
			return ret(T.mk(OpTuple, "", 0, nil, nil))
		case ev.Name == "oidfed.GetEntityConfiguration":
			id, ok := strOf(ev.Args[0])
			if !c.Ob("config:known", pos, ok && m.conf[id] != nil, "the configuration of %v is obtained%s", ev.Args[0], c.Path(st)) {
				return ret(T.Nil(), failure)
			}
			bad := id == collA && k.kind == "noconf" || id == collTA && k.anch == "noconf"
			if id == collTA && k.noTA && strings.Contains(st.aux["#log"], "list:") {
				bad = true
			}
			if bad {
				return ret(T.Nil(), failure)
			}
			return ret(m.conf[id], T.Nil())
		case sig.Params().Len() == 1 && sig.Results().Len() == 2 && sig.Recv() == nil && isString(sig.Params().At(0).Type()) && types.Identical(sig.Results().At(0).Type(), types.NewSlice(types.Typ[types.String])) && ev.Fn != nil && c.P.IsRepo(ev.Fn):
			u, ok := strOf(ev.Args[0])
			c.Ob("list:endpoint", pos, ok && u == collList, "the subordinates are listed at %v%s", ev.Args[0], c.Path(st))
			st = st.clone()
			event("list", u)
			if k.anch == "nolist" || u != collList {
				return ret(T.Nil(), failure)
			}
			return ret(listed, T.Nil())
		case strings.HasSuffix(ev.Name, "Metadata.GuessEntityTypes"):
			if _, ok := m.metaOf(x, st, ev.Args[0]); ok {
				st = st.clone()
				return ret(m.strs(st, "guessed", collTypes))
			}
		case strings.HasSuffix(ev.Name, "Metadata.GuessDisplayNames"):
			if id, ok := m.metaOf(x, st, ev.Args[0]); ok {
				st = st.clone()
				return ret(c.mapIn(x, st, "names:"+id, types.NewMap(types.Typ[types.String], types.Typ[types.String]), names))
			}
		case strings.HasSuffix(ev.Name, "Metadata.IterateStringClaim"), strings.HasSuffix(ev.Name, "Metadata.IterateStringSliceClaim"):
			id, ok := m.metaOf(x, st, ev.Args[0])
			tag, ok2 := strOf(ev.Args[1])
			if !ok || !ok2 {
				return nil, false
			}
			outs := []Outcome{{st: st, res: T.mk(OpTuple, "", 0, nil, nil)}}
			have := collClaims
			if strings.HasSuffix(ev.Name, "SliceClaim") {
				have = collLists
			}
			for _, et := range have[tag] {
				var next []Outcome
				for _, o := range outs {
					if o.panic {
						next = append(next, o)
						continue
					}
					for _, p := range x.call(o.st, ev.Instr, ev.Addrs[2], []*Term{m.s(et), m.value(id, et, tag)}, ev.Ctx) {
						p.st.ownTop()
						p.res = T.mk(OpTuple, "", 0, nil, nil)
						next = append(next, p)
					}
				}
				outs = next
			}
			return outs, true
		case m.setUI[ev.Fn]:
			st = st.clone()
			event("ui", [4]*Term{ev.Addrs[0], ev.Args[1], ev.Args[2], unIface(ev.Args[3])})
			return ret(T.Nil())
		case strings.HasSuffix(ev.Name, "TrustMarkInfo.TrustMark"):
			i := infoOf(st, ev.Addrs[0])
			if i < 0 {
				return nil, false
			}
			if state[m.infos[i]] == "broken" {
				return ret(T.Nil(), failure)
			}
			return ret(marks[fmt.Sprint(i)], T.Nil())
		case strings.HasSuffix(ev.Name, "TrustMarkInfo.VerifyFederation"):
			i := infoOf(st, ev.Addrs[0])
			if i < 0 {
				return nil, false
			}
			c.Ob("mark:anchor", pos, m.payOf(ev.Addrs[1], collTA), "a trust mark is verified for %v%s", ev.Addrs[1], c.Path(st))
			if s := state[m.infos[i]]; s == "bad" || s == "broken" {
				return ret(failure)
			}
			return ret(T.Nil())
		case strings.HasSuffix(ev.Name, "fuzzy.FindNormalizedFold"):
			l, ok := m.elems(x, st, ev.Addrs[1])
			var found []*Term
			st = st.clone()
			for _, e := range l {
				n, isStr := strOf(e)
				ok = ok && isStr
				if n == collNames["openid_provider"] && ev.Args[0] == m.s("tprv") {
					found = append(found, e)
				}
			}
			c.Ob("query:names", pos, ok, "the name query is applied to %v%s", ev.Addrs[1], c.Path(st))
			return ret(c.listIn(st, "matching", found))
		case strings.HasSuffix(ev.Name, "fuzzy.MatchNormalizedFold"):
			n, ok := strOf(ev.Args[1])
			hit := ok && n == collNames["openid_provider"] && ev.Args[0] == m.s("tprv")
			return ret(T.Const(fmt.Sprint(hit), types.Typ[types.Bool]))
		case ev.Name == "slices.Contains", ev.Name == "slices.Index":
			l, ok := m.elems(x, st, ev.Addrs[0])
			at := -1
			for i, e := range l {
				if _, isStr := strOf(e); !isStr {
					ok = false
				}
				if e == ev.Args[1] && at < 0 {
					at = i
				}
			}
			if _, isStr := strOf(ev.Args[1]); !ok || !isStr {
				return nil, false
			}
			if ev.Name == "slices.Index" {
				return ret(T.Int(at))
			}
			return ret(T.Const(fmt.Sprint(at >= 0), types.Typ[types.Bool]))
		case strings.Contains(ev.Name, "Intersect") && len(ev.Addrs) > 0:
			in := ev.Addrs
			if len(in) == 1 {
				in, _ = x.listOf(st, unMk(in[0]))
			}
			if len(in) != 2 {
				return nil, false
			}
			a, ok1 := x.listOf(st, unMk(in[0]))
			b, ok2 := x.listOf(st, unMk(in[1]))
			if ok1 && ok2 {
				var out []*Term
				for _, e := range a {
					for _, f := range b {
						if e == f {
							out = append(out, e)
							break
						}
					}
				}
				st = st.clone()
				return ret(c.listIn(st, "common", out))
			}
		case sig.Results().Len() >= 2 && types.Identical(sig.Results().At(0).Type(), m.resT) && len(ev.Args) > 0:
			rq := ev.Args[len(ev.Args)-1]
			st = st.clone()
			sub, _ := strOf(x.content(st, c.Sel(rq, m.res, "Subject")))
			ta, ok := x.listOf(st, unMk(x.content(st, c.Sel(rq, m.res, "TrustAnchor"))))
			ok = ok && len(ta) == 1 && ta[0] == m.s(collTA)
			c.Ob("resolve:request", pos, ok && (sub == collA || sub == collB), "%v is resolved to %v%s", sub, ta, c.Path(st))
			et := unMk(x.content(st, c.Sel(rq, m.res, "EntityTypes")))
			c.Ob("resolve:types", pos, et.isNilConst() || et.op == OpZero, "the metadata is resolved for %v only%s", et, c.Path(st))
			event("resolve", sub)
			rs := []*Term{m.resolved(sub)}
			for i := 1; i < sig.Results().Len()-1; i++ {
				rs = append(rs, T.Nil())
			}
			if k.res == "err" {
				rs[0] = T.Zero(m.resT)
				return ret(append(rs, failure)...)
			}
			st.facts[T.IsNil(c.Sel(rs[0], m.resT, "TrustMarks"))] = k.res == "ok"
			return ret(append(rs, T.Nil())...)
		case ev.Fn != nil && (ev.Fn == m.root || hasFn(x.stack, ev.Fn)) && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.NewSlice(entT)):
			if ev.Fn == m.root && !hasFn(x.stack, ev.Fn) {
				return nil, false
			}
			var rq *Term
			ids := map[string]bool{}
			for _, a := range ev.Addrs {
				m.idsIn(x, st, a, ids, 0)
				if v := x.content(st, a); a.op == OpSnap || v.op == OpSnap {
					for _, w := range []*Term{a, v} {
						if w.op == OpSnap && w.typ == nil || w == m.reqTerm {
							rq = w
						}
					}
				}
			}
			var sorted []string
			for id := range ids {
				sorted = append(sorted, id)
			}
			sort.Strings(sorted)
			c.Ob("nested:request", pos, rq == m.reqTerm, "an intermediate's subordinates are collected for another request%s", c.Path(st))
			c.Ob("nested:authority", pos, len(sorted) == 1 && sorted[0] == collA, "the subordinates of %q are collected%s", sorted, c.Path(st))
			st = st.clone()
			event("nested", "")
			return ret(nestedList)
		case strings.HasSuffix(ev.Name, "strset.New"):
			st = st.clone()
			set := T.mk(OpCall, "#makemap", x.incarnation(st, T.site(ev.Instr, ev.Ctx)), T.site(ev.Instr, ev.Ctx), sig.Results().At(0).Type())
			items, _ := x.listOf(st, unMk(ev.Addrs[0]))
			x.SetKeys(st, set, items...)
			st.facts[T.IsNil(set)] = false
			return ret(set)
		case strings.HasSuffix(ev.Name, "strset.Set.Has"), strings.HasSuffix(ev.Name, "strset.Set.Add"):
			set := unMk(x.content(st, ev.Addrs[0]))
			ks, ok := x.mapKeys(st, set)
			items, ok2 := x.listOf(st, unMk(ev.Addrs[1]))
			if !ok || !ok2 {
				return nil, false
			}
			if strings.HasSuffix(ev.Name, "Add") {
				st = st.clone()
				x.SetKeys(st, set, append(append([]*Term(nil), ks...), items...)...)
				return ret(T.mk(OpTuple, "", 0, nil, nil))
			}
			for _, i := range items {
				if has, _ := x.hasKey(st, ks, i); !has {
					return ret(T.Const("false", types.Typ[types.Bool]))
				}
			}
			return ret(T.Const("true", types.Typ[types.Bool]))
		}
		return nil, false
	}
	d := T.mk(OpParam, "collector", 0, nil, m.root.Params[0].Type())
	st.facts[T.IsNil(d)] = false
	outs := x.Run(m.root, []*Term{d, m.reqTerm}, st)
	c.Done(x, k.name)
	c.Anchor("results of collecting "+k.name, len(outs) > 0)
	for _, o := range outs {
		c.Paths++
		p := c.Path(o.st)
		if !c.Ob("total:"+k.name, m.root.Pos(), !o.panic && o.res != nil, "collecting panics or does not end (%s)%s", o.st.aux["#blocked"], p) {
			continue
		}
		m.judge(x, o, p)
	}
}

// field is a field of a collected entity.
func (m *collModel) field(x *Exec, st *State, e *Term, f string) *Term {
	if e.op == OpSnap || e.op == OpZero {
		return m.c.Sel(e, m.ent, f)
	}
	return x.load(st, m.c.fieldOf(e, f))
}

func hasFn(l []*ssa.Function, f *ssa.Function) bool {
	for _, g := range l {
		if g == f {
			return true
		}
	}
	return false
}

// elems lists the elements of a slice of known length.
func (m *collModel) elems(x *Exec, st *State, t *Term) ([]*Term, bool) {
	t = unMk(t)
	if l, ok := x.listOf(st, t); ok {
		return l, true
	}
	n, ok := constInt(m.c.T.Len(t))
	if t.op == OpCall && t.str == "#make" && len(t.args) > 0 {
		n, ok = constInt(t.args[0])
	}
	if !ok || n > 16 {
		return nil, false
	}
	var l []*Term
	for i := 0; i < n; i++ {
		l = append(l, x.load(st, m.c.T.Elem(t, m.c.T.Int(i))))
	}
	return l, true
}

// resolved is the result of resolving an entity.
func (m *collModel) resolved(id string) *Term {
	return m.c.T.mk(OpParam, "resolved:"+id, 0, nil, m.resT)
}

// payOf: p points to the payload of the entity's configuration.
func (m *collModel) payOf(p *Term, id string) bool {
	return p == m.c.fieldOf(m.conf[id], "EntityStatementPayload") || p == m.conf[id]
}

// idsIn collects the entity ids in a value.
func (m *collModel) idsIn(x *Exec, st *State, t *Term, out map[string]bool, d int) {
	t = unMk(t)
	if s, ok := strOf(t); ok {
		out[s] = true
		return
	}
	if d > 3 || t == m.reqTerm || x.content(st, t) == m.reqTerm {
		return
	}
	if l, ok := x.listOf(st, t); ok {
		for _, e := range l {
			m.idsIn(x, st, e, out, d+1)
		}
		return
	}
	v := x.content(st, t)
	ta := m.c.P.Named("", "TrustAnchor")
	if ta != nil {
		if s, ok := strOf(x.content(st, m.c.Sel(v, ta, "EntityID"))); ok {
			out[s] = true
		}
	}
}

// judge compares the collected entities with what the request asks for.
func (m *collModel) judge(x *Exec, o Outcome, p string) {
	c, T, k := m.c, m.c.T, m.k
	pos := m.root.Pos()
	l, ok := x.listOf(o.st, unMk(o.res))
	if o.res.isNilConst() || o.res.op == OpZero {
		l, ok = nil, true
	}
	if !c.Ob("result:"+k.name, pos, ok, "the collected entities are %v%s", o.res, p) {
		return
	}
	got := map[string][]*Term{}
	for _, e := range l {
		id, ok := strOf(m.field(x, o.st, e, "EntityID"))
		c.Ob("result:"+k.name, pos, ok, "an entity with id %v is reported%s", m.field(x, o.st, e, "EntityID"), p)
		got[id] = append(got[id], e)
	}
	// the filters of the request
	match := func(own []string) bool {
		if k.types != nil {
			hit := false
			for _, t := range k.types {
				hit = hit || hasStr(collTypes, t)
			}
			if !hit {
				return false
			}
		}
		if k.query == "miss" {
			return false
		}
		for _, t := range k.marks {
			if k.noTA || !hasStr(own, t+" ok") {
				return false
			}
		}
		return true
	}
	reached := k.anch == ""
	expect := func(id string, want bool, why string) {
		n := 0
		if want {
			n = 1
		}
		c.Ob("reported:"+k.name, pos, len(got[id]) == n, "%s %s is reported %d times%s", why, id, len(got[id]), p)
	}
	expect(collA, reached && k.kind != "noconf" && k.kind != "nometa" && match(k.own), "the subordinate ("+k.kind+")")
	nested := reached && k.kind == "inter"
	expect("https://n0.example", nested, "the intermediate's entity")
	expect(collB, reached && (match(nil) || nested), "the other subordinate")
	n := 0
	for _, e := range eventsOf(o.st) {
		if e.kind == "nested" {
			n++
		}
	}
	c.Ob("nested:"+k.name, pos, (n > 0) == nested, "the intermediate's subordinates are collected %d times%s", n, p)
	for id, es := range got {
		switch id {
		case collA, collB:
			for _, e := range es {
				if e != m.nested[1] {
					m.contents(x, o.st, id, e, p)
				}
			}
		case "https://n0.example":
		default:
			c.Ob("reported:"+k.name, pos, false, "%s is reported%s", id, p)
		}
	}
	_ = T
}

func (m *collModel) contents(x *Exec, st *State, id string, e *Term, p string) {
	c, T, k := m.c, m.c.T, m.k
	pos := m.root.Pos()
	asked := func(cl string) bool { return k.claim == nil || hasStr(k.claim, cl) }
	named := func(cl string) bool { return hasStr(k.claim, cl) }
	field := func(f string) *Term { return m.field(x, st, e, f) }
	none := func(t *Term) bool { return t.isNilConst() || t.op == OpZero }
	// entity types
	et := field("EntityTypes")
	if asked("entity_types") {
		l, ok := x.listOf(st, unMk(et))
		ok = ok && len(l) == len(collTypes)
		for i := range l {
			ok = ok && l[i] == m.s(collTypes[i])
		}
		c.Ob("contents:types:"+k.name, pos, ok, "the entity types are %v%s", et, p)
	} else {
		c.Ob("contents:types:"+k.name, pos, none(et), "the entity types are not asked for, but are %v%s", et, p)
	}
	// UI infos
	want := map[string]*Term{}
	for _, src := range []map[string][]string{collClaims, collLists} {
		for cl, ets := range src {
			for _, t := range ets {
				if asked(cl) {
					want[t+" "+cl] = m.value(id, t, cl)
				}
			}
		}
	}
	if asked("display_name") {
		for t, n := range collNames {
			if n != "" {
				want[t+" display_name"] = m.s(n)
			}
		}
	}
	for _, ev := range eventsOf(st) {
		if ev.kind != "ui" {
			continue
		}
		u := m.log[ev.key].([4]*Term)
		if u[0] != e && x.content(st, u[0]) != e {
			continue
		}
		t, _ := strOf(u[1])
		cl, _ := strOf(u[2])
		w := want[t+" "+cl]
		if c.Ob("contents:ui:"+k.name, pos, w != nil, "the UI info %s of %s is set to %v%s", cl, t, u[3], p) {
			c.Ob("contents:ui:"+k.name, pos, x.Same(st, u[3], w), "the UI info %s of %s is %v instead of %v%s", cl, t, u[3], w, p)
		}
		delete(want, t+" "+cl)
	}
	var rest []string
	for w := range want {
		rest = append(rest, w)
	}
	sort.Strings(rest)
	c.Ob("contents:ui:"+k.name, pos, len(rest) == 0, "the UI infos %q are missing%s", rest, p)
	// resolved claims
	ok := k.res != "err"
	r := m.resolved(id)
	for f, cl := range map[string]string{"metadata": "metadata", "TrustChain": "trust_chain"} {
		v := field(f)
		if named(cl) && ok {
			w := c.Sel(r, m.resT, map[string]string{"metadata": "Metadata", "TrustChain": "TrustChain"}[f])
			c.Ob("contents:resolved:"+k.name, pos, v == w || x.Same(st, v, w), "the %s is %v instead of %v%s", cl, v, w, p)
		} else {
			c.Ob("contents:resolved:"+k.name, pos, none(v), "the %s is %v%s", cl, v, p)
		}
	}
	tm := field("TrustMarks")
	switch {
	case !named("trust_marks"):
		c.Ob("contents:marks:"+k.name, pos, none(tm), "the trust marks are not asked for, but are %v%s", tm, p)
	case k.res == "marks" && (named("metadata") || named("trust_chain")):
		w := c.Sel(r, m.resT, "TrustMarks")
		c.Ob("contents:marks:"+k.name, pos, tm == w || x.Same(st, tm, w), "the trust marks are %v instead of the resolved ones%s", tm, p)
	default:
		var w []*Term
		if id == collA && !k.noTA {
			for i, own := range k.own {
				if strings.HasSuffix(own, " ok") {
					w = append(w, m.infos[i])
				}
			}
		}
		l, ok := x.listOf(st, unMk(tm))
		if none(tm) {
			l, ok = nil, true
		}
		ok = ok && len(l) == len(w)
		for i := range w {
			ok = ok && i < len(l) && (l[i] == w[i] || x.content(st, l[i]) == w[i] || l[i].op == OpSnap && l[i].args[0] == w[i].args[0])
		}
		c.Ob("contents:marks:"+k.name, pos, ok, "the trust marks are %v instead of the %d verified ones%s", l, len(w), p)
	}
	ex := field("Extra")
	c.Ob("contents:extra:"+k.name, pos, none(ex), "there are further claims %v%s", ex, p)
	_ = T
}
