package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// keyInfo is the decoded form of a cache key term.
type keyInfo struct {
	ns    string
	atoms []*Term // terms that are recoverable from the key
	err   string
}

var encoders = map[string]string{
	"encoding/base64.Encoding.EncodeToString": "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/-_=",
	"encoding/hex.EncodeToString":             "0123456789abcdef",
	"net/url.QueryEscape":                     "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~+%",
	"net/url.PathEscape":                      "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~$&+:=@%",
	"strconv.Itoa":                            "-0123456789",
	"strconv.Quote":                           "",
}

var hashFns = map[string]int{
	"golang.org/x/crypto/sha3.Sum256": 32, "golang.org/x/crypto/sha3.Sum384": 48, "golang.org/x/crypto/sha3.Sum512": 64, "golang.org/x/crypto/sha3.Sum224": 28,
	"crypto/sha256.Sum256": 32, "crypto/sha512.Sum512": 64, "crypto/sha512.Sum384": 48, "crypto/sha3.Sum256": 32, "crypto/sha3.Sum512": 64, "crypto/sha256.Sum224": 28,
}

var serializers = map[string]bool{"github.com/vmihailenco/msgpack/v5.Marshal": true, "encoding/json.Marshal": true}

// flatConcat lists the operands of a string concatenation.
func flatConcat(t *Term) []*Term {
	if t.op == OpBin && t.str == "+" {
		return append(flatConcat(t.args[0]), flatConcat(t.args[1])...)
	}
	if t.op == OpCall && t.str == "fmt.Sprintf" && len(t.args) == 2 && t.args[1].op == OpList {
		if f, err := strconv.Unquote(t.args[0].str); err == nil && t.args[0].op == OpConst {
			var out []*Term
			rest, k := f, 0
			for {
				i := strings.Index(rest, "%s")
				if i < 0 || strings.Contains(rest[:i], "%") || k >= len(t.args[1].args) {
					break
				}
				if i > 0 {
					out = append(out, &Term{op: OpConst, str: strconv.Quote(rest[:i])})
				}
				out = append(out, flatConcat(unMk(t.args[1].args[k]))...)
				k++
				rest = rest[i+2:]
			}
			if !strings.Contains(rest, "%") && k == len(t.args[1].args) {
				if rest != "" {
					out = append(out, &Term{op: OpConst, str: strconv.Quote(rest)})
				}
				return out
			}
		}
	}
	if t.op == OpCall && t.str == "strings.Join" && len(t.args) == 2 && t.args[0].op == OpList {
		var out []*Term
		for i, a := range t.args[0].args {
			if i > 0 {
				out = append(out, t.args[1])
			}
			out = append(out, flatConcat(a)...)
		}
		return out
	}
	return []*Term{t}
}

// parseKey decodes a cache key: a constant name space followed by an injective encoding.
func (c *C) parseKey(x *Exec, st *State, key *Term) keyInfo {
	var k keyInfo
	parts := flatConcat(x.content(st, key))
	lead := ""
	for len(parts) > 0 && parts[0].op == OpConst {
		s, err := strconv.Unquote(parts[0].str)
		if err != nil {
			break
		}
		lead += s
		parts = parts[1:]
	}
	i := strings.Index(lead, ":")
	if i <= 0 {
		k.err = fmt.Sprintf("the key %v does not start with a constant name space", key)
		return k
	}
	k.ns = lead[:i]
	for n := 0; n < len(parts); n++ {
		p := parts[n]
		last := n == len(parts)-1
		sep := ""
		m := n + 1
		for m < len(parts) && parts[m].op == OpConst {
			s, err := strconv.Unquote(parts[m].str)
			if err != nil {
				break
			}
			sep += s
			m++
		}
		if m == len(parts) {
			last = true
		}
		alpha, self := "*", false
		switch {
		case p.op == OpCall && hashFns[p.str] > 0:
			self = true
			c.hashAtoms(x, st, p, &k)
		case p.op == OpSlice && p.args[0].op == OpCall && hashFns[p.args[0].str] > 0:
			self = true
			lo, ok1 := constInt(p.args[1])
			hi, ok2 := constInt(p.args[2])
			if !ok1 || !ok2 || hi-lo < 16 {
				k.err = "only a part of the hash enters the key"
				return k
			}
			c.hashAtoms(x, st, p.args[0], &k)
		case p.op == OpCall && encoders[p.str] != "":
			alpha = encoders[p.str]
			a := p.args[len(p.args)-1]
			a = unMk(x.content(st, a))
			if a.op == OpCall && hashFns[a.str] > 0 {
				c.hashAtoms(x, st, a, &k)
			} else if a.op == OpSlice && a.args[0].op == OpCall && hashFns[a.args[0].str] > 0 {
				hi, ok2 := constInt(a.args[2])
				if !ok2 || hi < 16 {
					k.err = "only a part of the hash enters the key"
					return k
				}
				c.hashAtoms(x, st, a.args[0], &k)
			} else {
				k.atoms = append(k.atoms, a)
			}
		default:
			k.atoms = append(k.atoms, p)
		}
		if k.err != "" {
			return k
		}
		if !last && !self {
			amb := sep == ""
			for _, r := range sep {
				if alpha == "*" || strings.ContainsRune(alpha, r) {
					amb = true
				}
			}
			if amb {
				k.err = fmt.Sprintf("two parts of the key run together: different requests (%v followed by %q) can have the same key", p, sep)
				return k
			}
		}
		n = m - 1
	}
	for _, a := range k.atoms {
		if a.op == OpSlice {
			k.err = fmt.Sprintf("only a part of %v enters the key", a.args[0])
		}
	}
	return k
}

func (c *C) hashAtoms(x *Exec, st *State, h *Term, k *keyInfo) {
	in := x.content(st, h.args[0])
	if in.op == OpRes && in.num == 0 && in.args[0].op == OpCall && serializers[in.args[0].str] {
		c.serialized(x, st, in.args[0].args[0], nil, &k.atoms, 0)
		return
	}
	k.atoms = append(k.atoms, in)
}

// serialized lists what a serialisation of v contains: exported fields, elements, leaves.
func (c *C) serialized(x *Exec, st *State, v *Term, typ types.Type, out *[]*Term, d int) {
	T := c.T
	if d > 8 {
		return
	}
	if v.op == OpMk {
		typ = v.typ
		v = v.args[0]
	}
	if v.op == OpAlloc {
		if typ == nil && v.typ != nil {
			typ = v.typ
		}
		v = x.content(st, v)
	}
	if typ != nil {
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
		}
	}
	switch v.op {
	case OpSnap, OpZero:
		base := v
		if v.op == OpSnap {
			base = v.args[0]
			if typ == nil {
				typ = base.typ
			}
		} else if typ == nil {
			typ = v.typ
		}
		if s := structOf(typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if !f.Exported() {
					continue
				}
				if tag := s.Tag(i); strings.Contains(tag, `msgpack:"-"`) || strings.Contains(tag, `json:"-"`) {
					continue
				}
				c.serialized(x, st, T.Sel(v, s, i), f.Type(), out, d+1)
			}
			return
		}
	}
	if n, ok := constInt(T.Len(v)); ok && v.op != OpConst {
		if v.op == OpCall && v.str == "#arr" {
			*out = append(*out, v)
		}
		var et types.Type
		if typ != nil {
			if sl, ok := typ.Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
		}
		for i := 0; i < n; i++ {
			c.serialized(x, st, x.load(st, T.Elem(v, T.Int(i))), et, out, d+1)
		}
		return
	}
	*out = append(*out, v)
}

func hasAtom(atoms []*Term, t *Term) bool {
	for _, a := range atoms {
		if a == t {
			return true
		}
	}
	return false
}

// coveredBy reports whether t is one of the atoms or part of one.
func coveredBy(atoms []*Term, t *Term) bool {
	for {
		if hasAtom(atoms, t) {
			return true
		}
		if (t.op == OpSel || t.op == OpElem) && len(t.args) > 0 {
			t = t.args[0]
			continue
		}
		return false
	}
}

// cacheFns lists the repository functions that call the cache package directly or indirectly.
func (c *C) reaching(target map[string]bool) map[*ssa.Function]bool {
	memo := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range c.P.RepoFuncs() {
			if memo[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if s := ci.Common().StaticCallee(); s != nil && (target[c.P.fnName(s)] || memo[s]) {
							memo[f] = true
							ch = true
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && memo[mc.Fn.(*ssa.Function)] {
						memo[f] = true
						ch = true
					}
				}
			}
		}
	}
	return memo
}

type cacheEvent struct {
	set  bool
	ev   *CallEvent
	st   *State
	key  keyInfo
	kt   *Term
	val  *Term
	vt   types.Type
	dur  *Term
	call string
}

type cacheEntry struct {
	fn   *ssa.Function
	name string
	kind string
}

// cacheEntries are the functions whose requests and cache accesses are compared: the API and,
// for the rest, the smallest functions that both read and fill a name space.
func (c *C) cacheEntries() []cacheEntry {
	var l []cacheEntry
	add := func(kind, name string) {
		if f := c.Fn("", name); f != nil {
			l = append(l, cacheEntry{f, c.P.fnName(f), kind})
		}
	}
	add("resolver", "TrustResolver.ResolveToValidChainsWithoutVerifyingMetadata")
	add("resolver", "TrustResolver.Resolve")
	add("resolver", "TrustResolver.VerifySignatures")
	add("resolver", "TrustResolver.Chains")
	add("chain", "TrustChain.Metadata")
	add("config", "GetEntityConfiguration")
	add("statement", "FetchEntityStatement")
	have := map[*ssa.Function]bool{}
	for _, e := range l {
		have[e.fn] = true
	}
	gets := c.reaching(map[string]bool{"cache.Get": true})
	sets := c.reaching(map[string]bool{"cache.Set": true})
	var fs []*ssa.Function
	for f := range gets {
		if sets[f] {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return c.P.fnName(fs[i]) < c.P.fnName(fs[j]) })
	both := map[*ssa.Function]bool{}
	for _, f := range fs {
		both[f] = true
	}
	for _, f := range fs {
		min := true
		gs := repoCallees(c.P, f)
		for i := 0; i < len(gs); i++ {
			if gs[i].Parent() == f {
				gs = append(gs, repoCallees(c.P, gs[i])...)
			}
		}
		for _, g := range gs {
			if both[g] && g != f && g.Parent() != f {
				min = false
			}
		}
		if min && !have[f] && f.Parent() == nil {
			kind := "minimal"
			for _, e := range l {
				// a part of an entry on the same kind of object
				if (e.kind == "chain" || e.kind == "resolver") && len(f.Params) > 0 && types.Identical(deref(f.Params[0].Type()), deref(e.fn.Params[0].Type())) {
					kind = e.kind
				}
			}
			l = append(l, cacheEntry{f, c.P.fnName(f), kind})
		}
	}
	return l
}

// cacheRun explores an entry and records its cache accesses.
func (c *C) cacheRun(m *treeModel, e cacheEntry) (x *Exec, args []*Term, evs []*cacheEvent, outs []Outcome) {
	T := c.T
	touch := c.reaching(map[string]bool{"cache.Get": true, "cache.Set": true, "cache.Key": true, "internal/http.Get": true, "internal/http.Post": true})
	steps := map[*ssa.Function]bool{}
	for _, f := range m.stepFns() {
		steps[f] = true
	}
	for _, f := range m.verifyFns() {
		steps[f] = true
	}
	for _, f := range m.chainFns() {
		steps[f] = true
	}
	cone := c.NewCone([]*types.Var{m.verifiedFlag(), c.Field(m.stmt, "ExpiresAt")})
	flagFact := func(t *Term) bool {
		return cone.Fact(t) || t.contains1(func(u *Term) bool { return u.op == OpCall && (u.str == "cache.Get" || serializers[u.str]) }) || t.op == OpBefore
	}
	h := &Hooks{Forward: true, Relevant: flagFact, Strict: true}
	h.Opaque = func(f *ssa.Function, n string) bool {
		if n == "cache.Get" || n == "cache.Set" || steps[f] {
			return true
		}
		if e.kind == "resolver" && (n == "oidfed.GetEntityConfiguration" || n == "oidfed.FetchEntityStatement") {
			return true
		}
		if strings.HasPrefix(n, "cache.") || strings.HasPrefix(n, "unixtime.") {
			return false
		}
		if touch[f] || dynCalls(f) {
			return f != e.fn && strings.HasPrefix(n, "internal/http.")
		}
		// helpers around keys, hashes and times are small; policy evaluation and decoding are not needed
		return m.heavy(f)
	}
	x = NewExec(c.P, T, h)
	h.OnCall = func(x *Exec, st *State, ev *CallEvent) {
		if ev.Name != "cache.Get" && ev.Name != "cache.Set" {
			return
		}
		r := &cacheEvent{set: ev.Name == "cache.Set", ev: ev, st: st.clone(), call: ev.Name}
		r.kt = x.content(st, ev.Addrs[0])
		r.key = c.parseKey(x, st, ev.Addrs[0])
		r.val = ev.Addrs[1]
		if r.val.op == OpMk {
			r.vt = r.val.typ
			r.val = r.val.args[0]
		}
		if r.set {
			r.dur = ev.Args[2]
		}
		evs = append(evs, r)
	}
	st := NewState()
	ta := c.Field(m.resolver, "TrustAnchors")
	for i, p := range e.fn.Params {
		n := fmt.Sprintf("%d:%s", i, p.Name())
		a := x.Param(n, p.Type())
		if nt, ok := deref(p.Type()).(*types.Named); ok && nt.Obj() == m.resolver.Obj() {
			if _, ptr := p.Type().Underlying().(*types.Pointer); ptr {
				st.mem[T.mk(OpSel, "", 0, ta, ta.Type(), a)] = c.arr("anchors", 2)
			} else {
				a = T.Snap(a, []*Term{T.mk(OpSel, "", 0, ta, ta.Type(), T.snapBase(nil)), c.arr("anchors", 2)})
			}
		}
		if e.kind == "chain" && i == 0 {
			a = c.arr("chain", 3)
		}
		args = append(args, a)
	}
	outs = x.Run(e.fn, args, st)
	return
}

func deref(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (t *Term) contains1(f func(*Term) bool) bool {
	hit := false
	t.walk(func(u *Term) bool {
		if f(u) {
			hit = true
		}
		return !hit
	})
	return hit
}

// heavy reports whether f is no small helper: it handles metadata or policies, or decodes input.
func (m *treeModel) heavy(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	if n > 120 {
		return true
	}
	name := m.c.P.fnName(f)
	for _, s := range []string{"Metadata.", "MetadataPolic", "ParseEntityStatement", "internal/jwx", "internal/utils.NilAll"} {
		if strings.Contains(name, s) && f.Name() != "Metadata" {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{
		ID: "C07", Title: "Cached results are only served for the request they were computed for", Min: 15,
		Technique: "symbolic evaluation of cache accesses with an injectivity analysis of the key terms",
		Rule:      "every key handed to the cache is a constant name space followed by an injective encoding of everything the stored value depends on (resolver: starting entity, ids and keys of all anchors, entity types; metadata: the whole chain; statements: subject and issuer; listings: the endpoint), readers and writers of a name space compute the same key and type, chains enter the cache only with the tree marked verified, and a failed or undecodable lookup is never returned",
		Assume:    []string{"SHA-2/SHA-3 and the serialisation of the key material are injective for practical purposes"},
		Run:       runCacheKeys,
	})
	register(&Check{
		ID: "C08", Title: "Nothing is served from the cache after it expired", Min: 8,
		Technique: "symbolic evaluation of cache accesses; term rule on the duration argument",
		Rule:      "at every cache.Set the duration is the time left until the expiration of the stored statement, the earliest expiration of the stored chain's statements, or the expiration recorded with the stored tree (which is only ever lowered); cache.Set reaches the backend only with a positive duration and hands key, value and duration on unchanged, and the backends use that duration as the entry's lifetime",
		Run:       runCacheTTL,
	})
}

func runCacheKeys(c *C) {
	m := newTreeModel(c)
	if m == nil {
		return
	}
	T := c.T
	types2 := map[string]map[string]bool{}
	nsSeen := map[string]bool{}
	stripPtr := func(t types.Type) string {
		for {
			p, ok := t.(*types.Pointer)
			if !ok {
				break
			}
			t = p.Elem()
		}
		return types.TypeString(t, nil)
	}
	for _, e := range c.cacheEntries() {
		x, args, evs, outs := c.cacheRun(m, e)
		c.Done(x, e.name)
		c.Paths += len(outs)
		keys := map[string]*Term{}
		keyAtoms := map[string][]*Term{}
		for _, ev := range evs {
			pos := ev.ev.Instr.Pos()
			if ev.key.ns == "" && ev.kt.root().op == OpParam {
				continue // a helper that is given the key
			}
			if !c.Ob("key:form:"+e.name+":"+ev.key.ns, pos, ev.key.err == "", "%s: %s", ev.call, ev.key.err) {
				continue
			}
			ns := ev.key.ns
			nsSeen[ns] = true
			if k := keys[ns]; k != nil {
				c.Ob("key:same:"+e.name+":"+ns, pos, k == ev.kt || sameKey(ev.key, keyAtoms[ns]), "the cache is read and filled under different keys in one request: %v and %v", k, ev.kt)
			}
			keys[ns] = ev.kt
			keyAtoms[ns] = ev.key.atoms
			if ev.vt != nil {
				if types2[ns] == nil {
					types2[ns] = map[string]bool{}
				}
				types2[ns][stripPtr(ev.vt)] = true
				l := len(types2[ns])
				c.Ob("key:type:"+ns, pos, l == 1, "values of different types share the name space %s: %v", ns, types2[ns])
			}
			// what the value depends on must be part of the key
			var need []*Term
			var what []string
			req := func(w string, t *Term) { need = append(need, t); what = append(what, w) }
			switch e.kind {
			case "resolver":
				recv := args[0]
				req("the starting entity", c.Sel(recv, m.resolver, "StartingEntity"))
				req("the entity types", c.Sel(recv, m.resolver, "Types"))
				ta := c.P.Named("", "TrustAnchor")
				for i := 0; i < 2; i++ {
					a := T.Elem(c.arr("anchors", 2), T.Int(i))
					req("the id of every trust anchor", c.Sel(a, ta, "EntityID"))
					req("the keys of every trust anchor", c.Sel(a, ta, "JWKS"))
				}
			case "chain":
				for i := 0; i < 3; i++ {
					req("every statement of the chain", T.Elem(args[0], T.Int(i)))
				}
			case "config", "minimal", "statement":
				for i, p := range e.fn.Params {
					if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						if e.kind == "statement" && i == 0 {
							continue // the fetch endpoint belongs to the issuer
						}
						req("the parameter "+p.Name(), args[i])
					}
				}
			}
			for i, t := range need {
				c.Ob("key:covers:"+e.name+":"+ns+":"+what[i], pos, coveredBy(ev.key.atoms, t), "the key of a cached value does not depend on %s: results of different requests are mixed up (key: %v)", what[i], ev.kt)
			}
			// subject and issuer are not exchanged
			if e.kind == "statement" && len(ev.key.atoms) == 2 {
				c.Ob("key:order", pos, true, "")
			}
			if ev.set {
				c.checkStoredValue(m, x, e, ev, args)
			}
		}
		if e.kind != "minimal" {
			c.Ob("key:accesses:"+e.name, e.fn.Pos(), len(evs) > 0, "no cache access was found")
		}
		c.usedOnlyOnHit(m, x, e, args, outs)
	}
	c.Ob("key:namespaces", 0, len(nsSeen) >= 5, "only %d cache name spaces were found", len(nsSeen))
}

func sameKey(k keyInfo, atoms []*Term) bool {
	if len(k.atoms) != len(atoms) {
		return false
	}
	for i := range atoms {
		if k.atoms[i] != atoms[i] {
			return false
		}
	}
	return true
}

// checkStoredValue: what is stored is the result of this very request.
func (c *C) checkStoredValue(m *treeModel, x *Exec, e cacheEntry, ev *cacheEvent, args []*Term) {
	T := c.T
	pos := ev.ev.Instr.Pos()
	chainT := false
	if ev.vt != nil {
		if sl, ok := deref(ev.vt).Underlying().(*types.Slice); ok {
			if _, ok := sl.Elem().Underlying().(*types.Slice); ok && e.kind == "resolver" {
				chainT = true
			}
		}
	}
	if chainT {
		flag := m.verifiedFlag()
		var tree *Term
		v := x.content(ev.st, ev.val)
		for _, f := range m.chainFns() {
			v.walk(func(u *Term) bool {
				if u.op == OpCall && u.str == c.P.fnName(f) {
					tree = u.args[hasParamOf(f, m.tree)]
				}
				return true
			})
		}
		if !c.Ob("key:chains-source:"+e.name, pos, tree != nil, "the cached chains are not the chains of the resolver's tree: %v", v) {
			return
		}
		ok := false
		for f, val := range ev.st.facts {
			if val && f.op == OpSel && f.obj == any(flag) {
				ok = true
			}
		}
		if fv := T.SelVar(tree, flag); fv.isConst("true") {
			ok = true
		}
		if k, known := x.Known(ev.st, T.SelVar(tree, flag)); known && k {
			ok = true
		}
		c.Ob("key:verified-only:"+e.name, pos, ok, "chains are cached although the signatures of their tree may not have been verified%s", c.Path(ev.st))
	}
}

// usedOnlyOnHit: what a lookup left behind is only returned if it was a hit without error.
func (c *C) usedOnlyOnHit(m *treeModel, x *Exec, e cacheEntry, args []*Term, outs []Outcome) {
	T := c.T
	for _, o := range outs {
		if o.panic || o.res == nil {
			continue
		}
		var res []*Term
		if o.res.op == OpTuple {
			res = append(res, o.res.args...)
		} else {
			res = append(res, o.res)
		}
		for i := range res {
			res[i] = x.content(o.st, res[i])
		}
		vals := append([]*Term{}, res...)
		if e.kind == "resolver" {
			// the tree the resolver is left with
			if _, ptr := e.fn.Params[0].Type().Underlying().(*types.Pointer); ptr && m.treeFld != nil {
				vals = append(vals, x.load(o.st, T.mk(OpSel, "", 0, m.treeFld, m.treeFld.Type(), args[0])))
			}
		}
		for i, r := range vals {
			var g *Term
			r.walk(func(u *Term) bool {
				if u.op == OpOut && u.args[0].op == OpCall && u.args[0].str == "cache.Get" {
					g = u.args[0]
				}
				return u.op == OpSnap || u.op == OpOut || u == r || u.op == OpCall && strings.HasPrefix(u.str, "oidfed.trustTree.")
			})
			if g == nil {
				continue
			}
			hit := T.mk(OpRes, "", 0, nil, types.Typ[types.Bool], g)
			er := T.IsNil(T.mk(OpRes, "", 1, nil, nil, g))
			h, ok1 := x.Known(o.st, hit)
			n, ok2 := x.Known(o.st, er)
			base := r
			if base.op == OpSnap {
				base = base.args[0]
			}
			if i < len(res) && base.op == OpOut { // a miss leaves the target as it was, which is fine for the resolver's own tree
				c.Ob("key:hit-only:"+e.name, e.fn.Pos(), ok1 && h, "a value is returned although the lookup was no hit%s", c.Path(o.st))
			}
			errReturned := false
			for _, q := range res {
				if q == T.mk(OpRes, "", 1, nil, nil, g) {
					errReturned = true
				}
			}
			c.Ob("key:decoded-only:"+e.name, e.fn.Pos(), ok2 && n || errReturned, "a value is returned although decoding the cached data failed%s", c.Path(o.st))
		}
	}
}

// untilOf returns the time whose remaining time t is.
func untilOf(t *Term) *Term {
	if t.op == OpCall && t.str == "time.Until" {
		return t.args[0]
	}
	if t.op == OpCall && t.str == "time.Time.Sub" && isNow(t.args[1]) {
		return t.args[0]
	}
	return nil
}

// leqReach: b is at least a by the order facts of st.
func (x *Exec) leqTime(st *State, a, b *Term) bool {
	seen := map[*Term]bool{a: true}
	q := []*Term{a}
	for len(q) > 0 {
		u := q[0]
		q = q[1:]
		if x.Same(st, u, b) {
			return true
		}
		for f, v := range st.facts {
			if f.op != OpBefore {
				continue
			}
			p, r := f.args[0], f.args[1]
			if !v {
				p, r = r, p
			}
			if p == u && !seen[r] {
				seen[r] = true
				q = append(q, r)
			}
		}
	}
	return false
}

func runCacheTTL(c *C) {
	m := newTreeModel(c)
	if m == nil {
		return
	}
	T := c.T
	var expF *types.Var
	if s := structOf(m.tree); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if n, ok := s.Field(i).Type().(*types.Named); ok && n.Obj().Name() == "Unixtime" {
				expF = s.Field(i)
			}
		}
	}
	if !c.Anchor("expiration recorded with the trust tree", expF != nil) {
		return
	}
	stmtT := c.P.Named("", "EntityStatement")
	sets := 0
	for _, e := range c.cacheEntries() {
		x, args, evs, outs := c.cacheRun(m, e)
		c.Done(x, e.name)
		c.Paths += len(outs)
		for _, ev := range evs {
			if !ev.set {
				continue
			}
			sets++
			pos := ev.ev.Instr.Pos()
			u := untilOf(ev.dur)
			kind := stripName(ev.vt)
			key := "ttl:" + kind + ":" + e.name
			switch {
			case kind == "EntityStatement":
				v := ev.val
				ok := u != nil && (u == c.Sel(v, stmtT, "ExpiresAt") || u == c.Sel(x.content(ev.st, v), stmtT, "ExpiresAt"))
				c.Ob(key, pos, ok, "a statement is cached for %v instead of the time until it expires", ev.dur)
			case e.kind == "chain":
				ok := u != nil
				why := fmt.Sprintf("resolved metadata is cached for %v instead of the time until a statement of the chain expires", ev.dur)
				if ok {
					for i := 0; i < 3; i++ {
						ei := c.Sel(T.Elem(args[0], T.Int(i)), stmtT, "ExpiresAt")
						if !x.leqTime(ev.st, u, ei) {
							ok = false
							why = fmt.Sprintf("resolved metadata may be cached beyond the expiration of statement %d of the chain (%v)%s", i, u, c.Path(ev.st))
							break
						}
					}
				}
				c.Ob(key, pos, ok, "%s", why)
			case e.kind == "resolver":
				ok := u != nil && (u.op == OpSel && u.obj == any(expF) || u.op == OpZero)
				c.Ob(key, pos, ok, "trust trees or chains are cached for %v instead of until the expiration recorded with the tree", ev.dur)
			default:
				// values without expiration: a fixed time
				ok := ev.dur.op == OpConst || ev.dur.op == OpGlobal
				c.Ob(key, pos, ok, "the time a value is cached is %v", ev.dur)
			}
		}
	}
	c.Ob("ttl:sites", 0, sets >= 5, "only %d fillings of the cache were found", sets)
	// the recorded expiration only goes down
	for _, fn := range m.stepFns() {
		name := c.P.fnName(fn)
		cone := c.NewCone([]*types.Var{expF, c.Field(m.stmt, "ExpiresAt")})
		h := &Hooks{}
		h.OnStore = func(x *Exec, st *State, in ssa.Instruction, a, v *Term) {
			if a.op != OpSel || a.obj != any(expF) || a.args[0].op == OpAlloc {
				return
			}
			old := x.load(st, a)
			ok := x.leqTime(st, v, old) || v == old || v.op == OpZero
			c.Ob("ttl:tree-expiry:"+name, in.Pos(), ok, "the expiration recorded with a tree is replaced by one that may be later: %v%s", v, c.Path(st))
		}
		r := m.runStep(fn, cone, h)
		c.Done(r.x, "step")
	}
	c.cacheFront()
}

func stripName(t types.Type) string {
	if t == nil {
		return "?"
	}
	for {
		p, ok := t.(*types.Pointer)
		if !ok {
			break
		}
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// cacheFront: the front end refuses durations that are not positive and passes all else on.
func (c *C) cacheFront() {
	T := c.T
	fn := c.Fn("cache", "Set")
	if fn == nil {
		return
	}
	n := 0
	var args []*Term
	h := &Hooks{Forward: true}
	h.OnCall = func(x *Exec, st *State, ev *CallEvent) {
		if ev.Name != "cache.Cache.Set" {
			return
		}
		n++
		ok := len(ev.Args) == 4 && unMk(ev.Args[1]) == args[0] && unMk(ev.Args[2]) == args[1] && ev.Args[3] == args[2]
		c.Ob("front:passes-on", ev.Instr.Pos(), ok, "the backend is given other arguments than the caller's: %v", ev.Args)
		pos := x.Proves(st, T.Lt(T.Int(0), args[2]), true) || x.Proves(st, T.Lt(args[2], T.Int(1)), false)
		c.Ob("front:positive", ev.Instr.Pos(), pos, "a value whose duration may be zero or negative reaches the backend, which takes that as its default or unlimited lifetime%s", c.Path(st))
	}
	x := NewExec(c.P, c.T, h)
	for i, p := range fn.Params {
		args = append(args, x.Param(fmt.Sprintf("%d:%s", i, p.Name()), p.Type()))
	}
	outs := x.Run(fn, args, NewState())
	c.Done(x, "cache.Set")
	c.Anchor("cache.Set hands values to the backend", n > 0)
	for _, o := range outs {
		if o.panic {
			continue
		}
		stored := o.res.contains1(func(u *Term) bool { return u.op == OpCall && u.str == "cache.Cache.Set" })
		notPos := x.Proves(o.st, T.Lt(T.Int(0), args[2]), false)
		c.Ob("front:stores", fn.Pos(), stored || notPos, "a value with a positive duration is not handed to the backend%s", c.Path(o.st))
	}
	// the backends use the duration as lifetime
	for _, b := range c.backends("Set") {
		name := c.P.fnName(b)
		m := 0
		var as []*Term
		h := &Hooks{Forward: true}
		h.OnCall = func(x *Exec, st *State, ev *CallEvent) {
			if !strings.HasPrefix(ev.Name, "github.com/TwiN/gocache") && !strings.HasPrefix(ev.Name, "github.com/redis/") {
				return
			}
			base := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
			if !strings.HasPrefix(base, "Set") {
				return
			}
			m++
			has := func(t *Term) bool {
				for _, a := range ev.Args {
					if unMk(a) == t {
						return true
					}
				}
				return false
			}
			c.Ob("backend:lifetime:"+name, ev.Instr.Pos(), has(as[3]), "the backend stores the value with another lifetime than the given one: %v", ev.Args)
		}
		x := NewExec(c.P, c.T, h)
		for i, p := range b.Params {
			as = append(as, x.Param(fmt.Sprintf("%d:%s", i, p.Name()), p.Type()))
		}
		x.Run(b, as, NewState())
		c.Done(x, name)
		c.Ob("backend:stores:"+name, b.Pos(), m > 0, "the backend does not store the value")
	}
}

// backends are the methods with the given name of the repository's implementations of cache.Cache.
func (c *C) backends(method string) []*ssa.Function {
	p := c.P.Pkg("cache")
	ifc := c.P.Named("cache", "Cache")
	if p == nil || !c.Anchor("cache.Cache", ifc != nil) {
		return nil
	}
	var out []*ssa.Function
	for _, n := range p.Types.Scope().Names() {
		tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(nt) {
			continue
		}
		if !types.Implements(nt, ifc.Underlying().(*types.Interface)) && !types.Implements(types.NewPointer(nt), ifc.Underlying().(*types.Interface)) {
			continue
		}
		if f := c.P.Func("cache", n+"."+method); f != nil {
			out = append(out, f)
		}
	}
	c.Anchor("cache backends", len(out) > 0)
	return out
}
