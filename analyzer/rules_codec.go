package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C29", Title: "Decoding and encoding keep every member of a message",
		Rule:      "Type-level search for structs with further members or with a promoted codec, and symbolic evaluation of every codec method of the module against a model of the JSON, YAML and msgpack encodings: decoding a message with any of its known members and further ones sets exactly the fields of the members present, keeps exactly the others in Extra and fails if the encoding fails; encoding gives every field under its name and every further member; a value that was cached is restored with the same fields and the same claims marked as set.",
		Technique: "type analysis and symbolic evaluation of the codecs, including reflection, with the struct types as oracle",
		Min:       250,
		Run:       runCodec,
	})
}

// receivedOnly are types that are only ever decoded.
var receivedOnly = map[string]bool{"OIDCTokenResponse": true}

const (
	mpPkg   = "github.com/vmihailenco/msgpack/v5."
	yamlPkg = "gopkg.in/yaml.v3."
)

// codecModel models the encodings. A document is the symbol of the message under test (data), the
// encoding #enc(v) of a value or an object #obj of encoded members.
type codecModel struct {
	c         *C
	data      *Term
	present   map[string]bool // members of data that are known to the type under test
	known     []string
	extras    []string
	names     map[*Term][]string // of objects
	enc       string
	opaqueDoc bool // nothing is known about the members of data
	ident     bool // decoding may give the very value that was encoded
}

// encField is a member of the encoding of a struct.
type encField struct {
	name string
	path []int
	v    *types.Var
}

// encFields lists the members of the encoding of a struct.
func encFields(s *types.Struct, enc string) (l []encField) {
	at := map[string]int{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		tag, has := reflect.StructTag(s.Tag(i)).Lookup(enc)
		n, opts, _ := strings.Cut(tag, ",")
		if has && n == "-" && opts == "" {
			continue
		}
		in, isStruct := f.Type().Underlying().(*types.Struct)
		inline := n == "" && f.Embedded() && enc != "yaml" || enc == "yaml" && strings.Contains(opts, "inline")
		if inline && isStruct {
			for _, e := range encFields(in, enc) {
				e.path = append([]int{i}, e.path...)
				if j, dup := at[e.name]; dup && len(l[j].path) <= len(e.path) {
					continue
				}
				at[e.name] = len(l)
				l = append(l, e)
			}
			continue
		}
		if !f.Exported() {
			continue
		}
		if n == "" {
			n = f.Name()
			if enc == "yaml" {
				n = strings.ToLower(n)
			}
		}
		e := encField{n, []int{i}, f}
		if j, dup := at[n]; dup {
			l[j] = e
			continue
		}
		at[n] = len(l)
		l = append(l, e)
	}
	return l
}

func (m *codecModel) selPath(x *Exec, st *State, v *Term, s *types.Struct, path []int) *Term {
	for _, i := range path {
		if v = m.c.T.Sel(v, s, i); v.op == OpSel || v.op == OpElem {
			v = x.load(st, v)
		}
		s, _ = s.Field(i).Type().Underlying().(*types.Struct)
	}
	return v
}

func (m *codecModel) addrPath(x *Exec, p *Term, s *types.Struct, path []int) *Term {
	for _, i := range path {
		p = x.fieldAddr(p, s, i)
		s, _ = s.Field(i).Type().Underlying().(*types.Struct)
	}
	return p
}

func (m *codecModel) raw(enc string, v *Term) *Term {
	return m.c.T.mk(OpCall, "#enc:"+enc, 0, nil, types.NewSlice(types.Typ[types.Byte]), v)
}

func (m *codecModel) object(enc string, members map[string]*Term) *Term {
	names := make([]string, 0, len(members))
	for n := range members {
		names = append(names, n)
	}
	sort.Strings(names)
	var vs []*Term
	for _, n := range names {
		vs = append(vs, members[n])
	}
	o := m.c.T.mk(OpCall, "#obj:"+enc+":"+strings.Join(names, ","), 0, nil, types.NewSlice(types.Typ[types.Byte]), vs...)
	m.names[o] = names
	return o
}

func (m *codecModel) isObject(t *Term) bool {
	return t.op == OpCall && strings.HasPrefix(t.str, "#obj:")
}

// member is the value of a member of data decoded as a given type.
func (m *codecModel) member(st *State, name string, t types.Type) *Term {
	if mt, ok := t.Underlying().(*types.Map); ok && m.enc == "msgpack" && isString(mt.Key()) {
		return m.c.mapIn(NewExec(m.c.P, m.c.T, nil), st, "member "+name, t, map[string]*Term{"x-one": m.c.T.mk(OpParam, "further in "+name, 0, nil, mt.Elem())})
	}
	v := m.c.T.mk(OpParam, "member "+name+" as "+typeStr(t), 0, nil, t)
	m.notNil(st, v, t)
	return v
}

func (m *codecModel) notNil(st *State, v *Term, t types.Type) {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Interface:
		st.facts[m.c.T.IsNil(v)] = false
	case *types.Slice:
		st.facts[m.c.T.IsNil(v)] = false
		st.facts[m.c.T.Empty(v)] = false
	}
}

// as is what decoding a document gives for a type.
func (m *codecModel) as(x *Exec, st *State, doc *Term, t types.Type) *Term {
	if doc.op == OpCall && strings.HasPrefix(doc.str, "#enc:") {
		v := doc.args[0]
		vt := v.typ
		if v.op == OpMk {
			v = v.args[0]
		}
		if m.ident && vt != nil {
			if types.Identical(vt, t) {
				return v
			}
			if p, ok := t.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), vt) {
				np := m.c.T.mk(OpParam, "new "+v.String(), 0, nil, t)
				st.mem[np] = v
				m.notNil(st, np, t)
				return np
			}
		}
	}
	if doc.op == OpParam && strings.HasPrefix(doc.str, "member ") {
		return m.member(st, strings.TrimSuffix(strings.TrimPrefix(doc.str, "member "), " raw"), t)
	}
	v := m.c.T.mk(OpCall, "#dec:"+typeStr(t), 0, nil, t, doc)
	m.notNil(st, v, t)
	return v
}

func (m *codecModel) codec(t types.Type, method string) *ssa.Function {
	if _, ok := t.(*types.Pointer); !ok {
		if _, named := t.(*types.Named); named && strings.HasPrefix(method, "Unmarshal") {
			t = types.NewPointer(t)
		}
	}
	ms := m.c.P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		o, ok := ms.At(i).Obj().(*types.Func)
		if ok && o.Name() == method && o.Pkg() != nil && (o.Pkg().Path() == m.c.P.Mod || strings.HasPrefix(o.Pkg().Path(), m.c.P.Mod+"/")) {
			return m.c.P.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (m *codecModel) fail(st *State, what string) *Term {
	e := m.c.T.mk(OpParam, "failure to "+what, 0, nil, types.Universe.Lookup("error").Type())
	st.facts[m.c.T.IsNil(e)] = false
	st.aux["#log"] += "fail;"
	return e
}

// members are the members of a document, if it is an object of known shape.
func (m *codecModel) members(x *Exec, st *State, doc *Term) (map[string]*Term, bool) {
	if doc == m.data && !m.opaqueDoc {
		out := map[string]*Term{}
		for _, n := range m.known {
			if m.present[n] {
				out[n] = m.c.T.mk(OpParam, "member "+n+" raw", 0, nil, types.NewSlice(types.Typ[types.Byte]))
			}
		}
		for _, n := range m.extras {
			out[n] = m.c.T.mk(OpParam, "member "+n+" raw", 0, nil, types.NewSlice(types.Typ[types.Byte]))
		}
		return out, true
	}
	if m.isObject(doc) {
		out := map[string]*Term{}
		for i, n := range m.names[doc] {
			out[n] = doc.args[i]
		}
		return out, true
	}
	return nil, false
}

func isRawMessage(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "RawMessage"
}

func isYAMLNode(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Node"
}

// decode stores what a document gives into the variable a pointer points to.
func (m *codecModel) decode(x *Exec, st *State, enc, what string, doc, target *Term) []Outcome {
	T := m.c.T
	var p *types.Pointer
	ok := target.op == OpMk && target.typ != nil
	if ok {
		p, ok = target.typ.Underlying().(*types.Pointer)
	}
	if !ok {
		// into a value that keeps a reference itself
		bad, good := st.clone(), st.clone()
		m.fail(bad, what)
		good.aux["#log"] += "filled;"
		good.mem[T.mk(OpCall, "#filled", 0, nil, nil, target)] = doc
		return []Outcome{{st: good, res: T.Nil()}, {st: bad, res: m.fail(bad, what)}}
	}
	ptr, et := target.args[0], p.Elem()
	suffix := map[string]string{"json": "JSON", "yaml": "YAML", "msgpack": "Msgpack"}[enc]
	if f := m.codec(et, "Unmarshal"+suffix); f != nil {
		if x.onStack(f) {
			m.c.Ob("recursion:"+what, f.Pos(), false, "the codec of %v calls itself", et)
			return nil
		}
		return x.Run(f, []*Term{ptr, doc}, st)
	}
	bad, good := st.clone(), st.clone()
	badOut := Outcome{st: bad, res: m.fail(bad, what)}
	ms, shaped := m.members(x, good, doc)
	switch u := et.Underlying().(type) {
	case *types.Struct:
		if n, ok := et.(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), m.c.P.Mod) {
			x.store(good, ptr, m.as(x, good, doc, et))
			break
		}
		for _, f := range encFields(u, enc) {
			var v *Term
			if shaped {
				r, ok := ms[f.name]
				if !ok {
					continue
				}
				v = m.as(x, good, r, f.v.Type())
			} else {
				v = T.mk(OpCall, "#member:"+f.name, 0, nil, f.v.Type(), doc)
			}
			x.store(good, m.addrPath(x, ptr, u, f.path), v)
		}
	case *types.Map:
		if !shaped {
			x.store(good, ptr, m.as(x, good, doc, et))
			break
		}
		cur := unMk(x.load(good, ptr))
		keys, ok := x.mapKeys(good, cur)
		if !ok {
			x.undecided("decoding into a map of unknown members")
		}
		vals := map[string]*Term{}
		if !cur.isNilConst() {
			for _, k := range keys {
				if s, ok := strOf(k); ok {
					vals[s] = x.load(good, T.Elem(cur, k))
				}
			}
		}
		for n, r := range ms {
			switch {
			case isRawMessage(u.Elem()):
				vals[n] = r
			case isYAMLNode(u.Elem()):
				nd := T.mk(OpParam, "node of "+r.String(), 0, nil, u.Elem())
				good.mem[nd] = r
				m.notNil(good, nd, u.Elem())
				vals[n] = nd
			default:
				vals[n] = m.as(x, good, r, u.Elem())
			}
		}
		if cur.isNilConst() || cur.op == OpZero {
			x.store(good, ptr, m.c.mapIn(x, good, "decoded "+doc.String(), et, vals))
			break
		}
		var ks []*Term
		for _, n := range sortedKeys(vals) {
			k := strConst(m.c, n)
			ks = append(ks, k)
			good.mem[T.Elem(cur, k)] = vals[n]
		}
		x.SetKeys(good, cur, ks...)
	default:
		if isRawMessage(et) {
			x.store(good, ptr, doc)
		} else {
			x.store(good, ptr, m.as(x, good, doc, et))
		}
	}
	return []Outcome{{st: good, res: T.Nil()}, badOut}
}

// encode gives the document of a value.
func (m *codecModel) encode(x *Exec, st *State, enc, what string, v *Term) []Outcome {
	T := m.c.T
	pair := func(st *State, d, e *Term) Outcome {
		return Outcome{st: st, res: T.mk(OpTuple, "", 0, nil, nil, d, e)}
	}
	suffix := map[string]string{"json": "JSON", "yaml": "YAML", "msgpack": "Msgpack"}[enc]
	if v.op == OpMk && v.typ != nil {
		if f := m.codec(v.typ, "Marshal"+suffix); f != nil {
			if x.onStack(f) {
				m.c.Ob("recursion:"+what, f.Pos(), false, "the codec of %v calls itself", v.typ)
				return nil
			}
			return x.Run(f, []*Term{v.args[0]}, st)
		}
	}
	good, bad := st.clone(), st.clone()
	d := m.document(x, good, enc, v)
	return []Outcome{pair(good, d, T.Nil()), pair(bad, T.Nil(), m.fail(bad, what))}
}

func (m *codecModel) document(x *Exec, st *State, enc string, v *Term) *Term {
	T := m.c.T
	t := v.typ
	val := v
	if v.op == OpMk {
		val = v.args[0]
	}
	if v.op != OpMk {
		return m.raw(enc, v)
	}
	if p, ok := t.(*types.Pointer); ok {
		if _, isStruct := p.Elem().Underlying().(*types.Struct); isStruct {
			t, val = p.Elem(), x.load(st, val)
		}
	}
	if t == nil {
		return m.raw(enc, v)
	}
	if isRawMessage(t) {
		return val
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		ms := map[string]*Term{}
		for _, f := range encFields(u, enc) {
			fv := m.selPath(x, st, val, u, f.path)
			if fv.op != OpMk && !types.IsInterface(f.v.Type()) {
				fv = T.mk(OpMk, "", 0, nil, f.v.Type(), fv)
			}
			ms[f.name] = m.raw(enc, fv)
		}
		return m.object(enc, ms)
	case *types.Map:
		mv := unMk(val)
		keys, ok := x.mapKeys(st, mv)
		if !ok || mv.isNilConst() {
			break
		}
		ms := map[string]*Term{}
		for _, k := range keys {
			s, ok := strOf(k)
			if !ok {
				return m.raw(enc, v)
			}
			e := x.content(st, x.load(st, T.Elem(mv, k)))
			switch {
			case isRawMessage(u.Elem()):
				ms[s] = e
			case isYAMLNode(u.Elem()):
				ms[s] = x.load(st, unMk(e))
			default:
				ms[s] = m.raw(enc, e)
			}
		}
		return m.object(enc, ms)
	}
	return m.raw(enc, v)
}

func (m *codecModel) hooks() *Hooks {
	T := m.c.T
	h := &Hooks{Forward: true, Reflect: true, Exact: true, Deep: true, Pin: func(g *Term) bool { return g.op == OpCall || g.op == OpParam }, Relevant: func(a *Term) bool { return true }}
	h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
		what := ev.Name
		switch ev.Name {
		case "encoding/json.Unmarshal":
			return m.decode(x, st.clone(), "json", what, unIface(ev.Args[0]), ev.Addrs[1]), true
		case mpPkg + "Unmarshal":
			return m.decode(x, st.clone(), "msgpack", what, unIface(ev.Args[0]), ev.Addrs[1]), true
		case yamlPkg + "Unmarshal":
			return m.decode(x, st.clone(), "yaml", what, unIface(ev.Args[0]), ev.Addrs[1]), true
		case yamlPkg + "Node.Decode":
			doc := ev.Addrs[0]
			if doc != m.data {
				doc = x.load(st, unMk(doc))
			}
			return m.decode(x, st.clone(), "yaml", what, doc, ev.Addrs[1]), true
		case yamlPkg + "Node.Encode":
			good, bad := st.clone(), st.clone()
			x.store(good, unMk(ev.Addrs[0]), m.document(x, good, "yaml", ev.Addrs[1]))
			return []Outcome{{st: good, res: T.Nil()}, {st: bad, res: m.fail(bad, what)}}, true
		case "encoding/json.Marshal":
			return m.encode(x, st.clone(), "json", what, ev.Addrs[0]), true
		case mpPkg + "Marshal":
			return m.encode(x, st.clone(), "msgpack", what, ev.Addrs[0]), true
		case yamlPkg + "Marshal":
			return m.encode(x, st.clone(), "yaml", what, ev.Addrs[0]), true
		case "github.com/fatih/structs.New":
			v := ev.Addrs[0]
			if v.op != OpMk || v.typ == nil {
				return nil, false
			}
			return []Outcome{{st: st, res: T.mk(OpCall, "#structs", 0, nil, nil, x.rtype(deref(v.typ)))}}, true
		case "github.com/fatih/structs.Struct.Fields", "github.com/fatih/structs.Fields":
			s := unMk(ev.Addrs[0])
			var t types.Type
			switch {
			case s.op == OpCall && s.str == "#structs":
				t = s.args[0].typ
			case ev.Addrs[0].op == OpMk && ev.Addrs[0].typ != nil:
				t = deref(ev.Addrs[0].typ)
			}
			u, ok := t.Underlying().(*types.Struct)
			if !ok {
				return nil, false
			}
			var fs []*Term
			st = st.clone()
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == "_" || reflect.StructTag(u.Tag(i)).Get("structs") == "-" {
					continue
				}
				f := T.mk(OpCall, "#structfield", i, nil, nil, x.rtype(t))
				st.facts[T.IsNil(f)] = false
				fs = append(fs, f)
			}
			return []Outcome{{st: st, res: m.c.listIn(st, fmt.Sprint("fields of ", types.TypeString(t, nil), x.localID(t)), fs)}}, true
		case "github.com/fatih/structs.Field.Tag", "github.com/fatih/structs.Field.Name", "github.com/fatih/structs.Field.IsExported", "github.com/fatih/structs.Field.IsEmbedded":
			f := unMk(ev.Addrs[0])
			if f.op == OpElem {
				f = unMk(x.load(st, f))
			}
			if f.op != OpCall || f.str != "#structfield" {
				return nil, false
			}
			u := f.args[0].typ.Underlying().(*types.Struct)
			switch ev.Name[strings.LastIndex(ev.Name, ".")+1:] {
			case "Name":
				return []Outcome{{st: st, res: strConst(m.c, u.Field(f.num).Name())}}, true
			case "IsExported":
				return []Outcome{{st: st, res: T.Bool(u.Field(f.num).Exported())}}, true
			case "IsEmbedded":
				return []Outcome{{st: st, res: T.Bool(u.Field(f.num).Embedded())}}, true
			}
			n, ok := strOf(ev.Args[1])
			if !ok {
				return nil, false
			}
			return []Outcome{{st: st, res: strConst(m.c, reflect.StructTag(u.Tag(f.num)).Get(n))}}, true
		}
		return nil, false
	}
	return h
}

// openField is the field for further members, if a type has one.
func openField(s *types.Struct) *types.Var {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if mt, ok := f.Type().Underlying().(*types.Map); ok && f.Exported() && isString(mt.Key()) {
			if n, _, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ","); n == "-" {
				return f
			}
		}
		if in, ok := f.Type().Underlying().(*types.Struct); ok && f.Embedded() {
			if o := openField(in); o != nil {
				return o
			}
		}
	}
	return nil
}

// own tells whether a type declares a method itself, not by embedding.
func own(n *types.Named, method string) bool {
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == method {
			return true
		}
	}
	return false
}

var codecMethods = []string{"MarshalJSON", "UnmarshalJSON", "MarshalYAML", "UnmarshalYAML", "MarshalMsgpack", "UnmarshalMsgpack"}

func runCodec(c *C) {
	m := &codecModel{c: c, names: map[*Term][]string{}}
	open, codecs := 0, 0
	used := map[types.Object]bool{}
	for _, p := range c.P.Pkgs {
		for _, o := range p.TypesInfo.Uses {
			used[o] = true
		}
	}
	for _, sp := range c.P.SSA.AllPackages() {
		pk := sp.Pkg
		if pk.Path() != c.P.Mod && !strings.HasPrefix(pk.Path(), c.P.Mod+"/") || strings.Contains(pk.Path(), "generators") {
			continue
		}
		for _, name := range pk.Scope().Names() {
			tn, ok := pk.Scope().Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || n.TypeParams().Len() > 0 {
				continue
			}
			s, ok := n.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			if n.NumMethods() == 0 && !tn.Exported() && !used[tn] {
				continue // input of the generator
			}
			m.promoted(n, s)
			if o := openField(s); o != nil {
				open++
				for _, mt := range []string{"MarshalJSON", "UnmarshalJSON"} {
					if mt == "MarshalJSON" && receivedOnly[name] {
						continue
					}
					c.Ob("open:"+name+"."+mt, tn.Pos(), m.codec(n, mt) != nil, "%s has further members in %s but no %s that cares for them", name, o.Name(), mt)
				}
			}
			if i, w := wasSetOf(s); i >= 0 {
				for _, mt := range []string{"MarshalMsgpack", "UnmarshalMsgpack"} {
					c.Ob("marks:"+name+"."+mt, tn.Pos(), m.codec(n, mt) != nil, "%s records in %s which claims are set, but has no %s to keep that in the cache", name, w.Name(), mt)
				}
			}
			for _, mt := range codecMethods {
				if !own(n, mt) || m.special(n) {
					continue
				}
				codecs++
				switch {
				case strings.HasPrefix(mt, "Unmarshal"):
					m.unmarshal(n, s, mt)
				case mt != "MarshalMsgpack":
					m.marshal(n, s, mt)
				default:
					m.roundTrip(n, s)
				}
			}
		}
	}
	m.specials()
	c.Anchor("types with further members", open >= 10)
	c.Anchor("codecs", codecs >= 30)
}

// special are types whose encoding is not that of their fields.
func (m *codecModel) special(n *types.Named) bool {
	for _, s := range []string{"JWKS", "ParsedJWT", "EntityStatement", "Unixtime", "DurationInSeconds"} {
		if n.Obj().Name() == s {
			return true
		}
	}
	return false
}

// promoted: a type must not take over the codec of an embedded field when it has more fields.
func (m *codecModel) promoted(n *types.Named, s *types.Struct) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Embedded() {
			continue
		}
		others := 0
		for j := 0; j < s.NumFields(); j++ {
			if j == i || !s.Field(j).Exported() {
				continue
			}
			if nm, _, _ := strings.Cut(reflect.StructTag(s.Tag(j)).Get("json"), ","); nm != "" && nm != "-" {
				others++
			}
		}
		if others == 0 {
			continue
		}
		for _, mt := range codecMethods {
			if own(n, mt) {
				continue
			}
			o, idx, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), mt)
			fn, ok := o.(*types.Func)
			if !ok || len(idx) < 2 || idx[0] != i {
				continue
			}
			m.c.Ob("promoted:"+n.Obj().Name()+"."+mt, n.Obj().Pos(), false, "%s is encoded by the promoted method %s of its embedded %s, which loses its other fields", n.Obj().Name(), fn.FullName(), f.Name())
		}
	}
}

// zeroValue is the zero value of a struct with nothing set.
func (m *codecModel) isZero(x *Exec, st *State, v *Term, t types.Type) bool {
	T := m.c.T
	v = unMk(v)
	if v == T.Zero(t) || v.op == OpZero || v.isNilConst() {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
		return x.Proves(st, T.IsNil(v), true)
	case *types.Basic:
		return x.Proves(st, T.Eq(v, T.Zero(t)), true)
	}
	return false
}

func (m *codecModel) unmarshal(n *types.Named, s *types.Struct, method string) {
	c, T := m.c, m.c.T
	name := n.Obj().Name()
	enc := strings.ToLower(strings.TrimPrefix(method, "Unmarshal"))
	fn := m.codec(n, method)
	if fn == nil || len(fn.Blocks) == 0 {
		c.Anchor(name+"."+method, false)
		return
	}
	open := openField(s)
	fields := encFields(s, enc)
	m.known = nil
	for _, f := range fields {
		m.known = append(m.known, f.name)
	}
	if enc == "msgpack" {
		open = nil
	}
	type scen struct {
		label string
		has   func(i int) bool
		extra []string
	}
	two := []string{"x-one", "x-two"}
	scens := []scen{
		{"all", func(int) bool { return true }, nil},
		{"all+", func(int) bool { return true }, two},
		{"none+", func(int) bool { return false }, two[:1]},
		{"even+", func(i int) bool { return i%2 == 0 }, two},
	}
	if open == nil {
		scens = scens[:1]
	}
	for _, sc := range scens {
		m.present, m.extras = map[string]bool{}, sc.extra
		for i, f := range fields {
			m.present[f.name] = sc.has(i)
		}
		m.ident, m.enc = false, enc
		key := fmt.Sprintf("%s.%s[%s]", name, method, sc.label)
		m.data = T.mk(OpParam, "data "+typeStr(fn.Params[1].Type()), 0, nil, fn.Params[1].Type())
		recv := T.mk(OpParam, "recv "+n.Obj().Name(), 0, nil, types.NewPointer(n))
		st := NewState()
		st.facts[T.IsNil(recv)] = false
		x := NewExec(c.P, T, m.hooks())
		for i := 0; i < s.NumFields(); i++ {
			x.store(st, x.fieldAddr(recv, s, i), T.Zero(s.Field(i).Type()))
		}
		outs := x.Run(fn, []*Term{recv, m.data}, st)
		c.Done(x, key)
		done := 0
		for _, o := range outs {
			c.Paths++
			if !c.Ob(key+":total", fn.Pos(), !o.panic, "decoding panics%s", c.Path(o.st)) {
				continue
			}
			err := unIface(o.res)
			if strings.Contains(o.st.aux["#log"], "fail") {
				c.Ob(key+":failure", fn.Pos(), x.Proves(o.st, T.IsNil(err), false), "a message that cannot be decoded is accepted: the error is %v%s", err, c.Path(o.st))
				continue
			}
			if !c.Ob(key+":success", fn.Pos(), x.Proves(o.st, T.IsNil(err), true), "a message that can be decoded is refused with %v%s", err, c.Path(o.st)) {
				continue
			}
			done++
			why := m.decoded(x, o.st, recv, s, fields, open)
			c.Ob(key+":fields", fn.Pos(), why == "", "after decoding, %s%s", why, c.Path(o.st))
		}
		c.Anchor("successful outcome of "+key, done > 0)
	}
}

// decoded compares a decoded receiver with the members of the message.
func (m *codecModel) decoded(x *Exec, st *State, recv *Term, s *types.Struct, fields []encField, open *types.Var) string {
	T := m.c.T
	for _, f := range fields {
		got := x.content(st, x.load(st, m.addrPath(x, recv, s, f.path)))
		if !m.present[f.name] {
			if !m.isZero(x, st, got, f.v.Type()) {
				return fmt.Sprintf("%s is %v although the message has no %s", f.v.Name(), got, f.name)
			}
			continue
		}
		want := m.member(st, f.name, f.v.Type())
		wantPtr := m.member(st, f.name, types.NewPointer(f.v.Type()))
		g := unIface(got)
		if g != want && x.content(st, g) != x.content(st, want) && g != x.load(st, wantPtr) {
			return fmt.Sprintf("%s is %v instead of the member %s", f.v.Name(), got, f.name)
		}
	}
	if open != nil {
		var path []int
		for i := 0; i < s.NumFields() && path == nil; i++ {
			if s.Field(i) == open {
				path = []int{i}
			} else if in, ok := s.Field(i).Type().Underlying().(*types.Struct); ok && s.Field(i).Embedded() {
				for j := 0; j < in.NumFields(); j++ {
					if in.Field(j) == open {
						path = []int{i, j}
					}
				}
			}
		}
		got := unMk(x.load(st, m.addrPath(x, recv, s, path)))
		et := open.Type().Underlying().(*types.Map).Elem()
		keys, ok := x.mapKeys(st, got)
		if got.op == OpZero {
			keys, ok = nil, true
		}
		if !ok {
			return fmt.Sprintf("the further members %v are not known", got)
		}
		if len(keys) != len(m.extras) {
			return fmt.Sprintf("the further members are %v instead of %v", keys, m.extras)
		}
		for _, e := range m.extras {
			k := strConst(m.c, e)
			if has, _ := x.hasKey(st, keys, k); !has {
				return fmt.Sprintf("the further member %s is missing", e)
			}
			v := x.load(st, T.Elem(got, k))
			okV := unIface(v) == m.member(st, e, et) || v == m.member(st, e, et)
			if !okV && !types.IsInterface(et) {
				// by way of another encoding of the same member
				okV = v.op == OpCall && strings.HasPrefix(v.str, "#dec:") && v.contains1(func(u *Term) bool {
					return u.op == OpParam && strings.HasPrefix(u.str, "member "+e+" ")
				})
			}
			if !okV {
				return fmt.Sprintf("the further member %s is %v", e, v)
			}
		}
	}
	if i, ws := wasSetOf(s); i >= 0 {
		return m.marked(x, st, x.load(st, x.fieldAddr(recv, s, i)), ws, fields, m.present)
	}
	return ""
}

// wasSetOf finds the record of which claims are set.
func wasSetOf(s *types.Struct) (int, *types.Var) {
	for i := 0; i < s.NumFields(); i++ {
		if mt, ok := s.Field(i).Type().Underlying().(*types.Map); ok && !s.Field(i).Exported() && types.Identical(mt.Elem(), types.Typ[types.Bool]) && isString(mt.Key()) {
			return i, s.Field(i)
		}
	}
	return -1, nil
}

func (m *codecModel) marked(x *Exec, st *State, ws *Term, f *types.Var, fields []encField, set map[string]bool) string {
	T := m.c.T
	ws = unMk(ws)
	keys, ok := x.mapKeys(st, ws)
	if !ok {
		return fmt.Sprintf("it is not known which claims are marked as set (%v)", ws)
	}
	for _, e := range fields {
		k := strConst(m.c, e.v.Name())
		has, _ := x.hasKey(st, keys, k)
		if has {
			if v, ok := x.Known(st, x.load(st, T.Elem(ws, k))); ok && !v {
				has = false
			} else if x.load(st, T.Elem(ws, k)) == T.Bool(false) {
				has = false
			}
		}
		if has != set[e.name] {
			return fmt.Sprintf("%s marks %s as set: %v, although the message has it: %v", f.Name(), e.v.Name(), has, set[e.name])
		}
	}
	return ""
}

func (m *codecModel) marshal(n *types.Named, s *types.Struct, method string) {
	c, T := m.c, m.c.T
	name := n.Obj().Name()
	enc := strings.ToLower(strings.TrimPrefix(method, "Marshal"))
	fn := m.codec(n, method)
	if fn == nil {
		fn = m.codec(types.NewPointer(n), method)
	}
	if fn == nil || len(fn.Blocks) == 0 {
		c.Anchor(name+"."+method, false)
		return
	}
	open := openField(s)
	fields := encFields(s, enc)
	for k, extras := range [][]string{nil, {"x-one"}, {"x-one", "x-two"}} {
		if open == nil && k > 0 {
			continue
		}
		key := fmt.Sprintf("%s.%s[%d]", name, method, k)
		st := NewState()
		x := NewExec(c.P, T, m.hooks())
		m.ident, m.data, m.enc = false, nil, enc
		ptr := T.mk(OpParam, "value "+n.Obj().Name(), 0, nil, types.NewPointer(n))
		st.facts[T.IsNil(ptr)] = false
		ev := map[string]*Term{}
		var vals = map[string]*Term{}
		if open != nil {
			et := open.Type().Underlying().(*types.Map).Elem()
			for _, e := range extras {
				v := T.mk(OpParam, "further "+e+" "+typeStr(et), 0, nil, et)
				if e != "x-two" {
					m.notNil(st, v, et)
				}
				ev[e] = v
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			a := x.fieldAddr(ptr, s, i)
			if in, ok := f.Type().Underlying().(*types.Struct); ok && f.Embedded() && openField(in) != nil {
				for j := 0; j < in.NumFields(); j++ {
					m.give(x, st, x.fieldAddr(a, in, j), in.Field(j), open, ev)
				}
				continue
			}
			m.give(x, st, a, f, open, ev)
		}
		arg := x.load(st, ptr)
		for _, f := range fields {
			vals[f.name] = m.raw(enc, T.mk(OpMk, "", 0, nil, f.v.Type(), m.selPath(x, st, arg, s, f.path)))
		}
		if _, isPtr := fn.Signature.Recv().Type().(*types.Pointer); isPtr {
			arg = ptr
		}
		outs := x.Run(fn, []*Term{arg}, st)
		c.Done(x, key)
		done := 0
		for _, o := range outs {
			c.Paths++
			if !c.Ob(key+":total", fn.Pos(), !o.panic, "encoding panics%s", c.Path(o.st)) {
				continue
			}
			doc, err := unIface(c.resOf(o, 0)), unIface(c.resOf(o, 1))
			if strings.Contains(o.st.aux["#log"], "fail") {
				c.Ob(key+":failure", fn.Pos(), x.Proves(o.st, T.IsNil(err), false), "a value that cannot be encoded gives the error %v%s", err, c.Path(o.st))
				continue
			}
			if !c.Ob(key+":success", fn.Pos(), x.Proves(o.st, T.IsNil(err), true), "a value that can be encoded is refused with %v%s", err, c.Path(o.st)) {
				continue
			}
			done++
			if enc == "yaml" {
				if v := c.resOf(o, 0); v.op == OpMk {
					doc = m.document(x, o.st, enc, v)
				}
			}
			ms, ok := m.members(x, o.st, doc)
			if !c.Ob(key+":object", fn.Pos(), ok, "the encoding is %v", doc) {
				continue
			}
			why := ""
			for _, f := range fields {
				switch got, has := ms[f.name]; {
				case !has:
					why = fmt.Sprintf("the encoding lacks %s", f.name)
				case got != vals[f.name]:
					why = fmt.Sprintf("%s is encoded as %v instead of %v", f.name, got, vals[f.name])
				}
			}
			for _, e := range extras {
				got, has := ms[e]
				if !has {
					why = fmt.Sprintf("the encoding lacks the further member %s", e)
				} else if got != m.raw(enc, ev[e]) && !(got.op == OpCall && strings.HasPrefix(got.str, "#enc:") && unMk(got.args[0]) == ev[e]) {
					why = fmt.Sprintf("the further member %s is encoded as %v", e, got)
				}
			}
			if why == "" && len(ms) != len(fields)+len(extras) {
				why = fmt.Sprintf("the encoding has the members %v", sortedKeys(ms))
			}
			c.Ob(key+":members", fn.Pos(), why == "", "%s%s", why, c.Path(o.st))
		}
		c.Anchor("successful outcome of "+key, done > 0)
	}
}

// give sets a field of a value that is to be encoded.
func (m *codecModel) give(x *Exec, st *State, a *Term, f, open *types.Var, ev map[string]*Term) {
	T := m.c.T
	if f == open {
		if len(ev) == 0 {
			x.store(st, a, T.Nil())
		} else {
			x.store(st, a, m.c.mapIn(x, st, "further", f.Type(), ev))
		}
		return
	}
	v := T.mk(OpParam, "field "+f.Name()+" "+typeStr(f.Type()), 0, nil, f.Type())
	m.notNil(st, v, f.Type())
	x.store(st, a, v)
}

// roundTrip: a value restored from the cache is the one that was cached.
func (m *codecModel) roundTrip(n *types.Named, s *types.Struct) {
	c, T := m.c, m.c.T
	name := n.Obj().Name()
	enc, dec := m.codec(n, "MarshalMsgpack"), m.codec(n, "UnmarshalMsgpack")
	if !c.Anchor("msgpack codec of "+name, enc != nil && dec != nil) {
		return
	}
	wi, _ := wasSetOf(s)
	fields := encFields(s, "msgpack")
	scs := []string{"all", "none", "even", "odd"}
	if wi >= 0 {
		scs = append(scs, "zero", "built")
	}
	for _, sc := range scs {
		key := fmt.Sprintf("%s.Msgpack[%s]", name, sc)
		st := NewState()
		x := NewExec(c.P, T, m.hooks())
		m.ident, m.data, m.enc = true, nil, ""
		ptr := T.mk(OpParam, "value "+n.Obj().Name(), 0, nil, types.NewPointer(n))
		st.facts[T.IsNil(ptr)] = false
		set := map[string]bool{}
		mark := map[string]*Term{}
		for i, f := range fields {
			// zero: half of the claims are set to their zero value; built: no claim was decoded
			on := sc == "all" || sc == "zero" || sc == "built" || sc == "even" && i%2 == 0 || sc == "odd" && i%2 == 1
			set[f.name] = on
			v := T.Zero(f.v.Type())
			_, basic := f.v.Type().Underlying().(*types.Basic)
			if on && sc != "built" {
				mark[f.v.Name()] = T.Bool(true)
			}
			if on && !(basic && sc == "zero" && i%2 == 0) {
				v = T.mk(OpParam, "field "+f.v.Name()+" "+typeStr(f.v.Type()), 0, nil, f.v.Type())
				m.notNil(st, v, f.v.Type())
				if basic && wi >= 0 {
					if b := f.v.Type().Underlying().(*types.Basic); b.Info()&types.IsBoolean != 0 {
						st.facts[v] = true
					} else {
						st.facts[T.Eq(v, T.Zero(f.v.Type()))] = false
					}
				}
				if mt, ok := f.v.Type().Underlying().(*types.Map); ok && wi >= 0 {
					v = c.mapIn(x, st, "further", f.v.Type(), map[string]*Term{"x-one": T.mk(OpParam, "further", 0, nil, mt.Elem())})
				}
			}
			x.store(st, m.addrPath(x, ptr, s, f.path), v)
		}
		if wi >= 0 {
			x.store(st, x.fieldAddr(ptr, s, wi), c.mapIn(x, st, "marks", s.Field(wi).Type(), mark))
		}
		arg := x.load(st, ptr)
		want := map[string]*Term{}
		for _, f := range fields {
			want[f.name] = x.content(st, m.selPath(x, st, arg, s, f.path))
		}
		if _, isPtr := enc.Signature.Recv().Type().(*types.Pointer); isPtr {
			arg = ptr
		}
		done := 0
		for _, o := range x.Run(enc, []*Term{arg}, st) {
			if o.panic || strings.Contains(o.st.aux["#log"], "fail") {
				err := T.Nil()
				if !o.panic {
					err = unIface(c.resOf(o, 1))
				}
				c.Ob(key+":encode", enc.Pos(), !o.panic && x.Proves(o.st, T.IsNil(err), false), "encoding panics or hides a failure: %v%s", err, c.Path(o.st))
				continue
			}
			recv := T.mk(OpParam, "restored "+n.Obj().Name(), 0, nil, types.NewPointer(n))
			s2 := o.st.clone()
			s2.facts[T.IsNil(recv)] = false
			for i := 0; i < s.NumFields(); i++ {
				x.store(s2, x.fieldAddr(recv, s, i), T.Zero(s.Field(i).Type()))
			}
			for _, d := range x.Run(dec, []*Term{recv, unIface(c.resOf(o, 0))}, s2) {
				c.Paths++
				if d.panic || strings.Contains(d.st.aux["#log"], "fail") {
					c.Ob(key+":decode", dec.Pos(), !d.panic && x.Proves(d.st, T.IsNil(unIface(d.res)), false), "decoding panics or hides a failure: %v%s", d.res, c.Path(d.st))
					continue
				}
				if !c.Ob(key+":success", dec.Pos(), x.Proves(d.st, T.IsNil(unIface(d.res)), true), "a cached value is refused with %v%s", d.res, c.Path(d.st)) {
					continue
				}
				done++
				why := ""
				for _, f := range fields {
					got := x.content(d.st, x.load(d.st, m.addrPath(x, recv, s, f.path)))
					same := unIface(got) == unIface(want[f.name]) || m.isZero(x, d.st, got, f.v.Type()) && m.isZero(x, d.st, want[f.name], f.v.Type())
					if set[f.name] && !same || !set[f.name] && !m.isZero(x, d.st, got, f.v.Type()) {
						why = fmt.Sprintf("%s is %v instead of %v", f.v.Name(), got, want[f.name])
						break
					}
				}
				if why == "" && wi >= 0 && sc != "built" {
					why = m.marked(x, d.st, x.load(d.st, x.fieldAddr(recv, s, wi)), s.Field(wi), fields, set)
				}
				c.Ob(key+":restored", dec.Pos(), why == "", "of a cached value, %s%s", why, c.Path(d.st))
			}
		}
		c.Done(x, key)
		c.Anchor("restored value of "+key, done > 0)
	}
}

func typeStr(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(types.Unalias(t), nil), "interface{}", "any")
}

// specials decides the codecs whose encoding is not that of the fields of a struct.
func (m *codecModel) specials() {
	m.keySets()
	m.messages()
	m.slices()
	m.parsed()
	m.statements()
}

// statements: a cached entity statement is restored with its payload and its token.
func (m *codecModel) statements() {
	c, T := m.c, m.c.T
	n := c.P.Named("", "EntityStatement")
	if n == nil {
		return
	}
	s := n.Underlying().(*types.Struct)
	mf, uf := m.codec(n, "MarshalMsgpack"), m.codec(n, "UnmarshalMsgpack")
	if !c.Anchor("codec of cached statements", mf != nil && uf != nil) {
		return
	}
	var tok *types.Pointer
	ti := -1
	for i := 0; i < s.NumFields(); i++ {
		if p, ok := s.Field(i).Type().(*types.Pointer); ok && typeStr(p.Elem()) == c.P.Mod+"/internal/jwx.ParsedJWT" {
			tok, ti = p, i
		}
	}
	if !c.Anchor("token of a statement", tok != nil) {
		return
	}
	for _, has := range []bool{true, false} {
		key := fmt.Sprintf("EntityStatement[%v]", has)
		m.enc, m.ident, m.data = "", true, nil
		st := NewState()
		x := NewExec(c.P, T, m.hooks())
		ptr := T.mk(OpParam, "value EntityStatement", 0, nil, types.NewPointer(n))
		st.facts[T.IsNil(ptr)] = false
		want := make([]*Term, s.NumFields())
		for i := range want {
			f := s.Field(i)
			want[i] = T.mk(OpParam, "field "+f.Name()+" "+typeStr(f.Type()), 0, nil, f.Type())
			if i == ti {
				want[i] = T.Nil()
				if has {
					at := T.mk(OpParam, "token", 0, nil, tok)
					st.facts[T.IsNil(at)] = false
					want[i] = at
				}
			}
			x.store(st, x.fieldAddr(ptr, s, i), want[i])
		}
		var token *Term
		if has {
			token = x.content(st, x.load(st, want[ti]))
		}
		arg := x.load(st, ptr)
		if _, isPtr := mf.Signature.Recv().Type().(*types.Pointer); isPtr {
			arg = ptr
		}
		done := 0
		for _, o := range x.Run(mf, []*Term{arg}, st) {
			if o.panic || m.failed(o) {
				c.Ob(key+":encode", mf.Pos(), !o.panic && x.Proves(o.st, T.IsNil(unIface(c.resOf(o, 1))), false), "encoding panics or hides a failure%s", c.Path(o.st))
				continue
			}
			recv := T.mk(OpParam, "restored EntityStatement", 0, nil, types.NewPointer(n))
			s2 := o.st.clone()
			s2.facts[T.IsNil(recv)] = false
			for i := 0; i < s.NumFields(); i++ {
				x.store(s2, x.fieldAddr(recv, s, i), T.Zero(s.Field(i).Type()))
			}
			for _, d := range x.Run(uf, []*Term{recv, unIface(c.resOf(o, 0))}, s2) {
				c.Paths++
				err := unIface(d.res)
				if d.panic || m.failed(d) {
					c.Ob(key+":decode", uf.Pos(), !d.panic && x.Proves(d.st, T.IsNil(err), false), "decoding panics or hides a failure%s", c.Path(d.st))
					continue
				}
				if !c.Ob(key+":success", uf.Pos(), x.Proves(d.st, T.IsNil(err), true), "a cached statement is refused with %v%s", err, c.Path(d.st)) {
					continue
				}
				done++
				why := ""
				for i := range want {
					got := x.content(d.st, x.load(d.st, x.fieldAddr(recv, s, i)))
					switch {
					case i != ti:
						if unMk(got) != unMk(want[i]) {
							why = fmt.Sprintf("%s is %v instead of %v", s.Field(i).Name(), got, want[i])
						}
					case !has: // whatever stands for no token
					default:
						tp := x.load(d.st, x.fieldAddr(recv, s, i))
						if x.Proves(d.st, T.IsNil(tp), true) {
							why = "the token is lost"
						} else if g := x.content(d.st, x.load(d.st, tp)); unMk(g) != unMk(token) {
							why = fmt.Sprintf("the token is %v instead of %v", g, token)
						}
					}
				}
				c.Ob(key+":restored", uf.Pos(), why == "", "of a cached statement, %s%s", why, c.Path(d.st))
			}
		}
		c.Done(x, key)
		c.Anchor("restored statement of "+key, done > 0)
	}
}

func (m *codecModel) failed(o Outcome) bool { return strings.Contains(o.st.aux["#log"], "fail") }

// keySets: a key set is encoded as the JSON of its set.
func (m *codecModel) keySets() {
	c, T := m.c, m.c.T
	n := c.P.Named("jwks", "JWKS")
	if !c.Anchor("type of key sets", n != nil) {
		return
	}
	s := n.Underlying().(*types.Struct)
	setF := c.Field(n, "Set")
	if !c.Anchor("set of a key set", setF != nil) {
		return
	}
	m.enc, m.ident = "", false
	for _, mt := range []string{"MarshalJSON", "MarshalYAML", "MarshalMsgpack"} {
		fn := m.codec(n, mt)
		if fn == nil {
			c.Anchor("JWKS."+mt, false)
			continue
		}
		st := NewState()
		x := NewExec(c.P, T, m.hooks())
		keys := T.mk(OpParam, "keys", 0, nil, n)
		set := T.Sel(keys, s, 0)
		m.data = nil
		for _, o := range x.Run(fn, []*Term{keys}, st) {
			c.Paths++
			if !c.Ob("JWKS."+mt+":total", fn.Pos(), !o.panic, "encoding panics%s", c.Path(o.st)) {
				continue
			}
			doc, err := c.resOf(o, 0), unIface(c.resOf(o, 1))
			if m.failed(o) {
				c.Ob("JWKS."+mt+":failure", fn.Pos(), x.Proves(o.st, T.IsNil(err), false), "a failure is hidden: the error is %v%s", err, c.Path(o.st))
				continue
			}
			d := doc
			layers := 0
			for d != nil && d.op != OpSel && d.op != OpParam {
				if d.op == OpMk && len(d.args) == 1 {
					d = d.args[0]
					continue
				}
				if d.op != OpCall || !strings.HasPrefix(d.str, "#enc:") && !strings.HasPrefix(d.str, "#dec:") {
					break
				}
				d = d.args[0]
				layers++
			}
			js := doc.contains1(func(u *Term) bool { return u.op == OpCall && u.str == "#enc:json" && unMk(u.args[0]) == set })
			c.Ob("JWKS."+mt+":keys", fn.Pos(), x.Proves(o.st, T.IsNil(err), true) && js && (d == set || d == keys), "the keys are encoded as %v (%v)%s", doc, err, c.Path(o.st))
		}
		c.Done(x, "JWKS."+mt)
	}
	for _, mt := range []string{"UnmarshalJSON", "UnmarshalYAML", "UnmarshalMsgpack"} {
		fn := m.codec(n, mt)
		if fn == nil {
			c.Anchor("JWKS."+mt, false)
			continue
		}
		for _, had := range []bool{false, true} {
			key := fmt.Sprintf("JWKS.%s[%v]", mt, had)
			m.data = T.mk(OpParam, "encoded keys", 0, nil, fn.Params[1].Type())
			m.present, m.known, m.extras = nil, nil, nil
			st := NewState()
			x := NewExec(c.P, T, m.hooks())
			recv := T.mk(OpParam, "recv "+n.Obj().Name(), 0, nil, types.NewPointer(n))
			st.facts[T.IsNil(recv)] = false
			old := T.Nil()
			if had {
				old = T.mk(OpParam, "old set", 0, nil, setF.Type())
				st.facts[T.IsNil(old)] = false
			}
			addr := x.fieldAddr(recv, s, 0)
			x.store(st, addr, old)
			m.opaqueDoc = true
			outs := x.Run(fn, []*Term{recv, m.data}, st)
			m.opaqueDoc = false
			c.Done(x, key)
			done := 0
			for _, o := range outs {
				c.Paths++
				if !c.Ob(key+":total", fn.Pos(), !o.panic, "decoding panics%s", c.Path(o.st)) {
					continue
				}
				err := unIface(o.res)
				if m.failed(o) {
					c.Ob(key+":failure", fn.Pos(), x.Proves(o.st, T.IsNil(err), false), "keys that cannot be decoded are accepted: the error is %v%s", err, c.Path(o.st))
					continue
				}
				if !c.Ob(key+":success", fn.Pos(), x.Proves(o.st, T.IsNil(err), true), "keys that can be decoded are refused with %v%s", err, c.Path(o.st)) {
					continue
				}
				got := x.load(o.st, addr)
				if x.Proves(o.st, T.IsNil(got), true) {
					why := false
					for f, v := range o.st.facts {
						if v && f.contains1(func(u *Term) bool {
							return u.op == OpCall && (strings.HasSuffix(u.str, ".Len") || strings.HasPrefix(u.str, "#dec") || strings.HasPrefix(u.str, "#enc"))
						}) {
							why = true
						}
						// the encoded form of no key set at all
						isNull := func(t *Term) bool { v, ok := strOf(t); return ok && v == "null" }
						if v && f.contains(m.data) && f.contains1(isNull) && (f.op == OpEq || f.op == OpCall && f.str == "bytes.Equal") {
							why = true
						}
					}
					c.Ob(key+":empty", fn.Pos(), why, "the keys are dropped although there are some%s", c.Path(o.st))
					continue
				}
				done++
				doc := o.st.mem[T.mk(OpCall, "#filled", 0, nil, nil, got)]
				if doc == nil {
					for k, v := range o.st.mem {
						if k.op == OpCall && k.str == "#filled" && unMk(k.args[0]) == unMk(got) {
							doc = v
						}
					}
				}
				c.Ob(key+":keys", fn.Pos(), doc != nil && doc.contains(m.data), "the keys are %v, filled from %v%s", got, doc, c.Path(o.st))
			}
			c.Anchor("keys decoded by "+key, done > 0)
		}
	}
}

// messages: a list of tokens is encoded as the list of their compact forms.
func (m *codecModel) messages() {
	c, T := m.c, m.c.T
	n, pj := c.P.Named("", "JWSMessages"), c.P.Named("internal/jwx", "ParsedJWT")
	if !c.Anchor("types of tokens", n != nil && pj != nil) {
		return
	}
	mf, uf := m.codec(n, "MarshalJSON"), m.codec(n, "UnmarshalJSON")
	if !c.Anchor("codec of tokens", mf != nil && uf != nil) {
		return
	}
	m.enc, m.ident = "", false
	for k := 0; k <= 3; k++ {
		key := fmt.Sprintf("JWSMessages.MarshalJSON[%d]", k)
		st := NewState()
		x := NewExec(c.P, T, m.hooks())
		var ts, raws []*Term
		for i := 0; i < k; i++ {
			p := T.mk(OpParam, fmt.Sprint("token ", i), 0, nil, types.NewPointer(pj))
			st.facts[T.IsNil(p)] = false
			r := T.mk(OpParam, fmt.Sprint("compact form ", i), 0, nil, types.NewSlice(types.Typ[types.Byte]))
			st.mem[c.fieldOf(p, "RawJWT")] = r
			ts, raws = append(ts, p), append(raws, r)
		}
		list := c.listIn(st, "tokens", ts)
		for _, o := range x.Run(mf, []*Term{list}, st) {
			c.Paths++
			if !c.Ob(key+":total", mf.Pos(), !o.panic, "encoding panics%s", c.Path(o.st)) {
				continue
			}
			doc, err := unIface(c.resOf(o, 0)), unIface(c.resOf(o, 1))
			if m.failed(o) {
				c.Ob(key+":failure", mf.Pos(), x.Proves(o.st, T.IsNil(err), false), "a failure is hidden%s", c.Path(o.st))
				continue
			}
			ok := x.Proves(o.st, T.IsNil(err), true) && doc.op == OpCall && doc.str == "#enc:json"
			var l []*Term
			if ok {
				l, ok = x.listOf(o.st, unMk(doc.args[0]))
				ok = ok && len(l) == k
			}
			for i := 0; ok && i < k; i++ {
				ok = l[i] == raws[i] || l[i].contains(raws[i])
			}
			c.Ob(key+":tokens", mf.Pos(), ok, "%d tokens are encoded as %v%s", k, l, c.Path(o.st))
		}
		c.Done(x, key)
	}
	for k := 0; k <= 3; k++ {
		key := fmt.Sprintf("JWSMessages.UnmarshalJSON[%d]", k)
		st := NewState()
		h := m.hooks()
		inner := h.Model
		var strs []*Term
		for i := 0; i < k; i++ {
			strs = append(strs, T.mk(OpParam, fmt.Sprint("string ", i), 0, nil, types.Typ[types.String]))
		}
		h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
			switch ev.Name {
			case "encoding/json.Unmarshal":
				t := ev.Addrs[1]
				if p, ok := t.typ.(*types.Pointer); ok && unIface(ev.Args[0]) == m.data {
					if sl, ok := p.Elem().Underlying().(*types.Slice); ok && isString(sl.Elem()) {
						good, bad := st.clone(), st.clone()
						x.store(good, t.args[0], c.listIn(good, "strings", strs))
						return []Outcome{{st: good, res: T.Nil()}, {st: bad, res: m.fail(bad, "decode the list")}}, true
					}
				}
			case "internal/jwx.Parse":
				src := ev.Addrs[0]
				which := -1
				for i, s := range strs {
					if unMk(src) == s || src.contains(s) {
						which = i
					}
				}
				c.Ob(key+":source", ev.Instr.Pos(), which >= 0, "the token %v is parsed%s", src, c.Path(st))
				good, bad := st.clone(), st.clone()
				p := T.mk(OpParam, fmt.Sprint("parsed ", which), 0, nil, types.NewPointer(pj))
				good.facts[T.IsNil(p)] = false
				return []Outcome{
					{st: good, res: T.mk(OpTuple, "", 0, nil, nil, p, T.Nil())},
					{st: bad, res: T.mk(OpTuple, "", 0, nil, nil, p, m.fail(bad, "parse"))},
				}, true
			}
			return inner(x, st, ev)
		}
		x := NewExec(c.P, T, h)
		m.data = T.mk(OpParam, "data", 0, nil, uf.Params[1].Type())
		recv := T.mk(OpParam, "recv "+n.Obj().Name(), 0, nil, types.NewPointer(n))
		st.facts[T.IsNil(recv)] = false
		st.mem[recv] = T.Nil()
		done := 0
		for _, o := range x.Run(uf, []*Term{recv, m.data}, st) {
			c.Paths++
			if !c.Ob(key+":total", uf.Pos(), !o.panic, "decoding panics%s", c.Path(o.st)) {
				continue
			}
			err := unIface(o.res)
			if m.failed(o) {
				c.Ob(key+":failure", uf.Pos(), x.Proves(o.st, T.IsNil(err), false), "a token that cannot be parsed is accepted: the error is %v%s", err, c.Path(o.st))
				continue
			}
			done++
			l, ok := x.listOf(o.st, unMk(x.load(o.st, recv)))
			ok = ok && len(l) == k && x.Proves(o.st, T.IsNil(err), true)
			for i := 0; ok && i < k; i++ {
				ok = l[i].op == OpParam && l[i].str == fmt.Sprint("parsed ", i)
			}
			c.Ob(key+":tokens", uf.Pos(), ok, "%d tokens are decoded as %v (%v)%s", k, l, err, c.Path(o.st))
		}
		c.Done(x, key)
		c.Anchor("tokens decoded by "+key, done > 0)
	}
}

// slices: a list of one value is encoded as the value, and a value is decoded as such a list.
func (m *codecModel) slices() {
	c, T := m.c, m.c.T
	n := c.P.Named("", "SliceOrSingleValue")
	if n == nil || n.TypeParams().Len() != 1 {
		return
	}
	m.enc, m.ident = "", false
	{
		et := types.Type(n.TypeParams().At(0))
		lt := types.NewSlice(et)
		for _, enc := range []string{"JSON", "YAML"} {
			lower := strings.ToLower(enc)
			if fn := c.P.Func("", "SliceOrSingleValue.Marshal"+enc); c.Anchor("Marshal"+enc+" of single values", fn != nil) {
				for k := 0; k <= 3; k++ {
					key := fmt.Sprintf("%s.Marshal%s[%d]", n.Obj().Name(), enc, k)
					st := NewState()
					x := NewExec(c.P, T, m.hooks())
					var es []*Term
					for i := 0; i < k; i++ {
						es = append(es, T.mk(OpParam, fmt.Sprint("value ", i), 0, nil, et))
					}
					list := c.listIn(st, "values", es)
					for _, o := range x.Run(fn, []*Term{list}, st) {
						c.Paths++
						if !c.Ob(key+":total", fn.Pos(), !o.panic, "encoding panics%s", c.Path(o.st)) {
							continue
						}
						doc, err := c.resOf(o, 0), unIface(c.resOf(o, 1))
						if m.failed(o) {
							c.Ob(key+":failure", fn.Pos(), x.Proves(o.st, T.IsNil(err), false), "a failure is hidden%s", c.Path(o.st))
							continue
						}
						ok := x.Proves(o.st, T.IsNil(err), true)
						v := unMk(doc)
						if lower == "json" {
							ok = ok && v.op == OpCall && v.str == "#enc:json"
							if ok {
								v = unMk(v.args[0])
							}
						}
						if k == 1 {
							ok = ok && (v == es[0] || x.load(o.st, v) == es[0])
						} else {
							l, isList := x.listOf(o.st, v)
							ok = ok && isList && len(l) == k
							ok = ok && !(lower == "yaml" && doc.isNilConst()) // the zero value of an element
							for i := 0; ok && i < k; i++ {
								ok = l[i] == es[i]
							}
						}
						c.Ob(key+":values", fn.Pos(), ok, "a list of %d values is encoded as %v (%v)%s", k, doc, err, c.Path(o.st))
					}
					c.Done(x, key)
				}
			}
			if fn := c.P.Func("", "SliceOrSingleValue.Unmarshal"+enc); c.Anchor("Unmarshal"+enc+" of single values", fn != nil) {
				key := fmt.Sprintf("%s.Unmarshal%s", n.Obj().Name(), enc)
				st := NewState()
				x := NewExec(c.P, T, m.hooks())
				m.data = T.mk(OpParam, "data "+typeStr(fn.Params[1].Type()), 0, nil, fn.Params[1].Type())
				recv := T.mk(OpParam, "recv "+n.Obj().Name(), 0, nil, types.NewPointer(n))
				st.facts[T.IsNil(recv)] = false
				st.mem[recv] = T.Nil()
				m.opaqueDoc = true
				outs := x.Run(fn, []*Term{recv, m.data}, st)
				single, many := m.as(x, st, m.data, et), m.as(x, st, m.data, lt)
				m.opaqueDoc = false
				c.Done(x, key)
				kinds := map[string]bool{}
				for _, o := range outs {
					c.Paths++
					if !c.Ob(key+":total", fn.Pos(), !o.panic, "decoding panics%s", c.Path(o.st)) {
						continue
					}
					err := unIface(o.res)
					if strings.Count(o.st.aux["#log"], "fail") >= 2 {
						kinds["neither"] = true
						c.Ob(key+":failure", fn.Pos(), x.Proves(o.st, T.IsNil(err), false), "what is neither a value nor a list is accepted%s", c.Path(o.st))
						continue
					}
					got := unMk(x.load(o.st, recv))
					l, isList := x.listOf(o.st, got)
					switch {
					case got == many:
						kinds["list"] = true
					case isList && len(l) == 1 && l[0] == single:
						kinds["single"] = true
					default:
						c.Ob(key+":values", fn.Pos(), false, "the result is %v%s", got, c.Path(o.st))
					}
					c.Ob(key+":success", fn.Pos(), x.Proves(o.st, T.IsNil(err), true), "a value or list is refused with %v%s", err, c.Path(o.st))
				}
				c.Ob(key+":kinds", fn.Pos(), len(kinds) == 3, "of a single value, a list and neither, only %v can be decoded", kinds)
			}
		}
	}
}

// parsed: a cached token is restored from its compact form.
func (m *codecModel) parsed() {
	c, T := m.c, m.c.T
	n := c.P.Named("internal/jwx", "ParsedJWT")
	if n == nil {
		return
	}
	s := n.Underlying().(*types.Struct)
	mf, uf := m.codec(n, "MarshalMsgpack"), m.codec(n, "UnmarshalMsgpack")
	if !c.Anchor("codec of cached tokens", mf != nil && uf != nil) {
		return
	}
	m.enc, m.ident, m.data = "", true, nil
	st := NewState()
	x := NewExec(c.P, T, m.hooks())
	v := T.mk(OpParam, "token", 0, nil, n)
	raw := c.Sel(v, n, "RawJWT")
	done := 0
	for _, o := range x.Run(mf, []*Term{v}, st) {
		if o.panic || m.failed(o) {
			c.Ob("ParsedJWT:encode", mf.Pos(), !o.panic && x.Proves(o.st, T.IsNil(unIface(c.resOf(o, 1))), false), "encoding panics or hides a failure%s", c.Path(o.st))
			continue
		}
		s2 := o.st.clone()
		recv := T.mk(OpParam, "restored "+n.Obj().Name(), 0, nil, types.NewPointer(n))
		s2.facts[T.IsNil(recv)] = false
		for i := 0; i < s.NumFields(); i++ {
			x.store(s2, x.fieldAddr(recv, s, i), T.Zero(s.Field(i).Type()))
		}
		for _, d := range x.Run(uf, []*Term{recv, unIface(c.resOf(o, 0))}, s2) {
			c.Paths++
			err := unIface(d.res)
			if d.panic || m.failed(d) {
				c.Ob("ParsedJWT:decode", uf.Pos(), !d.panic && x.Proves(d.st, T.IsNil(err), false), "decoding panics or hides a failure%s", c.Path(d.st))
				continue
			}
			if x.Proves(d.st, T.IsNil(err), false) || !x.Proves(d.st, T.IsNil(err), true) && resultOf(err, jwxp+"jws.Parse", 1) != nil && !x.Proves(d.st, T.IsNil(err), true) {
				continue // a token that cannot be parsed
			}
			done++
			gr := x.content(d.st, x.load(d.st, c.fieldOf(recv, "RawJWT")))
			gm := x.load(d.st, c.fieldOf(recv, "Message"))
			call := resultOf(gm, jwxp+"jws.Parse", 0)
			c.Ob("ParsedJWT:restored", uf.Pos(), gr == raw && call != nil && len(call.args) > 0 && x.content(d.st, call.args[0]) == raw, "the token is restored as %v with the message %v%s", gr, gm, c.Path(d.st))
		}
	}
	c.Done(x, "ParsedJWT")
	c.Anchor("restored token", done > 0)
}
