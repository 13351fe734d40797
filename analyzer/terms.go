package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the kind of a symbolic term.
type Op uint8

const (
	OpConst  Op = iota // constant; str is the printed value, "nil", "true", ...
	OpZero             // zero value of a struct type
	OpParam            // entry parameter
	OpGlobal           // package-level variable
	OpSel              // field of args[0]; obj is the *types.Var
	OpElem             // element args[1] of args[0] (slice, array, map, string)
	OpCall             // call of str with args; obj is the *Site when the call is not pure
	OpRes              // n-th result of args[0]
	OpOut              // what call args[0] leaves in the object of its n-th argument
	OpSym              // generative symbol: loop value, map key, ...
	OpOld              // earlier incarnations of args[0]
	OpAlloc            // object allocated at obj
	OpBin              // arithmetic
	OpNot
	OpLen
	OpConv
	OpSlice  // args[0][args[1]:args[2]]
	OpApp    // append(args[0], args[1:]...)
	OpAppS   // append(args[0], args[1]...)
	OpList   // slice literal
	OpFn     // function
	OpClos   // closure; obj *ssa.Function, args bindings
	OpMk     // interface holding args[0] of type typ
	OpIs     // dynamic type test
	OpAs     // value of a type assertion
	OpSnap   // struct value: args[0] with overridden fields (addr,val pairs in args[1:])
	OpAny    // one of args
	OpTuple  // multiple results
	OpIsNil  // atom
	OpEmpty  // atom
	OpEq     // atom
	OpLt     // atom
	OpHas    // atom: args[0] has key args[1]
	OpExists // atom: some index of args[0] satisfies args[1] (OpBound is the index)
	OpBound
	OpBefore // atom on times
	OpIter
)

var opNames = map[Op]string{OpConst: "c", OpZero: "zero", OpParam: "p", OpGlobal: "g", OpSel: "sel", OpElem: "elem", OpCall: "call", OpRes: "res", OpOut: "out", OpSym: "sym", OpOld: "old", OpAlloc: "alloc", OpBin: "bin", OpNot: "not", OpLen: "len", OpConv: "conv", OpSlice: "slice", OpApp: "app", OpAppS: "apps", OpList: "list", OpFn: "fn", OpClos: "clos", OpMk: "mk", OpIs: "is", OpAs: "as", OpSnap: "snap", OpAny: "any", OpTuple: "tuple", OpIsNil: "isnil", OpEmpty: "empty", OpEq: "eq", OpLt: "lt", OpHas: "has", OpExists: "exists", OpBound: "bound", OpBefore: "before", OpIter: "iter"}

// Site identifies an instruction in an inlining context.
type Site struct {
	id    int
	instr ssa.Instruction
	ctx   *Ctx
}

// Ctx is an inlining context: a chain of call instructions.
type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.Instruction
	fn     *ssa.Function
	depth  int
}

// Term is a hash-consed symbolic value.
type Term struct {
	id    int
	op    Op
	str   string
	num   int
	obj   any
	args  []*Term
	typ   types.Type
	gens  []*Term // generative leaves contained (sorted by id)
	depth int
	bound bool
}

// Terms is the hash-consing table.
type Terms struct {
	tab   map[string]*Term
	n     int
	ctxs  map[string]*Ctx
	sites map[string]*Site
	objs  map[any]int
}

func NewTerms() *Terms {
	return &Terms{tab: map[string]*Term{}, ctxs: map[string]*Ctx{}, sites: map[string]*Site{}, objs: map[any]int{}}
}

func (T *Terms) objID(o any) int {
	if o == nil {
		return 0
	}
	if id, ok := T.objs[o]; ok {
		return id
	}
	id := len(T.objs) + 1
	T.objs[o] = id
	return id
}

func (T *Terms) site(in ssa.Instruction, c *Ctx) *Site {
	k := fmt.Sprintf("%d/%d", T.objID(in), c.id)
	if s, ok := T.sites[k]; ok {
		return s
	}
	s := &Site{id: len(T.sites) + 1, instr: in, ctx: c}
	T.sites[k] = s
	return s
}

func (T *Terms) ctx(parent *Ctx, site ssa.Instruction, fn *ssa.Function) *Ctx {
	pid := 0
	d := 0
	if parent != nil {
		pid = parent.id
		d = parent.depth + 1
	}
	k := fmt.Sprintf("%d/%d/%d", pid, T.objID(site), T.objID(fn))
	if c, ok := T.ctxs[k]; ok {
		return c
	}
	c := &Ctx{id: len(T.ctxs) + 1, parent: parent, site: site, fn: fn, depth: d}
	T.ctxs[k] = c
	return c
}

func isGen(op Op, obj any) bool {
	switch op {
	case OpSym, OpOld, OpAlloc, OpIter:
		return true
	case OpCall:
		return obj != nil
	}
	return false
}

func (T *Terms) mk(op Op, str string, num int, obj any, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteByte(byte(op) + 1)
	b.WriteString(str)
	b.WriteByte(0)
	fmt.Fprintf(&b, "%d|%d|", num, T.objID(obj))
	if op == OpMk || op == OpIs || op == OpAs || op == OpZero || op == OpConv {
		b.WriteString(types.TypeString(typ, nil))
		b.WriteByte('|')
	}
	for _, a := range args {
		fmt.Fprintf(&b, "%d,", a.id)
	}
	k := b.String()
	if t, ok := T.tab[k]; ok {
		return t
	}
	T.n++
	t := &Term{id: T.n, op: op, str: str, num: num, obj: obj, args: args, typ: typ}
	for ai, a := range args {
		if op == OpOld && ai == 0 {
			t.depth = a.depth + 1
			for _, g := range a.gens {
				if g != a {
					t.gens = append(t.gens, g)
				}
			}
			continue
		}
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
		if a.bound {
			t.bound = true
		}
		t.gens = mergeGens(t.gens, a.gens)
	}
	if op == OpBound {
		t.bound = true
	}
	if isGen(op, obj) {
		t.gens = mergeGens(t.gens, []*Term{t})
	}
	T.tab[k] = t
	return t
}

func mergeGens(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].id < b[j].id):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j].id < a[i].id:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (t *Term) hasGen(g *Term) bool {
	i := sort.Search(len(t.gens), func(i int) bool { return t.gens[i].id >= g.id })
	return i < len(t.gens) && t.gens[i] == g
}

// contains reports whether s occurs in t.
func (t *Term) contains(s *Term) bool {
	if t == s {
		return true
	}
	if s.depth >= t.depth && s != t {
		return false
	}
	for _, a := range t.args {
		if a.contains(s) {
			return true
		}
	}
	return false
}

func (t *Term) walk(f func(*Term) bool) bool {
	if !f(t) {
		return false
	}
	for _, a := range t.args {
		if !a.walk(f) {
			return false
		}
	}
	return true
}

func (t *Term) isConst(s string) bool { return t.op == OpConst && t.str == s }
func (t *Term) isNilConst() bool      { return t.op == OpConst && t.str == "nil" }
func (t *Term) root() *Term {
	for t.op == OpSel || t.op == OpElem || t.op == OpSlice {
		t = t.args[0]
	}
	return t
}

func (t *Term) String() string { return t.show(0) }

func (t *Term) show(d int) string {
	if d > 9 {
		return "…"
	}
	as := func(i int) string {
		var s []string
		for _, a := range t.args[i:] {
			s = append(s, a.show(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case OpConst:
		return t.str
	case OpParam:
		return "$" + t.str
	case OpGlobal:
		return t.str
	case OpSel:
		return t.args[0].show(d+1) + "." + t.obj.(*types.Var).Name()
	case OpElem:
		return t.args[0].show(d+1) + "[" + t.args[1].show(d+1) + "]"
	case OpCall:
		s := ""
		if st, ok := t.obj.(*Site); ok && st != nil {
			s = fmt.Sprintf("@%d", st.id)
		}
		return t.str + s + "(" + as(0) + ")"
	case OpRes:
		return fmt.Sprintf("%s#%d", t.args[0].show(d+1), t.num)
	case OpOut:
		return fmt.Sprintf("out%d{%s}", t.num, t.args[0].show(d+1))
	case OpSym:
		return fmt.Sprintf("%s%d", t.str, t.id)
	case OpOld:
		return "prev(" + as(0) + ")"
	case OpAlloc:
		return fmt.Sprintf("new%d:%s", t.id, t.str)
	case OpBin:
		return "(" + t.args[0].show(d+1) + t.str + t.args[1].show(d+1) + ")"
	case OpList:
		return "[" + as(0) + "]"
	case OpFn, OpClos:
		return "func:" + t.str
	case OpSnap:
		s := t.args[0].show(d+1) + "{"
		for i := 1; i+1 < len(t.args); i += 2 {
			a := t.args[i]
			n := a.show(d + 2)
			if a.op == OpSel {
				n = a.obj.(*types.Var).Name()
			}
			s += n + ":" + t.args[i+1].show(d+1) + " "
		}
		return s + "}"
	case OpMk:
		return t.args[0].show(d)
	}
	return opNames[t.op] + "(" + as(0) + ")"
}

// ---- constructors with normalisation ----

func (T *Terms) Const(s string, typ types.Type) *Term { return T.mk(OpConst, s, 0, nil, typ) }
func (T *Terms) Int(n int) *Term                      { return T.Const(fmt.Sprint(n), types.Typ[types.Int]) }
func (T *Terms) Bool(b bool) *Term {
	if b {
		return T.Const("true", types.Typ[types.Bool])
	}
	return T.Const("false", types.Typ[types.Bool])
}
func (T *Terms) Nil() *Term { return T.Const("nil", types.Typ[types.UntypedNil]) }

// Zero is the zero value of typ.
func (T *Terms) Zero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return T.Bool(false)
		case u.Info()&types.IsString != 0:
			return T.Const(`""`, types.Typ[types.String])
		case u.Info()&types.IsNumeric != 0:
			return T.Int(0)
		}
		return T.Nil()
	case *types.Struct, *types.Array:
		return T.mk(OpZero, "", 0, nil, typ)
	}
	return T.Nil()
}

// collapsed reports whether selecting f is the identity in the term language: the field is the
// only, embedded, field of a struct type (unixtime.Unixtime, jwks.JWKS, adapter types).
func collapsed(st *types.Struct, i int) bool {
	return st.NumFields() == 1 && st.Field(i).Embedded()
}

func (T *Terms) Sel(x *Term, st *types.Struct, i int) *Term {
	if collapsed(st, i) {
		if x.op == OpZero {
			return T.Zero(st.Field(i).Type())
		}
		return x
	}
	return T.SelVar(x, st.Field(i))
}

func (T *Terms) SelVar(x *Term, f *types.Var) *Term {
	f = f.Origin()
	switch x.op {
	case OpZero:
		return T.Zero(f.Type())
	case OpSnap:
		for i := 1; i+1 < len(x.args); i += 2 {
			a := x.args[i]
			if a.op == OpSel && a.obj == any(f) && a.args[0] == T.snapBase(x) {
				// the field itself was overridden; deeper overrides are folded below
				return T.snapUnder(x, a, x.args[i+1])
			}
		}
		a := T.mk(OpSel, "", 0, f, f.Type(), T.snapBase(x))
		return T.snapUnder(x, a, T.SelVar(x.args[0], f))
	case OpAny:
		var as []*Term
		for _, y := range x.args {
			as = append(as, T.SelVar(y, f))
		}
		return T.Any(as...)
	case OpMk:
		return T.SelVar(x.args[0], f)
	case OpConst:
		if x.isNilConst() {
			return T.mk(OpSel, "", 0, f, f.Type(), x)
		}
	}
	return T.mk(OpSel, "", 0, f, f.Type(), x)
}

// snapBase is the address the override keys of a snapshot are relative to.
func (T *Terms) snapBase(x *Term) *Term { return T.mk(OpBound, "base", 0, nil, nil) }

// snapUnder builds the snapshot of the sub-object at key a with base value v.
func (T *Terms) snapUnder(x, a, v *Term) *Term {
	var ov []*Term
	for i := 1; i+1 < len(x.args); i += 2 {
		k := x.args[i]
		if k != a && underAddr(k, a) {
			ov = append(ov, T.subst(k, a, T.snapBase(x)), x.args[i+1])
		}
	}
	return T.Snap(v, ov)
}

func underAddr(k, a *Term) bool {
	for k.op == OpSel || k.op == OpElem {
		k = k.args[0]
		if k == a {
			return true
		}
	}
	return false
}

// Snap is base with the given (key, value) overrides.
func (T *Terms) Snap(base *Term, ov []*Term) *Term {
	if len(ov) == 0 {
		return base
	}
	if base.op == OpSnap {
		var merged []*Term
		for i := 1; i+1 < len(base.args); i += 2 {
			k := base.args[i]
			shadow := false
			for j := 0; j+1 < len(ov); j += 2 {
				if ov[j] == k || underAddr(k, ov[j]) {
					shadow = true
				}
			}
			if !shadow {
				merged = append(merged, k, base.args[i+1])
			}
		}
		ov = append(merged, ov...)
		base = base.args[0]
	}
	type kv struct{ k, v *Term }
	var l []kv
	for i := 0; i+1 < len(ov); i += 2 {
		l = append(l, kv{ov[i], ov[i+1]})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].k.id < l[j].k.id })
	args := []*Term{base}
	for _, e := range l {
		args = append(args, e.k, e.v)
	}
	t := T.mk(OpSnap, "", 0, nil, base.typ, args...)
	t.bound = base.bound
	return t
}

func (T *Terms) Any(as ...*Term) *Term {
	set := map[*Term]bool{}
	var l []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == OpAny {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if !set[t] {
			set[t] = true
			l = append(l, t)
		}
	}
	for _, a := range as {
		add(a)
	}
	if len(l) == 1 {
		return l[0]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return T.mk(OpAny, "", 0, nil, l[0].typ, l...)
}

func (T *Terms) Elem(x, i *Term) *Term {
	if x.op == OpMk {
		x = x.args[0]
	}
	if x.op == OpList && i.op == OpConst {
		var n int
		if _, err := fmt.Sscan(i.str, &n); err == nil && n >= 0 && n < len(x.args) {
			return x.args[n]
		}
	}
	if n, ok := constInt(i); ok && n >= 0 {
		switch x.op {
		case OpSlice:
			if lo, ok := constInt(x.args[1]); ok {
				return T.Elem(x.args[0], T.Int(lo+n))
			}
		case OpApp:
			if m, ok := constInt(T.Len(x.args[0])); ok {
				if n < m {
					return T.Elem(x.args[0], i)
				}
				if n-m+1 < len(x.args) {
					return x.args[n-m+1]
				}
			}
		case OpAppS:
			if m, ok := constInt(T.Len(x.args[0])); ok {
				if n < m {
					return T.Elem(x.args[0], i)
				}
				return T.Elem(x.args[1], T.Int(n-m))
			}
		}
	}
	if x.op == OpCall && x.str == "#mapped" {
		// element-wise projection of a slice: args[0] the slice, obj the field
		return T.SelVar(T.Elem(x.args[0], i), T.mappedField(x))
	}
	return T.mk(OpElem, "", 0, nil, nil, x, i)
}

func (T *Terms) mappedField(x *Term) *types.Var {
	return x.args[1].obj.(*types.Var)
}

func (T *Terms) Not(x *Term) *Term {
	switch {
	case x.isConst("true"):
		return T.Bool(false)
	case x.isConst("false"):
		return T.Bool(true)
	case x.op == OpNot:
		return x.args[0]
	}
	return T.mk(OpNot, "", 0, nil, x.typ, x)
}

func (T *Terms) Len(x *Term) *Term {
	switch x.op {
	case OpList:
		return T.Int(len(x.args))
	case OpMk:
		return T.Len(x.args[0])
	case OpOld:
		if n, ok := constInt(T.Len(x.args[0])); ok {
			return T.Int(n)
		}
	case OpConst:
		if x.isNilConst() {
			return T.Int(0)
		}
		if strings.HasPrefix(x.str, `"`) {
			if v, ok := strOf(x); ok {
				return T.Int(len(v))
			}
		}
	case OpZero:
		if a, ok := x.typ.Underlying().(*types.Array); ok {
			return T.Int(int(a.Len()))
		}
	case OpCall:
		if x.str == "#mapped" {
			return T.Len(x.args[0])
		}
		if x.str == "#make" || x.str == "#arr" {
			return x.args[0]
		}
	case OpSlice:
		lo, ok1 := constInt(x.args[1])
		hi, ok2 := constInt(x.args[2])
		if ok1 && ok2 && hi >= lo {
			return T.Int(hi - lo)
		}
		if ok1 && lo == 0 {
			return x.args[2]
		}
	case OpApp:
		if n, ok := constInt(T.Len(x.args[0])); ok {
			return T.Int(n + len(x.args) - 1)
		}
	case OpAppS:
		if n, ok := constInt(T.Len(x.args[0])); ok {
			if m, ok := constInt(T.Len(x.args[1])); ok {
				return T.Int(n + m)
			}
		}
	}
	return T.mk(OpLen, "", 0, nil, types.Typ[types.Int], x)
}

// subst replaces from by to in t.
func (T *Terms) subst(t, from, to *Term) *Term {
	return T.substM(t, map[*Term]*Term{from: to}, map[*Term]*Term{})
}

func (T *Terms) substM(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	changed := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = T.substM(a, m, memo)
		if as[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = T.rebuild(t, as)
	}
	memo[t] = r
	return r
}

// rebuild makes t with new arguments (no re-normalisation: addresses must stay stable).
func (T *Terms) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OpAny:
		return T.Any(as...)
	case OpEq:
		return T.Eq(as[0], as[1])
	case OpOld:
		return T.Old(as[0])
	}
	return T.mk(t.op, t.str, t.num, t.obj, t.typ, as...)
}

// Old is the summary of earlier incarnations of symbol s.
func (T *Terms) Old(s *Term) *Term {
	if s.op == OpOld {
		return s
	}
	return T.mk(OpOld, "", 0, nil, s.typ, s)
}

// ---- atoms ----

func (T *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return T.Bool(true)
	}
	if a.op == OpMk {
		a = a.args[0]
	}
	if b.op == OpMk {
		b = b.args[0]
	}
	if a == b {
		return T.Bool(true)
	}
	if isRT(a) && isRT(b) {
		return T.Bool(types.Identical(a.typ, b.typ))
	}
	if a.op == OpConst && b.op == OpConst {
		if a.isNilConst() == b.isNilConst() {
			return T.Bool(false)
		}
	}
	if a.isNilConst() {
		return T.IsNil(b)
	}
	if b.isNilConst() {
		return T.IsNil(a)
	}
	if n, ok := constInt(a); ok {
		if l, ok := lowInt(b); ok && n < l {
			return T.Bool(false)
		}
	}
	if n, ok := constInt(b); ok {
		if l, ok := lowInt(a); ok && n < l {
			return T.Bool(false)
		}
	}
	for k := 0; k < 2; k++ {
		if a.isConst("true") {
			return b
		}
		if a.isConst("false") {
			return T.Not(b)
		}
		if a.isConst(`""`) {
			return T.Empty(b)
		}
		if a.isConst("0") && b.op == OpLen {
			return T.Empty(b.args[0])
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OpEq, "", 0, nil, types.Typ[types.Bool], a, b)
}

func (T *Terms) IsNil(x *Term) *Term {
	switch x.op {
	case OpConst:
		return T.Bool(x.isNilConst())
	case OpSlice:
		return T.IsNil(x.args[0])
	case OpAlloc, OpList, OpFn, OpClos, OpApp, OpZero, OpGlobal:
		if x.op == OpGlobal {
			break
		}
		return T.Bool(false)
	case OpMk:
		if _, ok := x.args[0].typ.(*types.Basic); ok && !x.args[0].isNilConst() {
			return T.Bool(false)
		}
		return T.Bool(false)
	case OpOld:
		if x.args[0].op == OpAlloc {
			return T.Bool(false)
		}
	case OpSnap:
		return T.Bool(false)
	case OpCall:
		switch x.str {
		case "#error", "#make", "#makemap", "#arr":
			return T.Bool(false)
		case "#wrap":
			return T.IsNil(x.args[0])
		}
	case OpAny:
		all := T.IsNil(x.args[0])
		for _, a := range x.args[1:] {
			if T.IsNil(a) != all {
				all = nil
				break
			}
		}
		if all != nil {
			return all
		}
	}
	return T.mk(OpIsNil, "", 0, nil, types.Typ[types.Bool], x)
}

func (T *Terms) Empty(x *Term) *Term {
	switch x.op {
	case OpMk:
		return T.Empty(x.args[0])
	case OpConst:
		return T.Bool(x.isNilConst() || x.str == `""`)
	case OpList:
		return T.Bool(len(x.args) == 0)
	case OpApp:
		return T.Bool(false)
	case OpAppS:
		if T.Empty(x.args[0]).isConst("false") {
			return T.Bool(false)
		}
	case OpConv:
		return T.Empty(x.args[0])
	case OpSlice:
		if len(x.args) == 3 && x.args[2].isConst("0") {
			return T.Bool(true)
		}
		if n, ok := constInt(T.Len(x)); ok {
			return T.Bool(n == 0)
		}
	case OpCall:
		switch x.str {
		case "#mapped":
			return T.Empty(x.args[0])
		case "#make", "#arr":
			return T.cmpZero(x.args[0])
		}
	case OpOld:
		if n, ok := constInt(T.Len(x.args[0])); ok {
			return T.Bool(n == 0)
		}
	case OpBin:
		if x.str == "+" { // string concatenation
			for _, a := range x.args {
				if T.Empty(a).isConst("false") {
					return T.Bool(false)
				}
			}
		}
	}
	return T.mk(OpEmpty, "", 0, nil, types.Typ[types.Bool], x)
}

// cmpZero is the atom n == 0 for a length n.
func (T *Terms) cmpZero(n *Term) *Term {
	if n.op == OpConst {
		return T.Bool(n.str == "0")
	}
	if n.op == OpLen {
		return T.Empty(n.args[0])
	}
	return T.Eq(n, T.Int(0))
}

func constInt(t *Term) (int, bool) {
	if t.op != OpConst {
		return 0, false
	}
	var n int
	if _, err := fmt.Sscanf(t.str, "%d", &n); err != nil || fmt.Sprint(n) != t.str {
		return 0, false
	}
	return n, true
}

// lowInt is a lower bound of an integer term.
func lowInt(t *Term) (int, bool) {
	if n, ok := constInt(t); ok {
		return n, true
	}
	switch t.op {
	case OpOld:
		return lowInt(t.args[0])
	case OpSym:
		return 0, t.str == "i"
	case OpLen:
		return 0, true
	case OpBin:
		if t.str == "+" {
			a, ok1 := lowInt(t.args[0])
			b, ok2 := lowInt(t.args[1])
			return a + b, ok1 && ok2
		}
	}
	return 0, false
}

func (T *Terms) Lt(a, b *Term) *Term {
	if a == b {
		return T.Bool(false)
	}
	x, ok1 := constInt(a)
	y, ok2 := constInt(b)
	if ok1 && ok2 {
		return T.Bool(x < y)
	}
	if l, ok := lowInt(a); ok && ok2 && l >= y {
		return T.Bool(false)
	}
	if l, ok := lowInt(b); ok && ok1 && x < l {
		return T.Bool(true)
	}
	if ok1 && b.op == OpLen {
		if x < 0 {
			return T.Bool(true)
		}
		if x == 0 {
			return T.Not(T.Empty(b.args[0]))
		}
	}
	if ok2 && a.op == OpLen {
		if y <= 0 {
			return T.Bool(false)
		}
		if y == 1 {
			return T.Empty(a.args[0])
		}
	}
	return T.mk(OpLt, "", 0, nil, types.Typ[types.Bool], a, b)
}

func (T *Terms) Has(m, k *Term) *Term {
	if m.isNilConst() {
		return T.Bool(false)
	}
	return T.mk(OpHas, "", 0, nil, types.Typ[types.Bool], m, k)
}

// BoundN is the index variable of a quantifier that contains n-1 nested quantifiers.
func (T *Terms) BoundN(n int) *Term { return T.mk(OpBound, "", n, nil, nil) }

// quantLevel is the nesting depth of quantifiers in t.
func quantLevel(t *Term) int {
	n := 0
	for _, a := range t.args {
		if l := quantLevel(a); l > n {
			n = l
		}
	}
	if t.op == OpExists {
		n++
	}
	return n
}

// ExistsIdx quantifies the index term idx of body away.
func (T *Terms) ExistsIdx(s, body, idx *Term) *Term {
	return T.Exists(s, T.subst(body, idx, T.BoundN(quantLevel(body)+1)))
}

// In is the atom "v is an element of s".
func (T *Terms) In(v, s *Term) *Term {
	b := T.BoundN(quantLevel(v) + 1)
	if s.op == OpList {
		if len(s.args) == 0 {
			return T.Bool(false)
		}
		if len(s.args) == 1 {
			return T.Eq(s.args[0], v)
		}
	}
	return T.Exists(s, T.Eq(T.Elem(s, b), v))
}

func (T *Terms) Exists(s, body *Term) *Term {
	switch T.Empty(s).str {
	case "true":
		if T.Empty(s).op == OpConst {
			return T.Bool(false)
		}
	}
	if s.op == OpCall && s.str == "#mapped" {
		f := T.mappedField(s)
		base := s.args[0]
		body = T.replElem(body, s, func(i *Term) *Term { return T.SelVar(T.Elem(base, i), f) })
		s = base
	}
	return T.mk(OpExists, "", 0, nil, types.Typ[types.Bool], s, body)
}

// replElem rewrites every Elem(s, i) of t.
func (T *Terms) replElem(t, s *Term, f func(i *Term) *Term) *Term {
	if t.op == OpElem && t.args[0] == s {
		return f(t.args[1])
	}
	if len(t.args) == 0 {
		return t
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = T.replElem(a, s, f)
		ch = ch || as[i] != a
	}
	if !ch {
		return t
	}
	return T.rebuild(t, as)
}

func (T *Terms) Before(a, b *Term) *Term {
	if a == b {
		return T.Bool(false)
	}
	return T.mk(OpBefore, "", 0, nil, types.Typ[types.Bool], a, b)
}
