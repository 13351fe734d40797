package main

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Partial evaluation of package reflect: where the dynamic type of a value is known from the
// source, walking its fields by reflection is an ordinary, bounded computation.

func (x *Exec) rtype(t types.Type) *Term {
	return x.T.mk(OpFn, "#rt:"+types.TypeString(t, nil), x.localID(t), nil, t)
}

// localID tells apart types of the same name declared within functions.
func (x *Exec) localID(t types.Type) int {
	for i := 0; i < 8; i++ {
		switch u := t.(type) {
		case *types.Alias:
			t = types.Unalias(u)
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		case *types.Array:
			t = u.Elem()
		case *types.Map:
			t = u.Elem()
		case *types.Named:
			if o := u.Obj(); o.Pkg() != nil && o.Parent() != o.Pkg().Scope() {
				return x.T.objID(o)
			}
			return 0
		default:
			return 0
		}
	}
	return 0
}

// rv is a reflect.Value holding v (or, with addr, the variable at address v) of type t.
func (x *Exec) rv(v *Term, t types.Type, addr bool) *Term {
	n := 0
	if addr {
		n = 1
	}
	return x.T.mk(OpCall, "#rv", n, nil, nil, v, x.rtype(t))
}

func isRT(t *Term) bool {
	return t != nil && t.op == OpFn && strings.HasPrefix(t.str, "#rt:") && t.typ != nil
}

func isRV(t *Term) bool {
	return t != nil && t.op == OpCall && t.str == "#rv" && len(t.args) == 2 && isRT(t.args[1])
}

// rvValue is the Go value a reflect.Value holds.
func (x *Exec) rvValue(st *State, r *Term) *Term {
	if r.num == 1 {
		return x.load(st, r.args[0])
	}
	return r.args[0]
}

// rvIface is the value as an interface.
func (x *Exec) rvIface(st *State, r *Term) *Term {
	v := x.rvValue(st, r)
	t := r.args[1].typ
	if types.IsInterface(t) || v.op == OpMk {
		return v
	}
	return x.T.mk(OpMk, "", 0, nil, t, v)
}

// rvInvalid is the zero reflect.Value.
func (x *Exec) rvInvalid() *Term { return x.T.mk(OpCall, "#rvinvalid", 0, nil, nil) }

// rvOf is the reflect.Value of an interface.
func (x *Exec) rvOf(v *Term) *Term {
	if v.op == OpMk && v.typ != nil {
		return x.rv(v.args[0], v.typ, false)
	}
	return nil
}

func kindOf(t types.Type) (reflect.Kind, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool, true
		case types.Int:
			return reflect.Int, true
		case types.Int8:
			return reflect.Int8, true
		case types.Int16:
			return reflect.Int16, true
		case types.Int32:
			return reflect.Int32, true
		case types.Int64:
			return reflect.Int64, true
		case types.Uint:
			return reflect.Uint, true
		case types.Uint8:
			return reflect.Uint8, true
		case types.Uint16:
			return reflect.Uint16, true
		case types.Uint32:
			return reflect.Uint32, true
		case types.Uint64:
			return reflect.Uint64, true
		case types.Float32:
			return reflect.Float32, true
		case types.Float64:
			return reflect.Float64, true
		case types.String:
			return reflect.String, true
		}
	case *types.Pointer:
		return reflect.Pointer, true
	case *types.Slice:
		return reflect.Slice, true
	case *types.Map:
		return reflect.Map, true
	case *types.Struct:
		return reflect.Struct, true
	case *types.Array:
		return reflect.Array, true
	case *types.Signature:
		return reflect.Func, true
	case *types.Chan:
		return reflect.Chan, true
	case *types.Interface:
		return reflect.Interface, true
	}
	return 0, false
}

func (x *Exec) strTerm(s string) *Term {
	return x.T.Const(strconv.Quote(s), types.Typ[types.String])
}

// strOf is the value of a constant string term.
func strOf(t *Term) (string, bool) {
	if t == nil || t.op != OpConst || len(t.str) < 2 || t.str[0] != '"' {
		if t != nil && t.op == OpZero && t.typ != nil && isString(t.typ) {
			return "", true
		}
		return "", false
	}
	s, err := strconv.Unquote(t.str)
	return s, err == nil
}

// structField describes field i of s as the reflect.StructField of type sf.
func (x *Exec) structField(sf types.Type, s *types.Struct, i int) *Term {
	T := x.T
	z := T.Zero(sf)
	st, ok := sf.Underlying().(*types.Struct)
	if !ok {
		return z
	}
	var ov []*Term
	set := func(name string, v *Term) {
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == name {
				f := st.Field(j).Origin()
				ov = append(ov, T.mk(OpSel, "", 0, f, f.Type(), T.snapBase(nil)), v)
			}
		}
	}
	set("Name", x.strTerm(s.Field(i).Name()))
	if !s.Field(i).Exported() {
		set("PkgPath", x.strTerm(s.Field(i).Pkg().Path()))
	}
	set("Tag", x.strTerm(s.Tag(i)))
	set("Type", T.mk(OpMk, "", 0, nil, x.rtypePtr(), x.rtype(s.Field(i).Type())))
	set("Index", T.mk(OpList, "", 0, nil, nil, T.Int(i)))
	if s.Field(i).Anonymous() {
		set("Anonymous", T.Bool(true))
	}
	return T.Snap(z, ov)
}

// reflectCall evaluates calls of package reflect and of string functions on known arguments.
func (x *Exec) reflectCall(st *State, ev *CallEvent) ([]Outcome, bool) {
	T := x.T
	one := func(t *Term) ([]Outcome, bool) { return []Outcome{{st: st, res: t}}, true }
	pair := func(a, b *Term) ([]Outcome, bool) { return one(T.mk(OpTuple, "", 0, nil, nil, a, b)) }
	none := T.mk(OpTuple, "", 0, nil, nil)
	a := ev.Addrs
	arg := func(i int) *Term { return a[i] }
	name := ev.Name
	var res types.Type
	if ev.Instr != nil {
		if r := ev.Instr.Common().Signature().Results(); r.Len() > 0 {
			res = r.At(0).Type()
		}
	}
	if strings.HasPrefix(name, "strings.") {
		return x.stringCall(st, ev)
	}
	switch name {
	case "reflect.StructTag.Get", "reflect.StructTag.Lookup":
		tag, ok1 := strOf(arg(0))
		key, ok2 := strOf(arg(1))
		if !ok1 || !ok2 {
			return nil, false
		}
		v, has := reflect.StructTag(tag).Lookup(key)
		if strings.HasSuffix(name, "Get") {
			return one(x.strTerm(v))
		}
		return pair(x.strTerm(v), T.Bool(has))
	case "reflect.StructField.IsExported":
		return nil, false
	case "reflect.ValueOf":
		if r := x.rvOf(arg(0)); r != nil {
			return one(r)
		}
		if nilv, ok := x.Known(st, T.IsNil(arg(0))); ok && nilv {
			return one(x.rvInvalid())
		}
		return nil, false
	case "reflect.TypeOf":
		if arg(0).op == OpMk && arg(0).typ != nil {
			return one(T.mk(OpMk, "", 0, nil, x.rtypePtr(), x.rtype(arg(0).typ)))
		}
		return nil, false
	case "reflect.Indirect":
		r := arg(0)
		if !isRV(r) {
			return nil, false
		}
		if p, ok := r.args[1].typ.Underlying().(*types.Pointer); ok {
			return one(x.rv(x.rvValue(st, r), p.Elem(), true))
		}
		return one(r)
	case "reflect.Zero":
		if t := unMk(arg(0)); isRT(t) {
			return one(x.rv(T.Zero(t.typ), t.typ, false))
		}
		return nil, false
	case "reflect.SliceOf":
		if t := unMk(arg(0)); isRT(t) {
			return one(T.mk(OpMk, "", 0, nil, x.rtypePtr(), x.rtype(types.NewSlice(t.typ))))
		}
		return nil, false
	case "reflect.MakeSlice":
		if t := unMk(arg(0)); isRT(t) && ev.Instr != nil {
			if n, ok := constInt(arg(1)); ok {
				site := T.site(ev.Instr.(ssa.Instruction), ev.Ctx)
				mk := T.mk(OpCall, "#make", x.incarnation(st, site), site, t.typ, T.Int(n))
				x.redefine(st, mk, false)
				for i := 0; i < n; i++ {
					x.store(st, T.Elem(mk, T.Int(i)), T.Zero(t.typ.Underlying().(*types.Slice).Elem()))
				}
				return one(x.rv(mk, t.typ, false))
			}
		}
		return nil, false
	case "reflect.Append", "reflect.AppendSlice":
		b := arg(0)
		if !isRV(b) {
			return nil, false
		}
		st0, ok := b.args[1].typ.Underlying().(*types.Slice)
		if !ok {
			return nil, false
		}
		base := x.rvValue(st, b)
		var add []*Term
		if name == "reflect.AppendSlice" {
			o := arg(1)
			if !isRV(o) {
				return nil, false
			}
			l, ok := x.listOf(st, x.rvValue(st, o))
			if !ok || !types.Identical(b.args[1].typ.Underlying(), o.args[1].typ.Underlying()) {
				return nil, false
			}
			add = l
		} else {
			l, ok := x.listOf(st, arg(1))
			if !ok {
				return nil, false
			}
			for _, e := range l {
				if !isRV(e) {
					return nil, false
				}
				v := x.rvValue(st, e)
				if types.IsInterface(st0.Elem()) {
					v = x.rvIface(st, e)
				}
				if !types.AssignableTo(e.args[1].typ, st0.Elem()) {
					return []Outcome{{st: st, panic: true}}, true
				}
				add = append(add, v)
			}
		}
		if in, ok := ev.Instr.(ssa.Instruction); ok && x.H.OnAppend != nil {
			x.H.OnAppend(x, st, in, base, add)
		}
		if len(add) == 0 {
			return one(b)
		}
		return one(x.rv(T.mk(OpApp, "", 0, nil, b.args[1].typ, append([]*Term{base}, add...)...), b.args[1].typ, false))
	case "reflect.New":
		if t := unMk(arg(0)); isRT(t) && ev.Instr != nil {
			site := T.site(ev.Instr.(ssa.Instruction), ev.Ctx)
			pt := types.NewPointer(t.typ)
			al := T.mk(OpAlloc, types.TypeString(t.typ, func(p *types.Package) string { return p.Name() }), x.incarnation(st, site), site, pt)
			x.redefine(st, al, false)
			return one(x.rv(al, pt, false))
		}
		return nil, false
	}
	if strings.HasPrefix(name, "reflect.Type.") || strings.HasPrefix(name, "reflect.rtype.") {
		m := name[strings.LastIndex(name, ".")+1:]
		t := unMk(arg(0))
		if !isRT(t) {
			return nil, false
		}
		return x.rtypeCall(st, ev, m, t, res)
	}
	if strings.HasPrefix(name, "reflect.Value.") && len(a) > 0 && (arg(0) == x.rvInvalid() || arg(0).op == OpZero) {
		switch strings.TrimPrefix(name, "reflect.Value.") {
		case "IsValid":
			return one(T.Bool(false))
		case "Kind":
			return one(T.Int(0))
		}
		return []Outcome{{st: st, panic: true}}, true
	}
	if !strings.HasPrefix(name, "reflect.Value.") || len(a) == 0 || !isRV(arg(0)) {
		return nil, false
	}
	r := arg(0)
	t := r.args[1].typ
	switch strings.TrimPrefix(name, "reflect.Value.") {
	case "Type":
		return one(T.mk(OpMk, "", 0, nil, x.rtypePtr(), x.rtype(t)))
	case "Kind":
		if k, ok := kindOf(t); ok {
			return one(T.Int(int(k)))
		}
	case "IsValid":
		return one(T.Bool(true))
	case "CanInterface", "CanSet":
		if r.num == 1 {
			return one(T.Bool(true))
		}
		return one(T.Bool(strings.HasSuffix(name, "CanInterface")))
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return one(x.rv(x.rvValue(st, r), u.Elem(), true))
		case *types.Interface:
			v := x.rvValue(st, r)
			if v.op == OpMk && v.typ != nil {
				return one(x.rv(v.args[0], v.typ, false))
			}
		}
	case "NumField":
		if s, ok := t.Underlying().(*types.Struct); ok {
			return one(T.Int(s.NumFields()))
		}
	case "Field", "FieldByName":
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		i := -1
		if strings.HasSuffix(name, "FieldByName") {
			n, ok := strOf(arg(1))
			if !ok {
				return nil, false
			}
			for j := 0; j < s.NumFields(); j++ {
				if s.Field(j).Name() == n {
					i = j
				}
			}
			if i < 0 {
				return one(x.rvInvalid())
			}
		} else if n, ok := constInt(arg(1)); ok && n >= 0 && n < s.NumFields() {
			i = n
		} else {
			return nil, false
		}
		ft := s.Field(i).Type()
		if r.num == 1 {
			return one(x.rv(x.fieldAddr(r.args[0], s, i), ft, true))
		}
		return one(x.rv(T.Sel(r.args[0], s, i), ft, false))
	case "Interface":
		return one(x.rvIface(st, r))
	case "IsNil":
		return one(T.IsNil(x.rvValue(st, r)))
	case "IsZero":
		v := x.rvValue(st, r)
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Signature, *types.Chan:
			return one(T.IsNil(v))
		case *types.Basic:
			return one(T.Eq(v, T.Zero(t)))
		}
	case "Len":
		v := x.rvValue(st, r)
		if keys, ok := x.mapKeys(st, v); ok {
			return one(T.Int(len(keys)))
		}
		return one(T.Len(v))
	case "Index":
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if l, ok := x.listOf(st, x.rvValue(st, r)); ok {
				i, ok := constInt(arg(1))
				if ok && (i < 0 || i >= len(l)) {
					return []Outcome{{st: st, panic: true}}, true
				}
				if u := unMk(x.rvValue(st, r)).op; ok && (u == OpList || u == OpApp || u == OpAppS) {
					return one(x.rv(l[i], sl.Elem(), false))
				}
			}
			return one(x.rv(T.Elem(x.rvValue(st, r), arg(1)), sl.Elem(), true))
		}
	case "String":
		if isString(t) {
			return one(x.rvValue(st, r))
		}
	case "Bool", "Int", "Uint", "Float":
		return one(x.rvValue(st, r))
	case "Set":
		if arg(1) == x.rvInvalid() {
			return []Outcome{{st: st, panic: true}}, true
		}
		if r.num != 1 || !isRV(arg(1)) {
			return nil, false
		}
		if !types.AssignableTo(arg(1).args[1].typ, t) {
			return []Outcome{{st: st, panic: true}}, true
		}
		v := x.rvValue(st, arg(1))
		if types.IsInterface(t) {
			v = x.rvIface(st, arg(1))
		}
		x.rstore(st, ev, r.args[0], v)
		return one(none)
	case "SetZero":
		if r.num == 1 {
			x.rstore(st, ev, r.args[0], T.Zero(t))
			return one(none)
		}
	case "SetString", "SetBool", "SetInt", "SetFloat", "SetUint":
		if r.num == 1 {
			x.rstore(st, ev, r.args[0], arg(1))
			return one(none)
		}
	case "Addr":
		if r.num == 1 {
			return one(x.rv(r.args[0], types.NewPointer(t), false))
		}
	case "UnsafeAddr":
		if r.num == 1 {
			return one(r.args[0])
		}
	}
	return nil, false
}

func (x *Exec) rstore(st *State, ev *CallEvent, a, v *Term) {
	if x.H.OnStore != nil {
		if in, ok := ev.Instr.(ssa.Instruction); ok {
			x.H.OnStore(x, st, in, a, v)
		}
	}
	x.store(st, a, v)
}

// rtypePtr is a stand-in for *reflect.rtype, the dynamic type of a reflect.Type.
func (x *Exec) rtypePtr() types.Type {
	if x.rtp == nil {
		x.rtp = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "rtype", nil), types.NewStruct(nil, nil), nil))
	}
	return x.rtp
}

func (x *Exec) rtypeCall(st *State, ev *CallEvent, m string, t *Term, res types.Type) ([]Outcome, bool) {
	T := x.T
	one := func(t *Term) ([]Outcome, bool) { return []Outcome{{st: st, res: t}}, true }
	mk := func(ty types.Type) *Term { return T.mk(OpMk, "", 0, nil, x.rtypePtr(), x.rtype(ty)) }
	ty := t.typ
	switch m {
	case "NumField":
		if s, ok := ty.Underlying().(*types.Struct); ok {
			return one(T.Int(s.NumFields()))
		}
	case "Field":
		if s, ok := ty.Underlying().(*types.Struct); ok {
			if i, ok := constInt(ev.Addrs[1]); ok && i >= 0 && i < s.NumFields() {
				return one(x.structField(res, s, i))
			}
		}
	case "FieldByName":
		if s, ok := ty.Underlying().(*types.Struct); ok {
			if n, ok := strOf(ev.Addrs[1]); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == n {
						return one(T.mk(OpTuple, "", 0, nil, nil, x.structField(res, s, i), T.Bool(true)))
					}
				}
				return one(T.mk(OpTuple, "", 0, nil, nil, T.Zero(res), T.Bool(false)))
			}
		}
	case "Elem":
		switch u := ty.Underlying().(type) {
		case *types.Pointer:
			return one(mk(u.Elem()))
		case *types.Slice:
			return one(mk(u.Elem()))
		case *types.Map:
			return one(mk(u.Elem()))
		case *types.Array:
			return one(mk(u.Elem()))
		}
	case "Kind":
		if k, ok := kindOf(ty); ok {
			return one(T.Int(int(k)))
		}
	case "Name":
		if n, ok := ty.(*types.Named); ok {
			return one(x.strTerm(n.Obj().Name()))
		}
	case "AssignableTo", "ConvertibleTo", "Implements":
		o := unMk(ev.Addrs[1])
		if !isRT(o) {
			return nil, false
		}
		switch m {
		case "AssignableTo":
			return one(T.Bool(types.AssignableTo(ty, o.typ)))
		case "ConvertibleTo":
			return one(T.Bool(types.ConvertibleTo(ty, o.typ)))
		default:
			if i, ok := o.typ.Underlying().(*types.Interface); ok {
				return one(T.Bool(types.Implements(ty, i)))
			}
		}
	}
	return nil, false
}

// stringCall evaluates functions of package strings on constant arguments.
func (x *Exec) stringCall(st *State, ev *CallEvent) ([]Outcome, bool) {
	T := x.T
	one := func(t *Term) ([]Outcome, bool) { return []Outcome{{st: st, res: t}}, true }
	var s []string
	for _, a := range ev.Args {
		v, ok := strOf(a)
		if !ok {
			break
		}
		s = append(s, v)
	}
	n := len(s)
	list := func(l []string) *Term {
		var ts []*Term
		for _, e := range l {
			ts = append(ts, x.strTerm(e))
		}
		return T.mk(OpList, "", 0, nil, nil, ts...)
	}
	switch strings.TrimPrefix(ev.Name, "strings.") {
	case "TrimSuffix":
		if n == 2 {
			return one(x.strTerm(strings.TrimSuffix(s[0], s[1])))
		}
	case "TrimPrefix":
		if n == 2 {
			return one(x.strTerm(strings.TrimPrefix(s[0], s[1])))
		}
	case "Trim":
		if n == 2 {
			return one(x.strTerm(strings.Trim(s[0], s[1])))
		}
	case "TrimRight":
		if n == 2 {
			return one(x.strTerm(strings.TrimRight(s[0], s[1])))
		}
	case "TrimLeft":
		if n == 2 {
			return one(x.strTerm(strings.TrimLeft(s[0], s[1])))
		}
	case "ReplaceAll":
		if n == 3 {
			return one(x.strTerm(strings.ReplaceAll(s[0], s[1], s[2])))
		}
	case "LastIndex":
		if n == 2 {
			return one(T.Int(strings.LastIndex(s[0], s[1])))
		}
	case "Count":
		if n == 2 {
			return one(T.Int(strings.Count(s[0], s[1])))
		}
	case "TrimSpace":
		if n == 1 {
			return one(x.strTerm(strings.TrimSpace(s[0])))
		}
	case "ToLower":
		if n == 1 {
			return one(x.strTerm(strings.ToLower(s[0])))
		}
	case "ToUpper":
		if n == 1 {
			return one(x.strTerm(strings.ToUpper(s[0])))
		}
	case "HasSuffix":
		if n == 2 {
			return one(T.Bool(strings.HasSuffix(s[0], s[1])))
		}
	case "HasPrefix":
		if n == 2 {
			return one(T.Bool(strings.HasPrefix(s[0], s[1])))
		}
	case "Contains":
		if n == 2 {
			return one(T.Bool(strings.Contains(s[0], s[1])))
		}
	case "EqualFold":
		if n == 2 {
			return one(T.Bool(strings.EqualFold(s[0], s[1])))
		}
	case "Index":
		if n == 2 {
			return one(T.Int(strings.Index(s[0], s[1])))
		}
	case "IndexByte", "IndexRune":
		if n == 1 {
			if r, ok := constInt(ev.Args[1]); ok {
				return one(T.Int(strings.IndexRune(s[0], rune(r))))
			}
		}
	case "Split":
		if n == 2 {
			return one(list(strings.Split(s[0], s[1])))
		}
	case "SplitN":
		if n == 2 {
			if k, ok := constInt(ev.Args[2]); ok {
				return one(list(strings.SplitN(s[0], s[1], k)))
			}
		}
	case "Cut":
		if n == 2 {
			b, a, f := strings.Cut(s[0], s[1])
			return one(T.mk(OpTuple, "", 0, nil, nil, x.strTerm(b), x.strTerm(a), T.Bool(f)))
		}
	case "CutSuffix":
		if n == 2 {
			b, f := strings.CutSuffix(s[0], s[1])
			return one(T.mk(OpTuple, "", 0, nil, nil, x.strTerm(b), T.Bool(f)))
		}
	case "CutPrefix":
		if n == 2 {
			b, f := strings.CutPrefix(s[0], s[1])
			return one(T.mk(OpTuple, "", 0, nil, nil, x.strTerm(b), T.Bool(f)))
		}
	case "Fields":
		if n == 1 {
			return one(list(strings.Fields(s[0])))
		}
	}
	return nil, false
}

// peekReflect evaluates v.NumField() and v.Len() in a loop header.
func (x *Exec) peekReflect(st *State, v *ssa.Call, b *ssa.BasicBlock) *Term {
	var recv ssa.Value
	var name string
	switch {
	case v.Call.IsInvoke():
		recv, name = v.Call.Value, v.Call.Method.Name()
	case len(v.Call.Args) == 1:
		f := v.Call.StaticCallee()
		if f == nil || f.Signature.Recv() == nil {
			return nil
		}
		recv, name = v.Call.Args[0], f.Name()
	}
	if name != "NumField" && name != "Len" {
		return nil
	}
	r := x.peek(st, recv, b)
	if r == nil {
		return nil
	}
	r = unMk(r)
	var t types.Type
	switch {
	case isRV(r):
		t = r.args[1].typ
		if _, ok := t.Underlying().(*types.Slice); ok && name == "Len" {
			if l, ok := x.listOf(st, x.rvValue(st, r)); ok {
				return x.T.Int(len(l))
			}
			return nil
		}
	case isRT(r):
		t = r.typ
	default:
		return nil
	}
	if s, ok := t.Underlying().(*types.Struct); ok && name == "NumField" {
		return x.T.Int(s.NumFields())
	}
	return nil
}
