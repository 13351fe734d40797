package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

func init() {
	register(&Check{
		ID: "C39", Title: "Times and durations keep their value in every encoding", Min: 20,
		Technique: "symbolic evaluation of the codecs, with results compared as linear forms with their precision and range",
		Rule:      "every codec of a type that wraps a time or a duration, and the constructor of durations, is evaluated symbolically; the result is a linear form of the number or time it was given: a decoded time is 1e9 ns per second of the number, a decoded duration likewise, an encoded one the number of seconds; nothing coarser than a nanosecond is cut off, and no intermediate number leaves its range for times up to the year 5000; the absent time is 0, and what is no number is refused",
		Run:       runTime,
	})
}

// linForm is a linear form of what a codec was given: f (the number), its integral part I (J if rounded down), the time
// T in ns or its whole seconds S, the duration D in ns, and 1. cut is how much truncation took off at most.
type linForm struct {
	k    map[string]*big.Rat
	cut  *big.Rat
	over string
}

func (l *linForm) scale(c *big.Rat) *linForm {
	r := &linForm{k: map[string]*big.Rat{}, cut: new(big.Rat).Mul(l.cut, new(big.Rat).Abs(c)), over: l.over}
	for a, v := range l.k {
		r.k[a] = new(big.Rat).Mul(v, c)
	}
	return r
}

func (l *linForm) plus(o *linForm) *linForm {
	r := &linForm{k: map[string]*big.Rat{}, cut: l.cut, over: l.over}
	if o.cut.Cmp(r.cut) > 0 {
		r.cut = o.cut
	}
	if r.over == "" {
		r.over = o.over
	}
	for a, v := range l.k {
		r.k[a] = v
	}
	for a, v := range o.k {
		if w := r.k[a]; w != nil {
			v = new(big.Rat).Add(v, w)
		}
		r.k[a] = v
	}
	return r
}

func (l *linForm) is(want map[string]*big.Rat) bool {
	for a, v := range l.k {
		if w := want[a]; v.Sign() != 0 && (w == nil || w.Cmp(v) != 0) {
			return false
		}
	}
	for a, w := range want {
		if v := l.k[a]; w.Sign() != 0 && (v == nil || v.Cmp(w) != 0) {
			return false
		}
	}
	return true
}

func (l *linForm) String() string {
	var s []string
	for _, a := range []string{"f", "I", "J", "T", "S", "D", "1"} {
		if v := l.k[a]; v != nil && v.Sign() != 0 {
			s = append(s, v.RatString()+"·"+a)
		}
	}
	if len(s) == 0 {
		s = []string{"0"}
	}
	return strings.Join(s, " + ") + " (to " + l.cut.RatString() + ")"
}

func linAtom(a string) *linForm {
	return &linForm{k: map[string]*big.Rat{a: big.NewRat(1, 1)}, cut: new(big.Rat)}
}

const maxSeconds = 100_000_000_000 // the year 5138

// bound is the largest absolute value of a linear form.
func (l *linForm) bound() *big.Rat {
	get := func(a string) *big.Rat {
		if v := l.k[a]; v != nil {
			return v
		}
		return new(big.Rat)
	}
	b := new(big.Rat)
	add := func(c *big.Rat, times *big.Rat) {
		b.Add(b, new(big.Rat).Mul(new(big.Rat).Abs(c), times))
	}
	secs := big.NewRat(maxSeconds, 1)
	// a·f + b·I + c·J = (a+b+c)·f + b·(I-f) + c·(J-f)
	add(new(big.Rat).Add(new(big.Rat).Add(get("f"), get("I")), get("J")), secs)
	add(get("I"), big.NewRat(1, 1))
	add(get("J"), big.NewRat(1, 1))
	// a·T + b·S = (1e9·a+b)·S + a·(T-1e9·S)
	add(new(big.Rat).Add(new(big.Rat).Mul(get("T"), big.NewRat(1e9, 1)), get("S")), secs)
	add(get("T"), big.NewRat(1e9, 1))
	add(get("1"), big.NewRat(1, 1))
	return b
}

// unrounded is the decimal that a rounded floating-point constant such as 1e-9 stands for.
func unrounded(r *big.Rat) *big.Rat {
	f, _ := r.Float64()
	if d, ok := new(big.Rat).SetString(fmt.Sprint(f)); ok {
		if g, _ := d.Float64(); g == f {
			return d
		}
	}
	return r
}

type linear struct {
	x     *Exec
	st    *State
	atoms map[*Term]string
}

// of is the linear form of a term, or nil.
func (l *linear) of(t *Term) *linForm {
	t = l.bare(t)
	if a, ok := l.atoms[t]; ok {
		return linAtom(a)
	}
	isInt := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	one := big.NewRat(1, 1)
	truncated := func(f *linForm) *linForm {
		integral := f.cut.Cmp(one) >= 0 || f.cut.Sign() == 0
		for a, v := range f.k {
			if v.Sign() != 0 && (a == "f" || a == "D" && !v.IsInt() || !v.IsInt()) {
				integral = false
			}
		}
		r := f.scale(one)
		if !integral && r.cut.Cmp(one) < 0 {
			r.cut = one
		}
		return r
	}
	switch t.op {
	case OpConst:
		if r, ok := new(big.Rat).SetString(t.str); ok {
			r = unrounded(r)
			return &linForm{k: map[string]*big.Rat{"1": r}, cut: new(big.Rat)}
		}
	case OpConv:
		f := l.of(t.args[0])
		if f == nil || t.typ == nil {
			return f
		}
		if isInt(t.typ) {
			src := t.args[0].typ
			if src == nil || !isInt(src) {
				f = truncated(f)
			}
			max := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 63))
			if b, ok := t.typ.Underlying().(*types.Basic); ok {
				switch b.Kind() {
				case types.Int32, types.Uint32:
					max.SetInt(new(big.Int).Lsh(big.NewInt(1), 31))
				case types.Int16, types.Uint16, types.Int8, types.Uint8:
					max.SetInt64(1 << 7)
				}
			}
			if f.over == "" && f.bound().Cmp(max) >= 0 {
				f = f.scale(one)
				f.over = fmt.Sprintf("%v as %s", f, typeStr(t.typ))
			}
		} else if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			return nil
		}
		return f
	case OpBin:
		a, b := l.of(t.args[0]), l.of(t.args[1])
		if a == nil || b == nil {
			return nil
		}
		konst := func(f *linForm) *big.Rat {
			if f.is(map[string]*big.Rat{"1": f.k["1"]}) && f.k["1"] != nil {
				return f.k["1"]
			}
			return nil
		}
		switch t.str {
		case "+":
			return a.plus(b)
		case "-":
			return a.plus(b.scale(big.NewRat(-1, 1)))
		case "*":
			if c := konst(b); c != nil {
				return a.scale(c)
			}
			if c := konst(a); c != nil {
				return b.scale(c)
			}
		case "/":
			if c := konst(b); c != nil && c.Sign() != 0 {
				r := a.scale(new(big.Rat).Inv(c))
				if t.typ != nil && isInt(t.typ) || t.typ == nil && t.args[0].typ != nil && isInt(t.args[0].typ) {
					r = truncated(r)
				}
				return r
			}
		}
	case OpRes:
		c := t.args[0]
		if c.op == OpCall && c.str == "math.Modf" {
			if l.is(c.args[0], "f") {
				i := linAtom("I")
				if t.num == 0 {
					return i
				}
				return linAtom("f").plus(i.scale(big.NewRat(-1, 1)))
			}
		}
	case OpCall:
		arg := func(i int) *linForm {
			if i < len(t.args) {
				return l.of(t.args[i])
			}
			return nil
		}
		rat := func(n, d int64) *big.Rat { return big.NewRat(n, d) }
		scaled := func(f *linForm, c *big.Rat, cut bool) *linForm {
			if f == nil {
				return nil
			}
			f = f.scale(c)
			if cut {
				f = truncated(f)
			}
			return f
		}
		switch t.str {
		case "math.Trunc", "math.Floor", "math.Ceil":
			if l.is(t.args[0], "f") && t.str != "math.Ceil" {
				return linAtom(map[string]string{"math.Trunc": "I", "math.Floor": "J"}[t.str])
			}
			if f := arg(0); f != nil {
				return truncated(f)
			}
		case "math.Round", "math.RoundToEven":
			if f := arg(0); f != nil {
				return truncated(f)
			}
		case "math.Mod":
			if c := arg(1); c != nil && c.is(map[string]*big.Rat{"1": one}) && l.is(t.args[0], "f") {
				return linAtom("f").plus(linAtom("I").scale(rat(-1, 1)))
			}
		case "time.Unix":
			a, b := arg(0), arg(1)
			if a != nil && b != nil {
				return a.scale(rat(1e9, 1)).plus(b)
			}
		case "time.UnixMilli":
			return scaled(arg(0), rat(1e6, 1), false)
		case "time.UnixMicro":
			return scaled(arg(0), rat(1e3, 1), false)
		case "time.Time.Add":
			if a, b := arg(0), arg(1); a != nil && b != nil {
				return a.plus(b)
			}
		case "time.Time.UTC", "time.Time.Local", "time.Time.In", "time.Time.Round#0":
			return arg(0)
		case "time.Time.Unix":
			if l.is(t.args[0], "T") {
				return linAtom("S")
			}
		case "time.Time.Nanosecond":
			if l.is(t.args[0], "T") {
				return linAtom("T").plus(linAtom("S").scale(rat(-1e9, 1)))
			}
		case "time.Time.UnixNano":
			if f := arg(0); f != nil {
				f = f.scale(one)
				if f.over == "" {
					f.over = "the nanoseconds since 1970, which end in 2262"
				}
				return f
			}
		case "time.Time.UnixMilli":
			return scaled(arg(0), rat(1, 1e6), true)
		case "time.Time.UnixMicro":
			return scaled(arg(0), rat(1, 1e3), true)
		case "time.Duration.Nanoseconds":
			return arg(0)
		case "time.Duration.Seconds":
			return scaled(arg(0), rat(1, 1e9), false)
		case "time.Duration.Minutes":
			return scaled(arg(0), rat(1, 60e9), false)
		case "time.Duration.Microseconds":
			return scaled(arg(0), rat(1, 1e3), true)
		case "time.Duration.Milliseconds":
			return scaled(arg(0), rat(1, 1e6), true)
		case "time.Duration.Abs", "time.Duration.Round", "time.Duration.Truncate", "time.Time.Truncate", "time.Time.Round":
			return nil
		}
	}
	return nil
}

func (l *linear) is(t *Term, a string) bool {
	f := l.of(t)
	return f != nil && f.cut.Sign() == 0 && f.is(map[string]*big.Rat{a: big.NewRat(1, 1)})
}

func (l *linear) bare(t *Term) *Term {
	for t != nil {
		if _, ok := l.atoms[t]; ok {
			return t
		}
		if (t.op == OpSnap || t.op == OpMk) && len(t.args) == 1 {
			t = t.args[0]
			continue
		}
		break
	}
	return t
}

func runTime(c *C) {
	T := c.T
	errT := types.Universe.Lookup("error").Type()
	floatT := types.Typ[types.Float64]
	num := T.mk(OpCall, "#number", 0, nil, floatT)
	hooks := func() *Hooks {
		h := &Hooks{Forward: true, Exact: true, Pin: func(g *Term) bool { return g.op == OpCall }, Relevant: func(*Term) bool { return true }}
		fail := func(st *State) *Term {
			e := T.mk(OpCall, "#malformed", 0, nil, errT)
			st.facts[T.IsNil(e)] = false
			st.aux["#failed"] = "+"
			return e
		}
		h.Opaque = nil
		h.Model = func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool) {
			switch ev.Name {
			case "encoding/json.Unmarshal", yamlPkg + "Node.Decode":
				p := ev.Addrs[1]
				t := p.typ
				if p.op == OpMk {
					t = p.typ
				}
				good, bad := st.clone(), st.clone()
				if t == nil {
					return nil, false
				}
				d := deref(t)
				b, ok := d.Underlying().(*types.Basic)
				switch {
				case ok && b.Kind() == types.Float64:
					x.store(good, unMk(p), num)
				case typeStr(d) == "encoding/json.Number":
					x.store(good, unMk(p), T.mk(OpCall, "#digits", 0, nil, d))
				default:
					good.aux["#as"] = typeStr(d)
					x.store(good, unMk(p), T.mk(OpCall, "#other "+typeStr(d), 0, nil, d))
				}
				return []Outcome{{st: good, res: T.Nil()}, {st: bad, res: fail(bad)}}, true
			case "encoding/json.Number.Float64":
				good, bad := st.clone(), st.clone()
				return []Outcome{{st: good, res: T.mk(OpTuple, "", 0, nil, nil, num, T.Nil())}, {st: bad, res: T.mk(OpTuple, "", 0, nil, nil, T.Const("0", floatT), fail(bad))}}, true
			case "encoding/json.Marshal":
				good, bad := st.clone(), st.clone()
				d := T.mk(OpCall, "#encoded", 0, nil, types.NewSlice(types.Typ[types.Uint8]), ev.Addrs[0])
				good.facts[T.IsNil(d)] = false
				return []Outcome{{st: good, res: T.mk(OpTuple, "", 0, nil, nil, d, T.Nil())}, {st: bad, res: T.mk(OpTuple, "", 0, nil, nil, T.Nil(), fail(bad))}}, true
			case "strconv.FormatFloat":
				if k, ok := constInt(ev.Args[2]); ok && k == -1 {
					return []Outcome{{st: st, res: T.mk(OpCall, "#encoded", 0, nil, types.Typ[types.String], ev.Args[0])}}, true
				}
			}
			return nil, false
		}
		return h
	}
	perSec := map[string]*big.Rat{"f": big.NewRat(1e9, 1)}
	nano := big.NewRat(1, 1)
	wrapped := func(n *types.Named) (*types.Struct, int, string) {
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			return nil, 0, ""
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				switch typeStr(s.Field(i).Type()) {
				case "time.Time":
					return s, i, "T"
				case "time.Duration":
					return s, i, "D"
				}
			}
		}
		return nil, 0, ""
	}
	codecs := map[string]int{}
	dec := func(pos token.Pos, key string, kind string, x *Exec, o Outcome, v *Term) {
		p := c.Path(o.st)
		if as := o.st.aux["#as"]; as != "" {
			c.Ob("type:"+key, pos, false, "%s decodes the number as %s, which refuses or cuts fractions%s", key, as, p)
			return
		}
		l := &linear{x: x, st: o.st, atoms: map[*Term]string{num: "f"}}
		f := l.of(v)
		if !c.Ob("value:"+key, pos, f != nil && f.is(perSec), "%s yields %v, which is %v instead of one second per unit%s", key, v, f, p) {
			return
		}
		c.Ob("precision:"+key, pos, f.cut.Cmp(nano) <= 0, "%s cuts off up to %v ns%s", key, f.cut.RatString(), p)
		if kind == "T" {
			c.Ob("range:"+key, pos, f.over == "", "%s computes %s, which overflows for times in the range of JSON%s", key, f.over, p)
		}
	}
	for _, sp := range c.P.SSA.AllPackages() {
		pk := sp.Pkg
		if pk.Path() != c.P.Mod && !strings.HasPrefix(pk.Path(), c.P.Mod+"/") {
			continue
		}
		for _, name := range pk.Scope().Names() {
			if fo, ok := pk.Scope().Lookup(name).(*types.Func); ok {
				// constructors from a number
				sig := fo.Type().(*types.Signature)
				if sig.Params().Len() != 1 || sig.Results().Len() != 1 || !types.Identical(sig.Params().At(0).Type(), floatT) {
					continue
				}
				n, ok := sig.Results().At(0).Type().(*types.Named)
				if !ok {
					continue
				}
				s, i, kind := wrapped(n)
				fn := sp.Func(name)
				if s == nil || fn == nil {
					continue
				}
				codecs["constructor"]++
				x := NewExec(c.P, T, hooks())
				for _, o := range x.Run(fn, []*Term{num}, NewState()) {
					c.Paths++
					if c.Ob("total:"+name, fn.Pos(), !o.panic, "%s panics%s", name, c.Path(o.st)) {
						dec(fn.Pos(), name, kind, x, o, T.Sel(o.res, s, i))
					}
				}
				c.Done(x, name)
				continue
			}
			tn, ok := pk.Scope().Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || n.TypeParams().Len() > 0 {
				continue
			}
			s, i, kind := wrapped(n)
			if s == nil {
				continue
			}
			for _, mt := range []string{"UnmarshalJSON", "UnmarshalYAML"} {
				if !own(n, mt) {
					continue
				}
				fn := c.P.SSA.LookupMethod(types.NewPointer(n), pk, mt)
				if fn == nil || len(fn.Blocks) == 0 {
					continue
				}
				codecs[mt+kind]++
				key := name + "." + mt
				x := NewExec(c.P, T, hooks())
				st := NewState()
				recv := T.mk(OpParam, "recv "+name, 0, nil, types.NewPointer(n))
				st.facts[T.IsNil(recv)] = false
				src := x.Param("src "+mt, fn.Params[1].Type())
				seen := map[bool]int{}
				for _, o := range x.Run(fn, []*Term{recv, src}, st) {
					c.Paths++
					p := c.Path(o.st)
					if !c.Ob("total:"+key, fn.Pos(), !o.panic, "%s panics%s", key, p) {
						continue
					}
					err := unIface(o.res)
					failed := o.st.aux["#failed"] != ""
					seen[failed]++
					if failed {
						c.Ob("malformed:"+key, fn.Pos(), isErr(x, o.st, err), "what is no number is accepted with %v%s", err, p)
						continue
					}
					if !c.Ob("accepted:"+key, fn.Pos(), x.Proves(o.st, T.IsNil(err), true), "a number is refused with %v%s", err, p) {
						continue
					}
					dec(fn.Pos(), key, kind, x, o, x.content(o.st, x.load(o.st, x.fieldAddr(recv, s, i))))
				}
				c.Done(x, key)
				c.Ob("possible:"+key, fn.Pos(), seen[true] > 0 && seen[false] > 0, "not every outcome of %s is possible", key)
			}
			for _, mt := range []string{"MarshalJSON", "MarshalYAML"} {
				if !own(n, mt) {
					continue
				}
				fn := c.P.SSA.LookupMethod(n, pk, mt)
				if fn == nil {
					fn = c.P.SSA.LookupMethod(types.NewPointer(n), pk, mt)
				}
				if fn == nil || len(fn.Blocks) == 0 {
					continue
				}
				codecs[mt+kind]++
				key := name + "." + mt
				x := NewExec(c.P, T, hooks())
				st := NewState()
				ptr := T.mk(OpParam, "value "+name, 0, nil, types.NewPointer(n))
				st.facts[T.IsNil(ptr)] = false
				val := T.mk(OpParam, "time value "+name, 0, nil, s.Field(i).Type())
				x.store(st, x.fieldAddr(ptr, s, i), val)
				arg := x.load(st, ptr)
				if _, isPtr := fn.Signature.Recv().Type().(*types.Pointer); isPtr {
					arg = ptr
				}
				zero := T.mk(OpCall, "#iszerotime", 0, nil, types.Typ[types.Bool], val)
				done := 0
				for _, o := range x.Run(fn, []*Term{arg}, st) {
					c.Paths++
					p := c.Path(o.st)
					if !c.Ob("total:"+key, fn.Pos(), !o.panic, "%s panics%s", key, p) {
						continue
					}
					doc, err := unIface(c.resOf(o, 0)), unIface(c.resOf(o, 1))
					if o.st.aux["#failed"] != "" {
						c.Ob("failure:"+key, fn.Pos(), isErr(x, o.st, err), "a failure yields %v%s", err, p)
						continue
					}
					if !c.Ob("success:"+key, fn.Pos(), x.Proves(o.st, T.IsNil(err), true), "a value is refused with %v%s", err, p) {
						continue
					}
					done++
					if mt == "MarshalJSON" {
						for doc.op == OpConv {
							doc = doc.args[0]
						}
						if !c.Ob("encoded:"+key, fn.Pos(), doc.op == OpCall && doc.str == "#encoded", "the encoding is %v%s", doc, p) {
							continue
						}
						doc = doc.args[0]
					}
					l := &linear{x: x, st: o.st, atoms: map[*Term]string{val: kind}}
					f := l.of(doc)
					if kind == "T" {
						z, known := x.Known(o.st, zero)
						if !c.Ob("zero:"+key, fn.Pos(), known, "whether the time is absent does not matter%s", p) {
							continue
						}
						if z {
							c.Ob("zero:"+key, fn.Pos(), f != nil && f.is(nil), "an absent time is encoded as %v%s", f, p)
							continue
						}
					}
					if !c.Ob("value:"+key, fn.Pos(), f != nil && f.is(map[string]*big.Rat{kind: big.NewRat(1, 1e9)}), "%s is encoded as %v, which is %v instead of its seconds%s", val, doc, f, p) {
						continue
					}
					c.Ob("precision:"+key, fn.Pos(), f.cut.Cmp(big.NewRat(1, 1e9)) <= 0, "%s cuts off up to %v s%s", key, f.cut.RatString(), p)
					if kind == "T" {
						c.Ob("range:"+key, fn.Pos(), f.over == "", "%s computes %s%s", key, f.over, p)
					}
				}
				c.Done(x, key)
				c.Anchor("successful outcome of "+key, done > 0)
			}
		}
	}
	for _, k := range []string{"constructor", "UnmarshalJSONT", "UnmarshalJSOND", "UnmarshalYAMLD", "MarshalJSONT", "MarshalJSOND", "MarshalYAMLD"} {
		c.Anchor("codec "+k, codecs[k] > 0)
	}
}
