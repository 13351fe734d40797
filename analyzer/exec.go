package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type item struct {
	b    *ssa.BasicBlock
	pred *ssa.BasicBlock
	st   *State
}

// exec explores all abstract paths of fn from st and returns its distinct outcomes.
func (x *Exec) exec(fn *ssa.Function, args, binds []*Term, st *State, site ssa.Instruction, parent *Ctx) []Outcome {
	ctx := x.T.ctx(parent, site, fn)
	if len(fn.Blocks) == 0 {
		x.undecided("no body for %s", x.P.fnName(fn))
		return nil
	}
	x.Inlined[x.P.fnName(fn)]++
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	st = st.clone()
	fr := &Frame{fn: fn, ctx: ctx, env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			fr.env[v] = binds[i]
		}
	}
	st.frames = append(st.frames, fr)
	live := x.liveness(fn)
	seen := map[*ssa.BasicBlock]map[string]bool{}
	var outs []Outcome
	outSeen := map[string]bool{}
	emit := func(o Outcome) {
		o.st.frames = o.st.frames[:len(o.st.frames)-1]
		if o.res != nil {
			x.gc(o.st, o.res)
		} else {
			x.gc(o.st)
		}
		id := -1
		if o.res != nil {
			id = o.res.id
		}
		k := fmt.Sprintf("%d/%v/%s", id, o.panic, o.st.key())
		if outSeen[k] {
			return
		}
		outSeen[k] = true
		outs = append(outs, o)
	}
	work := []item{{fn.Blocks[0], nil, st}}
	for len(work) > 0 {
		if x.abort {
			return outs
		}
		it := work[len(work)-1]
		work = work[:len(work)-1]
		s := it.st
		if it.pred != nil {
			s = x.enter(it.b, it.pred, s)
			if s == nil {
				continue
			}
		}
		f := s.top()
		lv := live[it.b]
		for v := range f.env {
			if !lv[v] {
				if ph, ok := v.(*ssa.Phi); ok && ph.Block() == it.b {
					continue
				}
				delete(f.env, v)
			}
		}
		x.gc(s)
		if len(fn.Blocks) > 1 {
			k := s.key()
			m := seen[it.b]
			if m == nil {
				m = map[string]bool{}
				seen[it.b] = m
			}
			if m[k] {
				continue
			}
			m[k] = true
			x.States++
		}
		x.runBlock(it.b, 0, s, ctx, func(succ *ssa.BasicBlock, n *State) {
			work = append(work, item{succ, it.b, n})
		}, emit)
	}
	return outs
}

// value is the term of an SSA value in the top frame.
func (x *Exec) value(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(x.T, v)
	case *ssa.Global:
		return x.T.mk(OpGlobal, v.Pkg.Pkg.Name()+"."+v.Name(), 0, v, v.Type())
	case *ssa.Function:
		return x.T.mk(OpFn, x.P.fnName(v), 0, v, v.Type())
	case *ssa.Builtin:
		return x.T.mk(OpFn, "builtin."+v.Name(), 0, v, nil)
	}
	if t, ok := st.top().env[v]; ok {
		return t
	}
	x.undecided("no value for %s in %s", v.Name(), x.P.fnName(v.Parent()))
	return x.T.mk(OpSym, "undef", 0, v, v.Type())
}

// enter processes the phi nodes of b for the edge pred→b.
func (x *Exec) enter(b, pred *ssa.BasicBlock, st *State) *State {
	T := x.T
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		} else {
			break
		}
	}
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
		}
	}
	back := b.Dominates(pred)
	header := false
	for _, p := range b.Preds {
		if b.Dominates(p) {
			header = true
		}
	}
	st = st.clone()
	st.note(b.Instrs[0].Pos(), "")
	vals := make([]*Term, len(phis))
	for i, ph := range phis {
		vals[i] = x.value(st, ph.Edges[pi])
	}
	ctx := st.top().ctx
	if !header {
		for i, ph := range phis {
			st.top().env[ph] = vals[i]
		}
		return st
	}
	// keep vals valid across redefinitions by parking them in the environment
	type plan struct {
		ph   *ssa.Phi
		kind int // 0 assign, 1 counter, 2 accumulate, 3 widened
		c    int
	}
	plans := make([]plan, len(phis))
	env := st.top().env
	cur := make([]*Term, len(phis))
	unrolled := false
	for i, ph := range phis {
		if x.unrolls(st, ph, b, vals[i]) {
			unrolled = true
		}
	}
	known := x.knownRange(st, b) || x.recvLoop(b)
	unrolled = unrolled || known
	for i, ph := range phis {
		cur[i] = env[ph]
		plans[i] = plan{ph: ph}
		if x.unrolls(st, ph, b, vals[i]) {
			continue
		}
		if _, isConst := constInt(vals[i]); known && isConst {
			continue
		}
		if c, ok := counterPhi(ph, b); ok {
			plans[i].kind, plans[i].c = 1, c
			continue
		}
		if back && !(unrolled && vals[i].depth < x.deep()) {
			_, isSlice := ph.Type().Underlying().(*types.Slice)
			bt, isBasic := ph.Type().Underlying().(*types.Basic)
			numeric := isBasic && bt.Info()&types.IsNumeric != 0
			str := isBasic && bt.Info()&types.IsString != 0
			switch {
			case vals[i] == cur[i]:
			case isSlice:
				plans[i].kind = 2
			case numeric && vals[i] != cur[i]:
				plans[i].kind = 3
			case str && !(vals[i].op == OpConst):
				if vals[i].depth > 10 || (cur[i] != nil && vals[i].op == OpBin) {
					plans[i].kind = 3
				}
			case vals[i].depth > 14:
				plans[i].kind = 3
			}
		}
	}
	// a variable in memory that grows without bound stands for anything
	if back && !unrolled {
		var grown []*Term
		for cell, v := range st.mem {
			if v.depth > 40 && v.typ != nil || cell.op == OpAlloc && x.grows(cellKey{b, ctx, cell}, v) {
				grown = append(grown, cell)
			}
		}
		sort.Slice(grown, func(i, j int) bool { return grown[i].id < grown[j].id })
		for _, cell := range grown {
			g := T.mk(OpSym, fmt.Sprintf("grown%d", cell.id), 0, T.site(b.Instrs[0], ctx), st.mem[cell].typ)
			x.redefine(st, g, false)
			st.mem[cell] = g
		}
	}
	// a list in memory that grows with every iteration
	if back && !unrolled {
		var lists []*Term
		for cell, v := range st.mem {
			if cell.op == OpAlloc && (v.op == OpApp || v.op == OpAppS) && v.typ != nil {
				if w := v.args[0]; w.op == OpApp || w.op == OpAppS || w.op == OpSym && strings.HasPrefix(w.str, "accm") {
					lists = append(lists, cell)
				}
			}
		}
		sort.Slice(lists, func(i, j int) bool { return lists[i].id < lists[j].id })
		for _, cell := range lists {
			sym := T.mk(OpSym, fmt.Sprintf("accm%d", cell.id), 0, T.site(b.Instrs[0], ctx), st.mem[cell].typ)
			v := st.mem[cell]
			if o, ok := st.hist[sym]; ok {
				st.hist[sym] = T.Any(o, v)
			} else {
				st.hist[sym] = T.Any(v, v.args[0])
			}
			for f := range st.facts {
				if f.hasGen(sym) {
					delete(st.facts, f)
				}
			}
			st.mem[cell] = sym
		}
	}
	// a counter in memory
	if back && !unrolled {
		var counters []*Term
		for cell, v := range st.mem {
			if cell.op != OpAlloc || v.typ == nil && v.op != OpConst {
				continue
			}
			if v.op == OpBin && v.contains1(func(t *Term) bool { return t.op == OpSym && strings.HasPrefix(t.str, "count") }) {
				counters = append(counters, cell)
				continue
			}
			n, ok := constInt(v)
			if !ok {
				continue
			}
			k := cellKey{b, ctx, cell}
			if x.cellVals == nil {
				x.cellVals = map[cellKey]map[int]bool{}
			}
			if x.cellVals[k] == nil {
				x.cellVals[k] = map[int]bool{}
			}
			x.cellVals[k][n] = true
			if len(x.cellVals[k]) > 3 {
				counters = append(counters, cell)
			}
		}
		sort.Slice(counters, func(i, j int) bool { return counters[i].id < counters[j].id })
		for _, cell := range counters {
			g := T.mk(OpSym, fmt.Sprintf("count%d", cell.id), 0, T.site(b.Instrs[0], ctx), types.Typ[types.Int])
			x.redefine(st, g, false)
			st.mem[cell] = g
		}
	}
	// park the incoming and current values in the environment, so that redefinitions reach them
	lv := x.liveness(b.Parent())[b]
	for v := range st.top().env {
		if !lv[v] {
			delete(st.top().env, v)
		}
	}
	park := make([]*ssa.Phi, len(phis))
	parkCur := make([]*ssa.Phi, len(phis))
	for i, ph := range phis {
		delete(st.top().env, ph)
		park[i] = &ssa.Phi{}
		st.top().env[park[i]] = vals[i]
		if cur[i] != nil && plans[i].kind >= 2 {
			parkCur[i] = &ssa.Phi{}
			st.top().env[parkCur[i]] = cur[i]
		}
	}
	// redefine symbols first, then assign
	for _, p := range plans {
		switch p.kind {
		case 1:
			g := T.mk(OpSym, "i", 0, T.site(p.ph, ctx), types.Typ[types.Int])
			if back {
				x.redefine(st, g, true)
			} else {
				x.forgetLoop(st, g)
				st.facts[T.Eq(g, T.Int(0))] = true
			}
		case 3:
			g := T.mk(OpSym, "n", 0, T.site(p.ph, ctx), p.ph.Type())
			h := st.hist[g]
			delete(st.hist, g)
			x.redefine(st, g, false)
			if h != nil {
				st.hist[g] = h
			}
		}
	}
	for i, p := range plans {
		v := st.top().env[park[i]]
		switch p.kind {
		case 0:
			st.top().env[p.ph] = v
		case 1:
			g := T.mk(OpSym, "i", 0, T.site(p.ph, ctx), types.Typ[types.Int])
			st.top().env[p.ph] = x.add(g, T.Int(p.c))
		case 2:
			sym := T.mk(OpSym, "acc", 0, T.site(p.ph, ctx), p.ph.Type())
			var c *Term
			if parkCur[i] != nil {
				c = st.top().env[parkCur[i]]
			}
			if c != nil && c != sym {
				st.hist[sym] = T.Any(c, v)
			} else if o, ok := st.hist[sym]; ok {
				if v != sym {
					st.hist[sym] = T.Any(o, v)
				}
			} else {
				st.hist[sym] = v
			}
			for f := range st.facts {
				if f.hasGen(sym) {
					delete(st.facts, f)
				}
			}
			st.top().env[p.ph] = sym
		case 3:
			g := T.mk(OpSym, "n", 0, T.site(p.ph, ctx), p.ph.Type())
			var c *Term
			if parkCur[i] != nil {
				c = st.top().env[parkCur[i]]
			}
			set := []*Term{v}
			if c != nil && c != g {
				set = append(set, c)
			}
			if o, ok := st.hist[g]; ok {
				set = append(set, o)
			}
			st.hist[g] = T.Any(set...)
			st.top().env[p.ph] = g
		}
	}
	for i := range park {
		delete(st.top().env, park[i])
		if parkCur[i] != nil {
			delete(st.top().env, parkCur[i])
		}
	}
	return st
}

// grows reports whether the values of a variable at the end of the iterations of a loop are ever
// larger terms over what they were before.
func (x *Exec) grows(k cellKey, v *Term) bool {
	if v.op == OpConst || v.op == OpParam || v.op == OpZero || v.typ == nil {
		return false
	}
	if v.op == OpSym && strings.HasPrefix(v.str, "grown") {
		return false
	}
	if x.cellTerms == nil {
		x.cellTerms = map[cellKey]map[*Term]int{}
	}
	m := x.cellTerms[k]
	if m == nil {
		m = map[*Term]int{}
		x.cellTerms[k] = m
	}
	if n, ok := m[v]; ok {
		return n > 3
	}
	n := 1
	for w, l := range m {
		if l >= n && v.contains(w) {
			n = l + 1
		}
	}
	if len(m) < 200 {
		m[v] = n
	}
	return n > 3
}

// forgetLoop forgets what is known of iterations of a loop that is entered anew.
func (x *Exec) forgetLoop(st *State, g *Term) {
	old := x.T.Old(g)
	for f := range st.facts {
		if f.hasGen(g) || f.hasGen(old) {
			delete(st.facts, f)
		}
	}
	delete(st.old, g)
}

// counterPhi recognises a loop counter with constant start and step one.
func counterPhi(ph *ssa.Phi, b *ssa.BasicBlock) (int, bool) {
	bt, ok := ph.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		return 0, false
	}
	init, have := 0, false
	for i, p := range b.Preds {
		e := ph.Edges[i]
		if b.Dominates(p) {
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD {
				return 0, false
			}
			c, ok := bo.Y.(*ssa.Const)
			if bo.X != ssa.Value(ph) || !ok || c.Value == nil || c.Value.ExactString() != "1" {
				return 0, false
			}
			continue
		}
		c, ok := e.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0, false
		}
		n := int(c.Int64())
		if have && n != init {
			return 0, false
		}
		init, have = n, true
	}
	return init, have
}

// stepPhi recognises a loop variable that changes by a constant in every iteration.
func stepPhi(ph *ssa.Phi, b *ssa.BasicBlock) bool {
	bt, ok := ph.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		return false
	}
	steps := false
	for i, p := range b.Preds {
		if !b.Dominates(p) {
			continue
		}
		bo, ok := ph.Edges[i].(*ssa.BinOp)
		if !ok || bo.Op != token.ADD && bo.Op != token.SUB || bo.X != ssa.Value(ph) {
			return false
		}
		if c, ok := bo.Y.(*ssa.Const); !ok || c.Value == nil {
			return false
		}
		steps = true
	}
	return steps
}

// unrolls reports whether the loop of header b is run iteration by iteration, as the value v of
// its variable ph and the bound are known.
func (x *Exec) unrolls(st *State, ph *ssa.Phi, b *ssa.BasicBlock, v *Term) bool {
	if !stepPhi(ph, b) || !x.constBound(st, ph, b) {
		return false
	}
	n, ok := constInt(v)
	return ok && n <= x.unrollMax() && n >= -2
}

// constBound reports whether the loop of header b over counter ph has a constant bound in st.
func (x *Exec) constBound(st *State, ph *ssa.Phi, b *ssa.BasicBlock) bool {
	if x.boundIn(st, ph, b, b) {
		return true
	}
	// the condition may follow the body
	some := false
	for _, p := range b.Preds {
		if !b.Dominates(p) {
			continue
		}
		if p == b || !x.boundIn(st, ph, b, p) {
			return false
		}
		some = true
	}
	return some
}

// boundIn: block e ends with a comparison of the counter with a constant.
func (x *Exec) boundIn(st *State, ph *ssa.Phi, b, e *ssa.BasicBlock) bool {
	iff, ok := e.Instrs[len(e.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	dep := func(v ssa.Value) bool {
		if v == ssa.Value(ph) {
			return true
		}
		bo, ok := v.(*ssa.BinOp)
		return ok && bo.X == ssa.Value(ph)
	}
	var o ssa.Value
	switch {
	case dep(cond.X):
		o = cond.Y
	case dep(cond.Y):
		o = cond.X
	default:
		return false
	}
	if c, ok := o.(*ssa.Const); ok {
		return c.Value != nil && int(c.Int64()) <= x.unrollMax()
	}
	if in, ok := o.(ssa.Instruction); ok && e != b && b.Dominates(in.Block()) {
		return false // computed in the loop
	}
	if t := x.peek(st, o, e); t != nil {
		n, ok := constInt(t)
		return ok && n <= x.unrollMax()
	}
	return false
}

// peek evaluates v, which block b computes without side effects, before b runs.
func (x *Exec) peek(st *State, v ssa.Value, b *ssa.BasicBlock) *Term {
	if t, ok := st.top().env[v]; ok {
		if in, isIn := v.(ssa.Instruction); !isIn || in.Block() != b {
			return t
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return x.value(st, v)
	}
	if in.Block() != b {
		return nil
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if a := x.peek(st, v.X, b); a != nil {
				return x.load(st, a)
			}
		}
	case *ssa.FieldAddr:
		p := x.peek(st, v.X, b)
		if p == nil {
			return nil
		}
		return x.fieldAddr(p, v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct), v.Field)
	case *ssa.Field:
		if p := x.peek(st, v.X, b); p != nil {
			return x.T.Sel(p, v.X.Type().Underlying().(*types.Struct), v.Field)
		}
	case *ssa.ChangeType:
		return x.peek(st, v.X, b)
	case *ssa.Convert:
		return x.peek(st, v.X, b)
	case *ssa.BinOp:
		l, r := x.peek(st, v.X, b), x.peek(st, v.Y, b)
		if l == nil || r == nil {
			return nil
		}
		n, ok1 := constInt(l)
		m, ok2 := constInt(r)
		switch {
		case ok1 && ok2 && v.Op == token.ADD:
			return x.T.Int(n + m)
		case ok1 && ok2 && v.Op == token.SUB:
			return x.T.Int(n - m)
		}
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "min" || bi.Name() == "max") {
			best, some := 0, false
			for _, a := range v.Call.Args {
				t := x.peek(st, a, b)
				if t == nil {
					return nil
				}
				n, ok := constInt(t)
				if !ok {
					return nil
				}
				if !some || bi.Name() == "min" && n < best || bi.Name() == "max" && n > best {
					best, some = n, true
				}
			}
			return x.T.Int(best)
		}
		if x.H.Reflect {
			if t := x.peekReflect(st, v, b); t != nil {
				return t
			}
		}
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if t := x.peek(st, v.Call.Args[0], b); t != nil {
				if keys, ok := x.mapKeys(st, t); ok {
					return x.T.Int(len(keys))
				}
				return x.T.Len(t)
			}
		}
	}
	return nil
}

// fieldAddr is the address of field i of the struct s at p.
func (x *Exec) fieldAddr(p *Term, s *types.Struct, i int) *Term {
	if collapsed(s, i) {
		return p
	}
	if p.op == OpSnap || p.op == OpAny {
		return x.T.SelVar(p, s.Field(i))
	}
	return x.T.mk(OpSel, "", 0, s.Field(i).Origin(), s.Field(i).Type(), p)
}

// deep bounds the terms in loops that are unrolled.
func (x *Exec) deep() int {
	if x.H.Deep {
		return 260
	}
	return 60
}

// unrollMax bounds the loops that are unrolled.
func (x *Exec) unrollMax() int {
	if x.H.Reflect {
		return 150
	}
	return 40
}

func (x *Exec) add(a, b *Term) *Term {
	T := x.T
	n, ok1 := constInt(a)
	m, ok2 := constInt(b)
	if ok1 && ok2 {
		return T.Int(n + m)
	}
	if ok1 {
		a, b, m, ok2 = b, a, n, true
	}
	if ok2 {
		if m == 0 {
			return a
		}
		if a.op == OpBin && a.str == "+" {
			if k, ok := constInt(a.args[1]); ok {
				return x.add(a.args[0], T.Int(k+m))
			}
		}
	}
	return T.mk(OpBin, "+", 0, nil, a.typ, a, b)
}

func (x *Exec) runBlock(b *ssa.BasicBlock, i int, st *State, ctx *Ctx, next func(*ssa.BasicBlock, *State), emit func(Outcome)) {
	T := x.T
	for ; i < len(b.Instrs); i++ {
		x.Steps++
		if x.Steps%64 == 0 && time.Since(x.started) > runBudget() {
			if !x.abort {
				x.undecided("time bound reached in %s", x.P.fnName(b.Parent()))
			}
			x.abort = true
			return
		}
		if x.Steps > x.H.MaxSteps {
			if !x.abort {
				x.undecided("step bound %d reached in %s", x.H.MaxSteps, x.P.fnName(b.Parent()))
			}
			x.abort = true
			return
		}
		env := st.top().env
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			a := T.mk(OpAlloc, types.TypeString(in.Type().Underlying().(*types.Pointer).Elem(), func(p *types.Package) string { return p.Name() }), x.incarnation(st, T.site(in, ctx)), T.site(in, ctx), in.Type())
			x.redefine(st, a, false)
			st.top().env[in] = a
		case *ssa.MakeSlice:
			env[in] = T.mk(OpCall, "#make", x.incarnation(st, T.site(in, ctx)), T.site(in, ctx), in.Type(), x.value(st, in.Len))
			x.redefineCall(st, in, env[in])
		case *ssa.MakeMap:
			a := T.mk(OpCall, "#makemap", x.incarnation(st, T.site(in, ctx)), T.site(in, ctx), in.Type())
			x.redefine(st, a, false)
			st.top().env[in] = a
			st.facts[T.Empty(a)] = true
			st.mem[x.keysCell(a)] = T.mk(OpList, "", 0, nil, nil)
		case *ssa.MakeChan:
			env[in] = T.mk(OpCall, "#makechan", x.incarnation(st, T.site(in, ctx)), T.site(in, ctx), in.Type())
		case *ssa.MakeClosure:
			var bs []*Term
			for _, v := range in.Bindings {
				bs = append(bs, x.value(st, v))
			}
			f := in.Fn.(*ssa.Function)
			env[in] = T.mk(OpClos, x.P.fnName(f), 0, f, in.Type(), bs...)
		case *ssa.MakeInterface:
			env[in] = x.makeIface(st, in)
		case *ssa.ChangeInterface:
			env[in] = x.value(st, in.X)
		case *ssa.ChangeType:
			env[in] = x.value(st, in.X)
		case *ssa.MultiConvert:
			env[in] = T.mk(OpConv, "", 0, nil, in.Type(), x.value(st, in.X))
		case *ssa.Convert:
			v := x.value(st, in.X)
			if isString(in.Type()) { // string(bytes) is a copy
				if v.op == OpAlloc {
					v = x.content(st, v)
				} else if v.op == OpSlice && v.args[0].op == OpAlloc {
					v = T.mk(OpSlice, "", 0, nil, v.typ, x.content(st, v.args[0]), v.args[1], v.args[2])
				}
			}
			if isNumeric(in.Type()) && isNumeric(in.X.Type()) {
				if _, ok := constInt(v); !ok {
					if !(isInt(in.Type()) && isInt(in.X.Type())) {
						v = T.mk(OpConv, "", 0, nil, in.Type(), v)
					}
				}
			}
			env[in] = v
		case *ssa.SliceToArrayPointer:
			env[in] = x.value(st, in.X)
		case *ssa.FieldAddr:
			p := x.value(st, in.X)
			if x.H.OnDeref != nil {
				x.H.OnDeref(x, st, in, p)
			}
			pt := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			env[in] = x.fieldAddr(p, pt, in.Field)
		case *ssa.Field:
			s := in.X.Type().Underlying().(*types.Struct)
			env[in] = T.Sel(x.value(st, in.X), s, in.Field)
		case *ssa.IndexAddr:
			env[in] = T.Elem(x.value(st, in.X), x.value(st, in.Index))
		case *ssa.Index:
			env[in] = x.load(st, T.Elem(x.value(st, in.X), x.value(st, in.Index)))
		case *ssa.Lookup:
			m, k := x.value(st, in.X), x.value(st, in.Index)
			e := T.Elem(m, k)
			if _, isMap := in.X.Type().Underlying().(*types.Map); isMap {
				if keys, ok := x.mapKeys(st, m); ok {
					if has, known := x.hasKey(st, keys, k); known {
						var v *Term
						if has {
							for _, o := range keys {
								if x.Same(st, o, k) {
									v = x.load(st, T.Elem(m, o))
								}
							}
						} else {
							v = T.Zero(in.X.Type().Underlying().(*types.Map).Elem())
						}
						if in.CommaOk {
							v = T.mk(OpTuple, "", 0, nil, nil, v, T.Bool(has))
						}
						env[in] = v
						break
					}
				}
			}
			if ph, ok := st.facts[T.Has(m, k)]; ok && !ph && st.mem[e] == nil {
				if _, isMap := in.X.Type().Underlying().(*types.Map); isMap {
					if in.CommaOk {
						env[in] = T.mk(OpTuple, "", 0, nil, nil, T.Zero(in.Type().(*types.Tuple).At(0).Type()), T.Bool(false))
						break
					}
				}
			}
			v := x.load(st, e)
			if in.CommaOk {
				env[in] = T.mk(OpTuple, "", 0, nil, nil, v, T.Has(m, k))
			} else {
				env[in] = v
			}
		case *ssa.MapUpdate:
			m, k, v := x.value(st, in.Map), x.value(st, in.Key), x.value(st, in.Value)
			e := T.Elem(m, k)
			if x.H.OnStore != nil {
				x.H.OnStore(x, st, in, e, v)
			}
			if keys, ok := x.mapKeys(st, m); ok {
				for _, o := range keys {
					if x.Same(st, o, k) {
						e = T.Elem(m, o)
					}
				}
			}
			x.store(st, e, v)
			x.mapStore(st, m, k)
			for f := range st.facts {
				if (f.op == OpHas || f.op == OpEmpty || f.op == OpExists) && f.args[0] == m {
					if f.op == OpHas && st.facts[f] {
						continue
					}
					delete(st.facts, f)
				}
			}
			st.facts[T.Has(m, k)] = true
		case *ssa.Range:
			it := T.mk(OpIter, "", 0, T.site(in, ctx), in.X.Type(), x.value(st, in.X))
			env[in] = it
			x.startRange(st, it)
			delete(st.aux, "iter:"+fmt.Sprint(T.site(in, ctx).id))
		case *ssa.Next:
			x.next(st, in, ctx)
		case *ssa.UnOp:
			if x.H.Sched && in.Op == token.ARROW {
				for _, o := range x.chanOp(st, in, ctx) {
					if o.panic {
						emit(o)
						continue
					}
					x.runBlock(b, i+1, o.st, ctx, next, emit)
				}
				return
			}
			x.unop(st, in)
		case *ssa.BinOp:
			env[in] = x.binop(st, in)
		case *ssa.Extract:
			tu := x.value(st, in.Tuple)
			if tu.op == OpTuple && in.Index < len(tu.args) {
				env[in] = tu.args[in.Index]
			} else if tu.op == OpAny {
				var as []*Term
				for _, a := range tu.args {
					if a.op == OpTuple {
						as = append(as, a.args[in.Index])
					}
				}
				env[in] = T.Any(as...)
			} else {
				env[in] = T.mk(OpRes, "", in.Index, nil, in.Type(), tu)
			}
		case *ssa.Slice:
			env[in] = x.slice(st, in)
		case *ssa.TypeAssert:
			v := x.value(st, in.X)
			inner := v
			var is *Term
			if v.op == OpMk {
				if types.Identical(v.typ, in.AssertedType) {
					is = T.Bool(true)
					inner = v.args[0]
				} else if ifc, ok := in.AssertedType.Underlying().(*types.Interface); ok {
					is = T.Bool(types.Implements(v.typ, ifc))
				} else {
					is = T.Bool(false)
				}
				if is.isConst("false") && in.CommaOk {
					inner = T.Zero(in.AssertedType)
				}
			} else if v.isNilConst() && in.CommaOk {
				is, inner = T.Bool(false), T.Zero(in.AssertedType)
			} else {
				is = T.mk(OpIs, "", 0, nil, in.AssertedType, v)
				inner = T.mk(OpAs, "", 0, nil, in.AssertedType, v)
				if types.IsInterface(in.AssertedType) {
					inner = v
				}
			}
			if in.CommaOk {
				env[in] = T.mk(OpTuple, "", 0, nil, nil, inner, is)
			} else {
				env[in] = inner
			}
		case *ssa.Store:
			a, v := x.value(st, in.Addr), x.value(st, in.Val)
			if x.H.OnStore != nil {
				x.H.OnStore(x, st, in, a, v)
			}
			x.store(st, a, v)
		case *ssa.Send, *ssa.Select:
			if _, ok := in.(*ssa.Send); ok && x.H.Sched {
				for _, o := range x.chanOp(st, in, ctx) {
					if o.panic {
						emit(o)
						continue
					}
					x.runBlock(b, i+1, o.st, ctx, next, emit)
				}
				return
			}
			if v, ok := in.(ssa.Value); ok {
				c := T.mk(OpCall, "#select", 0, T.site(in, ctx), v.Type())
				x.redefine(st, c, false)
				st.top().env[v] = c
			}
		case *ssa.Defer:
			d := &deferred{instr: in, fn: x.value(st, in.Call.Value)}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.value(st, a))
			}
			st.top().defers = append(st.top().defers, d)
		case *ssa.RunDefers:
			if len(st.top().defers) > 0 {
				ds := st.top().defers
				st.top().defers = nil
				states := []*State{st}
				for k := len(ds) - 1; k >= 0; k-- {
					var ns []*State
					for _, s := range states {
						for _, o := range x.call(s, ds[k].instr, ds[k].fn, ds[k].args, ctx) {
							if !o.panic {
								o.st.ownTop()
								ns = append(ns, o.st)
							}
						}
					}
					states = ns
				}
				for _, s := range states {
					x.runBlock(b, i+1, s, ctx, next, emit)
				}
				return
			}
		case *ssa.Go:
			if x.H.Sched {
				var as []*Term
				for _, a := range in.Call.Args {
					as = append(as, x.value(st, a))
				}
				for _, o := range x.spawn(st, in, x.value(st, in.Call.Value), as, ctx) {
					if o.panic {
						emit(Outcome{st: o.st, panic: true})
						continue
					}
					o.st.ownTop()
					x.runBlock(b, i+1, o.st, ctx, next, emit)
				}
				return
			}
			if !x.H.Forward {
				s2 := st.clone()
				var as []*Term
				for _, a := range in.Call.Args {
					as = append(as, x.value(s2, a))
				}
				x.goCall(s2, in, x.value(s2, in.Call.Value), as, ctx)
				if x.H.GoDone != nil {
					st.aux["#go"] += "1"
				}
			}
		case *ssa.Call:
			var as []*Term
			for _, a := range in.Call.Args {
				as = append(as, x.value(st, a))
			}
			outs := x.call(st, in, x.value(st, in.Call.Value), as, ctx)
			if len(outs) == 1 && !outs[0].panic {
				st = outs[0].st
				st.ownTop()
				st.top().env[in] = outs[0].res
				break
			}
			for _, o := range outs {
				if o.panic {
					emit(Outcome{st: o.st, panic: true})
					continue
				}
				o.st.ownTop()
				o.st.top().env[in] = o.res
				x.runBlock(b, i+1, o.st, ctx, next, emit)
			}
			return
		case *ssa.Panic:
			if x.H.OnPanic != nil {
				x.H.OnPanic(x, st, in)
			}
			emit(Outcome{st: st, panic: true})
			return
		case *ssa.Return:
			var rs []*Term
			for _, r := range in.Results {
				rs = append(rs, x.value(st, r))
			}
			var res *Term
			switch len(rs) {
			case 0:
				res = T.mk(OpTuple, "", 0, nil, nil)
			case 1:
				res = rs[0]
			default:
				res = T.mk(OpTuple, "", 0, nil, nil, rs...)
			}
			st.note(in.Pos(), "return")
			emit(Outcome{st: st, res: res})
			return
		case *ssa.Jump:
			next(b.Succs[0], st)
			return
		case *ssa.If:
			c := x.value(st, in.Cond)
			if v, ok := x.Known(st, c); ok {
				a, pol := stripNot(c)
				if a.op != OpConst {
					if _, have := st.facts[a]; !have {
						st = st.clone()
						x.assume(st, a, v == pol)
					}
				}
				if x.H.OnBranch != nil {
					x.H.OnBranch(x, st, in, c, v)
				}
				if v {
					next(b.Succs[0], st)
				} else {
					next(b.Succs[1], st)
				}
				return
			}
			s2 := st.clone()
			if c.op == OpAny {
				if x.H.OnBranch != nil {
					x.H.OnBranch(x, s2, in, c, true)
					x.H.OnBranch(x, st, in, c, false)
				}
				next(b.Succs[0], s2)
				next(b.Succs[1], st)
				return
			}
			if x.assume(s2, c, true) {
				if x.H.OnBranch != nil {
					x.H.OnBranch(x, s2, in, c, true)
				}
				s2.note(in.Cond.Pos(), c.String())
				next(b.Succs[0], s2)
			}
			if x.assume(st, c, false) {
				if x.H.OnBranch != nil {
					x.H.OnBranch(x, st, in, c, false)
				}
				st.note(in.Cond.Pos(), "!"+c.String())
				next(b.Succs[1], st)
			}
			return
		default:
			x.undecided("instruction %T in %s", in, x.P.fnName(b.Parent()))
		}
	}
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Exec) redefineCall(st *State, in ssa.Value, t *Term) {
	g := t
	// the register itself already refers to the new incarnation
	delete(st.top().env, in)
	x.redefine(st, g, false)
	st.top().env[in] = t
}

func (x *Exec) makeIface(st *State, in *ssa.MakeInterface) *Term {
	v := x.value(st, in.X)
	t := in.X.Type()
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	if v.op == OpMk && structOf(t) == nil {
		return v
	}
	return x.T.mk(OpMk, "", 0, nil, t, v)
}

func (x *Exec) next(st *State, in *ssa.Next, ctx *Ctx) {
	T := x.T
	it := x.value(st, in.Iter)
	var cont *Term
	if it.op == OpIter {
		cont = it.args[0]
		if x.knownNext(st, in, it) {
			return
		}
	} else {
		cont = it
	}
	site := T.site(in, ctx)
	k := T.mk(OpSym, "key", 0, site, nil, cont)
	more := T.mk(OpSym, "more", 0, site, types.Typ[types.Bool])
	if rs, ok := it.obj.(*Site); ok {
		flag := "iter:" + fmt.Sprint(rs.id)
		if st.aux[flag] == "" {
			st.aux[flag] = "1"
			x.forgetLoop(st, k)
			x.forgetLoop(st, more)
			st.top().env[in] = T.mk(OpTuple, "", 0, nil, nil, T.Not(T.Empty(cont)), k, x.load(st, T.Elem(cont, k)))
			if !in.IsString {
				st.facts[T.Has(cont, k)] = true
			}
			return
		}
	}
	delete(st.top().env, in)
	x.redefine(st, k, true)
	x.redefine(st, more, false)
	st.top().env[in] = T.mk(OpTuple, "", 0, nil, nil, more, k, x.load(st, T.Elem(cont, k)))
	if !in.IsString {
		st.facts[T.Has(cont, k)] = true
	}
}

func (x *Exec) unop(st *State, in *ssa.UnOp) {
	T := x.T
	v := x.value(st, in.X)
	env := st.top().env
	switch in.Op {
	case token.MUL:
		if x.H.OnDeref != nil {
			x.H.OnDeref(x, st, in, v)
		}
		env[in] = x.load(st, v)
	case token.NOT:
		env[in] = T.Not(v)
	case token.SUB:
		if n, ok := constInt(v); ok {
			env[in] = T.Int(-n)
		} else {
			env[in] = T.mk(OpBin, "neg", 0, nil, in.Type(), v, T.Int(0))
		}
	case token.ARROW:
		c := T.mk(OpCall, "#recv", 0, T.site(in, st.top().ctx), in.Type(), v)
		x.redefine(st, c, false)
		if in.CommaOk {
			st.top().env[in] = T.mk(OpTuple, "", 0, nil, nil, T.mk(OpRes, "", 0, nil, nil, c), T.mk(OpRes, "", 1, nil, nil, c))
		} else {
			st.top().env[in] = c
		}
	default:
		env[in] = T.mk(OpBin, "u"+in.Op.String(), 0, nil, in.Type(), v, T.Int(0))
	}
}

func (x *Exec) binop(st *State, in *ssa.BinOp) *Term {
	T := x.T
	a, b := x.value(st, in.X), x.value(st, in.Y)
	if a.op == OpMk && b.op == OpMk || a.op == OpMk && b.isNilConst() || b.op == OpMk && a.isNilConst() {
		if a.op == OpMk && b.isNilConst() || b.op == OpMk && a.isNilConst() {
			if in.Op == token.EQL {
				return T.Bool(false)
			}
			return T.Bool(true)
		}
	}
	// structs compared field-wise are kept as one atom
	norm := func(t *Term) *Term {
		if t.op == OpCall && (t.str == "#lenofmake") {
			return t.args[0]
		}
		return t
	}
	a, b = norm(a), norm(b)
	switch in.Op {
	case token.EQL:
		return T.Eq(a, b)
	case token.NEQ:
		return T.Not(T.Eq(a, b))
	case token.LSS:
		return T.Lt(a, b)
	case token.GTR:
		return T.Lt(b, a)
	case token.LEQ:
		return T.Not(T.Lt(b, a))
	case token.GEQ:
		return T.Not(T.Lt(a, b))
	case token.ADD:
		if isInt(in.Type()) {
			return x.add(a, b)
		}
		if v, ok := strOf(a); ok {
			if w, ok := strOf(b); ok {
				return x.strTerm(v + w)
			}
		}
	case token.SUB:
		if isInt(in.Type()) {
			if n, ok := constInt(b); ok {
				return x.add(a, T.Int(-n))
			}
		}
	case token.MUL:
		if n, ok := constInt(a); ok {
			if m, ok := constInt(b); ok {
				return T.Int(n * m)
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
	case token.QUO, token.REM:
		if n, ok := constInt(a); ok && isInt(in.Type()) {
			if m, ok := constInt(b); ok && m != 0 {
				if in.Op == token.QUO {
					return T.Int(n / m)
				}
				return T.Int(n % m)
			}
		}
	}
	return T.mk(OpBin, in.Op.String(), 0, nil, in.Type(), a, b)
}

func (x *Exec) slice(st *State, in *ssa.Slice) *Term {
	T := x.T
	v := x.value(st, in.X)
	if v.op == OpAlloc {
		if site, ok := v.obj.(*Site); ok {
			if al, ok := site.instr.(*ssa.Alloc); ok && in.Low == nil {
				if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
					n := int(at.Len())
					if in.High != nil {
						if m, ok := constInt(x.value(st, in.High)); ok {
							n = m
						}
					}
					if al.Comment == "makeslice" {
						c := T.mk(OpCall, "#make", 0, site, in.Type(), T.Int(n))
						x.redefineCall(st, in, c)
						return c
					}
					if n <= 64 && (al.Comment == "varargs" || al.Comment == "slicelit") {
						var es []*Term
						for i := 0; i < n; i++ {
							es = append(es, x.load(st, T.Elem(v, T.Int(i))))
						}
						return T.mk(OpList, "", 0, nil, in.Type(), es...)
					}
				}
			}
		}
	}
	lo, hi := T.Int(0), T.Len(v)
	if s, ok := strOf(v); ok && x.H.Reflect {
		l, h := 0, len(s)
		lok, hok := true, true
		if in.Low != nil {
			l, lok = constInt(x.value(st, in.Low))
		}
		if in.High != nil {
			h, hok = constInt(x.value(st, in.High))
		}
		if lok && hok && 0 <= l && l <= h && h <= len(s) {
			return x.strTerm(s[l:h])
		}
	}
	if in.Low != nil {
		lo = x.value(st, in.Low)
	}
	if in.High != nil {
		hi = x.value(st, in.High)
	}
	if lo.isConst("0") && hi == T.Len(v) {
		return v
	}
	return T.mk(OpSlice, "", 0, nil, in.Type(), v, lo, hi)
}

// goCall explores a goroutine body on a copy of the state; its effects are not kept.
func (x *Exec) goCall(st *State, in *ssa.Go, fn *Term, args []*Term, ctx *Ctx) {
	st.aux["go"] = "1"
	outs := x.call(st, in, fn, args, ctx)
	if x.H.GoDone != nil {
		x.H.GoDone(x, in, outs)
	}
}

// callee resolves what a call instruction invokes.
func (x *Exec) callee(st *State, cc *ssa.CallCommon, fn *Term) (*ssa.Function, []*Term, string) {
	if cc.IsInvoke() {
		recv := fn
		name := "invoke"
		if m := cc.Method; m != nil {
			name = x.P.objName(m)
		}
		r := recv
		if r.op == OpMk {
			if f := x.lookup(r.typ, cc.Method); f != nil {
				return f, nil, x.P.fnName(f)
			}
		}
		return nil, nil, name
	}
	switch fn.op {
	case OpFn:
		if f, ok := fn.obj.(*ssa.Function); ok {
			return f, nil, x.P.fnName(f)
		}
		return nil, nil, fn.str
	case OpClos:
		f := fn.obj.(*ssa.Function)
		return f, fn.args, x.P.fnName(f)
	case OpMk:
		return x.callee(st, cc, fn.args[0])
	}
	return nil, nil, "#dyn"
}

func (x *Exec) lookup(t types.Type, m *types.Func) *ssa.Function {
	ms := x.P.SSA.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return x.P.SSA.MethodValue(sel)
}

func (x *Exec) onStack(f *ssa.Function) bool {
	n := 0
	for _, s := range x.stack {
		if s == f || (f.Origin() != nil && s.Origin() == f.Origin()) {
			n++
		}
	}
	return n > 0 && (f.Parent() == nil && !x.H.Sched || n > x.H.Reenter)
}

func (x *Exec) call(st *State, in ssa.CallInstruction, fn *Term, args []*Term, ctx *Ctx) []Outcome {
	T := x.T
	cc := in.Common()
	if fn.op == OpFn && strings.HasPrefix(fn.str, "builtin.") {
		return x.builtin(st, in, strings.TrimPrefix(fn.str, "builtin."), args, ctx)
	}
	f, binds, name := x.callee(st, cc, fn)
	if cc.IsInvoke() {
		recv := fn
		if f != nil && recv.op == OpMk {
			recv = recv.args[0]
		}
		args = append([]*Term{recv}, args...)
	} else if name == "#dyn" {
		args = append([]*Term{fn}, args...)
	}
	ev := &CallEvent{Instr: in, Name: name, Fn: f, Addrs: args, Ctx: ctx}
	_, ev.Go = in.(*ssa.Go)
	for _, a := range args {
		ev.Args = append(ev.Args, x.content(st, a))
	}
	if x.H.OnCall != nil {
		x.H.OnCall(x, st, ev)
	}
	if x.H.Model != nil {
		if outs, ok := x.H.Model(x, st, ev); ok {
			return outs
		}
	}
	if x.H.Sched {
		if outs, ok := x.schedCall(st, ev); ok {
			return outs
		}
	}
	if outs, ok := x.intrinsic(st, ev); ok {
		return outs
	}
	if f != nil && len(f.Blocks) > 0 && x.inlinable(f, name, ctx) {
		return x.exec(f, args, binds, st, in, ctx)
	}
	if f != nil && f.Synthetic != "" && len(f.Blocks) > 0 && len(binds) > 0 {
		return x.exec(f, args, binds, st, in, ctx)
	}
	x.OpaqueSet[name]++
	// closures handed to opaque code may run there: explore them once for their events
	res := x.opaque(st, ev, x.isPure(f, name))
	if x.H.OnResult != nil {
		x.H.OnResult(x, st, ev, res)
	}
	_ = T
	return []Outcome{{st: st, res: res}}
}

func (x *Exec) inlinable(f *ssa.Function, name string, ctx *Ctx) bool {
	if x.H.Opaque != nil && x.H.Opaque(f, name) {
		return false
	}
	if ctx.depth > x.H.MaxDepth {
		x.undecided("inlining depth bound at %s", name)
		return false
	}
	if x.onStack(f) {
		return false
	}
	pk := fnPkgPath(f)
	if strings.HasPrefix(pk, x.P.Mod) {
		return true
	}
	switch pk {
	case "slices", "maps":
		switch name {
		case "slices.ContainsFunc", "slices.IndexFunc", "slices.DeleteFunc", "slices.Collect", "maps.Copy":
			return true
		}
		return false
	case "net/url":
		return strings.HasPrefix(name, "net/url.Values.") && !strings.HasSuffix(name, ".Encode")
	}
	if f.Synthetic != "" {
		// wrappers and thunks around methods
		return strings.Contains(f.Synthetic, "wrapper") || strings.Contains(f.Synthetic, "bound") || strings.Contains(f.Synthetic, "thunk")
	}
	return false
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "fmt": true, "bytes": true, "math": true, "unicode": true, "encoding/base64": true, "path": true, "net/url": true, "reflect": true, "errors": true, "github.com/pkg/errors": true, "tideland.dev/go/slices": true, "golang.org/x/crypto/sha3": true, "go/token": true, "slices": true, "maps": true, "encoding/hex": true, "github.com/lestrrat-go/jwx/v3/jws": true, "github.com/lestrrat-go/jwx/v3/jwk": true, "github.com/lestrrat-go/jwx/v3/jwt": true, "github.com/lestrrat-go/jwx/v3/jwa": true, "encoding/json": true, "github.com/vmihailenco/msgpack/v5": true, "gopkg.in/yaml.v3": true}

func (x *Exec) isPure(f *ssa.Function, name string) bool {
	if x.H.Pure != nil && x.H.Pure(name) {
		return true
	}
	if f != nil && x.P.IsRepo(f) {
		return x.repoPure(f, map[*ssa.Function]bool{})
	}
	var pk string
	if f != nil {
		pk = fnPkgPath(f)
	} else {
		// interface methods
		i := strings.LastIndex(name, ".")
		if i < 0 {
			return false
		}
		j := strings.LastIndex(name[:i], ".")
		if j < 0 {
			return false
		}
		pk = name[:j]
	}
	if pk == "time" {
		return name != "time.Now"
	}
	return purePkgs[pk]
}

// opaque is the effect of a call whose body is not explored.
func (x *Exec) opaque(st *State, ev *CallEvent, pure bool) *Term {
	T := x.T
	in := ev.Instr
	var site any
	ctx := ev.Ctx
	if !pure {
		site = T.site(in, ctx)
	}
	var typ types.Type
	sig := in.Common().Signature()
	if sig.Results().Len() == 1 {
		typ = sig.Results().At(0).Type()
	}
	inc := 0
	if !pure {
		inc = x.incarnation(st, site.(*Site))
	}
	c := T.mk(OpCall, ev.Name, inc, site, typ, ev.Args...)
	if site != nil {
		if v, ok := in.(ssa.Value); ok {
			delete(st.top().env, v)
		}
		x.redefine(st, c, false)
	}
	x.havoc(st, ev, c)
	n := sig.Results().Len()
	switch n {
	case 0:
		return T.mk(OpTuple, "", 0, nil, nil)
	case 1:
		return c
	}
	var rs []*Term
	for i := 0; i < n; i++ {
		rs = append(rs, T.mk(OpRes, "", i, nil, sig.Results().At(i).Type(), c))
	}
	return T.mk(OpTuple, "", 0, nil, nil, rs...)
}

// incarnation numbers the objects made at one site when loops are unrolled exactly.
func (x *Exec) incarnation(st *State, s *Site) int {
	if !x.H.Exact {
		return 0
	}
	k := "inc:" + fmt.Sprint(s.id)
	n := len(st.aux[k])
	st.aux[k] += "|"
	return n
}

var mutators = []string{"Unmarshal", "Decode", "Scan", "AddKey", "Set", "Sort"}

// havoc forgets what an opaque call may have overwritten.
func (x *Exec) havoc(st *State, ev *CallEvent, c *Term) {
	T := x.T
	repo := ev.Fn != nil && x.P.IsRepo(ev.Fn)
	if repo {
		fields := x.storeSummary(ev.Fn)
		for _, a := range ev.Addrs {
			a = unMk(a)
			for k := range st.mem {
				if k.root() == a.root() && k.op == OpSel && fields[k.obj.(*types.Var)] && underAddr(k, a) {
					delete(st.mem, k)
				}
			}
			n := structOf(a.typ)
			if n == nil {
				continue
			}
			for i := 0; i < n.NumFields(); i++ {
				if fields[n.Field(i).Origin()] && !collapsed(n, i) {
					fa := T.mk(OpSel, "", 0, n.Field(i).Origin(), n.Field(i).Type(), a)
					if x.ptrParam(ev.Fn, ev.Addrs, a) {
						st.mem[fa] = T.mk(OpSel, "", 0, n.Field(i).Origin(), n.Field(i).Type(), T.mk(OpOut, "", 0, nil, nil, c))
					}
				}
			}
		}
		for i, a := range ev.Addrs {
			// a pointer handed over in an interface is written by whatever decodes into it
			if a.op != OpMk || !addressArg(ev, i) || unMk(a).op != OpAlloc && unMk(a).op != OpSel || i >= len(ev.Fn.Params) || !types.IsInterface(ev.Fn.Params[i].Type()) {
				continue
			}
			if x.decodes(ev.Fn) {
				r := unMk(a)
				x.store(st, r, T.mk(OpOut, "", i, nil, r.typ, c))
			}
		}
		return
	}
	mut := false
	for _, m := range mutators {
		if strings.Contains(ev.Name[strings.LastIndex(ev.Name, ".")+1:], m) {
			mut = true
		}
	}
	if !mut {
		return
	}
	for i, a := range ev.Addrs {
		r := unMk(a)
		if r.op != OpAlloc && r.op != OpSel {
			continue
		}
		if r.root().op != OpAlloc && !strings.Contains(ev.Name, "Unmarshal") && !strings.Contains(ev.Name, "Decode") {
			continue
		}
		if !addressArg(ev, i) {
			continue
		}
		x.store(st, r, T.mk(OpOut, "", i, nil, r.typ, c))
	}
}

// decodes reports whether f, or a repository function it reaches, calls a decoder or a method of
// an interface.
func (x *Exec) decodes(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if cc.IsInvoke() {
					return true
				}
				if s := cc.StaticCallee(); s != nil && !x.P.IsRepo(s) {
					for _, m := range []string{"Unmarshal", "Decode", "Scan"} {
						if strings.Contains(s.Name(), m) {
							return true
						}
					}
				}
			}
		}
		for _, g := range repoCallees(x.P, f) {
			if rec(g) {
				return true
			}
		}
		return false
	}
	return rec(f)
}

func (x *Exec) ptrParam(f *ssa.Function, addrs []*Term, a *Term) bool {
	for i, b := range addrs {
		if unMk(b) == a && i < len(f.Params) {
			if _, ok := f.Params[i].Type().Underlying().(*types.Pointer); ok {
				return true
			}
		}
	}
	return false
}

// addressArg reports whether argument i is a pointer (possibly wrapped in an interface).
func addressArg(ev *CallEvent, i int) bool {
	t := ev.Addrs[i]
	if t.op == OpMk {
		_, ok := t.typ.Underlying().(*types.Pointer)
		return ok
	}
	cc := ev.Instr.Common()
	k := i
	if cc.IsInvoke() {
		k--
	}
	if k < 0 || k >= len(cc.Args) {
		return false
	}
	_, ok := cc.Args[k].Type().Underlying().(*types.Pointer)
	return ok
}

func unMk(t *Term) *Term {
	for t.op == OpMk {
		t = t.args[0]
	}
	return t
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

var storeSums = map[*ssa.Function]map[*types.Var]bool{}

// storeSummary is the set of struct fields fn may store to, transitively within the repository.
func (x *Exec) storeSummary(fn *ssa.Function) map[*types.Var]bool {
	if s, ok := storeSums[fn]; ok {
		return s
	}
	out := map[*types.Var]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !x.P.IsRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					a := in.Addr
					for {
						if ia, ok := a.(*ssa.IndexAddr); ok {
							if u, ok := ia.X.(*ssa.UnOp); ok {
								a = u.X
								continue
							}
						}
						break
					}
					if fa, ok := a.(*ssa.FieldAddr); ok {
						if isLocalAlloc(fa.X) { // a fresh object: not visible through the arguments
							continue
						}
						s := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
						out[s.Field(fa.Field).Origin()] = true
					}
				case ssa.CallInstruction:
					if c := in.Common().StaticCallee(); c != nil {
						visit(c)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	storeSums[fn] = out
	return out
}

func isLocalAlloc(v ssa.Value) bool {
	for {
		switch y := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = y.X
			continue
		}
		return false
	}
}

func (x *Exec) builtin(st *State, in ssa.CallInstruction, name string, args []*Term, ctx *Ctx) []Outcome {
	T := x.T
	one := func(t *Term) []Outcome { return []Outcome{{st: st, res: t}} }
	switch name {
	case "len", "cap":
		a := args[0]
		if a.op == OpAlloc {
			a = x.load(st, a)
		}
		if keys, ok := st.mem[x.keysCell(a)]; ok {
			return one(T.Int(len(keys.args)))
		}
		if a.op == OpSlice && len(a.args) == 3 {
			if a.args[1].isConst("0") {
				return one(a.args[2])
			}
		}
		return one(T.Len(a))
	case "append":
		base := args[0]
		elems := args[1]
		if elems.op == OpList {
			if len(elems.args) == 0 {
				return one(base)
			}
			if x.H.OnAppend != nil {
				x.H.OnAppend(x, st, in, base, elems.args)
			}
			if base.isNilConst() || (base.op == OpList && len(base.args) == 0) {
				return one(T.mk(OpList, "", 0, nil, base.typ, elems.args...))
			}
			return one(T.mk(OpApp, "", 0, nil, base.typ, append([]*Term{base}, elems.args...)...))
		}
		if elems.isNilConst() {
			return one(base)
		}
		if x.H.OnAppend != nil {
			x.H.OnAppend(x, st, in, base, []*Term{T.mk(OpAppS, "", 0, nil, nil, T.Nil(), elems)})
		}
		return one(T.mk(OpAppS, "", 0, nil, base.typ, base, elems))
	case "copy":
		d := unMk(args[0])
		x.store(st, d, args[1])
		return one(T.Len(args[1]))
	case "delete":
		m, k := args[0], args[1]
		x.mapDelete(st, m, k)
		if keys, ok := x.mapKeys(st, m); ok {
			e := T.Elem(m, k)
			for a := range st.mem {
				if a == e || underAddr(a, e) {
					delete(st.mem, a)
				}
			}
			delete(st.facts, T.Empty(m))
			st.facts[T.Empty(m)] = len(keys) == 0
			st.facts[T.Has(m, k)] = false
			return one(T.mk(OpTuple, "", 0, nil, nil))
		}
		for e := range st.mem {
			if e.op == OpElem && e.args[0] == m {
				delete(st.mem, e)
			}
		}
		for f := range st.facts {
			if (f.op == OpHas || f.op == OpEmpty || f.op == OpExists) && f.args[0] == m {
				delete(st.facts, f)
			}
		}
		st.facts[T.Has(m, k)] = false
		return one(T.mk(OpTuple, "", 0, nil, nil))
	case "print", "println", "close", "clear":
		if name == "close" && x.H.Sched {
			st = st.clone()
			q := x.termList(st, x.queueCell(unMk(args[0])))
			if len(q) > 0 && q[len(q)-1].op == OpTuple && q[len(q)-1].str == "closed" {
				return []Outcome{{st: st, panic: true}}
			}
			x.setList(st, x.queueCell(unMk(args[0])), append(append([]*Term(nil), q...), T.mk(OpTuple, "closed", 0, nil, nil)))
		}
		return one(T.mk(OpTuple, "", 0, nil, nil))
	case "min", "max":
		outs := one(args[0])
		for _, a := range args[1:] {
			var next []Outcome
			for _, o := range outs {
				lt := T.Lt(a, o.res)
				if name == "max" {
					lt = T.Lt(o.res, a)
				}
				s1, s2 := o.st.clone(), o.st.clone()
				if x.assume(s1, lt, true) {
					next = append(next, Outcome{st: s1, res: a})
				}
				if x.assume(s2, lt, false) {
					next = append(next, Outcome{st: s2, res: o.res})
				}
			}
			outs = next
		}
		return outs
	case "recover":
		return one(T.Nil())
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	x.undecided("builtin %s", name)
	return one(T.mk(OpCall, "#"+name, 0, T.site(in, ctx), nil, args...))
}

// intrinsic models library functions with exact term semantics.
func (x *Exec) intrinsic(st *State, ev *CallEvent) ([]Outcome, bool) {
	T := x.T
	a := ev.Args
	one := func(t *Term) ([]Outcome, bool) { return []Outcome{{st: st, res: t}}, true }
	none := T.mk(OpTuple, "", 0, nil, nil)
	if x.H.Reflect {
		if outs, ok := x.reflectCall(st, ev); ok {
			return outs, true
		}
	}
	switch ev.Name {
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return one(T.mk(OpCall, "#error", 0, nil, nil, a...))
	case "github.com/pkg/errors.WithStack", "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef":
		if a[0].isNilConst() {
			return one(a[0])
		}
		if T.IsNil(a[0]).isConst("false") {
			return one(T.mk(OpCall, "#error", 0, nil, nil, a[0]))
		}
		return one(a[0])
	case "sync.Once.Do":
		// whichever call runs it, the function has run afterwards
		if f := ev.Addrs[1]; f.op == OpClos || f.op == OpFn {
			return x.call(st, ev.Instr, f, nil, ev.Ctx), true
		}
	case "slices.Contains":
		return one(T.In(a[1], a[0]))
	case "maps.Clone":
		m := unMk(ev.Addrs[0])
		if m.isNilConst() {
			return one(m)
		}
		keys, ok := x.mapKeys(st, m)
		if !ok {
			return nil, false
		}
		if v, ok := ev.Instr.(ssa.Value); ok {
			delete(st.top().env, v)
		}
		n := T.mk(OpCall, "#makemap", x.incarnation(st, T.site(ev.Instr, ev.Ctx)), T.site(ev.Instr, ev.Ctx), m.typ)
		x.redefine(st, n, false)
		for _, k := range keys {
			st.mem[T.Elem(n, k)] = x.load(st, T.Elem(m, k))
		}
		x.SetKeys(st, n, keys...)
		return one(n)
	case "slices.Clone":
		return one(T.mk(OpAppS, "", 0, nil, a[0].typ, T.Nil(), a[0]))
	case "time.Time.Before":
		return one(T.Before(a[0], a[1]))
	case "time.Time.After":
		return one(T.Before(a[1], a[0]))
	case "time.Time.IsZero":
		return one(T.mk(OpCall, "#iszerotime", 0, nil, types.Typ[types.Bool], a[0]))
	case "time.Time.Equal":
		return one(T.Eq(a[0], a[1]))
	}
	if strings.HasPrefix(ev.Name, "github.com/scylladb/go-set/strset.") {
		return x.strset(st, ev)
	}
	if ev.Fn != nil && fnPkgPath(ev.Fn) == x.P.Mod+"/internal" {
		return one(none)
	}
	return nil, false
}

func (x *Exec) strset(st *State, ev *CallEvent) ([]Outcome, bool) {
	T := x.T
	name := strings.TrimPrefix(ev.Name, "github.com/scylladb/go-set/strset.")
	one := func(t *Term) ([]Outcome, bool) { return []Outcome{{st: st, res: t}}, true }
	fresh := func(content *Term) *Term {
		o := T.mk(OpCall, "#setobj", 0, T.site(ev.Instr, ev.Ctx), nil)
		if v, ok := ev.Instr.(ssa.Value); ok {
			delete(st.top().env, v)
		}
		x.redefine(st, o, false)
		st.mem[o] = content
		return o
	}
	cont := func(i int) *Term { return x.load(st, ev.Addrs[i]) }
	switch name {
	case "New":
		if l := ev.Args[0]; l.op == OpCall && l.str == "#setlist" {
			return one(fresh(l.args[0]))
		}
		return one(fresh(T.mk(OpCall, "#set", 0, nil, nil, ev.Args[0])))
	case "Set.Copy":
		return one(fresh(cont(0)))
	case "Set.Add":
		o := ev.Addrs[0]
		c := cont(0)
		if l := ev.Args[1]; l.op == OpList {
			for _, e := range l.args {
				c = T.mk(OpCall, "#setadd", 0, nil, nil, c, e)
			}
		} else {
			c = T.mk(OpCall, "#setaddall", 0, nil, nil, c, l)
		}
		st.mem[o] = c
		return one(T.mk(OpTuple, "", 0, nil, nil))
	case "Set.Has":
		var r *Term
		l := ev.Args[1]
		if l.op == OpList && len(l.args) == 1 {
			r = T.Has(cont(0), l.args[0])
		} else {
			r = T.mk(OpCall, "#sethasall", 0, nil, types.Typ[types.Bool], cont(0), l)
		}
		return one(r)
	case "Set.List":
		return one(T.mk(OpCall, "#setlist", 0, nil, nil, cont(0)))
	case "Difference":
		cs := []*Term{cont(0)}
		if l := ev.Args[1]; l.op == OpList {
			for _, e := range l.args {
				cs = append(cs, x.load(st, e))
			}
		} else {
			cs = append(cs, l)
		}
		return one(fresh(T.mk(OpCall, "#setdiff", 0, nil, nil, cs...)))
	case "Set.Merge":
		st.mem[ev.Addrs[0]] = T.mk(OpCall, "#setaddall", 0, nil, nil, cont(0), T.mk(OpCall, "#setlist", 0, nil, nil, cont(1)))
		return one(T.mk(OpTuple, "", 0, nil, nil))
	case "Union":
		if l := ev.Args[0]; l.op == OpList && len(l.args) > 0 {
			c := x.load(st, l.args[0])
			for _, e := range l.args[1:] {
				c = T.mk(OpCall, "#setaddall", 0, nil, nil, c, T.mk(OpCall, "#setlist", 0, nil, nil, x.load(st, e)))
			}
			return one(fresh(c))
		}
	case "Set.IsSubset":
		return one(T.Empty(T.mk(OpCall, "#setdiff", 0, nil, nil, cont(1), cont(0))))
	case "Set.IsEmpty":
		return one(T.Empty(cont(0)))
	case "Set.Size":
		return one(T.Len(cont(0)))
	}
	// any other operation: unknown content afterwards
	c := T.mk(OpCall, "#set:"+name, 0, T.site(ev.Instr, ev.Ctx), nil, ev.Args...)
	if len(ev.Addrs) > 0 {
		st.mem[ev.Addrs[0]] = c
	}
	return one(c)
}

// repoPure reports whether f only computes: no stores outside its own frame and only pure calls.
func (x *Exec) repoPure(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	if seen[f] {
		return true
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				a := in.Addr
				for {
					switch y := a.(type) {
					case *ssa.FieldAddr:
						a = y.X
						continue
					case *ssa.IndexAddr:
						a = y.X
						continue
					}
					break
				}
				switch a.(type) {
				case *ssa.Alloc:
				case *ssa.FreeVar:
					// a variable of a function around f that is looked at, too
					if !seen[f.Parent()] {
						return false
					}
				default:
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Select:
				return false
			case ssa.CallInstruction:
				cc := in.Common()
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				c := cc.StaticCallee()
				if c == nil {
					if cc.IsInvoke() && x.isPure(nil, x.P.objName(cc.Method)) {
						continue
					}
					return false
				}
				if fnPkgPath(c) == x.P.Mod+"/internal" {
					continue
				}
				if x.P.IsRepo(c) {
					if !x.repoPure(c, seen) {
						return false
					}
					continue
				}
				if !x.isPure(c, x.P.fnName(c)) {
					return false
				}
			case *ssa.UnOp:
				if _, ok := in.X.(*ssa.Global); ok && in.Op == token.MUL {
					// reads of package state are fine: it is fixed while an entry runs
					continue
				}
			}
		}
	}
	return true
}
