package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The race analysis explores everything that runs in one activation of a function that starts
// goroutines, in the contexts of its calls, and collects the accesses to memory with the locks
// that are held. Memory is named by access paths.

type rRoot struct {
	id   string
	in   ssa.Instruction // where it is allocated
	fi   *rFI            // in which call
	kind byte            // a allocation, p parameter, g global, c result of a call
	typ  types.Type
}

type rVal struct {
	root *rRoot
	path string
	clos *rClos
}

type rClos struct {
	id    string
	fn    *ssa.Function
	binds []rSet
}

type rSet map[string]rVal

func (s rSet) add(v rVal) bool {
	k := v.key()
	if _, ok := s[k]; ok {
		return false
	}
	s[k] = v
	return true
}

func (v rVal) key() string {
	if v.clos != nil {
		return "f:" + v.clos.id
	}
	return v.root.id + v.path
}

func (s rSet) sorted() []rVal {
	var ks []string
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []rVal
	for _, k := range ks {
		out = append(out, s[k])
	}
	return out
}

// rFI is the call of a function in a context.
type rFI struct {
	id     string
	fn     *ssa.Function
	parent *rFI
	site   ssa.Instruction // in the parent's function
	spawn  bool            // started as a goroutine
	env    map[ssa.Value]rSet
	memo   map[ssa.Value]rSet
	busy   map[ssa.Value]bool
	depth  int
	ord    int // position among the deferred calls that run at the site
}

// rLocks are the held locks: exclusively (W) or shared (R).
type rLocks map[string]rLock

type rLock struct {
	v    rVal
	mode byte
	typ  string // type and field
}

func (l rLocks) clone() rLocks {
	o := rLocks{}
	for k, v := range l {
		o[k] = v
	}
	return o
}

func (l rLocks) meet(o rLocks) rLocks {
	r := rLocks{}
	for k, v := range l {
		if w, ok := o[k]; ok {
			if w.mode == 'R' {
				v.mode = 'R'
			}
			r[k] = v
		}
	}
	return r
}

type rAccess struct {
	v     rVal
	write bool
	in    ssa.Instruction
	fi    *rFI
	locks rLocks
	typ   string // type and field
	ord   int
}

// rEvent is an operation that orders goroutines.
type rEvent struct {
	kind string // send, recv, close, wait, done, add, pub
	v    rVal
	in   ssa.Instruction
	fi   *rFI
	sent rSet
	ord  int
}

type raceModel struct {
	c      *C
	heap   map[string]rSet
	copies map[string]rSet
	roots  map[string]*rRoot
	closs  map[string]*rClos
	ids    map[ssa.Instruction]int
	acc    map[string]*rAccess
	events map[string]*rEvent
	spawns map[string]*rFI
	fis    int
	ord    int
	grew   bool
	inside *ssa.Package // also follow the functions of this package
	evs    []*rEvent
	calls  map[*ssa.Function][]map[string]byte
	// heldCalls are the calls of each function with the locks held there
	heldCalls map[*ssa.Function][]heldCall
	over      bool
	flat      bool // do not look into calls
	reach     map[string]bool
	impls     map[string][]*ssa.Function
	plain     map[*ssa.Package]bool
	order     map[*ssa.Function][]*ssa.BasicBlock
}

func (m *raceModel) reset() {
	m.heap, m.copies, m.roots, m.closs = map[string]rSet{}, map[string]rSet{}, map[string]*rRoot{}, map[string]*rClos{}
	m.acc, m.events, m.spawns = map[string]*rAccess{}, map[string]*rEvent{}, map[string]*rFI{}
	m.fis, m.over = 0, false
}

func (m *raceModel) id(in ssa.Instruction) int {
	if n, ok := m.ids[in]; ok {
		return n
	}
	m.ids[in] = len(m.ids) + 1
	return len(m.ids)
}

func (m *raceModel) root(fi *rFI, in ssa.Instruction, kind byte, sub string, t types.Type) rVal {
	id := fmt.Sprintf("%s/%c%d%s", fi.id, kind, m.id(in), sub)
	r := m.roots[id]
	if r == nil {
		r = &rRoot{id: id, in: in, fi: fi, kind: kind, typ: t}
		m.roots[id] = r
	}
	return rVal{root: r}
}

func (m *raceModel) put(h map[string]rSet, k string, s rSet) {
	if len(s) == 0 {
		return
	}
	d := h[k]
	if d == nil {
		d = rSet{}
		h[k] = d
	}
	for _, v := range s {
		if d.add(v) {
			m.grew = true
		}
	}
}

func (v rVal) sel(s string) (rVal, bool) {
	if v.clos != nil || strings.Count(v.path, ".")+strings.Count(v.path, "*")+strings.Count(v.path, "[") > 7 {
		return v, false
	}
	return rVal{root: v.root, path: v.path + s}, true
}

// content is what the location v may hold.
func (m *raceModel) content(v rVal, depth int) rSet {
	out := rSet{}
	if v.clos != nil || depth > 6 {
		return out
	}
	for _, x := range m.heap[v.key()] {
		out.add(x)
	}
	for i := 0; i < len(v.path)+1; i++ {
		if i < len(v.path) && v.path[i] != '.' {
			continue
		}
		for _, q := range m.copies[v.root.id+v.path[:i]] {
			if q.clos == nil {
				for _, x := range m.content(rVal{root: q.root, path: q.path + v.path[i:]}, depth+1) {
					out.add(x)
				}
			}
		}
	}
	if len(out) == 0 || v.root.kind != 'a' {
		if x, ok := v.sel("*"); ok {
			out.add(x)
		}
	}
	return out
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice, *types.Signature, *types.Interface, *types.Tuple:
		return true
	}
	return false
}

// vals is what an SSA value may be.
func (m *raceModel) vals(fi *rFI, v ssa.Value) rSet {
	if s, ok := fi.memo[v]; ok {
		return s
	}
	if fi.busy[v] {
		return rSet{}
	}
	fi.busy[v] = true
	s := m.vals1(fi, v)
	delete(fi.busy, v)
	if len(fi.busy) == 0 {
		fi.memo[v] = s
	}
	return s
}

func (m *raceModel) vals1(fi *rFI, v ssa.Value) rSet {
	out := rSet{}
	union := func(s rSet) {
		for _, x := range s {
			out.add(x)
		}
	}
	load := func(s rSet, t types.Type, suffix string) {
		for _, x := range s {
			y, ok := x, true
			if suffix != "" {
				y, ok = x.sel(suffix)
			}
			if !ok || y.clos != nil {
				continue
			}
			if _, isStruct := t.Underlying().(*types.Struct); isStruct {
				out.add(y)
			} else if isRef(t) {
				union(m.content(y, 0))
			}
		}
	}
	switch v := v.(type) {
	case *ssa.Global:
		id := "g:" + v.String()
		r := m.roots[id]
		if r == nil {
			r = &rRoot{id: id, kind: 'g', typ: v.Type()}
			m.roots[id] = r
		}
		out.add(rVal{root: r})
	case *ssa.Function:
		id := v.String()
		if m.closs[id] == nil {
			m.closs[id] = &rClos{id: id, fn: v}
		}
		out.add(rVal{clos: m.closs[id]})
	case *ssa.Parameter, *ssa.FreeVar:
		union(fi.env[v])
	case *ssa.Alloc:
		out.add(m.root(fi, v, 'a', "", v.Type()))
	case *ssa.MakeMap:
		out.add(m.root(fi, v, 'a', "", v.Type()))
	case *ssa.MakeSlice:
		out.add(m.root(fi, v, 'a', "", v.Type()))
	case *ssa.MakeChan:
		out.add(m.root(fi, v, 'a', "", v.Type()))
	case *ssa.MakeClosure:
		id := fmt.Sprintf("%s/f%d", fi.id, m.id(v))
		cl := m.closs[id]
		if cl == nil {
			cl = &rClos{id: id, fn: v.Fn.(*ssa.Function)}
			for range v.Bindings {
				cl.binds = append(cl.binds, rSet{})
			}
			m.closs[id] = cl
		}
		for i, b := range v.Bindings {
			for _, x := range m.vals(fi, b) {
				if cl.binds[i].add(x) {
					m.grew = true
				}
			}
		}
		out.add(rVal{clos: cl})
	case *ssa.MakeInterface:
		union(m.vals(fi, v.X))
	case *ssa.ChangeType:
		union(m.vals(fi, v.X))
	case *ssa.ChangeInterface:
		union(m.vals(fi, v.X))
	case *ssa.Convert:
		union(m.vals(fi, v.X))
	case *ssa.TypeAssert:
		union(m.vals(fi, v.X))
	case *ssa.Slice:
		union(m.vals(fi, v.X))
	case *ssa.FieldAddr:
		f := deref(v.X.Type()).Underlying().(*types.Struct).Field(v.Field).Name()
		for _, x := range m.vals(fi, v.X) {
			if y, ok := x.sel("." + f); ok {
				out.add(y)
			}
		}
	case *ssa.Field:
		f := v.X.Type().Underlying().(*types.Struct).Field(v.Field).Name()
		load(m.vals(fi, v.X), v.Type(), "."+f)
	case *ssa.IndexAddr:
		for _, x := range m.vals(fi, v.X) {
			if y, ok := x.sel("[i]"); ok {
				out.add(y)
			}
		}
	case *ssa.Index:
		load(m.vals(fi, v.X), v.Type(), "[i]")
	case *ssa.Lookup:
		t := v.Type()
		if v.CommaOk {
			t = v.Type().(*types.Tuple).At(0).Type()
		}
		load(m.vals(fi, v.X), t, "[]")
	case *ssa.Next:
		if r, ok := v.Iter.(*ssa.Range); ok {
			if mt, ok := r.X.Type().Underlying().(*types.Map); ok {
				load(m.vals(fi, r.X), mt.Elem(), "[]")
			}
		}
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			load(m.vals(fi, v.X), v.Type(), "")
		case token.ARROW:
			for _, x := range m.vals(fi, v.X) {
				if x.clos == nil {
					union(m.heap["ch:"+x.key()])
				}
			}
		}
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Call:
			s, ok := m.heap[fmt.Sprintf("ret:%s/%d#%d", fi.id, m.id(t), v.Index)]
			if ok {
				union(s)
			} else if isRef(v.Type()) {
				out.add(m.root(fi, t, 'c', fmt.Sprintf("#%d", v.Index), v.Type()))
			}
		default:
			if v.Index == 0 || isNext(v.Tuple) && v.Index == 2 {
				union(m.vals(fi, v.Tuple))
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			union(m.vals(fi, e))
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				union(m.vals(fi, v.Call.Args[0]))
				out.add(m.root(fi, v, 'a', "", v.Type()))
			}
			return out
		}
		s, ok := m.heap[fmt.Sprintf("ret:%s/%d#0", fi.id, m.id(v))]
		if ok {
			union(s)
		} else if isRef(v.Type()) {
			out.add(m.root(fi, v, 'c', "", v.Type()))
		}
	}
	return out
}

func isNext(v ssa.Value) bool { _, ok := v.(*ssa.Next); return ok }

func (m *raceModel) access(fi *rFI, in ssa.Instruction, s rSet, suffix string, write bool, locks rLocks, typ string) {
	for _, v := range s {
		if v.clos != nil {
			continue
		}
		if suffix != "" {
			var ok bool
			if v, ok = v.sel(suffix); !ok {
				continue
			}
		}
		k := fmt.Sprintf("%s/%d/%s/%v", fi.id, m.id(in), v.key(), write)
		if a := m.acc[k]; a != nil {
			a.locks = a.locks.meet(locks)
			continue
		}
		m.acc[k] = &rAccess{v: v, write: write, in: in, fi: fi, locks: locks.clone(), typ: typ, ord: m.ord}
	}
}

func (m *raceModel) event(fi *rFI, in ssa.Instruction, kind string, s, sent rSet) {
	for _, v := range s {
		if v.clos == nil {
			k := fmt.Sprintf("%s/%d/%s/%s", fi.id, m.id(in), v.key(), kind)
			m.events[k] = &rEvent{kind: kind, v: v, in: in, fi: fi, sent: sent, ord: m.ord}
		}
	}
}

// typedField names the struct type and field that addr is in the address of; what follows the
// slash is the part of the field.
func typedField(addr ssa.Value) string {
	sub := ""
	for {
		fa, ok := addr.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		t := deref(fa.X.Type())
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return ""
		}
		if _, ok := fa.X.(*ssa.FieldAddr); !ok {
			return types.TypeString(t, nil) + "." + s.Field(fa.Field).Name() + "#" + sub
		}
		sub = "." + s.Field(fa.Field).Name() + sub
		addr = fa.X
	}
}

// lockName names the field that holds a lock or a pointer to it.
func lockName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return lockName(v.X)
		}
	case *ssa.Field:
		if s, ok := v.X.Type().Underlying().(*types.Struct); ok {
			return types.TypeString(v.X.Type(), nil) + "." + s.Field(v.Field).Name() + "#"
		}
	}
	return typedField(v)
}

// fieldPart splits the name of a field into the field and the part of it.
func fieldPart(typ string) (string, string) {
	f, s, _ := strings.Cut(typ, "#")
	return f, s
}

// explore runs the body of fi and returns the locks that are held when it returns.
func (m *raceModel) explore(fi *rFI, locks rLocks) rLocks {
	m.fis++
	if m.fis > 60000 {
		m.over = true
		return locks
	}
	order := m.order[fi.fn]
	if order == nil {
		order = rpo(fi.fn)
		m.order[fi.fn] = order
	}
	pos := map[*ssa.BasicBlock]int{}
	for i, b := range order {
		pos[b] = i
	}
	var exit rLocks
	limit := map[*ssa.BasicBlock]rLocks{}
	for pass := 0; pass < 3; pass++ {
		exit = nil
		outs := map[*ssa.BasicBlock]rLocks{}
		for i, b := range order {
			var l rLocks
			if i == 0 {
				l = locks.clone()
			} else {
				for _, p := range b.Preds {
					if o, ok := outs[p]; ok {
						if l == nil {
							l = o.clone()
						} else {
							l = l.meet(o)
						}
					}
				}
				if l == nil {
					l = rLocks{}
				}
			}
			if lim, ok := limit[b]; ok {
				l = l.meet(lim)
			}
			l = m.block(fi, b, l)
			outs[b] = l
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if exit == nil {
					exit = l.clone()
				} else {
					exit = exit.meet(l)
				}
			}
		}
		stable := true
		for _, b := range order {
			for _, s := range b.Succs {
				if pos[s] <= pos[b] {
					in := rLocks{}
					for _, p := range s.Preds {
						if pos[p] < pos[s] {
							in = outs[p]
						}
					}
					for k := range in {
						if _, ok := outs[b][k]; !ok {
							if _, had := limit[s]; !had {
								limit[s] = outs[b].clone()
								stable = false
							}
						}
					}
				}
			}
		}
		if stable {
			break
		}
	}
	if exit == nil {
		exit = locks
	}
	return exit
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				walk(b.Succs[i])
			}
		}
		out = append([]*ssa.BasicBlock{b}, out...)
	}
	walk(fn.Blocks[0])
	return out
}

func (m *raceModel) block(fi *rFI, b *ssa.BasicBlock, l rLocks) rLocks {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Store:
			m.access(fi, in, m.vals(fi, in.Addr), "", true, l, typedField(in.Addr))
			vs := m.vals(fi, in.Val)
			_, isStruct := in.Val.Type().Underlying().(*types.Struct)
			for _, a := range m.vals(fi, in.Addr) {
				if a.clos != nil {
					continue
				}
				if isStruct {
					m.put(m.copies, a.key(), vs)
				} else if isRef(in.Val.Type()) {
					m.put(m.heap, a.key(), vs)
				}
			}
			if isStruct || isRef(in.Val.Type()) {
				m.event(fi, in, "pub", m.vals(fi, in.Addr), vs)
			}
		case *ssa.UnOp:
			switch in.Op {
			case token.MUL:
				m.access(fi, in, m.vals(fi, in.X), "", false, l, typedField(in.X))
			case token.ARROW:
				m.event(fi, in, "recv", m.vals(fi, in.X), nil)
			}
		case *ssa.MapUpdate:
			m.access(fi, in, m.vals(fi, in.Map), "[]", true, l, m.mapField(in.Map))
			for _, a := range m.vals(fi, in.Map) {
				if y, ok := a.sel("[]"); ok && y.clos == nil && isRef(in.Value.Type()) {
					m.put(m.heap, y.key(), m.vals(fi, in.Value))
				}
			}
			m.event(fi, in, "pub", m.vals(fi, in.Map), m.vals(fi, in.Value))
		case *ssa.Lookup:
			if _, ok := in.X.Type().Underlying().(*types.Map); ok {
				m.access(fi, in, m.vals(fi, in.X), "[]", false, l, m.mapField(in.X))
			}
		case *ssa.Range:
			if _, ok := in.X.Type().Underlying().(*types.Map); ok {
				m.access(fi, in, m.vals(fi, in.X), "[]", false, l, m.mapField(in.X))
			}
		case *ssa.Send:
			vs := m.vals(fi, in.X)
			m.event(fi, in, "send", m.vals(fi, in.Chan), vs)
			for _, c := range m.vals(fi, in.Chan) {
				if c.clos == nil {
					m.put(m.heap, "ch:"+c.key(), vs)
				}
			}
		case *ssa.Select:
			for _, s := range in.States {
				if s.Dir == types.SendOnly {
					vs := m.vals(fi, s.Send)
					m.event(fi, in, "send", m.vals(fi, s.Chan), vs)
					for _, c := range m.vals(fi, s.Chan) {
						if c.clos == nil {
							m.put(m.heap, "ch:"+c.key(), vs)
						}
					}
				}
			}
		case *ssa.RunDefers:
			l = m.defers(fi, in, l)
		case *ssa.Return:
			for i, r := range in.Results {
				if fi.site != nil {
					m.put(m.heap, fmt.Sprintf("ret:%s/%d#%d", fi.parent.id, m.id(fi.site), i), m.vals(fi, r))
				} else {
					m.put(m.heap, fmt.Sprintf("out:%s#%d", fi.id, i), m.vals(fi, r))
				}
			}
		case *ssa.Go:
			m.call(fi, in, in.Common(), rLocks{}, true)
		case *ssa.Call:
			l = m.call(fi, in, in.Common(), l, false)
		}
	}
	return l
}

// mapField names the field that a map was loaded from.
func (m *raceModel) mapField(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return typedField(u.X)
	}
	return ""
}

// defers runs the deferred calls of fi's function.
func (m *raceModel) defers(fi *rFI, at ssa.Instruction, l rLocks) rLocks {
	var ds []*ssa.Defer
	for _, b := range m.order[fi.fn] {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				ds = append(ds, d)
			}
		}
	}
	for i := len(ds) - 1; i >= 0; i-- {
		m.ord = len(ds) - i
		l = m.callAt(fi, ds[i], at, ds[i].Common(), l, false)
	}
	m.ord = 0
	return l
}

func (m *raceModel) call(fi *rFI, in ssa.Instruction, cc *ssa.CallCommon, l rLocks, spawn bool) rLocks {
	return m.callAt(fi, in, in, cc, l, spawn)
}

// callAt handles the call site, which takes effect at instruction at.
func (m *raceModel) callAt(fi *rFI, site, at ssa.Instruction, cc *ssa.CallCommon, l rLocks, spawn bool) rLocks {
	var args []rSet
	for _, a := range cc.Args {
		args = append(args, m.vals(fi, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "close":
			m.event(fi, at, "close", args[0], nil)
		case "delete", "clear":
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				m.access(fi, at, args[0], "[]", true, l, m.mapField(cc.Args[0]))
			}
		case "len":
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				m.access(fi, at, args[0], "[]", false, l, m.mapField(cc.Args[0]))
			}
		case "copy":
			m.access(fi, at, args[0], "[i]", true, l, "")
			m.access(fi, at, args[1], "[i]", false, l, "")
		}
		return l
	}
	type target struct {
		fn    *ssa.Function
		binds []rSet
	}
	var ts []target
	switch f := cc.StaticCallee(); {
	case f != nil:
		t := target{fn: f}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, v := range m.vals(fi, mc) {
				t.binds = v.clos.binds
			}
		}
		ts = append(ts, t)
	case cc.IsInvoke():
		args = append([]rSet{m.vals(fi, cc.Value)}, args...)
		if pk := cc.Method.Pkg(); pk != nil && strings.HasPrefix(pk.Path(), m.c.P.Mod) {
			iface, _ := cc.Value.Type().Underlying().(*types.Interface)
			for _, f := range m.impls[cc.Method.Name()] {
				if iface != nil && types.Implements(f.Signature.Recv().Type(), iface) {
					ts = append(ts, target{fn: f})
				}
			}
		}
	default:
		for _, v := range m.vals(fi, cc.Value).sorted() {
			if v.clos != nil {
				ts = append(ts, target{fn: v.clos.fn, binds: v.clos.binds})
			}
		}
	}
	var out rLocks
	for _, t := range ts {
		o := m.target(fi, site, at, t.fn, t.binds, args, cc, l, spawn)
		if out == nil {
			out = o
		} else {
			out = out.meet(o)
		}
	}
	if out == nil || spawn {
		return l
	}
	return out
}

func (m *raceModel) target(fi *rFI, site, at ssa.Instruction, f *ssa.Function, binds, args []rSet, cc *ssa.CallCommon, l rLocks, spawn bool) rLocks {
	lockOf := func(mode byte) rLocks {
		o := l.clone()
		if len(args[0]) == 1 {
			for _, v := range args[0] {
				if v.clos == nil {
					o[v.key()] = rLock{v, mode, lockName(cc.Args[0])}
				}
			}
		}
		return o
	}
	unlock := func() rLocks {
		o := l.clone()
		for _, v := range args[0] {
			delete(o, v.key())
		}
		return o
	}
	name := ""
	if o := f.Object(); o != nil {
		name = o.(*types.Func).FullName()
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return lockOf('W')
	case "(*sync.RWMutex).RLock":
		return lockOf('R')
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return unlock()
	case "(*sync.Once).Do":
		in := l.clone()
		for _, v := range args[0] {
			if v.clos == nil && len(args[0]) == 1 {
				in["once:"+v.key()] = rLock{v, 'W', ""}
			}
		}
		for _, v := range args[1].sorted() {
			if v.clos != nil {
				m.enter(fi, site, at, v.clos.fn, v.clos.binds, nil, in, false)
			}
		}
		o := l.clone()
		for k, v := range in {
			if _, had := o[k]; !had {
				o[k] = rLock{v.v, 'R', ""}
			}
		}
		return o
	case "(*sync.WaitGroup).Add":
		m.event(fi, at, "add", args[0], nil)
		return l
	case "(*sync.WaitGroup).Done":
		m.event(fi, at, "done", args[0], nil)
		return l
	case "(*sync.WaitGroup).Wait":
		m.event(fi, at, "wait", args[0], nil)
		return l
	case "(*sync.WaitGroup).Go":
		m.event(fi, at, "add", args[0], nil)
		for _, v := range args[1].sorted() {
			if v.clos != nil {
				n := m.enter(fi, site, at, v.clos.fn, v.clos.binds, nil, rLocks{}, true)
				if n != nil {
					m.event(n, lastInstr(n.fn), "done", args[0], nil)
				}
			}
		}
		return l
	}
	if m.flat {
		h := map[string]byte{}
		for _, k := range l {
			if k.typ != "" {
				h[k.typ] = k.mode
			} else if k.v.root.kind == 'g' && k.v.path == "" {
				h[k.v.root.id] = k.mode
			}
		}
		if m.calls == nil {
			m.calls = map[*ssa.Function][]map[string]byte{}
		}
		fresh := len(args) > 0 && len(args[0]) > 0
		if len(args) > 0 {
			for _, v := range args[0] {
				if v.clos != nil || v.root.kind != 'a' && v.root.kind != 'c' || v.path != "" {
					fresh = false
				}
			}
		}
		if fresh {
			h["fresh"] = 'R'
		}
		if fi.parent == nil {
			m.calls[f] = append(m.calls[f], h)
		}
		if spawn || !m.locksDirectly(f) {
			return l
		}
	}
	if !m.follows(f) {
		// what other packages do with function values they are given runs now
		if !m.c.P.IsRepo(f) {
			for _, a := range args {
				for _, v := range a.sorted() {
					if v.clos != nil {
						m.enter(fi, site, at, v.clos.fn, v.clos.binds, nil, l, false)
					}
				}
			}
		}
		return l
	}
	some := spawn || len(binds) > 0
	for _, a := range args {
		some = some || len(a) > 0
	}
	if !some {
		return l
	}
	exit := l
	if n := m.enterLocks(fi, site, at, f, binds, args, l, spawn, &exit); n == nil {
		return l
	}
	return exit
}

// locksDirectly reports whether f itself locks or unlocks.
func (m *raceModel) locksDirectly(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if s := ci.Common().StaticCallee(); s != nil && s.Object() != nil {
					if n := s.Object().(*types.Func).FullName(); strings.HasPrefix(n, "(*sync.Mutex).") || strings.HasPrefix(n, "(*sync.RWMutex).") {
						return true
					}
				}
			}
		}
	}
	return false
}

func lastInstr(f *ssa.Function) ssa.Instruction {
	var last ssa.Instruction
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			last = r
		}
	}
	return last
}

func (m *raceModel) enter(fi *rFI, site, at ssa.Instruction, f *ssa.Function, binds, args []rSet, l rLocks, spawn bool) *rFI {
	var exit rLocks
	return m.enterLocks(fi, site, at, f, binds, args, l, spawn, &exit)
}

func (m *raceModel) enterLocks(fi *rFI, site, at ssa.Instruction, f *ssa.Function, binds, args []rSet, l rLocks, spawn bool, exit *rLocks) *rFI {
	if len(f.Blocks) == 0 || fi.depth > 24 || m.over {
		return nil
	}
	n := 0
	for p := fi; p != nil; p = p.parent {
		if p.fn == f {
			n++
		}
	}
	if n > 1 {
		return nil
	}
	id := fmt.Sprintf("%s>%d:%d", fi.id, m.id(site), m.fid(f))
	c := &rFI{id: id, fn: f, parent: fi, site: at, spawn: spawn, env: map[ssa.Value]rSet{}, memo: map[ssa.Value]rSet{}, busy: map[ssa.Value]bool{}, depth: fi.depth + 1}
	if site != at {
		c.site = at
	}
	for i, p := range f.Params {
		if i < len(args) {
			c.env[p] = args[i]
		}
	}
	for i, v := range f.FreeVars {
		if i < len(binds) {
			c.env[v] = binds[i]
		}
	}
	if spawn {
		m.spawns[id] = c
		l = rLocks{}
	}
	c.ord, m.ord = m.ord, 0
	*exit = m.explore(c, l)
	m.ord = c.ord
	return c
}

func (m *raceModel) fid(f *ssa.Function) int { return m.id(f.Blocks[0].Instrs[0]) }

// follows reports whether calls of f are looked into: functions of the repository and those of
// packages that do no synchronization of their own.
func (m *raceModel) follows(f *ssa.Function) bool {
	if m.c.P.IsRepo(f) || f.Parent() != nil && m.follows(f.Parent()) {
		return true
	}
	if f.Synthetic != "" && f.Pkg == nil {
		return len(f.Blocks) > 0
	}
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil {
		return false
	}
	if m.inside != nil && p == m.inside {
		return len(f.Blocks) > 0
	}
	ok, done := m.plain[p]
	if !done {
		ok = true
		for _, i := range p.Pkg.Imports() {
			switch i.Path() {
			case "sync", "sync/atomic", "unsafe", "reflect", "os", "internal/reflectlite":
				ok = false
			}
		}
		if ok {
			p.Build()
		}
		m.plain[p] = ok
	}
	return ok && len(f.Blocks) > 0
}

// rStep is a step of the chain of calls from the root to an instruction.
type rStep struct {
	fi  *rFI
	in  ssa.Instruction
	ord int
}

func chainOf(fi *rFI, in ssa.Instruction, ord int) []rStep {
	s := []rStep{{fi, in, ord}}
	for f := fi; f.parent != nil; f = f.parent {
		s = append(s, rStep{f.parent, f.site, f.ord})
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return s
}

// threadOf is the goroutine that the call runs in (nil for that of the root).
func threadOf(fi *rFI) *rFI {
	for f := fi; f != nil; f = f.parent {
		if f.spawn {
			return f
		}
	}
	return nil
}

func tid(t *rFI) string {
	if t == nil {
		return ""
	}
	return t.id
}

type rEdge [2]*ssa.BasicBlock

// rCut are points of a function that paths are not continued over.
type rCut struct {
	ins   map[ssa.Instruction]bool
	edges map[rEdge]bool
}

// reachAvoid reports whether to (or, if it is nil, a return) is reached from after from (or, if
// it is nil, from the entry) without passing the cut.
func reachAvoid(fn *ssa.Function, from, to ssa.Instruction, cut rCut) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if to != nil && in == to {
				return true
			}
			if cut.ins[in] {
				return false
			}
			if _, ok := in.(*ssa.Return); ok && to == nil {
				return true
			}
		}
		for _, s := range b.Succs {
			if !cut.edges[rEdge{b, s}] && !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	if from == nil {
		seen[fn.Blocks[0]] = true
		return walk(fn.Blocks[0], 0)
	}
	b := from.Block()
	for i, in := range b.Instrs {
		if in == from {
			return walk(b, i+1)
		}
	}
	return true
}

func mayFollow(x, y rStep) bool {
	if x.in == y.in && x.ord < y.ord {
		return true
	}
	return reachAvoid(x.fi.fn, x.in, y.in, rCut{})
}

// common is the number of leading steps of two chains that are of the same calls.
func common(a, b []rStep) int {
	n := 0
	for n < len(a) && n < len(b) && a[n].fi.id == b[n].fi.id {
		n++
	}
	return n
}

// mayFollowChain reports whether b may run after a in the goroutine t.
func mayFollowChain(a, b []rStep) bool {
	n := common(a, b)
	for i := n - 1; i >= 0; i-- {
		if mayFollow(a[i], b[i]) {
			return true
		}
		if a[i].fi.spawn {
			break
		}
	}
	return false
}

// joinPoint is where a receive or wait has surely seen the signal.
func joinPoint(cut rCut, e *rEvent) string {
	if u, ok := e.in.(*ssa.UnOp); ok && u.CommaOk {
		for _, r := range *u.Referrers() {
			x, ok := r.(*ssa.Extract)
			if !ok || x.Index != 1 {
				continue
			}
			for _, r := range *x.Referrers() {
				if f, ok := r.(*ssa.If); ok && f.Cond == ssa.Value(x) {
					cut.edges[rEdge{f.Block(), f.Block().Succs[1]}] = true
					return "close"
				}
				if n, ok := r.(*ssa.UnOp); ok && n.Op == token.NOT {
					for _, r := range *n.Referrers() {
						if f, ok := r.(*ssa.If); ok {
							cut.edges[rEdge{f.Block(), f.Block().Succs[0]}] = true
							return "close"
						}
					}
				}
			}
		}
		return ""
	}
	cut.ins[e.in] = true
	return "any"
}

// multi reports whether several goroutines may be started at t's site in one activation of f.
func multi(f, t *rFI) bool {
	for _, s := range chainOf(t, lastInstr(t.fn), 0) {
		if s.fi.id == t.id {
			break
		}
		if strings.HasPrefix(s.fi.id, f.id) && reachAvoid(s.fi.fn, s.in, s.in, rCut{}) {
			return true
		}
	}
	return false
}

// joins collects the points of f after which the goroutine of access a is known to be past a.
func (m *raceModel) joins(f *rFI, a *rAccess, depth int) rCut {
	cut := rCut{ins: map[ssa.Instruction]bool{}, edges: map[rEdge]bool{}}
	for _, e := range m.sortedEvents() {
		if e.kind != "recv" && e.kind != "wait" {
			continue
		}
		if threadOf(e.fi) != threadOf(f) {
			continue
		}
		ch := chainOf(e.fi, e.in, e.ord)
		at := -1
		for i, s := range ch {
			if s.fi.id == f.id {
				at = i
			}
		}
		if at < 0 {
			continue
		}
		sure := true
		for _, s := range ch[at+1:] {
			if reachAvoid(s.fi.fn, nil, nil, rCut{ins: map[ssa.Instruction]bool{s.in: true}}) {
				sure = false
			}
		}
		if !sure {
			continue
		}
		tmp := rCut{ins: map[ssa.Instruction]bool{}, edges: map[rEdge]bool{}}
		kind := joinPoint(tmp, e)
		if at < len(ch)-1 && len(tmp.edges) > 0 {
			// the receiving loop is in a function that is called: it is left only by the end of the channel
			if reachAvoid(ch[len(ch)-1].fi.fn, nil, nil, tmp) {
				continue
			}
			tmp = rCut{ins: map[ssa.Instruction]bool{ch[at].in: true}}
		} else if at < len(ch)-1 {
			tmp = rCut{ins: map[ssa.Instruction]bool{ch[at].in: true}}
		}
		if kind == "" || !m.signalled(f, e, kind, a, depth) {
			continue
		}
		for k := range tmp.ins {
			cut.ins[k] = true
		}
		for k := range tmp.edges {
			cut.edges[k] = true
		}
	}
	return cut
}

func (m *raceModel) sortedEvents() []*rEvent {
	if m.evs == nil {
		var ks []string
		for k := range m.events {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			m.evs = append(m.evs, m.events[k])
		}
	}
	return m.evs
}

// signalled reports whether everything that ends the wait e is after the access a.
func (m *raceModel) signalled(f *rFI, e *rEvent, kind string, a *rAccess, depth int) bool {
	if depth > 3 {
		return false
	}
	t := threadOf(a.fi)
	any := false
	for _, s := range m.sortedEvents() {
		if s.v.key() != e.v.key() {
			continue
		}
		switch {
		case e.kind == "wait" && s.kind == "done":
			// the counter is zero only after the calls of Done of all goroutines
			if threadOf(s.fi) == t {
				if mayFollowChain(chainOf(s.fi, s.in, s.ord), chainOf(a.fi, a.in, a.ord)) {
					return false
				}
				any = true
			}
			continue
		case e.kind == "recv" && (s.kind == "close" || s.kind == "send" && kind == "any"):
		default:
			continue
		}
		st := threadOf(s.fi)
		sch := chainOf(s.fi, s.in, s.ord)
		switch {
		case st == t && t != nil:
			if mayFollowChain(sch, chainOf(a.fi, a.in, a.ord)) {
				return false
			}
			if multi(f, t) && !reachAvoid(e.in.Parent(), e.in, e.in, rCut{}) {
				return false
			}
			any = true
		case st != nil && m.afterJoin(sch, st, a, depth+1):
			any = true
		default:
			return false
		}
	}
	return any
}

// afterJoin reports whether the goroutine st has joined that of a when it is at the end of chain.
func (m *raceModel) afterJoin(chain []rStep, st *rFI, a *rAccess, depth int) bool {
	in := false
	for _, s := range chain {
		in = in || s.fi == st
		if !in {
			continue
		}
		if cut := m.joins(s.fi, a, depth); len(cut.ins)+len(cut.edges) > 0 && !reachAvoid(s.fi.fn, nil, s.in, cut) {
			return true
		}
	}
	return false
}

func overlaps(p, q string) bool {
	if len(p) > len(q) {
		p, q = q, p
	}
	return p == q || strings.HasPrefix(q, p) && q[len(p)] == '.'
}

// sharedAt reports whether an object is the same in two executions below level l of the chain
// that go on at x and y.
func (m *raceModel) sharedAt(r *rRoot, ch []rStep, l int, x, y rStep) bool {
	if r.kind == 'p' || r.kind == 'g' {
		return true
	}
	for i := 0; i < l; i++ {
		if ch[i].fi.id == r.fi.id {
			return true
		}
	}
	if ch[l].fi.id != r.fi.id {
		return false
	}
	cut := rCut{ins: map[ssa.Instruction]bool{r.in: true}}
	return reachAvoid(x.fi.fn, x.in, y.in, cut) || reachAvoid(y.fi.fn, y.in, x.in, cut) || x.in == y.in && x.ord != y.ord
}

// protected reports whether a common lock keeps two accesses apart.
func (m *raceModel) protected(a, b *rAccess, ch []rStep, l int, x, y rStep) bool {
	for k, p := range a.locks {
		q, ok := b.locks[k]
		if !ok || !m.sharedAt(p.v.root, ch, l, x, y) {
			continue
		}
		if strings.HasPrefix(k, "once:") {
			if p.mode == 'W' || q.mode == 'W' {
				return true
			}
			continue
		}
		if p.mode == 'W' || q.mode == 'W' {
			return true
		}
	}
	return false
}

// racy reports whether two accesses may run at the same time, and at which level they part.
func (m *raceModel) racy(a, b *rAccess) (string, bool) {
	ca, cb := chainOf(a.fi, a.in, a.ord), chainOf(b.fi, b.in, b.ord)
	n := common(ca, cb)
	for l := n - 1; l >= 0; l-- {
		x, y := ca[l], cb[l]
		if x.in == y.in && x.ord == y.ord && !reachAvoid(x.fi.fn, x.in, x.in, rCut{}) {
			continue
		}
		spawnIn := func(c []rStep) bool {
			for _, s := range c[l+1:] {
				if s.fi.spawn {
					return true
				}
			}
			return false
		}
		sa, sb := spawnIn(ca), spawnIn(cb)
		if !sa && !sb {
			continue
		}
		if !m.sharedAt(a.v.root, ca, l, x, y) {
			if m.handedOver(a, b, ca, cb, l) {
				continue
			}
			return fmt.Sprintf("one of them follows the handing over of the object to the other goroutine"), true
		}
		if m.protected(a, b, ca, l, x, y) {
			continue
		}
		// in the order that x is before y
		before := func(a, b *rAccess, ca, cb []rStep, sa, sb bool, x, y rStep) bool {
			fresh := rCut{}
			if a.v.root.fi != nil && a.v.root.fi.id == x.fi.id {
				fresh.ins = map[ssa.Instruction]bool{a.v.root.in: true}
			}
			follows := x.in == y.in && x.ord < y.ord || reachAvoid(x.fi.fn, x.in, y.in, fresh)
			if !follows || !sa {
				return true // never in that order, or done when the other starts
			}
			cut := m.joins(x.fi, a, 0)
			for k := range fresh.ins {
				cut.ins[k] = true
			}
			return !reachAvoid(x.fi.fn, x.in, y.in, cut)
		}
		own := func(a *rAccess, cb []rStep, sb bool) bool {
			if !sb {
				return false
			}
			return m.afterJoin(cb, cb[l+1].fi, a, 0)
		}
		if own(a, cb, sb) || own(b, ca, sa) {
			continue
		}
		if before(a, b, ca, cb, sa, sb, x, y) && before(b, a, cb, ca, sb, sa, y, x) {
			continue
		}
		return "", true
	}
	return "", false
}

// handedOver reports whether accesses to an object that was allocated below the level at which
// the executions part are ordered: the goroutine that allocated it does not access it after it
// handed it over.
func (m *raceModel) handedOver(a, b *rAccess, ca, cb []rStep, l int) bool {
	r := a.v.root
	if r.fi == nil {
		return true
	}
	inside := func(ch []rStep) bool {
		for _, s := range ch[l+1:] {
			if s.fi.id == r.fi.id {
				return true
			}
		}
		return false
	}
	ia, ib := inside(ca), inside(cb)
	if ia == ib {
		return true // two objects
	}
	if ib {
		a, b, ca, cb = b, a, cb, ca
	}
	// a is in the goroutine that allocates the object
	for _, e := range m.sortedEvents() {
		if e.kind != "send" && e.kind != "pub" {
			continue
		}
		if e.kind == "pub" && (e.v.root == r || e.v.root.kind == 'a' && e.v.root.fi != nil && strings.HasPrefix(e.v.root.fi.id, ca[l+1].fi.id)) {
			continue
		}
		has := false
		for _, v := range e.sent {
			if v.clos == nil && v.root.id == r.id {
				has = true
			}
		}
		if !has || threadOf(e.fi) != threadOf(a.fi) {
			continue
		}
		ce := chainOf(e.fi, e.in, e.ord)
		n := common(ce, ca)
		// not over a new allocation
		for i := n - 1; i > l; i-- {
			cut := rCut{}
			if ca[i].fi.id == r.fi.id {
				cut.ins = map[ssa.Instruction]bool{r.in: true}
			}
			if reachAvoid(ce[i].fi.fn, ce[i].in, ca[i].in, cut) {
				return false
			}
			if ca[i].fi.id == r.fi.id {
				break
			}
		}
	}
	return true
}

// raceRoots are the functions whose activations are analysed: those with go statements or, if
// they are not exported, those that call them.
func (c *C) raceRoots() (roots, gos []*ssa.Function) {
	callers := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	for _, f := range c.P.RepoFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if s := ci.Common().StaticCallee(); s != nil {
						callers[s] = append(callers[s], f)
						if s.Origin() != nil {
							callers[s.Origin()] = append(callers[s.Origin()], f)
						}
						if o := s.Object(); o != nil && o.(*types.Func).FullName() == "(*sync.WaitGroup).Go" {
							work = append(work, f)
						}
					}
				}
				if _, ok := in.(*ssa.Go); ok {
					work = append(work, f)
				}
			}
		}
	}
	gos = append(gos, work...)
	seen := map[*ssa.Function]bool{}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for f.Parent() != nil {
			f = f.Parent()
		}
		if seen[f] || c.unusedCode(f) {
			continue
		}
		seen[f] = true
		if o := f.Object(); (o == nil || !o.Exported()) && len(callers[f]) > 0 {
			self := true
			for _, g := range callers[f] {
				for g.Parent() != nil {
					g = g.Parent()
				}
				self = self && g == f
			}
			if !self {
				work = append(work, callers[f]...)
				continue
			}
		}
		roots = append(roots, f)
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	return roots, gos
}

// unusedCode reports whether f belongs to mocks, generators, or examples.
func (c *C) unusedCode(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	file := c.P.Fset.Position(f.Pos()).Filename
	return strings.HasPrefix(baseFile(file), "mock_") || strings.Contains(file, "/generators/") || strings.Contains(file, "/examples/")
}

func baseFile(s string) string { return s[strings.LastIndexByte(s, '/')+1:] }

func (c *C) newRace() *raceModel {
	m := &raceModel{c: c, ids: map[ssa.Instruction]int{}, plain: map[*ssa.Package]bool{}, order: map[*ssa.Function][]*ssa.BasicBlock{}, impls: map[string][]*ssa.Function{}}
	for _, f := range c.P.RepoFuncs() {
		if f.Signature.Recv() != nil && f.Parent() == nil && len(f.Blocks) > 0 && !c.unusedCode(f) {
			m.impls[f.Name()] = append(m.impls[f.Name()], f)
		}
	}
	return m
}

// activation explores f with unknown arguments.
func (m *raceModel) activation(f *ssa.Function) {
	m.reset()
	for round := 0; round < 8; round++ {
		m.acc, m.events, m.spawns, m.evs = map[string]*rAccess{}, map[string]*rEvent{}, map[string]*rFI{}, nil
		m.calls = nil
		m.fis, m.grew = 0, false
		fi := &rFI{id: "r", fn: f, env: map[ssa.Value]rSet{}, memo: map[ssa.Value]rSet{}, busy: map[ssa.Value]bool{}}
		arg := func(v ssa.Value, i int) {
			if isRef(v.Type()) {
				id := fmt.Sprintf("p:%d", i)
				r := m.roots[id]
				if r == nil {
					r = &rRoot{id: id, kind: 'p', typ: v.Type()}
					m.roots[id] = r
				}
				fi.env[v] = rSet{}
				fi.env[v].add(rVal{root: r})
			} else if _, ok := v.Type().Underlying().(*types.Struct); ok {
				id := fmt.Sprintf("p:%d", i)
				r := &rRoot{id: id, kind: 'p', typ: v.Type()}
				if m.roots[id] == nil {
					m.roots[id] = r
				}
				fi.env[v] = rSet{}
				fi.env[v].add(rVal{root: m.roots[id]})
			}
		}
		for i, p := range f.Params {
			arg(p, i)
		}
		for i, p := range f.FreeVars {
			arg(p, 100+i)
		}
		m.explore(fi, rLocks{})
		if !m.grew {
			break
		}
	}
	if m.grew {
		m.over = true
	}
}

func (m *raceModel) sortedAcc() []*rAccess {
	var ks []string
	for k := range m.acc {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*rAccess
	for _, k := range ks {
		out = append(out, m.acc[k])
	}
	return out
}

func init() {
	register(&Check{ID: "C31", Title: "Goroutines of the module share memory without data races", Min: 12,
		Technique: "lockset and happens-before analysis over access paths in the calling contexts of each goroutine",
		Rule:      "for every function of the module that starts goroutines (or the functions that call it, if it is not exported): each pair of accesses to one memory location of which one is a write and one by a started goroutine is ordered by the start of the goroutine, a join (WaitGroup, channel receive or close that the goroutine signals after the access), a common lock or a sync.Once, or the transfer of the object over a channel; channels are closed only after all sends; counters of WaitGroups are raised before the goroutine starts; what a goroutine that outlives the call writes or reads of an object it shares with other methods is guarded by one lock in all of them, except in the initialiser; package-level variables are written after initialisation only by setters that nothing in the module calls or under a lock that all accesses hold",
		Run:       runRace})
}

func (v rVal) show() string {
	n := "?"
	switch {
	case v.clos != nil:
		return "function"
	case v.root.kind == 'g':
		n = strings.TrimPrefix(v.root.id, "g:")
	case v.root.kind == 'p':
		n = "parameter"
	default:
		if a, ok := v.root.in.(*ssa.Alloc); ok && a.Comment != "" {
			n = a.Comment
		} else if v.root.in != nil {
			if x, ok := v.root.in.(ssa.Value); ok {
				n = x.Name()
			}
		}
	}
	return n + v.path
}

func runRace(c *C) {
	roots, gos := c.raceRoots()
	m := c.newRace()
	where := func(a *rAccess) string {
		s := c.P.fnName(a.in.Parent())
		return s + " (" + c.P.Pos(posNear(a.in)) + ")"
	}
	sites := map[*ssa.Go]bool{}
	type outAcc struct {
		a    *rAccess
		root *ssa.Function
		ret  bool
	}
	var outs []outAcc
	npairs, nacc := 0, 0
	for _, f := range roots {
		m.activation(f)
		if m.over {
			c.ob("undecided:"+c.P.fnName(f), c.P.Pos(f.Pos()), false, "the activation was not explored completely")
			continue
		}
		c.Funcs[c.P.fnName(f)]++
		c.Steps += m.fis
		if len(m.spawns) == 0 {
			continue
		}
		acc := m.sortedAcc()
		nacc += len(acc)
		// channels: closing is a write to what sends read
		for _, e := range m.sortedEvents() {
			if e.kind == "close" || e.kind == "send" {
				acc = append(acc, &rAccess{v: rVal{root: e.v.root, path: e.v.path + "#open"}, write: e.kind == "close", in: e.in, fi: e.fi, ord: e.ord, locks: rLocks{}})
			}
		}
		byRoot := map[string][]*rAccess{}
		for _, a := range acc {
			byRoot[a.v.root.id] = append(byRoot[a.v.root.id], a)
		}
		bad := map[string]bool{}
		for _, as := range byRoot {
			writes, own := false, true
			for _, a := range as {
				writes = writes || a.write
				own = own && a.v.root.fi != nil && tid(threadOf(a.fi)) == tid(threadOf(a.v.root.fi))
			}
			if !writes || own {
				continue
			}
			for i, a := range as {
				for _, b := range as[i:] {
					if !a.write && !b.write || !overlaps(a.v.path, b.v.path) {
						continue
					}
					if threadOf(a.fi) == nil && threadOf(b.fi) == nil {
						continue
					}
					if a.in == b.in && strings.HasSuffix(a.v.path, "[i]") {
						continue // elements of a list by their index
					}
					npairs++
					if why, r := m.racy(a, b); r {
						k := a.v.show() + where(a) + where(b)
						if bad[k] {
							continue
						}
						bad[k] = true
						w := a
						if !w.write {
							w = b
						}
						if why != "" {
							why = "; " + why
						}
						c.ob("ordered:"+c.P.fnName(f), c.P.Pos(posNear(w.in)), false, fmt.Sprintf("%s is accessed by %s and %s, at least one of them writes, and neither a lock nor the order of the goroutines keeps them apart%s", a.v.show(), where(a), where(b), why))
					}
				}
			}
		}
		c.ob("ordered:"+c.P.fnName(f), c.P.Pos(f.Pos()), true, "")
		ret := map[string]bool{}
		// wait groups count goroutines before they start
		for _, id := range sortedKeys(m.spawns) {
			t := m.spawns[id]
			if g, ok := t.site.(*ssa.Go); ok {
				sites[g] = true
			}
			for _, d := range m.sortedEvents() {
				if d.kind != "done" || threadOf(d.fi) != t {
					continue
				}
				counted := false
				for _, s := range chainOf(t.parent, t.site, 0) {
					cut := rCut{ins: map[ssa.Instruction]bool{}}
					for _, e := range m.sortedEvents() {
						if e.kind == "add" && e.v.key() == d.v.key() {
							for _, q := range chainOf(e.fi, e.in, e.ord) {
								if q.fi.id == s.fi.id && threadOf(e.fi) == threadOf(s.fi) {
									cut.ins[q.in] = true
								}
							}
						}
					}
					if len(cut.ins) > 0 && (cut.ins[s.in] || !reachAvoid(s.fi.fn, nil, s.in, cut)) {
						counted = true
					}
				}
				c.Ob("counted:"+c.P.fnName(t.fn), posNear(t.site), counted, "the goroutine started here lowers the counter of a WaitGroup that was not raised before it was started")
			}
			// does it outlive the activation?
			done := map[string]bool{}
			for _, a := range acc {
				if threadOf(a.fi) != t {
					continue
				}
				escapes := (a.v.root.kind == 'a' || a.v.root.kind == 'c') && a.write && len(a.locks) == 0 && a.v.root.fi != nil && tid(threadOf(a.v.root.fi)) != t.id
				if escapes {
					if _, ok := ret[a.v.root.id]; !ok {
						ret[a.v.root.id] = m.returned(f, a.v.root)
					}
					escapes = ret[a.v.root.id]
				}
				if !escapes && (a.typ == "" || a.v.root.kind != 'p' && a.v.root.kind != 'g') {
					continue
				}
				k := fmt.Sprint(a.typ, m.id(a.in), a.write, escapes)
				if done[k] {
					continue
				}
				done[k] = true
				top := t
				for q := t; q != nil; q = threadOf(q.parent) {
					top = q
				}
				ch := chainOf(top.parent, top.site, 0)
				joined := false
				for _, s := range ch {
					if !reachAvoid(s.fi.fn, s.in, nil, m.joins(s.fi, a, 0)) {
						joined = true
					}
				}
				if joined {
					continue
				}
				outs = append(outs, outAcc{a, f, false})
				if escapes {
					c.Ob("outlives:"+c.P.fnName(f), posNear(a.in), false, "%s writes %s, which the call that started the goroutine returns without waiting for it", where(a), a.v.show())
				}
			}
		}
	}
	for _, f := range gos {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok && !c.unusedCode(f) {
					c.Ob("site:"+c.P.Pos(g.Pos()), g.Pos(), sites[g], "the goroutine started here was not analysed")
				}
			}
		}
	}
	c.Anchor("goroutines", len(sites) > 0)
	c.Extra["pairs of accesses"] = npairs
	c.Extra["accesses"] = nacc
	flat := m.flatAccesses()
	var det []*rAccess
	rootOf := map[*rAccess]*ssa.Function{}
	for _, o := range outs {
		if o.a.typ != "" && o.a.v.root.kind != 'a' {
			det = append(det, o.a)
			rootOf[o.a] = o.root
		}
	}
	m.detached(det, rootOf, flat)
	m.dependencies()
	m.globals(flat)
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// returned reports whether f's activation returns (something that leads to) the object.
func (m *raceModel) returned(f *ssa.Function, r *rRoot) bool {
	seen := map[string]bool{}
	var reach func(id string) bool
	reach = func(id string) bool {
		if id == r.id {
			return true
		}
		if seen[id] {
			return false
		}
		seen[id] = true
		for k, s := range m.heap {
			if strings.HasPrefix(k, id) {
				for _, v := range s {
					if v.clos == nil && reach(v.root.id) {
						return true
					}
				}
			}
		}
		return false
	}
	for k, s := range m.heap {
		if strings.HasPrefix(k, "out:r#") {
			for _, v := range s {
				if v.clos == nil && reach(v.root.id) {
					return true
				}
			}
		}
	}
	return false
}

// flatAcc is an access seen from its function alone, with the locks (by type and field) held.
type flatAcc struct {
	*rAccess
	fn    *ssa.Function
	held  map[string]byte
	fresh bool
}

// isInit reports whether f runs when the package is initialised.
func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

type heldCall struct {
	from *ssa.Function
	held map[string]byte
}

// flatAccesses collects the accesses of all functions with the locks held at them, including
// those that all callers hold.
func (m *raceModel) flatAccesses() []*flatAcc {
	c := m.c
	var out []*flatAcc
	type callSite = heldCall
	calls := map[*ssa.Function][]callSite{}
	m.flat = true
	defer func() { m.flat = false }()
	taken := map[*ssa.Function]bool{}
	for _, f := range c.P.RepoFuncs() {
		if c.unusedCode(f) || isInit(f) {
			continue
		}
		m.activation(f)
		for _, a := range m.sortedAcc() {
			if a.fi.parent != nil {
				continue
			}
			h := map[string]byte{}
			for k, l := range a.locks {
				n := l.typ
				if l.v.root.kind == 'g' && l.v.path == "" {
					n = l.v.root.id
				}
				if n != "" {
					if strings.HasPrefix(k, "once:") {
						n = "once:" + n
					}
					h[n] = l.mode
				}
			}
			out = append(out, &flatAcc{a, f, h, a.v.root.kind == 'a'})
		}
		for g, hs := range m.calls {
			for _, h := range hs {
				calls[g] = append(calls[g], callSite{f, h})
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for i, o := range in.Operands(ops) {
					g, ok := (*o).(*ssa.Function)
					if !ok {
						continue
					}
					if ci, ok := in.(ssa.CallInstruction); ok && i == 0 && ci.Common().Value == ssa.Value(g) {
						if _, ok := in.(*ssa.Call); ok {
							continue
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && i == 0 && onlyCalled(mc) {
						continue
					}
					taken[g] = true
				}
			}
		}
	}
	entry := map[*ssa.Function]map[string]byte{}
	open := func(f *ssa.Function) bool {
		o := f.Object()
		return o == nil && f.Parent() == nil || o != nil && o.Exported() || taken[f] || len(calls[f]) == 0
	}
	for ch := true; ch; {
		ch = false
		for _, f := range c.P.RepoFuncs() {
			if open(f) {
				if entry[f] == nil {
					entry[f] = map[string]byte{}
				}
				continue
			}
			var in map[string]byte
			for _, s := range calls[f] {
				e := entry[s.from]
				if e == nil {
					continue
				}
				h := map[string]byte{}
				for k, v := range s.held {
					if k != "fresh" {
						h[k] = v
					}
				}
				for k, v := range e {
					if h[k] != 'W' {
						h[k] = v
					}
				}
				if in == nil {
					in = h
				} else {
					for k := range in {
						if h[k] == 0 {
							delete(in, k)
						} else if h[k] == 'R' {
							in[k] = 'R'
						}
					}
				}
			}
			if in != nil && (entry[f] == nil || fmt.Sprint(in) != fmt.Sprint(entry[f])) {
				entry[f] = in
				ch = true
			}
		}
	}
	for _, a := range out {
		for k, v := range entry[a.fn] {
			if a.held[k] != 'W' {
				a.held[k] = v
			}
		}
	}
	for _, cs := range calls {
		for _, s := range cs {
			for k, v := range entry[s.from] {
				if s.held[k] != 'W' {
					s.held[k] = v
				}
			}
		}
	}
	m.heldCalls = calls
	return out
}

func apart(a, b map[string]byte) bool {
	for k, v := range a {
		if w := b[k]; w != 0 && (v == 'W' || w == 'W') {
			return true
		}
	}
	return false
}

// detached checks what goroutines that outlive the call that started them share with the methods
// of the objects they work on.
func (m *raceModel) detached(det []*rAccess, rootOf map[*rAccess]*ssa.Function, flat []*flatAcc) {
	c := m.c
	byField := map[string][]*flatAcc{}
	for _, a := range flat {
		if a.typ != "" && !a.fresh {
			f, _ := fieldPart(a.typ)
			byField[f] = append(byField[f], a)
		}
	}
	// initialisers write fields that goroutines read and nothing else writes
	initial := map[*ssa.Function]bool{}
	for _, g := range det {
		ws := map[*ssa.Function]bool{}
		gf, _ := fieldPart(g.typ)
		for _, a := range byField[gf] {
			if a.write && len(a.held) == 0 {
				ws[outermost(a.fn)] = true
			}
		}
		if len(ws) == 1 && !g.write {
			for f := range ws {
				if f != outermost(g.in.Parent()) && f != outermost(rootOf[g]) {
					initial[f] = true
				}
			}
		}
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range c.P.RepoFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if s := ci.Common().StaticCallee(); s != nil {
						callers[outermost(s)] = append(callers[outermost(s)], outermost(f))
					}
				}
			}
		}
	}
	roots := map[*ssa.Function]bool{}
	for _, g := range det {
		roots[outermost(rootOf[g])] = true
	}
	// called reports whether f runs on behalf of a function that starts goroutines
	called := func(f *ssa.Function) bool {
		done := map[*ssa.Function]bool{f: true}
		work := []*ssa.Function{f}
		for len(work) > 0 {
			g := work[0]
			work = work[1:]
			if roots[g] {
				return true
			}
			for _, h := range callers[g] {
				if !done[h] {
					done[h] = true
					work = append(work, h)
				}
			}
		}
		return false
	}
	seen := map[string]bool{}
	for _, g := range det {
		gf, gs := fieldPart(g.typ)
		// the accesses of the goroutine's function with the locks that are held there
		for _, ga := range byField[gf] {
			if ga.in != g.in {
				continue
			}
			for _, o := range byField[gf] {
				if _, os := fieldPart(o.typ); !overlaps(gs, os) {
					continue
				}
				if !ga.write && !o.write || apart(ga.held, o.held) {
					continue
				}
				if top := outermost(o.fn); initial[top] && !called(top) {
					continue
				}
				k := fmt.Sprint(g.typ, m.id(ga.in), m.id(o.in))
				if seen[k] {
					continue
				}
				seen[k] = true
				c.Ob("detached:"+shortType(gf), posNear(ga.in), false, "a goroutine that outlives the call of %s accesses %s in %s and %s accesses it at %s without a common lock", c.P.fnName(rootOf[g]), shortType(gf), c.P.fnName(ga.fn), c.P.fnName(o.fn), c.P.Pos(posNear(o.in)))
			}
		}
		c.Ob("detached:"+shortType(gf), posNear(g.in), true, "")
	}
}

// onlyCalled reports whether a closure is only called right where it is made.
func onlyCalled(mc *ssa.MakeClosure) bool {
	rs := mc.Referrers()
	if rs == nil {
		return false
	}
	for _, r := range *rs {
		switch ci := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			if ci.Call.Value != ssa.Value(mc) {
				return false
			}
			for _, a := range ci.Call.Args {
				if a == ssa.Value(mc) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// outermost returns the declared function a function literal belongs to.
func outermost(f *ssa.Function) *ssa.Function {
	for f != nil && f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func shortType(s string) string { return s[strings.LastIndexByte(s, '/')+1:] }

// globals checks the writes to package-level variables after initialisation.
func (m *raceModel) globals(flat []*flatAcc) {
	c := m.c
	by := map[string][]*flatAcc{}
	for _, a := range flat {
		if a.v.root.kind == 'g' {
			if g := strings.TrimPrefix(a.v.root.id, "g:"); strings.HasPrefix(g, c.P.Mod) {
				by[g] = append(by[g], a)
			}
		}
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range c.P.RepoFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if g, ok := (*o).(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	// setter: only initialisation and other setters call it
	var setter func(f *ssa.Function, d int) bool
	setter = func(f *ssa.Function, d int) bool {
		if d > 6 {
			return false
		}
		for f.Parent() != nil {
			f = f.Parent()
		}
		if isInit(f) {
			return true
		}
		for _, g := range callers[f] {
			if !setter(g, d+1) {
				return false
			}
		}
		rs := f.Signature.Results()
		quiet := rs.Len() == 0 || rs.Len() == 1 && isErrorType(rs.At(0).Type())
		return f.Object() != nil && f.Signature.Recv() == nil && (f.Object().Exported() && quiet || !f.Object().Exported() && len(callers[f]) > 0)
	}
	for _, g := range sortedKeys(by) {
		for _, w := range by[g] {
			if !w.write {
				continue
			}
			ok := (w.v.path == "" || w.fn.Signature.Results().Len() == 0) && setter(w.fn, 0)
			other := ""
			if !ok {
				ok = true
				for _, o := range by[g] {
					if overlaps(o.v.path, w.v.path) && !apart(w.held, o.held) {
						ok = false
						other = c.P.fnName(o.fn) + " (" + c.P.Pos(posNear(o.in)) + ")"
						break
					}
				}
			}
			c.Ob("global:"+shortType(g), posNear(w.in), ok, "%s writes %s in every call and %s accesses it without a common lock", c.P.fnName(w.fn), shortType(g), other)
		}
	}
}

// dependencies looks for types of other modules that have a lock of their own but whose methods,
// as far as the module calls them, do not hold it at all accesses; their calls need a lock.
func (m *raceModel) dependencies() {
	c := m.c
	byType := map[*types.Named][]*ssa.Function{}
	for f := range m.heldCalls {
		if c.P.IsRepo(f) || f.Signature.Recv() == nil || f.Pkg == nil || !strings.Contains(f.Pkg.Pkg.Path(), ".") {
			continue
		}
		n, ok := deref(f.Signature.Recv().Type()).(*types.Named)
		if !ok {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if t := deref(st.Field(i).Type()).String(); t == "sync.Mutex" || t == "sync.RWMutex" {
				byType[n] = append(byType[n], f)
				break
			}
		}
	}
	names := map[string]*types.Named{}
	for n := range byType {
		names[n.String()] = n
	}
	for _, name := range sortedKeys(names) {
		fs := byType[names[name]]
		sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
		fs[0].Pkg.Build()
		m.inside = fs[0].Pkg
		acc := map[*ssa.Function][]*rAccess{}
		for _, f := range fs {
			if len(f.Blocks) == 0 {
				continue
			}
			m.activation(f)
			if m.over {
				continue
			}
			for _, a := range m.sortedAcc() {
				if a.typ != "" && a.v.root.kind == 'p' && a.v.root.id == "p:0" {
					acc[f] = append(acc[f], a)
				}
			}
		}
		m.inside = nil
		for i, f := range fs {
			for _, g := range fs[i:] {
				var x *rAccess
				for _, a := range acc[f] {
					for _, b := range acc[g] {
						if (a.write || b.write) && a.typ == b.typ && !lockApart(a.locks, b.locks) {
							x = a
						}
					}
				}
				ok, site := true, ""
				if x != nil {
					for _, s := range m.heldCalls[f] {
						for _, t := range m.heldCalls[g] {
							if s.held["fresh"] == 0 && t.held["fresh"] == 0 && !apart(s.held, t.held) {
								ok = false
								site = c.P.fnName(s.from) + " and " + c.P.fnName(t.from)
							}
						}
					}
				}
				fld := ""
				pos := token.NoPos
				if x != nil {
					fld, _ = fieldPart(x.typ)
					pos = posNear(x.in)
				}
				c.Ob("calls:"+c.P.fnName(f)+","+g.Name(), pos, ok, "%s call %s and %s without a common lock, but those access %s without the lock of %s", site, f.Name(), g.Name(), shortType(fld), shortType(name))
			}
		}
	}
}

func lockApart(a, b rLocks) bool {
	for _, p := range a {
		for _, q := range b {
			if p.typ != "" && p.typ == q.typ && (p.mode == 'W' || q.mode == 'W') {
				return true
			}
		}
	}
	return false
}
