package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nilModel decides dereferences of values that may be absent.
type nilOb struct {
	key    string
	pos    token.Pos
	ok     bool
	detail string
}

// nilRun is what the last run of a function showed.
type nilRun struct {
	obs   []nilOb
	calls map[string]bool // names of the functions and methods it depends on
	x     *Exec
	paths int
}

type nilModel struct {
	c        *C
	requires map[*ssa.Function]map[int]bool // parameters that must not be nil
	mayNil   map[*ssa.Function]map[int]bool // results that may be nil without an error
	impls    map[string][]*ssa.Function     // methods by name, for calls of interfaces
	callee   map[*Term][]*ssa.Function
	looks    map[*ssa.Function]bool
	failNil  map[*ssa.Function]map[int]bool // results that may be nil if the function reports failure
	results  map[*Term]*Term                // results of calls, by call
	foreign  map[*Term]bool                 // calls of functions outside of the repository
	inlined  map[string]bool
	args     []*Term
	facts    map[*Term]bool
	obs      []nilOb
	runs     map[*ssa.Function]*nilRun
	cur      *ssa.Function
	fns      []*ssa.Function
	changed  map[string]bool // names of functions and methods whose summaries changed
}

func hasLoop(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// opaque functions are described by what they require and may return; the others decide about
// optional values.
func (m *nilModel) opaque(f *ssa.Function) bool {
	if f.Parent() != nil || !m.c.P.IsRepo(f) {
		return false
	}
	if hasLoop(f) || len(f.Blocks) > 25 {
		return true
	}
	return !m.mentions(f) && len(m.mayNil[f]) == 0
}

// mentions reports whether f looks at optional values.
func (m *nilModel) mentions(f *ssa.Function) bool {
	if v, ok := m.looks[f]; ok {
		return v
	}
	m.looks[f] = false
	v := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var s *types.Struct
			i := 0
			switch in := in.(type) {
			case *ssa.FieldAddr:
				s, i = structOf(deref(in.X.Type())), in.Field
			case *ssa.Field:
				s, i = structOf(in.X.Type()), in.Field
			}
			if s != nil && m.claim(s.Field(i)) != "" {
				v = true
			}
		}
	}
	m.looks[f] = v
	return v
}

// claim names the optional claim that a field holds.
func (m *nilModel) claim(f *types.Var) string {
	if _, ptr := f.Type().Underlying().(*types.Pointer); !ptr {
		return ""
	}
	if tag, ok := m.c.fieldTag(f); ok {
		if j, ok := reflect.StructTag(tag).Lookup("json"); ok && j != "-" {
			return "claim " + strings.Split(j, ",")[0]
		}
	}
	return ""
}

// optional reports whether t is a pointer that a peer may leave out.
func (m *nilModel) optional(t *Term) string {
	for t.op == OpSnap && len(t.args) == 1 {
		t = t.args[0]
	}
	switch t.op {
	case OpSel:
		f, ok := t.obj.(*types.Var)
		if !ok || !f.IsField() {
			return ""
		}
		return m.claim(f)
	case OpCall, OpRes:
		call, i := t, 0
		if t.op == OpRes {
			call, i = t.args[0], t.num
		}
		for _, f := range m.callee[call] {
			if m.mayNil[f][i] {
				return "result of " + m.c.P.fnName(f)
			}
		}
	}
	return ""
}

// relevant reports whether a fact may tell whether a pointer is nil.
func (m *nilModel) relevant(f *Term) bool {
	if v, ok := m.facts[f]; ok {
		return v
	}
	hit := false
	var look func(u *Term)
	look = func(u *Term) {
		for u.op == OpSnap && len(u.args) == 1 {
			u = u.args[0]
		}
		switch {
		case u.op == OpParam || u.op == OpSel:
			if u.typ != nil {
				if _, ptr := u.typ.Underlying().(*types.Pointer); ptr && (u.op == OpParam || m.optional(u) != "") {
					hit = true
				}
			}
		case u.op == OpCall || u.op == OpRes:
			if isErrorType(u.typ) {
				hit = true
			}
			if u.op == OpRes {
				u = u.args[0]
			}
			for _, g := range m.callee[u] {
				if len(m.mayNil[g]) > 0 || len(m.failNil[g]) > 0 {
					hit = true
				}
			}
			hit = hit || m.foreign[u]
		default:
			for _, a := range u.args {
				look(a)
			}
		}
	}
	look(f)
	m.facts[f] = hit
	return hit
}

// unchecked reports whether t is a result that may be nil as the call that made it may have
// failed in st.
func (m *nilModel) unchecked(x *Exec, st *State, t *Term) string {
	if t.op != OpRes {
		return ""
	}
	call := t.args[0]
	res := m.results[call]
	name := ""
	for _, f := range m.callee[call] {
		if m.failNil[f][t.num] {
			name = m.c.P.fnName(f)
		}
	}
	if name == "" && m.foreign[call] {
		name = call.str
	}
	if name == "" || res == nil {
		return ""
	}
	for _, r := range res.args {
		switch {
		case isErrorType(r.typ) && x.Proves(st, m.c.T.IsNil(r), true), r.typ != nil && types.Identical(r.typ.Underlying(), types.Typ[types.Bool]) && x.Proves(st, r, true):
			return ""
		}
	}
	return "result of " + name + ", which may have failed,"
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func (m *nilModel) need(x *Exec, st *State, pos token.Pos, t *Term, what string) {
	c, T := m.c, m.c.T
	for t.op == OpSnap && len(t.args) == 1 {
		t = t.args[0]
	}
	if x.Proves(st, T.IsNil(t), false) {
		if why := m.optional(t); why != "" {
			p := c.P.Fset.Position(pos)
			m.obs = append(m.obs, nilOb{fmt.Sprintf("nil:%s:%s:%d:%d", c.P.fnName(m.cur), p.Filename, p.Line, p.Column), pos, true, why})
		}
		return
	}
	if t.op == OpParam {
		for i, p := range m.cur.Params {
			if _, ptr := p.Type().Underlying().(*types.Pointer); ptr && i < len(m.args) && t == m.args[i] {
				if m.requires[m.cur] == nil {
					m.requires[m.cur] = map[int]bool{}
				}
				if !m.requires[m.cur][i] {
					m.requires[m.cur][i] = true
					m.changed[baseName(c.P.fnName(m.cur))] = true
				}
			}
		}
		return
	}
	why := m.optional(t)
	if why == "" {
		why = m.unchecked(x, st, t)
	}
	if t.isNilConst() {
		why = "nothing"
	}
	if why != "" {
		m.obs = append(m.obs, nilOb{"nil:" + c.P.fnName(m.cur), pos, false, fmt.Sprintf("%s: %s is dereferenced but may be absent: %v%s", what, why, t, c.Path(st))})
	}
}

func (m *nilModel) run(fn *ssa.Function) {
	c, T := m.c, m.c.T
	m.cur, m.obs, m.facts = fn, nil, map[*Term]bool{}
	h := &Hooks{Pin: func(g *Term) bool {
		for _, f := range m.callee[g] {
			if len(m.mayNil[f]) > 0 {
				return true
			}
		}
		return false
	}, Strict: true, Reenter: 1, MaxSteps: 6000000, Relevant: m.relevant}
	h.Opaque = func(f *ssa.Function, n string) bool { return m.opaque(f) }
	h.OnDeref = func(x *Exec, st *State, in ssa.Instruction, ptr *Term) {
		var v ssa.Value
		switch in := in.(type) {
		case *ssa.UnOp:
			v = in.X
		case *ssa.FieldAddr:
			v = in.X
		}
		switch v.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
			return // the address of a variable
		}
		m.need(x, st, posNear(in), ptr, "here")
	}
	h.OnCall = func(x *Exec, st *State, ev *CallEvent) {
		if ev.Fn != nil && !c.P.IsRepo(ev.Fn) && ev.Fn.Signature.Recv() != nil && len(ev.Addrs) > 0 {
			if _, ptr := ev.Fn.Signature.Recv().Type().(*types.Pointer); ptr && ev.Fn.Synthetic == "" {
				if a := ev.Addrs[0]; a.op == OpSel && m.optional(a) != "" || a.op == OpRes || a.isNilConst() {
					m.need(x, st, posNear(ev.Instr), a, "in "+c.P.fnName(ev.Fn))
				}
			}
		}
		if ev.Fn == nil || !m.opaque(ev.Fn) {
			return
		}
		for i := range m.requires[ev.Fn] {
			if i < len(ev.Addrs) {
				m.need(x, st, posNear(ev.Instr), ev.Addrs[i], "in "+c.P.fnName(ev.Fn))
			}
		}
	}
	h.OnResult = func(x *Exec, st *State, ev *CallEvent, res *Term) {
		call := res
		if res.op == OpTuple {
			if len(res.args) == 0 {
				return
			}
			call = res.args[0].args[0]
		}
		if res.op == OpTuple {
			m.results[call] = res
		}
		if ev.Fn != nil {
			if m.c.P.IsRepo(ev.Fn) {
				m.callee[call] = []*ssa.Function{ev.Fn}
			} else {
				m.foreign[call] = true
			}
			return
		}
		if cc := ev.Instr.Common(); cc.IsInvoke() && cc.Method.Pkg() != nil && strings.HasPrefix(cc.Method.Pkg().Path(), c.P.Mod) {
			m.callee[call] = m.impls[cc.Method.Name()]
		}
	}
	x := NewExec(c.P, T, h)
	m.args = x.EntryArgs(fn)
	var free []*Term
	for i, v := range fn.FreeVars {
		free = append(free, x.Param(fmt.Sprintf("free%d:%s", i, v.Name()), v.Type()))
	}
	outs := x.exec(fn, m.args, free, NewState(), nil, nil)
	for n := range x.Inlined {
		m.inlined[n] = true
	}
	r := &nilRun{obs: m.obs, calls: map[string]bool{}, x: x}
	m.runs[fn] = r
	for n := range x.Inlined {
		r.calls[baseName(n)] = true
	}
	for n := range x.OpaqueSet {
		r.calls[baseName(n)] = true
	}
	res := fn.Signature.Results()
	errT := types.Universe.Lookup("error").Type()
	for _, o := range outs {
		if o.panic {
			continue
		}
		r.paths++
		failed := false
		for i := 0; i < res.Len(); i++ {
			v := c.resOf(o, i)
			switch {
			case types.Identical(res.At(i).Type(), errT):
				failed = failed || !v.isNilConst() && !x.Proves(o.st, T.IsNil(v), true)
			case types.Identical(res.At(i).Type().Underlying(), types.Typ[types.Bool]):
				failed = failed || v == T.Bool(false)
			}
		}
		if failed {
			for i := 0; i < res.Len(); i++ {
				if _, ptr := res.At(i).Type().Underlying().(*types.Pointer); ptr && !x.Proves(o.st, T.IsNil(c.resOf(o, i)), false) && !m.failNil[fn][i] {
					if m.failNil[fn] == nil {
						m.failNil[fn] = map[int]bool{}
					}
					m.failNil[fn][i] = true
					m.changed[baseName(c.P.fnName(m.cur))] = true
				}
			}
			continue
		}
		for i := 0; i < res.Len(); i++ {
			if _, ptr := res.At(i).Type().Underlying().(*types.Pointer); !ptr {
				continue
			}
			v := c.resOf(o, i)
			if (v.isNilConst() || m.optional(v) != "" && !x.Proves(o.st, T.IsNil(v), false)) && !m.mayNil[fn][i] {
				if m.mayNil[fn] == nil {
					m.mayNil[fn] = map[int]bool{}
				}
				m.mayNil[fn][i] = true
				m.changed[baseName(c.P.fnName(m.cur))] = true
			}
		}
	}
}

// fieldTag returns the tag of a field of a struct of the repository.
func (c *C) fieldTag(f *types.Var) (string, bool) {
	if c.tags == nil {
		c.tags = map[*types.Var]string{}
		for _, p := range c.P.Pkgs {
			for _, n := range p.Types.Scope().Names() {
				o, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				if s, ok := o.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						c.tags[s.Field(i)] = s.Tag(i)
					}
				}
			}
		}
	}
	t, ok := c.tags[f]
	return t, ok
}

func runNil(c *C) {
	m := &nilModel{c: c, requires: map[*ssa.Function]map[int]bool{}, mayNil: map[*ssa.Function]map[int]bool{}, impls: map[string][]*ssa.Function{}, callee: map[*Term][]*ssa.Function{}, looks: map[*ssa.Function]bool{}, inlined: map[string]bool{}, failNil: map[*ssa.Function]map[int]bool{}, runs: map[*ssa.Function]*nilRun{}, results: map[*Term]*Term{}, foreign: map[*Term]bool{}}
	var closures []*ssa.Function
	for _, f := range c.P.RepoFuncs() {
		if f.Synthetic != "" {
			continue
		}
		file := c.P.Fset.Position(f.Pos()).Filename
		if strings.HasPrefix(filepath.Base(file), "mock_") || strings.Contains(file, "/generators/") || strings.Contains(file, "/examples/") || strings.HasSuffix(file, "_generated.go") {
			continue
		}
		if f.Parent() != nil {
			closures = append(closures, f)
			continue
		}
		m.fns = append(m.fns, f)
		if f.Signature.Recv() != nil {
			m.impls[f.Name()] = append(m.impls[f.Name()], f)
		}
	}
	pending := append([]*ssa.Function{}, m.fns...)
	for round := 0; round < 8 && len(pending) > 0; round++ {
		m.changed = map[string]bool{}
		sort.Slice(pending, func(i, j int) bool { return c.P.fnName(pending[i]) < c.P.fnName(pending[j]) })
		for _, f := range pending {
			m.run(f)
		}
		pending = nil
		if round == 0 {
			// function literals that run outside of the function they are written in
			for _, f := range closures {
				if !m.inlined[c.P.fnName(f)] {
					m.fns = append(m.fns, f)
					pending = append(pending, f)
				}
			}
		}
		for f, r := range m.runs {
			for n := range r.calls {
				if m.changed[n] {
					pending = append(pending, f)
					break
				}
			}
		}
	}
	c.Ob("fixpoint", token.NoPos, len(pending) == 0, "the summaries of the functions do not stabilize")
	derefs := 0
	for _, f := range m.fns {
		r := m.runs[f]
		c.Done(r.x, c.P.fnName(f))
		c.Paths += r.paths
		for _, o := range r.obs {
			derefs++
			c.Ob(o.key, o.pos, o.ok, "%s", o.detail)
		}
	}
	c.Ob("derefs", token.NoPos, derefs >= 10, "only %d dereferences of optional values found", derefs)
}

// baseName is the last part of the name of a function or method.
func baseName(n string) string { return n[strings.LastIndex(n, ".")+1:] }

func init() {
	register(&Check{
		ID: "C34", Title: "Absent optional claims never cause a panic", Min: 20,
		Technique: "path-sensitive nilness analysis with interprocedural summaries to a fixed point",
		Rule:      "path-sensitive interpretation of every function of the repository (including function literals, where they run) with summaries of the functions it calls: before a pointer valued claim, a result that may be absent without an error, or a result of a call that may have failed is dereferenced, the path establishes that it is present; a function that uses a parameter unconditionally is only called with values that are present; the summaries are iterated to a fixed point",
		Run:       runNil,
	})
}

// posNear is the position of in, or of an instruction close to it.
func posNear(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	if u, ok := in.(*ssa.UnOp); ok && u.X.Pos().IsValid() {
		return u.X.Pos()
	}
	best, seen := token.NoPos, false
	for _, o := range in.Block().Instrs {
		if o == in {
			seen = true
		}
		if o.Pos().IsValid() {
			best = o.Pos()
			if seen {
				break
			}
		}
	}
	return best
}
