package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation of a function on the abstract stack.
type Frame struct {
	fn     *ssa.Function
	ctx    *Ctx
	env    map[ssa.Value]*Term
	defers []*deferred
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
}

// Trace is the list of branch decisions that lead to a state (for reports only).
type Trace struct {
	parent *Trace
	pos    token.Pos
	text   string
	n      int
}

// State is one abstract state: registers of the frames, memory, branch facts.
type State struct {
	frames []*Frame
	facts  map[*Term]bool
	mem    map[*Term]*Term
	hist   map[*Term]*Term
	aux    map[string]string
	old    map[*Term]bool // iteration symbols with completed iterations
	trace  *Trace
}

func NewState() *State {
	return &State{facts: map[*Term]bool{}, mem: map[*Term]*Term{}, hist: map[*Term]*Term{}, aux: map[string]string{}, old: map[*Term]bool{}}
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := &State{
		facts: make(map[*Term]bool, len(s.facts)+4),
		mem:   make(map[*Term]*Term, len(s.mem)+4),
		hist:  make(map[*Term]*Term, len(s.hist)),
		aux:   make(map[string]string, len(s.aux)),
		old:   make(map[*Term]bool, len(s.old)),
		trace: s.trace,
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.hist {
		n.hist[k] = v
	}
	for k, v := range s.aux {
		n.aux[k] = v
	}
	for k, v := range s.old {
		n.old[k] = v
	}
	n.frames = append([]*Frame(nil), s.frames...)
	if len(n.frames) > 0 {
		f := *n.frames[len(n.frames)-1]
		e := make(map[ssa.Value]*Term, len(f.env)+4)
		for k, v := range f.env {
			e[k] = v
		}
		f.env = e
		f.defers = append([]*deferred(nil), f.defers...)
		n.frames[len(n.frames)-1] = &f
	}
	return n
}

// ownTop gives the state its own copy of the top frame: the outcomes of a call share the frame
// of the caller.
func (s *State) ownTop() {
	s.frames = append([]*Frame(nil), s.frames...)
	if len(s.frames) == 0 {
		return
	}
	f := *s.frames[len(s.frames)-1]
	e := make(map[ssa.Value]*Term, len(f.env)+4)
	for k, v := range f.env {
		e[k] = v
	}
	f.env = e
	f.defers = append([]*deferred(nil), f.defers...)
	s.frames[len(s.frames)-1] = &f
}

func (s *State) note(pos token.Pos, text string) {
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &Trace{parent: s.trace, pos: pos, text: text, n: n}
}

// Outcome is one way a call can end.
type Outcome struct {
	st    *State
	res   *Term // result value; OpTuple when there are several
	panic bool
}

// CallEvent describes a call about to happen.
type CallEvent struct {
	Instr ssa.CallInstruction
	Name  string // resolved callee name; "#dyn" for unknown function values
	Fn    *ssa.Function
	Args  []*Term // resolved argument contents
	Addrs []*Term // raw argument terms
	Ctx   *Ctx
	Go    bool
}

// Hooks is what a rule plugs into the interpreter.
type Hooks struct {
	Opaque     func(fn *ssa.Function, name string) bool
	OnCall     func(x *Exec, st *State, ev *CallEvent)
	Model      func(x *Exec, st *State, ev *CallEvent) ([]Outcome, bool)
	OnResult   func(x *Exec, st *State, ev *CallEvent, res *Term) // after an opaque call
	OnStore    func(x *Exec, st *State, in ssa.Instruction, addr, val *Term)
	OnAppend   func(x *Exec, st *State, in ssa.Instruction, base *Term, elems []*Term)
	OnAccept   func(st *State)
	OnPanic    func(x *Exec, st *State, in ssa.Instruction)
	OnDeref    func(x *Exec, st *State, in ssa.Instruction, ptr *Term)
	OnBranch   func(x *Exec, st *State, in *ssa.If, atom *Term, val bool)
	Decide     func(x *Exec, st *State, atom *Term) (bool, bool)
	Relevant   func(atom *Term) bool
	Strict     bool               // drop every irrelevant fact except loop bounds
	Pin        func(g *Term) bool // generative leaves whose facts survive the end of their scope
	Pure       func(name string) bool
	Reenter    int                // how often a function literal may run within itself
	Memoryless func(s *Term) bool // loops over such containers: forget what completed iterations established
	Reflect    bool               // evaluate package reflect where dynamic types are known
	Exact      bool               // all loops are unrolled: objects made at one site stay apart
	Deep       bool               // keep long lists built by unrolled loops
	MapRev     bool               // visit the keys of maps of known shape in reverse
	Sched      bool               // run goroutines cooperatively, with channels
	OnSend     func(x *Exec, st *State, in *ssa.Send, v *Term)
	Forward    bool                                      // do not explore go statements
	GoDone     func(x *Exec, in *ssa.Go, outs []Outcome) // ends of goroutine bodies
	MaxDepth   int
	MaxSteps   int
}

// Exec is one exploration of the abstract state space from an entry function.
type Exec struct {
	P         *Program
	T         *Terms
	H         *Hooks
	Steps     int
	started   time.Time
	rtp       types.Type
	States    int
	Inlined   map[string]int
	OpaqueSet map[string]int
	Undecided []string
	Globals   map[*Term]*Term
	live      map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	stack     []*ssa.Function
	abort     bool
	goTable   []goStart
	cellVals  map[cellKey]map[int]bool // constants found in variables when a loop is repeated
	cellTerms map[cellKey]map[*Term]int
}

type cellKey struct {
	b    *ssa.BasicBlock
	ctx  *Ctx
	cell *Term
}

func NewExec(P *Program, T *Terms, h *Hooks) *Exec {
	if h == nil {
		h = &Hooks{}
	}
	if h.MaxDepth == 0 {
		h.MaxDepth = 14
	}
	if h.MaxSteps == 0 {
		h.MaxSteps = 400000
	}
	return &Exec{started: time.Now(), P: P, T: T, H: h, Inlined: map[string]int{}, OpaqueSet: map[string]int{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}}
}

func (x *Exec) undecided(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, u := range x.Undecided {
		if u == s {
			return
		}
	}
	if len(x.Undecided) < 20 {
		x.Undecided = append(x.Undecided, s)
	}
}

// All runs of one process share a time budget, so that a check always ends with an answer; a
// single run gets at most perRun of it.
var (
	processStart = time.Now()
	totalBudget  = 600 * time.Second
	perRun       = 60 * time.Second
)

func runBudget() time.Duration {
	if left := totalBudget - time.Since(processStart); left < perRun {
		return max(left, 0)
	}
	return perRun
}

// Param makes a fresh entry parameter.
func (x *Exec) Param(name string, typ types.Type) *Term {
	return x.T.mk(OpParam, name, 0, nil, typ)
}

// Run explores fn from state st with args and returns all outcomes.
func (x *Exec) Run(fn *ssa.Function, args []*Term, st *State) []Outcome {
	return x.exec(fn, args, nil, st, nil, nil)
}

// RunEntry explores fn with symbolic parameters named after the signature.
func (x *Exec) RunEntry(fn *ssa.Function) ([]*Term, []Outcome) {
	args := x.EntryArgs(fn)
	return args, x.Run(fn, args, NewState())
}

// EntryArgs makes the symbolic parameters of RunEntry.
func (x *Exec) EntryArgs(fn *ssa.Function) []*Term {
	var args []*Term
	for i, p := range fn.Params {
		n := fmt.Sprintf("%d:%s", i, p.Name())
		if i == 0 && fn.Signature.Recv() != nil {
			n = "recv"
		}
		args = append(args, x.Param(n, p.Type()))
	}
	return args
}

// ---- memory ----

func (x *Exec) load(st *State, a *Term) *Term {
	base := x.baseVal(st, a)
	if st.mem[x.keysCell(base)] != nil {
		return base // a map is a reference: its entries belong to the map, not to the variable
	}
	if base.typ != nil {
		if _, isMap := base.typ.Underlying().(*types.Map); isMap && base.op == OpParam {
			return base
		}
	}
	var ov []*Term
	sb := x.T.mk(OpBound, "base", 0, nil, nil)
	for k, v := range st.mem {
		if k != a && underAddr(k, a) {
			ov = append(ov, x.T.subst(k, a, sb), v)
		}
	}
	if len(ov) == 0 {
		return base
	}
	return x.T.Snap(base, ov)
}

// baseVal is the value at address a ignoring stores strictly below a.
func (x *Exec) baseVal(st *State, a *Term) *Term {
	if v, ok := st.mem[a]; ok {
		return v
	}
	switch a.op {
	case OpSel:
		if pv := x.stored(st, a.args[0]); pv != nil {
			return x.T.SelVar(pv, a.obj.(*types.Var))
		}
	case OpElem:
		if pv := x.stored(st, a.args[0]); pv != nil {
			return x.T.Elem(pv, a.args[1])
		}
		if z := x.freshElem(st, a); z != nil {
			return z
		}
	case OpGlobal:
		if v, ok := x.Globals[a]; ok {
			return v
		}
	case OpAlloc:
		if v := zeroOfAlloc(x.T, a); v != nil {
			return v
		}
	}
	return a
}

// freshElem is the zero value of an element of a new slice that was not stored to.
func (x *Exec) freshElem(st *State, a *Term) *Term {
	m := a.args[0]
	if !x.H.Exact || m.op != OpCall || m.str != "#make" || m.typ == nil {
		return nil
	}
	if _, ok := constInt(a.args[1]); !ok {
		return nil
	}
	sl, ok := m.typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	for k := range st.mem {
		if k.op == OpElem && k.args[0] == m {
			if _, ok := constInt(k.args[1]); !ok {
				return nil
			}
		}
	}
	return x.T.Zero(sl.Elem())
}

func zeroOfAlloc(T *Terms, a *Term) *Term {
	if a.typ == nil {
		return nil
	}
	p, ok := a.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	return T.Zero(p.Elem())
}

// stored is the explicitly stored (or zero) value at a, nil when a still holds its entry value.
func (x *Exec) stored(st *State, a *Term) *Term {
	if v, ok := st.mem[a]; ok {
		return v
	}
	switch a.op {
	case OpSel:
		if pv := x.stored(st, a.args[0]); pv != nil {
			return x.T.SelVar(pv, a.obj.(*types.Var))
		}
	case OpElem:
		if pv := x.stored(st, a.args[0]); pv != nil {
			return x.T.Elem(pv, a.args[1])
		}
	case OpAlloc:
		return zeroOfAlloc(x.T, a)
	case OpGlobal:
		if v, ok := x.Globals[a]; ok {
			return v
		}
	}
	return nil
}

func (x *Exec) store(st *State, a, v *Term) {
	for k := range st.mem {
		if k != a && underAddr(k, a) {
			delete(st.mem, k)
		}
	}
	if a.op == OpElem && a.args[0].op != OpAlloc {
		// weak update of the other elements of the same container
		for k := range st.mem {
			if k != a && k.op == OpElem && k.args[0] == a.args[0] && k.args[1] != a.args[1] {
				if k.args[1].op == OpConst && a.args[1].op == OpConst {
					continue
				}
				if eq, ok := x.Known(st, x.T.Eq(k.args[1], a.args[1])); !ok {
					st.mem[k] = x.T.Any(st.mem[k], v)
				} else if eq {
					st.mem[k] = v
				}
			}
		}
	}
	if v == a {
		delete(st.mem, a)
		return
	}
	st.mem[a] = v
}

// content resolves an address argument to what it currently holds, for calls that only read.
func (x *Exec) content(st *State, t *Term) *Term {
	switch t.op {
	case OpMk:
		c := x.content(st, t.args[0])
		if c == t.args[0] {
			return t
		}
		return c
	case OpAlloc:
		if t.typ != nil {
			if p, ok := t.typ.Underlying().(*types.Pointer); ok {
				if _, isStruct := p.Elem().Underlying().(*types.Struct); isStruct {
					return x.load(st, t)
				}
				if _, ok := st.mem[t]; ok {
					return x.load(st, t)
				}
			}
		}
		return t
	case OpSel, OpElem:
		return x.load(st, t)
	}
	return t
}

// ---- facts ----

func stripNot(t *Term) (*Term, bool) {
	pol := true
	for t.op == OpNot {
		t = t.args[0]
		pol = !pol
	}
	return t, pol
}

// eqClass returns all terms equal to t under the equality facts.
func (x *Exec) eqClass(st *State, t *Term) map[*Term]bool {
	cl := map[*Term]bool{t: true}
	for ch := true; ch; {
		ch = false
		for f, v := range st.facts {
			if v && f.op == OpEq {
				a, b := f.args[0], f.args[1]
				if cl[a] != cl[b] {
					cl[a], cl[b] = true, true
					ch = true
				}
			}
		}
	}
	return cl
}

// Same reports whether a and b are provably equal.
func (x *Exec) Same(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	return x.eqClass(st, a)[b]
}

// Known evaluates a boolean term in st: (value, known).
func (x *Exec) Known(st *State, t *Term) (bool, bool) {
	a, pol := stripNot(t)
	if a.isConst("true") {
		return pol, true
	}
	if a.isConst("false") {
		return !pol, true
	}
	if v, ok := st.facts[a]; ok {
		return v == pol, true
	}
	if v, ok := x.derive(st, a); ok {
		return v == pol, true
	}
	if x.H.Decide != nil {
		if v, ok := x.H.Decide(x, st, a); ok {
			return v == pol, true
		}
	}
	return false, false
}

// Proves reports whether t definitely has value want in st, using equalities.
func (x *Exec) Proves(st *State, t *Term, want bool) bool {
	if v, ok := x.Known(st, t); ok {
		return v == want
	}
	a, pol := stripNot(t)
	for f, v := range st.facts {
		if (v == pol) == want && f.op == a.op && f.str == a.str && f.num == a.num && len(f.args) == len(a.args) {
			ok := true
			for i := range f.args {
				if !x.Same(st, f.args[i], a.args[i]) {
					ok = false
					break
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

func (x *Exec) derive(st *State, a *Term) (bool, bool) {
	T := x.T
	switch a.op {
	case OpEq:
		cl := x.eqClass(st, a.args[0])
		if cl[a.args[1]] {
			return true, true
		}
		cr := x.eqClass(st, a.args[1])
		for l := range cl {
			for r := range cr {
				if l.op == OpConst && r.op == OpConst && l != r {
					return false, true
				}
				k := T.Eq(l, r)
				ka, pol := stripNot(k)
				if v, ok := st.facts[ka]; ok {
					return v == pol, true
				}
				if ka.isConst("true") || ka.isConst("false") {
					return ka.isConst("true") == pol, true
				}
			}
		}
		for l := range cl {
			for r := range cr {
				if e, ok := x.emptyFact(st, l); ok {
					if f, ok2 := x.emptyFact(st, r); ok2 && e != f {
						return false, true
					}
				}
			}
		}
	case OpIsNil:
		for l := range x.eqClass(st, a.args[0]) {
			n := T.IsNil(l)
			if n.isConst("true") || n.isConst("false") {
				return n.isConst("true"), true
			}
			if v, ok := st.facts[n]; ok {
				return v, true
			}
			if v, ok := st.facts[T.Empty(l)]; ok && !v {
				return false, true
			}
		}
		for f, v := range st.facts {
			if v && f.op == OpIs && f.args[0] == a.args[0] {
				return false, true
			}
		}
	case OpEmpty:
		for l := range x.eqClass(st, a.args[0]) {
			n := T.Empty(l)
			na, pol := stripNot(n)
			if na.isConst("true") || na.isConst("false") {
				return na.isConst("true") == pol, true
			}
			if v, ok := st.facts[na]; ok {
				return v == pol, true
			}
			if v, ok := st.facts[T.IsNil(l)]; ok && v {
				return true, true
			}
			for f, v := range st.facts {
				if v && f.op == OpExists && f.args[0] == l {
					return false, true
				}
				if v && f.op == OpHas && f.args[0] == l {
					return false, true
				}
				if v && f.op == OpLt && f.args[1].op == OpLen && f.args[1].args[0] == l {
					return false, true
				}
			}
		}
	case OpExists:
		if v, ok := st.facts[T.Empty(a.args[0])]; ok && v {
			return false, true
		}
		if v, ok := st.facts[T.IsNil(a.args[0])]; ok && v {
			return false, true
		}
	case OpHas:
		if v, ok := st.facts[T.Empty(a.args[0])]; ok && v {
			return false, true
		}
	case OpLt:
		if v, ok := st.facts[T.Lt(a.args[1], a.args[0])]; ok && v {
			return false, true
		}
		if x.Same(st, a.args[0], a.args[1]) {
			return false, true
		}
		if a.args[1].op == OpLen {
			if v, ok := st.facts[T.Empty(a.args[1].args[0])]; ok && v {
				return false, true
			}
			if v, ok := st.facts[T.Eq(a.args[0], T.Int(0))]; ok && v {
				if e, ok := x.Known(st, T.Empty(a.args[1].args[0])); ok && !e {
					return true, true
				}
			}
		}
	case OpBefore:
		if v, ok := st.facts[T.Before(a.args[1], a.args[0])]; ok && v {
			return false, true
		}
	case OpIs:
		for f, v := range st.facts {
			if v && f.op == OpIs && f.args[0] == a.args[0] && f != a {
				if !types.IsInterface(f.typ) && !types.IsInterface(a.typ) {
					return false, true
				}
			}
			if v && f.op == OpIsNil && f.args[0] == a.args[0] {
				return false, true
			}
		}
	}
	return false, false
}

func (x *Exec) emptyFact(st *State, t *Term) (bool, bool) {
	n, pol := stripNot(x.T.Empty(t))
	if n.isConst("true") || n.isConst("false") {
		return n.isConst("true") == pol, true
	}
	v, ok := st.facts[n]
	return v == pol, ok
}

// assume adds t == val to st; false when that contradicts what is known.
func (x *Exec) assume(st *State, t *Term, val bool) bool {
	a, pol := stripNot(t)
	v := val == pol
	if k, ok := x.Known(st, a); ok {
		if k != v {
			return false
		}
		if _, have := st.facts[a]; have {
			return true
		}
		if a.op == OpConst {
			return true
		}
	}
	st.facts[a] = v
	// exhaustion of a counted loop that never ran
	if a.op == OpLt && !v && a.args[1].op == OpLen {
		if e, ok := st.facts[x.T.Eq(a.args[0], x.T.Int(0))]; ok && e {
			st.facts[x.T.Empty(a.args[1].args[0])] = true
		}
	}
	return true
}

// ---- liveness ----

func (x *Exec) liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := x.live[fn]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
						for _, in := range s.Instrs {
							ph, ok := in.(*ssa.Phi)
							if !ok {
								break
							}
							if isReg(ph.Edges[pi]) {
								out[ph.Edges[pi]] = true
							}
						}
					}
				}
				for v := range in[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					out[v] = true
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					if _, isPhi := ins.(*ssa.Phi); !isPhi {
						delete(out, v)
					}
				}
				if _, isPhi := ins.(*ssa.Phi); isPhi {
					continue
				}
				var ops []*ssa.Value
				for _, o := range ins.Operands(ops) {
					if *o != nil && isReg(*o) {
						out[*o] = true
					}
				}
			}
			if len(out) != len(in[b]) {
				in[b] = out
				ch = true
			} else {
				for v := range out {
					if !in[b][v] {
						in[b] = out
						ch = true
						break
					}
				}
			}
		}
	}
	x.live[fn] = in
	return in
}

// ---- garbage collection and canonical keys ----

func (x *Exec) gc(st *State, extra ...*Term) {
	T := x.T
	live := map[*Term]bool{}
	addT := func(t *Term) {
		for _, g := range t.gens {
			live[g] = true
		}
	}
	for _, f := range st.frames {
		for _, t := range f.env {
			addT(t)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				addT(a)
			}
			addT(d.fn)
		}
	}
	for _, t := range extra {
		addT(t)
	}
	if x.H.Pin != nil {
		for f := range st.facts {
			for _, g := range f.gens {
				if !live[g] && x.H.Pin(g) {
					live[g] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		n := len(live)
		for k, v := range st.mem {
			if memLive(k, live) {
				addT(v)
				addT(k)
			}
		}
		for k, v := range st.hist {
			if live[k] {
				addT(v)
			}
		}
		if len(live) != n {
			ch = true
		}
	}
	for k := range st.mem {
		if !memLive(k, live) {
			delete(st.mem, k)
		}
	}
	for k := range st.hist {
		if !live[k] {
			delete(st.hist, k)
		}
	}
	isIter := func(g *Term) bool {
		b := g
		if g.op == OpOld {
			b = g.args[0]
		}
		return b.op == OpSym && (b.str == "i" || b.str == "key")
	}
	iterLive := func(g *Term) bool {
		if live[g] {
			return true
		}
		return g.op == OpOld && live[g.args[0]]
	}
	var drop []*Term
	conv := map[*Term]bool{}
	for f, v := range st.facts {
		var deadIter []*Term
		deadOther := false
		for _, g := range f.gens {
			if isIter(g) {
				if !iterLive(g) {
					if g.op == OpOld || true {
						deadIter = append(deadIter, g)
					}
				}
				continue
			}
			if live[g] {
				continue
			}
			// a call determined by an iteration symbol lives as long as the symbol does
			dep := false
			if g.op == OpCall {
				for _, h := range g.gens {
					if h != g && isIter(h) {
						dep = true
					}
				}
			}
			if !dep {
				deadOther = true
			}
		}
		if len(deadIter) == 0 && !deadOther {
			if x.H.Relevant != nil && (f.op != OpEq || x.H.Strict) && !x.H.Relevant(f) {
				if !x.structural(f) {
					drop = append(drop, f)
				}
			}
			continue
		}
		drop = append(drop, f)
		// Old(I) of the same loop is one of the dead leaves when I is
		if deadOther || len(deadIter) > 1 {
			continue
		}
		if x.H.Relevant != nil && !x.H.Relevant(f) {
			continue
		}
		g := deadIter[0]
		base := g
		if g.op == OpOld {
			base = g.args[0]
		}
		s, idx := elemOf(f, g)
		if s == nil || s.hasGen(g) {
			continue
		}
		body := f
		if !v {
			body = T.Not(f)
		}
		if g.op == OpOld {
			if !x.exhausted(st, base, s) {
				continue
			}
			e := T.ExistsIdx(s, T.Not(body), idx)
			if !e.hasGen(g) {
				conv[e] = false
			}
			continue
		}
		if x.exhausted(st, base, s) {
			continue
		}
		e := T.ExistsIdx(s, body, idx)
		if !e.hasGen(g) {
			conv[e] = true
		}
	}
	for _, f := range drop {
		delete(st.facts, f)
	}
	for f, v := range conv {
		a, pol := stripNot(f)
		if a.op == OpConst {
			continue
		}
		st.facts[a] = v == pol
	}
	for g := range st.old {
		if !live[g] {
			delete(st.old, g)
		}
	}
}

// structural facts are always kept: the loop bounds and emptiness of containers.
func (x *Exec) structural(f *Term) bool {
	switch f.op {
	case OpLt:
		return f.args[1].op == OpLen
	case OpEmpty:
		return f.args[0].op == OpParam
	case OpExists:
		return !x.H.Strict
	case OpEq:
		if x.H.Strict { // position of the first iteration
			return f.args[0].op == OpSym && f.args[0].str == "i" || f.args[1].op == OpSym && f.args[1].str == "i"
		}
		return true
	}
	return false
}

// exhausted reports whether the loop of iteration symbol g is known to have run over all of s.
func (x *Exec) exhausted(st *State, g, s *Term) bool {
	if g.str == "key" {
		v, ok := st.facts[x.T.mk(OpSym, "more", 0, g.obj, types.Typ[types.Bool])]
		return ok && !v
	}
	v, ok := st.facts[x.T.Lt(g, x.T.Len(s))]
	return ok && !v
}

// elemOf finds the container indexed by the iteration symbol g in f, and the index term.
func elemOf(f, g *Term) (s, idx *Term) {
	bad := false
	f.walk(func(t *Term) bool {
		if (t.op == OpElem || t.op == OpHas) && t.args[1].hasGen(g) && !t.args[0].hasGen(g) {
			if s == nil {
				s, idx = t.args[0], t.args[1]
			} else if idx != t.args[1] {
				bad = true
			}
		}
		return true
	})
	if s == nil && g != nil {
		b := g
		if g.op == OpOld {
			b = g.args[0]
		}
		if b.str == "key" && len(b.args) == 1 {
			return b.args[0], g
		}
	}
	if bad {
		return nil, nil
	}
	return s, idx
}

func memLive(k *Term, live map[*Term]bool) bool {
	for _, g := range k.root().gens {
		if !live[g] {
			return false
		}
	}
	return true
}

func (st *State) key() string {
	var parts []string
	for i, f := range st.frames {
		for v, t := range f.env {
			parts = append(parts, fmt.Sprintf("e%d.%s=%d", i, v.Name(), t.id))
		}
		for _, d := range f.defers {
			s := fmt.Sprintf("d%d.%d", i, d.fn.id)
			for _, a := range d.args {
				s += fmt.Sprintf(",%d", a.id)
			}
			parts = append(parts, s)
		}
	}
	for k, v := range st.mem {
		parts = append(parts, fmt.Sprintf("m%d=%d", k.id, v.id))
	}
	for k, v := range st.hist {
		parts = append(parts, fmt.Sprintf("h%d=%d", k.id, v.id))
	}
	for k, v := range st.facts {
		parts = append(parts, fmt.Sprintf("f%d=%v", k.id, v))
	}
	for k, v := range st.aux {
		parts = append(parts, "a"+k+"="+v)
	}
	for k := range st.old {
		parts = append(parts, fmt.Sprintf("o%d", k.id))
	}
	sort.Strings(parts)
	return strings.Join(parts, ";")
}

// redefine turns the current incarnation of g into "earlier incarnation" everywhere in st.
func (x *Exec) redefine(st *State, g *Term, iter bool) {
	T := x.T
	old := T.Old(g)
	refG, refOld := false, false
	var over *Term
	if iter && x.H.Memoryless != nil {
		for f, v := range st.facts {
			if v && f.op == OpLt && f.args[0].hasGen(g) && f.args[1].op == OpLen {
				over = f.args[1].args[0]
			}
		}
	}
	chk := func(t *Term) {
		if t.hasGen(g) {
			refG = true
		}
		if t.hasGen(old) {
			refOld = true
		}
	}
	for _, f := range st.frames {
		for _, t := range f.env {
			chk(t)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				chk(a)
			}
		}
	}
	for k, v := range st.mem {
		if !k.root().hasGen(g) || g.op != OpAlloc {
			chk(k)
		}
		if !k.root().hasGen(g) {
			chk(v)
		}
	}
	for _, v := range st.hist {
		chk(v)
	}
	if iter {
		refG = true
		refOld = refOld || st.old[g]
	}
	inFacts := false
	for f := range st.facts {
		if f.hasGen(g) {
			inFacts = true
			break
		}
	}
	inMem := false
	for k := range st.mem {
		if k.hasGen(g) {
			inMem = true
			break
		}
	}
	if !refG {
		if inFacts {
			for f := range st.facts {
				if f.hasGen(g) {
					delete(st.facts, f)
				}
			}
		}
		if inMem {
			for k := range st.mem {
				if k.hasGen(g) {
					delete(st.mem, k)
				}
			}
		}
		return
	}
	m := map[*Term]*Term{g: old}
	memo := map[*Term]*Term{}
	sub := func(t *Term) *Term {
		if !t.hasGen(g) {
			return t
		}
		return T.substM(t, m, memo)
	}
	for i, f := range st.frames {
		nf := *f
		nf.env = make(map[ssa.Value]*Term, len(f.env))
		for k, t := range f.env {
			nf.env[k] = sub(t)
		}
		nf.defers = nil
		for _, d := range f.defers {
			nd := *d
			nd.args = nil
			for _, a := range d.args {
				nd.args = append(nd.args, sub(a))
			}
			nf.defers = append(nf.defers, &nd)
		}
		st.frames[i] = &nf
	}
	newMem := map[*Term]*Term{}
	moved := map[*Term]*Term{}
	for k, v := range st.mem {
		nk, nv := sub(k), sub(v)
		if nk != k {
			moved[nk] = nv
		} else {
			newMem[nk] = nv
		}
	}
	for k, v := range moved {
		if o, ok := newMem[k]; ok {
			newMem[k] = T.Any(o, v)
		} else if refOld && k.root().hasGen(old) && g.op == OpAlloc {
			newMem[k] = T.Any(v, T.mk(OpSym, "unset", k.id, nil, nil))
		} else {
			newMem[k] = v
		}
	}
	if refOld && g.op == OpAlloc {
		for k, v := range newMem {
			if k.root() == old {
				if _, ok := moved[k]; !ok {
					newMem[k] = T.Any(v, T.mk(OpSym, "unset", k.id, nil, nil))
				}
			}
		}
	}
	st.mem = newMem
	nh := map[*Term]*Term{}
	for k, v := range st.hist {
		nk, nv := sub(k), sub(v)
		if o, ok := nh[nk]; ok {
			nv = T.Any(o, nv)
		}
		nh[nk] = nv
	}
	st.hist = nh
	facts := map[*Term]bool{}
	for f, v := range st.facts {
		if f.hasGen(g) {
			nf, pol := stripNot(sub(f))
			if nf.op == OpConst {
				continue
			}
			if nf.op == OpEq && iter && (nf.args[0].op == OpConst || nf.args[1].op == OpConst) {
				continue // position of an earlier iteration
			}
			if refOld {
				if o, ok := st.facts[nf]; ok && o == (v == pol) {
					facts[nf] = o
				}
				continue
			}
			facts[nf] = v == pol
			continue
		}
		if f.hasGen(old) {
			if refOld {
				continue // only kept through the intersection above
			}
			continue
		}
		facts[f] = v
	}
	st.facts = facts
	if iter {
		st.old[g] = true
		if over != nil && x.H.Memoryless(over) {
			for f := range st.facts {
				if f.hasGen(old) {
					delete(st.facts, f)
				}
			}
		}
	}
}

// loopsOf lists the headers of the natural loops that contain b.
func loopsOf(b *ssa.BasicBlock) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, h := range b.Parent().Blocks {
		if !h.Dominates(b) {
			continue
		}
		for _, p := range h.Preds {
			if h.Dominates(p) && (b == h || reachesWithout(b, p, h)) {
				out = append(out, h)
				break
			}
		}
	}
	return out
}

func reachesWithout(from, to, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{avoid: true}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if dfs(s) {
				return true
			}
		}
		return false
	}
	return dfs(from)
}

func constTerm(T *Terms, c *ssa.Const) *Term {
	if c.Value == nil {
		return T.Zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return T.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return T.Const(fmt.Sprintf("%q", constant.StringVal(c.Value)), types.Typ[types.String])
	case constant.Int:
		return T.Const(c.Value.ExactString(), types.Typ[types.Int])
	}
	return T.Const(c.Value.ExactString(), c.Type())
}
