package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Cooperative evaluation of goroutines: one that is started runs at once, if it can; one that has to
// wait is started over when its starter waits itself. Sends do not wait. This explores one schedule, so
// it decides what goroutines compute together only as far as that does not depend on the schedule.

type goStart struct {
	in   *ssa.Go
	fn   *Term
	args []*Term
	ctx  *Ctx
}

func (x *Exec) pendCell() *Term          { return x.T.mk(OpCall, "#pending", 0, nil, nil) }
func (x *Exec) queueCell(ch *Term) *Term { return x.T.mk(OpCall, "#queue", 0, nil, nil, ch) }
func (x *Exec) wgCell(wg *Term) *Term    { return x.T.mk(OpCall, "#wg", 0, nil, nil, wg) }

func (x *Exec) termList(st *State, cell *Term) []*Term {
	if l := st.mem[cell]; l != nil {
		return l.args
	}
	return nil
}

func (x *Exec) setList(st *State, cell *Term, l []*Term) {
	if len(l) == 0 {
		delete(st.mem, cell)
		return
	}
	st.mem[cell] = x.T.mk(OpList, "", 0, nil, nil, l...)
}

func isBlocked(outs []Outcome) bool {
	for _, o := range outs {
		if o.panic && o.st.aux["#blocked"] != "" {
			return true
		}
	}
	return false
}

// spawn runs a goroutine, now or later.
func (x *Exec) spawn(st *State, in *ssa.Go, fn *Term, args []*Term, ctx *Ctx) []Outcome {
	outs := x.call(st.clone(), in, fn, args, ctx)
	if !isBlocked(outs) {
		return outs
	}
	x.goTable = append(x.goTable, goStart{in, fn, args, ctx})
	st = st.clone()
	g := x.T.mk(OpTuple, "go", len(x.goTable)-1, nil, nil, append([]*Term{fn}, args...)...)
	x.setList(st, x.pendCell(), append(append([]*Term(nil), x.termList(st, x.pendCell())...), g))
	return []Outcome{{st: st}}
}

// await continues when ready holds; goroutines that wait are tried meanwhile. Where that never
// happens, the outcome is a panic with the mark #blocked.
func (x *Exec) await(st *State, ready func(*State) bool) (outs []Outcome) {
	work := []*State{st}
	for len(work) > 0 && !x.abort {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if ready(s) {
			outs = append(outs, Outcome{st: s})
			continue
		}
		moved := false
		pend := x.termList(s, x.pendCell())
		for i, p := range pend {
			g := x.goTable[p.num]
			s2 := s.clone()
			x.setList(s2, x.pendCell(), append(append([]*Term(nil), pend[:i]...), pend[i+1:]...))
			res := x.call(s2, g.in, p.args[0], p.args[1:], g.ctx)
			if isBlocked(res) {
				continue
			}
			for _, o := range res {
				if o.panic {
					outs = append(outs, o)
				} else {
					o.st.ownTop()
					work = append(work, o.st)
				}
			}
			moved = true
			break
		}
		if !moved {
			s = s.clone()
			s.aux["#blocked"] = "1"
			outs = append(outs, Outcome{st: s, panic: true})
		}
	}
	return outs
}

// chanOp evaluates a send or receive; the results of a receive are stored in the environment.
func (x *Exec) chanOp(st *State, in ssa.Instruction, ctx *Ctx) []Outcome {
	T := x.T
	switch in := in.(type) {
	case *ssa.Send:
		ch := unMk(x.value(st, in.Chan))
		q := x.termList(st, x.queueCell(ch))
		st = st.clone()
		if len(q) > 0 && q[len(q)-1].op == OpTuple && q[len(q)-1].str == "closed" {
			return []Outcome{{st: st, panic: true}}
		}
		if x.H.OnSend != nil {
			x.H.OnSend(x, st, in, x.value(st, in.X))
		}
		x.setList(st, x.queueCell(ch), append(append([]*Term(nil), q...), x.value(st, in.X)))
		return []Outcome{{st: st}}
	case *ssa.UnOp:
		ch := unMk(x.value(st, in.X))
		outs := x.await(st, func(s *State) bool { return len(x.termList(s, x.queueCell(ch))) > 0 })
		for i := range outs {
			if outs[i].panic {
				continue
			}
			s := outs[i].st.clone()
			q := x.termList(s, x.queueCell(ch))
			v, ok := q[0], T.Const("true", types.Typ[types.Bool])
			if v.op == OpTuple && v.str == "closed" {
				et := in.X.Type().Underlying().(*types.Chan).Elem()
				v, ok = T.Zero(et), T.Const("false", types.Typ[types.Bool])
			} else {
				x.setList(s, x.queueCell(ch), q[1:])
			}
			if in.CommaOk {
				v = T.mk(OpTuple, "", 0, nil, nil, v, ok)
			}
			s.top().env[in] = v
			outs[i].st = s
		}
		return outs
	}
	return nil
}

func isRecv(in ssa.Instruction) bool {
	u, ok := in.(*ssa.UnOp)
	return ok && u.Op == token.ARROW
}

// recvLoop: the loop of header b takes elements from a channel.
func (x *Exec) recvLoop(b *ssa.BasicBlock) bool {
	if !x.H.Sched {
		return false
	}
	for _, in := range b.Instrs {
		if isRecv(in) {
			return true
		}
	}
	return false
}

// schedCall gives the synchronisation of goroutines its meaning.
func (x *Exec) schedCall(st *State, ev *CallEvent) ([]Outcome, bool) {
	T := x.T
	none := T.mk(OpTuple, "", 0, nil, nil)
	one := func(s *State) ([]Outcome, bool) { return []Outcome{{st: s, res: none}}, true }
	count := func(s *State, wg *Term) int {
		if t := s.mem[x.wgCell(wg)]; t != nil {
			n, _ := constInt(t)
			return n
		}
		return 0
	}
	switch ev.Name {
	case "sync.WaitGroup.Add", "sync.WaitGroup.Done":
		d := -1
		if len(ev.Args) == 2 {
			n, ok := constInt(ev.Args[1])
			if !ok {
				return nil, false
			}
			d = n
		}
		st = st.clone()
		n := count(st, ev.Addrs[0]) + d
		if n < 0 {
			return []Outcome{{st: st, panic: true}}, true
		}
		st.mem[x.wgCell(ev.Addrs[0])] = T.Int(n)
		return one(st)
	case "sync.WaitGroup.Wait":
		outs := x.await(st, func(s *State) bool { return count(s, ev.Addrs[0]) == 0 })
		for i := range outs {
			outs[i].res = none
		}
		return outs, true
	case "sync.Once.Do":
		cell := T.mk(OpCall, "#once", 0, nil, nil, ev.Addrs[0])
		if st.mem[cell] != nil {
			return one(st)
		}
		if f := ev.Addrs[1]; f.op == OpClos || f.op == OpFn {
			st = st.clone()
			st.mem[cell] = T.Int(1)
			return x.call(st, ev.Instr, f, nil, ev.Ctx), true
		}
	case "sync.Mutex.Lock", "sync.Mutex.Unlock", "sync.RWMutex.Lock", "sync.RWMutex.Unlock", "sync.RWMutex.RLock", "sync.RWMutex.RUnlock":
		return one(st)
	}
	return nil, false
}
