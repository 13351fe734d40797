package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Maps of a known shape: the memory cell #keys(m) holds the list of the keys of m while all of
// them are known. Ranging over such a map runs once per key.

func (x *Exec) keysCell(m *Term) *Term { return x.T.mk(OpCall, "#keys", 0, nil, nil, m) }

// mapKeys lists the keys of m if all of them are known.
func (x *Exec) mapKeys(st *State, m *Term) ([]*Term, bool) {
	if m.isNilConst() {
		return nil, true
	}
	l, ok := st.mem[x.keysCell(m)]
	if !ok {
		return nil, false
	}
	return l.args, true
}

// SetKeys gives m a known shape.
func (x *Exec) SetKeys(st *State, m *Term, keys ...*Term) {
	st.mem[x.keysCell(m)] = x.T.mk(OpList, "", 0, nil, nil, keys...)
	for _, k := range keys {
		st.facts[x.T.Has(m, k)] = true
	}
	delete(st.facts, x.T.Empty(m))
	st.facts[x.T.Empty(m)] = len(keys) == 0
}

// hasKey decides whether k is among keys: (value, known).
func (x *Exec) hasKey(st *State, keys []*Term, k *Term) (bool, bool) {
	all := true
	for _, o := range keys {
		if x.Same(st, o, k) {
			return true, true
		}
		if !x.distinct(st, o, k) {
			all = false
		}
	}
	return false, all
}

func (x *Exec) distinct(st *State, a, b *Term) bool {
	e := x.T.Eq(a, b)
	if e.isConst("false") {
		return true
	}
	v, ok := x.Known(st, e)
	return ok && !v
}

// mapStore keeps the shape of m up to date for m[k] = ...
func (x *Exec) mapStore(st *State, m, k *Term) {
	keys, ok := x.mapKeys(st, m)
	if !ok || m.isNilConst() {
		return
	}
	has, known := x.hasKey(st, keys, k)
	switch {
	case !known:
		delete(st.mem, x.keysCell(m))
	case !has:
		st.mem[x.keysCell(m)] = x.T.mk(OpList, "", 0, nil, nil, append(append([]*Term(nil), keys...), k)...)
	}
}

func (x *Exec) mapDelete(st *State, m, k *Term) {
	keys, ok := x.mapKeys(st, m)
	if !ok {
		return
	}
	has, known := x.hasKey(st, keys, k)
	switch {
	case !known:
		delete(st.mem, x.keysCell(m))
	case has:
		var n []*Term
		for _, o := range keys {
			if !x.Same(st, o, k) {
				n = append(n, o)
			}
		}
		st.mem[x.keysCell(m)] = x.T.mk(OpList, "", 0, nil, nil, n...)
	}
}

// knownRange reports whether the loop of header b ranges over a map of a known shape.
func (x *Exec) knownRange(st *State, b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		n, ok := in.(*ssa.Next)
		if !ok || n.IsString {
			continue
		}
		it, ok := st.top().env[n.Iter]
		if !ok || it.op != OpIter {
			return false
		}
		_, ok = st.mem[x.T.mk(OpCall, "#iter", 0, nil, nil, it)]
		return ok
	}
	return false
}

// startRange prepares the iteration over a map of a known shape.
func (x *Exec) startRange(st *State, it *Term) {
	cell := x.T.mk(OpCall, "#iter", 0, nil, nil, it)
	delete(st.mem, cell)
	if keys, ok := x.mapKeys(st, it.args[0]); ok {
		ks := append([]*Term(nil), keys...)
		if x.H.MapRev {
			for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		st.mem[cell] = x.T.mk(OpList, "", 0, nil, nil, ks...)
	}
}

// knownNext takes the next key of a map of a known shape.
func (x *Exec) knownNext(st *State, in *ssa.Next, it *Term) bool {
	T := x.T
	cell := T.mk(OpCall, "#iter", 0, nil, nil, it)
	rest, ok := st.mem[cell]
	if !ok {
		return false
	}
	m := it.args[0]
	ks := rest.args
	// keys deleted since the start are not visited any more
	if keys, ok := x.mapKeys(st, m); ok {
		for len(ks) > 0 {
			if has, known := x.hasKey(st, keys, ks[0]); known && !has {
				ks = ks[1:]
				continue
			}
			break
		}
	}
	if len(ks) == 0 {
		delete(st.mem, cell)
		tu := in.Type().(*types.Tuple)
		st.top().env[in] = T.mk(OpTuple, "", 0, nil, nil, T.Bool(false), zeroOr(T, tu.At(1).Type()), zeroOr(T, tu.At(2).Type()))
		return true
	}
	st.mem[cell] = T.mk(OpList, "", 0, nil, nil, ks[1:]...)
	st.top().env[in] = T.mk(OpTuple, "", 0, nil, nil, T.Bool(true), ks[0], x.load(st, T.Elem(m, ks[0])))
	return true
}

func zeroOr(T *Terms, t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return T.Nil()
	}
	return T.Zero(t)
}
