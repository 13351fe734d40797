package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// debugMain dumps the outcomes of one function (development aid).
func debugMain(P *Program, args []string) {
	rel, name := args[0], args[1]
	if name == "init" {
		c := newC(P, &Check{ID: "debug"}, "quick")
		dumpState(c.initState(rel), nil)
		return
	}
	fn := P.Func(rel, name)
	if fn == nil {
		fmt.Println("no such function")
		os.Exit(2)
	}
	if len(args) > 2 && args[2] == "ssa" {
		fn.WriteTo(os.Stdout)
		return
	}
	opq := map[string]bool{}
	for _, a := range args[2:] {
		opq[a] = true
	}
	T := NewTerms()
	x := NewExec(P, T, &Hooks{Reflect: opq["reflect"], Opaque: func(f *ssaFn, n string) bool { return opq[n] }})
	_, outs := x.RunEntry(fn)
	for i, o := range outs {
		fmt.Printf("--- outcome %d panic=%v\n", i, o.panic)
		dumpState(o.st, o.res)
	}
	fmt.Println("steps", x.Steps, "states", x.States, "undecided", x.Undecided)
	var ks []string
	for k, n := range x.OpaqueSet {
		ks = append(ks, fmt.Sprintf("%s:%d", k, n))
	}
	sort.Strings(ks)
	fmt.Println("opaque:", strings.Join(ks, " "))
}

func dumpState(st *State, res *Term) {
	if res != nil {
		fmt.Println("  res:", res)
	}
	var l []string
	for f, v := range st.facts {
		l = append(l, fmt.Sprintf("  fact %v=%v", f, v))
	}
	for k, v := range st.mem {
		l = append(l, fmt.Sprintf("  mem %v := %v", k, v))
	}
	for k, v := range st.hist {
		l = append(l, fmt.Sprintf("  hist %v ∈ %v", k, v))
	}
	sort.Strings(l)
	for _, s := range l {
		fmt.Println(s)
	}
}
