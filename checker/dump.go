package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dump prints what the analysis knows at the exits of a function (a
// development aid): "rel:Func" or "rel:Type.Method".
func dump(p *Program, name string, opaque []string) {
	rel, f, _ := strings.Cut(name, ":")
	var fn *ssa.Function
	if t, m, ok := strings.Cut(f, "."); ok {
		fn = p.Method(rel, t, m)
	} else {
		fn = p.Func(rel, f)
	}
	if fn == nil {
		fmt.Println("no such function")
		return
	}
	e := NewEngine(p)
	e.Loops = true
	e.Pure = pureReflect
	e.Opaque = func(f *ssa.Function) bool { return containsStr(opaque, f.Name()) }
	e.Keep = func(st *State, ev *Event) bool { return ev.Kind != "load" && ev.Kind != "enter" }
	e.OnExit = func(st *State, x *Exit) {
		fmt.Printf("EXIT %s at %s\n", x.Kind, p.Pos(x.Site.Pos()))
		for _, it := range st.trace {
			if it.Ev != nil {
				fmt.Printf("   %s %s %v -> %v\n", it.Ev.Kind, it.Ev.Name, it.Ev.Args, it.Ev.Res)
			}
		}
		for _, r := range x.Results {
			fmt.Printf("  = %s\n", r)
		}
		fmt.Println("  facts", e.sortedFacts(st))
	}
	e.OnIter = func(st *State, it *LoopIter) { dumpIter(e, st, it) }
	e.Run(fn, nil)
}

func dumpIter(e *Engine, st *State, it *LoopIter) {
	fmt.Printf("ITER of loop at %s\n", e.P.Pos(it.Site.Pos()))
	for _, x := range it.Items {
		if x.Ev != nil {
			fmt.Printf("   %s %s %v -> %v\n", x.Ev.Kind, x.Ev.Name, x.Ev.Args, x.Ev.Res)
		}
	}
	fmt.Println("  facts", e.sortedFacts(st))
}
