package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lists follows slices that loops build element by element, by appending or
// by assigning to the elements of a slice made in advance. Describe names an
// element in the state at the end of the iteration that produced it; "src:ID"
// stands for "the element of list ID at the loop's own index, transformed as
// the rule expects".
type Lists struct {
	e        *Engine
	describe func(st *State, v *Term) string
	by       map[*Term]map[string]bool // phi or made slice -> descriptions of its elements
	loop     map[*Term]*LoopIter
	iters    map[string]int // loop -> iterations seen
	writes   map[*Term]int  // made slice -> iterations that assigned one element
}

func newLists(e *Engine, describe func(*State, *Term) string) *Lists {
	return &Lists{e: e, describe: describe, by: map[*Term]map[string]bool{}, loop: map[*Term]*LoopIter{}, iters: map[string]int{}, writes: map[*Term]int{}}
}

// isWrite reports an assignment to an element of a slice made in advance.
func (l *Lists) isWrite(ev *Event) bool {
	if ev.Kind != "store" {
		return false
	}
	a := ev.Args[0]
	for a.op == "fa" {
		a = a.args[0]
	}
	return a.op == "ia" && a.args[0].op == "mk"
}

func (l *Lists) add(k *Term, d string) {
	if l.by[k] == nil {
		l.by[k] = map[string]bool{}
	}
	l.by[k][d] = true
}

func (l *Lists) iter(st *State, it *LoopIter) {
	e := l.e
	key := loopName(it.Loop, it.Ctx)
	l.iters[key]++
	for phi, v := range it.Vals {
		if _, ok := phi.typ.Underlying().(*types.Slice); !ok {
			continue
		}
		l.loop[phi] = it
		if v == phi {
			l.add(phi, "skipped")
			continue
		}
		b, ps := e.appendedTo(v, phi)
		if b != phi || len(ps) != 1 || ps[0].val == nil {
			l.add(phi, "other")
			continue
		}
		l.add(phi, l.describe(st, ps[0].val))
	}
	for h := range e.MemIn { // the same for lists in memory
		if h.op != "loopmem" || h.ctx != it.Ctx || h.site.Block() != it.Loop.header || h.typ == nil {
			continue
		}
		if _, ok := h.typ.Underlying().(*types.Slice); !ok {
			continue
		}
		v := st.mem[h.args[0]]
		l.loop[h] = it
		if v == h {
			l.add(h, "skipped")
		} else if v == nil {
			l.add(h, "other")
		} else if b, ps := e.appendedTo(v, h); b != h || len(ps) != 1 || ps[0].val == nil {
			l.add(h, "other")
		} else {
			l.add(h, l.describe(st, ps[0].val))
		}
	}
	seen := map[*Term]bool{}
	for _, i := range it.Items {
		if i.Ev == nil || !l.isWrite(i.Ev) {
			continue
		}
		a := i.Ev.Args[0]
		for a.op == "fa" {
			a = a.args[0]
		}
		mk := a.args[0]
		if _, ok := e.elemIndex(a.args[1]); !ok {
			l.add(mk, "other")
			continue
		}
		if seen[mk] {
			continue
		}
		seen[mk] = true
		l.writes[mk]++
		l.loop[mk] = it
		l.add(mk, l.describe(st, e.peek(st, a, deref(a.typ))))
	}
}

// source takes a list apart: it reports the list whose elements, all of them
// and in order, t's elements were made from, and the description, which must
// be want (or "src:ID" of the source itself).
func (l *Lists) source(st *State, t *Term, src *Term, want ...string) (desc string, ok bool) {
	e := l.e
	for t.op == "slice" && len(t.args) > 2 && (t.args[1].isNil() || e.isZero(st, t.args[1])) && (t.args[2].isNil() || t.args[2] == e.T.Len(t.args[0])) {
		t = t.args[0]
	}
	if e.empty(st, t) {
		if e.empty(st, src) {
			return "empty", true
		}
		return "", false
	}
	var it *LoopIter
	switch {
	case t.op == "loopphi":
		it = l.loop[t]
		if it == nil || len(e.PhiIn[t]) != 1 {
			return "not built by a loop", false
		}
		for v := range e.PhiIn[t] {
			if !e.empty(st, v) && !e.lenZero(v) {
				return "does not start empty", false
			}
		}
	case t.op == "loopmem":
		it = l.loop[t]
		if it == nil {
			return "not built by a loop", false
		}
		for v := range e.MemIn[t] {
			if b, _ := e.appendedTo(v, t); b != t && !e.empty(st, v) && !e.lenZero(v) {
				return "does not start empty", false
			}
		}
	case t.op == "mk":
		it = l.loop[t]
		if it == nil {
			return "not filled by a loop", false
		}
		if e.T.Len(t) != e.T.Len(src) {
			return "has another length", false
		}
		if l.writes[t] != l.iters[loopName(it.Loop, it.Ctx)] {
			return "some iterations leave an element unset", false
		}
	default:
		return "not recognised", false
	}
	if !e.walked(st, it.Loop, it.Ctx, src) {
		return "does not cover the whole list", false
	}
	if len(l.by[t]) != 1 {
		var ds []string
		for d := range l.by[t] {
			ds = append(ds, d)
		}
		sortStrings(ds)
		return strings.Join(ds, " or "), false
	}
	for d := range l.by[t] {
		desc = d
	}
	if len(want) == 0 {
		want = []string{fmt.Sprintf("src:%d", src.id)}
	}
	return desc, desc == want[0]
}

// ---- access paths ----

// at takes one step back from a value read from memory, to the address,
// whatever the version of memory.
func at(t *Term) *Term {
	t = t.origin()
	switch t.op {
	case "load", "havoc", "loopmem":
		return t.args[0]
	}
	return nil
}

// fieldPath takes a value apart that was read through fields and pointers:
// the base and the names of the fields, outermost last.
func fieldPath(t *Term) (base *Term, path []string) {
	t = t.origin()
	if t.op == "field" {
		b, p := fieldPath(t.args[0])
		return b, append(p, fieldLabel(t))
	}
	a := at(t)
	if a == nil {
		return t, nil
	}
	return addrPath(a)
}

func addrPath(a *Term) (base *Term, path []string) {
	switch a.op {
	case "fa":
		b, p := addrPath(a.args[0])
		return b, append(p, fieldLabel(a))
	case "load", "havoc", "loopmem":
		b, p := fieldPath(a)
		return b, append(p, "*")
	}
	return a, nil
}

func pathIs(t, base *Term, path string) bool {
	b, p := fieldPath(t)
	return b == base && strings.Join(p, ".") == path
}

func copiedFrom(e *Engine, st *State, t *Term) *Term {
	if b, ps := e.appended(t); len(ps) == 1 && ps[0].slice != nil && (e.empty(st, b) || e.lenZero(b)) {
		return ps[0].slice
	}
	if t.op == "call" && (t.aux == "bytes.Clone" || t.aux == "slices.Clone") {
		return t.args[0]
	}
	return t
}

var _ ssa.Instruction
