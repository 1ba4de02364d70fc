package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C14: retention ----

func init() {
	register(&Check{
		ID: "C14",
		Rule: "obligations over every path: MemoryStore.Delete removes each element of its list, and no other key, from both the map of trees and the index of spans, in a loop that walks the whole list. " +
			"LimitStore.Collect passes annotations on only while the trace is in its set, under the lock; it adds a trace to the set only where the set is known to be smaller than the maximum, or after Delete of the ring's next entry has returned nil and that entry has left the set, and then puts the new trace into that ring entry and advances the index; on every other path set, ring and index stay as they are. " +
			"RecentStore.Collect passes annotations on only while the trace is tracked, never resets when a trace was first seen, and every key that it stops tracking is appended, in the same iteration, to a list that is handed whole to exactly one Delete, in the call or in the goroutine it starts",
		NotCover: "changes of the maximum while a limit store is in use; the time of evictions (C30); stores outside the package",
		Run:      runC14,
	})
}

func isIDs(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), "", "ID")
}

func isDelete(ev *Event) bool {
	return isIfaceMethod(ev, "Delete") && ev.Sig != nil && ev.Sig.Params().Len() > 0 && isIDs(ev.Sig.Params().At(ev.Sig.Params().Len()-1).Type())
}

// isRemoval is the deletion of a map's entry.
func isRemoval(ev *Event) bool { return ev.Kind == "builtin" && ev.Name == "delete" }

func runC14(r *R) {
	memDelete(r)
	limitCollect(r)
	recentCollect(r)
}

// ---- the memory store ----

func memDelete(r *R) {
	t := newTree(r)
	if t == nil {
		return
	}
	fn := r.P.Method("", "MemoryStore", "Delete")
	if !r.Require(fn != nil && len(fn.Params) == 2 && isIDs(fn.Params[1].Type()), "anchor", "MemoryStore.Delete(...ID)") {
		return
	}
	e := NewEngine(r.P)
	t.e = e
	e.Loops = true
	recv, ids := e.Param(fn, 0), e.Param(fn, 1)
	which := func(st *State, m *Term) string {
		// By address: the maps are never replaced here (judged below).
		for _, i := range []int{t.traces, t.spans} {
			a := e.faddr(recv, t.ms, i)
			if m == e.peek(st, a, deref(a.typ)) || at(m) == a {
				return t.ms.Underlying().(*types.Struct).Field(i).Name()
			}
		}
		return ""
	}
	e.Keep = func(st *State, ev *Event) bool { return isRemoval(ev) }
	loops := map[string]*LoopIter{}
	bad := map[string]bool{}
	judging := false
	e.OnEvent = func(st *State, ev *Event) {
		at := func(rule, f string, args ...any) {
			if judging {
				r.Violate(rule, fnLabel(ev.Fn), ev.Site.Pos(), f, args...)
			}
		}
		switch ev.Kind {
		case "builtin":
			if ev.Name == "clear" && which(st, ev.Args[0]) != "" {
				at("other-trace", "all traces are removed")
			}
			if !isRemoval(ev) || which(st, ev.Args[0]) == "" {
				if isRemoval(ev) && ev.Args[0].typ != nil && strings.HasSuffix(mapType(ev.Args[0].typ), "*"+modPath+".Trace") && e.root(st, ev.Args[0]) == recv {
					at("other-trace", "spans are removed one by one")
				}
				return
			}
			r.Count("removals", 1)
			if !e.isElem(ev.Args[1], ids) {
				at("other-trace", "a trace is removed that is not shown to be in the given list")
			}
		case "mapupdate":
			if which(st, ev.Args[0]) != "" {
				at("changed", "deleting traces adds an entry to the store")
			}
		case "store":
			for _, i := range []int{t.traces, t.spans} {
				if ev.Args[0] == e.faddr(recv, t.ms, i) {
					at("changed", "deleting traces replaces the store's map")
				}
			}
		}
	}
	// absent: the path knows that the map has no such entry.
	absent := func(st *State, i int, k *Term) bool {
		a := e.faddr(recv, t.ms, i)
		m := e.peek(st, a, deref(a.typ))
		return t.notInMap(st, m, k, m.typ.Underlying().(*types.Map).Elem())
	}
	e.OnIter = func(st *State, it *LoopIter) {
		key := loopName(it.Loop, it.Ctx)
		loops[key] = it
		done := map[string]int{}
		var k *Term
		for _, ev := range callsOf(it.Items, isRemoval) {
			if w := which(st, ev.Args[0]); w != "" && e.isElem(ev.Args[1], ids) {
				done[w]++
				k = ev.Args[1]
			}
		}
		if len(done) == 2 {
			return
		}
		// Without any removal the element must be known to be absent.
		if k == nil {
			for f := range st.facts {
				f.mentions(func(x *Term) bool {
					if k == nil && x.op == "mok" && e.isElem(x.args[1], ids) {
						k = x.args[1]
					}
					return false
				})
			}
		}
		if k != nil && (done[t.ms.Underlying().(*types.Struct).Field(t.traces).Name()] > 0 || absent(st, t.traces, k)) &&
			(done[t.ms.Underlying().(*types.Struct).Field(t.spans).Name()] > 0 || absent(st, t.spans, k) && done[t.ms.Underlying().(*types.Struct).Field(t.traces).Name()] == 0) {
			return
		}
		if len(done) == 0 && k != nil && (absent(st, t.traces, k) || absent(st, t.spans, k)) {
			return // tree and index exist together
		}
		bad[key] = true
	}
	e.OnExit = func(st *State, x *Exit) {
		if !judging || x.Kind != "return" || e.notNil(st, x.Results[0]) {
			return
		}
		r.Count("paths of MemoryStore.Delete", 1)
		if e.empty(st, ids) {
			return
		}
		ok := false
		for key, it := range loops {
			if !bad[key] && e.walked(st, it.Loop, it.Ctx, ids) {
				ok = true
			}
		}
		if !ok {
			r.Violate("not-removed", fnLabel(x.Fn), x.Site.Pos(), "deleting traces can return without having removed the tree and the spans of each given trace")
		}
	}
	e.Run(fn, nil)
	judging = true
	bad = map[string]bool{}
	r.counts["removals"] = 0
	e.visited = map[string]bool{}
	e.Run(fn, nil)
	r.Use(e)
	r.Floor("removals", 2)
	r.Floor("paths of MemoryStore.Delete", 1)
}

// ---- the limit store ----

func limitCollect(r *R) {
	p := r.P
	n := p.Named("", "LimitStore")
	fn := p.Method("", "LimitStore", "Collect")
	id := p.Named("", "SpanID")
	if !r.Require(n != nil && id != nil && fn != nil && len(fn.Params) == 3, "anchor", "LimitStore.Collect") {
		return
	}
	maxF := fieldNamed(n, "Max")
	sets := fieldsOf(n, func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && isNamed(m.Key(), "", "ID")
	})
	rings := fieldsOf(n, func(v *types.Var) bool {
		s, ok := v.Type().Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Int64 || b.Kind() == types.Uint64)
	})
	nexts := fieldsOf(n, func(v *types.Var) bool {
		b, ok := v.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0 && !v.Exported()
	})
	if !r.Require(maxF >= 0 && len(sets) == 1 && len(rings) == 1 && len(nexts) == 1, "anchor", "LimitStore's maximum, its set of traces, its ring of trace IDs and the ring's next index") {
		return
	}
	e := NewEngine(p)
	recv := e.Param(fn, 0)
	trace := e.fieldOf(e.Param(fn, 1), id, fieldNamed(id, "Trace"))
	addr := func(i int) *Term { return e.faddr(recv, n, i) }
	get := func(st *State, i int) *Term { a := addr(i); return e.peek(st, a, deref(a.typ)) }
	// first is the value of a field when the lock was taken.
	first := func(st *State, i int) *Term {
		id, _ := strconv.Atoi(st.notes[fmt.Sprint("first", i)])
		if id == 0 {
			return get(st, i)
		}
		return e.T.all[id-1]
	}
	isSet := func(st *State, m *Term) bool { return m == get(st, sets[0]) }
	member := func(st *State, k *Term) *Term {
		return e.peek(st, e.T.mk("mok", "", types.NewPointer(types.Typ[types.Bool]), nil, nil, get(st, sets[0]), k), types.Typ[types.Bool])
	}
	var limit0 *Term
	isRing := func(a *Term) bool { return a.op == "ia" && isRingOf(a.args[0], addr(rings[0])) }
	e.Keep = func(st *State, ev *Event) bool {
		switch ev.Kind {
		case "mapupdate":
			return isSet(st, ev.Args[0])
		case "builtin":
			return isRemoval(ev) && isSet(st, ev.Args[0])
		case "store":
			return isRing(ev.Args[0]) || ev.Args[0] == addr(rings[0]) || ev.Args[0] == addr(nexts[0]) || ev.Args[0] == addr(sets[0])
		}
		return isDelete(ev) || isCollect(ev)
	}
	e.OnIter = func(st *State, it *LoopIter) {
		for _, ev := range callsOf(it.Items, func(ev *Event) bool { return true }) {
			r.Violate("loop", fnLabel(ev.Fn), ev.Site.Pos(), "cannot be decided: traces are admitted, deleted or collected in a loop")
		}
	}
	// successful Deletes of a trace on this path
	deleted := func(st *State, k *Term) bool {
		for _, ev := range callsOf(st.trace, isDelete) {
			if e.isNil(st, e.errResult(ev)) && st.notes[fmt.Sprintf("deleting:%d", ev.Res.id)] == fmt.Sprint(k.origin().id) {
				return true
			}
		}
		return false
	}
	judge := func(st *State, pos *Event) {
		at := func(rule, f string, args ...any) { r.Violate(rule, fnLabel(pos.Fn), pos.Site.Pos(), f, args...) }
		r.Count("ends of LimitStore's critical section", 1)
		admitted := st.notes["admitted"] != ""
		next0 := first(st, nexts[0])
		next := get(st, nexts[0])
		var slots []*Event
		for _, ev := range callsOf(st.trace, func(ev *Event) bool { return ev.Kind == "store" && isRing(ev.Args[0]) }) {
			slots = append(slots, ev)
		}
		if !admitted {
			if len(slots) > 0 || next != next0 {
				at("changed", "the ring or its next index changes on a path that admits no trace")
			}
			if st.notes["removed"] != "" {
				at("forgotten", "a trace leaves the set on a path that admits no trace")
			}
			return
		}
		r.Count("admissions", 1)
		if len(slots) != 1 || slots[0].Args[0].args[1] != next0 || slots[0].Args[1].origin() != trace.origin() {
			at("ring", "the admitted trace is not put into the ring's next entry, so that it is never deleted, or not in its turn")
		}
		lim := []*Term{get(st, maxF), e.T.Len(get(st, rings[0]))}
		plus := e.T.Bin(token.ADD, next0, e.T.Int(1), next0.typ)
		ok := false
		for _, l := range lim {
			ok = ok || next == e.T.Bin(token.REM, plus, l, next0.typ)
			ok = ok || e.isTrue(st, e.T.Eq(next, e.T.Int(0))) && e.isFalse(st, e.less(plus, l))
			ok = ok || e.isTrue(st, e.T.Eq(next, e.T.Int(0))) && e.isTrue(st, e.T.Eq(plus, l))
			ok = ok || next == plus && (e.isTrue(st, e.less(plus, l)) || e.isFalse(st, e.T.Eq(plus, l)))
		}
		if !ok {
			at("ring", "the ring's next index is not advanced by one and wrapped (%s)", next)
		}
	}
	e.OnEvent = func(st *State, ev *Event) {
		at := func(rule, f string, args ...any) { r.Violate(rule, fnLabel(ev.Fn), ev.Site.Pos(), f, args...) }
		if e.lockedRoot(st, recv) && st.notes["locked"] == "" {
			st.notes["locked"] = "1"
			st.mem[addr(maxF)], st.memType[addr(maxF)] = limit0, limit0.typ // which is not changed while in use
			for _, i := range []int{sets[0], rings[0], nexts[0]} {
				st.notes[fmt.Sprint("first", i)] = fmt.Sprint(get(st, i).id)
			}
		}
		switch {
		case ev.Kind == "mapupdate" && isSet(st, ev.Args[0]):
			k := ev.Args[1]
			if e.isTrue(st, member(st, k)) {
				return
			}
			r.Count("additions to the set", 1)
			if k != trace {
				at("other-trace", "a trace other than the collected one is added to the set")
			}
			size := e.T.Len(ev.Args[0])
			limit := get(st, maxF)
			room := e.isTrue(st, e.less(size, limit))
			if !room && st.notes["removed"] == "" {
				at("over-limit", "a trace is admitted where the store may already keep its maximum, and none has been deleted")
			}
			if st.notes["admitted"] != "" {
				at("over-limit", "two traces are admitted in one call")
			}
			if !e.isFalse(st, member(st, k)) && !room {
				// It may be there already: harmless.
				r.Count("additions that may exist", 1)
			}
			st.notes["admitted"] = "1"
		case isRemoval(ev) && isSet(st, ev.Args[0]):
			r.Count("removals from the set", 1)
			k := ev.Args[1]
			if !deleted(st, k) {
				at("forgotten", "a trace leaves the set although it has not been deleted successfully: it is never deleted again")
			}
			slot := k.origin()
			next0 := first(st, nexts[0])
			if slot.op != "load" || !isRing(slot.args[0]) || slot.args[0].args[1] != next0 {
				at("not-oldest", "the trace that makes room is not the one in the ring's next entry, the oldest")
			}
			if st.notes["removed"] != "" {
				at("forgotten", "two traces leave the set in one call")
			}
			st.notes["removed"] = "1"
		case ev.Kind == "builtin" && ev.Name == "clear" && isSet(st, ev.Args[0]):
			at("forgotten", "the set of traces is cleared")
		case ev.Kind == "store" && (ev.Args[0] == addr(sets[0]) || ev.Args[0] == addr(rings[0])):
			if !e.isNil(st, get(st, sets[0])) && !e.isNil(st, get(st, rings[0])) && !e.isNil(st, first(st, rings[0])) && !e.isNil(st, first(st, sets[0])) {
				at("forgotten", "the set of traces or the ring is replaced where it may be in use")
			}
			if v := ev.Args[1]; ev.Args[0] == addr(sets[0]) && v.op == "mk" {
				// It is empty as yet, and making the ring panics with a negative maximum.
				if e.isFalse(st, e.T.Eq(limit0, e.T.Int(0))) || e.isFalse(st, e.less(limit0, e.T.Int(1))) {
					e.assume(st, e.less(e.T.Len(v), limit0), true)
				}
			}
			if ev.Args[0] == addr(rings[0]) && e.T.Len(ev.Args[1]) != get(st, maxF) {
				at("ring", "the ring is not made with the maximum number of entries")
			}
		case isCollect(ev):
			r.Count("deliveries to the wrapped store", 1)
			if !e.lockedRoot(st, recv) {
				at("untracked", "annotations are stored without the lock: their trace may have been deleted and forgotten")
			} else if !e.isTrue(st, member(st, trace)) {
				at("untracked", "annotations are stored while their trace may not be in the set: it is never deleted")
			}
			st.notes["stored"] = "1"
		case isDelete(ev):
			r.Count("deletions by the limit store", 1)
			if es, ok := sliceElems(e, st, lastArg(ev)); !ok || len(es) != 1 {
				at("other-trace", "what is deleted is not exactly one trace")
			} else if slot := es[0].origin(); true {
				st.notes[fmt.Sprintf("deleting:%d", ev.Res.id)] = fmt.Sprint(slot.id)
				if slot.op != "load" || !isRing(slot.args[0]) || slot.args[0].args[1] != first(st, nexts[0]) {
					at("not-oldest", "the trace that is deleted is not the one in the ring's next entry, the oldest")
				}
			}
			if !e.isFalse(st, e.less(e.T.Len(get(st, sets[0])), get(st, maxF))) {
				at("early", "a trace is deleted where the store may have room")
			}
			if !e.isFalse(st, member(st, trace)) {
				at("early", "a trace is deleted although the collected one may already be kept")
			}
		case ev.Kind == "unlock" && e.root(st, ev.Args[0]) == recv:
			judge(st, ev)
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			return
		}
		r.Count("paths of LimitStore.Collect", 1)
		if st.notes["stored"] != "" || e.notNil(st, x.Results[0]) || e.isTrue(st, e.T.Eq(get(st, maxF), e.T.Int(0))) || e.isTrue(st, e.less(get(st, maxF), e.T.Int(1))) {
			return
		}
		r.Violate("not-stored", fnLabel(x.Fn), x.Site.Pos(), "Collect can report success without having passed the annotations on")
	}
	e.Run(fn, func(st *State) { limit0 = get(st, maxF) })
	r.Use(e)
	r.Floor("admissions", 2)
	r.Floor("additions to the set", 2)
	r.Floor("removals from the set", 1)
	r.Floor("deletions by the limit store", 1)
	r.Floor("deliveries to the wrapped store", 2)
}

// rawElem is the slice that a value was read from.
func rawElem(k *Term) *Term {
	if k.op == "load" && k.args[0].op == "ia" {
		return k.args[0].args[0]
	}
	return nil
}

func isRingOf(v, addr *Term) bool { return at(v) == addr || v.op == "mk" }

// sliceElems lists the elements of a slice with a known number of them.
func sliceElems(e *Engine, st *State, s *Term) ([]*Term, bool) {
	n, ok := e.T.Len(s).intVal()
	var elem types.Type
	if a, is := derefType(s.typ).Underlying().(*types.Array); is {
		n, ok, elem = a.Len(), true, a.Elem()
	} else if sl, is := s.typ.Underlying().(*types.Slice); is {
		elem = sl.Elem()
	}
	if !ok || n > 16 || elem == nil {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n; i++ {
		a := e.elemAddr(s, e.T.Int(i), elem)
		out = append(out, e.peek(st, a, elem))
	}
	return out, true
}

// ---- the recent store ----

func recentCollect(r *R) {
	p := r.P
	n := p.Named("", "RecentStore")
	fn := p.Method("", "RecentStore", "Collect")
	id := p.Named("", "SpanID")
	if !r.Require(n != nil && id != nil && fn != nil && len(fn.Params) == 3, "anchor", "RecentStore.Collect") {
		return
	}
	maps := fieldsOf(n, func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && isNamed(m.Key(), "", "ID")
	})
	if !r.Require(len(maps) == 1, "anchor", "RecentStore's map of first-seen times") {
		return
	}
	e := NewEngine(p)
	e.Loops = true
	recv := e.Param(fn, 0)
	trace := e.fieldOf(e.Param(fn, 1), id, fieldNamed(id, "Trace"))
	ca := e.faddr(recv, n, maps[0])
	created := func(st *State) *Term { return e.peek(st, ca, deref(ca.typ)) }
	isCreated := func(st *State, m *Term) bool { return m == created(st) || at(m) == ca }
	member := func(st *State, k *Term) *Term {
		return e.peek(st, e.T.mk("mok", "", types.NewPointer(types.Typ[types.Bool]), nil, nil, created(st), k), types.Typ[types.Bool])
	}
	isKey := func(st *State, k *Term) bool {
		return k.op == "nextk" && isCreated(st, k.args[0].args[0])
	}
	isAppend := func(ev *Event) bool {
		return ev.Kind == "builtin" && ev.Name == "append" && ev.Res != nil && isIDs(ev.Res.typ)
	}
	judging := false
	at := func(ev *Event, rule, f string, args ...any) {
		if judging {
			r.Violate(rule, fnLabel(ev.Fn), ev.Site.Pos(), f, args...)
		}
	}
	lists := map[*Term]bool{} // the lists of keys that loops build
	// The list of keys that an append extends.
	listOf := func(ev *Event) *Term {
		if ev.Res.op == "append" && len(ev.Res.args) == 2 {
			return ev.Res.args[0]
		}
		return nil
	}
	// isList: l has exactly the keys appended to it in its loop.
	isList := func(st *State, l *Term) bool {
		if !lists[l] {
			return false
		}
		ins, back := e.PhiIn[l], e.PhiBk[l]
		if l.op != "loopphi" {
			ins, back = map[*Term]bool{}, map[*Term]bool{}
			for v := range e.MemIn[l] {
				if b, _ := e.appendedTo(v, l); b == l {
					back[v] = true
				} else {
					ins[v] = true
				}
			}
		}
		for v := range ins {
			if !e.empty(st, v) && !e.lenZero(v) {
				return false
			}
		}
		for v := range back {
			b, ps := e.appendedTo(v, l)
			if b != l || len(ps) > 1 || len(ps) == 1 && (ps[0].val == nil || ps[0].val.op != "nextk") {
				return false
			}
		}
		return true
	}
	e.Keep = func(st *State, ev *Event) bool {
		return isRemoval(ev) && isCreated(st, ev.Args[0]) || isAppend(ev) || isDelete(ev)
	}
	pairs := func(st *State, items []*TItem, partial bool) {
		rem := callsOf(items, func(ev *Event) bool { return isRemoval(ev) })
		app := callsOf(items, isAppend)
		used := map[*Event]bool{}
		for _, d := range rem {
			k := d.Args[1]
			r.Count("traces that are no longer tracked", 1)
			ok := false
			for _, a := range app {
				if l := listOf(a); l != nil && a.Res.args[1] == k && isKey(st, k) {
					if used[a] || ok {
						at(d, "deleted-twice", "a trace is handed to deletion twice")
					}
					used[a] = true
					ok = true
					lists[l] = true
					st.notes[fmt.Sprintf("list:%d", l.id)] = "1"
					st.pin(l)
					if partial {
						at(d, "not-deleted", "cannot be decided: the loop that selects traces is left early")
					}
				}
			}
			// A second loop, over the list of selected keys.
			if l := rawElem(k); !ok && l != nil && e.isElem(k, l) {
				st.notes[fmt.Sprintf("untracked:%d", l.id)] = "1"
				st.pin(l)
				ok = true
			}
			if !ok {
				at(d, "not-deleted", "a trace is no longer tracked, and is not put on the list of traces to delete")
			}
		}
		for _, a := range app {
			if l := listOf(a); l != nil && isKey(st, a.Res.args[1]) && !used[a] {
				lists[l] = true
				st.pin(l)
				st.notes[fmt.Sprintf("selected:%d", l.id)] = "1" // to be untracked by a loop over the list
			}
		}
	}
	// Loops over a list of keys, and those that leave out some.
	loops, skips := map[string]*LoopIter{}, map[string]bool{}
	e.OnIter = func(st *State, it *LoopIter) {
		pairs(st, it.Items, false)
		key := loopName(it.Loop, it.Ctx)
		loops[key] = it
		n := 0
		for _, d := range callsOf(it.Items, isRemoval) {
			if e.isElem(d.Args[1], rawElem(d.Args[1])) {
				n++
			}
		}
		if n == 0 {
			skips[key] = true
		}
	}
	handed := func(st *State, ev *Event) {
		r.Count("deletions by the recent store", 1)
		l := lastArg(ev)
		if !isList(st, l) {
			at(ev, "other-trace", "what is deleted is not exactly the list of traces that are no longer tracked (%s) %v %v", l, e.MemIn[l], lists)
			return
		}
		key := fmt.Sprintf("handed:%d", l.id)
		if st.notes[key] != "" {
			at(ev, "deleted-twice", "the list of traces is handed to deletion twice")
		}
		st.notes[key] = "1"
	}
	// owed: every list of keys that are no longer tracked has been handed over.
	owed := func(st *State, fn string, site ssa.Instruction) {
		if !judging {
			return
		}
		for k := range st.notes {
			var id int
			if _, err := fmt.Sscanf(k, "list:%d", &id); err == nil {
				l := e.T.all[id-1]
				if st.notes[fmt.Sprintf("handed:%d", id)] == "" && !e.empty(st, l) {
					r.Violate("not-deleted", fn, site.Pos(), "traces that are no longer tracked may not be handed to deletion")
				}
			}
			if _, err := fmt.Sscanf(k, "selected:%d", &id); err == nil {
				l := e.T.all[id-1]
				all := false
				for key, it := range loops {
					all = all || !skips[key] && e.walked(st, it.Loop, it.Ctx, l)
				}
				if !all && st.notes[fmt.Sprintf("handed:%d", id)] != "" && !e.empty(st, l) {
					r.Violate("still-tracked", fn, site.Pos(), "traces are deleted that are still tracked")
				}
			}
			if _, err := fmt.Sscanf(k, "untracked:%d", &id); err == nil {
				l := e.T.all[id-1]
				if st.notes[fmt.Sprintf("handed:%d", id)] == "" && !e.empty(st, l) {
					r.Violate("not-deleted", fn, site.Pos(), "traces that are no longer tracked may not be handed to deletion")
				}
			}
		}
	}
	var threads []*Thread
	inThread := false
	e.OnThread = func(th *Thread) {
		th.St.notes = th.Notes
		threads = append(threads, th)
	}
	e.OnEvent = func(st *State, ev *Event) {
		switch {
		case ev.Kind == "mapupdate" && isCreated(st, ev.Args[0]):
			r.Count("traces that become tracked", 1)
			if ev.Args[1] != trace {
				at(ev, "other-trace", "a trace other than the collected one becomes tracked")
			}
			if !e.isFalse(st, member(st, ev.Args[1])) {
				at(ev, "refreshed", "the time at which a trace was first seen may be overwritten: a trace that is still collected never gets old")
			}
			if !ev.Args[2].mentions(func(x *Term) bool { return x.op == "call" && x.aux == "time.Now" }) {
				at(ev, "age", "a trace becomes tracked with a time that is not the present one")
			}
		case ev.Kind == "builtin" && ev.Name == "clear" && isCreated(st, ev.Args[0]):
			at(ev, "not-deleted", "all traces stop being tracked")
		case ev.Kind == "store" && ev.Args[0] == ca:
			if !e.isNil(st, created(st)) {
				at(ev, "not-deleted", "the map of tracked traces may be replaced while in use")
			}
		case isCollect(ev):
			r.Count("deliveries to the wrapped store", 1)
			if !e.lockedRoot(st, recv) {
				at(ev, "untracked", "annotations are stored without the lock: their trace may no longer be tracked")
			} else if !e.isTrue(st, member(st, trace)) {
				at(ev, "untracked", "annotations are stored while their trace may not be tracked: it is never deleted")
			}
			st.notes["stored"] = "1"
		case isDelete(ev):
			handed(st, ev)
		case ev.Kind == "go":
			st.notes["thread"] = fmt.Sprint(e.T.siteID(ev.Site))
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			return
		}
		if inThread {
			owed(st, fnLabel(x.Fn), x.Site)
			r.Count("paths of eviction goroutines", 1)
			return
		}
		r.Count("paths of RecentStore.Collect", 1)
		pairs(st, st.trace, true)
		if st.notes["thread"] == "" {
			owed(st, fnLabel(x.Fn), x.Site)
		}
		if judging && st.notes["stored"] == "" && !e.notNil(st, x.Results[0]) {
			r.Violate("not-stored", fnLabel(x.Fn), x.Site.Pos(), "Collect can report success without having passed the annotations on")
		}
	}
	e.Run(fn, nil)
	judging = true
	e.visited = map[string]bool{}
	threads = nil
	e.Run(fn, nil)
	inThread = true
	for i := 0; i < len(threads); i++ {
		e.RunThread(threads[i])
		r.Count("eviction goroutines", 1)
	}
	r.Use(e)
	r.Floor("traces that become tracked", 1)
	r.Floor("traces that are no longer tracked", 1)
	r.Floor("deletions by the recent store", 1)
	r.Floor("paths of RecentStore.Collect", 2)
}
