package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C35: every span of a trace is walked, once ----

func init() {
	register(&Check{
		ID: "C35",
		Rule: "every path of every recursive function over a trace: it ends without an error, or without having found what it looks for, only after a loop over all of the span's children that calls the function exactly once, with each of them and with what it was given itself; " +
			"where it collects, the span's own ID and annotations are collected once; where it searches, the span itself is compared; where it makes a profile, the entries are the span's own and then those of its children, and the times are the sums of theirs; " +
			"every path of the upload of traces: each that the store does not have, and no other, is collected into the store by such a function, and what was uploaded is all passed on",
		NotCover: "which times an event has; the timeline, which leaves out spans without times; what the aggregation adds up; recursion through function values",
		Run:      runC35,
	})
}

type walkRule struct {
	r       *R
	p       *Program
	trace   *types.Named
	collect map[*ssa.Function]bool // functions shown to collect a whole trace
	profile *types.Named
}

// tracePrm is the index of the function's parameter that is a trace, or -1.
func (w *walkRule) tracePrm(fn *ssa.Function) int {
	for i, q := range fn.Params {
		if p, ok := q.Type().(*types.Pointer); ok && types.Identical(p.Elem(), w.trace) {
			return i
		}
	}
	return -1
}

// roots finds the recursive functions over traces that are called from
// elsewhere.
func (w *walkRule) roots() []*ssa.Function {
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	asValue := map[*ssa.Function]bool{}
	for _, fn := range w.p.srcFn {
		calls[fn] = map[*ssa.Function]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if ok {
					if g := c.Common().StaticCallee(); g != nil {
						calls[fn][g] = true
						callers[g] = append(callers[g], fn)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && (c == nil || c.Common().Value != g) {
						asValue[g] = true
					}
				}
			}
		}
	}
	reach := func(from *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		todo := []*ssa.Function{from}
		for len(todo) > 0 {
			fn := todo[0]
			todo = todo[1:]
			for g := range calls[fn] {
				if !seen[g] && w.p.InRepo(g) {
					seen[g] = true
					todo = append(todo, g)
				}
			}
		}
		return seen
	}
	var out []*ssa.Function
	for _, fn := range w.p.srcFn {
		if w.tracePrm(fn) < 0 || fn.Synthetic != "" {
			continue
		}
		from := reach(fn)
		if !from[fn] {
			continue
		}
		root := asValue[fn]
		inner := true
		for _, c := range callers[fn] {
			if !(from[c] && reach(c)[fn]) {
				root = true
			}
			inner = inner && c != fn
		}
		if root || fn.Object() != nil && fn.Object().Exported() || !inner && len(callers[fn]) == 1 {
			out = append(out, fn)
		}
	}
	return out
}

func runC35(r *R) {
	w := &walkRule{r: r, p: r.P, trace: r.P.Named("", "Trace"), profile: r.P.Named("traceapp", "profile"), collect: map[*ssa.Function]bool{}}
	if !r.Require(w.trace != nil, "anchor", "Trace") {
		return
	}
	for _, fn := range w.roots() {
		rel := fn.Pkg.Pkg.Path()
		if !strings.HasSuffix(rel, "appdash") && !strings.HasSuffix(rel, "/traceapp") || !w.children(fn) {
			continue
		}
		w.walker(fn)
	}
	w.uploads()
	w.exports()
	r.Floor("recursive functions over traces", 6)
	r.Floor("collecting functions", 1)
	r.Floor("searching functions", 1)
	r.Floor("functions that make profiles", 1)
	r.Floor("uploads of traces", 2)
	r.Floor("checks whether a trace exists", 1)
	r.Floor("exports of traces", 2)
}

// children: the function, or one that it is recursive with, reads the list of
// a trace's children.
func (w *walkRule) children(fn *ssa.Function) bool {
	sub := fieldNamed(w.trace, "Sub")
	fns := w.p.reachedFrom(fn)
	fns[fn] = true
	for g := range fns {
		if g != fn && !w.p.reachedFrom(g)[fn] {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && fa.Field == sub && types.Identical(deref(fa.X.Type()), w.trace) {
					return true
				}
			}
		}
	}
	return false
}

func (w *walkRule) walker(fn *ssa.Function) {
	r := w.r
	e := NewEngine(w.p)
	e.Loops = true
	pi := w.tracePrm(fn)
	node := e.Param(fn, pi)
	subs := e.faddr(node, w.trace, fieldNamed(w.trace, "Sub"))
	span := w.p.Named("", "Span")
	spanID := w.p.Named("", "SpanID")
	spa := e.faddr(node, w.trace, fieldNamed(w.trace, "Span"))
	ida, anns := e.faddr(spa, span, fieldNamed(span, "ID")), e.faddr(spa, span, fieldNamed(span, "Annotations"))
	isRec := func(ev *Event) bool { return ev != nil && ev.Kind == "call" && ev.Rec == fn }
	isProfile := false
	finds, errAt, collecting := false, -1, false
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if isErrorType(t) {
			errAt = i
		}
		if q, ok := t.(*types.Pointer); ok && w.profile != nil && types.Identical(q.Elem(), w.profile) {
			isProfile = true
		}
	}
	idPrm := -1
	for i, q := range fn.Params {
		if isNamed(q.Type(), "", "ID") {
			idPrm = i
		}
	}
	finds = idPrm >= 0 && res.Len() == 1 && types.Identical(res.At(0).Type(), types.NewPointer(w.trace))
	rv := newRelevance(w.p, func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.FieldAddr:
			return types.Identical(deref(in.X.Type()), w.trace) && in.Field == fieldNamed(w.trace, "Sub") || w.profile != nil && types.Identical(deref(in.X.Type()), w.profile)
		case ssa.CallInstruction:
			c := in.Common()
			if g := c.StaticCallee(); g != nil && g == w.p.Method("", "Span", "Name") {
				return true
			}
			if c.IsInvoke() && (c.Method.Name() == "Start" || c.Method.Name() == "End") && isNamed(c.Value.Type(), "", "TimespanEvent") {
				return true
			}
			return c.IsInvoke() && c.Method.Name() == "Collect"
		}
		return false
	})
	reaches := map[*ssa.Function]bool{}
	e.Opaque = func(g *ssa.Function) bool {
		if g == fn || g == w.p.Method("", "Span", "Name") {
			return true
		}
		if ok, done := reaches[g]; done {
			return !ok
		}
		ok := w.p.InRepo(g) && (w.p.reachedFrom(g)[fn] || rv.has(g) || g.Parent() != nil || len(g.Blocks) == 1 && g.Pkg == fn.Pkg)
		reaches[g] = ok
		return !ok
	}
	// What it calls leaves the trace alone.
	e.Pure = func(name string) bool {
		return name == fnName(fn) || strings.Contains(name, "Event).") || strings.HasSuffix(name, ").Collect") || strings.HasPrefix(name, "(*log.Logger)")
	}
	e.Keep = func(st *State, ev *Event) bool {
		return ev.Kind == "call" || ev.Kind == "store"
	}
	round := 0
	bad := func(site ssa.Instruction, format string, args ...any) {
		if round == 1 {
			pos := fn.Pos()
			if site != nil {
				pos = site.Pos()
			}
			r.Violate("walk", fnLabel(fn), pos, format, args...)
		}
	}
	good, skips := map[string]*LoopIter{}, map[string]bool{}
	of := map[string]*Term{} // the lists that the loops walk
	accs := map[*Term]map[string]bool{}
	starts := func(ev *Event) bool {
		return ev != nil && ev.Kind == "call" && (strings.HasSuffix(ev.Name, "TimespanEvent).Start") || strings.HasSuffix(ev.Name, "TimespanEvent).End"))
	}
	timed := func(t *Term) (start, end bool) {
		t.mentions(func(x *Term) bool {
			start = start || x.op == "call" && strings.HasSuffix(x.aux, "TimespanEvent).Start")
			end = end || x.op == "call" && strings.HasSuffix(x.aux, "TimespanEvent).End")
			return false
		})
		return
	}
	// least: 1 when h is known to be less than x, -1 when it is known to be
	// at least x; x may be nil: some time of an event.
	least := func(st *State, h, x *Term) int {
		for f, v := range st.facts {
			if f.op != "lt0" {
				continue
			}
			lin := f.obj.(linear)
			c := lin.coef[h]
			if c != 1 && c != -1 || len(lin.coef) != 2 {
				continue
			}
			for t, d := range lin.coef {
				if t == h || d != -c {
					continue
				}
				s, n := timed(t)
				if x != nil && t != x || !s || !n {
					continue
				}
				switch less := (c == 1) == v; {
				case less && x != nil:
					return 1
				case !less && x == nil:
					return -1
				}
			}
		}
		return 0
	}
	field := func(x *Term, name string) *Term { // the field of a profile that a value reads
		if x.op == "load" && x.args[0].op == "fa" && x.args[0].aux == fieldKey(types.NewPointer(w.profile), fieldNamed(w.profile, name)) {
			return x.args[0].args[0]
		}
		return nil
	}
	classify := func(st *State, it *LoopIter, h, v *Term) string {
		if v == nil {
			return "other"
		}
		recs := callsOf(it.Items, isRec)
		if v == h {
			if len(recs) > 0 {
				return "left out"
			}
			for _, i := range it.Items {
				if starts(i.Ev) {
					if least(st, h, nil) == -1 {
						return "max"
					}
					return "event left out"
				}
			}
			return "max"
		}
		d := e.T.lin(v).sub(e.T.lin(h))
		if len(d.coef) == 1 && d.k == 0 && len(recs) == 1 {
			for t, c := range d.coef {
				for _, name := range []string{"Time", "TimeCum", "TimeChildren"} {
					o := field(t, name)
					if c == 1 && o != nil && o == e.ResultTerm(recs[0], 1) {
						return "sum " + name
					}
				}
			}
		}
		s, n := timed(v)
		if s && n && (least(st, h, v) == 1 || v.op == "max" || v.op == "builtin") {
			return "max"
		}
		return "other"
	}
	note := func(h *Term, c string) {
		if accs[h] == nil {
			accs[h] = map[string]bool{}
		}
		accs[h][c] = true
	}
	isInt := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	lists := map[*Term]map[bool]bool{} // lists of entries: they grow by the children's
	eventLoops := map[string]bool{}    // loops over events
	e.OnLeave = func(st *State, it *LoopIter, whole bool) {
		if eventLoops[loopName(it.Loop, it.Ctx)] && !whole {
			st.notes["events left"] = "1"
		}
	}
	e.OnIter = func(st *State, it *LoopIter) {
		key := loopName(it.Loop, it.Ctx)
		recs := callsOf(it.Items, isRec)
		for _, i := range it.Items {
			if starts(i.Ev) {
				eventLoops[key] = true
			}
		}
		if isProfile {
			for phi, v := range it.Vals {
				if isInt(phi.typ) {
					note(phi, classify(st, it, phi, v))
				} else if _, ok := phi.typ.Underlying().(*types.Slice); ok && len(recs) == 1 {
					ok := v == e.ResultTerm(recs[0], 0)
					for _, a := range recs[0].Args {
						ok = ok && (a != phi) == false || ok && !types.Identical(a.typ, phi.typ)
					}
					if b, ps := e.appendedTo(v, phi); b == phi && len(ps) == 1 && ps[0].slice == e.ResultTerm(recs[0], 0) {
						ok = true
						for _, a := range recs[0].Args {
							ok = ok && (!types.Identical(a.typ, phi.typ) || e.empty(st, a))
						}
					}
					if lists[phi] == nil {
						lists[phi] = map[bool]bool{}
					}
					lists[phi][ok] = true
				}
			}
			for h := range e.MemIn {
				if h.op == "loopmem" && h.ctx == it.Ctx && h.site.Block() == it.Loop.header && h.typ != nil && isInt(h.typ) {
					note(h, classify(st, it, h, st.mem[h.args[0]]))
					if v := st.mem[h.args[0]]; v != nil {
						note(v, fmt.Sprintf("back:%d", h.id))
					}
				}
			}
		}
		if len(recs) == 0 {
			skips[key] = true
			return
		}
		good[key] = it
		for _, c := range recs {
			x := c.Args[pi]
			l := rawElem(x)
			if l == nil || !e.isElem(x, l) || at(l) != subs {
				skips[key] = true
			}
			if l != nil {
				of[key] = l
			}
			for i, a := range c.Args {
				if i == pi || i >= len(fn.Params) {
					continue
				}
				switch fn.Params[i].Type().Underlying().(type) {
				case *types.Slice:
					continue
				case *types.Basic:
					if i != idPrm {
						continue
					}
				}
				if a.origin() != e.Param(fn, i) {
					bad(c.Site, "a child is not walked with the %s that was given", fn.Params[i].Name())
				}
			}
		}
		if len(recs) > 1 {
			bad(recs[1].Site, "a child is walked more than once")
		}
		if finds && !e.isNil(st, recs[0].Res) {
			bad(recs[0].Site, "a span that a child has may be found, and the search goes on")
		}
		for _, i := range it.Items {
			if i.Ev != nil && collectOn(i.Ev, e, fn) {
				bad(i.Ev.Site, "annotations are collected once for each child")
			}
		}
	}
	e.OnEvent = func(st *State, ev *Event) {
		switch {
		case isRec(ev):
			st.pin(ev.Res)
			if errAt >= 0 {
				st.pin(e.errResult(ev))
			}
			if finds {
				st.pin(ev.Res)
			}
		case collectOn(ev, e, fn):
			collecting = true
			st.pin(e.errResult(ev))
		case ev.Kind == "store" && isProfile:
			if e.root(st, ev.Args[0]).op != "alloc" {
				bad(ev.Site, "cannot be decided: something else than the profile is changed")
			}
		}
	}
	ownID := func(v *Term) bool { // the span's own ID
		if v.op == "load" && v.args[0] == ida {
			return true
		}
		if v.op != "struct" {
			return false
		}
		for i, a := range v.args {
			if a.op != "load" || a.args[0] != e.faddr(ida, spanID, i) {
				return false
			}
		}
		return len(v.args) > 0
	}
	// walkedAny: the trace does not change while it is walked, whenever its
	// list of children is read.
	walkedAny := func(st *State, it *LoopIter) bool {
		for _, t := range e.T.all {
			if t.op == "load" && t.args[0] == subs && e.walked(st, it.Loop, it.Ctx, t) {
				return true
			}
		}
		return false
	}
	ends := 0
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" || e.isNil(st, node) {
			return
		}
		if errAt >= 0 && e.notNil(st, x.Results[errAt]) {
			return
		}
		idTest := func() *Term {
			return e.T.Eq(e.peek(st, e.faddr(ida, spanID, fieldNamed(spanID, "Span")), types.Typ[types.Uint64]), e.Param(fn, idPrm))
		}
		if finds {
			// lost: a variable that holds what the last child has found:
			// nothing, where the loop has gone on.
			lost := func(t *Term) bool {
				if t.op != "loopphi" || len(e.PhiIn[t]) == 0 {
					return false
				}
				for v := range e.PhiIn[t] {
					if !v.isNil() {
						return false
					}
				}
				for v := range e.PhiBk[t] {
					if !isCall(v, fnName(fn)) && v != t && !v.isNil() {
						return false
					}
				}
				return true
			}
			res := x.Results[0]
			if res == node {
				if !isTrueID(e, st, idTest()) {
					bad(x.Site, "a span is found without its ID being the one that is looked for")
				}
				return
			}
			for _, c := range callsOf(st.trace, isRec) {
				if c.Res == res && e.notNil(st, res) {
					return
				}
			}
			if !e.isNil(st, res) && !lost(res) {
				bad(x.Site, "what is found is neither the span nor one that a child has found")
				return
			}
			if !isFalseID(e, st, idTest()) {
				bad(x.Site, "nothing is found, and the span itself is not compared")
			}
		}
		if res.Len() > 0 && !isProfile {
			if _, ok := res.At(0).Type().Underlying().(*types.Slice); ok && e.isNil(st, x.Results[0]) {
				return // the timeline leaves out a span without times
			}
		}
		ends++
		list := e.peek(st, subs, deref(subs.typ))
		all := e.empty(st, list)
		for k, it := range good {
			all = all || !skips[k] && (e.walked(st, it.Loop, it.Ctx, list) || of[k] != nil && walkedAny(st, it))
		}
		if !all {
			bad(x.Site, "success is reported on some path on which not all children have been walked")
		}
		for _, c := range callsOf(st.trace, isRec) {
			bad(c.Site, "a span is walked apart from the loop over all children")
		}
		if collecting {
			cs := callsOf(st.trace, func(ev *Event) bool { return collectOn(ev, e, fn) })
			if len(cs) != 1 {
				bad(x.Site, "success is reported with %d collections of the span", len(cs))
			}
			for _, c := range cs {
				b, ps := e.appended(c.Args[2])
				whole := c.Args[2].op == "load" && c.Args[2].args[0] == anns ||
					len(ps) == 1 && (b.isNil() || e.lenZero(b)) && ps[0].slice != nil && ps[0].slice.op == "load" && ps[0].slice.args[0] == anns
				if !whole {
					bad(c.Site, "what is collected is not all of the span's own annotations")
				}
				if !ownID(c.Args[1]) {
					bad(c.Site, "what is collected is not collected for the span's own ID")
				}
			}
		}
		if isProfile {
			if st.notes["events left"] != "" {
				bad(x.Site, "not all events of the span have been looked at")
			}
			w.profileExit(e, st, x, fn, bad, accs, lists, spa, ida)
		}
	}
	for round = 0; round < 2; round++ {
		e.visited = map[string]bool{}
		e.Run(fn, nil)
	}
	r.Use(e)
	r.Count("recursive functions over traces", 1)
	r.Count("ends of walks", ends)
	r.Sample("%s walks every child", fnLabel(fn))
	if collecting {
		w.collect[fn] = true
		r.Count("collecting functions", 1)
	}
	if finds {
		r.Count("searching functions", 1)
	}
	if isProfile {
		r.Count("functions that make profiles", 1)
	}
	if ends == 0 {
		r.Violate("walk", fnLabel(fn), fn.Pos(), "cannot be decided: no path that walks the trace was found")
	}
}

func isTrueID(e *Engine, st *State, t *Term) bool  { return e.isTrue(st, t) }
func isFalseID(e *Engine, st *State, t *Term) bool { return e.isFalse(st, t) }

// collectOn: a collection into what the function was given.
func collectOn(ev *Event, e *Engine, fn *ssa.Function) bool {
	if !isCollect(ev) || len(ev.Args) != 3 {
		return false
	}
	for i := range fn.Params {
		if ev.Args[0].origin() == e.Param(fn, i) {
			return true
		}
	}
	return false
}

// profileExit checks the profile that is returned.
func (w *walkRule) profileExit(e *Engine, st *State, x *Exit, fn *ssa.Function, bad func(ssa.Instruction, string, ...any), accs map[*Term]map[string]bool, lists map[*Term]map[bool]bool, spa, ida *Term) {
	var own, list *Term
	for _, res := range x.Results {
		if res.typ == nil {
			continue
		}
		if p, ok := res.typ.(*types.Pointer); ok && types.Identical(p.Elem(), w.profile) {
			own = res
		} else if _, ok := res.typ.Underlying().(*types.Slice); ok {
			list = res
		}
	}
	if own == nil || list == nil || own.op != "alloc" {
		bad(x.Site, "what is returned as the span's profile is not a new one")
		return
	}
	// The entries.
	first := list
	if list.op == "loopphi" {
		if len(lists[list]) != 1 || !lists[list][true] {
			bad(x.Site, "the entries of the children are not added to those of the span, each once")
		}
		if len(e.PhiIn[list]) == 1 {
			for v := range e.PhiIn[list] {
				first = v
			}
		}
	}
	none := e.empty(st, e.peek(st, e.faddr(e.Param(fn, w.tracePrm(fn)), w.trace, fieldNamed(w.trace, "Sub")), types.NewSlice(types.NewPointer(w.trace))))
	if list.op != "loopphi" && !none {
		bad(x.Site, "the entries of the children are not among those that are returned")
	}
	b, ps := e.appended(first)
	if b.op != "param" || len(ps) != 1 || ps[0].val == nil || ps[0].val.origin() != own {
		bad(x.Site, "the entries do not start with the span's own, added once to those that were given")
	}
	// The times.
	get := func(name string) *Term { return e.fval(st, own, w.profile, fieldNamed(w.profile, name)) }
	only := func(h *Term, want string) bool {
		for c := range accs[h] {
			if c != want && !strings.HasPrefix(c, "back:") {
				return false
			}
		}
		return accs[h][want]
	}
	isAcc := func(t *Term) bool { return t.op == "loopphi" || t.op == "loopmem" }
	ins := func(h *Term) (out []*Term) {
		if h.op == "loopphi" {
			for v := range e.PhiIn[h] {
				out = append(out, v)
			}
			return
		}
		for v := range e.MemIn[h] {
			if !accs[v][fmt.Sprintf("back:%d", h.id)] && v != h {
				out = append(out, v)
			}
		}
		return
	}
	time := get("Time")
	if time.op == "conv" {
		time = time.args[0]
	}
	if isAcc(time) {
		if !only(time, "max") {
			bad(x.Site, "the span's own time is not the longest of its events' (%s)", classes(accs[time]))
		}
		for _, v := range ins(time) {
			if !e.isZero(st, v) {
				bad(x.Site, "the span's own time does not start from zero")
			}
		}
	} else if !e.isZero(st, time) {
		bad(x.Site, "cannot be decided: the span's own time is not computed by a loop over its events")
	}
	for _, q := range [][2]string{{"TimeChildren", "sum Time"}, {"TimeCum", "sum TimeCum"}} {
		v := get(q[0])
		lin := e.T.lin(v).sub(e.T.lin(time))
		if len(lin.coef) == 0 && lin.k == 0 && none {
			continue
		}
		var h *Term
		for t := range e.T.lin(v).coef {
			if isAcc(t) && t != time {
				h = t
			}
		}
		if h == nil || !only(h, q[1]) {
			got := "it is not computed by the loop over them"
			if h != nil {
				got = classes(accs[h])
			}
			bad(x.Site, "%s is not the span's own time and the %s of each child (%s)", q[0], strings.TrimPrefix(q[1], "sum "), got)
			continue
		}
		for _, in := range ins(h) {
			d := e.T.lin(v).sub(e.T.lin(h))
			sum := e.T.lin(in).sub(e.T.lin(time))
			for t, c := range d.coef {
				sum.coef[t] += c
				if sum.coef[t] == 0 {
					delete(sum.coef, t)
				}
			}
			if len(sum.coef) != 0 || sum.k+d.k != 0 {
				bad(x.Site, "%s does not start from the span's own time", q[0])
			}
		}
	}
	// The name.
	name := get("Name")
	ok := false
	switch o := name.origin(); {
	case isCall(o, "(*sourcegraph.com/sourcegraph/appdash.Span).Name"):
		ok = o.args[0] == spa
	case isCall(o, "(sourcegraph.com/sourcegraph/appdash.ID).String"), o.op == "call" && strings.HasSuffix(o.aux, ".String"):
		ok = o.mentions(func(t *Term) bool { return t.op == "load" && t.args[0].op == "fa" && t.args[0].args[0] == ida })
	}
	if !ok {
		bad(x.Site, "the entry has neither the span's name nor its ID")
	}
}

func classes(m map[string]bool) string {
	var out []string
	for c := range m {
		out = append(out, c)
	}
	sortStrings(out)
	return strings.Join(out, ", ")
}

// uploads: the functions that put whole traces into the app's store.
func (w *walkRule) uploads() {
	for _, fn := range w.p.srcFn {
		for i, q := range fn.Params {
			s, ok := q.Type().Underlying().(*types.Slice)
			if ok && types.Identical(s.Elem(), types.NewPointer(w.trace)) && w.inLoopCollects(fn) && !w.partOfWalk(fn) {
				w.upload(fn, i)
			}
		}
	}
}

// partOfWalk: a function that a collecting function uses.
func (w *walkRule) partOfWalk(fn *ssa.Function) bool {
	for g := range w.collect {
		if w.p.reachedFrom(g)[fn] {
			return true
		}
	}
	return false
}

func (w *walkRule) inLoopCollects(fn *ssa.Function) bool {
	for g := range w.p.reachedFrom(fn) {
		if w.collect[g] {
			return true
		}
	}
	return false
}

func (w *walkRule) upload(fn *ssa.Function, li int) {
	r := w.r
	e := NewEngine(w.p)
	e.Loops = true
	list := e.Param(fn, li)
	e.Opaque = func(g *ssa.Function) bool { return w.collect[g] || !w.p.InRepo(g) }
	collects := func(ev *Event) bool { return ev != nil && ev.Kind == "call" && ev.Rec != nil && w.collect[ev.Rec] }
	looks := func(ev *Event) bool { return ev != nil && isIfaceMethod(ev, "Trace") }
	e.Keep = func(st *State, ev *Event) bool { return collects(ev) || looks(ev) || isCollect(ev) }
	e.OnEvent = func(st *State, ev *Event) {
		if collects(ev) || looks(ev) {
			st.pin(e.errResult(ev))
		}
	}
	round := 0
	bad := func(site ssa.Instruction, format string, args ...any) {
		if round == 1 {
			r.Violate("upload", fnLabel(fn), site.Pos(), format, args...)
		}
	}
	good, skips := map[string]*LoopIter{}, map[string]bool{}
	missing := func(st *State, err *Term) bool {
		for f, v := range st.facts {
			if v && f.op == "eq" && (f.args[0] == err || f.args[1] == err) && f.mentions(func(t *Term) bool {
				return t.op == "global" && strings.HasSuffix(t.aux, "ErrTraceNotFound")
			}) || v && isCall(f, "errors.Is") && f.args[0].origin() == err {
				return true
			}
		}
		return false
	}
	judge := func(st *State, items []*TItem, site ssa.Instruction) bool {
		ls, cs := callsOf(items, looks), callsOf(items, collects)
		if len(ls) == 0 && len(cs) == 0 {
			return false
		}
		if len(ls) != 1 {
			bad(site, "a trace is looked up %d times in the store, not once", len(ls))
			return true
		}
		r.Count("checks whether a trace exists", 1)
		id := ls[0].Args[1]
		x := (*Term)(nil)
		id.mentions(func(t *Term) bool {
			if l := rawElem(t); l == list && e.isElem(t, list) {
				x = t
			}
			return false
		})
		if x == nil || !strings.HasSuffix(pathText(id), "ID.Trace") {
			bad(ls[0].Site, "what is looked up in the store is not the ID of the trace that is uploaded")
			return true
		}
		err := e.errResult(ls[0])
		for _, c := range cs {
			if !missing(st, err) {
				bad(c.Site, "a trace is collected into the store that may have it already")
			}
			from, to := ls[0].Args[0].origin(), c.Args[0].origin()
			node := c.Args[w.tracePrm(c.Rec)]
			for i, a := range c.Args {
				if _, ok := c.Rec.Params[i].Type().Underlying().(*types.Interface); ok {
					to = a.origin()
				}
			}
			if at(from) != at(to) {
				bad(c.Site, "the trace is collected elsewhere than it was looked up")
			}
			if node != x {
				bad(c.Site, "what is collected is not the trace that is uploaded")
			}
		}
		if missing(st, err) && len(cs) != 1 {
			bad(site, "a trace that the store does not have is collected %d times", len(cs))
		}
		return true
	}
	e.OnIter = func(st *State, it *LoopIter) {
		key := loopName(it.Loop, it.Ctx)
		if !judge(st, it.Items, it.Site) {
			skips[key] = true
			return
		}
		good[key] = it
	}
	ends := 0
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			return
		}
		last := x.Results[len(x.Results)-1]
		if isErrorType(last.typ) || last.isNil() {
			if e.notNil(st, last) {
				return
			}
		}
		ends++
		all := e.empty(st, list)
		for k, it := range good {
			all = all || !skips[k] && e.walked(st, it.Loop, it.Ctx, list)
		}
		if !all {
			bad(x.Site, "success is reported on some path on which not every uploaded trace has been looked at")
		}
	}
	for round = 0; round < 2; round++ {
		e.visited = map[string]bool{}
		e.Run(fn, nil)
	}
	r.Use(e)
	r.Count("uploads", 1)
	if ends == 0 {
		r.Violate("upload", fnLabel(fn), fn.Pos(), "cannot be decided: no path that reports success was found")
	}
	w.passed(fn, li)
}

// pathText is the chain of fields that a value was read by.
func pathText(t *Term) string {
	_, path := fieldPath(t)
	return strings.Join(path, ".")
}

// passed: what was uploaded is passed on, all of it.
func (w *walkRule) passed(up *ssa.Function, li int) {
	r := w.r
	decoding := newRelevance(w.p, func(in ssa.Instruction) bool {
		return callTo(in, "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode")
	})
	for _, fn := range w.p.srcFn {
		calls := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == up {
					calls = true
				}
			}
		}
		if !calls || fn == up {
			continue
		}
		e := NewEngine(w.p)
		e.Loops = true
		e.Opaque = func(g *ssa.Function) bool { return g == up || g.Parent() == nil && !decoding.has(g) }
		isUp := func(ev *Event) bool { return ev != nil && ev.Kind == "call" && ev.Rec == up }
		decodes := func(ev *Event) bool {
			return ev != nil && ev.Kind == "call" && (ev.Name == "encoding/json.Unmarshal" || ev.Name == "(*encoding/json.Decoder).Decode")
		}
		seen := map[string]bool{}
		bad := func(site ssa.Instruction, format string, args ...any) {
			msg := fmt.Sprintf(format, args...)
			if !seen[msg] {
				seen[msg] = true
				r.Violate("passed", fnLabel(fn), site.Pos(), "%s", msg)
			}
		}
		e.Keep = func(st *State, ev *Event) bool { return isUp(ev) || decodes(ev) || isIfaceMethod(ev, "Trace") }
		sites := map[ssa.Instruction]bool{}
		e.OnEvent = func(st *State, ev *Event) {
			if decodes(ev) {
				st.pin(e.errResult(ev))
			}
			if isIfaceMethod(ev, "Trace") {
				for _, d := range callsOf(st.trace, decodes) {
					if d.Args[1].origin().op == "alloc" && len(callsOf(st.trace, isUp)) == 0 {
						bad(ev.Site, "the store is asked for a trace before the uploaded one is put there")
					}
				}
			}
			if !isUp(ev) {
				return
			}
			if !sites[ev.Site] {
				sites[ev.Site] = true
				r.Count("uploads of traces", 1)
			}
			ds := callsOf(st.trace, decodes)
			if len(ds) == 0 {
				bad(ev.Site, "what is uploaded has not been decoded")
				return
			}
			cell := ds[len(ds)-1].Args[1].origin()
			list := ev.Args[li]
			whole := at(list) == cell
			if els, ok := sliceElems(e, st, list); ok && len(els) == 1 && at(els[0]) == cell {
				whole = true
			}
			if !whole {
				bad(ev.Site, "what is uploaded is not, or not all of, what was decoded from the request")
			}
		}
		e.OnExit = func(st *State, x *Exit) {
			if x.Kind != "return" || len(x.Results) == 0 || e.notNil(st, x.Results[len(x.Results)-1]) {
				return
			}
			ds, us := callsOf(st.trace, decodes), callsOf(st.trace, isUp)
			if len(ds) > 0 && len(us) != 1 {
				bad(x.Site, "success is reported with %d uploads of the traces of the request", len(us))
			}
		}
		e.Run(fn, nil)
		r.Use(e)
	}
}

// exports: the page of a trace, its JSON form and its permalink are of the
// same trace, and what is compressed is complete.
func (w *walkRule) exports() {
	encoding := newRelevance(w.p, func(in ssa.Instruction) bool {
		return callTo(in, "(*encoding/json.Encoder).Encode", "encoding/json.MarshalIndent", "(*compress/gzip.Writer).Close")
	})
	for _, fn := range w.p.srcFn {
		ps := fn.Signature.Params()
		if strings.HasSuffix(fn.Pkg.Pkg.Path(), "/traceapp") && ps.Len() == 2 && ps.At(0).Type().String() == "net/http.ResponseWriter" && encoding.has(fn) {
			w.export(fn, encoding)
		}
	}
}

func (w *walkRule) export(fn *ssa.Function, encoding *relevance) {
	r := w.r
	e := NewEngine(w.p)
	e.Loops = true
	e.Opaque = func(g *ssa.Function) bool { return g.Parent() == nil && !encoding.has(g) }
	named := func(ev *Event, names ...string) bool {
		if ev == nil || ev.Kind != "call" {
			return false
		}
		for _, n := range names {
			if ev.Name == n {
				return true
			}
		}
		return false
	}
	ptr := types.NewPointer(w.trace)
	e.Keep = func(st *State, ev *Event) bool { return ev.Kind == "call" || ev.Kind == "store" }
	seen := map[string]bool{}
	bad := func(site ssa.Instruction, format string, args ...any) {
		msg := fmt.Sprintf(format, args...)
		if !seen[msg] {
			seen[msg] = true
			r.Violate("export", fnLabel(fn), site.Pos(), "%s", msg)
		}
	}
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind == "call" && ev.Sig != nil && returnsError(ev.Sig) {
			st.pin(e.errResult(ev))
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" || len(x.Results) == 0 || e.notNil(st, x.Results[len(x.Results)-1]) {
			return
		}
		var shown *Term
		use := func(site ssa.Instruction, t *Term, what string) {
			t = t.origin()
			if shown != nil && t != shown {
				bad(site, "%s is not made of the trace that is shown", what)
			}
			shown = t
		}
		for _, it := range st.trace {
			ev := it.Ev
			if ev != nil && ev.Kind == "store" && ev.Args[0].op == "fa" && ev.Args[1].typ != nil && types.Identical(ev.Args[1].typ, ptr) && ev.Args[0].args[0].op == "alloc" {
				use(ev.Site, ev.Args[1], "the page")
			}
		}
		if shown == nil {
			return
		}
		encoded, closed, read := 0, false, false
		json := 0
		for _, it := range st.trace {
			ev := it.Ev
			switch {
			case named(ev, "(*encoding/json.Encoder).Encode"):
				use(ev.Site, ev.Args[1], "the permalink")
				encoded++
				r.Count("exports of traces", 1)
			case named(ev, "(*compress/gzip.Writer).Close", "(*compress/gzip.Writer).Flush"):
				closed = closed || encoded > 0
			case named(ev, "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes"):
				if encoded > 0 && !closed {
					bad(ev.Site, "the permalink is read before all of the compressed trace has been written")
				}
				read = read || encoded > 0
			case named(ev, "encoding/json.MarshalIndent", "encoding/json.Marshal"):
				a := ev.Args[0].origin()
				if a.typ == nil {
					continue
				}
				if s, ok := a.typ.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), ptr) {
					json++
					r.Count("exports of traces", 1)
					els, ok := sliceElems(e, st, a)
					if !ok || len(els) != 1 {
						bad(ev.Site, "the JSON form is not a list of the trace")
						continue
					}
					use(ev.Site, els[0], "the JSON form")
				}
			}
		}
		if encoded != 1 || !read {
			bad(x.Site, "the page is shown without the trace having been put into its permalink once")
		}
		if json != 1 {
			bad(x.Site, "the page is shown without the JSON form of the trace")
		}
	}
	e.Run(fn, nil)
	r.Use(e)
}

// callTo: a call of one of the functions.
func callTo(in ssa.Instruction, names ...string) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	g := c.Common().StaticCallee()
	for _, n := range names {
		if g != nil && fnName(g) == n {
			return true
		}
	}
	return false
}
