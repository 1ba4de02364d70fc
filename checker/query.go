package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C25: queries ----

func init() {
	register(&Check{
		ID: "C25",
		Rule: "guarded results over every path: MemoryStore.Trace succeeds only where its map is known to have the ID, with that entry or a verified complete copy of it, and otherwise fails with the documented error; MemoryStore.Traces walks its whole map and, in each iteration, appends that iteration's trace once or knows that a complete set of the requested IDs is in use and lacks it; " +
			"the multi store's Trace asks its stores in order, goes on only after the documented error, and returns the answer of the last one asked; its Collect hands the same annotations to every store or fails; the multi queryer asks every queryer with the caller's options, fails if one fails, and appends each trace once, under the test that its ID has not been seen; " +
			"methods of the wrapping stores pass the query on to the store that they wrap",
		NotCover: "the Timespan option, which the memory store ignores; stores outside the package; the order of results",
		Run:      runC25,
	})
}

func isNotFound(t *Term) bool {
	t = t.origin()
	return t.op == "load" && t.args[0].op == "global" && strings.HasSuffix(t.args[0].aux, modPath+".ErrTraceNotFound")
}

// comparedNotFound: what the path knows of err == ErrTraceNotFound.
func (e *Engine) comparedNotFound(st *State, err *Term) (is, known bool) {
	if isNotFound(err) {
		return true, true
	}
	if e.isNil(st, err) {
		return false, true
	}
	for f, v := range st.facts {
		if f.op == "eq" && len(f.args) == 2 {
			for i := range f.args {
				if f.args[i].origin() == err.origin() && isNotFound(f.args[1-i]) {
					return v, true
				}
			}
		}
		if f.op == "call" && f.aux == "errors.Is" && f.args[0].origin() == err.origin() && isNotFound(f.args[1]) {
			return v, true
		}
	}
	return false, false
}

type query struct {
	r       *R
	t       *treeCheck
	copiers map[*ssa.Function]bool
}

func runC25(r *R) {
	t := newTree(r)
	if t == nil {
		return
	}
	q := &query{r: r, t: t, copiers: map[*ssa.Function]bool{}}
	q.lookup()
	q.list()
	q.multiStore()
	q.multiQueryer()
	q.wrappers()
}

// ---- copies of trees ----

// copierLike: a recursive function from a tree to a tree.
func (q *query) copierLike(fn *ssa.Function) bool {
	ok, done := q.copiers[fn]
	if done {
		return ok
	}
	q.copiers[fn] = false
	sig := fn.Signature
	if len(fn.Params) != 1 || !isTrace(fn.Params[0].Type()) || sig.Results().Len() != 1 || !isTrace(sig.Results().At(0).Type()) || len(fn.Blocks) == 0 {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function) bool
	reach = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, isC := in.(ssa.CallInstruction); isC {
					g := c.Common().StaticCallee()
					if g == fn {
						return true
					}
					if g != nil && q.r.P.InRepo(g) && !seen[g] {
						seen[g] = true
						if reach(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	ok = reach(fn)
	if ok {
		q.copiers[fn] = true
		q.verifyCopier(fn)
	}
	return ok
}

// verifyCopier: the result has the same ID, annotations and children.
func (q *query) verifyCopier(fn *ssa.Function) {
	r, t := q.r, q.t
	e := NewEngine(r.P)
	e.Loops = true
	old := t.e
	t.e = e
	defer func() { t.e = old }()
	node := e.Param(fn, 0)
	e.Opaque = func(f *ssa.Function) bool { return f != fn && q.copierLike(f) }
	lists := newLists(e, func(st *State, v *Term) string {
		if f, ok := v.obj.(*ssa.Function); ok && v.op == "call" && len(v.args) == 1 && q.copierLike(f) {
			if l := rawElem(v.args[0]); l != nil && e.isElem(v.args[0], l) {
				return fmt.Sprintf("src:%d", l.id)
			}
		}
		return "another child"
	})
	e.Keep = func(st *State, ev *Event) bool { return lists.isWrite(ev) || ev.Kind == "call" && ev.Rec == fn }
	e.OnIter = lists.iter
	judging := false
	var anns0, list0 *Term // the original's lists at the start: nothing changes them
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind == "builtin" && ev.Name == "copy" && ev.Args[0].op == "mk" {
			st.notes[fmt.Sprintf("copied:%d:%d", ev.Args[0].id, ev.Args[1].id)] = "1"
		}
		if ev.Kind == "store" && e.root(st, ev.Args[0]) == node && judging {
			r.Violate("copy-changes", fnLabel(fn), ev.Site.Pos(), "copying a trace changes the original")
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if !judging || x.Kind != "return" {
			return
		}
		r.Count("paths of copying functions", 1)
		at := func(f string, args ...any) { r.Violate("copy", fnLabel(fn), x.Site.Pos(), f, args...) }
		c := x.Results[0]
		if f, ok := c.obj.(*ssa.Function); ok && c.op == "call" && q.isEntry(c, node) && f != fn {
			return // its own rule
		}
		if e.isNil(st, c) {
			if !e.isNil(st, node) {
				at("a trace may be copied to nil")
			}
			return
		}
		for i := 0; i < t.spanID.Underlying().(*types.Struct).NumFields(); i++ {
			if e.fval(st, t.idAddr(c), t.spanID, i) != e.fval(st, t.idAddr(node), t.spanID, i) {
				at("the copy of a trace has another ID")
			}
		}
		anns := func(x *Term) *Term { a := t.annsAddr(x); return e.peek(st, a, deref(a.typ)) }
		have, want := anns(c), anns(node)
		if copiedFrom(e, st, have) == anns0 {
			want = anns0
		}
		if have != want && copiedFrom(e, st, have) != want && !(e.empty(st, have) && e.empty(st, want)) {
			b, ps := e.appended(have)
			if !(len(ps) == 1 && (e.empty(st, b) || e.lenZero(b)) && e.wholeCopy(st, ps[0], want)) && !madeCopy(e, st, have, want) {
				at("the copy of a trace does not have exactly the original's annotations (%s)", have)
			}
		}
		sub := func(x *Term) *Term { return e.fval(st, x, t.trace, t.sub) }
		if l, w := sub(c), sub(node); l != w && l != list0 {
			_, ok := lists.source(st, l, list0)
			if why, ok2 := lists.source(st, l, w); !ok && !ok2 {
				at("the copy of a trace does not have a copy of each of the original's children: %s", why)
			}
		}
	}
	start := func(st *State) {
		a := t.annsAddr(node)
		anns0, list0 = e.peek(st, a, deref(a.typ)), e.fval(st, node, t.trace, t.sub)
	}
	e.Run(fn, start)
	judging = true
	lists.by, lists.iters, lists.writes = map[*Term]map[string]bool{}, map[string]int{}, map[*Term]int{}
	e.visited = map[string]bool{}
	e.Run(fn, start)
	r.Use(e)
	r.Count("verified copying functions", 1)
}

// madeCopy: dst was made with src's length, and src was copied to it.
func madeCopy(e *Engine, st *State, dst, src *Term) bool {
	return dst.op == "mk" && st.notes[fmt.Sprintf("copied:%d:%d", dst.id, src.id)] != "" && e.T.Len(dst) == e.T.Len(src)
}

// isEntry: v is x, or a verified copy of it.
func (q *query) isEntry(v, x *Term) bool {
	if v == x {
		return true
	}
	if v.op == "call" {
		if fn, ok := v.obj.(*ssa.Function); ok && q.copiers[fn] && len(v.args) == 1 {
			return v.args[0] == x
		}
	}
	return false
}

// ---- the memory store ----

func (q *query) lookup() {
	r, t := q.r, q.t
	fn := r.P.Method("", "MemoryStore", "Trace")
	if !r.Require(fn != nil && len(fn.Params) == 2, "anchor", "MemoryStore.Trace") {
		return
	}
	e := NewEngine(r.P)
	t.e = e
	e.Opaque = q.copierLike
	recv, id := e.Param(fn, 0), e.Param(fn, 1)
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind == "mapread" {
			if m := ev.Args[0]; m == e.fval(st, recv, t.ms, t.traces) && ev.Args[1] == id {
				el := m.typ.Underlying().(*types.Map).Elem()
				v, ok := e.peek(st, t.entry(m, id, el), el), e.peek(st, t.present(m, id), types.Typ[types.Bool])
				st.pin(v)
				st.pin(ok)
				st.notes["entry"], st.notes["present"] = fmt.Sprint(v.id), fmt.Sprint(ok.id)
			}
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			return
		}
		r.Count("paths of MemoryStore.Trace", 1)
		at := func(f string, args ...any) { r.Violate("lookup", fnLabel(x.Fn), x.Site.Pos(), f, args...) }
		if st.notes["entry"] == "" {
			at("a lookup returns without having looked for the trace in the store")
			return
		}
		v, ok := e.T.all[atoi(st.notes["entry"])-1], e.T.all[atoi(st.notes["present"])-1]
		in := e.isTrue(st, ok) || e.notNil(st, v)
		out := e.isFalse(st, ok) || e.isNil(st, v)
		er := x.Results[1]
		switch {
		case e.isNil(st, er):
			if !in {
				at("a lookup can succeed although the store may not have the trace")
			}
			if !q.isEntry(x.Results[0], v) {
				at("a lookup returns something other than the stored trace or a copy of it")
			}
			r.Count("traces found", 1)
		case isNotFound(er):
			if !out {
				at("a lookup can report that a trace is not found although the store may have it")
			}
			r.Count("traces not found", 1)
		default:
			at("a lookup can return an error other than the documented ErrTraceNotFound")
		}
	}
	e.Run(fn, nil)
	r.Use(e)
	r.Floor("traces found", 1)
	r.Floor("traces not found", 1)
}

// idSet recognises collections of IDs that hold exactly the elements of a
// list: maps that a loop fills.
type idSet struct {
	e     *Engine
	iters map[string]*LoopIter
	skips map[string]map[*Term]bool // loop -> maps that some iteration leaves alone
	into  map[string]map[*Term]*Term
}

// note records one iteration: map m gets the element of list src.
func (s *idSet) note(st *State, it *LoopIter) {
	e := s.e
	key := loopName(it.Loop, it.Ctx)
	s.iters[key] = it
	got := map[*Term]*Term{}
	for _, u := range callsOf(it.Items, func(ev *Event) bool { return ev.Kind == "mapupdate" }) {
		m, k, v := u.Args[0], u.Args[1], u.Args[2]
		if m.op != "mk" {
			continue
		}
		if b, ok := v.boolVal(); ok && !b {
			got[m] = nil
			continue
		}
		if l := rawElem(k); l != nil && e.isElem(k, l) {
			if _, dup := got[m]; !dup {
				got[m] = l
			}
		} else {
			got[m] = nil
		}
	}
	if s.into[key] == nil {
		s.into[key] = map[*Term]*Term{}
		for m, l := range got {
			s.into[key][m] = l
		}
		return
	}
	for m := range s.into[key] {
		if got[m] != s.into[key][m] {
			s.into[key][m] = nil
		}
	}
}

// of: m holds exactly the IDs of list src on this path.
func (s *idSet) of(st *State, m, src *Term) bool {
	for key, it := range s.iters {
		if l := s.into[key][m]; l != nil && l == src && s.e.walked(st, it.Loop, it.Ctx, src) {
			return true
		}
	}
	return false
}

func (q *query) list() {
	r, t := q.r, q.t
	fn := r.P.Method("", "MemoryStore", "Traces")
	opts := r.P.Named("", "TracesOpts")
	if !r.Require(fn != nil && len(fn.Params) == 2 && opts != nil && fieldNamed(opts, "TraceIDs") >= 0, "anchor", "MemoryStore.Traces(TracesOpts)") {
		return
	}
	e := NewEngine(r.P)
	t.e = e
	e.Loops = true
	e.Opaque = q.copierLike
	recv := e.Param(fn, 0)
	ids := e.fieldOf(e.Param(fn, 1), opts, fieldNamed(opts, "TraceIDs"))
	set := &idSet{e: e, iters: map[string]*LoopIter{}, into: map[string]map[*Term]*Term{}}
	traces := func(st *State) *Term { return e.fval(st, recv, t.ms, t.traces) }
	// scans: inner loops that compare a key with the elements of the list.
	scans := map[string]*scan{}
	unfiltered := func(st *State) bool {
		if e.empty(st, ids) {
			return true
		}
		for f, v := range st.facts {
			if f.op != "eq0" || !v {
				continue
			}
			for x := range f.obj.(linear).coef {
				if x.op == "len" && x.args[0].op == "mk" && len(f.obj.(linear).coef) == 1 && f.obj.(linear).k == 0 && set.of(st, x.args[0], ids) {
					return true
				}
			}
		}
		for f, v := range st.facts { // !(0 < len)
			if f.op != "lt0" {
				continue
			}
			lin := f.obj.(linear)
			for x, c := range lin.coef {
				if x.op == "len" && x.args[0].op == "mk" && len(lin.coef) == 1 && set.of(st, x.args[0], ids) {
					if c == 1 && v && lin.k == -1 || c == -1 && !v && lin.k == 0 {
						return true
					}
				}
			}
		}
		return false
	}
	member := func(st *State, k *Term) (is, known bool) {
		for f, v := range st.facts {
			g := f
			if g.op == "load" && (g.args[0].op == "me" || g.args[0].op == "mok") && g.args[0].args[1] == k && set.of(st, g.args[0].args[0], ids) {
				return v, true
			}
			if g.op == "call" && strings.HasPrefix(g.aux, "slices.Contains") && len(g.args) == 2 && g.args[0] == ids && g.args[1] == k {
				return v, true
			}
		}
		if st.notes[fmt.Sprintf("in:%d", k.id)] != "" {
			return true, true
		}
		for _, sc := range scans {
			if sc.k == k && e.walked(st, sc.it.Loop, sc.it.Ctx, ids) {
				return false, true
			}
		}
		return false, false
	}
	isAppend := func(ev *Event) bool {
		return ev.Kind == "builtin" && ev.Name == "append" && ev.Res != nil && isTraces(ev.Res.typ)
	}
	e.Keep = func(st *State, ev *Event) bool {
		return isAppend(ev) || ev.Kind == "mapupdate" || ev.Kind == "call" && ev.Rec != nil
	}
	judging := false
	at := func(fn *ssa.Function, site ssa.Instruction, f string, args ...any) {
		if judging {
			r.Violate("query", fnLabel(fn), site.Pos(), f, args...)
		}
	}
	lists := map[*Term]*LoopIter{}
	e.OnIter = func(st *State, it *LoopIter) {
		set.note(st, it)
		key := loopName(it.Loop, it.Ctx)
		if k := compared(e, st, it, ids, false); scans[key] == nil {
			scans[key] = &scan{it: it, k: k}
		} else if scans[key].k != k {
			scans[key].k = nil
		}
		// The walk over the stored traces.
		var k *Term
		for _, f := range e.T.all {
			if f.op == "nextok" && f.ctx == it.Ctx && f.site.Block() == it.Loop.header && f.args[0].args[0] == traces(st) {
				k = e.nextKey(f)
			}
		}
		apps := callsOf(it.Items, isAppend)
		defer delete(st.notes, fmt.Sprintf("in:%d", idOf(k)))
		if k == nil {
			if len(apps) > 0 {
				at(apps[0].Fn, apps[0].Site, "cannot be decided: traces are selected in a loop that does not walk the stored traces")
			}
			return
		}
		if judging {
			r.Count("iterations over the stored traces", 1)
		}
		if m := traces(st); e.isFalse(st, e.peek(st, t.present(m, k), types.Typ[types.Bool])) {
			return // the key that the walk is at is in the map
		}
		if is, known := member(st, k); len(apps) == 0 {
			if !(known && !is) {
				at(fn, it.Site, "a stored trace may be left out although it is not known to be excluded by the requested IDs")
			}
			if judging {
				r.Count("traces left out", 1)
			}
		} else {
			if !(known && is) && !unfiltered(st) {
				at(apps[0].Fn, apps[0].Site, "a trace may be returned although other IDs are requested")
			}
			if len(apps) > 1 {
				at(apps[0].Fn, apps[0].Site, "a trace is returned twice")
			}
			a := apps[0].Res
			if a.op != "append" || len(a.args) != 2 || !q.isEntryOf(e, st, t, a.args[1], traces(st), k) {
				at(apps[0].Fn, apps[0].Site, "what is returned for a trace is not the stored trace or a copy of it (%s)", a)
				return
			}
			lists[a.args[0]] = it
			if judging {
				r.Count("traces selected", 1)
			}
		}
	}
	e.OnLeave = func(st *State, it *LoopIter, whole bool) {
		if k := compared(e, st, it, ids, true); k != nil && !whole {
			st.notes[fmt.Sprintf("in:%d", k.id)] = "1"
		}
	}
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind == "mapread" && ev.Args[0].op == "mk" {
			st.pin(ev.Args[1])
		}
		if ev.Kind == "unlock" && e.root(st, ev.Args[0]) == recv {
			st.notes["map"] = fmt.Sprint(traces(st).id)
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if !judging || x.Kind != "return" {
			return
		}
		r.Count("paths of MemoryStore.Traces", 1)
		if e.notNil(st, x.Results[1]) {
			return
		}
		l := x.Results[0]
		it := lists[l]
		m := e.T.all[max(atoi(st.notes["map"])-1, 0)]
		if it == nil || !e.walked(st, it.Loop, it.Ctx, m) {
			at(x.Fn, x.Site, "a query can succeed without having walked all stored traces")
			return
		}
		for v := range e.PhiIn[l] {
			if !e.empty(st, v) && !e.lenZero(v) {
				at(x.Fn, x.Site, "the result of a query does not start empty")
			}
		}
		for v := range e.PhiBk[l] {
			if b, ps := e.appendedTo(v, l); b != l || len(ps) > 1 {
				at(x.Fn, x.Site, "the result of a query is not the list of selected traces")
			}
		}
	}
	e.Run(fn, nil) // learns the loops' variables
	e.visited = map[string]bool{}
	lists, set.into, scans = map[*Term]*LoopIter{}, map[string]map[*Term]*Term{}, map[string]*scan{}
	e.Run(fn, nil) // learns what the loops do
	e.visited = map[string]bool{}
	judging = true
	e.Run(fn, nil)
	r.Use(e)
	r.Floor("traces selected", 1)
	r.Floor("traces left out", 1)
	r.Floor("paths of MemoryStore.Traces", 1)
}

// A scan is an inner loop that goes on only while the element differs from a
// key.
type scan struct {
	it *LoopIter
	k  *Term // nil: some iteration goes on for another reason
}

// compared finds the key that a path knows to be equal to, or different from,
// the loop's element.
func compared(e *Engine, st *State, it *LoopIter, ids *Term, want bool) *Term {
	for f, v := range st.facts {
		if v != want || f.op != "eq" && f.op != "eq0" {
			continue
		}
		var terms []*Term
		if f.op == "eq" {
			terms = f.args
		} else {
			lin := f.obj.(linear)
			if len(lin.coef) != 2 || lin.k != 0 {
				continue
			}
			sum := int64(0)
			for x, c := range lin.coef {
				terms = append(terms, x)
				sum += c
			}
			if sum != 0 {
				continue
			}
		}
		for i, x := range terms {
			if rawElem(x) == ids && e.isElem(x, ids) && elemTerm(e, x, it) {
				return terms[1-i]
			}
		}
	}
	return nil
}

// nextKey is the key of the iteration that a nextok fact is about.
func (e *Engine) nextKey(ok *Term) *Term {
	for _, t := range e.T.all {
		if t.op == "nextk" && t.args[0] == ok.args[0] && t.site == ok.site && t.ctx == ok.ctx {
			return t
		}
	}
	return nil
}

// isEntryOf: v is m's entry k, or a verified copy of it.
func (q *query) isEntryOf(e *Engine, st *State, t *treeCheck, v, m, k *Term) bool {
	if v.op == "call" {
		if fn, ok := v.obj.(*ssa.Function); ok && q.copiers[fn] && len(v.args) == 1 {
			v = v.args[0]
		}
	}
	if v.op == "nextv" && k.op == "nextk" && v.args[0] == k.args[0] {
		return true
	}
	a := at(v)
	return a != nil && a.op == "me" && a.args[0] == m && a.args[1] == k
}

// ---- several stores ----

// combined finds the type that a constructor of a variadic list of parts
// returns, and the field that holds the parts.
func (q *query) combined(ctor string) (n *types.Named, field int) {
	r := q.r
	fn := r.P.Func("", ctor)
	if !r.Require(fn != nil && len(fn.Params) == 1, "anchor", ctor) {
		return nil, 0
	}
	e := NewEngine(r.P)
	e.Loops = true
	field = -1
	parts := e.Param(fn, 0)
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			return
		}
		v := x.Results[0].origin()
		r.Count("paths of "+ctor, 1)
		var nt *types.Named
		var s *types.Struct
		value := v
		if v.typ != nil {
			if p, ok := v.typ.Underlying().(*types.Pointer); ok {
				nt, _ = p.Elem().(*types.Named)
				value = nil
			} else {
				nt, _ = v.typ.(*types.Named)
			}
			if nt != nil {
				s, _ = nt.Underlying().(*types.Struct)
			}
		}
		if s == nil && nt != nil && types.Identical(nt.Underlying(), parts.typ) && v == parts {
			n, field = nt, -2
			return
		}
		if s != nil {
			for i := 0; i < s.NumFields(); i++ {
				var f *Term
				if value == nil {
					f = e.fval(st, v, nt, i)
				} else {
					f = e.fieldOf(v, nt, i)
				}
				if f == parts || copiedFrom(e, st, f) == parts {
					n, field = nt, i
					return
				}
			}
		}
		r.Violate("combine", fnLabel(fn), x.Site.Pos(), "cannot be decided: what %s returns does not hold exactly the list it is given", ctor)
	}
	e.Run(fn, nil)
	r.Use(e)
	if field == -1 {
		return nil, 0
	}
	return n, field
}

// part reports that v is the element of the walk over the receiver's list.
func (q *query) part(e *Engine, st *State, v *Term, list *Term) bool { return e.isElem(v, list) }

func (q *query) partsOf(e *Engine, st *State, fn *ssa.Function, n *types.Named, field int) *Term {
	recv := e.Param(fn, 0)
	if field == -2 {
		return recv
	}
	if _, ok := recv.typ.Underlying().(*types.Pointer); ok {
		return e.fval(st, recv, n, field)
	}
	return e.fieldOf(recv, n, field)
}

func (q *query) method(n *types.Named, name string) *ssa.Function {
	for _, m := range q.r.P.methodsOf(n) {
		if m.Name() == name {
			return m
		}
	}
	return nil
}

func (q *query) multiStore() {
	r := q.r
	n, field := q.combined("MultiStore")
	if n == nil {
		return
	}
	trace, collect := q.method(n, "Trace"), q.method(n, "Collect")
	if !r.Require(trace != nil && collect != nil && len(trace.Params) == 2 && len(collect.Params) == 3, "anchor", "the multi store's methods Trace and Collect") {
		return
	}
	// Trace
	{
		e := NewEngine(r.P)
		e.Loops = true
		id := e.Param(trace, 1)
		isAsk := func(ev *Event) bool { return isIfaceMethod(ev, "Trace") }
		e.Keep = func(st *State, ev *Event) bool { return isAsk(ev) }
		judging := false
		at := func(site ssa.Instruction, f string, args ...any) {
			if judging {
				r.Violate("multi-store", fnLabel(trace), site.Pos(), f, args...)
			}
		}
		e.OnEvent = func(st *State, ev *Event) {
			if !isAsk(ev) {
				return
			}
			if judging {
				r.Count("stores asked", 1)
			}
			if ev.Args[1] != id {
				at(ev.Site, "a store is asked for another trace")
			}
			if !e.isElem(ev.Args[0], q.partsOf(e, st, trace, n, field)) {
				at(ev.Site, "the stores are not asked in order")
			}
		}
		loops := map[string]*LoopIter{}
		skips := map[string]bool{}
		e.OnIter = func(st *State, it *LoopIter) {
			key := loopName(it.Loop, it.Ctx)
			loops[key] = it
			asks := callsOf(it.Items, isAsk)
			if len(asks) != 1 {
				skips[key] = true
				if len(asks) > 1 {
					at(it.Site, "a store is asked more than once")
				}
				return
			}
			if is, known := e.comparedNotFound(st, e.errResult(asks[0])); !known || !is {
				at(it.Site, "the next store is asked although the last one did not answer that it does not have the trace")
			}
		}
		e.OnExit = func(st *State, x *Exit) {
			if x.Kind != "return" {
				return
			}
			if judging {
				r.Count("paths of the multi store's Trace", 1)
			}
			list := q.partsOf(e, st, trace, n, field)
			asks := callsOf(st.trace, isAsk)
			er := x.Results[1]
			if len(asks) == 0 {
				all := e.empty(st, list)
				for key, it := range loops {
					all = all || !skips[key] && e.walked(st, it.Loop, it.Ctx, list)
				}
				if !all || !isNotFound(er) {
					at(x.Site, "a lookup can return without an answer from one of the stores, and without all of them lacking the trace")
				}
				if judging {
					r.Count("lookups that no store answers", 1)
				}
				return
			}
			last := asks[len(asks)-1]
			le := e.errResult(last)
			switch {
			case e.isNil(st, er) || er == le && !e.notNil(st, le):
				if !(e.isNil(st, le) || er == le) {
					at(x.Site, "a lookup can succeed although the store asked last has failed")
				}
				if x.Results[0] != e.ResultTerm(last, 0) {
					at(x.Site, "a lookup does not return the answer of the store asked last")
				}
				if is, known := e.comparedNotFound(st, le); !known || is {
					at(x.Site, "a lookup can end at a store that does not have the trace")
				}
			case er == le || er.has(le):
				if is, known := e.comparedNotFound(st, le); !known || is {
					at(x.Site, "a lookup can end at a store that does not have the trace")
				}
			default:
				at(x.Site, "the error of a store is replaced")
			}
		}
		e.Run(trace, nil)
		judging = true
		loops, skips = map[string]*LoopIter{}, map[string]bool{}
		e.visited = map[string]bool{}
		e.Run(trace, nil)
		r.Use(e)
		r.Floor("stores asked", 1)
		r.Floor("paths of the multi store's Trace", 3)
		r.Floor("lookups that no store answers", 1)
	}
	// Collect
	{
		e := NewEngine(r.P)
		e.Loops = true
		id, anns := e.Param(collect, 1), e.Param(collect, 2)
		keep, lossy := map[string]map[*Term]bool{}, map[string]bool{}
		e.Keep = func(st *State, ev *Event) bool { return isCollect(ev) }
		judging := false
		at := func(site ssa.Instruction, f string, args ...any) {
			if judging {
				r.Violate("multi-store", fnLabel(collect), site.Pos(), f, args...)
			}
		}
		e.OnEvent = func(st *State, ev *Event) {
			if !isCollect(ev) {
				return
			}
			if judging {
				r.Count("stores collected into", 1)
			}
			if ev.Args[1] != id || lastArg(ev) != anns {
				at(ev.Site, "a store is given another span or other annotations")
			}
		}
		loops, skips := map[string]*LoopIter{}, map[string]bool{}
		e.OnIter = func(st *State, it *LoopIter) {
			key := loopName(it.Loop, it.Ctx)
			loops[key] = it
			cs := callsOf(it.Items, isCollect)
			if len(cs) != 1 || !e.isElem(cs[0].Args[0], q.partsOf(e, st, collect, n, field)) {
				skips[key] = true
				return
			}
			er := e.errResult(cs[0])
			if e.isNil(st, er) && keep[key] == nil {
				return
			}
			// Kept for later: a variable that an error makes and leaves non-nil.
			ok := map[*Term]bool{}
			for p, v := range it.Vals {
				if _, is := p.typ.Underlying().(*types.Interface); !is {
					continue
				}
				old := e.isNil(st, p) || v == p || v.has(p)
				now := e.isNil(st, er) || v == er || v.has(er) || v == p && e.notNil(st, p)
				ok[p] = old && now && (keep[key] == nil || keep[key][p])
			}
			lossy[key] = lossy[key] || !e.isNil(st, er)
			keep[key] = ok
		}
		e.OnExit = func(st *State, x *Exit) {
			if x.Kind != "return" || e.notNil(st, x.Results[0]) {
				return
			}
			list := q.partsOf(e, st, collect, n, field)
			all := e.empty(st, list)
			for key, it := range loops {
				all = all || !skips[key] && e.walked(st, it.Loop, it.Ctx, list)
			}
			for key := range loops {
				if lossy[key] && !keep[key][x.Results[0]] {
					at(x.Site, "the error of a store may be lost")
				}
			}
			if judging {
				r.Count("paths on which collecting into several stores succeeds", 1)
			}
			if !all {
				at(x.Site, "collecting can succeed without every store having been given the annotations")
			}
		}
		e.Run(collect, nil)
		judging = true
		loops, skips = map[string]*LoopIter{}, map[string]bool{}
		e.visited = map[string]bool{}
		e.Run(collect, nil)
		r.Use(e)
		r.Floor("stores collected into", 1)
		r.Floor("paths on which collecting into several stores succeeds", 1)
	}
}

func (q *query) multiQueryer() {
	r, t := q.r, q.t
	n, field := q.combined("MultiQueryer")
	if n == nil {
		return
	}
	fn := q.method(n, "Traces")
	if !r.Require(fn != nil && len(fn.Params) == 2, "anchor", "the multi queryer's method Traces") {
		return
	}
	e := NewEngine(r.P)
	t.e = e
	e.Loops = true
	opts := e.Param(fn, 1)
	isAsk := func(ev *Event) bool { return isIfaceMethod(ev, "Traces") }
	isAppend := func(ev *Event) bool {
		return ev.Kind == "builtin" && ev.Name == "append" && ev.Res != nil && isTraces(ev.Res.typ)
	}
	e.Keep = func(st *State, ev *Event) bool { return isAsk(ev) || isAppend(ev) || ev.Kind == "mapupdate" }
	judging := false
	at := func(site ssa.Instruction, f string, args ...any) {
		if judging {
			r.Violate("multi-queryer", fnLabel(fn), site.Pos(), f, args...)
		}
	}
	traceID := func(st *State, x *Term) *Term {
		return e.fval(st, t.idAddr(x), t.spanID, fieldNamed(t.spanID, "Trace"))
	}
	// seen: what the path knows of the presence of a key in a set.
	seen := func(st *State, m, k *Term) (is, known bool) {
		el := m.typ.Underlying().(*types.Map).Elem()
		if ok := e.peek(st, t.present(m, k), types.Typ[types.Bool]); e.isTrue(st, ok) || e.isFalse(st, ok) {
			return e.isTrue(st, ok), true
		}
		if isBoolType(el) {
			if v := e.peek(st, t.entry(m, k, el), el); e.isTrue(st, v) || e.isFalse(st, v) {
				return e.isTrue(st, v), true
			}
		}
		return false, false
	}
	sets := map[*Term]bool{}
	fresh := map[*Event]bool{} // additions of a key known to be new
	lists := map[*Term]*LoopIter{}
	inner := map[string]*LoopIter{}
	e.OnEvent = func(st *State, ev *Event) {
		switch {
		case isAsk(ev):
			if judging {
				r.Count("queryers asked", 1)
			}
			if ev.Args[1] != opts {
				at(ev.Site, "a queryer is asked with other options than the caller's")
			}
		case ev.Kind == "mapupdate":
			is, known := seen(st, ev.Args[0], ev.Args[1])
			fresh[ev] = known && !is
		}
	}
	outerDone := map[string]*LoopIter{}
	skips := map[string]bool{}
	e.OnIter = func(st *State, it *LoopIter) {
		key := loopName(it.Loop, it.Ctx)
		asks := callsOf(it.Items, isAsk)
		if len(asks) > 0 {
			outerDone[key] = it
			if len(asks) > 1 || !e.isElem(asks[0].Args[0], q.partsOf(e, st, fn, n, field)) {
				at(it.Site, "the queryers are not asked once each")
				skips[key] = true
				return
			}
			for m := range sets {
				if siteIn(m.site, m.ctx, it.Loop, it.Ctx) {
					at(it.Site, "what has been seen is forgotten between two queryers")
				}
			}
			er := e.errResult(asks[0])
			if !e.isNil(st, er) {
				at(it.Site, "the error of a queryer may be lost")
			}
			got := e.ResultTerm(asks[0], 0)
			all := e.empty(st, got)
			for _, in := range inner {
				all = all || e.walked(st, in.Loop, in.Ctx, got)
			}
			if !all {
				at(it.Site, "not all traces that a queryer returned are looked at")
			}
			return
		}
		// The loop over a queryer's answer.
		var x *Term
		apps := callsOf(it.Items, isAppend)
		if len(apps) == 1 && apps[0].Res.op == "append" && len(apps[0].Res.args) == 2 {
			x = apps[0].Res.args[1]
		} else if len(apps) > 0 {
			at(apps[0].Site, "cannot be decided: several traces are appended at once")
			return
		}
		if x != nil {
			l := rawElem(x)
			if l == nil || !e.isElem(x, l) {
				at(apps[0].Site, "what is appended is not the trace that the iteration is about")
				return
			}
			inner[key] = it
			ok := false
			for _, u := range callsOf(it.Items, func(ev *Event) bool { return ev.Kind == "mapupdate" }) {
				if b, isB := u.Args[2].boolVal(); isB && !b {
					continue
				}
				if u.Args[0].op == "mk" && u.Args[1] == traceID(st, x) && fresh[u] {
					ok = true
					sets[u.Args[0]] = true
				}
			}
			if !ok {
				at(apps[0].Site, "a trace may be returned twice: it is not appended under the test that its trace ID is new, and then recorded as seen")
			}
			lists[apps[0].Res.args[0]] = it
			if judging {
				r.Count("traces appended", 1)
			}
			return
		}
		// Nothing appended: the ID must be known to have been seen.
		skipped := false
		for f, v := range st.facts {
			g := f
			if v && g.op == "load" && (g.args[0].op == "mok" || g.args[0].op == "me") && g.args[0].args[0].op == "mk" {
				k := g.args[0].args[1]
				if b, p := fieldPath(k); strings.Join(p, ".") != "" && strings.HasSuffix(strings.Join(p, "."), "Trace") && elemTerm(e, k, it) {
					_ = b
					skipped = true
				}
			}
		}
		if len(it.Vals) == 0 {
			return
		}
		inner[key] = it
		if !skipped {
			at(it.Site, "a trace may be left out although none with its ID has been returned")
		}
		if judging {
			r.Count("duplicates left out", 1)
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if !judging || x.Kind != "return" {
			return
		}
		r.Count("paths of the multi queryer", 1)
		if e.notNil(st, x.Results[1]) {
			return
		}
		for _, a := range callsOf(st.trace, isAsk) {
			if !e.isNil(st, e.errResult(a)) && x.Results[1] != e.errResult(a) {
				at(x.Site, "the error of a queryer may be lost")
			}
		}
		list := q.partsOf(e, st, fn, n, field)
		all := e.empty(st, list)
		for key, it := range outerDone {
			all = all || !skips[key] && e.walked(st, it.Loop, it.Ctx, list)
		}
		if !all {
			at(x.Site, "a query can succeed without every queryer having been asked")
		}
		// The result is the accumulator of these loops.
		if !q.accumulates(e, st, x.Results[0], lists, map[*Term]bool{}) {
			at(x.Site, "the result of a query is not the list of the traces found (%s)", x.Results[0])
		}
	}
	e.Run(fn, nil)
	judging = true
	e.visited = map[string]bool{}
	e.Run(fn, nil)
	r.Use(e)
	r.Floor("queryers asked", 1)
	r.Floor("traces appended", 1)
	r.Floor("duplicates left out", 1)
}

// accumulates: v starts empty and only grows by the appends judged.
func (q *query) accumulates(e *Engine, st *State, v *Term, lists map[*Term]*LoopIter, seen map[*Term]bool) bool {
	if seen[v] || e.empty(st, v) || e.lenZero(v) {
		return true
	}
	seen[v] = true
	switch v.op {
	case "append":
		return len(v.args) == 2 && lists[v.args[0]] != nil && q.accumulates(e, st, v.args[0], lists, seen)
	case "loopphi":
		ok := len(e.PhiIn[v]) > 0
		for x := range e.PhiIn[v] {
			ok = ok && q.accumulates(e, st, x, lists, seen)
		}
		for x := range e.PhiBk[v] {
			ok = ok && q.accumulates(e, st, x, lists, seen)
		}
		return ok
	}
	return false
}

// elemTerm: k is read from the element that the iteration is about.
func elemTerm(e *Engine, k *Term, it *LoopIter) bool {
	return k.mentions(func(y *Term) bool { return y.op == "loopphi" && y.ctx == it.Ctx && y.site.Block() == it.Loop.header })
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// ---- wrapping stores ----

// wrappers: stores that embed another store answer from it.
func (q *query) wrappers() {
	r := q.r
	pk := r.P.Pkgs[""]
	sc := pk.Types.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		emb := fieldsOf(n, func(v *types.Var) bool {
			return v.Embedded() && types.IsInterface(v.Type()) && hasMethod(v.Type(), "Trace")
		})
		if len(emb) != 1 {
			continue
		}
		r.Count("wrapping stores", 1)
		fn := q.method(n, "Trace")
		if fn == nil {
			r.Count("promoted lookups", 1)
			continue
		}
		e := NewEngine(r.P)
		isAsk := func(ev *Event) bool { return isIfaceMethod(ev, "Trace") }
		e.Keep = func(st *State, ev *Event) bool { return isAsk(ev) }
		e.OnExit = func(st *State, x *Exit) {
			if x.Kind != "return" {
				return
			}
			asks := callsOf(st.trace, isAsk)
			ok := len(asks) == 1 && asks[0].Args[1] == e.Param(fn, 1)
			if ok {
				ok = x.Results[0] == e.ResultTerm(asks[0], 0) && x.Results[1] == e.ResultTerm(asks[0], 1) || e.notNil(st, e.errResult(asks[0])) && e.notNil(st, x.Results[1])
			}
			if !ok {
				r.Violate("wrapper", fnLabel(fn), x.Site.Pos(), "a lookup does not return the answer of the wrapped store")
			}
		}
		e.Run(fn, nil)
		r.Use(e)
	}
	r.Floor("wrapping stores", 2)
}

func hasMethod(t types.Type, name string) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for k := 0; k < i.NumMethods(); k++ {
		if i.Method(k).Name() == name {
			return true
		}
	}
	return false
}

func idOf(t *Term) int {
	if t == nil {
		return 0
	}
	return t.id
}
