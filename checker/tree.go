package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C13: trees of spans ----

func init() {
	register(&Check{
		ID: "C13",
		Rule: "link balance over every path of MemoryStore.Collect, with the helpers inlined: a span found in the index only has the whole argument appended to its annotations; a span not found is a new node with the collected ID and annotations, entered in the index under its ID, which becomes either the root or the child of exactly one node; " +
			"a root that it replaces becomes the child of exactly one node; in every loop over a node's children each child is, in each iteration, either linked once elsewhere or kept once in the list that replaces the node's children after a complete walk; " +
			"a node is linked only below a new node that has no parent yet, or after a verified search of its subtree has not found the new parent, or when it is new and childless; no other write to a list of children, no removal from the index, no panic and no access through a map entry not known to exist is reachable",
		NotCover: "trees restored from a file that already break the property",
		Run:      runC13,
	})
}

type link struct {
	p, x *Term // child x of p; x is a list if list
	list bool
}

type listDesc struct {
	it     *LoopIter
	src    *Term
	desc   map[string]bool
	guards map[*Term]bool // IDs not found below any of the elements
	first  bool
}

type treeCheck struct {
	r                       *R
	e                       *Engine
	ms, trace, span, spanID *types.Named
	traces, spans           int // MemoryStore's fields
	sub, embedded           int // Trace's fields
	id, anns                int // Span's fields
	fn                      *ssa.Function
	recv, idp, as           *Term
	links                   map[*Event]*link
	displaced               map[*Event]*Term
	lists                   map[*Term]map[*Term]*listDesc // by list and the list that it was made from
	owners                  map[string]map[*Term]bool     // loop -> nodes that get children in it
	searches                map[*ssa.Function][2]int
	quiet                   bool
	tried                   map[*ssa.Function]bool
}

func mapType(t types.Type) string { return types.TypeString(t.Underlying(), nil) }

func newTree(r *R) *treeCheck {
	p := r.P
	t := &treeCheck{r: r, ms: p.Named("", "MemoryStore"), trace: p.Named("", "Trace"), span: p.Named("", "Span"), spanID: p.Named("", "SpanID"),
		searches: map[*ssa.Function][2]int{}, tried: map[*ssa.Function]bool{}}
	if !r.Require(t.ms != nil && t.trace != nil && t.span != nil && t.spanID != nil, "anchor", "types MemoryStore, Trace, Span and SpanID") {
		return nil
	}
	one := func(n *types.Named, what string, pred func(*types.Var) bool) int {
		fs := fieldsOf(n, pred)
		if !r.Require(len(fs) == 1, "anchor", what) {
			return -1
		}
		return fs[0]
	}
	tm := "map[" + modPath + ".ID]*" + modPath + ".Trace"
	t.traces = one(t.ms, "the memory store's map of traces", func(v *types.Var) bool { return mapType(v.Type()) == tm })
	t.spans = one(t.ms, "the memory store's index of spans", func(v *types.Var) bool { return mapType(v.Type()) == "map["+modPath+".ID]"+tm })
	t.sub = one(t.trace, "Trace's list of children", func(v *types.Var) bool { return isTraces(v.Type()) })
	t.embedded = one(t.trace, "Trace's span", func(v *types.Var) bool { return types.Identical(v.Type(), t.span) })
	t.id = one(t.span, "Span's ID", func(v *types.Var) bool { return types.Identical(v.Type(), t.spanID) })
	t.anns = one(t.span, "Span's annotations", func(v *types.Var) bool { return isAnnotations(v.Type()) })
	for _, n := range []string{"Trace", "Span", "Parent"} {
		if !r.Require(fieldNamed(t.spanID, n) >= 0, "anchor", "SpanID."+n) {
			return nil
		}
	}
	if t.traces < 0 || t.spans < 0 || t.sub < 0 || t.embedded < 0 || t.id < 0 || t.anns < 0 {
		return nil
	}
	return t
}

func (t *treeCheck) idAddr(x *Term) *Term {
	return t.e.faddr(t.e.faddr(x, t.trace, t.embedded), t.span, t.id)
}

// spanOf is the span ID of a node.
func (t *treeCheck) spanOf(st *State, x *Term) *Term {
	return t.e.fval(st, t.idAddr(x), t.spanID, fieldNamed(t.spanID, "Span"))
}

func (t *treeCheck) annsAddr(x *Term) *Term {
	return t.e.faddr(t.e.faddr(x, t.trace, t.embedded), t.span, t.anns)
}

func (t *treeCheck) arg(name string) *Term {
	return t.e.fieldOf(t.idp, t.spanID, fieldNamed(t.spanID, name))
}

func (t *treeCheck) entry(m, k *Term, el types.Type) *Term {
	return t.e.T.mk("me", "", types.NewPointer(el), nil, nil, m, k)
}

func (t *treeCheck) present(m, k *Term) *Term {
	return t.e.T.mk("mok", "", types.NewPointer(types.Typ[types.Bool]), nil, nil, m, k)
}

// inMap and notInMap decide what a path knows about a map's key.
func (t *treeCheck) inMap(st *State, m, k *Term, el types.Type) bool {
	return t.e.isTrue(st, t.e.peek(st, t.present(m, k), types.Typ[types.Bool])) || t.e.notNil(st, t.e.peek(st, t.entry(m, k, el), el))
}

func (t *treeCheck) notInMap(st *State, m, k *Term, el types.Type) bool {
	return t.e.isFalse(st, t.e.peek(st, t.present(m, k), types.Typ[types.Bool])) || t.e.isNil(st, t.e.peek(st, t.entry(m, k, el), el))
}

func runC13(r *R) {
	t := newTree(r)
	if t == nil {
		return
	}
	t.fn = r.P.Method("", "MemoryStore", "Collect")
	if !r.Require(t.fn != nil && len(t.fn.Params) == 3, "anchor", "MemoryStore.Collect") {
		return
	}
	e := NewEngine(r.P)
	t.e = e
	e.Loops = true
	t.recv, t.idp, t.as = e.Param(t.fn, 0), e.Param(t.fn, 1), e.Param(t.fn, 2)
	t.links, t.displaced, t.lists, t.owners = map[*Event]*link{}, map[*Event]*Term{}, map[*Term]map[*Term]*listDesc{}, map[string]map[*Term]bool{}
	e.Opaque = t.searchLike
	e.Keep = func(st *State, ev *Event) bool {
		switch ev.Kind {
		case "store":
			return t.isSub(ev.Args[0])
		case "mapupdate":
			return true
		case "call":
			return ev.Rec != nil && t.isSearch(ev.Res)
		}
		return false
	}
	e.OnEvent = t.event
	e.OnIter = t.iter
	e.OnDeref = func(st *State, b *Term) {
		b = b.origin()
		if b.op == "load" && b.args[0].op == "me" {
			r.Count("uses of map entries", 1)
			me := b.args[0]
			if !t.inMap(st, me.args[0], me.args[1], deref(me.typ)) {
				t.violate(st, nil, "nil-entry", "a span that may not be in the map is used, which panics")
			}
		}
		if b.op == "call" && t.isSearch(b) && !e.notNil(st, b) {
			t.violate(st, nil, "nil-entry", "the result of an unsuccessful search is used, which panics")
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		switch x.Kind {
		case "panic":
			r.Violate("panic", fnLabel(x.Fn), x.Site.Pos(), "collecting a span can panic")
		case "return":
			r.Count("paths of Collect", 1)
			if st.notes["judged"] == "" {
				r.Violate("unlocked", fnLabel(x.Fn), x.Site.Pos(), "cannot be decided: a path that does not collect under the lock")
			}
		}
	}
	// The lists that loops build must be known before their uses are judged.
	t.quiet = true
	e.Run(t.fn, nil)
	t.quiet = false
	e.visited = map[string]bool{}
	r.counts = map[string]int{}
	e.Run(t.fn, nil)
	r.Use(e)
	for fn := range t.searches {
		r.Count("verified searches", 1)
		r.Sample("search: %s", fnLabel(fn))
	}
	r.Floor("paths with a new span", 6)
	r.Floor("paths with a known span", 1)
	r.Floor("links", 6)
	r.Floor("partitioned lists", 2)

	// Nothing else changes the trees.
	for _, fn := range r.P.methodsOf(t.ms) {
		if fn == t.fn || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		e := NewEngine(r.P)
		e.OnEvent = func(st *State, ev *Event) {
			if ev.Kind == "store" && t.isSub(ev.Args[0]) && e.root(st, ev.Args[0]).op != "alloc" {
				r.Violate("changed-elsewhere", fnLabel(ev.Fn), ev.Site.Pos(), "the list of children of a stored span is changed by %s", fnLabel(fn))
			}
		}
		e.Run(fn, nil)
		r.Count("other methods", 1)
		r.Use(e)
	}
}

func (t *treeCheck) isSub(addr *Term) bool { return isFieldOf(addr, t.trace, t.sub) }

func (t *treeCheck) violate(st *State, ev *Event, rule, f string, args ...any) {
	if t.quiet {
		return
	}
	if ev != nil {
		t.r.Violate(rule, fnLabel(ev.Fn), ev.Site.Pos(), f, args...)
		return
	}
	fr := st.top()
	t.r.Violate(rule, fnLabel(fr.fn), fr.block.Instrs[min(fr.pc, len(fr.block.Instrs)-1)].Pos(), f, args...)
}

// ---- searches ----

// searchLike: a recursive function of a tree and an ID.
func (t *treeCheck) searchLike(fn *ssa.Function) bool {
	if !t.tried[fn] {
		t.tried[fn] = true
		if node, id, ok := t.searchSig(fn); ok && t.verifySearch(fn, node, id) {
			t.searches[fn] = [2]int{node, id}
		}
	}
	_, ok := t.searches[fn]
	return ok
}

func (t *treeCheck) searchSig(fn *ssa.Function) (node, id int, ok bool) {
	node, id = -1, -1
	if len(fn.Params) != 2 || fn.Signature.Results().Len() != 1 {
		return
	}
	for i, p := range fn.Params {
		switch {
		case isTrace(p.Type()):
			node = i
		case isNamed(p.Type(), "", "ID"):
			id = i
		}
	}
	rt := fn.Signature.Results().At(0).Type()
	b, isB := rt.Underlying().(*types.Basic)
	if node < 0 || id < 0 || !isTrace(rt) && !(isB && b.Kind() == types.Bool) {
		return
	}
	for _, bl := range fn.Blocks {
		for _, in := range bl.Instrs {
			if c, isC := in.(ssa.CallInstruction); isC && c.Common().StaticCallee() == fn {
				return node, id, true
			}
		}
	}
	return
}

// verifySearch: the search is only unsuccessful if neither the node nor any
// node below it has the ID (by induction over the tree).
func (t *treeCheck) verifySearch(fn *ssa.Function, ni, ii int) bool {
	e := NewEngine(t.r.P)
	old := t.e
	t.e = e
	defer func() { t.e = old }()
	e.Loops = true
	ok := true
	no := 0
	node, id := e.Param(fn, ni), e.Param(fn, ii)
	negative := func(st *State, v *Term) bool {
		if isTrace(fn.Signature.Results().At(0).Type()) {
			return e.isNil(st, v)
		}
		return e.isFalse(st, v)
	}
	positive := func(st *State, v *Term) bool {
		if isTrace(fn.Signature.Results().At(0).Type()) {
			return e.notNil(st, v)
		}
		return e.isTrue(st, v)
	}
	e.Keep = func(st *State, ev *Event) bool { return ev.Kind == "call" && ev.Rec == fn }
	loops := map[string]*LoopIter{}
	bad := map[string]bool{}
	subs := e.faddr(node, t.trace, t.sub)
	isElemOf := func(v *Term) (*Term, bool) {
		if v.op == "load" && v.args[0].op == "ia" {
			if _, ok := e.elemIndex(v.args[0].args[1]); ok {
				l := v.args[0].args[0]
				return l, at(l) == subs
			}
		}
		return nil, false
	}
	e.OnIter = func(st *State, it *LoopIter) {
		key := loopName(it.Loop, it.Ctx)
		loops[key] = it
		good := false
		for _, c := range callsOf(it.Items, func(ev *Event) bool { return ev.Rec == fn }) {
			if _, el := isElemOf(c.Args[ni]); el && c.Args[ii] == id && negative(st, c.Res) {
				good = true
			}
		}
		if !good {
			bad[key] = true
		}
	}
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind == "store" || ev.Kind == "mapupdate" {
			ok = false
		}
	}
	type neg struct {
		walked []string
	}
	var negs []neg
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			if x.Kind == "panic" {
				ok = false
			}
			return
		}
		v := x.Results[0]
		if positive(st, v) {
			return
		}
		if v.op == "call" && v.obj == fn && !negative(st, v) {
			// "return sub.search(id)" in a loop: decided only if positive
			ok = false
			return
		}
		if v == node && e.isTrue(st, e.T.Eq(t.spanOf(st, node), id)) {
			return
		}
		if !e.isFalse(st, e.T.Eq(t.spanOf(st, node), id)) {
			ok = false
			return
		}
		no++
		var w []string
		for key, it := range loops {
			if e.walked(st, it.Loop, it.Ctx, e.peek(st, subs, deref(subs.typ))) {
				w = append(w, key)
			}
		}
		if len(w) == 0 && e.empty(st, e.peek(st, subs, deref(subs.typ))) {
			return
		}
		negs = append(negs, neg{w})
	}
	// The loops must be known before the exits are judged.
	e.Run(fn, nil)
	no, ok, negs = 0, true, nil
	e.visited = map[string]bool{}
	e.Run(fn, nil)
	t.r.Use(e)
	for _, n := range negs {
		good := false
		for _, k := range n.walked {
			good = good || !bad[k]
		}
		ok = ok && good
	}
	return ok && no > 0
}

func (t *treeCheck) isSearch(b *Term) bool {
	fn, ok := b.obj.(*ssa.Function)
	if !ok {
		return false
	}
	_, ok = t.searches[fn]
	return ok
}

// absent lists the IDs that a search below x has not found.
func (t *treeCheck) absent(st *State, x *Term) []*Term {
	var out []*Term
	for k := range st.notes {
		var n int
		if _, err := fmt.Sscanf(k, "searched:%d", &n); err != nil {
			continue
		}
		c := t.e.T.all[n-1]
		ix := t.searches[c.obj.(*ssa.Function)]
		if c.args[ix[0]] == x && (t.e.isNil(st, c) || t.e.isFalse(st, c)) {
			out = append(out, c.args[ix[1]])
		}
	}
	return out
}

// ---- events ----

func (t *treeCheck) event(st *State, ev *Event) {
	e := t.e
	switch ev.Kind {
	case "call":
		if ev.Rec != nil && t.isSearch(ev.Res) {
			st.notes[fmt.Sprintf("searched:%d", ev.Res.id)] = "1"
		}
	case "store":
		a, v := ev.Args[0], ev.Args[1]
		switch {
		case t.isSub(a):
			t.subStore(st, ev, a.args[0], v)
		case isFieldOf(a, t.span, t.anns):
			x := a.args[0]
			if x.op == "fa" {
				x = x.args[0]
			}
			if x.op == "alloc" {
				return
			}
			cur := e.peek(st, a, deref(a.typ))
			if b, _ := e.appendedTo(v, cur); b != cur {
				t.violate(st, ev, "annotations", "the annotations of a span that was collected before are replaced instead of extended")
			}
		case (isFieldOf(a, t.span, t.id) || a.op == "fa" && strings.HasPrefix(a.aux, types.TypeString(t.spanID, nil)+"#") || isTrace(a.typ) || types.Identical(deref(a.typ), t.span)) && e.root(st, a).op != "alloc" && rawBase(a).op != "alloc":
			t.violate(st, ev, "overwritten", "a stored span's ID or the span itself is overwritten")
		}
	case "mapread":
		// A span made just now, which has only been entered in an index, is not
		// in the map of traces: no index is ever that map (see index-lost).
		if m := ev.Args[0]; m == e.fval(st, t.recv, t.ms, t.traces) {
			el := m.typ.Underlying().(*types.Map).Elem()
			root := e.peek(st, t.entry(m, ev.Args[1], el), el)
			stored := map[*Term]bool{}
			for _, x := range st.trace {
				if x.Ev != nil && x.Ev.Kind == "mapupdate" && x.Ev.Args[0] == m {
					stored[x.Ev.Args[2]] = true
				}
			}
			for _, x := range st.trace {
				if x.Ev != nil && x.Ev.Kind == "mapupdate" && x.Ev.Args[0] != m && !stored[x.Ev.Args[2]] && x.Ev.Args[2].op == "alloc" && root.op == "load" {
					e.assume(st, e.T.Eq(root, x.Ev.Args[2]), false)
				}
			}
		}
	case "mapupdate":
		m, k, v := ev.Args[0], ev.Args[1], ev.Args[2]
		tm, sm := e.fval(st, t.recv, t.ms, t.traces), e.fval(st, t.recv, t.ms, t.spans)
		switch {
		case m == tm:
			if k != t.arg("Trace") {
				t.violate(st, ev, "root-key", "a trace is stored under another ID than the collected span's trace ID")
			}
			if !e.notNil(st, v) && !t.knownNode(st, v) {
				t.violate(st, ev, "nil-entry", "a nil tree may be stored")
			}
			el := m.typ.Underlying().(*types.Map).Elem()
			if !t.notInMap(st, m, k, el) {
				t.displaced[ev] = e.peek(st, t.entry(m, k, el), el)
			}
		case m == sm:
			el := m.typ.Underlying().(*types.Map).Elem()
			if !t.notInMap(st, m, k, el) {
				t.violate(st, ev, "index-lost", "the index of a trace's spans may be replaced, which loses the spans in it")
			}
			if v.op != "mk" {
				t.violate(st, ev, "index-lost", "the new index of a trace's spans is not a new map")
			}
		case v.typ != nil && isTrace(v.typ):
			t.indexStore(st, ev, sm, m, k, v)
		}
	case "builtin":
		if (ev.Name == "delete" || ev.Name == "clear") && (ev.Args[0].typ != nil && strings.HasSuffix(mapType(ev.Args[0].typ), "*"+modPath+".Trace")) {
			t.violate(st, ev, "removed", "collecting removes spans from the store's maps")
		}
	case "unlock":
		if len(st.frames) > 0 && st.frames[0].fn == t.fn && st.notes["judged"] == "" && e.root(st, ev.Args[0]) == t.recv {
			st.notes["judged"] = "1"
			t.judge(st, ev)
		}
	}
}

// knownNode: a value read from a map entry known to exist.
func (t *treeCheck) knownNode(st *State, v *Term) bool {
	return v.op == "load" && v.args[0].op == "me" && t.inMap(st, v.args[0].args[0], v.args[0].args[1], v.typ)
}

func (t *treeCheck) indexStore(st *State, ev *Event, sm, m, k, v *Term) {
	e := t.e
	inner := sm.typ.Underlying().(*types.Map).Elem()
	if m != e.peek(st, t.entry(sm, t.arg("Trace"), inner), inner) {
		t.violate(st, ev, "index-key", "a span is entered in something other than the index of its trace")
		return
	}
	if m.op != "mk" && !t.inMap(st, sm, t.arg("Trace"), inner) {
		t.violate(st, ev, "nil-entry", "a span is entered in an index that may not exist, which panics")
	}
	if k != t.arg("Span") {
		t.violate(st, ev, "index-key", "a span is entered in the index under another ID than its own")
	}
	if !t.notInMap(st, m, k, v.typ) {
		t.violate(st, ev, "replaced", "a span that was collected before may be replaced in the index, which loses it")
	}
	if v.op != "alloc" {
		t.violate(st, ev, "replaced", "what is entered in the index is not a new span")
		return
	}
	for i := 0; i < t.spanID.Underlying().(*types.Struct).NumFields(); i++ {
		if e.fval(st, t.idAddr(v), t.spanID, i) != e.fieldOf(t.idp, t.spanID, i) {
			t.violate(st, ev, "wrong-id", "the new span does not have the collected ID (%s)", t.spanID.Underlying().(*types.Struct).Field(i).Name())
		}
	}
}

// subStore judges a write to the list of p's children.
func (t *treeCheck) subStore(st *State, ev *Event, p, v *Term) {
	e := t.e
	r := t.r
	cur := e.peek(st, ev.Args[0], deref(ev.Args[0].typ))
	if v == cur || e.empty(st, v) && e.empty(st, cur) {
		return
	}
	if b, ps := e.appendedTo(v, cur); b == cur && len(ps) > 0 || e.empty(st, b) && e.empty(st, cur) && len(ps) > 0 {
		for _, x := range ps {
			r.Count("links", 1)
			if len(ps) > 1 {
				t.violate(st, ev, "links", "cannot be decided: several spans are linked at once")
			}
			if x.val != nil {
				t.links[ev] = &link{p: p, x: x.val}
				t.linkNode(st, ev, p, x.val)
				continue
			}
			t.links[ev] = &link{p: p, x: x.slice, list: true}
			t.linkList(st, ev, p, x.slice)
		}
		return
	}
	t.remainder(st, ev, p, v, cur)
}

func (t *treeCheck) isNew(st *State, x *Term) bool { return x.op == "alloc" }

func (t *treeCheck) elemOf(x *Term) *Term {
	if x.op == "load" && x.args[0].op == "ia" {
		if _, ok := t.e.elemIndex(x.args[0].args[1]); ok {
			return x.args[0].args[0]
		}
	}
	return nil
}

func (t *treeCheck) linkNode(st *State, ev *Event, p, x *Term) {
	e := t.e
	ok := false
	switch {
	case p == x:
		t.violate(st, ev, "cycle", "a span is linked below itself")
		return
	case t.isNew(st, p) && st.notes["linked:"+p.String()] == "":
		t.r.Count("links below a new span without a parent", 1)
		ok = true
	case t.isNew(st, x) && e.empty(st, e.fval(st, x, t.trace, t.sub)) && e.knownDistinct(st, p, x):
		t.r.Count("links of a new span without children", 1)
		ok = true
	}
	for _, k := range t.absent(st, x) {
		if t.isIDOf(st, k, p) {
			t.r.Count("links after an unsuccessful search", 1)
			ok = true
		}
	}
	if !ok {
		t.violate(st, ev, "cycle", "a span can be linked below its own descendant: nothing on the path shows that the new parent is not below the span")
	}
	for k := range st.notes {
		if strings.HasPrefix(k, "searched:") {
			delete(st.notes, k)
		}
	}
	st.notes["linked:"+x.String()] = "1"
	if l := t.elemOf(x); l != nil {
		st.notes[fmt.Sprintf("moved:%d", l.id)] = "1"
	}
}

func (t *treeCheck) isIDOf(st *State, k, p *Term) bool {
	if k == t.spanOf(st, p) {
		return true
	}
	return p.op == "load" && p.args[0].op == "me" && p.args[0].args[1] == k
}

func (t *treeCheck) linkList(st *State, ev *Event, p, l *Term) {
	d := t.listOf(st, l)
	if d == nil {
		t.violate(st, ev, "links", "a whole list of spans (%s) is linked again, which is not shown to be moved from elsewhere", l)
		return
	}
	if st.notes[fmt.Sprintf("linkedlist:%d", l.id)] != "" {
		t.violate(st, ev, "linked-twice", "a list of spans is linked twice")
	}
	st.notes[fmt.Sprintf("linkedlist:%d", l.id)] = "1"
	st.notes[fmt.Sprintf("moved:%d", d.src.id)] = "1"
	t.partition(st, ev, l, d)
	if t.isNew(st, p) && st.notes["linked:"+p.String()] == "" {
		return
	}
	for k := range d.guards {
		if t.isIDOf(st, k, p) {
			return
		}
	}
	t.violate(st, ev, "cycle", "spans can be linked below their own descendant: they have not been selected by a search for the new parent")
}

// listOf finds what a list was made from on this path: a list that its loop
// has walked completely.
func (t *treeCheck) listOf(st *State, l *Term) *listDesc {
	for src, d := range t.lists[l] {
		if src == nil || !t.e.walked(st, d.it.Loop, d.it.Ctx, src) {
			continue
		}
		if n := t.lists[l][nil]; n != nil {
			for k := range n.desc {
				d.desc[k] = true
			}
		}
		return d
	}
	return nil
}

// partition: the list has each element of its source that is not moved.
func (t *treeCheck) partition(st *State, ev *Event, l *Term, d *listDesc) bool {
	e := t.e
	t.r.Count("partitioned lists", 1)
	for v := range e.PhiIn[l] {
		if !e.empty(st, v) && !e.lenZero(v) {
			t.violate(st, ev, "children-lost", "the list of children is rebuilt from a list that does not start empty")
			return false
		}
	}
	for k := range d.desc {
		if strings.HasPrefix(k, "list:") {
			st.notes["need"+k] = "1"
			continue
		}
		if k != "kept" && k != "moved" {
			t.violate(st, ev, "children-lost", "in the loop that rebuilds the list of children, one may be %s", k)
			return false
		}
	}
	return true
}

// remainder judges a list that replaces the children of p.
func (t *treeCheck) remainder(st *State, ev *Event, p, v, cur *Term) {
	e := t.e
	if e.empty(st, cur) && e.empty(st, v) {
		return
	}
	d := t.listOf(st, v)
	if d == nil && e.empty(st, cur) && t.lists[v] != nil {
		return
	}
	if d == nil {
		t.violate(st, ev, "children-lost", "the list of a span's children is replaced by something that is not shown to have all of them")
		return
	}
	same := cur == d.src
	if !same {
		h := d.it.Loop.header.Instrs[0]
		a := ev.Args[0]
		switch cur.op {
		case "loopmem":
			same = cur.args[0] == a && cur.site == h && cur.ctx == d.it.Ctx
			for v := range e.MemIn[cur] {
				same = same && (v == d.src || v == cur)
			}
		case "load":
			same = cur.args[0] == a && at(d.src) == a && cur.args[1].mentions(func(x *Term) bool { return x.op == "epoch" && x.site == h && x.ctx == d.it.Ctx })
		}
	}
	if !same {
		t.violate(st, ev, "children-lost", "the list that replaces a span's children was not made from its present children")
		return
	}
	for o := range t.owners[loopName(d.it.Loop, d.it.Ctx)] {
		if !e.knownDistinct(st, o, p) {
			t.violate(st, ev, "children-lost", "children linked in the loop may be lost: they may have been linked to the span whose children are then replaced")
			return
		}
	}
	if t.partition(st, ev, v, d) {
		st.notes[fmt.Sprintf("remains:%d", d.src.id)] = "1"
		st.notes[fmt.Sprintf("linkedlist:%d", v.id)] = "1"
	}
}

// ---- loops ----

func (t *treeCheck) iter(st *State, it *LoopIter) {
	e := t.e
	var phis []*Term
	for phi := range it.Vals {
		if phi.typ != nil && isTraces(phi.typ) {
			phis = append(phis, phi)
		}
	}
	links := callsOf(it.Items, func(ev *Event) bool { return t.links[ev] != nil })
	key := loopName(it.Loop, it.Ctx)
	if len(phis) == 0 && len(links) == 0 {
		return
	}
	// The element that this iteration is about.
	var c, src *Term
	set := func(x *Term) {
		l := t.elemOf(x)
		switch {
		case l == nil:
			src, c = nil, nil
		case c == nil:
			c, src = x, l
		}
	}
	n := 0
	for _, ev := range links {
		l := t.links[ev]
		if t.owners[key] == nil {
			t.owners[key] = map[*Term]bool{}
		}
		t.owners[key][l.p] = true
		if l.list || t.elemOf(l.x) == nil {
			t.violate(st, ev, "linked-twice", "a loop may link the same span any number of times")
			continue
		}
		set(l.x)
		if l.x == c {
			n++
		} else {
			t.violate(st, ev, "linked-twice", "one iteration links several spans")
		}
	}
	if n > 1 {
		t.violate(st, links[0], "linked-twice", "a child is linked twice in one iteration")
	}
	app := map[*Term]string{}
	total := 0
	for _, phi := range phis {
		v := it.Vals[phi]
		if v == phi {
			continue
		}
		b, ps := e.appendedTo(v, phi)
		if b != phi || len(ps) != 1 || ps[0].val == nil || t.elemOf(ps[0].val) == nil {
			app[phi] = "replaced by another"
			continue
		}
		set(ps[0].val)
		if ps[0].val != c {
			app[phi] = "replaced by another"
			continue
		}
		app[phi] = "kept"
		total++
	}
	for _, phi := range phis {
		if t.lists[phi] == nil {
			t.lists[phi] = map[*Term]*listDesc{}
		}
		d := t.lists[phi][src]
		if d == nil {
			d = &listDesc{it: it, src: src, desc: map[string]bool{}, first: true}
			t.lists[phi][src] = d
		}
		w := app[phi]
		switch {
		case w == "kept" && (n > 0 || total > 1):
			w = "kept and linked elsewhere"
		case w == "kept":
			g := map[*Term]bool{}
			for _, k := range t.absent(st, c) {
				if d.first || d.guards[k] {
					g[k] = true
				}
			}
			d.guards, d.first = g, false
		case w == "" && n == 1 && total == 0:
			w = "moved"
		case w == "" && n == 0 && total == 1:
			for o := range app {
				w = fmt.Sprintf("list:%d", o.id)
			}
		case w == "":
			w = "dropped"
			if n > 0 {
				w = "linked twice"
			}
		}
		d.desc[w] = true
	}
}

// ---- the end of the critical section ----

func (t *treeCheck) judge(st *State, ev *Event) {
	e, r := t.e, t.r
	tm, sm := e.fval(st, t.recv, t.ms, t.traces), e.fval(st, t.recv, t.ms, t.spans)
	inner := sm.typ.Underlying().(*types.Map).Elem()
	node := tm.typ.Underlying().(*types.Map).Elem()
	var news []*Term
	var displaced []*Term
	var links []*link
	for _, x := range st.trace {
		if x.Ev == nil {
			continue
		}
		switch {
		case t.links[x.Ev] != nil:
			links = append(links, t.links[x.Ev])
		case x.Ev.Kind == "mapupdate" && x.Ev.Args[0] == tm:
			if d := t.displaced[x.Ev]; d != nil && d != x.Ev.Args[2] {
				displaced = append(displaced, d)
			}
		case x.Ev.Kind == "mapupdate" && isTrace(x.Ev.Args[2].typ):
			news = append(news, x.Ev.Args[2])
		}
	}
	count := func(x *Term) (n int) {
		for _, l := range links {
			if l.x == x {
				n++
			}
		}
		return n
	}
	im := e.peek(st, t.entry(sm, t.arg("Trace"), inner), inner)
	switch len(news) {
	case 0:
		r.Count("paths with a known span", 1)
		if !t.inMap(st, im, t.arg("Span"), node) {
			t.violate(st, ev, "span-lost", "a span that is not known to be in the index is not entered in it")
			return
		}
		x := e.peek(st, t.entry(im, t.arg("Span"), node), node)
		a := t.annsAddr(x)
		v := e.peek(st, a, deref(a.typ))
		b, ps := e.appended(v)
		if !(b.op == "load" && b.args[0] == a && (len(ps) == 1 && e.wholeCopy(st, ps[0], t.as) || len(ps) == 0 && e.empty(st, t.as))) {
			t.violate(st, ev, "annotations", "a span that is collected again does not gain exactly the new annotations")
		}
		if len(links)+len(displaced) > 0 {
			t.violate(st, ev, "linked-twice", "a span that is collected again is linked again, or changes the root")
		}
	case 1:
		r.Count("paths with a new span", 1)
		s := news[0]
		a := t.annsAddr(s)
		b, ps := e.appended(e.peek(st, a, deref(a.typ)))
		if cp := copiedFrom(e, st, e.peek(st, a, deref(a.typ))); cp != t.as && !(e.empty(st, b) || e.lenZero(b) || b.op == "slice") || len(ps) > 1 || len(ps) == 1 && !e.wholeCopy(st, ps[0], t.as) || len(ps) == 0 && !e.empty(st, t.as) && b != t.as && cp != t.as {
			t.violate(st, ev, "annotations", "a new span does not have exactly the collected annotations")
		}
		root := e.peek(st, t.entry(tm, t.arg("Trace"), node), node)
		want := 1
		if root == s {
			want = 0
		} else if !t.inMap(st, tm, t.arg("Trace"), node) {
			t.violate(st, ev, "span-lost", "a trace is left without a root")
		}
		switch n := count(s); {
		case n < want:
			t.violate(st, ev, "span-lost", "a new span is neither the root nor linked below another span")
		case n > want:
			t.violate(st, ev, "linked-twice", "a new span is linked %d times, and is the root or not: it appears twice in the tree", n)
		}
		for _, d := range displaced {
			if d == s {
				continue
			}
			if n := count(d); n != 1 {
				t.violate(st, ev, "span-lost", "a root that is replaced is linked %d times below another span", n)
			}
		}
		for _, l := range links {
			ok := l.list || l.x == s
			for _, d := range displaced {
				ok = ok || l.x == d
			}
			if !ok {
				t.violate(st, ev, "linked-twice", "a span (%s) that is in the tree already is linked again", l.x)
			}
		}
	default:
		t.violate(st, ev, "index", "several spans are entered in the index")
	}
	for k := range st.notes {
		switch {
		case strings.HasPrefix(k, "moved:") && st.notes["remains:"+k[len("moved:"):]] == "":
			t.violate(st, ev, "linked-twice", "children are linked elsewhere and stay in the list that they come from")
		case strings.HasPrefix(k, "needlist:") && st.notes["linked"+k[len("need"):]] == "":
			t.violate(st, ev, "children-lost", "children are taken out of a span's list and not linked elsewhere")
		}
	}
}
