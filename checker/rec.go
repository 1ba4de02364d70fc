package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C20: the recorder ----

func init() {
	register(&Check{
		ID: "C20",
		Rule: "typestate and value flow over every path of every method of Recorder: only Finish hands the recorded annotations over, all of them in one Collect on the recorder's own span and collector, exactly once while the flag is known clear, which it then sets, and never while it is set, where an error is reported instead; " +
			"every event is marshalled once from the caller's values, its annotations are appended to what was recorded, and no other path changes that; each error of a marshalling or delivery that is not known nil flows into the recorder's non-nil log or is appended to the kept errors under their lock; " +
			"Errors returns the list it takes away in the same critical section; reporting is not recursive; a child starts empty, with its parent's log",
		NotCover: "what happens to the annotations inside the collector (C03, C06, C12); an error of recording the error report itself, which is best effort; use of one recorder by several goroutines",
		Run:      runC20,
	})
}

// carriers finds the values of a path that a value has flowed into: through
// stores to local memory, and through calls (it needs them in the trace).
func carriers(items []*TItem, x *Term) func(*Term) bool {
	set := map[*Term]bool{x: true}
	is := func(t *Term) bool { return t.mentions(func(y *Term) bool { return set[y] }) }
	for _, it := range items {
		ev := it.Ev
		if ev == nil {
			continue
		}
		switch ev.Kind {
		case "store":
			if is(ev.Args[1]) {
				if a := rootAddr(ev.Args[0]); a.op == "alloc" || a.op == "mk" {
					set[a] = true
				}
			}
		case "call", "builtin":
			for _, a := range ev.Args {
				if is(a) && ev.Res != nil {
					set[ev.Res] = true
				}
			}
		}
	}
	return is
}

func rootAddr(t *Term) *Term {
	for {
		switch t.op {
		case "fa", "ia", "slice":
			t = t.args[0]
		default:
			return t
		}
	}
}

// schemaOf is the constant that a type's Schema method returns.
func (p *Program) schemaOf(t types.Type) (string, bool) {
	sel := p.Prog.MethodSets.MethodSet(t).Lookup(nil, "Schema")
	if sel == nil {
		return "", false
	}
	fn := p.Prog.MethodValue(sel)
	if fn == nil {
		return "", false
	}
	if fn.Synthetic != "" { // a wrapper: look at the declared method
		if d := p.Prog.FuncValue(sel.Obj().(*types.Func)); d != nil {
			fn = d
		}
	}
	got, ok := "", false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ret, is := in.(*ssa.Return); is {
				c, is := ret.Results[0].(*ssa.Const)
				if !is || c.Value == nil || c.Value.Kind() != constant.String || ok && got != constant.StringVal(c.Value) {
					return "", false
				}
				got, ok = constant.StringVal(c.Value), true
			}
		}
	}
	return got, ok
}

type recorder struct {
	r          *R
	p          *Program
	n          *types.Named
	anns, fin  int
	coll, errs int
	log, span  int
	marshal    *ssa.Function
	seen       map[*ssa.Function]bool
}

func runC20(r *R) {
	p := r.P
	c := &recorder{r: r, p: p, n: p.Named("", "Recorder"), marshal: p.Func("", "MarshalEvent"), seen: map[*ssa.Function]bool{}}
	if !r.Require(c.n != nil && c.marshal != nil, "anchor", "appdash.Recorder and MarshalEvent") {
		return
	}
	one := func(what string, pred func(types.Type) bool) int {
		fs := fieldsOf(c.n, func(v *types.Var) bool { return pred(v.Type()) })
		if !r.Require(len(fs) == 1, "anchor", "Recorder's field for "+what) {
			return -1
		}
		return fs[0]
	}
	slice := func(elem func(types.Type) bool) func(types.Type) bool {
		return func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && elem(s.Elem())
		}
	}
	c.anns = one("the recorded annotations", func(t types.Type) bool {
		return isNamed(t, "", "Annotations") || slice(func(t types.Type) bool { return isNamed(t, "", "Annotation") })(t)
	})
	c.fin = one("the finished flag", isBoolType)
	c.coll = one("the collector", func(t types.Type) bool { return isNamed(t, "", "Collector") })
	c.errs = one("the kept errors", slice(isErrorType))
	c.log = one("the logger", func(t types.Type) bool { return typeIs(t, "*log.Logger") })
	c.span = one("the span ID", func(t types.Type) bool { return isNamed(t, "", "SpanID") })
	if c.anns < 0 || c.fin < 0 || c.coll < 0 || c.errs < 0 || c.log < 0 || c.span < 0 {
		return
	}
	for _, fn := range p.methodsOf(c.n) {
		if isRecordMethod(fn) {
			c.method(fn)
		}
	}
	c.errors()
	c.child()
	c.outside()
	c.recursion()
	r.Floor("methods of Recorder", 8)
	r.Floor("marshalled events", 5)
	r.Floor("deliveries", 2)
	r.Floor("reported errors", 4)
	r.Floor("take-overs of the kept errors", 1)
}

// child: a child recorder starts empty and reports where its parent does.
func (c *recorder) child() {
	r, p := c.r, c.p
	fn := p.Method("", "Recorder", "Child")
	if !r.Require(fn != nil && len(fn.Params) == 1, "anchor", "Recorder.Child") {
		return
	}
	e := NewEngine(p)
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" || len(x.Results) != 1 {
			return
		}
		recv, v := e.Param(fn, 0), x.Results[0]
		get := func(i int) *Term { return e.fval(st, v, c.n, i) }
		bad := func(f string, args ...any) { r.Violate("child", fnLabel(x.Fn), x.Site.Pos(), f, args...) }
		r.Count("paths of Recorder.Child", 1)
		label := fieldLabel(e.faddr(recv, c.n, c.log))
		own := e.fval(st, recv, c.n, c.log)
		if l := get(c.log); !pathIs(l, recv, label) && l != own && !(e.isNil(st, l) && e.isNil(st, own)) {
			bad("a child recorder does not report its failures to its parent's log")
		}
		if !e.isNil(st, get(c.anns)) && !e.isZero(st, e.T.Len(get(c.anns))) {
			bad("a child recorder starts with annotations")
		}
		if !e.isNil(st, get(c.errs)) && !e.isZero(st, e.T.Len(get(c.errs))) {
			bad("a child recorder starts with errors")
		}
		if !e.isFalse(st, get(c.fin)) {
			bad("a child recorder starts finished")
		}
	}
	e.Run(fn, nil)
	r.Use(e)
	r.Floor("paths of Recorder.Child", 1)
}

// The methods that users call; the rest is inlined into them.
func isRecordMethod(fn *ssa.Function) bool { return fn.Object() != nil && fn.Object().Exported() }

// addNote adds a term to a list of terms, at most max times.
func addNote(st *State, key string, id, max int) {
	n := 0
	for _, f := range strings.Fields(st.notes[key]) {
		if f == fmt.Sprint(id) {
			n++
		}
	}
	if n < max {
		st.notes[key] += fmt.Sprintf(" %d", id)
	}
}

// wholeWalk: the value is the element that a walk over all of a slice is at.
func wholeWalk(e *Engine, v *Term) (src, phi *Term) {
	srcs, idx := e.elemsIn(v)
	if len(srcs) == 0 || idx[0] == nil || !e.isElem(v, srcs[0]) {
		return nil, nil
	}
	phi, _ = e.elemIndex(idx[0])
	return srcs[0], phi
}

func (c *recorder) method(fn *ssa.Function) {
	r := c.r
	r.Count("methods of Recorder", 1)
	e := NewEngine(c.p)
	e.Loops = true
	e.Opaque = func(f *ssa.Function) bool { return f == c.marshal }
	recv := e.Param(fn, 0)
	name := fn.Name()
	var oldAnns *Term // at entry
	e.Keep = func(st *State, ev *Event) bool {
		switch ev.Kind {
		case "store", "call", "builtin":
			return true
		}
		return false
	}
	isMarshal := func(ev *Event) bool { return ev.Kind == "call" && ev.Name == fnName(c.marshal) }
	whole := func(st *State, t, src *Term) bool {
		if t == src {
			return true
		}
		b, ps := e.appended(t)
		return (b.isNil() || e.lenZero(b)) && len(ps) == 1 && e.wholeCopy(st, ps[0], src)
	}
	kept := func(st *State, t *Term) bool { return st.notes[fmt.Sprintf("kept:%d", t.id)] != "" }
	isErrLog := func(ev *Event) bool {
		return ev.Kind == "call" && (strings.HasPrefix(ev.Name, "(*log.Logger).Print") || ev.Name == "(*log.Logger).Output")
	}
	walks := map[*Term]*Term{} // index of a loop over annotations -> these
	with, without := map[*Loop]bool{}, map[*Loop]bool{}
	e.OnIter = func(st *State, it *LoopIter) {
		n := len(callsOf(it.Items, func(ev *Event) bool {
			return ev.Kind == "store" && ev.Args[0].op == "fa" && ev.Args[0].args[0] == recv && isFieldOf(ev.Args[0], c.n, c.anns)
		}))
		if n == 1 {
			with[it.Loop] = true
		} else {
			without[it.Loop] = true
		}
	}
	e.OnEvent = func(st *State, ev *Event) {
		c.seen[ev.Fn] = true
		bad := func(rule, f string, args ...any) { r.Violate(rule, fnLabel(ev.Fn), ev.Site.Pos(), f, args...) }
		switch ev.Kind {
		case "call":
			if er := e.errResult(ev); er != nil {
				st.pin(er)
			}
			if isCollect(ev) {
				if ev.Args[0] != e.fval(st, recv, c.n, c.coll) {
					bad("collector", "annotations go to a collector other than the recorder's (%s)", ev.Args[0])
				}
				if !sameFields(e, st, ev.Args[1], e.fval(st, recv, c.n, c.span)) {
					bad("span", "annotations are recorded on a span other than the recorder's own (%s)", ev.Args[1])
				}
			}
		case "store":
			a, v := ev.Args[0], ev.Args[1]
			if a.op != "fa" || a.args[0] != recv {
				return
			}
			old := e.peek(st, a, deref(a.typ))
			switch {
			case isFieldOf(a, c.n, c.fin):
				if !e.isTrue(st, v) {
					bad("flag", "the finished flag is cleared or set to something else: events can be delivered again")
				}
				st.notes["finished"] = "1"
			case isFieldOf(a, c.n, c.anns):
				b, ps := e.appended(v)
				if b == old || len(e.MemIn[b]) > 0 && at(b) == a {
					for _, q := range ps {
						switch {
						case q.slice != nil:
							addNote(st, "added", q.slice.id, 2)
						default:
							src, phi := wholeWalk(e, q.val)
							if src == nil {
								bad("recorded", "something other than an event's annotations is recorded")
								continue
							}
							walks[phi] = src
						}
					}
				} else if name != "Finish" {
					bad("recorded", "what was recorded before is replaced, not appended to (%s)", v)
				}
			case isFieldOf(a, c.n, c.errs):
				b, ps := e.appended(v)
				switch {
				case b == old && len(ps) > 0:
					if len(st.locks) == 0 {
						bad("kept", "the kept errors are changed without their lock")
					}
					for _, q := range ps {
						if q.val != nil {
							st.notes[fmt.Sprintf("kept:%d", q.val.origin().id)] = "1"
							if e.isNil(st, q.val) {
								bad("kept", "a nil error is kept")
							}
						}
					}
				case name != "Errors":
					bad("kept", "errors kept before are dropped (%s)", v)
				}
			case isFieldOf(a, c.n, c.coll), isFieldOf(a, c.n, c.span):
				bad("fixed", "the recorder's span or collector is changed")
			}
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			return
		}
		r.Count("paths", 1)
		at := func(rule, f string, args ...any) { r.Violate(rule, fnLabel(fn), x.Site.Pos(), f, args...) }
		evs := callsOf(st.trace, func(ev *Event) bool { return ev.Kind == "call" })
		// Which errors have been reported, and by what?
		reports := map[*Event]bool{}
		reported := func(x *Term) bool {
			is := carriers(st.trace, x)
			ok := kept(st, x)
			logger := e.fval(st, recv, c.n, c.log)
			for _, ev := range evs {
				if isErrLog(ev) && ev.Args[0] == logger && e.notNil(st, logger) && is(lastArg(ev)) {
					ok = true
				}
				if isMarshal(ev) && is(ev.Args[0]) {
					reports[ev] = true
				}
			}
			return ok
		}
		if name == "Finish" && st.notes["was"] == "finished" {
			ok := false
			for _, x := range c.problems(st, e) {
				if reported(x) {
					ok = true
				}
			}
			if !ok {
				at("twice", "finishing again is not reported as an error")
			} else {
				r.Count("reported errors", 1)
			}
		}
		// Failures, in order.
		for _, ev := range evs {
			er := e.errResult(ev)
			if er == nil || !(isMarshal(ev) || isCollect(ev)) || e.isNil(st, er) {
				continue
			}
			if reports[ev] {
				continue
			}
			if isCollect(ev) && c.ofReport(e, ev, evs, reports, isMarshal) {
				continue
			}
			if !reported(er) {
				what := "a failed delivery"
				if isMarshal(ev) {
					what = "an event that cannot be marshalled"
				}
				r.Violate("unreported", fnLabel(ev.Fn), ev.Site.Pos(), "%s is neither written to the recorder's logger nor kept", what)
			} else {
				r.Count("reported errors", 1)
			}
		}
		// What is marshalled, and what becomes of it.
		for phi, src := range walks {
			l := e.loopsOf(phi.site.Parent())[phi.site.Block()]
			switch {
			case l == nil || !e.walked(st, l, phi.ctx, src):
			case without[l]:
				at("recorded", "not all of an event's annotations are recorded")
			default:
				addNote(st, "added", src.id, 2)
			}
		}
		var made []*Event
		for _, ev := range evs {
			if !isMarshal(ev) || reports[ev] {
				continue
			}
			r.Count("marshalled events", 1)
			made = append(made, ev)
			as := e.ResultTerm(ev, 0)
			if er := e.errResult(ev); !e.notNil(st, er) && !containsStr(strings.Fields(st.notes["added"]), fmt.Sprint(as.id)) {
				r.Violate("lost", fnLabel(ev.Fn), ev.Site.Pos(), "a marshalled event is not added to what is recorded")
			}
		}
		added := map[string]int{}
		for _, id := range strings.Fields(st.notes["added"]) {
			added[id]++
			ok := false
			for _, ev := range made {
				ok = ok || fmt.Sprint(e.ResultTerm(ev, 0).id) == id && e.isNil(st, e.errResult(ev))
			}
			if !ok || added[id] > 1 {
				at("recorded", "something other than each event's annotations, once, is recorded")
			}
		}
		c.recorded(e, st, fn, x, made)
		// Deliveries.
		n := 0
		for _, ev := range evs {
			if !isCollect(ev) {
				continue
			}
			here := func(rule, f string, args ...any) { r.Violate(rule, fnLabel(ev.Fn), ev.Site.Pos(), f, args...) }
			as := ev.Args[2]
			switch {
			case c.ofReport(e, ev, evs, reports, isMarshal):
			case name == "Finish" && whole(st, as, oldAnns):
				n++
				if st.notes["was"] != "open" {
					here("twice", "the recorded events are delivered although the recorder may have been finished already")
				}
				if st.notes["finished"] == "" {
					here("twice", "the recorded events are delivered, but the recorder is not marked finished")
				}
				r.Count("deliveries", 1)
			case name == "Annotation" && len(fn.Params) == 2 && whole(st, as, e.Param(fn, 1)):
				n++
				r.Count("deliveries", 1)
			default:
				here("stray", "annotations are delivered that are not all that was recorded and was asked for (%s)", as)
			}
		}
		switch {
		case name == "Finish" && st.notes["was"] == "open" && n != 1:
			at("once", "finishing delivers the recorded events %d times", n)
		case name == "Annotation" && n != 1:
			at("once", "annotations are delivered %d times", n)
		}
	}
	judge := e.OnExit
	for _, was := range []string{"learn", "open", "finished"} {
		if name != "Finish" && was == "finished" {
			continue
		}
		e.visited = map[string]bool{}
		e.OnExit = judge
		if was == "learn" { // which loops walk what
			e.OnExit = nil
		}
		init := func(st *State) {
			oldAnns = e.fval(st, recv, c.n, c.anns)
			st.pin(oldAnns)
			if name == "Finish" && was != "learn" {
				st.notes["was"] = was
				e.assume(st, e.fval(st, recv, c.n, c.fin), was == "finished")
			}
		}
		e.Run(fn, init)
	}
	r.Use(e)
}

// sameFields: two struct values agree in every field.
func sameFields(e *Engine, st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	n, ok := b.typ.(*types.Named)
	if !ok || a.typ == nil || !types.Identical(a.typ, b.typ) {
		return false
	}
	for _, i := range fieldsOf(n, func(*types.Var) bool { return true }) {
		if e.fieldOf(a, n, i) != e.fieldOf(b, n, i) {
			return false
		}
	}
	return true
}

// problems are the error values that a path could report without a failed
// call: package variables and errors made on the way.
func (c *recorder) problems(st *State, e *Engine) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		t.mentions(func(y *Term) bool {
			if !seen[y] && y.typ != nil && isErrorType(y.typ) && !y.isNil() {
				seen[y] = true
				out = append(out, y, y.origin())
			}
			return false
		})
	}
	for _, it := range st.trace {
		if it.Ev != nil {
			for _, a := range it.Ev.Args {
				add(a)
			}
		}
	}
	return out
}

// ofReport: the annotations delivered are those of an error report.
func (c *recorder) ofReport(e *Engine, ev *Event, evs []*Event, reports map[*Event]bool, isMarshal func(*Event) bool) bool {
	for _, m := range evs {
		if isMarshal(m) && reports[m] && ev.Args[2] == e.ResultTerm(m, 0) {
			return true
		}
	}
	return false
}

// recorded: the event is made from the caller's values.
func (c *recorder) recorded(e *Engine, st *State, fn *ssa.Function, x *Exit, made []*Event) {
	r := c.r
	want, ok := map[string]string{"Event": "", "Name": "name", "Msg": "msg", "Log": "log", "LogWithTimestamp": "log"}[fn.Name()]
	if !ok {
		return
	}
	at := func(f string, args ...any) { r.Violate("event", fnLabel(fn), x.Site.Pos(), f, args...) }
	if len(made) != 1 {
		at("the event is marshalled %d times", len(made))
		return
	}
	v := made[0].Args[0]
	if want == "" {
		if v.origin() != e.Param(fn, 1).origin() {
			at("what is recorded is not the caller's event")
		}
		return
	}
	o := v.origin()
	if v.op == "mkiface" {
		if s, ok := c.p.schemaOf(v.obj.(types.Type)); !ok || s != want {
			at("the recorded event has the schema %q, not %q", s, want)
		}
	} else {
		at("the type of the recorded event is not known")
	}
	for i := 1; i < len(fn.Params); i++ {
		if !o.has(e.Param(fn, i)) {
			at("the recorded event does not hold %s as it was given", fn.Params[i].Name())
		}
	}
	if fn.Name() == "Log" && !o.mentions(func(t *Term) bool { return t.op == "call" && t.aux == "time.Now" }) {
		at("a log event does not hold the current time")
	}
}

// errors: the kept errors are handed over once.
func (c *recorder) errors() {
	r := c.r
	fn := c.p.Method("", "Recorder", "Errors")
	if !r.Require(fn != nil && len(fn.Params) == 1 && fn.Signature.Results().Len() == 1, "anchor", "Recorder.Errors") {
		return
	}
	e := NewEngine(c.p)
	e.Loops = true
	recv := e.Param(fn, 0)
	ea := e.faddr(recv, c.n, c.errs)
	e.Keep = func(st *State, ev *Event) bool { return ev.Kind == "lock" || ev.Kind == "unlock" || ev.Kind == "store" }
	e.OnEvent = func(st *State, ev *Event) {
		at := func(f string, args ...any) { r.Violate("errors", fnLabel(ev.Fn), ev.Site.Pos(), f, args...) }
		switch ev.Kind {
		case "unlock":
			if e.empty(st, e.peek(st, ea, deref(ea.typ))) {
				st.notes["none"] = "1"
			}
		case "store":
			if ev.Args[0] != ea {
				return
			}
			if len(st.locks) == 0 {
				at("the kept errors are taken without their lock")
			}
			if st.notes["taken"] != "" {
				at("the kept errors are taken more than once")
			}
			old := e.peek(st, ea, deref(ea.typ))
			st.pin(old)
			st.notes["taken"] = fmt.Sprint(old.id)
			v := ev.Args[1]
			switch {
			case v.isNil() || v.op == "mk" && e.lenZero(v):
			case sameBacking(v, old):
				st.notes["shared"] = "1"
				if !e.lenZero(v) {
					at("the errors handed over are kept as well (%s)", v)
				}
			default:
				at("the errors handed over are not removed (%s)", v)
			}
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			return
		}
		at := func(f string, args ...any) { r.Violate("errors", fnLabel(fn), x.Site.Pos(), f, args...) }
		res := x.Results[0]
		if st.notes["taken"] == "" {
			if st.notes["none"] != "" && e.empty(st, res) {
				return
			}
			at("errors are returned and stay kept, or are not returned")
			return
		}
		r.Count("take-overs of the kept errors", 1)
		old := e.T.all[atoi(st.notes["taken"])-1]
		if e.empty(st, old) && (e.empty(st, res) || res == old) {
			return
		}
		b, ps := e.appended(res)
		switch {
		case res == old:
			if st.notes["shared"] != "" {
				at("errors kept later overwrite those that were handed over")
			}
		case (b.isNil() || e.lenZero(b)) && len(ps) == 1 && e.wholeCopy(st, ps[0], old):
		default:
			at("what is returned is not the list that is taken away (%s)", res)
		}
	}
	e.Run(fn, nil)
	r.Use(e)
}

// outside: nothing else touches the recorder's state.
func (c *recorder) outside() {
	r := c.r
	priv := map[int]bool{c.anns: true, c.fin: true, c.errs: true}
	for _, fn := range c.p.srcFn {
		own := c.seen[fn] || fn.Signature.Recv() != nil && types.Identical(derefType(fn.Signature.Recv().Type()), c.n)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && types.Identical(s.Val.Type(), c.n) {
					if _, zero := s.Val.(*ssa.Const); !zero {
						r.Violate("outside", fnLabel(fn), s.Pos(), "a recorder is copied with what it has recorded")
					}
				}
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !types.Identical(derefType(fa.X.Type()), c.n) {
					continue
				}
				r.Count("uses of the recorder's fields", 1)
				if isAllocValue(fa.X) {
					for _, u := range *fa.Referrers() {
						if s, ok := u.(*ssa.Store); ok && s.Addr == fa && priv[fa.Field] {
							if k, ok := s.Val.(*ssa.Const); !ok || k.Value != nil && !(k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value)) {
								r.Violate("outside", fnLabel(fn), s.Pos(), "a new recorder does not start out open and empty")
							}
						}
					}
					continue
				}
				if own {
					if q, ok := fa.X.(*ssa.Parameter); !ok || len(fn.Params) == 0 || q != fn.Params[0] {
						if priv[fa.Field] && c.written(fa) {
							r.Violate("outside", fnLabel(fn), fa.Pos(), "a recorder's method changes what another recorder has recorded")
						}
					}
					continue
				}
				if priv[fa.Field] {
					r.Violate("outside", fnLabel(fn), fa.Pos(), "code other than the recorder's methods uses what it has recorded")
				}
			}
		}
	}
}

// written: is the field assigned to?
func (c *recorder) written(fa *ssa.FieldAddr) bool {
	for _, u := range *fa.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == fa {
			return true
		}
	}
	return false
}

func isAllocValue(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// recursion: reporting an error does not report the failure to report it.
func (c *recorder) recursion() {
	own := map[*ssa.Function]bool{}
	for _, fn := range c.p.methodsOf(c.n) {
		own[fn] = true
	}
	for fn := range own {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := call.Common().StaticCallee()
					if g == fn {
						return true
					}
					if g != nil && g.Pkg == fn.Pkg && !seen[g] {
						seen[g] = true
						if walk(g) {
							return true
						}
					}
				}
			}
			return false
		}
		if walk(fn) {
			c.r.Violate("recursion", fnLabel(fn), fn.Pos(), "the recorder's method calls itself: a collector that keeps failing makes it do so without end")
		}
	}
}
