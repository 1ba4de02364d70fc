package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C21: the opentracing recorder ----

const otRel = "opentracing"

func init() {
	register(&Check{
		ID: "C21",
		Rule: "obligations on every path of RecordSpan: nothing is collected unless the span is known to be sampled, and then only on the recorder's collector and under the span's own trace, span and parent ID; on every path of a sampled span the operation name and the time span (start, start plus duration) are marshalled and collected, " +
			"or the error that prevents it is reported by a Collect; the logs, tags and baggage are each walked to the end by a loop in which every iteration collects its element (or reports the error that keeps it from being text); the error of a report is logged, each time if verbose, else at least once; " +
			"the JSON encoder keeps every field of a log under its key; the constructors hand on the collector and the sampling function, and replace a missing one, or a missing logger, by one that works",
		NotCover: "basictracer, which calls RecordSpan; the number formats in logs; that the texts of different values differ",
		Run:      runC21,
	})
}

type otrec struct {
	r               *R
	p               *Program
	n               *types.Named // Recorder
	coll, log, verb int
	marshal         *ssa.Function
	elems           map[*Event][]*Term // what a Collect is given
	logs            *relevance
	logging         map[*Event]bool // calls that log as the recorder does
	reporters       map[*ssa.Function]*reporter
}

// A reporter is a function that records an error that it is given, as far as
// that is possible, and logs the error of that.
type reporter struct{ rec, id, err int } // its parameters

func runC21(r *R) {
	c := &otrec{r: r, p: r.P, n: r.P.Named(otRel, "Recorder"), marshal: r.P.Func("", "MarshalEvent"), elems: map[*Event][]*Term{}, logging: map[*Event]bool{}}
	if !r.Require(c.n != nil && c.marshal != nil, "anchor", "opentracing.Recorder and MarshalEvent") {
		return
	}
	one := func(what string, pred func(v *types.Var) bool) int {
		is := fieldsOf(c.n, pred)
		if len(is) != 1 {
			r.Require(false, "anchor", "the recorder's "+what)
			return -1
		}
		return is[0]
	}
	c.coll = one("collector", func(v *types.Var) bool { return isNamed(v.Type(), "", "Collector") })
	c.log = one("logger", func(v *types.Var) bool { return typeIs(v.Type(), "*log.Logger") })
	c.verb = one("verbosity", func(v *types.Var) bool { return typeIs(v.Type(), "bool") })
	fn := r.P.Method(otRel, "Recorder", "RecordSpan")
	if c.coll < 0 || c.log < 0 || c.verb < 0 || !r.Require(fn != nil && len(fn.Params) == 2, "anchor", "Recorder.RecordSpan") {
		return
	}
	c.logs = newRelevance(c.p, func(in ssa.Instruction) bool {
		call, ok := in.(ssa.CallInstruction)
		return ok && call.Common().StaticCallee() != nil && isLogCall(fnName(call.Common().StaticCallee()))
	})
	c.reporters = map[*ssa.Function]*reporter{}
	for _, f := range r.P.srcFn {
		if f.Pkg == r.P.SSA[otRel] && f.Pkg != nil && f.Parent() == nil {
			if rep := c.reporterOf(f); rep != nil {
				c.reporters[f] = rep
				r.Count("functions that report an error", 1)
			}
		}
	}
	c.record(fn)
	for _, f := range r.P.srcFn {
		if f.Pkg != nil && f.Pkg == r.P.SSA[otRel] && isLogText(f) {
			c.logText(f)
		}
	}
	c.emits()
	c.constructors()
	r.Floor("paths of sampled spans", 4)
	r.Floor("recorded logs", 1)
	r.Floor("recorded tags", 1)
	r.Floor("recorded baggage items", 1)
	r.Floor("field encoders", 10)
	r.Floor("constructed tracers", 1)
}

// isLogText: makes a text of the fields of a log record.
func isLogText(f *ssa.Function) bool {
	s := f.Signature
	if s.Results().Len() != 2 || !isErrorType(s.Results().At(1).Type()) {
		return false
	}
	for i := 0; i < s.Params().Len(); i++ {
		if typeIs(s.Params().At(i).Type(), "[]github.com/opentracing/opentracing-go/log.Field") {
			return len(f.Blocks) > 0
		}
	}
	return false
}

// reporterOf: every path of the function collects the error that it is given.
func (c *otrec) reporterOf(fn *ssa.Function) *reporter {
	rep := &reporter{-1, -1, -1}
	for i, p := range fn.Params {
		for _, x := range []struct {
			at *int
			is bool
		}{{&rep.rec, typeIs(p.Type(), "*"+c.n.String())}, {&rep.id, isNamed(p.Type(), "", "SpanID")}, {&rep.err, isErrorType(p.Type())}} {
			if x.is && *x.at >= 0 {
				return nil
			}
			if x.is {
				*x.at = i
			}
		}
	}
	if rep.rec < 0 || rep.id < 0 || rep.err < 0 || fn.Signature.Results().Len() > 0 || len(fn.Blocks) == 0 {
		return nil
	}
	e := NewEngine(c.p)
	e.Opaque = func(f *ssa.Function) bool { return f == c.marshal || f == fn }
	e.Keep = func(st *State, ev *Event) bool { return ev.Kind == "call" || ev.Kind == "store" }
	recv, id, err := e.Param(fn, rep.rec), e.Param(fn, rep.id), e.Param(fn, rep.err)
	ok := true
	e.OnEvent = func(st *State, ev *Event) {
		c.note(e, st, ev, recv)
		if isCollect(ev) && (ev.Args[0] != e.fval(st, recv, c.n, c.coll) || ev.Args[1] != id) {
			ok = false
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		n := 0
		for _, co := range callsOf(st.trace, isCollect) {
			if carriers(st.trace, err)(lastArg(co)) {
				n++
				ok = ok && (e.isNil(st, e.errResult(co)) || c.logged(st.trace, e.errResult(co)))
			}
		}
		ok = ok && n > 0
	}
	e.Run(fn, nil)
	c.r.Use(e)
	if !ok {
		return nil
	}
	return rep
}

// note keeps what only holds when a call is made.
func (c *otrec) note(e *Engine, st *State, ev *Event, recv *Term) {
	if ev.Kind != "call" {
		return
	}
	if er := e.errResult(ev); er != nil {
		st.pin(er)
	}
	switch {
	case isLogCall(ev.Name):
		c.logging[ev] = ev.Args[0] == e.fval(st, recv, c.n, c.log)
	case ev.Name == "(*sync.Once).Do" && e.isFalse(st, e.fval(st, recv, c.n, c.verb)):
		f, ok := lastArg(ev).obj.(*ssa.Function)
		c.logging[ev] = ok && c.logs.has(f)
	}
}

// logged: an error is logged, once or, if the recorder is verbose, each time.
func (c *otrec) logged(items []*TItem, err *Term) bool {
	is := carriers(items, err)
	return len(callsOf(items, func(ev *Event) bool { return c.logging[ev] && is(lastArg(ev)) })) > 0
}

func isLogCall(name string) bool {
	return strings.HasPrefix(name, "(*log.Logger).Print") || name == "(*log.Logger).Output"
}

// findTerm looks for a term in what events are about.
func findTerm(items []*TItem, pred func(*Term) bool) (out *Term) {
	for _, it := range items {
		if it.Ev == nil {
			continue
		}
		for _, a := range it.Ev.Args {
			if out == nil {
				a.mentions(func(t *Term) bool {
					if out == nil && pred(t) {
						out = t
					}
					return out != nil
				})
			}
		}
	}
	return
}

func (c *otrec) record(fn *ssa.Function) {
	r := c.r
	e := NewEngine(c.p)
	e.Loops = true
	e.Opaque = func(f *ssa.Function) bool { return f == c.marshal || isLogText(f) || c.reporters[f] != nil }
	e.Keep = func(st *State, ev *Event) bool {
		return ev.Kind == "call" || ev.Kind == "store" || ev.Kind == "builtin"
	}
	recv, sp := e.Param(fn, 0), e.Param(fn, 1)
	span := func(t *Term, path string) bool {
		for t.op == "conv" || t.op == "mkiface" {
			if t.op == "conv" && isInt(t.typ) && intSize(t.typ) < 8 {
				return false
			}
			t = t.args[0]
		}
		return pathIs(t, sp, path)
	}
	isSampled := func(st *State) bool {
		for f, v := range st.facts {
			if v && span(f, "Context.Sampled") {
				return true
			}
		}
		return false
	}
	ids := map[string]string{"Trace": "Context.TraceID", "Span": "Context.SpanID", "Parent": "ParentSpanID"}
	idType := c.p.Named("", "SpanID")
	judging := false
	bad := func(rule string, site ssa.Instruction, f string, args ...any) {
		if judging {
			r.Violate(rule, fnLabel(fn), site.Pos(), f, args...)
		}
	}
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind != "call" {
			return
		}
		c.note(e, st, ev, recv)
		on, id := (*Term)(nil), (*Term)(nil)
		if isCollect(ev) {
			on, id = ev.Args[0], ev.Args[1]
		} else if rep := c.reporters[ev.Rec]; rep != nil {
			on, id = e.fval(st, ev.Args[rep.rec], c.n, c.coll), ev.Args[rep.id]
		} else {
			return
		}
		if !isSampled(st) {
			bad("unsampled", ev.Site, "something is recorded on a path where the span is not known to be sampled")
		}
		if on != e.fval(st, recv, c.n, c.coll) {
			bad("collector", ev.Site, "the span is recorded on a collector other than the recorder's")
		}
		for _, i := range fieldsOf(idType, func(*types.Var) bool { return true }) {
			name := idType.Underlying().(*types.Struct).Field(i).Name()
			if want := ids[name]; want == "" || !span(e.fieldOf(id, idType, i), want) {
				bad("id", ev.Site, "the %s ID of what is recorded is not the opentracing span's own (%s)", strings.ToLower(name), e.fieldOf(id, idType, i))
			}
		}
		if !isCollect(ev) {
			return
		}
		if xs, ok := sliceElems(e, st, lastArg(ev)); ok {
			c.elems[ev] = xs
		}
	}
	collects := func(items []*TItem) []*Event { return callsOf(items, isCollect) }
	// reported: a Collect carries the error.
	reported := func(items []*TItem, err *Term) bool {
		is := carriers(items, err)
		for _, ev := range collects(items) {
			if is(lastArg(ev)) {
				return true
			}
		}
		for _, ev := range callsOf(items, func(ev *Event) bool { return ev.Kind == "call" && c.reporters[ev.Rec] != nil }) {
			if is(ev.Args[c.reporters[ev.Rec].err]) {
				return true
			}
		}
		return false
	}
	isMarshal := func(ev *Event) bool { return ev.Kind == "call" && ev.Name == fnName(c.marshal) }
	// event: one that is marshalled and collected, unless that fails and is
	// reported.
	event := func(st *State, items []*TItem, want func(x *Term, typ types.Type) bool) bool {
		for _, ev := range callsOf(items, isMarshal) {
			x := ev.Args[0]
			var typ types.Type
			if x.op == "mkiface" {
				typ, _ = x.obj.(types.Type)
				x = x.args[0]
			} else {
				typ = x.typ
			}
			if typ == nil || !want(x, typ) {
				continue
			}
			if err := e.errResult(ev); e.notNil(st, err) {
				if reported(items, err) {
					return true
				}
				continue
			}
			for _, co := range collects(items) {
				if lastArg(co).origin() == e.ResultTerm(ev, 0).origin() {
					return true
				}
			}
		}
		return false
	}
	schema := func(t types.Type) string { s, _ := c.p.schemaOf(t); return s }
	field := func(x *Term, typ types.Type, name string) *Term {
		n, ok := derefType(typ).(*types.Named)
		if !ok {
			return nil
		}
		if i := fieldNamed(n, name); i >= 0 {
			return e.fieldOf(x, n, i)
		}
		return nil
	}
	isTime := func(x *Term, path string) bool { // the span's time, whole or field by field
		if x == nil {
			return false
		}
		if span(x, path) {
			return true
		}
		if x.op != "struct" {
			return false
		}
		for _, a := range x.args {
			b, p := fieldPath(a)
			if b != sp || len(p) < 2 || strings.Join(p[:len(p)-1], ".") != path {
				return false
			}
		}
		return true
	}
	producer := func(items []*TItem, t *Term) *Event {
		for _, it := range items {
			if it.Ev != nil && it.Ev.Kind == "call" && it.Ev.Res == t.origin() {
				return it.Ev
			}
		}
		return nil
	}
	nameEvent := func(items []*TItem) func(x *Term, typ types.Type) bool {
		return func(x *Term, typ types.Type) bool {
			n := field(x, typ, "Name")
			return schema(typ) == "name" && n != nil && span(n, "Operation")
		}
	}
	timeEvent := func(items []*TItem) func(x *Term, typ types.Type) bool {
		return func(x *Term, typ types.Type) bool {
			s, en := field(x, typ, "S"), field(x, typ, "E")
			if strings.ToLower(schema(typ)) != "timespan" || !isTime(s, "Start") || en == nil {
				return false
			}
			add := producer(items, en)
			return add != nil && add.Name == "(time.Time).Add" && isTime(add.Args[0], "Start") && span(add.Args[1], "Duration")
		}
	}
	// What each iteration of a loop has to do for one element.
	src := func(items []*TItem, path string) func(*Term) bool {
		return func(t *Term) bool { return span(t, path) }
	}
	logDone := func(st *State, it *LoopIter) bool {
		isLogs := src(it.Items, "Logs")
		elem := func(t *Term) *Term { // the log record that a value belongs to
			srcs, idx := e.elemsIn(t)
			if len(srcs) == 1 && isLogs(srcs[0]) && idx[0] != nil {
				if _, ok := e.elemIndex(idx[0]); ok {
					return idx[0]
				}
			}
			return nil
		}
		for _, ev := range callsOf(it.Items, func(ev *Event) bool { return ev.Kind == "call" && ev.Rec != nil && isLogText(ev.Rec) }) {
			f := ev.Args[len(ev.Args)-1]
			_, p := fieldPath(f)
			if elem(f) == nil || len(p) == 0 || p[len(p)-1] != "Fields" {
				continue
			}
			err := e.errResult(ev)
			if e.notNil(st, err) {
				if reported(it.Items, err) {
					return true
				}
				continue
			}
			text := e.ResultTerm(ev, 0)
			is := carriers(it.Items, text)
			if event(st, it.Items, func(x *Term, typ types.Type) bool {
				m, t := field(x, typ, "Msg"), field(x, typ, "Time")
				if schema(typ) != "log" || m == nil || t == nil || !is(m) || m.mentions(func(t *Term) bool { return t.op == "slice" && t.args[0].origin() == text.origin() }) {
					return false
				}
				ok := true
				ts := []*Term{t}
				if t.op == "struct" {
					ts = t.args
				}
				for _, a := range ts {
					_, p := fieldPath(a)
					ok = ok && elem(a) == elem(f) && strings.Contains(strings.Join(p, "."), "Timestamp")
				}
				return ok
			}) {
				return true
			}
		}
		return false
	}
	annType := c.p.Named("", "Annotation")
	// reused: bytes put into memory that the next value is put into, too.
	reused := func(t *Term) bool {
		for {
			t = t.origin()
			switch t.op {
			case "append", "appendv", "slice":
				t = t.args[0]
			case "loopphi", "loopmem":
				return true
			default:
				return false
			}
		}
	}
	pair := func(path string) func(st *State, it *LoopIter) (bool, *Term) {
		return func(st *State, it *LoopIter) (bool, *Term) {
			isSrc := src(it.Items, path)
			val := findTerm(it.Items, func(t *Term) bool { return t.op == "nextv" && rangeOf(t) != nil && isSrc(rangeOf(t)) })
			if val == nil {
				val = findTerm(it.Items, func(t *Term) bool { // read by its key
					a := at(t)
					return a != nil && a.op == "me" && isSrc(a.args[0]) && a.args[1].op == "nextk" && isSrc(rangeOf(a.args[1]))
				})
			}
			if val == nil {
				return false, nil
			}
			is := carriers(it.Items, val)
			own := func(x *Term) bool {
				k, v := e.fieldOf(x, annType, fieldNamed(annType, "Key")), e.fieldOf(x, annType, fieldNamed(annType, "Value"))
				return k.op == "nextk" && isSrc(rangeOf(k)) && is(v) && c.format(it.Items, is) && !reused(v)
			}
			for _, co := range collects(it.Items) {
				for _, x := range c.elems[co] {
					if own(x) {
						return true, nil
					}
				}
			}
			for phi, v := range it.Vals {
				if base, ps := e.appendedTo(v, phi); base == phi {
					for _, x := range ps {
						if x.val != nil && own(x.val) {
							return true, phi
						}
					}
				}
			}
			return false, nil
		}
	}
	// carried: a Collect is given the list, or one that it has been put into.
	carried := func(st *State, list *Term) bool {
		if e.empty(st, list) {
			return true
		}
		var from func(t *Term, seen map[*Term]bool) bool // t is the list, or extends it
		from = func(t *Term, seen map[*Term]bool) bool {
			t = t.origin()
			if t == list {
				return true
			}
			if seen[t] {
				return false
			}
			seen[t] = true
			switch t.op {
			case "append", "appendv", "conv":
				return from(t.args[0], seen)
			case "loopphi":
				for in := range e.PhiIn[t] {
					if from(in, seen) {
						return true
					}
				}
			}
			return false
		}
		for f := range st.facts {
			empty := false
			f.mentions(func(t *Term) bool {
				empty = empty || t.op == "loopphi" && e.empty(st, t) && from(t, map[*Term]bool{})
				return false
			})
			if empty {
				return true
			}
		}
		for _, co := range collects(st.trace) {
			if from(lastArg(co), map[*Term]bool{}) {
				return true
			}
		}
		return false
	}
	kinds := []struct {
		what, one, path string
		done            func(*State, *LoopIter) (bool, *Term)
	}{
		{"logs", "log", "Logs", func(st *State, it *LoopIter) (bool, *Term) { return logDone(st, it), nil }},
		{"tags", "tag", "Tags", pair("Tags")},
		{"baggage items", "baggage item", "Context.Baggage", pair("Context.Baggage")},
	}
	type seenLoop struct {
		it  *LoopIter
		bad map[string]ssa.Instruction // kinds that some iteration does not record
		via map[string]*Term           // the list that collects them for later
	}
	loops := map[string]*seenLoop{}
	// reports: each error of a delivery is reported, that of a report logged.
	reports := func(st *State, items []*TItem) {
		var errs []*Term
		for _, it := range items {
			if it.Ev != nil && it.Ev.Kind == "call" {
				if er := e.errResult(it.Ev); er != nil && (isCollect(it.Ev) || isMarshal(it.Ev) || it.Ev.Rec != nil && isLogText(it.Ev.Rec)) {
					errs = append(errs, er)
				}
			}
		}
		for _, co := range collects(items) {
			err := e.errResult(co)
			report := false
			for _, x := range errs {
				report = report || x != err && carriers(items, x)(lastArg(co))
			}
			if e.isNil(st, err) {
				continue
			}
			is := carriers(items, err)
			if !report {
				if !reported(items, err) && len(callsOf(items, func(ev *Event) bool { return ev.Kind == "call" && isLogCall(ev.Name) && is(lastArg(ev)) })) == 0 {
					bad("failed", co.Site, "a failed delivery is not reported")
				}
				continue
			}
			if !c.logged(items, err) {
				bad("unlogged", co.Site, "an error that cannot be recorded is not logged on some path (every time if verbose, else once)")
			} else if judging {
				r.Count("logged errors", 1)
			}
		}
	}
	e.OnIter = func(st *State, it *LoopIter) {
		k := loopName(it.Loop, it.Ctx)
		l := loops[k]
		if l == nil {
			l = &seenLoop{bad: map[string]ssa.Instruction{}, via: map[string]*Term{}}
			loops[k] = l
		}
		l.it = it
		for _, kind := range kinds {
			done, via := kind.done(st, it)
			if via != nil && (l.via[kind.what] == nil || l.via[kind.what] == via) {
				l.via[kind.what] = via
			}
			if done && l.via[kind.what] == via {
				if judging {
					r.Count("recorded "+kind.what, 1)
				}
			} else {
				l.bad[kind.what] = it.Site
			}
		}
		reports(st, it.Items)
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			bad("panic", x.Site, "the recording is given up on some path")
			return
		}
		unsampled := false
		for f, v := range st.facts {
			unsampled = unsampled || !v && span(f, "Context.Sampled")
		}
		if unsampled {
			return
		}
		r.Count("paths of sampled spans", 1)
		reports(st, st.trace)
		if !event(st, st.trace, nameEvent(st.trace)) {
			bad("name", x.Site, "the name of the operation is not recorded on some path")
		}
		if !event(st, st.trace, timeEvent(st.trace)) {
			bad("time", x.Site, "the start and the end of the span (start plus duration) are not recorded on some path")
		}
		for _, kind := range kinds {
			list := e.spanField(st, sp, kind.path)
			if list == nil || e.empty(st, list) {
				continue
			}
			walked, done := false, false
			var site ssa.Instruction
			for _, l := range loops {
				if e.walked(st, l.it.Loop, l.it.Ctx, list) {
					walked = true
					if s := l.bad[kind.what]; s == nil && (l.via[kind.what] == nil || carried(st, l.via[kind.what])) {
						done = true
					} else if site = s; s == nil {
						site = x.Site
					}
				}
			}
			switch {
			case done:
			case walked:
				bad("each", site, "an iteration over the span's %s does not record its %s, under its own key and with its own value", kind.what, kind.one)
			default:
				bad("all", x.Site, "the span's %s are not all walked on some path", kind.what)
			}
		}
	}
	for round := 0; round < 2; round++ {
		judging = round == 1
		e.visited = map[string]bool{}
		e.Run(fn, nil)
	}
	r.Use(e)
}

// spanField is the value of a parameter's field.
func (e *Engine) spanField(st *State, x *Term, path string) *Term {
	for _, name := range strings.Split(path, ".") {
		n, ok := x.typ.(*types.Named)
		if !ok {
			return nil
		}
		i := fieldNamed(n, name)
		if i < 0 {
			return nil
		}
		x = e.fieldOf(x, n, i)
	}
	return x
}

// format: a value that is printed is printed with the names of its fields.
func (c *otrec) format(items []*TItem, is func(*Term) bool) bool {
	for _, ev := range callsOf(items, func(ev *Event) bool {
		return ev.Kind == "call" && strings.HasPrefix(ev.Name, "fmt.") && is(lastArg(ev))
	}) {
		if strings.HasPrefix(ev.Name, "fmt.Sprintf") || strings.HasPrefix(ev.Name, "fmt.Appendf") {
			for _, a := range ev.Args {
				if s, ok := a.strVal(); ok && s != "%+v" && s != "%s" {
					return false
				}
			}
		}
	}
	return true
}

// logText: the text of a log record has all of its fields.
func (c *otrec) logText(fn *ssa.Function) {
	r := c.r
	e := NewEngine(c.p)
	e.Loops = true
	e.Keep = func(st *State, ev *Event) bool {
		return ev.Kind == "call" || ev.Kind == "store" || ev.Kind == "mapupdate"
	}
	var fields *Term
	for i, p := range fn.Params {
		if typeIs(p.Type(), "[]github.com/opentracing/opentracing-go/log.Field") {
			fields = e.Param(fn, i)
		}
	}
	enc := map[*Term]bool{} // what the fields are written into
	loops := map[string]*LoopIter{}
	skipped := map[string]bool{}
	judging := false
	e.OnIter = func(st *State, it *LoopIter) {
		k := loopName(it.Loop, it.Ctx)
		loops[k] = it
		n := 0
		for _, ev := range callsOf(it.Items, func(ev *Event) bool {
			return ev.Kind == "call" && ev.Name == "(github.com/opentracing/opentracing-go/log.Field).Marshal"
		}) {
			srcs, idx := e.elemsIn(ev.Args[0])
			if len(srcs) > 0 && srcs[0] == fields && idx[0] != nil {
				n++
				t := ev.Args[1]
				if t.op == "mkiface" {
					t = t.args[0]
				}
				enc[t.origin()] = true
			}
		}
		if n == 0 {
			skipped[k] = true
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" || !judging {
			return
		}
		bad := func(f string, args ...any) { r.Violate("text", fnLabel(fn), x.Site.Pos(), f, args...) }
		if e.notNil(st, x.Results[1]) {
			return
		}
		all := e.empty(st, fields)
		for k, it := range loops {
			if !skipped[k] && e.walked(st, it.Loop, it.Ctx, fields) {
				all = true
			}
		}
		if !all {
			bad("the text of a log record is made without some of its fields")
		}
		r.Count("texts of log records", 1)
		res := x.Results[0].origin()
		for res.op == "conv" {
			res = res.args[0].origin()
		}
		for m := range enc {
			if a := at(res); a != nil && a.op == "me" && a.args[0].origin() == m {
				if !e.isTrue(st, e.T.Eq(e.T.Len(m), e.T.Int(1))) && !e.isFalse(st, e.less(e.T.Int(1), e.T.Len(m))) { // (it has one at least)
					bad("the text of a log record is one of its fields although it may have others")
				}
				return
			}
			for _, ev := range callsOf(st.trace, func(ev *Event) bool { return ev.Kind == "call" && ev.Res != nil }) {
				if !res.has(ev.Res) {
					continue
				}
				for _, a := range ev.Args {
					if b, ok := a.origin().typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
						continue // their number
					}
					if carriers(st.trace, m)(a) {
						return
					}
				}
			}
		}
		bad("the text of a log record is not made of its fields (%s)", res)
	}
	for round := 0; round < 2; round++ {
		judging = round == 1
		e.visited = map[string]bool{}
		e.Run(fn, nil)
	}
	r.Use(e)
}

// emits: the methods of the encoder of log fields store each value under its
// key.
func (c *otrec) emits() {
	r := c.r
	pk := c.p.Pkgs[otRel]
	for _, name := range pk.Types.Scope().Names() {
		tn, ok := pk.Types.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		for _, fn := range c.p.methodsOf(n) {
			if !strings.HasPrefix(fn.Name(), "Emit") || len(fn.Blocks) == 0 {
				continue
			}
			r.Count("field encoders", 1)
			e := NewEngine(c.p)
			e.Loops = true
			e.Keep = func(st *State, ev *Event) bool {
				return ev.Kind == "call" || ev.Kind == "store" || ev.Kind == "mapupdate"
			}
			e.OnExit = func(st *State, x *Exit) {
				if x.Kind != "return" {
					return
				}
				if fn.Signature.Params().Len() == 1 { // a function that emits by itself
					v := e.Param(fn, 1)
					for _, ev := range callsOf(st.trace, func(ev *Event) bool { return ev.Kind == "call" }) {
						if ev.Args[0] == v && len(ev.Args) == 2 && carriers(st.trace, e.Param(fn, 0))(ev.Args[1]) {
							return
						}
					}
					r.Violate("emit", fnLabel(fn), x.Site.Pos(), "the fields that a function emits are not recorded on some path")
					return
				}
				key, val := e.Param(fn, 1), e.Param(fn, 2)
				is := carriers(st.trace, val)
				n, ok := 0, false
				for _, ev := range callsOf(st.trace, func(ev *Event) bool { return ev.Kind == "mapupdate" }) {
					n++
					v := ev.Args[2]
					_, isConst := v.strVal()
					ok = ok || ev.Args[1] == key && (is(v) || isConst && decided(st, val))
				}
				if n != 1 || !ok {
					r.Violate("emit", fnLabel(fn), x.Site.Pos(), "the value of a log's field is not recorded under its key on some path")
				}
			}
			e.Run(fn, nil)
			r.Use(e)
		}
	}
}

// decided: the path depends on the value.
func decided(st *State, v *Term) bool {
	for f := range st.facts {
		if f.has(v) {
			return true
		}
	}
	return false
}

// constructors: NewTracer and NewTracerWithOptions.
func (c *otrec) constructors() {
	r := c.r
	pkg := c.p.SSA[otRel]
	for _, fn := range c.p.srcFn {
		if fn.Pkg != pkg || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() != nil || fn.Signature.Results().Len() != 1 {
			continue
		}
		coll, opts := -1, -1
		for i, p := range fn.Params {
			if isNamed(p.Type(), "", "Collector") {
				coll = i
			}
			if isNamed(p.Type(), otRel, "Options") {
				opts = i
			}
		}
		if coll < 0 {
			continue
		}
		e := NewEngine(c.p)
		e.Keep = func(st *State, ev *Event) bool { return ev.Kind == "call" || ev.Kind == "store" }
		on := e.Param(fn, coll)
		optType := c.p.Named(otRel, "Options")
		given := func(name string) *Term {
			if opts < 0 {
				return nil
			}
			if i := fieldNamed(optType, name); i >= 0 {
				return e.fieldOf(e.Param(fn, opts), optType, i)
			}
			return nil
		}
		// recorder: an address that holds a recorder for the collector.
		recorder := func(st *State, t *Term, at func(string, ...any)) {
			if t.op == "mkiface" {
				t = t.args[0]
			}
			if t.op == "call" { // made by the exported constructor
				return
			}
			if got := e.fval(st, t, c.n, c.coll); got != on {
				at("the recorder does not record on the given collector (%s)", got)
			}
			lg, want := e.fval(st, t, c.n, c.log), given("Logger")
			if !e.notNil(st, lg) && !isCall(lg.origin(), "log.New") && !isCall(lg.origin(), "log.Default") {
				at("the recorder may have no logger (%s)", lg)
			}
			if want != nil && lg != want && !e.isNil(st, want) {
				at("the recorder does not use the given logger")
			}
			if v := given("Verbose"); v != nil && e.fval(st, t, c.n, c.verb) != v {
				at("the recorder does not have the given verbosity")
			}
		}
		isNew := func(ev *Event) bool {
			return ev.Kind == "call" && strings.HasPrefix(ev.Name, "github.com/opentracing/basictracer-go.New") && ev.Res != nil
		}
		e.OnEvent = func(st *State, ev *Event) {
			if !isNew(ev) {
				return
			}
			bad := func(f string, args ...any) { r.Violate("construct", fnLabel(fn), ev.Site.Pos(), f, args...) }
			r.Count("constructed tracers", 1)
			o := ev.Args[len(ev.Args)-1]
			n, ok := o.typ.(*types.Named)
			if !ok || fieldNamed(n, "ShouldSample") < 0 || fieldNamed(n, "Recorder") < 0 {
				bad("the tracer is made without options")
				return
			}
			recorder(st, e.fieldOf(o, n, fieldNamed(n, "Recorder")), bad)
			if i := fieldNamed(n, "DropAllLogs"); i >= 0 {
				if v := e.fieldOf(o, n, i); !(v.op == "field" && isCall(v.args[0].origin(), "github.com/opentracing/basictracer-go.DefaultOptions")) && !e.isFalse(st, v) {
					bad("the tracer drops the logs of spans")
				}
			}
			if i := fieldNamed(n, "MaxLogsPerSpan"); i >= 0 {
				v := e.fieldOf(o, n, i)
				c, isConst := v.intVal()
				if !(v.op == "field" && isCall(v.args[0].origin(), "github.com/opentracing/basictracer-go.DefaultOptions")) && !(isConst && (c == 0 || c >= 100)) {
					bad("the tracer keeps fewer logs of a span than basictracer does by itself")
				}
			}
			s, want := e.fieldOf(o, n, fieldNamed(n, "ShouldSample")), given("ShouldSample")
			if want != nil && s == want {
				if !e.notNil(st, s) {
					bad("the tracer may have no sampling function")
				}
				return
			}
			if want != nil && !e.isNil(st, want) {
				bad("the tracer does not use the given sampling function")
			}
			f, ok := s.origin().obj.(*ssa.Function)
			if !ok || !c.always(f) {
				bad("the tracer's default sampling function does not sample every trace (%s)", s)
			}
		}
		e.OnExit = func(st *State, x *Exit) {
			if x.Kind != "return" {
				return
			}
			bad := func(f string, args ...any) { r.Violate("construct", fnLabel(fn), x.Site.Pos(), f, args...) }
			if isNamed(derefType(x.Results[0].typ), otRel, "Recorder") {
				r.Count("constructed recorders", 1)
				recorder(st, x.Results[0], bad)
				return
			}
			if len(callsOf(st.trace, func(ev *Event) bool { return isNew(ev) && x.Results[0].has(ev.Res) })) == 0 {
				bad("what is returned is not a tracer of basictracer")
			}
		}
		e.Run(fn, nil)
		r.Use(e)
	}
}

// always: the function returns true.
func (c *otrec) always(f *ssa.Function) bool {
	e := NewEngine(c.p)
	ok := true
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind == "return" && (len(x.Results) != 1 || !e.isTrue(st, x.Results[0])) {
			ok = false
		}
	}
	if len(f.Blocks) == 0 {
		return false
	}
	e.Run(f, nil)
	return ok && len(e.Undecided) == 0
}
