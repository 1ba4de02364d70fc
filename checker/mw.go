package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C19: the middleware ----

func init() {
	register(&Check{
		ID: "C19",
		Rule: "effects and value flow over every path of the handler that Middleware returns: the next handler is called exactly once, on every path, with a fresh response recorder around the caller's writer and the caller's request, given the span in a way that the package's readers read; afterwards one recorder is made for that span and the collector, gets one server event with the recorded status and length, and is finished; configured functions are called only where set, and nothing else is sent; " +
			"every path of every method of the response recorder passes each call through once, unchanged, adds what was written to the length, and sets the status to the first final one sent",
		NotCover: "handlers that panic; what handlers send around the recorder, e.g. through a hijacked connection; the ID that a header stands for (C16)",
		Run:      runC19,
	})
}

type middleware struct {
	r       *R
	p       *Program
	conf    *types.Named
	wrapper *types.Named // the response recorder
	under   int          // its field for the caller's writer
	status  string       // paths of the fields with what was sent
	length  string
	keys    map[string]bool // context keys under which readers find the span
}

func runC19(r *R) {
	m := &middleware{r: r, p: r.P, conf: r.P.Named(httpRel, "MiddlewareConfig"), keys: map[string]bool{}}
	fn := r.P.Func(httpRel, "Middleware")
	if !r.Require(fn != nil && m.conf != nil && len(fn.Params) == 2, "anchor", "httptrace.Middleware") {
		return
	}
	if !m.findWrapper(fn) {
		return
	}
	m.readers()
	m.methods()
	m.handler(fn)
	r.Floor("handler paths", 8)
	r.Floor("calls of the next handler", 4)
	r.Floor("recorded server events", 4)
	r.Floor("readers of the span", 2)
	r.Floor("response recorder methods", 3)
	r.Floor("writes passed through", 2)
	r.Floor("recorded statuses", 4)
}

func isRW(t types.Type) bool { return typeIs(t, "net/http.ResponseWriter") }

// findWrapper: the type whose objects are handed to the next handler.
func (m *middleware) findWrapper(fn *ssa.Function) bool {
	var found []*types.Named
	for _, mem := range m.p.SSA[httpRel].Members {
		t, ok := mem.(*ssa.Type)
		if !ok {
			continue
		}
		n, ok := t.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			continue
		}
		if fs := fieldsOf(n, func(v *types.Var) bool { return isRW(v.Type()) }); len(fs) == 1 {
			found = append(found, n)
			m.under = fs[0]
		}
	}
	if !m.r.Require(len(found) == 1, "anchor", "the type of httptrace that wraps a response writer") {
		return false
	}
	m.wrapper = found[0]
	return true
}

// pathOf is the path of a field of the wrapper object.
func pathOf(a, obj *Term) (string, bool) {
	b, p := addrPath(a)
	return strings.Join(p, "."), b == obj && len(p) > 0
}

// number: a value without conversions between integer types.
func number(t *Term) *Term {
	for t.op == "conv" && t.args[0].typ != nil && isInt(t.args[0].typ) {
		t = t.args[0]
	}
	return t
}

// ---- the response recorder ----

// isUnder: the caller's writer, or what it was asserted to be.
func (m *middleware) isUnder(e *Engine, t, recv *Term) bool {
	t = t.origin()
	for t.op == "tassert" || t.op == "extract" || t.op == "mkiface" || t.op == "conv" {
		t = t.args[0].origin()
	}
	a := at(t)
	if a == nil {
		return false
	}
	f := e.faddr(recv, m.wrapper, m.under)
	return a == f || len(a.args) > 0 && isFieldOf(a, m.wrapper, m.under) && a.args[0].origin() == recv
}

func (m *middleware) methods() {
	var fns []*ssa.Function
	for _, fn := range m.p.methodsOf(m.wrapper) {
		if fn.Synthetic == "" {
			fns = append(fns, fn)
		}
	}
	// Which fields keep the status and the length?
	for _, fn := range fns {
		switch {
		case fn.Name() == "WriteHeader" && len(fn.Params) == 2:
			m.status = m.fieldSet(fn, func(e *Engine, old, v *Term) bool { return number(v) == e.Param(fn, 1) })
		case fn.Name() == "Write" && len(fn.Params) == 2:
			m.length = m.fieldSet(fn, func(e *Engine, old, v *Term) bool {
				return isInt(v.typ) && v != old && v.has(old)
			})
		}
	}
	if !m.r.Require(m.status != "", "anchor", "the field of the response recorder for the status") ||
		!m.r.Require(m.length != "", "anchor", "the field of the response recorder for the length") {
		return
	}
	for _, fn := range fns {
		if fn.Object() != nil && fn.Object().Exported() { // the others are part of these
			m.method(fn)
		}
	}
}

// fieldSet is the path of the field that a method stores a certain value in.
func (m *middleware) fieldSet(fn *ssa.Function, is func(e *Engine, old, v *Term) bool) string {
	e := NewEngine(m.p)
	recv := e.Param(fn, 0)
	got := ""
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind != "store" {
			return
		}
		if p, ok := pathOf(ev.Args[0], recv); ok && is(e, e.peek(st, ev.Args[0], deref(ev.Args[0].typ)), ev.Args[1]) {
			got = p
		}
	}
	e.Run(fn, nil)
	return got
}

func (m *middleware) method(fn *ssa.Function) {
	r := m.r
	r.Count("response recorder methods", 1)
	e := NewEngine(m.p)
	e.Loops = true
	recv := e.Param(fn, 0)
	if _, ok := recv.typ.Underlying().(*types.Pointer); !ok {
		// A copy of the recorder cannot record anything.
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && containsStr(sends, c.Common().Method.Name()) {
					r.Violate("wrapper", fnLabel(fn), in.Pos(), "%s works on a copy of the response recorder: what it sends is not recorded", fn.Name())
				}
			}
		}
		return
	}
	e.Keep = func(st *State, ev *Event) bool { return ev.Kind == "call" || ev.Kind == "store" }
	under := func(t *Term) bool { return m.isUnder(e, t, recv) }
	// what a call sends to the client
	sent := func(ev *Event) string {
		if ev.Kind != "call" {
			return ""
		}
		if ev.Iface && under(ev.Args[0]) {
			name := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
			if containsStr(sends, name) {
				return name
			}
			return ""
		}
		for _, a := range ev.Args {
			if under(a) {
				return "other"
			}
		}
		return ""
	}
	e.OnEvent = func(st *State, ev *Event) {
		at := func(f string, args ...any) { r.Violate("wrapper", fnLabel(ev.Fn), ev.Site.Pos(), f, args...) }
		switch ev.Kind {
		case "go":
			at("the response is written by another goroutine")
		case "store":
			if a := ev.Args[0]; a.op == "fa" && isFieldOf(a, m.wrapper, m.under) && a.args[0] == recv {
				at("the response recorder changes what it passes the response to")
			}
			p, ok := pathOf(ev.Args[0], recv)
			if !ok || p != m.status && p != m.length {
				if a := ev.Args[0]; a == recv {
					at("the response recorder is overwritten")
				}
				return
			}
			k := "first:" + p
			if st.notes[k] == "" {
				old := e.peek(st, ev.Args[0], deref(ev.Args[0].typ))
				st.pin(old)
				st.notes[k] = fmt.Sprint(old.id)
			}
			st.pin(ev.Args[1])
			st.notes["last:"+p] = fmt.Sprint(ev.Args[1].id)
		case "load":
			if p, ok := pathOf(ev.Args[0], recv); ok && (p == m.status || p == m.length) && st.notes["first:"+p] == "" {
				old := e.peek(st, ev.Args[0], deref(ev.Args[0].typ))
				st.pin(old)
				st.notes["first:"+p] = fmt.Sprint(old.id)
			}
		case "call":
			what := sent(ev)
			if what == "" {
				return
			}
			switch fn.Name() {
			case "Write", "WriteHeader", "Flush":
				if what != fn.Name() {
					at("%s is not passed through as %s (%s)", fn.Name(), fn.Name(), ev.Name)
					return
				}
				for i := 1; i < len(ev.Args); i++ {
					if ev.Args[i].origin() != e.Param(fn, i) {
						at("%s passes on something other than its argument (%s)", fn.Name(), ev.Args[i])
					}
				}
			}
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		at := func(f string, args ...any) {
			r.Violate("wrapper", fnLabel(fn), x.Site.Pos(), fn.Name()+" "+f, args...)
		}
		if x.Kind != "return" {
			at("may not return")
			return
		}
		passed := callsOf(st.trace, func(ev *Event) bool { return sent(ev) != "" })
		// What it finds and leaves (the writer does not change it in between).
		noted := func(k, p string) *Term {
			if s := st.notes[k+p]; s != "" {
				return e.T.all[atoi(s)-1]
			}
			return nil
		}
		old, now := noted("first:", m.status), noted("last:", m.status)
		if now == nil {
			now = old
		}
		oldLen, nowLen := noted("first:", m.length), noted("last:", m.length)
		if nowLen == nil {
			nowLen = oldLen
		}
		switch fn.Name() {
		case "Write", "WriteHeader":
			if len(passed) != 1 {
				at("is passed through %d times", len(passed))
				return
			}
		case "Flush":
			if len(passed) > 1 {
				at("is passed through %d times", len(passed))
				return
			}
			if len(passed) == 0 {
				can := true
				for f, v := range st.facts {
					if !v && f.op == "istype" || !v && f.op == "extract" {
						can = false
					}
				}
				if can {
					at("is not passed through although the writer can flush")
				}
			}
		}
		if fn.Name() == "WriteHeader" && len(fn.Params) == 2 {
			r.Count("writes passed through", 1)
			code := e.Param(fn, 1)
			informational := func() bool { // not the final status
				for _, c := range []*Term{e.T.Not(e.less(code, e.T.Int(200))), e.T.Eq(code, e.T.Int(101))} {
					if e.assume(st.clone(), c, true) {
						return false
					}
				}
				return true
			}
			final := func() bool {
				s := st.clone()
				return !(e.assume(s, e.less(code, e.T.Int(100)), false) && e.assume(s, e.less(code, e.T.Int(200)), true) && e.assume(s, e.T.Eq(code, e.T.Int(101)), false))
			}
			switch {
			case now == nil || old == nil:
				if !informational() {
					at("does not record the status")
				}
			case number(now) == code:
				r.Count("recorded statuses", 1)
				if !e.isZero(st, old) {
					at("replaces the status that was sent before")
				}
				if !final() {
					at("records an informational status as that of the response")
				}
			case now == old:
				if !e.isSet(st, old) && !informational() {
					at("may not record the first final status")
				}
			default:
				at("records another status than the one sent (%s)", now)
			}
			if nowLen != oldLen {
				at("changes the recorded length")
			}
			return
		}
		if len(passed) == 0 {
			if now != old && !(e.isZero(st, old) && now != nil && isNum(now, 200)) || nowLen != oldLen {
				at("changes what is recorded although nothing is sent (%s %s)", now, nowLen)
			}
			return
		}
		// Sending anything but an informational status settles the status.
		switch {
		case now == nil || old == nil:
			at("does not record the status that is sent with it")
		case isNum(now, 200):
			r.Count("recorded statuses", 1)
			if !e.isZero(st, old) && !isNum(old, 200) {
				at("replaces the status that was sent before")
			}
		case now == old:
			if !e.isSet(st, old) {
				at("may leave the status unset")
			}
		default:
			at("records a status that was not sent (%s)", now)
		}
		// The length grows by what was written.
		var total []*Term
		for _, ev := range passed {
			if ev.Name[strings.LastIndex(ev.Name, ".")+1:] == "Flush" {
				continue
			}
			if n := m.written(e, ev); n != nil {
				total = append(total, n)
			} else {
				at("sends something whose length is not known (%s)", ev.Name)
				return
			}
		}
		if len(total) == 0 {
			if nowLen != oldLen {
				at("changes the recorded length")
			}
			return
		}
		r.Count("writes passed through", 1)
		if oldLen == nil || nowLen == nil || !e.sumOf(nowLen, append(total, oldLen)) {
			at("does not add what was written to the recorded length (%s)", nowLen)
		}
		if fn.Name() == "Write" {
			w := passed[0]
			if len(x.Results) != 2 || x.Results[0].origin() != e.ResultTerm(w, 0) || x.Results[1].origin() != e.ResultTerm(w, 1) {
				at("does not return the results of the write")
			}
		}
	}
	e.Run(fn, nil)
	r.Use(e)
}

// sends are the methods of a writer that send (a part of) the response.
var sends = []string{"Write", "WriteString", "WriteHeader", "ReadFrom", "Flush", "FlushError"}

func isNum(t *Term, v int64) bool {
	n, ok := number(t).intVal()
	return ok && n == v
}

// written is the number of bytes that a call has written.
func (m *middleware) written(e *Engine, ev *Event) *Term {
	sig, ok := ev.Site.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	res := sig.Common().Signature().Results()
	for i := 0; i < res.Len(); i++ {
		if isInt(res.At(i).Type()) {
			return e.ResultTerm(ev, i)
		}
	}
	return nil
}

// sumOf: the value is the sum of the others.
func (e *Engine) sumOf(v *Term, parts []*Term) bool {
	left := append([]*Term(nil), parts...)
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		t = number(t)
		for i, p := range left {
			if t == number(p) {
				left = append(left[:i], left[i+1:]...)
				return true
			}
		}
		if t.op == "bin" && t.aux == token.ADD.String() {
			return walk(t.args[0]) && walk(t.args[1])
		}
		return false
	}
	if walk(v) && len(left) == 0 {
		return true
	}
	// or as a linear form
	sum := v
	for _, p := range parts {
		sum = e.T.Bin(token.SUB, sum, e.conv(number(p), number(p).typ, v.typ), v.typ)
	}
	n, ok := sum.intVal()
	return ok && n == 0
}

// ---- readers of the span ----

// readers: the functions of the package that return the span of a context.
func (m *middleware) readers() {
	rv := newRelevance(m.p, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Value" && typeIs(c.Common().Value.Type(), "context.Context")
	})
	for _, fn := range m.p.srcFn {
		if fn.Pkg == nil || fn.Pkg != m.p.SSA[httpRel] || fn.Object() == nil || !fn.Object().Exported() || !rv.has(fn) {
			continue
		}
		e := NewEngine(m.p)
		e.Opaque = func(f *ssa.Function) bool { return !rv.has(f) }
		e.Keep = func(st *State, ev *Event) bool { return false }
		reads := func(ev *Event) bool {
			return ev.Kind == "call" && ev.Iface && strings.HasSuffix(ev.Name, "context.Context).Value")
		}
		e.OnEvent = func(st *State, ev *Event) {
			if reads(ev) {
				m.r.Count("readers of the span", 1)
				m.keys[contextKey(ev.Args[1])] = true
			}
		}
		e.Run(fn, nil)
	}
	if len(m.keys) > 1 {
		m.r.Violate("context", httpRel, token.NoPos, "the span is read from contexts under different keys")
	}
}

// contextKey describes a key: a variable that is never changed, or a constant.
func contextKey(t *Term) string {
	if t.op == "mkiface" {
		v := t.args[0].origin()
		if a := at(v); a != nil {
			v = a
		}
		s := v.op + ":" + v.aux
		if v.op == "const" {
			s = v.String()
		}
		return t.aux + " " + s
	}
	if a := at(t.origin()); a != nil {
		return a.op + ":" + a.aux
	}
	return t.op + ":" + t.aux + fmt.Sprint(t.id)
}

// ---- the handler ----

func (m *middleware) handler(mk *ssa.Function) {
	r := m.r
	e := NewEngine(m.p)
	e.Loops = true
	h := &httpRules{r: r, p: m.p, rec: m.p.Named("", "Recorder")}
	e.Opaque = func(f *ssa.Function) bool {
		return h.opaque(f) && !(f.Signature.Recv() != nil && isNamed(derefType(f.Signature.Recv().Type()), httpRel, m.wrapper.Obj().Name()))
	}
	type made struct {
		st  *State
		res *Term
	}
	var out []made
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind == "return" && len(x.Results) == 1 {
			out = append(out, made{st.clone(), x.Results[0]})
		}
	}
	e.Run(mk, nil)
	coll, conf := e.Param(mk, 0), e.Param(mk, 1)
	n := 0
	for _, o := range out {
		fn, ok := o.res.obj.(*ssa.Function)
		if !ok || o.res.op != "closure" && o.res.op != "func" || len(fn.Params) != 3 || len(o.res.args) != len(fn.FreeVars) {
			r.Violate("anchor", fnLabel(mk), mk.Pos(), "what Middleware returns is not a handler that can be analysed (%s)", o.res)
			continue
		}
		n++
		m.serve(e, h, o.st, fn, o.res.args, coll, conf)
	}
	r.Require(n > 0, "anchor", "the handler that httptrace.Middleware returns")
	r.Use(e)
}

func (m *middleware) serve(e *Engine, h *httpRules, from *State, fn *ssa.Function, bindings []*Term, coll, conf *Term) {
	r, p := m.r, m.p
	args := []*Term{e.Param(fn, 0), e.Param(fn, 1), e.Param(fn, 2)}
	rw, req, next := args[0], args[1], args[2]
	se, ri := p.Named(httpRel, "ServerEvent"), p.Named(httpRel, "ResponseInfo")
	if !r.Require(se != nil && ri != nil, "anchor", "httptrace.ServerEvent") {
		return
	}
	isNext := func(ev *Event) bool {
		return ev.Kind == "call" && (ev.Name == "dynamic" || ev.Name == "(net/http.HandlerFunc).ServeHTTP") && ev.Args[0].origin() == next
	}
	confField := func(t *Term) string { // a function of the configuration
		b, path := fieldPath(t)
		if b == conf && len(path) == 1 {
			return path[0]
		}
		return ""
	}
	isRequest := func(t *Term) bool { // the caller's request, perhaps with another context
		t = t.origin()
		for i := 0; i < 4 && t.op == "call" && (t.aux == "(*net/http.Request).WithContext" || t.aux == "(*net/http.Request).Clone") && len(t.args) > 0; i++ {
			t = t.args[0].origin()
		}
		return t == req
	}
	e.Keep = func(st *State, ev *Event) bool { return ev.Kind == "call" || ev.Kind == "go" }
	note := func(st *State, k string, t *Term) {
		st.pin(t)
		st.notes[k] = fmt.Sprint(t.id)
	}
	noted := func(st *State, k string) *Term {
		if s := st.notes[k]; s != "" {
			return e.T.all[atoi(s)-1]
		}
		return nil
	}
	resArgs := func(st *State, t *Term) []*Term {
		for _, it := range st.trace {
			if it.Ev != nil && it.Ev.Kind == "call" && it.Ev.Res == t {
				return it.Ev.Args
			}
		}
		return nil
	}
	seen := map[*ssa.Function]bool{}
	e.OnEvent = func(st *State, ev *Event) {
		seen[ev.Fn] = true
		bad := func(rule, f string, args ...any) { r.Violate(rule, fnLabel(ev.Fn), ev.Site.Pos(), f, args...) }
		if ev.Kind == "store" {
			for _, b := range bindings {
				if rootAddr(ev.Args[0]) == b {
					bad("own", "a variable that all requests share is changed")
				}
			}
			if rr := noted(st, "rr"); rr != nil {
				if p, ok := pathOf(ev.Args[0], rr); ok && (p == m.status || p == m.length) || ev.Args[0] == rr {
					bad("sent", "the middleware itself changes what the response recorder has recorded")
				}
			}
			return
		}
		if ev.Kind != "call" {
			return
		}
		if ev.Res != nil {
			st.pin(ev.Res)
		}
		switch {
		case isNext(ev):
			if len(ev.Args) != 3 {
				return
			}
			r.Count("calls of the next handler", 1)
			if st.notes["next"] != "" {
				bad("once", "the next handler may be called more than once")
			}
			st.notes["next"] = "1"
			w := ev.Args[1]
			if w.op == "mkiface" {
				w = w.args[0]
			}
			if w.op != "alloc" || !isNamed(deref(w.typ), httpRel, m.wrapper.Obj().Name()) || !madeIn(w, fn) {
				bad("wrapper", "the next handler does not get a response recorder of its own (%s)", ev.Args[1])
				return
			}
			note(st, "rr", w)
			if e.fval(st, w, m.wrapper, m.under).origin() != rw {
				bad("wrapper", "the response recorder does not pass the response on to the caller's writer (%s)", e.fval(st, w, m.wrapper, m.under))
			}
			for _, f := range []string{m.status, m.length} {
				if v := m.fieldAt(e, st, w, f); v == nil || !e.isZero(st, v) {
					bad("wrapper", "the response recorder starts with a status or length (%s)", f)
				}
			}
			rq := ev.Args[2].origin()
			note(st, "req", rq)
			if !isRequest(rq) {
				bad("request", "the next handler gets another request than the caller's (%s)", rq)
				return
			}
			// Can it read the span?
			if set := noted(st, "set"); set != nil {
				if noted(st, "setreq") != rq {
					bad("context", "the span is set for another request than the one that the next handler gets")
				}
				note(st, "span", set)
				return
			}
			if rq.op != "call" || len(rq.args) < 2 {
				bad("context", "the next handler cannot read the span from its request")
				return
			}
			ctx := rq.args[1].origin()
			if ctx.op != "call" || ctx.aux != "context.WithValue" || len(ctx.args) != 3 {
				bad("context", "the next handler cannot read the span from its request (%s)", ctx)
				return
			}
			if b := ctx.args[0].origin(); b.op != "call" || b.aux != "(*net/http.Request).Context" || !isRequest(b.args[0]) {
				bad("context", "the next handler's request loses the context of the caller's (%s)", b)
			}
			if !m.keys[contextKey(ctx.args[1])] {
				bad("context", "the span is kept under a key that is not the one it is read with (%s)", contextKey(ctx.args[1]))
			}
			if v := ctx.args[2]; v.op == "mkiface" && isNamed(v.args[0].typ, "", "SpanID") {
				note(st, "span", v.args[0])
			} else {
				bad("context", "what the next handler reads as the span is not a span ID (%s)", v)
			}
		case ev.Name == "dynamic":
			f := confField(ev.Args[0])
			if f == "" {
				return
			}
			if !e.notNil(st, ev.Args[0]) {
				bad("config", "%s is called although it may not be set", f)
			}
			if len(ev.Args) < 2 || !isRequest(ev.Args[1]) {
				bad("config", "%s is called for another request than the caller's", f)
			}
			if len(ev.Args) == 3 && isNamed(ev.Args[2].typ, "", "SpanID") {
				note(st, "set", ev.Args[2])
				note(st, "setreq", ev.Args[1].origin())
			} else if ev.Res != nil {
				note(st, "conf:"+f, ev.Res)
			}
		case ev.Name == modPath+".NewRecorder":
			if st.notes["rec"] != "" {
				bad("recorded", "more than one recorder is made for a request")
			}
			note(st, "rec", ev.Res)
			if ev.Args[1].origin() != coll {
				bad("recorded", "the server event is recorded with another collector than the configured one (%s)", ev.Args[1])
			}
			note(st, "recspan", ev.Args[0])
			if why := m.source(e, st, ev.Args[0], req); why != "" {
				bad("span", "%s", why)
			}
		case h.recCall(ev, "Event"):
			if st.notes["event"] != "" {
				bad("recorded", "more than one server event may be recorded for a request")
			}
			st.notes["event"] = "1"
			if st.notes["next"] == "" {
				bad("recorded", "the server event is recorded before the next handler has run")
				return
			}
			if noted(st, "rec") != ev.Args[0].origin() {
				bad("recorded", "the server event is recorded on a recorder that was not made for the request")
			}
			if st.notes["finish"] != "" {
				bad("recorded", "the server event is recorded after its recorder was finished")
			}
			if s, of := noted(st, "span"), noted(st, "recspan"); s == nil || of == nil || !m.sameSpan(e, of, s) {
				bad("span", "the server event is recorded on another span than the one that the next handler gets (%s)", of)
			}
			v := ev.Args[1]
			if v.op != "mkiface" || !strings.Contains(v.aux, "ServerEvent") {
				bad("recorded", "what is recorded is not a server event (%s)", v)
				return
			}
			r.Count("recorded server events", 1)
			if why := m.event(e, st, v.args[0].origin(), se, ri, noted(st, "rr"), noted(st, "req"), isRequest, resArgs, func(f string) (*Term, bool) {
				return noted(st, "conf:"+f), m.unset(e, st, conf, f)
			}, isNext); why != "" {
				bad("outcome", "%s", why)
			}
		case h.recCall(ev, "Finish"):
			if st.notes["finish"] != "" {
				bad("recorded", "the recorder may be finished more than once")
			}
			if st.notes["event"] == "" || noted(st, "rec") != ev.Args[0].origin() {
				bad("recorded", "the recorder is finished before its event is recorded")
			}
			st.notes["finish"] = "1"
		case ev.Iface && containsStr(sends, ev.Name[strings.LastIndex(ev.Name, ".")+1:]):
			if m.writer(e, ev.Args[0], rw, noted(st, "rr")) {
				bad("sent", "the middleware itself sends (a part of) the response")
			}
		default:
			for i, a := range ev.Args {
				if (i > 0 || !ev.Iface) && m.writer(e, a, rw, noted(st, "rr")) && isRW(a.typ) {
					bad("sent", "the middleware hands the response writer to something other than the next handler (%s)", ev.Name)
				}
			}
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		r.Count("handler paths", 1)
		at := func(rule, f string, args ...any) { r.Violate(rule, fnLabel(fn), x.Site.Pos(), f, args...) }
		if x.Kind != "return" {
			at("once", "the middleware itself may panic or end the program")
			return
		}
		switch {
		case st.notes["next"] == "":
			at("once", "the next handler may not be called")
		case st.notes["event"] == "" || st.notes["finish"] == "":
			at("recorded", "a request may not be recorded")
		}
	}
	e.Continue(from, fn, args, bindings)
}

// madeIn: an object that the analysed function has made on this run.
func madeIn(t *Term, fn *ssa.Function) bool {
	c := t.ctx
	for c != nil && c.parent != nil {
		c = c.parent
	}
	return c != nil && c.fn == fn
}

// fieldAt is the value of a field of an object, given by its path.
func (m *middleware) fieldAt(e *Engine, st *State, obj *Term, path string) *Term {
	a, t := obj, types.Type(m.wrapper)
	for _, name := range strings.Split(path, ".") {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		i := 0
		for i < s.NumFields() && s.Field(i).Name() != name {
			i++
		}
		if i == s.NumFields() {
			return nil
		}
		a = e.fieldAddr(a, types.NewPointer(t), i)
		t = s.Field(i).Type()
	}
	return e.peek(st, a, t)
}

// unset: a function of the configuration is known not to be set.
func (m *middleware) unset(e *Engine, st *State, conf *Term, name string) bool {
	a := e.faddr(conf, m.conf, fieldNamed(m.conf, name))
	if e.isNil(st, e.fval(st, conf, m.conf, fieldNamed(m.conf, name))) {
		return true
	}
	for f, v := range st.facts {
		if v && f.op == "eq" && (at(f.args[0]) == a && f.args[1].isNil() || at(f.args[1]) == a && f.args[0].isNil()) {
			return true
		}
	}
	return false
}

// writer: the response writer or the recorder around it.
func (m *middleware) writer(e *Engine, t, rw, rr *Term) bool {
	t = t.origin()
	for t.op == "mkiface" || t.op == "tassert" || t.op == "extract" {
		t = t.args[0].origin()
	}
	if t == rw || t == rr {
		return true
	}
	a := at(t)
	return a != nil && a.op == "fa" && isFieldOf(a, m.wrapper, m.under)
}

// sameSpan: the same value, or read twice from the same memory, which nothing
// has been stored in since.
func (m *middleware) sameSpan(e *Engine, a, b *Term) bool {
	n, ok := b.typ.(*types.Named)
	if !ok || a.typ == nil || !types.Identical(a.typ, b.typ) {
		return false
	}
	if a == b || at(a) != nil && at(a) == at(b) {
		return true
	}
	for _, i := range fieldsOf(n, func(*types.Var) bool { return true }) {
		x, y := e.fieldOf(a, n, i), e.fieldOf(b, n, i)
		if x != y && (at(x) == nil || at(x) != at(y)) {
			return false
		}
	}
	return true
}

// source: where does the span come from?
func (m *middleware) source(e *Engine, st *State, v, req *Term) string {
	root := modPath + ".NewRootSpanID"
	parse := modPath + ".ParseSpanID"
	child := modPath + ".NewSpanID"
	good := map[*Term]bool{} // successfully parsed
	for _, it := range st.trace {
		if ev := it.Ev; ev != nil && ev.Kind == "call" && ev.Name == parse {
			if er := e.errResult(ev); er != nil && e.isNil(st, er) && !e.isNil(st, e.ResultTerm(ev, 0)) {
				good[ev.Res] = true
			}
		}
	}
	v = v.origin()
	made := func(names ...string) *Event {
		var last *Event
		for _, it := range st.trace {
			if ev := it.Ev; ev != nil && ev.Kind == "call" && containsStr(names, ev.Name) && (ev.Res == v || v.has(ev.Res)) {
				last = ev
			}
		}
		return last
	}
	ev := made(root, child)
	if ev == nil {
		ev = made(parse)
	}
	if ev == nil {
		return fmt.Sprintf("the span is neither that of the request's header nor a new one (%s)", v)
	}
	switch ev.Name {
	case root:
		for g := range good {
			if g != nil {
				return "the span of the request's header is ignored"
			}
		}
	case parse:
		if !good[ev.Res] {
			return "a span ID that could not be parsed is used"
		}
		fallthrough
	default:
		ok := false
		for _, it := range st.trace {
			if g := it.Ev; g != nil && g.Kind == "call" && strings.HasPrefix(g.Name, "(net/http.Header).") {
				if b, p := fieldPath(g.Args[0]); b == req && strings.Join(p, ".") == "Header" {
					ok = true
				}
			}
		}
		if !ok {
			return "the span ID is not read from the request's headers"
		}
	}
	return ""
}

// event: what is wrong with the server event that is recorded?
func (m *middleware) event(e *Engine, st *State, v *Term, se, ri *types.Named, rr, rq *Term, isRequest func(*Term) bool, resArgs func(*State, *Term) []*Term, conf func(string) (res *Term, unset bool), isNext func(*Event) bool) string {
	field := func(name string) *Term {
		i := fieldNamed(se, name)
		if i < 0 {
			return nil
		}
		if _, ok := v.typ.Underlying().(*types.Pointer); ok {
			return e.fval(st, v, se, i)
		}
		return e.fieldOf(v, se, i)
	}
	next, when := -1, map[*Term]int{}
	for i, it := range st.trace {
		if ev := it.Ev; ev != nil && ev.Kind == "call" {
			if isNext(ev) {
				next = i
			}
			if ev.Res != nil {
				when[ev.Res] = i
			}
		}
	}
	for name, before := range map[string]bool{"ServerRecv": true, "ServerSend": false} {
		t := field(name)
		if t == nil || t.op != "call" || t.aux != "time.Now" || (when[t] < next) != before {
			return fmt.Sprintf("%s is not the time before or after the request was handled (%s)", name, t)
		}
	}
	if t := field("Request"); t == nil {
		return "the request is not recorded"
	} else {
		ok := t.mentions(isRequest)
		for _, a := range resArgs(st, t) {
			ok = ok || isRequest(a)
		}
		if !ok {
			return fmt.Sprintf("the recorded request is not the one that was handled (%s)", t)
		}
	}
	for name, f := range map[string]string{"Route": "RouteName", "User": "CurrentUser"} {
		t := field(name)
		res, unset := conf(f)
		switch {
		case t == nil:
			return "the server event has no " + name
		case res != nil:
			if t.origin() != res {
				return fmt.Sprintf("%s is not what %s returns (%s)", name, f, t)
			}
		case !unset:
			return fmt.Sprintf("%s is not asked for the recorded %s", f, strings.ToLower(name))
		}
	}
	// The response: status and length as the recorder has them now.
	if rr == nil {
		return "there is no response recorder"
	}
	status, length := m.fieldAt2(e, rr, m.status), m.fieldAt2(e, rr, m.length)
	fromRR := func(t, a *Term) bool { t = number(t); return at(t) == a || t.has(a) && t.op == "call" }
	checkPair := func(code, n *Term) string {
		switch {
		case code == nil || n == nil:
			return "the response is not recorded"
		case fromRR(code, status):
			if !e.isSet(st, number(code)) {
				return "a response without an explicit status is not recorded as 200"
			}
		case isNum(code, 200):
			ok := false
			for f, v := range st.facts {
				if v && f.op == "eq0" || v && f.op == "eq" {
					ok = ok || f.mentions(func(t *Term) bool { return at(t) == status })
				}
			}
			if !ok {
				return "status 200 is recorded although another one may have been sent"
			}
		default:
			return fmt.Sprintf("the recorded status is not the one that was sent (%s)", code)
		}
		if !fromRR(n, length) {
			return fmt.Sprintf("the recorded length is not that of what was sent (%s)", n)
		}
		return ""
	}
	got := field("Response").origin()
	if got.op == "call" { // filled from a response object
		for _, a := range resArgs(st, got) {
			a = a.origin()
			var t types.Type = a.typ
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			if typeIs(t, "net/http.Response") {
				n := t.(*types.Named)
				val := func(name string) *Term {
					if a.typ == t {
						return e.fieldOf(a, n, fieldNamed(n, name))
					}
					return e.fval(st, a, n, fieldNamed(n, name))
				}
				return checkPair(val("StatusCode"), val("ContentLength"))
			}
		}
		return "the recorded response is not that of the next handler"
	}
	val := func(name string) *Term {
		if got.op == "load" {
			return e.peek(st, e.fieldAddr(at(got), types.NewPointer(ri), fieldNamed(ri, name)), ri.Underlying().(*types.Struct).Field(fieldNamed(ri, name)).Type())
		}
		return e.fieldOf(got, ri, fieldNamed(ri, name))
	}
	return checkPair(val("StatusCode"), val("ContentLength"))
}

// fieldAt2 is the address of a field of an object, given by its path.
func (m *middleware) fieldAt2(e *Engine, obj *Term, path string) *Term {
	a, t := obj, types.Type(m.wrapper)
	for _, name := range strings.Split(path, ".") {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				a = e.fieldAddr(a, types.NewPointer(t), i)
				t = s.Field(i).Type()
				break
			}
		}
	}
	return a
}
