package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C16",
		Rule: "value provenance: trace, span and parent ID of every span that is created, derived, parsed or converted come from the components the documentation names, on every path; fresh components are results of distinct generator calls; " +
			"text forms have the components in their order and base 16 both ways, and success of a parse implies that each part was parsed without error; " +
			"the generator: within one hold of its lock, the bytes handed out start at the index, the index moves past them, a used-up block is replaced by encrypting the counter, which is then incremented with carry, and the key and counter come from a random buffer that was filled without error; Python: same provenance",
		NotCover: "values computed by fmt and strconv (C27), quality of the cipher (C28)",
		Run:      runC16,
	})
}

type ids struct {
	r    *R
	span *types.Named
	id   *types.Named
	// field indices of SpanID
	tr, sp, pa int
}

// isGenerator: func() ID of the root package.
func (c *ids) isGenerator(fn *ssa.Function) bool {
	return fn != nil && len(fn.Blocks) > 0 && fnPkg(fn) != nil && fnPkg(fn).Path() == modPath && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 &&
		types.Identical(fn.Signature.Results().At(0).Type(), c.id)
}

func (c *ids) opaque(fn *ssa.Function) bool { return c.isGenerator(fn) }

// gen reports the result of a call of a generator.
func (c *ids) gen(t *Term) bool {
	t = t.origin()
	fn, ok := t.obj.(*ssa.Function)
	return t.op == "call" && ok && c.isGenerator(fn)
}

func runC16(r *R) {
	c := &ids{r: r, span: r.P.Named("", "SpanID"), id: r.P.Named("", "ID")}
	if !r.Require(c.span != nil && c.id != nil, "anchor", "types SpanID and ID") {
		return
	}
	c.tr, c.sp, c.pa = fieldNamed(c.span, "Trace"), fieldNamed(c.span, "Span"), fieldNamed(c.span, "Parent")
	if !r.Require(c.tr >= 0 && c.sp >= 0 && c.pa >= 0, "anchor", "fields Trace, Span and Parent of SpanID") {
		return
	}
	c.created()
	c.child()
	c.transport()
	c.header()
	c.parse()
	c.text()
	c.json()
	c.foreign()
	c.generator()
	c.python()
}

// parts are the components of a span ID value or of what a pointer points to.
func (c *ids) parts(e *Engine, st *State, v *Term) (tr, sp, pa *Term) {
	v = v.origin()
	if v.typ != nil {
		if _, ok := v.typ.Underlying().(*types.Pointer); ok {
			return e.fval(st, v, c.span, c.tr), e.fval(st, v, c.span, c.sp), e.fval(st, v, c.span, c.pa)
		}
	}
	return e.fieldOf(v, c.span, c.tr), e.fieldOf(v, c.span, c.sp), e.fieldOf(v, c.span, c.pa)
}

// narrowed: the value has been converted to a smaller integer type.
func narrowed(t *Term) bool {
	for t.op == "conv" && len(t.args) == 1 {
		if a := t.args[0]; isInt(t.typ) && a.typ != nil && isInt(a.typ) && intSize(t.typ) < intSize(a.typ) {
			return true
		}
		t = t.args[0]
	}
	return false
}

// from reports a component read from the named field below a place, which is
// where (in the same way) the other one comes from as well.
func from(t *Term, base *Term, field string) (path string, ok bool) {
	b, p := fieldPath(t)
	if b != base || len(p) == 0 || p[len(p)-1] != field || narrowed(t) {
		return "", false
	}
	return strings.Join(p[:len(p)-1], "."), true
}

// childOf: what is wrong with a span ID as a child of the one at base.path.
func (c *ids) childOf(e *Engine, st *State, v, base *Term, path string) string {
	tr, sp, pa := c.parts(e, st, v)
	if p, ok := from(tr, base, "Trace"); !ok || p != path {
		return fmt.Sprintf("its trace ID is not its parent's trace ID (%s)", tr)
	}
	if p, ok := from(pa, base, "Span"); !ok || p != path {
		return fmt.Sprintf("its parent ID is not its parent's span ID (%s)", pa)
	}
	if !c.gen(sp) {
		return fmt.Sprintf("its span ID is not a fresh one (%s)", sp)
	}
	return ""
}

func (c *ids) rootID(e *Engine, st *State, v *Term) string {
	tr, sp, pa := c.parts(e, st, v)
	switch {
	case !c.gen(tr):
		return fmt.Sprintf("its trace ID is not a fresh one (%s)", tr)
	case !c.gen(sp):
		return fmt.Sprintf("its span ID is not a fresh one (%s)", sp)
	case tr.origin() == sp.origin():
		return "its trace ID and its span ID are the same fresh ID"
	case !e.isZero(st, pa):
		return fmt.Sprintf("it has a parent (%s)", pa)
	}
	return ""
}

// created checks NewRootSpanID and NewSpanID.
func (c *ids) created() {
	r := c.r
	for _, name := range []string{"NewRootSpanID", "NewSpanID"} {
		fn := r.P.Func("", name)
		if !r.Require(fn != nil, "anchor", name) {
			continue
		}
		e := NewEngine(r.P)
		e.Opaque = c.opaque
		e.OnExit = func(st *State, x *Exit) {
			if x.Kind != "return" {
				r.Violate("lineage", fnLabel(fn), x.Site.Pos(), "creating a span ID may panic")
				return
			}
			r.Count("paths that create span IDs", 1)
			w := ""
			if name == "NewRootSpanID" {
				w = c.rootID(e, st, x.Results[0])
			} else {
				w = c.childOf(e, st, x.Results[0], e.Param(fn, 0), "")
			}
			if w != "" {
				r.Violate("lineage", fnLabel(x.Fn), x.Site.Pos(), "the created span ID is wrong: %s", w)
			}
		}
		e.Run(fn, nil)
		r.Use(e)
	}
	r.Floor("paths that create span IDs", 2)
}

// child checks Recorder.Child.
func (c *ids) child() {
	r := c.r
	fn := r.P.Method("", "Recorder", "Child")
	rec := r.P.Named("", "Recorder")
	if !r.Require(fn != nil && rec != nil, "anchor", "Recorder.Child") {
		return
	}
	idf := fieldsOf(rec, func(v *types.Var) bool { return isNamed(v.Type(), "", "SpanID") })
	col := fieldsOf(rec, func(v *types.Var) bool { return isNamed(v.Type(), "", "Collector") })
	if !r.Require(len(idf) == 1 && len(col) == 1, "anchor", "span ID and collector fields of Recorder") {
		return
	}
	e := NewEngine(r.P)
	e.Opaque = c.opaque
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			return // without a collector
		}
		r.Count("paths of Recorder.Child", 1)
		recv := e.Param(fn, 0)
		label := fieldLabel(e.faddr(recv, rec, idf[0]))
		if w := c.childOf(e, st, e.fval(st, x.Results[0], rec, idf[0]), recv, label); w != "" {
			r.Violate("lineage", fnLabel(x.Fn), x.Site.Pos(), "the span ID of the child recorder is wrong: %s", w)
		}
		if cl := e.fval(st, x.Results[0], rec, col[0]); !pathIs(cl, recv, fieldLabel(e.faddr(recv, rec, col[0]))) {
			r.Violate("lineage", fnLabel(x.Fn), x.Site.Pos(), "the child recorder does not have its parent's collector")
		}
	}
	e.Run(fn, nil)
	r.Use(e)
	r.Floor("paths of Recorder.Child", 1)
}

// transport checks the span IDs that Transport.RoundTrip uses.
func (c *ids) transport() {
	r := c.r
	fn := r.P.Method("httptrace", "Transport", "RoundTrip")
	str := r.P.Method("", "SpanID", "String")
	if !r.Require(fn != nil && str != nil, "anchor", "Transport.RoundTrip") {
		return
	}
	name := c.constString("httptrace", "HeaderSpanID")
	e := NewEngine(r.P)
	quiet := newRelevance(r.P, func(in ssa.Instruction) bool {
		call, ok := in.(ssa.CallInstruction)
		return ok && (c.isGenerator(call.Common().StaticCallee()) || call.Common().IsInvoke() && call.Common().Method.Name() == "Collect" || strings.HasSuffix(staticName(call), "Header).Set"))
	})
	stores := c.storesSpanID()
	e.Opaque = func(f *ssa.Function) bool {
		return c.isGenerator(f) || f == str || !quiet.has(f) && !stores.has(f)
	}
	recv := e.Param(fn, 0)
	e.Keep = func(st *State, ev *Event) bool { return false }
	e.OnEvent = func(st *State, ev *Event) {
		var v *Term
		what := ""
		switch {
		case isCollect(ev):
			v, what = ev.Args[1], "the span that the request is recorded on"
			r.Count("spans recorded by RoundTrip", 1)
		case ev.Kind == "call" && ev.Name == "(net/http.Header).Set" && len(ev.Args) == 3 && isStr(ev.Args[1], name):
			s := ev.Args[2].origin()
			if s.op != "call" || s.obj != str {
				r.Violate("lineage", fnLabel(ev.Fn), ev.Site.Pos(), "the span header is set to something else than the text form of a span ID (%s)", s)
				return
			}
			v, what = s.args[0], "the span ID that is passed along"
			r.Count("span headers set by RoundTrip", 1)
		default:
			return
		}
		tr, _, _ := c.parts(e, st, v)
		_, p := fieldPath(tr)
		path := ""
		if len(p) > 0 {
			path = strings.Join(p[:len(p)-1], ".")
		}
		w := c.childOf(e, st, v, recv, path)
		if w == "" && !strings.Contains(path, "Recorder") {
			w = "its parent is not the transport's recorder's span"
		}
		if w != "" {
			r.Violate("lineage", fnLabel(ev.Fn), ev.Site.Pos(), "%s is wrong: %s", what, w)
		}
	}
	e.Run(fn, nil)
	r.Use(e)
	r.Floor("spans recorded by RoundTrip", 1)
	r.Floor("span headers set by RoundTrip", 1)
}

func isStr(t *Term, s string) bool {
	v, ok := t.origin().strVal()
	return ok && v == s
}

func staticName(call ssa.CallInstruction) string {
	if f := call.Common().StaticCallee(); f != nil {
		return f.String()
	}
	return ""
}

// storesSpanID: functions that build or change span IDs.
func (c *ids) storesSpanID() *relevance {
	return newRelevance(c.r.P, func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
			t := deref(fa.X.Type())
			if isNamed(t, "", "SpanID") || isNamed(t, "", "Recorder") {
				return true
			}
		}
		return isNamed(s.Val.Type(), "", "SpanID")
	})
}

func (c *ids) constString(rel, name string) string {
	pkg := c.r.P.Pkgs[rel]
	if pkg != nil {
		if k, ok := pkg.Types.Scope().Lookup(name).(*types.Const); ok {
			return strings.Trim(k.Val().ExactString(), `"`)
		}
	}
	c.r.Require(false, "anchor", "constant "+name)
	return ""
}

// header checks httptrace.GetSpanID.
func (c *ids) header() {
	r := c.r
	fn := r.P.Func("httptrace", "GetSpanID")
	parse := r.P.Func("", "ParseSpanID")
	if !r.Require(fn != nil && parse != nil, "anchor", "GetSpanID") {
		return
	}
	own, parent := c.constString("httptrace", "HeaderSpanID"), c.constString("httptrace", "HeaderParentSpanID")
	e := NewEngine(r.P)
	e.Opaque = func(f *ssa.Function) bool { return c.isGenerator(f) || f == parse }
	hdr := e.Param(fn, 0)
	// get finds the read of a header.
	isGet := func(t *Term, name string) bool {
		return t.op == "call" && t.aux == "(net/http.Header).Get" && t.args[0] == hdr && isStr(t.args[1], name)
	}
	absent := func(st *State, name string) bool {
		for _, t := range e.T.all {
			if isGet(t, name) && (e.isTrue(st, e.T.Eq(e.T.Len(t), e.T.Int(0)))) {
				return true
			}
		}
		return false
	}
	// parsed finds the header that a *SpanID has been parsed from.
	parsed := func(st *State, v *Term) (call *Term, name string) {
		v.mentions(func(t *Term) bool {
			if t.op == "call" && t.obj == parse && call == nil {
				call = t
			}
			return false
		})
		if call == nil {
			return nil, ""
		}
		for _, n := range []string{own, parent} {
			if isGet(call.args[0].origin(), n) {
				return call, n
			}
		}
		return call, "?"
	}
	e.Keep = func(st *State, ev *Event) bool { return false }
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind == "call" && ev.Name == "(net/http.Header).Get" && ev.Res != nil {
			st.pin(ev.Res)
			st.pin(e.T.Len(ev.Res))
		}
		if ev.Kind == "call" && ev.Res != nil && ev.Res.obj == parse {
			st.pin(e.ResultTerm(ev, 0))
			st.pin(e.ResultTerm(ev, 1))
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			r.Violate("header", fnLabel(x.Fn), x.Site.Pos(), "reading the span headers may panic")
			return
		}
		bad := func(f string, args ...any) { r.Violate("header", fnLabel(x.Fn), x.Site.Pos(), f, args...) }
		for _, t := range e.T.all { // ParseSpanID gives either an error or a span ID
			if t.op == "call" && t.obj == parse {
				var id, err *Term
				for _, x := range e.T.all {
					if x.op == "extract" && x.args[0] == t {
						if isErrorType(x.typ) {
							err = x
						} else {
							id = x
						}
					}
				}
				if id != nil && err != nil && e.isNil(st, id) && e.isNil(st, err) {
					return
				}
			}
		}
		r.Count("paths of GetSpanID", 1)
		v, err := x.Results[0], x.Results[1]
		if !e.isNil(st, err) {
			if !e.notNil(st, err) && err.op != "extract" {
				bad("cannot be decided: whether reading the span headers has failed (%s)", err)
			}
			// An error only when a header is there but cannot be parsed.
			call, name := parsed(st, err)
			if call == nil || name == "?" {
				bad("reading the span headers fails without a header that cannot be parsed")
			}
			if !(err.op == "extract" && !e.isNil(st, v)) {
				return
			}
		}
		if e.isNil(st, v) {
			bad("no span ID is returned although reading the headers has not failed")
			return
		}
		tr, sp, _ := c.parts(e, st, v)
		call, name := parsed(st, tr)
		if call == nil && !c.gen(tr) {
			bad("the trace ID is neither fresh nor from a header (%s)", tr)
			return
		}
		if call == nil {
			r.Count("new roots", 1)
			if w := c.rootID(e, st, v); w != "" {
				bad("the new root is wrong: %s", w)
			}
			if !absent(st, own) || !absent(st, parent) {
				bad("a new root span is started although a span header may be there")
			}
			return
		}
		ptr := e.T.mk("extract", "0", types.NewPointer(c.span), nil, nil, call)
		if b, _ := fieldPath(tr); b != nil && b.op == "extract" {
			ptr = b
		}
		if !c.gen(sp) {
			// as it is
			r.Count("span IDs from the header", 1)
			if name != own {
				bad("a span ID is taken over from the header %q", name)
			}
			if v == ptr || v.origin() == ptr {
				return
			}
			a, b2, d := c.parts(e, st, v)
			for i, t := range []*Term{a, b2, d} {
				if p, ok := from(t, ptr, []string{"Trace", "Span", "Parent"}[i]); !ok || p != "" {
					bad("component %d of the header's span ID is not kept (%s)", i, t)
				}
			}
			return
		}
		r.Count("children of the header's span", 1)
		if name != parent {
			bad("a child is made for the span of the header %q", name)
		}
		if !absent(st, own) {
			bad("the parent header is used although the request may have a span ID of its own")
		}
		if w := c.childOf(e, st, v, ptr, ""); w != "" {
			bad("the child of the header's span is wrong: %s", w)
		}
	}
	e.Run(fn, nil)
	r.Use(e)
	r.Floor("new roots", 1)
	r.Floor("span IDs from the header", 1)
	r.Floor("children of the header's span", 1)
}

// ---- text ----

// number reports a component that strconv.ParseUint has parsed with base 16
// and without an error from part of a text.
func (c *ids) number(e *Engine, st *State, t *Term) (src *Term, why string) {
	if narrowed(t) {
		return nil, "some of its bits are dropped"
	}
	t = t.origin()
	if t.op != "extract" || t.args[0].op != "call" || t.args[0].aux != "strconv.ParseUint" {
		return nil, fmt.Sprintf("it is not a parsed number (%s)", t)
	}
	call := t.args[0]
	base, _ := call.args[1].intVal()
	bits, _ := call.args[2].intVal()
	if base != 16 || bits != 64 {
		return nil, fmt.Sprintf("it is parsed with base %s and %s bits", call.args[1], call.args[2])
	}
	err := e.errOf(call)
	if err == nil || !e.isNil(st, err) {
		return nil, "the error of its parsing is not known to be nil"
	}
	return call.args[0].origin(), ""
}

// errOf finds the term of a call's error result.
func (e *Engine) errOf(call *Term) *Term {
	for _, t := range e.T.all {
		if t.op == "extract" && t.args[0] == call && t.typ != nil && isErrorType(t.typ) {
			return t
		}
	}
	return nil
}

// part numbers the piece of a text that a string is: 0, 1 or 2 of the given
// text split at the delimiter, and the length that the path must know.
func (c *ids) part(e *Engine, st *State, t, s *Term, delim string) (n int, split *Term, why string) {
	t = t.origin()
	if a := at(t); a != nil && a.op == "ia" {
		i, ok := a.args[1].intVal()
		l := a.args[0].origin()
		if ok && l.op == "call" && (l.aux == "strings.Split" || l.aux == "strings.SplitN") && l.args[0].origin() == s && isStr(l.args[1], delim) {
			if l.aux == "strings.SplitN" {
				if m, ok := l.args[2].intVal(); !ok || m >= 0 && m < 4 {
					return 0, nil, "the text may be split into fewer parts than it has"
				}
			}
			return int(i), l, ""
		}
	}
	return 0, nil, fmt.Sprintf("it is not a part of the text split at the delimiter (%s)", t)
}

func (c *ids) parse() {
	r := c.r
	fn := r.P.Func("", "ParseSpanID")
	pid := r.P.Func("", "ParseID")
	if !r.Require(fn != nil && pid != nil, "anchor", "ParseSpanID and ParseID") {
		return
	}
	delim := c.constString("", "SpanIDDelimiter")
	pinErr := func(e *Engine) func(st *State, ev *Event) {
		return func(st *State, ev *Event) {
			if ev.Kind == "call" && (ev.Name == "strconv.ParseUint" || ev.Name == "encoding/json.Unmarshal") {
				if er := e.errResult(ev); er != nil {
					st.pin(er)
				}
			}
			if ev.Kind == "call" && strings.HasPrefix(ev.Name, "strings.") && ev.Res != nil {
				st.pin(ev.Res)
				st.pin(e.T.Len(ev.Res))
			}
		}
	}
	e := NewEngine(r.P)
	e.Unroll = true
	e.OnEvent = pinErr(e)
	e.OnExit = func(st *State, x *Exit) {
		bad := func(f string, args ...any) { r.Violate("text", fnLabel(x.Fn), x.Site.Pos(), f, args...) }
		if x.Kind != "return" {
			bad("parsing a span ID may panic")
			return
		}
		r.Count("paths of ParseSpanID", 1)
		v, err := x.Results[0], x.Results[1]
		if e.notNil(st, err) {
			return
		}
		if !e.isNil(st, err) || e.isNil(st, v) {
			bad("ParseSpanID can return without an error and without a span ID")
			return
		}
		tr, sp, pa := c.parts(e, st, v)
		var split *Term
		length := func(n int64) bool {
			return split != nil && e.isTrue(st, e.T.Eq(e.T.Len(split), e.T.Int(n)))
		}
		for i, t := range []*Term{tr, sp, pa} {
			name := []string{"trace", "span", "parent"}[i]
			if i == 2 && e.isZero(st, t) {
				if !length(2) {
					bad("a span ID is parsed without a parent from a text that may have one")
				}
				r.Count("texts without a parent", 1)
				continue
			}
			src, why := c.number(e, st, t)
			if why == "" {
				var n int
				if n, split, why = c.part(e, st, src, e.Param(fn, 0), delim); why == "" && n != i {
					why = fmt.Sprintf("it is part %d of the text", n)
				}
			}
			if why != "" {
				bad("the parsed %s ID is wrong: %s", name, why)
				return
			}
			if i == 2 {
				r.Count("texts with a parent", 1)
				if !length(3) {
					bad("a text is accepted that may have more than three parts")
				}
			}
		}
	}
	e.Run(fn, nil)
	r.Use(e)
	r.Floor("texts without a parent", 1)
	r.Floor("texts with a parent", 1)

	e = NewEngine(r.P)
	e.Unroll = true
	e.OnEvent = pinErr(e)
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			return
		}
		r.Count("paths of ParseID", 1)
		if e.notNil(st, x.Results[1]) {
			return
		}
		v := x.Results[0].origin()
		if v.op == "extract" && x.Results[1].op == "extract" && v.args[0] == x.Results[1].args[0] {
			st.facts[e.T.Eq(x.Results[1], e.T.Nil())] = true // handed on: only good without an error
		}
		src, why := c.number(e, st, v)
		if why == "" && src != e.Param(pid, 0) {
			why = fmt.Sprintf("it is parsed from %s", src)
		}
		if why != "" {
			r.Violate("text", fnLabel(x.Fn), x.Site.Pos(), "the ID that ParseID returns is wrong: %s", why)
		}
	}
	e.Run(pid, nil)
	r.Use(e)
	r.Floor("paths of ParseID", 1)
}

// A token of a text form: a constant text, or a number in base 16.
type textTok struct {
	s string
	v *Term
}

var fmtVerb = regexp.MustCompile(`%(0\d+)?[a-z]|%%`)

// tokens takes a string apart that has been put together on the path.
func (c *ids) tokens(e *Engine, st *State, t *Term) (out []textTok, why string) {
	t = t.origin()
	if s, ok := t.strVal(); ok {
		if s == "" {
			return nil, ""
		}
		return []textTok{{s: s}}, ""
	}
	join := func(ts []*Term) ([]textTok, string) {
		var out []textTok
		for _, x := range ts {
			o, why := c.tokens(e, st, x)
			if why != "" {
				return nil, why
			}
			out = append(out, o...)
		}
		return out, ""
	}
	switch {
	case t.op == "bin" && t.aux == "+":
		return join(t.args)
	case t.op == "call" && t.aux == "strconv.FormatUint":
		if b, ok := t.args[1].intVal(); !ok || b != 16 {
			return nil, fmt.Sprintf("a number is formatted with base %s", t.args[1])
		}
		return []textTok{{v: t.args[0].origin()}}, ""
	case t.op == "call" && (t.aux == "strings.Join" || t.aux == "fmt.Sprint" || t.aux == "fmt.Sprintf"):
		l := t.args[len(t.args)-1]
		if t.aux == "strings.Join" {
			l = t.args[0]
		}
		elems, ok := c.elems(e, st, l)
		if !ok {
			return nil, fmt.Sprintf("the list of parts is not known (%s)", l)
		}
		if t.aux == "strings.Join" {
			var ts []*Term
			for i, x := range elems {
				if i > 0 {
					ts = append(ts, t.args[1])
				}
				ts = append(ts, x)
			}
			return join(ts)
		}
		if t.aux == "fmt.Sprint" {
			return nil, "fmt.Sprint may add spaces"
		}
		f, ok := t.args[0].strVal()
		if !ok {
			return nil, "the format is not constant"
		}
		i := 0
		for f != "" {
			m := fmtVerb.FindStringIndex(f)
			if m == nil {
				out = append(out, textTok{s: f})
				break
			}
			if m[0] > 0 {
				out = append(out, textTok{s: f[:m[0]]})
			}
			verb := f[m[0]:m[1]]
			f = f[m[1]:]
			if verb == "%%" {
				out = append(out, textTok{s: "%"})
				continue
			}
			if i >= len(elems) {
				return nil, "the format has more verbs than arguments"
			}
			x := elems[i]
			i++
			dyn := types.TypeString(x.typ, nil)
			if x.op == "mkiface" {
				dyn, x = x.aux, x.args[0]
			}
			switch {
			case (verb == "%s" || verb == "%v") && dyn == modPath+".ID": // ID.String
				out = append(out, textTok{v: x.origin()})
			case strings.HasSuffix(verb, "x") && (dyn == "uint64" || dyn == "uint"):
				out = append(out, textTok{v: x.origin()})
			case (verb == "%s" || verb == "%v") && dyn == "string":
				o, why := c.tokens(e, st, x)
				if why != "" {
					return nil, why
				}
				out = append(out, o...)
			default:
				return nil, fmt.Sprintf("the verb %s for %s", verb, x)
			}
		}
		if i != len(elems) {
			return nil, "the format has fewer verbs than arguments"
		}
		return out, ""
	}
	return nil, fmt.Sprintf("it cannot be taken apart (%s)", t)
}

// elems lists a slice's elements: a literal, possibly appended to.
func (c *ids) elems(e *Engine, st *State, l *Term) ([]*Term, bool) {
	if l.isNil() {
		return nil, true
	}
	if l.op == "append" {
		base, ok := c.elems(e, st, l.args[0])
		return append(base, l.args[1:]...), ok
	}
	return sliceElems(e, st, l)
}

func (c *ids) text() {
	r := c.r
	ids, spans := r.P.Method("", "ID", "String"), r.P.Method("", "SpanID", "String")
	if !r.Require(ids != nil && spans != nil, "anchor", "String methods of ID and SpanID") {
		return
	}
	delim := c.constString("", "SpanIDDelimiter")
	for _, fn := range []*ssa.Function{ids, spans} {
		e := NewEngine(r.P)
		e.OnExit = func(st *State, x *Exit) {
			if x.Kind != "return" {
				return
			}
			r.Count("text forms", 1)
			bad := func(f string, args ...any) { r.Violate("text", fnLabel(x.Fn), x.Site.Pos(), f, args...) }
			toks, why := c.tokens(e, st, x.Results[0])
			if why != "" {
				bad("the text form cannot be decided: %s", why)
				return
			}
			self := e.Param(fn, 0)
			if fn == ids {
				if len(toks) != 1 || toks[0].v == nil || toks[0].v != self.origin() {
					bad("the text form of an ID is not the ID in base 16")
				}
				return
			}
			var got []string
			last := ""
			for _, t := range toks {
				if t.v == nil {
					last += t.s
					continue
				}
				if last != "" {
					got = append(got, "text "+last)
					last = ""
				}
				b, p := fieldPath(t.v)
				if b != self {
					if b.op == "alloc" || b.op == "param" {
						b = self
					}
				}
				n := "?"
				if b == self && len(p) == 1 {
					n = p[0]
				}
				got = append(got, n)
			}
			if last != "" {
				got = append(got, "text "+last)
			}
			want := []string{"Trace", "text " + delim, "Span", "text " + delim, "Parent"}
			_, _, pa := c.parts(e, st, self)
			if len(got) == 3 {
				if !e.isZero(st, pa) {
					bad("the text form leaves out a parent that may be there")
				}
				want = want[:3]
			}
			if strings.Join(got, "|") != strings.Join(want, "|") {
				bad("the text form is %v instead of %v", got, want)
			}
		}
		e.Run(fn, nil)
		r.Use(e)
	}
	r.Floor("text forms", 3)
}

// json checks the JSON form of an ID: the text form, or an integer.
func (c *ids) json() {
	r := c.r
	mar, unm := r.P.Method("", "ID", "MarshalJSON"), r.P.Method("", "ID", "UnmarshalJSON")
	if !r.Require(mar != nil && unm != nil, "anchor", "JSON methods of ID") {
		return
	}
	e := NewEngine(r.P)
	e.Keep = func(st *State, ev *Event) bool { return ev.Kind == "call" && ev.Name == "encoding/json.Marshal" }
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			return
		}
		r.Count("JSON forms", 1)
		if e.notNil(st, x.Results[1]) {
			return
		}
		for _, ev := range callsOf(st.trace, func(ev *Event) bool { return true }) {
			toks, why := c.tokens(e, st, ev.Args[0])
			if why != "" || len(toks) != 1 || toks[0].v != e.Param(mar, 0).origin() {
				r.Violate("text", fnLabel(x.Fn), x.Site.Pos(), "the JSON form of an ID is not its text form %s", why)
			}
			return
		}
		// Written by hand: quotes around the text form.
		toks, why := c.tokens(e, st, x.Results[0])
		if why != "" || len(toks) != 3 || toks[0].s != `"` || toks[2].s != `"` || toks[1].v != e.Param(mar, 0).origin() {
			r.Violate("text", fnLabel(x.Fn), x.Site.Pos(), "the JSON form of an ID is not its text form in quotes %s", why)
		}
	}
	e.Run(mar, nil)
	r.Use(e)

	e = NewEngine(r.P)
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind == "call" && (ev.Name == "encoding/json.Unmarshal" || ev.Name == "strconv.ParseUint") {
			if er := e.errResult(ev); er != nil {
				st.pin(er)
			}
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			return
		}
		r.Count("paths of ID.UnmarshalJSON", 1)
		if e.notNil(st, x.Results[0]) {
			return
		}
		bad := func(f string, args ...any) { r.Violate("text", fnLabel(x.Fn), x.Site.Pos(), f, args...) }
		self, data := e.Param(unm, 0), e.Param(unm, 1)
		v := e.peek(st, self, c.id).origin()
		// decoded reports what a successful Unmarshal of the data has written.
		decoded := func(v *Term) bool {
			v = v.origin()
			a := at(v)
			if a == nil || a.op != "alloc" {
				return false
			}
			for _, t := range e.T.all {
				if t.op == "call" && t.aux == "encoding/json.Unmarshal" && t.args[0].origin() == data && t.args[1].origin() == a && e.isNil(st, t) {
					return true
				}
			}
			return false
		}
		if decoded(v) {
			r.Count("IDs from JSON numbers", 1)
			return
		}
		src, why := c.number(e, st, v)
		if why == "" && !decoded(src) {
			why = fmt.Sprintf("it is parsed from %s", src)
		}
		if why != "" {
			bad("the ID read from JSON is wrong: %s", why)
			return
		}
		r.Count("IDs from JSON strings", 1)
	}
	e.Run(unm, nil)
	r.Use(e)
	r.Floor("IDs from JSON strings", 1)
	r.Floor("IDs from JSON numbers", 1)
}

// foreign checks the span IDs of spans recorded through opentracing.
func (c *ids) foreign() {
	r := c.r
	fn := r.P.Method("opentracing", "Recorder", "RecordSpan")
	if !r.Require(fn != nil && len(fn.Params) == 2, "anchor", "opentracing.Recorder.RecordSpan") {
		return
	}
	e := NewEngine(r.P)
	marshal := r.P.Func("", "MarshalEvent")
	e.Opaque = func(f *ssa.Function) bool { return f == marshal }
	sp := e.Param(fn, 1)
	e.Keep = func(st *State, ev *Event) bool { return false }
	e.OnEvent = func(st *State, ev *Event) {
		if !isCollect(ev) {
			return
		}
		r.Count("opentracing collects", 1)
		tr, spn, pa := c.parts(e, st, ev.Args[1])
		for i, t := range []*Term{tr, spn, pa} {
			want := []string{"Context.TraceID", "Context.SpanID", "ParentSpanID"}[i]
			b, p := fieldPath(t)
			if b.op == "alloc" {
				b = sp
			}
			if b != sp || strings.Join(p, ".") != want || narrowed(t) {
				r.Violate("lineage", fnLabel(ev.Fn), ev.Site.Pos(), "the %s ID of a recorded opentracing span is not its %s (%s)", []string{"trace", "span", "parent"}[i], want, t)
			}
		}
	}
	e.Run(fn, nil)
	r.Use(e)
	r.Floor("opentracing collects", 3)
}

// ---- the generator ----

func (c *ids) generator() {
	r := c.r
	var gens []*ssa.Function
	for _, m := range r.P.SSA[""].Members {
		if fn, ok := m.(*ssa.Function); ok && c.isGenerator(fn) {
			gens = append(gens, fn)
		}
	}
	if !r.Require(len(gens) > 0, "anchor", "an ID generator") {
		return
	}
	const block = 16
	idx := map[*Term]bool{} // cells of the index, block and counter
	bufs, ctrs := map[*Term]bool{}, map[*Term]bool{}
	walkedFns := map[*ssa.Function]bool{}
	for _, fn := range gens {
		e := NewEngine(r.P)
		e.Loops = true
		mutex := func(st *State) string {
			var ks []string
			for _, l := range st.locks {
				if !l.Read {
					ks = append(ks, fmt.Sprint(l.Addr.id))
				}
			}
			return strings.Join(ks, ",")
		}
		judging := false
		bad := func(fn *ssa.Function, site ssa.Instruction, f string, args ...any) {
			if judging {
				r.Violate("generator", fnLabel(fn), site.Pos(), f, args...)
			}
		}
		// take: the value is 8 bytes of a block, from an index.
		take := func(t *Term) (blk, at0 *Term) {
			t = t.origin()
			if t.op == "call" && strings.HasPrefix(t.aux, "(encoding/binary.") && strings.HasSuffix(t.aux, ").Uint64") {
				s := t.args[len(t.args)-1]
				if s.op == "slice" {
					return s.args[0], s.args[1]
				}
				return s, e.T.Int(0)
			}
			a := at(t)
			for a != nil && a.op == "conv" {
				a = a.args[0]
			}
			if a != nil && a.op == "ia" && isNamed(t.typ, "", "ID") {
				return a.args[0], a.args[1]
			}
			return nil, nil
		}
		e.Keep = func(st *State, ev *Event) bool { return ev.Kind == "call" || ev.Kind == "store" }
		isEnc := func(ev *Event) bool {
			return ev.Kind == "call" && ev.Iface && strings.HasSuffix(ev.Name, ".Encrypt") && len(ev.Args) == 3
		}
		e.OnEvent = func(st *State, ev *Event) {
			walkedFns[ev.Fn] = true
			switch {
			case isEnc(ev):
				r.Count("block refills", 1)
				if mutex(st) == "" {
					bad(ev.Fn, ev.Site, "the block is refilled without holding a lock")
				}
				if a := at(ev.Args[1]); a != nil {
					bufs[a] = true
				}
				if a := at(ev.Args[2]); a != nil {
					ctrs[a] = true
				}
				st.notes["filled"] = fmt.Sprint(ev.Args[1].id)
				st.notes["due"] = st.notes["due"] + "+"
			case ev.Kind == "lock":
				st.notes["lock"] = "1"
			case (ev.Kind == "load" || ev.Kind == "call") && mutex(st) == "":
				for _, a := range ev.Args {
					for a.op == "conv" || a.op == "slice" {
						a = a.args[0]
					}
					if a.op == "ia" {
						a = a.args[0]
					}
					if bufs[at2(a)] {
						bad(ev.Fn, ev.Site, "the block is read without holding the lock")
					}
				}
			case ev.Kind == "unlock":
				// The index at the end of the section.
				for a := range idx {
					v := e.peek(st, a, types.Typ[types.Int])
					st.notes[fmt.Sprintf("end:%d", a.id)] = fmt.Sprint(v.id)
					st.pin(v)
				}
				st.notes["unlocked"] += "+"
			case ev.Kind == "store":
				if a := ev.Args[0]; a.op == "ia" && ctrs[at2(a.args[0])] {
					old := e.peek(st, a, deref(a.typ))
					if !c.incremented(e, ev.Args[1], old) {
						bad(ev.Fn, ev.Site, "a byte of the counter is set to something else than itself plus one")
					}
					st.pin(ev.Args[1])
				}
			}
		}
		incs := func(it *LoopIter) []*Event {
			return callsOf(it.Items, func(ev *Event) bool {
				return ev.Kind == "store" && ev.Args[0].op == "ia" && ctrs[at2(ev.Args[0].args[0])]
			})
		}
		type carryLoop struct {
			index *Term          // of the byte that is incremented
			cond  map[*Term]bool // header variables: does the next byte follow?
		}
		carries := map[string]*carryLoop{} // loops that increment the counter
		// carry judges one iteration of the counter's increment.
		carry := func(st *State, it *LoopIter, again bool) bool {
			ss := incs(it)
			if len(ss) == 0 {
				return false
			}
			s := ss[len(ss)-1]
			if len(ss) > 1 {
				bad(s.Fn, s.Site, "cannot be decided: several bytes of the counter are changed in one iteration")
			}
			if !c.lastToFirst(e, s.Args[0].args[1], s.Args[0].args[0], block) {
				bad(s.Fn, s.Site, "the counter's bytes are not incremented one by one from the last to the first (%s)", s.Args[0].args[1])
			}
			zero := e.T.Eq(s.Args[1], e.T.Int(0))
			if again {
				// What the loop's condition depends on.
				cl := carries[loopName(it.Loop, it.Ctx)]
				first := cl == nil
				if first {
					cl = &carryLoop{cond: map[*Term]bool{}}
					carries[loopName(it.Loop, it.Ctx)] = cl
				}
				cl.index = s.Args[0].args[1]
				for phi, v := range it.Vals {
					wraps := v == zero || v.isConst() && e.isTrue(st, zero) && v == e.T.Bool(true) || v.isConst() && e.isFalse(st, zero) && v == e.T.Bool(false)
					if wraps && (first || cl.cond[phi]) && e.isTrue(st, phi) {
						cl.cond[phi] = true
					} else {
						delete(cl.cond, phi)
					}
				}
			}
			if again && !e.isTrue(st, zero) && len(carries[loopName(it.Loop, it.Ctx)].cond) == 0 {
				bad(s.Fn, s.Site, "the carry goes on although the byte may not have wrapped around")
			}
			if !again && !e.isFalse(st, zero) {
				bad(s.Fn, s.Site, "the carry stops although the byte may have wrapped around")
			}
			return true
		}
		e.OnIter = func(st *State, it *LoopIter) {
			if carry(st, it, true) {
				r.Count("counter increments", 1)
			}
		}
		e.OnLeave = func(st *State, it *LoopIter, whole bool) {
			done := false
			if cl := carries[loopName(it.Loop, it.Ctx)]; cl != nil && (whole || len(incs(it)) == 0) {
				done = e.isTrue(st, e.less(cl.index, e.T.Int(0)))
				for phi := range cl.cond {
					done = done || e.isFalse(st, phi)
				}
			} else if !whole {
				done = carry(st, it, false)
			}
			if done {
				st.notes["due"] = strings.TrimPrefix(st.notes["due"], "+")
			}
		}
		e.OnExit = func(st *State, x *Exit) {
			if x.Kind != "return" {
				bad(x.Fn, x.Site, "generating an ID may panic")
				return
			}
			if judging {
				r.Count("paths of the generator", 1)
			}
			blk, start := take(x.Results[0])
			if blk == nil {
				bad(x.Fn, x.Site, "cannot be decided: the ID is not a part of a block (%s)", x.Results[0])
				return
			}
			if a := at(blk); a != nil {
				bufs[a] = true
			}
			start.mentions(func(t *Term) bool {
				if a := at(t); a != nil && (a.op == "global" || a.op == "fa") {
					idx[a] = true
				}
				return false
			})
			if !judging {
				return
			}
			if len(idx) != 1 {
				bad(x.Fn, x.Site, "cannot be decided: the place of the ID in its block does not depend on one variable")
				return
			}
			if st.notes["lock"] == "" || st.notes["unlocked"] != "+" {
				bad(x.Fn, x.Site, "the ID is not taken within one hold of the lock")
				return
			}
			if st.notes["due"] != "" {
				bad(x.Fn, x.Site, "the block has been refilled without incrementing the counter to its next value")
			}
			for a := range idx {
				end := e.T.all[max(atoi(st.notes[fmt.Sprintf("end:%d", a.id)])-1, 0)]
				d := e.T.lin(end).sub(e.T.lin(start))
				if len(d.coef) != 0 || d.k != 8 {
					bad(x.Fn, x.Site, "the index is not moved past the 8 bytes that are handed out (from %s to %s)", start, end)
				}
				if s, ok := start.intVal(); ok {
					if s != 0 {
						bad(x.Fn, x.Site, "the first ID of a block starts at byte %d", s)
					}
					if st.notes["filled"] == "" {
						bad(x.Fn, x.Site, "the index goes back to 0 without a new block")
					}
					r.Count("IDs from a new block", 1)
					continue
				}
				if at(start) != a {
					bad(x.Fn, x.Site, "cannot be decided: the ID starts at %s", start)
				}
				full := e.T.Eq(start, e.T.Int(block))
				fullLen := e.T.Eq(start, e.T.Len(blk))
				if !e.isFalse(st, full) && !e.isTrue(st, e.less(start, e.T.Int(block))) && !e.isFalse(st, fullLen) && !e.isTrue(st, e.less(start, e.T.Len(blk))) {
					bad(x.Fn, x.Site, "an ID can be taken from a block that is used up")
				}
				r.Count("IDs from the current block", 1)
			}
		}
		e.Run(fn, nil)
		e.visited = map[string]bool{}
		e.Run(fn, nil)
		e.visited = map[string]bool{}
		judging = true
		e.Run(fn, nil)
		r.Use(e)
	}
	r.Floor("IDs from a new block", 1)
	r.Floor("IDs from the current block", 1)
	r.Floor("counter increments", 1)
	c.generatorInit(idx, bufs, ctrs, walkedFns, block)
}

// incremented: v is old plus one.
func (c *ids) incremented(e *Engine, v, old *Term) bool {
	v = v.origin()
	if v.op != "bin" || v.aux != "+" {
		return false
	}
	for i, x := range v.args {
		if n, ok := x.intVal(); ok && n == 1 && v.args[1-i].origin() == old.origin() {
			return true
		}
	}
	return false
}

// lastToFirst: an index that starts at the last byte and goes down by one.
func (c *ids) lastToFirst(e *Engine, t, s *Term, block int64) bool {
	lin := e.T.lin(t)
	var phi *Term
	for x := range lin.coef {
		if x.op == "loopphi" {
			phi = x
		}
	}
	if phi == nil {
		return false
	}
	for v := range e.PhiBk[phi] {
		d := e.T.lin(v).sub(e.T.lin(phi))
		if len(d.coef) != 0 || d.k*lin.coef[phi] != -1 {
			return false
		}
	}
	ins := e.PhiIn[phi]
	for v := range ins {
		// The first index: lin with phi replaced by v.
		k := lin.coef[phi]
		first := e.T.lin(t).sub(scaled(e.T.lin(phi), k)).sub(scaled(e.T.lin(v), -k))
		if len(first.coef) == 0 && first.k == block-1 {
			continue
		}
		d := first.sub(e.T.lin(e.T.Len(s)))
		if len(d.coef) != 0 || d.k != -1 {
			return false
		}
	}
	return len(ins) > 0
}

func scaled(l linear, k int64) linear {
	out := linear{coef: map[*Term]int64{}, k: l.k * k}
	for t, c := range l.coef {
		out.coef[t] = c * k
	}
	return out
}

// generatorInit checks how the generator's state starts, and that nothing
// else changes it.
func (c *ids) generatorInit(idx, bufs, ctrs map[*Term]bool, ok map[*ssa.Function]bool, block int64) {
	r := c.r
	name := func(m map[*Term]bool) map[string]bool {
		out := map[string]bool{}
		for t := range m {
			if t.op == "global" || t.op == "fa" {
				out[t.op+t.aux] = true
			}
		}
		return out
	}
	ix, bu, ct := name(idx), name(bufs), name(ctrs)
	if !r.Require(len(ix) == 1 && len(bu) == 1 && len(ct) == 1, "anchor", "the generator's index, block and counter") {
		return
	}
	pkg := r.P.SSA[""]
	start := pkg.Func("init")
	e := NewEngine(r.P)
	e.Opaque = func(f *ssa.Function) bool { return f.Pkg != pkg || f.Name() == "RegisterEvent" }
	seenInit := map[*ssa.Function]bool{}
	e.Keep = func(st *State, ev *Event) bool {
		return ev.Kind == "call" && ev.Name == "io.ReadFull" || ev.Kind == "store"
	}
	e.OnEvent = func(st *State, ev *Event) {
		seenInit[ev.Fn] = true
		if ev.Kind == "call" {
			if er := e.errResult(ev); er != nil {
				st.pin(er)
			}
		}
	}
	random := func(st *State, v *Term) bool { // part of a buffer filled from crypto/rand
		good := false
		v.mentions(func(t *Term) bool {
			for _, ev := range callsOf(st.trace, func(ev *Event) bool { return ev.Kind == "call" }) {
				if len(ev.Args) == 2 && (ev.Args[1] == t || sameBacking(ev.Args[1], t)) && ev.Args[0].mentions(func(g *Term) bool { return g.op == "global" && strings.HasSuffix(g.aux, "crypto/rand.Reader") }) {
					if er := e.errResult(ev); er != nil && e.isNil(st, er) {
						good = true
					}
				}
			}
			return false
		})
		return good
	}
	vals := func(st *State, names map[string]bool) (v *Term, ev *Event) {
		for _, s := range callsOf(st.trace, func(ev *Event) bool { return ev.Kind == "store" }) {
			if names[s.Args[0].op+s.Args[0].aux] {
				v, ev = s.Args[1], s
			}
		}
		return
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			return
		}
		for f, v := range st.facts {
			if v && strings.Contains(f.String(), "init$guard") {
				return // already initialised
			}
		}
		r.Count("paths of the package initialisation", 1)
		bad := func(ev *Event, f string, args ...any) {
			fn, pos := start, start.Pos()
			if ev != nil {
				fn, pos = ev.Fn, ev.Site.Pos()
			}
			r.Violate("generator", fnLabel(fn), pos, f, args...)
		}
		if v, ev := vals(st, ix); v == nil {
			bad(nil, "the index is not initialised: the first IDs are read from a block that was never filled")
		} else if n, ok := v.intVal(); (!ok || n != block) && !e.isTrue(st, e.T.Eq(v, e.T.Int(block))) {
			bad(ev, "the index does not start at the end of the block (%s): the first IDs are read from a block that was never filled", v)
		}
		if v, ev := vals(st, ct); v == nil || !random(st, v) {
			bad(ev, "the counter does not start with random bytes read without error")
		} else if l, ok := e.T.Len(v).intVal(); ok && l < block {
			bad(ev, "the counter has only %d bytes", l)
		}
		if v, ev := vals(st, bu); v == nil {
			bad(nil, "the block is not allocated")
		} else if l, ok := e.T.Len(v).intVal(); !ok || l != block {
			bad(ev, "the block does not have the cipher's block size (%s)", e.T.Len(v))
		}
	}
	e.Run(start, nil)
	r.Use(e)
	r.Floor("paths of the package initialisation", 1)

	// Nothing else writes the generator's state.
	for _, fn := range r.P.srcFn {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, isStore := in.(*ssa.Store)
				if !isStore {
					continue
				}
				k := ""
				switch a := s.Addr.(type) {
				case *ssa.Global:
					k = "global" + a.String()
				case *ssa.FieldAddr:
					k = "fa" + fieldKey(a.X.Type(), a.Field)
				}
				if (ix[k] || bu[k] || ct[k]) && !ok[fn] && !seenInit[fn] {
					r.Violate("generator", fnLabel(fn), s.Pos(), "the generator's state is changed outside the generator")
				}
			}
		}
	}
}

// sameBacking: a slice of an array or slice that another one is, too.
func sameBacking(a, b *Term) bool {
	for a.op == "slice" {
		a = a.args[0]
	}
	for b.op == "slice" {
		b = b.args[0]
	}
	return a == b
}

// ---- Python ----

func (c *ids) python() {
	r := c.r
	const file = "python/appdash/spanid.py"
	n, err := r.P.pyParse(file)
	if err != nil {
		r.Violate("python", file, 0, "the Python span IDs cannot be parsed: %v", err)
		return
	}
	mod := pyModule(n)
	cls := mod["SpanID"]
	var ctor, str pyNode
	for _, s := range cls.list("body") {
		switch {
		case s.kind() == "FunctionDef" && s.str("name") == "__init__":
			ctor = s
		case s.kind() == "FunctionDef" && s.str("name") == "__str__":
			str = s
		case s.kind() == "FunctionDef":
			mod["."+s.str("name")] = s
		}
	}
	if !r.Require(ctor != nil && str != nil, "anchor", "Python SpanID.__init__ and __str__") {
		return
	}
	at := func(line int, f string, args ...any) {
		r.Violate("python", file+":SpanID", 0, "%s", file+":"+fmt.Sprint(line)+": "+fmt.Sprintf(f, args...))
	}
	run := &pyRun{mod: mod}
	run.fn(ctor, nil, nil)
	gen := func(v *pyVal) bool {
		return v != nil && v.op == "call" && strings.HasSuffix(v.name, "SystemRandom().getrandbits") && len(v.args) == 1 && v.args[0].name == "64"
	}
	// The kinds of values each attribute is given, by branch.
	kinds := map[string]map[string]string{}
	for _, a := range run.assigns {
		f := strings.TrimPrefix(a.to, "self.")
		if f != "trace" && f != "span" && f != "parent" {
			continue
		}
		k := ""
		switch {
		case gen(a.v):
			k = "fresh"
		case a.v.op == "path" && a.v.name == "parent.trace":
			k = "parent.trace"
		case a.v.op == "path" && a.v.name == "parent.span":
			k = "parent.span"
		case a.v.op == "lit" && a.v.name == "0":
			k = "0"
		}
		if k == "" {
			at(a.line, "the span ID's %s is set to %s", f, a.v)
			return
		}
		if kinds[a.branch] == nil {
			kinds[a.branch] = map[string]string{}
		}
		kinds[a.branch][f] = k
	}
	roots, children := 0, 0
	for br := range kinds {
		eff := map[string]string{"trace": "0", "span": "0", "parent": "0"}
		for b2, m := range kinds { // assignments of enclosing branches
			if b2 == br || strings.HasPrefix(br, b2+"/") || b2 == "" {
				for k, v := range m {
					if b2 != br && kinds[br][k] != "" {
						continue
					}
					eff[k] = v
				}
			}
		}
		switch s := eff["trace"] + "," + eff["span"] + "," + eff["parent"]; s {
		case "fresh,fresh,0":
			roots++
		case "parent.trace,fresh,parent.span":
			children++
		case "0,0,0":
		default:
			inner := false // a prefix of a deeper branch
			for b2 := range kinds {
				inner = inner || b2 != br && (br == "" || strings.HasPrefix(b2, br+"/"))
			}
			if !inner {
				at(ctor.line(), "a span ID is made from (trace, span, parent) = (%s)", s)
			}
		}
	}
	r.Count("Python constructors' branches", roots+children)
	if roots == 0 || children == 0 {
		at(ctor.line(), "cannot be decided: SpanID.__init__ has %d ways to make a root and %d ways to make a child", roots, children)
	}
	// The text form.
	run = &pyRun{mod: mod}
	rets := run.fn(str, nil, nil)
	good := 0
	for _, v := range rets {
		var orders []string
		v.has(func(x *pyVal) bool {
			if x.op == "tuple" {
				var s []string
				for _, y := range x.args {
					y.has(func(z *pyVal) bool {
						if z.op == "path" && strings.HasPrefix(z.name, "self.") {
							s = append(s, strings.TrimPrefix(z.name, "self."))
						}
						return false
					})
				}
				orders = append(orders, strings.Join(s, "/"))
			}
			return false
		})
		for _, o := range orders {
			r.Count("Python text forms", 1)
			if o == "trace/span" || o == "trace/span/parent" {
				good++
				continue
			}
			at(str.line(), "the text form has the components %s", o)
		}
	}
	if good == 0 {
		at(str.line(), "cannot be decided: the order of the components in the text form")
	}

	// The opentracing recorder.
	const rfile = "python/appdash/recorder.py"
	n, err = r.P.pyParse(rfile)
	if err != nil {
		r.Violate("python", rfile, 0, "the Python recorder cannot be parsed: %v", err)
		return
	}
	mod = pyModule(n)
	found := map[string]bool{}
	for _, cl := range mod {
		if cl.kind() != "ClassDef" {
			continue
		}
		for _, f := range cl.list("body") {
			if f.kind() != "FunctionDef" || f.str("name") != "record_span" {
				continue
			}
			run := &pyRun{mod: mod}
			run.fn(f, nil, nil)
			for _, a := range run.assigns {
				i := strings.LastIndex(a.to, ".")
				if !strings.HasPrefix(a.to, "call SpanID(") || i < 0 {
					continue
				}
				want := map[string]string{"trace": "span.context.trace_id", "span": "span.context.span_id", "parent": "span.parent_id"}[a.to[i+1:]]
				if want == "" {
					continue
				}
				found[a.to[i+1:]] = true
				r.Count("Python span ID conversions", 1)
				if a.v.op != "path" || a.v.name != want {
					r.Violate("python", rfile+":record_span", 0, "%s:%d: the recorded span's %s is %s instead of %s", rfile, a.line, a.to[i+1:], a.v, want)
				}
			}
		}
	}
	if len(found) != 3 {
		r.Violate("python", rfile+":record_span", 0, "%s: cannot be decided: the recorded span ID's components (%d of 3 are set)", rfile, len(found))
	}
}
