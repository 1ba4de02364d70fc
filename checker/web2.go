package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isRequestPtr(t types.Type) bool { return typeIs(t, "*net/http.Request") }

// isHandlerSig: a function that answers a request.
func isHandlerSig(sig *types.Signature) bool {
	return sig.Params().Len() == 2 && isRW(sig.Params().At(0).Type()) && isRequestPtr(sig.Params().At(1).Type())
}

func (w *webRule) pos(rt *webRoute) string {
	return fmt.Sprintf("the handler of the route %q", rt.name)
}

// functionsIn lists the functions within a value.
func functionsIn(v lAny, depth int) (out []*lFn) {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *lAs:
		return functionsIn(x.v, depth)
	case *lFn:
		out = append(out, x)
		for _, b := range x.binds {
			if o, ok := b.(*lObj); ok && o.typ != nil {
				if _, is := o.typ.Underlying().(*types.Signature); !is {
					continue
				}
			}
			out = append(out, functionsIn(b, depth+1)...)
		}
	case *lAgg:
		for i := 0; i < len(x.kids); i++ {
			out = append(out, functionsIn(x.kids[i], depth+1)...)
		}
	case *lObj:
		if x.typ != nil && (lComposite(x.typ) || isFunc(x.typ)) {
			return functionsIn(x.load(), depth+1)
		}
	}
	return out
}

func isFunc(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

// unbound is the method that a bound method value calls.
func unbound(p *Program, fn *ssa.Function) *ssa.Function {
	if fn.Synthetic != "" && fn.Object() != nil {
		if f, ok := fn.Object().(*types.Func); ok {
			if g := p.Prog.FuncValue(f); g != nil {
				return g
			}
		}
	}
	return fn
}

// findHandlers sorts out what the routes have as handlers.
func (w *webRule) findHandlers() {
	r := w.r
	done := map[*ssa.Function]*webHandler{}
	for _, n := range sortedRoutes(w.routes) {
		rt := w.routes[n]
		v := rt.handler
		if c, ok := lBare(v).(*lCall); ok {
			w.static(rt, c)
			continue
		}
		var typ types.Type
		if a, ok := v.(*lAs); ok {
			typ = a.typ
		}
		root := (*ssa.Function)(nil)
		fns := functionsIn(v, 0)
		if typ != nil {
			if nt := namedOf(typ); nt != nil && w.p.inPkg[nt.Obj().Pkg()] {
				if m := w.p.Prog.LookupMethod(typ, nil, "ServeHTTP"); m != nil {
					root = unbound(w.p, m)
				}
			}
		}
		if root == nil && len(fns) > 0 && isHandlerSig(fns[0].fn.Signature) && fns[0].fn.Signature.Results().Len() == 0 {
			root = fns[0].fn
			if root.Parent() == nil {
				root = unbound(w.p, root)
			}
			fns = fns[1:]
		}
		if root == nil || len(root.Blocks) == 0 {
			r.Violate("undecided", w.pos(rt), rt.site.Pos(), "the handler of the route %q cannot be determined", rt.name)
			continue
		}
		h := done[root]
		if h == nil {
			h = &webHandler{root: root, route: rt}
			done[root] = h
			w.handlers = append(w.handlers, h)
		}
		n := 0
		for _, f := range fns {
			if isHandlerSig(f.fn.Signature) && returnsError(f.fn.Signature) {
				g := unbound(w.p, f.fn)
				w.inner[g] = append(w.inner[g], rt)
				n++
			}
		}
		r.Count("routes with a handler that returns an error", n)
	}
	r.Floor("routes with a handler that returns an error", 8)
}

func sortedRoutes(m map[string]*webRoute) []string {
	s := map[string]bool{}
	for n := range m {
		s[n] = true
	}
	return sortedNames(s)
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// static: a handler that serves files.
func (w *webRule) static(rt *webRoute, c *lCall) {
	r := w.r
	stripped := ""
	for c != nil && c.name == "net/http.StripPrefix" && len(c.args) == 2 {
		s, ok := lStr(c.args[0])
		if !ok {
			r.Violate("undecided", w.pos(rt), c.site.Pos(), "the prefix that is stripped cannot be determined")
			return
		}
		stripped += s
		c, _ = lBare(c.args[1]).(*lCall)
	}
	if c == nil || c.name != "net/http.FileServer" {
		r.Violate("undecided", w.pos(rt), rt.site.Pos(), "the handler of the route %q cannot be determined", rt.name)
		return
	}
	r.Count("routes of files", 1)
	if !rt.prefix {
		r.Violate("routes", w.pos(rt), rt.site.Pos(), "the route %q serves files, but matches one path only", rt.name)
	}
	if strings.TrimSuffix(stripped, "/") != strings.TrimSuffix(rt.path, "/") {
		r.Violate("routes", w.pos(rt), rt.site.Pos(), "the route %q matches %s, but %q is stripped from the paths of its files", rt.name, rt.path, stripped)
	}
}

// bufferOf describes a response buffer.
type webBuffer struct {
	typ                  *types.Named
	header, status, body int
}

// wrapper judges the functions that run handlers.
func (w *webRule) wrapper(h *webHandler) {
	r, fn := w.r, h.root
	var wi, ri = -1, -1
	for i, prm := range fn.Params {
		if isRW(prm.Type()) {
			wi = i
		}
		if isRequestPtr(prm.Type()) {
			ri = i
		}
	}
	if wi < 0 || ri < 0 {
		r.Violate("undecided", fnLabel(fn), fn.Pos(), "this handler has no response writer or request")
		return
	}
	e := NewEngine(w.p)
	e.Loops = true
	rw, req := e.Param(fn, wi), e.Param(fn, ri)
	isInner := func(ev *Event) bool {
		return ev.Kind == "call" && ev.Name == "dynamic" && ev.Sig != nil && isHandlerSig(ev.Sig) && returnsError(ev.Sig)
	}
	e.MayPanic = isInner
	e.Opaque = func(f *ssa.Function) bool { return !w.inPkg(f) || w.inner[f] != nil }
	e.Keep = func(st *State, ev *Event) bool { return ev.Kind == "call" || ev.Kind == "mapupdate" }
	seen := map[string]bool{}
	bad := func(rule string, in ssa.Instruction, format string, args ...any) {
		msg := fmt.Sprintf(format, args...)
		if k := rule + r.P.Pos(in.Pos()) + msg; !seen[k] {
			seen[k] = true
			r.Violate(rule, fnLabel(in.Parent()), in.Pos(), "%s", msg)
		}
	}
	buffers := map[*types.Named]*webBuffer{}
	isW := func(t *Term) bool { return t.origin() == rw }
	headerOfW := func(t *Term) bool {
		t = t.origin()
		return isCall(t, "(net/http.ResponseWriter).Header") && isW(t.args[0])
	}
	note := func(st *State, k string, t *Term) {
		st.pin(t)
		st.notes[k] = fmt.Sprint(t.id)
	}
	noted := func(st *State, k string) *Term {
		if s := st.notes[k]; s != "" {
			return e.T.all[atoi(s)-1]
		}
		return nil
	}
	bufOf := func(st *State) (*Term, *webBuffer) {
		b := noted(st, "buf")
		if b == nil {
			return nil, nil
		}
		return b, buffers[namedOf(b.typ)]
	}
	// ok: the handler is known to have succeeded.
	succeeded := func(st *State) bool {
		err := noted(st, "err")
		return err != nil && st.notes["panicked"] == "" && st.panicVal == nil && e.isNil(st, err)
	}
	isAddr := func(t *Term, b *Term, n *types.Named, f int) bool {
		return f >= 0 && t != nil && t.origin() == e.faddr(b, n, f)
	}
	// ofBody: the buffer's content, its length, or a pointer to it.
	ofBody := func(t *Term, b *Term, wb *webBuffer) bool {
		t = t.origin()
		return isAddr(t, b, wb.typ, wb.body) || at(t) != nil && isAddr(at(t), b, wb.typ, wb.body)
	}
	content := func(t *Term, b *Term, wb *webBuffer) bool {
		t = t.origin()
		return ofBody(t, b, wb) || (isCall(t, "(*bytes.Buffer).Bytes") || isCall(t, "(*bytes.Buffer).String")) && ofBody(t.args[0], b, wb)
	}
	length := func(t *Term, b *Term, wb *webBuffer) bool {
		t = t.origin()
		return isCall(t, "(*bytes.Buffer).Len") && ofBody(t.args[0], b, wb) || t.op == "len" && content(t.args[0], b, wb)
	}
	// leaks: the value comes out of the buffer.
	leaks := func(t, b *Term, wb *webBuffer) bool {
		return t.mentions(func(x *Term) bool {
			return x.op == "fa" && x.args[0] == b
		})
	}
	isErrorStatus := func(st *State, t *Term) bool {
		if n, ok := t.origin().intVal(); ok {
			return n >= 400 && n <= 599
		}
		v, ok := e.known(st, e.less(t, e.T.Int(400)))
		return ok && !v
	}
	// send: something of the answer is sent.
	send := func(st *State, ev *Event, what string) {
		st.notes["sent"] = "1"
		if st.notes["called"] == "" || succeeded(st) {
			return
		}
		if st.notes["errors"] == "" {
			bad("contained", ev.Site, "%s before the handler is known to have succeeded, without an error status", what)
		}
	}
	e.OnIter = func(st *State, it *LoopIter) {
		b, wb := bufOf(st)
		if b == nil || wb == nil {
			return
		}
		for f, v := range st.facts {
			if f.op != "nextok" || !v || e.loopsOf(f.site.Parent())[f.site.Block()] != it.Loop {
				continue
			}
			src := rangeOf(f)
			if src == nil || !isAddr(at(src), b, wb.typ, wb.header) {
				continue
			}
			hit := false
			for _, x := range it.Items {
				if x.Ev == nil {
					continue
				}
				a := x.Ev.Args
				switch {
				case x.Ev.Kind == "mapupdate" && headerOfW(a[0]) && a[1].origin().op == "nextk" && rangeOf(a[1].origin()) == src:
					v := a[2].origin()
					hit = hit || wholeValue(e, v, src, nil) || v.op == "load" && v.args[0].op == "me" && v.args[0].args[0].origin() == src && v.args[0].args[1].origin() == a[1].origin()
				}
			}
			if !hit {
				bad("delivered", it.Site, "a header of the handler's response is not sent as it is")
			}
			note(st, fmt.Sprintf("hdr:%s", loopName(it.Loop, it.Ctx)), src)
		}
	}
	e.OnLeave = func(st *State, it *LoopIter, whole bool) {
		if whole && st.notes["sent"] == "" && e.walkedHeader(st, it, func(src *Term) bool {
			b, wb := bufOf(st)
			return wb != nil && isAddr(at(src), b, wb.typ, wb.header)
		}) {
			st.notes["headers"] = "1"
		}
	}
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind == "builtin" && ev.Name == "recover" && st.panicVal != nil {
			st.notes["panicked"] = "1"
			return
		}
		if ev.Kind == "load" {
			if b, wb := bufOf(st); wb != nil && (isAddr(ev.Args[0], b, wb.typ, wb.status)) {
				st.pin(e.peek(st, ev.Args[0], deref(ev.Args[0].typ)))
			}
			return
		}
		if ev.Kind == "mapupdate" {
			if headerOfW(ev.Args[0]) && st.notes["called"] != "" && !succeeded(st) {
				if b, wb := bufOf(st); wb != nil && (leaks(ev.Args[2], b, wb) || leaks(ev.Args[1], b, wb)) {
					bad("contained", ev.Site, "a header of the handler's response is sent although the handler is not known to have succeeded")
				}
			}
			return
		}
		if ev.Kind != "call" {
			return
		}
		if ev.Res != nil && (strings.HasPrefix(ev.Name, "(*bytes.Buffer)") || strings.HasPrefix(ev.Name, "(net/http.ResponseWriter)")) {
			st.pin(ev.Res)
		}
		b, wb := bufOf(st)
		if isInner(ev) {
			r.Count("runs of a handler", 1)
			if st.notes["called"] != "" {
				bad("contained", ev.Site, "the handler may be run twice")
			}
			if st.notes["sent"] != "" {
				bad("contained", ev.Site, "something is sent before the handler runs")
			}
			st.notes["called"] = "1"
			a := ev.Args[1].origin()
			if ev.Args[1].has(rw) {
				bad("contained", ev.Site, "the handler writes to the connection itself, not to a buffer")
				return
			}
			if ev.Args[2].origin() != req {
				bad("contained", ev.Site, "the handler is not given the request")
			}
			n := namedOf(derefBuf(a))
			if a.op != "alloc" && a.op != "mk" || n == nil {
				bad("undecided", ev.Site, "the buffer that the handler writes to cannot be determined (%s)", a)
				return
			}
			if buffers[n] == nil {
				buffers[n] = w.bufferType(n)
			}
			if buffers[n] == nil {
				bad("undecided", ev.Site, "what the buffer that the handler writes to (%s) keeps cannot be determined", n.Obj().Name())
				return
			}
			note(st, "buf", a)
			note(st, "err", e.errResult(ev))
			return
		}
		uses := -1
		for i, a := range ev.Args {
			if isW(a) {
				uses = i
			}
		}
		if strings.HasPrefix(ev.Name, "(net/http.Header).") && headerOfW(ev.Args[0]) && len(ev.Args) == 3 {
			if k, ok := ev.Args[1].origin().strVal(); ok && strings.EqualFold(k, "Content-Length") && wb != nil {
				v := ev.Args[2].origin()
				if !succeeded(st) {
					bad("contained", ev.Site, "the length of the handler's response is sent although the handler is not known to have succeeded")
				} else if !(v.op == "call" && strings.HasPrefix(v.aux, "strconv.") && length(v.args[0], b, wb)) && !(v.op == "call" && strings.HasPrefix(v.aux, "fmt.Sprint")) {
					bad("delivered", ev.Site, "the length that is sent is not that of the handler's response")
				}
			}
			return
		}
		if ev.Name == "maps.Copy" && len(ev.Args) == 2 && headerOfW(ev.Args[0]) && wb != nil && isAddr(at(ev.Args[1]), b, wb.typ, wb.header) {
			if !succeeded(st) {
				bad("contained", ev.Site, "the headers of the handler's response are sent although the handler is not known to have succeeded")
			} else if st.notes["sent"] == "" {
				st.notes["headers"] = "1"
			}
			return
		}
		if uses < 0 {
			return
		}
		switch {
		case ev.Name == "(net/http.ResponseWriter).Header":
		case ev.Name == "(net/http.ResponseWriter).WriteHeader":
			v := ev.Args[1]
			if wb != nil && isAddr(at(v), b, wb.typ, wb.status) {
				send(st, ev, "the status of the handler's response is sent")
				st.notes["status"] = "1"
			} else if isErrorStatus(st, v) && !succeeded(st) {
				st.notes["errors"] = "1"
				st.notes["sent"] = "1"
			} else if succeeded(st) {
				bad("delivered", ev.Site, "a status is sent that is not the one that the handler set")
			} else {
				send(st, ev, "a status is sent")
			}
		case ev.Name == "net/http.Error" && uses == 0:
			if succeeded(st) {
				bad("delivered", ev.Site, "an error is sent although the handler succeeded")
			}
			if !isErrorStatus(st, ev.Args[2]) {
				bad("contained", ev.Site, "an error is answered with the status %s, which is not one of an error", ev.Args[2])
			}
			if wb != nil && leaks(ev.Args[1], b, wb) {
				bad("contained", ev.Site, "what the handler wrote is sent although it is not known to have succeeded")
			}
			st.notes["errors"] = "1"
			st.notes["sent"] = "1"
		case wb != nil && (ev.Name == "(net/http.ResponseWriter).Write" && content(ev.Args[1], b, wb) ||
			ev.Name == "(*bytes.Buffer).WriteTo" && ofBody(ev.Args[0], b, wb) ||
			(ev.Name == "io.Copy" || ev.Name == "io.WriteString") && uses == 0 && content(ev.Args[1], b, wb)):
			if !succeeded(st) {
				bad("contained", ev.Site, "what the handler wrote is sent although it is not known to have succeeded")
			}
			if st.notes["body"] != "" {
				bad("delivered", ev.Site, "the handler's response is sent twice")
			}
			if st.notes["headers"] == "" && !e.emptyHeader(st, b, wb) {
				bad("delivered", ev.Site, "the handler's response is sent before all its headers are")
			}
			if st.notes["status"] == "" && !zeroAt(e, st, e.faddr(b, wb.typ, wb.status)) {
				bad("delivered", ev.Site, "the handler's response is sent before its status")
			}
			st.notes["body"], st.notes["sent"] = "1", "1"
		default:
			if succeeded(st) {
				bad("delivered", ev.Site, "something other than the handler's response is sent (by %s)", short(ev))
			} else {
				if wb != nil {
					for _, a := range ev.Args {
						if a.origin() == b || leaks(a, b, wb) {
							bad("contained", ev.Site, "what the handler wrote is sent although it is not known to have succeeded")
						}
					}
				}
				send(st, ev, "something is sent")
			}
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		site := x.Site
		if site == nil {
			site = fn.Blocks[0].Instrs[0]
		}
		if x.Kind == "panic" {
			if st.notes["called"] != "" {
				bad("contained", site, "a panic of the handler is not answered")
			}
			return
		}
		if x.Kind != "return" {
			return
		}
		r.Count("paths of the wrapper", 1)
		if st.notes["called"] == "" {
			if st.notes["errors"] == "" {
				bad("contained", site, "a request is not passed to its handler, nor answered with an error")
			}
			return
		}
		b, wb := bufOf(st)
		if b == nil || wb == nil {
			return
		}
		if succeeded(st) {
			r.Count("deliveries", 1)
			if st.notes["body"] == "" && !emptyBody(e, st, func(t *Term) bool { return length(t, b, wb) }) {
				bad("delivered", site, "the handler's response is not sent although it succeeded")
			}
			if st.notes["status"] == "" && !zeroAt(e, st, e.faddr(b, wb.typ, wb.status)) {
				bad("delivered", site, "the status that the handler set is not sent")
			}
			if st.notes["headers"] == "" && !e.emptyHeader(st, b, wb) {
				bad("delivered", site, "the headers that the handler set are not all sent")
			}
			return
		}
		r.Count("error answers", 1)
		if st.notes["errors"] == "" {
			if st.notes["panicked"] != "" {
				bad("contained", site, "a panic of the handler is not answered with an error status")
			} else {
				bad("contained", site, "an error of the handler is not answered with an error status")
			}
		}
	}
	for round := 0; round < 2; round++ {
		e.visited = map[string]bool{}
		e.Run(fn, nil)
	}
	r.Use(e)
}

func derefBuf(a *Term) types.Type {
	if a.typ == nil {
		return types.Typ[types.Invalid]
	}
	return derefType(a.typ)
}

// zeroAt: what was read at addr is known to be zero.
func zeroAt(e *Engine, st *State, addr *Term) bool {
	for f, v := range st.facts {
		if v && (f.op == "eq0" || f.op == "eq") && f.mentions(func(t *Term) bool { return at(t) == addr }) {
			if f.op == "eq0" {
				lin := f.obj.(linear)
				if len(lin.coef) == 1 && lin.k == 0 {
					return true
				}
				continue
			}
			return true
		}
	}
	return e.isZero(st, e.peek(st, addr, deref(addr.typ)))
}

func emptyBody(e *Engine, st *State, isLen func(*Term) bool) bool {
	for f, v := range st.facts {
		if f.op != "eq0" && f.op != "lt0" {
			continue
		}
		lin := f.obj.(linear)
		if len(lin.coef) != 1 {
			continue
		}
		for t, c := range lin.coef {
			if !isLen(t) {
				continue
			}
			switch {
			case f.op == "eq0" && v && lin.k == 0:
				return true
			case f.op == "lt0" && !v && c < 0 && lin.k == 0: // !(-len < 0)
				return true
			case f.op == "lt0" && v && c > 0 && lin.k == -1: // len - 1 < 0
				return true
			}
		}
	}
	return false
}

func (e *Engine) emptyHeader(st *State, b *Term, wb *webBuffer) bool {
	return zeroAt(e, st, e.faddr(b, wb.typ, wb.header))
}

// walkedHeader: the loop that is left has walked a map that is src.
func (e *Engine) walkedHeader(st *State, it *LoopIter, is func(src *Term) bool) bool {
	for f, v := range st.facts {
		if f.op == "nextok" && !v && e.loopsOf(f.site.Parent())[f.site.Block()] == it.Loop {
			if src := rangeOf(f); src != nil && is(src) {
				return true
			}
		}
	}
	return false
}

// bufferType finds out how a response buffer keeps what is written to it.
func (w *webRule) bufferType(n *types.Named) *webBuffer {
	st, ok := n.Underlying().(*types.Struct)
	if !ok || !w.p.inPkg[n.Obj().Pkg()] {
		return nil
	}
	r := w.r
	wb := &webBuffer{typ: n, header: -1, status: -1, body: -1}
	method := func(name string) *ssa.Function {
		for _, t := range []types.Type{types.NewPointer(n)} {
			if m := w.p.Prog.LookupMethod(t, n.Obj().Pkg(), name); m != nil {
				return m
			}
		}
		return nil
	}
	hd, ws, wr := method("Header"), method("WriteHeader"), method("Write")
	if hd == nil || ws == nil || wr == nil {
		return nil
	}
	bad := func(fn *ssa.Function, in ssa.Instruction, format string, args ...any) {
		pos := fn.Pos()
		if in != nil {
			pos = in.Pos()
		}
		r.Violate("buffer", fnLabel(fn), pos, format, args...)
	}
	run := func(fn *ssa.Function, f func(e *Engine, recv *Term), exit func(e *Engine, st *State, x *Exit, recv *Term), ev func(e *Engine, st *State, ev *Event, recv *Term)) {
		e := NewEngine(w.p)
		e.Opaque = func(g *ssa.Function) bool { return !w.inPkg(g) }
		e.Keep = func(*State, *Event) bool { return false }
		recv := e.Param(fn, 0)
		e.OnEvent = func(st *State, x *Event) {
			if ev != nil {
				ev(e, st, x, recv)
			}
		}
		e.OnExit = func(st *State, x *Exit) {
			if x.Kind == "return" {
				exit(e, st, x, recv)
			}
		}
		e.Run(fn, nil)
		r.Use(e)
	}
	fieldAt := func(e *Engine, a, recv *Term) int {
		for i := 0; i < st.NumFields(); i++ {
			if a == e.faddr(recv, n, i) {
				return i
			}
		}
		return -1
	}
	paths := 0
	run(hd, nil, func(e *Engine, s *State, x *Exit, recv *Term) {
		paths++
		v := x.Results[0].origin()
		for i := 0; i < st.NumFields(); i++ {
			if e.peek(s, e.faddr(recv, n, i), st.Field(i).Type()).origin() == v {
				if wb.header >= 0 && wb.header != i {
					bad(hd, x.Site, "headers are kept in several places")
				}
				wb.header = i
				if !e.notNil(s, v) && v.op != "mk" {
					bad(hd, x.Site, "the headers that a handler is given may be nil: setting one panics")
				}
				return
			}
		}
		bad(hd, x.Site, "the headers that a handler is given are not those that are kept")
	}, nil)
	run(ws, nil, func(e *Engine, s *State, x *Exit, recv *Term) {
		v := e.Param(ws, 1)
		kept := -1
		for i := 0; i < st.NumFields(); i++ {
			if t := st.Field(i).Type().Underlying(); basicKind(t) == basicKind(types.Typ[types.Int]) && e.peek(s, e.faddr(recv, n, i), st.Field(i).Type()) == v {
				kept = i
			}
		}
		if kept < 0 { // only the first one counts
			for i := 0; i < st.NumFields(); i++ {
				if t := st.Field(i).Type(); basicKind(t) == basicKind(types.Typ[types.Int]) {
					if ok, known := e.known(s, e.T.Eq(e.peek(s, e.faddr(recv, n, i), t), e.T.Int(0))); known && !ok {
						kept = i
					}
				}
			}
		}
		if kept < 0 || wb.status >= 0 && wb.status != kept {
			bad(ws, x.Site, "the status that a handler sets is not kept")
			return
		}
		wb.status = kept
	}, nil)
	run(wr, nil, func(e *Engine, s *State, x *Exit, recv *Term) {
		p := e.Param(wr, 1)
		if s.notes["wrote"] != "1" {
			kept := -1
			for i := 0; i < st.NumFields(); i++ {
				v := e.peek(s, e.faddr(recv, n, i), st.Field(i).Type())
				if v.op != "append" && v.op != "appendv" {
					continue
				}
				base, ps := e.appended(v)
				if at(base) == e.faddr(recv, n, i) && len(ps) == 1 && ps[0].slice != nil && ps[0].slice.origin() == p {
					kept = i
				}
			}
			if kept < 0 || wb.body >= 0 && wb.body != kept {
				bad(wr, x.Site, "what a handler writes is not kept")
				return
			}
			wb.body = kept
			return
		}
	}, func(e *Engine, s *State, ev *Event, recv *Term) {
		if ev.Kind != "call" {
			return
		}
		if (ev.Name == "(*bytes.Buffer).Write" || ev.Name == "(*strings.Builder).Write") && ev.Args[1].origin() == e.Param(wr, 1) {
			i := fieldAt(e, ev.Args[0].origin(), recv)
			if i < 0 || wb.body >= 0 && wb.body != i {
				bad(wr, ev.Site, "what a handler writes is kept in several places")
				return
			}
			wb.body = i
			if s.notes["wrote"] != "" {
				s.notes["wrote"] = "2"
				bad(wr, ev.Site, "what a handler writes is kept twice")
				return
			}
			s.notes["wrote"] = "1"
		}
	})
	r.Count("response buffers", 1)
	if wb.header < 0 || wb.status < 0 || wb.body < 0 {
		return nil
	}
	return wb
}
