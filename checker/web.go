package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C23: the web app's routes, handlers and pages ----

const webRel = "traceapp"

func init() {
	register(&Check{
		ID: "C23",
		Rule: "constant propagation through the web app's set-up: each route constant is named once, has a handler, is not hidden by an earlier route, and its URLs are built from the variables it has; " +
			"every path of the function that wraps the handlers: a handler writes to a buffer alone, its error or panic is answered with an error status and nothing of the buffer, and its success with the whole buffer, once; every path of the buffer's methods and of the handlers: an error is never turned into success; " +
			"the templates, parsed: every page and template that is used exists, and every function, field and method that they use exists for the data they are given; " +
			"data flow: no value is marked as safe HTML, and nothing but constants, encoded JSON and executed templates is written to a response, nor put into a page as HTML by its own scripts",
		NotCover: "the static files and the libraries that pages load; what html/template does; requests that match no route, which mux answers; nil values that a template follows; whether a page shows the right data (C25, C32)",
		Run:      runC23,
	})
}

type (
	webRoute struct {
		path    string
		prefix  bool
		methods []string
		other   bool // restricted further
		name    string
		handler lAny
		site    ssa.Instruction
		root    *webMux
		sub     bool
		handled int
	}
	webRouter struct {
		root   *webMux
		prefix string
	}
	webMux struct{ routes []*webRoute }
	// webParam is a parameter of a function that is looked at by itself.
	webParam struct{ i int }
)

func (*webRoute) made()  {}
func (*webRouter) made() {}

type webRule struct {
	r   *R
	p   *Program
	pkg *ssa.Package

	routes   map[string]*webRoute // by name
	byValue  map[string]bool      // names of the route constants
	handlers []*webHandler
	inner    map[*ssa.Function][]*webRoute
}

// webHandler is a kind of handler: the function that net/http calls.
type webHandler struct {
	root  *ssa.Function
	recv  types.Type
	inner []*lFn
	route *webRoute
}

func runC23(r *R) {
	w := &webRule{r: r, p: r.P, pkg: r.P.SSA[webRel], routes: map[string]*webRoute{}, byValue: map[string]bool{}, inner: map[*ssa.Function][]*webRoute{}}
	if !r.Require(w.pkg != nil, "anchor", "the traceapp package") {
		return
	}
	if !w.findRoutes() {
		return
	}
	w.urls()
	w.findHandlers()
	for _, h := range w.handlers {
		w.wrapper(h)
	}
	w.templates()
	w.variables()
	w.failures()
	w.rawText()
	w.written()
	r.Floor("runs of a handler", 1)
	r.Floor("deliveries", 1)
	r.Floor("error answers", 2)
}

func (w *webRule) inPkg(f *ssa.Function) bool {
	return f.Pkg == w.pkg || f.Pkg == nil && f.Synthetic != "" && len(f.Blocks) > 0
}

func muxMethod(name string) (typ, method string) {
	for _, t := range []string{"Router", "Route"} {
		p := "(*github.com/gorilla/mux." + t + ")."
		if strings.HasPrefix(name, p) {
			return t, strings.TrimPrefix(name, p)
		}
	}
	return "", ""
}

// lits makes an evaluator that knows what mux does with routes.
func (w *webRule) lits(report func(ssa.Instruction, string, ...any), mayFail bool, onURL func(rt *webRoute, name lAny, pairs []lAny, site ssa.Instruction)) *Lits {
	l := NewLits(w.p)
	l.Follow = w.inPkg
	l.Call = func(name string, args []lAny, site ssa.Instruction) (lAny, bool) {
		if name == "github.com/gorilla/mux.NewRouter" {
			return &webRouter{root: &webMux{}}, true
		}
		typ, m := muxMethod(name)
		if typ == "" {
			return nil, false
		}
		str := func(i int) string {
			if i < len(args) {
				if s, ok := lStr(args[i]); ok {
					return s
				}
			}
			report(site, "what %s is given cannot be determined", m)
			return ""
		}
		if typ == "Router" {
			rt, _ := lBare(args[0]).(*webRouter)
			if rt == nil {
				if onURL != nil && (m == "Get" || m == "GetRoute") {
					return &lCall{name, args, site}, true
				}
				if m == "ServeHTTP" {
					return nil, true
				}
				report(site, "mux's %s is called on a router that cannot be determined", m)
				return nil, true
			}
			add := func() *webRoute {
				n := &webRoute{path: rt.prefix, site: site, root: rt.root}
				rt.root.routes = append(rt.root.routes, n)
				return n
			}
			switch m {
			case "Get", "GetRoute":
				n := str(1)
				for _, o := range rt.root.routes {
					if o.name == n && n != "" {
						return o, true
					}
				}
				report(site, "there is no route of the name %q", n)
				return &webRoute{site: site}, true
			case "NewRoute":
				return add(), true
			case "Path", "PathPrefix", "Handle", "HandleFunc", "Methods", "Name", "Headers", "Queries", "Schemes", "Host", "MatcherFunc":
				n := add()
				w.onRoute(l, n, m, args, site, str, report)
				return n, true
			case "StrictSlash", "UseEncodedPath", "SkipClean", "Use", "Walk":
				return args[0], true
			}
			report(site, "what mux's Router.%s does to the routes is not known to this rule", m)
			return nil, true
		}
		n, _ := lBare(args[0]).(*webRoute)
		if n == nil {
			if (m == "URL" || m == "URLPath") && onURL != nil {
				get, _ := lBare(args[0]).(*lCall)
				pairs, ok := []lAny{}, true
				if len(args) > 1 {
					pairs, ok = l.list(args[1])
				}
				if get == nil || !ok || len(get.args) < 2 {
					report(site, "the route or the variables of this URL cannot be determined")
				} else {
					onURL(nil, get.args[1], pairs, site)
				}
				return nil, true
			}
			if m == "GetName" || m == "GetError" || m == "GetPathTemplate" {
				return nil, true
			}
			report(site, "mux's %s is called on a route that cannot be determined", m)
			return nil, true
		}
		switch m {
		case "Subrouter":
			n.sub = true
			return &webRouter{root: n.root, prefix: n.path}, true
		case "GetName":
			return n.name, true
		case "GetHandler":
			return n.handler, true
		case "GetError":
			return lNil{}, true
		case "URL", "URLPath":
			return nil, true
		}
		w.onRoute(l, n, m, args, site, str, report)
		return n, true
	}
	return l
}

func (w *webRule) onRoute(l *Lits, n *webRoute, m string, args []lAny, site ssa.Instruction, str func(int) string, report func(ssa.Instruction, string, ...any)) {
	switch m {
	case "Path":
		n.path += str(1)
	case "PathPrefix":
		n.path += str(1)
		n.prefix = true
	case "Handle", "HandleFunc":
		n.path += str(1)
		n.handler = args[2]
		n.handled++
	case "Methods":
		ms, ok := l.list(args[1])
		for _, v := range ms {
			s, is := lStr(v)
			ok = ok && is
			n.methods = append(n.methods, strings.ToUpper(s))
		}
		if !ok {
			report(site, "the methods of a route cannot be determined")
		}
	case "Name":
		n.name = str(1)
		n.site = site
	case "Handler", "HandlerFunc":
		n.handler = args[1]
		n.handled++
	case "Headers", "HeadersRegexp", "Queries", "Schemes", "Host", "MatcherFunc":
		n.other = true
	case "StrictSlash", "SkipClean", "UseEncodedPath":
	default:
		report(site, "what mux's Route.%s does is not known to this rule", m)
	}
}

// findRoutes follows the set-up code and judges the routes that it makes.
func (w *webRule) findRoutes() bool {
	r := w.r
	mk, newApp := w.pkg.Func("NewRouter"), w.pkg.Func("New")
	if !r.Require(mk != nil && newApp != nil && len(mk.Params) == 1 && len(newApp.Params) == 2, "anchor", "traceapp.NewRouter and traceapp.New") {
		return false
	}
	consts := map[string]string{} // route name -> constant
	for n, m := range w.pkg.Members {
		if c, ok := m.(*ssa.NamedConst); ok && strings.HasSuffix(n, "Route") {
			if s, ok := lStr(NewLits(w.p).value(nil, c.Value)); ok {
				if o := consts[s]; o != "" {
					r.Violate("routes", "traceapp."+n, c.Pos(), "the route constants %s and %s are the same", o, n)
				}
				consts[s] = n
			}
		}
	}
	r.Count("route constants", len(consts))
	seen := map[string]bool{}
	report := func(site ssa.Instruction, format string, args ...any) {
		msg := fmt.Sprintf(format, args...)
		if k := r.P.Pos(site.Pos()) + msg; !seen[k] {
			seen[k] = true
			r.Violate("routes", fnLabel(site.Parent()), site.Pos(), "%s", msg)
		}
	}
	first := true
	for _, given := range []bool{false, true} {
		var res lAny
		var rts *webMux
		l := w.lits(report, false, nil)
		orig := l.Call
		l.Call = func(name string, args []lAny, site ssa.Instruction) (lAny, bool) {
			v, ok := orig(name, args, site)
			if rt, is := v.(*webRouter); is {
				rts = rt.root
			}
			return v, ok
		}
		err := l.Paths(func() {
			rts = nil
			if given {
				own := &webRouter{root: &webMux{}}
				rts = own.root
				rt := l.Run(mk, []lAny{own}, nil)
				if l.failed == "" {
					res = l.Run(newApp, []lAny{rt, nil}, nil)
				}
			} else {
				res = l.Run(newApp, []lAny{lNil{}, nil}, nil)
			}
		}, func() {
			t, _ := res.(lTuple)
			if len(t) == 2 {
				if _, ok := lBare(t[1]).(lNil); !ok {
					return // no app
				}
			}
			r.Count("set-up paths", 1)
			if rts == nil {
				report(newApp.Blocks[0].Instrs[0], "no routes are made")
				return
			}
			w.judge(rts.routes, consts, report)
			if first {
				first = false
				for _, rt := range rts.routes {
					if rt.name != "" {
						w.routes[rt.name] = rt
					}
				}
			}
		})
		if err != nil {
			r.Violate("undecided", "traceapp.New", newApp.Pos(), "the routes cannot be determined: %v", err)
			return false
		}
	}
	r.Floor("set-up paths", 2)
	r.Floor("route constants", 8)
	return len(w.routes) > 0
}

type segment struct {
	text string
	v    string // a variable
	re   string
}

func segments(path string) (segs []segment) {
	for _, s := range strings.Split(strings.TrimPrefix(path, "/"), "/") {
		sg := segment{text: s}
		if strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}") {
			sg.v, sg.re, _ = strings.Cut(s[1:len(s)-1], ":")
			sg.text = ""
		} else if strings.Contains(s, "{") {
			sg.v, sg.re = "?", s
		}
		segs = append(segs, sg)
	}
	return segs
}

// varsOf lists the variables of a path.
func varsOf(path string) map[string]bool {
	m := map[string]bool{}
	for {
		_, rest, ok := strings.Cut(path, "{")
		if !ok {
			return m
		}
		in, after, _ := strings.Cut(rest, "}")
		n, _, _ := strings.Cut(in, ":")
		m[strings.TrimSpace(n)] = true
		path = after
	}
}

// hides: whatever matches the path of b matches that of a.
func hides(a, b *webRoute) bool {
	if a.other {
		return false
	}
	if len(a.methods) > 0 {
		if len(b.methods) == 0 {
			return false
		}
		for _, m := range b.methods {
			found := false
			for _, o := range a.methods {
				found = found || o == m
			}
			if !found {
				return false
			}
		}
	}
	if a.prefix {
		fixed, _, _ := strings.Cut(a.path, "{")
		return fixed == a.path && strings.HasPrefix(b.path, a.path)
	}
	if b.prefix {
		return false
	}
	sa, sb := segments(a.path), segments(b.path)
	if len(sa) != len(sb) {
		return false
	}
	for i := range sa {
		x, y := sa[i], sb[i]
		switch {
		case x.v == "" && y.v == "":
			if x.text != y.text {
				return false
			}
		case x.v == "":
			return false
		case x.re != "":
			if x.re != y.re {
				return false
			}
		case x.v != "" && y.v == "" && y.text == "":
			return false
		}
	}
	return true
}

func (w *webRule) judge(routes []*webRoute, consts map[string]string, report func(ssa.Instruction, string, ...any)) {
	r := w.r
	byName := map[string][]*webRoute{}
	for _, rt := range routes {
		if rt.name != "" {
			byName[rt.name] = append(byName[rt.name], rt)
		}
	}
	var names []string
	for n := range consts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		l := byName[n]
		switch {
		case len(l) == 0:
			r.Violate("routes", "traceapp."+consts[n], w.pkg.Members[consts[n]].Pos(), "no route has the name %s", consts[n])
		case len(l) > 1:
			report(l[1].site, "several routes have the name %s", consts[n])
		case l[0].handled == 0 || isLNil(l[0].handler):
			report(l[0].site, "the route %s has no handler", consts[n])
		}
	}
	for i, b := range routes {
		if b.sub {
			continue
		}
		if b.handled == 0 && b.name == "" {
			report(b.site, "a route has neither a name nor a handler")
		}
		if b.path == "" || !strings.HasPrefix(b.path, "/") {
			report(b.site, "the path %q of the route %q does not start with a slash", b.path, b.name)
		}
		for _, a := range routes[:i] {
			if !a.sub && hides(a, b) {
				report(b.site, "no request reaches the route %q (%s): the route %q (%s), which comes first, matches all of them", b.name, b.path, a.name, a.path)
			}
		}
		r.Count("routes", 1)
	}
}

func isLNil(v lAny) bool {
	_, ok := lBare(v).(lNil)
	return ok
}

// urls: URLs of routes are built from the variables that they have.
func (w *webRule) urls() {
	r := w.r
	seen := map[string]bool{}
	report := func(site ssa.Instruction, format string, args ...any) {
		msg := fmt.Sprintf(format, args...)
		if k := r.P.Pos(site.Pos()) + msg; !seen[k] {
			seen[k] = true
			r.Violate("urls", fnLabel(site.Parent()), site.Pos(), "%s", msg)
		}
	}
	rv := newRelevance(w.p, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := c.Common().StaticCallee()
		if g == nil {
			return false
		}
		t, m := muxMethod(fnName(g))
		return t == "Route" && strings.HasPrefix(m, "URL")
	})
	// build judges the URLs that fn builds when it is given args.
	var build func(fn *ssa.Function, args []lAny, depth int)
	build = func(fn *ssa.Function, args []lAny, depth int) {
		l := w.lits(report, true, func(_ *webRoute, name lAny, pairs []lAny, site ssa.Instruction) {
			if p, ok := lBare(name).(*webParam); ok { // the caller's
				n := w.callers(fn, func(caller *ssa.Function, call ssa.CallInstruction, op []ssa.Value) {
					if caller == fn || depth > 3 {
						return
					}
					a := make([]lAny, len(fn.Params))
					for i := range a {
						a[i] = &webParam{i}
					}
					c, isConst := op[p.i].(*ssa.Const)
					if isConst {
						a[p.i] = NewLits(w.p).value(nil, c)
						build(fn, a, depth+1)
						return
					}
					if q, ok := op[p.i].(*ssa.Parameter); ok { // handed on
						for i, prm := range caller.Params {
							if prm == q {
								_ = i
							}
						}
					}
				})
				r.Count("callers that name a route", n)
				return
			}
			n, ok := lStr(name)
			if !ok {
				report(site, "the route of this URL cannot be determined")
				return
			}
			rt := w.routes[n]
			if rt == nil {
				report(site, "a URL of the route %q is built, which does not exist", n)
				return
			}
			r.Count("URLs of routes", 1)
			vars := varsOf(rt.path)
			if len(pairs)%2 != 0 {
				report(site, "the variables of this URL do not come in pairs")
				return
			}
			for i := 0; i < len(pairs); i += 2 {
				k, ok := lStr(pairs[i])
				if !ok {
					report(site, "the variables of this URL cannot be determined")
					return
				}
				if !vars[k] {
					report(site, "the route %q (%s) has no variable %s", n, rt.path, k)
				}
				delete(vars, k)
				w.urlValue(fn, site, k, pairs[i+1], report)
			}
			for k := range vars {
				report(site, "the URL of the route %q (%s) is built without its variable %s", n, rt.path, k)
			}
		})
		if err := l.Paths(func() { l.Run(fn, args, nil) }, func() {}); err != nil {
			report(fn.Blocks[0].Instrs[0], "the URLs that are built here cannot be determined: %v", err)
		}
	}
	for _, fn := range w.p.srcFn {
		if fn.Pkg != w.pkg || !rv.self[fn] {
			continue
		}
		args := make([]lAny, len(fn.Params))
		for i := range args {
			args[i] = &webParam{i}
		}
		build(fn, args, 0)
	}
	r.Floor("URLs of routes", 4)
}

// callers calls f for each call of fn, with its operands.
func (w *webRule) callers(fn *ssa.Function, f func(caller *ssa.Function, call ssa.CallInstruction, op []ssa.Value)) (n int) {
	for _, g := range w.p.srcFn {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				h := c.Common().StaticCallee()
				if h != nil && h != fn && h.Synthetic != "" && h.Object() != nil && h.Object() == fn.Object() { // promoted
					n++
					f(g, c, c.Common().Args)
				}
				if h == fn {
					n++
					f(g, c, c.Common().Args)
				}
			}
		}
	}
	return n
}

// urlValue: the value of a variable named like a part of a span's ID is that
// part, wherever the URL is asked for.
func (w *webRule) urlValue(fn *ssa.Function, site ssa.Instruction, key string, v lAny, report func(ssa.Instruction, string, ...any)) {
	id := w.p.Named("", "SpanID")
	if id == nil || fieldNamed(id, key) < 0 {
		return
	}
	c, ok := lBare(v).(*lCall)
	if !ok || c.name != "("+modPath+".ID).String" || len(c.args) != 1 {
		return
	}
	p, ok := lBare(c.args[0]).(*webParam)
	if !ok {
		return
	}
	w.callers(fn, func(caller *ssa.Function, call ssa.CallInstruction, op []ssa.Value) {
		if p.i >= len(op) {
			return
		}
		n := fieldRead(op[p.i], id)
		if n != "" {
			w.r.Count("IDs in URLs", 1)
			if n != key {
				report(call, "the %s of a span is put where the URL has its %s", n, key)
			}
		}
	})
}

// fieldRead is the field of a struct of the type n that v is read from.
func fieldRead(v ssa.Value, n *types.Named) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), n) {
			return n.Underlying().(*types.Struct).Field(fa.Field).Name()
		}
	case *ssa.Field:
		if types.Identical(v.X.Type(), n) {
			return n.Underlying().(*types.Struct).Field(v.Field).Name()
		}
	}
	return ""
}
