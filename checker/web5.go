package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// handlerFns lists the functions of the package that handlers run.
func (w *webRule) handlerFns() map[*ssa.Function]bool {
	all := map[*ssa.Function]bool{}
	for fn := range w.inner {
		all[fn] = true
		for g := range w.p.reachedFrom(fn) {
			if len(g.Blocks) > 0 && g.Pkg == w.pkg {
				all[g] = true
			}
		}
	}
	return all
}

// ignorable: an operation of which nobody needs the error.
func ignorable(name string) bool {
	m := name[strings.LastIndex(name, ".")+1:]
	if m == "Close" && !strings.HasPrefix(name, "(*compress/") {
		return true
	}
	for _, p := range []string{"fmt.", "log.", "(*log.", "(net/http.ResponseWriter)", "(*bytes.Buffer)", "(*strings.", "(*bytes.", "io.WriteString", "errors.", "(context.Context)", "(error)."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// failures: where a handler, or a function that it calls, knows that an
// operation failed, it does not report success.
func (w *webRule) failures() {
	for fn := range w.handlerFns() {
		if returnsError(fn.Signature) && fn.Synthetic == "" {
			w.failure(fn)
		}
	}
	w.r.Floor("fallible calls of handlers", 20)
}

func (w *webRule) failure(fn *ssa.Function) {
	r := w.r
	e := NewEngine(w.p)
	e.Loops = true
	fallible := func(name string, sig *types.Signature) bool {
		if sig == nil || ignorable(name) || sig.Results().Len() == 0 {
			return false
		}
		return isErrorType(sig.Results().At(sig.Results().Len() - 1).Type())
	}
	rv := newRelevance(w.p, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && returnsError(c.Common().Signature())
	})
	e.Opaque = func(g *ssa.Function) bool {
		return g.Parent() == nil && (!w.inPkg(g) || returnsError(g.Signature) || !rv.has(g) || len(g.Blocks) > 30)
	}
	e.Keep = func(st *State, ev *Event) bool { return ev.Kind == "call" || ev.Kind == "store" }
	bad := func(site ssa.Instruction, format string, args ...any) {
		r.Violate("failures", fnLabel(fn), site.Pos(), format, args...)
	}
	// What a request asks for and the store does not have is a failure of the
	// request, whichever error says so.
	ps := fn.Signature.Params()
	handler := ps.Len() == 2 && ps.At(0).Type().String() == "net/http.ResponseWriter"
	ofStore := func(ev *Event) bool {
		c, ok := ev.Site.(ssa.CallInstruction)
		if !ok || !c.Common().IsInvoke() {
			return false
		}
		n, ok := c.Common().Value.Type().(*types.Named)
		return ok && n.Obj().Pkg() != nil && n.Obj().Pkg() == w.p.Named("", "Trace").Obj().Pkg()
	}
	finds := func(ev *Event) bool {
		return ev != nil && ev.Kind == "call" && ev.Rec != nil && ev.Rec == w.p.Method("", "Trace", "FindSpan")
	}
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind == "call" && fallible(ev.Name, ev.Sig) {
			st.pin(e.errResult(ev))
		}
		if finds(ev) {
			st.pin(ev.Res)
		}
	}
	sentinel := func(st *State, err *Term) bool {
		for c, v := range st.facts {
			if !v {
				continue
			}
			if c.op == "eq" && (c.args[0] == err || c.args[1] == err) && (c.args[0].origin().op == "load" || c.args[1].origin().op == "load" || c.args[0].op == "global" || c.args[1].op == "global") {
				return true
			}
			if isCall(c, "errors.Is") && c.args[0].origin() == err || isCall(c, "os.IsNotExist") && c.args[0].origin() == err {
				return true
			}
		}
		return false
	}
	// answered: an error answer was given.
	answered := func(items []*TItem) bool {
		for _, it := range items {
			ev := it.Ev
			if ev == nil || ev.Kind != "call" {
				continue
			}
			switch ev.Name {
			case "net/http.Error", "net/http.NotFound":
				return true
			case "(net/http.ResponseWriter).WriteHeader":
				if n, ok := ev.Args[len(ev.Args)-1].intVal(); ok && n >= 400 {
					return true
				}
			}
		}
		return false
	}
	kept := func(items []*TItem, err *Term) bool {
		for _, it := range items {
			if it.Ev != nil && it.Ev.Kind == "store" && it.Ev.Args[1].has(err) && rootAddr(it.Ev.Args[0]).op != "alloc" && rootAddr(it.Ev.Args[0]).op != "mk" {
				return true
			}
		}
		return false
	}
	e.OnIter = func(st *State, it *LoopIter) {
		for _, item := range it.Items {
			ev := item.Ev
			if ev == nil || ev.Kind != "call" || !fallible(ev.Name, ev.Sig) {
				continue
			}
			err := e.errResult(ev)
			// An entry of a list of what is asked for that makes no sense is
			// left out.
			if m := ev.Name[strings.LastIndex(ev.Name, ".")+1:]; strings.HasPrefix(m, "Parse") || strings.HasPrefix(m, "Ato") {
				continue
			}
			if e.isNil(st, err) || sentinel(st, err) || answered(it.Items) || kept(it.Items, err) {
				continue
			}
			into := false
			for phi, val := range it.Vals {
				into = into || isErrorType(phi.typ) && val.has(err)
			}
			if !into {
				bad(ev.Site, "%s may fail here, and the loop goes on as if it had not", short(ev))
			}
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" || len(x.Results) == 0 {
			return
		}
		res := x.Results[len(x.Results)-1]
		for _, item := range st.trace {
			ev := item.Ev
			if ev == nil || ev.Kind != "call" || !fallible(ev.Name, ev.Sig) {
				continue
			}
			err := e.errResult(ev)
			r.Count("fallible calls of handlers", 1)
			if e.isNil(st, err) || e.notNil(st, res) || res.has(err) || sentinel(st, err) && !(handler && ofStore(ev)) || answered(st.trace) || kept(st.trace, err) {
				continue
			}
			bad(ev.Site, "success is returned on some path on which %s may have failed", short(ev))
		}
		for _, item := range st.trace {
			if ev := item.Ev; handler && finds(ev) && !e.notNil(st, ev.Res) && !e.notNil(st, res) && !answered(st.trace) {
				bad(ev.Site, "success is returned on some path on which %s may have found nothing", short(ev))
			}
		}
	}
	e.Run(fn, nil)
	r.Use(e)
	r.Count("functions of handlers", 1)
}

// variables: a handler reads the variables that its routes have.
func (w *webRule) variables() {
	r := w.r
	for fn, routes := range w.inner {
		has := map[string]bool{}
		for _, rt := range routes {
			for v := range varsOf(rt.path) {
				has[v] = true
			}
		}
		fns := w.p.reachedFrom(fn)
		fns[fn] = true
		read := map[string]bool{}
		unknown := false
		for g := range fns {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Lookup:
						if !isVars(in.X, 0) {
							continue
						}
						c, ok := in.Index.(*ssa.Const)
						if !ok || c.Value == nil || c.Value.Kind() != constant.String {
							unknown = true
							continue
						}
						k := constant.StringVal(c.Value)
						read[k] = true
						r.Count("variables of routes that are read", 1)
						if !has[k] {
							r.Violate("variables", fnLabel(g), in.Pos(), "no route of %s has the variable %q that it reads", fnLabel(fn), k)
						}
					case *ssa.Range:
						unknown = unknown || isVars(in.X, 0)
					}
				}
			}
		}
		for _, rt := range routes {
			for v := range varsOf(rt.path) {
				if !read[v] && !unknown {
					r.Violate("variables", fnLabel(fn), fn.Pos(), "the handler of the route %q does not read its variable %q", rt.name, v)
				}
			}
		}
	}
	r.Floor("variables of routes that are read", 2)
}

func isVars(v ssa.Value, depth int) bool {
	if !typeIs(v.Type(), "map[string]string") || depth > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Call:
		return v.Call.StaticCallee() != nil && fnName(v.Call.StaticCallee()) == "github.com/gorilla/mux.Vars"
	case *ssa.Phi:
		for _, e := range v.Edges {
			if isVars(e, depth+1) {
				return true
			}
		}
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.UnOp:
		return true
	}
	return false
}

var rawTypes = []string{"HTML", "HTMLAttr", "JS", "JSStr", "CSS", "URL", "Srcset"}

func isRawText(t types.Type) bool {
	for _, n := range rawTypes {
		if typeIs(t, "html/template."+n) {
			return true
		}
	}
	return false
}

// rawText: nothing is exempt from escaping.
func (w *webRule) rawText() {
	r := w.r
	for _, fn := range w.p.srcFn {
		if fn.Pkg != w.pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				r.Count("instructions of the web app", 1)
				if v, ok := in.(ssa.Value); ok && isRawText(v.Type()) {
					if _, made := in.(*ssa.Phi); !made {
						if x, is := in.(*ssa.ChangeType); is && isEscaped(x.X) {
							continue
						}
						r.Violate("escaped", fnLabel(fn), in.Pos(), "a text is made exempt from escaping")
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				if strings.HasPrefix(fnName(c.Common().StaticCallee()), "(*text/template.Template).Execute") {
					r.Violate("escaped", fnLabel(fn), in.Pos(), "a template is executed without contextual escaping")
				}
			}
		}
	}
	scope := w.pkg.Pkg.Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if isRawText(derefType(st.Field(i).Type())) {
				r.Violate("escaped", n+"."+st.Field(i).Name(), st.Field(i).Pos(), "a field holds text that is exempt from escaping")
			}
		}
	}
}

// isEscaped: a constant, or what an escaping function returned.
func isEscaped(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			switch fnName(f) {
			case "html/template.HTMLEscapeString", "html/template.HTMLEscaper", "html.EscapeString":
				return true
			}
		}
	}
	return false
}

// ---- what is written to responses ----

type webOut struct {
	w    *webRule
	fns  map[*ssa.Function]bool
	resp map[ssa.Value]bool // writers that are responses
}

// written: what handlers write to a response is constant, escaped or JSON.
func (w *webRule) written() {
	r := w.r
	o := &webOut{w: w, fns: w.handlerFns(), resp: map[ssa.Value]bool{}}
	for _, h := range w.handlers {
		o.fns[h.root] = true
		for g := range w.p.reachedFrom(h.root) {
			if len(g.Blocks) > 0 && g.Pkg == w.pkg {
				o.fns[g] = true
			}
		}
	}
	// the writers
	for changed := true; changed; {
		changed = false
		set := func(v ssa.Value) {
			if !o.resp[v] {
				o.resp[v], changed = true, true
			}
		}
		for fn := range o.fns {
			for _, p := range fn.Params {
				if isRW(p.Type()) {
					set(p)
				}
			}
			for _, p := range fn.FreeVars {
				if isRW(p.Type()) {
					set(p)
				}
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.ChangeInterface:
						if o.resp[in.X] {
							set(in)
						}
					case *ssa.MakeInterface:
						if o.resp[in.X] {
							set(in)
						}
					case *ssa.UnOp:
						if isRW(in.Type()) {
							set(in)
						}
					case *ssa.Phi:
						for _, e := range in.Edges {
							if o.resp[e] {
								set(in)
							}
						}
					case ssa.CallInstruction:
						if g := in.Common().StaticCallee(); g != nil && o.fns[g] {
							for i, a := range in.Common().Args {
								if o.resp[a] && i < len(g.Params) {
									set(g.Params[i])
								}
							}
						}
					}
				}
			}
		}
	}
	for fn := range o.fns {
		if w.buffered(fn) {
			continue
		}
		plain := o.plain(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					o.call(fn, c, plain)
				}
			}
		}
	}
	r.Floor("writes to responses", 4)
}

// buffered: the methods of the response buffer itself.
func (w *webRule) buffered(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil {
		return false
	}
	n := namedOf(fn.Signature.Recv().Type())
	return n != nil && isRW(types.NewPointer(n)) || n != nil && types.NewMethodSet(types.NewPointer(n)).Lookup(nil, "WriteHeader") != nil
}

// plain: the function declares that the answer is no HTML.
func (o *webOut) plain(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || fnName(c.Call.StaticCallee()) != "(net/http.Header).Set" {
				continue
			}
			k, _ := lStr(NewLits(o.w.p).constOf(c.Call.Args[1]))
			v, _ := lStr(NewLits(o.w.p).constOf(c.Call.Args[2]))
			if strings.EqualFold(k, "content-type") && (strings.HasPrefix(v, "application/json") || strings.HasPrefix(v, "text/plain")) {
				return true
			}
		}
	}
	return false
}

func (l *Lits) constOf(v ssa.Value) lAny {
	if c, ok := v.(*ssa.Const); ok {
		return l.value(nil, c)
	}
	return nil
}

func (o *webOut) call(fn *ssa.Function, c ssa.CallInstruction, plain bool) {
	r := o.w.r
	com := c.Common()
	args := com.Args
	if com.IsInvoke() {
		args = append([]ssa.Value{com.Value}, args...)
	}
	at := -1
	for i, a := range args {
		if o.resp[a] {
			at = i
		}
	}
	if at < 0 {
		return
	}
	name := ""
	if com.IsInvoke() {
		name = "." + com.Method.Name()
	} else if g := com.StaticCallee(); g != nil {
		if o.fns[g] || o.w.inPkg(g) {
			return // looked at by itself
		}
		name = fnName(g)
	} else {
		if _, ok := com.Value.(*ssa.Builtin); ok {
			return
		}
		name = "dynamic"
	}
	check := func(vs ...ssa.Value) {
		r.Count("writes to responses", 1)
		for _, v := range vs {
			if why := o.text(v, 0); why != "" && !plain {
				r.Violate("escaped", fnLabel(fn), c.Pos(), "%s is written to a response as it is", why)
			}
		}
	}
	switch name {
	case ".Header", ".WriteHeader", ".Flush", ".CloseNotify", ".Hijack":
	case ".Write", ".WriteString", "io.WriteString", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.Copy":
		check(args[1:]...)
	case "(*bytes.Buffer).WriteTo":
		check(args[0])
	case "encoding/json.NewEncoder":
		r.Count("writes to responses", 1)
		if v, ok := c.(ssa.Value); ok {
			if why := o.encoder(v); why != "" && !plain {
				r.Violate("escaped", fnLabel(fn), c.Pos(), "%s", why)
			}
		}
	case "html/template.HTMLEscape", "net/http.Error", "net/http.NotFound", "net/http.Redirect", "net/http.SetCookie", "(net/http.ResponseController)", "net/http.MaxBytesReader":
		r.Count("writes to responses", 1)
	default:
		if strings.HasPrefix(name, htmlType+"Execute") {
			r.Count("writes to responses", 1)
			return
		}
		r.Violate("undecided", fnLabel(fn), c.Pos(), "what %s writes to the response cannot be determined", strings.TrimPrefix(name, "."))
	}
}

func (o *webOut) encoder(v ssa.Value) string {
	if refs := v.Referrers(); refs != nil {
		for _, in := range *refs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && fnName(c.Common().StaticCallee()) == "(*encoding/json.Encoder).SetEscapeHTML" {
				return "JSON is written to a response without escaping what is HTML in it"
			}
		}
	}
	return ""
}

// text: why a value may hold text that is not escaped; "" if it may not.
func (o *webOut) text(v ssa.Value, depth int) string {
	if depth > 25 {
		return "a text"
	}
	all := func(vs []ssa.Value) string {
		for _, v := range vs {
			if why := o.text(v, depth+1); why != "" {
				return why
			}
		}
		return ""
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
		return ""
	}
	switch v := v.(type) {
	case *ssa.Const:
		return ""
	case *ssa.MakeInterface:
		return o.text(v.X, depth+1)
	case *ssa.ChangeInterface:
		return o.text(v.X, depth+1)
	case *ssa.ChangeType:
		return o.text(v.X, depth+1)
	case *ssa.Convert:
		return o.text(v.X, depth+1)
	case *ssa.Phi:
		if depth > 20 {
			return ""
		}
		return all(v.Edges)
	case *ssa.BinOp:
		return all([]ssa.Value{v.X, v.Y})
	case *ssa.Extract:
		return o.text(v.Tuple, depth+1)
	case *ssa.Slice:
		return o.text(v.X, depth+1)
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && o.w.p.constGlobal(g) {
			return ""
		}
		return o.text(v.X, depth+1)
	case *ssa.FieldAddr:
		return o.text(v.X, depth+1)
	case *ssa.Alloc:
		return o.buffer(v, depth+1)
	case *ssa.Parameter:
		i := paramIndex(v.Parent(), v)
		why := ""
		n := o.w.callers(v.Parent(), func(_ *ssa.Function, _ ssa.CallInstruction, op []ssa.Value) {
			if why == "" && i < len(op) {
				why = o.text(op[i], depth+3)
			}
		})
		if n == 0 {
			return "a text that the function is given"
		}
		return why
	case *ssa.Call:
		if v.Call.IsInvoke() {
			if v.Call.Method.Name() == "Error" {
				return "the text of an error"
			}
			return "what " + v.Call.Method.Name() + " returns"
		}
		g := v.Call.StaticCallee()
		if g == nil {
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return all(v.Call.Args)
			}
			return "what a function value returns"
		}
		switch n := fnName(g); n {
		case "encoding/json.Marshal", "encoding/json.MarshalIndent", "html/template.HTMLEscapeString", "html/template.HTMLEscaper", "html/template.JSEscapeString", "html.EscapeString",
			"html/template.URLQueryEscaper", "net/url.QueryEscape", "net/url.PathEscape", "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatFloat", "strconv.FormatBool", "net/http.StatusText", "(net/url.Values).Encode":
			return ""
		case "bytes.NewReader", "strings.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "io.MultiReader", "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "strings.Join", "bytes.Join", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "strings.TrimSpace", "bytes.TrimSpace", "strings.Repeat":
			return all(v.Call.Args)
		default:
			if o.w.inPkg(g) && len(g.Blocks) > 0 && depth < 12 {
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, res := range ret.Results {
							if isErrorType(res.Type()) {
								continue
							}
							if why := o.text(res, depth+6); why != "" {
								return why
							}
						}
					}
				}
				return ""
			}
			return "what " + strings.TrimPrefix(n, "sourcegraph.com/sourcegraph/") + " returns"
		}
	}
	if mayHoldText(v.Type(), 0) {
		return fmt.Sprintf("a text (%s)", v.Type())
	}
	return ""
}

// buffer: what goes into a local variable.
func (o *webOut) buffer(v ssa.Value, depth int) string {
	if v.Referrers() == nil || depth > 25 {
		return ""
	}
	for _, in := range *v.Referrers() {
		switch in := in.(type) {
		case *ssa.Store:
			if in.Addr == v {
				if why := o.text(in.Val, depth+1); why != "" {
					return why
				}
			}
		case *ssa.IndexAddr:
			if why := o.buffer(in, depth+1); why != "" {
				return why
			}
		case *ssa.FieldAddr:
			if why := o.buffer(in, depth+1); why != "" {
				return why
			}
		case *ssa.MakeInterface:
			if why := o.buffer(in, depth+1); why != "" {
				return why
			}
		case *ssa.ChangeInterface:
			if why := o.buffer(in, depth+1); why != "" {
				return why
			}
		case ssa.CallInstruction:
			c := in.Common()
			g := c.StaticCallee()
			if g == nil {
				continue
			}
			args := c.Args
			n := fnName(g)
			switch n {
			case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*strings.Builder).Write", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "io.Copy":
				if args[0] != v {
					continue
				}
				for _, a := range args[1:] {
					if why := o.text(a, depth+1); why != "" {
						return why
					}
				}
			case "encoding/json.NewEncoder":
				if x, ok := in.(ssa.Value); ok {
					if why := o.encoder(x); why != "" {
						return why
					}
				}
			default:
				if strings.HasPrefix(n, htmlType+"Execute") || strings.HasPrefix(n, "(*bytes.Buffer).") || strings.HasPrefix(n, "(*strings.Builder).") || strings.HasPrefix(n, "encoding/json.") {
					continue
				}
				if o.w.inPkg(g) && len(g.Blocks) > 0 {
					for i, a := range args {
						if a == v && i < len(g.Params) {
							if why := o.buffer(g.Params[i], depth+1); why != "" {
								return why
							}
						}
					}
					continue
				}
				if len(args) > 0 && args[0] == v || strings.HasPrefix(n, "(*text/template.Template)") {
					return "what " + n + " writes"
				}
			}
		}
	}
	return ""
}

func mayHoldText(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return true
	case *types.Pointer:
		return mayHoldText(u.Elem(), depth+1)
	case *types.Array:
		return mayHoldText(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mayHoldText(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Signature, *types.Chan:
		return false
	}
	return true
}
