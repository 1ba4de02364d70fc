package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C07: errors are passed on ----

func init() {
	register(&Check{
		ID: "C07",
		Rule: "error flow over every path of every function of the Go packages: the error of each fallible operation (a call of an interface that appdash declares, of a connection, file, encoder, listener or message reader/writer, or of a function of appdash that calls one of them and returns an error) is known nil, " +
			"known to be the documented not-found or end-of-file value, returned (or replaced by an error that is known not nil), logged, handed on, stored outside the function, or answered by a repetition of the same call whose own error is passed on; " +
			"in a loop this holds at the end of each iteration, unless the error flows into a loop variable that keeps it until the end; a function that runs in a goroutine of its own, or deferred, cannot pass an error on by returning it; " +
			"a recorder that a function makes and keeps to itself is asked for the errors it has kept after each last recording, and they are used, or it has a log of its own",
		NotCover: "errors of closing what has been read or is discarded, of removing temporary files, and of writing a response to a client that may be gone; what the caller does with an error that reaches it; errors of parsing and unmarshalling single values",
		Run:      runC07,
	})
}

// externalFallible: operations on connections, files and streams.
func externalFallible(name string) bool {
	m := name[strings.LastIndex(name, ".")+1:]
	switch m {
	case "Close", "Remove", "RemoveAll", "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
		return false
	}
	for _, p := range []string{"fmt.Fprint", "(net/http.ResponseWriter)", "(*bytes.Buffer)", "(*strings.Builder)", "(net/http.Hijacker)", "io.WriteString", "net.SplitHostPort", "net.ParseCIDR", "net/http.ParseTime"} {
		if strings.HasPrefix(name, p) {
			return false
		}
	}
	for _, p := range []string{"net.", "(net.", "(*net.", "crypto/tls.", "(*crypto/tls.", "os.", "(*os.", "io/ioutil.", "io.", "(io.", "encoding/gob.", "(*encoding/gob.", "encoding/json.", "(*encoding/json.", "(github.com/gogo/protobuf/", "github.com/gogo/protobuf/", "bufio.", "(*bufio.",
		"net/http.Listen", "net/http.Serve", "(net/http.RoundTripper)", "(*net/http.Client)", "(*net/http.Server)", "(*net/http.Transport)", "(*html/template.Template).Execute", "compress/", "(*compress/"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

type errFlow struct {
	p        *Program
	fallible map[*ssa.Function]bool // may return the error of a fallible operation
	goes     map[*ssa.Function]bool // its results go nowhere
	closing  bool                   // the function that is checked closes something
	reports  map[*ssa.Function]bool // functions that report their errors themselves
	writing  *relevance             // functions that write messages
	kept     *ssa.Function          // the errors that a recorder has kept

	passes    map[*ssa.Function]bool // functions that report the errors they are given
	givenLost map[*ssa.Function]bool
	called    map[*ssa.Function]bool // functions that are only called directly
}

// selfReporting: nothing is lost where nobody looks at the function's result.
func (f *errFlow) selfReporting(r *R, fn *ssa.Function) bool {
	if fn == nil || !f.p.InRepo(fn) || len(fn.Blocks) == 0 || !returnsError(fn.Signature) {
		return false
	}
	if ok, done := f.reports[fn]; done {
		return ok
	}
	f.reports[fn] = false
	was, closing := f.goes[fn], f.closing
	f.goes[fn], f.closing = true, false
	q := newR(r.Check, r.P, "")
	f.function(q, fn)
	f.goes[fn], f.closing = was, closing
	f.reports[fn] = len(q.violations) == 0 && !f.asksErrors(fn)
	return f.reports[fn]
}

// asksErrors: the function makes an error of those that a recorder has kept.
func (f *errFlow) asksErrors(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && f.kept != nil && c.Common().StaticCallee() == f.kept {
				return true
			}
		}
	}
	return false
}

// writes: an operation that sends a message.
func (f *errFlow) writes(ev *Event) bool {
	return wireOp(ev.Name, "WriteMsg") || ev.Rec != nil && f.writing.has(ev.Rec)
}

// fallibleInstr: an instruction that calls a fallible operation.
func (f *errFlow) fallibleCall(c *ssa.CallCommon) bool {
	if !returnsError(c.Signature()) {
		return false
	}
	if c.IsInvoke() {
		n := fmt.Sprintf("(%s).%s", c.Value.Type(), c.Method.Name())
		return f.ourInterface(c.Value.Type()) && c.Method.Name() != "Close" || externalFallible(n)
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return false
	case *ssa.Function:
		return f.fallibleFn(v)
	case *ssa.MakeClosure:
		return f.fallibleFn(v.Fn.(*ssa.Function))
	}
	return true // a function value
}

func (f *errFlow) fallibleFn(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || !f.p.InRepo(fn) {
		return externalFallible(fnName(fn))
	}
	return f.fallible[fn]
}

func (f *errFlow) ourInterface(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if m := n.Obj().Name(); strings.HasPrefix(m, "Event") { // marshalling
		return true
	}
	return strings.HasPrefix(n.Obj().Pkg().Path(), "sourcegraph.com/sourcegraph/appdash")
}

func returnsError(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if isErrorType(sig.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

func runC07(r *R) {
	f := &errFlow{p: r.P, fallible: map[*ssa.Function]bool{}, goes: map[*ssa.Function]bool{}, reports: map[*ssa.Function]bool{}, passes: map[*ssa.Function]bool{}, givenLost: map[*ssa.Function]bool{}, called: map[*ssa.Function]bool{}}
	callers, asValue := staticCallers(r.P)
	for fn := range callers {
		f.called[fn] = !asValue[fn] && !(fn.Object() != nil && fn.Object().Exported())
	}
	f.writing = newRelevance(r.P, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().IsInvoke() && c.Common().Method.Name() == "WriteMsg"
	})
	f.kept = r.P.Method("", "Recorder", "Errors")
	for changed := true; changed; {
		changed = false
		for _, fn := range r.P.srcFn {
			if f.fallible[fn] || !returnsError(fn.Signature) || fn.Name() == "Close" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || f.fallible[fn] {
						continue
					}
					if f.fallibleCall(c.Common()) || f.asksErrors(fn) {
						f.fallible[fn], changed = true, true
					}
				}
			}
		}
	}
	used := map[*ssa.Function]bool{}
	for _, fn := range r.P.srcFn {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var c *ssa.CallCommon
				switch in := in.(type) {
				case *ssa.Go:
					c = &in.Call
				case *ssa.Defer:
					c = &in.Call
				}
				var g *ssa.Function
				if c != nil {
					switch v := c.Value.(type) {
					case *ssa.Function:
						g = v
					case *ssa.MakeClosure:
						g = v.Fn.(*ssa.Function)
					}
					if g != nil {
						f.goes[g] = true
					} else if f.fallibleCall(c) {
						r.Violate("lost", fnLabel(fn), in.Pos(), "a fallible operation is run where nobody sees its error")
					}
				}
				_ = used
			}
		}
	}
	// Functions that only goroutines and deferred calls run.
	for _, fn := range r.P.srcFn {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil && f.goes[g] {
						// also called normally: its callers see the error there
						used[g] = true
					}
				}
			}
		}
	}
	for _, fn := range r.P.srcFn {
		has := f.goes[fn]
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && f.fallibleCall(c.Common()) {
					has = true
				}
			}
		}
		closing := fn.Name() == "Close" && returnsError(fn.Signature)
		has = has || closing
		for _, g := range fn.AnonFuncs {
			has = has || returnsError(g.Signature)
		}
		for _, prm := range fn.Params {
			has = has || isErrorType(prm.Type())
		}
		if pos := r.P.Pos(fn.Pos()); strings.Contains(pos, "example_app.go") || strings.Contains(pos, "sample_data.go") { // the demonstration
			continue
		}
		if has && fn.Name() != "UnmarshalJSON" {
			f.closing = closing
			f.function(r, fn)
		}
	}
	r.Floor("fallible calls", 40)
	r.Floor("functions", 25)
	f.recorders(r)
}

// isFallible: an event that calls a fallible operation.
func (f *errFlow) isFallible(ev *Event) bool {
	if ev.Kind != "call" || ev.Sig == nil || !returnsError(ev.Sig) {
		return false
	}
	c, ok := ev.Site.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if f.closing && strings.HasSuffix(ev.Name, ".Close") { // what Close is about
		return true
	}
	if ev.Rec != nil {
		return f.fallibleFn(ev.Rec)
	}
	if ev.Name == "dynamic" {
		return true
	}
	if externalFallible(ev.Name) {
		return true
	}
	return ev.Iface && c.Common().IsInvoke() && f.fallibleCall(c.Common())
}

// passesGiven: the function reports the errors that it is given, other than by
// returning them.
func (f *errFlow) passesGiven(fn *ssa.Function) bool {
	has := false
	for _, q := range fn.Params[min(recvCount(fn), len(fn.Params)):] {
		has = has || isErrorType(q.Type())
	}
	if !has || len(fn.Blocks) == 0 {
		return true
	}
	if ok, done := f.passes[fn]; done {
		return ok
	}
	f.passes[fn] = true
	was, closing := f.goes[fn], f.closing
	f.goes[fn], f.closing = true, false
	f.function(newR(&Check{ID: "C07"}, f.p, ""), fn)
	f.goes[fn], f.closing = was, closing
	f.passes[fn] = !f.givenLost[fn]
	delete(f.givenLost, fn)
	return f.passes[fn]
}

// sinks: a call that takes notice of its arguments.
func (f *errFlow) sinks(ev *Event) bool {
	switch {
	case ev.Kind == "panic", ev.Kind == "send":
		return true
	case ev.Kind != "call":
		return false
	case ev.Rec != nil && f.p.InRepo(ev.Rec) && !f.passesGiven(ev.Rec):
		return false
	case strings.HasPrefix(ev.Name, "fmt.Sprint"), ev.Name == "fmt.Errorf", strings.HasPrefix(ev.Name, "errors."), strings.HasPrefix(ev.Name, "strings."),
		strings.HasPrefix(ev.Name, "strconv."), strings.HasPrefix(ev.Name, "(error)."), strings.HasPrefix(ev.Name, "(fmt.Stringer)."), strings.HasPrefix(ev.Name, "(*bytes.Buffer)"), strings.HasPrefix(ev.Name, "(net.Error)"),
		strings.HasPrefix(ev.Name, "os.Is"), strings.HasPrefix(ev.Name, "reflect."):
		return false
	}
	return true
}

// function checks one function. The functions that it calls are not looked
// into, except for function literals: they are checked on their own.
func (f *errFlow) function(r *R, fn *ssa.Function) {
	p := f.p
	e := NewEngine(p)
	e.Loops = true
	e.Opaque = func(g *ssa.Function) bool { return g.Parent() == nil }
	e.Keep = func(st *State, ev *Event) bool {
		switch ev.Kind {
		case "call", "store", "send", "panic", "mapupdate":
			return true
		case "builtin":
			return ev.Name == "append" || ev.Name == "panic"
		}
		return false
	}
	bad := map[string]bool{}
	report := func(site ssa.Instruction, format string, args ...any) {
		msg := fmt.Sprintf(format, args...)
		if !bad[msg] {
			bad[msg] = true
			r.Violate("lost", fnLabel(fn), site.Pos(), "%s", msg)
		}
	}
	var given []*Term // errors to report
	for i, p := range fn.Params {
		if isErrorType(p.Type()) && i >= recvCount(fn) {
			given = append(given, e.Param(fn, i))
		}
	}
	e.OnEvent = func(st *State, ev *Event) {
		if f.isFallible(ev) {
			st.pin(e.errResult(ev))
		}
	}
	// report: an operation by which an error is reported, whose own error
	// nobody needs.
	reporting := func(items []*TItem, i int) bool {
		ev := items[i].Ev
		var errs []*Term
		errs = append(errs, given...)
		for _, it := range items[:i] {
			if it.Ev != nil && f.isFallible(it.Ev) {
				errs = append(errs, e.errResult(it.Ev))
			}
		}
		for _, x := range errs {
			is := carriers(items[:i], x)
			for _, a := range ev.Args {
				if is(a) {
					return true
				}
			}
		}
		return false
	}
	local := func(t *Term) bool {
		switch rootAddr(t).op {
		case "alloc", "mk":
			return true
		}
		return false
	}
	documented := func(t *Term) bool {
		return t.op == "global" && (t.aux == "io.EOF" || t.aux == "os.ErrNotExist" || t.aux == "io/fs.ErrNotExist" || strings.HasPrefix(t.aux, "sourcegraph.com/sourcegraph/appdash"))
	}
	// sentinel: the error is known to be a documented outcome.
	sentinel := func(st *State, err *Term) bool {
		for c, v := range st.facts {
			if v && c.op == "eq" && (c.args[0] == err || c.args[1] == err) {
				o := c.args[0]
				if o == err {
					o = c.args[1]
				}
				if o.mentions(documented) {
					return true
				}
			}
			if v && isCall(c, "errors.Is") && c.args[0] == err && c.args[1].mentions(documented) || v && isCall(c, "os.IsNotExist") && c.args[0] == err {
				return true
			}
		}
		return false
	}
	// passed: the error has been taken notice of.
	passed := func(st *State, items []*TItem, err *Term, after int, outer func(*Term) bool) bool {
		is := carriers(items, err)
		for _, it := range items[after:] {
			ev := it.Ev
			if ev == nil {
				continue
			}
			switch ev.Kind {
			case "store":
				if is(ev.Args[1]) && (!local(ev.Args[0]) || outer != nil && outer(rootAddr(ev.Args[0]))) {
					return true
				}
			case "mapupdate":
				if !local(ev.Args[0]) && is(ev.Args[len(ev.Args)-1]) {
					return true
				}
			default:
				if f.sinks(ev) {
					for _, a := range ev.Args {
						if is(a) && !(ev.Res != nil && ev.Res == err) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	retried := func(items []*TItem, ev *Event, after int) bool {
		for _, it := range items[after:] {
			o := it.Ev
			if o == nil || o.Kind != "call" || o.Res == ev.Res {
				continue
			}
			if f.writes(o) && f.writes(ev) && (wireOp(o.Name, "WriteMsg") || wireOp(ev.Name, "WriteMsg")) {
				return true
			}
			if o.Name != ev.Name || o.Rec != ev.Rec {
				continue
			}
			same := len(o.Args) == len(ev.Args)
			for i := range o.Args {
				same = same && o.Args[i] == ev.Args[i]
			}
			if same && o.Name != "dynamic" {
				return true
			}
		}
		return false
	}
	round := 0
	dirty := map[*Term]bool{} // loop variables that hold errors
	isErrVar := func(t *Term) bool {
		if t.typ == nil {
			return false
		}
		if s, ok := t.typ.Underlying().(*types.Slice); ok {
			return isErrorType(s.Elem())
		}
		return isErrorType(t.typ)
	}
	clear := func(st *State, t *Term) bool { return e.isNil(st, t) || !isErrorType(t.typ) && e.empty(st, t) }
	e.OnIter = func(st *State, it *LoopIter) {
		outer := func(a *Term) bool { return !siteIn(a.site, a.ctx, it.Loop, it.Ctx) }
		into := func(is func(*Term) bool) bool {
			found := false
			for phi, val := range it.Vals {
				if isErrVar(phi) && is(val) {
					found = true
					dirty[phi] = true
				}
			}
			return found
		}
		for i, item := range it.Items {
			ev := item.Ev
			if ev == nil || !f.isFallible(ev) {
				continue
			}
			err := e.errResult(ev)
			if e.isNil(st, err) || sentinel(st, err) || reporting(it.Items, i) {
				continue
			}
			is := carriers(it.Items, err)
			if into(is) || round == 0 || passed(st, it.Items, err, i+1, outer) || retried(it.Items, ev, i+1) || f.selfReporting(r, ev.Rec) {
				continue
			}
			report(ev.Site, "the error of %s is lost: the loop goes on without it", short(ev))
		}
		for phi := range it.Vals {
			if dirty[phi] && round > 0 && !clear(st, phi) {
				is := carriers(it.Items, phi)
				if !into(is) && !passed(st, it.Items, phi, 0, outer) {
					report(it.Site, "an error of an earlier iteration is overwritten")
				}
			}
		}
	}
	e.OnLeave = func(st *State, it *LoopIter, whole bool) {
		for phi := range dirty {
			if phi.ctx == it.Ctx && phi.site.Block() == it.Loop.header {
				st.notes[fmt.Sprintf("left:%d", phi.id)] = "1"
				st.pin(phi)
			}
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" || round == 0 {
			return
		}
		r.Count("paths", 1)
		// part: one of the errors of a list that may hold more.
		part := func(res *Term) bool {
			if (res.op != "load" && res.op != "elem") || len(res.args) == 0 || res.args[0].op != "ia" {
				return false
			}
			list := res.args[0].args[0]
			return list.typ != nil && isErrVar(list) && !e.isTrue(st, e.T.Eq(e.T.Len(list), e.T.Int(1)))
		}
		returned := func(err *Term) bool {
			if f.goes[fn] {
				return false
			}
			is := carriers(st.trace, err)
			for _, res := range x.Results {
				if res != err && part(res) {
					continue
				}
				if is(res) || isErrorType(err.typ) && res.typ != nil && isErrVar(res) && e.notNil(st, res) {
					return true
				}
			}
			return false
		}
		for i, item := range st.trace {
			ev := item.Ev
			if ev == nil || !f.isFallible(ev) {
				continue
			}
			r.Count("fallible calls", 1)
			err := e.errResult(ev)
			if e.isNil(st, err) || sentinel(st, err) || reporting(st.trace, i) || returned(err) || passed(st, st.trace, err, i+1, nil) || retried(st.trace, ev, i+1) || f.selfReporting(r, ev.Rec) {
				continue
			}
			report(ev.Site, "the error of %s is lost: it is neither returned nor reported on some path", short(ev))
		}
		for _, x := range given {
			if !e.isNil(st, x) && !sentinel(st, x) && !returned(x) && !passed(st, st.trace, x, 0, nil) {
				f.givenLost[fn] = true
				if !f.called[fn] { // else its callers are to blame
					r.Violate("lost", fnLabel(fn), fn.Pos(), "the error that the function is given is lost on some path")
				}
			}
		}
		for n := range st.notes {
			var id int
			if c, _ := fmt.Sscanf(n, "left:%d", &id); c != 1 {
				continue
			}
			phi := e.T.all[id-1]
			if !clear(st, phi) && !returned(phi) && !passed(st, st.trace, phi, 0, nil) {
				report(x.Site, "errors that a loop kept are lost on some path")
			}
		}
	}
	for round = 0; round < 2; round++ {
		e.visited = map[string]bool{}
		e.Run(fn, nil)
	}
	r.Use(e)
	r.Count("functions", 1)
}

func short(ev *Event) string {
	if ev.Name == "dynamic" {
		return "a function value"
	}
	return strings.ReplaceAll(ev.Name, "sourcegraph.com/sourcegraph/", "")
}

// recvCount is 1 for methods.
func recvCount(fn *ssa.Function) int {
	if fn.Signature.Recv() != nil {
		return 1
	}
	return 0
}
