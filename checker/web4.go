package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// webRender is a function that renders pages.
type webRender struct {
	fn         *ssa.Function
	name, data int      // its parameters
	fields     []string // fields of the data that it sets
}

// renderers finds the functions that execute a page's template.
func (w *webRule) renderers() (out []*webRender) {
	r := w.r
	rv := newRelevance(w.p, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() != nil && strings.HasPrefix(fnName(c.Common().StaticCallee()), htmlType+"Execute")
	})
	for _, fn := range w.p.srcFn {
		if fn.Pkg != w.pkg || fn.Parent() != nil || !rv.has(fn) {
			continue
		}
		rd := &webRender{fn: fn, name: -1, data: -1}
		for i, p := range fn.Params {
			if i < recvCount(fn) {
				continue
			}
			switch u := p.Type().Underlying().(type) {
			case *types.Basic:
				if u.Kind() == types.String && rd.name < 0 {
					rd.name = i
				}
			case *types.Interface:
				if u.NumMethods() == 0 {
					rd.data = i
				}
			}
		}
		if rd.name < 0 || rd.data < 0 || !returnsError(fn.Signature) || !isHandlerLike(fn) {
			continue
		}
		if w.render(rd) {
			out = append(out, rd)
		}
	}
	r.Floor("paths that render a page", 1)
	return out
}

// render judges a function that renders the page of a given name: it does so
// for no other page, with the data that it is given, and completely.
func (w *webRule) render(rd *webRender) bool {
	r, fn := w.r, rd.fn
	e := NewEngine(w.p)
	e.Loops = true
	rv := newRelevance(w.p, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if ok {
			for _, a := range c.Common().Args {
				if isRW(a.Type()) {
					return true
				}
			}
			if c.Common().IsInvoke() && isRW(c.Common().Value.Type()) {
				return true
			}
			if g := c.Common().StaticCallee(); g != nil {
				return strings.HasPrefix(fnName(g), htmlType+"Execute") || strings.HasPrefix(fnName(g), "(reflect.Value).")
			}
		}
		if l, ok := in.(*ssa.Lookup); ok {
			return isTmplMap(l.X.Type())
		}
		return false
	})
	e.Opaque = func(g *ssa.Function) bool { return !w.inPkg(g) || !rv.has(g) }
	e.Keep = func(st *State, ev *Event) bool { return false }
	name, data := e.Param(fn, rd.name), e.Param(fn, rd.data)
	var rw *Term
	for i, p := range fn.Params {
		if isRW(p.Type()) {
			rw = e.Param(fn, i)
		}
	}
	fields := map[string]bool{}
	found := false
	note := func(st *State, k string, t *Term) {
		st.pin(t)
		st.notes[k] = fmt.Sprint(t.id)
	}
	noted := func(st *State, k string) *Term {
		if s := st.notes[k]; s != "" {
			return e.T.all[atoi(s)-1]
		}
		return nil
	}
	bad := func(in ssa.Instruction, format string, args ...any) {
		r.Violate("rendered", fnLabel(in.Parent()), in.Pos(), format, args...)
	}
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind == "mapread" && isTmplMap(ev.Args[0].typ) && ev.Args[1].origin() == name {
			note(st, "page", e.T.mk("me", "", nil, nil, nil, ev.Args[0], ev.Args[1]))
		}
		if ev.Kind != "call" {
			return
		}
		if ev.Name == "(reflect.Value).FieldByName" && ev.Args[0].has(data) {
			if s, ok := ev.Args[1].origin().strVal(); ok {
				fields[s] = true
			}
		}
		switch {
		case strings.HasPrefix(ev.Name, htmlType+"Execute"):
			found = true
			r.Count("executions of a page's template", 1)
			t := ev.Args[0].origin()
			a := at(t)
			ofMap := a != nil && a.op == "me" && isTmplMap(a.args[0].typ)
			if !ofMap || a.args[1].origin() != name {
				bad(ev.Site, "the template that is executed is not that of the page asked for")
			} else if !e.notNil(st, t) {
				bad(ev.Site, "the template of a page that does not exist is executed")
			}
			if ev.Args[len(ev.Args)-1].origin() != data {
				bad(ev.Site, "the page is not given the data")
			}
			st.notes["executed"] = "1"
			note(st, "err", e.errResult(ev))
			out := ev.Args[1].origin()
			if out == rw {
				st.notes["direct"] = "1"
			} else {
				note(st, "out", out)
			}
		case noted(st, "out") != nil:
			out := noted(st, "out")
			sent := false
			switch {
			case ev.Name == "(*bytes.Buffer).WriteTo":
				sent = ev.Args[0].origin() == out && ev.Args[1].origin() == rw
			case ev.Name == "io.Copy":
				sent = ev.Args[0].origin() == rw && ev.Args[1].origin() == out
			case ev.Name == "(net/http.ResponseWriter).Write":
				v := ev.Args[1].origin()
				sent = ev.Args[0].origin() == rw && (isCall(v, "(*bytes.Buffer).Bytes")) && v.args[0].origin() == out
			case ev.Name == "io.WriteString" || ev.Name == "fmt.Fprint":
				v := ev.Args[1].origin()
				sent = ev.Args[0].origin() == rw && (isCall(v, "(*bytes.Buffer).String")) && v.args[0].origin() == out
			}
			if sent {
				if err := noted(st, "err"); err == nil || !e.isNil(st, err) {
					bad(ev.Site, "a page is sent that is not known to be complete")
				}
				st.notes["direct"] = "1"
				note(st, "senderr", e.errResult(ev))
			}
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" || len(x.Results) == 0 {
			return
		}
		res := x.Results[len(x.Results)-1]
		err := noted(st, "err")
		if e.notNil(st, res) {
			return
		}
		r.Count("paths that render a page", 1)
		switch {
		case st.notes["executed"] == "":
			bad(x.Site, "success is returned although no page was rendered")
		case st.notes["direct"] == "":
			bad(x.Site, "success is returned although the page was not sent")
		case !e.isNil(st, err) && res.origin() != err:
			bad(x.Site, "success is returned although rendering the page may have failed")
		}
	}
	e.Run(fn, nil)
	r.Use(e)
	rd.fields = sortedNames(fields)
	return found
}
