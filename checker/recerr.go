package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C07: errors that a recorder keeps ----

// recorders: a function that makes a recorder and keeps it to itself looks at
// the errors that the recorder has kept, after the last recording.
func (f *errFlow) recorders(r *R) {
	p := r.P
	rec := p.Named("", "Recorder")
	mk, child, errs := p.Func("", "NewRecorder"), p.Method("", "Recorder", "Child"), p.Method("", "Recorder", "Errors")
	if !r.Require(rec != nil && mk != nil && child != nil && errs != nil, "anchor", "Recorder, NewRecorder, Child and Errors") {
		return
	}
	logger := fieldNamed(rec, "Logger")
	if !r.Require(logger >= 0, "anchor", "Recorder.Logger") {
		return
	}
	isMk := func(fn *ssa.Function) bool { return fn == mk || fn == child }
	makes := newRelevance(p, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() != nil && isMk(c.Common().StaticCallee())
	})
	uses := newRelevance(p, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok || c.Common().StaticCallee() == nil {
			return false
		}
		fn := c.Common().StaticCallee()
		return isMk(fn) || fn.Signature.Recv() != nil && types.Identical(deref(fn.Signature.Recv().Type()), rec)
	})
	method := func(ev *Event) string {
		if ev.Kind != "call" || ev.Rec == nil || ev.Rec.Signature.Recv() == nil || !types.Identical(deref(ev.Rec.Signature.Recv().Type()), rec) {
			return ""
		}
		return ev.Rec.Name()
	}
	var fns []*ssa.Function
	for _, fn := range p.srcFn {
		if fn.Pkg == p.SSA[""] && (fn == child || fn == mk) || !makes.has(fn) {
			continue
		}
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	for _, fn := range fns {
		e := NewEngine(p)
		e.Opaque = func(g *ssa.Function) bool {
			return !p.InRepo(g) || !uses.has(g) || g.Signature.Recv() != nil && types.Identical(deref(g.Signature.Recv().Type()), rec) || isMk(g)
		}
		e.Keep = func(st *State, ev *Event) bool { return false }
		e.Loops = true
		used := map[*Term]bool{} // lists of errors of which some are used
		own := func(t *Term) (int, bool) {
			t = t.origin()
			if t.op == "call" {
				if g, ok := t.obj.(*ssa.Function); ok && isMk(g) {
					return t.id, true
				}
			}
			return 0, false
		}
		key := func(what string, id int) string { return fmt.Sprintf("%s:%d", what, id) }
		e.OnEvent = func(st *State, ev *Event) {
			if m := method(ev); m != "" {
				if m == "Child" {
					return
				}
				id, ok := own(ev.Args[0])
				if !ok {
					return
				}
				switch m {
				case "Errors":
					delete(st.notes, key("pending", id))
					if ev.Res != nil {
						st.notes[key("errors", ev.Res.id)] = strconv.Itoa(id)
						st.pin(ev.Res)
						st.pin(e.T.Len(ev.Res))
					}
				default:
					if sig := ev.Rec.Signature; sig.Results().Len() > 0 || m == "String" {
						return
					}
					if st.notes[key("handed", id)] == "" && st.notes[key("logs", id)] == "" {
						if l := e.fieldOf(ev.Args[0], rec, logger); !e.notNil(st, l) {
							st.notes[key("pending", id)] = fmt.Sprint(int(ev.Site.Pos()))
						}
						r.Count("recordings of recorders made here", 1)
					}
				}
				return
			}
			switch ev.Kind {
			case "store":
				a, v := ev.Args[0], ev.Args[1]
				if a.op == "fa" && fieldLabel(a) == "Logger" {
					if id, ok := own(a.args[0]); ok && e.notNil(st, v) {
						st.notes[key("logs", id)] = "1"
						delete(st.notes, key("pending", id))
					}
				}
				if id, ok := own(v); ok && rawBase(a).op != "alloc" {
					st.notes[key("handed", id)] = "1"
				}
			case "call", "go", "send", "mapupdate", "builtin":
				for _, a := range ev.Args {
					// handed to somebody else
					a.mentions(func(t *Term) bool {
						if id, ok := own(t); ok && ev.Rec == nil {
							st.notes[key("handed", id)] = "1"
						}
						return false
					})
				}
			}
			// the errors are used
			if ev.Kind == "call" || ev.Kind == "builtin" && ev.Name == "append" || ev.Kind == "store" || ev.Kind == "panic" {
				for n := range st.notes {
					s, ok := strings.CutPrefix(n, "errors:")
					if !ok {
						continue
					}
					id, _ := strconv.Atoi(s)
					t := e.T.all[id-1]
					for a := range e.reachable(st, ev.Args) {
						if a == t {
							delete(st.notes, n)
						} else if a.has(t) {
							used[t] = true // one of them
						}
					}
				}
			}
		}
		judge := func(st *State, fnl string, at ssa.Instruction, bornHere func(t *Term) bool, results []*Term) {
			for n, v := range st.notes {
				what, s, _ := strings.Cut(n, ":")
				id, err := strconv.Atoi(s)
				if err != nil || what != "pending" && what != "errors" {
					continue
				}
				t := e.T.all[id-1]
				if !bornHere(t) {
					continue
				}
				delete(st.notes, n)
				out := false
				for x := range e.reachable(st, results) {
					out = out || x.has(t)
				}
				switch what {
				case "pending":
					if out || st.notes[key("handed", id)] != "" {
						continue
					}
					r.Violate("recorder", fnl, at.Pos(), "a recorder is made here and dropped without looking at the errors that it has kept (nobody else can)")
				case "errors":
					if out || e.isNil(st, t) || e.isTrue(st, e.T.Eq(e.T.Len(t), e.T.Int(0))) || e.isFalse(st, e.less(e.T.Int(0), e.T.Len(t))) || v == "" {
						continue
					}
					if st.notes["walked:"+s] != "" && used[t] {
						continue
					}
					r.Violate("recorder", fnl, at.Pos(), "the errors that a recorder has kept are taken from it and dropped")
				}
			}
		}
		e.OnLeave = func(st *State, it *LoopIter, completed bool) {
			for n := range st.notes {
				s, ok := strings.CutPrefix(n, "errors:")
				if !ok {
					continue
				}
				id, _ := strconv.Atoi(s)
				ln := fmt.Sprint(e.T.Len(e.T.all[id-1]).id)
				for _, w := range strings.Fields(st.notes[loopName(it.Loop, it.Ctx)]) {
					if p := strings.Split(w, ":"); len(p) == 3 && p[1] == ln {
						st.notes["walked:"+s] = "1" // from the first to the last
					}
				}
			}
		}
		e.OnIter = func(st *State, it *LoopIter) {
			judge(st, fnLabel(it.Loop.fn), it.Site, func(t *Term) bool { return bornIn(t, it.Loop, it.Ctx) }, nil)
		}
		e.OnExit = func(st *State, x *Exit) {
			if x.Kind != "return" {
				return
			}
			judge(st, fnLabel(x.Fn), x.Site, func(*Term) bool { return true }, x.Results)
			r.Count("paths of functions that make recorders", 1)
		}
		e.Run(fn, nil)
		r.Use(e)
		r.Count("functions that make recorders", 1)
	}
	r.Floor("functions that make recorders", 2)
	r.Floor("recordings of recorders made here", 4)
}
