package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const httpRel = "httptrace"

func isHeader(t types.Type) bool { return typeIs(t, "net/http.Header") }

// foreign: a header that the function has not made itself.
func foreignHeader(t *Term) bool {
	return t.typ != nil && isHeader(t.typ) && t.origin().op != "mk" && !t.isNil()
}

// rawIn finds the header values that a value holds: elements of a walk over
// a foreign header (as the walk's iterator terms), or other reads of one.
func rawIn(v *Term) (walks []*Term, other bool) {
	v.mentions(func(t *Term) bool {
		switch {
		case t.op == "nextv" && rangeOf(t) != nil && foreignHeader(rangeOf(t)):
			walks = append(walks, t.args[0])
		case t.op == "me" && foreignHeader(t.args[0]):
			other = true
		case t.op == "call" && strings.HasPrefix(t.aux, "(net/http.Header).") && len(t.args) > 0 && foreignHeader(t.args[0]):
			other = true
		}
		return false
	})
	return
}

// rangeOf is the collection that an element of a map walk comes from.
func rangeOf(t *Term) *Term {
	if (t.op == "nextk" || t.op == "nextv" || t.op == "nextok") && len(t.args[0].args) > 0 {
		return t.args[0].args[0].origin()
	}
	return nil
}

// ---- C17: redaction ----

func init() {
	register(&Check{
		ID: "C17",
		Rule: "information flow over every path of the functions that fill the Headers of an HTTP event: a header's value is put into a map only where a case-insensitive comparison of its own name with every entry of the redaction list is known to have failed (a loop over the whole list, each iteration of which compares), for headers and trailers; " +
			"each walk covers the whole header or trailer, puts something into the map for every name and, where no comparison matched, the whole value, and does not replace what another walk put there; " +
			"no other code of the package reads header values, except the span headers and the copy of the request that is sent",
		NotCover: "secrets outside of header values (URLs, route and user names), and what handlers record themselves",
		Run:      runC17,
	})
}

func runC17(r *R) {
	pkg := r.P.SSA[httpRel]
	if !r.Require(pkg != nil, "anchor", "package httptrace") {
		return
	}
	covered, done := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, fn := range r.P.srcFn {
		if fn.Pkg != pkg {
			continue
		}
		for _, f := range headerFills(fn) {
			r.Count("functions that fill event headers", 1)
			g := redactorCall(f.Val)
			if g == nil {
				r.fillsHeaders(fn, f, covered)
				continue
			}
			r.passesBoth(f)
			if !done[g] {
				done[g] = true
				r.fillsHeaders(g, nil, covered)
			}
		}
	}
	for _, fn := range r.P.srcFn {
		if fn.Pkg == pkg && !covered[fn] {
			r.readsHeaders(fn)
		}
	}
	r.Floor("functions that fill event headers", 2)
	r.Floor("walks over headers", 2)
	r.Floor("redaction tests", 2)
	r.Floor("header values recorded", 2)
}

// headerFills are the stores to a map-valued Headers field of the package's
// own event types.
func headerFills(fn *ssa.Function) (out []*ssa.Store) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			n, ok := derefType(fa.X.Type()).(*types.Named)
			if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/"+httpRel {
				continue
			}
			if m, ok := s.Val.Type().Underlying().(*types.Map); ok && isString(m.Key()) && !isHeader(s.Val.Type()) {
				out = append(out, s)
			}
		}
	}
	return
}

// redactorCall: the value is the result of a function of the package that
// makes it from headers.
func redactorCall(v ssa.Value) *ssa.Function {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	g := c.Common().StaticCallee()
	if g == nil || !isRedactor(g) {
		return nil
	}
	return g
}

func isRedactor(g *ssa.Function) bool {
	if g.Pkg == nil || g.Pkg.Pkg.Path() != modPath+"/"+httpRel || len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 {
		return false
	}
	m, ok := g.Signature.Results().At(0).Type().Underlying().(*types.Map)
	if !ok || !isString(m.Key()) || !isString(m.Elem()) {
		return false
	}
	for i := 0; i < g.Signature.Params().Len(); i++ {
		t := g.Signature.Params().At(i).Type()
		if s, ok := t.(*types.Slice); ok {
			t = s.Elem()
		}
		if isHeader(t) {
			return true
		}
	}
	return false
}

// passesBoth: the header and the trailer of a request or response are handed
// to the function that redacts them.
func (r *R) passesBoth(fill *ssa.Store) {
	names := map[string]bool{}
	var collect func(v ssa.Value, depth int)
	collect = func(v ssa.Value, depth int) {
		if depth > 8 {
			return
		}
		switch v := v.(type) {
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok && isHeader(v.Type()) {
				names[derefType(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()] = true
			}
		case *ssa.Slice:
			collect(v.X, depth+1)
		case *ssa.ChangeType:
			collect(v.X, depth+1)
		case *ssa.Alloc:
			for _, u := range *v.Referrers() {
				if ia, ok := u.(*ssa.IndexAddr); ok {
					for _, w := range *ia.Referrers() {
						if st, ok := w.(*ssa.Store); ok && st.Addr == ia {
							collect(st.Val, depth+1)
						}
					}
				}
			}
		case *ssa.Call: // a response writer's header
			if isHeader(v.Type()) && v.Common().IsInvoke() || isHeader(v.Type()) && v.Common().Signature().Recv() != nil {
				names["call"] = true
			}
		case *ssa.Field:
			if isHeader(v.Type()) {
				names[v.X.Type().Underlying().(*types.Struct).Field(v.Field).Name()] = true
			}
		}
	}
	for _, a := range fill.Val.(*ssa.Call).Common().Args {
		collect(a, 0)
	}
	if names["call"] && len(names) == 1 {
		return
	}
	for _, n := range []string{"Header", "Trailer"} {
		if !names[n] {
			r.Violate("complete", fnLabel(fill.Parent()), fill.Pos(), "the %s is not handed to the function that redacts and records it", strings.ToLower(n))
		}
	}
}

func (r *R) fillsHeaders(fn *ssa.Function, fill *ssa.Store, covered map[*ssa.Function]bool) {
	e := NewEngine(r.P)
	e.Loops = true
	e.Keep = func(st *State, ev *Event) bool { return ev.Kind == "mapupdate" || ev.Kind == "call" }
	judging := false
	bad := func(rule string, in ssa.Instruction, f string, args ...any) {
		if judging {
			r.Violate(rule, fnLabel(in.Parent()), in.Pos(), f, args...)
		}
	}
	count := func(what string) {
		if judging {
			r.Count(what, 1)
		}
	}
	// Loops over a list of names, in which each iteration compares a key.
	type cmp struct{ key, list *Term }
	cmps := map[string]cmp{}
	noCmp := map[string]bool{}
	type flow struct {
		to  *Term
		all bool
	}
	flows := map[string]map[*Term]*flow{} // walk (loop and context) -> map filled by it
	over := map[string]*Term{}            // -> what it walks
	loopAt := map[string]*LoopIter{}
	isList := func(t *Term) bool {
		g := t
		if at(t) != nil {
			g = at(t)
		}
		return g.op == "global" && strings.HasSuffix(g.aux, ".RedactedHeaders")
	}
	fold := func(t *Term) *Term { // the name under a change of case
		for t.op == "call" && (t.aux == "strings.ToLower" || t.aux == "strings.ToUpper") && len(t.args) == 1 {
			t = t.args[0]
		}
		return t
	}
	canon := func(t *Term) *Term {
		for t.op == "call" && (t.aux == "net/http.CanonicalHeaderKey" || t.aux == "net/textproto.CanonicalMIMEHeaderKey") {
			t = t.args[0]
		}
		return t
	}
	// compared: the comparison of a name with an element of the list.
	compared := func(a, b *Term) (key, list *Term) {
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			srcs, idx := e.elemsIn(p[1])
			if len(srcs) != 1 || !isList(srcs[0]) || idx[0] == nil || !e.isElem(p[1], srcs[0]) {
				continue
			}
			return p[0], srcs[0]
		}
		return nil, nil
	}
	// Flags that stay false only while comparisons fail.
	flags := map[string]map[*Term]bool{}
	inWhole, inPart := map[string]bool{}, map[string]bool{} // walks in the iterations of another loop
	elems := map[*Term][]*Term{}
	wholeWalk := func(st *State, key string) bool {
		it := loopAt[key]
		return e.walked(st, it.Loop, it.Ctx, over[key]) || inWhole[key] && !inPart[key]
	}
	// tested lists the names that no entry of the list matches.
	tested := func(st *State) (keys []*Term) {
		for k := range st.notes {
			if strings.HasPrefix(k, "tested:") {
				keys = append(keys, e.T.all[atoi(k[len("tested:"):])-1])
			}
			if strings.HasPrefix(k, "flag:") {
				p := strings.Split(k, ":")
				if e.isFalse(st, e.T.all[atoi(p[1])-1]) {
					keys = append(keys, e.T.all[atoi(p[2])-1])
				}
			}
		}
		return
	}
	e.OnIter = func(st *State, it *LoopIter) {
		key := loopName(it.Loop, it.Ctx)
		loopAt[key] = it
		for k, in := range loopAt {
			if k == key || over[k] == nil || !siteIn(in.Loop.header.Instrs[0], in.Ctx, it.Loop, it.Ctx) {
				continue
			}
			if e.walked(st, in.Loop, in.Ctx, over[k]) {
				inWhole[k] = true
			} else {
				inPart[k] = true
			}
			delete(st.notes, k)
		}
		// A comparison that is known to have failed?
		var c cmp
		for _, x := range it.Items {
			ev := x.Ev
			if ev == nil || ev.Kind != "call" || ev.Name != "strings.EqualFold" || !e.isFalse(st, ev.Res) {
				continue
			}
			if k, l := compared(ev.Args[0], ev.Args[1]); k != nil {
				c = cmp{canon(k), l}
			}
		}
		for phi, next := range it.Vals {
			if next.typ == nil || !isBoolType(next.typ) {
				continue
			}
			good := false
			switch {
			case e.isTrue(st, next):
				good = true
			case !e.isFalse(st, phi):
			case e.isFalse(st, next):
				good = c.key != nil
			default:
				for _, x := range it.Items {
					if ev := x.Ev; ev != nil && ev.Kind == "call" && ev.Name == "strings.EqualFold" && ev.Res == next {
						if k, l := compared(ev.Args[0], ev.Args[1]); k != nil {
							good = true
							if old, ok := cmps[key]; !ok || old == (cmp{canon(k), l}) {
								cmps[key] = cmp{canon(k), l}
							} else {
								good = false
							}
						}
					}
				}
			}
			if flags[key] == nil {
				flags[key] = map[*Term]bool{}
			}
			if old, ok := flags[key][phi]; !ok || old {
				flags[key][phi] = good
			}
		}
		for f, v := range st.facts {
			if f.op == "eq" && !v {
				a, b := f.args[0], f.args[1]
				if fold(a) != a && fold(b) != b && a.aux == b.aux {
					if k, l := compared(fold(a), fold(b)); k != nil {
						c = cmp{canon(k), l}
					}
				}
			}
		}
		if c.key == nil {
			noCmp[key] = true
		} else if old, ok := cmps[key]; ok && old != c {
			noCmp[key] = true
		} else {
			cmps[key] = c
		}
		// A walk over a map of headers: what has it put where?
		var src *Term
		for f, v := range st.facts {
			if f.op == "nextok" && v && siteIn(f.site, f.ctx, it.Loop, it.Ctx) && e.loopsOf(f.site.Parent())[f.site.Block()] == it.Loop {
				if s := rangeOf(f); s != nil {
					if m, ok := s.typ.Underlying().(*types.Map); ok && isString(m.Key()) {
						src = s
					}
				}
			}
		}
		if src == nil {
			for _, x := range it.Items {
				if x.Ev != nil && x.Ev.Kind == "mapupdate" {
					if s := rangeOf(canon(x.Ev.Args[1].origin())); s != nil {
						src = s
					}
				}
			}
		}
		if src == nil {
			src = over[key] // an iteration that records nothing
		}
		if src != nil {
			over[key] = src
			here := map[*Term]bool{}
			matched := false
			for _, x := range it.Items {
				if ev := x.Ev; ev != nil && ev.Kind == "call" {
					switch ev.Name {
					case "strings.EqualFold":
						k, _ := compared(ev.Args[0], ev.Args[1])
						matched = matched || k != nil && e.isTrue(st, ev.Res)
					case "slices.ContainsFunc", "slices.IndexFunc":
						matched = matched || isList(ev.Args[0])
					}
				}
			}
			for k := range st.notes {
				if strings.HasPrefix(k, "flag:") {
					matched = matched || e.isTrue(st, e.T.all[atoi(strings.Split(k, ":")[1])-1])
				}
			}
			for f, v := range st.facts {
				if f.op == "eq" && v && fold(f.args[0]) != f.args[0] {
					k, _ := compared(fold(f.args[0]), fold(f.args[1]))
					matched = matched || k != nil
				}
			}
			for _, x := range it.Items {
				ev := x.Ev
				if ev == nil || ev.Kind != "mapupdate" || rangeOf(canon(ev.Args[1].origin())) != src {
					continue
				}
				m := ev.Args[0].origin()
				open := !foreignHeader(src)
				for _, k := range tested(st) {
					open = open || k == canon(ev.Args[1].origin())
				}
				if open && !wholeValue(e, ev.Args[2], src, it.Items) {
					bad("recorded", ev.Site, "a header that is not redacted is recorded without its whole value (%s)", ev.Args[2])
				}
				if !open && !matched && !wholeValue(e, ev.Args[2], src, it.Items) {
					bad("recorded", ev.Site, "a header is redacted that does not match an entry of the redaction list")
				}
				here[m] = true
			}
			if flows[key] == nil {
				flows[key] = map[*Term]*flow{}
				for m := range here {
					flows[key][m] = &flow{m, true}
				}
			}
			for m, f := range flows[key] {
				f.all = f.all && here[m]
			}
			for m := range here {
				if flows[key][m] == nil {
					flows[key][m] = &flow{m, false}
				}
			}
		}
		for k := range st.notes {
			if strings.HasPrefix(k, "tested:") || strings.HasPrefix(k, "flag:") {
				delete(st.notes, k)
			}
		}
	}
	e.OnLeave = func(st *State, it *LoopIter, whole bool) {
		key := loopName(it.Loop, it.Ctx)
		if c, ok := cmps[key]; ok && !noCmp[key] && whole && e.walked(st, it.Loop, it.Ctx, c.list) {
			st.notes[fmt.Sprintf("tested:%d", c.key.id)] = "1"
			count("redaction tests")
		} else if ok && whole && e.walked(st, it.Loop, it.Ctx, c.list) {
			for phi, good := range flags[key] {
				if good && initiallyFalse(e, phi) {
					st.pin(phi)
					st.notes[fmt.Sprintf("flag:%d:%d", phi.id, c.key.id)] = "1"
					count("redaction tests")
				}
			}
		} else if ok { // left early: a match was found?
			for phi, good := range flags[key] {
				if good && initiallyFalse(e, phi) && e.isTrue(st, phi) {
					st.pin(phi)
					st.notes[fmt.Sprintf("flag:%d:%d", phi.id, c.key.id)] = "1"
				}
			}
		}
	}
	e.OnEvent = func(st *State, ev *Event) {
		covered[ev.Fn] = true
		if fill != nil && ev.Kind == "store" && ev.Site == ssa.Instruction(fill) {
			st.pin(ev.Args[1])
			st.notes["filled"] = fmt.Sprint(ev.Args[1].id)
		}
		if ev.Kind != "mapupdate" {
			return
		}
		if foreignHeader(ev.Args[0].origin()) {
			bad("changed", ev.Site, "a header is changed while it is recorded")
			return
		}
		ws, other := rawIn(ev.Args[2])
		if other {
			bad("other", ev.Site, "a header's value is recorded that has been looked up by name, without a redaction test")
		}
		for _, w := range ws {
			count("header values recorded")
			ok := e.containsFunc(st, w, isList, canon)
			if ok {
				count("redaction tests")
			}
			for _, t := range tested(st) {
				ok = ok || t.op == "nextk" && t.args[0] == w
			}
			if !ok {
				bad("redacted", ev.Site, "a header's value is recorded without a failed comparison of its name with the whole redaction list, regardless of case")
			}
		}
		// Does it replace what was recorded under that name?
		k := ev.Args[1].origin()
		m := ev.Args[0].origin()
		first := true
		if len(ws) > 0 || rangeOf(canon(k)) != nil {
			for key, fl := range flows {
				if fl[m] != nil && over[key] != rangeOf(canon(k)) && e.walked(st, loopAt[key].Loop, loopAt[key].Ctx, over[key]) {
					first = false
				}
			}
			if src := rangeOf(canon(k)); src != nil {
				if a := at(src); a != nil && a.op == "ia" { // one of several headers
					first = false
					if es, ok := sliceElems(e, st, a.args[0]); ok {
						elems[a.args[0]] = es
						for _, h := range es {
							st.pin(h)
						}
					}
				}
			}
			keeps := e.keepsOld(st, ev)
			if !keeps && (!first && len(ws) > 0 || canon(k) != k && len(ws) == 0 && !e.T.nonHeader(ev.Args[2])) {
				bad("replaced", ev.Site, "a header's value replaces what was recorded under the same name before")
			}
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			return
		}
		count("paths")
		var got *Term
		if fill == nil {
			got = x.Results[0].origin()
		} else if st.notes["filled"] == "" {
			return
		} else {
			got = e.T.all[atoi(st.notes["filled"])-1].origin()
		}
		// What reaches it, by walks over everything.
		reach := map[*Term]bool{got: true}
		for again := true; again; {
			again = false
			for key, fl := range flows {
				for m, f := range fl {
					if reach[m] && f.all && !reach[over[key]] && wholeWalk(st, key) {
						reach[over[key]] = true
						again = true
						a := at(over[key])
						if a == nil || a.op != "ia" {
							continue
						}
						if phi, ok := e.elemIndex(a.args[1]); ok && (e.walked(st, e.loopsOf(phi.site.Parent())[phi.site.Block()], phi.ctx, a.args[0])) {
							for _, h := range elems[a.args[0]] {
								reach[h] = true
							}
						}
					}
				}
			}
		}
		names := map[string]bool{}
		for t := range reach {
			if fill == nil && t.op == "param" {
				names[t.obj.(*ssa.Parameter).Name()] = true
				count("walks over headers")
			}
			if a := at(t); a != nil && a.op == "fa" && foreignHeader(t) {
				names[a.obj.(*types.Var).Name()] = true
				count("walks over headers")
			}
		}
		want := []string{"Header", "Trailer"}
		if fill == nil {
			want = nil
			for _, q := range fn.Params {
				if isHeader(q.Type()) {
					want = append(want, q.Name())
				}
			}
		}
		for _, n := range want {
			if !names[n] {
				bad("complete", x.Site, "not every %s is recorded (or redacted)", strings.ToLower(n))
			}
		}
	}
	for round := 0; round < 3; round++ {
		judging = round == 2
		e.visited = map[string]bool{}
		e.Run(fn, nil)
	}
	r.Use(e)
}

// initiallyFalse: a flag that is false when its loop is entered.
func initiallyFalse(e *Engine, phi *Term) bool {
	n := 0
	for v := range e.PhiIn[phi] {
		if b, ok := v.boolVal(); !ok || b {
			return false
		}
		n++
	}
	return n > 0
}

// wholeValue: the recorded value holds the whole value of the walk over src.
func wholeValue(e *Engine, v, src *Term, items []*TItem) bool {
	isVal := func(t *Term) bool { return t.op == "nextv" && rangeOf(t) == src }
	var whole func(t *Term) bool
	whole = func(t *Term) bool {
		t = t.origin()
		switch {
		case isVal(t):
			return true
		case t.op == "append" || t.op == "appendv":
			b, ps := e.appended(t)
			if isVal(b) {
				return true
			}
			for _, p := range ps {
				if p.slice != nil && whole(p.slice) {
					return true
				}
			}
		case t.op == "slice" && (t.args[1].isNil() || t.args[1] == e.T.Int(0)) && (t.args[2].isNil() || t.args[2] == e.T.Len(t.args[0])):
			return whole(t.args[0])
		case t.op == "call" && t.aux == "strings.Join":
			return whole(t.args[0])
		case t.op == "bin":
			return whole(t.args[0]) || whole(t.args[1])
		}
		return false
	}
	if whole(v) {
		return true
	}
	// through a call whose result term does not show its arguments
	for _, it := range items {
		if ev := it.Ev; ev != nil && ev.Kind == "call" && ev.Res != nil && v.has(ev.Res) && (ev.Name == "strings.Join" || ev.Name == "slices.Concat" || ev.Name == "slices.Clone") && len(ev.Args) > 0 && whole(ev.Args[0]) {
			return true
		}
	}
	return false
}

// keepsOld: the value written to a map contains the one it replaces, or there
// is none.
func (e *Engine) keepsOld(st *State, ev *Event) bool {
	m, k := ev.Args[0].origin(), ev.Args[1]
	if ev.Args[2].mentions(func(t *Term) bool { return t.op == "me" && t.args[0].origin() == m && t.args[1] == k }) {
		return true
	}
	for f, v := range st.facts {
		if !v && f.mentions(func(t *Term) bool {
			return (t.op == "mok" || t.op == "me") && t.args[0].origin() == m && t.args[1] == k
		}) {
			return true
		}
	}
	return false
}

// nonHeader: a value that no header contributes to.
func (t *Terms) nonHeader(v *Term) bool {
	return !v.mentions(func(x *Term) bool { return x.op == "nextv" || x.op == "call" })
}

// containsFunc: the path knows that slices.ContainsFunc(list, func) is false,
// with a function that compares a name without regard to case.
func (e *Engine) containsFunc(st *State, walk *Term, isList func(*Term) bool, canon func(*Term) *Term) bool {
	for _, it := range st.trace {
		ev := it.Ev
		if ev == nil || ev.Kind != "call" || len(ev.Args) != 2 || ev.Name != "slices.ContainsFunc" && ev.Name != "slices.IndexFunc" || !isList(ev.Args[0]) {
			continue
		}
		if ev.Name == "slices.ContainsFunc" && !e.isFalse(st, ev.Res) || ev.Name == "slices.IndexFunc" && !e.isTrue(st, e.less(ev.Res, e.T.Int(0))) {
			continue
		}
		f := ev.Args[1].origin()
		cf, ok := f.obj.(*ssa.Function)
		if f.op != "closure" || !ok || len(cf.Params) != 1 {
			continue
		}
		good, n := true, 0
		sub := NewEngine(e.P)
		sub.T = e.T
		sub.Keep = func(*State, *Event) bool { return true }
		sub.OnExit = func(s2 *State, x *Exit) {
			n++
			res := x.Results[0]
			hit := false
			for _, c := range callsOf(s2.trace, func(ev *Event) bool { return ev.Kind == "call" && ev.Name == "strings.EqualFold" && ev.Res == res }) {
				for i := 0; i < 2; i++ {
					k := canon(derefCell(e, st, c.Args[i]))
					hit = hit || k.op == "nextk" && k.args[0] == walk && c.Args[1-i] == sub.Param(cf, 0)
				}
			}
			good = good && x.Kind == "return" && hit
		}
		sub.Run2(cf, f.args)
		if good && n > 0 {
			return true
		}
	}
	return false
}

// derefCell reads a variable that a closure has captured.
func derefCell(e *Engine, st *State, t *Term) *Term {
	if a := at(t); a != nil && a.op == "alloc" {
		return e.peek(st, a, t.typ)
	}
	return t
}

// Run2 analyses a closure with its bindings and unknown arguments.
func (e *Engine) Run2(fn *ssa.Function, bindings []*Term) {
	args := make([]*Term, len(fn.Params))
	for i := range fn.Params {
		args[i] = e.Param(fn, i)
	}
	e.RunArgs(fn, args, bindings, nil)
}

// readsHeaders: code outside of the functions that record headers uses header
// values only for what it must.
func (r *R) readsHeaders(fn *ssa.Function) {
	flag := func(in ssa.Instruction, f string, args ...any) {
		r.Violate("read", fnLabel(fn), in.Pos(), f, args...)
	}
	spanKey := func(v ssa.Value) bool { return r.P.spanHeaderKey(fn, v, 0) }
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Lookup:
				if isHeader(x.X.Type()) && !spanKey(x.Index) {
					flag(in, "a header's value is read outside of the redaction")
				}
			case *ssa.Range:
				if isHeader(x.X.Type()) && !copiesHeader(x) {
					flag(in, "the values of a header are used outside of the redaction")
				}
			case ssa.CallInstruction:
				c := x.Common()
				name := ""
				if f := c.StaticCallee(); f != nil {
					name = fnName(f)
				}
				switch name {
				case "(net/http.Header).Get", "(net/http.Header).Values":
					r.Count("reads of single headers", 1)
					if !spanKey(c.Args[1]) {
						flag(in, "the value of a header other than the span headers is read outside of the redaction")
					}
				case "(net/http.Header).Write", "(net/http.Header).WriteSubset", "net/http/httputil.DumpRequest", "net/http/httputil.DumpRequestOut", "net/http/httputil.DumpResponse":
					flag(in, "the values of headers are written out without redaction")
				}
			case *ssa.MakeInterface:
				if isHeader(x.X.Type()) {
					flag(in, "a header is used as a value of any type, without redaction")
				}
			}
		}
	}
}

// spanHeaderKey: a constant name of a span header, also through a parameter.
func (p *Program) spanHeaderKey(fn *ssa.Function, v ssa.Value, depth int) bool {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		s := strings.Trim(c.Value.ExactString(), `"`)
		return strings.EqualFold(s, "Span-ID") || strings.EqualFold(s, "Parent-Span-ID")
	}
	q, ok := v.(*ssa.Parameter)
	if !ok || depth > 3 {
		return false
	}
	sites := 0
	for i, x := range fn.Params {
		if x != q {
			continue
		}
		for _, g := range p.srcFn {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() != fn {
						continue
					}
					sites++
					if !p.spanHeaderKey(g, c.Common().Args[i], depth+1) {
						return false
					}
				}
			}
		}
	}
	return sites > 0
}

// copiesHeader: the values of a walk over a header only go into a header.
func copiesHeader(x *ssa.Range) bool {
	var ok func(v ssa.Value, depth int) bool
	ok = func(v ssa.Value, depth int) bool {
		if v.Referrers() == nil || depth > 6 {
			return false
		}
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.MapUpdate:
				if !isHeader(u.Map.Type()) {
					return false
				}
			case *ssa.Call:
				b, is := u.Call.Value.(*ssa.Builtin)
				switch {
				case is && (b.Name() == "len" || b.Name() == "copy" || b.Name() == "cap"):
				case is && b.Name() == "append":
					if !ok(u, depth+1) {
						return false
					}
				default:
					return false
				}
			case *ssa.Slice, *ssa.Phi:
				if !ok(u.(ssa.Value), depth+1) {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	for _, u := range *x.Referrers() {
		n, is := u.(*ssa.Next)
		if !is {
			return false
		}
		for _, w := range *n.Referrers() {
			if ex, is := w.(*ssa.Extract); is && ex.Index == 2 && !ok(ex, 0) {
				return false
			}
		}
	}
	return true
}

// ---- C18: the tracing transport ----

func init() {
	register(&Check{
		ID: "C18",
		Rule: "effects and value flow over every path of Transport.RoundTrip, including a panic of the underlying transport: exactly one call of the configured or default transport, with a request made on this path that starts as a copy of the caller's and differs only in a header map of its own, which holds all of the caller's headers and the span header; no store, map change or append reaches memory of the caller's request; " +
			"its results are returned as they are; after it one client event with its outcome and the times around it is recorded on a recorder of its own, which is finished after that; the entry for the request is removed again; CancelRequest cancels the copy that was sent",
		NotCover: "what the underlying transport does with the copy (it shares the body, as it must); the recorder's own guarantees (C20) and the span's lineage (C16)",
		Run:      runC18,
	})
}

func runC18(r *R) {
	p := r.P
	n := p.Named(httpRel, "Transport")
	fn := p.Method(httpRel, "Transport", "RoundTrip")
	rec := p.Named("", "Recorder")
	if !r.Require(n != nil && fn != nil && len(fn.Params) == 2 && rec != nil, "anchor", "httptrace.Transport.RoundTrip") {
		return
	}
	h := &httpRules{r: r, p: p, rec: rec}
	h.roundTrip(n, fn)
	h.cancel(n)
	h.sharedMemory()
	r.Floor("round trips", 2)
	r.Floor("recorded outcomes", 2)
	r.Floor("removed entries", 2)
	r.Floor("header copies", 1)
	r.Floor("cancellations", 1)
}

type httpRules struct {
	r   *R
	p   *Program
	rec *types.Named
}

// recCall is a call of a method of Recorder.
func (h *httpRules) recCall(ev *Event, names ...string) bool {
	if ev.Kind != "call" {
		return false
	}
	for _, n := range names {
		if ev.Name == "(*"+modPath+".Recorder)."+n {
			return true
		}
	}
	return false
}

// opaque keeps the recorder, ID generation and the filling of event headers
// out of the analysis of what uses them.
func (h *httpRules) opaque(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	if f.Pkg.Pkg.Path() == modPath {
		return true
	}
	return len(headerFills(f)) > 0 && f.Signature.Recv() == nil || isRedactor(f)
}

func isSpanKey(t *Term) bool {
	s, ok := t.strVal()
	return ok && strings.EqualFold(s, "Span-ID")
}

// transportOf: the transport that is configured, or the default one.
func (h *httpRules) transportOf(e *Engine, st *State, t, recv *Term, n *types.Named, f int) bool {
	t = t.origin()
	own := e.faddr(recv, n, f)
	if at(t) == own {
		return e.notNil(st, t)
	}
	if g := at(t); g != nil && g.op == "global" && strings.HasSuffix(g.aux, "net/http.DefaultTransport") {
		for x, v := range st.facts {
			if v && x.op == "eq" && (at(x.args[0]) == own && x.args[1].isNil() || at(x.args[1]) == own && x.args[0].isNil()) {
				return true
			}
		}
		return st.notes["default"] != ""
	}
	return false
}

func (h *httpRules) transportField(n *types.Named) int {
	fs := fieldsOf(n, func(v *types.Var) bool { return typeIs(v.Type(), "net/http.RoundTripper") })
	if len(fs) != 1 {
		return -1
	}
	return fs[0]
}

func (h *httpRules) roundTrip(n *types.Named, fn *ssa.Function) {
	r := h.r
	tf := h.transportField(n)
	if !r.Require(tf >= 0, "anchor", "Transport's field for the underlying transport") {
		return
	}
	e := NewEngine(h.p)
	e.Loops = true
	e.Opaque = h.opaque
	recv, orig := e.Param(fn, 0), e.Param(fn, 1)
	isTrip := func(ev *Event) bool {
		return ev.Kind == "call" && ev.Iface && strings.HasSuffix(ev.Name, ").RoundTrip")
	}
	e.MayPanic = isTrip
	e.Keep = func(st *State, ev *Event) bool {
		return ev.Kind != "load" && ev.Kind != "enter" && ev.Kind != "mapread"
	}
	reqType := derefType(fn.Params[1].Type()).(*types.Named)
	hdrField := fieldNamed(reqType, "Header")
	isReqMap := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && types.Identical(m.Key(), fn.Params[1].Type()) && types.Identical(m.Elem(), fn.Params[1].Type())
	}
	judging := false
	bad := func(rule string, in ssa.Instruction, f string, args ...any) {
		if judging {
			r.Violate(rule, fnLabel(in.Parent()), in.Pos(), f, args...)
		}
	}
	count := func(what string) {
		if judging {
			r.Count(what, 1)
		}
	}
	// copyOf: how the request is copied: which value is stored to it whole.
	wholeCopy := func(st *State, v *Term) bool {
		for i := 0; i < reqType.Underlying().(*types.Struct).NumFields(); i++ {
			f := e.fieldOf(v, reqType, i)
			if at(f) != e.faddr(orig, reqType, i) && !(i == hdrField) {
				return false
			}
		}
		return true
	}
	e.OnIter = func(st *State, it *LoopIter) {
		for _, x := range it.Items {
			ev := x.Ev
			if ev == nil || ev.Kind != "mapupdate" {
				continue
			}
			src := rangeOf(ev.Args[1].origin())
			if src == nil || at(src) != e.faddr(orig, reqType, hdrField) {
				continue
			}
			m := ev.Args[0].origin()
			st.pin(m)
			full := wholeValue(e, ev.Args[2], src, it.Items) && ev.Args[1].origin().op == "nextk"
			if !full {
				bad("headers", ev.Site, "a header is not copied to the request that is sent as it is (%s)", ev.Args[2])
			}
			st.notes[fmt.Sprintf("in:%s:%d", loopName(it.Loop, it.Ctx), m.id)] = "1"
		}
		// each iteration must copy
		for f, v := range st.facts {
			if f.op == "nextok" && v && e.loopsOf(f.site.Parent())[f.site.Block()] == it.Loop && rangeOf(f) != nil && at(rangeOf(f)) == e.faddr(orig, reqType, hdrField) {
				hit := false
				for _, x := range it.Items {
					hit = hit || x.Ev != nil && x.Ev.Kind == "mapupdate" && rangeOf(x.Ev.Args[1].origin()) == rangeOf(f)
				}
				if !hit {
					bad("headers", it.Site, "not all headers are copied to the request that is sent")
				}
			}
		}
	}
	filledBy := map[*Term]map[string]bool{}
	e.OnEvent = func(st *State, ev *Event) {
		switch ev.Kind {
		case "mapupdate":
			m := ev.Args[0].origin()
			src := rangeOf(ev.Args[1].origin())
			if foreignHeader(m) && m.has(orig) || at(m) == e.faddr(orig, reqType, hdrField) {
				bad("caller", ev.Site, "the caller's headers are changed")
			}
			if src != nil && at(src) == e.faddr(orig, reqType, hdrField) {
				if filledBy[m] == nil {
					filledBy[m] = map[string]bool{}
				}
				filledBy[m][fmt.Sprint(src.id)] = true
			} else if isHeader(m.typ) && !isSpanKey(ev.Args[1]) {
				bad("unmodified", ev.Site, "the request that is sent gets a header other than the caller's and the span header")
			}
		case "store":
			a := ev.Args[0]
			root := rootAddr(a)
			switch {
			case root == orig, at(root) != nil && root.has(orig):
				bad("caller", ev.Site, "the caller's request is changed (%s)", a)
			case at(root) != nil && root.typ != nil && reachesRequest(root, fn.Params[1].Type()):
				bad("caller", ev.Site, "what the copied request shares with the caller's is changed (%s)", a)
			}
			if root.op == "alloc" && types.Identical(deref(root.typ), reqType) || root.op == "call" && typeIs(root.typ, "*net/http.Request") {
				key := fmt.Sprintf("%d", root.id)
				switch {
				case a == root:
					if !wholeCopy(st, ev.Args[1]) {
						bad("copy", ev.Site, "the request that is sent is not a copy of the caller's")
					}
					st.notes["copy:"+key] = "shallow"
				case isFieldOf(a, reqType, hdrField):
					v := ev.Args[1].origin()
					st.pin(v)
					how := st.notes["copy:"+key]
					if e.isNil(st, e.peek(st, a, deref(a.typ))) && (!strings.HasPrefix(how, "header:") || e.T.all[atoi(how[len("header:"):])-1].op == "call") {
						st.notes["none:"+key] = "1" // there was nothing to copy
					}
					st.notes["copy:"+key] = fmt.Sprintf("header:%d", v.id)
				default:
					bad("copy", ev.Site, "the request that is sent differs from the caller's in more than its headers (%s)", a)
				}
			}
		case "call":
			switch {
			case h.recCall(ev, "Event"):
				st.notes["outcome"] = h.outcomeOf(e, st, ev, isTrip, orig)
			case strings.HasPrefix(ev.Name, "(net/http.Header).") && (strings.HasSuffix(ev.Name, ".Set") || strings.HasSuffix(ev.Name, ".Add") || strings.HasSuffix(ev.Name, ".Del")):
				m := ev.Args[0].origin()
				switch {
				case at(m) == e.faddr(orig, reqType, hdrField):
					bad("caller", ev.Site, "the caller's headers are changed")
				case !isSpanKey(ev.Args[1]):
					bad("unmodified", ev.Site, "the request that is sent gets a header other than the caller's and the span header")
				case strings.HasSuffix(ev.Name, ".Set"):
					if a := at(m); a != nil && isFieldOf(a, reqType, hdrField) {
						st.notes[fmt.Sprintf("span:%d", a.args[0].id)] = "1"
					} else {
						st.notes[fmt.Sprintf("spanmap:%d", m.id)] = "1"
					}
				}
			case isTrip(ev):
				count("round trips")
				if st.notes["trip"] != "" {
					bad("once", ev.Site, "the request may be sent more than once")
				}
				st.notes["trip"] = "1"
				for i := 0; i < 2; i++ {
					st.pin(e.ResultTerm(ev, i))
				}
				if !h.transportOf(e, st, ev.Args[0], recv, n, tf) {
					bad("transport", ev.Site, "the request is not sent with the configured transport, or the default one if there is none (%s)", ev.Args[0])
				}
				req := ev.Args[1].origin()
				st.pin(req)
				st.notes["req"] = fmt.Sprint(req.id)
				how := st.notes[fmt.Sprintf("copy:%d", req.id)]
				m := (*Term)(nil)
				switch {
				case req == orig:
					bad("copy", ev.Site, "the caller's own request is sent")
				case req.op == "call" && req.aux == "(*net/http.Request).Clone" && how == "":
					count("header copies")
				case strings.HasPrefix(how, "header:"):
					m = e.T.all[atoi(how[len("header:"):])-1]
				default:
					bad("copy", ev.Site, "the request that is sent shares its headers with the caller's request, or is not a copy of it (%s)", req)
				}
				if m != nil {
					switch {
					case m.op == "call" && m.aux == "(net/http.Header).Clone":
						count("header copies")
					case m.op == "mk":
						ok := st.notes[fmt.Sprintf("none:%d", req.id)] != ""
						for id := range filledBy[m] {
							src := e.T.all[atoi(id)-1]
							for k := range st.notes {
								ok = ok || strings.HasPrefix(k, "loop:") && containsStr(strings.Fields(st.notes[k]), "m"+fmt.Sprint(src.id))
							}
						}
						if !ok {
							bad("headers", ev.Site, "the request is sent without (all of) the caller's headers")
						}
						count("header copies")
					default:
						bad("headers", ev.Site, "the headers of the request that is sent are not a copy made for it (%s)", m)
					}
				}
				if st.notes[fmt.Sprintf("span:%d", req.id)] == "" && (m == nil || st.notes[fmt.Sprintf("spanmap:%d", m.id)] == "") {
					bad("span", ev.Site, "the request is sent without the span header")
				}
			}
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		count("paths")
		var trip *Event
		pos := map[*Event]int{}
		var evs []*Event
		for i, it := range st.trace {
			if it.Ev != nil {
				evs = append(evs, it.Ev)
				pos[it.Ev] = i
				if isTrip(it.Ev) {
					trip = it.Ev
				}
			}
		}
		// the table of requests
		entry, when := "", 0
		for _, ev := range evs {
			switch {
			case ev.Kind == "mapupdate" && isReqMap(ev.Args[0].typ) && ev.Args[1].origin() == orig:
				entry, when = "there", pos[ev]
				if st.notes["req"] != "" && fmt.Sprint(ev.Args[2].origin().id) != st.notes["req"] {
					bad("table", ev.Site, "what is kept for cancelling is not the request that is sent")
				}
				if trip != nil && pos[trip] < pos[ev] {
					bad("table", ev.Site, "the request is registered for cancelling after it was sent")
				}
			case ev.Kind == "mapupdate" && isReqMap(ev.Args[0].typ):
				bad("table", ev.Site, "what is kept for cancelling is kept under another request than the caller's: it is not found, and stays behind")
			case ev.Kind == "builtin" && strings.HasSuffix(ev.Name, "delete") && isReqMap(ev.Args[0].typ) && ev.Args[1].origin() == orig:
				entry, when = "gone", pos[ev]
			}
		}
		if entry == "there" || entry == "gone" && trip != nil && when < pos[trip] {
			bad("table", x.Site, "the entry for the request may not stay until it is finished, and be removed then")
		} else if entry == "gone" {
			count("removed entries")
		}
		if trip == nil {
			if x.Kind == "return" {
				bad("once", x.Site, "the request may not be sent at all")
			}
			return
		}
		if entry == "" {
			bad("table", x.Site, "a request is sent that cannot be cancelled")
		}
		if x.Kind != "return" {
			return
		}
		resp, err := e.ResultTerm(trip, 0), e.ResultTerm(trip, 1)
		if len(x.Results) != 2 || x.Results[0].origin() != resp || x.Results[1].origin() != err {
			bad("results", x.Site, "the underlying transport's response and error are not returned as they are")
		}
		h.outcome(e, st, x, evs, pos, trip, bad, count)
	}
	for round := 0; round < 3; round++ {
		judging = round == 2
		e.visited = map[string]bool{}
		e.Run(fn, nil)
	}
	r.Use(e)
}

// reachesRequest: memory behind a pointer that was read from a request.
func reachesRequest(t *Term, ptr types.Type) bool {
	ok := false
	t.mentions(func(x *Term) bool {
		if x.op == "fa" && x.args[0].typ != nil && types.Identical(x.args[0].typ, ptr) {
			ok = true
		}
		return false
	})
	return ok
}

// outcome: the event recorded for a finished round trip.
func (h *httpRules) outcome(e *Engine, st *State, x *Exit, evs []*Event, pos map[*Event]int, trip *Event, bad func(string, ssa.Instruction, string, ...any), count func(string)) {
	var events, finishes []*Event
	for _, ev := range evs {
		switch {
		case h.recCall(ev, "Event"):
			events = append(events, ev)
		case h.recCall(ev, "Finish"):
			finishes = append(finishes, ev)
		}
	}
	if len(events) != 1 || len(finishes) != 1 {
		bad("recorded", x.Site, "%d client events are recorded and %d recorders finished for a request", len(events), len(finishes))
		return
	}
	ev, fin := events[0], finishes[0]
	if ev.Args[0] != fin.Args[0] || pos[fin] < pos[ev] || pos[ev] < pos[trip] {
		bad("recorded", ev.Site, "the client event is not recorded after the request and before its recorder is finished")
	}
	if rc := ev.Args[0].origin(); !(rc.op == "call" && (strings.HasSuffix(rc.aux, ".Recorder).Child") || strings.HasSuffix(rc.aux, ".NewRecorder"))) {
		bad("recorded", ev.Site, "the client event is not recorded on a recorder of its own (%s)", rc)
	}
	if ev.Args[1].op != "mkiface" || !strings.Contains(ev.Args[1].aux, "ClientEvent") {
		bad("recorded", ev.Site, "what is recorded is not a client event (%s)", ev.Args[1])
		return
	}
	count("recorded outcomes")
	if st.notes["outcome"] != "" {
		bad("outcome", ev.Site, "%s", st.notes["outcome"])
	}
}

// outcomeOf: what is wrong with a client event that is being recorded.
func (h *httpRules) outcomeOf(e *Engine, st *State, ev *Event, isTrip func(*Event) bool, orig *Term) string {
	ce := h.p.Named(httpRel, "ClientEvent")
	ri := h.p.Named(httpRel, "ResponseInfo")
	if ce == nil || ri == nil {
		return "its type is not known"
	}
	var trip *Event
	pos := map[*Term]int{} // results of calls
	args := map[*Term][]*Term{}
	at0 := 0
	for i, it := range st.trace {
		if it.Ev == nil || it.Ev.Kind != "call" {
			continue
		}
		if it.Ev.Res != nil {
			pos[it.Ev.Res] = i
			args[it.Ev.Res] = it.Ev.Args
		}
		if isTrip(it.Ev) {
			trip, at0 = it.Ev, i
		}
	}
	if trip == nil {
		return "a client event is recorded before the request is sent"
	}
	v := ev.Args[1].origin()
	field := func(name string) *Term {
		i := fieldNamed(ce, name)
		if i < 0 {
			return nil
		}
		if _, ok := v.typ.Underlying().(*types.Pointer); ok {
			return e.fval(st, v, ce, i)
		}
		return e.fieldOf(v, ce, i)
	}
	now := func(t *Term) (int, bool) {
		if t == nil || t.op != "call" || t.aux != "time.Now" {
			return 0, false
		}
		i, ok := pos[t]
		return i, ok
	}
	if i, ok := now(field("ClientSend")); !ok || i > at0 {
		return fmt.Sprintf("the time of sending is not taken before the request is sent (%s %s)", field("ClientSend"), field("ClientSend").op)
	}
	if i, ok := now(field("ClientRecv")); !ok || i < at0 {
		return "the time of receiving is not taken after the request was sent"
	}
	about := func(t *Term, x *Term) bool { // filled from the request or response
		if t == nil {
			return false
		}
		if t.op == "call" {
			for _, a := range args[t] {
				if a.origin() == x {
					return true
				}
			}
			return false
		}
		return t.has(x)
	}
	req := field("Request")
	if !about(req, trip.Args[1].origin()) && !about(req, orig) {
		return fmt.Sprintf("the recorded event does not describe the request (%s)", req)
	}
	resp, err := e.ResultTerm(trip, 0), e.ResultTerm(trip, 1)
	got := field("Response")
	code := e.fieldOf(got, ri, fieldNamed(ri, "StatusCode"))
	if got.op == "load" { // memory
		code = e.peek(st, e.fieldAddr(at(got), types.NewPointer(ri), fieldNamed(ri, "StatusCode")), types.Typ[types.Int])
	}
	switch {
	case e.isNil(st, err):
		if got.op == "call" {
			if !about(got, resp) {
				return "the recorded response is not the one that was received"
			}
		} else if b, p := fieldPath(code); b != resp || strings.Join(p, ".") != "StatusCode" {
			return fmt.Sprintf("the recorded status is not that of the response (%s)", code)
		}
	case e.notNil(st, err):
		if i, ok := code.intVal(); !ok || i >= 0 {
			return fmt.Sprintf("a failed request is not recorded as failed (%s)", code)
		}
	default:
		return "the outcome is recorded without looking at the error"
	}
	return ""
}

// cancel: CancelRequest cancels the request that was sent for the caller's.
func (h *httpRules) cancel(n *types.Named) {
	r := h.r
	fn := h.p.Method(httpRel, "Transport", "CancelRequest")
	tf := h.transportField(n)
	if !r.Require(fn != nil && len(fn.Params) == 2, "anchor", "httptrace.Transport.CancelRequest") {
		return
	}
	e := NewEngine(h.p)
	e.Loops = true
	e.Opaque = h.opaque
	recv, req := e.Param(fn, 0), e.Param(fn, 1)
	isCancel := func(ev *Event) bool {
		return ev.Kind == "call" && ev.Iface && strings.HasSuffix(ev.Name, ").CancelRequest")
	}
	e.Keep = func(st *State, ev *Event) bool { return isCancel(ev) }
	entry := func(t *Term) bool { // the table's value for the caller's request
		a := at(t)
		return a != nil && a.op == "me" && a.args[1].origin() == req && a.args[0].has(recv)
	}
	e.OnEvent = func(st *State, ev *Event) {
		if !isCancel(ev) {
			return
		}
		r.Count("cancellations", 1)
		at := func(f string, args ...any) { r.Violate("cancel", fnLabel(ev.Fn), ev.Site.Pos(), f, args...) }
		if !entry(ev.Args[1].origin()) {
			at("the request that is cancelled is not the copy that was sent for the caller's (%s)", ev.Args[1])
		}
		if t := ev.Args[0].origin(); !t.mentions(func(x *Term) bool { return h.transportOf(e, st, x, recv, n, tf) }) {
			at("the request is cancelled with another transport than the one that sent it (%s)", t)
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" || len(callsOf(st.trace, isCancel)) > 0 {
			return
		}
		// known to be in the table, with a transport that can cancel?
		in, can := false, false
		for f, v := range st.facts {
			if !v {
				continue
			}
			if a := at(f); a != nil && a.op == "mok" && a.args[1].origin() == req {
				in = true
			}
			if f.op == "istype" || f.op == "extract" {
				can = true
			}
		}
		if in && can {
			r.Violate("cancel", fnLabel(fn), x.Site.Pos(), "a request in flight is not cancelled although its transport can do that")
		}
	}
	e.Run(fn, nil)
	r.Use(e)
}

// sharedMemory: no code of the package appends to or writes into the value
// lists of a header that it was given.
func (h *httpRules) sharedMemory() {
	r := h.r
	// What may write to the lists of a header: functions that handle lists of
	// strings, or maps of them.
	writes := newRelevance(h.p, func(in ssa.Instruction) bool {
		lists := func(t types.Type) bool {
			if m, ok := t.Underlying().(*types.Map); ok {
				t = m.Elem()
			}
			s, ok := t.Underlying().(*types.Slice)
			return ok && isString(s.Elem())
		}
		switch in := in.(type) {
		case *ssa.MapUpdate:
			return lists(in.Map.Type()) || lists(in.Value.Type())
		case *ssa.Store:
			ia, ok := in.Addr.(*ssa.IndexAddr)
			return ok && lists(ia.X.Type())
		case *ssa.Call:
			b, ok := in.Call.Value.(*ssa.Builtin)
			return ok && (b.Name() == "append" || b.Name() == "copy" || b.Name() == "delete" || b.Name() == "clear") && lists(in.Call.Args[0].Type())
		}
		return false
	})
	for _, fn := range h.p.srcFn {
		if fn.Pkg == nil || fn.Pkg != h.p.SSA[httpRel] || !isRedactor(fn) && (fn.Signature.Recv() != nil || len(headerFills(fn)) == 0) {
			continue
		}
		handedOn := !isRedactor(fn) && !writes.self[fn]
		for _, f := range headerFills(fn) {
			handedOn = handedOn && redactorCall(f.Val) != nil
		}
		if handedOn { // the function that it hands the headers to is analysed
			continue
		}
		e := NewEngine(h.p)
		e.Loops = true
		e.Opaque = func(f *ssa.Function) bool { return !writes.has(f) }
		e.Keep = func(st *State, ev *Event) bool { return false }
		judging := false
		holds := map[*Term]bool{} // local maps with value lists of others
		raw := func(t *Term) bool {
			b, _ := e.appended(t)
			for b.op == "slice" {
				b = b.args[0]
			}
			if b.op == "nextv" && rangeOf(b) != nil {
				return foreignHeader(rangeOf(b)) || holds[rangeOf(b)]
			}
			if a := at(b); a != nil && a.op == "me" {
				return foreignHeader(a.args[0]) || holds[a.args[0].origin()]
			}
			return false
		}
		limited := func(t *Term) bool { // appending to it copies it
			return t.op == "slice" && !t.args[3].isNil() && t.args[3] == t.args[2]
		}
		e.OnEvent = func(st *State, ev *Event) {
			at := func(f string, args ...any) {
				if judging {
					r.Violate("memory", fnLabel(ev.Fn), ev.Site.Pos(), f, args...)
				}
			}
			switch {
			case ev.Kind == "mapupdate":
				v := ev.Args[2]
				if _, ok := v.typ.Underlying().(*types.Slice); ok && raw(v) && !limited(v) {
					holds[ev.Args[0].origin()] = true
				}
				if foreignHeader(ev.Args[0].origin()) {
					at("a header of the caller's request or response is changed")
				}
			case ev.Kind == "builtin" && strings.HasSuffix(ev.Name, "append"):
				if raw(ev.Args[0]) && !limited(ev.Args[0]) {
					at("appending may write into the memory of a header of the caller's (%s)", ev.Args[0])
				}
			case ev.Kind == "builtin" && strings.HasSuffix(ev.Name, "copy"):
				if raw(ev.Args[0]) {
					at("the values of a header of the caller's are overwritten")
				}
			case ev.Kind == "store":
				if a := ev.Args[0]; a.op == "ia" && raw(a.args[0]) {
					at("a value of a header of the caller's is overwritten")
				}
			}
		}
		for round := 0; round < 3; round++ {
			judging = round == 2
			e.visited = map[string]bool{}
			e.Run(fn, nil)
		}
		r.Count("functions that read headers to record them", 1)
		r.Use(e)
	}
}
