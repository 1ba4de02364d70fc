package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C12: ownership of spans ----

func init() {
	register(&Check{
		ID: "C12",
		Rule: "ownership: in every Collect of the package, no value stored in memory that outlives the call, sent, or captured by a goroutine shares the backing array of the caller's annotation list (append to a nil or zero-capacity base, and copies, are new); " +
			"every tree that an exported method of the memory store returns consists of objects made in that call: each returned node is allocated here, its lists of annotations and children have new backing arrays whose elements are new themselves, recursive helpers being verified in turn, and none of them is put into the store",
		NotCover: "the bytes of annotation values, which are shared and regarded as immutable; stores outside the package",
		Run:      runC12,
	})
}

// collects lists the Collect methods of the root package that take annotations.
func collects(p *Program) []*ssa.Function {
	var out []*ssa.Function
	pk := p.Pkgs[""]
	if pk == nil {
		return nil
	}
	sc := pk.Types.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		for _, fn := range p.methodsOf(n) {
			sig := fn.Signature
			if fn.Name() == "Collect" && sig.Variadic() && isAnnotations(sig.Params().At(sig.Params().Len()-1).Type()) {
				out = append(out, fn)
			}
		}
	}
	return out
}

func isAnnotations(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), "", "Annotation")
}

func isTrace(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(p.Elem(), "", "Trace")
}

func isTraces(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isTrace(s.Elem())
}

// shares reports a slice value that (partly) has the backing array of param.
func (e *Engine) shares(st *State, v, param *Term, depth int) bool {
	if depth > 8 {
		return false
	}
	switch v.op {
	case "mkiface", "conv", "tassert", "append", "appendv":
		return len(v.args) > 0 && e.shares(st, v.args[0], param, depth+1)
	case "slice":
		if len(v.args) > 3 {
			if n, ok := v.args[3].intVal(); ok && n == 0 {
				return false
			}
		}
		return e.shares(st, v.args[0], param, depth+1)
	case "struct", "array", "tuple", "closure":
		for _, a := range v.args {
			if e.shares(st, a, param, depth+1) {
				return true
			}
		}
	case "alloc":
		if v.typ == nil {
			return false
		}
		el := deref(v.typ)
		switch u := el.Underlying().(type) {
		case *types.Struct, *types.Slice:
			return e.shares(st, e.peek(st, v, el), param, depth+1)
		case *types.Array:
			if u.Len() <= 16 {
				return e.shares(st, e.peek(st, v, el), param, depth+1)
			}
		}
	case "loopphi":
		for in := range e.PhiIn[v] {
			if in != v && e.shares(st, in, param, depth+1) {
				return true
			}
		}
		for in := range e.PhiBk[v] {
			if in != v && e.shares(st, in, param, depth+3) {
				return true
			}
		}
	}
	return v == param
}

func runC12(r *R) {
	ms := r.P.Named("", "MemoryStore")
	if !r.Require(ms != nil, "anchor", "appdash.MemoryStore") {
		return
	}
	cs := collects(r.P)
	if !r.Require(len(cs) >= 3, "anchor", "methods Collect(SpanID, ...Annotation)") {
		return
	}
	for _, fn := range cs {
		copyIn(r, fn)
	}
	r.Floor("stored values", 8)

	fr := &freshness{r: r, done: map[*ssa.Function]bool{}}
	for _, fn := range r.P.methodsOf(ms) {
		if fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if isTrace(res.At(i).Type()) || isTraces(res.At(i).Type()) {
				r.Count("methods that hand out traces", 1)
				fr.todo = append(fr.todo, fn)
				break
			}
		}
	}
	for len(fr.todo) > 0 {
		fn := fr.todo[0]
		fr.todo = fr.todo[1:]
		if !fr.done[fn] {
			fr.done[fn] = true
			fr.verify(fn)
		}
	}
	r.Floor("methods that hand out traces", 2)
	r.Floor("returned nodes", 1)
}

func copyIn(r *R, fn *ssa.Function) {
	e := NewEngine(r.P)
	e.Loops = true
	r.Count("Collect methods", 1)
	anns := e.Param(fn, len(fn.Params)-1)
	bad := func(ev *Event, how string) {
		r.Violate("shares-argument", fnLabel(fn)+":"+fnLabel(ev.Fn), ev.Site.Pos(), "%s shares the backing array of the caller's annotations: when the caller reuses its slice, what was collected changes", how)
	}
	e.OnEvent = func(st *State, ev *Event) {
		switch ev.Kind {
		case "store", "mapupdate", "send":
			v := ev.Args[len(ev.Args)-1]
			if root := e.root(st, ev.Args[0]); e.owned(st, root) && st.pub[root] == nil && !e.isStable(root) {
				return
			}
			r.Count("stored values", 1)
			if e.shares(st, v, anns, 0) {
				bad(ev, "a value that is kept")
			}
		case "go":
			for _, a := range ev.Args {
				if e.shares(st, a, anns, 0) {
					bad(ev, "the goroutine's data")
				}
			}
		}
	}
	e.Run(fn, nil)
	r.Use(e)
}

// freshness decides that what a function returns was made by it.
type freshness struct {
	r    *R
	todo []*ssa.Function
	done map[*ssa.Function]bool

	e     *Engine
	fn    *ssa.Function
	elems map[*Term][]string // made lists -> why an element stored into them is not new
	kept  map[*Term]bool     // nodes that were put into memory which outlives the call
}

func (f *freshness) verify(fn *ssa.Function) {
	r := f.r
	e := NewEngine(r.P)
	e.Loops = true
	f.e, f.fn, f.elems, f.kept = e, fn, map[*Term][]string{}, map[*Term]bool{}
	r.Count("verified functions", 1)
	type result struct {
		t    *Term
		site ssa.Instruction
	}
	var results []result
	e.OnEvent = func(st *State, ev *Event) {
		switch ev.Kind {
		case "store", "mapupdate":
			v := ev.Args[len(ev.Args)-1]
			a := ev.Args[0]
			root := e.root(st, a)
			if b := rawBase(a); b.op == "alloc" && st.notes[judged(b)] != "" {
				if why := f.why(st, v, nil); why != "" {
					f.elems[b] = append(f.elems[b], why)
				}
			}
			if ev.Kind == "store" && a.op == "ia" && (a.args[0].op == "mk" || a.args[0].op == "alloc") {
				if why := f.why(st, v, nil); why != "" {
					f.elems[a.args[0]] = append(f.elems[a.args[0]], why)
				}
			}
			if root.op == "alloc" || root.op == "mk" || root.op == "append" || root.op == "appendv" {
				return
			}
			if v = v.origin(); v.op == "alloc" {
				f.kept[v] = true
			}
		case "builtin":
			if ev.Name == "append" && ev.Res != nil && ev.Res.typ != nil && isTraces(ev.Res.typ) {
				f.appended(st, ev.Res)
			}
			if ev.Name == "copy" && len(ev.Args) == 2 && ev.Args[0].typ != nil && isTraces(ev.Args[0].typ) {
				if why := f.why(st, ev.Args[1], nil); why != "" {
					b := ev.Args[0]
					for b.op == "slice" {
						b = b.args[0]
					}
					f.elems[b] = append(f.elems[b], why)
				}
			}
		}
	}
	e.OnIter = func(st *State, it *LoopIter) {
		for k := range st.notes {
			if strings.HasPrefix(k, "judged") {
				delete(st.notes, k)
			}
		}
	}
	e.OnExit = func(st *State, ex *Exit) {
		if ex.Kind != "return" {
			return
		}
		for i, t := range ex.Results {
			if i >= fn.Signature.Results().Len() {
				continue
			}
			rt := fn.Signature.Results().At(i).Type()
			if !isTrace(rt) && !isTraces(rt) && !isAnnotations(rt) {
				continue
			}
			r.Count("returned values", 1)
			results = append(results, result{t, ex.Site})
			if why := f.why(st, t, nil); why != "" {
				r.Violate("hands-out", fnLabel(fn), ex.Site.Pos(), "what is returned is not the caller's own: %s", why)
			}
		}
	}
	e.Run(fn, nil)
	for _, res := range results {
		if x := res.t.mentionsWhich(func(x *Term) bool { return f.kept[x] }); x != nil {
			r.Violate("hands-out", fnLabel(fn), res.site.Pos(), "what is returned has also been put into the store")
		}
	}
	r.Use(e)
}

// appended judges what is appended to a list of nodes, when it is.
func (f *freshness) appended(st *State, t *Term) {
	if _, ok := f.elems[t]; !ok {
		f.elems[t] = nil
	}
	for _, a := range t.args[1:] {
		if why := f.why(st, a, nil); why != "" {
			f.elems[t] = append(f.elems[t], why)
		}
		if a = a.origin(); a.op == "alloc" {
			st.notes[judged(a)] = "1"
		}
	}
}

func judged(t *Term) string { return fmt.Sprintf("judged:%d", t.id) }

func (t *Term) mentionsWhich(pred func(*Term) bool) (r *Term) {
	t.mentions(func(x *Term) bool {
		if r == nil && pred(x) {
			r = x
		}
		return r != nil
	})
	return r
}

// why says why v is not made by this call; "" if it is.
func (f *freshness) why(st *State, v *Term, seen map[*Term]bool) string {
	e := f.e
	if seen == nil {
		seen = map[*Term]bool{}
	}
	if seen[v] || v.isNil() || e.isNil(st, v) {
		return ""
	}
	seen[v] = true
	if v.typ != nil && !holdsRefs(v.typ) {
		return ""
	}
	switch v.op {
	case "const":
		return ""
	case "mkiface", "conv", "tassert":
		return f.why(st, v.args[0], seen)
	case "struct", "array":
		for _, a := range v.args {
			if w := f.why(st, a, seen); w != "" {
				return w
			}
		}
		return ""
	case "alloc":
		el := deref(v.typ)
		if isNamed(el, "", "Trace") {
			f.r.Count("returned nodes", 1)
		}
		if a, ok := el.Underlying().(*types.Array); ok && a.Len() > 16 {
			return firstOf(f.elems[v])
		}
		if w := firstOf(f.elems[v]); w != "" {
			return w
		}
		return f.why(st, e.peek(st, v, el), seen)
	case "mk":
		return firstOf(f.elems[v])
	case "slice":
		if len(v.args) > 3 {
			if n, ok := v.args[3].intVal(); ok && n == 0 {
				return ""
			}
		}
		return f.why(st, v.args[0], seen)
	case "append", "appendv":
		if whys, ok := f.elems[v]; ok {
			if w := firstOf(whys); w != "" {
				return w
			}
			return f.why(st, v.args[0], seen)
		}
		if v.op == "appendv" {
			if w := f.why(st, v.args[0], seen); w != "" {
				return w
			}
			if isAnnotations(v.typ) {
				return ""
			}
			return f.why(st, v.args[1], seen)
		}
		for _, a := range v.args {
			if w := f.why(st, a, seen); w != "" {
				return w
			}
		}
		return ""
	case "loopphi":
		for _, m := range []map[*Term]bool{e.PhiIn[v], e.PhiBk[v]} {
			for x := range m {
				if w := f.why(st, x, seen); w != "" {
					return w
				}
			}
		}
		return ""
	case "loopmem":
		if len(e.MemIn[v]) == 0 {
			return "a list read from memory"
		}
		for x := range e.MemIn[v] {
			if w := f.why(st, x, seen); w != "" {
				return w
			}
		}
		return ""
	case "extract":
		return f.why(st, v.args[0], seen)
	case "call":
		if fn, ok := v.obj.(*ssa.Function); ok && f.r.P.InRepo(fn) {
			f.todo = append(f.todo, fn)
			return ""
		}
		switch {
		case strings.HasPrefix(v.aux, "slices.Clone") && isAnnotations(v.typ), strings.HasPrefix(v.aux, "slices.Concat") && isAnnotations(v.typ):
			return ""
		case strings.HasPrefix(v.aux, "slices."):
			for _, a := range v.args {
				if w := f.why(st, a, seen); w != "" {
					return w
				}
			}
			return ""
		}
		return "the result of " + v.aux
	case "load", "lookup", "nextv", "field", "havoc", "index":
		return "it is read from memory (" + v.String() + ")"
	case "param", "freevar":
		return "it is the function's argument " + v.String()
	}
	return "unrecognised value " + v.String()
}

func firstOf(s []string) string {
	if len(s) > 0 {
		return s[0]
	}
	return ""
}

// holdsRefs: values of the type give access to shared memory (strings and the
// bytes of annotations are regarded as immutable).
func holdsRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		if isNamed(t, "", "Annotation") {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if holdsRefs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return holdsRefs(u.Elem())
	}
	return true
}
