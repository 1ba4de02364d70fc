package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- facts about values ----

// isNil and notNil decide what a path knows about a value.
func (e *Engine) isNil(st *State, t *Term) bool {
	if t.isNil() {
		return true
	}
	v, ok := e.known(st, e.T.Eq(t, e.T.Nil()))
	return ok && v
}

func (e *Engine) notNil(st *State, t *Term) bool {
	if t.isNil() {
		return false
	}
	if e.T.nonNil(t) {
		return true
	}
	v, ok := e.known(st, e.T.Eq(t, e.T.Nil()))
	return ok && !v
}

func (e *Engine) isTrue(st *State, t *Term) bool {
	v, ok := e.known(st, t)
	return ok && v
}

func (e *Engine) isFalse(st *State, t *Term) bool {
	v, ok := e.known(st, t)
	return ok && !v
}

// empty reports a slice or map known to be nil or of length 0.
func (e *Engine) empty(st *State, t *Term) bool {
	return e.isNil(st, t) || e.isTrue(st, e.T.Eq(e.T.Len(t), e.T.Int(0)))
}

// isZero reports a value known to be its type's zero value.
func (e *Engine) isZero(st *State, t *Term) bool {
	if t.isNil() {
		return true
	}
	if b, ok := t.boolVal(); ok {
		return !b
	}
	if i, ok := t.intVal(); ok {
		return i == 0
	}
	if s, ok := t.strVal(); ok {
		return s == ""
	}
	if t.typ == nil {
		return false
	}
	switch u := t.typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.isFalse(st, t)
		case u.Info()&types.IsInteger != 0:
			return e.isTrue(st, e.T.Eq(t, e.T.Int(0)))
		}
	case *types.Map, *types.Slice, *types.Pointer, *types.Chan, *types.Interface, *types.Signature:
		return e.isNil(st, t)
	}
	return false
}

// isSet reports a value known not to be its type's zero value.
func (e *Engine) isSet(st *State, t *Term) bool {
	if b, ok := t.boolVal(); ok {
		return b
	}
	if i, ok := t.intVal(); ok {
		return i != 0
	}
	if t.typ == nil {
		return e.notNil(st, t)
	}
	switch u := t.typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.isTrue(st, t)
		case u.Info()&types.IsInteger != 0:
			return e.isFalse(st, e.T.Eq(t, e.T.Int(0)))
		}
		return false
	}
	return e.notNil(st, t)
}

// less is the comparison a < b of integers.
func (e *Engine) less(a, b *Term) *Term { return e.T.Bin(token.LSS, a, b, types.Typ[types.Bool]) }

func (t *Term) has(x *Term) bool { return t.mentions(func(y *Term) bool { return y == x }) }

// origin strips reference wrapping that does not change a value's identity.
func (t *Term) origin() *Term {
	for t.op == "mkiface" || t.op == "conv" && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

// ---- fields by role ----

// fieldsOf lists the fields of a struct type for which pred holds.
func fieldsOf(n *types.Named, pred func(*types.Var) bool) []int {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []int
	for i := 0; i < s.NumFields(); i++ {
		if pred(s.Field(i)) {
			r = append(r, i)
		}
	}
	return r
}

func fieldNamed(n *types.Named, name string) int {
	for _, i := range fieldsOf(n, func(v *types.Var) bool { return v.Name() == name }) {
		return i
	}
	return -1
}

func (e *Engine) faddr(obj *Term, n *types.Named, i int) *Term {
	return e.fieldAddr(obj, types.NewPointer(n), i)
}

func (e *Engine) fval(st *State, obj *Term, n *types.Named, i int) *Term {
	a := e.faddr(obj, n, i)
	return e.peek(st, a, deref(a.typ))
}

// isFieldOf reports an address of the i'th field of a value of type n.
func isFieldOf(addr *Term, n *types.Named, i int) bool {
	return addr.op == "fa" && addr.aux == fieldKey(types.NewPointer(n), i)
}

func typeIs(t types.Type, s string) bool { return t != nil && types.TypeString(t, nil) == s }

func isNamed(t types.Type, rel, name string) bool {
	p := modPath
	if rel != "" {
		p += "/" + rel
	}
	return typeIs(t, p+"."+name)
}

// methodsOf lists the source methods declared on T and *T.
func (p *Program) methodsOf(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if fn := p.Prog.FuncValue(n.Method(i)); fn != nil && len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	return out
}

// ---- loops ----

func loopName(l *Loop, ctx *Ctx) string { return fmt.Sprintf("loop:%p.%d", l, ctx.id) }

// noteComplete records which collections a loop that is left through its
// header has walked from the first to the last element.
func (e *Engine) noteComplete(st *State, l *Loop, ctx *Ctx, from *ssa.BasicBlock) {
	key := loopName(l, ctx)
	delete(st.notes, key)
	if from != l.header {
		return
	}
	var out []string
	for f, v := range st.facts {
		if v {
			continue
		}
		switch f.op {
		case "nextok":
			if siteIn(f.site, f.ctx, l, ctx) {
				out = append(out, fmt.Sprintf("m%d", f.args[0].args[0].id))
			}
		}
	}
	for f, v := range st.facts {
		if f.op != "lt0" && f.op != "eq0" {
			continue
		}
		lin := f.obj.(linear)
		var phi, ln *Term
		other := false
		for t := range lin.coef {
			switch {
			case t.op == "loopphi" && t.ctx == ctx && t.site.Block() == l.header:
				phi = t
			default:
				if ln != nil {
					other = true
				}
				ln = t
			}
		}
		if phi == nil || other {
			continue
		}
		// phi + d >= len
		c, k := lin.coef[phi], lin.k
		if f.op == "eq0" {
			if !v || c != 1 && c != -1 {
				continue
			}
			if c == -1 {
				k = -k
				c = 1
			}
			if ln != nil && lin.coef[ln]*lin.coef[phi] != -1 {
				continue
			}
			out = append(out, fmt.Sprintf("i%d:%d:%d", phi.id, lenID(ln, -k), k))
			continue
		}
		switch {
		case !v && c == 1: // !(phi + k - len < 0)
		case v && c == -1: // -phi + k' + len < 0: phi - k' - 1 >= len
			k = -k - 1
		default:
			continue
		}
		if ln != nil && lin.coef[ln]*lin.coef[phi] != -1 {
			continue
		}
		out = append(out, fmt.Sprintf("i%d:%d:%d", phi.id, lenID(ln, -k), k))
	}
	if len(out) > 0 {
		sortStrings(out)
		st.notes[key] = strings.Join(out, " ")
	}
}

func lenID(ln *Term, k int64) int {
	if ln == nil {
		return 0
	}
	return ln.id
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// counts reports that a loop phi counts up from first in steps of one.
func (e *Engine) countsFrom(phi *Term) (first int64, ok bool) {
	if phi.op != "loopphi" || len(e.PhiIn[phi]) != 1 {
		return 0, false
	}
	for v := range e.PhiIn[phi] {
		if first, ok = v.intVal(); !ok {
			return 0, false
		}
	}
	for v := range e.PhiBk[phi] {
		d := e.T.lin(v).sub(e.T.lin(phi))
		if len(d.coef) != 0 || d.k != 1 {
			return 0, false
		}
	}
	return first, true
}

// countsDown: the term counts down from n-1.
func (e *Engine) countsDown(phi, n *Term) bool {
	if phi.op != "loopphi" || len(e.PhiIn[phi]) != 1 {
		return false
	}
	for v := range e.PhiIn[phi] {
		if d := e.T.lin(v).sub(e.T.lin(n)); len(d.coef) != 0 || d.k != -1 {
			return false
		}
	}
	for v := range e.PhiBk[phi] {
		if d := e.T.lin(v).sub(e.T.lin(phi)); len(d.coef) != 0 || d.k != -1 {
			return false
		}
	}
	return true
}

// walked reports whether the loop has been left after it walked all of src:
// a slice (by a counter from 0) or a map.
func (e *Engine) walked(st *State, l *Loop, ctx *Ctx, src *Term) bool {
	for _, w := range strings.Fields(st.notes[loopName(l, ctx)]) {
		if w[0] == 'm' {
			if w == fmt.Sprintf("m%d", src.id) {
				return true
			}
			continue
		}
		p := strings.Split(w[1:], ":")
		pid, _ := strconv.Atoi(p[0])
		lid, _ := strconv.Atoi(p[1])
		d, _ := strconv.ParseInt(p[2], 10, 64)
		phi := e.T.all[pid-1]
		first, ok := e.countsFrom(phi)
		if !ok {
			continue
		}
		// phi + d >= length, and phi - first elements have been visited
		rest := e.T.lin(e.T.Len(src))
		if lid != 0 {
			rest = rest.sub(e.T.lin(e.T.all[lid-1]))
		}
		if len(rest.coef) == 0 && rest.k+d+first == 0 {
			return true
		}
	}
	return false
}

// elemIndex recognises the index of a loop over a whole slice: a term that is
// 0 in the first iteration and grows by one.
func (e *Engine) elemIndex(idx *Term) (phi *Term, ok bool) {
	lin := e.T.lin(idx)
	if len(lin.coef) != 1 {
		return nil, false
	}
	for t, c := range lin.coef {
		if c != 1 || t.op != "loopphi" {
			return nil, false
		}
		first, ok := e.countsFrom(t)
		if !ok || first+lin.k != 0 {
			return nil, false
		}
		return t, true
	}
	return nil, false
}

// elemOf finds the collection element that a value is (part of): "load of
// src[i]..." or a map's nextk/nextv.
func (e *Engine) elemsIn(v *Term) (srcs []*Term, idx []*Term) {
	v.mentions(func(t *Term) bool {
		switch t.op {
		case "ia":
			srcs, idx = append(srcs, t.args[0]), append(idx, t.args[1])
		case "nextk", "nextv":
			srcs, idx = append(srcs, t.args[0].args[0]), append(idx, nil)
		}
		return false
	})
	return
}

// appended takes a slice value apart that was built by appending: its base
// and the sources appended to it, in order. A source is either a single
// value, or a whole slice (spread, or by an appending loop).
type piece struct {
	val   *Term // a single element
	slice *Term // all elements of a slice
	loop  *Term // the phi, when built by a loop: val is the element expression
}

func (e *Engine) appended(t *Term) (base *Term, ps []piece) {
	switch t.op {
	case "append":
		base, ps = e.appended(t.args[0])
		for _, a := range t.args[1:] {
			ps = append(ps, piece{val: a})
		}
		return base, ps
	case "appendv":
		base, ps = e.appended(t.args[0])
		b2, p2 := e.appended(t.args[1])
		if len(p2) > 0 && (b2.isNil() || b2.op == "mk" && e.lenZero(b2)) {
			return base, append(ps, p2...)
		}
		return base, append(ps, piece{slice: t.args[1]})
	case "loopphi", "loopmem", "load":
		ins, back := e.PhiIn[t], e.PhiBk[t]
		at := t
		if t.op == "load" {
			if len(e.MemIn[t]) == 0 || t.args[1].op != "ver" {
				return t, nil
			}
			ins, back, at = map[*Term]bool{t: true}, e.MemIn[t], t.args[1].args[1]
		}
		if t.op == "loopmem" {
			ins, back = map[*Term]bool{}, map[*Term]bool{}
			for v := range e.MemIn[t] {
				if b, _ := e.appendedTo(v, t); b == t {
					back[v] = true
				} else {
					ins[v] = true
				}
			}
		}
		if len(ins) != 1 {
			return t, nil
		}
		var in *Term
		for v := range ins {
			in = v
		}
		var body []piece
		n := 0
		for v := range back {
			if v == t {
				n = 2 // nothing appended on some iterations
				break
			}
			if v.op != "append" && v.op != "appendv" {
				return t, nil
			}
			b, ps := e.appendedTo(v, t)
			if b != t {
				return t, nil
			}
			body = ps
			n++
		}
		if n != 1 || len(body) != 1 || body[0].val == nil {
			return t, nil
		}
		base = in
		if in != t {
			base, ps = e.appended(in)
		}
		return base, append(ps, piece{val: body[0].val, loop: at})
	}
	return t, nil
}

func (e *Engine) appendedTo(v, stop *Term) (*Term, []piece) {
	if v == stop {
		return v, nil
	}
	switch v.op {
	case "append":
		b, ps := e.appendedTo(v.args[0], stop)
		for _, a := range v.args[1:] {
			ps = append(ps, piece{val: a})
		}
		return b, ps
	case "appendv":
		b, ps := e.appendedTo(v.args[0], stop)
		return b, append(ps, piece{slice: v.args[1]})
	}
	return v, nil
}

func (e *Engine) lenZero(t *Term) bool {
	n, ok := e.T.Len(t).intVal()
	return ok && n == 0
}

// wholeCopy reports that a piece holds exactly src's elements, in order, on
// this path.
func (e *Engine) wholeCopy(st *State, p piece, src *Term) bool {
	if p.slice != nil {
		return p.slice == src
	}
	if p.loop == nil {
		return false
	}
	l := e.loopsOf(p.loop.site.Parent())[p.loop.site.Block()]
	if l == nil || !e.walked(st, l, p.loop.ctx, src) {
		return false
	}
	return e.isElem(p.val, src)
}

// isElem reports v == src[i], with i the index of the walk.
func (e *Engine) isElem(v, src *Term) bool {
	if v.op == "load" && v.args[0].op == "ia" && v.args[0].args[0] == src {
		_, ok := e.elemIndex(v.args[0].args[1])
		return ok
	}
	if v.op == "struct" && len(v.args) > 0 {
		s := v.typ.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			a := v.args[i]
			if a.op != "load" || a.args[0].op != "fa" || a.args[0].aux != fieldKey(v.typ, i) || a.args[0].args[0].op != "ia" || a.args[0].args[0].args[0] != src {
				return false
			}
			if _, ok := e.elemIndex(a.args[0].args[0].args[1]); !ok {
				return false
			}
		}
		return true
	}
	return false
}

// ---- events ----

// isInvoke reports a call of an interface method "rel.Iface.Method", through
// any interface that has this method of the repository.
func isCollect(ev *Event) bool { return isIfaceMethod(ev, "Collect") }

// isIfaceMethod: an unresolved call of a method with that name through one of
// the repository's interfaces.
func isIfaceMethod(ev *Event, name string) bool {
	return ev.Kind == "call" && ev.Iface && strings.HasPrefix(ev.Name, "("+modPath) && strings.HasSuffix(ev.Name, ")."+name)
}

// callsOf lists the calls (kept events) of the trace for which pred holds.
func callsOf(items []*TItem, pred func(*Event) bool) []*Event {
	var r []*Event
	for _, it := range items {
		if it.Ev != nil && pred(it.Ev) {
			r = append(r, it.Ev)
		}
	}
	return r
}

// variadic returns the elements handed over as the last, variadic argument.
func lastArg(ev *Event) *Term { return ev.Args[len(ev.Args)-1] }

func opOf(op token.Token) string { return op.String() }

const tokGTR = token.GTR
