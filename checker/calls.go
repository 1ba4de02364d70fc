package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var maxDepth = 14

// callOperands evaluates the function value (or interface receiver) and the
// arguments of a call.
func (e *Engine) callOperands(st *State, c *ssa.CallCommon) (*Term, []*Term) {
	var recv *Term
	if c.IsInvoke() {
		recv = e.val(st, c.Value)
	} else if c.StaticCallee() == nil {
		recv = e.val(st, c.Value)
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		recv = e.val(st, mc)
	}
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.val(st, a))
	}
	return recv, args
}

// calleeName names a callee in a way that does not depend on local names.
func calleeName(c *ssa.CallCommon, recv *Term) string {
	if c.IsInvoke() {
		return ifaceMethodName(c)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	if fn := c.StaticCallee(); fn != nil {
		return fnName(fn)
	}
	return "dynamic"
}

func ifaceMethodName(c *ssa.CallCommon) string {
	return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
}

// fnName is fn's name, for generic functions without the type arguments.
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// resolve finds the function that a call executes, its full argument list
// (with the receiver) and closure bindings.
func (e *Engine) resolve(st *State, c *ssa.CallCommon, recv *Term, args []*Term) (*ssa.Function, []*Term, []*Term) {
	if c.IsInvoke() {
		r := recv
		if r.op == "mkiface" {
			dyn := r.obj.(types.Type)
			if fn := e.methodOf(dyn, c.Method); fn != nil {
				return fn, append([]*Term{r.args[0]}, args...), nil
			}
		}
		return nil, args, nil
	}
	if fn := c.StaticCallee(); fn != nil {
		if recv != nil && recv.op == "closure" {
			return fn, args, recv.args
		}
		return fn, args, nil
	}
	if recv != nil && (recv.op == "closure" || recv.op == "func") {
		if fn, ok := recv.obj.(*ssa.Function); ok {
			return fn, args, recv.args
		}
	}
	return nil, args, nil
}

func (e *Engine) methodOf(dyn types.Type, m *types.Func) *ssa.Function {
	ms := e.P.Prog.MethodSets.MethodSet(dyn)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.P.Prog.MethodValue(sel)
}

func inStack(c *Ctx, fn *ssa.Function) bool {
	for ; c != nil; c = c.parent {
		if c.fn == fn {
			return true
		}
	}
	return false
}

func noReturn(name string) bool {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "runtime.Goexit":
		return true
	}
	return false
}

// call interprets a call; res is the value to bind (nil: unused). It reports
// whether the state was consumed.
func (e *Engine) call(st *State, site ssa.Instruction, c *ssa.CallCommon, recv *Term, args []*Term, res ssa.Value, isDefer bool) bool {
	fr := st.top()
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		if (b.Name() == "min" || b.Name() == "max") && len(args) == 2 && isInt(args[0].typ) && res != nil {
			// The larger or the smaller of two: a choice like any other.
			lt := e.less(args[0], args[1])
			small, large := 0, 1
			if b.Name() == "max" {
				small, large = 1, 0
			}
			if v, ok := e.known(st, lt); ok {
				if v {
					fr.env[res] = args[small]
				} else {
					fr.env[res] = args[large]
				}
				return false
			}
			s := st.clone()
			if e.assume(s, lt, false) {
				s.top().env[res] = args[large]
				e.push(s)
			}
			if !e.assume(st, lt, true) {
				return true
			}
			fr.env[res] = args[small]
			return false
		}
		t := e.builtin(st, site, b, c, args)
		if res != nil {
			fr.env[res] = t
		}
		return false
	}
	fn, full, bindings := e.resolve(st, c, recv, args)
	name := calleeName(c, recv)
	if fn != nil && !c.IsInvoke() {
		name = fnName(fn)
	}

	if fn != nil && len(fn.Blocks) == 0 {
		if done, handled := e.syncOp(st, fn, site, full, res, isDefer); handled {
			return done
		}
		if c.IsInvoke() { // a method of a known dependency type
			name = fnName(fn)
			args = full
		}
	}
	if fn != nil && len(fn.Blocks) > 0 {
		rec := inStack(fr.ctx, fn) || fr.ctx.depth >= maxDepth
		if fr.ctx.depth >= maxDepth && !inStack(fr.ctx, fn) {
			e.undecided("%s: calls nested too deeply at %s", st.entry, e.P.Pos(site.Pos()))
		}
		if !rec && (e.Opaque == nil || !e.Opaque(fn)) && (e.OpaqueIn == nil || !e.OpaqueIn(st, fn)) {
			e.event(st, &Event{Kind: "enter", Name: fnName(fn), Args: full, Site: site, Sig: fn.Signature, Rec: fn})
			e.inline(st, site, fn, full, bindings, res, isDefer)
			return false
		}
		// Recursion: unknown result, effects as computed for the function.
		ev := &Event{Kind: "call", Name: fnName(fn), Args: full, Site: site, Sig: fn.Signature, Rec: fn}
		ev.Res = e.T.mk("call", fnName(fn), resType(fn.Signature), site, fr.ctx, full...)
		ev.Res.obj = fn
		e.event(st, ev)
		e.havocMods(st, e.modsOf(fn), append(append([]*Term(nil), full...), bindings...), site)
		cb := e.callbacks(st, full)
		for _, a := range cb {
			e.havocMods(st, e.modsOf(a.obj.(*ssa.Function)), append(append([]*Term(nil), full...), a.args...), site)
		}
		if res != nil {
			fr.env[res] = e.tupleOf(ev.Res, fn.Signature)
		}
		e.runCallbacks(st, cb, site, isDefer)
		return false
	}

	// An opaque call.
	sig := c.Signature()
	all := args
	if recv != nil && c.IsInvoke() && fn == nil {
		all = append([]*Term{recv}, args...)
	} else if recv != nil && fn == nil {
		all = append([]*Term{recv}, args...)
	}
	ev := &Event{Kind: "call", Name: name, Args: all, Site: site, Sig: sig, Iface: c.IsInvoke() && fn == nil}
	pure := e.Pure != nil && e.Pure(name)
	if fn != nil && pureStd(name) || pure {
		ev.Res = e.T.mk("call", name, resType(sig), nil, nil, all...)
	} else {
		ev.Res = e.T.mk("call", name, resType(sig), site, fr.ctx, all...)
	}

	if noReturn(name) {
		e.event(st, ev)
		if e.OnExit != nil {
			e.OnExit(st, &Exit{Kind: "noreturn", Fn: fr.fn, Site: site})
		}
		return true
	}
	e.event(st, ev)

	// Functions handed to opaque code may be run by it.
	var cb []*Term
	if runsCallbacks(name) {
		cb = e.callbacks(st, all)
	}
	if fn != nil && readOnlyStd(name) || pure {
		// memory is left alone
	} else if fn != nil {
		// What a known function that is called back has captured changes
		// only as that function changes it.
		rest, known := all, map[*Term]bool{}
		if len(cb) > 0 {
			rest = nil
			for _, a := range cb {
				known[a] = true
			}
			for _, a := range all {
				if !known[a] && !(a.op == "mkiface" && known[a.args[0]]) {
					rest = append(rest, a)
				}
			}
		}
		e.havocArgs(st, rest, site)
		for _, a := range cb {
			e.havocMods(st, e.modsOf(a.obj.(*ssa.Function)), a.args, site)
		}
		for _, a := range all {
			if !keepsNothing(name) {
				e.escape(st, a)
			}
		}
	} else {
		switch {
		case wireOp(name, "WriteMsg"):
		case wireOp(name, "ReadMsg"):
			e.havocArgs(st, all[1:], site)
		default:
			for _, a := range all {
				e.escape(st, a)
			}
		}
		e.bump(st, site, "call")
	}
	if res != nil {
		fr.env[res] = e.tupleOf(ev.Res, sig)
	}
	if e.MayPanic != nil && e.MayPanic(ev) {
		s := st.clone()
		s.panicVal = e.T.mk("opaque", "panic", nil, site, fr.ctx)
		s.recoverd = false
		s.top().unwinding = true
		e.push(s)
	}
	e.runCallbacks(st, cb, site, isDefer)
	return false
}

// callbacks lists the repository's functions among the arguments of a call.
func (e *Engine) callbacks(st *State, args []*Term) []*Term {
	var cb []*Term
	for _, a := range args {
		if a.op == "mkiface" {
			a = a.args[0]
		}
		if a.op == "closure" || a.op == "func" {
			if f, ok := a.obj.(*ssa.Function); ok && len(f.Blocks) > 0 && !inStack(st.top().ctx, f) && st.top().ctx.depth < maxDepth {
				cb = append(cb, a)
			}
		}
	}
	return cb
}

// runCallbacks adds the paths on which callees call back.
func (e *Engine) runCallbacks(st *State, cb []*Term, site ssa.Instruction, isDefer bool) {
	for _, a := range cb {
		f := a.obj.(*ssa.Function)
		s := st.clone()
		var fargs []*Term
		for i := range f.Params {
			fargs = append(fargs, e.T.mk("cbarg", fmt.Sprint(i), f.Params[i].Type(), site, s.top().ctx))
		}
		e.inline(s, site, f, fargs, a.args, nil, isDefer)
		e.push(s)
	}
}

// runsCallbacks lists dependencies known to call back before they return.
func runsCallbacks(name string) bool {
	for _, p := range []string{"sort.", "slices.", "strings.", "bytes.", "path/filepath.Walk", "(*sync.Once).Do", "(*sync.Map).Range", "maps."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// keepsNothing lists opaque callees that do not retain their arguments.
func keepsNothing(name string) bool {
	for _, p := range []string{"sort.", "encoding/json.", "encoding/gob.", "(*encoding/gob.", "(*encoding/json.", "bytes.", "(*bytes.", "io.", "strings.", "(*strings.", "slices.", "(net/http.Header)", "(net/url.Values)", "reflect."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// wireOp: gogo/protobuf's message readers and writers, which do not retain the
// message.
func wireOp(name, op string) bool {
	return strings.HasPrefix(name, "(github.com/gogo/protobuf/io.") && strings.HasSuffix(name, ")."+op)
}

func resType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// tupleOf splits an opaque call's results.
func (e *Engine) tupleOf(call *Term, sig *types.Signature) *Term {
	n := sig.Results().Len()
	if n < 2 {
		return call
	}
	args := make([]*Term, n)
	for i := range args {
		args[i] = e.T.mk("extract", fmt.Sprint(i), sig.Results().At(i).Type(), nil, nil, call)
	}
	return e.T.mk("tuple", "", nil, nil, nil, args...)
}

// ResultTerm is the i'th result of an opaque call event.
func (e *Engine) ResultTerm(ev *Event, i int) *Term {
	if ev.Sig.Results().Len() < 2 {
		return ev.Res
	}
	return e.T.mk("extract", fmt.Sprint(i), ev.Sig.Results().At(i).Type(), nil, nil, ev.Res)
}

// errResult is the error result of a call, or nil.
func (e *Engine) errResult(ev *Event) *Term {
	rs := ev.Sig.Results()
	for i := rs.Len() - 1; i >= 0; i-- {
		if isErrorType(rs.At(i).Type()) {
			return e.ResultTerm(ev, i)
		}
	}
	return nil
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (e *Engine) inline(st *State, site ssa.Instruction, fn *ssa.Function, args, bindings []*Term, res ssa.Value, isDefer bool) {
	fr := st.top()
	e.Inlined[fn] = true
	nf := &Frame{fn: fn, ctx: e.T.mkCtx(fr.ctx, site, fn), env: map[ssa.Value]*Term{}, ret: res, isDefer: isDefer, block: fn.Blocks[0]}
	for i, p := range fn.Params {
		if i < len(args) {
			nf.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bindings) {
			nf.env[f] = bindings[i]
		}
	}
	st.frames = append(st.frames, nf)
	if l := e.loopsOf(fn)[fn.Blocks[0]]; l != nil {
		e.undecided("%s: loop at function entry", fn)
	}
}

// syncOp handles mutexes, sync.Once and the like.
func (e *Engine) syncOp(st *State, fn *ssa.Function, site ssa.Instruction, args []*Term, res ssa.Value, isDefer bool) (done, handled bool) {
	fr := st.top()
	switch fn.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		l := &Lock{Addr: args[0], Read: fn.Name() == "RLock", Site: site}
		e.event(st, &Event{Kind: "lock", Name: fn.String(), Args: args, Site: site, Sig: fn.Signature})
		for _, h := range st.locks {
			if h.Addr == l.Addr && !(h.Read && l.Read) {
				// The goroutine waits for itself: nothing runs after this.
				if e.OnExit != nil {
					e.OnExit(st, &Exit{Kind: "noreturn", Fn: fr.fn, Site: site})
				}
				return true, true
			}
		}
		st.locks = append(st.locks, l)
		e.bumpLock(st, site, args[0])
		return false, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		read := fn.Name() == "RUnlock"
		e.event(st, &Event{Kind: "unlock", Name: fn.String(), Args: args, Site: site, Sig: fn.Signature})
		for i := len(st.locks) - 1; i >= 0; i-- {
			if st.locks[i].Addr == args[0] && st.locks[i].Read == read {
				st.locks = append(append([]*Lock(nil), st.locks[:i]...), st.locks[i+1:]...)
				break
			}
		}
		r := e.root(st, args[0])
		if !e.lockedRoot(st, r) {
			delete(st.oepoch, r)
			e.bumpRoot(st, site, r)
		}
		return false, true
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		s := st.clone()
		if res != nil {
			s.top().env[res] = e.T.Bool(false)
			fr.env[res] = e.T.Bool(true)
		}
		e.push(s)
		e.event(st, &Event{Kind: "trylock", Name: fn.String(), Args: args, Site: site, Sig: fn.Signature})
		st.locks = append(st.locks, &Lock{Addr: args[0], Read: fn.Name() == "TryRLock", Site: site})
		e.bumpLock(st, site, args[0])
		return false, true
	case "(*sync.Once).Do":
		e.event(st, &Event{Kind: "call", Name: fn.String(), Args: args, Site: site, Sig: fn.Signature, Res: e.T.mk("call", fn.String(), nil, site, fr.ctx, args...)})
		f := args[1]
		if f.op == "closure" || f.op == "func" {
			if g, ok := f.obj.(*ssa.Function); ok && len(g.Blocks) > 0 && !inStack(fr.ctx, g) {
				s := st.clone()
				e.inline(s, site, g, nil, f.args, nil, isDefer)
				e.push(s)
			}
		}
		return false, true
	}
	if isSyncOp(fn) {
		ev := &Event{Kind: "call", Name: fn.String(), Args: args, Site: site, Sig: fn.Signature}
		ev.Res = e.T.mk("call", fn.String(), resType(fn.Signature), site, fr.ctx, args...)
		e.event(st, ev)
		e.bump(st, site, "sync")
		if res != nil {
			fr.env[res] = e.tupleOf(ev.Res, fn.Signature)
		}
		return false, true
	}
	return false, false
}

// bumpLock: acquiring a lock makes the writes of other goroutines visible.
func (e *Engine) bumpLock(st *State, site ssa.Instruction, addr *Term) {
	r := e.root(st, addr)
	had := st.oepoch[r]
	delete(st.oepoch, r)
	if had == nil {
		e.bump(st, site, "lock")
		st.oepoch[r] = st.genv
	} else {
		st.oepoch[r] = had
		// A second lock of the same object: keep what the first one guards.
		e.bump(st, site, "lock")
	}
}

func (e *Engine) bumpRoot(st *State, site ssa.Instruction, r *Term) {
	e.bump(st, site, "unlock")
}

func (e *Engine) goStmt(st *State, in *ssa.Go) {
	c := in.Common()
	recv, args := e.callOperands(st, c)
	fn, full, bindings := e.resolve(st, c, recv, args)
	ev := &Event{Kind: "go", Name: calleeName(c, recv), Args: full, Site: in, Sig: c.Signature(), Rec: fn}
	if fn == nil && recv != nil {
		ev.Args = append([]*Term{recv}, full...)
	}
	e.event(st, ev)
	// The goroutine sees memory as it is now; captured variables are shared
	// from now on.
	if fn != nil && len(fn.Blocks) > 0 && e.OnThread != nil {
		th := newState("goroutine " + fn.String())
		s := st.clone()
		th.mem, th.memType, th.facts, th.kinds, th.fresh = s.mem, s.memType, s.facts, s.kinds, s.fresh
		th.pub, th.escaped = s.pub, s.escaped
		th.genv = e.T.mk("epoch", "go", nil, in, st.top().ctx)
		ctx := e.T.mkCtx(st.top().ctx, in, fn)
		fr := &Frame{fn: fn, ctx: ctx, env: map[ssa.Value]*Term{}, block: fn.Blocks[0]}
		for i, p := range fn.Params {
			if i < len(full) {
				fr.env[p] = full[i]
			}
		}
		for i, f := range fn.FreeVars {
			if i < len(bindings) {
				fr.env[f] = bindings[i]
			}
		}
		th.frames = []*Frame{fr}
		for _, a := range append(append([]*Term(nil), full...), bindings...) {
			e.escape(th, a)
		}
		// Guarded shared memory may have changed by the time it runs.
		for a := range th.mem {
			r := e.root(th, a)
			if !(isObj(r)) && !e.isStable(rawBase(a)) {
				delete(th.mem, a)
				delete(th.memType, a)
			}
		}
		e.OnThread(&Thread{Fn: fn, Site: in, St: th, Ctx: ctx, Notes: s.notes})
	}
	for _, a := range full {
		e.escape(st, a)
	}
	for _, a := range bindings {
		e.escape(st, a)
	}
}

func (e *Engine) builtin(st *State, site ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []*Term) *Term {
	T := e.T
	fr := st.top()
	ev := &Event{Kind: "builtin", Name: b.Name(), Args: args, Site: site}
	switch b.Name() {
	case "len":
		return T.Len(args[0])
	case "cap":
		return T.mk("cap", "", types.Typ[types.Int], nil, nil, args[0])
	case "append":
		base := args[0]
		x := args[1]
		var t *Term
		if n, ok := T.Len(x).intVal(); ok && x.op == "slice" && isObj(x.args[0]) && x.args[0].op == "alloc" && n <= 16 {
			elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			as := []*Term{base}
			for i := int64(0); i < n; i++ {
				as = append(as, e.peek(st, e.elemAddr(x, T.Int(i), elem), elem))
			}
			t = T.mk("append", "", c.Args[0].Type(), site, fr.ctx, as...)
		} else if x.isNil() {
			t = base
		} else {
			t = T.mk("appendv", "", c.Args[0].Type(), site, fr.ctx, base, x)
		}
		ev.Res = t
		e.event(st, ev)
		if e.OnAccess != nil {
			if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				if !base.isNil() {
					e.OnAccess(st, &Access{Addr: e.elemAddr(base, T.mk("anyidx", "", types.Typ[types.Int], nil, nil), s.Elem()), Type: s.Elem(), Write: true, Site: site, Fn: fr.fn})
				}
				if t.op == "appendv" {
					e.OnAccess(st, &Access{Addr: e.elemAddr(x, T.mk("anyidx", "", types.Typ[types.Int], nil, nil), s.Elem()), Type: s.Elem(), Site: site, Fn: fr.fn})
				}
			}
		}
		return t
	case "copy":
		ev.Res = T.mk("call", "builtin copy", types.Typ[types.Int], site, fr.ctx, args...)
		e.event(st, ev)
		if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			m := newModSet()
			m.elems[types.TypeString(s.Elem(), nil)] = true
			e.havocMods(st, m, args[:1], site)
			if e.OnAccess != nil {
				any := T.mk("anyidx", "", types.Typ[types.Int], nil, nil)
				e.OnAccess(st, &Access{Addr: e.elemAddr(args[0], any, s.Elem()), Type: s.Elem(), Write: true, Site: site, Fn: fr.fn})
				e.OnAccess(st, &Access{Addr: e.elemAddr(args[1], any, s.Elem()), Type: s.Elem(), Site: site, Fn: fr.fn})
			}
		}
		return ev.Res
	case "delete":
		e.event(st, ev)
		mt := c.Args[0].Type().Underlying().(*types.Map)
		me := T.mk("me", "", types.NewPointer(mt.Elem()), nil, nil, args[0], args[1])
		mok := T.mk("mok", "", types.NewPointer(types.Typ[types.Bool]), nil, nil, args[0], args[1])
		e.mapStore(st, args[0], mt, site)
		e.store(st, me, e.zero(mt.Elem()), mt.Elem(), site)
		st.mem[mok] = T.Bool(false)
		st.memType[mok] = types.Typ[types.Bool]
	case "close":
		e.event(st, ev)
	case "recover":
		e.event(st, ev)
		// Effective only in a function called directly by a panicking one.
		if fr.isDefer && len(st.frames) > 1 && st.frames[len(st.frames)-2].unwinding && !st.recoverd {
			st.recoverd = true
			v := T.mk("mkiface", "panic", types.NewInterfaceType(nil, nil), nil, nil, st.panicVal)
			v.obj = types.Type(types.Typ[types.Invalid])
			return v
		}
		return T.Nil()
	case "min", "max", "complex", "real", "imag":
		return T.mk("call", "builtin "+b.Name(), c.Signature().Results().At(0).Type(), nil, nil, args...)
	case "clear":
		e.event(st, ev)
		m := newModSet()
		m.maps[types.TypeString(c.Args[0].Type().Underlying(), nil)] = true
		e.havocMods(st, m, args[:1], site)
	case "ssa:wrapnilchk":
		return args[0]
	default:
		e.event(st, ev)
		if c.Signature().Results().Len() > 0 {
			return T.mk("call", "builtin "+b.Name(), c.Signature().Results().At(0).Type(), site, fr.ctx, args...)
		}
	}
	return T.Nil()
}

var _ = token.ADD
