package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// started bounds an analysis in time, whatever its other bounds.
var started = time.Now()

// The Engine is a path-sensitive dataflow analysis (property simulation) over
// the SSA form: it propagates sets of abstract states along the control flow
// graph, inlining the repository's own functions, until no new state appears.
// Loops are abstracted: what a loop may modify is unknown at its header, so
// one abstract iteration stands for all. Nothing is executed and no solver is
// used; branch conditions are only decided from facts collected on the path.
type Engine struct {
	P *Program
	T *Terms

	// Rule hooks, all optional.
	Keep     func(*State, *Event) bool // is the event part of the trace?
	OnEvent  func(*State, *Event)
	OnExit   func(*State, *Exit)
	OnIter   func(*State, *LoopIter)
	OnLeave  func(*State, *LoopIter, bool)    // a loop is left (through its header?)
	Opaque   func(*ssa.Function) bool         // do not inline
	OpaqueIn func(*State, *ssa.Function) bool // the same, depending on the state
	MayPanic func(*Event) bool                // opaque calls that may panic
	Pure     func(name string) bool           // opaque calls whose result depends on the arguments alone, besides the usual ones
	OnAccess func(*State, *Access)            // shared memory access
	OnThread func(*Thread)                    // a goroutine is started
	OnDeref  func(*State, *Term)              // a pointer that may be nil is followed
	Unroll   bool                             // execute loops of a few known iterations one by one
	Loops    bool                             // note which collections loops have walked completely

	PhiIn map[*Term]map[*Term]bool // values flowing into loop phis, by edge kind
	PhiBk map[*Term]map[*Term]bool // along back edges
	MemIn map[*Term]map[*Term]bool // contents at loop entry and back edges

	Debug     int
	MaxSteps  int
	MaxStates int
	Coarse    bool // forget facts where there are very many states
	Undecided []string

	newMem  bool
	work    []*State
	visited map[string]bool
	steps   int
	States  int
	steps0  int
	states0 int
	Inlined map[*ssa.Function]bool

	loops map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	live  map[*ssa.Function]*liveness
	vids  map[ssa.Value]int
	mods  map[*ssa.Function]*modSet
	cells map[*ssa.Alloc]bool
}

// An Exit is the end of a path.
type Exit struct {
	Kind    string // return, panic, noreturn
	Results []*Term
	Fn      *ssa.Function
	Site    ssa.Instruction
}

// LoopIter is one abstract iteration of a loop.
type LoopIter struct {
	Loop  *Loop
	Ctx   *Ctx
	Items []*TItem
	Vals  map[*Term]*Term // header phi -> value for the next iteration
	Site  ssa.Instruction
}

// An Access is a read or write of memory.
type Access struct {
	Addr  *Term
	Type  types.Type
	Write bool
	Site  ssa.Instruction
	Fn    *ssa.Function
}

// A Thread is a goroutine's entry point.
type Thread struct {
	Fn   *ssa.Function
	Site ssa.Instruction
	St   *State // initial state
	Ctx  *Ctx
	// The notes of the path that starts it, which St does not have.
	Notes map[string]string
}

func NewEngine(p *Program) *Engine {
	return &Engine{
		P: p, T: newTerms(),
		PhiIn: map[*Term]map[*Term]bool{}, PhiBk: map[*Term]map[*Term]bool{}, MemIn: map[*Term]map[*Term]bool{},
		MaxSteps: 3000000 * moreStates, MaxStates: 60000 * moreStates,
		visited: map[string]bool{}, Inlined: map[*ssa.Function]bool{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{},
		live:  map[*ssa.Function]*liveness{},
		vids:  map[ssa.Value]int{},
		mods:  map[*ssa.Function]*modSet{},
		cells: map[*ssa.Alloc]bool{},
	}
}

func (e *Engine) vid(v ssa.Value) int {
	id, ok := e.vids[v]
	if !ok {
		id = len(e.vids) + 1
		e.vids[v] = id
	}
	return id
}

func (e *Engine) undecided(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	for _, u := range e.Undecided {
		if u == s {
			return
		}
	}
	e.Undecided = append(e.Undecided, s)
}

// ---- entry ----

func newState(entry string) *State {
	return &State{
		mem: map[*Term]*Term{}, memType: map[*Term]types.Type{}, facts: map[*Term]bool{},
		kinds: map[string]*Term{}, oepoch: map[*Term]*Term{}, fresh: map[*Term]*Term{},
		escaped: map[*Term]bool{}, detached: map[*Term]bool{}, pub: map[*Term]*Term{},
		notes: map[string]string{}, entry: entry,
	}
}

// Param is the term of a function's parameter.
func (e *Engine) Param(fn *ssa.Function, i int) *Term {
	p := fn.Params[i]
	t := e.T.mk("param", fmt.Sprintf("%s:%d:%s", fn.String(), i, p.Name()), p.Type(), nil, nil)
	t.obj = p
	return t
}

// Run analyses fn from its entry, with unknown arguments.
func (e *Engine) Run(fn *ssa.Function, init func(*State)) {
	args := make([]*Term, len(fn.Params))
	for i := range fn.Params {
		args[i] = e.Param(fn, i)
	}
	e.RunArgs(fn, args, nil, init)
}

// RunArgs analyses fn with the given argument terms and closure bindings.
//
// With Loops set it is run twice, so that the values which flow around loops
// are known when the rule looks at them.
func (e *Engine) RunArgs(fn *ssa.Function, args, bindings []*Term, init func(*State)) {
	if e.Loops {
		e.warm(func() { e.runArgs(fn, args, bindings, init) })
	}
	e.runArgs(fn, args, bindings, init)
}

// warm runs the analysis without the rule's hooks.
func (e *Engine) warm(run func()) {
	h := *e
	e.Keep, e.OnEvent, e.OnExit, e.OnIter, e.OnLeave, e.OnAccess, e.OnThread, e.OnDeref = nil, nil, nil, nil, nil, nil, nil, nil
	e.newMem = false
	run()
	if e.newMem { // now with the memory known that loops fill
		e.visited = map[string]bool{}
		run()
	}
	e.Keep, e.OnEvent, e.OnExit, e.OnIter, e.OnLeave, e.OnAccess, e.OnThread, e.OnDeref = h.Keep, h.OnEvent, h.OnExit, h.OnIter, h.OnLeave, h.OnAccess, h.OnThread, h.OnDeref
	e.visited = map[string]bool{}
	e.States, e.steps = h.States, h.steps
}

func (e *Engine) runArgs(fn *ssa.Function, args, bindings []*Term, init func(*State)) {
	st := newState(fn.String())
	st.genv = e.T.mk("epoch", "entry", nil, nil, nil)
	ctx := e.T.mkCtx(nil, nil, fn)
	fr := &Frame{fn: fn, ctx: ctx, env: map[ssa.Value]*Term{}}
	st.frames = []*Frame{fr}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(bindings) {
			fr.env[f] = bindings[i]
		} else {
			t := e.T.mk("freevar", fn.String()+":"+f.Name(), f.Type(), nil, nil)
			t.obj = f
			fr.env[f] = t
		}
	}
	if fn.Signature.Recv() != nil && len(args) > 0 {
		if _, ok := args[0].typ.Underlying().(*types.Pointer); ok {
			e.assume(st, e.T.Eq(args[0], e.T.Nil()), false)
		}
	}
	if init != nil {
		init(st)
	}
	e.Inlined[fn] = true
	e.enterBlock(st, nil, fn.Blocks[0])
	e.loop()
}

// RunThread analyses a goroutine.
func (e *Engine) RunThread(th *Thread) {
	if e.Loops {
		e.warm(func() { e.runThread(th) })
	}
	e.runThread(th)
}

func (e *Engine) runThread(th *Thread) {
	st := th.St.clone()
	e.Inlined[th.Fn] = true
	e.enterBlock(st, nil, th.Fn.Blocks[0])
	e.loop()
}

// coarsen forgets what is known about a path, except that parameters are not
// nil, so that paths which differ in that only become one. It is done when
// there are very many of them.
func (e *Engine) coarsen(st *State) {
	for c := range st.facts {
		if c.op == "eq" && (c.args[0].isNil() && c.args[1].op == "param" || c.args[1].isNil() && c.args[0].op == "param") {
			continue
		}
		delete(st.facts, c)
	}
}

func (e *Engine) push(st *State) { e.work = append(e.work, st) }

func (e *Engine) loop() {
	e.steps0, e.states0 = e.steps, e.States
	for len(e.work) > 0 {
		st := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.run(st)
		if e.steps-e.steps0 > e.MaxSteps || e.States-e.states0 > e.MaxStates || time.Since(started) > 10*time.Minute {
			e.undecided("%s: too many abstract states (%d states, %d steps)", st.entry, e.States, e.steps)
			e.work = nil
			return
		}
	}
}

// ---- control flow ----

func (e *Engine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	l, ok := e.loops[fn]
	if !ok {
		l = findLoops(fn)
		e.loops[fn] = l
	}
	return l
}

// modsOf collects what fn and everything it calls may modify.
func (e *Engine) modsOf(fn *ssa.Function) *modSet {
	if m, ok := e.mods[fn]; ok {
		return m
	}
	m := newModSet()
	e.mods[fn] = m
	seen := map[*ssa.Function]bool{}
	var visit func(*ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				m.scan(in, visit, anyAlloc)
			}
		}
	}
	visit(fn)
	return m
}

func (e *Engine) loopMods(l *Loop) *modSet {
	if l.mods != nil {
		return l.mods
	}
	m := newModSet()
	l.mods = m
	seen := map[*ssa.Function]bool{}
	var visit func(*ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				m.scan(in, visit, anyAlloc)
			}
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			m.scan(in, visit, func(a *ssa.Alloc) bool { return l.blocks[a.Block()] })
		}
	}
	// Calls of function values in the loop may run any closure of the function.
	if m.bumps {
		for f := l.fn; f != nil; f = f.Parent() {
			for _, a := range f.AnonFuncs {
				visit(a)
			}
		}
	}
	return m
}

// anyAlloc: every activation of a function makes its own objects.
func anyAlloc(*ssa.Alloc) bool { return true }

// enterBlock moves the top frame from block "from" to block "to".
func (e *Engine) enterBlock(st *State, from, to *ssa.BasicBlock) {
	fr := st.top()
	loops := e.loopsOf(fr.fn)

	// Leave loops.
	for len(fr.loops) > 0 {
		al := fr.loops[len(fr.loops)-1]
		if al.loop.blocks[to] {
			break
		}
		if al.mark < len(st.trace) {
			it := *st.trace[al.mark]
			it.Exited = from == al.loop.header
			st.trace[al.mark] = &it
		}
		if e.Loops {
			e.noteComplete(st, al.loop, fr.ctx, from)
		}
		if e.OnLeave != nil {
			li := &LoopIter{Loop: al.loop, Ctx: fr.ctx, Site: from.Instrs[len(from.Instrs)-1]}
			if al.mark < len(st.trace) {
				li.Items = append([]*TItem(nil), st.trace[al.mark+1:]...)
			}
			e.OnLeave(st, li, from == al.loop.header)
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}

	back := false
	if l := loops[to]; l != nil {
		if n := len(fr.loops); n > 0 && fr.loops[n-1].loop == l {
			back = true
		}
	}

	// Evaluate phis simultaneously.
	edge := -1
	if from != nil {
		for i, p := range to.Preds {
			if p == from {
				edge = i
			}
		}
	}
	l := loops[to]
	vals := map[*ssa.Phi]*Term{}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v *Term
		if edge >= 0 {
			v = e.val(st, phi.Edges[edge])
		} else {
			v = e.T.mk("undef", phi.Name(), phi.Type(), phi, fr.ctx)
		}
		vals[phi] = v
	}
	if l != nil && !back && e.Unroll && e.decided(st, to, vals) {
		l = nil
	}
	if l != nil {
		if back {
			al := fr.loops[len(fr.loops)-1]
			if e.OnIter != nil {
				li := &LoopIter{Loop: l, Ctx: fr.ctx, Items: append([]*TItem(nil), st.trace[al.mark+1:]...), Site: from.Instrs[len(from.Instrs)-1], Vals: map[*Term]*Term{}}
				for phi, v := range vals {
					li.Vals[e.T.mk("loopphi", "", phi.Type(), phi, fr.ctx)] = v
				}
				e.OnIter(st, li)
			}
		}
		for phi, v := range vals {
			t := e.T.mk("loopphi", "", phi.Type(), phi, fr.ctx)
			if e.PhiIn[t] == nil {
				e.PhiIn[t] = map[*Term]bool{}
				e.PhiBk[t] = map[*Term]bool{}
			}
			if back {
				e.PhiBk[t][v] = true
			} else {
				e.PhiIn[t][v] = true
			}
		}
		e.enterLoop(st, l, back, vals)
	} else {
		for phi, v := range vals {
			fr.env[phi] = v
		}
	}

	fr.block, fr.pc = to, 0
	e.gc(st)
	if e.Coarse && (len(to.Preds) > 1 || l != nil) && e.States-e.states0 > e.MaxStates/4 {
		e.coarsen(st)
	}
	if len(to.Preds) > 1 || l != nil {
		k := st.key(e.vid)
		if e.visited[k] {
			return
		}
		e.visited[k] = true
		e.States++
		if e.Debug > 0 && e.States >= e.Debug && e.States < e.Debug+40 {
			fmt.Fprintf(os.Stderr, "--- %s b%d\n  mem:", fr.fn, to.Index)
			for a, v := range st.mem {
				fmt.Fprintf(os.Stderr, " %s=%s(%d);", a, v, v.id)
			}
			fmt.Fprintf(os.Stderr, "\n facts: %v\n trace: %d locks %d kinds %v genv %d\n", e.sortedFacts(st), len(st.trace), len(st.locks), st.kinds, st.genv.id)
		}
	}
	e.push(st)
}

// bornIn reports whether a term was created inside the loop's current
// iteration.
func bornIn(t *Term, l *Loop, ctx *Ctx) bool {
	return t.mentions(func(x *Term) bool {
		if x.site == nil || x.ctx == nil {
			return false
		}
		return siteIn(x.site, x.ctx, l, ctx)
	})
}

func siteIn(site ssa.Instruction, c *Ctx, l *Loop, ctx *Ctx) bool {
	for c != nil {
		if c == ctx {
			return site.Block() != nil && l.blocks[site.Block()]
		}
		site = c.call
		c = c.parent
		if site == nil {
			return false
		}
	}
	return false
}

// decided: whether the loop goes on is known on entering its header, and it
// has a few iterations only.
func (e *Engine) decided(st *State, header *ssa.BasicBlock, vals map[*ssa.Phi]*Term) bool {
	br, ok := header.Instrs[len(header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	var eval func(v ssa.Value) *Term
	eval = func(v ssa.Value) *Term {
		in, ok := v.(ssa.Instruction)
		if !ok || in.Block() != header {
			return e.val(st, v)
		}
		switch v := v.(type) {
		case *ssa.Phi:
			return vals[v]
		case *ssa.BinOp:
			x, y := eval(v.X), eval(v.Y)
			if x != nil && y != nil {
				return e.T.Bin(v.Op, x, y, v.Type())
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if x := eval(v.Call.Args[0]); x != nil {
					return e.T.Len(x)
				}
			}
		}
		return nil
	}
	few := false
	for _, v := range []ssa.Value{cond.X, cond.Y} {
		t := eval(v)
		if t == nil {
			return false
		}
		if n, ok := t.intVal(); ok && n <= 4 {
			few = true
		}
	}
	if !few {
		return false
	}
	_, ok = e.known(st, eval(cond))
	return ok
}

func (e *Engine) enterLoop(st *State, l *Loop, back bool, vals map[*ssa.Phi]*Term) {
	fr := st.top()
	mods := e.loopMods(l)
	if back {
		al := fr.loops[len(fr.loops)-1]
		it := *st.trace[al.mark]
		it.Iterated = true
		st.trace = append(st.trace[:al.mark:al.mark], &it)
		// Forget what the iteration created.
		for f := range st.facts {
			if bornIn(f, l, fr.ctx) {
				delete(st.facts, f)
			}
		}
		for _, m := range []map[*Term]*Term{st.oepoch, st.pub} {
			for k := range m {
				if bornIn(k, l, fr.ctx) {
					delete(m, k)
				}
			}
		}
		for _, m := range []map[*Term]bool{st.escaped, st.detached} {
			for k := range m {
				if bornIn(k, l, fr.ctx) {
					delete(m, k)
				}
			}
		}
		for k := range st.fresh {
			if bornIn(k, l, fr.ctx) {
				delete(st.fresh, k)
			}
		}
	} else {
		it := &TItem{Loop: l, Ctx: fr.ctx, key: fmt.Sprintf("loop%p.%d", l, fr.ctx.id)}
		st.trace = append(st.trace, it)
		fr.loops = append(fr.loops, activeLoop{loop: l, mark: len(st.trace) - 1})
	}
	first := l.header.Instrs[0]
	// Memory that the loop may modify is unknown.
	al := &fr.loops[len(fr.loops)-1]
	if !back {
		al.had = map[*Term]bool{}
	}
	if !back {
		// New variables still have their zero value.
		for a, z := range st.fresh {
			if z != nil || a.op != "alloc" || st.mem[a] != nil {
				continue
			}
			e.zeroCells(st, a, deref(a.typ), mods, 0)
		}
	}
	later := map[*Term]*Term{}
	for a, v := range st.mem {
		if bornIn(a, l, fr.ctx) {
			delete(st.mem, a)
			delete(st.memType, a)
			continue
		}
		typ := st.memType[a]
		if mods.hit(a, typ) || mods.hitsArg(a) || bornIn(v, l, fr.ctx) {
			if !back {
				al.had[a] = true
			} else if !al.had[a] && !isObj(rawBase(a)) && !e.isStable(rawBase(a)) {
				// unknown before the loop as well
				later[a] = v
				continue
			}
			h := e.T.mk("loopmem", "", typ, first, fr.ctx, a)
			if e.MemIn[h] == nil {
				e.MemIn[h] = map[*Term]bool{}
			}
			e.MemIn[h][v] = true
			if !e.isStable(rawBase(a)) {
				st.mem[a] = h
			}
		}
	}
	ver := e.T.mk("epoch", "loop", nil, first, fr.ctx)
	for k := range mods.kinds() {
		st.kinds[k] = ver
	}
	// Fresh objects: cells not yet written are zero until the loop writes them.
	for a := range st.fresh {
		if a.op == "alloc" && !e.isStable(a) && mods.mayWrite(deref(a.typ)) || a.op == "mk" && mods.mayWrite(a.typ) {
			st.fresh[a] = ver
		}
	}
	if mods.bumps {
		st.genv = ver
	}
	for a, v := range later {
		typ := st.memType[a]
		delete(st.mem, a)
		delete(st.memType, a)
		h := e.peek(st, a, typ)
		if e.MemIn[h] == nil {
			e.MemIn[h] = map[*Term]bool{}
			e.newMem = true
		}
		e.MemIn[h][v] = true
	}
	if back && e.Loops {
		// An iteration that leaves such memory alone.
		for h, in := range e.MemIn {
			if h.op == "load" && later[h.args[0]] == nil && st.mem[h.args[0]] == nil && h.args[1].op == "ver" && h.args[1].args[1] == ver {
				in[h] = true
			}
		}
	}
	for phi := range vals {
		t := e.T.mk("loopphi", "", phi.Type(), phi, fr.ctx)
		fr.env[phi] = t
	}
}

// isStable reports a local variable that is captured by closures but assigned
// exactly once, at its declaration: nothing can change it.
// zeroCells gives the parts of a new variable that a loop may modify the zero
// value that they have before it, unless they have been assigned.
func (e *Engine) zeroCells(st *State, a *Term, typ types.Type, mods *modSet, depth int) {
	if st.mem[a] != nil {
		return
	}
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if depth > 3 {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			e.zeroCells(st, e.fieldAddr(a, types.NewPointer(typ), i), u.Field(i).Type(), mods, depth+1)
		}
	case *types.Array:
	default:
		if mods.hit(a, typ) {
			st.mem[a], st.memType[a] = e.zero(typ), typ
		}
	}
}

func (e *Engine) isStable(a *Term) bool {
	if a.op != "alloc" {
		return false
	}
	al, ok := a.site.(*ssa.Alloc)
	if !ok {
		return false
	}
	return e.stableCell(al)
}

// stableFreeVar: the same for a captured variable seen from the closure.
func (e *Engine) stableFreeVar(obj any) bool {
	fv, ok := obj.(*ssa.FreeVar)
	if !ok {
		return false
	}
	fn := fv.Parent()
	if fn.Parent() == nil {
		return false
	}
	found := false
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			for i, f := range fn.FreeVars {
				if f != fv {
					continue
				}
				switch x := mc.Bindings[i].(type) {
				case *ssa.Alloc:
					if !e.stableCell(x) {
						return false
					}
				case *ssa.FreeVar:
					if !e.stableFreeVar(x) {
						return false
					}
				default:
					return false
				}
				found = true
			}
		}
	}
	return found
}

func (e *Engine) stableCell(al *ssa.Alloc) bool {
	if v, ok := e.cells[al]; ok {
		return v
	}
	stores := 0
	okAll := true
	seen := map[*ssa.Parameter]bool{}
	var scan func(refs *[]ssa.Instruction, self ssa.Value)
	scan = func(refs *[]ssa.Instruction, self ssa.Value) {
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == self {
					stores++
					if r.Block() != al.Block() {
						okAll = false
					}
				} else {
					okAll = false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !onlyRead(r) {
					okAll = false
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == self {
						scan(fn.FreeVars[i].Referrers(), fn.FreeVars[i])
					}
				}
			case *ssa.Call: // of a function that only reads it
				fn := r.Call.StaticCallee()
				if fn == nil || len(fn.Blocks) == 0 || r.Call.Value == self || len(fn.Params) != len(r.Call.Args) {
					okAll = false
					break
				}
				for i, a := range r.Call.Args {
					if p := fn.Params[i]; a == self && !seen[p] {
						seen[p] = true
						scan(p.Referrers(), p)
					}
				}
			default:
				okAll = false
			}
		}
	}
	scan(al.Referrers(), al)
	v := okAll && stores <= 1
	e.cells[al] = v
	return v
}

// onlyRead: nothing but loads is done with the address of a field.
func onlyRead(a *ssa.FieldAddr) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyRead(r) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// ---- garbage ----

type liveness struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (e *Engine) liveIn(b *ssa.BasicBlock) map[ssa.Value]bool {
	fn := b.Parent()
	lv := e.live[fn]
	if lv == nil {
		lv = &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
		for _, b := range fn.Blocks {
			lv.in[b] = map[ssa.Value]bool{}
		}
		var ops [16]*ssa.Value
		for changed := true; changed; {
			changed = false
			for i := len(fn.Blocks) - 1; i >= 0; i-- {
				b := fn.Blocks[i]
				cur := map[ssa.Value]bool{}
				for _, s := range b.Succs {
					for v := range lv.in[s] {
						cur[v] = true
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						for j, p := range s.Preds {
							if p == b {
								cur[phi.Edges[j]] = true
							}
						}
					}
				}
				for j := len(b.Instrs) - 1; j >= 0; j-- {
					in := b.Instrs[j]
					if v, ok := in.(ssa.Value); ok {
						if _, isPhi := in.(*ssa.Phi); !isPhi {
							delete(cur, v)
						}
					}
					if _, ok := in.(*ssa.Phi); ok {
						continue
					}
					for _, op := range in.Operands(ops[:0]) {
						if *op != nil {
							cur[*op] = true
						}
					}
				}
				if len(cur) != len(lv.in[b]) {
					lv.in[b] = cur
					changed = true
				}
			}
		}
		e.live[fn] = lv
	}
	return lv.in[b]
}

func (e *Engine) gc(st *State) {
	// Dead values of the top frame.
	fr := st.top()
	live := e.liveIn(fr.block)
	var recLive map[ssa.Value]bool
	if fr.fn.Recover != nil {
		recLive = e.liveIn(fr.fn.Recover)
	}
	for v := range fr.env {
		if _, ok := v.(*ssa.Phi); ok && v.(*ssa.Phi).Block() == fr.block {
			continue
		}
		if !live[v] && !recLive[v] {
			delete(fr.env, v)
		}
	}
	// Terms reachable from the remaining values.
	reach := map[*Term]bool{}
	var mark func(*Term)
	mark = func(t *Term) {
		if t == nil || reach[t] {
			return
		}
		reach[t] = true
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, f := range st.frames {
		for _, t := range f.env {
			mark(t)
		}
		for _, d := range f.defers {
			mark(d.recv)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, it := range st.trace {
		if it.Ev != nil {
			for _, a := range it.Ev.Args {
				mark(a)
			}
			mark(it.Ev.Res)
		}
		if it.Loop != nil && e.Loops { // what its counters and accumulators were in the end
			for _, in := range it.Loop.header.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				mark(e.T.mk("loopphi", "", phi.Type(), phi, it.Ctx))
			}
		}
	}
	for _, l := range st.locks {
		mark(l.Addr)
	}
	mark(st.panicVal)
	for k := range st.notes {
		if id, ok := strings.CutPrefix(k, "pin:"); ok { // values that a rule asks about later
			n, _ := strconv.Atoi(id)
			mark(e.T.all[n-1])
		}
	}
	for d := range st.detached {
		mark(d)
	}
	for changed := true; changed; {
		changed = false
		for a, v := range st.mem {
			if reach[v] {
				continue
			}
			b := rawBase(a)
			if isObj(b) && !reach[b] && st.pub[b] == nil {
				continue
			}
			mark(v)
			changed = true
		}
	}
	for a := range st.mem {
		b := rawBase(a)
		if isObj(b) && !reach[b] && st.pub[b] == nil {
			delete(st.mem, a)
			delete(st.memType, a)
		}
	}
	for _, m := range []map[*Term]*Term{st.fresh} {
		for k := range m {
			if !reach[k] {
				delete(m, k)
			}
		}
	}
	for k := range st.escaped {
		if !reach[k] {
			delete(st.escaped, k)
		}
	}
	for f := range st.facts {
		drop := f.mentions(func(x *Term) bool { return x.site != nil && !reach[x] && x.op != "epoch" })
		if drop {
			delete(st.facts, f)
		}
	}
}

// rawBase is the object an address lies in.
func rawBase(a *Term) *Term {
	for a.op == "fa" || a.op == "ia" || a.op == "me" || a.op == "mok" || a.op == "slice" {
		a = a.args[0]
	}
	return a
}

func isObj(t *Term) bool {
	switch t.op {
	case "alloc", "mk", "append", "appendv":
		return true
	}
	return false
}

func (st *State) base(a *Term) *Term { return rawBase(a) }

// ---- values ----

func (e *Engine) val(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constTerm(v)
	case *ssa.Global:
		t := e.T.mk("global", v.String(), v.Type(), nil, nil)
		t.obj = v
		return t
	case *ssa.Function:
		t := e.T.mk("func", v.String(), v.Type(), nil, nil)
		t.obj = v
		return t
	case *ssa.Builtin:
		t := e.T.mk("func", "builtin "+v.Name(), v.Type(), nil, nil)
		return t
	}
	if t := st.top().env[v]; t != nil {
		return t
	}
	return e.T.mk("undef", v.Name(), v.Type(), asInstr(v), st.top().ctx)
}

func asInstr(v ssa.Value) ssa.Instruction {
	in, _ := v.(ssa.Instruction)
	return in
}

func (e *Engine) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if iv := constant.ToInt(c.Value); iv.Kind() == constant.Int {
			return e.T.Const(iv, c.Type())
		}
	}
	return e.T.Const(c.Value, c.Type())
}

// zero is the zero value of a type.
func (e *Engine) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.T.Const(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return e.T.Const(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			return e.T.Const(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return e.T.Const(constant.MakeFloat64(0), t)
		}
		return e.T.Nil()
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = e.zero(u.Field(i).Type())
		}
		return e.mkStruct(t, args)
	case *types.Array:
		return e.T.mk("zero", types.TypeString(t, nil), t, nil, nil)
	}
	return e.T.Nil()
}

func (e *Engine) mkStruct(t types.Type, args []*Term) *Term {
	// A value taken apart and put together again is the same value.
	if len(args) > 0 && args[0].op == "field" {
		x := args[0].args[0]
		same := x.typ != nil && types.Identical(x.typ.Underlying(), t.Underlying())
		for i, a := range args {
			if a.op != "field" || a.args[0] != x || a.aux != fieldKey(t, i) {
				same = false
			}
		}
		if same {
			return x
		}
	}
	return e.T.mk("struct", types.TypeString(t, nil), t, nil, nil, args...)
}

// fieldOf is the i'th field of a struct value.
func (e *Engine) fieldOf(x *Term, st types.Type, i int) *Term {
	if x.op == "struct" && i < len(x.args) {
		return x.args[i]
	}
	s := deref(st).Underlying().(*types.Struct)
	t := e.T.mk("field", fieldKey(st, i), s.Field(i).Type(), nil, nil, x)
	t.obj = s.Field(i)
	return t
}

func (e *Engine) fieldAddr(x *Term, ptr types.Type, i int) *Term {
	s := deref(ptr).Underlying().(*types.Struct)
	t := e.T.mk("fa", fieldKey(ptr, i), types.NewPointer(s.Field(i).Type()), nil, nil, x)
	t.obj = s.Field(i)
	return t
}

// ---- memory ----

// kindOf classes addresses that may alias.
func kindOf(addr *Term, typ types.Type) string {
	switch addr.op {
	case "fa":
		return "f:" + addr.aux
	case "ia":
		return "e:" + types.TypeString(typ, nil)
	case "me", "mok":
		if addr.args[0].typ != nil {
			return "m:" + types.TypeString(addr.args[0].typ.Underlying(), nil)
		}
		return "m:?"
	}
	if typ == nil {
		return "p:?"
	}
	return "p:" + types.TypeString(typ, nil)
}

// root finds the object through which an address is reached.
func (e *Engine) root(st *State, t *Term) *Term {
	for n := 0; n < 100; n++ {
		if st.detached[t] {
			return t
		}
		switch t.op {
		case "alloc", "mk":
			if p := st.pub[t]; p != nil && p != t {
				t = p
				continue
			}
			return t
		case "append", "appendv":
			if p := st.pub[t]; p != nil && p != t {
				t = p
				continue
			}
			if t.args[0].isNil() {
				return t
			}
			t = t.args[0]
		case "fa", "ia", "me", "mok", "load", "field", "index", "slice", "tassert", "mkiface", "nextv", "nextk", "range", "loopmem":
			if len(t.args) == 0 {
				return t
			}
			t = t.args[0]
		case "conv":
			if isString(t.args[0].typ) || isString(t.typ) {
				return t
			}
			t = t.args[0]
		case "loopphi":
			var r *Term
			for v := range e.PhiIn[t] {
				x := e.rootNoPhi(st, v)
				if x == nil || x == t {
					continue
				}
				if r != nil && r != x {
					return t
				}
				r = x
			}
			if r == nil || v2(e.PhiBk[t], func(v *Term) bool { x := e.rootNoPhi(st, v); return x != nil && x != r && x != t }) {
				return t
			}
			return r
		default:
			return t
		}
	}
	return t
}

func v2(m map[*Term]bool, f func(*Term) bool) bool {
	for k := range m {
		if f(k) {
			return true
		}
	}
	return false
}

func (e *Engine) rootNoPhi(st *State, t *Term) *Term {
	for n := 0; n < 100; n++ {
		if t.op == "loopphi" || t.isNil() {
			if t.isNil() {
				return nil
			}
			return t
		}
		if st.detached[t] {
			return t
		}
		switch t.op {
		case "append", "appendv":
			if t.args[0].isNil() {
				return t
			}
			t = t.args[0]
		case "fa", "ia", "me", "mok", "load", "field", "index", "slice", "tassert", "mkiface", "nextv", "nextk", "range", "loopmem":
			t = t.args[0]
		case "alloc", "mk":
			if p := st.pub[t]; p != nil && p != t {
				t = p
				continue
			}
			return t
		default:
			return t
		}
	}
	return t
}

// owned reports memory that no other goroutine can reach.
func (e *Engine) owned(st *State, root *Term) bool {
	if st.detached[root] {
		return true
	}
	switch root.op {
	case "alloc", "mk", "append", "appendv":
		return !st.escaped[root] || e.isStable(root)
	case "conv":
		return true
	}
	return false
}

// lockedRoot reports the lock held on an object of root.
func (e *Engine) lockedRoot(st *State, root *Term) bool {
	for _, l := range st.locks {
		if r := e.root(st, l.Addr); r == root {
			return true
		}
	}
	return false
}

func (e *Engine) version(st *State, addr *Term, typ types.Type) *Term {
	r := e.root(st, addr)
	var ep *Term
	switch {
	case addr.op == "global" && e.P.constGlobal(addr.obj), addr.op == "freevar" && e.stableFreeVar(addr.obj):
		return e.T.mk("epoch", "const", nil, nil, nil)
	case addr.op == "fa" && !isObj(r) && e.P.finalField(addr.aux):
		return e.T.mk("epoch", "const", nil, nil, nil)
	case e.owned(st, r):
		ep = e.T.mk("epoch", "own", nil, nil, nil)
	case st.oepoch[r] != nil:
		ep = st.oepoch[r]
	default:
		ep = st.genv
	}
	if isObj(r) {
		if z := st.fresh[r]; z != nil {
			ep = z
		}
	}
	if k := st.kinds[kindOf(addr, typ)]; k != nil {
		if e.owned(st, r) && isObj(r) && st.pub[r] == nil {
			return ep // only its own stores change it, and these are in mem
		}
		if ep.op == "epoch" && ep != k {
			return e.T.mk("ver", "", nil, nil, nil, ep, k)
		}
	}
	return ep
}

// load reads memory.
func (e *Engine) load(st *State, addr *Term, typ types.Type, site ssa.Instruction) *Term {
	if e.OnAccess != nil && site != nil {
		e.OnAccess(st, &Access{Addr: addr, Type: typ, Site: site, Fn: st.top().fn})
	}
	return e.peek(st, addr, typ)
}

func (e *Engine) peek(st *State, addr *Term, typ types.Type) *Term {
	if s, ok := typ.Underlying().(*types.Struct); ok {
		if s.NumFields() == 0 {
			return e.mkStruct(typ, nil)
		}
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = e.peek(st, e.fieldAddr(addr, typ, i), s.Field(i).Type())
		}
		return e.mkStruct(typ, args)
	}
	if a, ok := typ.Underlying().(*types.Array); ok && isObj(rawBase(addr)) && a.Len() <= 16 {
		args := make([]*Term, a.Len())
		for i := range args {
			args[i] = e.peek(st, e.elemAddr(addr, e.T.Int(int64(i)), a.Elem()), a.Elem())
		}
		return e.T.mk("array", types.TypeString(typ, nil), typ, nil, nil, args...)
	}
	if v := st.mem[addr]; v != nil {
		return v
	}
	b := rawBase(addr)
	if isObj(b) && b.op != "append" && b.op != "appendv" {
		if z, ok := st.fresh[b]; ok && z == nil {
			if others := e.aliases(st, b, addr, typ); others != nil {
				if v := e.onlyElem(st, addr, typ); v != nil {
					return v
				}
				// one of the elements, or zero
				t := e.T.mk("load", "", typ, nil, nil, addr, e.T.mk("epoch", "elems", nil, nil, nil, others...))
				if e.MemIn[t] == nil {
					e.MemIn[t] = map[*Term]bool{}
					for _, o := range others {
						e.MemIn[t][o] = true
					}
				}
				return t
			}
			if addr.op == "mok" {
				return e.T.Bool(false)
			}
			return e.zero(typ)
		}
	}
	if (addr.op == "me" || addr.op == "mok") && addr.args[0].isNil() {
		if addr.op == "mok" {
			return e.T.Bool(false)
		}
		return e.zero(typ)
	}
	// An element of "append(x, e...)" at a known place.
	t := e.T.mk("load", "", typ, nil, nil, addr, e.version(st, addr, typ))
	return t
}

// aliases lists what has been stored in elements of an object that may be the
// one at the given address.
func (e *Engine) aliases(st *State, b, addr *Term, typ types.Type) []*Term {
	vary := false
	for a := addr; a != b; a = a.args[0] {
		vary = vary || (a.op == "ia" || a.op == "me" || a.op == "mok")
	}
	if !vary {
		return nil
	}
	kind := kindOf(addr, typ)
	var out []*Term
	for a, v := range st.mem {
		if rawBase(a) == b && (a.op == "mok") == (addr.op == "mok") && (a.op == "mok" || kindOf(a, st.memType[a]) == kind) && e.mayAlias(st, a, addr) {
			out = append(out, v)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// onlyElem: an array of one element has no other.
func (e *Engine) onlyElem(st *State, addr *Term, typ types.Type) *Term {
	if addr.op != "ia" || addr.args[1].isConst() {
		return nil
	}
	if a, ok := derefType(addr.args[0].typ).Underlying().(*types.Array); ok && a.Len() == 1 {
		return e.peek(st, e.elemAddr(addr.args[0], e.T.Int(0), a.Elem()), typ)
	}
	return nil
}

func (e *Engine) elemAddr(base, idx *Term, elem types.Type) *Term {
	if base.op == "slice" && base.args[1].isNil() {
		base = base.args[0]
	} else if base.op == "slice" {
		idx = e.T.Bin(token.ADD, base.args[1], idx, types.Typ[types.Int])
		base = base.args[0]
	}
	return e.T.mk("ia", "", types.NewPointer(elem), nil, nil, base, idx)
}

// mayAlias reports whether two different address terms of one kind may be the
// same address.
func (e *Engine) mayAlias(st *State, a, b *Term) bool {
	if a.op != b.op {
		return !(isObj(rawBase(a)) && isObj(rawBase(b)) && rawBase(a) != rawBase(b))
	}
	ba, bb := rawBase(a), rawBase(b)
	if ba != bb {
		if isObj(ba) && isObj(bb) {
			return false
		}
		if isObj(ba) && !st.escaped[ba] && st.pub[ba] == nil || isObj(bb) && !st.escaped[bb] && st.pub[bb] == nil {
			return false
		}
		if ba.op == "global" && bb.op == "global" {
			return false
		}
	}
	switch a.op {
	case "fa":
		if a.aux != b.aux || e.knownDistinct(st, a.args[0], b.args[0]) {
			return false
		}
		// Fields of embedded structs: these must be the same field.
		if x, y := a.args[0], b.args[0]; x != y && x.op == "fa" && y.op == "fa" {
			return e.mayAlias(st, x, y)
		}
		return true
	case "ia", "me", "mok":
		if a.args[0] == b.args[0] && e.knownDistinct(st, a.args[1], b.args[1]) {
			return false
		}
	}
	return true
}

func (e *Engine) knownDistinct(st *State, a, b *Term) bool {
	if a == b {
		return false
	}
	v, ok := e.known(st, e.T.Eq(a, b))
	return ok && !v
}

// store writes memory.
func (e *Engine) store(st *State, addr, v *Term, typ types.Type, site ssa.Instruction) {
	if e.OnAccess != nil && site != nil {
		e.OnAccess(st, &Access{Addr: addr, Type: typ, Write: true, Site: site, Fn: st.top().fn})
	}
	e.poke(st, addr, v, typ, site)
}

func (e *Engine) poke(st *State, addr, v *Term, typ types.Type, site ssa.Instruction) {
	if s, ok := typ.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			e.poke(st, e.fieldAddr(addr, typ, i), e.fieldOf(v, typ, i), s.Field(i).Type(), site)
		}
		return
	}
	if a, ok := typ.Underlying().(*types.Array); ok && (v.op == "array" || v.op == "zero") && a.Len() <= 16 {
		for i := int64(0); i < a.Len(); i++ {
			x := e.zero(a.Elem())
			if v.op == "array" {
				x = v.args[i]
			}
			e.poke(st, e.elemAddr(addr, e.T.Int(i), a.Elem()), x, a.Elem(), site)
		}
		return
	}
	ctx := st.top().ctx
	// Replacing the content of a guarded location hands the old content over
	// to whoever has read it.
	if site != nil && addr.op == "fa" {
		r := e.root(st, addr)
		if !e.owned(st, r) && e.lockedRoot(st, r) {
			old := e.peek(st, addr, typ)
			if old.op == "load" && old.args[0] == addr && isRef(typ) && v != old && !v.mentions(func(x *Term) bool { return x == old }) {
				st.detached[old] = true
			}
		}
	}
	kind := kindOf(addr, typ)
	for a := range st.mem {
		if a == addr || kindOf(a, st.memType[a]) != kind || a.op == "mok" {
			continue
		}
		if e.mayAlias(st, a, addr) && !e.isStable(a) {
			st.mem[a] = e.T.mk("havoc", "", st.memType[a], site, ctx, a)
		}
	}
	b := rawBase(addr)
	if isObj(b) && addr.op == "ia" && !addr.args[1].isConst() {
		st.fresh[b] = e.T.mk("epoch", "elem", nil, site, ctx)
	}
	if !(isObj(b) && !st.escaped[b] && st.pub[b] == nil) {
		st.kinds[kind] = e.T.mk("epoch", "store", nil, site, ctx)
	}
	st.mem[addr] = v
	st.memType[addr] = typ
	e.publish(st, addr, v)
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer:
		return true
	}
	return false
}

// publish records that v becomes reachable through addr.
func (e *Engine) publish(st *State, addr, v *Term) {
	r := e.root(st, addr)
	if e.owned(st, r) && !st.detached[r] {
		return
	}
	e.publishVal(st, addr, v, map[*Term]bool{})
}

func (e *Engine) publishVal(st *State, addr, v *Term, seen map[*Term]bool) {
	v = stripRef(v)
	if seen[v] {
		return
	}
	seen[v] = true
	switch v.op {
	case "alloc", "mk", "append", "appendv":
		if st.pub[v] == nil && !st.escaped[v] && e.root(st, addr) != v {
			st.pub[v] = addr
			for a, x := range st.mem {
				if rawBase(a) == v {
					e.publishVal(st, a, x, seen)
				}
			}
		}
		if v.op == "append" || v.op == "appendv" {
			for _, a := range v.args {
				e.publishVal(st, addr, a, seen)
			}
		}
	case "struct", "array":
		for _, a := range v.args {
			e.publishVal(st, addr, a, seen)
		}
	case "closure":
		for _, a := range v.args {
			e.escape(st, a)
		}
	}
}

func stripRef(v *Term) *Term {
	for {
		switch v.op {
		case "slice", "mkiface", "fa", "ia":
			v = v.args[0]
		default:
			return v
		}
	}
}

// escape records that v, and what it refers to, is known to unknown code.
func (e *Engine) escape(st *State, v *Term) {
	e.escapeVal(st, v, map[*Term]bool{})
}

func (e *Engine) escapeVal(st *State, v *Term, seen map[*Term]bool) {
	v = stripRef(v)
	if seen[v] {
		return
	}
	seen[v] = true
	switch v.op {
	case "alloc", "mk", "append", "appendv":
		st.escaped[v] = true
		for a, x := range st.mem {
			if rawBase(a) == v {
				e.escapeVal(st, x, seen)
			}
		}
		if v.op == "append" || v.op == "appendv" {
			for _, a := range v.args {
				e.escapeVal(st, a, seen)
			}
		}
	case "struct", "array", "closure":
		for _, a := range v.args {
			e.escapeVal(st, a, seen)
		}
	case "conv":
		e.escapeVal(st, v.args[0], seen)
	}
}

// bump forgets what is known of shared memory that unknown code or other
// goroutines may change.
func (e *Engine) bump(st *State, site ssa.Instruction, what string) {
	ctx := st.top().ctx
	ep := e.T.mk("epoch", what, nil, site, ctx)
	for a := range st.mem {
		r := e.root(st, a)
		if e.owned(st, r) || st.oepoch[r] != nil || e.isStable(rawBase(a)) {
			continue
		}
		if isObj(rawBase(a)) {
			st.fresh[rawBase(a)] = ep
		}
		delete(st.mem, a)
		delete(st.memType, a)
	}
	for b := range st.fresh {
		if st.escaped[b] && !e.isStable(b) {
			st.fresh[b] = ep
		}
	}
	st.genv = ep
}

// havocArgs forgets what opaque calls may change through their arguments.
func (e *Engine) havocArgs(st *State, args []*Term, site ssa.Instruction) {
	ctx := st.top().ctx
	ep := e.T.mk("epoch", "arg", nil, site, ctx)
	hit := e.reachable(st, args)
	for a := range st.mem {
		b := rawBase(a)
		if hit[b] && !e.isStable(b) && !stableArg(args, b, st) {
			delete(st.mem, a)
			delete(st.memType, a)
			if isObj(b) {
				st.fresh[b] = ep
			}
		}
	}
	for v := range hit {
		if _, ok := st.fresh[v]; ok && !stableArg(args, v, st) {
			st.fresh[v] = ep
		}
	}
}

// reachable lists the objects that are reached through the given values.
func (e *Engine) reachable(st *State, args []*Term) map[*Term]bool {
	hit := map[*Term]bool{}
	by := map[*Term][]*Term{}
	for a, x := range st.mem {
		b := rawBase(a)
		by[b] = append(by[b], x)
	}
	var visit func(*Term)
	visit = func(v *Term) {
		if hit[v] {
			return
		}
		if v.typ != nil {
			if _, ok := v.typ.Underlying().(*types.Basic); ok {
				return
			}
		}
		hit[v] = true
		switch v.op {
		case "fa", "ia", "slice", "mkiface", "conv", "struct", "array", "tuple", "closure", "append", "appendv":
			for _, a := range v.args {
				visit(a)
			}
		}
		for _, in := range []map[*Term]bool{e.PhiIn[v], e.PhiBk[v], e.MemIn[v]} {
			for a := range in {
				visit(a)
			}
		}
		for _, x := range by[v] {
			visit(x)
		}
	}
	for _, a := range args {
		visit(a)
	}
	return hit
}

// stableArg: arrays built for variadic arguments are not written by callees
// that only read them.
func stableArg(args []*Term, b *Term, st *State) bool {
	if al, ok := b.site.(*ssa.Alloc); ok && al.Comment == "varargs" {
		return true
	}
	return false
}

// havocMods forgets what a piece of code with the given effects may change.
// What it cannot reach through its arguments keeps its content.
func (e *Engine) havocMods(st *State, mods *modSet, args []*Term, site ssa.Instruction) {
	ctx := st.top().ctx
	reach := e.reachable(st, args)
	kept := func(b *Term) bool {
		return isObj(b) && e.owned(st, b) && st.pub[b] == nil && !st.detached[b] && !reach[b]
	}
	ep := e.T.mk("epoch", "rec", nil, site, ctx)
	for a := range st.mem {
		typ := st.memType[a]
		if (mods.hit(a, typ) || mods.hitsArg(a)) && !e.isStable(rawBase(a)) && !kept(rawBase(a)) {
			h := e.T.mk("havoc", "", typ, site, ctx, a)
			if e.MemIn[h] == nil {
				e.MemIn[h] = map[*Term]bool{}
			}
			for o := range reach {
				if isObj(o) {
					e.MemIn[h][o] = true
				}
			}
			st.mem[a] = h
		}
	}
	for k := range mods.kinds() {
		st.kinds[k] = ep
	}
	for a := range st.fresh {
		if kept(a) {
			continue
		}
		if a.op == "alloc" && !e.isStable(a) && mods.mayWrite(deref(a.typ)) || a.op == "mk" && mods.mayWrite(a.typ) {
			st.fresh[a] = ep
		}
	}
	if mods.bumps {
		e.bump(st, site, "rec")
	}
}

// ---- facts ----

// known decides a predicate from the facts of the path.
func (e *Engine) known(st *State, c *Term) (val, ok bool) {
	neg := false
	for c.op == "not" {
		c = c.args[0]
		neg = !neg
	}
	if v, ok := c.boolVal(); ok {
		return v != neg, true
	}
	if v, ok := st.facts[c]; ok {
		return v != neg, true
	}
	switch c.op {
	case "lt0", "eq0":
		if v, ok := e.knownLin(st, c); ok {
			return v != neg, true
		}
	case "eq":
		for i := 0; i < 2; i++ {
			a, b := c.args[i], c.args[1-i]
			for f, v := range st.facts {
				if !v || f.op != "eq" || f == c {
					continue
				}
				var other *Term
				if f.args[0] == a {
					other = f.args[1]
				} else if f.args[1] == a {
					other = f.args[0]
				} else {
					continue
				}
				q := e.T.Eq(other, b)
				if q == c {
					continue
				}
				if bv, ok := q.boolVal(); ok {
					return bv != neg, true
				}
				qn := false
				if q.op == "not" {
					q, qn = q.args[0], true
				}
				if bv, ok := st.facts[q]; ok {
					return (bv != qn) != neg, true
				}
			}
		}
	}
	return false, false
}

func (e *Engine) knownLin(st *State, c *Term) (bool, bool) {
	l := c.obj.(linear)
	shape := l.shape()
	nshape := l.neg().shape()
	const inf = int64(1) << 60
	lo, hi := -inf, inf // bounds of the linear part without constant
	ne := map[int64]bool{}
	// Lengths and unsigned values are not negative.
	if ts := l.terms(); true {
		allPos, allNeg := true, true
		for _, t := range ts {
			nonneg := t.op == "len" || isUnsigned(t.typ)
			if !nonneg || l.coef[t] < 0 {
				allPos = false
			}
			if !nonneg || l.coef[t] > 0 {
				allNeg = false
			}
		}
		if allPos {
			lo = 0
		}
		if allNeg {
			hi = 0
		}
	}
	for f, v := range st.facts {
		if f.op != "lt0" && f.op != "eq0" {
			continue
		}
		fl := f.obj.(linear)
		k := fl.k
		sign := int64(0)
		if s := fl.shape(); s == shape {
			sign = 1
		} else if s == nshape {
			sign = -1
		} else {
			continue
		}
		// fl = sign*x + k, with x the linear part of l
		switch {
		case f.op == "eq0" && v:
			x := -k * sign
			lo, hi = max(lo, x), min(hi, x)
		case f.op == "eq0":
			ne[-k*sign] = true
		case v && sign > 0: // x + k < 0
			hi = min(hi, -k-1)
		case v: // -x + k < 0
			lo = max(lo, k+1)
		case sign > 0: // x + k >= 0
			lo = max(lo, -k)
		default: // -x + k >= 0
			hi = min(hi, k)
		}
	}
	for ne[lo] && lo < hi {
		lo++
	}
	for ne[hi] && lo < hi {
		hi--
	}
	if c.op == "lt0" { // x + l.k < 0
		if hi < -l.k {
			return true, true
		}
		if lo >= -l.k {
			return false, true
		}
		return false, false
	}
	x := -l.k
	if lo == hi && lo == x {
		return true, true
	}
	if x < lo || x > hi || ne[x] {
		return false, true
	}
	return false, false
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// assume adds a fact; it reports whether the path remains feasible.
func (e *Engine) assume(st *State, c *Term, v bool) bool {
	for c.op == "not" {
		c = c.args[0]
		v = !v
	}
	if k, ok := e.known(st, c); ok {
		if k == v {
			st.facts[c] = v
			if c.isConst() {
				delete(st.facts, c)
			}
		}
		return k == v
	}
	st.facts[c] = v
	return true
}

// ---- instructions ----

func (e *Engine) run(st *State) {
	for {
		e.steps++
		if e.steps-e.steps0 > e.MaxSteps {
			return
		}
		fr := st.top()
		if fr.unwinding {
			if e.unwind(st) {
				return
			}
			continue
		}
		in := fr.block.Instrs[fr.pc]
		done := e.step(st, fr, in)
		if done {
			return
		}
	}
}

func (e *Engine) set(st *State, v ssa.Value, t *Term) { st.top().env[v] = t }

// step interprets one instruction abstractly; it reports whether the state
// was consumed (forked, finished or pushed).
func (e *Engine) step(st *State, fr *Frame, in ssa.Instruction) bool {
	T := e.T
	ctx := fr.ctx
	switch in := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
	case *ssa.Alloc:
		t := T.mk("alloc", "", in.Type(), in, ctx)
		for a := range st.mem {
			if rawBase(a) == t {
				delete(st.mem, a)
				delete(st.memType, a)
			}
		}
		st.fresh[t] = nil
		delete(st.escaped, t)
		delete(st.pub, t)
		e.set(st, in, t)
	case *ssa.MakeMap:
		t := T.mk("mk", "map", in.Type(), in, ctx)
		e.freshObj(st, t)
		e.set(st, in, t)
	case *ssa.MakeChan:
		t := T.mk("mk", "chan", in.Type(), in, ctx)
		e.freshObj(st, t)
		e.set(st, in, t)
	case *ssa.MakeSlice:
		t := T.mk("mk", "slice", in.Type(), in, ctx, e.val(st, in.Len))
		e.freshObj(st, t)
		e.set(st, in, t)
	case *ssa.MakeInterface:
		t := T.mk("mkiface", types.TypeString(in.X.Type(), nil), in.Type(), nil, nil, e.val(st, in.X))
		t.obj = in.X.Type()
		e.set(st, in, t)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, e.val(st, b))
		}
		t := T.mk("closure", in.Fn.String(), in.Type(), nil, nil, bs...)
		t.obj = in.Fn
		e.set(st, in, t)
	case *ssa.ChangeType:
		x := e.val(st, in.X)
		e.set(st, in, x)
	case *ssa.ChangeInterface:
		e.set(st, in, e.val(st, in.X))
	case *ssa.Convert:
		e.set(st, in, e.conv(e.val(st, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		v := in.(ssa.Value)
		e.set(st, v, T.mk("opaque", "", v.Type(), in, ctx))
	case *ssa.FieldAddr:
		e.set(st, in, e.fieldAddr(e.val(st, in.X), in.X.Type(), in.Field))
	case *ssa.Field:
		e.set(st, in, e.fieldOf(e.val(st, in.X), in.X.Type(), in.Field))
	case *ssa.IndexAddr:
		e.set(st, in, e.elemAddr(e.val(st, in.X), e.val(st, in.Index), deref(in.Type())))
	case *ssa.Index:
		x, i := e.val(st, in.X), e.val(st, in.Index)
		if iv, ok := i.intVal(); ok && x.op == "array" && int(iv) < len(x.args) {
			e.set(st, in, x.args[iv])
		} else {
			e.set(st, in, T.mk("index", "", in.Type(), nil, nil, x, i))
		}
	case *ssa.Lookup:
		e.lookup(st, in)
	case *ssa.MapUpdate:
		m, k, v := e.val(st, in.Map), e.val(st, in.Key), e.val(st, in.Value)
		mt := in.Map.Type().Underlying().(*types.Map)
		e.event(st, &Event{Kind: "mapupdate", Args: []*Term{m, k, v}, Site: in})
		me := T.mk("me", "", types.NewPointer(mt.Elem()), nil, nil, m, k)
		mok := T.mk("mok", "", types.NewPointer(types.Typ[types.Bool]), nil, nil, m, k)
		e.mapStore(st, m, mt, in)
		e.store(st, me, v, mt.Elem(), in)
		st.mem[mok] = T.Bool(true)
		st.memType[mok] = types.Typ[types.Bool]
		e.publish(st, me, k)
	case *ssa.UnOp:
		return e.unop(st, in)
	case *ssa.BinOp:
		e.set(st, in, T.Bin(in.Op, e.val(st, in.X), e.val(st, in.Y), in.Type()))
	case *ssa.Store:
		addr, v := e.val(st, in.Addr), e.val(st, in.Val)
		e.event(st, &Event{Kind: "store", Args: []*Term{addr, v}, Site: in})
		e.store(st, addr, v, in.Val.Type(), in)
		if !e.derefd(st, addr) {
			return true
		}
	case *ssa.Slice:
		x := e.val(st, in.X)
		lo, hi := T.Nil(), T.Nil()
		if in.Low != nil {
			lo = e.val(st, in.Low)
			if v, ok := lo.intVal(); ok && v == 0 {
				lo = T.Nil()
			}
		}
		if in.High != nil {
			hi = e.val(st, in.High)
		}
		if lo.isNil() && hi.isNil() {
			if _, ok := in.X.Type().Underlying().(*types.Slice); ok && in.Max == nil {
				e.set(st, in, x)
				break
			}
		}
		mx := T.Nil()
		if in.Max != nil {
			mx = e.val(st, in.Max)
		}
		e.set(st, in, T.mk("slice", "", in.Type(), nil, nil, x, lo, hi, mx))
	case *ssa.Extract:
		t := e.val(st, in.Tuple)
		if t.op == "tuple" {
			e.set(st, in, t.args[in.Index])
		} else {
			e.set(st, in, T.mk("extract", fmt.Sprint(in.Index), in.Type(), nil, nil, t))
		}
	case *ssa.TypeAssert:
		return e.typeAssert(st, in)
	case *ssa.Range:
		e.set(st, in, T.mk("range", "", in.Type(), in, ctx, e.val(st, in.X)))
		m := e.val(st, in.X)
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok && e.OnAccess != nil {
			e.OnAccess(st, &Access{Addr: T.mk("me", "", types.NewPointer(mt.Elem()), nil, nil, m, T.mk("anykey", "", mt.Key(), nil, nil)), Type: mt.Elem(), Site: in, Fn: fr.fn})
		}
	case *ssa.Next:
		r := e.val(st, in.Iter)
		tup := in.Type().(*types.Tuple)
		ok := T.mk("nextok", "", types.Typ[types.Bool], in, ctx, r)
		k := T.mk("nextk", "", tup.At(1).Type(), in, ctx, r)
		v := T.mk("nextv", "", tup.At(2).Type(), in, ctx, r)
		if rg, isR := in.Iter.(*ssa.Range); isR {
			if mt, isM := rg.X.Type().Underlying().(*types.Map); isM {
				k.typ, v.typ = mt.Key(), mt.Elem()
				// The value is the map's content for that key.
				if e.OnAccess != nil {
					e.OnAccess(st, &Access{Addr: T.mk("me", "", types.NewPointer(mt.Elem()), nil, nil, r.args[0], k), Type: mt.Elem(), Site: in, Fn: fr.fn})
				}
			}
		}
		t := T.mk("tuple", "", in.Type(), nil, nil, ok, k, v)
		e.set(st, in, t)
	case *ssa.Send:
		ch, v := e.val(st, in.Chan), e.val(st, in.X)
		e.escape(st, v)
		e.event(st, &Event{Kind: "send", Args: []*Term{ch, v}, Site: in})
		e.bump(st, in, "send")
	case *ssa.Select:
		return e.selectStmt(st, in)
	case *ssa.Go:
		e.goStmt(st, in)
	case *ssa.Defer:
		d := deferred{call: in}
		d.recv, d.args = e.callOperands(st, in.Common())
		dup := false
		for _, x := range fr.defers {
			if x.call == d.call && x.recv == d.recv && sameTerms(x.args, d.args) {
				dup = true
			}
		}
		if !dup {
			fr.defers = append(fr.defers, d)
		}
		e.event(st, &Event{Kind: "defer", Name: calleeName(in.Common(), d.recv), Args: d.args, Site: in})
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			return e.call(st, d.call, d.call.Common(), d.recv, d.args, nil, true)
		}
	case *ssa.Call:
		recv, args := e.callOperands(st, in.Common())
		fr.pc++
		return e.call(st, in, in.Common(), recv, args, in, false)
	case *ssa.Jump:
		e.enterBlock(st, fr.block, fr.block.Succs[0])
		return true
	case *ssa.If:
		c := e.val(st, in.Cond)
		b := fr.block
		if v, ok := e.known(st, c); ok {
			to := b.Succs[1]
			if v {
				to = b.Succs[0]
			}
			e.assume(st, c, v)
			e.enterBlock(st, b, to)
			return true
		}
		st2 := st.clone()
		if e.assume(st2, c, false) {
			e.enterBlock(st2, b, b.Succs[1])
		}
		if e.assume(st, c, true) {
			e.enterBlock(st, b, b.Succs[0])
		}
		return true
	case *ssa.Return:
		var res []*Term
		for _, r := range in.Results {
			res = append(res, e.val(st, r))
		}
		return e.ret(st, res, in)
	case *ssa.Panic:
		st.panicVal = e.val(st, in.X)
		st.recoverd = false
		e.event(st, &Event{Kind: "panic", Args: []*Term{st.panicVal}, Site: in})
		fr.unwinding = true
		return false
	default:
		if v, ok := in.(ssa.Value); ok {
			e.set(st, v, T.mk("opaque", fmt.Sprintf("%T", in), v.Type(), in, ctx))
		} else {
			e.undecided("%s: unsupported instruction %T", e.P.Pos(in.Pos()), in)
		}
	}
	fr.pc++
	return false
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (e *Engine) freshObj(st *State, t *Term) {
	for a := range st.mem {
		if rawBase(a) == t {
			delete(st.mem, a)
			delete(st.memType, a)
		}
	}
	st.fresh[t] = nil
	delete(st.escaped, t)
	delete(st.pub, t)
}

func (e *Engine) conv(x *Term, from, to types.Type) *Term {
	if x.isConst() {
		if b, ok := to.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 && x.cval.Kind() == constant.Int && fits(x.cval, b) {
				return e.T.Const(x.cval, to)
			}
			if b.Info()&types.IsFloat != 0 && (x.cval.Kind() == constant.Int || x.cval.Kind() == constant.Float) {
				return e.T.Const(constant.ToFloat(x.cval), to)
			}
			if b.Info()&types.IsString != 0 && x.cval.Kind() == constant.String {
				return e.T.Const(x.cval, to)
			}
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return x
	}
	// Converting back and forth between integer types of one size is the identity.
	if x.op == "conv" && isInt(from) && isInt(to) && x.args[0].typ != nil && isInt(x.args[0].typ) &&
		types.Identical(x.args[0].typ.Underlying(), to.Underlying()) && intSize(from) >= intSize(to) {
		return x.args[0]
	}
	return e.T.mk("conv", types.TypeString(to.Underlying(), nil), to, nil, nil, x)
}

func intSize(t types.Type) int64 {
	return types.SizesFor("gc", "amd64").Sizeof(t)
}

func fits(v constant.Value, b *types.Basic) bool {
	if b.Info()&types.IsUnsigned != 0 {
		if constant.Sign(v) < 0 {
			return false
		}
	}
	bits := int(intSize(b) * 8)
	n := constant.BitLen(v)
	if b.Info()&types.IsUnsigned != 0 {
		return n <= bits
	}
	return n < bits
}

func (e *Engine) lookup(st *State, in *ssa.Lookup) {
	T := e.T
	x, k := e.val(st, in.X), e.val(st, in.Index)
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok { // string index
		e.set(st, in, T.mk("index", "", in.Type(), nil, nil, x, k))
		return
	}
	e.event(st, &Event{Kind: "mapread", Args: []*Term{x, k}, Site: in})
	me := T.mk("me", "", types.NewPointer(mt.Elem()), nil, nil, x, k)
	mok := T.mk("mok", "", types.NewPointer(types.Typ[types.Bool]), nil, nil, x, k)
	v := e.load(st, me, mt.Elem(), in)
	if !in.CommaOk {
		e.set(st, in, v)
		return
	}
	o := e.peek(st, mok, types.Typ[types.Bool])
	e.set(st, in, T.mk("tuple", "", in.Type(), nil, nil, v, o))
}

// mapStore forgets what is known of presence in maps that may be m.
func (e *Engine) mapStore(st *State, m *Term, mt *types.Map, site ssa.Instruction) {
	for a := range st.mem {
		if a.op == "mok" && a.args[0] != m && kindOf(a, nil) == "m:"+types.TypeString(mt, nil) {
			if isObj(a.args[0]) && isObj(m) {
				continue
			}
			if isObj(m) && !st.escaped[m] && st.pub[m] == nil || isObj(a.args[0]) && !st.escaped[a.args[0]] && st.pub[a.args[0]] == nil {
				continue
			}
			st.mem[a] = e.T.mk("havoc", "", types.Typ[types.Bool], site, st.top().ctx, a)
		}
	}
	if isObj(m) && !st.escaped[m] {
		// Other keys of a local map: those known stay known, the others are
		// no longer known to be absent (a loop may add any key).
	}
}

// derefd: whoever gets past an access knows that the pointer is not nil. It
// reports false where the path has found it nil, so that the access panics.
func (e *Engine) derefd(st *State, addr *Term) bool {
	b := addr
	for b.op == "fa" || b.op == "ia" {
		b = b.args[0]
	}
	if _, ok := b.typ.(*types.Pointer); !ok || e.T.nonNil(b) {
		return true
	}
	if e.OnDeref != nil {
		e.OnDeref(st, b)
	}
	return e.assume(st, e.T.Eq(b, e.T.Nil()), false)
}

func (e *Engine) unop(st *State, in *ssa.UnOp) bool {
	T := e.T
	fr := st.top()
	x := e.val(st, in.X)
	switch in.Op {
	case token.MUL:
		e.event(st, &Event{Kind: "load", Args: []*Term{x}, Site: in})
		e.set(st, in, e.load(st, x, in.Type(), in))
		if !e.derefd(st, x) {
			return true
		}
	case token.NOT:
		e.set(st, in, T.Not(x))
	case token.SUB:
		if isInt(in.Type()) {
			e.set(st, in, T.Bin(token.SUB, T.Const(constant.MakeInt64(0), in.Type()), x, in.Type()))
		} else {
			e.set(st, in, T.mk("neg", "", in.Type(), nil, nil, x))
		}
	case token.ARROW:
		var r *Term
		v := T.mk("recv", "", in.Type(), in, fr.ctx, x)
		if in.CommaOk {
			tup := in.Type().(*types.Tuple)
			v.typ = tup.At(0).Type()
			r = T.mk("tuple", "", in.Type(), nil, nil, v, T.mk("recvok", "", types.Typ[types.Bool], in, fr.ctx, x))
		} else {
			r = v
		}
		e.event(st, &Event{Kind: "recv", Args: []*Term{x}, Res: v, Site: in})
		e.bump(st, in, "recv")
		e.set(st, in, r)
	default:
		e.set(st, in, T.mk("unop", in.Op.String(), in.Type(), nil, nil, x))
	}
	fr.pc++
	return false
}

func (e *Engine) typeAssert(st *State, in *ssa.TypeAssert) bool {
	T := e.T
	fr := st.top()
	x := e.val(st, in.X)
	var okT *Term
	v := T.mk("tassert", types.TypeString(in.AssertedType, nil), in.AssertedType, nil, nil, x)
	v.obj = in.AssertedType
	if x.op == "mkiface" {
		dyn := x.obj.(types.Type)
		if types.IsInterface(in.AssertedType) {
			okT = T.Bool(types.Implements(dyn, in.AssertedType.Underlying().(*types.Interface)))
			v = x
		} else {
			same := types.Identical(dyn, in.AssertedType)
			okT = T.Bool(same)
			if same {
				v = x.args[0]
			}
		}
	} else if x.isNil() {
		okT = T.Bool(false)
	} else {
		okT = T.mk("istype", types.TypeString(in.AssertedType, nil), types.Typ[types.Bool], nil, nil, x)
		okT.obj = in.AssertedType
	}
	if in.CommaOk {
		if b, ok := okT.boolVal(); ok && !b {
			v = e.zero(in.AssertedType)
		}
		e.set(st, in, T.mk("tuple", "", in.Type(), nil, nil, v, okT))
	} else {
		e.event(st, &Event{Kind: "assert", Args: []*Term{x}, Res: okT, Site: in})
		if b, ok := e.known(st, okT); ok && !b {
			st.panicVal = T.mk("opaque", "panic", nil, in, fr.ctx)
			fr.unwinding = true
			return false
		}
		e.assume(st, okT, true)
		e.set(st, in, v)
	}
	fr.pc++
	return false
}

func (e *Engine) selectStmt(st *State, in *ssa.Select) bool {
	T := e.T
	fr := st.top()
	tup := in.Type().(*types.Tuple)
	n := len(in.States)
	if !in.Blocking {
		n++
	}
	for i := 0; i < n; i++ {
		s := st.clone()
		f := s.top()
		args := make([]*Term, tup.Len())
		idx := i
		if i == len(in.States) {
			idx = -1
		}
		args[0] = T.Int(int64(idx))
		args[1] = T.mk("selok", fmt.Sprint(i), types.Typ[types.Bool], in, f.ctx)
		r := 2
		for j, ss := range in.States {
			if ss.Dir == types.RecvOnly {
				args[r] = T.mk("recv", fmt.Sprint(j), tup.At(r).Type(), in, f.ctx, e.val(s, ss.Chan))
				r++
			}
		}
		if idx >= 0 {
			ss := in.States[i]
			ev := &Event{Kind: "recv", Args: []*Term{e.val(s, ss.Chan)}, Site: in}
			if ss.Dir == types.SendOnly {
				v := e.val(s, ss.Send)
				e.escape(s, v)
				ev = &Event{Kind: "send", Args: []*Term{e.val(s, ss.Chan), v}, Site: in}
			}
			ev.Name = "select"
			if !in.Blocking {
				ev.Name = "select-default"
			}
			e.event(s, ev)
			e.bump(s, in, fmt.Sprint("select", i))
		}
		f.env[in] = T.mk("tuple", "", in.Type(), nil, nil, args...)
		f.pc++
		e.push(s)
	}
	_ = fr
	return true
}

func (e *Engine) ret(st *State, res []*Term, site ssa.Instruction) bool {
	fr := st.top()
	// Loops of the frame end here, other than through their header.
	if len(st.frames) == 1 {
		st.ended = true
		if e.OnExit != nil {
			e.OnExit(st, &Exit{Kind: "return", Results: res, Fn: fr.fn, Site: site})
		}
		return true
	}
	st.frames = st.frames[:len(st.frames)-1]
	caller := st.top()
	if fr.isDefer {
		return false // RunDefers is executed again
	}
	if fr.ret != nil {
		switch len(res) {
		case 0:
		case 1:
			caller.env[fr.ret] = res[0]
		default:
			caller.env[fr.ret] = e.T.mk("tuple", "", nil, nil, nil, res...)
		}
	}
	return false
}

// unwind runs deferred calls of a panicking frame; it reports whether the
// path is finished.
func (e *Engine) unwind(st *State) bool {
	fr := st.top()
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		return e.call(st, d.call, d.call.Common(), d.recv, d.args, nil, true)
	}
	if st.recoverd {
		st.recoverd = false
		st.panicVal = nil
		fr.unwinding = false
		fr.loops = nil
		if fr.fn.Recover != nil {
			fr.block, fr.pc = fr.fn.Recover, 0
			return false
		}
		var res []*Term
		rs := fr.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			res = append(res, e.zero(rs.At(i).Type()))
		}
		return e.ret(st, res, fr.block.Instrs[len(fr.block.Instrs)-1])
	}
	if len(st.frames) == 1 {
		st.ended = true
		if e.OnExit != nil {
			e.OnExit(st, &Exit{Kind: "panic", Fn: fr.fn, Site: fr.block.Instrs[min(fr.pc, len(fr.block.Instrs)-1)]})
		}
		return true
	}
	st.frames = st.frames[:len(st.frames)-1]
	if fr.isDefer {
		// A panic in a deferred call: the panic continues in the caller.
	}
	st.top().unwinding = true
	return false
}

// event reports an event to the rule.
func (e *Engine) event(st *State, ev *Event) {
	fr := st.top()
	ev.Fn, ev.Ctx = fr.fn, fr.ctx
	ev.Locks = append([]*Lock(nil), st.locks...)
	if e.OnEvent != nil {
		e.OnEvent(st, ev)
	}
	if e.Keep != nil && e.Keep(st, ev) {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%s@%d.%d", ev.Kind, e.T.siteID(ev.Site), fr.ctx.id)
		for _, a := range ev.Args {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
		if len(ev.Locks) > 0 {
			for _, l := range ev.Locks {
				sb.WriteString("L" + l.key())
			}
		}
		st.trace = append(st.trace, &TItem{Ev: ev, Ctx: fr.ctx, key: sb.String()})
	}
}

// sortedFacts prints the facts of a path, for reports.
func (e *Engine) sortedFacts(st *State) []string {
	var out []string
	for f, v := range st.facts {
		s := f.String()
		if !v {
			s = "!" + s
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// Continue analyses a function from where another path has ended, e.g. a
// closure that was returned.
func (e *Engine) Continue(st *State, fn *ssa.Function, args, bindings []*Term) {
	run := func() {
		n := st.clone()
		n.trace, n.notes, n.locks, n.ended = nil, map[string]string{}, nil, false
		n.entry = fn.String()
		fr := &Frame{fn: fn, ctx: e.T.mkCtx(nil, nil, fn), env: map[ssa.Value]*Term{}}
		for i, p := range fn.Params {
			fr.env[p] = args[i]
		}
		for i, f := range fn.FreeVars {
			fr.env[f] = bindings[i]
		}
		n.frames = []*Frame{fr}
		e.Inlined[fn] = true
		e.enterBlock(n, nil, fn.Blocks[0])
		e.loop()
	}
	if e.Loops {
		e.warm(run)
	}
	run()
}
