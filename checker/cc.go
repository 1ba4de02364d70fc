package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ccModel knows the roles of ChunkedCollector's fields, found by type and use.
type ccModel struct {
	r       *R
	n       *types.Named
	pending int // map by span ID: the queue
	counter int // unexported integer: bytes accounted for the queue
	errF    int // error of background flushes
	max     int // MaxQueueSize
	flags   []int
	stopped int // set by Stop
	collect *ssa.Function
	flush   *ssa.Function
	stop    *ssa.Function
	rv      *relevance // reaches a delivery
}

func newCC(r *R) *ccModel {
	p := r.P
	m := &ccModel{r: r, n: p.Named("", "ChunkedCollector"), stopped: -1}
	if !r.Require(m.n != nil, "anchor", "type ChunkedCollector") {
		return nil
	}
	one := func(what string, pred func(*types.Var) bool) int {
		fs := fieldsOf(m.n, pred)
		if !r.Require(len(fs) == 1, "anchor", "ChunkedCollector's "+what) {
			return -1
		}
		return fs[0]
	}
	m.pending = one("queue (a map keyed by SpanID)", func(v *types.Var) bool {
		t, ok := v.Type().Underlying().(*types.Map)
		return ok && isNamed(t.Key(), "", "SpanID")
	})
	m.counter = one("byte counter (an unexported integer field)", func(v *types.Var) bool { return !v.Exported() && isInt(v.Type()) })
	m.errF = one("error of background flushes (an error field)", func(v *types.Var) bool { return isErrorType(v.Type()) })
	m.max = one("MaxQueueSize", func(v *types.Var) bool { return v.Name() == "MaxQueueSize" })
	m.flags = fieldsOf(m.n, func(v *types.Var) bool {
		if v.Exported() || isInt(v.Type()) {
			return false
		}
		switch u := v.Type().Underlying().(type) {
		case *types.Basic:
			return u.Info()&(types.IsBoolean) != 0
		case *types.Chan:
			return true
		}
		return false
	})
	m.collect, m.flush, m.stop = p.Method("", "ChunkedCollector", "Collect"), p.Method("", "ChunkedCollector", "Flush"), p.Method("", "ChunkedCollector", "Stop")
	if !r.Require(m.collect != nil && m.flush != nil && m.stop != nil && len(m.collect.Blocks) > 0, "anchor", "ChunkedCollector's methods Collect, Flush and Stop") {
		return nil
	}
	if m.pending < 0 || m.counter < 0 || m.errF < 0 || m.max < 0 {
		return nil
	}
	m.rv = newRelevance(p, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Collect"
	})
	return m
}

// methods lists what callers can call, apart from embedded methods.
func (m *ccModel) methods() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range m.r.P.methodsOf(m.n) {
		if fn.Object().Exported() {
			out = append(out, fn)
		}
	}
	return out
}

// inSection reports a value loaded since the lock that guards it was taken.
func (e *Engine) inSection(st *State, t *Term) bool {
	if t.op != "load" || len(t.args) < 2 {
		return false
	}
	v := t.args[1]
	if v.op == "ver" {
		v = v.args[0]
	}
	return st.oepoch[e.root(st, t.args[0])] == v
}

// loads lists the values that the path's facts know to have been read from addr.
func (e *Engine) loads(st *State, addr *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for f := range st.facts {
		f.mentions(func(t *Term) bool {
			if t.op == "load" && t.args[0] == addr && !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
			return false
		})
	}
	return out
}

// was reports that the field was read in this critical section and found zero
// (or set).
func (m *ccModel) was(e *Engine, st *State, obj *Term, i int, zero bool) bool {
	for _, t := range e.loads(st, e.faddr(obj, m.n, i)) {
		if e.inSection(st, t) && (zero && e.isZero(st, t) || !zero && e.isSet(st, t)) {
			return true
		}
	}
	return false
}

// ever is the same for any time on the path.
func (m *ccModel) ever(e *Engine, st *State, obj *Term, i int, zero bool) bool {
	for _, t := range e.loads(st, e.faddr(obj, m.n, i)) {
		if zero && e.isZero(st, t) || !zero && e.isSet(st, t) {
			return true
		}
	}
	return false
}

func (m *ccModel) owner(ev *Event, i int) *Term {
	if len(ev.Args) > 0 && isFieldOf(ev.Args[0], m.n, i) {
		return ev.Args[0].args[0]
	}
	return nil
}

// isQueue reports a map that is the queue of obj at this point.
func (m *ccModel) isQueue(e *Engine, st *State, mp, obj *Term) bool {
	return e.fval(st, obj, m.n, m.pending) == mp
}

// findStopped determines the flag that Stop leaves set.
func (m *ccModel) findStopped() bool {
	p := m.r.P
	cand := map[int]int{}
	exits := 0
	e := NewEngine(p)
	recv := e.Param(m.stop, 0)
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind != "unlock" {
			return
		}
		for _, i := range m.flags {
			if b, ok := m.n.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
				continue
			}
			k := fmt.Sprint("set", i)
			delete(st.notes, k)
			if e.isTrue(st, e.fval(st, recv, m.n, i)) {
				st.notes[k] = "1"
			}
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			return
		}
		exits++
		for _, i := range m.flags {
			if st.notes[fmt.Sprint("set", i)] != "" {
				cand[i]++
			}
		}
	}
	e.Run(m.stop, nil)
	m.r.Use(e)
	for _, i := range m.flags {
		if cand[i] == exits && exits > 0 {
			// "started" is not: Stop does not set it on every path.
			m.stopped = i
			return true
		}
	}
	m.r.Violate("stop-flag", "(*ChunkedCollector).Stop", m.stop.Pos(), "Stop can return without having set, under the lock, a flag that says so: %d return paths, flags set on: %v", exits, cand)
	return false
}

// ---- C03 ----

func init() {
	register(&Check{
		ID: "C03",
		Rule: "effects of every path of ChunkedCollector.Collect (all inlined helpers): no call of a Collector, no call of a user callback, no sleep, no channel wait, no polling of a lock in a loop; " +
			"and in every method and goroutine of the type, none of these effects while a lock is held that Collect acquires",
		NotCover: "time spent in the configured logger and in the Go scheduler",
		Run:      runC03,
	})
}

// slowEffect names an effect that may take arbitrarily long.
func slowEffect(ev *Event) string {
	switch ev.Kind {
	case "call":
		switch {
		case isCollect(ev):
			return "delivery to a collector"
		case ev.Name == "dynamic":
			return "call of a function value"
		case isBlocking(ev) || ev.Name == "runtime.Gosched":
			return "wait in " + ev.Name
		case ev.Iface && !strings.HasPrefix(ev.Name, "(error).") && !strings.HasPrefix(ev.Name, "(fmt.Stringer)."):
			return "call of " + ev.Name
		case strings.HasPrefix(ev.Name, "net.") || strings.HasPrefix(ev.Name, "(*net.") || strings.HasPrefix(ev.Name, "net/http.") || strings.HasPrefix(ev.Name, "(*net/http."):
			return "network operation " + ev.Name
		}
	case "send", "recv":
		if isBlocking(ev) {
			return "channel wait"
		}
	}
	return ""
}

func runC03(r *R) {
	m := newCC(r)
	if m == nil {
		return
	}
	p := r.P
	locks := map[string]bool{}
	e := NewEngine(p)
	e.Keep = func(st *State, ev *Event) bool { return ev.Kind == "lock" }
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind == "lock" {
			locks[lockKey(e, ev.Args[0])] = true
		}
		if ev.Kind == "go" {
			return
		}
		if s := slowEffect(ev); s != "" {
			r.Violate("collect-blocks", fnLabel(ev.Fn), ev.Site.Pos(), "Collect reaches a %s: the caller waits for it", s)
		}
		r.Count("events on Collect's paths", 1)
	}
	e.OnIter = func(st *State, it *LoopIter) {
		for _, ev := range callsOf(it.Items, func(ev *Event) bool { return ev.Kind == "lock" }) {
			r.Violate("collect-polls", fnLabel(ev.Fn), ev.Site.Pos(), "Collect acquires a lock again and again in a loop: it waits for another goroutine")
		}
	}
	e.OnExit = func(st *State, x *Exit) { r.Count("paths of Collect", 1) }
	e.Run(m.collect, nil)
	r.Use(e)
	for l := range locks {
		r.Sample("Collect takes %s", l)
		r.Count("locks that Collect takes", 1)
	}

	var threads []*Thread
	seen := map[ssa.Instruction]bool{}
	e2 := NewEngine(p)
	sections := map[ssa.Instruction]bool{}
	e2.OnThread = func(th *Thread) {
		if !seen[th.Site] {
			seen[th.Site] = true
			threads = append(threads, th)
		}
	}
	e2.OnEvent = func(st *State, ev *Event) {
		if ev.Kind == "lock" && !sections[ev.Site] {
			sections[ev.Site] = true
			r.Count("critical sections", 1)
		}
		if ev.Kind == "go" {
			return
		}
		s := slowEffect(ev)
		if s == "" {
			return
		}
		r.Count("slow effects outside the lock", 1)
		for _, l := range st.locks {
			if k := lockKey(e2, l.Addr); locks[k] {
				r.Violate("slow-under-lock", fnLabel(ev.Fn)+":"+k, ev.Site.Pos(), "%s while %s is held, which Collect needs: a slow one blocks Collect (reached from %s)", s, k, st.entry)
			}
		}
	}
	for _, fn := range m.methods() {
		e2.Run(fn, nil)
	}
	for i := 0; i < len(threads); i++ {
		e2.RunThread(threads[i])
		r.Count("goroutines", 1)
	}
	r.Use(e2)
	r.Floor("critical sections", 3)
	r.Floor("slow effects outside the lock", 3)
	r.Floor("locks that Collect takes", 1)
	r.Floor("goroutines", 1)
}

// ---- C04 ----

func init() {
	register(&Check{
		ID: "C04",
		Rule: "Collect: every accepting path adds all given annotations, after those already queued for the span, to the map that is the queue; Flush: the queue is taken and replaced in one critical section, the map taken is walked completely, " +
			"each iteration delivers its key and value exactly once, an error of an iteration reaches an accumulator that no iteration clears and that is empty wherever nil is returned, leaving early returns an error; " +
			"the flusher's errors are stored in the field that Collect returns and clears only when returning it",
		NotCover: "the underlying collector's own behaviour; what happens to data whose loss has been reported",
		Run:      runC04,
	})
}

func runC04(r *R) {
	m := newCC(r)
	if m == nil {
		return
	}
	m.acceptance(true, false)
	m.delivery()
	m.background()
	r.Floor("accepting paths", 2)
	r.Floor("delivering iterations", 1)
	r.Floor("background flushes", 1)
}

// acceptance checks the paths of Collect: that what is accepted is queued
// (C04), and that the queue is accounted for (C05).
func (m *ccModel) acceptance(queue, bytes bool) {
	r, p := m.r, m.r.P
	e := NewEngine(p)
	e.Loops = true
	fn := m.collect
	if len(fn.Params) != 3 {
		r.Require(false, "anchor", "Collect(SpanID, ...Annotation)")
		return
	}
	recv, span, anns := e.Param(fn, 0), e.Param(fn, 1), e.Param(fn, 2)
	e.OnEvent = func(st *State, ev *Event) {
		switch ev.Kind {
		case "mapupdate":
			mt, ok := ev.Args[0].typ.Underlying().(*types.Map)
			if !ok || !types.Identical(mt, m.n.Underlying().(*types.Struct).Field(m.pending).Type().Underlying()) {
				return
			}
			mp, k, v := ev.Args[0], ev.Args[1], ev.Args[2]
			if !m.isQueue(e, st, mp, recv) {
				r.Violate("queued-elsewhere", fnLabel(ev.Fn), ev.Site.Pos(), "annotations are added to a map that is not the collector's queue at that point")
				return
			}
			if k != span {
				r.Violate("queued-under", fnLabel(ev.Fn), ev.Site.Pos(), "annotations are queued under %s instead of the span they were given for", k)
				return
			}
			me := e.T.mk("me", "", types.NewPointer(mt.Elem()), nil, nil, mp, k)
			mok := e.T.mk("mok", "", types.NewPointer(types.Typ[types.Bool]), nil, nil, mp, k)
			old := e.peek(st, me, mt.Elem())
			absent := e.isFalse(st, e.peek(st, mok, types.Typ[types.Bool])) || e.empty(st, old)
			base, ps := e.appended(v)
			if v == anns {
				base, ps = e.T.Nil(), []piece{{slice: anns}}
			}
			switch {
			case len(ps) == 0 && base == old:
				return // unchanged
			case len(ps) != 1 || !e.wholeCopy(st, ps[0], anns):
				r.Violate("queued-value", fnLabel(ev.Fn), ev.Site.Pos(), "what is queued for the span is not shown to be what was queued before followed by exactly the given annotations")
				return
			case base == old:
			case absent && (e.empty(st, base) || e.lenZero(base)):
			default:
				r.Violate("queue-overwritten", fnLabel(ev.Fn), ev.Site.Pos(), "queueing replaces annotations that may already be queued for the span: they are lost without an error")
				return
			}
			st.notes["queued"] = "1"
		case "store":
			if obj := m.owner(ev, m.pending); obj == recv {
				old := e.fval(st, recv, m.n, m.pending)
				if !e.isNil(st, old) && !e.empty(st, old) {
					st.notes["dropped"] = "1"
				}
			}
		case "unlock":
			if !bytes {
				return
			}
			m.accounts(e, st, ev, recv, anns)
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			return
		}
		r.Count("paths of Collect", 1)
		res := x.Results[0]
		queued, dropped := st.notes["queued"] != "", st.notes["dropped"] != ""
		nothing := e.empty(st, anns) && m.present(e, st, span)
		if queue {
			switch {
			case queued:
				r.Count("accepting paths", 1)
				// A nil result means that no background error is pending.
				if !e.notNil(st, res) && !res.mentions(func(t *Term) bool { return t.op == "load" && isFieldOf(t.args[0], m.n, m.errF) }) &&
					!m.ever(e, st, recv, m.errF, true) {
					r.Violate("flush-error-ignored", fnLabel(x.Fn), x.Site.Pos(), "Collect can succeed without having found the error of background flushes to be nil")
				}
			case nothing:
			case !e.notNil(st, res):
				r.Violate("not-queued", fnLabel(x.Fn), x.Site.Pos(), "Collect can return nil on a path on which it has not queued the annotations")
			}
			if dropped && !e.notNil(st, res) {
				r.Violate("dropped-silently", fnLabel(x.Fn), x.Site.Pos(), "Collect can drop the queue without returning an error")
			}
		}
		if bytes {
			if st.notes["budget"] == "bad" {
				return
			}
			stopped := m.stopped >= 0 && m.ever(e, st, recv, m.stopped, false)
			switch {
			case dropped && !isSentinelNamed(res, "ErrQueueDropped"):
				r.Violate("drop-result", fnLabel(x.Fn), x.Site.Pos(), "Collect drops the queue but does not return ErrQueueDropped")
			case dropped && queued, queued:
				r.Count("accepting paths", 1)
			case dropped:
				r.Count("dropping paths", 1)
			case nothing || stopped:
			default:
				r.Violate("neither", fnLabel(x.Fn), x.Site.Pos(), "Collect neither queues the annotations nor drops the queue on a path on which the collector is not stopped")
			}
		}
	}
	e.Run(fn, nil)
	r.Use(e)
}

func isSentinelNamed(t *Term, name string) bool {
	g := sentinelOf(t)
	return g != nil && g.Name() == name
}

// present: the span is known to have a queue entry already.
func (m *ccModel) present(e *Engine, st *State, span *Term) bool {
	for f, v := range st.facts {
		if v && f.op == "load" && f.args[0].op == "mok" && f.args[0].args[1] == span {
			return true
		}
	}
	return false
}

// delivery checks Flush.
func (m *ccModel) delivery() {
	r, p := m.r, m.r.P
	e := NewEngine(p)
	e.Loops = true
	fn := m.flush
	type loopInfo struct {
		delivers, zero bool
		site           ssa.Instruction
		acc            map[*Term]bool // accumulators common to all failing iterations
		accSet         bool
		bad            map[*Term]bool // not monotonic
	}
	loops := map[string]*loopInfo{}
	info := func(l *Loop, c *Ctx) *loopInfo {
		k := loopName(l, c)
		if loops[k] == nil {
			loops[k] = &loopInfo{bad: map[*Term]bool{}}
		}
		return loops[k]
	}
	type exit struct {
		st *State
		x  *Exit
	}
	var exits []exit
	queueOf := func(st *State, t *Term) bool { // a map that was taken from the queue and replaced
		return t.op == "load" && isFieldOf(t.args[0], m.n, m.pending) && st.detached[t]
	}
	isKeys := func(st *State, s *Term) bool { // a list of all keys of the map taken
		base, ps := e.appended(s)
		if len(ps) != 1 || ps[0].loop == nil || !(e.empty(st, base) || e.lenZero(base)) {
			return false
		}
		k := ps[0].val
		return k.op == "nextk" && queueOf(st, k.args[0].args[0])
	}
	e.Keep = func(st *State, ev *Event) bool {
		return isCollect(ev) || ev.Kind == "store" && m.owner(ev, m.pending) != nil
	}
	e.OnEvent = func(st *State, ev *Event) {
		switch {
		case ev.Kind == "store" && m.owner(ev, m.pending) != nil:
			old := e.peek(st, ev.Args[0], deref(ev.Args[0].typ))
			if old.op == "load" && len(st.locks) > 0 {
				st.notes["took"] = fmt.Sprint(old.id)
			} else if !e.isNil(st, old) {
				r.Violate("take", fnLabel(ev.Fn), ev.Site.Pos(), "the queue is replaced outside the critical section in which it was read: what other goroutines queue in between is lost")
			}
		case isCollect(ev):
			r.Count("delivery sites reached", 1)
			if len(ev.Args) < 3 {
				r.Violate("delivered-value", fnLabel(ev.Fn), ev.Site.Pos(), "a collection that does not come from the queue is sent")
				return
			}
			k, v := ev.Args[1], lastArg(ev)
			var q *Term
			switch {
			case k.op == "nextk":
				q = k.args[0].args[0]
			case k.op == "load" || k.op == "struct":
				srcs, _ := e.elemsIn(k)
				for _, s := range srcs {
					if isKeys(st, s) && e.isElem(k, s) {
						_, ps := e.appended(s)
						q = ps[0].val.args[0].args[0]
					}
				}
			}
			if q == nil || !queueOf(st, q) {
				r.Violate("delivered-key", fnLabel(ev.Fn), ev.Site.Pos(), "a span is sent that is not shown to be a key of the queue that this flush took over (and replaced in the same critical section)")
				return
			}
			if !(v.op == "nextv" && k.op == "nextk" && v.args[0] == k.args[0]) && !(v.op == "load" && v.args[0].op == "me" && v.args[0].args[0] == q && v.args[0].args[1] == k) {
				r.Violate("delivered-value", fnLabel(ev.Fn), ev.Site.Pos(), "what is sent for a span is not the list of annotations queued for that span")
			}
		}
	}
	e.OnIter = func(st *State, it *LoopIter) {
		li := info(it.Loop, it.Ctx)
		cs := callsOf(it.Items, isCollect)
		nested := false
		for _, i := range it.Items {
			if i.Loop != nil && loops[loopName(i.Loop, i.Ctx)] != nil && loops[loopName(i.Loop, i.Ctx)].delivers {
				nested = true
			}
		}
		if nested {
			r.Violate("delivered-twice", fnLabel(it.Loop.fn), it.Site.Pos(), "the whole queue may be sent more than once")
		}
		if len(cs) == 0 {
			walksQueue := false
			for f, v := range st.facts {
				if v && f.op == "nextok" && siteIn(f.site, f.ctx, it.Loop, it.Ctx) && queueOf(st, f.args[0].args[0]) {
					walksQueue = true
				}
			}
			li.zero = li.zero || walksQueue || li.delivers
			if li.site == nil {
				li.site = it.Site
			}
			return
		}
		li.delivers = true
		li.site = cs[0].Site
		r.Count("delivering iterations", 1)
		if len(cs) > 1 {
			r.Violate("delivered-twice", fnLabel(cs[1].Fn), cs[1].Site.Pos(), "an iteration of the flush loop sends a span's annotations %d times", len(cs))
		}
		failed := false
		got := map[*Term]bool{}
		for phi, v := range it.Vals {
			if v != phi && !v.has(phi) && !e.notNil(st, v) {
				li.bad[phi] = true
			}
		}
		for _, c := range cs {
			er := e.errResult(c)
			if er == nil || e.isNil(st, er) {
				continue
			}
			failed = true
			for phi, v := range it.Vals {
				if v.has(er) || v != phi && e.notNil(st, v) && !isInt(phi.typ) || v == phi && e.isSet(st, v) {
					got[phi] = true
				}
			}
			for a, v := range st.mem {
				if v.has(er) && rawBase(a).op == "alloc" {
					got[a] = true
				}
			}
		}
		if failed {
			if !li.accSet {
				li.acc, li.accSet = got, true
			}
			for a := range li.acc {
				if !got[a] {
					delete(li.acc, a)
				}
			}
			if len(got) == 0 {
				r.Violate("error-dropped", fnLabel(it.Loop.fn), cs[0].Site.Pos(), "an error of the underlying collector is neither returned nor kept by the iteration that met it")
			}
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind == "return" {
			exits = append(exits, exit{st, x})
		}
	}
	e.Run(fn, nil)
	r.Use(e)
	for _, li := range loops {
		if li.delivers && li.zero {
			r.Violate("not-delivered", fnLabel(fn), li.site.Pos(), "an iteration of the flush loop can skip its span: its annotations have left the queue and are not sent")
		}
	}
	for _, ex := range exits {
		st, x := ex.st, ex.x
		res := x.Results[0]
		r.Count("paths of Flush", 1)
		took := st.notes["took"]
		if took == "" {
			continue
		}
		var q *Term
		for _, t := range e.T.all {
			if fmt.Sprint(t.id) == took {
				q = t
			}
		}
		sent := false
		for _, it := range st.trace {
			if it.Loop == nil {
				continue
			}
			li := loops[loopName(it.Loop, it.Ctx)]
			if li == nil || !li.delivers {
				continue
			}
			sent = true
			whole := e.walked(st, it.Loop, it.Ctx, q)
			if !whole { // or a list of all its keys
				for _, w := range strings.Fields(st.notes[loopName(it.Loop, it.Ctx)]) {
					for _, t := range e.T.all {
						if t.op == "loopphi" && w[0] == 'i' && e.walked(st, it.Loop, it.Ctx, t) && isKeys(st, t) {
							_, ps := e.appended(t)
							ph := ps[0].loop
							whole = whole || e.walked(st, e.loopsOf(ph.site.Parent())[ph.site.Block()], ph.ctx, q)
						}
					}
				}
			}
			if !it.Exited || !whole {
				if !e.notNil(st, res) && !res.mentions(func(t *Term) bool { return t.op == "append" || t.op == "appendv" }) {
					r.Violate("abandoned-silently", fnLabel(x.Fn), x.Site.Pos(), "Flush can stop before it has sent all of the queue that it took, and still return nil")
				}
				continue
			}
			if e.notNil(st, res) {
				continue
			}
			ok := !li.accSet
			for a := range li.acc {
				if li.bad[a] {
					continue
				}
				v := a
				if a.op != "loopphi" {
					v = e.peek(st, a, deref(a.typ))
				}
				if res.has(v) || e.empty(st, v) || e.isZero(st, v) {
					ok = true
				}
			}
			if !ok {
				r.Violate("error-lost", fnLabel(x.Fn), x.Site.Pos(), "Flush can return nil although the underlying collector has failed for some span")
			}
		}
		if !sent && !e.empty(st, q) && !e.notNil(st, res) {
			r.Violate("taken-not-sent", fnLabel(x.Fn), x.Site.Pos(), "Flush can take the queue and return nil without sending it")
		}
	}
	r.Floor("delivery sites reached", 1)
}

// flushLike: methods that deliver and return an error, as seen by the
// background goroutine.
func (m *ccModel) flushLike(fn *ssa.Function) bool {
	return fn.Parent() == nil && m.rv.has(fn) && fn.Signature.Results().Len() == 1 && isErrorType(fn.Signature.Results().At(0).Type())
}

func isFlushCall(ev *Event, m *ccModel) bool {
	return ev.Kind == "call" && ev.Rec != nil && m.flushLike(ev.Rec)
}

func (m *ccModel) threads() []*Thread {
	var threads []*Thread
	seen := map[ssa.Instruction]bool{}
	e := NewEngine(m.r.P)
	e.OnThread = func(th *Thread) {
		if !seen[th.Site] {
			seen[th.Site] = true
			threads = append(threads, th)
		}
	}
	for _, fn := range m.methods() {
		e.Run(fn, nil)
	}
	return threads
}

// background checks what becomes of the errors of background flushes.
func (m *ccModel) background() {
	r, p := m.r, m.r.P
	handled := func(e *Engine, st *State, items []*TItem, pos ssa.Instruction) {
		for _, c := range callsOf(items, func(ev *Event) bool { return isFlushCall(ev, m) }) {
			r.Count("background flushes", 1)
			er := e.errResult(c)
			if e.isNil(st, er) {
				continue
			}
			kept := callsOf(items, func(ev *Event) bool { return ev.Kind == "store" && m.owner(ev, m.errF) != nil && ev.Args[1].has(er) })
			if len(kept) == 0 {
				r.Violate("background-error", fnLabel(c.Fn), c.Site.Pos(), "the error of a background flush is not kept for the next Collect")
			}
		}
	}
	mk := func(thread bool) *Engine {
		e := NewEngine(p)
		if thread {
			e.Opaque = m.flushLike
		}
		e.Keep = func(st *State, ev *Event) bool {
			return isFlushCall(ev, m) || ev.Kind == "store" && m.owner(ev, m.errF) != nil
		}
		e.OnEvent = func(st *State, ev *Event) {
			if ev.Kind != "store" {
				return
			}
			obj := m.owner(ev, m.errF)
			if obj == nil {
				return
			}
			old := e.peek(st, ev.Args[0], deref(ev.Args[0].typ))
			if !e.notNil(st, ev.Args[1]) && !e.isNil(st, old) && !ev.Args[1].has(old) {
				if thread {
					r.Violate("error-overwritten", fnLabel(ev.Fn), ev.Site.Pos(), "the error of an earlier background flush may be overwritten by nil before Collect has returned it")
				}
				st.notes["cleared"] = fmt.Sprint(old.id)
			}
		}
		e.OnExit = func(st *State, x *Exit) {
			if x.Kind != "return" {
				return
			}
			if thread {
				handled(e, st, st.trace, x.Site)
			} else if id := st.notes["cleared"]; id != "" {
				ok := false
				for _, res := range x.Results {
					ok = ok || res.mentions(func(t *Term) bool { return fmt.Sprint(t.id) == id })
				}
				if !ok {
					r.Violate("error-cleared", fnLabel(x.Fn), x.Site.Pos(), "the error of a background flush is cleared on a path that does not return it")
				}
			}
		}
		if thread {
			e.OnIter = func(st *State, it *LoopIter) { handled(e, st, it.Items, it.Site) }
		}
		return e
	}
	e := mk(false)
	for _, fn := range m.methods() {
		e.Run(fn, nil)
	}
	r.Use(e)
	for _, th := range m.threads() {
		e := mk(true)
		e.RunArgs(th.Fn, paramTerms(e, th.Fn), nil, nil)
		r.Use(e)
	}
}

// ---- C05 ----

func init() {
	register(&Check{
		ID: "C05",
		Rule: "linear facts at the end of every critical section: where a set is queued, the counter is its old value plus a size that counts every key and value of a complete walk, and the path has tested that the new counter does not exceed MaxQueueSize (or that MaxQueueSize is 0); " +
			"the counter is reset exactly where the queue is replaced; a path of Collect that does neither queue nor reject as stopped drops the queue and returns ErrQueueDropped",
		NotCover: "the map's and slices' own overhead, wrap-around of the counter",
		Run:      runC05,
	})
}

func runC05(r *R) {
	m := newCC(r)
	if m == nil || !m.findStopped() {
		return
	}
	m.acceptance(false, true)
	// The other methods: reset the account when, and only when, the queue is replaced.
	e := NewEngine(r.P)
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind == "unlock" && len(st.frames) > 0 {
			m.resets(e, st, ev, e.Param(st.frames[0].fn, 0))
		}
	}
	for _, fn := range m.methods() {
		if fn != m.collect {
			e.Run(fn, nil)
		}
	}
	r.Use(e)
	for _, th := range m.threads() {
		e := NewEngine(r.P)
		e.Opaque = m.flushLike
		e.OnEvent = func(st *State, ev *Event) {
			if ev.Kind == "store" && (m.owner(ev, m.counter) != nil || m.owner(ev, m.pending) != nil) {
				r.Violate("goroutine", fnLabel(ev.Fn), ev.Site.Pos(), "cannot be decided: a goroutine changes the queue or its account itself")
			}
		}
		e.RunArgs(th.Fn, paramTerms(e, th.Fn), nil, nil)
		r.Use(e)
	}
	r.Floor("accepting paths", 2)
	r.Floor("dropping paths", 1)
	r.Floor("critical sections", 3)
	r.Floor("sizes", 1)
}

// resets: the account is 0 exactly where the queue has been replaced.
func (m *ccModel) resets(e *Engine, st *State, ev *Event, recv *Term) (cnt, q *Term) {
	r := m.r
	r.Count("critical sections", 1)
	ca, pa := e.faddr(recv, m.n, m.counter), e.faddr(recv, m.n, m.pending)
	cnt, q = e.peek(st, ca, deref(ca.typ)), e.peek(st, pa, deref(pa.typ))
	replaced := !(q.op == "load" && q.args[0] == pa)
	oldNil := m.was(e, st, recv, m.pending, true)
	carries := e.T.lin(cnt).coef // does the account still include the old one?
	old := false
	for t := range carries {
		if t.op == "load" && t.args[0] == ca {
			old = true
		}
	}
	switch {
	case replaced && !oldNil && old:
		r.Violate("account-kept", fnLabel(ev.Fn), ev.Site.Pos(), "the queue is replaced, but the bytes accounted for it are not reset: the queue's bound shrinks for good")
	case !replaced && !old:
		if _, ok := cnt.intVal(); ok || !e.empty(st, q) {
			r.Violate("account-reset", fnLabel(ev.Fn), ev.Site.Pos(), "the byte account is reset although the queue keeps its content: the queue can grow beyond its bound")
		}
	}
	return cnt, q
}

func (m *ccModel) accounts(e *Engine, st *State, ev *Event, recv, anns *Term) {
	r := m.r
	cnt, _ := m.resets(e, st, ev, recv)
	if st.notes["queued"] == "" {
		return
	}
	maxv := e.fval(st, recv, m.n, m.max)
	unlimited := e.isZero(st, maxv)
	bad := func(rule, f string, args ...any) {
		st.notes["budget"] = "bad"
		r.Violate(rule, fnLabel(ev.Fn), ev.Site.Pos(), f, args...)
	}
	ca := e.faddr(recv, m.n, m.counter)
	lin := e.T.lin(cnt)
	if lin.k < 0 {
		bad("account-size", "the account grows by less than the size of the set")
		return
	}
	var size []*Term
	old := int64(0)
	for t, c := range lin.coef {
		if t.op == "load" && t.args[0] == ca {
			old += c
			continue
		}
		if c < 1 {
			bad("account-size", "the account is reduced by %s when a set is queued", t)
			return
		}
		size = append(size, t)
	}
	if unlimited && old == 1 && len(size) == 0 {
		return
	}
	if old != 1 && st.notes["dropped"] == "" {
		bad("account-size", "the account after queueing is not its old value plus a size")
		return
	}
	okSize := false
	for _, t := range size {
		if m.countsAll(e, st, t, anns) {
			okSize = true
			r.Count("sizes", 1)
		}
	}
	if !okSize && !e.empty(st, anns) {
		bad("account-size", "the account is not shown to grow by the length of every key and every value of the set that is queued")
		return
	}
	if !unlimited && !e.isFalse(st, e.T.Bin(tokGTR, cnt, maxv, types.Typ[types.Bool])) {
		bad("bound", "a set can be queued on a path that has not found the account including it to be within MaxQueueSize")
	}
}

// countsAll recognises a sum over all annotations of at least their keys' and
// values' lengths.
func (m *ccModel) countsAll(e *Engine, st *State, t, anns *Term) bool {
	if t.op != "loopphi" {
		return false
	}
	for v := range e.PhiIn[t] {
		if k, ok := v.intVal(); !ok || k < 0 {
			return false
		}
	}
	l := e.loopsOf(t.site.Parent())[t.site.Block()]
	if l == nil || !e.walked(st, l, t.ctx, anns) {
		return false
	}
	for v := range e.PhiBk[t] {
		d := e.T.lin(v).sub(e.T.lin(t))
		if d.k < 0 {
			return false
		}
		key, val := false, false
		for x, c := range d.coef {
			if c < 1 || x.op != "len" {
				return false
			}
			f := x.args[0]
			if f.op == "load" && f.args[0].op == "fa" && f.args[0].args[0].op == "ia" && f.args[0].args[0].args[0] == anns {
				if _, ok := e.elemIndex(f.args[0].args[0].args[1]); ok {
					switch fieldLabel(f.args[0]) {
					case "Key":
						key = true
					case "Value":
						val = true
					}
				}
			}
		}
		if !key || !val {
			return false
		}
	}
	return len(e.PhiBk[t]) > 0
}

// ---- C06 ----

func init() {
	register(&Check{
		ID: "C06",
		Rule: "typestate of the stop flag and channel: Stop leaves a flag set on every path; the queue is only changed, and a flusher only started, in a critical section that has found the flag unset; what is sent was taken in such a section; with the flag set Collect and Flush return an error; " +
			"the channel is only closed where a flag that nobody clears changes from unset to set and the channel exists; the flusher ends when it receives from the channel and does not flush after that",
		NotCover: "a flush that had taken the queue before Stop was called",
		Run:      runC06,
	})
}

func runC06(r *R) {
	m := newCC(r)
	if m == nil || !m.findStopped() {
		return
	}
	p := r.P
	s := m.n.Underlying().(*types.Struct)
	r.Sample("stop flag: %s", s.Field(m.stopped).Name())
	starts := map[int]bool{}
	startsSet := false
	type closing struct {
		ev    *Event
		flags map[int]bool // known set
		nn    bool
	}
	var closings []closing
	chanSet := false
	cleared := func(e *Engine, st *State, ev *Event) {
		for _, i := range m.flags {
			obj := m.owner(ev, i)
			if obj == nil || isObj(obj) {
				continue
			}
			if _, isChan := s.Field(i).Type().Underlying().(*types.Chan); isChan {
				continue
			}
			if !e.isSet(st, ev.Args[1]) && !e.isZero(st, e.peek(st, ev.Args[0], deref(ev.Args[0].typ))) {
				r.Violate("flag-cleared", fnLabel(ev.Fn)+":"+s.Field(i).Name(), ev.Site.Pos(), "%s can be cleared: a stopped collector may run again, or a channel be closed twice", s.Field(i).Name())
			}
		}
	}
	e := NewEngine(p)
	e.OnEvent = func(st *State, ev *Event) {
		recv := e.Param(st.frames[0].fn, 0)
		switch {
		case ev.Kind == "store":
			cleared(e, st, ev)
			if obj := m.owner(ev, m.pending); obj == recv {
				if !m.was(e, st, recv, m.stopped, true) {
					r.Violate("change-when-stopped", fnLabel(ev.Fn), ev.Site.Pos(), "the queue is changed in a critical section that has not found the collector to be running (in %s)", st.entry)
				} else {
					st.notes["running"] = "1"
					r.Count("guarded changes of the queue", 1)
				}
			}
		case ev.Kind == "mapupdate" && m.isQueue(e, st, ev.Args[0], recv):
			if !m.was(e, st, recv, m.stopped, true) {
				r.Violate("queue-when-stopped", fnLabel(ev.Fn), ev.Site.Pos(), "annotations are queued in a critical section that has not found the collector to be running")
			} else {
				r.Count("guarded changes of the queue", 1)
			}
		case isCollect(ev):
			if st.notes["running"] == "" {
				r.Violate("send-when-stopped", fnLabel(ev.Fn), ev.Site.Pos(), "data is sent on a path that has not taken it from the queue of a running collector")
			} else {
				r.Count("guarded sends", 1)
			}
		case ev.Kind == "go":
			if !m.was(e, st, recv, m.stopped, true) {
				r.Violate("start-when-stopped", fnLabel(ev.Fn), ev.Site.Pos(), "a background goroutine is started in a critical section that has not found the collector to be running")
			}
			st.notes["go"] = fmt.Sprint(e.T.siteID(ev.Site))
			if len(st.locks) == 0 {
				r.Violate("start-unlocked", fnLabel(ev.Fn), ev.Site.Pos(), "a background goroutine is started without the lock: two may be started")
			}
		case ev.Kind == "builtin" && ev.Name == "close":
			c := closing{ev: ev, flags: map[int]bool{}, nn: e.notNil(st, ev.Args[0])}
			for _, i := range m.flags {
				if m.was(e, st, recv, i, false) {
					c.flags[i] = true
				}
			}
			closings = append(closings, c)
			st.notes["close"] = "1"
			r.Count("channel closings", 1)
			if len(st.locks) == 0 {
				r.Violate("close-unlocked", fnLabel(ev.Fn), ev.Site.Pos(), "a channel is closed without the lock: it may be closed twice, which panics")
			}
		case ev.Kind == "unlock":
			turned := func(i int) bool {
				return m.was(e, st, recv, i, true) && e.isSet(st, e.fval(st, recv, m.n, i))
			}
			if st.notes["go"] != "" {
				g := map[int]bool{}
				for _, i := range m.flags {
					if turned(i) {
						g[i] = true
					}
				}
				if len(g) == 0 {
					r.Violate("started-twice", fnLabel(ev.Fn), ev.Site.Pos(), "a background goroutine is started in a critical section that does not turn a flag, which it has found unset, on: it may be started twice")
				}
				if !startsSet {
					starts, startsSet = g, true
				}
				for i := range starts {
					if !g[i] {
						delete(starts, i)
					}
				}
				for _, i := range m.flags {
					if _, ok := s.Field(i).Type().Underlying().(*types.Chan); ok && e.notNil(st, e.fval(st, recv, m.n, i)) {
						chanSet = true
					}
				}
				delete(st.notes, "go")
				r.Count("goroutine starts", 1)
			}
			if st.notes["close"] != "" {
				ok := false
				for _, i := range m.flags {
					if turned(i) {
						ok = true
					}
				}
				if !ok {
					r.Violate("closed-twice", fnLabel(ev.Fn), ev.Site.Pos(), "a channel is closed in a critical section that does not turn a flag, which it has found unset, on: calling again closes it again, which panics")
				}
				delete(st.notes, "close")
			}
		case ev.Kind == "panic":
			r.Violate("panic", fnLabel(ev.Fn), ev.Site.Pos(), "%s can panic", st.entry)
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		fn := st.frames[0].fn
		if x.Kind != "return" || fn != m.collect && fn != m.flush {
			return
		}
		r.Count("paths of Collect and Flush", 1)
		recv := e.Param(fn, 0)
		res := x.Results[0]
		if !e.notNil(st, res) && !m.ever(e, st, recv, m.stopped, true) {
			r.Violate("success-when-stopped", fnLabel(fn), x.Site.Pos(), "%s can return nil on a path that has not found the collector to be running", fn.Name())
		}
		if !e.notNil(st, res) && m.ever(e, st, recv, m.stopped, false) {
			r.Violate("success-when-stopped", fnLabel(fn), x.Site.Pos(), "%s can return nil on a path that has found the collector to be stopped", fn.Name())
		}
	}
	for _, fn := range m.methods() {
		e.Run(fn, nil)
	}
	r.Use(e)
	for _, c := range closings {
		ok := c.nn
		for i := range c.flags {
			if starts[i] && chanSet {
				ok = true
			}
		}
		if !ok {
			r.Violate("close-nil", fnLabel(c.ev.Fn), c.ev.Site.Pos(), "the channel can be closed before it has been made, which panics")
		}
	}

	// The flusher.
	for _, th := range m.threads() {
		e := NewEngine(p)
		e.Opaque = m.flushLike
		stopSites := map[ssa.Instruction]bool{}
		isStop := func(ev *Event) bool {
			if ev.Kind != "recv" || len(ev.Args) == 0 || ev.Args[0].typ == nil {
				return false
			}
			c, ok := ev.Args[0].typ.Underlying().(*types.Chan)
			return ok && !typeIs(c.Elem(), "time.Time")
		}
		e.Keep = func(st *State, ev *Event) bool { return ev.Kind == "recv" || isFlushCall(ev, m) || isCollect(ev) }
		e.OnEvent = func(st *State, ev *Event) {
			if ev.Kind == "store" {
				cleared(e, st, ev)
			}
			if isStop(ev) {
				stopSites[ev.Site] = true
				st.notes["stop"] = "1"
			}
			if (isFlushCall(ev, m) || isCollect(ev)) && st.notes["stop"] != "" {
				r.Violate("flush-after-stop", fnLabel(ev.Fn), ev.Site.Pos(), "the background goroutine flushes after it has been told to stop")
			}
		}
		var iters []*LoopIter
		e.OnIter = func(st *State, it *LoopIter) {
			if it.Ctx.parent != nil && it.Ctx.fn != th.Fn {
				return
			}
			r.Count("iterations of the flusher", 1)
			if len(callsOf(it.Items, isStop)) > 0 {
				r.Violate("runs-on", fnLabel(it.Loop.fn), it.Site.Pos(), "the background goroutine goes on after it has received from the stop channel")
			}
			iters = append(iters, it)
		}
		ends := 0
		e.OnExit = func(st *State, x *Exit) {
			if st.notes["stop"] != "" {
				ends++
			}
		}
		e.RunArgs(th.Fn, paramTerms(e, th.Fn), nil, nil)
		for _, it := range iters {
			ok := false
			for _, w := range callsOf(it.Items, func(ev *Event) bool { return ev.Kind == "recv" }) {
				ok = ok || stopSites[w.Site]
			}
			if !ok {
				r.Violate("not-stoppable", fnLabel(it.Loop.fn), it.Site.Pos(), "an iteration of the background goroutine does not wait for the stop channel")
			}
		}
		if ends == 0 {
			r.Violate("not-stoppable", fnLabel(th.Fn), th.Fn.Pos(), "no path of the background goroutine ends when it receives from the stop channel")
		}
		r.Use(e)
		r.Count("goroutines", 1)
	}
	r.Floor("guarded changes of the queue", 3)
	r.Floor("guarded sends", 1)
	r.Floor("channel closings", 1)
	r.Floor("goroutine starts", 1)
	r.Floor("goroutines", 1)
}
