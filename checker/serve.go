package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C34: the commands wire one store to everything ----

func init() {
	register(&Check{
		ID: "C34",
		Rule: "value flow over every path of the serve and demo commands, what they start in goroutines included: where serving starts, the collector server that runs writes to the store that the web app reads, both based on one memory store, with a RecentStore of the configured age in front of it exactly where that age is known to be positive; " +
			"where a store file is set, that memory store has been filled from it, or the file is known not to exist, before anything else is added to it or persists it, and on no path otherwise; it is persisted to that file at that interval exactly where both are known to be set; " +
			"the listeners are made for the configured addresses, sample data is added only where that is known to be set; the web app's URL is the configured one, or made from the HTTP address (brackets and all) with the scheme that it is served with",
		NotCover: "what the store, the server and the app do with it (other properties); command line parsing; the web pages of the demo application",
		Run:      runC34,
	})
}

type wiring struct {
	*authRule
	started map[*ssa.Function]map[string]bool // what a function calls, transitively
	serving int
}

func runC34(r *R) {
	p := r.P
	for _, cmd := range []string{"ServeCmd", "DemoCmd"} {
		w := &wiring{authRule: &authRule{r: r, p: p, conf: p.Named(cmdRel, cmd), fn: p.Method(cmdRel, cmd, "Execute"), texts: map[*Term]map[string]bool{}, visited: map[ssa.Instruction]bool{}}, started: map[*ssa.Function]map[string]bool{}}
		if !r.Require(w.conf != nil && w.fn != nil && len(w.fn.Params) == 2, "anchor", "the command "+cmd) {
			return
		}
		w.run(cmd == "ServeCmd")
	}
	r.Floor("states in which serving starts", 4)
	r.Floor("collector servers", 2)
	r.Floor("reads of the store file", 1)
	r.Floor("starts of persisting", 1)
	r.Floor("URLs of the web app", 2)
}

// isSample: a function of the command that records something.
func (w *wiring) isSample(fn *ssa.Function) bool {
	if fn == nil || !w.inCmd(fn) || fn.Signature.Recv() != nil {
		return false
	}
	return w.collectorArg(fn) >= 0
}

func (w *wiring) collectorArg(fn *ssa.Function) int {
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if t := fn.Signature.Params().At(i).Type(); isNamed(t, "", "Collector") || isNamed(t, "", "Store") {
			return i
		}
	}
	return -1
}

// calls: what a function calls, directly or through functions of the command.
func (w *wiring) calls(fn *ssa.Function) map[string]bool {
	if m := w.started[fn]; m != nil {
		return m
	}
	m := map[string]bool{}
	w.started[fn] = m
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil {
					m[fnName(f)] = true
					if w.inCmd(f) {
						for n := range w.calls(f) {
							m[n] = true
						}
					}
				} else if c.Common().IsInvoke() {
					m[fmt.Sprintf("(%s).%s", c.Common().Value.Type(), c.Common().Method.Name())] = true
				}
			}
		}
	}
	return m
}

const (
	nStart   = "(*" + modPath + ".CollectorServer).Start"
	nPersist = modPath + ".PersistEvery"
)

func (w *wiring) run(full bool) {
	r, p := w.r, w.p
	e := NewEngine(p)
	w.e = e
	e.Loops = true
	e.Pure = func(name string) bool {
		return strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "os.Is") || name == "errors.Is" || name == "net.JoinHostPort"
	}
	e.Opaque = func(f *ssa.Function) bool { return !w.inCmd(f) || w.isSample(f) }
	e.Keep = func(*State, *Event) bool { return false }
	w.recv = e.Param(w.fn, 0)
	var threads []*Thread
	e.OnThread = func(th *Thread) {
		if !w.inCmd(th.Fn) {
			return
		}
		for k, v := range th.Notes {
			if strings.HasPrefix(k, "w:") || strings.HasPrefix(k, "pin:") {
				th.St.notes[k] = v
			}
		}
		th.St.notes["w:thread"] = "1"
		threads = append(threads, th)
	}
	e.OnEvent = func(st *State, ev *Event) { w.wire(st, ev, full) }
	e.Run(w.fn, nil)
	for i := 0; i < len(threads); i++ {
		if i > 4000 {
			e.undecided("too many goroutines")
			break
		}
		e.RunThread(threads[i])
	}
	e.OnThread = nil
	r.Use(e)
	if w.serving == 0 {
		r.Violate("instances", fnLabel(w.fn), w.fn.Pos(), "cannot be decided: the command starts serving nowhere")
	}
}

// id and term keep values in notes.
func (w *wiring) term(s string) *Term {
	n, err := strconv.Atoi(s)
	if err != nil || n == 0 {
		return nil
	}
	return w.e.T.all[n-1]
}

func noteID(t *Term) string { return strconv.Itoa(t.origin().id) }

// base finds the memory store behind a store, and the retention in between.
func (w *wiring) base(st *State, t *Term) (mem *Term, age *Term, why string) {
	t = t.origin()
	for i := 0; i < 4; i++ {
		if t.op == "call" && t.aux == modPath+".NewMemoryStore" {
			return t, age, ""
		}
		n, _ := deref(t.typ).(*types.Named)
		if n == nil || !isNamed(n, "", "RecentStore") || age != nil {
			break
		}
		age = w.term(st.notes["w:f:"+noteID(t)+".MinEvictAge"])
		next := w.term(st.notes["w:f:"+noteID(t)+".DeleteStore"])
		if age == nil || next == nil {
			return nil, nil, "a RecentStore without an age or without a store"
		}
		t = next
	}
	return nil, nil, "it is " + t.String()
}

// number: which of the values -1, 0 and 1 a setting can have.
func (w *wiring) number(st *State, name string) (neg, zero, pos bool) {
	can := map[int64]bool{-1: true, 0: true, 1: true}
	for f, v := range st.facts {
		if f.op != "lt0" && f.op != "eq0" {
			continue
		}
		lin := f.obj.(linear)
		if len(lin.coef) != 1 {
			continue
		}
		for t, c := range lin.coef {
			if w.setting(t) != name {
				continue
			}
			for x := range can {
				y := c*x + lin.k
				if (f.op == "eq0" && y == 0 || f.op == "lt0" && y < 0) != v {
					can[x] = false
				}
			}
		}
	}
	return can[-1], can[0], can[1]
}

func (w *wiring) knownSet(st *State, name string) bool {
	for f, v := range st.facts {
		if e, x, ok := w.emptiness(f, v); ok && !e && w.setting(x) == name {
			return true
		}
	}
	return false
}

func (w *wiring) flag(st *State, name string, want bool) bool {
	for f, v := range st.facts {
		if v == want && w.setting(f) == name {
			return true
		}
	}
	return false
}

// absurd: a successful call without a result, or a failed one with one.
func (w *wiring) absurd(st *State) bool {
	o := w.term(st.notes["w:open"])
	if o == nil {
		return false
	}
	f, er := w.e.T.lookup("extract", "0", o), w.e.T.lookup("extract", "1", o)
	return f != nil && er != nil && (w.e.isNil(st, er) && w.e.isNil(st, f) || w.e.notNil(st, er) && w.e.notNil(st, f))
}

// filled: the store file has been read, or is known not to exist.
func (w *wiring) filled(st *State) string {
	o := w.term(st.notes["w:open"])
	if o == nil {
		return "the store file has not been opened"
	}
	for f, v := range st.facts {
		if v && f.op == "call" && (f.aux == "os.IsNotExist" || f.aux == "errors.Is") && f.args[0].has(o) {
			if f.aux == "errors.Is" {
				g := at(f.args[1])
				if g == nil || g.op != "global" || !strings.HasSuffix(g.String(), "ErrNotExist") {
					continue
				}
			}
			return "" // which no nil error is
		}
	}
	if er := w.e.T.lookup("extract", "1", o); er != nil && w.e.notNil(st, er) {
		return "opening the store file has failed for another reason than that it does not exist"
	}
	rd := w.term(st.notes["w:read"])
	if rd == nil {
		return "the store file has not been read"
	}
	if er := w.e.T.lookup("extract", "1", rd); er == nil || !w.e.isNil(st, er) {
		return "reading the store file may have failed"
	}
	return ""
}

func (w *wiring) wire(st *State, ev *Event, full bool) {
	e, r := w.e, w.r
	at := func(rule, f string, args ...any) {
		r.Violate(rule, fnLabel(ev.Fn), ev.Site.Pos(), f, args...)
	}
	inThread := st.notes["w:thread"] != ""
	switch ev.Kind {
	case "load":
		if v := e.peek(st, ev.Args[0], deref(ev.Args[0].typ)); w.setting(v) != "" {
			st.pin(v)
			if isString(v.typ) {
				st.pin(e.T.Len(v))
			}
		}
		return
	case "store":
		a := ev.Args[0]
		if b, ps := addrPath(a); b == w.recv && len(ps) > 0 {
			at("settings", "the setting %s is changed", ps[0])
		}
		if a.op != "fa" {
			return
		}
		n, _ := deref(a.args[0].typ).(*types.Named)
		if n == nil {
			return
		}
		switch {
		case isNamed(n, "", "RecentStore"), isNamed(n, "traceapp", "App"), isNamed(n, "", "LimitStore"), typeIs(n, "net/http.Server"), typeIs(n, "net/url.URL"):
			st.notes["w:f:"+noteID(a.args[0])+"."+fieldLabel(a)] = noteID(ev.Args[1])
			st.pin(ev.Args[1])
		}
		return
	case "call", "go", "defer":
	default:
		return
	}
	if w.absurd(st) {
		return
	}
	fillBefore := func(what string) {
		if !full || w.knownEmpty(st, "StoreFile") {
			return
		}
		if why := w.filled(st); why != "" {
			at("not-read", "%s although %s", what, why)
		}
	}
	switch {
	case ev.Kind == "go":
		names := map[string]bool{}
		if ev.Rec != nil {
			names[fnName(ev.Rec)] = true
			if w.inCmd(ev.Rec) {
				names = w.calls(ev.Rec)
			}
		}
		if names[nStart] {
			n := 0
			args := ev.Args
			if mc, ok := ev.Site.(*ssa.Go).Call.Value.(*ssa.MakeClosure); ok {
				for _, b := range mc.Bindings {
					args = append(append([]*Term(nil), args...), e.val(st, b))
				}
			}
			reach := e.reachable(st, args)
			for k := range st.notes {
				if s, ok := strings.CutPrefix(k, "w:server:"); ok {
					if t := w.term(s); reach[t] || reach[t.origin()] {
						st.notes["w:runs:"+s] = "1"
						n++
					}
				}
			}
			fillBefore("the collector starts to run")
		}
		if names[nPersist] {
			if st.notes["w:persist"] != "" {
				at("persist-twice", "two goroutines persist the store")
			}
			st.notes["w:persist"] = "1"
		}
	case ev.Name == nStart && !inThread:
		at("blocks", "the collector server runs before the web app starts to be served, which it keeps from starting")
	case ev.Name == nPersist:
		if !full {
			return
		}
		if !inThread {
			at("blocks", "persisting keeps the web app from being served")
		}
		r.Count("starts of persisting", 1)
		mem, _, why := w.base(st, ev.Args[0])
		if why != "" || st.notes["w:read"] != "" && st.notes["w:readmem"] != noteID(mem) {
			at("persist", "it is not the memory store filled from the file that is persisted")
		} else {
			st.notes["w:persisted"] = noteID(mem)
		}
		if w.setting(ev.Args[1]) != "PersistInterval" || w.setting(ev.Args[2]) != "StoreFile" {
			at("persist", "the store is not persisted to the configured file at the configured interval")
		}
		if _, zero, _ := w.number(st, "PersistInterval"); zero || !w.knownSet(st, "StoreFile") {
			at("persist", "the store may be persisted although no file or no interval is set")
		}
		fillBefore("the store is persisted to the store file")
	case ev.Name == "os.Open" || ev.Name == "os.OpenFile":
		if w.setting(ev.Args[0]) == "StoreFile" {
			st.notes["w:open"] = noteID(ev.Res)
			for i := 0; i < 2; i++ {
				if x := e.ResultTerm(ev, i); x != nil {
					st.pin(x)
				}
			}
		}
	case strings.HasPrefix(ev.Name, "os.Is") || ev.Name == "errors.Is":
		st.pin(ev.Res)
	case strings.HasSuffix(ev.Name, ").ReadFrom") && strings.Contains(ev.Name, modPath):
		r.Count("reads of the store file", 1)
		o := w.term(st.notes["w:open"])
		f := (*Term)(nil)
		if o != nil {
			f = e.T.lookup("extract", "0", o)
		}
		if f == nil || !e.reachable(st, ev.Args[1:])[f] && !ev.Args[1].has(f) {
			at("read", "the store is not filled from the configured file")
		}
		if st.notes["w:sample"] != "" || w.running(st) {
			at("read", "filling the store from the file drops what has been added to it before")
		}
		st.notes["w:read"] = noteID(ev.Res)
		if er := e.errResult(ev); er != nil {
			st.pin(er)
		}
		if mem, _, why := w.base(st, ev.Args[0]); why == "" {
			st.notes["w:readmem"] = noteID(mem)
		} else {
			at("read", "it is not the memory store that is filled from the file: %s", why)
		}
	case ev.Rec != nil && w.isSample(ev.Rec):
		st.notes["w:sample"] = "1"
		if full && !w.flag(st, "SampleData", true) {
			at("sample", "sample data may be added although that is not asked for")
		}
		fillBefore("sample data is added")
		if i := w.collectorArg(ev.Rec); i < len(ev.Args) {
			st.notes["w:samplemem"] = noteID(ev.Args[i])
		}
	case ev.Name == modPath+".NewServer" && len(ev.Args) == 2:
		r.Count("collector servers", 1)
		st.notes["w:server:"+noteID(ev.Res)] = noteID(ev.Args[1])
		st.pin(ev.Res)
		if full {
			if why := w.address(ev.Args[0], "CollectorAddr", 0); why != "" {
				at("address", "the collector does not listen at the configured address: %s", why)
			}
		}
	case ev.Name == modPath+"/traceapp.New":
		st.notes["w:app:"+noteID(e.ResultTerm(ev, 0))] = "1"
		if full {
			r.Count("URLs of the web app", 1)
			if why := w.url(st, ev.Args[1]); why != "" {
				at("url", "the web app is given a URL that it may not be served at: %s", why)
			}
		}
	}
	if server, listener, ok := serves(ev.Name); ok {
		w.served(st, ev, server, listener, full)
	}
}

func (w *wiring) running(st *State) bool {
	for k := range st.notes {
		if strings.HasPrefix(k, "w:runs:") {
			return true
		}
	}
	return false
}

// address: the listener is made for a configured address.
func (w *wiring) address(l *Term, name string, depth int) string {
	l = l.origin()
	if l.op == "extract" {
		l = l.args[0]
	}
	if l.op == "call" && depth < 4 {
		switch {
		case l.aux == "net.Listen" || l.aux == "crypto/tls.Listen":
			if s, ok := l.args[0].strVal(); !ok || !strings.HasPrefix(s, "tcp") {
				return "it is not a TCP listener"
			}
			if w.setting(l.args[1]) != name {
				return fmt.Sprintf("it is made for %s", l.args[1])
			}
			return ""
		case l.aux == "crypto/tls.NewListener":
			return w.address(l.args[0], name, depth+1)
		}
	}
	return fmt.Sprintf("it is %s", l)
}

// served: the state in which something starts to be served.
func (w *wiring) served(st *State, ev *Event, server bool, listener int, full bool) {
	r := w.r
	at := func(rule, f string, args ...any) {
		r.Violate(rule, fnLabel(ev.Fn), ev.Site.Pos(), f, args...)
	}
	w.serving++
	r.Count("states in which serving starts", 1)
	// the app's store
	var shown *Term
	apps := 0
	for k := range st.notes {
		s, ok := strings.CutPrefix(k, "w:app:")
		if !ok {
			continue
		}
		apps++
		store, q := w.term(st.notes["w:f:"+s+".Store"]), w.term(st.notes["w:f:"+s+".Queryer"])
		if store == nil || q == nil {
			at("app", "the web app is served without a store or without a queryer")
			return
		}
		m1, age, why := w.base(st, store)
		if why != "" {
			at("app", "cannot be decided: which store the web app reads: %s", why)
			return
		}
		m2, _, why := w.base(st, q)
		if why != "" || m1 != m2 {
			at("app", "the web app lists the traces of another store than it shows")
		}
		shown = m1
		if !full {
			if age != nil {
				at("retention", "the demonstration's traces are evicted")
			}
			continue
		}
		w.retention(st, age, "the web app's", at)
	}
	if apps != 1 {
		at("app", "%d web apps are made where one is served", apps)
		return
	}
	// the collector
	n := 0
	for k, v := range st.notes {
		s, ok := strings.CutPrefix(k, "w:server:")
		if !ok {
			continue
		}
		n++
		if st.notes["w:runs:"+s] == "" {
			at("collector", "the web app is served without a collector server that runs")
		}
		c := w.term(v)
		if c.op != "call" || c.aux != modPath+".NewLocalCollector" {
			at("collector", "cannot be decided: where the collector server puts what it receives (%s)", c)
			continue
		}
		mem, age, why := w.base(st, c.args[0])
		if why != "" || mem != shown {
			at("collector", "what the collector server receives does not go to the store that the web app shows")
		}
		if full {
			w.retention(st, age, "the collector's", at)
		} else if age != nil {
			at("retention", "the demonstration's traces are evicted")
		}
	}
	if n != 1 {
		at("collector", "%d collector servers are made where the web app is served", n)
	}
	if !full {
		return
	}
	if s := w.term(st.notes["w:samplemem"]); s != nil {
		if mem, _, why := w.base(st, s); why != "" || mem != shown {
			at("sample", "sample data is not added to the store that the web app shows")
		}
	} else if !w.flag(st, "SampleData", false) {
		at("sample", "sample data may not be added although it is asked for")
	}
	// the file
	if !w.knownEmpty(st, "StoreFile") {
		if why := w.filled(st); why != "" {
			at("not-read", "serving starts although %s", why)
		}
		if st.notes["w:read"] != "" && st.notes["w:readmem"] != noteID(shown) {
			at("read", "it is not the store that the web app shows that is filled from the file")
		}
		neg, _, pos := w.number(st, "PersistInterval")
		if st.notes["w:persist"] == "" && (neg || pos) {
			at("persist", "serving starts without persisting the store although a file and an interval are set")
		}
	}
	// the address
	switch {
	case server:
		if listener >= 0 {
			if why := w.address(ev.Args[listener], "HTTPAddr", 0); why != "" {
				at("address", "the web app is not served at the configured address: %s", why)
			}
		} else if a := w.term(st.notes["w:f:"+noteID(ev.Args[0])+".Addr"]); a == nil || w.setting(a) != "HTTPAddr" {
			at("address", "the web app is not served at the configured address")
		}
	case listener >= 0:
		if why := w.address(ev.Args[listener], "HTTPAddr", 0); why != "" {
			at("address", "the web app is not served at the configured address: %s", why)
		}
	case w.setting(ev.Args[0]) != "HTTPAddr":
		at("address", "the web app is not served at the configured address")
	}
}

// retention: old traces are evicted exactly if an age is set.
func (w *wiring) retention(st *State, age *Term, whose string, at func(string, string, ...any)) {
	neg, zero, pos := w.number(st, "DeleteAfter")
	switch {
	case age != nil && (neg || zero):
		at("retention", "%s store may evict traces although no age is set", whose)
	case age != nil && w.setting(age) != "DeleteAfter":
		at("retention", "%s store evicts traces at another age than the configured one", whose)
	case age == nil && pos:
		at("retention", "%s store may keep traces for ever although an age is set", whose)
	}
}

// url: what is wrong with the URL that the web app is given.
func (w *wiring) url(st *State, t *Term) string {
	e := w.e
	t = t.origin()
	if t.op == "extract" && t.aux == "0" && t.args[0].op == "call" {
		c := t.args[0]
		if strings.HasPrefix(c.aux, "net/url.Parse") {
			if w.setting(c.args[0]) != "URL" {
				return "it is not parsed from the configured URL"
			}
			if !w.knownSet(st, "URL") {
				return "the configured URL may be empty"
			}
			if er := e.T.lookup("extract", "1", c); er == nil || !e.isNil(st, er) {
				return "parsing it may have failed"
			}
			return ""
		}
	}
	if t.op != "alloc" {
		return "cannot be decided: it is " + t.String()
	}
	if !w.knownEmpty(st, "URL") {
		return "the configured URL is not used"
	}
	scheme, host := w.term(st.notes["w:f:"+noteID(t)+".Scheme"]), w.term(st.notes["w:f:"+noteID(t)+".Host"])
	if scheme == nil || host == nil {
		return "it has no scheme or no host"
	}
	s, _ := scheme.strVal()
	secure := w.knownSet(st, setCert) || w.knownSet(st, setKey)
	switch {
	case s == "http" && !w.tlsOff(st):
		return "its scheme is http although a certificate or key may be configured"
	case s == "https" && !secure:
		return "its scheme is https although no certificate and key may be configured"
	case s != "http" && s != "https":
		return "its scheme is not known to be http or https"
	}
	split := func(x *Term, i string) bool {
		x = x.origin()
		return x.op == "extract" && x.aux == i && x.args[0].op == "call" && x.args[0].aux == "net.SplitHostPort" && w.setting(x.args[0].args[0]) == "HTTPAddr"
	}
	if host.op != "call" || host.aux != "net.JoinHostPort" {
		return "its host is not made by net.JoinHostPort, which puts IPv6 addresses in brackets"
	}
	if !split(host.args[1], "1") {
		return "its port is not that of the HTTP address"
	}
	h := host.args[0].origin()
	if s, ok := h.strVal(); ok && s != "" {
		return "" // a name of this machine
	}
	if !split(h, "0") {
		return "its host is not that of the HTTP address"
	}
	for f, v := range st.facts {
		if em, x, ok := w.emptiness(f, v); ok && !em && x.origin() == h {
			return ""
		}
	}
	return "its host may be empty"
}
