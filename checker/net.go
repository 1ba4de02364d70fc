package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- common ----

func isMethodCall(ev *Event, name string) bool {
	return ev.Kind == "call" && strings.HasSuffix(ev.Name, ")."+name)
}

func isWriteMsg(ev *Event) bool { return ev.Iface && isMethodCall(ev, "WriteMsg") }
func isReadMsg(ev *Event) bool  { return ev.Iface && isMethodCall(ev, "ReadMsg") }
func isClose(ev *Event) bool    { return isMethodCall(ev, "Close") && len(ev.Args) == 1 }

func isConnType(t types.Type) bool {
	return typeIs(t, "net.Conn") || typeIs(t, "*crypto/tls.Conn") || typeIs(t, "*net.TCPConn")
}

// isDial: a call that yields a connection or an error.
func isDial(ev *Event) bool {
	return ev.Kind == "call" && ev.Sig != nil && ev.Sig.Results().Len() == 2 && isConnType(ev.Sig.Results().At(0).Type()) && isErrorType(ev.Sig.Results().At(1).Type()) && !isMethodCall(ev, "Accept")
}

func isAccept(ev *Event) bool { return ev.Iface && isMethodCall(ev, "Accept") }

// ---- C08 ----

func init() {
	register(&Check{
		ID: "C08",
		Rule: "typestate of the connection over every path of RemoteCollector's methods: nil is returned only after a write that returned nil; at most one dial and two writes, the second only after the first failed and on the connection just dialled; " +
			"a failing write on the old connection is followed by a dial; both writes carry the same message and happen under the lock; a connection that is replaced has been closed, one that has been closed is not kept, one that has been dialled is kept or closed; Close leaves none",
		NotCover: "what the network does with a packet that the connection has accepted",
		Run:      runC08,
	})
}

func runC08(r *R) {
	p := r.P
	n := p.Named("", "RemoteCollector")
	if !r.Require(n != nil, "anchor", "type RemoteCollector") {
		return
	}
	conns := fieldsOf(n, func(v *types.Var) bool {
		ms := types.NewMethodSet(v.Type())
		return ms.Lookup(nil, "WriteMsg") != nil || isConnType(v.Type())
	})
	if !r.Require(len(conns) == 1, "anchor", "RemoteCollector's connection (one field with a WriteMsg method)") {
		return
	}
	ci := conns[0]
	collect, cl := p.Method("", "RemoteCollector", "Collect"), p.Method("", "RemoteCollector", "Close")
	if !r.Require(collect != nil && cl != nil && len(collect.Params) == 3, "anchor", "RemoteCollector's methods Collect and Close") {
		return
	}
	e := NewEngine(p)
	e.Keep = func(st *State, ev *Event) bool {
		return isWriteMsg(ev) || isDial(ev) || isClose(ev)
	}
	e.OnIter = func(st *State, it *LoopIter) {
		for _, ev := range callsOf(it.Items, func(ev *Event) bool { return isWriteMsg(ev) || isDial(ev) }) {
			r.Violate("loop", fnLabel(ev.Fn), ev.Site.Pos(), "a packet may be written, or a connection opened, any number of times in a loop")
		}
	}
	e.OnEvent = func(st *State, ev *Event) {
		recv := e.Param(st.frames[0].fn, 0)
		ca := e.faddr(recv, n, ci)
		switch {
		case ev.Kind == "store" && isFieldOf(ev.Args[0], n, ci):
			if ev.Args[0] != ca {
				return
			}
			old := e.peek(st, ca, deref(ca.typ))
			closed := false
			for _, c := range callsOf(st.trace, isClose) {
				closed = closed || c.Args[0] == old
			}
			r.Count("connection changes", 1)
			if len(st.locks) == 0 {
				r.Violate("unlocked", fnLabel(ev.Fn), ev.Site.Pos(), "the connection is replaced without the lock")
			}
			if !e.isNil(st, old) && !closed && ev.Args[1] != old {
				st.notes[fmt.Sprint("replaced:", old.id)] = "1" // to be closed yet
			}
		case isWriteMsg(ev):
			r.Count("writes", 1)
			if !e.lockedRoot(st, recv) {
				r.Violate("write-unlocked", fnLabel(ev.Fn), ev.Site.Pos(), "a packet is written without the collector's lock: packets of concurrent calls may be mixed")
			}
			if w := ev.Args[0]; w.op == "load" && !e.notNil(st, w) {
				r.Violate("write-nil", fnLabel(ev.Fn), ev.Site.Pos(), "a packet may be written to no connection at all, which panics")
			}
		case ev.Kind == "unlock":
			v := e.peek(st, ca, deref(ca.typ))
			for _, c := range callsOf(st.trace, isClose) {
				if c.Args[0] == v {
					r.Violate("closed-kept", fnLabel(ev.Fn), ev.Site.Pos(), "a connection that has been closed is kept for the next packet")
				}
			}
			for _, d := range callsOf(st.trace, isDial) {
				if v.has(e.ResultTerm(d, 0)) {
					st.notes[fmt.Sprint("kept", d.Res.id)] = "1"
				}
			}
			if st.frames[0].fn == cl {
				st.notes["closed"] = "no"
				if e.isNil(st, v) {
					st.notes["closed"] = "yes"
				}
			}
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		fn := st.frames[0].fn
		if x.Kind != "return" {
			return
		}
		at := func(rule, f string, args ...any) { r.Violate(rule, fnLabel(x.Fn), x.Site.Pos(), f, args...) }
		dials := callsOf(st.trace, isDial)
		closes := callsOf(st.trace, isClose)
		for k := range st.notes {
			if !strings.HasPrefix(k, "replaced:") {
				continue
			}
			id, _ := strconv.Atoi(k[len("replaced:"):])
			old := e.T.all[id-1]
			ok := e.isNil(st, old)
			for _, c := range closes {
				ok = ok || c.Args[0] == old
			}
			if !ok {
				at("leaked", "a connection is replaced and not closed")
			}
		}
		for _, d := range dials {
			c := e.ResultTerm(d, 0)
			if e.notNil(st, e.errResult(d)) || e.isNil(st, c) || st.notes[fmt.Sprint("kept", d.Res.id)] != "" {
				continue
			}
			ok := false
			for _, k := range closes {
				ok = ok || k.Args[0].has(c)
			}
			if !ok {
				at("dial-leaked", "a connection that has been opened is neither kept nor closed")
			}
		}
		switch fn {
		case cl:
			r.Count("paths of Close", 1)
			if st.notes["closed"] != "yes" {
				at("close-leaves", "Close can return while the collector keeps a connection")
			}
			for _, k := range closes {
				if er := e.errResult(k); er != nil && !e.isNil(st, er) && !e.notNil(st, x.Results[0]) && !x.Results[0].has(er) {
					at("close-error", "Close can return nil although closing the connection has failed")
				}
			}
		case collect:
			r.Count("paths of Collect", 1)
			var seq []*Event
			for _, ev := range callsOf(st.trace, func(ev *Event) bool { return isWriteMsg(ev) || isDial(ev) }) {
				seq = append(seq, ev)
			}
			var last *Event // last write
			var dialled *Event
			writes := 0
			for i, ev := range seq {
				if isDial(ev) {
					if dialled != nil {
						at("many-dials", "Collect opens more than one connection for one packet")
					}
					dialled = ev
					if i+1 == len(seq) && !e.notNil(st, e.errResult(ev)) {
						at("no-retry", "Collect opens a connection and does not write the packet to it")
					}
					continue
				}
				writes++
				if dialled != nil && e.notNil(st, e.errResult(dialled)) {
					at("write-after-failed-dial", "Collect writes a packet although the dial has failed")
				}
				fresh := dialled != nil && ev.Args[0].has(e.ResultTerm(dialled, 0))
				if dialled != nil && !fresh {
					at("old-connection", "Collect writes a packet to the old connection after it has opened a new one")
				}
				if last != nil {
					if !e.notNil(st, e.errResult(last)) {
						at("sent-twice", "Collect writes the packet again although the first write may have succeeded")
					}
					if last.Args[0] == ev.Args[0] {
						at("old-connection", "Collect retries on the connection that has just failed")
					}
					if last.Args[1] != ev.Args[1] {
						at("other-packet", "Collect retries with another packet")
					}
				}
				if !fresh && i+1 == len(seq) && !e.isNil(st, e.errResult(ev)) {
					at("no-retry", "Collect does not open a new connection after a write on an old one has failed")
				}
				last = ev
			}
			if writes > 2 {
				at("many-writes", "Collect writes the packet %d times", writes)
			}
			res := x.Results[0]
			switch {
			case e.notNil(st, res):
			case last == nil:
				at("success-without-write", "Collect can return nil without having written the packet")
			case res == e.errResult(last) || e.isNil(st, e.errResult(last)):
				r.Count("successful paths", 1)
			default:
				at("success-after-failure", "Collect can return nil although the last write may have failed")
			}
			if last != nil && e.isNil(st, e.errResult(last)) && !e.isNil(st, res) && res != e.errResult(last) {
				at("failure-after-success", "Collect can return an error although the packet has been written")
			}
		}
	}
	for _, fn := range p.methodsOf(n) {
		if fn.Object().Exported() {
			e.Run(fn, nil)
		}
	}
	r.Use(e)
	r.Floor("writes", 2)
	r.Floor("connection changes", 2)
	r.Floor("successful paths", 2)
	r.Floor("paths of Close", 2)
}

// ---- the server ----

type server struct {
	r       *R
	n       *types.Named
	start   *ssa.Function
	threads []*Thread
	e       *Engine
	// of the accept loop
	accepts int
}

func newServer(r *R) *server {
	p := r.P
	s := &server{r: r, n: p.Named("", "CollectorServer"), start: p.Method("", "CollectorServer", "Start")}
	if !r.Require(s.n != nil && s.start != nil && len(s.start.Blocks) > 0, "anchor", "CollectorServer.Start") {
		return nil
	}
	seen := map[ssa.Instruction]bool{}
	e := NewEngine(p)
	e.OnThread = func(th *Thread) {
		if !seen[th.Site] {
			seen[th.Site] = true
			s.threads = append(s.threads, th)
		}
	}
	e.Run(s.start, nil)
	if !r.Require(len(s.threads) == 1, "anchor", "one go statement in CollectorServer.Start: the connection handler") {
		return nil
	}
	return s
}

// handler runs the connection handler; conn is its connection.
func (s *server) handler(setup func(e *Engine, conn *Term)) {
	th := s.threads[0]
	args := paramTerms2(s.r.P, th)
	e := args.e
	setup(e, args.conn)
	e.RunArgs(th.Fn, args.args, args.free, nil)
	s.r.Use(e)
	s.r.Count("connection handlers", 1)
}

type handlerArgs struct {
	e          *Engine
	args, free []*Term
	conn       *Term
}

// paramTerms2 makes a fresh engine with the handler's parameters and captured
// variables, one of which is the connection.
func paramTerms2(p *Program, th *Thread) *handlerArgs {
	h := &handlerArgs{e: NewEngine(p)}
	for i, q := range th.Fn.Params {
		t := h.e.Param(th.Fn, i)
		h.args = append(h.args, t)
		if isConnType(q.Type()) {
			h.conn = t
		}
	}
	for _, f := range th.Fn.FreeVars {
		t := h.e.T.mk("freevar", th.Fn.String()+":"+f.Name(), f.Type(), nil, nil)
		t.obj = f
		h.free = append(h.free, t)
		if isConnType(f.Type()) && h.conn == nil {
			h.conn = t
		}
	}
	return h
}

// isConn reports the handler's connection: the parameter, or the captured
// variable's content.
func isConn(t, conn *Term) bool {
	t = t.origin()
	if conn != nil {
		return t == conn
	}
	return isConnType(t.typ) && (t.op == "freevar" || at(t) != nil && at(t).op == "freevar")
}

// closesListener: the event closes a net.Listener.
func closesListener(ev *Event) bool {
	if ev.Kind != "call" || len(ev.Args) == 0 || !strings.HasSuffix(ev.Name, "Close") && !strings.HasSuffix(ev.Name, "SetDeadline") {
		return false
	}
	t := ev.Args[0].origin().typ
	if t == nil {
		t = ev.Args[0].typ
	}
	if t == nil {
		return false
	}
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "Accept") != nil && ms.Lookup(nil, "Addr") != nil
}

func mentionsConn(t, conn *Term) bool {
	return t.mentions(func(x *Term) bool { return isConn(x, conn) })
}

// ---- C09 ----

func init() {
	register(&Check{
		ID: "C09",
		Rule: "in the connection handler: every dereference of a pointer field of a wire message is either of a field that the schema requires or on a path that has found it non-nil; every index into received data is within bounds known on the path; no panic, unchecked type assertion or process exit is reachable; " +
			"the message reader's size limit is a constant of at most 1 MiB and nothing else reads the connection; a failed read ends the handler",
		NotCover: "gogo/protobuf itself, which enforces required fields and the size limit; panics inside the server's collector (C13)",
		Run:      runC09,
	})
}

// wireFields lists the pointer fields of wire messages: required or not.
func wireFields(p *Program) map[string]bool {
	out := map[string]bool{}
	sc := p.Pkgs["internal/wire"].Types.Scope()
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := s.Field(i).Type().Underlying().(*types.Pointer); !ok {
				continue
			}
			tag := reflect.StructTag(s.Tag(i)).Get("protobuf")
			if tag == "" {
				continue
			}
			req := false
			for _, f := range strings.Split(tag, ",") {
				req = req || f == "req"
			}
			out[fieldKey(tn.Type(), i)] = req
		}
	}
	return out
}

func runC09(r *R) {
	s := newServer(r)
	if s == nil {
		return
	}
	wf := wireFields(r.P)
	for _, req := range wf {
		if req {
			r.Count("required wire fields", 1)
		} else {
			r.Count("optional wire fields", 1)
		}
	}
	r.Floor("required wire fields", 3)
	s.handler(func(e *Engine, conn *Term) {
		e.OnAccess = func(st *State, a *Access) {
			// Which pointers does the address go through, last of all?
			b := a.Addr
			for b.op == "fa" || b.op == "ia" {
				if b.op == "ia" {
					x := b.args[0]
					if _, isArr := deref(x.typ).Underlying().(*types.Array); !isArr && !isObj(x) && b.args[1].op != "anyidx" && x.mentions(func(t *Term) bool { return t.op == "fa" && strings.Contains(t.aux, modPath+"/internal/wire.") }) {
						r.Count("index operations on received data", 1)
						lt := e.T.Bin(token.LSS, b.args[1], e.T.Len(x), types.Typ[types.Bool])
						if !e.isTrue(st, lt) {
							r.Violate("index", fnLabel(a.Fn), a.Site.Pos(), "an index into received data is not known to be within its length: a client can make it panic")
						}
					}
				}
				b = b.args[0]
			}
			f := at(b)
			if f == nil || f.op != "fa" {
				return
			}
			req, ok := wf[f.aux]
			if !ok {
				return
			}
			r.Count("dereferences of wire fields", 1)
			if !req && !e.notNil(st, b) {
				r.Violate("optional-field", fnLabel(a.Fn)+":"+fieldLabel(f), a.Site.Pos(), "%s, which a client may leave out, is dereferenced on a path that has not found it present", fieldLabel(f))
			}
		}
		e.OnEvent = func(st *State, ev *Event) {
			if isReadMsg(ev) {
				r.Count("message reads", 1)
			}
			switch ev.Kind {
			case "panic":
				r.Violate("panic", fnLabel(ev.Fn), ev.Site.Pos(), "the connection handler can panic")
			case "assert":
				if ta, ok := ev.Site.(*ssa.TypeAssert); ok && !ta.CommaOk && !e.isTrue(st, ev.Res) {
					r.Violate("assert", fnLabel(ev.Fn), ev.Site.Pos(), "an unchecked type assertion in the connection handler can panic")
				}
			case "call":
				if noReturn(ev.Name) || strings.Contains(ev.Name, "log.Panic") || strings.Contains(ev.Name, "Logger).Panic") {
					r.Violate("exit", fnLabel(ev.Fn), ev.Site.Pos(), "the connection handler can end the process by %s", ev.Name)
				}
				if closesListener(ev) {
					r.Violate("server-closed", fnLabel(ev.Fn), ev.Site.Pos(), "what handles one client's connection closes the server's listener, which all clients need")
				}
				connArg := false
				for _, a := range ev.Args {
					connArg = connArg || mentionsConn(a, conn) && !a.mentions(func(t *Term) bool { return t.op == "call" })
				}
				if !connArg {
					return
				}
				switch {
				case strings.Contains(ev.Name, "protobuf/io.New") && strings.HasSuffix(ev.Name, "Reader"):
					r.Count("message readers", 1)
					lim, ok := lastArg(ev).intVal()
					if !ok || lim > 1<<20 || lim <= 0 {
						r.Violate("limit", fnLabel(ev.Fn), ev.Site.Pos(), "the message reader's limit is not a constant of at most 1 MiB")
					}
				case readsAll(ev.Name):
					r.Violate("unlimited", fnLabel(ev.Fn), ev.Site.Pos(), "the connection is read by %s, which the message limit does not bound", ev.Name)
				}
			}
		}
		e.Keep = func(st *State, ev *Event) bool { return isReadMsg(ev) }
		e.OnIter = func(st *State, it *LoopIter) {
			for _, ev := range callsOf(it.Items, isReadMsg) {
				if !e.isNil(st, e.errResult(ev)) {
					r.Violate("goes-on", fnLabel(it.Loop.fn), it.Site.Pos(), "the handler goes on after a read error: it would interpret the rest of a bad message, or loop for ever")
				}
			}
		}
	})
	r.Floor("message readers", 1)
	r.Floor("message reads", 1)
	r.Floor("dereferences of wire fields", 3)
}

func readsAll(name string) bool {
	for _, p := range []string{"io.", "io/ioutil.", "bufio.", "encoding/", "(*bytes.Buffer).ReadFrom", "compress/"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasSuffix(name, ").Read")
}

// ---- C10 ----

func init() {
	register(&Check{
		ID: "C10",
		Rule: "accept loop: each iteration starts exactly one handler goroutine, with the connection that this iteration's Accept returned without error, or has met an error known to be temporary; the loop ends only on other errors; " +
			"handler: one message reader per connection; every iteration reads one message without error and then hands that message to the server's collector exactly once, synchronously; the handler never returns between a successful read and that hand-over; the connection is closed on every return path",
		NotCover: "messages that the reader has buffered when the connection breaks",
		Run:      runC10,
	})
}

func runC10(r *R) {
	s := newServer(r)
	if s == nil {
		return
	}
	p := r.P
	// The accept loop.
	e := NewEngine(p)
	e.Keep = func(st *State, ev *Event) bool {
		return isAccept(ev) || ev.Kind == "go" || isClose(ev) || isMethodCall(ev, "Temporary")
	}
	temporary := func(st *State, items []*TItem) bool {
		for _, c := range callsOf(items, func(ev *Event) bool { return isMethodCall(ev, "Temporary") }) {
			if e.isTrue(st, c.Res) {
				return true
			}
		}
		return false
	}
	goes := func(items []*TItem) []*Event {
		var out []*Event
		for _, it := range items {
			if it.Ev != nil && it.Ev.Kind == "go" {
				out = append(out, it.Ev)
			}
		}
		return out
	}
	handed := func(ev *Event, conn *Term) bool {
		for _, a := range ev.Args {
			if a.has(conn) {
				return true
			}
		}
		if g, ok := ev.Site.(*ssa.Go); ok {
			if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
				return len(mc.Bindings) > 0 // captured: checked by capturing below
			}
		}
		return false
	}
	capture := map[*Event]bool{}
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind != "go" {
			return
		}
		g, ok := ev.Site.(*ssa.Go)
		if !ok {
			return
		}
		if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				cell := e.val(st, b)
				if cell.op == "alloc" && isConnType(deref(cell.typ)) {
					v := e.peek(st, cell, deref(cell.typ))
					for _, a := range callsOf(st.trace, isAccept) {
						if v.has(e.ResultTerm(a, 0)) && bornSame(cell, a) {
							capture[ev] = true
						}
					}
				}
			}
		}
	}
	// A variable captured by the goroutine must be this iteration's own.
	check := func(st *State, items []*TItem, pos token.Pos, where string, exit bool) {
		for _, a := range callsOf(items, isAccept) {
			er, conn := e.errResult(a), e.ResultTerm(a, 0)
			gs := goes(items)
			switch {
			case e.isNil(st, er):
				n := 0
				for _, g := range gs {
					if handed(g, conn) {
						n++
						if mc, ok := g.Site.(*ssa.Go).Call.Value.(*ssa.MakeClosure); ok && len(g.Args) == 0 && len(mc.Bindings) > 0 && !capture[g] {
							r.Violate("captured", where, g.Site.Pos(), "the handler shares a variable that the next Accept overwrites: a connection may be handled twice or not at all")
						}
					}
				}
				if n != 1 {
					r.Violate("one-handler", where, pos, "an accepted connection is given to %d handler goroutines instead of one", n)
				}
				if exit {
					r.Violate("server-ends", where, pos, "the server ends although Accept has succeeded")
				}
				r.Count("accepted connections", 1)
			default:
				for _, g := range gs {
					r.Violate("handler-without-conn", where, g.Site.Pos(), "a handler is started although Accept may have failed")
				}
				if !exit && !temporary(st, items) {
					r.Violate("spins", where, pos, "the accept loop goes on after an error that is not known to be temporary")
				}
				if exit && temporary(st, items) {
					r.Violate("gives-up", where, pos, "the server ends because of a temporary error")
				}
				r.Count("accept errors", 1)
			}
		}
	}
	e.OnIter = func(st *State, it *LoopIter) {
		if n := len(callsOf(it.Items, isAccept)); n > 0 {
			r.Count("iterations of the accept loop", 1)
			if n > 1 {
				r.Violate("one-handler", fnLabel(it.Loop.fn), it.Site.Pos(), "an iteration accepts more than one connection")
			}
		}
		check(st, it.Items, it.Site.Pos(), fnLabel(it.Loop.fn), false)
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			r.Violate("server-crashes", fnLabel(x.Fn), x.Site.Pos(), "Start can panic or end the process")
			return
		}
		// Only what follows the last completed iteration.
		check(st, st.trace, x.Site.Pos(), fnLabel(x.Fn), true)
	}
	e.Run(s.start, nil)
	r.Use(e)

	// The packet loop.
	s.handler(func(e *Engine, conn *Term) {
		e.Keep = func(st *State, ev *Event) bool {
			return isReadMsg(ev) || isCollect(ev) || isClose(ev) || ev.Kind == "go" || isReaderNew(ev)
		}
		e.OnEvent = func(st *State, ev *Event) {
			if closesListener(ev) {
				r.Violate("server-ends", fnLabel(ev.Fn), ev.Site.Pos(), "what handles one client's connection ends the server by closing its listener")
			}
			if ev.Kind == "go" {
				if fn := ev.Rec; fn != nil && s.delivers(fn) {
					r.Violate("async", fnLabel(ev.Fn), ev.Site.Pos(), "packets are handed over by another goroutine: their order is lost")
				}
			}
		}
		match := func(st *State, items []*TItem, pos token.Pos, where string, exit bool) {
			var read *Event
			n := 0
			bad := false
			for _, ev := range callsOf(items, func(ev *Event) bool { return isReadMsg(ev) || isCollect(ev) }) {
				if isReadMsg(ev) {
					if read != nil && n == 0 && e.isNil(st, e.errResult(read)) {
						bad = true
					}
					read, n = ev, 0
					continue
				}
				n++
				if read == nil || !e.isNil(st, e.errResult(read)) {
					r.Violate("not-read", where, pos, "something is handed to the collector that has not been read without error before")
					continue
				}
				if c := ev.Args[0]; !(at(c) != nil && at(c).op == "fa" && strings.HasPrefix(at(c).aux, types.TypeString(s.n, nil)+"#")) {
					r.Violate("collector", where, pos, "packets are handed to another collector than the server's")
				}
				pkt := lastArg(read).origin()
				for i, a := range ev.Args[1:] {
					ok := a.mentions(func(t *Term) bool { return t == pkt }) || i > 0
					if !ok {
						r.Violate("other-packet", where, pos, "what is handed to the collector is not the packet that has just been read")
					}
				}
				if n > 1 {
					r.Violate("handed-twice", where, pos, "a packet is handed to the collector more than once")
				}
			}
			if read != nil && n == 0 && (e.isNil(st, e.errResult(read)) || !exit && !e.notNil(st, e.errResult(read))) {
				bad = true
			}
			if bad {
				r.Violate("packet-dropped", where, pos, "a packet that has been read is not handed to the collector")
			}
			if read != nil && e.isNil(st, e.errResult(read)) && n == 1 {
				r.Count("packets handed over", 1)
			}
		}
		e.OnIter = func(st *State, it *LoopIter) {
			cs := callsOf(it.Items, func(ev *Event) bool { return isReadMsg(ev) || isCollect(ev) })
			if len(cs) == 0 {
				return
			}
			r.Count("iterations of the packet loop", 1)
			if !isReadMsg(cs[0]) {
				r.Violate("handed-twice", fnLabel(it.Loop.fn), it.Site.Pos(), "a packet may be handed to the collector again and again")
			}
			if len(callsOf(it.Items, isReaderNew)) > 0 {
				r.Violate("reader", fnLabel(it.Loop.fn), it.Site.Pos(), "a new message reader per packet loses what the previous one has buffered")
			}
			match(st, it.Items, it.Site.Pos(), fnLabel(it.Loop.fn), false)
		}
		e.OnExit = func(st *State, x *Exit) {
			if x.Kind != "return" {
				return
			}
			r.Count("ends of the handler", 1)
			if n := len(callsOf(st.trace, isReaderNew)); n > 1 {
				r.Violate("reader", fnLabel(x.Fn), x.Site.Pos(), "a second message reader on the connection loses what the first one has buffered")
			}
			match(st, st.trace, x.Site.Pos(), fnLabel(x.Fn), true)
			closed := false
			for _, c := range callsOf(st.trace, isClose) {
				closed = closed || mentionsConn(c.Args[0], conn)
			}
			if !closed {
				r.Violate("conn-leak", fnLabel(x.Fn), x.Site.Pos(), "the handler can return without closing its connection")
			}
		}
	})
	r.Floor("accepted connections", 1)
	r.Floor("accept errors", 2)
	r.Floor("packets handed over", 1)
	r.Floor("iterations of the packet loop", 1)
	r.Floor("ends of the handler", 2)
}

// delivers: does fn (a goroutine's function) reach a Collector?
func (s *server) delivers(fn *ssa.Function) bool {
	return newRelevance(s.r.P, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Collect"
	}).has(fn)
}

// bornSame: a variable of the same activation as a call; loops give each
// iteration its own if both lie in the loop.
func bornSame(cell *Term, ev *Event) bool {
	al, ok := cell.site.(*ssa.Alloc)
	return ok && al.Block() != nil && cell.ctx == ev.Ctx && inAllLoopsOf(al.Block(), ev.Site.Block())
}

// inAllLoopsOf: a lies in every loop that b lies in.
func inAllLoopsOf(a, b *ssa.BasicBlock) bool {
	for _, l := range findLoops(b.Parent()) {
		if l.blocks[b] && !l.blocks[a] {
			return false
		}
	}
	return true
}

func isReaderNew(ev *Event) bool {
	return ev.Kind == "call" && (strings.Contains(ev.Name, "protobuf/io.New") && strings.HasSuffix(ev.Name, "Reader") || strings.HasPrefix(ev.Name, "bufio.NewReader"))
}
