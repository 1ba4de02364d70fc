package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C15: persistence ----

func init() {
	register(&Check{
		ID: "C15",
		Rule: "typestate of the temporary file over every path of PersistEvery: the persisted file is only the target of a rename, whose source was created on the same path in the file's own directory, received the store's data without error, was flushed, synced and closed without error, in that order, and not written since; " +
			"on every other path to a return or the next round the temporary file is removed, and each error of these operations is returned. " +
			"MemoryStore.Write encodes the store's own tree map; MemoryStore.ReadFrom decodes into new memory only, and changes the store only where decoding is known to have succeeded, to a non-nil decoded tree map and to an index made anew that a verified recursive function fills from every restored tree, in a loop that walks them all; no path leaves one replaced without the other",
		NotCover: "that the file system keeps what it has acknowledged, and the directory entry itself; persistent stores outside the package; what gob does with the bytes",
		Run:      runC15,
	})
}

func runC15(r *R) {
	persistEvery(r)
	restore(r)
}

// isDataWrite: the store writes its data somewhere.
func isDataWrite(ev *Event) bool { return isIfaceMethod(ev, "Write") && len(ev.Args) == 2 }

var creators = map[string]int{"os.CreateTemp": 0, "io/ioutil.TempFile": 0, "os.Create": 1, "os.OpenFile": 1}

func persistEvery(r *R) {
	p := r.P
	fn := p.Func("", "PersistEvery")
	if !r.Require(fn != nil && len(fn.Blocks) > 0, "anchor", "appdash.PersistEvery") {
		return
	}
	e := NewEngine(p)
	var file, store *Term
	for i, q := range fn.Params {
		switch {
		case isString(q.Type()):
			file = e.Param(fn, i)
		case types.IsInterface(q.Type()):
			store = e.Param(fn, i)
		}
	}
	if !r.Require(file != nil && store != nil, "anchor", "PersistEvery's parameters: a store and a file name") {
		return
	}
	isCall := func(ev *Event, names ...string) bool {
		if ev.Kind != "call" {
			return false
		}
		for _, n := range names {
			if ev.Name == n {
				return true
			}
		}
		return false
	}
	isCreate := func(ev *Event) bool { _, ok := creators[ev.Name]; return ev.Kind == "call" && ok }
	isFlush := func(ev *Event) bool {
		return ev.Kind == "call" && !ev.Iface && (strings.HasSuffix(ev.Name, ").Flush") || strings.HasSuffix(ev.Name, ").Close") && ev.Name != "(*os.File).Close")
	}
	late := func(ev *Event) bool {
		return isCall(ev, "(*os.File).Write", "(*os.File).WriteAt", "(*os.File).WriteString", "(*os.File).Truncate", "(*os.File).Seek", "(*os.File).ReadFrom")
	}
	tracked := func(ev *Event) bool {
		return isCreate(ev) || isDataWrite(ev) || isFlush(ev) || late(ev) || isCall(ev, "(*os.File).Sync", "(*os.File).Close", "os.Rename", "os.Remove", "os.RemoveAll")
	}
	e.Keep = func(st *State, ev *Event) bool { return tracked(ev) }
	isName := func(t, f *Term, ev *Event) bool {
		t = t.origin()
		return t.op == "call" && t.aux == "(*os.File).Name" && t.args[0] == f || creators[ev.Name] == 1 && t == ev.Args[0].origin()
	}
	dirOf := func(t *Term) bool {
		t = t.origin()
		return t.op == "call" && t.aux == "path/filepath.Dir" && t.args[0].origin() == file
	}
	renames := map[ssa.Instruction]bool{}
	judgeRename := func(st *State, rn *Event) {
		at := func(rule, f string, args ...any) { r.Violate(rule, fnLabel(rn.Fn), rn.Site.Pos(), f, args...) }
		r.Count("renames", 1)
		renames[rn.Site] = true
		if rn.Args[1].origin() != file {
			at("target", "a file is renamed to something other than the persisted file")
		}
		evs := callsOf(st.trace, tracked)
		var cr *Event
		for _, ev := range evs {
			if isCreate(ev) && isName(rn.Args[0], e.ResultTerm(ev, 0), ev) {
				cr = ev
			}
		}
		if cr == nil {
			at("source", "what is renamed to the persisted file is not a temporary file created on this path")
			return
		}
		f := e.ResultTerm(cr, 0)
		if !e.isNil(st, e.errResult(cr)) {
			at("created", "the temporary file may not have been created")
		}
		if creators[cr.Name] == 0 {
			if !dirOf(cr.Args[0]) {
				at("directory", "the temporary file is not created in the persisted file's directory: the rename may not be possible or atomic")
			}
		} else if n := cr.Args[0].origin(); !(n.op == "bin" && leftmost(n) == file) {
			at("directory", "the temporary file is not created in the persisted file's directory: the rename may not be possible or atomic")
		}
		// written -> flushed -> synced -> closed
		state, through := "", (*Term)(nil)
		removed := false
		for _, ev := range evs {
			ok := e.errResult(ev) != nil && e.isNil(st, e.errResult(ev))
			switch {
			case isDataWrite(ev) && ev.Args[0].origin() == store.origin():
				w := ev.Args[1].origin()
				if !w.has(f) && !holds(e, st, w, f) {
					at("incomplete", "the store's data is written elsewhere")
				}
				state = "failed"
				if ok {
					state = "written"
					if w != f {
						state, through = "buffered", w
					}
				}
			case isFlush(ev) && through != nil && ev.Args[0].origin() == through && state == "buffered":
				state = "failed"
				if ok {
					state = "written"
				}
			case late(ev) && ev.Args[0] == f:
				state = "changed"
			case isCall(ev, "(*os.File).Sync") && ev.Args[0] == f && state == "written":
				if ok {
					state = "synced"
				}
			case isCall(ev, "(*os.File).Close") && ev.Args[0] == f:
				switch {
				case state == "synced" && ok:
					state = "closed"
				case state != "closed":
					state = "closed, but " + map[string]string{"": "without data", "failed": "after a failed write", "written": "without having been synced", "buffered": "with data still buffered", "synced": "with an error ignored", "changed": "after changes"}[state]
				}
			case isCall(ev, "os.Remove", "os.RemoveAll") && isName(ev.Args[0], f, cr):
				removed = true
			}
		}
		if removed {
			at("incomplete", "the temporary file is removed before it is renamed")
		}
		if state != "closed" {
			at("incomplete", "the persisted file is replaced by a temporary file that may not be complete on disk (it is %q, not written, synced and closed without error)", state)
		}
	}
	end := func(st *State, site ssa.Instruction, f *ssa.Function, res []*Term) {
		at := func(rule, ft string, args ...any) { r.Violate(rule, fnLabel(f), site.Pos(), ft, args...) }
		evs := callsOf(st.trace, tracked)
		failed := false
		for _, ev := range evs {
			er := e.errResult(ev)
			if isCreate(ev) && !e.notNil(st, er) {
				r.Count("temporary files", 1)
				tmp := e.ResultTerm(ev, 0)
				gone := false
				for _, x := range evs {
					gone = gone || isCall(x, "os.Rename") && isName(x.Args[0], tmp, ev) && e.isNil(st, e.errResult(x))
					gone = gone || isCall(x, "os.Remove", "os.RemoveAll") && isName(x.Args[0], tmp, ev)
				}
				if !gone {
					at("left-behind", "the temporary file created at %s may be left behind", p.Pos(ev.Site.Pos()))
				}
			}
			if er == nil || isCall(ev, "os.Remove", "os.RemoveAll") || isCall(ev, "(*os.File).Close") && failed {
				continue
			}
			if isFlush(ev) && !ev.Args[0].mentions(func(x *Term) bool { return isFileType(x.typ) }) && failed {
				continue
			}
			if e.isNil(st, er) {
				continue
			}
			r.Count("errors to return", 1)
			ok := false
			for _, v := range res {
				ok = ok || v.has(er) || e.notNil(st, v)
			}
			if isCall(ev, "(*os.File).Close") && !failed && !ok {
				// A second Close of the same file only cleans up.
				for _, x := range evs {
					if x != ev && isCall(x, "(*os.File).Close") && x.Args[0] == ev.Args[0] && e.isNil(st, e.errResult(x)) {
						ok = true
					}
				}
			}
			if !ok {
				at("error-lost", "the error of %s at %s may be lost", ev.Name, p.Pos(ev.Site.Pos()))
			}
			failed = true
		}
	}
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind != "call" {
			return
		}
		if strings.HasPrefix(ev.Name, "os.") || strings.HasPrefix(ev.Name, "io/ioutil.") || strings.HasPrefix(ev.Name, "syscall.") {
			for i, a := range ev.Args {
				if a.origin() != file {
					continue
				}
				switch ev.Name {
				case "os.Stat", "os.Lstat", "os.Readlink":
				case "os.Rename":
					if i == 0 {
						r.Violate("touched", fnLabel(ev.Fn), ev.Site.Pos(), "the persisted file itself is renamed: a crash then leaves none")
					}
				default:
					r.Violate("touched", fnLabel(ev.Fn), ev.Site.Pos(), "%s is called on the persisted file itself: a crash or failure may leave it incomplete or missing", ev.Name)
				}
			}
		}
	}
	e.OnIter = func(st *State, it *LoopIter) {
		if it.Loop.header.Parent() != fn && len(callsOf(it.Items, tracked)) == 0 {
			return
		}
		s := st.clone()
		s.trace = it.Items
		for _, ev := range callsOf(it.Items, func(ev *Event) bool { return isCall(ev, "os.Rename") }) {
			_ = ev
			r.Count("rounds that replace the file", 1)
		}
		end(s, it.Site, fn, nil)
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind == "panic" {
			return
		}
		r.Count("ends", 1)
		end(st, x.Site, x.Fn, x.Results)
	}
	old := e.OnEvent
	e.OnEvent = func(st *State, ev *Event) {
		old(st, ev)
		if isCall(ev, "os.Rename") {
			judgeRename(st, ev)
		}
	}
	e.Run(fn, nil)
	r.Use(e)
	r.Floor("renames", 1)
	r.Floor("rounds that replace the file", 1)
	r.Floor("errors to return", 4)
	// No other code of the library renames files.
	for _, f := range p.srcFn {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || c.Common().StaticCallee().String() != "os.Rename" {
					continue
				}
				if !renames[in] {
					r.Violate("unverified", fnLabel(f), in.Pos(), "cannot be decided: a file is renamed outside PersistEvery")
				}
			}
		}
	}
}

func isFileType(t types.Type) bool { return typeIs(t, "*os.File") }

func leftmost(t *Term) *Term {
	for t.op == "bin" && t.aux == token.ADD.String() {
		t = t.args[0]
	}
	return t
}

// holds reports that w was made by a call that was given x (a buffered writer).
func holds(e *Engine, st *State, w, x *Term) bool {
	return w.mentions(func(t *Term) bool { return t == x })
}

// ---- restoring ----

func restore(r *R) {
	t := newTree(r)
	if t == nil {
		return
	}
	p := r.P
	rd, wr := p.Method("", "MemoryStore", "ReadFrom"), p.Method("", "MemoryStore", "Write")
	if !r.Require(rd != nil && wr != nil, "anchor", "MemoryStore's methods ReadFrom and Write") {
		return
	}
	isGob := func(ev *Event, name string) bool {
		return ev.Kind == "call" && ev.Name == "(*encoding/gob."+name
	}
	// What is encoded.
	var encoded types.Type
	field := -1
	we := NewEngine(p)
	we.Keep = func(st *State, ev *Event) bool { return isGob(ev, "Encoder).Encode") }
	we.OnEvent = func(st *State, ev *Event) {
		if !isGob(ev, "Encoder).Encode") {
			return
		}
		r.Count("encodings", 1)
		recv := we.Param(wr, 0)
		tm := we.fval(st, recv, t.ms, t.traces)
		v := ev.Args[1].origin()
		if v.op == "alloc" {
			v = we.peek(st, v, deref(v.typ))
		}
		encoded = v.typ
		switch {
		case v == tm:
			field = -2
		case v.op == "struct":
			for i, a := range v.args {
				if a == tm {
					field = i
				}
			}
		}
		if field == -1 {
			r.Violate("not-written", fnLabel(ev.Fn), ev.Site.Pos(), "what is encoded does not have the store's tree map")
		}
	}
	we.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" || we.notNil(st, x.Results[0]) {
			return
		}
		n := 0
		for _, ev := range callsOf(st.trace, func(ev *Event) bool { return isGob(ev, "Encoder).Encode") }) {
			n++
			if er := we.errResult(ev); !we.isNil(st, er) && x.Results[0] != er {
				r.Violate("error-lost", fnLabel(x.Fn), x.Site.Pos(), "writing the store can report success although encoding it has failed")
			}
		}
		if n != 1 {
			r.Violate("not-written", fnLabel(x.Fn), x.Site.Pos(), "writing the store can report success with %d encodings of it", n)
		}
	}
	we.Run(wr, nil)
	r.Use(we)
	r.Floor("encodings", 1)
	if field == -1 || encoded == nil {
		return
	}

	e := NewEngine(p)
	t.e = e
	e.Loops = true
	recv := e.Param(rd, 0)
	ta, sa := e.faddr(recv, t.ms, t.traces), e.faddr(recv, t.ms, t.spans)
	// indexers are called, not inlined: they are verified below.
	indexers := map[*ssa.Function]bool{}
	e.Opaque = func(fn *ssa.Function) bool {
		_, ok := indexers[fn]
		if !ok && t.indexerSig(fn) {
			indexers[fn] = t.verifyIndexer(fn)
			if !indexers[fn] {
				r.Violate("index", fnLabel(fn), fn.Pos(), "cannot be decided: this function is not shown to enter a span and all spans below it in an index, each under its own ID")
			}
			ok = true
		}
		return ok
	}
	isIndexer := func(ev *Event) bool { return ev.Kind == "call" && ev.Rec != nil && indexers[ev.Rec] }
	e.Keep = func(st *State, ev *Event) bool {
		return isGob(ev, "Decoder).Decode") || isIndexer(ev) || ev.Kind == "mapupdate" || ev.Kind == "store" && (ev.Args[0] == ta || ev.Args[0] == sa)
	}
	judging := false
	at := func(ev *Event, rule, f string, args ...any) {
		if judging {
			r.Violate(rule, fnLabel(ev.Fn), ev.Site.Pos(), f, args...)
		}
	}
	ptr := types.NewPointer(t.trace)
	inner := types.NewMap(p.Named("", "ID"), ptr)
	// Loops over the restored trees that index each of them: by the map walked
	// and the index filled.
	type fill struct {
		it   *LoopIter
		skip bool
		into map[*Term]bool
	}
	fills := map[string]*fill{}
	e.OnIter = func(st *State, it *LoopIter) {
		key := loopName(it.Loop, it.Ctx)
		f := fills[key]
		if f == nil {
			f = &fill{it: it, into: map[*Term]bool{}}
			fills[key] = f
		}
		good := false
		for _, c := range callsOf(it.Items, isIndexer) {
			ni, mi := t.indexerArgs(c.Rec)
			x, m := c.Args[ni], c.Args[mi]
			for _, u := range callsOf(it.Items, func(ev *Event) bool {
				return ev.Kind == "mapupdate" && types.Identical(ev.Args[2].typ.Underlying(), inner)
			}) {
				k := u.Args[1]
				isVal := x.op == "nextv" && k.op == "nextk" && x.args[0] == k.args[0] ||
					k.op == "nextk" && x.op == "load" && x.args[0].op == "me" && x.args[0].args[1] == k && x.args[0].args[0] == k.args[0].args[0]
				if isVal && u.Args[2] == m && m.op == "mk" && u.Args[0].op == "mk" {
					good = true
					f.into[u.Args[0]] = true
				}
			}
		}
		if !good {
			f.skip = true
		}
	}
	e.OnEvent = func(st *State, ev *Event) {
		decoded := func() bool {
			ds := callsOf(st.trace, func(ev *Event) bool { return isGob(ev, "Decoder).Decode") })
			for _, d := range ds {
				if !e.isNil(st, e.errResult(d)) {
					return false
				}
			}
			return len(ds) > 0
		}
		switch {
		case isGob(ev, "Decoder).Decode"):
			if judging {
				r.Count("decodings", 1)
			}
			d := ev.Args[1].origin()
			if d.op != "alloc" {
				at(ev, "in-place", "the file is decoded into memory that is not new: a bad file leaves a mixture")
				return
			}
			if !types.Identical(deref(d.typ), encoded) && !sameShape(deref(d.typ), encoded) {
				at(ev, "types", "a %s is decoded, but a %s is encoded", deref(d.typ), encoded)
			}
			v := e.peek(st, d, deref(d.typ))
			vs := []*Term{v}
			if v.op == "struct" {
				vs = v.args
			}
			for _, x := range vs {
				if !e.isNil(st, x) && x.op != "mk" {
					at(ev, "in-place", "the file is decoded into the store's own maps: a bad file leaves a mixture")
				}
			}
			st.notes["target"] = fmt.Sprint(d.id)
		case ev.Kind == "mapupdate" && e.root(st, ev.Args[0]) == recv, ev.Kind == "builtin" && (ev.Name == "delete" || ev.Name == "clear") && e.root(st, ev.Args[0]) == recv:
			if !decoded() || ev.Kind == "builtin" {
				at(ev, "in-place", "restoring changes the store's maps in place")
			}
		case ev.Kind == "store" && (ev.Args[0] == ta || ev.Args[0] == sa):
			if judging {
				r.Count("replacements", 1)
			}
			v := ev.Args[1]
			if !decoded() {
				at(ev, "not-decoded", "the store is changed where the file may not have been decoded without error")
			}
			if ev.Args[0] == ta {
				if !e.notNil(st, v) {
					at(ev, "nil-map", "the store may be left with a nil tree map, so that collecting panics")
				}
				if v.op == "mk" { // known to be in the place of a nil map
					st.notes["trees"] = "made"
					return
				}
				a := ta
				if x := at2(v); x != nil {
					a = x
				}
				d := e.T.all[max(atoi(st.notes["target"])-1, 0)]
				if !(field == -2 && a == d || field >= 0 && a.op == "fa" && a.args[0] == d && a.aux == fieldKey(d.typ, field)) {
					at(ev, "other-map", "the trees that replace the store's are not those that were written")
				}
				st.notes["trees"] = fmt.Sprint(v.id)
				return
			}
			if v.op != "mk" {
				at(ev, "index", "the span index that replaces the store's is not made from the restored trees: gob decodes separate copies of the spans")
				return
			}
			st.notes["index"] = fmt.Sprint(v.id)
		case ev.Kind == "unlock" && e.root(st, ev.Args[0]) == recv:
			trees, index := st.notes["trees"], st.notes["index"]
			if judging {
				r.Count("ends of ReadFrom's critical section", 1)
			}
			if trees == "" && index == "" {
				return
			}
			if trees == "" || index == "" {
				at(ev, "half", "trees are replaced without the span index, or the other way round")
				return
			}
			st.notes["restored"] = "1"
			ix := e.T.all[atoi(index)-1]
			tm := e.peek(st, ta, deref(ta.typ))
			ok := trees == "made"
			for _, f := range fills {
				ok = ok || !f.skip && len(f.into) == 1 && f.into[ix] && e.walked(st, f.it.Loop, f.it.Ctx, tm)
			}
			if !ok {
				at(ev, "index", "the span index may lack spans of the restored trees")
			}
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if !judging || x.Kind != "return" {
			return
		}
		r.Count("paths of ReadFrom", 1)
		er := x.Results[len(x.Results)-1]
		if st.notes["restored"] == "" && !e.notNil(st, er) {
			r.Violate("not-restored", fnLabel(x.Fn), x.Site.Pos(), "restoring can report success without having replaced the store's data")
		}
	}
	e.Run(rd, nil)
	judging = true
	fills = map[string]*fill{}
	e.visited = map[string]bool{}
	e.Run(rd, nil)
	r.Use(e)
	r.Floor("decodings", 1)
	r.Floor("replacements", 2)
	r.Floor("ends of ReadFrom's critical section", 2)
}

func atoi(s string) int {
	n := 0
	fmt.Sscan(s, &n)
	return n
}

func at2(t *Term) *Term { return at(t) }

func sameShape(a, b types.Type) bool {
	x, ok1 := a.Underlying().(*types.Struct)
	y, ok2 := b.Underlying().(*types.Struct)
	return ok1 && ok2 && types.Identical(x, y)
}

// indexerSig: a recursive function of a tree and an index of spans.
func (t *treeCheck) indexerSig(fn *ssa.Function) bool {
	n, m := t.indexerArgs(fn)
	if n < 0 || m < 0 || len(fn.Blocks) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}

func (t *treeCheck) indexerArgs(fn *ssa.Function) (node, m int) {
	node, m = -1, -1
	for i, q := range fn.Params {
		switch {
		case isTrace(q.Type()):
			node = i
		case mapType(q.Type()) == "map["+modPath+".ID]*"+modPath+".Trace":
			m = i
		}
	}
	return
}

// verifyIndexer: the function enters its node, and calls itself for every
// child (by induction over the tree), and does nothing else to the index.
func (t *treeCheck) verifyIndexer(fn *ssa.Function) bool {
	ni, mi := t.indexerArgs(fn)
	e := NewEngine(t.r.P)
	old := t.e
	t.e = e
	defer func() { t.e = old }()
	e.Loops = true
	node, m := e.Param(fn, ni), e.Param(fn, mi)
	subs := e.faddr(node, t.trace, t.sub)
	ok := true
	isRec := func(ev *Event) bool { return ev.Kind == "call" && ev.Rec == fn }
	e.Keep = func(st *State, ev *Event) bool { return isRec(ev) }
	loops, skips := map[string]*LoopIter{}, map[string]bool{}
	e.OnIter = func(st *State, it *LoopIter) {
		key := loopName(it.Loop, it.Ctx)
		loops[key] = it
		good := false
		for _, c := range callsOf(it.Items, isRec) {
			x := c.Args[ni]
			if l := rawElem(x); l != nil && e.isElem(x, l) && at(l) == subs && c.Args[mi] == m {
				good = true
			}
		}
		if !good {
			skips[key] = true
		}
	}
	e.OnEvent = func(st *State, ev *Event) {
		switch ev.Kind {
		case "mapupdate":
			if ev.Args[0] != m || ev.Args[2] != node || ev.Args[1] != t.spanOf(st, node) {
				ok = false
			}
			st.notes["entered"] = "1"
		case "store":
			if e.root(st, ev.Args[0]).op != "alloc" {
				ok = false
			}
		case "builtin":
			if ev.Name == "delete" || ev.Name == "clear" {
				ok = false
			}
		}
	}
	ends := 0
	judging := false
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" || !judging || e.isNil(st, node) {
			return
		}
		ends++
		all := e.empty(st, e.peek(st, subs, deref(subs.typ)))
		for k, it := range loops {
			all = all || !skips[k] && e.walked(st, it.Loop, it.Ctx, e.peek(st, subs, deref(subs.typ)))
		}
		if !all || st.notes["entered"] == "" {
			ok = false
		}
	}
	e.Run(fn, nil)
	judging = true
	e.visited = map[string]bool{}
	e.Run(fn, nil)
	t.r.Use(e)
	t.r.Count("verified indexing functions", 1)
	return ok && ends > 0
}
