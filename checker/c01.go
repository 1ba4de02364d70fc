package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// entries lists the exported functions and methods of the packages: what
// their users may call, from any number of goroutines.
func (p *Program) entries(rels ...string) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if fn != nil && len(fn.Blocks) > 0 && !seen[fn] && p.InRepo(fn) {
			seen[fn] = true
			out = append(out, fn)
		}
	}
	for _, rel := range rels {
		pk := p.Pkgs[rel]
		if pk == nil {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			switch o := sc.Lookup(n).(type) {
			case *types.Func:
				if o.Exported() {
					add(p.Prog.FuncValue(o))
				}
			case *types.TypeName:
				nt, ok := o.Type().(*types.Named)
				if !ok || o.IsAlias() || nt.TypeParams().Len() > 0 {
					continue
				}
				// Methods of unexported types are reachable through interfaces.
				for i := 0; i < nt.NumMethods(); i++ {
					if nt.Method(i).Exported() {
						add(p.Prog.FuncValue(nt.Method(i)))
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

type accRec struct {
	loc    string
	write  bool
	locks  map[string]bool // guard -> held for writing
	pos    token.Pos
	fn     *ssa.Function
	entry  string
	thread string
	siteID int
	field  string
}

// sharedTypes are the types whose values are documented or built to be used
// by several goroutines at once.
func sharedTypes(r *R) map[string]bool {
	m := map[string]bool{}
	add := func(rel, name string) {
		if n := r.P.Named(rel, name); r.Require(n != nil, "anchor", rel+"."+name) {
			m[types.TypeString(n, nil)] = true
		}
	}
	for _, n := range []string{"ChunkedCollector", "RemoteCollector", "CollectorServer", "MemoryStore", "RecentStore", "LimitStore", "Recorder"} {
		add("", n)
	}
	add("httptrace", "Transport")
	add("opentracing", "Recorder")
	add("traceapp", "App")
	// Unexported structs of these packages that hold mutexes or are
	// implementations of shared interfaces.
	for _, rel := range []string{"", "httptrace", "opentracing", "traceapp"} {
		sc := r.P.Pkgs[rel].Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if s, ok := tn.Type().Underlying().(*types.Struct); ok && hasMutex(s) {
				m[types.TypeString(tn.Type(), nil)] = true
			}
			if n == "multiStore" || n == "multiQueryer" {
				m[types.TypeString(tn.Type(), nil)] = true
			}
		}
	}
	return m
}

func hasMutex(s *types.Struct) bool {
	for i := 0; i < s.NumFields(); i++ {
		switch types.TypeString(deref(s.Field(i).Type()), nil) {
		case "sync.Mutex", "sync.RWMutex":
			return true
		}
	}
	return false
}

func structOfKey(aux string) string {
	i := strings.LastIndex(aux, "#")
	return aux[:i]
}

// locKey names the location of an address by the field, variable or container
// it belongs to.
func locKey(e *Engine, addr *Term) (key, owner, field string) {
	switch addr.op {
	case "fa":
		// A field of a struct embedded by value belongs to its own type; of a
		// foreign struct (time.Time, ...) to the field that holds it.
		s := structOfKey(addr.aux)
		if !strings.HasPrefix(s, modPath) {
			if b := addr.args[0]; b.op == "fa" || b.op == "global" {
				return locKey(e, b)
			}
		}
		return strings.TrimPrefix(s, modPath) + "." + fieldLabel(addr), s, addr.aux
	case "me", "mok", "ia":
		k, o, f := valueLoc(e, addr.args[0])
		if k == "" {
			return "", "", ""
		}
		return k + "[]", o, f + "[]"
	case "global":
		return "var " + strings.TrimPrefix(addr.aux, modPath), "global", addr.aux
	case "load", "loopmem", "loopphi", "param", "havoc":
		return valueLoc(e, addr)
	}
	return "", "", ""
}

// valueLoc names the location that a value was loaded from.
func valueLoc(e *Engine, v *Term) (string, string, string) {
	switch v.op {
	case "load", "loopmem", "havoc":
		return locKey(e, v.args[0])
	case "slice", "append", "appendv", "conv", "tassert", "mkiface":
		return valueLoc(e, v.args[0])
	case "nextv":
		k, o, f := valueLoc(e, v.args[0].args[0])
		if k != "" {
			return k + "[]", o, f + "[]"
		}
	case "fa", "ia", "me":
		return locKey(e, v)
	case "mk", "alloc":
		return "", "", ""
	}
	return "", "", ""
}

type raceAnalysis struct {
	r       *R
	recs    []*accRec
	shared  map[string]bool
	oneShot map[string]map[int]bool // thread -> write site IDs that happen before it starts, once
	flagged map[string]string       // thread@field -> flag field that makes the write happen once
	single  map[string]bool
	stores  map[string][]*Term // bool fields: values stored after publication
}

func (ra *raceAnalysis) engine() (*Engine, *[]*Thread) {
	e := NewEngine(ra.r.P)
	e.Coarse = true
	threads := &[]*Thread{}
	curThread := ""
	seenThread := map[ssa.Instruction]bool{}
	seenAcc := map[string]bool{}
	e.OnThread = func(th *Thread) {
		name := ra.r.P.Pos(th.Site.Pos())
		// Fields assigned on this path, for a flag that was found unset and is set now.
		for k, v := range th.St.mem {
			_ = k
			_ = v
		}
		if !seenThread[th.Site] {
			seenThread[th.Site] = true
			*threads = append(*threads, th)
		}
		_ = name
	}
	e.OnAccess = func(st *State, a *Access) {
		if strings.HasPrefix(st.entry, "goroutine ") {
			curThread = st.entry
		} else {
			curThread = ""
		}
		typ := a.Type
		addrs := []*Term{a.Addr}
		if s, ok := typ.Underlying().(*types.Struct); ok && strings.HasPrefix(types.TypeString(typ, nil), modPath) {
			addrs = nil
			for i := 0; i < s.NumFields(); i++ {
				addrs = append(addrs, e.fieldAddr(a.Addr, typ, i))
			}
		}
		for _, addr := range addrs {
			root := e.root(st, addr)
			if e.owned(st, root) {
				continue
			}
			loc, owner, field := locKey(e, addr)
			if loc == "" {
				continue
			}
			if owner != "global" && !ra.shared[owner] && !(ra.sharedRoot(root) && strings.HasPrefix(owner, modPath)) {
				continue
			}
			if isSyncType(addr) {
				continue
			}
			if ra.exempt(loc) || ra.exemptPath(root, addr) {
				ra.single[loc] = true
				continue
			}
			if owner != "global" && !ra.shared[owner] {
				loc = rootName(root) + " → " + loc
			}
			rec := &accRec{loc: loc, write: a.Write, pos: a.Site.Pos(), fn: a.Fn, entry: st.entry, thread: curThread, siteID: e.T.siteID(a.Site), field: field, locks: map[string]bool{}}
			for _, l := range st.locks {
				lk, lo, _ := locKey(e, l.Addr)
				lr := e.root(st, l.Addr)
				if lo == "global" || lr == root {
					if lo == "global" {
						lk = "global " + lk
					}
					rec.locks[lk] = rec.locks[lk] || !l.Read
				} else if l.Addr.op == "load" && l.Addr.args[0].op == "global" {
					rec.locks["global "+l.Addr.args[0].aux] = rec.locks["global "+l.Addr.args[0].aux] || !l.Read
				}
			}
			if a.Write && field != "" && addr.op == "fa" {
				st.notes["w:"+field] = fmt.Sprint(rec.siteID)
			}
			var ls []string
			for l, w := range rec.locks {
				ls = append(ls, fmt.Sprint(l, w))
			}
			sort.Strings(ls)
			k := fmt.Sprint(loc, a.Write, rec.siteID, ls, rec.thread)
			if seenAcc[k] {
				continue
			}
			seenAcc[k] = true
			ra.recs = append(ra.recs, rec)
		}
	}
	e.OnEvent = func(st *State, ev *Event) {
		switch ev.Kind {
		case "store":
			if ev.Args[0].op == "fa" && isBool2(ev.Args[0]) && !e.owned(st, e.root(st, ev.Args[0])) {
				ra.stores[ev.Args[0].aux] = append(ra.stores[ev.Args[0].aux], ev.Args[1])
			}
		case "go":
			if ev.Rec == nil {
				return
			}
			// A flag found false on this path and true now: what was written
			// on the way happens once, before the goroutine starts.
			for f, v := range st.facts {
				if v || f.op != "load" || f.args[0].op != "fa" || !isBool2(f.args[0]) {
					continue
				}
				if b, ok := st.mem[f.args[0]]; ok {
					if bv, ok := b.boolVal(); ok && bv {
						th := "goroutine " + ev.Rec.String()
						for k, s := range st.notes {
							if strings.HasPrefix(k, "w:") {
								key := th + "|" + strings.TrimPrefix(k, "w:") + "|" + s
								ra.flagged[key] = f.args[0].aux
							}
						}
					}
				}
			}
		}
	}
	return e, threads
}

func isBool2(addr *Term) bool {
	b, ok := deref(addr.typ).Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func isSyncType(addr *Term) bool {
	t := types.TypeString(deref(addr.typ), nil)
	if strings.HasPrefix(t, "sync.") {
		return true
	}
	if addr.op == "fa" && strings.HasPrefix(structOfKey(addr.aux), "sync") {
		return true
	}
	return false
}

func init() {
	register(&Check{
		ID: "C01",
		Rule: "static lockset analysis over every path of every exported entry point and every goroutine of the shared types: if a location that several goroutines can reach is written after it is published, " +
			"all accesses to it must hold one common lock of the same object (or a package-level lock); freshly allocated, not yet published objects and contents detached from their guarded location under the lock are exempt, " +
			"as are writes that a set-once flag orders before the goroutine that reads them is started",
		NotCover: "objects that are owned by one goroutine at a time by contract (the fields of appdash.Recorder other than its error list, HTTP requests and responses), and package initialisation",
		Run:      runC01,
	})
}

func runC01(r *R) {
	ra := &raceAnalysis{r: r, shared: sharedTypes(r), single: map[string]bool{}, flagged: map[string]string{}, stores: map[string][]*Term{}}
	rels := []string{"", "httptrace", "opentracing", "traceapp"}
	e, threads := ra.engine()
	rv := newRelevance(r.P, ra.relevant)
	glob := newRelevance(r.P, ra.touchesGlobal)
	e.Opaque = rv.opaque
	ents := r.P.entries(rels...)
	for _, fn := range ents {
		if isHandlerSetup(fn) || !rv.has(fn) {
			continue
		}
		if d := os.Getenv("DEBUG_FN"); d != "" {
			if !strings.Contains(fn.String(), d) {
				continue
			}
			e.Debug = 300
			e.MaxStates = 400
		}
		s0, t0 := e.States, time.Now()
		e.Run(fn, nil)
		if os.Getenv("APPDASHCHECK_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, fn, e.States-s0, time.Since(t0), len(e.Undecided))
		}
		r.Count("entry points", 1)
	}
	// Closures that are not run from an entry point (handlers, callbacks).
	for i := 0; i < len(*threads); i++ {
		e.RunThread((*threads)[i])
		r.Count("goroutines", 1)
	}
	for _, fn := range r.P.srcFn {
		if fn.Parent() != nil && !e.Inlined[fn] && rv.has(fn) && inRels(r.P, fn, rels) {
			e.RunArgs(fn, paramTerms(e, fn), nil, nil)
			r.Count("function literals", 1)
		}
	}
	// Functions that use package-level variables, each on its own, or where
	// it is called from if its callers do the locking.
	callers, used := staticCallers(r.P)
	isInit := func(fn *ssa.Function) bool { return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") }
	var todo []*ssa.Function
	seen := map[*ssa.Function]bool{}
	// A function whose callers may hold a lock for it is judged where it is
	// called; all others are judged alone.
	guarded := map[*ssa.Function]bool{}
	locking := func(fn *ssa.Function) bool {
		if locksItself(fn) {
			return true
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 && locksItself(g) && !unlocksItself(g) {
						return true
					}
				}
			}
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for fn, cs := range callers {
			if used[fn] || locksItself(fn) || fn.Object() == nil || fn.Object().Exported() {
				continue
			}
			for _, c := range cs {
				if !guarded[fn] && (guarded[c] || locking(c)) {
					guarded[fn], changed = true, true
				}
			}
		}
	}
	var climb func(fn *ssa.Function)
	climb = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		if !guarded[fn] {
			todo = append(todo, fn)
			return
		}
		for _, c := range callers[fn] {
			climb(c)
		}
	}
	for _, fn := range r.P.srcFn {
		if glob.self[fn] && !e.Inlined[fn] && inRels(r.P, fn, rels) && !isInit(fn) {
			climb(fn)
		}
	}
	held := newRelevance(r.P, func(in ssa.Instruction) bool { return guarded[in.Parent()] && ra.touchesGlobal(in) })
	e.Opaque = func(fn *ssa.Function) bool { return !rv.has(fn) && !held.has(fn) }
	for _, fn := range todo {
		if !e.Inlined[fn] && !isInit(fn) && !isHandlerSetup(fn) {
			e.RunArgs(fn, paramTerms(e, fn), nil, nil)
			r.Count("functions using package variables", 1)
		}
	}
	for i := 0; i < len(*threads); i++ {
		if !e.Inlined[(*threads)[i].Fn] {
			e.RunThread((*threads)[i])
		}
	}
	r.Use(e)
	ra.decide()
	r.Floor("guarded locations", 10)
	r.Floor("goroutines", 2)
}

// staticCallers lists who calls each function directly, and the functions
// that are used as values as well.
func staticCallers(p *Program) (callers map[*ssa.Function][]*ssa.Function, used map[*ssa.Function]bool) {
	callers, used = map[*ssa.Function][]*ssa.Function{}, map[*ssa.Function]bool{}
	for _, fn := range p.srcFn {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(*ssa.Call); ok {
					callee = c.Common().StaticCallee()
				} else if c, ok := in.(*ssa.Defer); ok {
					callee = c.Common().StaticCallee()
				}
				if callee != nil {
					callers[callee] = append(callers[callee], fn)
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && f != callee {
						used[f] = true
					}
				}
			}
		}
	}
	return
}

// locksItself: the function contains a lock operation.
func locksItself(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && isLockOp(f) {
					return true
				}
			}
		}
	}
	return false
}

// unlocksItself: the function contains an unlock operation.
func unlocksItself(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && isLockOp(f) && strings.HasSuffix(f.Name(), "nlock") {
					return true
				}
			}
		}
	}
	return false
}

func paramTerms(e *Engine, fn *ssa.Function) []*Term {
	args := make([]*Term, len(fn.Params))
	for i := range args {
		args[i] = e.Param(fn, i)
	}
	return args
}

func inRels(p *Program, fn *ssa.Function, rels []string) bool {
	pk := fnPkg(fn)
	for _, rel := range rels {
		if p.Pkgs[rel] != nil && p.Pkgs[rel].Types == pk {
			return true
		}
	}
	return false
}

// isHandlerSetup: package initialisation time API.
func isHandlerSetup(fn *ssa.Function) bool {
	return fn.Name() == "RegisterEvent" && fnPkg(fn).Path() == modPath
}

func (ra *raceAnalysis) decide() {
	r := ra.r
	byLoc := map[string][]*accRec{}
	for _, a := range ra.recs {
		byLoc[a.loc] = append(byLoc[a.loc], a)
	}
	r.Count("single-owner locations", len(ra.single))
	var locs []string
	for l := range byLoc {
		locs = append(locs, l)
	}
	sort.Strings(locs)
	for _, l := range locs {
		recs := byLoc[l]
		writes := 0
		for _, a := range recs {
			if a.write {
				writes++
			}
		}
		r.Count("shared locations", 1)
		if writes == 0 {
			r.Count("read-only locations", 1)
			continue
		}
		// Accesses ordered by a set-once flag.
		var rest []*accRec
		for _, a := range recs {
			if !a.write && len(a.locks) == 0 && a.thread != "" && ra.published(a, recs) {
				continue
			}
			rest = append(rest, a)
		}
		common := map[string]int{}
		for _, a := range rest {
			for k, w := range a.locks {
				if a.write && !w {
					continue
				}
				common[k]++
			}
		}
		guard := ""
		best := ""
		for k, n := range common {
			if n == len(rest) {
				guard = k
			}
			if best == "" || n > common[best] || n == common[best] && k < best {
				best = k
			}
		}
		if guard != "" {
			r.Count("guarded locations", 1)
			r.Sample("%s: guarded by %s at %d accesses", l, guard, len(rest))
			continue
		}
		for _, a := range rest {
			w, ok := a.locks[best]
			if best != "" && ok && (w || !a.write) {
				continue
			}
			kind := "read"
			if a.write {
				kind = "written"
			}
			g := best
			if g == "" {
				g = "any lock"
			}
			r.Violate("lockset", fnLabel(a.fn)+":"+l, a.pos, "%s is %s without %s (reached from %s); it is written after publication, so two goroutines may race", l, kind, g, strings.ReplaceAll(a.entry, modPath, "appdash"))
		}
	}
}

// published reports a read in a goroutine of a field that is only written
// once, before the goroutine is started.
func (ra *raceAnalysis) published(a *accRec, recs []*accRec) bool {
	n := 0
	for _, w := range recs {
		if !w.write {
			continue
		}
		n++
		flag, ok := ra.flagged[a.thread+"|"+a.field+"|"+fmt.Sprint(w.siteID)]
		if !ok {
			return false
		}
		for _, v := range ra.stores[flag] {
			if b, ok := v.boolVal(); !ok || !b {
				return false
			}
		}
	}
	return n > 0
}

// exempt lists locations that belong to one goroutine at a time by contract.
func (ra *raceAnalysis) exempt(loc string) bool {
	p := ra.r.P
	rec := p.Named("", "Recorder")
	if rec != nil {
		s := rec.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if types.TypeString(f.Type(), nil) == "[]error" {
				continue // shared: guarded by a mutex
			}
			if loc == ".Recorder."+f.Name() || loc == ".Recorder."+f.Name()+"[]" {
				return true // a Recorder is used by the goroutine that records the span
			}
		}
	}
	return false
}

// relevant marks the instructions that touch shared state.
func (ra *raceAnalysis) relevant(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Go:
		return true
	case *ssa.FieldAddr:
		return ra.shared[structOfKey(fieldKey(in.X.Type(), in.Field))]
	}
	return false
}

// touchesGlobal marks uses of package-level variables.
func (ra *raceAnalysis) touchesGlobal(in ssa.Instruction) bool {
	for _, op := range in.Operands(nil) {
		if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && ra.r.P.inPkg[g.Pkg.Pkg] && !isSentinel(g) {
			return true
		}
	}
	return false
}

// sharedRoot reports objects of the shared types.
func (ra *raceAnalysis) sharedRoot(root *Term) bool {
	return root.typ != nil && ra.shared[types.TypeString(deref(root.typ), nil)]
}

func rootName(root *Term) string {
	return strings.TrimPrefix(types.TypeString(deref(root.typ), nil), modPath)
}

// exemptPath: what a Recorder's own fields refer to is its user's, too.
func (ra *raceAnalysis) exemptPath(root, addr *Term) bool {
	if root.typ == nil || rootName(root) != ".Recorder" {
		return false
	}
	top := ""
	for t := addr; t != root && len(t.args) > 0; t = t.args[0] {
		if t.op == "fa" && t.args[0] == root {
			top = fieldLabel(t)
		}
	}
	return top != "" && ra.exempt(".Recorder."+top)
}
