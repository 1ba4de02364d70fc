package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C02",
		Rule: "mutex typestate over every path of every exported entry point, goroutine and callback: no lock may be held at the end of a path (return or panic), no held lock may be acquired again, " +
			"no lock may be released that is not held, no channel operation or wait may block while a lock is held, and the graph of lock acquisitions under other locks has no cycle",
		NotCover: "lock order through calls of unknown implementations of an interface (stores wrapped by stores are acquired outside in)",
		Run:      runC02,
	})
}

// lockKey names a mutex by the type and field, or variable, that holds it.
func lockKey(e *Engine, addr *Term) string {
	k, _, _ := locKey(e, addr)
	if k == "" && addr.op == "load" {
		k, _, _ = locKey(e, addr.args[0])
	}
	if k == "" {
		k = "lock of type " + types.TypeString(deref(addr.typ), nil)
	}
	return k
}

func isBlocking(ev *Event) bool {
	switch ev.Kind {
	case "recv", "send":
		return ev.Name != "select-default"
	case "call":
		switch ev.Name {
		case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "time.Sleep", "(*golang.org/x/sync/errgroup.Group).Wait":
			return true
		}
	}
	return false
}

type lockEdge struct {
	from, to string
}

func runC02(r *R) {
	p := r.P
	rels := []string{"", "httptrace", "opentracing", "traceapp", "cmd/appdash"}
	rv := newRelevance(p, func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Go:
			return true
		case ssa.CallInstruction:
			if fn := in.Common().StaticCallee(); fn != nil {
				return isLockOp(fn)
			}
		}
		return false
	})
	unbalanced := map[*ssa.Function]bool{}
	edges := map[lockEdge]*Event{}
	sites := map[ssa.Instruction]bool{}
	var threads []*Thread
	seenTh := map[ssa.Instruction]bool{}
	mk := func(report bool, bad *bool) *Engine {
		e := NewEngine(p)
		e.Coarse = true
		e.Opaque = rv.opaque
		e.OpaqueIn = func(st *State, fn *ssa.Function) bool { return len(st.locks) == 0 && !unbalanced[fn] }
		e.OnThread = func(th *Thread) {
			if !seenTh[th.Site] {
				seenTh[th.Site] = true
				threads = append(threads, th)
			}
		}
		e.OnEvent = func(st *State, ev *Event) {
			switch ev.Kind {
			case "lock", "trylock":
				if report && !sites[ev.Site] {
					sites[ev.Site] = true
					r.Count("lock sites", 1)
					r.Sample("%s locked in %s", lockKey(e, ev.Args[0]), fnLabel(ev.Fn))
				}
				for _, l := range st.locks {
					if l.Addr == ev.Args[0] && ev.Kind == "lock" {
						if report {
							r.Violate("double-lock", fnLabel(ev.Fn)+":"+lockKey(e, l.Addr), ev.Site.Pos(), "%s is acquired while it is already held (since %s), reached from %s: the goroutine deadlocks", lockKey(e, l.Addr), p.Pos(l.Site.Pos()), st.entry)
						}
						continue
					}
					if a, b := lockKey(e, l.Addr), lockKey(e, ev.Args[0]); a != b {
						edges[lockEdge{a, b}] = ev
					}
				}
			case "unlock":
				if report && !sites[ev.Site] {
					sites[ev.Site] = true
					r.Count("unlock sites", 1)
				}
				read := strings.HasSuffix(ev.Name, "RUnlock")
				for _, l := range st.locks {
					if l.Addr == ev.Args[0] && l.Read == read {
						return
					}
				}
				*bad = true
				if report {
					r.Violate("unlock-not-held", fnLabel(ev.Fn)+":"+lockKey(e, ev.Args[0]), ev.Site.Pos(), "%s is released while it is not held (reached from %s)", lockKey(e, ev.Args[0]), st.entry)
				}
			default:
				if report && len(st.locks) > 0 && isBlocking(ev) {
					l := st.locks[0]
					r.Violate("wait-under-lock", fnLabel(ev.Fn)+":"+lockKey(e, l.Addr), ev.Site.Pos(), "%s may wait for another goroutine while %s is held", ev.Kind+" "+ev.Name, lockKey(e, l.Addr))
				}
			}
		}
		e.OnExit = func(st *State, x *Exit) {
			if report {
				r.Count("paths ending", 1)
			}
			if x.Kind == "noreturn" {
				return
			}
			for _, l := range st.locks {
				*bad = true
				if report {
					r.Violate("lock-leak", fnLabel(st.frames[0].fn)+":"+lockKey(e, l.Addr), l.Site.Pos(), "%s is still held when %s ends at %s (%s)", lockKey(e, l.Addr), st.entry, p.Pos(x.Site.Pos()), x.Kind)
				}
			}
		}
		return e
	}
	var fns []*ssa.Function
	called := map[*ssa.Function]bool{}
	for _, fn := range p.srcFn {
		if rv.has(fn) && inRels(p, fn, rels) && len(fn.Blocks) > 0 && fn.Name() != "init" {
			fns = append(fns, fn)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					_ = mc
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						if _, isGo := in.(*ssa.Go); !isGo {
							called[g] = true
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			if unbalanced[fn] {
				continue
			}
			bad := false
			e := mk(false, &bad)
			e.RunArgs(fn, paramTerms(e, fn), nil, nil)
			if bad {
				unbalanced[fn] = true
				changed = true
			}
		}
	}
	exported := map[*ssa.Function]bool{}
	for _, fn := range p.entries(rels...) {
		exported[fn] = true
	}
	threads, seenTh = nil, map[ssa.Instruction]bool{}
	for _, fn := range fns {
		// An unexported helper may leave locks to its callers.
		bad := false
		if unbalanced[fn] && called[fn] && !exported[fn] {
			r.Count("helpers that lock for their callers", 1)
			continue
		}
		e := mk(true, &bad)
		e.RunArgs(fn, paramTerms(e, fn), nil, nil)
		r.Count("functions", 1)
		r.Use(e)
	}
	bad := false
	for i := 0; i < len(threads); i++ {
		e := mk(true, &bad)
		th := *threads[i]
		e.RunArgs(th.Fn, paramTerms(e, th.Fn), nil, nil)
		r.Count("goroutines", 1)
		r.Use(e)
	}

	// Lock order.
	next := map[string][]string{}
	for ed := range edges {
		next[ed.from] = append(next[ed.from], ed.to)
		r.Count("lock order edges", 1)
		r.Sample("%s is acquired while %s is held", ed.to, ed.from)
	}
	for ed, ev := range edges {
		if path := reachPath(next, ed.to, ed.from); path != nil {
			sort.Strings(path)
			r.Violate("lock-order", strings.Join(path, " "), ev.Site.Pos(), "%s is acquired while %s is held, and elsewhere the other way round", ed.to, ed.from)
		}
	}
	r.Floor("lock sites", 15)
	r.Floor("unlock sites", 15)
}

func isLockOp(fn *ssa.Function) bool {
	switch fn.String() {
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		return true
	}
	return false
}

func reachPath(next map[string][]string, from, to string) []string {
	seen := map[string]bool{}
	var dfs func(x string) []string
	dfs = func(x string) []string {
		if x == to {
			return []string{x}
		}
		if seen[x] {
			return nil
		}
		seen[x] = true
		for _, y := range next[x] {
			if p := dfs(y); p != nil {
				return append(p, x)
			}
		}
		return nil
	}
	return dfs(from)
}
