package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"net/textproto"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C22: event types, schemas and keys ----

func init() {
	register(&Check{
		ID: "C22",
		Rule: "every type of the Go packages with a Schema method has a constant, non-empty schema of its own and is passed, as a value, to RegisterEvent on every path of an init function; RegisterEvent stores what it is given under its own schema, and panics for one that is empty or taken; " +
			"each recorded field of an event has a type that the reader reads back, a key of its own, and keys that sort like its name; important keys are keys that the event writes; the end and the start of an event are different recorded times; " +
			"MarshalEvent writes every pair and appends the marker of the event's schema on each successful path; UnmarshalEvent reads an event exactly if one of the annotations is the marker of its schema, and UnmarshalEvents reads one event for each marker of a registered schema; " +
			"each Python event has the schema of a registered Go event, writes only keys of that event, each from the argument of that name, times as RFC 3339 text, and the Python MarshalEvent writes every pair and the marker",
		NotCover: "the text forms of values (C26); events of different types on one span that share a key; the Python recorder's tags",
		Run:      runC22,
	})
}

type schemas struct {
	r        *R
	p        *Program
	event    *types.Interface
	register *ssa.Function
	marker   string
	tag      string
	types    map[string]*types.Named // by schema
}

func runC22(r *R) {
	c := &schemas{r: r, p: r.P, types: map[string]*types.Named{}}
	ev := r.P.Named("", "Event")
	if ev != nil {
		c.event, _ = ev.Underlying().(*types.Interface)
	}
	c.register = r.P.Func("", "RegisterEvent")
	if k, ok := r.P.Pkgs[""].Types.Scope().Lookup("SchemaPrefix").(*types.Const); ok {
		c.marker = constant.StringVal(k.Val())
	}
	if !r.Require(c.event != nil && c.register != nil && c.marker != "", "anchor", "Event, RegisterEvent and SchemaPrefix") {
		return
	}
	c.tag = c.tagName()
	c.eventTypes()
	c.registration()
	c.marshal()
	c.unmarshal()
	c.python()
	r.Floor("event types", 6)
	r.Floor("registered event types", 6)
	r.Floor("recorded fields", 15)
	r.Floor("important keys", 4)
	r.Floor("marked results", 2)
	r.Floor("read events", 2)
	r.Floor("Python events", 4)
	r.Floor("Python keys", 10)
}

// tagName is the struct tag that names a field.
func (c *schemas) tagName() string {
	tags := map[string]bool{}
	for _, fn := range c.p.srcFn {
		if fn.Pkg == nil || fn.Pkg != c.p.SSA[""] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil || !strings.HasPrefix(fnName(call.Common().StaticCallee()), "(reflect.StructTag).") {
					continue
				}
				if k, ok := call.Common().Args[1].(*ssa.Const); ok && k.Value != nil {
					tags[constant.StringVal(k.Value)] = true
				}
			}
		}
	}
	for t := range tags {
		if len(tags) == 1 {
			return t
		}
	}
	c.r.Require(false, "anchor", "the struct tag that names fields")
	return ""
}

// eventTypes checks each type that is an event.
func (c *schemas) eventTypes() {
	r := c.r
	var all []*types.Named
	for _, rel := range sortedPkgs(c.p) {
		for _, obj := range c.p.Pkgs[rel].TypesInfo.Defs {
			tn, ok := obj.(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || n.TypeParams().Len() > 0 || types.IsInterface(n) {
				continue
			}
			if types.Implements(n, c.event) || types.Implements(types.NewPointer(n), c.event) {
				all = append(all, n)
			}
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Obj().Pos() < all[j].Obj().Pos() })
	registered := c.registered()
	for _, n := range all {
		name := n.Obj().Name()
		at := func(rule, f string, args ...any) { r.Violate(rule, name, n.Obj().Pos(), f, args...) }
		r.Count("event types", 1)
		s, ok := c.p.schemaOf(types.NewPointer(n))
		switch {
		case !ok:
			at("schema", "the schema of the event is not one constant")
			continue
		case s == "":
			at("schema", "the event has an empty schema")
			continue
		case c.types[s] != nil:
			at("schema", "the event has the schema of %s, %q", c.types[s].Obj().Name(), s)
			continue
		}
		c.types[s] = n
		if how, ok := registered[n]; !ok {
			at("registered", "the event %q is not registered on every path of an init function, it is not read back", s)
		} else if how != "" {
			at("registered", "%s", how)
		} else {
			r.Count("registered event types", 1)
		}
		t := types.Type(n)
		if c.has(t, "MarshalEvent") || c.has(t, "UnmarshalEvent") {
			if c.has(t, "MarshalEvent") != c.has(types.NewPointer(n), "UnmarshalEvent") {
				at("readable", "the event has its own form for writing or for reading, but not for both")
			}
			continue
		}
		k := c.keysOf(n)
		for _, m := range k.problems {
			at("readable", "%s", m)
		}
		r.Count("recorded fields", len(k.leaves))
		c.important(n, k)
		c.times(n)
	}
}

func sortedPkgs(p *Program) []string {
	var out []string
	for rel := range p.Pkgs {
		out = append(out, rel)
	}
	sort.Strings(out)
	return out
}

func (c *schemas) has(t types.Type, method string) bool {
	for _, t := range []types.Type{t, types.NewPointer(t)} {
		if c.p.Prog.MethodSets.MethodSet(t).Lookup(nil, method) != nil {
			return true
		}
	}
	return false
}

// eventKeys are the keys that the annotations of an event have.
type eventKeys struct {
	leaves   map[string]types.Type
	maps     map[string]types.Type // any key below
	structs  map[string]types.Type
	problems []string
}

func (c *schemas) keysOf(n *types.Named) *eventKeys {
	k := &eventKeys{leaves: map[string]types.Type{}, maps: map[string]types.Type{}, structs: map[string]types.Type{}}
	c.flatten(k, "", n, map[types.Type]bool{})
	return k
}

func isTimeType(t types.Type) bool { return typeIs(t, "time.Time") || typeIs(t, "time.Duration") }

func (c *schemas) flatten(k *eventKeys, prefix string, t types.Type, in map[types.Type]bool) {
	bad := func(why string) {
		k.problems = append(k.problems, "the field "+prefix+" "+why)
	}
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		t = p.Elem()
	}
	scalar := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return isTimeType(t) || ok && b.Info()&(types.IsBoolean|types.IsInteger|types.IsFloat|types.IsString) != 0 && b.Kind() != types.Uintptr
	}
	texts := func(t types.Type) bool { // written as its String method says
		return !isTimeType(t) && (c.p.Prog.MethodSets.MethodSet(t).Lookup(nil, "String") != nil || c.p.Prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(nil, "String") != nil)
	}
	if prefix != "" && texts(t) {
		bad("is written as the text that its String method makes, which is not read back")
		return
	}
	if scalar(t) {
		k.leaves[prefix] = t
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if in[t] {
			bad("has a type that contains itself")
			return
		}
		in[t] = true
		defer delete(in, t)
		k.structs[prefix] = t
		var names []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			name := f.Name()
			if s, ok := reflect.StructTag(u.Tag(i)).Lookup(c.tag); ok && s != "" {
				name = s
			}
			full := name
			if prefix != "" {
				full = prefix + "." + name
			}
			names = append(names, full)
			c.flatten(k, full, f.Type(), in)
		}
		sort.Strings(names)
		for i, a := range names {
			for _, b := range names[i+1:] {
				switch {
				case a == b:
					k.problems = append(k.problems, "two fields have the key "+a)
				case strings.HasPrefix(b, a+"."):
					k.problems = append(k.problems, "the key of the field "+b+" is one that belongs to the field "+a)
				case strings.HasPrefix(b, a) && b[len(a)] < '.' && k.leaves[a] == nil:
					k.problems = append(k.problems, "the keys of the field "+b+" sort before those of "+a+", which are lost when they are read in order")
				}
			}
		}
	case *types.Map:
		k.maps[prefix] = t
		if !scalar(u.Key()) || texts(u.Key()) || !scalar(u.Elem()) || texts(u.Elem()) {
			bad("is a map of values that are not read back")
		}
	case *types.Slice, *types.Array:
		var el types.Type
		if s, ok := u.(*types.Slice); ok {
			el = s.Elem()
		} else {
			el = u.(*types.Array).Elem()
		}
		k.maps[prefix] = t
		if !scalar(el) || texts(el) {
			bad("is a list of values that are not read back")
		}
	default:
		bad("has a type that is not read back")
	}
}

// important: the keys are ones that the event writes.
func (c *schemas) important(n *types.Named, k *eventKeys) {
	r := c.r
	for _, fn := range c.p.methodsOf(n) {
		if fn.Name() != "Important" || len(fn.Blocks) == 0 || fn.Signature.Results().Len() != 1 {
			continue
		}
		e := NewEngine(c.p)
		e.OnExit = func(st *State, x *Exit) {
			if x.Kind != "return" {
				return
			}
			at := func(f string, args ...any) { r.Violate("important", fnLabel(fn), x.Site.Pos(), f, args...) }
			if g, ok := globalOf(x.Results[0]); ok {
				if keys, ok := c.p.stringsIn(g); ok {
					for _, s := range keys {
						if !k.writes(s) {
							at("%q is said to be an important key, but the event does not write it", s)
							continue
						}
						r.Count("important keys", 1)
					}
					return
				}
			}
			base, ps := e.appended(x.Results[0])
			ok := len(ps) > 0 && (e.empty(st, base) || e.lenZero(base))
			var xs []*Term
			if !ok {
				xs, ok = sliceElems(e, st, x.Results[0])
			} else {
				for _, p := range ps {
					ok = ok && p.val != nil
					xs = append(xs, p.val)
				}
			}
			if !ok {
				at("cannot be decided: the important keys are not a list of constants (%s)", x.Results[0])
				return
			}
			for _, t := range xs {
				s, ok := t.strVal()
				switch {
				case !ok:
					at("cannot be decided: an important key is not constant (%s)", t)
				case !k.writes(s):
					at("%q is said to be an important key, but the event does not write it", s)
				default:
					r.Count("important keys", 1)
				}
			}
		}
		e.Run(fn, nil)
		r.Use(e)
	}
}

// globalOf: the variable that a value was read from.
func globalOf(t *Term) (*ssa.Global, bool) {
	a := at(t)
	if a == nil || a.op != "global" {
		return nil, false
	}
	g, ok := a.obj.(*ssa.Global)
	return g, ok
}

// stringsIn is the list of constants that a package variable keeps.
func (p *Program) stringsIn(g *ssa.Global) (out []string, ok bool) {
	if !p.constGlobal(g) || g.Pkg.Func("init") == nil {
		return nil, false
	}
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			st, is := in.(*ssa.Store)
			if !is || st.Addr != g {
				continue
			}
			sl, is := st.Val.(*ssa.Slice)
			if !is || ok || sl.Low != nil || sl.High != nil || sl.X.Referrers() == nil {
				return nil, false
			}
			ok = true
			for _, ref := range *sl.X.Referrers() {
				ia, is := ref.(*ssa.IndexAddr)
				if !is {
					continue
				}
				for _, ref := range *ia.Referrers() {
					var v *ssa.Const
					if st, is := ref.(*ssa.Store); is && st.Addr == ia {
						v, _ = st.Val.(*ssa.Const)
					}
					if v == nil || v.Value == nil || v.Value.Kind() != constant.String {
						return nil, false
					}
					out = append(out, constant.StringVal(v.Value))
				}
			}
		}
	}
	return out, ok
}

func (k *eventKeys) writes(key string) bool {
	if k.leaves[key] != nil {
		return true
	}
	for m := range k.maps {
		if rest, ok := strings.CutPrefix(key, m+"."); ok {
			if strings.HasSuffix(m, ".Headers") { // names of headers are canonical
				return rest == textproto.CanonicalMIMEHeaderKey(rest)
			}
			return rest != ""
		}
	}
	return false
}

// times: an event that has a start and an end takes them from two recorded
// times.
func (c *schemas) times(n *types.Named) {
	r := c.r
	got := map[string]string{}
	for _, fn := range c.p.methodsOf(n) {
		if fn.Name() != "Start" && fn.Name() != "End" && fn.Name() != "Timestamp" || len(fn.Blocks) == 0 || fn.Signature.Params().Len() > 0 || fn.Signature.Results().Len() != 1 || !typeIs(fn.Signature.Results().At(0).Type(), "time.Time") {
			continue
		}
		e := NewEngine(c.p)
		e.OnExit = func(st *State, x *Exit) {
			if x.Kind != "return" {
				return
			}
			path := ""
			t := x.Results[0]
			if t.op == "struct" && len(t.args) > 0 { // field by field
				for i, a := range t.args {
					b, p := fieldPath(a)
					if len(p) < 2 || b != e.Param(fn, 0) {
						path = ""
						break
					}
					if q := strings.Join(p[:len(p)-1], "."); i == 0 || q == path {
						path = q
					}
				}
			} else if b, p := fieldPath(t); b == e.Param(fn, 0) {
				path = strings.Join(p, ".")
			}
			if path == "" || !token.IsExported(path[strings.LastIndex(path, ".")+1:]) {
				r.Violate("times", fnLabel(fn), x.Site.Pos(), "the %s of the event is not a time that it records (%s)", strings.ToLower(fn.Name()), t)
				return
			}
			if was := got[fn.Name()]; was != "" && was != path {
				r.Violate("times", fnLabel(fn), x.Site.Pos(), "the %s of the event is %s on one path and %s on another", strings.ToLower(fn.Name()), was, path)
			}
			got[fn.Name()] = path
		}
		e.Run(fn, nil)
		r.Use(e)
	}
	if got["Start"] != "" && got["Start"] == got["End"] {
		r.Violate("times", n.Obj().Name(), n.Obj().Pos(), "the start and the end of the event are the same time, %s", got["Start"])
	} else if w := timesOf(got["End"]); got["Start"] != "" && w != "" && !strings.HasSuffix(got["Start"], w) {
		r.Violate("times", n.Obj().Name(), n.Obj().Pos(), "the end of the event is %s, but its start is %s", got["End"], got["Start"])
	} else if got["Start"] != "" && got["End"] != "" {
		r.Count("timespan events", 1)
	}
}

// timesOf: the start that belongs to a field with an end time. The client
// sends first, and the server receives first.
func timesOf(end string) string {
	for _, p := range [][2]string{{"Start", "End"}, {"Begin", "End"}, {"S", "E"}, {"ClientSend", "ClientRecv"}, {"ServerRecv", "ServerSend"}} {
		for i := range p {
			if strings.HasSuffix(end, p[i]) && (len(p[i]) > 1 || end == p[i]) {
				if i == 1 {
					return p[0]
				}
				return "an end" // it is a start
			}
		}
	}
	return ""
}

// ---- registration ----

// registered finds the types that are registered whenever the program starts.
func (c *schemas) registered() map[*types.Named]string {
	out := map[*types.Named]string{}
	var calls func(fn *ssa.Function, seen map[*ssa.Function]bool, args map[*ssa.Parameter][]ssa.Value)
	calls = func(fn *ssa.Function, seen map[*ssa.Function]bool, args map[*ssa.Parameter][]ssa.Value) {
		if seen[fn] || len(fn.Blocks) == 0 {
			return
		}
		seen[fn] = true
		defer delete(seen, fn)
		loops := findLoops(fn)
		for _, b := range fn.Blocks {
			if !alwaysRuns(fn, b, loops) {
				continue
			}
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil {
					continue
				}
				g := call.Call.StaticCallee()
				if g == c.register {
					for _, t := range dynTypes(call.Call.Args[0], args, map[ssa.Value]bool{}) {
						if n, ok := t.(*types.Named); ok {
							out[n] = ""
						} else if n, ok := derefType(t).(*types.Named); ok {
							if _, done := out[n]; !done {
								out[n] = "the event is registered as a pointer: what is read into is then a pointer to a pointer, which is no event"
							}
						}
					}
					continue
				}
				if c.p.InRepo(g) {
					inner := map[*ssa.Parameter][]ssa.Value{}
					for p, v := range args {
						inner[p] = v
					}
					for i, p := range g.Params {
						if i < len(call.Call.Args) {
							inner[p] = []ssa.Value{call.Call.Args[i]}
						}
					}
					calls(g, seen, inner)
				}
			}
		}
	}
	for _, rel := range sortedPkgs(c.p) {
		for _, fn := range c.p.srcFn {
			if fn.Pkg != nil && fn.Pkg == c.p.SSA[rel] && fn.Parent() == nil && fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
				calls(fn, map[*ssa.Function]bool{}, nil)
			}
		}
		if p := c.p.SSA[rel]; p != nil && p.Func("init") != nil { // initialisers of variables
			calls(p.Func("init"), map[*ssa.Function]bool{}, nil)
		}
	}
	return out
}

// alwaysRuns: the block is run on every path to the end of the function, or
// in each iteration of a loop that is walked to its end on every path.
func alwaysRuns(fn *ssa.Function, b *ssa.BasicBlock, loops map[*ssa.BasicBlock]*Loop) bool {
	if fn.Pkg != nil && fn == fn.Pkg.Func("init") {
		return true // guarded against running twice
	}
	var in []*Loop
	for _, l := range loops {
		if l.blocks[b] {
			in = append(in, l)
		}
	}
	if len(in) > 1 {
		return false
	}
	at := b
	if len(in) == 1 {
		l := in[0]
		for x := range l.blocks {
			for _, s := range x.Succs {
				if s == l.header && !b.Dominates(x) {
					return false
				}
				if !l.blocks[s] && x != l.header {
					if !panics(s) {
						return false
					}
				}
			}
		}
		at = l.header
	}
	for _, x := range fn.Blocks {
		if len(x.Instrs) == 0 {
			continue
		}
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && !at.Dominates(x) {
			return false
		}
	}
	return true
}

func panics(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

// dynTypes finds the types of the values that an interface may hold.
func dynTypes(v ssa.Value, args map[*ssa.Parameter][]ssa.Value, seen map[ssa.Value]bool) (out []types.Type) {
	if seen[v] {
		return nil
	}
	seen[v] = true
	more := func(vs ...ssa.Value) {
		for _, x := range vs {
			out = append(out, dynTypes(x, args, seen)...)
		}
	}
	stored := func(a ssa.Value) { // what is stored below an address
		var visit func(a ssa.Value, depth int)
		visit = func(a ssa.Value, depth int) {
			if a.Referrers() == nil || depth > 4 {
				return
			}
			for _, in := range *a.Referrers() {
				switch in := in.(type) {
				case *ssa.Store:
					if in.Addr == a {
						more(in.Val)
					}
				case *ssa.IndexAddr:
					visit(in, depth+1)
				case *ssa.Slice:
					visit(in, depth+1)
				}
			}
		}
		visit(a, 0)
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		out = append(out, x.X.Type())
	case *ssa.ChangeInterface:
		more(x.X)
	case *ssa.Phi:
		more(x.Edges...)
	case *ssa.Parameter:
		more(args[x]...)
	case *ssa.UnOp:
		more(x.X)
	case *ssa.Index:
		more(x.X)
	case *ssa.IndexAddr:
		more(x.X)
	case *ssa.Slice:
		more(x.X)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			more(x.Call.Args...)
		}
	case *ssa.Alloc:
		stored(x)
	case *ssa.Global:
		for _, m := range x.Pkg.Members {
			fn, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
						more(s.Val)
					}
				}
			}
		}
	}
	return
}

// registration: RegisterEvent stores an event under its schema, or panics.
func (c *schemas) registration() {
	r, fn := c.r, c.register
	e := NewEngine(c.p)
	e.Keep = func(st *State, ev *Event) bool { return ev.Kind == "mapupdate" || ev.Kind == "call" }
	ev := e.Param(fn, 0)
	isSchema := func(t *Term) bool { return c.isSchema(t, ev) }
	e.OnEvent = func(st *State, x *Event) {
		if x.Kind != "mapupdate" || !isNamed(x.Args[2].typ, "", "Event") {
			return
		}
		bad := func(f string, args ...any) { r.Violate("register", fnLabel(fn), x.Site.Pos(), f, args...) }
		k, m := x.Args[1], x.Args[0]
		if !isSchema(k) || x.Args[2].origin() != ev {
			bad("what is registered is not the event under its own schema")
			return
		}
		taken, empty := true, true
		for f, v := range st.facts {
			if a := at(f); !v && a != nil && a.op == "mok" && at(a.args[0]) == at(m) && isSchema(a.args[1]) {
				taken = false
			}
			f.mentions(func(t *Term) bool {
				if a := at(t); v && a != nil && a.op == "me" && at(a.args[0]) == at(m) && isSchema(a.args[1]) && f == e.T.Eq(t, e.T.Nil()) {
					taken = false
				}
				if !v && isSchema(t) && (f == e.T.Eq(e.T.Len(t), e.T.Int(0)) || f == e.T.Eq(t, e.T.Const(constant.MakeString(""), t.typ))) {
					empty = false
				}
				return false
			})
		}
		if taken {
			bad("an event is registered although its schema may be taken by another, which then is not read any more")
		}
		if empty {
			bad("an event is registered although its schema may be empty")
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind == "return" {
			r.Count("registrations", 1)
			if len(callsOf(st.trace, func(ev *Event) bool { return ev.Kind == "mapupdate" })) == 0 {
				r.Violate("register", fnLabel(fn), x.Site.Pos(), "RegisterEvent returns without having registered the event on some path")
			}
		}
	}
	e.Run(fn, nil)
	r.Use(e)
}

// isSchema: the result of the event's Schema method.
func (c *schemas) isSchema(t, ev *Term) bool {
	return t.op == "call" && strings.HasSuffix(t.aux, ".Event).Schema") && len(t.args) > 0 && t.args[0].origin() == ev.origin()
}

// marshal: MarshalEvent.
func (c *schemas) marshal() {
	r, fn := c.r, c.p.Func("", "MarshalEvent")
	if !r.Require(fn != nil && len(fn.Params) == 1, "anchor", "MarshalEvent") {
		return
	}
	e := NewEngine(c.p)
	writer := c.p.writer()
	if !r.Require(writer != nil, "anchor", "the function that writes values as annotations") {
		return
	}
	e.Opaque = func(f *ssa.Function) bool { return f == writer }
	e.Keep = func(st *State, ev *Event) bool {
		return ev.Kind == "call" || ev.Kind == "store" || ev.Kind == "builtin"
	}
	ev := e.Param(fn, 0)
	annType := c.p.Named("", "Annotation")
	key := func(x *Term) *Term { return e.fieldOf(x, annType, fieldNamed(annType, "Key")) }
	val := func(x *Term) *Term { return e.fieldOf(x, annType, fieldNamed(annType, "Value")) }
	callbacks := map[*ssa.Function]ssa.Instruction{}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" || e.notNil(st, x.Results[1]) {
			return
		}
		bad := func(f string, args ...any) { r.Violate("marker", fnLabel(fn), x.Site.Pos(), f, args...) }
		base, ps := e.appended(x.Results[0])
		marked := false
		for _, p := range ps {
			if p.val != nil {
				k := key(p.val)
				if k.op == "bin" && k.aux == "+" && isStr(k.args[0], c.marker) && c.isSchema(k.args[1], ev) {
					marked = true
				}
			}
		}
		if !marked {
			bad("the annotations of an event do not have the marker of its schema on some path (%s)", x.Results[0])
			return
		}
		r.Count("marked results", 1)
		own := false
		for _, call := range callsOf(st.trace, func(y *Event) bool { return y.Kind == "call" }) {
			switch {
			case strings.HasSuffix(call.Name, ".EventMarshaler).MarshalEvent") && call.Args[0].has(ev):
				own = own || base.origin() == e.ResultTerm(call, 0).origin()
			case call.Rec == writer:
				for _, a := range call.Args {
					if isCall(a, "reflect.ValueOf") && a.origin().args[0].origin() == ev.origin() {
						if f, ok := lastArg(call).origin().obj.(*ssa.Function); ok {
							not := false // an EventMarshaler
							for f, v := range st.facts {
								not = not || !v && f.op == "istype" && strings.HasSuffix(f.aux, ".EventMarshaler") && f.args[0].origin() == ev.origin()
							}
							own = own || not
							callbacks[f] = call.Site
						}
					}
				}
				if !isStr(call.Args[0], "") {
					bad("the fields of an event are written under a prefix")
				}
			}
		}
		if !own {
			bad("the annotations of an event do not have its fields on some path")
		}
	}
	e.Run(fn, nil)
	r.Use(e)
	for f, site := range callbacks {
		e := NewEngine(c.p)
		e.Keep = func(st *State, ev *Event) bool { return ev.Kind == "store" || ev.Kind == "builtin" }
		e.OnExit = func(st *State, x *Exit) {
			if x.Kind != "return" {
				return
			}
			if n := len(f.Params); n >= 2 {
				for _, y := range callsOf(st.trace, func(y *Event) bool { return y.Kind == "builtin" && y.Name == "append" && y.Res != nil }) {
					_, ps := e.appendedTo(y.Res, y.Args[0])
					for _, p := range ps {
						if p.val != nil && key(p.val) == e.Param(f, n-2) && wholly(val(p.val), e.Param(f, n-1)) {
							r.Count("written pairs", 1)
							return
						}
					}
				}
			}
			r.Violate("pairs", fnLabel(fn), site.Pos(), "a field that an event writes is left out of its annotations on some path")
		}
		e.Run(f, nil)
		r.Use(e)
	}
}

// wholly: a value is a text or a copy of it, not a part.
func wholly(t, x *Term) bool {
	if t.origin() == x {
		return true
	}
	part := false
	return t.mentions(func(y *Term) bool {
		part = part || y.op == "slice" && y.args[0].origin() == x || y.op == "call" && y.mentions(func(z *Term) bool { return z == x })
		return y == x
	}) && !part
}

// ---- reading ----

// markers follows the schemas that annotations carry through loops.
type markers struct {
	c     *schemas
	e     *Engine
	anns  *Term
	lists map[*Term]string    // phi -> "" or what is wrong with the list
	loops map[*Term]*LoopIter // phi -> the loop that fills it
}

// index of the annotation whose key a term is, in the list of annotations.
func (m *markers) keyOf(t *Term) *Term {
	b, p := fieldPath(t)
	if len(p) != 1 || p[0] != "Key" || b == nil || b.op != "ia" && at(b) == nil {
		return nil
	}
	srcs, idx := m.e.elemsIn(t)
	if len(srcs) == 0 || srcs[0] != m.anns || idx[0] == nil {
		return nil
	}
	if phi, ok := m.e.elemIndex(idx[0]); ok {
		return phi
	}
	return nil
}

// marked: whether the annotation of this iteration is a marker.
func (m *markers) marked(st *State, items []*TItem) (yes, no bool) {
	for _, ev := range callsOf(items, func(ev *Event) bool {
		return ev.Kind == "call" && (ev.Name == "strings.HasPrefix" || ev.Name == "strings.CutPrefix")
	}) {
		if m.keyOf(ev.Args[0]) == nil || !isStr(ev.Args[1], m.c.marker) {
			continue
		}
		t := ev.Res
		if ev.Name == "strings.CutPrefix" {
			t = m.e.ResultTerm(ev, 1)
		}
		yes, no = yes || m.e.isTrue(st, t), no || m.e.isFalse(st, t)
	}
	return
}

// schema: a term that is the schema of the annotation of this iteration.
func (m *markers) schema(t *Term) bool {
	t = t.origin()
	switch {
	case t.op == "slice":
		n, ok := t.args[1].intVal()
		return ok && int(n) == len(m.c.marker) && t.args[2].isNil() && m.keyOf(t.args[0]) != nil
	case t.op == "extract" && isCall(t.args[0], "strings.CutPrefix"):
		t = t.args[0]
	case isCall(t, "strings.TrimPrefix"):
	default:
		return false
	}
	return m.keyOf(t.args[0]) != nil && isStr(t.args[1], m.c.marker)
}

// elem: a schema that is an element of a list of them; the list.
func (m *markers) elem(t *Term) *Term {
	srcs, idx := m.e.elemsIn(t)
	if len(srcs) != 1 || idx[0] == nil || !m.e.isElem(t, srcs[0]) {
		return nil
	}
	if _, ok := m.e.elemIndex(idx[0]); !ok {
		return nil
	}
	if _, ok := m.lists[srcs[0]]; ok {
		return srcs[0]
	}
	return nil
}

// iter looks at lists that are filled.
func (m *markers) iter(st *State, it *LoopIter) {
	for phi, v := range it.Vals {
		if s, ok := phi.typ.Underlying().(*types.Slice); !ok || !typeIs(s.Elem(), "string") {
			continue
		}
		base, ps := m.e.appendedTo(v, phi)
		yes, no := m.marked(st, it.Items)
		if !yes && !no {
			continue
		}
		if _, ok := m.lists[phi]; !ok {
			m.lists[phi] = ""
		}
		m.loops[phi] = it
		switch {
		case base != phi:
			m.lists[phi] = "does not keep the schemas that it has"
		case no && len(ps) > 0:
			m.lists[phi] = "gets what is no schema"
		case yes && (len(ps) != 1 || ps[0].val == nil || !m.schema(ps[0].val)):
			m.lists[phi] = "does not get each schema of the annotations, without the prefix of the marker"
		}
	}
}

// whole: the list has the schemas of all annotations.
func (m *markers) whole(st *State, list *Term) string {
	if m.lists[list] != "" {
		return m.lists[list]
	}
	it := m.loops[list]
	if it == nil || !m.e.walked(st, it.Loop, it.Ctx, m.anns) {
		return "does not get the schemas of all annotations"
	}
	return ""
}

func (c *schemas) unmarshal() {
	one, all := c.p.Func("", "UnmarshalEvent"), c.p.Func("", "UnmarshalEvents")
	reader := c.p.reader()
	if !c.r.Require(reader != nil, "anchor", "the function that reads values from annotations") {
		return
	}
	if !c.r.Require(one != nil && all != nil && len(one.Params) == 2 && len(all.Params) == 2, "anchor", "UnmarshalEvent and UnmarshalEvents") {
		return
	}
	c.readOne(one, reader)
	c.readAll(all, one)
}

func (c *schemas) newMarkers(e *Engine, anns *Term) *markers {
	return &markers{c: c, e: e, anns: anns, lists: map[*Term]string{}, loops: map[*Term]*LoopIter{}}
}

// readOne: UnmarshalEvent.
func (c *schemas) readOne(fn, reader *ssa.Function) {
	r := c.r
	e := NewEngine(c.p)
	e.Loops = true
	e.Opaque = func(f *ssa.Function) bool { return f == reader }
	e.Keep = func(st *State, ev *Event) bool {
		return ev.Kind == "call" || ev.Kind == "store" || ev.Kind == "builtin"
	}
	anns, ev := e.Param(fn, 0), e.Param(fn, 1)
	m := c.newMarkers(e, anns)
	type cmp struct {
		it     *LoopIter
		list   *Term // or nil: over the annotations themselves
		bad    bool
		goesOn bool // after a schema that is the event's
	}
	type flag struct {
		wrong bool // may be changed where no schema is the event's
		lost  bool // may not be set after one is
	}
	flags := map[*Term]*flag{}
	cmps := map[string]*cmp{}
	// compared: a schema of the annotations is the event's, or is known not to be.
	compared := func(st *State, want bool) (list *Term, ok bool) {
		for f, v := range st.facts {
			if v != want || f.op != "eq" {
				continue
			}
			for i := range f.args {
				if s := f.args[i].origin(); c.isSchema(f.args[1-i], ev) {
					if l := m.elem(s); l != nil {
						return l, true
					}
					if m.schema(s) {
						return nil, true
					}
				}
			}
		}
		return nil, false
	}
	contains := func(st *State, items []*TItem, want bool) *Term {
		for _, x := range callsOf(items, func(x *Event) bool { return x.Kind == "call" && x.Name == "slices.Contains" }) {
			if v, ok := e.known(st, x.Res); ok && v == want && c.isSchema(x.Args[1], ev) {
				return x.Args[0]
			}
		}
		return nil
	}
	judging := false
	e.OnIter = func(st *State, it *LoopIter) {
		m.iter(st, it)
		list, ok := compared(st, false)
		if yes, no := m.marked(st, it.Items); no && !yes && !ok {
			return
		}
		over, eq := compared(st, true)
		for phi, v := range it.Vals {
			if b, is := phi.typ.Underlying().(*types.Basic); !is || b.Kind() != types.Bool {
				continue
			}
			f := flags[phi]
			if f == nil {
				f = &flag{}
				flags[phi] = f
			}
			set := e.isTrue(st, v)
			f.wrong = f.wrong || v != phi && !(eq && set)
			f.lost = f.lost || v != phi && !set || eq && !set
		}
		switch k := loopName(it.Loop, it.Ctx); {
		case ok || eq:
			if cmps[k] == nil {
				cmps[k] = &cmp{it: it, list: list}
			}
			if eq {
				cmps[k].list, cmps[k].goesOn = over, true
			}
		case cmps[k] != nil:
			cmps[k].bad = true
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" || !judging {
			return
		}
		bad := func(rule, f string, args ...any) { r.Violate(rule, fnLabel(fn), x.Site.Pos(), f, args...) }
		res := x.Results[0]
		if res.op == "mkiface" && strings.HasSuffix(res.aux, ".EventSchemaUnmarshalError") {
			why := "without all schemas of the annotations having been compared with the event's"
			for _, k := range cmps {
				over := k.list
				if over == nil {
					over = anns
				}
				clear := !k.goesOn // no schema was the event's
				for phi := range k.it.Vals {
					f := flags[phi]
					clear = clear || f != nil && !f.lost && e.isFalse(st, phi)
				}
				if !k.bad && clear && e.walked(st, k.it.Loop, k.it.Ctx, over) {
					why = ""
					if k.list != nil {
						if why = m.whole(st, k.list); why != "" {
							why = "because a list " + why
						}
					}
				}
			}
			if l := contains(st, st.trace, false); l != nil {
				if why = m.whole(st, l); why != "" {
					why = "because a list " + why
				}
			}
			if why != "" {
				bad("schema-error", "an event may be refused for its schema %s", why)
			}
			r.Count("refused events", 1)
			return
		}
		_, ok := compared(st, true)
		for phi, f := range flags {
			if !f.wrong && e.isTrue(st, phi) {
				from := e.PhiIn[phi]
				for v := range from {
					ok = len(from) == 1 && e.isFalse(st, v)
				}
			}
		}
		if !ok && contains(st, st.trace, true) == nil {
			bad("unmarked", "an event may be read from annotations without the marker of its schema")
			return
		}
		if e.notNil(st, res) {
			return
		}
		for _, y := range callsOf(st.trace, func(y *Event) bool { return y.Kind == "call" }) {
			switch {
			case y.Rec == reader:
				// C26 checks what it is given
				r.Count("read events", 1)
				return
			case y.Name == "(reflect.Value).Set":
				src := y.Args[1].origin()
				if isCall(src, "reflect.ValueOf") && src.args[0].origin().op == "extract" && strings.HasSuffix(src.args[0].origin().args[0].aux, ".EventUnmarshaler).UnmarshalEvent") && y.Args[0].mentions(func(t *Term) bool { return t == ev }) {
					r.Count("read events", 1)
					return
				}
			}
		}
		bad("unread", "success is reported although the event has not been read on some path")
	}
	for round := 0; round < 2; round++ {
		judging = round == 1
		e.visited = map[string]bool{}
		e.Run(fn, nil)
	}
	r.Use(e)
}

// readAll: UnmarshalEvents.
func (c *schemas) readAll(fn, one *ssa.Function) {
	r := c.r
	e := NewEngine(c.p)
	e.Loops = true
	e.Opaque = func(f *ssa.Function) bool { return f == one }
	e.Keep = func(st *State, ev *Event) bool {
		return ev.Kind == "call" || ev.Kind == "store" || ev.Kind == "builtin" || ev.Kind == "mapread"
	}
	anns, events := e.Param(fn, 0), e.Param(fn, 1)
	m := c.newMarkers(e, anns)
	type read struct {
		it   *LoopIter
		list *Term
		bad  ssa.Instruction
	}
	reads := map[string]*read{}
	e.OnIter = func(st *State, it *LoopIter) {
		m.iter(st, it)
		k := loopName(it.Loop, it.Ctx)
		for _, ev := range callsOf(it.Items, func(ev *Event) bool { return ev.Kind == "mapread" && isNamed(mapElem(ev.Args[0].typ), "", "Event") }) {
			list := m.elem(ev.Args[1])
			if list == nil && !m.schema(ev.Args[1]) {
				continue
			}
			if reads[k] == nil {
				reads[k] = &read{list: list}
			}
			reads[k].it = it
			if c.reads(e, st, it.Items, ev, anns, events, one) {
				r.Count("read events", 1)
				return
			}
			reads[k].bad = it.Site
			return
		}
		if yes, no := m.marked(st, it.Items); no && !yes {
			return
		}
		if reads[k] != nil {
			reads[k].bad = it.Site
		}
	}
	judging := false
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" || !judging {
			return
		}
		bad := func(f string, args ...any) { r.Violate("events", fnLabel(fn), x.Site.Pos(), f, args...) }
		if e.notNil(st, x.Results[0]) {
			for _, y := range callsOf(st.trace, func(y *Event) bool { return y.Rec == one }) {
				if err := e.errResult(y); e.notNil(st, err) && x.Results[0].mentions(func(t *Term) bool { return t == err }) {
					return
				}
			}
			bad("an error is returned that is not that of an event that cannot be read")
			return
		}
		for _, k := range reads {
			over := k.list
			if over == nil {
				over = anns
			}
			if k.list != nil {
				if why := m.whole(st, k.list); why != "" {
					bad("events are left out: the list of the schemas to read %s", why)
					return
				}
			}
			if !e.walked(st, k.it.Loop, k.it.Ctx, over) {
				bad("events are left out: not all schemas of the annotations are looked at on some path")
				return
			}
			if k.bad != nil {
				r.Violate("events", fnLabel(fn), k.bad.Pos(), "an event whose schema is registered is not read and added to the events on some path")
			}
			return
		}
		bad("the events of annotations are not read")
	}
	for round := 0; round < 2; round++ {
		judging = round == 1
		e.visited = map[string]bool{}
		e.Run(fn, nil)
	}
	r.Use(e)
}

func mapElem(t types.Type) types.Type {
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return types.Typ[types.Invalid]
}

// reads: an iteration whose schema is registered reads the event into a new
// value of its type and adds it.
func (c *schemas) reads(e *Engine, st *State, items []*TItem, lookup *Event, anns, events *Term, one *ssa.Function) bool {
	m, k := lookup.Args[0], lookup.Args[1]
	entry := func(t *Term) bool {
		a := at(t)
		return a != nil && (a.op == "me" || a.op == "mok") && a.args[0] == m && a.args[1] == k
	}
	for f, v := range st.facts { // not registered
		if a := at(f); !v && a != nil && a.op == "mok" && entry(f) {
			return true
		}
		none := false
		f.mentions(func(t *Term) bool {
			none = none || v && entry(t) && f == e.T.Eq(t, e.T.Nil())
			return false
		})
		if none {
			return true
		}
	}
	isNew := func(t *Term) *Term { // the new value of the event's type
		var n *Term
		t.mentions(func(y *Term) bool {
			if isCall(y, "reflect.New") && y.args[0].mentions(entry) {
				n = y
			}
			return n != nil
		})
		return n
	}
	for _, call := range callsOf(items, func(ev *Event) bool { return ev.Kind == "call" && ev.Rec == one }) {
		n := isNew(call.Args[1])
		if n == nil || call.Args[0] != anns || !e.isNil(st, e.errResult(call)) {
			continue
		}
		for _, s := range callsOf(items, func(ev *Event) bool { return ev.Kind == "store" && ev.Args[0] == events }) {
			base, ps := s.Args[1], []piece(nil)
			for base.op == "append" || base.op == "appendv" {
				for _, a := range base.args[1:] {
					ps = append(ps, piece{val: a})
				}
				base = base.args[0]
			}
			if a := at(base); a != events {
				continue
			}
			for _, p := range ps {
				if isNew(p.val) == n && p.val.mentions(func(y *Term) bool { return isCall(y, "(reflect.Value).Elem") || isCall(y, "reflect.Indirect") }) {
					return true
				}
			}
		}
	}
	return false
}

// python compares the Python client's events with Go's.
func (c *schemas) python() {
	r := c.r
	const file = "python/appdash/event.py"
	n, err := c.p.pyParse(file)
	if err != nil {
		r.Violate("python", file, 0, "the Python events cannot be parsed: %v", err)
		return
	}
	mod := pyModule(n)
	var names []string
	for name, d := range mod {
		if d.kind() == "ClassDef" {
			names = append(names, name)
		}
	}
	sort.Strings(names)
	bySchema := map[string]string{}
	for _, name := range names {
		run := &pyRun{mod: mod}
		attrs, methods, _ := run.class(name)
		if methods["marshal"] == nil || attrs["schema"] == nil && c.isBase(mod, name) {
			continue
		}
		r.Count("Python events", 1)
		at := func(line int, f string, args ...any) {
			r.Violate("python", file+":"+name, 0, "%s:%d: %s", file, line, fmt.Sprintf(f, args...))
		}
		def := mod[name]
		self := run.instance(name)
		schema := self.obj["schema"]
		if schema == nil || schema.op != "const" {
			at(def.line(), "the schema of the event is not one constant")
			continue
		}
		goType := c.types[schema.name]
		switch {
		case goType == nil:
			at(def.line(), "no Go event has the schema %q: the event is not read back", schema.name)
			continue
		case bySchema[schema.name] != "":
			at(def.line(), "the event has the schema of %s", bySchema[schema.name])
		}
		bySchema[schema.name] = name
		k := c.keysOf(goType)
		params := map[string]bool{}
		if ctor := methods["__init__"]; ctor != nil {
			run.fn(ctor, []*pyVal{self}, nil)
			a := ctor.node("args")
			for i, p := range append(append(a.list("posonlyargs"), a.list("args")...), a.list("kwonlyargs")...) {
				if i > 0 {
					params[p.str("arg")] = true
				}
			}
		}
		if run.retCond {
			at(def.line(), "the event may be made without all of its values")
		}
		m := methods["marshal"]
		d := one(run.fn(m, []*pyVal{self}, nil))
		if d.op != "dict" {
			at(m.line(), "cannot be decided: the keys and values of the event are no dictionary (%s)", d)
			continue
		}
		for _, a := range run.assigns {
			if a.what == "item" && a.base == d && !run.otherwise(a) {
				at(a.line, "a value of the event is left out on some path")
			}
		}
		used := map[string]bool{}
		for i, key := range d.keys {
			r.Count("Python keys", 1)
			v := d.args[i]
			from := map[string]bool{} // the arguments that the value depends on
			v.has(func(x *pyVal) bool {
				if x.op == "path" && params[x.name] {
					from[x.name] = true
				}
				return false
			})
			text, open := pyPattern(key)
			last := strings.ToLower(text[strings.LastIndex(strings.TrimSuffix(text, "."), ".")+1:])
			ok := false
			for p := range from {
				used[p] = true
				p = strings.ToLower(strings.ReplaceAll(p, "_", ""))
				l := strings.TrimSuffix(last, ".")
				ok = ok || strings.HasSuffix(l, p) || open && (strings.HasPrefix(p, l) || l == "headers" && strings.Contains(strings.ToLower(text), "."+strings.TrimSuffix(p, "info")+"."))
			}
			isNow := v.has(func(x *pyVal) bool { return x.op == "call" && strings.HasSuffix(x.name, "time.time") })
			switch {
			case open && !strings.HasSuffix(text, "."):
				at(m.line(), "the keys below %q are not separated from it by a dot", text)
			case open && k.structs[strings.TrimSuffix(text, ".")] == nil && k.maps[strings.TrimSuffix(text, ".")] == nil:
				at(m.line(), "the keys below %q are none of the event %q (%s)", text, schema.name, goType.Obj().Name())
			case !open && k.leaves[text] == nil && !k.writes(text):
				at(m.line(), "%q is no key of the event %q (%s)", text, schema.name, goType.Obj().Name())
			case !ok && !(len(from) == 0 && isNow):
				at(m.line(), "the value of %q is not the argument of that name (%s)", text, v)
			case !open && k.leaves[text] != nil && typeIs(k.leaves[text], "time.Time"):
				for _, arm := range pyArms(v) {
					if arm.op != "call" || !strings.Contains(strings.ToLower(arm.name), "rfc3339") && !strings.HasSuffix(arm.name, "isoformat") {
						at(m.line(), "the time %q is not written as RFC 3339 text (%s)", text, arm)
					}
				}
			case open:
				same := func(x *pyVal, op string) *pyVal {
					var from *pyVal
					x.has(func(y *pyVal) bool {
						if from == nil && (y.op == op || op == "key" && y.op == "elem") && len(y.args) == 1 {
							from = y.args[0]
						}
						return from != nil
					})
					return from
				}
				if a, b := same(key, "key"), same(v, "val"); a == nil || b == nil || a.String() != b.String() {
					at(m.line(), "a value below %q is not recorded under its own key (%s: %s)", text, key, v)
				}
			}
		}
		for p := range params {
			if !used[p] {
				at(def.line(), "the argument %s is not recorded", p)
			}
		}
	}
	c.pythonMarshal(file, mod)
}

// isBase: another class of the module extends it.
func (c *schemas) isBase(mod map[string]pyNode, name string) bool {
	for _, d := range mod {
		if d.kind() == "ClassDef" {
			for _, b := range d.list("bases") {
				if b.str("id") == name {
					return true
				}
			}
		}
	}
	return false
}

// pyPattern is the constant start of a text, and whether it goes on.
func pyPattern(v *pyVal) (text string, open bool) {
	for _, a := range catArgs(v) {
		switch {
		case a.op == "const":
			text += a.name
		case a.op == "cat":
			t, o := pyPattern(a)
			text += t
			if o {
				return text, true
			}
		default:
			return text, true
		}
	}
	return text, false
}

func pyArms(v *pyVal) (out []*pyVal) {
	if v.op == "or" {
		for _, a := range v.args {
			out = append(out, pyArms(a)...)
		}
		return
	}
	return []*pyVal{v}
}

// pythonMarshal: Python's MarshalEvent returns an annotation for each pair,
// and the marker.
func (c *schemas) pythonMarshal(file string, mod map[string]pyNode) {
	r := c.r
	f := mod["MarshalEvent"]
	if !r.Require(f.kind() == "FunctionDef", "anchor", "Python MarshalEvent") {
		return
	}
	at := func(msg string, args ...any) {
		r.Violate("python", file+":MarshalEvent", 0, "%s:%d: %s", file, f.line(), fmt.Sprintf(msg, args...))
	}
	run := &pyRun{mod: mod}
	rets := run.fn(f, nil, nil)
	if len(rets) != 1 || run.retCond {
		at("the annotations of an event are not returned in full on every path")
		return
	}
	ann := func(x *pyVal) (k, v *pyVal, ok bool) {
		if x != nil && x.op == "call" && (x.name == "Annotation" || strings.HasSuffix(x.name, ".Annotation")) && len(x.args) == 2 {
			return x.args[0], x.args[1], true
		}
		return nil, nil, false
	}
	marshalled := func(x *pyVal) bool {
		return x.has(func(y *pyVal) bool { return y.op == "call" && strings.HasSuffix(y.name, ".marshal") })
	}
	isPair := func(k, v *pyVal) bool {
		return k.op == "key" && v.has(func(y *pyVal) bool { return y.op == "val" && y.args[0] == k.args[0] }) && marshalled(k)
	}
	isMark := func(k *pyVal) bool {
		a := catArgs(k)
		return len(a) == 2 && a[0].op == "const" && a[0].name == c.marker && a[1].op == "path" && strings.HasSuffix(a[1].name, ".schema")
	}
	pairs, mark := false, false
	// What is appended to the returned list, and what it is made of.
	for _, a := range run.assigns {
		if k, v, ok := ann(a.v); ok && a.what == "append" && a.cond == 0 && (a.base == rets[0] || rets[0].has(func(y *pyVal) bool { return y == a.base })) {
			pairs = pairs || len(a.loop) == 1 && a.loop[0].op == "items" && isPair(k, v)
			mark = mark || len(a.loop) == 0 && isMark(k)
		}
	}
	rets[0].has(func(x *pyVal) bool {
		if x.op == "comp" && len(x.keys) == 1 && len(x.args) == 1 {
			if k, v, ok := ann(x.args[0]); ok {
				pairs = pairs || isPair(k, v)
			}
		}
		if k, _, ok := ann(x); ok {
			mark = mark || isMark(k) && !inAppend(run, x)
		}
		return false
	})
	if !pairs {
		at("not every key and value of an event becomes an annotation")
	}
	if !mark {
		at("an event may be sent without the marker of its schema")
	}
}

// otherwise: where the conditions of an assignment to a dictionary do not
// hold, it is assigned to as well.
func (r *pyRun) otherwise(a *pyAssign) bool {
	parts := strings.Split(a.branch, "/")
	for i := 1; i < len(parts); i++ {
		id, other := parts[i][:len(parts[i])-1], "t"
		if strings.HasSuffix(parts[i], "t") {
			other = "f"
		}
		prefix := strings.Join(append(append([]string(nil), parts[:i]...), id+other), "/")
		found := false
		for _, b := range r.assigns {
			found = found || b.what == "item" && b.base == a.base && len(b.loop) >= 1 == (len(a.loop) >= 1) && (b.branch == prefix || strings.HasPrefix(b.branch, prefix+"/"))
		}
		if !found {
			return false
		}
	}
	return true
}

// inAppend: the value has been appended, which may depend on a condition.
func inAppend(run *pyRun, v *pyVal) bool {
	for _, a := range run.assigns {
		if a.what == "append" && a.v == v {
			return true
		}
	}
	return false
}
