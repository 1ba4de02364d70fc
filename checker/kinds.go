package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C26: event fields are written and read back as their kind ----

func init() {
	register(&Check{
		ID: "C26",
		Rule: "what a value is known to be (its kind, its type, nil or not) is followed along every path of the functions that write and read annotations: " +
			"where text is emitted, the formatting function fits every kind the value may have there, and every scalar kind is emitted once; where text is parsed, the parsing function, base, width and result type are the inverse for every kind possible there, special types excluded from the general case; " +
			"a parsed value is used only where its error is known to be nil, for a place of the type it was parsed for; text is read only for a key that belongs to the field, and dropped only if it does or comes before it; nothing is dereferenced or asked for its string where it may be nil; every element, entry and exported field is visited, under the same names and in the same order on both sides",
		NotCover: "the numeric exactness of strconv and of the rounding of durations; slices and maps of composite values, which are written but not read; keys that contain dots (C29)",
		Run:      runC26,
	})
}

// pureReflect: what a reflect.Value or reflect.Type says about its type.
func pureReflect(name string) bool {
	switch name {
	case "(reflect.Value).Kind", "(reflect.Value).Type", "(reflect.Value).Elem", "(reflect.Value).Interface", "(reflect.Value).IsNil", "(reflect.Value).IsValid",
		"(reflect.Value).Len", "(reflect.Value).Index", "(reflect.Value).Field", "(reflect.Value).FieldByIndex", "(reflect.Value).MapIndex", "(reflect.Value).MapKeys", "(reflect.Value).NumField",
		"(reflect.Value).Bool", "(reflect.Value).Int", "(reflect.Value).Uint", "(reflect.Value).Float", "(reflect.Value).String", "(reflect.Value).Convert", "reflect.ValueOf", "reflect.TypeOf", "reflect.Zero", "reflect.Indirect",
		"(reflect.Type).Kind", "(reflect.Type).Elem", "(reflect.Type).Key", "(reflect.Type).Bits", "(reflect.Type).PkgPath", "(reflect.Type).Name", "(reflect.Type).Len", "(reflect.Type).NumField", "(reflect.Type).Field", "(reflect.Type).AssignableTo", "(reflect.Type).ConvertibleTo", "(reflect.Value).CanSet",
		"(reflect.StructField).IsExported", "(reflect.StructTag).Get", "math.Round", "math.RoundToEven", "math.Floor", "math.Trunc":
		return true
	}
	return false
}

var (
	intKinds    = []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
	uintKinds   = []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64}
	floatKinds  = []reflect.Kind{reflect.Float32, reflect.Float64}
	scalarKinds = append(append(append([]reflect.Kind{reflect.Bool, reflect.String}, intKinds...), uintKinds...), floatKinds...)
)

func classOf(k reflect.Kind) string {
	switch k {
	case reflect.Bool:
		return "bool"
	case reflect.String:
		return "string"
	case reflect.Float32, reflect.Float64:
		return "float"
	}
	for _, c := range intKinds {
		if c == k {
			return "int"
		}
	}
	for _, c := range uintKinds {
		if c == k {
			return "uint"
		}
	}
	return ""
}

func kindBits(k reflect.Kind) int64 {
	switch k {
	case reflect.Int8, reflect.Uint8:
		return 8
	case reflect.Int16, reflect.Uint16:
		return 16
	case reflect.Int32, reflect.Uint32, reflect.Float32:
		return 32
	}
	return 64
}

// basicKind is the kind of a basic type's values.
func basicKind(t types.Type) reflect.Kind {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return reflect.Invalid
	}
	switch b.Kind() {
	case types.Bool:
		return reflect.Bool
	case types.String:
		return reflect.String
	case types.Int:
		return reflect.Int
	case types.Int8:
		return reflect.Int8
	case types.Int16:
		return reflect.Int16
	case types.Int32:
		return reflect.Int32
	case types.Int64:
		return reflect.Int64
	case types.Uint:
		return reflect.Uint
	case types.Uint8:
		return reflect.Uint8
	case types.Uint16:
		return reflect.Uint16
	case types.Uint32:
		return reflect.Uint32
	case types.Uint64:
		return reflect.Uint64
	case types.Float32:
		return reflect.Float32
	case types.Float64:
		return reflect.Float64
	}
	return reflect.Invalid
}

// A textForm is how the text for a value of some class is made.
type textForm struct {
	class  string // bool, int, uint, float, string, time, duration; stringer, default; "" = none of them
	subj   *Term  // the reflect.Value
	base   int64
	factor string
	layout string
}

type kindCheck struct {
	r       *R
	p       *Program
	writer  *ssa.Function
	reader  *ssa.Function
	parsers map[*ssa.Function]bool

	written map[string]textForm // by class
	parsed  map[string]textForm
	// What is known about a value where it is taken for a time or a duration.
	special map[string]map[string]bool
	kindsOf map[*Term][]*Term // value or type -> terms for its kind
	walks   map[string]bool   // loops that walk a value
	tag     map[string]bool
}

func paramOf(fn *ssa.Function, pred func(types.Type) bool) int {
	for i, prm := range fn.Params {
		if pred(prm.Type()) {
			return i
		}
	}
	return -1
}

func isReflect(name string) func(types.Type) bool {
	return func(t types.Type) bool { return typeIs(t, "reflect."+name) }
}

func isEmit(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 2 && s.Results().Len() == 0 && isString(s.Params().At(0).Type()) && isString(s.Params().At(1).Type())
}

func isKVs(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.TypeString(p.Elem().Underlying(), nil) == "[][2]string"
}

// callsItself: directly or through other functions of the package.
func (p *Program) callsItself(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, _ := (*op).(*ssa.Function)
					if mc, ok := (*op).(*ssa.MakeClosure); ok {
						g, _ = mc.Fn.(*ssa.Function)
					}
					if g == nil || g.Pkg != fn.Pkg {
						continue
					}
					if g == fn || visit(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

func runC26(r *R) {
	k := &kindCheck{r: r, p: r.P, parsers: map[*ssa.Function]bool{}, written: map[string]textForm{}, parsed: map[string]textForm{},
		special: map[string]map[string]bool{}, kindsOf: map[*Term][]*Term{}, walks: map[string]bool{}, tag: map[string]bool{}}
	k.writer, k.reader = r.P.writer(), r.P.reader()
	if !r.Require(k.writer != nil, "anchor", "the function that writes values as annotations") || !r.Require(k.reader != nil, "anchor", "the function that reads values from annotations") {
		return
	}
	k.write()
	k.findParsers()
	for _, fn := range k.sortedParsers() {
		k.parse(fn)
	}
	k.compare()
	k.read()
	k.fields()
	k.entry()
}

// writer is the function that writes values as annotations.
func (p *Program) writer() *ssa.Function {
	return p.walker("flattenValue", func(f *ssa.Function) bool {
		return paramOf(f, isReflect("Value")) >= 0 && paramOf(f, isEmit) >= 0
	})
}

// reader is the function that reads values from annotations.
func (p *Program) reader() *ssa.Function {
	return p.walker("unflattenValue", func(f *ssa.Function) bool {
		return paramOf(f, isReflect("Value")) >= 0 && paramOf(f, isReflect("Type")) >= 0 && paramOf(f, isKVs) >= 0
	})
}

// walker looks for a recursive function by its signature.
func (p *Program) walker(name string, ok func(*ssa.Function) bool) (found *ssa.Function) {
	for _, m := range p.SSA[""].Members {
		f, isFn := m.(*ssa.Function)
		if !isFn || !ok(f) || !p.callsItself(f) {
			continue
		}
		if f.Name() == name {
			return f
		}
		if found == nil || f.Pos() < found.Pos() {
			found = f
		}
	}
	return found
}

func (k *kindCheck) engine() *Engine {
	e := NewEngine(k.p)
	e.Loops = true
	e.Pure = pureReflect
	e.Keep = func(*State, *Event) bool { return false }
	k.kindsOf = map[*Term][]*Term{}
	return e
}

// noteKind remembers the terms that stand for a value's kind.
func (k *kindCheck) noteKind(ev *Event) bool {
	if ev.Kind == "call" && (ev.Name == "(reflect.Value).Kind" || ev.Name == "(reflect.Type).Kind") {
		x := ev.Args[0]
		for _, t := range k.kindsOf[x] {
			if t == ev.Res {
				return true
			}
		}
		k.kindsOf[x] = append(k.kindsOf[x], ev.Res)
		return true
	}
	return false
}

func isCall(t *Term, name string) bool { return t.op == "call" && t.aux == name }

// typeFacts are the known types of a value.
func (k *kindCheck) known(st *State, x *Term) (ts []types.Type) {
	for f, v := range st.facts {
		if v && f.op == "istype" && isCall(f.args[0], "(reflect.Value).Interface") && f.args[0].args[0] == x {
			ts = append(ts, f.obj.(types.Type))
		}
	}
	return ts
}

// may reports that the value (or the values of the type) may be of the kind.
func (k *kindCheck) may(e *Engine, st *State, x *Term, kind reflect.Kind, more ...func(*State) bool) bool {
	for _, t := range k.known(st, x) {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if basicKind(t) != kind {
				return false
			}
		case *types.Pointer:
			if kind != reflect.Ptr && kind != reflect.Interface {
				return false
			}
		case *types.Struct:
			_ = u
			if kind != reflect.Struct && kind != reflect.Interface {
				return false
			}
		}
	}
	s := st.clone()
	for _, t := range k.kindsOf[x] {
		if !e.assume(s, e.T.Eq(t, e.T.Int(int64(kind))), true) {
			return false
		}
	}
	for _, t := range k.kindsOf[e.T.lookup("call", "(reflect.Value).Type", x)] {
		if !e.assume(s, e.T.Eq(t, e.T.Int(int64(kind))), true) {
			return false
		}
	}
	for _, m := range more {
		if !m(s) {
			return false
		}
	}
	return true
}

func isNilCall(e *Engine, st *State, x *Term) *Term {
	return e.T.lookup("call", "(reflect.Value).IsNil", x)
}

// mayNil adds the assumption that x is nil.
func (k *kindCheck) mayNil(e *Engine, x *Term) func(*State) bool {
	return func(st *State) bool {
		t := isNilCall(e, st, x)
		return t == nil || e.assume(st, t, true)
	}
}

func (k *kindCheck) elemOf(e *Engine, x *Term) *Term {
	return e.T.lookup("call", "(reflect.Value).Elem", x)
}

// nilPointer reports that x may be a nil pointer, or an interface with one.
func (k *kindCheck) nilPointer(e *Engine, st *State, x *Term) string {
	if k.may(e, st, x, reflect.Ptr, k.mayNil(e, x)) {
		return "a nil pointer"
	}
	el := k.elemOf(e, x)
	if el == nil {
		if k.may(e, st, x, reflect.Interface) {
			return "an interface with a nil pointer"
		}
		return ""
	}
	if k.may(e, st, x, reflect.Interface, func(s *State) bool { return k.may(e, s, el, reflect.Ptr, k.mayNil(e, el)) }) {
		return "an interface with a nil pointer"
	}
	return ""
}

func stripConv(t *Term) *Term {
	for t.op == "conv" || t.op == "mkiface" {
		t = t.args[0]
	}
	return t
}

// source finds the value whose contents a term is: v.Int() or v.Interface().(T).
func source(t *Term) (class string, subj *Term, typ types.Type) {
	t = stripConv(t)
	switch {
	case isCall(t, "(reflect.Value).Bool"):
		return "bool", t.args[0], nil
	case isCall(t, "(reflect.Value).Int"):
		return "int", t.args[0], nil
	case isCall(t, "(reflect.Value).Uint"):
		return "uint", t.args[0], nil
	case isCall(t, "(reflect.Value).Float"):
		return "float", t.args[0], nil
	case isCall(t, "(reflect.Value).String"):
		return "string", t.args[0], nil
	case t.op == "tassert" && isCall(t.args[0], "(reflect.Value).Interface"):
		typ = t.obj.(types.Type)
		subj = t.args[0].args[0]
		switch {
		case typeIs(typ, "time.Time"):
			return "time", subj, typ
		case typeIs(typ, "time.Duration"):
			return "duration", subj, typ
		}
		return classOf(basicKind(typ)), subj, typ
	}
	return "", nil, nil
}

// formOf recognises how a text is made.
func (k *kindCheck) formOf(e *Engine, st *State, t *Term) (f textForm, why string) {
	t = stripConv(t)
	if c, subj, _ := source(t); c == "string" {
		return textForm{class: c, subj: subj}, ""
	}
	if s, ok := t.strVal(); ok && (s == "true" || s == "false") {
		for c, v := range st.facts {
			if cl, subj, _ := source(c); cl == "bool" && v == (s == "true") {
				return textForm{class: cl, subj: subj}, ""
			}
		}
	}
	if t.op != "call" {
		return f, fmt.Sprintf("it is %s", t)
	}
	arg := func(i int) int64 {
		if i < len(t.args) {
			if n, ok := t.args[i].intVal(); ok {
				return n
			}
		}
		return -99
	}
	switch t.aux {
	case "strconv.FormatBool":
		f.class, f.subj, _ = source(t.args[0])
		if f.class != "bool" {
			return f, "FormatBool is not given the bool"
		}
	case "strconv.FormatInt", "strconv.Itoa":
		f.base = 10
		if t.aux == "strconv.FormatInt" {
			f.base = arg(1)
		}
		f.class, f.subj, _ = source(t.args[0])
		if f.class != "int" {
			return f, t.aux + " is not given the signed integer"
		}
	case "strconv.FormatUint":
		f.base = arg(1)
		f.class, f.subj, _ = source(t.args[0])
		if f.class != "uint" {
			return f, t.aux + " is not given the unsigned integer"
		}
	case "strconv.FormatFloat":
		switch arg(1) {
		case 'f', 'g', 'G', 'e', 'E':
		default:
			return f, "the format of FormatFloat cannot be read back"
		}
		if arg(2) != -1 {
			return f, "FormatFloat is not asked for all digits"
		}
		x := stripConv(t.args[0])
		if x.op == "bin" && x.aux == "/" && x.args[1].isConst() {
			n := stripConv(x.args[0])
			if isCall(n, "(time.Duration).Nanoseconds") {
				n = stripConv(n.args[0])
			}
			f.class, f.subj, _ = source(n)
			f.factor = x.args[1].cval.ExactString()
			if f.class != "duration" {
				return f, "what is divided is not a duration"
			}
			if !isFloat(x.typ) {
				return f, "the duration is cut to whole units before it is formatted"
			}
		} else {
			f.class, f.subj, _ = source(x)
			if f.class != "float" {
				return f, "FormatFloat is not given the float"
			}
		}
		if arg(3) != 64 && (f.class != "float" || k.may(e, st, f.subj, reflect.Float64)) {
			return f, "FormatFloat is not given the bit size of the value"
		}
	case "(time.Time).Format":
		x := t.args[0]
		for x.op == "call" && strings.HasPrefix(x.aux, "(time.Time).") {
			if x.aux != "(time.Time).UTC" {
				return f, "the time is changed by " + x.aux
			}
			x = x.args[0]
		}
		f.class, f.subj, _ = source(x)
		if f.class != "time" {
			return f, "Format is not given the time"
		}
		f.layout, _ = t.args[1].strVal()
	case "(fmt.Stringer).String":
		f.class = "stringer"
	case "fmt.Sprintf", "fmt.Sprint":
		f.class = "default"
	default:
		return f, "it is the result of " + t.aux
	}
	return f, ""
}

// write checks the function that writes values.
func (k *kindCheck) write() {
	r, fn := k.r, k.writer
	vi, fi, pi := paramOf(fn, isReflect("Value")), paramOf(fn, isEmit), paramOf(fn, isString)
	e := k.engine()
	v, emit, prefix := e.Param(fn, vi), e.Param(fn, fi), e.Param(fn, pi)
	bad := map[string]bool{}
	where := fnName(fn)
	report := func(pos token.Pos, format string, args ...any) {
		msg := fmt.Sprintf(format, args...)
		if !bad[msg] {
			bad[msg] = true
			r.Violate("written-form", where, pos, "%s", msg)
		}
	}
	round := 0
	e.OnEvent = func(st *State, ev *Event) {
		if k.noteKind(ev) {
			st.pin(ev.Res)
		}
		if ev.Kind != "call" {
			return
		}
		if ev.Name == "dynamic" && ev.Args[0] == emit {
			st.notes["emitted"] += "1"
			if len(st.notes["emitted"]) > 2 {
				st.notes["emitted"] = "11"
			}
			if round < 2 {
				return
			}
			k.emission(e, st, ev, v, prefix, report)
			return
		}
		if ev.Rec == fn {
			st.notes["descended"] = "1"
			st.notes["iterated"] = "1"
			if round == 2 {
				k.descent(e, st, ev, v, prefix, vi, fi, pi, emit, report)
			}
			return
		}
		if round == 2 && ev.Iface && ev.Name == "(fmt.Stringer).String" {
			x := ev.Args[0]
			if x.op == "tassert" && isCall(x.args[0], "(reflect.Value).Interface") {
				if what := k.nilPointer(e, st, x.args[0].args[0]); what != "" {
					report(ev.Site.Pos(), "a value is asked for its string where it may be %s, which panics", what)
				}
			}
		}
		if round == 2 {
			k.accessor(e, st, ev, report)
		}
	}
	e.OnIter = func(st *State, it *LoopIter) {
		name := loopName(it.Loop, it.Ctx)
		if st.notes["iterated"] != "" {
			k.walks[name] = true
		} else if k.walks[name] && round == 2 && !k.hidden(e, st, v) {
			report(it.Site.Pos(), "an element may be left out: nothing is written for it on some path")
		}
		delete(st.notes, "iterated")
	}
	e.OnLeave = func(st *State, it *LoopIter, whole bool) {
		if !k.walks[loopName(it.Loop, it.Ctx)] {
			return
		}
		if !whole {
			if round == 2 {
				report(it.Site.Pos(), "the walk over a value's elements may stop early")
			}
			return
		}
		if k.boundedWalk(e, st, it, v) {
			st.notes["walked"] = "1"
		} else if round == 2 {
			report(it.Site.Pos(), "the walk over a value's elements may not begin with the first or not reach the last one")
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" || round < 2 {
			return
		}
		r.Count("writing paths", 1)
		if n := st.notes["emitted"]; len(n) > 1 {
			report(x.Site.Pos(), "a value is written twice on some path")
			return
		} else if len(n) == 1 || st.notes["descended"] != "" && st.notes["walked"] == "" || len(k.known(st, v)) > 0 {
			if len(n) == 0 && st.notes["descended"] == "" {
				report(x.Site.Pos(), "nothing is written for a value of type %s", k.known(st, v)[0])
			}
			return
		}
		for _, kd := range scalarKinds {
			if k.may(e, st, v, kd) {
				report(x.Site.Pos(), "nothing is written for a value of kind %s on some path", kd)
				return
			}
		}
		notNil := func(s *State) bool {
			t := isNilCall(e, s, v)
			return t == nil || e.assume(s, t, false)
		}
		if k.may(e, st, v, reflect.Ptr, notNil) {
			report(x.Site.Pos(), "nothing is written for a pointer that is not nil on some path")
		}
		if k.may(e, st, v, reflect.Interface) && k.absent(e, st, v) == "" {
			report(x.Site.Pos(), "nothing is written for an interface value on some path")
		}
		for _, kd := range []reflect.Kind{reflect.Struct, reflect.Map, reflect.Slice, reflect.Array} {
			if st.notes["walked"] == "" && k.may(e, st, v, kd) && !k.noElements(e, st, v) {
				report(x.Site.Pos(), "the elements of a value of kind %s are not written on some path", kd)
				return
			}
		}
	}
	for round = 0; round < 3; round++ {
		e.visited = map[string]bool{}
		e.Run(fn, nil)
	}
	r.Use(e)
	for _, kd := range scalarKinds {
		if _, ok := k.written[classOf(kd)]; !ok {
			report(fn.Pos(), "values of kind %s are never written", kd)
		}
	}
	for _, c := range []string{"time", "duration"} {
		if _, ok := k.written[c]; !ok {
			report(fn.Pos(), "a %s is not written in a form that can be read back", c)
		}
	}
	r.Floor("writing paths", 12)
}

// absent: the interface value holds nil or a nil pointer.
func (k *kindCheck) absent(e *Engine, st *State, v *Term) string {
	if t := isNilCall(e, st, v); t != nil && e.isTrue(st, t) {
		return "nil"
	}
	if el := k.elemOf(e, v); el != nil {
		if t := isNilCall(e, st, el); t != nil && e.isTrue(st, t) {
			return "nil pointer"
		}
	}
	return ""
}

func (k *kindCheck) noElements(e *Engine, st *State, v *Term) bool {
	for f := range st.facts {
		for _, n := range []string{"(reflect.Value).Len", "(reflect.Value).NumField"} {
			var ln *Term
			f.mentions(func(t *Term) bool {
				if isCall(t, n) && t.args[0] == v {
					ln = t
				}
				return false
			})
			if ln != nil && e.isTrue(st, e.T.Eq(ln, e.T.Int(0))) {
				return true
			}
		}
	}
	return false
}

// hidden: the field that this iteration looks at is known to be unexported.
func (k *kindCheck) hidden(e *Engine, st *State, v *Term) bool {
	return k.exported(e, st, "false")
}

// exported: whether some field of a struct type is known to be exported.
func (k *kindCheck) exported(e *Engine, st *State, want string) bool {
	for f, val := range st.facts {
		var pkg *Term
		f.mentions(func(t *Term) bool {
			if t.op == "field" && t.obj != nil && t.obj.(*types.Var).Name() == "PkgPath" {
				pkg = t
			}
			return false
		})
		if pkg != nil {
			c := e.T.Eq(pkg, e.T.Const(constant.MakeString(""), types.Typ[types.String]))
			if want == "true" && e.isTrue(st, c) || want == "false" && e.isFalse(st, c) {
				return true
			}
		}
		if isCall(f, "(reflect.StructField).IsExported") && fmt.Sprint(val) == want {
			return true
		}
	}
	return false
}

// boundedWalk: a loop that counts does so from 0 up to the number of elements.
func (k *kindCheck) boundedWalk(e *Engine, st *State, it *LoopIter, v *Term) bool {
	for f, val := range st.facts {
		if f.op == "nextok" && !val && siteIn(f.site, f.ctx, it.Loop, it.Ctx) {
			return true
		}
		if f.op != "lt0" && f.op != "eq0" {
			continue
		}
		var phi, n *Term
		for t := range f.obj.(linear).coef {
			switch {
			case t.op == "loopphi" && t.ctx == it.Ctx && t.site.Block() == it.Loop.header:
				phi = t
			case isCall(t, "(reflect.Value).Len") || isCall(t, "(reflect.Value).NumField") || isCall(t, "(reflect.Type).NumField") || t.op == "len":
				n = t
			}
		}
		if phi != nil && n == nil { // counted down to the first?
			for in := range e.PhiIn[phi] {
				for t := range e.T.lin(in).coef {
					if isCall(t, "(reflect.Value).Len") || isCall(t, "(reflect.Value).NumField") || isCall(t, "(reflect.Type).NumField") || t.op == "len" {
						n = t
					}
				}
			}
		}
		if phi == nil || n == nil {
			continue
		}
		first, ok := e.countsFrom(phi)
		if !ok {
			if e.countsDown(phi, n) && e.isTrue(st, e.T.lt0(e.T.lin(phi))) {
				return true
			}
			continue
		}
		// the elements phi - first have been visited
		seen := e.T.lin(phi).sub(linear{coef: map[*Term]int64{}, k: first})
		rest := seen.sub(e.T.lin(n))
		if c, known := e.known(st, e.T.lt0(rest)); known && !c {
			return true
		}
	}
	for f, val := range st.facts {
		if isCall(f, "(*reflect.MapIter).Next") && !val {
			return true
		}
	}
	return false
}

// accessor: methods that panic for other kinds are only called for theirs.
func (k *kindCheck) accessor(e *Engine, st *State, ev *Event, report func(token.Pos, string, ...any)) {
	var ok []reflect.Kind
	switch ev.Name {
	case "(reflect.Value).Bool":
		ok = []reflect.Kind{reflect.Bool}
	case "(reflect.Value).Int":
		ok = intKinds
	case "(reflect.Value).Uint":
		ok = append([]reflect.Kind{reflect.Uintptr}, uintKinds...)
	case "(reflect.Value).Float":
		ok = floatKinds
	case "(reflect.Value).Len":
		ok = []reflect.Kind{reflect.Array, reflect.Chan, reflect.Map, reflect.Slice, reflect.String}
	case "(reflect.Value).Index":
		ok = []reflect.Kind{reflect.Array, reflect.Slice, reflect.String}
	case "(reflect.Value).MapKeys", "(reflect.Value).MapRange", "(reflect.Value).MapIndex":
		ok = []reflect.Kind{reflect.Map}
	case "(reflect.Value).Field", "(reflect.Value).NumField":
		ok = []reflect.Kind{reflect.Struct}
	case "(reflect.Value).Elem":
		ok = []reflect.Kind{reflect.Ptr, reflect.Interface}
	case "(reflect.Value).IsNil":
		ok = []reflect.Kind{reflect.Chan, reflect.Func, reflect.Map, reflect.Ptr, reflect.UnsafePointer, reflect.Interface, reflect.Slice}
	default:
		return
	}
	k.r.Count("kind obligations", 1)
	for kd := reflect.Bool; kd <= reflect.UnsafePointer; kd++ {
		allowed := false
		for _, o := range ok {
			allowed = allowed || o == kd
		}
		if !allowed && k.may(e, st, ev.Args[0], kd) {
			report(ev.Site.Pos(), "%s is called where the value may be of kind %s, which panics", strings.TrimPrefix(ev.Name, "(reflect.Value)."), kd)
			return
		}
	}
}

// typeFacts are what is known, positively, about the type of x.
func (k *kindCheck) typeFacts(st *State, x *Term) (fs []*Term) {
	for f, v := range st.facts {
		if v && k.aboutType(f, x) {
			fs = append(fs, f)
		}
	}
	return fs
}

func (k *kindCheck) aboutType(f, x *Term) bool {
	if f.op != "istype" && f.op != "eq" {
		return false
	}
	return f.mentions(func(t *Term) bool {
		if t.op != "call" || len(t.args) == 0 || t.args[0] != x {
			return t == x && f.op == "eq"
		}
		switch t.aux {
		case "(reflect.Value).Interface", "(reflect.Value).Type", "(reflect.Type).PkgPath", "(reflect.Type).Name", "(reflect.Type).String":
			return true
		}
		return false
	})
}

// isSpecial: the path knows x to be of the special type; the fact by which it
// does is remembered.
func (k *kindCheck) isSpecial(side, class string, st *State, x *Term) bool {
	name := map[string]string{"time": "Time", "duration": "Duration"}[class]
	ok := false
	for _, f := range k.typeFacts(st, x) {
		if namesType(f, name) {
			key := side + " " + class
			if k.special[key] == nil {
				k.special[key] = map[string]bool{}
			}
			k.special[key][fmt.Sprint(f.id)] = true
			ok = true
		}
	}
	return ok
}

// namesType: a fact that says that a type is time.<name>.
func namesType(f *Term, name string) bool {
	if f.op == "istype" {
		return f.aux == "time."+name
	}
	var pkg, nm, full bool
	f.mentions(func(t *Term) bool {
		if s, ok := t.strVal(); ok {
			pkg = pkg || s == "time"
			nm = nm || s == name
			full = full || s == "time."+name
		}
		if t.op == "mkiface" && t.aux == "time."+name || t.op == "load" && t.args[0].op == "global" {
			full = true
		}
		return false
	})
	return full || pkg && nm || nm && f.mentions(func(t *Term) bool { return isCall(t, "(reflect.Type).Name") })
}

// excluded: the path knows x not to be of the special type.
func (k *kindCheck) excluded(side, class string, st *State, x *Term) bool {
	for f, v := range st.facts {
		if !v && k.special[side+" "+class][fmt.Sprint(f.id)] {
			return true
		}
	}
	for _, t := range k.known(st, x) {
		if !types.IsInterface(t) {
			return true // of another type
		}
	}
	return false
}

// emission checks one place where text is given to the callback.
func (k *kindCheck) emission(e *Engine, st *State, ev *Event, v, prefix *Term, report func(token.Pos, string, ...any)) {
	pos := ev.Site.Pos()
	k.r.Count("emitted texts", 1)
	if ev.Args[1] != prefix {
		report(pos, "a value is not written under the key given for it")
	}
	f, why := k.formOf(e, st, ev.Args[2])
	if f.class == "" || why != "" {
		report(pos, "the text that is written for a value has no form that is known to be readable: %s", why)
		return
	}
	if f.subj != nil && f.subj != v {
		report(pos, "the text that is written is that of another value")
		return
	}
	if f.class == "time" || f.class == "duration" {
		k.isSpecial("w", f.class, st, v)
	} else {
		for kd := reflect.Bool; kd <= reflect.UnsafePointer; kd++ {
			c := classOf(kd)
			if c == f.class || !k.may(e, st, v, kd) {
				continue
			}
			if f.class == "stringer" || f.class == "default" && c == "" && kd != reflect.Struct && kd != reflect.Map && kd != reflect.Slice && kd != reflect.Array && kd != reflect.Ptr {
				continue
			}
			report(pos, "the text of a value of kind %s is written as that of a %s", kd, f.class)
			return
		}
		if f.class == "int" || f.class == "stringer" {
			if !k.excluded("w", "duration", st, v) {
				report(pos, "a time.Duration may be written as %s", f.class)
			}
		}
		if f.class == "stringer" && !k.excluded("w", "time", st, v) {
			report(pos, "a time.Time may be written as %s", f.class)
		}
		if f.class == "stringer" || f.class == "default" {
			return
		}
	}
	if w, ok := k.written[f.class]; ok && (w.base != f.base || w.factor != f.factor || w.layout != f.layout) {
		report(pos, "values of class %s are written in two different forms", f.class)
	}
	f.subj = nil
	k.written[f.class] = f
}

// descent checks one recursive call of the writer.
func (k *kindCheck) descent(e *Engine, st *State, ev *Event, v, prefix *Term, vi, fi, pi int, emit *Term, report func(token.Pos, string, ...any)) {
	pos := ev.Site.Pos()
	k.r.Count("descents", 1)
	x, pre, cb := ev.Args[vi], ev.Args[pi], ev.Args[fi]
	if x.op != "call" {
		if x.mentions(func(t *Term) bool { return isCall(t, "(reflect.Value).MapKeys") && t.args[0] == v }) {
			k.keyDescent(e, st, ev, x, pre, cb, report)
			return
		}
		report(pos, "the value that is written is not a part of the given one (%s)", x)
		return
	}
	if x.args[0] != v && x.aux != "(*reflect.MapIter).Key" && x.aux != "(*reflect.MapIter).Value" {
		report(pos, "the value that is written is not a part of the given one")
		return
	}
	if (x.aux == "(reflect.Value).Field" || x.aux == "(reflect.Value).Elem") && !k.excluded("w", "time", st, v) && x.aux == "(reflect.Value).Field" {
		report(pos, "a time.Time may be written field by field")
	}
	if x.aux == "(*reflect.MapIter).Key" {
		k.keyDescent(e, st, ev, x, pre, cb, report)
		return
	}
	if cb != emit {
		report(pos, "a part of the value is not written to the caller's function")
	}
	name := k.nested(e, st, pre, prefix)
	if x.aux == "(reflect.Value).Elem" {
		if pre != prefix {
			report(pos, "what a pointer points to is not written under the pointer's key")
		}
		if k.may(e, st, v, reflect.Ptr, k.mayNil(e, v)) {
			report(pos, "a pointer is followed where it may be nil")
		}
		if len(k.known(st, v)) == 0 && k.may(e, st, v, reflect.Interface, k.mayNil(e, v)) {
			report(pos, "an interface is followed where it may be nil")
		}
		return
	}
	if name == nil {
		report(pos, "a part of the value is not written under a key below that of the value")
		return
	}
	switch x.aux {
	case "(reflect.Value).Index":
		if n := stripConv(name); !(isCall(n, "strconv.Itoa") || isCall(n, "strconv.FormatInt") || isCall(n, "fmt.Sprint")) || !n.has(x.args[1]) {
			report(pos, "an element is not written under its own index")
		}
	case "(reflect.Value).Field":
		if !k.fieldsName(e, st, name, x.args[1]) {
			report(pos, "a field is not written under its own name")
		}
	case "(reflect.Value).MapIndex", "(*reflect.MapIter).Value":
		if name.op != "cbarg" && !name.mentions(func(t *Term) bool { return t.op == "cbarg" }) && name.op != "load" && name.op != "loopmem" && name.op != "havoc" {
			report(pos, "a map's value is not written under the text of its key")
		}
		k.r.Count("map values written", 1)
	default:
		report(pos, "the value that is written is not a part of the given one")
	}
}

func (k *kindCheck) keyDescent(e *Engine, st *State, ev *Event, x, pre, cb *Term, report func(token.Pos, string, ...any)) {
	if s, ok := pre.strVal(); !ok || s != "" {
		report(ev.Site.Pos(), "a map's key is not written alone")
	}
	if cb.op != "closure" && cb.op != "func" {
		report(ev.Site.Pos(), "a map's key is written as if it were a value")
	}
}

// nested takes the element's name out of the key for it: prefix.name, or name
// alone where the prefix is empty.
func (k *kindCheck) nested(e *Engine, st *State, key, prefix *Term) *Term {
	var parts []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.op == "bin" && t.aux == "+" {
			flat(t.args[0])
			flat(t.args[1])
			return
		}
		if isCall(t, "strings.Join") {
			if es, ok := sliceElems(e, st, t.args[0]); ok {
				for i, x := range es {
					if i > 0 {
						flat(t.args[1])
					}
					flat(x)
				}
				return
			}
		}
		parts = append(parts, t)
	}
	flat(key)
	switch {
	case len(parts) == 1 && parts[0] != prefix && e.empty(st, prefix):
		return parts[0]
	case len(parts) == 3 && parts[0] == prefix:
		if s, ok := parts[1].strVal(); ok && s == "." {
			return parts[2]
		}
	}
	return nil
}

// fieldsName: a name that belongs to the field with the index.
func (k *kindCheck) fieldsName(e *Engine, st *State, name, idx *Term) bool {
	name = stripConv(name)
	if idx.op == "nextk" { // from a table of names by index
		return name.op == "nextv" && len(name.args) > 0 && name.args[0] == idx.args[0]
	}
	if name.mentions(func(t *Term) bool { return isCall(t, "(reflect.Type).Field") && t.args[1] == idx }) {
		return true
	}
	if name.op == "load" && name.args[0].op == "me" && name.args[0].args[1] == idx { // looked up in the table
		return true
	}
	return name.op == "load" && name.args[0].op == "ia" && name.args[0].args[1] == idx
}

// ---- parsing ----

// findParsers: the functions from which the reader gets values for text.
func (k *kindCheck) findParsers() {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Pkg != k.reader.Pkg || len(g.Blocks) == 0 {
					continue
				}
				if k.isParser(g) {
					k.parsers[g] = true
				} else {
					visit(g)
				}
			}
		}
	}
	visit(k.reader)
	k.r.Require(len(k.parsers) > 0, "anchor", "a function that parses values, called by the reader of annotations")
}

func (k *kindCheck) isParser(g *ssa.Function) bool {
	res := g.Signature.Results()
	return res.Len() == 2 && typeIs(res.At(0).Type(), "reflect.Value") && isErrorType(res.At(1).Type()) && paramOf(g, isReflect("Type")) >= 0 && paramOf(g, isString) >= 0
}

func (k *kindCheck) sortedParsers() (fs []*ssa.Function) {
	for f := range k.parsers {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	return fs
}

// A parsed is what a parsed value is made of.
type parsedForm struct {
	textForm
	bits  int64 // width of the result of the parsing function; -1: that of the type
	width int64 // of the variable that the value is put in
	err   *Term
	conv  bool // converted to the wanted type in the end
}

func (k *kindCheck) parse(fn *ssa.Function) {
	r := k.r
	ai, si := paramOf(fn, isReflect("Type")), paramOf(fn, isString)
	e := k.engine()
	as, text := e.Param(fn, ai), e.Param(fn, si)
	bad := map[string]bool{}
	where := fnName(fn)
	report := func(pos token.Pos, format string, args ...any) {
		msg := fmt.Sprintf(format, args...)
		if !bad[msg] {
			bad[msg] = true
			r.Violate("parsed-form", where, pos, "%s", msg)
		}
	}
	round := 0
	read := map[reflect.Kind]bool{}
	e.Keep = func(st *State, ev *Event) bool {
		return ev.Kind == "call" && strings.HasPrefix(ev.Name, "(reflect.Value).Set")
	}
	e.OnEvent = func(st *State, ev *Event) {
		if k.noteKind(ev) {
			st.pin(ev.Res)
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" || len(x.Results) != 2 {
			return
		}
		pos := x.Site.Pos()
		v, err := x.Results[0], x.Results[1]
		if round == 0 {
			r.Count("parsing paths", 1)
		}
		if e.notNil(st, err) {
			return
		}
		if v.op == "extract" && v.args[0].op == "call" && err.op == "extract" && err.args[0] == v.args[0] { // handed on
			c := v.args[0]
			g, _ := c.obj.(*ssa.Function)
			if g == nil || !k.isParser(g) {
				report(pos, "the value comes from %s, which is not known to parse values", c.aux)
				return
			}
			k.recursive(e, st, x, c, as, text, report)
			return
		}
		if !e.isNil(st, err) {
			report(pos, "a value is returned that may come with an error or not, as if it were parsed")
			return
		}
		if v.op == "struct" || v.op == "const" || v.isNil() { // reflect.Value{}
			for kd := reflect.Bool; kd <= reflect.UnsafePointer; kd++ {
				if k.may(e, st, as, kd) {
					report(pos, "for kind %s no value is returned, and no error", kd)
					return
				}
			}
			return
		}
		f, why := k.parsedForm(e, st, v, as, text)
		if why != "" {
			report(pos, "the value that is returned is not known to be what the text says: %s", why)
			return
		}
		if f.class == "pointer" {
			for kd := reflect.Bool; kd <= reflect.UnsafePointer; kd++ {
				if kd != reflect.Ptr && k.may(e, st, as, kd) {
					report(pos, "a pointer is returned for kind %s", kd)
				}
			}
			return
		}
		if f.err != nil && !e.isNil(st, f.err) {
			report(pos, "the value is returned though parsing it may have failed")
			return
		}
		if f.class == "time" || f.class == "duration" {
			if !k.isSpecial("p", f.class, st, as) {
				report(pos, "a %s is returned where the type may be another one", f.class)
			}
		} else {
			for kd := reflect.Bool; kd <= reflect.UnsafePointer; kd++ {
				if !k.may(e, st, as, kd) {
					continue
				}
				if classOf(kd) != f.class {
					report(pos, "a value of kind %s is parsed as that of a %s", kd, f.class)
					return
				}
				if f.bits >= 0 && f.bits < kindBits(kd) || f.class == "float" && f.bits != kindBits(kd) && f.bits != -1 && !(kd == reflect.Float32 && f.bits == 64) {
					report(pos, "a value of kind %s is parsed with %d bits", kd, f.bits)
					return
				}
				if f.width >= 0 && f.width < kindBits(kd) {
					report(pos, "a value of kind %s is put in a variable of %d bits", kd, f.width)
					return
				}
				read[kd] = true
			}
			if round > 0 && f.class == "int" && !k.excluded("p", "duration", st, as) {
				report(pos, "a time.Duration may be parsed as int")
			}
			if !f.conv {
				report(pos, "the value is not given the type asked for, which may be a named one")
			}
		}
		if w, ok := k.parsed[f.class]; ok && (w.base != f.base || w.factor != f.factor || w.layout != f.layout) {
			report(pos, "values of class %s are parsed in two different ways", f.class)
		}
		t := f.textForm
		t.subj = nil
		k.parsed[f.class] = t
	}
	for round = 0; round < 2; round++ {
		e.visited = map[string]bool{}
		e.Run(fn, nil)
	}
	r.Use(e)
	for _, kd := range scalarKinds {
		if !read[kd] {
			report(fn.Pos(), "values of kind %s are never parsed", kd)
		}
		r.Count("kinds parsed", 1)
	}
	r.Floor("parsing paths", 10)
}

// recursive: for a pointer, the value of the type it points to.
func (k *kindCheck) recursive(e *Engine, st *State, x *Exit, c, as, text *Term, report func(token.Pos, string, ...any)) {
	g := c.obj.(*ssa.Function)
	t, s := c.args[paramOf(g, isReflect("Type"))], c.args[paramOf(g, isString)]
	if s != text {
		report(x.Site.Pos(), "another text is parsed than the given one")
	}
	if isCall(t, "(reflect.Type).Elem") && t.args[0] == as {
		for kd := reflect.Bool; kd <= reflect.UnsafePointer; kd++ {
			if kd != reflect.Ptr && k.may(e, st, as, kd) {
				report(x.Site.Pos(), "kind %s is parsed as its element type", kd)
				return
			}
		}
		return
	}
	if t != as {
		report(x.Site.Pos(), "a value of another type is parsed than the given one")
	}
}

// parsedForm recognises what the returned reflect.Value holds.
func (k *kindCheck) parsedForm(e *Engine, st *State, v, as, text *Term) (f parsedForm, why string) {
	f.bits, f.width = -1, -1
	if isCall(v, "(reflect.Value).Convert") {
		if v.args[1] != as {
			return f, "it is converted to another type"
		}
		f.conv = true
		v = v.args[0]
	}
	if isCall(v, "(reflect.Value).Elem") && isCall(v.args[0], "reflect.New") || isCall(v, "reflect.New") {
		return k.filled(e, st, v, as, text, f)
	}
	var content *Term
	switch {
	case isCall(v, "(reflect.Value).Elem") && isCall(v.args[0], "reflect.ValueOf"):
		p := stripConv(v.args[0].args[0])
		pt, ok := p.typ.Underlying().(*types.Pointer)
		if !ok || p.op != "alloc" {
			return f, "it does not point to a variable"
		}
		content = e.peek(st, p, pt.Elem())
		f.width = kindBits(basicKind(pt.Elem()))
		f.class = classOf(basicKind(pt.Elem()))
		if typeIs(pt.Elem(), "time.Time") {
			f.class = "time"
		} else if typeIs(pt.Elem(), "time.Duration") {
			f.class = "duration"
		}
	case isCall(v, "reflect.ValueOf"):
		content = v.args[0]
		if content.op != "mkiface" {
			return f, "it is not made from a variable"
		}
		dyn := content.obj.(types.Type)
		content = content.args[0]
		f.width = kindBits(basicKind(dyn))
		f.class = classOf(basicKind(dyn))
		if typeIs(dyn, "time.Time") {
			f.class = "time"
		} else if typeIs(dyn, "time.Duration") {
			f.class = "duration"
		}
	default:
		return f, fmt.Sprintf("it is %s", v)
	}
	return k.content(e, content, text, f)
}

// content recognises how the content was parsed.
func (k *kindCheck) content(e *Engine, c, text *Term, f parsedForm) (parsedForm, string) {
	want := f.class
	for c.op == "conv" {
		if cl := classOf(basicKind(c.typ)); (want == "float" && (cl == "int" || cl == "uint")) || ((want == "int" || want == "uint") && cl == "float") {
			return f, fmt.Sprintf("on its way it is %s, which does not keep every %s", c.typ, want)
		}
		if kd := basicKind(c.typ); classOf(kd) != "" && classOf(kd) == classOf(basicKind(c.args[0].typ)) && (f.width < 0 || kindBits(kd) < f.width) {
			f.width = kindBits(kd)
		}
		c = c.args[0]
	}
	if c == text {
		if want != "string" {
			return f, "the text itself is taken for a " + want
		}
		return f, ""
	}
	if isCall(c, "(time.Time).UTC") || isCall(c, "(time.Time).Local") {
		c = c.args[0]
	}
	if want == "duration" {
		if !isCall(c, "math.Round") && !isCall(c, "math.RoundToEven") {
			return f, "the duration is not rounded to the nearest nanosecond"
		}
		c = stripConv(c.args[0])
		if c.op != "bin" || c.aux != "*" {
			return f, "the number is not scaled to nanoseconds"
		}
		n, cst := c.args[0], c.args[1]
		if n.isConst() {
			n, cst = cst, n
		}
		if !cst.isConst() {
			return f, "the number is not scaled by a constant"
		}
		f.factor = cst.cval.ExactString()
		c = stripConv(n)
	}
	if c.op != "extract" || c.aux != "0" || c.args[0].op != "call" {
		return f, fmt.Sprintf("it is %s", c)
	}
	call := c.args[0]
	arg := func(i int) *Term { return call.args[i] }
	num := func(t *Term) int64 {
		if n, ok := t.intVal(); ok {
			return n
		}
		if isCall(t, "(reflect.Type).Bits") {
			return -1
		}
		return 1
	}
	got, textAt := "", 0
	switch call.aux {
	case "strconv.ParseBool":
		got = "bool"
	case "strconv.ParseInt", "strconv.ParseUint":
		got = map[string]string{"strconv.ParseInt": "int", "strconv.ParseUint": "uint"}[call.aux]
		f.base = num(arg(1))
		if f.bits = num(arg(2)); f.bits == 0 {
			f.bits = 64
		}
	case "strconv.Atoi":
		got, f.base, f.bits = "int", 10, 64
	case "strconv.ParseFloat":
		got, f.bits = "float", num(arg(1))
		if want == "duration" {
			if f.bits != 64 {
				return f, "the number is not parsed with full precision"
			}
			got = "duration"
		}
	case "time.Parse":
		got, textAt = "time", 1
		f.layout, _ = arg(0).strVal()
	default:
		return f, "it is the result of " + call.aux
	}
	if arg(textAt) != text {
		return f, "another text is parsed than the given one"
	}
	if got != want {
		return f, fmt.Sprintf("a %s is made of the result of %s", want, call.aux)
	}
	if f.err = e.T.lookup("extract", "1", call); f.err == nil {
		return f, "its error is ignored"
	}
	return f, ""
}

// filled: a new value of the type, set on the path.
func (k *kindCheck) filled(e *Engine, st *State, v, as, text *Term, f parsedForm) (parsedForm, string) {
	nw := v
	if !isCall(v, "reflect.New") {
		nw = v.args[0]
	}
	var set *Event
	for _, it := range st.trace {
		if it.Ev == nil || !strings.HasPrefix(it.Ev.Name, "(reflect.Value).Set") {
			continue
		}
		d := it.Ev.Args[0]
		if (isCall(d, "(reflect.Value).Elem") || isCall(d, "reflect.Indirect")) && d.args[0] == nw {
			if set != nil {
				return f, "it is set twice"
			}
			set = it.Ev
		}
	}
	if set == nil {
		return f, "it is never set"
	}
	x := set.Args[1]
	if set.Name == "(reflect.Value).Set" {
		if v == nw && isCall(nw.args[0], "(reflect.Type).Elem") && nw.args[0].args[0] == as { // a pointer
			if x.op == "extract" && x.aux == "0" && x.args[0].op == "call" {
				c := x.args[0]
				if g, _ := c.obj.(*ssa.Function); g != nil && k.isParser(g) {
					if c.args[paramOf(g, isReflect("Type"))] != nw.args[0] {
						return f, "what the pointer points to is parsed as another type"
					}
					if c.args[paramOf(g, isString)] != text {
						return f, "another text is parsed than the given one"
					}
					if err := e.T.lookup("extract", "1", c); err == nil || !e.isNil(st, err) {
						return f, "parsing what the pointer points to may have failed"
					}
					f.class = "pointer"
					return f, ""
				}
			}
			return f, "what the pointer points to is not parsed"
		}
		if nw.args[0] != as {
			return f, "it is of another type"
		}
		g, why := k.parsedForm(e, st, x, as, text)
		return g, why
	}
	if nw.args[0] != as || v == nw {
		return f, "it is of another type"
	}
	f.conv = true
	switch set.Name {
	case "(reflect.Value).SetBool":
		f.class = "bool"
	case "(reflect.Value).SetInt":
		f.class = "int"
	case "(reflect.Value).SetUint":
		f.class = "uint"
	case "(reflect.Value).SetFloat":
		f.class = "float"
	case "(reflect.Value).SetString":
		f.class = "string"
	default:
		return f, "it is set by " + set.Name
	}
	if c := stripConv(x); f.class == "int" && c.op == "call" && strings.HasPrefix(c.aux, "math.") {
		f.class = "duration"
	}
	return k.content(e, x, text, f)
}

// compare: what is written is parsed by the inverse.
func (k *kindCheck) compare() {
	for _, c := range []string{"bool", "int", "uint", "float", "string", "time", "duration"} {
		w, ok := k.written[c]
		if !ok {
			continue // reported
		}
		p, ok := k.parsed[c]
		k.r.Count("classes compared", 1)
		where := "values of class " + c
		switch {
		case !ok:
			k.r.Violate("inverse", where, k.reader.Pos(), "values of class %s are written but never parsed", c)
		case w.base != p.base:
			k.r.Violate("inverse", where, k.reader.Pos(), "values of class %s are written in base %d and parsed in base %d", c, w.base, p.base)
		case w.layout != p.layout:
			k.r.Violate("inverse", where, k.reader.Pos(), "times are written as %q and parsed as %q", w.layout, p.layout)
		case c == "time" && !exactLayout(w.layout):
			k.r.Violate("inverse", where, k.writer.Pos(), "times are written as %q, without the nanoseconds or the zone", w.layout)
		case w.factor != p.factor:
			k.r.Violate("inverse", where, k.reader.Pos(), "durations are divided by %s when written and multiplied by %s when parsed", w.factor, p.factor)
		}
	}
}

// exactLayout: a layout that keeps the nanoseconds and the zone.
func exactLayout(s string) bool {
	return (strings.Contains(s, ".999999999") || strings.Contains(s, ".000000000")) && (strings.Contains(s, "Z07:00") || strings.Contains(s, "-0700") || strings.Contains(s, "-07:00"))
}

// ---- reading ----

type reading struct {
	*kindCheck
	e                *Engine
	v, t, kv, prefix *Term
	counters         map[*Term]bool  // count what is dropped later
	lengths          map[*Term]int64 // become the length of a slice
	loops            map[string]map[string]bool
	bad              map[string]bool
	round            int
}

func (c *reading) report(pos token.Pos, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if !c.bad[msg] {
		c.bad[msg] = true
		c.r.Violate("reading", fnName(c.reader), pos, "%s", msg)
	}
}

// pairOf: the key/value pair that a string is the key (0) or value (1) of.
func pairOf(t *Term) (base *Term, part int64, ok bool) {
	if t.op != "load" || t.args[0].op != "ia" {
		return nil, 0, false
	}
	part, ok = t.args[0].args[1].intVal()
	base = t.args[0].args[0]
	if !ok || part > 1 || base.typ == nil {
		return nil, 0, false
	}
	a, isArr := deref(base.typ).Underlying().(*types.Array)
	return base, part, isArr && a.Len() == 2 && isString(a.Elem())
}

// pairsIn lists the pairs whose part a term is made of.
func pairsIn(t *Term, part int64) (bases []*Term) {
	t.mentions(func(x *Term) bool {
		if b, p, ok := pairOf(x); ok && p == part {
			bases = append(bases, b)
		}
		return false
	})
	return bases
}

// keysOf: the terms for a pair's key.
func (c *reading) eachKey(st *State, pred func(key, base *Term) bool) bool {
	for f := range st.facts {
		found := false
		f.mentions(func(x *Term) bool {
			if b, p, ok := pairOf(x); ok && p == 0 && pred(x, b) {
				found = true
			}
			return found
		})
		if found {
			return true
		}
	}
	return c.e.empty(st, c.prefix) && pred(nil, nil)
}

func (c *reading) isDotted(t *Term) bool {
	if t.op != "bin" || t.aux != "+" || t.args[0] != c.prefix {
		return false
	}
	s, ok := t.args[1].strVal()
	return ok && s == "."
}

// belongs: the key is known to be the field's or of a part of it.
func (c *reading) belongs(st *State, key *Term) bool {
	if c.e.empty(st, c.prefix) {
		return true
	}
	notLess, notMore := false, false
	for f, v := range st.facts {
		switch {
		case f.op == "eq" && v && (f.args[0] == c.prefix && f.args[1] == key || f.args[1] == c.prefix && f.args[0] == key):
			return true
		case isCall(f, "strings.HasPrefix") && v && f.args[0] == key && c.isDotted(f.args[1]):
			return true
		case f.op == "extract" && v && isCall(f.args[0], "strings.CutPrefix") && f.args[0].args[0] == key && c.isDotted(f.args[0].args[1]):
			return true
		case f.op == "lt" && !v && f.args[0] == key && c.isDotted(f.args[1]):
			notLess = true
		case f.op == "lt" && !v && f.args[1] == key && c.isDotted(f.args[0]):
			notMore = true
		}
	}
	return notLess && notMore
}

// foreign: the key is known not to be the field's.
func (c *reading) foreign(st *State, key *Term) bool {
	for f, v := range st.facts {
		if v {
			if f.op == "lt" && f.args[0] == key && (f.args[1] == c.prefix || c.isDotted(f.args[1])) {
				return true
			}
			continue
		}
		switch {
		case isCall(f, "strings.HasPrefix") && f.args[0] == key && c.isDotted(f.args[1]):
			return true
		case f.op == "extract" && isCall(f.args[0], "strings.CutPrefix") && f.args[0].args[0] == key && c.isDotted(f.args[0].args[1]):
			return true
		}
	}
	return false
}

// passed: the key is known not to come after the field's.
func (c *reading) passed(st *State, key *Term) bool {
	for f, v := range st.facts {
		if f.op != "lt" {
			continue
		}
		if !v && f.args[0] == c.prefix && f.args[1] == key || v && f.args[0] == key && f.args[1] == c.prefix {
			return true
		}
	}
	return false
}

// after: the key is known to come after the field's, and not to be of it.
func (c *reading) after(st *State, key *Term) bool {
	for f, v := range st.facts {
		if f.op == "lt" && (v && f.args[0] == c.prefix && f.args[1] == key || !v && f.args[0] == key && f.args[1] == c.prefix) {
			return c.foreign(st, key)
		}
	}
	return false
}

func (k *kindCheck) read() {
	r, fn := k.r, k.reader
	e := k.engine()
	c := &reading{kindCheck: k, e: e, counters: map[*Term]bool{}, lengths: map[*Term]int64{}, loops: map[string]map[string]bool{}, bad: map[string]bool{}}
	c.v, c.t = e.Param(fn, paramOf(fn, isReflect("Value"))), e.Param(fn, paramOf(fn, isReflect("Type")))
	c.kv, c.prefix = e.Param(fn, paramOf(fn, isKVs)), e.Param(fn, paramOf(fn, isString))
	e.Opaque = func(f *ssa.Function) bool { return k.parsers[f] }
	e.OnEvent = c.event
	e.OnIter = c.iter
	e.OnLeave = c.leave
	e.OnExit = c.exit
	for c.round = 0; c.round < 3; c.round++ {
		e.visited = map[string]bool{}
		e.Run(fn, nil)
	}
	r.Use(e)
	for _, n := range []string{"reading paths", "values set", "keys dropped", "fields read", "parsed texts"} {
		r.Floor(n, 1)
	}
}

// mark notes that the current iteration does something.
func (c *reading) mark(st *State, what string) { st.notes["did:"+what] = "1" }

func (c *reading) event(st *State, ev *Event) {
	c.noteKind(ev)
	e := c.e
	judge := c.round == 2 && !c.absurd(st)
	pos := ev.Site.Pos()
	switch {
	case ev.Kind == "store" && ev.Args[0] == c.kv:
		c.drop(st, ev, judge)
	case ev.Kind == "call" && ev.Rec != nil && c.parsers[ev.Rec]:
		c.mark(st, "parse")
		typ, text := ev.Args[paramOf(ev.Rec, isReflect("Type"))], ev.Args[paramOf(ev.Rec, isString)]
		part := int64(1)
		if isCall(typ, "(reflect.Type).Key") {
			part = 0
		}
		if judge {
			c.r.Count("parsed texts", 1)
			if part == 0 {
				c.stripped(text, pos)
			}
			if len(pairsIn(text, 1-part)) > 0 {
				c.report(pos, "%s", map[int64]string{0: "a map's key is parsed from the value", 1: "a value is parsed from the key"}[part])
			}
		}
		c.use(st, ev, text, part, judge)
	case ev.Kind == "builtin" && ev.Name == "append":
		c.mark(st, "append")
		for _, a := range ev.Res.args[1:] {
			c.collected(st, ev, a, judge)
		}
	case ev.Kind == "store" && ev.Args[0].op != "alloc":
		c.collected(st, ev, ev.Args[1], judge)
	case ev.Kind == "call" && (ev.Name == "(reflect.Type).AssignableTo" || ev.Name == "(reflect.Type).ConvertibleTo" || ev.Name == "(reflect.Value).CanSet" || ev.Name == "sort.IsSorted" || ev.Name == "sort.SliceIsSorted"):
		st.pin(ev.Res)
	case ev.Kind == "call" && ev.Name == "(reflect.Value).Set":
		c.set(st, ev, judge)
	case ev.Kind == "call" && strings.HasPrefix(ev.Name, "(reflect.Value).Set") && ev.Name != "(reflect.Value).SetMapIndex" && judge:
		c.report(pos, "%s is used to set a value, of which it is not known that it fits", ev.Name)
	case ev.Kind == "call" && ev.Name == "(reflect.Value).SetMapIndex":
		c.mark(st, "setmap")
		if !judge {
			return
		}
		c.r.Count("map entries set", 1)
		m := ev.Args[0]
		if !(isCall(m, "reflect.MakeMap") || isCall(m, "reflect.MakeMapWithSize")) || !c.typeOfV(m.args[0]) {
			c.report(pos, "an entry is put in a map that is not a new one of the field's type")
		}
		for i, want := range []string{"(reflect.Type).Key", "(reflect.Type).Elem"} {
			typ, why := c.fromParser(st, ev.Args[i+1])
			if why != "" {
				c.report(pos, "an entry is put in a map %s", why)
			} else if !isCall(typ, want) || !c.typeOfV(typ.args[0]) {
				c.report(pos, "an entry's part is put in a map that was parsed as another type")
			}
		}
	case ev.Kind == "call" && ev.Rec == c.reader:
		c.mark(st, "recurse")
		if judge {
			c.recursion(st, ev)
		}
	case ev.Kind == "call" && (ev.Name == "sort.Sort" || ev.Name == "sort.Stable" || ev.Name == "sort.Slice" || ev.Name == "sort.SliceStable" || ev.Name == "slices.SortFunc"):
		l := stripConv(ev.Args[0])
		if c.byName(e, ev) {
			st.notes[fmt.Sprintf("sorted:%d", l.id)] = "1"
			c.r.Count("sorted lists of fields", 1)
		} else if judge {
			c.report(pos, "the fields are not sorted by the names under which they are written")
		}
	case ev.Kind == "call" && (ev.Name == "(reflect.Value).Index") && judge:
		if i := ev.Args[1]; i.mentions(func(t *Term) bool { return t.op == "call" && strings.HasPrefix(t.aux, "strconv.") }) {
			c.index(st, ev, i)
		}
	case ev.Kind == "call" && ev.Name == "reflect.MakeSlice":
		n := ev.Args[1]
		ok := false
		if l := e.T.lin(n); len(l.coef) == 1 {
			for t, cf := range l.coef {
				if t.op == "loopphi" && cf == 1 {
					c.lengths[t], ok = l.k, true
				}
			}
		}
		if judge {
			c.r.Count("slices made", 1)
			if _, isC := n.intVal(); !ok && !isC {
				c.report(pos, "the length of a slice is not known to cover the indexes read")
			}
			if d := e.T.lin(n).sub(e.T.lin(ev.Args[2])); len(d.coef) != 0 || d.k > 0 {
				c.report(pos, "a slice's length may exceed its capacity")
			}
		}
	}
}

// collected: a value read from the annotations is put aside.
func (c *reading) collected(st *State, ev *Event, a *Term, judge bool) {
	if len(pairsIn(a, 1)) > 0 {
		c.use(st, ev, a, 1, judge)
	}
	if judge {
		a.mentions(func(t *Term) bool {
			if t.op == "extract" && t.aux == "0" && t.args[0].op == "call" && (t.args[0].aux == "strconv.Atoi" || t.args[0].aux == "strconv.ParseInt" || t.args[0].aux == "strconv.ParseUint") {
				c.index(st, ev, t)
			}
			return false
		})
	}
}

// stripped: what is parsed is a key without the part that it shares with the
// field's other keys.
func (c *reading) stripped(text *Term, pos token.Pos) {
	ks := pairsIn(text, 0)
	if len(ks) == 0 {
		return
	}
	e := c.e
	switch {
	case isCall(text, "strings.TrimPrefix") && c.isDotted(text.args[1]):
		return
	case text.op == "extract" && isCall(text.args[0], "strings.CutPrefix") && c.isDotted(text.args[0].args[1]):
		return
	case text.op == "slice" && text.args[1] != nil && !text.args[1].isNil():
		lo := e.T.lin(text.args[1]).sub(e.T.lin(e.T.Len(c.prefix)))
		if len(lo.coef) == 0 && lo.k == 1 {
			return
		}
		for t := range e.T.lin(text.args[1]).coef {
			if t.op == "len" && c.isDotted(t.args[0]) {
				return
			}
		}
	}
	c.report(pos, "the part of a key that names an element is not taken from behind the field's prefix")
}

// use: the text of a pair is read.
func (c *reading) use(st *State, ev *Event, text *Term, part int64, judge bool) {
	for _, b := range pairsIn(text, part) {
		if part == 1 {
			st.notes[fmt.Sprintf("read:%d", b.id)] = "1"
		}
		if !judge {
			continue
		}
		base := b
		if !c.eachKey(st, func(key, kb *Term) bool { return key == nil || kb == base && c.belongs(st, key) }) {
			c.report(ev.Site.Pos(), "an annotation is read for the field without a test that its key belongs to the field")
		}
	}
}

// drop: the list of annotations still to be read is changed.
func (c *reading) drop(st *State, ev *Event, judge bool) {
	e := c.e
	x := ev.Args[1]
	pos := ev.Site.Pos()
	if x.op != "slice" || !(x.args[0].op == "load" && x.args[0].args[0] == c.kv || x.args[0] == e.peek(st, c.kv, deref(c.kv.typ))) || !(x.args[2].isNil()) {
		if judge {
			c.report(pos, "the annotations still to be read are replaced by others")
		}
		return
	}
	if n := x.args[1]; n.op == "loopphi" {
		c.counters[n] = true
		return
	}
	if n, ok := x.args[1].intVal(); !ok || n != 1 {
		if judge {
			c.report(pos, "more annotations may be dropped than were read")
		}
		return
	}
	c.mark(st, "drop")
	if judge {
		c.r.Count("keys dropped", 1)
		c.justified(st, pos)
	}
}

// justified: a key that belongs to the field, or comes before it, may be
// dropped: one that was read if there is one.
func (c *reading) justified(st *State, pos token.Pos) {
	best, rank := "", 0
	var base *Term
	c.eachKey(st, func(key, b *Term) bool {
		if key == nil || st.notes["used:"+fmt.Sprint(key.id)] != "" {
			return false
		}
		n := 0
		switch {
		case c.belongs(st, key) && st.notes[fmt.Sprintf("read:%d", b.id)] != "":
			n = 3
		case c.belongs(st, key):
			n = 1
		case c.passed(st, key):
			n = 2
		}
		if n > rank || n == rank && n > 0 && b.id < base.id {
			best, rank, base = fmt.Sprint(key.id), n, b
		}
		return false
	})
	if rank == 0 && c.e.empty(st, c.prefix) {
		return
	}
	if rank == 0 {
		c.report(pos, "an annotation is dropped that may be one of another field, still to be read")
		return
	}
	st.notes["used:"+best] = "1"
	if rank == 1 {
		st.notes[fmt.Sprintf("unread:%d", base.id)] = "1"
	}
}

// absurd: the type and the value are not known to be of kinds that go
// together, so nothing ever gets here.
func (c *reading) absurd(st *State) bool {
	if c.may(c.e, st, c.t, reflect.Ptr) || c.may(c.e, st, c.t, reflect.Interface) || c.may(c.e, st, c.v, reflect.Ptr) {
		return false
	}
	for kd := reflect.Bool; kd <= reflect.UnsafePointer; kd++ {
		if c.may(c.e, st, c.t, kd) && c.may(c.e, st, c.v, kd) {
			return false
		}
	}
	return true
}

// typeOfV: the type of the value that is read.
func (c *reading) typeOfV(t *Term) bool {
	return t == c.t || isCall(t, "(reflect.Value).Type") && t.args[0] == c.v
}

// fromParser: the type that a value was parsed as, without an error.
func (c *reading) fromParser(st *State, x *Term) (typ *Term, why string) {
	if x.op != "extract" || x.aux != "0" || x.args[0].op != "call" {
		return nil, "that was not parsed"
	}
	g, _ := x.args[0].obj.(*ssa.Function)
	if g == nil || !c.parsers[g] {
		return nil, "that was not parsed"
	}
	err := c.e.T.lookup("extract", "1", x.args[0])
	if err == nil || !c.e.isNil(st, err) {
		return nil, "though parsing it may have failed"
	}
	return x.args[0].args[paramOf(g, isReflect("Type"))], ""
}

func (c *reading) set(st *State, ev *Event, judge bool) {
	c.mark(st, "set")
	st.notes["set"] = "1"
	dst, x := ev.Args[0], ev.Args[1]
	if isCall(x, "reflect.New") {
		st.notes[fmt.Sprintf("pointed:%d", dst.id)] = "1"
	}
	if !judge {
		return
	}
	pos := ev.Site.Pos()
	c.r.Count("values set", 1)
	ofDst := func(t *Term) bool {
		if isCall(t, "(reflect.Value).Type") && t.args[0] == dst || dst == c.v && t == c.t {
			return true
		}
		return isCall(dst, "(reflect.Value).Index") && isCall(t, "(reflect.Type).Elem") && c.typeOfV(t.args[0]) && dst.args[0] == c.v
	}
	switch {
	case isCall(x, "reflect.New"):
		if t := x.args[0]; !isCall(t, "(reflect.Type).Elem") || !ofDst(t.args[0]) {
			c.report(pos, "a pointer is set to a new value of another type")
		}
	case isCall(x, "reflect.MakeMap"), isCall(x, "reflect.MakeMapWithSize"), isCall(x, "reflect.MakeSlice"), isCall(x, "reflect.Zero"):
		if isCall(x, "reflect.Zero") && isCall(dst, "(reflect.Value).Index") {
			c.report(pos, "an element is set that was not parsed")
		}
		if !ofDst(x.args[0]) {
			c.report(pos, "a new collection of another type is set")
		}
	default:
		typ, why := c.fromParser(st, x)
		if why != "" {
			c.report(pos, "a value is set %s", why)
		} else if !ofDst(typ) {
			c.report(pos, "a value is set that was parsed as another type")
		} else if isCall(dst, "(reflect.Value).Index") && !sameIteration(dst.args[1], x) {
			c.report(pos, "an element is set at an index that does not come with its text")
		}
	}
}

// sameIteration: two terms come from the same iteration of a loop.
func sameIteration(a, b *Term) bool {
	return a.mentions(func(t *Term) bool {
		return (t.op == "loopphi" || t.op == "nextk" || t.op == "nextv") && b.has(t)
	})
}

// index: an index from a key is only used within limits.
func (c *reading) index(st *State, ev *Event, i *Term) {
	e := c.e
	pos := ev.Site.Pos()
	c.r.Count("indexes read", 1)
	if i.op == "extract" {
		c.stripped(i.args[0].args[0], pos)
		if err := e.T.lookup("extract", "1", i.args[0]); err == nil || !e.isNil(st, err) {
			c.report(pos, "an index is used though parsing it may have failed")
		}
	}
	if !e.isFalse(st, e.less(i, e.T.Int(0))) {
		c.report(pos, "an index is used that may be negative")
	}
	upper, arr := false, false
	for f, v := range st.facts {
		if f.op != "lt0" {
			continue
		}
		l := f.obj.(linear)
		if cf := l.coef[i]; len(l.coef) == 1 && (v && cf == 1 || !v && cf == -1) {
			upper = true
		} else if len(l.coef) == 2 && (v && cf == 1 || !v && cf == -1) {
			for t := range l.coef {
				if isCall(t, "(reflect.Type).Len") || isCall(t, "(reflect.Value).Len") {
					if ln := t; e.isTrue(st, e.less(i, ln)) {
						arr, upper = true, true
					}
				}
			}
		}
	}
	if !upper {
		c.report(pos, "an index of any size is used: a made-up key decides how much memory is taken")
	}
	if !arr && c.may(e, st, c.v, reflect.Array) && c.may(e, st, c.t, reflect.Array) {
		c.report(pos, "an index is used that may be out of an array's range")
	}
}

func (c *reading) iter(st *State, it *LoopIter) {
	e := c.e
	name := loopName(it.Loop, it.Ctx)
	if c.loops[name] == nil {
		c.loops[name] = map[string]bool{}
	}
	for n := range st.notes {
		if what, ok := strings.CutPrefix(n, "did:"); ok {
			c.loops[name][what] = true
		}
	}
	judge := c.round == 2 && !c.absurd(st)
	pos := it.Site.Pos()
	did := func(s string) bool { return st.notes["did:"+s] != "" }
	for phi, val := range it.Vals {
		if c.counters[phi] && judge {
			d := e.T.lin(val).sub(e.T.lin(phi))
			if len(d.coef) != 0 || d.k < 0 || d.k > 1 {
				c.report(pos, "more annotations may be dropped than were read")
			} else if d.k == 1 {
				c.r.Count("keys dropped", 1)
				c.justified(st, pos)
			}
		}
		if k, ok := c.lengths[phi]; ok && judge {
			c.grows(st, it, phi, val, k)
		}
	}
	if judge {
		if c.loops[name]["recurse"] && !did("recurse") && !c.hidden(e, st, c.v) && !c.invalid(st) {
			c.report(pos, "a field may be left out: it is not read on some path")
		}
		if c.loops[name]["set"] && !did("set") {
			c.report(pos, "an element may be left out: it is not set on some path")
		}
		c.unread(st, pos)
	}
	for n := range st.notes {
		for _, p := range []string{"did:", "used:", "read:", "unread:"} {
			if strings.HasPrefix(n, p) {
				delete(st.notes, n)
			}
		}
	}
}

// invalid: the value looked at is known not to exist.
func (c *reading) invalid(st *State) bool {
	for f, v := range st.facts {
		if !v && (isCall(f, "(reflect.Value).IsValid") || isCall(f, "(reflect.Value).CanSet")) && f.args[0] != c.v {
			return true
		}
	}
	return false
}

// unread: what belongs to the field is dropped only if it was read.
func (c *reading) unread(st *State, pos token.Pos) {
	for n := range st.notes {
		if id, ok := strings.CutPrefix(n, "unread:"); ok && st.notes["read:"+id] == "" {
			c.report(pos, "an annotation of the field is dropped without being read")
		}
	}
}

// grows: what becomes a slice's length keeps up with the indexes.
func (c *reading) grows(st *State, it *LoopIter, phi, val *Term, k int64) {
	e := c.e
	if !e.isFalse(st, e.less(val, phi)) && val != phi {
		c.report(it.Site.Pos(), "a slice's length may shrink while indexes are read")
		return
	}
	for f := range st.facts {
		var idx *Term
		f.mentions(func(t *Term) bool {
			if t.op == "extract" && t.aux == "0" && t.args[0].op == "call" && (t.args[0].aux == "strconv.Atoi" || t.args[0].aux == "strconv.ParseInt") {
				idx = t
			}
			return false
		})
		if idx != nil && !e.isTrue(st, e.less(idx, e.T.Bin(token.ADD, val, e.T.Int(k), val.typ))) && st.notes["did:append"] != "" {
			c.report(it.Site.Pos(), "a slice's length may not cover an index that was read")
			return
		}
	}
	c.r.Count("iterations that read indexes", 1)
}

func (c *reading) leave(st *State, it *LoopIter, whole bool) {
	name := loopName(it.Loop, it.Ctx)
	l := c.loops[name]
	if c.loops[name] == nil {
		return
	}
	if !whole && c.eachKey(st, func(key, base *Term) bool { return key != nil && c.belongs(st, key) && siteInKey(key, it) }) {
		st.notes["left"] = "1"
	}
	switch {
	case l["recurse"]:
		if whole {
			st.notes["fields"] = "1"
		}
	case l["setmap"]:
		st.notes["entries"] = "1"
	case l["set"]:
		if whole {
			st.notes["elements"] = "1"
		}
	}
	for n := range st.notes {
		if strings.HasPrefix(n, "did:") {
			delete(st.notes, n)
		}
	}
}

// siteInKey: the key is one that the loop looks at.
func siteInKey(key *Term, it *LoopIter) bool {
	return key.mentions(func(t *Term) bool {
		return t.op == "loopphi" && t.ctx == it.Ctx && t.site.Block() == it.Loop.header || t.op == "alloc" && siteIn(t.site, t.ctx, it.Loop, it.Ctx)
	})
}

func (c *reading) exit(st *State, x *Exit) {
	e := c.e
	if c.round == 2 && x.Kind == "panic" {
		for f, v := range st.facts {
			if !v && f.op == "call" && strings.HasPrefix(f.aux, "sort.") {
				return // callers pass sorted annotations
			}
		}
		c.report(x.Site.Pos(), "reading may panic")
	}
	if c.round < 2 || x.Kind != "return" || c.absurd(st) {
		return
	}
	c.r.Count("reading paths", 1)
	err := x.Results[len(x.Results)-1]
	if !e.isNil(st, err) {
		return
	}
	pos := x.Site.Pos()
	c.unread(st, pos)
	if st.notes["left"] != "" {
		c.report(pos, "reading ends before the last annotation of the field on some path, without an error")
	}
	for _, f := range []*Term{e.peek(st, c.kv, deref(c.kv.typ))} {
		if e.empty(st, f) {
			return
		}
	}
	for f := range st.facts { // no annotations were left in the beginning
		if f.op == "eq0" && st.facts[f] && f.mentions(func(t *Term) bool { return t.op == "len" && t.args[0].op == "load" && t.args[0].args[0] == c.kv }) && len(f.obj.(linear).coef) == 1 {
			return
		}
	}
	if c.eachKey(st, func(key, base *Term) bool { return key != nil && c.after(st, key) }) && st.notes["set"] == "" {
		return
	}
	if st.notes["set"] != "" || c.tooOther(st) {
		if st.notes["fields"] == "" && st.notes["entries"] == "" && st.notes["elements"] == "" {
			for _, kd := range []reflect.Kind{reflect.Struct} {
				if len(c.known(st, c.v)) == 0 && c.may(e, st, c.t, kd) && c.may(e, st, c.v, kd) {
					c.report(pos, "the fields of a struct are not read on some path")
				}
			}
		}
		return
	}
	need := map[reflect.Kind]string{reflect.Struct: "fields", reflect.Map: "entries", reflect.Slice: "elements", reflect.Array: "elements"}
	for _, kd := range scalarKinds {
		need[kd] = "set"
	}
	for kd := reflect.Bool; kd <= reflect.UnsafePointer; kd++ {
		if n := need[kd]; n != "" && st.notes[n] == "" && c.may(e, st, c.t, kd) && (kd == reflect.Struct || c.may(e, st, c.v, kd)) {
			c.report(pos, "nothing is read for a value of kind %s on some path, though its annotation is there", kd)
			return
		}
	}
}

// tooOther: a parsed value was found not to fit the field.
func (c *reading) tooOther(st *State) bool {
	for f, v := range st.facts {
		if !v && f.op == "call" && (f.aux == "(reflect.Type).AssignableTo" || f.aux == "(reflect.Value).CanSet" || f.aux == "(reflect.Type).ConvertibleTo") {
			return true
		}
	}
	return false
}

// recursion: a call of the reader for a part of the value.
func (c *reading) recursion(st *State, ev *Event) {
	e := c.e
	pos := ev.Site.Pos()
	fn := c.reader
	pre, x, t, kv := ev.Args[paramOf(fn, isString)], ev.Args[paramOf(fn, isReflect("Value"))], ev.Args[paramOf(fn, isReflect("Type"))], ev.Args[paramOf(fn, isKVs)]
	if kv != c.kv {
		c.report(pos, "a part of the value is read from other annotations")
	}
	owner := func(o *Term) bool {
		return o == c.v || (isCall(o, "(reflect.Value).Elem") || isCall(o, "reflect.Indirect")) && o.args[0] == c.v
	}
	switch {
	case isCall(x, "(reflect.Value).FieldByIndex") || isCall(x, "(reflect.Value).Field") || isCall(x, "(reflect.Value).FieldByName") && isFieldsOwnName(x.args[1]):
		c.r.Count("fields read", 1)
		if !owner(x.args[0]) {
			c.report(pos, "the field that is read is not one of the value")
		}
		name := c.nested(e, st, pre, c.prefix)
		if name == nil {
			c.report(pos, "a field is not read under a key below that of the struct")
			return
		}
		f := fieldSource(x.args[1])
		if f == nil {
			f = x.args[1]
		}
		if !sameField(name, f) || c.nameOf(e, st, name) == nil {
			c.report(pos, "a field is not read under its own name")
		}
		if !(isCall(t, "(reflect.Value).Type") && t.args[0] == x) && !sameField(t, f) {
			c.report(pos, "a field is not read as its own type")
		}
		if l := listOf(f); l == nil || st.notes[fmt.Sprintf("sorted:%d", l.id)] == "" {
			c.report(pos, "the fields are not read in the order of their names, in which the annotations are")
		}
	case x == c.v:
		if pre != c.prefix {
			c.report(pos, "the value is read under another key")
		}
		if t != c.t && !(isCall(t, "(reflect.Type).Elem") && t.args[0] == c.t) && !(isCall(t, "(reflect.Value).Type") && t.args[0] == c.v) {
			c.report(pos, "the value is read as another type")
		}
		if t == c.t && st.notes["did:drop"] == "" {
			c.report(pos, "reading the value may never end")
		}
	case isCall(x, "(reflect.Value).Elem") && x.args[0] == c.v:
		if pre != c.prefix {
			c.report(pos, "what is pointed to is read under another key")
		}
		if c.may(e, st, c.v, reflect.Interface) {
			el := c.elemOf(e, c.v)
			for kd := reflect.Bool; kd <= reflect.UnsafePointer; kd++ {
				if c.may(e, st, c.v, reflect.Interface, func(s *State) bool {
					return c.may(e, s, el, kd) && (kd != reflect.Ptr || c.mayNil(e, el)(s))
				}) {
					c.report(pos, "what an interface holds is read into where it may be nil or no pointer")
					break
				}
			}
		}
		if c.may(e, st, c.v, reflect.Ptr, c.mayNil(e, c.v)) && c.may(e, st, c.t, reflect.Ptr) && st.notes[fmt.Sprintf("pointed:%d", c.v.id)] == "" {
			c.report(pos, "what a pointer points to is read into where it may be nil")
		}
	default:
		c.report(pos, "the value that is read is not a part of the given one")
	}
}

// isFieldsOwnName: the name that a field has in its type (not its tag).
func isFieldsOwnName(t *Term) bool {
	return fieldSource(t) != nil && (t.op == "field" || t.op == "load" && t.args[0].op == "fa" && t.args[0].obj.(*types.Var).Name() == "Name") &&
		!t.mentions(func(x *Term) bool { return isCall(x, "(reflect.StructTag).Get") })
}

// fieldSource: the struct field that a part of a StructField belongs to: an
// element of a list, or the result of Type.Field.
func fieldSource(t *Term) (src *Term) {
	t.mentions(func(x *Term) bool {
		if src == nil && (isCall(x, "(reflect.Type).Field") || x.op == "ia" && isStructField(x.typ)) {
			src = x
		}
		return src != nil
	})
	return src
}

func isStructField(t types.Type) bool { return t != nil && typeIs(deref(t), "reflect.StructField") }

// sameField: a name or type that is taken from that field.
func sameField(t, f *Term) bool {
	s := fieldSource(t)
	if s == f {
		return s != nil
	}
	return s != nil && isCall(s, "(reflect.Type).Field") && s.args[1] == f
}

// listOf is the list that a field is an element of.
func listOf(f *Term) *Term {
	if f.op == "ia" {
		return f.args[0]
	}
	return nil
}

// byName: a sort by the names under which fields are written.
func (c *reading) byName(e *Engine, ev *Event) bool {
	return c.less(e, ev, func(le *Engine, st *State, t, list, idx *Term) bool {
		f := c.nameOf(le, st, t)
		return f != nil && f.op == "ia" && (list == nil || f.args[0] == list) && f.args[1] == idx
	})
}

// byKey: a sort of key/value pairs by key.
func (k *kindCheck) byKey(e *Engine, ev *Event) bool {
	return k.less(e, ev, func(le *Engine, st *State, t, list, idx *Term) bool {
		b, part, ok := pairOf(t)
		return ok && part == 0 && b.op == "ia" && (list == nil || b.args[0] == list) && b.args[1] == idx
	})
}

// less checks the function by which a sort compares: true exactly if the key
// of the first element is less than that of the second.
func (k *kindCheck) less(e *Engine, ev *Event, isKey func(le *Engine, st *State, t, list, idx *Term) bool) bool {
	var fn *ssa.Function
	x := ev.Args[0]
	switch ev.Name {
	case "sort.Sort", "sort.Stable", "sort.IsSorted":
		if x.op != "mkiface" {
			return false
		}
		fn = k.p.SSA[""].Prog.LookupMethod(x.obj.(types.Type), nil, "Less")
	case "sort.Slice", "sort.SliceStable", "sort.SliceIsSorted":
		f := ev.Args[1]
		if f.op != "closure" && f.op != "func" {
			return false
		}
		fn = f.obj.(*ssa.Function)
	}
	if fn == nil || len(fn.Params) < 2 {
		return false
	}
	kindsOf := k.kindsOf // terms of the engine that is running
	defer func() { k.kindsOf = kindsOf }()
	le := k.engine()
	n := len(fn.Params)
	i, j := le.Param(fn, n-2), le.Param(fn, n-1)
	var list *Term
	if n == 3 {
		list = le.Param(fn, 0)
	}
	paths, ok := 0, true
	le.OnExit = func(st *State, x *Exit) {
		if x.Kind != "return" {
			ok = false
			return
		}
		paths++
		res, neg := x.Results[0], false
		if b, isC := res.boolVal(); isC { // decided by a comparison on the path
			res = nil
			for f, v := range st.facts {
				if f.op == "lt" && v == b {
					res = f
				}
			}
		}
		if res != nil && res.op == "not" {
			res, neg = res.args[0], true
		}
		if res == nil || neg || res.op != "lt" || !isKey(le, st, res.args[0], list, i) || !isKey(le, st, res.args[1], list, j) {
			ok = false
		}
	}
	le.Run(fn, nil)
	k.r.Use(le)
	return ok && paths > 0
}

// nameOf: the field of which a term is the name: its tag if there is one, and
// else its own name.
func (k *kindCheck) nameOf(e *Engine, st *State, t *Term) *Term {
	f := fieldSource(t)
	if f == nil {
		return nil
	}
	tagOf := func() *Term {
		for i := len(e.T.all) - 1; i >= 0; i-- {
			if x := e.T.all[i]; isCall(x, "(reflect.StructTag).Get") && fieldSource(x.args[0]) == f {
				return x
			}
		}
		return nil
	}
	get := tagOf()
	if get == nil {
		return nil
	}
	if s, ok := get.args[1].strVal(); ok {
		k.tag[s] = true
	}
	if t == get {
		if e.isFalse(st, e.T.Eq(e.T.Len(get), e.T.Int(0))) {
			return f
		}
		return nil
	}
	isName := t.op == "field" && t.obj != nil && t.obj.(*types.Var).Name() == "Name" || t.op == "load" && t.args[0].op == "fa" && t.args[0].obj.(*types.Var).Name() == "Name"
	if isName && e.empty(st, get) {
		return f
	}
	return nil
}

// fields checks the loops over the fields of a struct type: exported ones are
// kept, under their name, and no others.
func (k *kindCheck) fields() {
	r := k.r
	seen := map[*ssa.Function]bool{}
	for _, fn := range k.p.srcFn {
		if fn.Pkg != k.reader.Pkg || seen[fn] || !callsNamed(fn, "(reflect.Type).Field") && !invokes(fn, "Field", "reflect.Type") {
			continue
		}
		seen[fn] = true
		k.fieldLoop(fn)
	}
	r.Require(len(seen) > 0, "anchor", "a loop over the fields of a struct type")
	if len(k.tag) > 1 {
		r.Violate("names", "field names", k.reader.Pos(), "fields are named by different tags: %v", sortedNames(k.tag))
	}
	r.Floor("kept fields", 2)
	r.Floor("fields left out", 2)
}

func sortedNames(m map[string]bool) (l []string) {
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// invokes: the function calls the method of the interface.
func invokes(fn *ssa.Function, method, iface string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == method && typeIs(c.Common().Value.Type(), iface) {
				return true
			}
		}
	}
	return false
}

func callsNamed(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && fnName(c.Common().StaticCallee()) == name {
				return true
			}
		}
	}
	return false
}

func (k *kindCheck) fieldLoop(fn *ssa.Function) {
	r := k.r
	e := k.engine()
	bad := map[string]bool{}
	report := func(pos token.Pos, format string, args ...any) {
		msg := fmt.Sprintf(format, args...)
		if !bad[msg] {
			bad[msg] = true
			r.Violate("fields", fnName(fn), pos, "%s", msg)
		}
	}
	loops := map[string]bool{}
	round := 0
	e.Opaque = func(f *ssa.Function) bool { return k.parsers[f] || f == k.reader || f == k.writer }
	kept := func(st *State, x *Term) {
		if f := fieldSource(x); f != nil && isCall(f, "(reflect.Type).Field") {
			st.notes["kept"] = "1"
		}
	}
	e.OnEvent = func(st *State, ev *Event) {
		if ev.Kind == "call" && ev.Name == "(reflect.Type).Field" {
			st.notes["field"] = fmt.Sprint(ev.Res.id)
			st.pin(ev.Res)
		}
		switch {
		case ev.Kind == "mapupdate":
			m := ev.Args[0]
			for _, a := range ev.Args[1:] {
				kept(st, a)
			}
			if round == 0 {
				return
			}
			if len(ev.Args) > 2 && isString(ev.Args[2].typ) {
				if f := fieldSource(ev.Args[2]); f != nil {
					if k.nameOf(e, st, ev.Args[2]) != f {
						report(ev.Site.Pos(), "a field is not noted under its own name")
					}
					if isCall(f, "(reflect.Type).Field") && f.args[1] != ev.Args[1] {
						report(ev.Site.Pos(), "a field's name is noted for another field")
					}
				}
			}
			if m.op == "load" && m.args[0].op == "global" {
				mt := deref(m.args[0].typ).Underlying().(*types.Map)
				if _, isMap := mt.Elem().Underlying().(*types.Map); isMap {
					r.Count("cached field names", 1)
					if !typeIs(mt.Key(), "reflect.Type") {
						report(ev.Site.Pos(), "the names of a type's fields are kept under a key that other types may have, too")
					}
				}
			}
		case ev.Kind == "builtin" && ev.Name == "append" && ev.Res != nil:
			for _, a := range ev.Res.args[1:] {
				kept(st, a)
			}
		case ev.Kind == "call" && (ev.Rec == k.reader || ev.Rec == k.writer):
			for _, a := range ev.Args {
				kept(st, a)
				if isCall(a, "(reflect.Value).Field") {
					st.notes["kept"] = "1"
				}
			}
		}
	}
	e.OnIter = func(st *State, it *LoopIter) {
		name := loopName(it.Loop, it.Ctx)
		if st.notes["field"] != "" {
			loops[name] = true
			if round > 0 {
				pos := it.Site.Pos()
				isKept := st.notes["kept"] != ""
				switch {
				case k.exported(e, st, "true"):
					r.Count("kept fields", 1)
					if !isKept {
						report(pos, "an exported field may be left out")
					}
				case k.exported(e, st, "false"):
					r.Count("fields left out", 1)
					if isKept {
						report(pos, "an unexported field is not left out: reading its value panics")
					}
				default:
					report(pos, "it is not tested whether a field is exported: reading an unexported one's value panics")
				}
			}
		} else if loops[name] && round > 0 {
			report(it.Site.Pos(), "a field may be left out")
		}
		delete(st.notes, "field")
		delete(st.notes, "kept")
	}
	e.OnLeave = func(st *State, it *LoopIter, whole bool) {
		if !loops[loopName(it.Loop, it.Ctx)] || round == 0 {
			return
		}
		if !whole || !k.boundedWalk(e, st, it, nil) {
			report(it.Site.Pos(), "the walk over a type's fields may not begin with the first or not reach the last one")
		}
	}
	for round = 0; round < 2; round++ {
		e.visited = map[string]bool{}
		e.Run(fn, nil)
	}
	r.Use(e)
}

// entry checks the calls of the reader from outside: the annotations it is
// given are sorted, and are all there.
func (k *kindCheck) entry() {
	r := k.r
	inside := map[*ssa.Function]bool{k.reader: true}
	for f := range k.p.reachedFrom(k.reader) {
		inside[f] = true
	}
	for _, fn := range k.p.srcFn {
		if inside[fn] || !callsNamed(fn, fnName(k.reader)) {
			continue
		}
		e := k.engine()
		bad := map[string]bool{}
		report := func(pos token.Pos, format string, args ...any) {
			msg := fmt.Sprintf(format, args...)
			if !bad[msg] {
				bad[msg] = true
				r.Violate("entry", fnName(fn), pos, "%s", msg)
			}
		}
		pairs := map[string]bool{}
		round := 0
		e.Opaque = func(f *ssa.Function) bool { return f == k.reader || k.parsers[f] }
		e.OnEvent = func(st *State, ev *Event) {
			switch {
			case ev.Kind == "call" && (ev.Name == "sort.Sort" || ev.Name == "sort.Stable" || ev.Name == "sort.Slice" || ev.Name == "sort.SliceStable"):
				if k.byKey(e, ev) {
					st.notes[fmt.Sprintf("sorted:%d", stripConv(ev.Args[0]).id)] = "1"
				}
			case ev.Kind == "builtin" && ev.Name == "append" && ev.Res != nil:
				for _, a := range ev.Res.args[1:] {
					if a.op == "array" && len(a.args) == 2 && a.args[0].op == "nextk" && a.args[1].op == "nextv" {
						st.notes["pair"] = "1"
					}
				}
			case ev.Kind == "call" && ev.Rec == k.reader && round > 0:
				r.Count("calls of the reader", 1)
				kv := ev.Args[paramOf(k.reader, isKVs)]
				l := e.peek(st, kv, deref(kv.typ))
				if st.notes[fmt.Sprintf("sorted:%d", l.id)] == "" {
					report(ev.Site.Pos(), "the annotations may not be sorted by key, which makes the reader panic")
				}
				if st.notes["all"] == "" {
					report(ev.Site.Pos(), "some annotations may not be given to the reader")
				}
				if s, ok := ev.Args[paramOf(k.reader, isString)].strVal(); !ok || s != "" {
					report(ev.Site.Pos(), "the event's annotations are read as if they were a part of it")
				}
			}
		}
		e.OnIter = func(st *State, it *LoopIter) {
			name := loopName(it.Loop, it.Ctx)
			if st.notes["pair"] != "" {
				pairs[name] = true
			} else if pairs[name] && round > 0 {
				report(it.Site.Pos(), "an annotation may be left out")
			}
			delete(st.notes, "pair")
		}
		e.OnLeave = func(st *State, it *LoopIter, whole bool) {
			if pairs[loopName(it.Loop, it.Ctx)] && whole {
				st.notes["all"] = "1"
			}
		}
		for round = 0; round < 2; round++ {
			e.visited = map[string]bool{}
			e.Run(fn, nil)
		}
		r.Use(e)
	}
	r.Floor("calls of the reader", 1)
}

// reachedFrom: the functions that a function calls, directly or not.
func (p *Program) reachedFrom(fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(*ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, _ := (*op).(*ssa.Function)
					if g == nil || g.Pkg != fn.Pkg || seen[g] {
						continue
					}
					seen[g] = true
					visit(g)
				}
			}
		}
	}
	visit(fn)
	return seen
}
