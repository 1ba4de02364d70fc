package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- constant propagation through set-up code ----
//
// Lits follows the paths of set-up code (route tables, template sets) with
// what is constant in it: strings, numbers, functions, and the structs,
// slices and maps built from them. Anything else is unknown, and a branch on
// something unknown is followed both ways. Loops over known lists are
// followed element by element.

type (
	lAny interface{}

	// lObj is a memory location, perhaps with parts.
	lObj struct {
		typ  types.Type
		val  lAny
		kids map[int]*lObj
		all  lAny // what its parts are, unless known one by one
	}
	lNil   struct{}
	lAgg   struct{ kids map[int]lAny } // a struct or an array, by value
	lSlice struct {
		arr    *lObj
		lo, hi int
	}
	lMap struct {
		keys []lAny
		vals []lAny
	}
	lIter struct {
		m *lMap
		i int
	}
	lFn struct {
		fn    *ssa.Function
		binds []lAny
	}
	// lAs is a value as (a conversion to) a type other than a basic one.
	lAs struct {
		typ types.Type
		v   lAny
	}
	// lCall is the result of a call of a function that is not followed.
	lCall struct {
		name string
		args []lAny
		site ssa.Instruction
	}
	lTuple []lAny
)

type Lits struct {
	P      *Program
	Follow func(*ssa.Function) bool
	// Call models a call of a function that is not followed; nil: unknown.
	Call func(name string, args []lAny, site ssa.Instruction) (lAny, bool)

	globals map[*ssa.Global]*lObj
	inited  map[*ssa.Package]bool
	nils    map[*lCall]bool // what is known of results
	choices []bool
	next    int
	steps   int
	failed  string
}

func NewLits(p *Program) *Lits { return &Lits{P: p, nils: map[*lCall]bool{}} }

// Paths follows every path of a computation.
func (l *Lits) Paths(run func(), done func()) error {
	l.choices = nil
	for n := 0; ; n++ {
		if n > 4096 {
			return fmt.Errorf("too many paths")
		}
		l.globals, l.inited = map[*ssa.Global]*lObj{}, map[*ssa.Package]bool{}
		l.next, l.steps, l.failed, l.nils = 0, 0, "", map[*lCall]bool{}
		run()
		if l.failed != "" && l.failed != "panic" {
			return fmt.Errorf("%s", l.failed)
		}
		if l.failed == "" {
			done()
		}
		l.choices = l.choices[:min(l.next, len(l.choices))]
		for len(l.choices) > 0 && l.choices[len(l.choices)-1] {
			l.choices = l.choices[:len(l.choices)-1]
		}
		if len(l.choices) == 0 {
			return nil
		}
		l.choices[len(l.choices)-1] = true
	}
}

func (l *Lits) choose() bool {
	if l.next == len(l.choices) {
		l.choices = append(l.choices, false)
	}
	l.next++
	return l.choices[l.next-1]
}

func (l *Lits) fail(why string) {
	if l.failed == "" {
		l.failed = why
	}
}

// lBare strips conversions.
func lBare(v lAny) lAny {
	for {
		a, ok := v.(*lAs)
		if !ok {
			return v
		}
		v = a.v
	}
}

func lStr(v lAny) (string, bool) {
	s, ok := lBare(v).(string)
	return s, ok
}

func (o *lObj) kid(i int) *lObj {
	if o.kids == nil {
		o.kids = map[int]*lObj{}
	}
	k := o.kids[i]
	if k == nil {
		k = &lObj{}
		if o.typ != nil {
			switch u := o.typ.Underlying().(type) {
			case *types.Struct:
				if i < u.NumFields() {
					k.typ = u.Field(i).Type()
				}
			case *types.Array:
				k.typ = u.Elem()
			}
			if k.typ != nil && !lComposite(k.typ) {
				k.val = lZero(k.typ)
			}
		}
		if o.all != nil {
			k.val = o.all
		}
		o.kids[i] = k
	}
	return k
}

func lComposite(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func lZero(t types.Type) lAny {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		}
		return nil
	case *types.Struct:
		a := &lAgg{kids: map[int]lAny{}}
		for i := 0; i < u.NumFields(); i++ {
			a.kids[i] = lZero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		return nil
	}
	return lNil{}
}

func (o *lObj) load() lAny {
	if o.typ != nil && lComposite(o.typ) && o.val == nil && o.all == nil {
		n := 0
		switch u := o.typ.Underlying().(type) {
		case *types.Struct:
			n = u.NumFields()
		case *types.Array:
			n = int(u.Len())
		}
		a := &lAgg{kids: map[int]lAny{}}
		if n <= 4096 {
			for i := 0; i < n; i++ {
				a.kids[i] = o.kid(i).load()
			}
		}
		return a
	}
	return o.val
}

func (o *lObj) store(v lAny) {
	a, ok := v.(*lAgg)
	if !ok {
		o.val, o.kids = v, nil
		if v == nil && o.typ != nil && lComposite(o.typ) {
			o.all = &lCall{name: "unknown"}
		}
		return
	}
	o.val, o.kids, o.all = nil, nil, nil
	for i, k := range a.kids {
		o.kid(i).store(k)
	}
}

type lFrame struct {
	env   map[ssa.Value]lAny
	binds []lAny
	defs  []func()
}

// Run follows a function; a path ends at its return.
func (l *Lits) Run(fn *ssa.Function, args, binds []lAny) lAny { return l.run(fn, args, binds, 0) }

func (l *Lits) run(fn *ssa.Function, args, binds []lAny, depth int) lAny {
	if depth > 12 {
		l.fail("calls nest too deeply")
	}
	f := &lFrame{env: map[ssa.Value]lAny{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			f.env[fv] = binds[i]
		}
	}
	if len(fn.Blocks) == 0 {
		return nil
	}
	var prev *ssa.BasicBlock
	b := fn.Blocks[0]
	unknown, last := map[*ssa.BasicBlock]int{}, map[*ssa.BasicBlock]int{}
	rounds, seen := 0, map[*ssa.BasicBlock]int{}
	for l.failed == "" {
		phis := map[*ssa.Phi]lAny{}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range b.Preds {
				if p == prev {
					phis[phi] = l.value(f, phi.Edges[i])
				}
			}
		}
		for phi, v := range phis {
			f.env[phi] = v
		}
		nextBlock := (*ssa.BasicBlock)(nil)
		for _, in := range b.Instrs {
			if l.steps++; l.steps > 200000 {
				l.fail("too many steps")
			}
			if l.failed != "" {
				return nil
			}
			switch in := in.(type) {
			case *ssa.Phi:
			case *ssa.If:
				taken := 1
				if c, ok := lBare(l.value(f, in.Cond)).(bool); ok {
					if c {
						taken = 0
					}
					if lSteps(in.Cond, 4) && lReaches(b, b) {
						rounds++ // of a loop that is known
					}
				} else {
					unknown[b]++
					again := rounds > seen[b]
					seen[b] = rounds
					if unknown[b] > 3 && again {
						taken = last[b]
						for i, s := range b.Succs {
							if lReaches(s, b) && !lReaches(b.Succs[1-i], b) {
								taken = i
							}
						}
					} else if unknown[b] > 3 {
						taken = -1
						for i, s := range b.Succs { // leave the loop
							if !lReaches(s, b) {
								taken = i
							}
						}
						if taken < 0 {
							l.fail("panic") // another path covers what follows
							return nil
						}
					} else if l.choose() {
						taken = 0
					}
					last[b] = taken
					if cmp, ok := in.Cond.(*ssa.BinOp); ok {
						if c := lNilTest(cmp.Op, lBare(l.value(f, cmp.X)), lBare(l.value(f, cmp.Y))); c != nil {
							l.nils[c] = (taken == 0) == (cmp.Op == token.EQL)
						}
					}
				}
				nextBlock = b.Succs[taken]
			case *ssa.Jump:
				nextBlock = b.Succs[0]
			case *ssa.Return:
				var out lTuple
				for _, r := range in.Results {
					out = append(out, l.value(f, r))
				}
				if len(out) == 1 {
					return out[0]
				}
				return out
			case *ssa.Panic:
				l.fail("panic")
				return nil
			case *ssa.RunDefers:
				for i := len(f.defs) - 1; i >= 0; i-- {
					f.defs[i]()
				}
				f.defs = nil
			case *ssa.Defer:
				c, vals := in, l.operands(f, &in.Call)
				f.defs = append(f.defs, func() { l.call(f, &c.Call, vals, c, depth) })
			case *ssa.Go:
			case *ssa.Store:
				if o, ok := l.value(f, in.Addr).(*lObj); ok {
					o.store(l.value(f, in.Val))
				}
			case *ssa.MapUpdate:
				if m, ok := lBare(l.value(f, in.Map)).(*lMap); ok {
					m.set(l.value(f, in.Key), l.value(f, in.Value))
				}
			case *ssa.Send, *ssa.DebugRef:
			case ssa.Value:
				f.env[in] = l.instr(f, in, depth)
			}
		}
		if nextBlock == nil {
			return nil
		}
		prev, b = b, nextBlock
	}
	return nil
}

// lSteps: a condition that changes from one round of a loop to the next.
func lSteps(v ssa.Value, depth int) bool {
	switch v := v.(type) {
	case *ssa.Phi, *ssa.Next:
		return true
	case ssa.Instruction:
		if depth > 0 {
			for _, op := range v.Operands(nil) {
				if *op != nil && lSteps(*op, depth-1) {
					return true
				}
			}
		}
	}
	return false
}

// lReaches: from one block, another (or again the same) comes later.
func lReaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(*ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == to && len(seen) > 0 {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

func (m *lMap) set(k, v lAny) {
	for i, o := range m.keys {
		if lKey(o) == lKey(k) {
			m.vals[i] = v
			return
		}
	}
	m.keys, m.vals = append(m.keys, k), append(m.vals, v)
}

func lKey(v lAny) string {
	switch v := lBare(v).(type) {
	case string, int64, bool:
		return fmt.Sprintf("%T:%v", v, v)
	default:
		return fmt.Sprintf("%p", v)
	}
}

func (l *Lits) value(f *lFrame, v ssa.Value) lAny {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if lComposite(v.Type()) {
				return lZero(v.Type())
			}
			if _, ok := v.Type().Underlying().(*types.TypeParam); ok {
				return nil
			}
			return lNil{}
		}
		var c lAny
		switch v.Value.Kind() {
		case constant.String:
			c = constant.StringVal(v.Value)
		case constant.Bool:
			c = constant.BoolVal(v.Value)
		case constant.Int:
			if i, ok := constant.Int64Val(v.Value); ok {
				c = i
			}
		}
		if c == nil {
			return nil
		}
		return c
	case *ssa.Function:
		return &lFn{fn: v}
	case *ssa.Global:
		return l.global(v)
	}
	return f.env[v]
}

// global is a package variable, as initialised.
func (l *Lits) global(g *ssa.Global) lAny {
	if o := l.globals[g]; o != nil {
		return o
	}
	o := &lObj{typ: g.Type().(*types.Pointer).Elem()}
	l.globals[g] = o
	if g.Pkg != nil && !l.inited[g.Pkg] && l.P.inPkg[g.Pkg.Pkg] {
		l.inited[g.Pkg] = true
		l.initialise(g.Pkg)
	}
	return o
}

// initialise follows the initialisation of a package's variables.
func (l *Lits) initialise(p *ssa.Package) {
	fn := p.Func("init")
	if fn == nil {
		return
	}
	f := &lFrame{env: map[ssa.Value]lAny{}}
	for _, b := range fn.Blocks { // straight-line code, apart from its guard
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if o, ok := l.value(f, in.Addr).(*lObj); ok {
					o.store(l.value(f, in.Val))
				}
			case *ssa.MapUpdate:
				if m, ok := lBare(l.value(f, in.Map)).(*lMap); ok {
					m.set(l.value(f, in.Key), l.value(f, in.Value))
				}
			case *ssa.Call:
				if g := in.Call.StaticCallee(); g == nil || g.Name() != "init" {
					f.env[in] = l.instr(f, in, 1)
				}
			case ssa.Value:
				f.env[in] = l.instr(f, in, 1)
			}
		}
	}
}

func (l *Lits) operands(f *lFrame, c *ssa.CallCommon) (args []lAny) {
	for _, a := range c.Args {
		args = append(args, l.value(f, a))
	}
	return args
}

func (l *Lits) instr(f *lFrame, v ssa.Value, depth int) lAny {
	switch v := v.(type) {
	case *ssa.Alloc:
		t := v.Type().(*types.Pointer).Elem()
		o := &lObj{typ: t}
		if !lComposite(t) {
			o.val = lZero(t)
		}
		return o
	case *ssa.FieldAddr:
		if o, ok := l.value(f, v.X).(*lObj); ok {
			return o.kid(v.Field)
		}
	case *ssa.Field:
		if a, ok := l.value(f, v.X).(*lAgg); ok {
			return a.kids[v.Field]
		}
	case *ssa.IndexAddr:
		i, ok := lBare(l.value(f, v.Index)).(int64)
		switch x := lBare(l.value(f, v.X)).(type) {
		case *lObj:
			if ok {
				return x.kid(int(i))
			}
		case *lSlice:
			if ok && x.lo+int(i) < x.hi {
				return x.arr.kid(x.lo + int(i))
			}
		}
	case *ssa.Index:
		if a, ok := l.value(f, v.X).(*lAgg); ok {
			if i, ok := lBare(l.value(f, v.Index)).(int64); ok {
				return a.kids[int(i)]
			}
		}
	case *ssa.UnOp:
		x := l.value(f, v.X)
		switch v.Op {
		case token.MUL:
			if o, ok := x.(*lObj); ok {
				return o.load()
			}
		case token.NOT:
			if b, ok := lBare(x).(bool); ok {
				return !b
			}
		}
	case *ssa.Slice:
		x := lBare(l.value(f, v.X))
		lo, hi := 0, -1
		if v.Low != nil {
			i, ok := lBare(l.value(f, v.Low)).(int64)
			if !ok {
				return nil
			}
			lo = int(i)
		}
		if v.High != nil {
			i, ok := lBare(l.value(f, v.High)).(int64)
			if !ok {
				return nil
			}
			hi = int(i)
		}
		switch x := x.(type) {
		case *lObj:
			if a, ok := derefType(v.X.Type()).Underlying().(*types.Array); ok {
				if hi < 0 {
					hi = int(a.Len())
				}
				return &lSlice{x, lo, hi}
			}
		case *lSlice:
			if hi < 0 {
				hi = x.hi - x.lo
			}
			return &lSlice{x.arr, x.lo + lo, x.lo + hi}
		case string:
			if hi < 0 {
				hi = len(x)
			}
			if lo <= hi && hi <= len(x) {
				return x[lo:hi]
			}
		}
	case *ssa.MakeSlice:
		n, ok := lBare(l.value(f, v.Len)).(int64)
		if ok && n <= 4096 {
			el := v.Type().Underlying().(*types.Slice).Elem()
			return &lSlice{&lObj{typ: types.NewArray(el, n)}, 0, int(n)}
		}
	case *ssa.MakeMap:
		return &lMap{}
	case *ssa.Lookup:
		if m, ok := lBare(l.value(f, v.X)).(*lMap); ok {
			k := l.value(f, v.Index)
			if k == nil {
				return nil
			}
			var val lAny
			found := false
			for i, o := range m.keys {
				if lKey(o) == lKey(k) {
					val, found = m.vals[i], true
				}
			}
			if !found {
				val = lZero(v.X.Type().Underlying().(*types.Map).Elem())
			}
			if v.CommaOk {
				return lTuple{val, found}
			}
			return val
		}
	case *ssa.Range:
		if m, ok := lBare(l.value(f, v.X)).(*lMap); ok {
			return &lIter{m: m}
		}
	case *ssa.Next:
		if it, ok := l.value(f, v.Iter).(*lIter); ok {
			if it.i < len(it.m.keys) {
				it.i++
				return lTuple{true, it.m.keys[it.i-1], it.m.vals[it.i-1]}
			}
			return lTuple{false, nil, nil}
		}
	case *ssa.Extract:
		switch t := l.value(f, v.Tuple).(type) {
		case lTuple:
			if v.Index < len(t) {
				return t[v.Index]
			}
		case *lCall:
			return &lCall{fmt.Sprintf("%s#%d", t.name, v.Index), t.args, t.site}
		}
		return nil
	case *ssa.MakeClosure:
		fn := &lFn{fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			fn.binds = append(fn.binds, l.value(f, b))
		}
		return fn
	case *ssa.ChangeType:
		return &lAs{v.Type(), l.value(f, v.X)}
	case *ssa.Convert:
		x := l.value(f, v.X)
		if _, ok := v.Type().Underlying().(*types.Basic); ok {
			switch lBare(x).(type) {
			case string, int64:
				if basicKind(v.Type()) == basicKind(v.X.Type()) || basicKind(v.Type()) != basicKind(types.Typ[types.String]) {
					return x
				}
			case *lCall:
				return x
			}
			return nil
		}
		return &lAs{v.Type(), x}
	case *ssa.MakeInterface:
		return &lAs{v.X.Type(), l.value(f, v.X)}
	case *ssa.ChangeInterface:
		return l.value(f, v.X)
	case *ssa.TypeAssert:
		x := l.value(f, v.X)
		if a, ok := x.(*lAs); ok {
			same := types.Identical(a.typ, v.AssertedType)
			if types.IsInterface(v.AssertedType) {
				same = types.Implements(a.typ, v.AssertedType.Underlying().(*types.Interface))
				if v.CommaOk {
					return lTuple{x, same}
				}
				return x
			}
			if v.CommaOk {
				return lTuple{a.v, same}
			}
			return a.v
		}
	case *ssa.BinOp:
		x, y := lBare(l.value(f, v.X)), lBare(l.value(f, v.Y))
		if c := lNilTest(v.Op, x, y); c != nil {
			if isNil, ok := l.nils[c]; ok {
				return isNil == (v.Op == token.EQL)
			}
		}
		return lBin(v.Op, x, y)
	case *ssa.Call:
		return l.call(f, &v.Call, l.operands(f, &v.Call), v, depth)
	}
	return nil
}

// lNilTest: a comparison of what a call returned with nil.
func lNilTest(op token.Token, x, y lAny) *lCall {
	if op != token.EQL && op != token.NEQ {
		return nil
	}
	if _, ok := x.(lNil); ok {
		x, y = y, x
	}
	if _, ok := y.(lNil); !ok {
		return nil
	}
	c, _ := x.(*lCall)
	return c
}

func lBin(op token.Token, x, y lAny) lAny {
	switch a := x.(type) {
	case string:
		b, ok := y.(string)
		if !ok {
			return nil
		}
		switch op {
		case token.ADD:
			return a + b
		case token.EQL:
			return a == b
		case token.NEQ:
			return a != b
		case token.LSS:
			return a < b
		}
	case int64:
		b, ok := y.(int64)
		if !ok {
			return nil
		}
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.EQL:
			return a == b
		case token.NEQ:
			return a != b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case bool:
		if b, ok := y.(bool); ok {
			switch op {
			case token.EQL:
				return a == b
			case token.NEQ:
				return a != b
			}
		}
	case lNil:
		if op == token.EQL || op == token.NEQ {
			if _, ok := y.(lNil); ok {
				return op == token.EQL
			}
			if lNotNil(y) {
				return op == token.NEQ
			}
		}
	default:
		if _, ok := y.(lNil); ok && lNotNil(x) && (op == token.EQL || op == token.NEQ) {
			return op == token.NEQ
		}
	}
	return nil
}

// lNotNil: memory, functions and maps that the set-up code made itself.
func lNotNil(v lAny) bool {
	switch v := v.(type) {
	case *lObj, *lFn, *lMap, *lSlice, lMade:
		return true
	case *lCall:
		return v.name == "fmt.Errorf" || v.name == "errors.New"
	}
	return false
}

// lMade is an object that a model made.
type lMade interface{ made() }

func (l *Lits) call(f *lFrame, c *ssa.CallCommon, args []lAny, site ssa.Instruction, depth int) lAny {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			switch x := lBare(args[0]).(type) {
			case *lSlice:
				return int64(x.hi - x.lo)
			case string:
				return int64(len(x))
			case *lMap:
				return int64(len(x.keys))
			case lNil:
				return int64(0)
			}
		case "append":
			var all []lAny
			for _, a := range args {
				switch x := lBare(a).(type) {
				case *lSlice:
					for i := x.lo; i < x.hi; i++ {
						all = append(all, x.arr.kid(i).load())
					}
				case lNil:
				default:
					return nil
				}
			}
			if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				arr := &lObj{typ: types.NewArray(s.Elem(), int64(len(all)))}
				for i, v := range all {
					arr.kid(i).store(v)
				}
				return &lSlice{arr, 0, len(all)}
			}
		}
		return nil
	}
	var fn *ssa.Function
	var binds []lAny
	if c.IsInvoke() {
		recv := l.value(f, c.Value)
		if a, ok := recv.(*lAs); ok {
			if m := l.P.Prog.LookupMethod(a.typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				fn, args = m, append([]lAny{a.v}, args...)
			}
		}
		if fn == nil {
			args = append([]lAny{recv}, args...)
			n := ifaceMethodName(c)
			if l.Call != nil {
				if v, ok := l.Call(n, args, site); ok {
					return v
				}
			}
			return &lCall{n, args, site}
		}
	} else {
		switch v := c.Value.(type) {
		case *ssa.Function:
			fn = v
		default:
			if x, ok := lBare(l.value(f, v)).(*lFn); ok {
				fn, binds = x.fn, x.binds
			}
		}
	}
	if fn == nil {
		return &lCall{"dynamic", args, site}
	}
	n := fnName(fn)
	if l.Call != nil {
		if v, ok := l.Call(n, args, site); ok {
			return v
		}
	}
	if len(fn.Blocks) > 0 && (l.Follow == nil || l.Follow(fn)) {
		return l.run(fn, args, binds, depth+1)
	}
	return &lCall{n, args, site}
}

// list returns the elements of a known slice or array.
func (l *Lits) list(v lAny) (out []lAny, ok bool) {
	switch x := lBare(v).(type) {
	case *lSlice:
		for i := x.lo; i < x.hi; i++ {
			out = append(out, x.arr.kid(i).load())
		}
		return out, true
	case *lAgg:
		for i := 0; i < len(x.kids); i++ {
			out = append(out, x.kids[i])
		}
		return out, true
	case lNil:
		return nil, true
	}
	return nil, false
}
