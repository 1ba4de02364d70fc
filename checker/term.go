package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Term is the abstract value of an expression: hash-consed, so that two
// occurrences are the same pointer exactly if the analysis knows them equal
// (value numbering). Terms are immutable.
type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	typ  types.Type
	site ssa.Instruction // where it is created, for terms that are not pure
	ctx  *Ctx
	cval constant.Value
	obj  any // *ssa.Function, *ssa.Global, *types.Var, ...
}

// A Ctx is a call string: the calls through which a function was inlined.
type Ctx struct {
	id     int
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
	depth  int
}

type termKey string

// Terms is the hash-consing table.
type Terms struct {
	tab   map[termKey]*Term
	all   []*Term
	ctxs  map[string]*Ctx
	sites map[ssa.Instruction]int
	types map[string]int
}

func newTerms() *Terms {
	return &Terms{tab: map[termKey]*Term{}, ctxs: map[string]*Ctx{}, sites: map[ssa.Instruction]int{}}
}

func (tt *Terms) siteID(s ssa.Instruction) int {
	if s == nil {
		return 0
	}
	id, ok := tt.sites[s]
	if !ok {
		id = len(tt.sites) + 1
		tt.sites[s] = id
	}
	return id
}

func (tt *Terms) mkCtx(parent *Ctx, call ssa.Instruction, fn *ssa.Function) *Ctx {
	pid, d := 0, 0
	if parent != nil {
		pid, d = parent.id, parent.depth+1
	}
	k := fmt.Sprintf("%d|%d|%p", pid, tt.siteID(call), fn)
	c := tt.ctxs[k]
	if c == nil {
		c = &Ctx{id: len(tt.ctxs) + 1, parent: parent, call: call, fn: fn, depth: d}
		tt.ctxs[k] = c
	}
	return c
}

// lookup finds a pure term that was made before.
func (tt *Terms) lookup(op, aux string, args ...*Term) *Term {
	return tt.tab[tt.key(op, aux, nil, nil, args)]
}

func (tt *Terms) key(op, aux string, site ssa.Instruction, ctx *Ctx, args []*Term) termKey {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	if site != nil {
		cid := 0
		if ctx != nil {
			cid = ctx.id
		}
		fmt.Fprintf(&sb, "@%d.%d", tt.siteID(site), cid)
	} else if ctx != nil {
		fmt.Fprintf(&sb, "@c%d", ctx.id)
	}
	return termKey(sb.String())
}

func (tt *Terms) mk(op, aux string, typ types.Type, site ssa.Instruction, ctx *Ctx, args ...*Term) *Term {
	k := tt.key(op, aux, site, ctx, args)
	if t := tt.tab[k]; t != nil {
		return t
	}
	t := &Term{id: len(tt.all) + 1, op: op, aux: aux, args: append([]*Term(nil), args...), typ: typ, site: site, ctx: ctx}
	tt.tab[k] = t
	tt.all = append(tt.all, t)
	return t
}

func (tt *Terms) Nil() *Term { return tt.mk("nil", "", nil, nil, nil) }

func (tt *Terms) Bool(b bool) *Term {
	return tt.Const(constant.MakeBool(b), types.Typ[types.Bool])
}

func (tt *Terms) Int(i int64) *Term {
	return tt.Const(constant.MakeInt64(i), types.Typ[types.Int])
}

func (tt *Terms) Const(v constant.Value, typ types.Type) *Term {
	kind := "o"
	switch v.Kind() {
	case constant.Bool:
		kind = "b"
	case constant.String:
		kind = "s"
	case constant.Int:
		kind = "i"
	case constant.Float:
		kind = "f"
	}
	if kind == "f" {
		if iv := constant.ToInt(v); iv.Kind() == constant.Int {
			if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat == 0 {
				v, kind = iv, "i"
			}
		}
	}
	t := tt.mk("const", kind+v.ExactString(), typ, nil, nil)
	t.cval = v
	return t
}

func (t *Term) isNil() bool   { return t.op == "nil" }
func (t *Term) isConst() bool { return t.op == "const" }

func (t *Term) boolVal() (val, ok bool) {
	if t.op == "const" && t.cval.Kind() == constant.Bool {
		return constant.BoolVal(t.cval), true
	}
	return false, false
}

func (t *Term) intVal() (int64, bool) {
	if t.op == "const" && t.cval.Kind() == constant.Int {
		return constant.Int64Val(t.cval)
	}
	return 0, false
}

func (t *Term) strVal() (string, bool) {
	if t.op == "const" && t.cval.Kind() == constant.String {
		return constant.StringVal(t.cval), true
	}
	return "", false
}

// String prints a term for reports.
func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "?"
	}
	if d > 6 {
		return "…"
	}
	a := func(i int) string { return t.args[i].str(d + 1) }
	list := func(from int) string {
		var ss []string
		for i := from; i < len(t.args); i++ {
			ss = append(ss, a(i))
		}
		return strings.Join(ss, ", ")
	}
	switch t.op {
	case "nil":
		return "nil"
	case "const":
		return t.cval.String()
	case "param", "freevar", "global":
		return t.aux
	case "load":
		return a(0)
	case "fa", "field":
		return a(0) + "." + fieldLabel(t)
	case "ia", "index":
		return a(0) + "[" + a(1) + "]"
	case "me", "lookup":
		return a(0) + "[" + a(1) + "]"
	case "bin":
		return "(" + a(0) + " " + t.aux + " " + a(1) + ")"
	case "not":
		return "!" + a(0)
	case "eq":
		return "(" + a(0) + " == " + a(1) + ")"
	case "conv", "mkiface":
		return a(0)
	case "len", "cap":
		return t.op + "(" + a(0) + ")"
	case "call":
		return t.aux + "()"
	case "extract":
		return a(0) + "#" + t.aux
	case "append", "appendv":
		return "append(" + list(0) + ")"
	case "alloc":
		if al, ok := t.site.(*ssa.Alloc); ok {
			return "&" + types.TypeString(deref(al.Type()), relQual) + "{}"
		}
		return "alloc"
	case "closure", "func":
		return t.aux
	case "loopphi":
		if p, ok := t.site.(*ssa.Phi); ok && p.Comment != "" {
			return p.Comment
		}
		return "φ"
	case "loopmem":
		return a(0) + "'"
	case "struct":
		return types.TypeString(t.typ, relQual) + "{" + list(0) + "}"
	}
	if len(t.args) > 0 {
		return t.op + ":" + t.aux + "(" + list(0) + ")"
	}
	return t.op + ":" + t.aux
}

func relQual(p *types.Package) string { return p.Name() }

func fieldLabel(t *Term) string {
	if v, ok := t.obj.(*types.Var); ok {
		return v.Name()
	}
	return t.aux
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ---- linear forms, used to normalise integer comparisons ----

type linear struct {
	k     int64
	coef  map[*Term]int64
	valid bool
}

func (tt *Terms) lin(t *Term) linear {
	l := linear{coef: map[*Term]int64{}, valid: true}
	tt.addLin(&l, t, 1, 0)
	return l
}

// wraps: arithmetic on bytes and 16-bit numbers is expected to overflow.
func wraps(t *Term) bool { return t.op == "bin" && isInt(t.typ) && intSize(t.typ) < 4 }

func (tt *Terms) addLin(l *linear, t *Term, f int64, depth int) {
	if v, ok := t.intVal(); ok {
		l.k += f * v
		return
	}
	if depth < 20 && !wraps(t) {
		switch {
		case t.op == "bin" && t.aux == "+" && isInt(t.typ):
			tt.addLin(l, t.args[0], f, depth+1)
			tt.addLin(l, t.args[1], f, depth+1)
			return
		case t.op == "bin" && t.aux == "-" && isInt(t.typ):
			tt.addLin(l, t.args[0], f, depth+1)
			tt.addLin(l, t.args[1], -f, depth+1)
			return
		case t.op == "bin" && t.aux == "*" && isInt(t.typ):
			if v, ok := t.args[0].intVal(); ok {
				tt.addLin(l, t.args[1], f*v, depth+1)
				return
			}
			if v, ok := t.args[1].intVal(); ok {
				tt.addLin(l, t.args[0], f*v, depth+1)
				return
			}
		case t.op == "conv" && isInt(t.typ) && t.args[0].typ != nil && isInt(t.args[0].typ) && intSize(t.typ) >= intSize(t.args[0].typ):
			tt.addLin(l, t.args[0], f, depth+1)
			return
		}
	}
	l.coef[t] += f
	if l.coef[t] == 0 {
		delete(l.coef, t)
	}
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (a linear) sub(b linear) linear {
	r := linear{k: a.k - b.k, coef: map[*Term]int64{}, valid: true}
	for t, c := range a.coef {
		r.coef[t] += c
	}
	for t, c := range b.coef {
		r.coef[t] -= c
	}
	for t, c := range r.coef {
		if c == 0 {
			delete(r.coef, t)
		}
	}
	return r
}

func (a linear) neg() linear { return linear{coef: map[*Term]int64{}}.sub(a) }

func (a linear) terms() []*Term {
	var ts []*Term
	for t := range a.coef {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

// shape is the linear form without its constant.
func (a linear) shape() string {
	var sb strings.Builder
	for _, t := range a.terms() {
		fmt.Fprintf(&sb, "%+d*%d", a.coef[t], t.id)
	}
	return sb.String()
}

// lt0 is the predicate "l < 0"; eq0 is "l == 0".
func (tt *Terms) lt0(l linear) *Term {
	if len(l.coef) == 0 {
		return tt.Bool(l.k < 0)
	}
	ts := l.terms()
	var sb strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&sb, "%+d,", l.coef[t])
	}
	fmt.Fprintf(&sb, "%+d", l.k)
	t := tt.mk("lt0", sb.String(), types.Typ[types.Bool], nil, nil, ts...)
	t.obj = l
	return t
}

func (tt *Terms) eq0(l linear) *Term {
	if len(l.coef) == 0 {
		return tt.Bool(l.k == 0)
	}
	ts := l.terms()
	if l.coef[ts[0]] < 0 {
		l = l.neg()
	}
	var sb strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&sb, "%+d,", l.coef[t])
	}
	fmt.Fprintf(&sb, "%+d", l.k)
	t := tt.mk("eq0", sb.String(), types.Typ[types.Bool], nil, nil, ts...)
	t.obj = l
	return t
}

// Not negates a predicate.
func (tt *Terms) Not(t *Term) *Term {
	if t.op == "not" {
		return t.args[0]
	}
	if v, ok := t.boolVal(); ok {
		return tt.Bool(!v)
	}
	return tt.mk("not", "", types.Typ[types.Bool], nil, nil, t)
}

// nonNil reports terms that are never nil.
func (tt *Terms) nonNil(t *Term) bool {
	switch t.op {
	case "alloc", "mk", "mkiface", "closure", "func", "fa", "ia", "global", "struct":
		return true
	case "const":
		return true
	case "slice":
		return len(t.args) > 0 && t.args[0].op == "alloc"
	case "append":
		return true // append of at least one element
	case "call":
		switch t.aux {
		case "errors.New", "fmt.Errorf", "context.WithValue", "(*net/http.Request).WithContext", "(*net/http.Request).Context", "log.New",
			"bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "(*net/http.Request).Clone", "(*net/http.Request).URL":
			return true
		}
	case "load", "havoc", "loopmem":
		if len(t.args) > 0 && t.args[0].op == "fa" {
			return requiredField(t.args[0])
		}
		if g, ok := t.args[0].obj.(*ssa.Global); ok && t.args[0].op == "global" {
			return isSentinel(g)
		}
	}
	return false
}

// requiredField recognises the address of a message field that is always
// there: reading a message without one fails.
func requiredField(a *Term) bool {
	s, ok := deref(a.args[0].typ).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if a.obj == types.Object(s.Field(i)) {
			_, f, ok := protoName(s.Tag(i))
			return ok && f.label == "req"
		}
	}
	return false
}

// isSentinel recognises package-level error variables that are initialised
// with a fresh error and never assigned again (checked by globalsAssigned).
func isSentinel(g *ssa.Global) bool {
	if !types.Identical(deref(g.Type()), types.Universe.Lookup("error").Type()) {
		return false
	}
	if g.Pkg == nil || g.Pkg.Func("init") == nil {
		return true // a dependency's exported error variable, e.g. io.EOF
	}
	if len(g.Pkg.Func("init").Blocks) == 0 {
		return true
	}
	return sentinelInit(g)
}

var sentinelCache = map[*ssa.Global]bool{}

func sentinelInit(g *ssa.Global) bool {
	if v, ok := sentinelCache[g]; ok {
		return v
	}
	stores, good := 0, 0
	for _, m := range g.Pkg.Members {
		fn, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, f := range append([]*ssa.Function{fn}, fn.AnonFuncs...) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == g {
						stores++
						if c, ok := st.Val.(*ssa.Call); ok && f.Name() == "init" {
							if cal := c.Call.StaticCallee(); cal != nil && (cal.String() == "errors.New" || cal.String() == "fmt.Errorf") {
								good++
							}
						}
					}
				}
			}
		}
	}
	v := stores == 1 && good == 1
	sentinelCache[g] = v
	return v
}

// Eq is the predicate "a == b", decided where possible.
func (tt *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return tt.Bool(true)
	}
	if isBool(a) || isBool(b) {
		if v, ok := b.boolVal(); ok {
			if v {
				return a
			}
			return tt.Not(a)
		}
		if v, ok := a.boolVal(); ok {
			if v {
				return b
			}
			return tt.Not(b)
		}
	}
	if a.isConst() && b.isConst() {
		if a.cval.Kind() == b.cval.Kind() {
			return tt.Bool(constant.Compare(a.cval, token.EQL, b.cval))
		}
	}
	if a.isNil() && tt.nonNil(b) || b.isNil() && tt.nonNil(a) {
		return tt.Bool(false)
	}
	if a.op == "mkiface" && b.op == "mkiface" && a.aux == b.aux {
		return tt.Eq(a.args[0], b.args[0])
	}
	if isInt(a.typ) || isInt(b.typ) {
		return tt.eq0(tt.lin(a).sub(tt.lin(b)))
	}
	// A string is empty exactly if its length is 0.
	if s, ok := b.strVal(); ok && s == "" {
		return tt.eq0(tt.lin(tt.Len(a)))
	}
	if s, ok := a.strVal(); ok && s == "" {
		return tt.eq0(tt.lin(tt.Len(b)))
	}
	if distinctTerms(a, b) {
		return tt.Bool(false)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk("eq", "", types.Typ[types.Bool], nil, nil, a, b)
}

func isBool(t *Term) bool {
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// distinctTerms reports pairs that can never be equal.
func distinctTerms(a, b *Term) bool {
	ga, gb := sentinelOf(a), sentinelOf(b)
	if ga != nil && gb != nil {
		return ga != gb
	}
	fresh := func(t *Term) bool { return t.op == "alloc" || t.op == "mk" }
	if fresh(a) && fresh(b) {
		return a != b
	}
	return false
}

func sentinelOf(t *Term) *ssa.Global {
	if t.op == "load" && t.args[0].op == "global" {
		if g := t.args[0].obj.(*ssa.Global); isSentinel(g) {
			return g
		}
	}
	return nil
}

// Len is the length of a string, slice, array or map.
func (tt *Terms) Len(x *Term) *Term {
	switch {
	case x.isNil():
		return tt.Int(0)
	case x.op == "const":
		if s, ok := x.strVal(); ok {
			return tt.Int(int64(len(s)))
		}
	case x.op == "append":
		return tt.Bin(token.ADD, tt.Len(x.args[0]), tt.Int(int64(len(x.args)-1)), types.Typ[types.Int])
	case x.op == "appendv":
		return tt.Bin(token.ADD, tt.Len(x.args[0]), tt.Len(x.args[1]), types.Typ[types.Int])
	case x.op == "mk" && x.aux == "slice":
		return x.args[0]
	case x.op == "alloc":
		if at, ok := deref(x.typ).Underlying().(*types.Array); ok {
			return tt.Int(at.Len())
		}
	case x.op == "slice" && x.args[0].op == "alloc":
		if at, ok := deref(x.args[0].typ).Underlying().(*types.Array); ok {
			hi := x.args[2]
			if hi.isNil() {
				hi = tt.Int(at.Len())
			}
			if x.args[1].isNil() {
				return hi
			}
			return tt.Bin(token.SUB, hi, x.args[1], types.Typ[types.Int])
		}
	case x.op == "slice":
		// len(x[lo:hi]) = hi - lo
		hi := x.args[2]
		if hi.isNil() {
			hi = tt.Len(x.args[0])
		}
		if x.args[1].isNil() {
			return hi
		}
		return tt.Bin(token.SUB, hi, x.args[1], types.Typ[types.Int])
	case x.op == "conv":
		// string([]byte) and []byte(string) keep the length.
		if (isString(x.typ) || isByteSlice(x.typ)) && (isString(x.args[0].typ) || isByteSlice(x.args[0].typ)) {
			return tt.Len(x.args[0])
		}
	}
	return tt.mk("len", "", types.Typ[types.Int], nil, nil, x)
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// Bin is a binary operation, folded and normalised.
func (tt *Terms) Bin(op token.Token, a, b *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return tt.Eq(a, b)
	case token.NEQ:
		return tt.Not(tt.Eq(a, b))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if isInt(a.typ) || isInt(b.typ) {
			la, lb := tt.lin(a), tt.lin(b)
			switch op {
			case token.LSS:
				return tt.ltNorm(la.sub(lb))
			case token.GTR:
				return tt.ltNorm(lb.sub(la))
			case token.LEQ:
				return tt.Not(tt.ltNorm(lb.sub(la)))
			default:
				return tt.Not(tt.ltNorm(la.sub(lb)))
			}
		}
		switch op {
		case token.GTR:
			return tt.Bin(token.LSS, b, a, typ)
		case token.LEQ: // exact for strings; for floats up to NaN
			return tt.Not(tt.Bin(token.LSS, b, a, typ))
		case token.GEQ:
			return tt.Not(tt.Bin(token.LSS, a, b, typ))
		}
		return tt.mk("lt", "", types.Typ[types.Bool], nil, nil, a, b)
	}
	if a.isConst() && b.isConst() && a.cval.Kind() == b.cval.Kind() {
		if v := foldBin(op, a.cval, b.cval, typ); v != nil {
			return tt.Const(v, typ)
		}
	}
	if isInt(typ) && (op == token.ADD || op == token.SUB) {
		// Normalise sums.
		l := tt.lin(a)
		lb := tt.lin(b)
		if op == token.ADD {
			lb = lb.neg()
		}
		l = l.sub(lb)
		return tt.fromLin(l, typ)
	}
	t := tt.mk("bin", op.String(), typ, nil, nil, a, b)
	return t
}

// fromLin rebuilds a term from a linear form (in canonical order).
func (tt *Terms) fromLin(l linear, typ types.Type) *Term {
	var r *Term
	for _, t := range l.terms() {
		c := l.coef[t]
		x := t
		if c != 1 {
			x = tt.mk("bin", "*", typ, nil, nil, tt.Const(constant.MakeInt64(c), typ), t)
		}
		if r == nil {
			r = x
		} else {
			r = tt.mk("bin", "+", typ, nil, nil, r, x)
		}
	}
	if r == nil {
		return tt.Const(constant.MakeInt64(l.k), typ)
	}
	if l.k != 0 {
		r = tt.mk("bin", "+", typ, nil, nil, r, tt.Const(constant.MakeInt64(l.k), typ))
	}
	return r
}

// ltNorm gives "l < 0" one of the two equivalent integer forms l<0 and
// !(-l-1<0), so that a<b, b>a, !(a>=b) and a+1<=b coincide.
func (tt *Terms) ltNorm(l linear) *Term {
	if len(l.coef) == 0 {
		return tt.Bool(l.k < 0)
	}
	ts := l.terms()
	if l.coef[ts[0]] < 0 {
		n := l.neg()
		n.k--
		return tt.Not(tt.lt0(n))
	}
	return tt.lt0(l)
}

func foldBin(op token.Token, a, b constant.Value, typ types.Type) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch op {
	case token.SHL, token.SHR:
		s, ok := constant.Uint64Val(b)
		if !ok {
			return nil
		}
		return constant.Shift(a, op, uint(s))
	case token.QUO:
		if isInt(typ) {
			return constant.BinaryOp(a, token.QUO_ASSIGN, b)
		}
		return constant.BinaryOp(a, op, b)
	case token.ADD, token.SUB, token.MUL, token.REM, token.AND, token.OR, token.XOR, token.AND_NOT:
		return constant.BinaryOp(a, op, b)
	}
	return nil
}

// root strips a term down to the object it is reached from; path names the
// fields and elements on the way.
func ownerPath(t *Term) (root *Term, path string) {
	switch t.op {
	case "fa", "field":
		r, p := ownerPath(t.args[0])
		return r, p + "." + fieldLabel(t)
	case "load", "loopmem":
		return ownerPath(t.args[0])
	case "me", "lookup", "ia", "index", "nextv", "mok":
		r, p := ownerPath(t.args[0])
		return r, p + "[]"
	case "slice", "conv", "range", "append", "appendv", "mkiface", "tassert":
		if len(t.args) > 0 {
			return ownerPath(t.args[0])
		}
	case "extract":
		return ownerPath(t.args[0])
	}
	return t, ""
}

// mentions reports whether pred holds for t or a subterm.
func (t *Term) mentions(pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if pred(x) {
			return true
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
