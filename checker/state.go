package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An Event is something a path does that a rule may care about.
type Event struct {
	Kind  string // call, store, load, mapupdate, mapread, delete, lock, unlock, go, defer, send, recv, select, close, return, panic
	Name  string // callee, for calls: "os.Rename", "(*os.File).Close", "(appdash.Collector).Collect" (interface), "dynamic", "builtin close"
	Args  []*Term
	Res   *Term
	Fn    *ssa.Function // enclosing function
	Site  ssa.Instruction
	Ctx   *Ctx
	Locks []*Lock
	Sig   *types.Signature
	Iface bool
	Rec   *ssa.Function // recursive or not inlined call of this repository function
}

// A Lock is a held mutex.
type Lock struct {
	Addr *Term
	Read bool
	Site ssa.Instruction
}

// pin keeps the facts about a value.
func (st *State) pin(t *Term) { st.notes[fmt.Sprintf("pin:%d", t.id)] = "1" }

func (l *Lock) key() string { return fmt.Sprintf("%d%v", l.Addr.id, l.Read) }

// A TItem is an element of the path's trace: an event, or a loop that was
// entered (and whose iterations were reported to OnIter).
type TItem struct {
	Ev       *Event
	Loop     *Loop
	Ctx      *Ctx
	Iterated bool
	Exited   bool // left through its header (not by break or return)
	key      string
}

type deferred struct {
	call *ssa.Defer
	recv *Term // invoke receiver or function value
	args []*Term
}

type activeLoop struct {
	loop *Loop
	mark int // index into trace of the loop's item
	had  map[*Term]bool
}

// A Frame is an activation of a function.
type Frame struct {
	fn        *ssa.Function
	ctx       *Ctx
	block     *ssa.BasicBlock
	pc        int
	env       map[ssa.Value]*Term
	defers    []deferred
	loops     []activeLoop
	ret       ssa.Value // in the caller; nil: result unused
	isDefer   bool
	unwinding bool
}

// A State is an abstract state at a program point of a path.
type State struct {
	frames   []*Frame
	mem      map[*Term]*Term
	memType  map[*Term]types.Type
	facts    map[*Term]bool
	genv     *Term            // current epoch of shared memory
	oepoch   map[*Term]*Term  // epoch per owner, while it is locked
	kinds    map[string]*Term // version per kind of location
	ended    bool
	fresh    map[*Term]*Term // allocations: nil = zero where absent, else epoch
	escaped  map[*Term]bool
	detached map[*Term]bool
	pub      map[*Term]*Term // published allocation -> address it was stored at
	locks    []*Lock
	trace    []*TItem
	panicVal *Term
	recoverd bool
	entry    string
	notes    map[string]string // scratch for the rule's own state
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := *st
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		g.loops = append([]activeLoop(nil), f.loops...)
		n.frames[i] = &g
	}
	n.mem = cloneMap(st.mem)
	n.memType = cloneMap(st.memType)
	n.facts = cloneMap(st.facts)
	n.oepoch = cloneMap(st.oepoch)
	n.kinds = cloneMap(st.kinds)
	n.fresh = cloneMap(st.fresh)
	n.escaped = cloneMap(st.escaped)
	n.detached = cloneMap(st.detached)
	n.pub = cloneMap(st.pub)
	n.notes = cloneMap(st.notes)
	n.locks = append([]*Lock(nil), st.locks...)
	n.trace = append([]*TItem(nil), st.trace...)
	return &n
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// key identifies the abstract state.
func (st *State) key(valID func(ssa.Value) int) string {
	var sb strings.Builder
	for _, f := range st.frames {
		fmt.Fprintf(&sb, "F%p.%d.%d.%d%v%v{", f.fn, f.ctx.id, f.block.Index, f.pc, f.isDefer, f.unwinding)
		var es []string
		for v, t := range f.env {
			es = append(es, fmt.Sprintf("%d=%d", valID(v), t.id))
		}
		sort.Strings(es)
		sb.WriteString(strings.Join(es, ","))
		for _, d := range f.defers {
			fmt.Fprintf(&sb, ";d%p", d.call)
			for _, a := range d.args {
				fmt.Fprintf(&sb, ",%d", a.id)
			}
		}
		for _, l := range f.loops {
			fmt.Fprintf(&sb, ";l%d@%d", l.loop.header.Index, l.mark)
		}
		sb.WriteString("}")
	}
	w := func(tag string, m map[*Term]*Term) {
		var es []string
		for k, v := range m {
			id := 0
			if v != nil {
				id = v.id
			}
			es = append(es, fmt.Sprintf("%d=%d", k.id, id))
		}
		sort.Strings(es)
		sb.WriteString(tag)
		sb.WriteString(strings.Join(es, ","))
	}
	wb := func(tag string, m map[*Term]bool) {
		var es []string
		for k, v := range m {
			es = append(es, fmt.Sprintf("%d%v", k.id, v))
		}
		sort.Strings(es)
		sb.WriteString(tag)
		sb.WriteString(strings.Join(es, ","))
	}
	w("M", st.mem)
	wb("f", st.facts)
	w("o", st.oepoch)
	var ks []string
	for k, v := range st.kinds {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v.id))
	}
	sort.Strings(ks)
	sb.WriteString("y" + strings.Join(ks, ","))
	w("z", st.fresh)
	w("p", st.pub)
	wb("e", st.escaped)
	wb("t", st.detached)
	fmt.Fprintf(&sb, "g%d", st.genv.id)
	for _, l := range st.locks {
		sb.WriteString("L" + l.key())
	}
	sb.WriteString("T")
	for _, it := range st.trace {
		sb.WriteString(it.key)
		if it.Loop != nil {
			fmt.Fprintf(&sb, "%v%v", it.Iterated, it.Exited)
		}
		sb.WriteByte(' ')
	}
	if st.panicVal != nil {
		fmt.Fprintf(&sb, "P%d%v", st.panicVal.id, st.recoverd)
	}
	if len(st.notes) > 0 {
		var es []string
		for k, v := range st.notes {
			es = append(es, k+"="+v)
		}
		sort.Strings(es)
		sb.WriteString("N" + strings.Join(es, ","))
	}
	return sb.String()
}

// ---- loops ----

// A Loop is a natural loop.
type Loop struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	mods   *modSet
}

// findLoops returns the natural loops of fn by header.
func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := loops[h]
			if l == nil {
				l = &Loop{fn: fn, header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				loops[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return loops
}

// A modSet over-approximates what a piece of code may modify.
type modSet struct {
	fields map[string]bool // "struct type#field"
	elems  map[string]bool // element types of slices and arrays
	maps   map[string]bool // map types
	ptrs   map[string]bool // types stored through other pointers
	bumps  bool            // takes locks or calls code that may change shared memory
	opaque []types.Type    // types of arguments handed to opaque calls
}

func newModSet() *modSet {
	return &modSet{fields: map[string]bool{}, elems: map[string]bool{}, maps: map[string]bool{}, ptrs: map[string]bool{}}
}

func fieldKey(st types.Type, i int) string {
	return fmt.Sprintf("%s#%d", types.TypeString(deref(st), nil), i)
}

func (m *modSet) addType(key func(types.Type), t types.Type) {
	key(t)
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			m.fields[fieldKey(t, i)] = true
			if _, ok := s.Field(i).Type().Underlying().(*types.Struct); ok {
				m.addType(func(types.Type) {}, s.Field(i).Type())
			}
		}
	}
}

func (m *modSet) hit(addr *Term, typ types.Type) bool {
	switch addr.op {
	case "fa":
		return m.fields[addr.aux]
	case "ia":
		return typ != nil && m.elems[types.TypeString(typ, nil)]
	case "me", "mok":
		return addr.args[0].typ != nil && m.maps[types.TypeString(addr.args[0].typ.Underlying(), nil)]
	}
	return typ != nil && m.ptrs[types.TypeString(typ, nil)]
}

// newObject finds the allocation that an address lies in directly.
func newObject(v ssa.Value) *ssa.Alloc {
	for {
		switch a := v.(type) {
		case *ssa.Alloc:
			return a
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			if _, ok := a.X.Type().Underlying().(*types.Pointer); !ok {
				return nil
			}
			v = a.X
		default:
			return nil
		}
	}
}

// scan collects an instruction's effects on memory that exists before the code
// runs: objects that the code itself makes (fresh) are left out.
func (m *modSet) scan(in ssa.Instruction, visit func(*ssa.Function), fresh func(*ssa.Alloc) bool) {
	switch in := in.(type) {
	case *ssa.Store:
		if al := newObject(in.Addr); al != nil && fresh(al) {
			return
		}
		t := in.Val.Type()
		switch a := in.Addr.(type) {
		case *ssa.FieldAddr:
			m.addType(func(types.Type) { m.fields[fieldKey(a.X.Type(), a.Field)] = true }, t)
		case *ssa.IndexAddr:
			m.addType(func(t types.Type) { m.elems[types.TypeString(t, nil)] = true }, t)
		default:
			m.addType(func(t types.Type) { m.ptrs[types.TypeString(t, nil)] = true }, t)
		}
	case *ssa.MapUpdate:
		m.maps[types.TypeString(in.Map.Type().Underlying(), nil)] = true
	case *ssa.MakeClosure:
		visit(in.Fn.(*ssa.Function))
	case *ssa.Send, *ssa.Select:
		m.bumps = true
	case ssa.CallInstruction:
		c := in.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear":
				m.maps[types.TypeString(c.Args[0].Type().Underlying(), nil)] = true
			case "copy":
				if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
					m.elems[types.TypeString(s.Elem(), nil)] = true
				}
			case "append":
				if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
					m.elems[types.TypeString(s.Elem(), nil)] = true
				}
			}
			return
		}
		if fn := c.StaticCallee(); fn != nil {
			if len(fn.Blocks) > 0 {
				visit(fn)
				return
			}
			if isSyncOp(fn) {
				m.bumps = true
				return
			}
			if readOnlyStd(fn.String()) {
				return
			}
		} else {
			m.bumps = true
		}
		for _, a := range c.Args {
			m.opaque = append(m.opaque, a.Type())
			if mi, ok := a.(*ssa.MakeInterface); ok {
				m.opaque = append(m.opaque, mi.X.Type())
			}
		}
		if c.IsInvoke() {
			m.opaque = append(m.opaque, c.Value.Type())
		}
	}
}

// hitsArg reports whether opaque calls receive the object that an address
// lies in.
func (m *modSet) hitsArg(a *Term) bool {
	b := rawBase(a)
	if b.typ == nil {
		return false
	}
	for _, o := range m.opaque {
		if types.Identical(o, b.typ) {
			return true
		}
		if s, ok := o.Underlying().(*types.Slice); ok {
			if at, ok := deref(b.typ).Underlying().(*types.Array); ok && types.Identical(at.Elem(), s.Elem()) {
				if al, ok := b.site.(*ssa.Alloc); ok && al.Comment == "varargs" {
					continue
				}
				return true
			}
		}
	}
	return false
}

// kinds lists the kinds of locations that may be written (see kindOf).
func (m *modSet) kinds() map[string]bool {
	r := map[string]bool{}
	for k := range m.fields {
		r["f:"+k] = true
	}
	for k := range m.elems {
		r["e:"+k] = true
	}
	for k := range m.maps {
		r["m:"+k] = true
	}
	for k := range m.ptrs {
		r["p:"+k] = true
	}
	return r
}

// mayWrite reports whether an object of type t may be written.
func (m *modSet) mayWrite(t types.Type) bool {
	if m.ptrs[types.TypeString(t, nil)] {
		return true
	}
	for _, o := range m.opaque {
		if p, ok := o.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), t) {
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if m.fields[fieldKey(t, i)] {
				return true
			}
			switch u.Field(i).Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				if m.mayWrite(u.Field(i).Type()) {
					return true
				}
			}
		}
	case *types.Array:
		return m.elems[types.TypeString(u.Elem(), nil)] || m.mayWrite(u.Elem())
	case *types.Slice:
		return m.elems[types.TypeString(u.Elem(), nil)]
	case *types.Map:
		return m.maps[types.TypeString(u, nil)]
	}
	return false
}

// stores reports whether the code writes memory or calls unknown code.
func (m *modSet) stores() bool {
	return m.bumps || len(m.fields)+len(m.elems)+len(m.maps)+len(m.ptrs) > 0
}

func isSyncOp(fn *ssa.Function) bool {
	s := fn.String()
	return strings.HasPrefix(s, "(*sync.") || strings.HasPrefix(s, "sync/atomic.") || strings.HasPrefix(s, "(*sync/atomic.")
}

// readOnlyStd lists opaque callees that do not modify what their arguments
// refer to (as far as the repository's own objects are concerned).
func readOnlyStd(name string) bool {
	for _, p := range []string{"fmt.", "log.", "(*log.Logger).", "errors.", "strings.", "strconv.", "time.", "(time.", "(*time.", "unicode", "path.", "path/filepath.",
		"reflect.TypeOf", "reflect.ValueOf", "(reflect.Type)", "(reflect.Value).Kind", "(reflect.Value).Type", "(reflect.Value).Elem", "(reflect.Value).Interface", "(reflect.Value).Is", "(reflect.Value).Len", "(reflect.Value).Field", "(reflect.Value).Index",
		"(reflect.Value).Map", "(reflect.Value).Bool", "(reflect.Value).Int", "(reflect.Value).Uint", "(reflect.Value).Float", "(reflect.Value).String", "(reflect.StructTag)", "math.", "runtime", "sort.IsSorted", "sort.SliceIsSorted", "bytes.NewReader", "bytes.NewBuffer", "bytes.Equal",
		"encoding/json.Marshal", "context.", "(*net/http.Request).Context", "(*net/http.Request).WithContext", "(*os.File).", "os.", "net.", "(net/url.", "(*net/url.URL).String", "(*net/url.URL).RequestURI", "net/http.CanonicalHeaderKey", "net/http.Error", "(net/http.Header).Get",
		"(net/http.Header).Values", "(net/http.Header).Clone", "crypto/subtle.", "encoding/base64.", "(*encoding/base64.", "crypto/tls.", "(*encoding/gob.Encoder).", "encoding/gob.NewEncoder", "maps.Clone", "slices.Clone", "slices.Contains", "slices.Index", "html"} {
		if strings.HasPrefix(name, p) {
			switch name {
			case "fmt.Sscan", "fmt.Sscanf", "fmt.Fscan", "(*os.File).Read":
				return false
			}
			return true
		}
	}
	return false
}

// pureStd lists opaque callees whose result depends on the argument values
// alone, so that equal calls are equal terms.
func pureStd(name string) bool {
	if strings.HasPrefix(name, "(time.Time).") || strings.HasPrefix(name, "(time.Duration).") {
		return true
	}
	for _, p := range []string{"strings.", "strconv.", "path/filepath.Dir", "path/filepath.Base", "path/filepath.Join", "path/filepath.Clean", "path.", "net/http.CanonicalHeaderKey",
		"net/textproto.CanonicalMIMEHeaderKey", "(*os.File).Name", "unicode.", "reflect.TypeOf", "math.", "encoding/base64.", "(*encoding/base64.Encoding).EncodeToString",
		"crypto/subtle.", "net/url.", "bytes.Equal"} {
		if strings.HasPrefix(name, p) {
			return !strings.HasPrefix(name, "strings.New") && name != "math.rand"
		}
	}
	return false
}
