package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C11",
		Rule: "value flow: at WriteMsg, every field of the packet's span ID points to the like-named component of the given span ID (a left-out optional one only where the component is known zero), and its annotation list holds, for each given annotation in order and without exception, the like-named key and value, in memory of that iteration's own; " +
			"at the server's Collect, every component and every annotation field comes through the like-named field of the packet that has been read; both sides use the same framing; " +
			"schema: number, wire type and label of every field agree between the Go tags, collector.proto, the Python descriptor and its serialized form, and the Python encoder assigns each like-named field and prefixes each message with its length",
		NotCover: "the protobuf libraries of both languages; Python's handling of IDs outside 64 bits",
		Run:      runC11,
	})
}

// A wireField is a field of one message of the schema.
type wireField struct {
	num   int
	typ   string // fixed64, bytes, group
	label string // req, opt, rep
}

// protoName is the name of a Go wire field in the schema.
func protoName(tag string) (name string, f wireField, ok bool) {
	v := reflect.StructTag(tag).Get("protobuf")
	if v == "" {
		return "", f, false
	}
	p := strings.Split(v, ",")
	if len(p) < 3 {
		return "", f, false
	}
	f.typ, f.label = p[0], p[2]
	f.num, _ = strconv.Atoi(p[1])
	for _, x := range p[3:] {
		if strings.HasPrefix(x, "name=") {
			name = strings.ToLower(x[len("name="):])
		}
	}
	return name, f, true
}

// goSchema reads the schema from the Go types: message.field -> field.
func goSchema(p *Program) map[string]wireField {
	out := map[string]wireField{}
	sc := p.Pkgs["internal/wire"].Types.Scope()
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		msg := strings.ToLower(strings.Replace(nm, "_", ".", -1))
		for i := 0; i < s.NumFields(); i++ {
			name, f, ok := protoName(s.Tag(i))
			if !ok {
				continue
			}
			if f.typ == "bytes" && isString(deref(s.Field(i).Type())) {
				f.typ = "string"
			}
			out[msg+"."+name] = f
		}
	}
	return out
}

// protoSchema reads the schema from a .proto file (proto2, with groups).
func protoSchema(file string) (map[string]wireField, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	src := regexp.MustCompile(`(?s)/\*.*?\*/`).ReplaceAllString(string(b), " ")
	src = regexp.MustCompile(`//[^\n]*`).ReplaceAllString(src, " ")
	toks := regexp.MustCompile(`"[^"]*"|[\w.]+|[{}=;\[\],]`).FindAllString(src, -1)
	out := map[string]wireField{}
	var stack []string
	labels := map[string]string{"required": "req", "optional": "opt", "repeated": "rep"}
	for i := 0; i < len(toks); i++ {
		switch t := toks[i]; {
		case t == "message" && i+2 < len(toks) && toks[i+2] == "{":
			stack = append(stack, strings.ToLower(toks[i+1]))
			i += 2
		case labels[t] != "" && i+4 < len(toks) && toks[i+3] == "=":
			n, err := strconv.Atoi(toks[i+4])
			if err != nil {
				return nil, fmt.Errorf("field number %q", toks[i+4])
			}
			out[strings.Join(stack, ".")+"."+strings.ToLower(toks[i+2])] = wireField{n, toks[i+1], labels[t]}
			if toks[i+1] == "group" {
				stack = append(stack, strings.ToLower(toks[i+2]))
				i += 5 // up to the brace
			} else {
				i += 4
			}
		case t == "}":
			if len(stack) == 0 {
				return nil, fmt.Errorf("unbalanced braces")
			}
			stack = stack[:len(stack)-1]
		}
	}
	return out, nil
}

var protoTypes = map[int]string{1: "double", 2: "float", 3: "int64", 4: "uint64", 5: "int32", 6: "fixed64", 7: "fixed32", 8: "bool", 9: "string", 10: "group", 11: "message", 12: "bytes", 13: "uint32", 14: "enum", 15: "sfixed32", 16: "sfixed64", 17: "sint32", 18: "sint64"}
var protoLabels = map[int]string{1: "opt", 2: "req", 3: "rep"}

// pySchema reads the schema from the Python descriptors.
func pySchema(src string) map[string]wireField {
	out := map[string]wireField{}
	re := regexp.MustCompile(`(?s)FieldDescriptor\(\s*name='(\w+)',\s*full_name='([\w.]+)',\s*index=\d+,\s*number=(\d+),\s*type=(\d+),\s*cpp_type=\d+,\s*label=(\d+)`)
	for _, m := range re.FindAllStringSubmatch(src, -1) {
		n, _ := strconv.Atoi(m[3])
		t, _ := strconv.Atoi(m[4])
		l, _ := strconv.Atoi(m[5])
		name := strings.ToLower(m[2])
		if i := strings.Index(name, "."); i >= 0 {
			name = name[i+1:] // the package
		}
		out[name] = wireField{n, protoTypes[t], protoLabels[l]}
	}
	return out
}

// pySerialized reads the schema from the serialized descriptor.
func pySerialized(src string) (map[string]wireField, error) {
	m := regexp.MustCompile(`serialized_pb=b?'((?:[^'\\]|\\.)*)'`).FindStringSubmatch(src)
	if m == nil {
		return nil, fmt.Errorf("no serialized_pb")
	}
	data, err := pyUnquote(m[1])
	if err != nil {
		return nil, err
	}
	out := map[string]wireField{}
	var message func(b []byte, prefix string) error
	message = func(b []byte, prefix string) error {
		var name string
		var nested [][]byte
		var fields [][]byte
		if err := pbEach(b, func(n int, v uint64, d []byte) {
			switch n {
			case 1:
				name = strings.ToLower(string(d))
			case 2:
				fields = append(fields, d)
			case 3:
				nested = append(nested, d)
			}
		}); err != nil {
			return err
		}
		for _, fb := range fields {
			var f wireField
			var fn string
			if err := pbEach(fb, func(n int, v uint64, d []byte) {
				switch n {
				case 1:
					fn = strings.ToLower(string(d))
				case 3:
					f.num = int(v)
				case 4:
					f.label = protoLabels[int(v)]
				case 5:
					f.typ = protoTypes[int(v)]
				}
			}); err != nil {
				return err
			}
			out[prefix+name+"."+fn] = f
		}
		for _, nb := range nested {
			if err := message(nb, prefix+name+"."); err != nil {
				return err
			}
		}
		return nil
	}
	var err2 error
	err = pbEach(data, func(n int, v uint64, d []byte) {
		if n == 4 && err2 == nil {
			err2 = message(d, "")
		}
	})
	if err == nil {
		err = err2
	}
	return out, err
}

func pyUnquote(s string) ([]byte, error) {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			out = append(out, s[i])
			continue
		}
		i++
		if i >= len(s) {
			return nil, fmt.Errorf("bad escape")
		}
		switch s[i] {
		case 'n':
			out = append(out, '\n')
		case 't':
			out = append(out, '\t')
		case 'r':
			out = append(out, '\r')
		case 'x':
			v, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
			if err != nil {
				return nil, err
			}
			out = append(out, byte(v))
			i += 2
		case '0', '1', '2', '3', '4', '5', '6', '7':
			j := i
			for j < len(s) && j < i+3 && s[j] >= '0' && s[j] <= '7' {
				j++
			}
			v, _ := strconv.ParseUint(s[i:j], 8, 16)
			out = append(out, byte(v))
			i = j - 1
		default:
			out = append(out, s[i])
		}
	}
	return out, nil
}

// pbEach walks the fields of a serialized message.
func pbEach(b []byte, f func(n int, v uint64, d []byte)) error {
	varint := func() (uint64, bool) {
		var v uint64
		for s := 0; s < 64 && len(b) > 0; s += 7 {
			c := b[0]
			b = b[1:]
			v |= uint64(c&0x7f) << s
			if c < 0x80 {
				return v, true
			}
		}
		return 0, false
	}
	for len(b) > 0 {
		k, ok := varint()
		if !ok {
			return fmt.Errorf("bad descriptor")
		}
		switch k & 7 {
		case 0:
			v, ok := varint()
			if !ok {
				return fmt.Errorf("bad descriptor")
			}
			f(int(k>>3), v, nil)
		case 2:
			n, ok := varint()
			if !ok || n > uint64(len(b)) {
				return fmt.Errorf("bad descriptor")
			}
			f(int(k>>3), 0, b[:n])
			b = b[n:]
		default:
			return fmt.Errorf("bad descriptor")
		}
	}
	return nil
}

func runC11(r *R) {
	p := r.P
	if !r.Require(p.Pkgs["internal/wire"] != nil, "anchor", "package internal/wire") {
		return
	}
	r.schemas()
	r.sender()
	r.receiver()
	r.pyEncoder()
}

// schemas compares the schema's four forms.
func (r *R) schemas() {
	ref := goSchema(r.P)
	r.Count("schema fields", len(ref))
	r.Floor("schema fields", 7)
	cmp := func(where string, s map[string]wireField, err error) {
		if err != nil {
			r.Violate("schema", where, 0, "the schema in %s cannot be read: %v", where, err)
			return
		}
		for k, f := range ref {
			g, ok := s[k]
			if !ok {
				r.Violate("schema", where+":"+k, 0, "%s lacks the field %s of the Go types", where, k)
			} else if f != g {
				r.Violate("schema", where+":"+k, 0, "field %s is %v in the Go types and %v in %s", k, f, g, where)
			}
			r.Count("schema fields compared", 1)
		}
		for k := range s {
			if _, ok := ref[k]; !ok {
				r.Violate("schema", where+":"+k, 0, "%s has a field %s that the Go types lack", where, k)
			}
		}
	}
	s, err := protoSchema(filepath.Join(r.P.Repo, "internal/wire/collector.proto"))
	cmp("internal/wire/collector.proto", s, err)
	b, err := os.ReadFile(filepath.Join(r.P.Repo, "python/appdash/collector_pb2.py"))
	cmp("python/appdash/collector_pb2.py", pySchema(string(b)), err)
	s, err = pySerialized(string(b))
	cmp("python/appdash/collector_pb2.py (serialized)", s, err)
}

// wireParts describes a wire struct's protobuf fields: lower-case name ->
// index.
func wireParts(t types.Type) map[string]int {
	out := map[string]int{}
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if name, _, ok := protoName(s.Tag(i)); ok {
			out[name] = i
		}
	}
	return out
}

func plainParts(t types.Type) map[string]int {
	out := map[string]int{}
	s := deref(t).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		out[strings.ToLower(s.Field(i).Name())] = i
	}
	return out
}

// content is what a wire field holds: through a pointer, or directly.
func (e *Engine) content(st *State, v *Term) *Term {
	if p, ok := v.typ.Underlying().(*types.Pointer); ok && !v.isNil() {
		if _, ok := p.Elem().Underlying().(*types.Basic); ok {
			o := v.origin()
			return e.peek(st, o, deref(o.typ)).origin()
		}
	}
	return v.origin()
}

func (r *R) sender() {
	p := r.P
	span, ann := p.Named("", "SpanID"), p.Named("", "Annotation")
	collect := p.Method("", "RemoteCollector", "Collect")
	if !r.Require(span != nil && ann != nil && collect != nil && len(collect.Params) == 3, "anchor", "RemoteCollector.Collect(SpanID, ...Annotation)") {
		return
	}
	spanF, annF := plainParts(span), plainParts(ann)
	e := NewEngine(p)
	e.Loops = true
	var src *Term
	l := newLists(e, func(st *State, v *Term) string {
		parts := wireParts(v.typ)
		if len(parts) == 0 || isObj(v) && v.op != "alloc" {
			return "something that is not a wire annotation"
		}
		if !isObj(v) {
			return "something that is not newly made"
		}
		for name, i := range parts {
			a := e.fieldAddr(v, v.typ, i)
			ptr := e.peek(st, a, deref(a.typ))
			got := e.content(st, ptr)
			if f := copiedFrom(e, st, got); f != got {
				got = f
			}
			want, ok := annF[name]
			if !ok {
				return "a wire annotation with an unknown field " + name
			}
			b, path := fieldPath(got)
			if b.op != "ia" || len(path) != 1 || path[0] != ann.Underlying().(*types.Struct).Field(want).Name() {
				return "a wire annotation whose " + name + " is not the given annotation's"
			}
			if b.args[0] != src {
				return "an annotation of another list"
			}
			if _, ok := e.elemIndex(b.args[1]); !ok {
				return "an annotation out of order"
			}
		}
		return fmt.Sprint("src:", src.id)
	})
	// An element must not live in memory that later iterations reuse.
	inner := l.describe
	var cur *LoopIter
	l.describe = func(st *State, v *Term) string {
		d := inner(st, v)
		if !strings.HasPrefix(d, "src:") {
			return d
		}
		for _, i := range wireParts(v.typ) {
			a := e.fieldAddr(v, v.typ, i)
			for _, t := range []*Term{v, e.peek(st, a, deref(a.typ)).origin()} {
				if _, ok := t.typ.Underlying().(*types.Pointer); !ok {
					continue
				}
				if b := rawBase(t); b.op == "alloc" && !bornIn(b, cur.Loop, cur.Ctx) {
					return "memory that every iteration shares"
				}
			}
		}
		return d
	}
	e.Keep = func(st *State, ev *Event) bool { return l.isWrite(ev) || isWriteMsg(ev) }
	e.OnIter = func(st *State, it *LoopIter) {
		cur = it
		l.iter(st, it)
	}
	e.OnEvent = func(st *State, ev *Event) {
		written := callsOf(st.trace, isWriteMsg)
		if ev.Kind == "store" {
			b, _ := addrPath(ev.Args[0])
			for _, w := range written {
				if b == w.Args[1].origin() || rawBase(ev.Args[0]) == w.Args[1].origin() {
					r.Violate("changed", fnLabel(ev.Fn), ev.Site.Pos(), "the packet is changed after a first attempt to write it")
				}
			}
		}
		if !isWriteMsg(ev) {
			return
		}
		for _, w := range written {
			if w.Args[1] == ev.Args[1] {
				return // not changed since
			}
		}
		r.Count("packets written", 1)
		at := func(rule, f string, args ...any) { r.Violate(rule, fnLabel(ev.Fn), ev.Site.Pos(), f, args...) }
		pkt := ev.Args[1].origin()
		parts := wireParts(pkt.typ)
		for name, i := range parts {
			a := e.fieldAddr(pkt, pkt.typ, i)
			v := e.peek(st, a, deref(a.typ))
			switch v.typ.Underlying().(type) {
			case *types.Slice:
				if d, ok := l.source(st, v, src); !ok {
					if d == "" {
						d = "an empty list"
					}
					at("annotations", "the packet's annotations are not those given, one by one: %s", d)
				}
				r.Count("lists sent", 1)
			default:
				id := v.origin()
				if !isObj(id) {
					at("span", "the packet's %s is not newly made from the given span ID", name)
					continue
				}
				for fname, j := range wireParts(id.typ) {
					fa := e.fieldAddr(id, id.typ, j)
					ptr := e.peek(st, fa, deref(fa.typ))
					want, ok := spanF[fname]
					if !ok {
						at("span:"+fname, "the packet's span ID has an unknown field %s", fname)
						continue
					}
					w := e.fieldOf(e.Param(collect, 1), span, want)
					_, f, _ := protoName(deref(id.typ).Underlying().(*types.Struct).Tag(j))
					if ptr.isNil() && f.label == "opt" && e.isZero(st, w) {
						continue
					}
					if ptr.isNil() || e.content(st, ptr) != w {
						at("span:"+fname, "the packet's %s ID is not the given span's", fname)
					}
					r.Count("components sent", 1)
				}
			}
		}
		if len(parts) != 2 {
			at("packet", "the message written is not a collect packet")
		}
	}
	src = e.Param(collect, 2)
	e.Run(collect, nil)
	r.Use(e)
	r.Floor("packets written", 2)
	r.Floor("lists sent", 2)
	r.Floor("components sent", 3)
	// Framing.
	wr, rd := p.pioNew("Writer"), p.pioNew("Reader")
	r.Require(len(wr) > 0 && len(rd) > 0, "anchor", "a message writer and a message reader")
	for _, w := range wr {
		for _, x := range rd {
			r.Count("framing pairs", 1)
			if strings.TrimSuffix(w, "Writer") != strings.TrimSuffix(x, "Reader") {
				r.Violate("framing", w+"/"+x, 0, "packets are written by %s and read by %s", w, x)
			}
		}
	}
}

// pioNew lists the protobuf readers or writers that the repository makes.
func (p *Program) pioNew(kind string) []string {
	seen := map[string]bool{}
	var out []string
	for _, fn := range p.srcFn {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := c.Common().StaticCallee()
				if f == nil {
					continue
				}
				n := fnName(f)
				if i := strings.Index(n, "protobuf/io.New"); i >= 0 && strings.HasSuffix(n, kind) && !seen[n] {
					seen[n] = true
					out = append(out, n[i+len("protobuf/io.New"):])
				}
			}
		}
	}
	return out
}

func (r *R) receiver() {
	s := newServer(r)
	if s == nil {
		return
	}
	p := r.P
	span, ann := p.Named("", "SpanID"), p.Named("", "Annotation")
	s.handler(func(e *Engine, conn *Term) {
		e.Loops = true
		// absent notes the optional fields that the path has found missing.
		absent := func(st *State) {
			for f, v := range st.facts {
				if f.op != "eq" || !v {
					continue
				}
				for _, x := range f.args {
					if _, ps := fieldPath(x); len(ps) == 3 && ps[0] == "Spanid" {
						st.notes["absent:"+ps[2]] = "1"
					}
				}
			}
		}
		l := newLists(e, func(st *State, v *Term) string {
			if !isNamed(v.typ, "", "Annotation") {
				return "something that is not an annotation"
			}
			var list *Term
			sf := ann.Underlying().(*types.Struct)
			for i := 0; i < sf.NumFields(); i++ {
				f := sf.Field(i).Name()
				x := e.fieldOf(v, ann, i)
				x = copiedFrom(e, st, x)
				b, path := fieldPath(x)
				ps := strings.Join(path, ".")
				if ps != "*."+f && ps != "*."+f+".*" || b.op != "ia" {
					return "an annotation whose " + f + " is not the received one's"
				}
				if _, ok := e.elemIndex(b.args[1]); !ok {
					return "an annotation out of order"
				}
				if list != nil && list != b.args[0] {
					lb, lp := fieldPath(list)
					if !pathIs(b.args[0], lb, strings.Join(lp, ".")) {
						return "parts of different lists"
					}
				} else {
					list = b.args[0]
				}
			}
			b, path := fieldPath(list)
			return fmt.Sprint("src:", b.id, strings.Join(path, "."))
		})
		e.Keep = func(st *State, ev *Event) bool { return l.isWrite(ev) || isReadMsg(ev) }
		e.OnIter = l.iter
		e.OnEvent = func(st *State, ev *Event) {
			if isReadMsg(ev) {
				for k := range st.notes {
					if strings.HasPrefix(k, "absent:") {
						delete(st.notes, k)
					}
				}
			} else {
				absent(st)
			}
			if !isCollect(ev) || len(ev.Args) != 3 {
				return
			}
			at := func(rule, f string, args ...any) { r.Violate(rule, fnLabel(ev.Fn), ev.Site.Pos(), f, args...) }
			reads := callsOf(st.trace, isReadMsg)
			if len(reads) == 0 {
				at("not-read", "something is collected before a packet has been read")
				return
			}
			pkt := lastArg(reads[len(reads)-1]).origin()
			r.Count("packets collected", 1)
			sf := span.Underlying().(*types.Struct)
			for i := 0; i < sf.NumFields(); i++ {
				f := sf.Field(i).Name()
				v := e.fieldOf(ev.Args[1], span, i)
				b, path := fieldPath(v)
				ps := strings.Join(path, ".")
				ok := b == pkt && ps == "Spanid.*."+f+".*"
				if !ok && e.isZero(st, v) {
					ok = st.notes["absent:"+f] != ""
				}
				if !ok {
					at("span:"+f, "the collected %s ID is not the received packet's", strings.ToLower(f))
				}
				r.Count("components received", 1)
			}
			r.Count("lists received", 1)
			list := ev.Args[2]
			var srcs []*Term
			for _, t := range e.T.all {
				if (t.op == "load" || t.op == "havoc" || t.op == "loopmem") && pathIs(t, pkt, "Annotation") {
					srcs = append(srcs, t)
				}
			}
			why := "the packet's list is not used"
			for _, src := range srcs {
				d, ok := l.source(st, list, src, fmt.Sprint("src:", pkt.id, "Annotation"))
				if ok {
					return
				}
				if d != "" {
					why = d
				}
			}
			at("annotations", "the collected annotations are not those received, one by one: %s", why)
		}
	})
	r.Floor("packets collected", 1)
	r.Floor("components received", 3)
	r.Floor("lists received", 1)
}
