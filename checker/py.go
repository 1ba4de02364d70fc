package main

import (
	"encoding/json"
	"fmt"
	"os/exec"
	"path/filepath"
	"strings"
)

// Python sources are parsed with Python's own ast module; none of them is
// imported or run.
const pyDump = `
import ast, json, sys
def d(n):
    if isinstance(n, ast.AST):
        r = {"_": type(n).__name__}
        if hasattr(n, "lineno"): r["line"] = n.lineno
        for k, v in ast.iter_fields(n): r[k] = d(v)
        return r
    if isinstance(n, list): return [d(x) for x in n]
    if isinstance(n, (str, int, float, bool)) or n is None: return n
    return str(n)
sys.setrecursionlimit(10000)
json.dump(d(ast.parse(open(sys.argv[1], encoding="utf-8").read())), sys.stdout)
`

type pyNode map[string]any

func (n pyNode) kind() string { s, _ := n["_"].(string); return s }
func (n pyNode) line() int    { f, _ := n["line"].(float64); return int(f) }
func (n pyNode) str(k string) string {
	s, _ := n[k].(string)
	return s
}
func (n pyNode) node(k string) pyNode {
	m, _ := n[k].(map[string]any)
	return m
}
func (n pyNode) list(k string) []pyNode {
	l, _ := n[k].([]any)
	var out []pyNode
	for _, x := range l {
		m, _ := x.(map[string]any)
		out = append(out, m)
	}
	return out
}

// pyParse parses a Python source file of the repository.
func (p *Program) pyParse(rel string) (pyNode, error) {
	out, err := exec.Command("python3", "-c", pyDump, filepath.Join(p.Repo, rel)).Output()
	if err != nil {
		msg := err.Error()
		if x, ok := err.(*exec.ExitError); ok {
			ls := strings.Split(strings.TrimSpace(string(x.Stderr)), "\n")
			msg = ls[len(ls)-1]
		}
		return nil, fmt.Errorf("%s: %s", rel, msg)
	}
	var n pyNode
	if err := json.Unmarshal(out, &n); err != nil {
		return nil, err
	}
	return n, nil
}

// A pyVal is a symbolic Python value: an access path, a constant, a
// concatenation, a dictionary or an instance.
type pyVal struct {
	op   string // path const cat dict inst elem call tuple
	name string
	args []*pyVal
	keys []*pyVal          // of dict
	obj  map[string]*pyVal // of inst
	cls  string            // of inst: its class
}

func pyPath(s string) *pyVal { return &pyVal{op: "path", name: s} }

func (v *pyVal) String() string {
	if v == nil {
		return "?"
	}
	switch v.op {
	case "path", "const":
		return v.name
	}
	var a []string
	for i, x := range v.args {
		s := x.String()
		if i < len(v.keys) {
			s = v.keys[i].String() + ": " + s
		}
		a = append(a, s)
	}
	return v.op + " " + v.name + "(" + strings.Join(a, ", ") + ")"
}

func (v *pyVal) has(f func(*pyVal) bool) bool {
	if v == nil {
		return false
	}
	if f(v) {
		return true
	}
	for _, l := range [][]*pyVal{v.args, v.keys} {
		for _, x := range l {
			if x.has(f) {
				return true
			}
		}
	}
	return false
}

// A pyAssign is an assignment to an attribute or element, or an append.
type pyAssign struct {
	to   string // access path of the target
	key  *pyVal // of d[key] = v
	v    *pyVal
	cond int // enclosing conditions
	loop []*pyVal
	line int
	what string // attr, item, append
	base *pyVal
	// the branches of conditions that it is in: "/1t/2f"
	branch string
}

// pyRun interprets a function symbolically: straight through its statements,
// both branches of each condition, loops once.
type pyRun struct {
	mod     map[string]pyNode // functions and classes of the module
	assigns []*pyAssign
	returns []*pyVal
	cond    int
	loops   []*pyVal
	depth   int
	retCond bool // a conditional return or raise
	base    int  // conditions and loops around the current call
	pend    bool // the current function may have returned
	seq     int
	calls   []*pyVal
	branch  string
	ifs     int
	whiles  int
}

func copyObj(m map[string]*pyVal) map[string]*pyVal {
	out := map[string]*pyVal{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

// class collects the attributes and methods of a class and its bases.
func (r *pyRun) class(name string) (attrs map[string]pyNode, methods map[string]pyNode, ok bool) {
	attrs, methods = map[string]pyNode{}, map[string]pyNode{}
	def := r.mod[name]
	if def.kind() != "ClassDef" || r.depth > 20 {
		return
	}
	r.depth++
	defer func() { r.depth-- }()
	for _, b := range def.list("bases") {
		a, m, _ := r.class(b.str("id"))
		for k, v := range a {
			attrs[k] = v
		}
		for k, v := range m {
			methods[k] = v
		}
	}
	for _, s := range def.list("body") {
		switch s.kind() {
		case "FunctionDef":
			methods[s.str("name")] = s
		case "Assign":
			for _, t := range s.list("targets") {
				if t.kind() == "Name" {
					attrs[t.str("id")] = s.node("value")
				}
			}
		}
	}
	return attrs, methods, true
}

// instance makes an instance with the attributes of its class.
func (r *pyRun) instance(name string) *pyVal {
	v := &pyVal{op: "inst", name: name, cls: name, obj: map[string]*pyVal{}}
	attrs, _, _ := r.class(name)
	for k, a := range attrs {
		v.obj[k] = r.expr(a, nil)
	}
	return v
}

func one(out []*pyVal) *pyVal {
	switch len(out) {
	case 0:
		return pyPath("None")
	case 1:
		return out[0]
	}
	return &pyVal{op: "or", args: out}
}

func pyModule(n pyNode) map[string]pyNode {
	out := map[string]pyNode{}
	for _, s := range n.list("body") {
		switch s.kind() {
		case "FunctionDef", "ClassDef":
			out[s.str("name")] = s
		case "Assign":
			for _, t := range s.list("targets") {
				if t.kind() == "Name" {
					out[t.str("id")] = s
				}
			}
		}
	}
	return out
}

func (r *pyRun) fn(f pyNode, args []*pyVal, kw map[string]*pyVal) []*pyVal {
	env := map[string]*pyVal{}
	a := f.node("args")
	ps := append(a.list("posonlyargs"), a.list("args")...)
	defs := a.list("defaults")
	for i, p := range ps {
		n := p.str("arg")
		switch {
		case i < len(args):
			env[n] = args[i]
		case kw[n] != nil:
			env[n] = kw[n]
		case i >= len(ps)-len(defs) && r.depth > 0:
			env[n] = r.expr(defs[i-(len(ps)-len(defs))], env)
		default:
			env[n] = pyPath(n)
		}
	}
	if va := a.node("vararg"); va != nil {
		env[va.str("arg")] = pyPath("*" + va.str("arg"))
		if len(args) > len(ps) {
			env[va.str("arg")] = &pyVal{op: "tuple", args: args[len(ps):]}
			if len(args) == len(ps)+1 && args[len(ps)].op == "star" {
				env[va.str("arg")] = args[len(ps)].args[0]
			}
		}
	}
	saved, base, pend := r.returns, r.base, r.pend
	r.returns, r.base, r.pend = nil, r.cond+len(r.loops), false
	r.depth++
	r.stmts(f.list("body"), env)
	r.depth--
	out := r.returns
	r.returns, r.base, r.pend = saved, base, pend
	return out
}

func (r *pyRun) stmts(l []pyNode, env map[string]*pyVal) {
	for _, s := range l {
		n := len(r.assigns)
		pend := r.pend
		r.stmt(s, env)
		if pend && (len(r.assigns) > n || s.kind() == "Expr") {
			r.retCond = true // an effect that a return may have skipped
		}
	}
}

func (r *pyRun) stmt(s pyNode, env map[string]*pyVal) {
	switch s.kind() {
	case "Assign":
		v := r.expr(s.node("value"), env)
		for _, t := range s.list("targets") {
			r.assign(t, v, env)
		}
	case "AugAssign":
		t := s.node("target")
		r.assign(t, &pyVal{op: "cat", args: []*pyVal{r.expr(t, env), r.expr(s.node("value"), env)}}, env)
	case "Expr":
		r.expr(s.node("value"), env)
	case "Return":
		if r.cond+len(r.loops) > r.base {
			if r.depth == 1 {
				r.retCond = true
			}
			r.pend = true
		}
		if s.node("value") != nil {
			r.returns = append(r.returns, r.expr(s.node("value"), env))
		}
	case "Raise":
		r.retCond = r.retCond || r.cond > 0
	case "If":
		r.expr(s.node("test"), env)
		r.cond++
		e1, e2 := map[string]*pyVal{}, map[string]*pyVal{}
		var objs []*pyVal // instances that the branches may change
		seen := map[*pyVal]bool{}
		for k, v := range env {
			e1[k], e2[k] = v, v
			if v != nil && v.op == "inst" && !seen[v] {
				seen[v] = true
				objs = append(objs, v)
			}
		}
		was := map[*pyVal]map[string]*pyVal{}
		for _, o := range objs {
			was[o] = copyObj(o.obj)
		}
		outer := r.branch
		r.ifs++
		id := r.ifs
		r.branch = fmt.Sprintf("%s/%dt", outer, id)
		r.stmts(s.list("body"), e1)
		then := map[*pyVal]map[string]*pyVal{}
		for _, o := range objs {
			then[o], o.obj = o.obj, copyObj(was[o])
		}
		r.branch = fmt.Sprintf("%s/%df", outer, id)
		r.stmts(s.list("orelse"), e2)
		r.branch = outer
		r.cond--
		for _, o := range objs {
			for k, v := range then[o] {
				if w := o.obj[k]; w == nil {
					o.obj[k] = v
				} else if w != v {
					o.obj[k] = &pyVal{op: "or", args: []*pyVal{v, w}}
				}
			}
		}
		for k, v := range e1 {
			if w, ok := e2[k]; ok && w != v {
				env[k] = &pyVal{op: "or", args: []*pyVal{v, w}}
			} else {
				env[k] = v
			}
		}
		for k, v := range e2 {
			if _, ok := e1[k]; !ok {
				env[k] = v
			}
		}
	case "For":
		it := r.expr(s.node("iter"), env)
		r.bind(s.node("target"), it, env)
		r.loops = append(r.loops, it)
		r.stmts(s.list("body"), env)
		r.loops = r.loops[:len(r.loops)-1]
	case "While":
		r.cond++
		r.whiles++
		r.stmts(s.list("body"), env)
		r.whiles--
		r.cond--
	case "Try":
		r.stmts(s.list("body"), env)
		r.stmts(s.list("finalbody"), env)
	case "With":
		r.stmts(s.list("body"), env)
	case "Continue", "Break":
		r.retCond = true
	}
}

// bind gives a loop variable its element.
func (r *pyRun) bind(t pyNode, it *pyVal, env map[string]*pyVal) {
	if t.kind() == "Tuple" && it.op == "items" {
		for i, x := range t.list("elts") {
			n := []string{"key", "val"}[i%2]
			env[x.str("id")] = &pyVal{op: n, args: it.args}
		}
		return
	}
	if t.kind() == "Tuple" && it.op == "call" && it.name == "enumerate" && len(it.args) == 1 {
		if l := t.list("elts"); len(l) == 2 {
			env[l[0].str("id")] = pyPath("index")
			r.bind(l[1], it.args[0], env)
			return
		}
	}
	env[t.str("id")] = &pyVal{op: "elem", args: []*pyVal{it}}
}

func (r *pyRun) assign(t pyNode, v *pyVal, env map[string]*pyVal) {
	rec := func(a *pyAssign) {
		a.cond, a.line, a.v, a.branch = r.cond, t.line(), v, r.branch
		a.loop = append([]*pyVal(nil), r.loops...)
		r.assigns = append(r.assigns, a)
	}
	switch t.kind() {
	case "Name":
		env[t.str("id")] = v
	case "Attribute":
		b := r.expr(t.node("value"), env)
		if b.op == "inst" {
			if old := b.obj[t.str("attr")]; old != nil && r.whiles+len(r.loops) > 0 {
				v = &pyVal{op: "or", args: []*pyVal{old, v}}
			}
			b.obj[t.str("attr")] = v
		}
		rec(&pyAssign{what: "attr", to: b.String() + "." + t.str("attr"), base: b})
	case "Subscript":
		b := r.expr(t.node("value"), env)
		k := r.expr(t.node("slice"), env)
		if b.op == "dict" {
			b.keys, b.args = append(b.keys, k), append(b.args, v)
		}
		rec(&pyAssign{what: "item", to: b.String(), key: k, base: b})
	}
}

func (r *pyRun) expr(n pyNode, env map[string]*pyVal) *pyVal {
	switch n.kind() {
	case "Name":
		id := n.str("id")
		if v, ok := env[id]; ok {
			return v
		}
		if s, ok := r.mod[id]; ok && s.kind() == "Assign" && r.depth < 10 {
			r.depth++
			defer func() { r.depth-- }()
			return r.expr(s.node("value"), nil)
		}
		return pyPath(id)
	case "Constant":
		if s, ok := n["value"].(string); ok {
			return &pyVal{op: "const", name: s}
		}
		return &pyVal{op: "lit", name: fmt.Sprint(n["value"])}
	case "Attribute":
		b := r.expr(n.node("value"), env)
		if b.op == "inst" {
			if v, ok := b.obj[n.str("attr")]; ok {
				return v
			}
		}
		return pyPath(b.String() + "." + n.str("attr"))
	case "BinOp":
		if n.node("op").kind() == "Add" {
			return &pyVal{op: "cat", args: append(catArgs(r.expr(n.node("left"), env)), catArgs(r.expr(n.node("right"), env))...)}
		}
		if f := n.node("left"); n.node("op").kind() == "Mod" && f.kind() == "Constant" {
			vals := []*pyVal{r.expr(n.node("right"), env)}
			if vals[0].op == "tuple" {
				vals = vals[0].args
			}
			if s, ok := f["value"].(string); ok && strings.Count(s, "%") == strings.Count(s, "%s") && strings.Count(s, "%s") == len(vals) {
				v := &pyVal{op: "cat"}
				for i, part := range strings.Split(s, "%s") {
					if i > 0 {
						v.args = append(v.args, catArgs(vals[i-1])...)
					}
					if part != "" {
						v.args = append(v.args, &pyVal{op: "const", name: part})
					}
				}
				return v
			}
		}
	case "BoolOp":
		v := &pyVal{op: "or"}
		for _, x := range n.list("values") {
			v.args = append(v.args, r.expr(x, env))
		}
		return v
	case "Subscript":
		b, k := r.expr(n.node("value"), env), r.expr(n.node("slice"), env)
		if b.op == "dict" { // the last one
			for i := len(b.keys) - 1; i >= 0; i-- {
				if b.keys[i].String() == k.String() && k.op == "const" {
					return b.args[i]
				}
			}
		}
		if k.op == "key" && k.args[0].String() == b.String() || k.op == "elem" && k.args[0].String() == b.String() {
			return &pyVal{op: "val", args: []*pyVal{b}}
		}
	case "JoinedStr":
		v := &pyVal{op: "cat"}
		for _, x := range n.list("values") {
			if x.kind() == "FormattedValue" {
				x = x.node("value")
			}
			v.args = append(v.args, r.expr(x, env))
		}
		return v
	case "Dict":
		v := &pyVal{op: "dict"}
		vals := n.list("values")
		for i, k := range n.list("keys") {
			if k == nil {
				continue
			}
			v.keys = append(v.keys, r.expr(k, env))
			v.args = append(v.args, r.expr(vals[i], env))
		}
		return v
	case "List", "Tuple":
		v := &pyVal{op: "tuple"}
		for _, x := range n.list("elts") {
			v.args = append(v.args, r.expr(x, env))
		}
		return v
	case "IfExp":
		return &pyVal{op: "or", args: []*pyVal{r.expr(n.node("body"), env), r.expr(n.node("orelse"), env)}}
	case "GeneratorExp", "ListComp":
		in := map[string]*pyVal{}
		for k, v := range env {
			in[k] = v
		}
		v := &pyVal{op: "comp"}
		for _, g := range n.list("generators") {
			it := r.expr(g.node("iter"), in)
			r.bind(g.node("target"), it, in)
			v.keys = append(v.keys, it)
		}
		v.args = []*pyVal{r.expr(n.node("elt"), in)}
		return v
	case "Starred":
		return &pyVal{op: "star", args: []*pyVal{r.expr(n.node("value"), env)}}
	case "Call":
		return r.call(n, env)
	}
	return pyPath("?" + n.kind())
}

func catArgs(v *pyVal) []*pyVal {
	if v.op == "cat" {
		return v.args
	}
	return []*pyVal{v}
}

func (r *pyRun) call(n pyNode, env map[string]*pyVal) *pyVal {
	var args []*pyVal
	for _, a := range n.list("args") {
		args = append(args, r.expr(a, env))
	}
	kw := map[string]*pyVal{}
	for _, k := range n.list("keywords") {
		kw[k.str("arg")] = r.expr(k.node("value"), env)
	}
	f := n.node("func")
	switch f.kind() {
	case "Name":
		def := r.mod[f.str("id")]
		if _, local := env[f.str("id")]; !local && r.depth < 10 {
			switch def.kind() {
			case "FunctionDef":
				if out := r.fn(def, args, kw); len(out) == 1 {
					return out[0]
				} else if len(out) > 1 {
					return &pyVal{op: "or", args: out}
				}
				return pyPath("None")
			}
		}
	case "Attribute":
		b := r.expr(f.node("value"), env)
		m := f.str("attr")
		if b.op == "inst" && b.cls != "" && r.depth < 10 {
			if _, ms, _ := r.class(b.cls); ms[m] != nil {
				return one(r.fn(ms[m], append([]*pyVal{b}, args...), kw))
			}
		}
		if self := env["self"]; self != nil && self.op == "inst" && r.depth < 10 {
			for _, base := range r.mod[self.cls].list("bases") {
				n := base.str("id")
				if super := b.op == "call" && b.name == "super"; !super && (b.op != "path" || b.name != n) {
					continue
				} else if _, ms, _ := r.class(n); ms[m] != nil {
					if super {
						args = append([]*pyVal{self}, args...)
					}
					return one(r.fn(ms[m], args, kw))
				}
			}
		}
		switch {
		case m == "update" && b.op == "dict" && len(args) == 1 && args[0].op == "dict":
			b.keys, b.args = append(b.keys, args[0].keys...), append(b.args, args[0].args...)
			return pyPath("None")
		case m == "append" && len(args) == 1:
			if b.op == "tuple" {
				b.args = append(b.args, args[0])
			}
			r.assigns = append(r.assigns, &pyAssign{what: "append", to: b.String(), base: b, v: args[0], cond: r.cond, loop: append([]*pyVal(nil), r.loops...), line: n.line()})
			return pyPath("None")
		case m == "items" || m == "iteritems":
			return &pyVal{op: "items", args: []*pyVal{b}}
		case m == "join" && len(args) == 1 && args[0].op == "tuple" && b.op == "const" && b.name == "":
			return &pyVal{op: "cat", args: args[0].args}
		}
		r.seq++
		id := r.seq
		v := pyPath(fmt.Sprintf("%s.%s()#%d", b, m, id))
		if m != "add" && m != "CollectPacket" {
			v = &pyVal{op: "call", name: b.String() + "." + m, args: args}
		}
		for k, x := range kw {
			r.assigns = append(r.assigns, &pyAssign{what: "attr", to: v.String() + "." + k, base: v, v: x, cond: r.cond, loop: append([]*pyVal(nil), r.loops...), line: n.line()})
		}
		r.calls = append(r.calls, v)
		return v
	}
	if f.str("id") == "dict" && (len(args) == 0 || len(args) == 1 && args[0].op == "dict") {
		v := &pyVal{op: "dict"}
		if len(args) == 1 {
			v.keys, v.args = append(v.keys, args[0].keys...), append(v.args, args[0].args...)
		}
		for _, k := range n.list("keywords") {
			v.keys, v.args = append(v.keys, &pyVal{op: "const", name: k.str("arg")}), append(v.args, kw[k.str("arg")])
		}
		return v
	}
	v := &pyVal{op: "call", name: f.str("id"), args: args}
	r.calls = append(r.calls, v)
	return v
}

// pyEncoder checks the Python client's encoder (C11).
func (r *R) pyEncoder() {
	const file = "python/appdash/encode.py"
	n, err := r.P.pyParse(file)
	if err != nil {
		r.Violate("python", file, 0, "the Python encoder cannot be parsed: %v", err)
		return
	}
	mod := pyModule(n)
	ref := goSchema(r.P)
	packets, framed := 0, 0
	for name, f := range mod {
		if f.kind() != "FunctionDef" {
			continue
		}
		run := &pyRun{mod: mod}
		rets := run.fn(f, nil, nil)
		at := func(rule, format string, args ...any) {
			r.Violate(rule, file+":"+name, 0, file+":"+fmt.Sprint(f.line())+": "+format, args...)
		}
		// A framed message.
		for _, v := range rets {
			ser := func(x *pyVal) bool {
				return x != nil && x.op == "call" && strings.HasSuffix(x.name, ".SerializeToString")
			}
			if !v.has(ser) {
				continue
			}
			framed++
			ok := v.op == "cat" && len(v.args) == 2 && ser(v.args[1])
			if ok {
				l := v.args[0]
				ok = l.op == "call" && strings.HasSuffix(l.name, "varint.encode") && len(l.args) == 1 && l.args[0].op == "call" && l.args[0].name == "len" && len(l.args[0].args) == 1 && l.args[0].args[0] == v.args[1]
			}
			if !ok {
				at("python-framing", "a serialized packet is not preceded by its length as a varint")
			}
		}
		// A packet.
		isPacket := false
		for _, v := range rets {
			isPacket = isPacket || v.op == "path" && strings.Contains(v.name, ".CollectPacket()#") && !strings.Contains(strings.SplitN(v.name, "CollectPacket()#", 2)[1], ".")
		}
		if !isPacket {
			continue
		}
		packets++
		for fld, spec := range ref {
			parts := strings.Split(fld, ".")
			if len(parts) != 3 {
				continue
			}
			found := 0
			for _, a := range run.assigns {
				i := strings.Index(a.to, "CollectPacket()#")
				if i < 0 || a.what != "attr" {
					continue
				}
				p := strings.Split(a.to[i:], ".")
				if len(p) < 3 || strings.ToLower(p[1]) != parts[1] || p[len(p)-1] != parts[2] {
					continue
				}
				found++
				r.Count("Python assignments", 1)
				if a.cond > 0 && spec.label == "req" {
					at("python:"+fld, "the required field %s is only set on some paths", fld)
				}
				src := a.v.String()
				j := strings.LastIndex(src, ".")
				if a.v.op != "path" || j < 0 || src[j+1:] != parts[2] {
					at("python:"+fld, "the field %s is set to %s", fld, src)
				}
				if parts[1] == "annotation" {
					if len(a.loop) != 1 || !strings.HasPrefix(a.loop[0].String(), "*") || !strings.HasPrefix(src, "elem (*") || a.cond > 0 {
						at("python:"+fld, "the annotations are not added one by one, each of them")
					}
				} else if len(a.loop) > 0 {
					at("python:"+fld, "the span ID is set in a loop")
				}
			}
			if found != 1 {
				at("python:"+fld, "the field %s is set %d times instead of once", fld, found)
			}
		}
		if run.retCond {
			at("python", "the encoder can leave annotations or fields out")
		}
	}
	r.Count("Python packets", packets)
	r.Count("Python framing functions", framed)
	r.Floor("Python packets", 1)
	r.Floor("Python framing functions", 1)
	r.Floor("Python assignments", 5)
}
