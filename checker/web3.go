package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	htmltemplate "html/template"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

const (
	tmplRel  = "traceapp/tmpl"
	htmlType = "(*html/template.Template)."
)

// webTmpl is a template set that the set-up code builds.
type webTmpl struct {
	files []string
	funcs map[string]types.Type
	root  string
	site  ssa.Instruction
	bad   string
}

func (*webTmpl) made() {}

// pages finds out which pages there are: their names, files, functions.
func (w *webRule) pages() map[string]*webTmpl {
	r := w.r
	parsers := map[*ssa.Function]bool{}
	for _, fn := range w.p.srcFn {
		if fn.Pkg == w.pkg && callsNamed(fn, htmlType+"Parse") {
			parsers[fn] = true
		}
	}
	// The function that is asked for the whole of it: one that no other
	// function with calls of Parse below it calls.
	rv := newRelevance(w.p, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() != nil && strings.HasPrefix(fnName(c.Common().StaticCallee()), htmlType+"Parse")
	})
	stores := func(fn *ssa.Function) bool { // keeps or returns the templates
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if isTmplMap(fn.Signature.Results().At(i).Type()) {
				return true
			}
		}
		all := w.p.reachedFrom(fn)
		all[fn] = true
		for g := range all {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						if isTmplMap(in.Val.Type()) {
							if _, ok := in.Addr.(*ssa.FieldAddr); ok {
								return true
							}
						}
					case *ssa.Call:
						if callsNamed(g, htmlType+"Execute") || callsNamed(g, htmlType+"ExecuteTemplate") {
							return false
						}
					}
				}
			}
		}
		return false
	}
	var roots []*ssa.Function
	for _, fn := range w.p.srcFn {
		if fn.Pkg == w.pkg && fn.Parent() == nil && rv.has(fn) && stores(fn) && !isHandlerLike(fn) {
			roots = append(roots, fn)
		}
	}
	var top []*ssa.Function
	for _, fn := range roots {
		inner := false
		for _, g := range roots {
			inner = inner || g != fn && w.p.reachedFrom(g)[fn]
		}
		if !inner {
			top = append(top, fn)
		}
	}
	if !r.Require(len(top) == 1, "anchor", fmt.Sprintf("the function that parses the page templates (found %d)", len(top))) {
		return nil
	}
	fn := top[0]
	out := map[string]*webTmpl{}
	seen := map[string]bool{}
	bad := func(site ssa.Instruction, format string, args ...any) {
		msg := fmt.Sprintf(format, args...)
		pos, where := fn.Pos(), fnLabel(fn)
		if site != nil {
			pos, where = site.Pos(), fnLabel(site.Parent())
		}
		if !seen[msg] {
			seen[msg] = true
			r.Violate("pages", where, pos, "%s", msg)
		}
	}
	try := func(args func(l *Lits) []lAny) {
		l := NewLits(w.p)
		l.Follow = w.inPkg
		l.Call = func(name string, args []lAny, site ssa.Instruction) (lAny, bool) {
			if name == "html/template.New" {
				return &webTmpl{funcs: map[string]types.Type{}, site: site}, true
			}
			if name == "html/template.Must" {
				if t, ok := args[0].(lTuple); ok && len(t) > 0 {
					return t[0], true
				}
				return args[0], true
			}
			if !strings.HasPrefix(name, htmlType) {
				return nil, false
			}
			t, _ := args[0].(*webTmpl)
			if t == nil {
				bad(site, "the template that is built here cannot be determined")
				return nil, true
			}
			switch strings.TrimPrefix(name, htmlType) {
			case "Funcs":
				m, ok := lBare(args[1]).(*lMap)
				if !ok {
					t.bad = "the functions for templates cannot be determined"
					return t, true
				}
				for i, k := range m.keys {
					n, ok := lStr(k)
					if !ok {
						t.bad = "the functions for templates cannot be determined"
						continue
					}
					var typ types.Type
					switch v := m.vals[i].(type) {
					case *lAs:
						typ = v.typ
					case *lFn:
						typ = v.fn.Signature
					}
					t.funcs[n] = typ
				}
				return t, true
			case "Parse":
				f, ok := w.fileOf(args[1], 0)
				if !ok {
					t.bad = "which file a template is parsed from cannot be determined"
				}
				t.files = append(t.files, f)
				return lTuple{t, &lCall{name, nil, site}}, true
			case "New":
				n := *t
				return &n, true
			case "Option", "Delims":
				if strings.HasSuffix(name, "Delims") {
					t.bad = "templates with other delimiters are not known to this rule"
				}
				return t, true
			case "Lookup":
				n := *t
				n.root, _ = lStr(args[1])
				return &n, true
			case "Clone":
				n := *t
				n.files = append([]string{}, t.files...)
				return lTuple{&n, lNil{}}, true
			case "Name":
				return nil, true
			}
			t.bad = "what " + name + " does is not known to this rule"
			return nil, true
		}
		var app *lObj
		var res lAny
		err := l.Paths(func() {
			app = &lObj{}
			if len(fn.Params) > 0 {
				app.typ = derefType(fn.Params[0].Type())
			}
			a := args(l)
			if fn.Signature.Recv() != nil {
				a[0] = app
			}
			res = l.Run(fn, a, nil)
		}, func() {
			first := res
			if t, ok := res.(lTuple); ok && len(t) > 0 {
				first, res = t[0], t[len(t)-1]
			}
			if returnsError(fn.Signature) {
				if _, ok := lBare(res).(lNil); !ok {
					return
				}
			}
			var maps []lAny
			if fn.Signature.Results().Len() > 0 && isTmplMap(fn.Signature.Results().At(0).Type()) {
				maps = append(maps, first)
			} else if st, ok := app.typ.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if isTmplMap(st.Field(i).Type()) {
						maps = append(maps, app.kid(i).load())
					}
				}
			}
			for _, v := range maps {
				m, ok := lBare(v).(*lMap)
				if !ok {
					continue
				}
				for j, k := range m.keys {
					n, ok := lStr(k)
					t, is := m.vals[j].(*webTmpl)
					if !ok || !is {
						bad(nil, "a page cannot be determined")
						continue
					}
					if t.bad != "" {
						bad(t.site, "%s", t.bad)
						continue
					}
					out[n] = t
				}
			}
		})
		if err != nil {
			r.Violate("undecided", fnLabel(fn), fn.Pos(), "the pages cannot be determined: %v", err)
		}
	}
	// with what its callers give it
	n := 0
	w.callers(fn, func(caller *ssa.Function, call ssa.CallInstruction, op []ssa.Value) {
		n++
		try(func(l *Lits) []lAny {
			a := make([]lAny, len(op))
			for i, v := range op {
				switch v := v.(type) {
				case *ssa.Const:
					a[i] = l.value(nil, v)
				case *ssa.UnOp:
					if g, ok := v.X.(*ssa.Global); ok {
						a[i] = l.global(g).(*lObj).load()
					}
				}
			}
			return a
		})
	})
	if n == 0 {
		bad(nil, "nothing parses the page templates")
	}
	r.Count("pages", len(out))
	r.Floor("pages", 4)
	return out
}

func isHandlerLike(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if isRW(p.Type()) {
			return true
		}
	}
	return false
}

func isTmplMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && typeIs(m.Elem(), "*html/template.Template")
}

// fileOf: the file of the template data that a text comes from.
func (w *webRule) fileOf(v lAny, depth int) (string, bool) {
	c, ok := lBare(v).(*lCall)
	if !ok || depth > 6 {
		return "", false
	}
	n, _, _ := strings.Cut(c.name, "#")
	if strings.HasSuffix(n, ".Open") || strings.HasSuffix(n, ".ReadFile") {
		s, ok := lStr(c.args[len(c.args)-1])
		return "/" + strings.TrimPrefix(s, "/"), ok
	}
	for _, a := range c.args {
		if s, ok := w.fileOf(a, depth+1); ok {
			return s, true
		}
	}
	return "", false
}

// webFiles are the template files, from one source.
type webFiles struct {
	what  string
	files map[string]string
}

func (w *webRule) templateFiles() (out []webFiles) {
	r := w.r
	dir := filepath.Join(w.p.Repo, "traceapp/tmpl/data")
	if ents, err := os.ReadDir(dir); err == nil {
		m := map[string]string{}
		for _, e := range ents {
			if b, err := os.ReadFile(filepath.Join(dir, e.Name())); err == nil {
				m["/"+e.Name()] = string(b)
			}
		}
		out = append(out, webFiles{"traceapp/tmpl/data", m})
	}
	pk := w.p.Pkgs[tmplRel]
	if pk == nil {
		return out
	}
	m := map[string]string{}
	for _, f := range pk.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			kv, ok := n.(*ast.KeyValueExpr)
			if !ok {
				return true
			}
			k, ok := pk.TypesInfo.Types[kv.Key]
			if !ok || k.Value == nil || k.Value.Kind() != constant.String || !strings.HasPrefix(constant.StringVal(k.Value), "/") {
				return true
			}
			name := constant.StringVal(k.Value)
			ast.Inspect(kv.Value, func(n ast.Node) bool {
				c, ok := n.(*ast.CallExpr)
				if !ok || len(c.Args) != 1 {
					return true
				}
				t, ok := pk.TypesInfo.Types[c.Fun]
				v := pk.TypesInfo.Types[c.Args[0]]
				if !ok || !t.IsType() || v.Value == nil || v.Value.Kind() != constant.String {
					return true
				}
				b := []byte(constant.StringVal(v.Value))
				if len(b) > 2 && b[0] == 0x1f && b[1] == 0x8b {
					gz, err := gzip.NewReader(bytes.NewReader(b))
					if err == nil {
						b, err = io.ReadAll(gz)
					}
					if err != nil {
						r.Violate("pages", tmplRel+" "+name, c.Pos(), "the compressed content of %s is damaged: %v", name, err)
						return false
					}
				}
				m[name] = string(b)
				return false
			})
			return true
		})
	}
	if len(m) > 0 {
		out = append(out, webFiles{"the files embedded in " + tmplRel, m})
	}
	return out
}

// webUse is a place where a page is rendered.
type webUse struct {
	page string
	data types.Type // nil: none
	site ssa.Instruction
	fn   *ssa.Function
}

// uses lists where pages are rendered, following parameters to the callers.
func (w *webRule) uses(render *ssa.Function, ni, di int) (out []webUse) {
	var follow func(fn *ssa.Function, ni, di int, data types.Type, depth int)
	follow = func(fn *ssa.Function, ni, di int, data types.Type, depth int) {
		n := w.callers(fn, func(caller *ssa.Function, call ssa.CallInstruction, op []ssa.Value) {
			d, ndi := data, -1
			if di >= 0 {
				switch v := op[di].(type) {
				case *ssa.MakeInterface:
					d = v.X.Type()
				case *ssa.Const:
					d = nil
				case *ssa.Parameter:
					ndi = paramIndex(caller, v)
				default:
					w.r.Violate("undecided", fnLabel(caller), call.Pos(), "the type of the data for this page cannot be determined")
					return
				}
			}
			switch v := op[ni].(type) {
			case *ssa.Const:
				if ndi >= 0 {
					w.r.Violate("undecided", fnLabel(caller), call.Pos(), "the type of the data for this page cannot be determined")
					return
				}
				s, _ := lStr(NewLits(w.p).value(nil, v))
				out = append(out, webUse{s, d, call, caller})
			case *ssa.Parameter:
				if depth < 4 {
					follow(caller, paramIndex(caller, v), ndi, d, depth+1)
				}
			default:
				w.r.Violate("undecided", fnLabel(caller), call.Pos(), "the name of the page that is rendered here cannot be determined")
			}
		})
		_ = n
	}
	follow(render, ni, di, nil, 0)
	return out
}

func paramIndex(fn *ssa.Function, p *ssa.Parameter) int {
	for i, q := range fn.Params {
		if q == p {
			return i
		}
	}
	return -1
}

// templates judges the pages against the data that they are given.
func (w *webRule) templates() {
	r := w.r
	pages := w.pages()
	if pages == nil {
		return
	}
	files := w.templateFiles()
	if !r.Require(len(files) > 0, "anchor", "the template files") {
		return
	}
	renders := w.renderers()
	if !r.Require(len(renders) > 0, "anchor", "the function that renders pages") {
		return
	}
	used := map[string]bool{}
	done := map[string]bool{}
	for _, rd := range renders {
		for _, u := range w.uses(rd.fn, rd.name, rd.data) {
			r.Count("places where a page is rendered", 1)
			used[u.page] = true
			t := pages[u.page]
			if t == nil {
				r.Violate("pages", fnLabel(u.fn), u.site.Pos(), "there is no page of the name %q", u.page)
				continue
			}
			for _, n := range rd.fields {
				if !hasField(u.data, n) {
					r.Violate("pages", fnLabel(u.fn), u.site.Pos(), "the data for the page %q has no field %s, which is set when it is rendered", u.page, n)
				}
			}
			for _, fs := range files {
				key := fmt.Sprint(u.page, u.data, fs.what)
				if done[key] {
					continue
				}
				done[key] = true
				w.page(u, t, fs)
			}
		}
	}
	r.Floor("places where a page is rendered", 4)
	r.Floor("template actions", 100)
	r.Floor("fields in templates", 80)
	for _, fs := range files {
		var names []string
		for n := range fs.files {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			w.scripts(fs.what+n, fs.files[n])
		}
	}
	r.Floor("places where scripts insert HTML", 6)
}

func hasField(t types.Type, name string) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	if _, ok := p.Elem().Underlying().(*types.Struct); !ok {
		return false
	}
	o, _, _ := types.LookupFieldOrMethod(p.Elem(), true, nil, name)
	v, ok := o.(*types.Var)
	return ok && v.IsField()
}

// page type-checks a page.
func (w *webRule) page(u webUse, t *webTmpl, fs webFiles) {
	r := w.r
	c := &tmplCheck{w: w, page: u.page, what: fs.what, funcs: t.funcs, trees: map[string]*parse.Tree{}, files: map[string]string{}, seen: map[string]bool{}}
	names := map[string]any{}
	for n := range builtins {
		names[n] = n
	}
	for n := range t.funcs {
		names[n] = n
	}
	ht := htmltemplate.New("")
	stubs := htmltemplate.FuncMap{}
	for n := range t.funcs {
		stubs[n] = func(...any) (any, error) { return nil, nil }
	}
	ht.Funcs(stubs)
	for _, f := range t.files {
		text, ok := fs.files[f]
		if !ok {
			r.Violate("pages", fnLabel(u.fn), u.site.Pos(), "the page %q needs the file %s, which %s does not have", u.page, f, fs.what)
			return
		}
		c.text = text
		trees, err := parse.Parse(f, text, "", "", names)
		if err != nil {
			r.Violate("pages", fs.what+f, u.site.Pos(), "the page %q cannot be parsed: %v", u.page, err)
			return
		}
		for n, tr := range trees {
			if c.trees[n] == nil || !parse.IsEmptyTree(tr.Root) {
				c.trees[n], c.files[n] = tr, f
			}
		}
		if _, err := ht.Parse(text); err != nil {
			r.Violate("pages", fs.what+f, u.site.Pos(), "the page %q cannot be parsed: %v", u.page, err)
			return
		}
	}
	root := c.trees[t.root]
	if root == nil {
		r.Violate("pages", fnLabel(u.fn), u.site.Pos(), "the page %q has no template %q", u.page, t.root)
		return
	}
	c.use = u
	c.template(t.root, u.data)
	// The contexts of the page's actions, as html/template finds them before
	// it executes anything.
	if x := ht.Lookup(t.root); x != nil {
		err := x.Execute(noWriter{}, nil)
		if te, ok := err.(*htmltemplate.Error); ok {
			r.Violate("escaped", fs.what, u.site.Pos(), "the page %q cannot be escaped: %v", u.page, te)
		}
		r.Count("pages whose contexts were found", 1)
	}
}

type noWriter struct{}

func (noWriter) Write([]byte) (int, error) { return 0, io.ErrClosedPipe }

// builtins of text/template, with the types of their results.
var builtins = map[string]types.Type{
	"and": nil, "or": nil, "call": nil, "index": nil, "slice": nil,
	"html": types.Typ[types.String], "js": types.Typ[types.String], "urlquery": types.Typ[types.String],
	"print": types.Typ[types.String], "printf": types.Typ[types.String], "println": types.Typ[types.String],
	"len": types.Typ[types.Int], "not": types.Typ[types.Bool],
	"eq": types.Typ[types.Bool], "ne": types.Typ[types.Bool], "lt": types.Typ[types.Bool], "le": types.Typ[types.Bool], "gt": types.Typ[types.Bool], "ge": types.Typ[types.Bool],
	"break": nil, "continue": nil,
}

type tmplCheck struct {
	w     *webRule
	use   webUse
	page  string
	what  string
	text  string
	funcs map[string]types.Type
	trees map[string]*parse.Tree
	files map[string]string
	seen  map[string]bool
	cur   *parse.Tree
	curF  string
	vars  []tmplVar
}

type tmplVar struct {
	name string
	typ  types.Type
}

func (c *tmplCheck) bad(n parse.Node, format string, args ...any) {
	loc, _ := c.cur.ErrorContext(n)
	c.w.r.Violate("pages", c.what+c.curF, c.use.site.Pos(), "%s: %s", loc, fmt.Sprintf(format, args...))
}

func (c *tmplCheck) template(name string, dot types.Type) {
	key := name + "|" + fmt.Sprint(dot)
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	old, oldF, vars := c.cur, c.curF, c.vars
	c.cur, c.curF = c.trees[name], c.files[name]
	c.vars = []tmplVar{{"$", dot}}
	c.list(c.cur.Root, dot)
	c.cur, c.curF, c.vars = old, oldF, vars
}

func (c *tmplCheck) list(l *parse.ListNode, dot types.Type) {
	if l == nil {
		return
	}
	for _, n := range l.Nodes {
		c.node(n, dot)
	}
}

func (c *tmplCheck) node(n parse.Node, dot types.Type) {
	mark := len(c.vars)
	switch n := n.(type) {
	case *parse.ActionNode:
		c.w.r.Count("template actions", 1)
		c.pipe(n.Pipe, dot)
		return // variables live on
	case *parse.IfNode:
		c.w.r.Count("template actions", 1)
		c.pipe(n.Pipe, dot)
		c.list(n.List, dot)
		c.list(n.ElseList, dot)
	case *parse.WithNode:
		c.w.r.Count("template actions", 1)
		t := c.pipe(n.Pipe, dot)
		c.list(n.List, t)
		c.vars = c.vars[:mark]
		c.list(n.ElseList, dot)
	case *parse.RangeNode:
		c.w.r.Count("template actions", 1)
		t := c.pipe(n.Pipe, dot)
		key, elem := c.rangeOver(n, t)
		switch len(n.Pipe.Decl) {
		case 1:
			c.setVar(n.Pipe.Decl[0], elem)
		case 2:
			c.setVar(n.Pipe.Decl[0], key)
			c.setVar(n.Pipe.Decl[1], elem)
		}
		c.list(n.List, elem)
		c.vars = c.vars[:mark]
		c.list(n.ElseList, dot)
	case *parse.TemplateNode:
		c.w.r.Count("template actions", 1)
		var t types.Type
		if n.Pipe != nil {
			t = c.pipe(n.Pipe, dot)
		} else {
			t = types.Typ[types.UntypedNil]
		}
		if c.trees[n.Name] == nil {
			c.bad(n, "there is no template %q", n.Name)
			return
		}
		c.template(n.Name, t)
	case *parse.ListNode:
		c.list(n, dot)
	}
	if len(c.vars) > mark {
		c.vars = c.vars[:mark]
	}
}

func (c *tmplCheck) rangeOver(n *parse.RangeNode, t types.Type) (key, elem types.Type) {
	if t == nil {
		return nil, nil
	}
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	switch u := u.(type) {
	case *types.Slice:
		return types.Typ[types.Int], known(u.Elem())
	case *types.Array:
		return types.Typ[types.Int], known(u.Elem())
	case *types.Map:
		return known(u.Key()), known(u.Elem())
	case *types.Chan:
		return nil, known(u.Elem())
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return t, t
		}
	case *types.Interface, *types.Signature:
		return nil, nil
	}
	c.bad(n, "a value of type %s cannot be ranged over", t)
	return nil, nil
}

// known: nil for types whose values have another type when executed.
func known(t types.Type) types.Type {
	if t != nil && types.IsInterface(t) {
		if i := t.Underlying().(*types.Interface); i.NumMethods() == 0 {
			return nil
		}
	}
	return t
}

func (c *tmplCheck) setVar(v *parse.VariableNode, t types.Type) {
	c.vars = append(c.vars, tmplVar{v.Ident[0], t})
}

func (c *tmplCheck) pipe(p *parse.PipeNode, dot types.Type) types.Type {
	if p == nil {
		return nil
	}
	var t types.Type
	for i, cmd := range p.Cmds {
		t = c.command(cmd, dot, i > 0, t)
	}
	for _, v := range p.Decl {
		if p.IsAssign {
			continue
		}
		c.setVar(v, t)
	}
	return known(t)
}

// command: final says that the value of the command before it is added.
func (c *tmplCheck) command(cmd *parse.CommandNode, dot types.Type, final bool, prev types.Type) types.Type {
	n := len(cmd.Args) - 1
	var args []types.Type
	for _, a := range cmd.Args[1:] {
		args = append(args, c.arg(a, dot))
	}
	if final {
		n++
		args = append(args, prev)
	}
	switch f := cmd.Args[0].(type) {
	case *parse.FieldNode:
		return c.chain(f, dot, f.Ident, n)
	case *parse.ChainNode:
		return c.chain(f, c.arg(f.Node, dot), f.Field, n)
	case *parse.VariableNode:
		return c.chain(f, c.variable(f), f.Ident[1:], n)
	case *parse.IdentifierNode:
		return c.function(f, f.Ident, args, n)
	case *parse.PipeNode:
		return c.pipe(f, dot)
	}
	if n > 0 {
		c.bad(cmd, "%s is not a function", cmd.Args[0])
	}
	return c.arg(cmd.Args[0], dot)
}

func (c *tmplCheck) variable(v *parse.VariableNode) types.Type {
	for i := len(c.vars) - 1; i >= 0; i-- {
		if c.vars[i].name == v.Ident[0] {
			return c.vars[i].typ
		}
	}
	return nil
}

func (c *tmplCheck) function(n parse.Node, name string, args []types.Type, count int) types.Type {
	if t, ok := c.funcs[name]; ok {
		if t == nil {
			return nil
		}
		sig, ok := t.Underlying().(*types.Signature)
		if !ok {
			c.bad(n, "%s is not a function", name)
			return nil
		}
		for i, a := range args {
			if a == nil {
				continue
			}
			var p types.Type
			switch {
			case sig.Variadic() && i >= sig.Params().Len()-1:
				p = sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice).Elem()
			case i < sig.Params().Len():
				p = sig.Params().At(i).Type()
			}
			if p == nil || types.AssignableTo(a, p) {
				continue
			}
			if b, ok := a.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && b.Kind() != types.UntypedNil {
				if q, ok := p.Underlying().(*types.Basic); ok && (b.Info()&types.IsNumeric != 0) == (q.Info()&types.IsNumeric != 0) {
					continue
				}
			}
			if pt, ok := a.Underlying().(*types.Pointer); ok && types.AssignableTo(pt.Elem(), p) {
				continue
			}
			if types.AssignableTo(types.NewPointer(a), p) {
				continue
			}
			if types.IsInterface(a) {
				continue
			}
			c.bad(n, "%s is given a value of type %s, not %s", name, a, p)
		}
		return c.result(n, name, sig, count)
	}
	switch name {
	case "call":
		if len(args) > 0 && args[0] != nil {
			sig, ok := args[0].Underlying().(*types.Signature)
			if !ok {
				c.bad(n, "call is given a value of type %s, which is not a function", args[0])
				return nil
			}
			return c.result(n, "the function", sig, count-1)
		}
	case "index":
		t := types.Type(nil)
		if len(args) > 0 {
			t = args[0]
		}
		for range args[min(1, len(args)):] {
			if t == nil {
				return nil
			}
			switch u := t.Underlying().(type) {
			case *types.Map:
				t = known(u.Elem())
			case *types.Slice:
				t = known(u.Elem())
			case *types.Array:
				t = known(u.Elem())
			default:
				return nil
			}
		}
		return t
	}
	t, ok := builtins[name]
	if !ok {
		c.bad(n, "there is no function %q", name)
	}
	return t
}

func (c *tmplCheck) result(n parse.Node, name string, sig *types.Signature, count int) types.Type {
	c.w.r.Count("functions in templates", 1)
	np := sig.Params().Len()
	if sig.Variadic() && count < np-1 || !sig.Variadic() && count != np {
		c.bad(n, "%s is given %d arguments, not %d", name, count, np)
	}
	switch rs := sig.Results(); {
	case rs.Len() == 1, rs.Len() == 2 && isErrorType(rs.At(1).Type()):
		return known(rs.At(0).Type())
	}
	c.bad(n, "%s does not return one value", name)
	return nil
}

// arg is the type of an operand.
func (c *tmplCheck) arg(n parse.Node, dot types.Type) types.Type {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.FieldNode:
		return c.chain(n, dot, n.Ident, 0)
	case *parse.ChainNode:
		return c.chain(n, c.arg(n.Node, dot), n.Field, 0)
	case *parse.VariableNode:
		return c.chain(n, c.variable(n), n.Ident[1:], 0)
	case *parse.PipeNode:
		return c.pipe(n, dot)
	case *parse.IdentifierNode:
		return c.function(n, n.Ident, nil, 0)
	case *parse.StringNode:
		return types.Typ[types.UntypedString]
	case *parse.BoolNode:
		return types.Typ[types.UntypedBool]
	case *parse.NumberNode:
		return types.Typ[types.UntypedInt]
	}
	return nil
}

// chain follows fields and methods.
func (c *tmplCheck) chain(n parse.Node, t types.Type, path []string, count int) types.Type {
	for i, f := range path {
		if t == nil {
			return nil
		}
		last := i == len(path)-1
		k := 0
		if last {
			k = count
		}
		c.w.r.Count("fields in templates", 1)
		if t == types.Typ[types.UntypedNil] {
			c.bad(n, "there is no data here, so no %s", f)
			return nil
		}
		o, _, _ := types.LookupFieldOrMethod(t, true, nil, f)
		if m, ok := o.(*types.Func); ok && m.Exported() {
			t = c.result(n, f, m.Type().(*types.Signature), k)
			continue
		}
		if v, ok := o.(*types.Var); ok && v.IsField() && v.Exported() {
			if k > 0 {
				c.bad(n, "the field %s is given arguments", f)
			}
			t = known(v.Type())
			continue
		}
		u := t.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		if m, ok := u.(*types.Map); ok {
			t = known(m.Elem())
			continue
		}
		if types.IsInterface(t) {
			t = nil
			continue
		}
		c.bad(n, "a value of type %s has no field or method %s", t, f)
		return nil
	}
	return t
}

// scripts: a page's own scripts insert as HTML only what is constant, or
// comes out of an element as HTML.
func (w *webRule) scripts(file, text string) {
	r := w.r
	line := func(i int) int { return 1 + strings.Count(text[:i], "\n") }
	check := func(i int, what, arg string) {
		r.Count("places where scripts insert HTML", 1)
		if !safeHTML(arg) {
			r.Violate("escaped", fmt.Sprintf("%s:%d", file, line(i)), w.pkg.Pkg.Scope().Pos(), "line %d: a script puts %s into the page as HTML (%s)", line(i), strings.TrimSpace(arg), what)
		}
	}
	for _, f := range []string{".html(", ".insertAdjacentHTML(", "document.write(", "document.writeln("} {
		for i := 0; ; {
			j := strings.Index(text[i:], f)
			if j < 0 {
				break
			}
			i += j + len(f)
			arg := balanced(text[i:])
			if f == ".insertAdjacentHTML(" {
				if _, b, ok := strings.Cut(arg, ","); ok {
					arg = b
				}
			}
			if strings.TrimSpace(arg) != "" {
				check(i, strings.Trim(f, "(."), arg)
			}
		}
	}
	for _, f := range []string{".innerHTML", ".outerHTML"} {
		for i := 0; ; {
			j := strings.Index(text[i:], f)
			if j < 0 {
				break
			}
			i += j + len(f)
			rest := strings.TrimLeft(text[i:], " \t")
			if rest = strings.TrimPrefix(rest, "+"); strings.HasPrefix(rest, "=") && !strings.HasPrefix(rest, "==") {
				arg, _, _ := strings.Cut(rest[1:], "\n")
				check(i, f[1:], strings.TrimSuffix(strings.TrimSpace(arg), ";"))
			}
		}
	}
}

func balanced(s string) string {
	depth := 0
	var quote byte
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case quote != 0:
			if ch == '\\' {
				i++
			} else if ch == quote {
				quote = 0
			}
		case ch == '"' || ch == '\'' || ch == '`':
			quote = ch
		case ch == '(' || ch == '[' || ch == '{':
			depth++
		case ch == ')' || ch == ']' || ch == '}':
			if depth == 0 {
				return s[:i]
			}
			depth--
		}
	}
	return s
}

// safeHTML: a constant, the HTML of an element, or one of the page's own
// lists of hints.
func safeHTML(arg string) bool {
	arg = strings.TrimSpace(arg)
	if strings.HasSuffix(arg, ".html()") { // of an element
		return true
	}
	for _, part := range splitPlus(arg) {
		part = strings.TrimSpace(part)
		switch {
		case len(part) >= 2 && (part[0] == '"' || part[0] == '\'') && part[len(part)-1] == part[0] && !strings.Contains(part[1:len(part)-1], part[:1]):
		case isConstJS(part):
		default:
			return false
		}
	}
	return true
}

// splitPlus splits a sum.
func splitPlus(s string) (parts []string) {
	depth, start := 0, 0
	var quote byte
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case quote != 0:
			if ch == '\\' {
				i++
			} else if ch == quote {
				quote = 0
			}
		case ch == '"' || ch == '\'' || ch == '`':
			quote = ch
		case ch == '(' || ch == '[' || ch == '{':
			depth++
		case ch == ')' || ch == ']' || ch == '}':
			depth--
		case ch == '+' && depth == 0:
			parts = append(parts, s[start:i])
			start = i + 1
		}
	}
	return append(parts, s[start:])
}

// isConstJS: numbers, and the values that have nothing to do with traces: the
// slider's, and the list of hints.
func isConstJS(s string) bool {
	switch {
	case s == "v[0]", s == "v[1]": // the slider's values
		return true
	case strings.HasPrefix(s, "hints["): // the layout's own list
		return true
	}
	num := s != ""
	for _, ch := range s {
		num = num && (ch >= '0' && ch <= '9' || ch == '.')
	}
	return num
}

var _ = reflect.TypeOf
