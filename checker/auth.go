package main

import (
	"fmt"
	"go/token"
	"go/types"
	"net/textproto"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C24: basic auth and TLS settings of the serve command ----

const cmdRel = "cmd/appdash"

func init() {
	register(&Check{
		ID: "C24",
		Rule: "guards and value flow over every path of the serve command: wherever it starts serving, the certificate and key settings are known to be empty or the listener is a TLS one with the pair loaded from them, and the basic auth setting is known to be empty or to have a user and a password, both not empty; " +
			"every path of the handler that is served in the latter case, analysed from the states in which it is served: the app is called, once and with the caller's writer and request, exactly where a constant-time comparison of the request's credentials with the configured ones is known to have succeeded, and all other requests get 401 with a challenge before anything else is sent; nothing else compares the credentials, and no request changes what the next one is compared with",
		NotCover: "what crypto/subtle, crypto/tls and net/http do; the other commands; the collector's clients, which are not authenticated",
		Run:      runC24,
	})
}

type authRule struct {
	r    *R
	p    *Program
	e    *Engine
	fn   *ssa.Function
	conf *types.Named
	recv *Term
	rv   *relevance

	texts   map[*Term]map[string]bool // what formatted strings consist of
	served  []*servedHandler
	visited map[ssa.Instruction]bool

	cands []*servedHandler // handlers registered with muxes
	keys  []string
}

type servedHandler struct {
	st *State
	h  *Term
	ev *Event
}

// Settings of the command.
const (
	setCert = "TLSCert"
	setKey  = "TLSKey"
	setAuth = "BasicAuth"
)

func runC24(r *R) {
	p := r.P
	a := &authRule{r: r, p: p, conf: p.Named(cmdRel, "ServeCmd"), fn: p.Method(cmdRel, "ServeCmd", "Execute"), texts: map[*Term]map[string]bool{}, visited: map[ssa.Instruction]bool{}}
	if !r.Require(a.conf != nil && a.fn != nil, "anchor", "the serve command") {
		return
	}
	for _, s := range []string{setCert, setKey, setAuth} {
		if !r.Require(fieldNamed(a.conf, s) >= 0, "anchor", "its setting "+s) {
			return
		}
	}
	a.rv = newRelevance(p, a.relevant)
	e := NewEngine(p)
	a.e = e
	e.Loops = true
	e.Pure = func(name string) bool { return strings.HasPrefix(name, "strings.") }
	e.Opaque = func(f *ssa.Function) bool { return !a.inCmd(f) || !a.rv.has(f) }
	e.Keep = func(*State, *Event) bool { return false }
	if _, ok := a.fn.Params[0].Type().Underlying().(*types.Pointer); !ok {
		r.Require(false, "anchor", "the serve command's pointer receiver")
		return
	}
	a.recv = e.Param(a.fn, 0)
	e.OnEvent = a.event
	var threads []*Thread
	e.OnThread = func(th *Thread) {
		if th.Notes["wf"] != "" {
			th.St.notes["wf"] = "1"
		}
		if a.rv.has(th.Fn) && a.inCmd(th.Fn) {
			threads = append(threads, th)
		}
	}
	e.Run(a.fn, nil)
	for i := 0; i < len(threads); i++ {
		if i > 4000 {
			e.undecided("too many goroutines")
			break
		}
		e.RunThread(threads[i])
	}
	e.OnThread = nil
	a.sites()
	a.handlers()
	r.Use(e)
	r.Floor("places where the web app starts to be served", 2)
	r.Floor("places where the collector starts to be served", 1)
	r.Floor("states in which a TLS listener is served", 1)
	r.Floor("states in which the web app is served with basic auth", 1)
	r.Floor("paths of the auth handler that reach the app", 1)
	r.Floor("paths of the auth handler that answer 401", 1)
}

func (a *authRule) inCmd(f *ssa.Function) bool {
	if f.Pkg == nil { // wrappers
		return f.Synthetic != "" && len(f.Blocks) > 0
	}
	return f.Pkg == a.p.SSA[cmdRel]
}

// relevant: what the rule looks at.
func (a *authRule) relevant(in ssa.Instruction) bool {
	switch in := in.(type) {
	case ssa.CallInstruction:
		c := in.Common()
		if c.IsInvoke() {
			return c.Method.Name() == "ServeHTTP" || isRW(c.Value.Type())
		}
		f := c.StaticCallee()
		if f == nil {
			return false
		}
		n := fnName(f)
		for _, pre := range []string{"net.", "(*net.", "crypto/", "(*crypto/", "net/http.", "(net/http.", "(*net/http.", "strings.", "encoding/base64.", "(*encoding/base64."} {
			if strings.HasPrefix(n, pre) {
				return true
			}
		}
		return n == "fmt.Sprintf" || noReturn(n) || n == modPath+".NewServer" || n == modPath+"/traceapp.New"
	case *ssa.FieldAddr:
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), a.conf) {
			switch a.conf.Underlying().(*types.Struct).Field(in.Field).Name() {
			case setCert, setKey, setAuth:
				return true
			}
		}
	case *ssa.MakeInterface:
		return typeIs(in.Type(), "net/http.Handler") || typeIs(in.Type(), "net.Listener")
	}
	return false
}

// setting is the name of the setting whose value a term is.
func (a *authRule) setting(t *Term) string {
	b, p := fieldPath(t.origin())
	if b == a.recv && len(p) == 1 {
		return p[0]
	}
	return ""
}

// ---- what is known about settings ----

// knownEmpty: some value that was read from the setting is known to be "".
// (Nothing changes settings.)
func (a *authRule) knownEmpty(st *State, name string) bool {
	for f, v := range st.facts {
		if e, x, ok := a.emptiness(f, v); ok && e && a.setting(x) == name {
			return true
		}
		// the lengths of several settings add up to 0
		if f.op != "eq0" && f.op != "lt0" {
			continue
		}
		lin := f.obj.(linear)
		found, sign := false, int64(0)
		for t, c := range lin.coef {
			if sign == 0 {
				sign = c
			}
			if t.op != "len" || c != sign {
				found = false
				break
			}
			found = found || a.setting(t.args[0]) == name
		}
		can := func(n int64) bool {
			y := sign*n + lin.k
			return (f.op == "eq0" && y == 0 || f.op == "lt0" && y < 0) == v
		}
		found = found && can(0) && !can(1) && !can(2)
		if found {
			return true
		}
	}
	return false
}

// emptiness: the fact says whether a string is empty.
func (a *authRule) emptiness(f *Term, v bool) (empty bool, x *Term, ok bool) {
	switch f.op {
	case "eq":
		for i := 0; i < 2; i++ {
			if s, is := f.args[i].strVal(); is {
				if s == "" {
					return v, f.args[1-i], true
				}
				if v { // equal to another constant
					return false, f.args[1-i], true
				}
			}
		}
	case "eq0", "lt0":
		lin := f.obj.(linear)
		if len(lin.coef) != 1 {
			return
		}
		for t, c := range lin.coef {
			if t.op != "len" {
				return
			}
			x = t.args[0]
			switch {
			case f.op == "eq0" && lin.k == 0:
				return v, x, true
			case f.op == "eq0" && v: // some other length
				return false, x, true
			case f.op == "lt0" && v && c < 0 && lin.k >= 0: // len > k/c >= 0
				return false, x, true
			case f.op == "lt0" && !v && c > 0 && lin.k < 0: // len >= -k
				return false, x, true
			case f.op == "lt0" && v && c == 1 && lin.k == -1: // len < 1
				return true, x, true
			case f.op == "lt0" && !v && c == -1 && lin.k == 0: // len <= 0
				return true, x, true
			}
		}
	}
	return
}

// part: the value is the user or the password of the basic auth setting, or
// the whole of it.
func (a *authRule) part(t *Term) string {
	t = t.origin()
	if a.setting(t) == setAuth {
		return "whole"
	}
	is := func(x *Term) bool { return a.setting(x) == setAuth }
	colon := func(x *Term) bool {
		if s, ok := x.origin().strVal(); ok {
			return s == ":"
		}
		n, ok := x.origin().intVal()
		return ok && n == ':'
	}
	if ad := at(t); ad != nil && ad.op == "ia" { // an element of what it is split into
		s := ad.args[0].origin()
		n, ok := ad.args[1].intVal()
		if ok && s.op == "call" && s.aux == "strings.SplitN" && is(s.args[0]) && colon(s.args[1]) && isNum(s.args[2], 2) {
			return []string{"user", "pass", ""}[min(n, 2)]
		}
		return ""
	}
	if t.op == "extract" {
		s := t.args[0]
		if s.op == "call" && s.aux == "strings.Cut" && is(s.args[0]) && colon(s.args[1]) {
			return map[string]string{"0": "user", "1": "pass"}[t.aux]
		}
	}
	if t.op == "slice" && is(t.args[0]) {
		index := func(x *Term) (int64, bool) { // index of the colon + n
			lin := a.e.T.lin(x)
			for i, c := range lin.coef {
				if len(lin.coef) == 1 && c == 1 && a.colonIndex(i) {
					return lin.k, true
				}
			}
			return 0, false
		}
		lo, hi := t.args[1], t.args[2]
		if n, ok := index(hi); ok && n == 0 && (lo.isNil() || isNum(lo, 0)) {
			return "user"
		}
		if n, ok := index(lo); ok && n == 1 && hi.isNil() {
			return "pass"
		}
	}
	return ""
}

// colonIndex: the index of the first colon of the basic auth setting.
func (a *authRule) colonIndex(t *Term) bool {
	if t.op != "call" || t.aux != "strings.Index" && t.aux != "strings.IndexByte" && t.aux != "strings.IndexRune" || a.setting(t.args[0]) != setAuth {
		return false
	}
	if s, ok := t.args[1].origin().strVal(); ok {
		return s == ":"
	}
	return isNum(t.args[1], ':')
}

// colonFacts: what a fact about the index of the colon says: whether there is
// something before it, something after it, and one at all.
func (a *authRule) colonFacts(f *Term, v bool, lin linear) (user, pass, two bool) {
	var i, n int64
	for t, c := range lin.coef {
		switch {
		case a.colonIndex(t):
			i = c
		case t.op == "len" && a.setting(t.args[0]) == setAuth:
			n = c
		default:
			return
		}
	}
	switch {
	case n == 0 && i != 0:
		// the least value that the index can have
		least := int64(-1)
		for x := int64(-1); x < 3; x++ {
			y := i*x + lin.k
			if (f.op == "eq0" && y == 0 || f.op == "lt0" && y < 0) == v {
				break
			}
			least = x + 1
		}
		if f.op == "eq0" && !v && lin.k == 0 {
			return true, false, false // not 0
		}
		return least >= 1, false, least >= 0
	case n != 0 && i == -n:
		// n*(len-index) + k: the length after the colon is len-index-1
		for x := int64(1); x < 4; x++ {
			y := n*x + lin.k
			if (f.op == "eq0" && y == 0 || f.op == "lt0" && y < 0) == v {
				return false, x >= 2, false
			}
		}
	}
	return
}

// wellFormed: the setting is known to consist of a user and a password, both
// not empty.
func (a *authRule) wellFormed(st *State) bool {
	user, pass, two := false, false, false
	for f, v := range st.facts {
		if e, x, ok := a.emptiness(f, v); ok && !e {
			switch a.part(x) {
			case "user":
				user = true
			case "pass":
				pass = true
			}
		}
		switch f.op {
		case "extract": // found by Cut
			if s := f.args[0]; v && f.aux == "2" && s.op == "call" && s.aux == "strings.Cut" && a.setting(s.args[0]) == setAuth {
				two = true
			}
		case "eq0", "lt0":
			lin := f.obj.(linear)
			for t, c := range lin.coef {
				if len(lin.coef) != 1 {
					break
				}
				if t.op == "len" { // the parts: at most two
					s := t.args[0].origin()
					if s.op == "call" && s.aux == "strings.SplitN" && a.setting(s.args[0]) == setAuth && isNum(s.args[2], 2) {
						atLeast2 := f.op == "eq0" && v && (lin.k == -2*c) || f.op == "lt0" && (v && c == -1 && lin.k >= 1 || !v && c == 1 && lin.k <= -2)
						one := f.op == "eq0" && !v && lin.k == -c // it is never 0
						two = two || atLeast2 || one
					}
				}
			}
			u, w, b := a.colonFacts(f, v, lin)
			user, pass, two = user || u, pass || w, two || b
		}
	}
	return user && pass && two
}

// ---- serving ----

// sites: every place of the command that starts serving has been looked at.
func (a *authRule) sites() {
	fns := a.p.reachedFrom(a.fn)
	fns[a.fn] = true
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || a.visited[in] {
					continue
				}
				n := fnName(c.Common().StaticCallee())
				if _, _, ok := serves(n); ok || n == modPath+".NewServer" {
					a.r.Violate("served", fnLabel(f), in.Pos(), "cannot be decided: in what state %s is called", n)
				}
			}
		}
	}
}

// serves: the function serves HTTP; its arguments for the handler or server
// and for the listener (-1: it makes one).
func serves(name string) (server bool, listener int, ok bool) {
	switch name {
	case "net/http.ListenAndServe", "net/http.ListenAndServeTLS":
		return false, -1, true
	case "net/http.Serve", "net/http.ServeTLS":
		return false, 0, true
	case "(*net/http.Server).ListenAndServe", "(*net/http.Server).ListenAndServeTLS":
		return true, -1, true
	case "(*net/http.Server).Serve", "(*net/http.Server).ServeTLS":
		return true, 1, true
	case "net/http/fcgi.Serve", "net/http/cgi.Serve":
		return false, -1, true
	}
	return
}

func (a *authRule) event(st *State, ev *Event) {
	e := a.e
	if ev.Kind == "store" {
		if b, p := addrPath(ev.Args[0]); b == a.recv && len(p) > 0 && (p[0] == setCert || p[0] == setKey || p[0] == setAuth) {
			a.r.Violate("settings", fnLabel(ev.Fn), ev.Site.Pos(), "the setting %s is changed", p[0])
		}
	}
	if ev.Kind == "load" {
		if v := e.peek(st, ev.Args[0], deref(ev.Args[0].typ)); a.part(v) != "" {
			st.pin(v)
		}
		return
	}
	if st.notes["wf"] == "" && a.wellFormed(st) {
		st.notes["wf"] = "1"
	}
	if ev.Kind != "call" && ev.Kind != "go" && ev.Kind != "defer" {
		return
	}
	switch {
	case strings.HasPrefix(ev.Name, "strings.") && ev.Res != nil:
		st.pin(ev.Res)
	case ev.Name == "fmt.Sprintf":
		a.format(st, ev)
	case (ev.Name == "(*net/http.ServeMux).Handle" || ev.Name == "(*net/http.ServeMux).HandleFunc") && len(ev.Args) == 3:
		st.pin(ev.Args[2])
		// The handler as it is now: the mux may do anything with it.
		k := a.muxed(&servedHandler{st: st.clone(), h: ev.Args[2], ev: ev})
		st.notes[fmt.Sprintf("mux:%d:%d", ev.Args[0].origin().id, k)] = "1"
	case ev.Name == modPath+".NewServer" && len(ev.Args) == 2:
		a.visit(ev, "places where the collector starts to be served")
		a.settings(st, ev, "the collector")
		if why := a.secure(st, ev.Args[0]); why != "" && !a.tlsOff(st) {
			a.r.Violate("tls", fnLabel(ev.Fn), ev.Site.Pos(), "the collector may be served without TLS although a certificate or key is configured: %s", why)
		}
	}
	server, listener, ok := serves(ev.Name)
	if !ok {
		return
	}
	a.visit(ev, "places where the web app starts to be served")
	a.settings(st, ev, "the web app")
	// TLS
	var n *types.Named
	var h *Term
	var cfg *Term
	if server {
		n, _ = deref(ev.Args[0].origin().typ).(*types.Named)
		if n == nil || fieldNamed(n, "Handler") < 0 {
			a.r.Violate("served", fnLabel(ev.Fn), ev.Site.Pos(), "cannot be decided: which server is started")
			return
		}
		h = e.fval(st, ev.Args[0].origin(), n, fieldNamed(n, "Handler"))
		cfg = e.fval(st, ev.Args[0].origin(), n, fieldNamed(n, "TLSConfig"))
	} else {
		for _, x := range ev.Args {
			if typeIs(x.typ, "net/http.Handler") || x.op == "mkiface" && a.dynHandler(x) {
				h = x
			}
		}
		if h == nil {
			h = e.T.Nil()
		}
	}
	why := "plain HTTP"
	switch {
	case strings.HasSuffix(ev.Name, "TLS"):
		cert, key := ev.Args[len(ev.Args)-2], ev.Args[len(ev.Args)-1]
		if !server && listener < 0 {
			cert, key = ev.Args[1], ev.Args[2]
		}
		s1, ok1 := cert.strVal()
		s2, ok2 := key.strVal()
		switch {
		case a.setting(cert) == setCert && a.setting(key) == setKey:
			why = ""
		case ok1 && ok2 && s1 == "" && s2 == "" && cfg != nil:
			why = a.config(st, cfg)
		default:
			why = "its certificate and key are not the configured ones"
		}
	case listener >= 0:
		why = a.secure(st, ev.Args[listener])
	}
	if why == "" {
		a.r.Count("states in which a TLS listener is served", 1)
	} else if !a.tlsOff(st) {
		a.r.Violate("tls", fnLabel(ev.Fn), ev.Site.Pos(), "the web app may be served without TLS although a certificate or key is configured: %s", why)
	}
	if a.knownEmpty(st, setAuth) {
		return
	}
	a.r.Count("states in which the web app is served with basic auth", 1)
	a.served = append(a.served, &servedHandler{st: st.clone(), h: h, ev: ev})
}

func (a *authRule) dynHandler(x *Term) bool {
	t, ok := x.obj.(types.Type)
	if !ok {
		return false
	}
	ms := a.p.Prog.MethodSets.MethodSet(t)
	return ms.Lookup(nil, "ServeHTTP") != nil
}

func (a *authRule) visit(ev *Event, what string) {
	if !a.visited[ev.Site] {
		a.visited[ev.Site] = true
		a.r.Count(what, 1)
		a.r.Sample("%s: %s", ev.Name, a.p.Pos(ev.Site.Pos()))
	}
}

// settings: the credentials must be known to be sound before anything starts.
func (a *authRule) settings(st *State, ev *Event, what string) {
	if !a.knownEmpty(st, setAuth) && st.notes["wf"] == "" {
		a.r.Violate("credentials", fnLabel(ev.Fn), ev.Site.Pos(), "%s may be served although the basic auth setting is not 'user:passwd' with both not empty", what)
	}
}

func (a *authRule) tlsOff(st *State) bool {
	return a.knownEmpty(st, setCert) && a.knownEmpty(st, setKey)
}

// secure: what is wrong with a listener, "" if it is a TLS one with the
// configured certificate.
func (a *authRule) secure(st *State, l *Term) string {
	l = l.origin()
	c := l
	if c.op == "extract" {
		c = c.args[0]
	}
	if c.op == "call" {
		switch {
		case c.aux == "crypto/tls.Listen" || c.aux == "crypto/tls.NewListener":
			return a.config(st, c.args[len(c.args)-1])
		case strings.HasPrefix(c.aux, "net.Listen"):
			return "it is a plain " + c.aux
		}
	}
	return fmt.Sprintf("it cannot be told what its listener is (%s)", l)
}

// config: what is wrong with a TLS configuration.
func (a *authRule) config(st *State, cfg *Term) string {
	e := a.e
	n, _ := deref(cfg.origin().typ).(*types.Named)
	if n == nil || fieldNamed(n, "Certificates") < 0 {
		return "it has no TLS configuration"
	}
	certs := e.fval(st, cfg.origin(), n, fieldNamed(n, "Certificates"))
	elems, ok := sliceElems(e, st, certs)
	if certs.op == "append" && certs.args[0].isNil() {
		elems, ok = certs.args[1:], true
	}
	if !ok || len(elems) == 0 {
		return fmt.Sprintf("the TLS configuration does not have the configured certificate (%s)", certs)
	}
	for _, x := range elems {
		x = x.origin()
		if x.op != "extract" || x.aux != "0" || x.args[0].op != "call" {
			return fmt.Sprintf("the TLS configuration has another certificate (%s)", x)
		}
		c := x.args[0]
		file := func(t *Term, name string) bool { // the contents of the file
			t = t.origin()
			if t.op != "extract" || t.aux != "0" {
				return false
			}
			c := t.args[0]
			return c.op == "call" && (c.aux == "io/ioutil.ReadFile" || c.aux == "os.ReadFile") && a.setting(c.args[0]) == name
		}
		switch {
		case c.aux == "crypto/tls.X509KeyPair" && file(c.args[0], setCert) && file(c.args[1], setKey):
		case c.aux == "crypto/tls.LoadX509KeyPair" && a.setting(c.args[0]) == setCert && a.setting(c.args[1]) == setKey:
		default:
			return fmt.Sprintf("its certificate is not made of the configured files (%s)", c.aux)
		}
		if er := e.T.mk("extract", "1", nil, nil, nil, c); !e.isNil(st, er) {
			return "the certificate is used although it could not be loaded"
		}
	}
	return ""
}

// ---- strings ----

// format records what a formatted string consists of.
func (a *authRule) format(st *State, ev *Event) {
	if ev.Res == nil || len(ev.Args) != 2 {
		return
	}
	f, ok := ev.Args[0].strVal()
	elems, ok2 := sliceElems(a.e, st, ev.Args[1])
	s := "?"
	if ok && ok2 {
		s = ""
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				s += string(f[i])
				continue
			}
			i++
			switch {
			case i < len(f) && f[i] == '%':
				s += "%"
			case i < len(f) && (f[i] == 's' || f[i] == 'v') && len(elems) > 0 && a.textual(elems[0]):
				s += a.text(elems[0])
				elems = elems[1:]
			default:
				s += "?"
			}
		}
		if len(elems) > 0 {
			s += "?"
		}
	}
	if a.texts[ev.Res] == nil {
		a.texts[ev.Res] = map[string]bool{}
	}
	a.texts[ev.Res][s] = true
}

func (a *authRule) textual(t *Term) bool {
	if t.op == "mkiface" {
		t = t.args[0]
	}
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// text describes a string: constants, «user», «pass» and b64(...).
func (a *authRule) text(t *Term) string {
	t = t.origin()
	if s, ok := t.strVal(); ok {
		return s
	}
	switch a.part(t) {
	case "user":
		return "«user»"
	case "pass":
		return "«pass»"
	case "whole": // split at the first colon
		return "«user»:«pass»"
	}
	switch t.op {
	case "bin":
		if t.aux == token.ADD.String() {
			return a.text(t.args[0]) + a.text(t.args[1])
		}
	case "appendv":
		return a.text(t.args[0]) + a.text(t.args[1])
	case "call":
		switch t.aux {
		case "fmt.Sprintf":
			if len(a.texts[t]) == 1 {
				for s := range a.texts[t] {
					return s
				}
			}
		case "(*encoding/base64.Encoding).EncodeToString":
			g := t.args[0].origin()
			if ad := at(g); ad != nil {
				g = ad
			}
			if g.op == "global" && strings.HasSuffix(g.aux, "encoding/base64.StdEncoding") {
				return "b64(" + a.text(t.args[1]) + ")"
			}
		}
	}
	return fmt.Sprintf("?%d", t.id)
}

// secret: what of the configured credentials a value is.
func (a *authRule) secret(t *Term) string {
	switch s := a.text(t); s {
	case "Basic b64(«user»:«pass»)":
		return "hdr"
	case "«user»":
		return "user"
	case "«pass»":
		return "pass"
	}
	return ""
}

// ofSecret: the value depends on the configured credentials.
func (a *authRule) ofSecret(t *Term) bool {
	return t.mentions(func(x *Term) bool {
		if x.op == "len" {
			return false
		}
		if a.setting(x) == setAuth {
			return true
		}
		for s := range a.texts[x] {
			if strings.Contains(s, "«") {
				return true
			}
		}
		return false
	})
}

// ---- the handler ----

func (a *authRule) handlers() {
	sort.SliceStable(a.served, func(i, j int) bool { return a.served[i].ev.Site.Pos() < a.served[j].ev.Site.Pos() })
	seen := map[string]bool{}
	for _, s := range a.served {
		if k := a.same(s); !seen[k] {
			seen[k] = true
			a.r.Count("different handlers served with basic auth", 1)
			a.gate(s, s.h, 0)
		}
	}
}

// same describes a handler and everything it refers to, so that the states in
// which it is served need not all be looked at.
func (a *authRule) same(s *servedHandler) string {
	reach := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || reach[t] {
			return
		}
		reach[t] = true
		for _, x := range t.args {
			mark(x)
		}
	}
	mark(s.h)
	for _, x := range a.registered(s.st, "mux:") {
		mark(x.h)
	}
	mem := map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		for ad, v := range s.st.mem {
			if !mem[ad] && reach[rootAddr(ad)] {
				mem[ad], changed = true, true
				mark(v)
			}
		}
	}
	out := []string{fmt.Sprint(s.ev.Site.Pos(), s.h.id)}
	for ad := range mem {
		out = append(out, fmt.Sprintf("m%d=%d", ad.id, s.st.mem[ad].id))
	}
	for f, v := range s.st.facts {
		if f.mentions(func(x *Term) bool { return reach[x] && (x.op == "load" || x.site != nil) }) {
			out = append(out, fmt.Sprintf("f%d=%v", f.id, v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// gate judges a handler that is served although basic auth is configured.
func (a *authRule) gate(s *servedHandler, h *Term, depth int) {
	bad := func(f string, args ...any) {
		a.r.Violate("gate", fnLabel(s.ev.Fn), s.ev.Site.Pos(), f, args...)
	}
	if depth > 4 {
		bad("cannot be decided: what the served handler is")
		return
	}
	if h.isNil() {
		bad("the default handler, which is not protected, may be served although basic auth is configured")
		return
	}
	if a.isApp(h) && h.op == "mkiface" && a.isApp(h.args[0]) && h.args[0].op == "extract" {
		bad("the web app may be served without authentication although basic auth is configured")
		return
	}
	if h.op != "mkiface" {
		if h.op == "call" && strings.HasPrefix(h.aux, "net/http.") { // e.g. StripPrefix
			found := false
			for _, x := range h.args {
				if typeIs(x.typ, "net/http.Handler") || x.op == "mkiface" && a.dynHandler(x) {
					found = true
					a.gate(s, x, depth+1)
				}
			}
			if found {
				return
			}
		}
		bad("cannot be decided: what the served handler is (%s)", h)
		return
	}
	dyn := h.obj.(types.Type)
	if typeIs(dyn, "*net/http.ServeMux") {
		hs := a.registered(s.st, fmt.Sprintf("mux:%d:", h.args[0].origin().id))
		if len(hs) == 0 {
			bad("cannot be decided: what is registered with the served mux")
		}
		for _, x := range hs {
			if f := x.h.origin(); x.h.op != "mkiface" && (f.op == "closure" || f.op == "func") {
				a.serve(x, f.obj.(*ssa.Function), nil, f.args)
				continue
			}
			a.gate(x, x.h, depth+1)
		}
		return
	}
	if f := h.args[0].origin(); typeIs(dyn, "net/http.HandlerFunc") {
		if f.op == "closure" || f.op == "func" {
			if g, ok := f.obj.(*ssa.Function); ok && len(g.Blocks) > 0 {
				a.serve(s, g, nil, f.args)
				return
			}
		}
		bad("cannot be decided: what the served handler is (%s)", f)
		return
	}
	sel := a.p.Prog.MethodSets.MethodSet(dyn).Lookup(nil, "ServeHTTP")
	if sel == nil {
		bad("cannot be decided: what the served handler is (%s)", h)
		return
	}
	fn := a.p.Prog.MethodValue(sel)
	if fn == nil || len(fn.Blocks) == 0 || !a.inCmd(fn) {
		bad("cannot be decided: whether the served handler (%s) authenticates its requests", dyn)
		return
	}
	a.serve(s, fn, []*Term{h.args[0]}, nil)
}

// muxed keeps a handler that is registered with a mux.
func (a *authRule) muxed(s *servedHandler) int {
	key := a.same(s)
	for i, k := range a.keys {
		if k == key {
			return i
		}
	}
	a.keys = append(a.keys, key)
	a.cands = append(a.cands, s)
	return len(a.keys) - 1
}

// registered are the handlers that muxes have on a path.
func (a *authRule) registered(st *State, prefix string) (hs []*servedHandler) {
	var ks []string
	for k := range st.notes {
		if strings.HasPrefix(k, prefix) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		hs = append(hs, a.cands[atoi(k[strings.LastIndex(k, ":")+1:])])
	}
	return hs
}

// isApp: the value is, or refers to, the web app.
func (a *authRule) isApp(t *Term) bool {
	return t.mentions(func(x *Term) bool { return x.op == "call" && x.aux == modPath+"/traceapp.New" })
}

func (a *authRule) serve(s *servedHandler, fn *ssa.Function, recv, bindings []*Term) {
	e, r := a.e, a.r
	args := append([]*Term(nil), recv...)
	for i := len(recv); i < len(fn.Params); i++ {
		args = append(args, e.Param(fn, i))
	}
	var w, rq *Term
	for _, x := range args[len(recv):] {
		switch {
		case isRW(x.typ):
			w = x
		case typeIs(x.typ, "*net/http.Request"):
			rq = x
		}
	}
	if w == nil || rq == nil {
		r.Violate("gate", fnLabel(fn), fn.Pos(), "cannot be decided: what the served handler does")
		return
	}
	isW := func(t *Term) bool { return t.origin() == w }
	isReq := func(t *Term) bool { return t.origin() == rq }

	// what of the request's credentials a value is
	cred := func(t *Term) string {
		t = t.origin()
		if t.op == "call" && t.aux == "(net/http.Header).Get" {
			if b, p := fieldPath(t.args[0]); b == rq && strings.Join(p, ".") == "Header" {
				if k, ok := t.args[1].strVal(); ok && textproto.CanonicalMIMEHeaderKey(k) == "Authorization" {
					return "hdr"
				}
			}
		}
		if t.op == "extract" && isCall(t.args[0], "(*net/http.Request).BasicAuth") && isReq(t.args[0].args[0]) {
			return map[string]string{"0": "user", "1": "pass", "2": "ok"}[t.aux]
		}
		return ""
	}
	ofCred := func(t *Term) bool {
		return t.mentions(func(x *Term) bool { return x.op != "len" && cred(x) != "" })
	}
	// a digest of a value, sliced: the value
	plain := func(st *State, t *Term) (*Term, string) {
		t = t.origin()
		if t.op == "slice" && t.args[1].isNil() && t.args[2].isNil() {
			x := t.args[0]
			if x.op == "alloc" {
				x = e.peek(st, x, deref(x.typ))
			}
			if x.op == "call" && strings.HasPrefix(x.aux, "crypto/sha") && strings.Contains(x.aux, ".Sum") && len(x.args) == 1 {
				return x.args[0].origin(), x.aux
			}
		}
		return t, ""
	}
	// what a comparison of two values says
	says := func(st *State, x, y *Term) string {
		x, hx := plain(st, x)
		y, hy := plain(st, y)
		if hx != hy {
			return ""
		}
		for i := 0; i < 2; i++ {
			if c := cred(x); c != "" && c == a.secret(y) {
				return c
			}
			x, y = y, x
		}
		return ""
	}
	constantTime := map[string]bool{"crypto/subtle.ConstantTimeCompare": true, "crypto/hmac.Equal": true}
	matched := func(st *State) bool {
		got := map[string]bool{}
		for k, v := range st.notes {
			if !strings.HasPrefix(k, "cmp:") {
				continue
			}
			if a.isOne(st, e.T.all[atoi(k[len("cmp:"):])-1]) {
				got[v] = true
			}
		}
		return got["hdr"] || got["user"] && got["pass"]
	}
	// reasons to refuse a request
	refusable := func(st *State) bool {
		for f, v := range st.facts {
			known, open := false, false // comparisons that succeeded, or not
			for k := range st.notes {
				if strings.HasPrefix(k, "cmp:") {
					if t := e.T.all[atoi(k[len("cmp:"):])-1]; f.has(t) {
						one := a.isOne(st, t)
						known, open = known || one, open || !one
					}
				}
			}
			switch {
			case open:
				return true
			case known || !f.mentions(func(x *Term) bool { return cred(x) != "" }):
			case f.op == "extract":
				if !v {
					return true
				}
			case v && (f.op == "eq0" || f.op == "eq") && !a.emptyFact(f): // lengths that agree
			default:
				return true
			}
		}
		return false
	}
	bindingSet := append(append([]*Term(nil), recv...), bindings...)
	e.OnEvent = func(st *State, ev *Event) {
		bad := func(rule, f string, args ...any) { r.Violate(rule, fnLabel(ev.Fn), ev.Site.Pos(), f, args...) }
		// No other comparison tells how much of the credentials is right.
		for f := range st.facts {
			if (f.op == "eq" || f.op == "eq0" || f.op == "lt0") && a.comparesBoth(f, ofCred) {
				bad("timing", "the request's credentials are compared with the configured ones in a way that takes less time the earlier they differ")
			}
		}
		switch ev.Kind {
		case "load":
			st.pin(e.peek(st, ev.Args[0], deref(ev.Args[0].typ)))
			return
		case "store", "mapupdate":
			root := rootAddr(ev.Args[0])
			for _, b := range bindingSet {
				if root == b {
					bad("own", "a request changes what the next ones are judged by")
				}
			}
			if root != nil && root.op == "global" {
				bad("own", "a request changes a variable that all requests share")
			}
			return
		case "call", "go", "defer":
		default:
			return
		}
		if ev.Res != nil {
			st.pin(ev.Res)
		}
		if ev.Name == "fmt.Sprintf" {
			a.format(st, ev)
		}
		if constantTime[ev.Name] && len(ev.Args) == 2 {
			if what := says(st, ev.Args[0], ev.Args[1]); what != "" && ev.Res != nil {
				st.notes[fmt.Sprintf("cmp:%d", ev.Res.id)] = what
				r.Count("comparisons of credentials", 1)
			}
			return
		}
		var of, sec bool
		for _, x := range ev.Args {
			of, sec = of || ofCred(x), sec || a.ofSecret(x)
		}
		toW := false
		for _, x := range ev.Args {
			toW = toW || isW(x)
		}
		app := false
		for _, x := range ev.Args {
			app = app || a.isApp(x)
		}
		if of && sec && !app && !toW {
			bad("timing", "%s sees both the request's credentials and the configured ones: only a constant-time comparison may", ev.Name)
		}
		if (app || strings.HasSuffix(ev.Name, ".ServeHTTP") || ev.Name == "dynamic") && (toW || anyTerm(ev.Args, isReq)) {
			if ev.Kind != "call" {
				bad("gate", "the app is called by another goroutine or after the handler has returned")
			}
			if !matched(st) {
				bad("gate", "the app may be reached without the configured credentials")
			}
			if !toW || !anyTerm(ev.Args, isReq) {
				bad("gate", "the app gets another writer or request than the caller's")
			}
			if st.notes["app"] != "" || st.notes["sent"] != "" {
				bad("gate", "the app is called after something has been answered already")
			}
			st.notes["app"] = "1"
			return
		}
		h := func(t *Term) bool {
			return t.op == "call" && strings.HasSuffix(t.aux, "ResponseWriter).Header") && isW(t.args[0])
		}
		if (ev.Name == "(net/http.Header).Set" || ev.Name == "(net/http.Header).Add") && h(ev.Args[0].origin()) {
			if k, ok := ev.Args[1].strVal(); ok && textproto.CanonicalMIMEHeaderKey(k) == "Www-Authenticate" {
				st.notes["challenge"] = "1"
			}
			return
		}
		if !toW || ev.Iface && strings.HasSuffix(ev.Name, ".Header") {
			return
		}
		if st.notes["app"] != "" {
			bad("refused", "something else is sent after the app's answer")
			return
		}
		// What is sent first decides.
		code := (*Term)(nil)
		switch {
		case ev.Name == "net/http.Error" && len(ev.Args) == 3:
			code = ev.Args[2]
		case ev.Iface && strings.HasSuffix(ev.Name, ".WriteHeader"):
			code = ev.Args[1]
		}
		if st.notes["sent"] != "" {
			return
		}
		st.notes["sent"] = "1"
		if code == nil || !isNum(code, 401) {
			bad("refused", "a request without the configured credentials may get something other than 401 (%s)", ev.Name)
		}
		if st.notes["challenge"] == "" {
			bad("refused", "the 401 has no WWW-Authenticate header, without which no client sends credentials")
		}
	}
	e.OnExit = func(st *State, x *Exit) {
		pos := fn.Pos()
		if x.Site != nil && x.Site.Pos().IsValid() {
			pos = x.Site.Pos()
		}
		at := func(rule, f string, args ...any) { r.Violate(rule, fnLabel(fn), pos, f, args...) }
		if x.Kind != "return" {
			at("refused", "the auth handler may panic or end the program")
			return
		}
		for f := range st.facts {
			if (f.op == "eq" || f.op == "eq0" || f.op == "lt0") && a.comparesBoth(f, ofCred) {
				at("timing", "the request's credentials are compared with the configured ones in a way that takes less time the earlier they differ")
			}
		}
		switch {
		case st.notes["app"] != "":
			r.Count("paths of the auth handler that reach the app", 1)
		case st.notes["sent"] == "":
			at("refused", "a request may get neither the app's answer nor a 401")
		case matched(st) || !refusable(st):
			at("refused", "a request with the configured credentials may be refused")
		default:
			r.Count("paths of the auth handler that answer 401", 1)
		}
	}
	e.visited = map[string]bool{}
	e.Continue(s.st, fn, args, bindings)
	e.OnEvent, e.OnExit = nil, nil
}

func anyTerm(ts []*Term, pred func(*Term) bool) bool {
	for _, t := range ts {
		if pred(t) {
			return true
		}
	}
	return false
}

func (a *authRule) emptyFact(f *Term) bool {
	_, _, ok := a.emptiness(f, true)
	return ok
}

// comparesBoth: the fact is the outcome of a comparison of (parts of) the
// credentials themselves.
func (a *authRule) comparesBoth(f *Term, ofCred func(*Term) bool) bool {
	if f.op == "eq" {
		x, y := f.args[0], f.args[1]
		return ofCred(x) && a.ofSecret(y) || ofCred(y) && a.ofSecret(x)
	}
	lin := f.obj.(linear)
	of, sec := false, false
	for t := range lin.coef {
		if t.op == "len" || t.op == "call" || t.op == "extract" {
			continue
		}
		if t.op == "bin" && (t.mentions(func(x *Term) bool { return x.op == "call" && strings.HasPrefix(x.aux, "crypto/") })) {
			continue
		}
		of, sec = of || ofCred(t), sec || a.ofSecret(t)
	}
	return of && sec
}

// isOne: the result of a comparison is known to be 1 (or true), maybe as a
// part of a conjunction.
func (a *authRule) isOne(st *State, t *Term) bool {
	e := a.e
	if b, ok := t.typ.(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return e.isTrue(st, t)
	}
	if e.isTrue(st, e.T.Eq(t, e.T.Int(1))) || e.isFalse(st, e.T.Eq(t, e.T.Int(0))) {
		return true
	}
	for f, v := range st.facts {
		if f.op != "eq0" {
			continue
		}
		lin := f.obj.(linear)
		if len(lin.coef) != 1 {
			continue
		}
		for x, c := range lin.coef {
			if !and(x, t) {
				continue
			}
			if v && lin.k == -c || !v && lin.k == 0 {
				return true
			}
		}
	}
	return false
}

// and: x is a conjunction of results, one of which is t.
func and(x, t *Term) bool {
	if x == t {
		return true
	}
	if x.op != "bin" || x.aux != "&" && x.aux != "*" {
		return false
	}
	return and(x.args[0], t) || and(x.args[1], t)
}
