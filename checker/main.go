package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A Check decides one property.
type Check struct {
	ID       string
	Rule     string // the rule applied, for the evidence
	Pkgs     []string
	Run      func(*R)
	NotCover string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// R collects what a check analyses and reports.
type R struct {
	P          *Program
	Check      *Check
	Thorough   bool
	violations []violation
	seen       map[string]bool
	counts     map[string]int
	funcs      map[string]bool
	samples    []string
	notes      []string
}

type violation struct {
	Rule  string `json:"rule"`
	Where string `json:"construct"`
	Pos   string `json:"pos"`
	Msg   string `json:"message"`
}

// Violate reports a construct that breaks a rule.
func (r *R) Violate(rule, construct string, pos token.Pos, format string, args ...any) {
	v := violation{Rule: rule, Where: construct, Pos: r.P.Pos(pos), Msg: fmt.Sprintf(format, args...)}
	k := v.Rule + "|" + v.Where + "|" + v.Pos
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.violations = append(r.violations, v)
}

// Require reports a missing anchor: the construct that a rule is about cannot
// be found, so that the rule is undecided.
func (r *R) Require(ok bool, rule, what string) bool {
	if !ok {
		r.Violate(rule, what, token.NoPos, "cannot be decided: %s not found in the source", what)
	}
	return ok
}

func (r *R) Count(what string, n int) { r.counts[what] += n }

func (r *R) Sample(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	for _, x := range r.samples {
		if x == s {
			return
		}
	}
	if len(r.samples) < 60 {
		r.samples = append(r.samples, s)
	}
}

// Floor makes the check fail when fewer instances of a rule were found than
// were confirmed by hand: a rule that matches nothing decides nothing.
func (r *R) Floor(what string, n int) {
	if r.counts[what] < n {
		r.Violate("instances", what, token.NoPos, "cannot be decided: only %d instances of %q were found, at least %d are expected", r.counts[what], what, n)
	}
}

// Use records an engine's coverage and fails on anything it left undecided.
func (r *R) Use(e *Engine) {
	for fn := range e.Inlined {
		r.funcs[fn.String()] = true
	}
	r.counts["abstract states"] += e.States
	r.counts["instruction visits"] += e.steps
	for _, u := range e.Undecided {
		r.Violate("undecided", u, token.NoPos, "the analysis could not decide: %s", u)
	}
}

func fnLabel(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return strings.ReplaceAll(fn.String(), modPath, "appdash")
}

type finding struct {
	Property, Rule, Construct, What string
}

func knownFindings(verif, id string) []finding {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var fs []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=<id> rule=<rule> construct=<construct> :: <what fails>
		f := finding{}
		head, what, _ := strings.Cut(strings.TrimPrefix(l, "known: "), " :: ")
		f.What = what
		for _, w := range strings.Fields(head) {
			k, v, _ := strings.Cut(w, "=")
			switch k {
			case "property":
				f.Property = v
			case "rule":
				f.Rule = v
			case "construct":
				f.Construct = v
			}
		}
		if f.Property == id {
			fs = append(fs, f)
		}
	}
	return fs
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "this directory")
	id := flag.String("check", "", "property to check")
	tier := flag.String("tier", "", "quick or thorough")
	list := flag.Bool("list", false, "list checks")
	dumpFn := flag.String("dump", "", "print the exits of a function")
	doc := flag.Bool("doc", false, "print the checks' rules as JSON")
	flag.Parse()
	if *doc {
		d := map[string][2]string{}
		for k, c := range checks {
			d[k] = [2]string{c.Rule, c.NotCover}
		}
		json.NewEncoder(os.Stdout).Encode(d)
		return
	}
	if *list {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if *dumpFn != "" {
		p, err := Load(*repo, *verif, allPkgs)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		dump(p, *dumpFn, flag.Args())
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *id == "all" { // for development: every check on one load
		runAll(*repo, *verif, *tier)
		return
	}
	c := checks[*id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown check", *id)
		os.Exit(2)
	}
	os.Exit(runCheck(c, *repo, *verif, *tier))
}

var allPkgs = []string{"", "internal/wire", "httptrace", "sqltrace", "opentracing", "traceapp", "traceapp/tmpl", "cmd/appdash"}

func runAll(repo, verif, tier string) {
	p, err := Load(repo, verif, allPkgs)
	if err != nil {
		fmt.Println("VIOLATION property=ALL", err)
		os.Exit(1)
	}
	var ids []string
	for k := range checks {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	bad := 0
	only := flag.Args()
	for _, k := range ids {
		if len(only) > 0 && !containsStr(only, k) {
			continue
		}
		t := time.Now()
		r := runOn(checks[k], p, tier)
		fmt.Printf("%s: %d violations, %d functions, %v, %.1fs\n", k, len(r.violations), len(r.funcs), r.counts, time.Since(t).Seconds())
		for _, v := range r.violations {
			fmt.Printf("   %s [%s] %s: %s\n", v.Rule, v.Where, v.Pos, v.Msg)
		}
		bad += len(r.violations)
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func containsStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func newR(c *Check, p *Program, tier string) *R {
	return &R{P: p, Check: c, Thorough: tier == "thorough", seen: map[string]bool{}, counts: map[string]int{}, funcs: map[string]bool{}}
}

func runOn(c *Check, p *Program, tier string) (r *R) {
	r = newR(c, p, tier)
	defer func() {
		if x := recover(); x != nil {
			if os.Getenv("APPDASHCHECK_DEBUG") != "" {
				debug.PrintStack()
			}
			r.violations = append(r.violations, violation{Rule: "undecided", Where: "analysis failure", Pos: "-", Msg: fmt.Sprintf("cannot be decided: the analysis failed: %v", x)})
		}
	}()
	c.Run(r)
	return r
}

// platforms are the other ones that the source is analysed for.
var platforms = [][]string{{"GOOS=linux", "GOARCH=386"}, {"GOOS=windows", "GOARCH=amd64"}, {"GOOS=darwin", "GOARCH=arm64"}}

// deeper analyses again with larger bounds, and the source as it is built for
// other platforms.
func deeper(c *Check, repo, verif string, r *R) {
	have := map[string]bool{}
	key := func(v violation) string { return v.Rule + "|" + v.Where + "|" + v.Pos + "|" + v.Msg }
	for _, v := range r.violations {
		have[key(v)] = true
	}
	maxDepth, moreStates = 2*maxDepth, 4
	for i := -1; i < len(platforms); i++ {
		var env []string
		if i >= 0 {
			env = platforms[i]
		}
		p, err := Load(repo, verif, allPkgs, env...)
		if err != nil {
			if i >= 0 {
				r.Count("platforms that cannot be loaded here", 1)
				continue
			}
			r.violations = append(r.violations, violation{Rule: "load", Where: "source", Pos: "-", Msg: err.Error()})
			continue
		}
		x := runOn(c, p, "thorough")
		r.Count("further analyses", 1)
		if i >= 0 {
			r.samples = append(r.samples, fmt.Sprintf("%s: %v", strings.Join(env, " "), x.counts))
		} else {
			r.samples = append(r.samples, fmt.Sprintf("twice the inlining depth, four times the states: %v", x.counts))
		}
		for _, v := range x.violations {
			if !have[key(v)] {
				have[key(v)] = true
				r.violations = append(r.violations, v)
			}
		}
	}
}

var moreStates = 1

func runCheck(c *Check, repo, verif, tier string) int {
	start := time.Now()
	p, err := Load(repo, verif, allPkgs)
	var r *R
	if err != nil {
		r = newR(c, &Program{Repo: repo}, tier)
		r.violations = append(r.violations, violation{Rule: "load", Where: "source", Pos: "-", Msg: err.Error()})
	} else {
		r = runOn(c, p, tier)
		if tier == "thorough" {
			deeper(c, repo, verif, r)
		}
	}
	sort.Slice(r.violations, func(i, j int) bool {
		a, b := r.violations[i], r.violations[j]
		if a.Rule != b.Rule {
			return a.Rule < b.Rule
		}
		return a.Where < b.Where
	})
	var live []violation
	printed := map[string]bool{}
	for _, v := range r.violations {
		matched := false
		for _, f := range knownFindings(verif, c.ID) {
			if f.Rule == v.Rule && f.Construct == v.Where {
				matched = true
				if !printed[f.What] {
					printed[f.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, f.What)
				}
			}
		}
		if !matched {
			live = append(live, v)
		}
	}
	var fns []string
	for f := range r.funcs {
		fns = append(fns, strings.ReplaceAll(f, modPath, "appdash"))
	}
	sort.Strings(fns)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation":        "Static analysis of /repo's current source (type-checked, SSA form; nothing is executed). Rule: " + c.Rule,
		"functions_analysed": len(fns),
		"functions":          fns,
		"instances":          r.samples,
		"obligations":        r.counts,
		"known_findings":     len(r.violations) - len(live),
	}
	for k, n := range r.counts {
		cov[strings.ReplaceAll(k, " ", "_")] = n
	}
	if c.NotCover != "" {
		cov["not_covered"] = c.NotCover
	}
	var vs []string
	for _, v := range live {
		vs = append(vs, fmt.Sprintf("%s [%s] %s: %s", v.Pos, v.Rule, v.Where, v.Msg))
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s":      time.Since(start).Seconds(),
		"assumptions": assumptions,
		"violations":  len(live),
	}
	if len(vs) > 0 {
		cov["violations_found"] = vs
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o777)
	b, _ := json.MarshalIndent(ev, "", "  ")
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o666); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s: %d functions analysed, %v\n", c.ID, len(fns), r.counts)
	if len(live) == 0 {
		fmt.Printf("OK property=%s\n", c.ID)
		return 0
	}
	rp := filepath.Join(dir, c.ID+".violations.txt")
	os.WriteFile(rp, []byte(strings.Join(vs, "\n")+"\n"), 0o666)
	for _, v := range vs {
		fmt.Println("  " + v)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
	return 1
}

var assumptions = []string{
	"the Go compiler and the standard library behave as documented; dependencies are opaque and do what their documentation says",
	"no unsafe, cgo or linkname tricks (the analysed packages use none)",
	"a call of unknown code (interface method, function value) may read and write everything it can reach, except what a lock held by the caller guards",
	"code is analysed for the linux/amd64 build",
}
