package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "sourcegraph.com/sourcegraph/appdash"

// Program is the type-checked, SSA-converted source of /repo.
type Program struct {
	Repo         string
	Fset         *token.FileSet
	Prog         *ssa.Program
	Pkgs         map[string]*packages.Package // by import path below modPath ("" = root)
	SSA          map[string]*ssa.Package
	inPkg        map[*types.Package]bool
	srcFn        []*ssa.Function
	mutFl, finFl map[string]bool
	mutGl        map[*ssa.Global]bool // package variables that are changed after initialisation
}

// Load type-checks the given packages (import paths relative to the module)
// from repo's working tree, and builds their SSA form. The build's own go.mod
// and go.sum are copied to a scratch directory where a declaration-only stub
// for the one package that is not available offline is added.
func Load(repo, verif string, rel []string, env ...string) (*Program, error) {
	tmp, err := os.MkdirTemp("", "appdashcheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	read := func(name string) ([]byte, error) {
		b, err := os.ReadFile(filepath.Join(repo, name))
		if err != nil {
			b, err = os.ReadFile(filepath.Join("/opt/vp/mod", name))
		}
		if err != nil {
			b, err = os.ReadFile(filepath.Join(verif, "stubs", name+".repo"))
		}
		return b, err
	}
	mod, err := read("go.mod")
	if err != nil {
		return nil, err
	}
	sum, err := read("go.sum")
	if err != nil {
		return nil, err
	}
	stub := modPath + "-data"
	mod = append(mod, []byte("\nrequire "+stub+" v0.0.0\nreplace "+stub+" => "+filepath.Join(verif, "stubs/appdash-data")+"\n")...)
	modfile := filepath.Join(tmp, "go.mod")
	if err := os.WriteFile(modfile, mod, 0o666); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0o666); err != nil {
		return nil, err
	}

	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedModule | packages.NeedExportFile,
		Dir:        repo,
		Fset:       fset,
		BuildFlags: []string{"-modfile=" + modfile},
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off",
			"GOSUMDB=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GO111MODULE=on", "CGO_ENABLED=0"),
	}
	cfg.Env = append(cfg.Env, env...)
	var patterns []string
	for _, r := range rel {
		p := modPath
		if r != "" {
			p += "/" + r
		}
		patterns = append(patterns, p)
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range initial {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if len(p.Syntax) == 0 {
			errs = append(errs, p.PkgPath+": no Go files")
		}
	}
	if len(initial) != len(rel) {
		errs = append(errs, fmt.Sprintf("loaded %d packages, want %d", len(initial), len(rel)))
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the source does not type-check: %s", strings.Join(errs, "; "))
	}

	// The packages named are analysed from source; everything they import,
	// including one another, must be one and the same types.Package, so the
	// requested packages are listed in dependency order by go/packages itself.
	prog, _ := ssautil.Packages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{
		Repo: repo, Fset: fset, Prog: prog,
		Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{},
		inPkg: map[*types.Package]bool{},
	}
	for _, ip := range initial {
		r := strings.TrimPrefix(strings.TrimPrefix(ip.PkgPath, modPath), "/")
		p.Pkgs[r] = ip
		p.SSA[r] = prog.Package(ip.Types)
		p.inPkg[ip.Types] = true
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil || fn.Synthetic != "" {
			continue
		}
		if pk := fnPkg(fn); pk != nil && p.inPkg[pk] {
			p.srcFn = append(p.srcFn, fn)
		}
	}
	sort.Slice(p.srcFn, func(i, j int) bool { return p.srcFn[i].Pos() < p.srcFn[j].Pos() })
	return p, nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

// Pos formats a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// InRepo reports whether fn is source code of the repository (not generated
// by the SSA builder and not a dependency).
func (p *Program) InRepo(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && p.inPkg[pk] && fn.Blocks != nil
}

// Named finds a named type of a package.
func (p *Program) Named(rel, name string) *types.Named {
	pk := p.Pkgs[rel]
	if pk == nil {
		return nil
	}
	o, _ := pk.Types.Scope().Lookup(name).(*types.TypeName)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Func finds a package-level function.
func (p *Program) Func(rel, name string) *ssa.Function {
	pk := p.SSA[rel]
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

// Method finds the implementation of a method of *T or T.
func (p *Program) Method(rel, typ, name string) *ssa.Function {
	n := p.Named(rel, typ)
	if n == nil {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(n), n} {
		ms := p.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			sel := ms.At(i)
			if sel.Obj().Name() == name {
				if f, ok := sel.Obj().(*types.Func); ok {
					if fn := p.Prog.FuncValue(f); fn != nil && fn.Blocks != nil {
						return fn
					}
				}
				return p.Prog.MethodValue(sel)
			}
		}
	}
	return nil
}

// constGlobal reports a package variable of the repository that only package
// initialisation assigns, and whose address is not taken.
func (p *Program) constGlobal(obj any) bool {
	g, ok := obj.(*ssa.Global)
	if !ok || g.Pkg == nil || !p.inPkg[g.Pkg.Pkg] {
		return false
	}
	if g.Object() != nil && g.Object().Exported() {
		return false // users may assign it
	}
	if p.mutGl == nil {
		p.mutGl = map[*ssa.Global]bool{}
		for _, fn := range p.srcFn {
			isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						if st, ok := in.(*ssa.Store); ok && st.Addr == g && isInit {
							continue
						}
						p.mutGl[g] = true
					}
				}
			}
		}
	}
	return !p.mutGl[g]
}

// finalField reports an unexported field of a structure of the repository that
// is only assigned in the function that makes the structure, and whose address
// is not taken: every structure keeps one value in it.
func (p *Program) finalField(key string) bool {
	if p.mutFl == nil {
		p.mutFl = map[string]bool{}
		p.finFl = map[string]bool{}
		var all func(t types.Type)
		all = func(t types.Type) {
			if s, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					p.mutFl[fieldKey(t, i)] = true
					all(s.Field(i).Type())
				}
			}
		}
		for _, fn := range p.srcFn {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						if newObject(in.Addr) == nil {
							all(in.Val.Type())
						}
					case *ssa.MapUpdate:
					case *ssa.FieldAddr:
						n, ok := deref(in.X.Type()).(*types.Named)
						k := fieldKey(in.X.Type(), in.Field)
						f := deref(in.X.Type()).Underlying().(*types.Struct).Field(in.Field)
						if !ok || n.Obj().Pkg() == nil || !p.inPkg[n.Obj().Pkg()] || f.Exported() {
							continue
						}
						p.finFl[k] = true
						for _, u := range *in.Referrers() {
							switch u := u.(type) {
							case *ssa.UnOp:
								continue
							case *ssa.FieldAddr:
								continue
							case *ssa.Store:
								if u.Addr == in && newObject(in) != nil {
									continue
								}
							case *ssa.DebugRef:
								continue
							}
							p.mutFl[k] = true
						}
					}
				}
			}
		}
	}
	return p.finFl[key] && !p.mutFl[key]
}
