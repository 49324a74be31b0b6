// Package load type-checks the repository and lowers it to SSA.
package load

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded repository.
type Program struct {
	Root   string
	Module string
	Fset   *token.FileSet
	SSA    *ssa.Program
	Pkgs   map[string]*ssa.Package // keyed by path relative to the module ("" = root)
	Types  map[string]*packages.Package
	Driver *ssa.Package    // client code of the check
	Funcs  []*ssa.Function // every function with a body declared in the repository, incl. closures
}

// RepoRoot is the tree to analyse.
func RepoRoot() string {
	if r := os.Getenv("DSV_REPO"); r != "" {
		return r
	}
	return "/repo"
}

// DriverPkg is where the analysis' own client code appears in the module.
const DriverPkg = "zzdriver"

// Load loads every package of the module (without tests). Client code, when given, is added as one more package
// of the module, in memory only.
func Load(root, client string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
			packages.NeedImports | packages.NeedDeps | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: root,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	pats := []string{"./..."}
	if client != "" {
		cfg.Overlay = map[string][]byte{filepath.Join(root, DriverPkg, "client.go"): []byte(client)}
		pats = append(pats, "./"+DriverPkg)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", root)
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Module == nil || !p.Module.Main {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Program{Root: root, Fset: pkgs[0].Fset, SSA: prog, Pkgs: map[string]*ssa.Package{}, Types: map[string]*packages.Package{}}
	for _, p := range pkgs {
		if p.Module == nil || !p.Module.Main {
			continue
		}
		P.Module = p.Module.Path
		sp := prog.Package(p.Types)
		if sp == nil {
			continue
		}
		sp.Build()
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, p.Module.Path), "/")
		if rel == DriverPkg {
			P.Driver = sp
			continue
		}
		P.Pkgs[rel] = sp
		P.Types[rel] = p
	}
	all := map[*ssa.Function]bool{}
	for _, sp := range P.Pkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				P.add(m, all)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							P.add(f, all)
						}
					}
				}
			}
		}
	}
	for f := range all {
		P.Funcs = append(P.Funcs, f)
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		a, b := P.Fset.Position(P.Funcs[i].Pos()), P.Fset.Position(P.Funcs[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		if a.Offset != b.Offset {
			return a.Offset < b.Offset
		}
		return P.Funcs[i].String() < P.Funcs[j].String()
	})
	return P, nil
}

func (P *Program) add(f *ssa.Function, all map[*ssa.Function]bool) {
	if f == nil || all[f] || len(f.Blocks) == 0 {
		return
	}
	all[f] = true
	for _, a := range f.AnonFuncs {
		P.add(a, all)
	}
}

// InRepo reports whether fn is declared in the analysed module.
func (P *Program) InRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if fn.Parent() != nil {
		return P.InRepo(fn.Parent())
	}
	var pkg *types.Package
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	} else if o := fn.Object(); o != nil {
		pkg = o.Pkg()
	}
	return pkg != nil && P.InRepoPkg(pkg)
}

func (P *Program) InRepoPkg(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == P.Module || strings.HasPrefix(pkg.Path(), P.Module+"/"))
}

// Rel returns the package path relative to the module.
func (P *Program) Rel(pkg *types.Package) string {
	return strings.TrimPrefix(strings.TrimPrefix(pkg.Path(), P.Module), "/")
}

// Pos renders a position relative to the repository root.
func (P *Program) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.Fset.Position(p)
	if r, err := filepath.Rel(P.Root, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// FuncName gives a short stable name: pkg.(Type).Method.
func (P *Program) FuncName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.String()
	s = strings.ReplaceAll(s, P.Module+"/", "")
	s = strings.ReplaceAll(s, P.Module, "")
	return s
}

// Named finds a named type.
func (P *Program) Named(pkg, name string) *types.Named {
	sp := P.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	t, ok := sp.Members[name].(*ssa.Type)
	if !ok {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

// Func finds a package-level function.
func (P *Program) Func(pkg, name string) *ssa.Function {
	sp := P.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	f, _ := sp.Members[name].(*ssa.Function)
	return f
}

// Method finds the method of T or *T by name (promoted methods included).
func (P *Program) Method(T types.Type, name string) *ssa.Function {
	if T == nil {
		return nil
	}
	for _, t := range []types.Type{T, types.NewPointer(T)} {
		ms := P.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return P.SSA.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

// M finds pkg.Type.Method.
func (P *Program) M(pkg, typ, method string) *ssa.Function {
	n := P.Named(pkg, typ)
	if n == nil {
		return nil
	}
	return P.Method(n, method)
}
