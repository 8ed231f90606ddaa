package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/frk/gosql"

// Prog is the resolved program: every package of the repository (and its
// dependencies) parsed, type-checked and lowered to SSA.
type Prog struct {
	Root      string
	Fset      *token.FileSet
	Pkgs      map[string]*packages.Package // by import path, repo + deps
	Repo      []*packages.Package          // repo packages only, sorted
	SSA       *ssa.Program
	codeTypes map[types.Type]bool
	toolFns   []*ssa.Function
	Funcs     []*ssa.Function // all source functions (incl. anon) of repo packages, sorted by position
}

func load(root string) (*Prog, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   root,
		Fset:  fset,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Root: root, Fset: fset, Pkgs: map[string]*packages.Package{}}
	var errs []string
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		p.Pkgs[pk.PkgPath] = pk
		if strings.HasPrefix(pk.PkgPath, modPath) {
			for _, e := range pk.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	for _, pk := range pkgs {
		if strings.HasPrefix(pk.PkgPath, modPath) && !strings.Contains(pk.PkgPath, "/testdata") && !strings.HasSuffix(pk.PkgPath, "/internal/testutil") {
			p.Repo = append(p.Repo, pk)
		}
	}
	sort.Slice(p.Repo, func(i, j int) bool { return p.Repo[i].PkgPath < p.Repo[j].PkgPath })
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.SSA = prog
	for _, pk := range p.Repo {
		if sp := prog.Package(pk.Types); sp != nil {
			sp.Build()
		}
	}
	inRepo := map[*types.Package]bool{}
	for _, pk := range p.Repo {
		inRepo[pk.Types] = true
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Synthetic != "" && fn.Origin() == nil && fn.Name() != "init" {
			continue
		}
		if fn.Pkg == nil && fn.Origin() == nil {
			continue
		}
		var tp *types.Package
		if fn.Pkg != nil {
			tp = fn.Pkg.Pkg
		} else if fn.Origin().Pkg != nil {
			tp = fn.Origin().Pkg.Pkg
		}
		if tp == nil || !inRepo[tp] || fn.Blocks == nil {
			continue
		}
		p.Funcs = append(p.Funcs, fn)
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	if len(p.Repo) < 8 || len(p.Funcs) < 1000 {
		return nil, fmt.Errorf("only %d packages and %d functions were loaded", len(p.Repo), len(p.Funcs))
	}
	buildCallerIndex(p)
	return p, nil
}

// pkg returns the repository package with the given path relative to the module.
func (p *Prog) pkg(rel string) *packages.Package {
	path := modPath
	if rel != "" {
		path += "/" + rel
	}
	pk := p.Pkgs[path]
	if pk == nil {
		fail("package %s not found in the repository", path)
	}
	return pk
}

// funcsIn returns the source functions of the given package (relative path).
func (p *Prog) funcsIn(rel string) []*ssa.Function {
	pk := p.pkg(rel)
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if fnPkg(f) == pk.Types {
			out = append(out, f)
		}
	}
	return out
}

func fnPkg(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Origin() != nil && f.Origin().Pkg != nil {
		return f.Origin().Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

// fn looks up a package-level function or a method ("T.m") or returns nil.
func (p *Prog) fn(rel, name string) *ssa.Function {
	pk := p.pkg(rel)
	sp := p.SSA.Package(pk.Types)
	if i := strings.IndexByte(name, '.'); i >= 0 {
		obj := pk.Types.Scope().Lookup(name[:i])
		if obj == nil {
			return nil
		}
		for _, t := range []types.Type{types.NewPointer(obj.Type()), obj.Type()} {
			if m, _, _ := types.LookupFieldOrMethod(t, true, pk.Types, name[i+1:]); m != nil {
				if mf, ok := m.(*types.Func); ok {
					return p.SSA.FuncValue(mf)
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (p *Prog) mustFn(rel, name string) *ssa.Function {
	f := p.fn(rel, name)
	if f == nil || f.Blocks == nil {
		fail("anchor %s.%s not found", rel, name)
	}
	return f
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	r, err := filepath.Rel(p.Root, ps.Filename)
	if err != nil {
		r = ps.Filename
	}
	return fmt.Sprintf("%s:%d", r, ps.Line)
}

// funcDecl finds the syntax of a function.
func (p *Prog) funcDecl(f *ssa.Function) *ast.FuncDecl {
	d, _ := f.Syntax().(*ast.FuncDecl)
	return d
}

// name of a function for messages and keys: pkg-relative.
func (p *Prog) fname(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/internal/", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "gosql")
	return s
}

type failure struct{ msg string }

func fail(format string, args ...interface{}) { panic(failure{fmt.Sprintf(format, args...)}) }
