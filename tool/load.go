package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/vulpemventures/neutrino-elements"

// Prog is the resolved program: every package of /repo in SSA form, with the
// types (not the bodies) of its dependencies.
type Prog struct {
	reads map[*types.Var][]ssa.Value
	Fset  *token.FileSet
	Pkgs  []*packages.Package // packages of the module, sorted
	ByP   map[string]*packages.Package
	SSA   *ssa.Program
	Repo  string
	Funcs []*ssa.Function // every function with a body, incl. closures, module packages in scope

	loops  map[*ssa.Function]*loopInfo
	live   map[*ssa.Function]*liveInfo
	bodyOf map[string]bool
}

func loadRepo(repo string) (*Prog, error) {
	fset := token.NewFileSet()
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
		packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule
	absRepo, err := filepath.Abs(repo)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode: mode, Dir: absRepo, Fset: fset, Tests: false,
		Env: append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local"),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution|parser.ParseComments)
			if f != nil && !strings.HasPrefix(filename, absRepo+string(filepath.Separator)) {
				f.Comments = nil
				for _, d := range f.Decls {
					// only the types of dependencies are needed; generic functions must keep a body
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Type.TypeParams == nil && !recvGeneric(fd) {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("load: %w", err)
	}
	p := &Prog{Fset: fset, ByP: map[string]*packages.Package{}, Repo: absRepo, loops: map[*ssa.Function]*loopInfo{}, live: map[*ssa.Function]*liveInfo{}, bodyOf: map[string]bool{}}
	for _, pk := range pkgs {
		if !strings.HasPrefix(pk.PkgPath, modPath) {
			continue
		}
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("package %s does not type-check: %v", pk.PkgPath, e)
		}
		if pk.IllTyped && pk.Types == nil {
			return nil, fmt.Errorf("package %s is ill-typed", pk.PkgPath)
		}
		p.Pkgs = append(p.Pkgs, pk)
		p.ByP[pk.PkgPath] = pk
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	if len(p.Pkgs) < 10 {
		return nil, fmt.Errorf("only %d packages of the module were loaded", len(p.Pkgs))
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	p.SSA = prog
	seen := map[*packages.Package]bool{}
	var create func(pk *packages.Package)
	create = func(pk *packages.Package) {
		if seen[pk] {
			return
		}
		seen[pk] = true
		var deps []string
		for k := range pk.Imports {
			deps = append(deps, k)
		}
		sort.Strings(deps)
		for _, k := range deps {
			create(pk.Imports[k])
		}
		if pk.Types == nil {
			return
		}
		if _, ok := p.ByP[pk.PkgPath]; ok {
			prog.CreatePackage(pk.Types, pk.Syntax, pk.TypesInfo, true)
		} else {
			prog.CreatePackage(pk.Types, nil, nil, true)
		}
	}
	for _, pk := range p.Pkgs {
		create(pk)
	}
	for _, pk := range p.Pkgs {
		if sp := prog.Package(pk.Types); sp != nil {
			sp.Build()
		}
	}
	p.collectFuncs()
	return p, nil
}

func recvGeneric(fd *ast.FuncDecl) bool {
	if fd.Recv == nil || len(fd.Recv.List) == 0 {
		return false
	}
	t := fd.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	switch t.(type) {
	case *ast.IndexExpr, *ast.IndexListExpr:
		return true
	}
	return false
}

// inScope: packages whose behaviour the properties are about (not test helpers and scripts)
func inScope(path string) bool {
	if !strings.HasPrefix(path, modPath) {
		return false
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
	for _, x := range []string{"test/", "script", "pkg/testutil"} {
		if strings.HasPrefix(rel, x) {
			return false
		}
	}
	return true
}

func (p *Prog) collectFuncs() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks == nil {
			return
		}
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
		// generic instances called from here
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if cal := c.Common().StaticCallee(); cal != nil && cal.Origin() != nil && cal.Blocks != nil && inScope(pkgPathOf(cal)) {
						add(cal)
					}
				}
			}
		}
	}
	for _, pk := range p.Pkgs {
		if !inScope(pk.PkgPath) {
			continue
		}
		sp := p.SSA.Package(pk.Types)
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				if m.TypeParams().Len() == 0 {
					add(m)
				}
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					if nt, ok := m.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
						continue
					}
					ms := p.SSA.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.SSA.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && inScope(pkgPathOf(f)) {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.SliceStable(p.Funcs, func(i, j int) bool { return p.Funcs[i].Pos() < p.Funcs[j].Pos() })
}

func pkgPathOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if f.Parent() != nil {
		return pkgPathOf(f.Parent())
	}
	return ""
}

func rel(path string) string { return strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/") }

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Prog) pkg(relPath string) *ssa.Package {
	pk := p.ByP[modPath+"/"+relPath]
	if pk == nil {
		return nil
	}
	return p.SSA.Package(pk.Types)
}

// fname is a stable, position independent name of a function.
func fname(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}
