package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/livekit/psrpc"

// Program is the type-checked, SSA-lowered form of /repo's current working tree.
type Program struct {
	Dir    string
	Pkgs   []*packages.Package
	Fset   *token.FileSet
	SSA    *ssa.Program
	ByPath map[string]*ssa.Package
	TPkg   map[string]*types.Package

	Funcs []*ssa.Function // every function with a body declared in the analysed packages (incl. closures)

	unstableF  map[*types.Var]bool
	escapedF   map[*types.Var]bool // struct-valued fields whose address is handed to a call
	globalW    map[*ssa.Global]bool
	mutexField map[*types.Var]bool
	nnGlobal   map[*ssa.Global]bool
}

var loadPatterns = []string{
	".", "./internal", "./internal/bus", "./internal/interceptors", "./internal/logger", "./internal/stream",
	"./pkg/...", "./protoc-gen-psrpc", "./testutils", "./version",
}

func goEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		switch {
		case strings.HasPrefix(e, "GOFLAGS="), strings.HasPrefix(e, "GOTOOLCHAIN="), strings.HasPrefix(e, "GOPROXY="), strings.HasPrefix(e, "GOWORK="), strings.HasPrefix(e, "GO111MODULE="):
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
}

// Load type-checks the packages of the repository at dir and builds SSA for them.
func Load(dir string, patterns []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
		Dir: dir,
		Env: goEnv(),
	}
	// Only the requested packages are loaded from source: dependencies come from export data.
	cfg.Mode &^= packages.NeedDeps
	cfg.Mode |= packages.NeedImports
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("type-check: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages matched")
	}
	p := &Program{Dir: dir, Pkgs: pkgs, ByPath: map[string]*ssa.Package{}, TPkg: map[string]*types.Package{}}
	p.Fset = pkgs[0].Fset
	p.buildSSA()
	return p, nil
}

func (p *Program) buildSSA() {
	prog := ssa.NewProgram(p.Fset, ssa.BuilderMode(0))
	created := map[*types.Package]bool{}
	var createDeps func(tp *types.Package)
	isInit := map[*types.Package]*packages.Package{}
	for _, pk := range p.Pkgs {
		isInit[pk.Types] = pk
	}
	createDeps = func(tp *types.Package) {
		if created[tp] {
			return
		}
		created[tp] = true
		for _, im := range tp.Imports() {
			createDeps(im)
		}
		if pk := isInit[tp]; pk != nil {
			sp := prog.CreatePackage(tp, pk.Syntax, pk.TypesInfo, true)
			p.ByPath[tp.Path()] = sp
		} else {
			prog.CreatePackage(tp, nil, nil, true)
		}
		p.TPkg[tp.Path()] = tp
	}
	for _, pk := range p.Pkgs {
		createDeps(pk.Types)
	}
	prog.Build()
	p.SSA = prog

	// collect every source function with a body
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if len(f.Blocks) > 0 {
			p.Funcs = append(p.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range p.Pkgs {
		sp := p.ByPath[pk.PkgPath]
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].Pos() < p.Funcs[j].Pos() })
}

// Pkg returns the SSA package for a path relative to the module root ("" is the root package).
func (p *Program) Pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.ByPath[modPath]
	}
	return p.ByPath[modPath+"/"+rel]
}

// Func finds a package-level function by exported name.
func (p *Program) Func(rel, name string) *ssa.Function {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Method finds method name on the named type typ of package rel.
func (p *Program) Method(rel, typ, name string) *ssa.Function {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

// Named finds a named type.
func (p *Program) Named(rel, typ string) *types.Named {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

func (p *Program) InRepo(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		// method wrappers / thunks
		if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// instrPos finds the best position for an instruction.
func (p *Program) InstrPos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return p.Pos(in.Pos())
	}
	// fall back to operands, then to neighbours in the block, then the function
	for _, op := range in.Operands(nil) {
		if op != nil && *op != nil && (*op).Pos().IsValid() {
			if i, ok := (*op).(ssa.Instruction); ok && i.Parent() == in.Parent() {
				return p.Pos((*op).Pos())
			}
		}
	}
	if b := in.Block(); b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return p.Pos(x.Pos())
			}
		}
	}
	if f := in.Parent(); f != nil {
		return p.Pos(f.Pos())
	}
	return "-"
}

// shortName gives a stable readable name for a function: package-relative, generics stripped.
func shortName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Parent() != nil {
		return shortName(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "psrpc.")
	// drop type parameter lists
	var b strings.Builder
	depth := 0
	for _, r := range s {
		switch r {
		case '[':
			depth++
		case ']':
			depth--
		default:
			if depth == 0 {
				b.WriteRune(r)
			}
		}
	}
	return b.String()
}

// generated: the function comes from generated protobuf code.
func (p *Program) generated(f *ssa.Function) bool {
	return strings.HasSuffix(p.Fset.Position(f.Pos()).Filename, ".pb.go")
}
