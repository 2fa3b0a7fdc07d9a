package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/uber/prototool"

// Program is the loaded, type-checked tree under analysis.
type Program struct {
	RepoDir string
	Pkgs    map[string]*packages.Package
	SSA     *ssa.Program
	SPkgs   map[string]*ssa.Package
	Fset    *token.FileSet
	Files   int
	mutOnce sync.Once
	mut     map[*types.TypeName]map[int]bool
	fnMut   map[*ssa.Function]map[*types.TypeName]map[int]bool
	taken   []*ssa.Function // functions whose value is taken
	Funcs   []*ssa.Function // every function with a body in the module, incl. closures
}

func repoDir() string {
	if d := os.Getenv("PTCHECK_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadProgram() (*Program, error) {
	dir := repoDir()
	fset := token.NewFileSet()
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   dir,
		Fset:  fset,
		Env:   env,
		Tests: false,
	}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("loading packages: %v", err)
	}
	var errs []string
	p := &Program{RepoDir: dir, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}, Fset: fset}
	for _, pkg := range initial {
		for _, e := range pkg.Errors {
			errs = append(errs, e.Error())
		}
		if pkg.PkgPath == modPath || strings.HasPrefix(pkg.PkgPath, modPath+"/") {
			p.Pkgs[pkg.PkgPath] = pkg
			p.Files += len(pkg.CompiledGoFiles)
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-checking %s: %s", dir, strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(initial, ssa.InstantiateGenerics)
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", initial[i].PkgPath)
		}
		p.SPkgs[initial[i].PkgPath] = sp
	}
	prog.Build()
	p.SSA = prog
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || fn.Blocks == nil {
			continue
		}
		if inModule(fn.Pkg.Pkg) {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	return p, nil
}

func inModule(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == modPath || strings.HasPrefix(pkg.Path(), modPath+"/"))
}

func (p *Program) pkg(short string) *ssa.Package { return p.SPkgs[modPath+"/internal/"+short] }

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, p.RepoDir+"/"), ps.Line)
}

// mutableFields are the fields of n that some function stores to through a
// pointer it did not allocate itself.
func (p *Program) mutableFields(n *types.Named) map[int]bool {
	p.mutOnce.Do(func() {
		p.mut = map[*types.TypeName]map[int]bool{}
		p.fnMut = map[*ssa.Function]map[*types.TypeName]map[int]bool{}
		var cur *ssa.Function
		isTaken := map[*ssa.Function]bool{}
		put := func(m map[*types.TypeName]map[int]bool, o *types.TypeName, f int) {
			if m[o] == nil {
				m[o] = map[int]bool{}
			}
			m[o][f] = true
		}
		mark := func(x *ssa.FieldAddr) {
			nt := namedOf(x.X.Type())
			if nt == nil {
				return
			}
			put(p.mut, nt.Obj(), x.Field)
			put(p.fnMut[cur], nt.Obj(), x.Field)
		}
		for _, fn := range p.Funcs {
			cur = fn
			p.fnMut[fn] = map[*types.TypeName]map[int]bool{}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for i, op := range ins.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok && !isTaken[f] {
							if c, isC := ins.(ssa.CallInstruction); isC && i == 0 && c.Common().StaticCallee() == f {
								continue
							}
							isTaken[f] = true
							p.taken = append(p.taken, f)
						}
					}
				}
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					var addr ssa.Value
					switch x := ins.(type) {
					case *ssa.Store:
						addr = x.Addr
					case *ssa.MapUpdate:
						addr = x.Map
					case *ssa.Call:
						// the address of a field handed to other code
						for _, a := range x.Call.Args {
							if fa, ok := a.(*ssa.FieldAddr); ok {
								mark(fa)
							}
						}
					}
					var chain []*ssa.FieldAddr
					local := false
					for addr != nil {
						switch x := addr.(type) {
						case *ssa.FieldAddr:
							chain = append(chain, x)
							addr = x.X
						case *ssa.IndexAddr:
							addr = x.X
						case *ssa.UnOp:
							addr = x.X
						case *ssa.Alloc:
							local = true
							addr = nil
						default:
							addr = nil
						}
					}
					if _, m := ins.(*ssa.MapUpdate); !local || m {
						for _, x := range chain {
							mark(x)
						}
					}
				}
			}
		}
	})
	return p.mut[n.Obj()]
}

// mutableBy are the fields of n that fns, or functions they call, may store to;
// where that cannot be told they are the mutable fields.
func (p *Program) mutableBy(fns []*ssa.Function, n *types.Named) map[int]bool {
	all := p.mutableFields(n)
	if fns == nil {
		return all
	}
	out := map[int]bool{}
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function(nil), fns...)
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[f] {
			continue
		}
		seen[f] = true
		for i := range p.fnMut[f][n.Obj()] {
			out[i] = true
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					cc := c.Common()
					if _, b := cc.Value.(*ssa.Builtin); b {
						continue
					}
					sc := cc.StaticCallee()
					if sc == nil {
						return all
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && (g.Pkg == nil || inModule(g.Pkg.Pkg)) {
						work = append(work, g)
					}
				}
			}
		}
	}
	return out
}

// takenLike are the functions of a signature whose value is taken somewhere.
func (p *Program) takenLike(sig *types.Signature) []*ssa.Function {
	p.mutableFields(types.NewNamed(types.NewTypeName(0, nil, "_", nil), types.NewStruct(nil, nil), nil))
	out := []*ssa.Function{}
	for _, f := range p.taken {
		fs := f.Signature
		if types.Identical(types.NewSignature(nil, fs.Params(), fs.Results(), fs.Variadic()), types.NewSignature(nil, sig.Params(), sig.Results(), sig.Variadic())) {
			out = append(out, f)
		}
	}
	return out
}
