package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPrefix = "github.com/rodb-io/rodb/pkg/"

// Program is the typed SSA form of the current /repo working tree.
type Program struct {
	Prog  *ssa.Program
	Pkgs  []*ssa.Package
	Funcs map[string]*ssa.Function // by key
	// globals that are stored to outside package initialisers
	MutGlobals map[*ssa.Global]bool
	Repo       string
	mu         sync.Mutex
	byPath     map[string]*types.Package
}

func shortPath(s string) string { return strings.ReplaceAll(s, modPrefix, "") }

// funcKey names a function the way contracts refer to it.
func funcKey(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	if f.Parent() != nil {
		return funcKey(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	return shortPath(f.RelString(nil))
}

func loadProgram(repo string) (*Program, error) {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		Env:        env,
		BuildFlags: []string{"-tags=sqlite_fts5"},
	}
	pkgs, err := packages.Load(cfg, "./pkg/...", "./cmd/...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{Prog: prog, Pkgs: spkgs, Funcs: map[string]*ssa.Function{}, MutGlobals: map[*ssa.Global]bool{}, Repo: repo}
	add := func(f *ssa.Function) {}
	add = func(f *ssa.Function) {
		P.Funcs[funcKey(f)] = f
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && f.Name() != "init" {
						P.MutGlobals[g] = true
					}
				}
			}
		}
	}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	return P, nil
}

func (P *Program) keys() []string {
	var r []string
	for k := range P.Funcs {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
