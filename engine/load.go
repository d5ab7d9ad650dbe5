package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

// World is the immutable, shared part: SSA program, compiled code, types.
type World struct {
	prog    *ssa.Program
	mu      sync.Mutex
	code    map[*ssa.Function]*Code
	globals map[*ssa.Global]int
	globSz  []int
	globNm  []*ssa.Global
	tmap    typeutil.Map
	rtypes  []*RType
	built   map[*ssa.Package]bool
	harness map[string]*ssa.Function
	entry   *ssa.Package
	encoded sync.Map // function name -> true (repo functions executed)
	repoFns map[string]bool
	inits   []*ssa.Function
}

const repoMod = "github.com/akm/tparser"

func isRepoPkg(path string) bool { return path == repoMod || strings.HasPrefix(path, repoMod+"/") }

func loadWorld(dir, pattern string) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	w := &World{prog: prog, code: map[*ssa.Function]*Code{}, globals: map[*ssa.Global]int{}, built: map[*ssa.Package]bool{}, repoFns: map[string]bool{}}
	w.entry = spkgs[0]
	w.build(w.entry)
	return w, nil
}

func (w *World) build(p *ssa.Package) {
	if p == nil || w.built[p] {
		return
	}
	w.built[p] = true
	p.Build()
	if isRepoPkg(p.Pkg.Path()) {
		for f := range ssautilFuncs(p) {
			w.repoFns[f.String()] = true
		}
	}
}

func ssautilFuncs(p *ssa.Package) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] || f.Blocks == nil || f.Synthetic != "" {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					add(p.Prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	return out
}

// rtype returns the canonical runtime type (w.mu held).
func (w *World) rtype(t types.Type) *RType {
	t = types.Unalias(t)
	if r := w.tmap.At(t); r != nil {
		return r.(*RType)
	}
	r := &RType{t: t, id: len(w.rtypes), meth: map[*types.Func]*Code{}, impl: map[string]bool{}}
	w.rtypes = append(w.rtypes, r)
	w.tmap.Set(t, r)
	return r
}

func (w *World) globalIdx(g *ssa.Global) int {
	if i, ok := w.globals[g]; ok {
		return i
	}
	i := len(w.globSz)
	w.globals[g] = i
	w.globSz = append(w.globSz, slotsOf(g.Type().(*types.Pointer).Elem()))
	w.globNm = append(w.globNm, g)
	return i
}

// method resolves a method of dynamic type r.
func (w *World) method(r *RType, f *types.Func) *Code {
	w.mu.Lock()
	defer w.mu.Unlock()
	if c, ok := r.meth[f]; ok {
		return c
	}
	var c *Code
	if sel := w.prog.MethodSets.MethodSet(r.t).Lookup(f.Pkg(), f.Name()); sel != nil {
		if fn := w.prog.MethodValue(sel); fn != nil {
			c = w.codeFor(fn)
		}
	}
	r.meth[f] = c
	return c
}

func (w *World) implements(r *RType, it types.Type) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	k := it.String()
	if b, ok := r.impl[k]; ok {
		return b
	}
	b := types.Implements(r.t, it.Underlying().(*types.Interface))
	r.impl[k] = b
	return b
}
