package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/sinclairtarget/git-who"
const ghostPath = modPath + "/internal/zzghost"

type Program struct {
	Repo      string
	Contracts string
	Fset      *token.FileSet
	Prog      *ssa.Program
	Pkgs      map[string]*ssa.Package // by path relative to module ("" = root)
	Overlay   map[string][]byte
	Files     map[string]bool // overlay file names
	HeapTypes map[string]bool // struct types accessed through heap references
}

// contractFiles maps overlay target path -> source path.
func contractFiles(repo, contracts string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(contracts, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(contracts, p)
		dir, base := filepath.Split(rel)
		if !strings.HasPrefix(base, "zz_") {
			base = "zz_" + base
		}
		out[filepath.Join(repo, dir, base)] = p
		return nil
	})
	return out, err
}

func Load(repo, contracts string, exclude map[string]bool) (*Program, error) {
	files, err := contractFiles(repo, contracts)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	pats := map[string]bool{"./...": true}
	for t, s := range files {
		if exclude[s] {
			continue
		}
		b, err := os.ReadFile(s)
		if err != nil {
			return nil, err
		}
		overlay[t] = b
		rel, _ := filepath.Rel(repo, filepath.Dir(t))
		pats["./"+rel] = true
	}
	var pl []string
	for p := range pats {
		pl = append(pl, p)
	}
	sort.Strings(pl)
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off"),
	}
	initial, err := packages.Load(cfg, pl...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.Packages(initial, ssa.InstantiateGenerics|ssa.GlobalDebug)
	P := &Program{Repo: repo, Contracts: contracts, Prog: prog, Pkgs: map[string]*ssa.Package{}, Overlay: overlay, Files: map[string]bool{}, HeapTypes: map[string]bool{}}
	P.Fset = prog.Fset
	for t := range overlay {
		P.Files[t] = true
	}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		p.Build()
		rel := strings.TrimPrefix(strings.TrimPrefix(p.Pkg.Path(), modPath), "/")
		P.Pkgs[rel] = p
	}
	P.findHeapTypes()
	return P, nil
}

func (P *Program) inModule(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == modPath || strings.HasPrefix(pkg.Path(), modPath+"/"))
}

// A named struct type is accessed through heap references when a pointer to
// it occurs in a data structure or flows through a phi.
func (P *Program) findHeapTypes() {
	note := func(t types.Type) {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if hasForeign(pt.Elem()) {
				return
			}
			if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok {
				if _, ok := n.Underlying().(*types.Struct); ok && P.inModule(n.Obj().Pkg()) {
					P.HeapTypes[n.String()] = true
				}
			}
		}
	}
	var seen = map[types.Type]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Map:
			note(u.Elem())
			walk(u.Elem())
		case *types.Slice:
			note(u.Elem())
			walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				note(u.Field(i).Type())
				walk(u.Field(i).Type())
			}
		}
	}
	for fn := range ssautil.AllFunctions(P.Prog) {
		if fn.Pkg == nil || !P.inModule(fn.Pkg.Pkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if phi, ok := i.(*ssa.Phi); ok {
					note(phi.Type())
				}
				if v, ok := i.(ssa.Value); ok {
					if n, ok := types.Unalias(v.Type()).(*types.Named); ok && P.inModule(n.Obj().Pkg()) {
						walk(n)
					}
				}
				// pointer variable cells: alloc of *T
				if a, ok := i.(*ssa.Alloc); ok {
					note(a.Type().Underlying().(*types.Pointer).Elem())
				}
			}
		}
	}
}

// hasForeign: a struct with a field that has no logical representation (a
// pointer to a library type, an interface other than error).
func hasForeign(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		switch u := ft.Underlying().(type) {
		case *types.Interface:
			if !isError(ft) {
				return true
			}
		case *types.Pointer:
			if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				return true
			}
		}
	}
	return false
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := P.Fset.Position(p)
	rel, err := filepath.Rel(P.Repo, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (P *Program) isOverlay(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if !fn.Pos().IsValid() {
		return false
	}
	return P.Files[P.Fset.Position(fn.Pos()).Filename]
}
