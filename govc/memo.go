package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A function whose result depends on its arguments alone gives the same
// result when called again with the same arguments: the result of the first
// call is reused, so that a contract may name it.

type memoEntry struct {
	key string
	ret []Val
}

// valueLike: no maps, pointers, channels or functions inside.
func valueLike(t types.Type, d int) bool {
	if d > 6 {
		return false
	}
	if isTime(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Slice:
		return valueLike(u.Elem(), d+1)
	case *types.Array:
		return valueLike(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !valueLike(u.Field(i).Type(), d+1) {
				return false
			}
		}
		return true
	}
	return false
}

var pureExternal = map[string]bool{"strings": true, "strconv": true, "path": true, "path/filepath": true, "regexp": true,
	"github.com/bmatcuk/doublestar/v4": true, "unicode": true, "unicode/utf8": true, "github.com/mattn/go-runewidth": true, "math": true, "bytes": true}

func (x *Exec) memoizable(fn *ssa.Function) bool {
	if x.pureFn == nil {
		x.pureFn = map[*ssa.Function]bool{}
	}
	if r, ok := x.pureFn[fn]; ok {
		return r
	}
	x.pureFn[fn] = false
	sig := fn.Signature
	if sig.Recv() != nil || fn.Parent() != nil || sig.Params().Len() == 0 {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !valueLike(sig.Params().At(i).Type(), 0) {
			return false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if !valueLike(sig.Results().At(i).Type(), 0) {
			return false
		}
	}
	r := x.pureBody(fn, map[*ssa.Function]bool{})
	x.pureFn[fn] = r
	return r
}

func (x *Exec) pureBody(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	local := func(v ssa.Value) bool {
		for {
			switch a := v.(type) {
			case *ssa.Alloc:
				return true
			case *ssa.FieldAddr:
				v = a.X
			case *ssa.IndexAddr:
				v = a.X
			default:
				return false
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				if !local(i.Addr) {
					return false
				}
			case *ssa.Send, *ssa.Go, *ssa.Select, *ssa.Defer, *ssa.MapUpdate, *ssa.MakeClosure:
				return false
			case *ssa.UnOp:
				if g, ok := i.X.(*ssa.Global); ok {
					if n := g.String(); !strings.Contains(g.Type().String(), "regexp.Regexp") && n != "time.Local" && n != "time.UTC" {
						return false
					}
				}
			case *ssa.Call:
				if _, ok := i.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				c := i.Call.StaticCallee()
				if c == nil {
					return false
				}
				pkg := ""
				if c.Pkg != nil {
					pkg = c.Pkg.Pkg.Path()
				} else if c.Object() != nil && c.Object().Pkg() != nil {
					pkg = c.Object().Pkg().Path()
				}
				if pureExternal[pkg] {
					continue
				}
				if n := c.Name(); pkg == "time" && (n == "Date" || n == "Unix" || c.Signature.Recv() != nil && strings.HasSuffix(c.Signature.Recv().Type().String(), "time.Time")) {
					continue
				}
				if c.String() == "fmt.Sprintf" || c.String() == "fmt.Sprint" {
					continue
				}
				if !strings.HasPrefix(pkg, modPath) || len(c.Blocks) == 0 || !x.pureBody(c, seen) {
					return false
				}
			}
		}
	}
	return true
}

func memoKey(fn *ssa.Function, args []Val) (string, bool) {
	var sb strings.Builder
	sb.WriteString(fn.String())
	for _, a := range args {
		for _, t := range leafList(a) {
			fmt.Fprintf(&sb, ",%d", t.ID)
		}
		if s, ok := a.(*SliceV); ok && s.Arr == nil {
			return "", false
		}
	}
	return sb.String(), true
}

// reuse: the same value under a new identity.
func reuse(v Val) Val {
	if s, ok := v.(*SliceV); ok {
		n := *s
		n.Tok = newTok()
		return &n
	}
	return v
}
