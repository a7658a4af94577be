package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A function that calls itself is checked against its own contract: the calls
// it makes to itself must meet specPre_F and are replaced by an arbitrary
// result of which specPost_F is known. Only functions that change nothing their
// caller can see are treated this way, so there is no other effect. The
// contract Contract_F establishes specPost_F from specPre_F for the body;
// termination is not shown.

func (x *Exec) recursiveCall(st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]exit, bool) {
	if fn.Pkg == nil {
		return nil, false
	}
	if at := x.atCall[callName(fn)]; at != nil {
		return x.stepCall(st, fn, at, args, pos), true
	}
	if fn.Signature.Recv() != nil {
		return nil, false
	}
	post, _ := fn.Pkg.Members["specPost_"+fn.Name()].(*ssa.Function)
	if post == nil {
		return nil, false
	}
	if why := x.writes(fn, map[*ssa.Function]bool{}); why != "" {
		unsupported("recursive call of %s, which %s", fn, why)
	}
	if pre, _ := fn.Pkg.Members["specPre_"+fn.Name()].(*ssa.Function); pre != nil {
		c := x.evalTerm(st, &FuncV{Fn: pre, Sig: pre.Signature}, args)
		x.oblig(st, "recursion", "precondition of the inner call of "+fn.Name(), c, pos)
		st.assume(c)
	}
	for i, p := range fn.Params {
		id := callCell(fn.Name(), p.Name())
		if t, ok := st.cells[id].(*TraceV); ok {
			st.cells[id] = &TraceV{Arr: Store(t.Arr, t.Len, x.T.toTerm(args[i], p.Type())), Len: Add(t.Len, Int(1))}
		}
	}
	var ret []Val
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		v := x.T.sym("rec_"+fn.Name(), res.At(i).Type())
		for _, f := range x.factsAny(v, res.At(i).Type(), st.alloc) {
			st.assume(f)
		}
		ret = append(ret, v)
	}
	st.assume(x.evalTerm(st, &FuncV{Fn: post, Sig: post.Signature}, append(append([]Val{}, args...), ret...)))
	return one(st, ret...), true
}

var readOnlyExt = map[string]bool{"slices.SortedFunc": true, "slices.Sorted": true, "slices.Collect": true, "slices.Contains": true, "slices.Concat": true,
	"slices.Clone": true, "slices.Values": true, "maps.Keys": true, "maps.Values": true, "fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Errorf": true, "cmp.Compare": true}

// writes: what keeps the function from leaving everything its caller sees as
// it was; "" when nothing does.
func (x *Exec) writes(fn *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[fn] {
		return ""
	}
	seen[fn] = true
	local := func(v ssa.Value) bool {
		for {
			switch a := v.(type) {
			case *ssa.Alloc:
				return true
			case *ssa.FieldAddr:
				v = a.X
			case *ssa.IndexAddr:
				v = a.X
			default:
				return false
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				if _, free := i.Addr.(*ssa.FreeVar); !local(i.Addr) && !free {
					return "writes to memory"
				}
			case *ssa.MapUpdate:
				return "writes to a map"
			case *ssa.Send, *ssa.Go, *ssa.Select:
				return "communicates"
			case *ssa.MakeClosure:
				if w := x.writes(i.Fn.(*ssa.Function), seen); w != "" {
					return w
				}
			case ssa.CallInstruction:
				c := i.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if n := bi.Name(); n == "delete" || n == "clear" || n == "copy" || n == "close" {
						return "uses " + n
					}
					continue
				}
				f := c.StaticCallee()
				if f == nil {
					continue // a function value: taken to be pure
				}
				if f.Origin() != nil {
					f = f.Origin()
				}
				pkg := ""
				if f.Pkg != nil {
					pkg = f.Pkg.Pkg.Path()
				} else if f.Object() != nil && f.Object().Pkg() != nil {
					pkg = f.Object().Pkg().Path()
				}
				n := f.String()
				switch {
				case n == "fmt.Fprintf" || n == "fmt.Fprint":
					mi, _ := c.Args[0].(*ssa.MakeInterface)
					if mi == nil || !local(mi.X) {
						return "writes to a stream"
					}
				case strings.HasPrefix(n, "(*strings.Builder)"):
					if !local(c.Args[0]) {
						return "writes to a builder"
					}
				case pureExternal[pkg] || pkg == "time" || readOnlyExt[n]:
				case strings.HasPrefix(pkg, modPath) && len(f.Blocks) > 0:
					if w := x.writes(f, seen); w != "" {
						return w
					}
				case f.Parent() != nil:
					if w := x.writes(f, seen); w != "" {
						return w
					}
				default:
					return "calls " + n
				}
			}
		}
	}
	return ""
}

// stepCall: what a contract says of the calls a function makes to itself is
// checked where they are made; afterwards nothing is known of memory.
func (x *Exec) stepCall(st *State, fn *ssa.Function, at *FuncV, args []Val, pos token.Pos) []exit {
	outs := x.callVal(st, at, args, nil, pos)
	var res []exit
	for _, o := range outs {
		st := o.st
		epochs++
		st.heap = newHeap()
		st.heap.ep = fmt.Sprintf("e%d:", epochs)
		a := Fresh("alloc", SInt)
		st.assume(Le(st.alloc, a))
		st.alloc = a
		st.memo = nil
		var ret []Val
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			v := x.T.sym("rec_"+fn.Name(), rs.At(i).Type())
			for _, f := range x.factsAny(v, rs.At(i).Type(), st.alloc) {
				st.assume(f)
			}
			ret = append(ret, v)
		}
		res = append(res, one(st, ret...)...)
	}
	return res
}

var epochs int

// callName: F, or T.M for a method of T or *T.
func callName(fn *ssa.Function) string {
	r := fn.Signature.Recv()
	if r == nil {
		return fn.Name()
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name() + "." + fn.Name()
	}
	return fn.Name()
}

// The arguments of the inner calls are remembered, in order, once a contract
// asks for it.
func callCell(fn, param string) int { return ghostCell("call:" + fn + ":" + param) }

func (x *Exec) captureCalls(st *State, name string) {
	fn, _ := x.hfn.Pkg.Members[name].(*ssa.Function)
	if fn == nil {
		unsupported("no function %s to watch", name)
	}
	for _, p := range fn.Params {
		if x.T.termable(p.Type()) {
			st.cells[callCell(name, p.Name())] = &TraceV{Arr: Sym("calls0_"+name+"_"+p.Name(), SArr(SInt, x.T.sortOf(p.Type()))), Len: Int(0)}
		}
	}
}
