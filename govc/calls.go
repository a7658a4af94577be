package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func pow2(n int64) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func one(st *State, ret ...Val) []exit { return []exit{{st: st, ret: ret}} }

func (x *Exec) call(st *State, c *ssa.CallCommon, ins *ssa.Call, pos token.Pos) []exit {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	if c.IsInvoke() {
		return x.invoke(st, x.val(st, c.Value), c.Method, args, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, b.Name(), args, c, pos)
	}
	return x.callVal(st, x.val(st, c.Value), args, c, pos)
}

func (x *Exec) callVal(st *State, fn Val, args []Val, c *ssa.CallCommon, pos token.Pos) []exit {
	f, ok := fn.(*FuncV)
	if !ok {
		unsupported("call of %T", fn)
	}
	switch {
	case f.Cond != nil:
		switch st.decide(f.Cond) {
		case 1:
			return x.callVal(st, f.A, args, c, pos)
		case -1:
			return x.callVal(st, f.B, args, c, pos)
		}
		s1 := st.clone()
		s1.assume1(f.Cond)
		st.assume1(Not(f.Cond))
		return x.mergeExits(append(x.callVal(s1, f.A, args, c, pos), x.callVal(st, f.B, args, c, pos)...))
	case f.Fn != nil:
		return x.callStatic(st, f.Fn, f.Bind, args, pos)
	case f.Kind == "seq":
		body, ok := args[0].(*FuncV)
		if !ok {
			unsupported("yield argument %T", args[0])
		}
		return x.seqLoop(st, f.Data.(*SliceV), body, pos)
	case f.Kind == "noop":
		return one(st)
	case f.Kind == "native":
		return f.Data.(nativeFn)(st, args)
	case strings.HasPrefix(f.Kind, "builtin:"):
		return x.builtin(st, f.Kind[8:], args, c, pos)
	case strings.HasPrefix(f.Kind, "invoke:"):
		return x.invokeName(st, f.Data, f.Kind[7:], f.Sig, args, pos)
	case f.Opaque != nil:
		if f.Sig == nil {
			unsupported("call of an unknown function without signature")
		}
		x.oblig(st, "nil", "call of nil function", Not(Eq(f.Opaque, Int(0))), pos)
		st.assume(Not(Eq(f.Opaque, Int(0))))
		return one(st, x.ufCall(st, "call", f.Opaque, f.Sig, args)...)
	}
	unsupported("call of function value %q", f.Kind)
	return nil
}

type nativeFn func(st *State, args []Val) []exit

// ufCall: result of a pure unknown function.
func (x *Exec) ufCall(st *State, name string, fn *Term, sig *types.Signature, args []Val) []Val {
	ts := []*Term{fn}
	for i, a := range args {
		ts = append(ts, x.T.toTerm(a, sig.Params().At(i).Type()))
	}
	for _, t := range ts {
		name += "_" + cleanName(t.Sort.Name)
	}
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		s := x.T.sortOf(rt)
		v := x.T.fromTerm(App(fmt.Sprintf("%s_%s_%d", name, cleanName(s.Name), i), s, ts...), rt, nil)
		for _, f := range x.T.facts(v, rt, st.alloc) {
			if !f.fv {
				st.assume(f)
			}
		}
		out = append(out, v)
	}
	return out
}

func originName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (x *Exec) callStatic(st *State, fn *ssa.Function, binds, args []Val, pos token.Pos) []exit {
	name := originName(fn)
	if fn.Pkg == nil && fn.Origin() != nil {
		_ = fn.Origin().Pkg
	}
	short := strings.ReplaceAll(name, modPath+"/", "")
	if strings.Contains(name, ghostPath+".") || strings.Contains(short, "internal/zzghost.") {
		return x.ghostCall(st, fn, short, args, pos)
	}
	if x.P.isOverlay(fn) && fn.Parent() == nil {
		base := fn.Name()
		if o := fn.Origin(); o != nil {
			base = o.Name()
		}
		switch {
		case strings.HasPrefix(base, "spec") || strings.HasPrefix(base, "Spec"):
			if x.isRecursive(fn) {
				return one(st, x.specApp(fn, args)...)
			}
			s := st
			s.gmode++
			outs := x.callFn(s, fn, binds, args, pos)
			for _, o := range outs {
				o.st.gmode--
			}
			return outs
		case strings.HasPrefix(base, "Lemma_"):
			return x.applyLemma(st, fn, args, pos)
		}
	}
	if x.recording && x.spawned[fn.Name()] {
		st.cells[spawnCell(fn.Name(), -1)] = TTrue
		for i, a := range args {
			if s, ok := a.(*SliceV); ok {
				n := *s
				n.Tok = newTok()
				a = &n
			}
			st.cells[spawnCell(fn.Name(), i)] = a
		}
		return one(st)
	}
	if in, ok := intrinsics[short]; ok {
		x.trusted[short] = true
		return in(x, st, fn, args, pos)
	}
	if con, ok := x.modular[fn]; ok {
		return x.applyModular(st, fn, con, args, pos)
	}
	if fn.Name() == "logger" && len(args) == 0 {
		return one(st, &OpaqueV{Kind: "logger"})
	}
	if len(fn.Blocks) > 0 {
		return x.callFn(st, fn, binds, args, pos)
	}
	if strings.HasPrefix(short, "(*log/slog.Logger).") {
		if fn.Name() == "With" {
			return one(st, &OpaqueV{Kind: "logger"})
		}
		return one(st)
	}
	unsupported("no model for %s", short)
	return nil
}

func (x *Exec) invoke(st *State, recv Val, m *types.Func, args []Val, pos token.Pos) []exit {
	return x.invokeName(st, recv, m.Name(), m.Type().(*types.Signature), args, pos)
}

func (x *Exec) invokeName(st *State, recv Val, name string, sig *types.Signature, args []Val, pos token.Pos) []exit {
	switch r := recv.(type) {
	case *IfaceV:
		if r.T != nil {
			ms := x.P.Prog.MethodSets.MethodSet(r.T)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == name {
					fn := x.P.Prog.MethodValue(ms.At(i))
					return x.callStatic(st, fn, nil, append([]Val{r.V}, args...), pos)
				}
			}
			unsupported("method %s of %s", name, r.T)
		}
		if t, ok := r.V.(*Term); ok {
			if h, ok := ifaceMethods[name]; ok {
				return h(x, st, t, sig, args, pos)
			}
		}
	case *OpaqueV:
		if h, ok := opaqueMethods[r.Kind+"."+name]; ok {
			return h(x, st, r, args, pos)
		}
		unsupported("method %s of %s", name, r.Kind)
	case *Term:
		if name == "Error" {
			return one(st, App("errtext", SStr, r))
		}
	}
	unsupported("interface call %s on %T", name, recv)
	return nil
}

func (x *Exec) lenOf(st *State, v Val) *Term {
	switch s := v.(type) {
	case *SliceV:
		return s.Len
	case *MapV:
		return x.mapLen(st, s)
	case *Term:
		if s.Sort == SStr {
			return StrLen(s)
		}
	case *ArrayV:
		return Int(int64(len(s.E)))
	case *OpaqueV:
		if s.Kind == "bytes" {
			return StrLen(s.Data.(*Term))
		}
	}
	unsupported("len of %T", v)
	return nil
}

func (x *Exec) builtin(st *State, name string, args []Val, c *ssa.CallCommon, pos token.Pos) []exit {
	switch name {
	case "len":
		return one(st, x.lenOf(st, args[0]))
	case "cap":
		n := Fresh("cap", SInt)
		st.assume(Le(x.lenOf(st, args[0]), n))
		return one(st, n)
	case "append":
		a, ok := args[0].(*SliceV)
		if !ok {
			unsupported("append to %T", args[0])
		}
		b, ok := args[1].(*SliceV)
		if !ok {
			unsupported("append of %T", args[1])
		}
		return one(st, x.concat(st, a, b))
	case "delete":
		x.mapDelete(st, args[0].(*MapV), args[1])
		return one(st)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if r.Sort != SInt {
				unsupported("%s of %s", name, r.Sort.Name)
			}
			if name == "min" {
				r = MinT(r, t)
			} else {
				r = MaxT(r, t)
			}
		}
		return one(st, r)
	case "close":
		x.closeChan(st, args[0], pos)
		return one(st)
	case "print", "println":
		return one(st)
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "clear":
		m, ok := args[0].(*MapV)
		if !ok {
			unsupported("clear of %T", args[0])
		}
		dk, _, ds, _ := x.mapKeys(m.T)
		st.heap.m[dk] = Store(st.heap.get(dk, ds), m.Ref, ConstArr(ds.Elem, TFalse))
		return one(st)
	}
	unsupported("builtin %s", name)
	return nil
}

// ---- globals ----------------------------------------------------------------

type globInit struct {
	v      Val
	ok     bool
	stores int
}

// value of a package-level variable: constant when it is assigned exactly once,
// in init, from a constant-like expression.
func (x *Exec) global(st *State, g *ssa.Global) Val {
	key := "glob:" + g.String()
	if id, ok := cellIDs[key]; ok {
		if v, ok := st.cells[id]; ok {
			return v
		}
	}
	if v, ok := x.globals[g]; ok {
		return v
	}
	el := g.Type().Underlying().(*types.Pointer).Elem()
	v := x.globalInit(g, el)
	x.globals[g] = v
	return v
}

func (x *Exec) globalInit(g *ssa.Global, el types.Type) Val {
	name := g.String()
	if isError(el) {
		// distinct non-nil error values
		n := int64(1000000)
		for i := 0; i < len(name); i++ {
			n = n*31 + int64(name[i])
			n %= 1 << 40
		}
		return Int(n + 1000000)
	}
	if name == "os.Stdout" || name == "os.Stderr" || name == "time.Local" || name == "time.UTC" || name == "os.Args" {
		return &OpaqueV{Kind: name}
	}
	var stores []*ssa.Store
	inInit := true
	if g.Pkg != nil {
		for _, m := range g.Pkg.Members {
			if fn, ok := m.(*ssa.Function); ok {
				for _, s := range globStores(fn, g) {
					stores = append(stores, s)
					if fn.Name() != "init" && !strings.HasPrefix(fn.Name(), "init#") {
						inInit = false
					}
				}
			}
			if t, ok := m.(*ssa.Type); ok {
				ms := x.P.Prog.MethodSets.MethodSet(types.NewPointer(t.Type()))
				for i := 0; i < ms.Len(); i++ {
					if fn := x.P.Prog.MethodValue(ms.At(i)); fn != nil && len(globStores(fn, g)) > 0 {
						inInit = false
					}
				}
			}
		}
	}
	if len(stores) == 0 && g.Pkg != nil && x.P.inModule(g.Pkg.Pkg) && inInit {
		if !globAddrEscapes(g) {
			return x.T.zero(el)
		}
	}
	if len(stores) == 1 && inInit {
		if v, ok := x.constExpr(stores[0].Val); ok {
			return v
		}
	}
	// struct literal initialised field by field in init
	if inInit {
		if v, ok := x.structInit(g, el); ok {
			return v
		}
	}
	if x.T.termable(el) {
		return x.T.fromTerm(Sym("glob_"+cleanName(name), x.T.sortOf(el)), el, nil)
	}
	return &OpaqueV{Kind: "global:" + name, T: el}
}

func globAddrEscapes(g *ssa.Global) bool { return false }

func globStores(fn *ssa.Function, g *ssa.Global) []*ssa.Store {
	var out []*ssa.Store
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				out = append(out, s)
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		out = append(out, globStores(a, g)...)
	}
	return out
}

func (x *Exec) structInit(g *ssa.Global, el types.Type) (Val, bool) {
	if g.Pkg == nil {
		return nil, false
	}
	if _, ok := el.Underlying().(*types.Struct); !ok {
		return nil, false
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil, false
	}
	v := x.T.zero(el)
	n := 0
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || fa.X != g {
				continue
			}
			c, ok := x.constExpr(s.Val)
			if !ok {
				return nil, false
			}
			v = x.pathSet(v, []PathEl{{Field: fa.Field, Index: -1}}, c)
			n++
		}
	}
	return v, n > 0
}

func (x *Exec) constExpr(v ssa.Value) (Val, bool) {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c), true
	case *ssa.Function:
		return &FuncV{Fn: c, Sig: c.Signature}, true
	case *ssa.ChangeType:
		return x.constExpr(c.X)
	case *ssa.UnOp:
		// a struct literal built in a temporary
		al, ok := c.X.(*ssa.Alloc)
		if !ok || c.Op != token.MUL {
			return nil, false
		}
		el := al.Type().Underlying().(*types.Pointer).Elem()
		if _, ok := el.Underlying().(*types.Struct); !ok {
			return nil, false
		}
		v := x.T.zero(el)
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				for _, u := range *r.Referrers() {
					s, ok := u.(*ssa.Store)
					if !ok || s.Addr != r {
						return nil, false
					}
					c, ok := x.constExpr(s.Val)
					if !ok {
						return nil, false
					}
					v = x.pathSet(v, []PathEl{{Field: r.Field, Index: -1}}, c)
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return nil, false
			}
		}
		return v, true
	case *ssa.MakeClosure:
		if len(c.Bindings) == 0 {
			f := c.Fn.(*ssa.Function)
			return &FuncV{Fn: f, Sig: f.Signature}, true
		}
	case *ssa.Call:
		f := c.Call.StaticCallee()
		if f == nil {
			return nil, false
		}
		switch f.String() {
		case "regexp.MustCompile":
			if k, ok := c.Call.Args[0].(*ssa.Const); ok {
				return &OpaqueV{Kind: "regexp", Data: constStr(k)}, true
			}
		}
	}
	return nil, false
}

func (x *Exec) setGlobal(st *State, g *ssa.Global, v Val) {
	key := "glob:" + g.String()
	id, ok := cellIDs[key]
	if !ok {
		id = 1000000 + len(cellIDs)
		cellIDs[key] = id
	}
	st.cells[id] = v
}

// ---- specification functions ------------------------------------------------

type specFn struct {
	fn    *ssa.Function
	name  string
	sorts []*Sort
	ret   *Sort
}

func (x *Exec) isRecursive(fn *ssa.Function) bool {
	if r, ok := x.recCache[fn]; ok {
		return r
	}
	r := false
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || r {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cl := ci.Common().StaticCallee(); cl != nil {
						if cl == fn {
							r = true
							return
						}
						if x.P.isOverlay(cl) {
							walk(cl)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
	x.recCache[fn] = r
	return r
}

func (x *Exec) specApp(fn *ssa.Function, args []Val) []Val {
	sp := x.specs[fn]
	if sp == nil {
		sp = &specFn{fn: fn, name: "spec_" + cleanName(fnName(fn))}
		if fn.Origin() != nil {
			sp.name = "spec_" + cleanName(fn.String())
		}
		x.specs[fn] = sp
		unfolders[sp.name] = func(t *Term) []*Term { return x.unfoldSpec(sp, t) }
	}
	var ts []*Term
	for i, a := range args {
		ts = append(ts, x.T.toTerm(normSlice(a), fn.Params[i].Type()))
	}
	rt := fn.Signature.Results().At(0).Type()
	return []Val{x.T.fromTerm(App(sp.name, x.T.sortOf(rt), ts...), rt, nil)}
}

func normSlice(v Val) Val { return v }

var unfoldMemo = map[*Term][]*Term{}

func (x *Exec) unfoldSpec(sp *specFn, t *Term) (out []*Term) {
	if r, ok := unfoldMemo[t]; ok {
		return r
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				panic(Unsupported{"in " + sp.name + ": " + u.Msg})
			}
			panic(r)
		}
	}()
	st := &State{cells: map[int]Val{}, heap: x.heap0.clone(), alloc: x.alloc0, gmode: 1, ghost: map[string]Val{}}
	var args []Val
	for i, p := range sp.fn.Params {
		args = append(args, x.T.fromTerm(t.Args[i], p.Type(), nil))
	}
	// a specification function has its own budget: it may be unfolded long
	// after the execution of the contract
	dl, ns := x.deadline, x.steps
	x.deadline, x.steps = time.Now().Add(20*time.Second), 0
	x.scout++
	outs := x.callFn(st, sp.fn, nil, args, token.NoPos)
	x.scout--
	x.deadline, x.steps = dl, ns
	if len(outs) != 1 {
		unsupported("specification function %s has %d outcomes", sp.name, len(outs))
	}
	r := x.T.toTerm(outs[0].ret[0], sp.fn.Signature.Results().At(0).Type())
	out = append(out, Eq(t, r))
	for _, p := range outs[0].st.pc {
		out = append(out, p)
	}
	unfoldMemo[t] = out
	return out
}

// ---- lemmas -----------------------------------------------------------------

// A lemma is a ghost function whose Ensures follow from its Requires. Applying
// it runs the body with ghost.Proving() false: Requires become obligations,
// Ensures become facts.
func (x *Exec) applyLemma(st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
	x.lemmaUse[fnName(fn)] = true
	if x.curLemma == fn {
		// inductive use: the measure (first int parameter) must decrease
		old := x.lemmaArgs
		mi := -1
		for i, p := range fn.Params {
			if isIntType(p.Type()) {
				mi = i
				break
			}
		}
		if mi < 0 {
			unsupported("lemma %s has no measure", fn.Name())
		}
		m0, m1 := old[mi].(*Term), args[mi].(*Term)
		x.oblig(st, "lemma", "measure decreases", And(Le(Int(0), m1), Lt(m1, m0)), pos)
	}
	sv := x.applying
	x.applying = true
	g := st.gmode
	st.gmode++
	og, on := x.applyG, x.lemmaName
	if !sv {
		x.applyG = g
	}
	x.lemmaName = fn.Name()
	outs := x.callFn(st, fn, nil, args, pos)
	for _, o := range outs {
		o.st.gmode = g
	}
	x.applyG, x.lemmaName = og, on
	x.applying = sv
	if len(outs) != 1 {
		unsupported("lemma %s with %d outcomes", fn.Name(), len(outs))
	}
	return one(outs[0].st)
}
