package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ChanState is the ghost state of a channel. Sent is the sequence of values
// sent so far (an array), NSent its length. NRecv counts received values. For
// channels fed by the environment (chanInfo.env) the sequence is fixed up front
// and NSent is its total length; the channel is closed behind it.
type ChanState struct {
	Elem   types.Type
	NSent  *Term
	Sent   *Term
	NRecv  *Term
	Closed *Term
}

// TraceV is a ghost sequence of strings (text written to a stream).
type TraceV struct {
	Arr *Term
	Len *Term
}

type chanInfo struct {
	elem types.Type
	env  bool // receives are served from Sent, closed at the end
	cell int
	done bool // a context's Done channel
	out  bool // made by the contract to note what the code itself sends
}

func (x *Exec) instr(st *State, in ssa.Instruction) []*State {
	f := st.top()
	switch i := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		el := i.Type().Underlying().(*types.Pointer).Elem()
		if n := x.T.heapType(el); n != nil && i.Heap {
			r := x.allocRef(st)
			p := &PtrV{Elem: el, HT: n, Ref: r}
			x.storeHeapStruct(st, p, x.T.zero(el).(*StructV))
			f.regs[i] = p
			return nil
		}
		v := x.T.zero(el)
		c := x.namedCell(st, f.path+"!"+i.Name(), v)
		cellNames[c] = i.Comment
		f.regs[i] = &PtrV{Elem: el, Cell: c}
	case *ssa.BinOp:
		f.regs[i] = x.binop(st, i.Op, x.val(st, i.X), x.val(st, i.Y), i.X.Type(), i.Pos())
	case *ssa.UnOp:
		return x.unop(st, i)
	case *ssa.FieldAddr:
		if o, ok := x.val(st, i.X).(*OpaqueV); ok && !strings.HasPrefix(o.Kind, "global:") {
			fn := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(i.Field).Name()
			f.regs[i] = &OpaqueV{Kind: o.Kind + "." + fn, Data: o.Data}
			return nil
		}
		p, ok := x.val(st, i.X).(*PtrV)
		if !ok {
			unsupported("field address of %T", x.val(st, i.X))
		}
		np := *p
		np.Path = append(append([]PathEl{}, p.Path...), PathEl{Field: i.Field, Index: -1})
		np.Elem = i.Type().Underlying().(*types.Pointer).Elem()
		f.regs[i] = &np
	case *ssa.Field:
		s, ok := x.val(st, i.X).(*StructV)
		if !ok {
			unsupported("field of %T", x.val(st, i.X))
		}
		f.regs[i] = s.F[i.Field]
	case *ssa.IndexAddr:
		idx := x.intVal(st, i.Index)
		switch b := x.val(st, i.X).(type) {
		case *SliceV:
			x.bounds(st, idx, b.Len, i.Pos())
			f.regs[i] = &PtrV{Elem: b.Elem, Slc: b, Idx: idx}
		case *PtrV:
			at := b.Elem.Underlying().(*types.Array)
			if idx.Op != "int" {
				unsupported("symbolic index into an array")
			}
			x.bounds(st, idx, Int(at.Len()), i.Pos())
			np := *b
			np.Path = append(append([]PathEl{}, b.Path...), PathEl{Field: -1, Index: int(idx.N.Int64())})
			np.Elem = at.Elem()
			f.regs[i] = &np
		default:
			unsupported("index address of %T", b)
		}
	case *ssa.Index:
		idx := x.intVal(st, i.Index)
		switch b := x.val(st, i.X).(type) {
		case *ArrayV:
			if idx.Op != "int" {
				unsupported("symbolic index into an array")
			}
			f.regs[i] = b.E[idx.N.Int64()]
		case *Term:
			x.bounds(st, idx, StrLen(b), i.Pos())
			f.regs[i] = StrOp("str.to_code", SInt, StrOp("str.at", SStr, b, idx))
		default:
			unsupported("index of %T", b)
		}
	case *ssa.Lookup:
		switch m := x.val(st, i.X).(type) {
		case *MapV:
			v, ok := x.mapLookup(st, m, x.val(st, i.Index))
			if i.CommaOk {
				f.regs[i] = TupleV{v, ok}
			} else {
				f.regs[i] = v
			}
		case *Term:
			idx := x.intVal(st, i.Index)
			x.bounds(st, idx, StrLen(m), i.Pos())
			f.regs[i] = StrOp("str.to_code", SInt, StrOp("str.at", SStr, m, idx))
		default:
			unsupported("lookup in %T", m)
		}
	case *ssa.MapUpdate:
		m, ok := x.val(st, i.Map).(*MapV)
		if !ok {
			unsupported("map update of %T", x.val(st, i.Map))
		}
		x.mapUpdate(st, m, x.val(st, i.Key), x.val(st, i.Value), i.Pos())
	case *ssa.Range:
		switch m := x.val(st, i.X).(type) {
		case *MapV:
			ks := x.T.sortOf(m.T.Key())
			c := x.namedCell(st, f.path+"!"+i.Name(), &SetV{K: ks, Set: ConstArr(SArr(ks, SBool), TFalse)})
			f.regs[i] = &IterV{M: m, Cell: c, Dom0: x.mapDom(st, m)}
		case *Term:
			if m.Op == "str" {
				f.regs[i] = &IterV{IsStr: true, StrTerm: m, Cell: x.namedCell(st, f.path+"!"+i.Name(), Int(0))}
				return nil
			}
			unsupported("range over a symbolic string")
		default:
			unsupported("range over %T", m)
		}
	case *ssa.Next:
		return x.next(st, i)
	case *ssa.Slice:
		f.regs[i] = x.slice(st, i)
	case *ssa.Convert:
		f.regs[i] = x.convert(st, x.val(st, i.X), i.X.Type(), i.Type())
	case *ssa.ChangeType:
		v := x.val(st, i.X)
		if s, ok := v.(*StructV); ok {
			v = &StructV{T: i.Type(), F: s.F}
		}
		f.regs[i] = v
	case *ssa.ChangeInterface:
		v := x.val(st, i.X)
		f.regs[i] = v
	case *ssa.MakeInterface:
		v := x.val(st, i.X)
		if isError(i.Type()) {
			// concrete error value: a non-nil error
			e := Fresh("errobj", SInt)
			st.assume(Lt(Int(0), e))
			f.regs[i] = e
			return nil
		}
		f.regs[i] = &IfaceV{T: i.X.Type(), V: v}
	case *ssa.MakeClosure:
		fv := &FuncV{Fn: i.Fn.(*ssa.Function), Sig: i.Fn.(*ssa.Function).Signature}
		for _, b := range i.Bindings {
			fv.Bind = append(fv.Bind, x.val(st, b))
		}
		f.regs[i] = fv
	case *ssa.MakeMap:
		f.regs[i] = x.newMap(st, i.Type().Underlying().(*types.Map))
	case *ssa.MakeSlice:
		el := i.Type().Underlying().(*types.Slice).Elem()
		n := x.intVal(st, i.Len)
		s := x.T.emptySlice(el)
		s.Len = n
		if s.Arr == nil {
			unsupported("make of %s", i.Type())
		}
		s.Arr = ConstArr(s.Arr.Sort, x.T.toTerm(x.T.zero(el), el))
		f.regs[i] = s
	case *ssa.MakeChan:
		f.regs[i] = x.newChan(st, i.Type().Underlying().(*types.Chan).Elem(), f.path+"!"+i.Name())
	case *ssa.Extract:
		tv, ok := x.val(st, i.Tuple).(TupleV)
		if !ok || i.Index >= len(tv) {
			unsupported("extract from %T", x.val(st, i.Tuple))
		}
		f.regs[i] = tv[i.Index]
	case *ssa.TypeAssert:
		iv, ok := x.val(st, i.X).(*IfaceV)
		if !ok || iv.T == nil {
			unsupported("type assertion on %T", x.val(st, i.X))
		}
		m := types.Identical(iv.T, i.AssertedType)
		if i.CommaOk {
			if m {
				f.regs[i] = TupleV{iv.V, TTrue}
			} else {
				f.regs[i] = TupleV{x.T.zero(i.AssertedType), TFalse}
			}
		} else {
			if !m {
				unsupported("failing type assertion")
			}
			f.regs[i] = iv.V
		}
	case *ssa.Store:
		x.store(st, x.val(st, i.Addr), x.val(st, i.Val), i.Pos())
	case *ssa.Defer:
		d := &deferred{call: i.Common(), pos: i.Pos()}
		c := i.Common()
		if c.IsInvoke() {
			recv := x.val(st, c.Value)
			d.fn = &FuncV{Kind: "invoke:" + c.Method.Name(), Data: recv, Sig: c.Method.Type().(*types.Signature)}
		} else {
			d.fn = x.val(st, c.Value)
		}
		for _, a := range c.Args {
			d.args = append(d.args, x.val(st, a))
		}
		f.defers = append(f.defers, d)
	case *ssa.Go:
		return x.goStmt(st, i)
	case *ssa.Send:
		x.send(st, x.val(st, i.Chan), x.val(st, i.X), i.Pos())
	default:
		unsupported("instruction %T in %s", in, in.Parent())
	}
	return nil
}

var cellIDs = map[string]int{}

// cellNames are the variables kept in cells.
var cellNames = map[int]string{}

func (x *Exec) namedCell(st *State, key string, v Val) int {
	for n := 0; ; n++ {
		k := fmt.Sprintf("%s#%d", key, n)
		id, ok := cellIDs[k]
		if !ok {
			id = 1000000 + len(cellIDs)
			cellIDs[k] = id
		}
		if _, used := st.cells[id]; used {
			continue
		}
		st.cells[id] = v
		return id
	}
}

func (x *Exec) intVal(st *State, v ssa.Value) *Term {
	t, ok := x.val(st, v).(*Term)
	if !ok || t.Sort != SInt {
		unsupported("integer expected: %s", v)
	}
	return t
}

func (x *Exec) bounds(st *State, idx, n *Term, pos token.Pos) {
	if st.gmode > 0 {
		return
	}
	x.oblig(st, "index", "index in range", And(Le(Int(0), idx), Lt(idx, n)), pos)
	st.assume(Le(Int(0), idx))
	st.assume(Lt(idx, n))
}

func (x *Exec) isNil(st *State, v Val) *Term {
	switch a := v.(type) {
	case *Term:
		return Eq(a, Int(0))
	case *MapV:
		return Eq(a.Ref, Int(0))
	case *PtrV:
		if a.HT != nil {
			return Eq(a.Ref, Int(0))
		}
		return Bool(a.Cell == 0 && a.Glob == nil && a.Slc == nil)
	case *SliceV:
		if a.Arr == nil {
			return Bool(len(a.Conc) == 0)
		}
		if a.Len.Op == "int" && a.Len.N.Sign() != 0 {
			return TFalse
		}
		return And(Eq(a.Len, Int(0)), App("isnil_"+cleanName(a.Arr.Sort.Name), SBool, a.Arr, a.Off, a.Len))
	case *IfaceV:
		if a.T != nil {
			return TFalse
		}
		if t, ok := a.V.(*Term); ok {
			return Eq(t, Int(0))
		}
	case *FuncV:
		if a.Opaque != nil {
			return Eq(a.Opaque, Int(0))
		}
		if a.Cond != nil {
			return Ite(a.Cond, x.isNil(st, a.A), x.isNil(st, a.B))
		}
		return TFalse
	case *ChanV:
		if a.Term != nil {
			return Eq(a.Term, Int(0))
		}
		return TFalse
	case *OpaqueV:
		return TFalse
	}
	unsupported("nil test of %T", v)
	return nil
}

func isConstNil(v Val) bool {
	switch a := v.(type) {
	case *PtrV:
		return a.Cell == 0 && a.Glob == nil && a.Slc == nil && (a.HT == nil || a.Ref.Op == "int" && a.Ref.N.Sign() == 0)
	case *MapV:
		return a.Ref.Op == "int"
	case *IfaceV:
		t, ok := a.V.(*Term)
		return a.T == nil && ok && t.Op == "int"
	case *FuncV:
		return a.Opaque != nil && a.Opaque.Op == "int"
	case *ChanV:
		return a.Term != nil && a.Term.Op == "int"
	case *SliceV:
		return a.Len.Op == "int" && a.Len.N.Sign() == 0
	}
	return false
}

func (x *Exec) valEq(st *State, a, b Val, t types.Type) *Term {
	switch a.(type) {
	case *Term, *StructV:
		if ai, ok := a.(*Term); ok {
			if _, ok := b.(*Term); !ok {
				_ = ai
				unsupported("comparison of %T and %T", a, b)
			}
		}
		return Eq(x.T.toTerm(a, t), x.T.toTerm(b, t))
	}
	if isConstNil(b) {
		return x.isNil(st, a)
	}
	if isConstNil(a) {
		return x.isNil(st, b)
	}
	switch p := a.(type) {
	case *PtrV:
		q, ok := b.(*PtrV)
		if ok && p.HT != nil && q.HT != nil && len(p.Path) == 0 && len(q.Path) == 0 {
			return Eq(p.Ref, q.Ref)
		}
		if ok && sameVal(p, q) {
			return TTrue
		}
	case *IfaceV:
		q, ok := b.(*IfaceV)
		if ok && p.T == nil && q.T == nil {
			return Eq(p.V.(*Term), q.V.(*Term))
		}
	case *ArrayV:
		return Eq(x.T.toTerm(a, t), x.T.toTerm(b, t))
	}
	unsupported("comparison of %T and %T", a, b)
	return nil
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, t types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL:
		return x.valEq(st, a, b, t)
	case token.NEQ:
		return Not(x.valEq(st, a, b, t))
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsupported("operator %s on %T, %T", op, a, b)
	}
	bt, _ := t.Underlying().(*types.Basic)
	if p.Sort == SStr {
		switch op {
		case token.ADD:
			return Concat(p, q)
		case token.LSS:
			return StrOp("str.<", SBool, p, q)
		case token.GTR:
			return StrOp("str.<", SBool, q, p)
		case token.LEQ:
			return Or(StrOp("str.<", SBool, p, q), Eq(p, q))
		case token.GEQ:
			return Or(StrOp("str.<", SBool, q, p), Eq(p, q))
		}
	}
	if p.Sort == SReal {
		mkr := func(op string, s *Sort) *Term { return mk(&Term{Op: op, Args: []*Term{p, q}, Sort: s}) }
		switch op {
		case token.ADD:
			return mkr("r+", SReal)
		case token.SUB:
			return mkr("r-", SReal)
		case token.MUL:
			return mkr("r*", SReal)
		case token.QUO:
			return mkr("r/", SReal)
		case token.LSS:
			return mkr("r<", SBool)
		case token.LEQ:
			return mkr("r<=", SBool)
		case token.GTR:
			return mkr("r>", SBool)
		case token.GEQ:
			return mkr("r>=", SBool)
		}
	}
	if p.Sort == SBool {
		switch op {
		case token.AND:
			return And(p, q)
		case token.OR:
			return Or(p, q)
		}
	}
	if p.Sort == SInt {
		switch op {
		case token.ADD:
			return Add(p, q)
		case token.SUB:
			return Sub(p, q)
		case token.MUL:
			return Mul(p, q)
		case token.QUO, token.REM:
			if st.gmode == 0 {
				x.oblig(st, "div", "division by zero", Not(Eq(q, Int(0))), pos)
				st.assume(Not(Eq(q, Int(0))))
			}
			if op == token.QUO {
				if st.decide(Le(Int(0), p)) == 1 {
					return FloorDiv(p, q)
				}
				return GoDiv(p, q)
			}
			if st.decide(Le(Int(0), p)) == 1 {
				return Sub(p, Mul(q, FloorDiv(p, q)))
			}
			return GoMod(p, q)
		case token.LSS:
			return Lt(p, q)
		case token.LEQ:
			return Le(p, q)
		case token.GTR:
			return Lt(q, p)
		case token.GEQ:
			return Le(q, p)
		case token.SHL:
			if q.Op == "int" && q.N.IsInt64() && q.N.Int64() < 256 {
				return Mul(p, IntB(pow2(q.N.Int64())))
			}
		case token.AND, token.OR, token.XOR, token.SHR, token.AND_NOT:
			return App("bits_"+map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHR: "shr", token.AND_NOT: "andnot"}[op], SInt, p, q)
		}
	}
	_ = bt
	unsupported("operator %s on %s", op, t)
	return nil
}

func (x *Exec) unop(st *State, i *ssa.UnOp) []*State {
	f := st.top()
	v := x.val(st, i.X)
	switch i.Op {
	case token.MUL:
		if o, ok := v.(*OpaqueV); ok {
			f.regs[i] = o
			return nil
		}
		f.regs[i] = x.load(st, v, i.Pos())
	case token.NOT:
		f.regs[i] = Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if t.Sort == SReal {
			f.regs[i] = mk(&Term{Op: "r-", Args: []*Term{realInt(0), t}, Sort: SReal})
		} else {
			f.regs[i] = Neg(t)
		}
	case token.ARROW:
		val, ok := x.recv(st, v, i.Pos())
		if i.CommaOk {
			f.regs[i] = TupleV{val, ok}
		} else {
			f.regs[i] = val
		}
	default:
		unsupported("unary %s", i.Op)
	}
	return nil
}

func realInt(n int) *Term {
	return mk(&Term{Op: "real", Name: fmt.Sprintf("%d.0", n), Sort: SReal})
}

func (x *Exec) next(st *State, i *ssa.Next) []*State {
	it, ok := x.val(st, i.Iter).(*IterV)
	if !ok {
		unsupported("next of %T", x.val(st, i.Iter))
	}
	f := st.top()
	if it.IsStr {
		p := st.cells[it.Cell].(*Term)
		if p.Op != "int" {
			unsupported("range over string at unknown position")
		}
		k := int(p.N.Int64())
		s := it.StrTerm.Name
		if k >= len(s) {
			f.regs[i] = TupleV{TFalse, Int(0), Int(0)}
			return nil
		}
		for j, r := range s[k:] {
			if j > 0 {
				break
			}
			st.cells[it.Cell] = Int(int64(k + len(string(r))))
			f.regs[i] = TupleV{TTrue, Int(int64(k)), Int(int64(r))}
		}
		return nil
	}
	set := st.cells[it.Cell].(*SetV)
	dom := x.mapDom(st, it.M)
	if dom.Op == "constarr" && dom.Args[0].Op == "false" {
		// definitely empty
		f.regs[i] = TupleV{TFalse, x.T.zero(it.M.T.Key()), x.T.zero(it.M.T.Elem())}
		return nil
	}
	ks := x.T.sortOf(it.M.T.Key())
	// one more element
	s1 := st.clone()
	c := Fresh("more", SBool)
	s1.assume1(c)
	k := Fresh("k", ks)
	kv := x.T.fromTerm(k, it.M.T.Key(), it.M.Snap)
	s1.assume(Select(dom, k))
	s1.assume(Not(Select(set.Set, k)))
	v, _ := x.mapLookup(s1, it.M, kv)
	s1.cells[it.Cell] = &SetV{K: ks, Set: Store(set.Set, k, TTrue)}
	s1.top().regs[i] = TupleV{TTrue, kv, v}
	// exhausted: everything still present has been visited; when the domain is
	// what it was at the start, the visited set is the domain
	st.assume1(Not(c))
	bv := BVarN("xk", ks)
	st.assume(Imp(Eq(dom, it.Dom0), Eq(set.Set, it.Dom0)))
	if dom != it.Dom0 {
		st.assume(Forall([]*Term{bv}, Imp(Select(dom, bv), Or(Select(set.Set, bv), Not(Select(it.Dom0, bv)))), []*Term{Select(dom, bv)}))
	}
	f.regs[i] = TupleV{TFalse, x.T.zero(it.M.T.Key()), x.T.zero(it.M.T.Elem())}
	return []*State{s1, st}
}

func (x *Exec) slice(st *State, i *ssa.Slice) Val {
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.intVal(st, v)
	}
	sv := x.val(st, i.X)
	isBytes := false
	if o, ok := sv.(*OpaqueV); ok && o.Kind == "bytes" {
		sv, isBytes = o.Data.(*Term), true
	}
	switch b := sv.(type) {
	case *SliceV:
		lo, hi := opt(i.Low, Int(0)), opt(i.High, b.Len)
		if st.gmode == 0 {
			x.oblig(st, "slice", "slice bounds in range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, b.Len)), i.Pos())
			st.assume(Le(Int(0), lo))
			st.assume(Le(lo, hi))
			st.assume(Le(hi, b.Len))
		}
		if b.Arr == nil {
			if lo.Op != "int" || hi.Op != "int" {
				unsupported("symbolic slicing of a concrete slice")
			}
			c := b.Conc[lo.N.Int64():hi.N.Int64()]
			return &SliceV{Elem: b.Elem, Off: Int(0), Len: Int(int64(len(c))), Conc: c, Tok: newTok()}
		}
		n := &SliceV{Elem: b.Elem, Arr: b.Arr, Off: Add(b.Off, lo), Len: Sub(hi, lo), Tok: newTok()}
		if b.Tok != 0 {
			noteDerived(n.Tok, b.Tok)
		}
		return n
	case *Term:
		n := StrLen(b)
		lo, hi := opt(i.Low, Int(0)), opt(i.High, n)
		if st.gmode == 0 {
			x.oblig(st, "slice", "string slice bounds in range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)), i.Pos())
			st.assume(Le(Int(0), lo))
			st.assume(Le(lo, hi))
			st.assume(Le(hi, n))
		}
		if isBytes {
			return &OpaqueV{Kind: "bytes", Data: substr(b, lo, Sub(hi, lo))}
		}
		return substr(b, lo, Sub(hi, lo))
	case *PtrV:
		at, ok := b.Elem.Underlying().(*types.Array)
		if !ok {
			unsupported("slice of pointer to %s", b.Elem)
		}
		if a, ok := i.X.(*ssa.Alloc); ok && a.Comment == "makeslice" {
			s := x.T.emptySlice(at.Elem())
			if s.Arr == nil {
				unsupported("make of %s", i.Type())
			}
			s.Len = Int(at.Len())
			if i.High != nil {
				s.Len = x.intVal(st, i.High)
			}
			s.Arr = ConstArr(s.Arr.Sort, x.T.toTerm(x.T.zero(at.Elem()), at.Elem()))
			return s
		}
		arr, ok := x.load(st, b, i.Pos()).(*ArrayV)
		if !ok || i.Low != nil || i.High != nil {
			unsupported("slice of array")
		}
		return x.mkSlice(at.Elem(), arr.E)
	}
	unsupported("slice of %T", x.val(st, i.X))
	return nil
}

func substr(s, off, n *Term) *Term {
	if s.Op == "str" && off.Op == "int" && n.Op == "int" {
		a, b := off.N.Int64(), n.N.Int64()
		if a >= 0 && b >= 0 && a+b <= int64(len(s.Name)) {
			return Str(s.Name[a : a+b])
		}
	}
	if off.Op == "int" && off.N.Sign() == 0 && n == StrLen(s) {
		return s
	}
	return StrOp("str.substr", SStr, s, off, n)
}

func (x *Exec) mkSlice(elem types.Type, es []Val) *SliceV {
	s := x.T.emptySlice(elem)
	if s.Arr == nil {
		s.Conc = append([]Val{}, es...)
		s.Len = Int(int64(len(es)))
		return s
	}
	for j, e := range es {
		t := func() (t *Term) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Unsupported); ok {
						t = nil
						return
					}
					panic(r)
				}
			}()
			return x.T.toTerm(e, elem)
		}()
		if t == nil {
			return &SliceV{Elem: elem, Off: Int(0), Len: Int(int64(len(es))), Conc: append([]Val{}, es...), Tok: newTok()}
		}
		s.Arr = Store(s.Arr, Int(int64(j)), t)
	}
	s.Len = Int(int64(len(es)))
	return s
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		t, ok := v.(*Term)
		if !ok {
			unsupported("conversion of %T", v)
		}
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return t
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			if t.Op == "int" {
				return mk(&Term{Op: "real", Name: realText(t), Sort: SReal})
			}
			return mk(&Term{Op: "to_real", Args: []*Term{t}, Sort: SReal})
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return t
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			// truncation toward zero
			if t.Op == "to_real" {
				return t.Args[0]
			}
			fl := mk(&Term{Op: "to_int", Args: []*Term{t}, Sort: SInt})
			ng := mk(&Term{Op: "to_int", Args: []*Term{mk(&Term{Op: "r-", Args: []*Term{realInt(0), t}, Sort: SReal})}, Sort: SInt})
			return Ite(mk(&Term{Op: "r<=", Args: []*Term{realInt(0), t}, Sort: SBool}), fl, Neg(ng))
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return t
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			if t.Op == "int" && t.N.IsInt64() {
				return Str(string(rune(t.N.Int64())))
			}
			return App("rune2str", SStr, t)
		}
	}
	if ok2 && tb.Info()&types.IsString != 0 {
		if o, ok := v.(*OpaqueV); ok && o.Kind == "bytes" {
			return o.Data.(*Term)
		}
	}
	if ok1 && fb.Info()&types.IsString != 0 {
		return &OpaqueV{Kind: "bytes", Data: v.(*Term), T: to}
	}
	unsupported("conversion %s -> %s", from, to)
	return nil
}

func realText(t *Term) string {
	s := t.N.String()
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ".0)"
	}
	return s + ".0"
}

// ---- channels ---------------------------------------------------------------

func (x *Exec) newChan(st *State, elem types.Type, key string) *ChanV {
	es := x.T.sortOf(elem)
	cs := &ChanState{Elem: elem, NSent: Int(0), Sent: Sym("chan0_"+cleanName(es.Name), SArr(SInt, es)), NRecv: Int(0), Closed: TFalse}
	id := x.namedCell(st, "chan:"+key, cs)
	if x.chanInfo[id] == nil {
		x.chanOrder = append(x.chanOrder, id)
	}
	x.chanInfo[id] = &chanInfo{elem: elem, cell: id}
	return &ChanV{ID: id, Elem: elem}
}

func (x *Exec) chanState(st *State, v Val) (*ChanV, *ChanState, *chanInfo) {
	c, ok := v.(*ChanV)
	if !ok {
		unsupported("channel operation on %T", v)
	}
	if c.ID == 0 {
		if c.Term != nil && c.Term.Op == "app" && c.Term.Name == "chanof" {
			unsupported("channel inside a data structure")
		}
		unsupported("operation on an unknown channel")
	}
	s, ok := st.cells[c.ID].(*ChanState)
	if !ok {
		unsupported("channel state lost")
	}
	return c, s, x.chanInfo[c.ID]
}

func (x *Exec) send(st *State, ch, v Val, pos token.Pos) {
	c, s, _ := x.chanState(st, ch)
	x.oblig(st, "chan", "send on closed channel", Not(s.Closed), pos)
	n := *s
	n.Sent = Store(s.Sent, s.NSent, x.T.toTerm(v, s.Elem))
	n.NSent = Add(s.NSent, Int(1))
	st.cells[c.ID] = &n
}

func (x *Exec) recv(st *State, ch Val, pos token.Pos) (Val, *Term) {
	if c, ok := ch.(*ChanV); ok && c.ID == 0 && c.Term != nil && !isConstNil(c) {
		// a channel found in a data structure: another goroutine sends
		// anything or closes it; errors received are noted
		v := x.T.sym(Fresh("recv", SInt).Name, c.Elem)
		for _, f := range x.factsAny(v, c.Elem, st.alloc) {
			st.assume(f)
		}
		more := Fresh("recvok", SBool)
		if isError(c.Elem) {
			e := v.(*Term)
			st.assume(And(Le(Int(0), e), Imp(Not(more), Eq(e, Int(0)))))
			t := *st.cells[gitCell("delivered")].(*TraceV)
			hit := Not(Eq(e, Int(0)))
			t.Arr = Ite(hit, Store(t.Arr, t.Len, e), t.Arr)
			t.Len = Ite(hit, Add(t.Len, Int(1)), t.Len)
			st.cells[gitCell("delivered")] = &t
			return v, more
		}
		z := x.T.toTerm(x.T.zero(c.Elem), c.Elem)
		v = x.T.fromTerm(Ite(more, x.T.toTerm(v, c.Elem), z), c.Elem, nil)
		return v, more
	}
	c, s, ci := x.chanState(st, ch)
	if ci.done {
		unsupported("blocking receive from Done")
	}
	if !ci.env {
		unsupported("receive from a channel without an environment contract")
	}
	more := Lt(s.NRecv, s.NSent)
	el := Select(s.Sent, s.NRecv)
	zero := x.T.toTerm(x.T.zero(s.Elem), s.Elem)
	v := x.T.fromTerm(Ite(more, el, zero), s.Elem, nil)
	x.wfRead(st, v, s.Elem, TTrue, nil)
	n := *s
	n.NRecv = Ite(more, Add(s.NRecv, Int(1)), s.NRecv)
	st.cells[c.ID] = &n
	return v, more
}

func (x *Exec) closeChan(st *State, ch Val, pos token.Pos) {
	c, s, _ := x.chanState(st, ch)
	x.oblig(st, "chan", "close of closed channel", Not(s.Closed), pos)
	n := *s
	n.Closed = TTrue
	st.cells[c.ID] = &n
}

// selectStmt: any case may be chosen (a receive from an environment channel is
// always eventually ready: a value or closed). A Done case may be chosen when
// the context may be cancelled.
func (x *Exec) selectStmt(st *State, ins *ssa.Select) []*State {
	var out []*State
	nres := 2
	for _, s := range ins.States {
		if s.Dir == types.RecvOnly {
			nres++
		}
	}
	mkRes := func(idx int, ok *Term, st *State, ri int, v Val) TupleV {
		tv := TupleV{Int(int64(idx)), ok}
		k := 0
		for _, s := range ins.States {
			if s.Dir == types.RecvOnly {
				if k == ri {
					tv = append(tv, v)
				} else {
					tv = append(tv, x.T.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
				k++
			}
		}
		return tv
	}
	ri := 0
	type opt struct {
		st  *State
		res TupleV
	}
	var opts []opt
	for idx, s := range ins.States {
		cur := st.clone()
		ch := x.val(cur, s.Chan)
		if s.Dir == types.SendOnly {
			x.send(cur, ch, x.val(cur, s.Send), s.Pos)
			opts = append(opts, opt{cur, mkRes(idx, TFalse, cur, -1, nil)})
			continue
		}
		my := ri
		ri++
		c, ok := ch.(*ChanV)
		if ok && c.ID != 0 {
			ci := x.chanInfo[c.ID]
			if ci.done {
				if dn, ok := cur.cells[c.ID].(*ChanState); ok && dn.Closed.Op == "false" {
					continue // never cancelled
				}
				x.noteFlag(cur, "cancelled", TTrue)
				opts = append(opts, opt{cur, mkRes(idx, TFalse, cur, my, x.T.zero(c.Elem))})
				continue
			}
		}
		v, more := x.recv(cur, ch, s.Pos)
		opts = append(opts, opt{cur, mkRes(idx, more, cur, my, v)})
	}
	if !ins.Blocking {
		cur := st.clone()
		opts = append(opts, opt{cur, mkRes(-1, TFalse, cur, -1, nil)})
	}
	if len(opts) == 0 {
		return nil
	}
	// nondeterministic choice as a chain of fresh booleans so that states merge
	base := len(st.pc)
	var conds []*Term
	for k := 0; k < len(opts)-1; k++ {
		conds = append(conds, Fresh("sel", SBool))
	}
	for k, o := range opts {
		var pre []*Term
		for j := 0; j < k && j < len(conds); j++ {
			pre = append(pre, Not(conds[j]))
		}
		if k < len(conds) {
			pre = append(pre, conds[k])
		}
		tail := append([]*Term{}, o.st.pc[base:]...)
		o.st.pc = append(append(o.st.pc[:base:base], pre...), tail...)
		o.st.top().regs[ins] = o.res
		out = append(out, o.st)
	}
	return out
}

// ghost flags ---------------------------------------------------------------

func flagCell(name string) int {
	k := "flag:" + name
	id, ok := cellIDs[k]
	if !ok {
		id = 500 + len(cellIDs)
		cellIDs[k] = id
	}
	return id
}

func (x *Exec) noteFlag(st *State, name string, v *Term) {
	id := flagCell(name)
	old, ok := st.cells[id].(*Term)
	if !ok {
		old = TFalse
	}
	st.cells[id] = Or(old, v)
}

func (x *Exec) flag(st *State, name string) *Term {
	if t, ok := st.cells[flagCell(name)].(*Term); ok {
		return t
	}
	return TFalse
}

// goStmt: the contract's spawned functions are noted with their arguments;
// whatever else the goroutine does is left open: the channels it holds may
// deliver anything, in any order and number, before they are closed. That
// shared variables are not written meanwhile is assumed (no data races).
func (x *Exec) goStmt(st *State, i *ssa.Go) []*State {
	c := i.Common()
	if c.IsInvoke() {
		unsupported("go of a method value")
	}
	f, ok := x.val(st, c.Value).(*FuncV)
	if !ok || f.Fn == nil {
		unsupported("go of an unknown function")
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	x.used["go "+fnName(f.Fn)] = true
	if x.spawns(f.Fn) {
		rec := x.recording
		x.recording = true
		outs := x.callFn(st, f.Fn, f.Bind, args, i.Pos())
		x.recording = rec
		var sts []*State
		for _, o := range outs {
			sts = append(sts, o.st)
		}
		return sts
	}
	for _, v := range append(append([]Val{}, f.Bind...), args...) {
		if p, ok := v.(*PtrV); ok && p.Cell != 0 && len(p.Path) == 0 {
			v = st.cells[p.Cell]
		}
		ch, ok := v.(*ChanV)
		if !ok || ch.ID == 0 {
			continue
		}
		ci := x.chanInfo[ch.ID]
		if ci.done || ci.env || ci.out {
			continue
		}
		ci.env = true
		es := x.T.sortOf(ch.Elem)
		n := Sym(fmt.Sprintf("envn_%d", ch.ID), SInt)
		st.assume(Le(Int(0), n))
		st.cells[ch.ID] = &ChanState{Elem: ch.Elem, NSent: n, Sent: Sym(fmt.Sprintf("env_%d_%s", ch.ID, cleanName(es.Name)), SArr(SInt, es)), NRecv: Int(0), Closed: TFalse}
	}
	return nil
}

func (x *Exec) spawns(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && x.spawned[f.Name()] {
					return true
				}
			}
		}
	}
	return false
}

func spawnCell(name string, i int) int {
	k := fmt.Sprintf("spawn:%s:%d", name, i)
	id, ok := cellIDs[k]
	if !ok {
		id = 500 + len(cellIDs)
		cellIDs[k] = id
	}
	return id
}
