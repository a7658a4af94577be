package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- symbolic values --------------------------------------------------------

type Val interface{}

type StructV struct {
	T types.Type
	F []Val
}

// SliceV is value-like: contents are captured in arr[off..off+len). tok is the
// identity used to propagate element stores; conc holds elements that cannot
// be represented as SMT terms.
type SliceV struct {
	Elem types.Type
	Arr  *Term
	Off  *Term
	Len  *Term
	Conc []Val
	Tok  int
}

type MapV struct {
	T    *types.Map
	Ref  *Term
	Snap *Heap // non-nil: read-only view in an earlier heap
}

// PtrV: pointer to an engine cell (Cell>0) or into a heap struct (HT != "").
type PtrV struct {
	Elem types.Type // pointee
	Cell int
	Path []PathEl
	HT   *types.Named // heap struct type
	Ref  *Term
	Glob *ssa.Global
	Slc  *SliceV // element of a slice
	Idx  *Term
	Snap *Heap
}

type PathEl struct {
	Field int
	Index int // for arrays; -1 when Field
}

type FuncV struct {
	Fn     *ssa.Function
	Bind   []Val
	Opaque *Term // unknown function
	Kind   string
	Data   Val
	Sig    *types.Signature
	// conditional
	Cond *Term
	A, B *FuncV
}

type SeqV = FuncV // Kind == "seq", Data = *SliceV

type IfaceV struct {
	T types.Type // dynamic type; nil when Term
	V Val
}

type ChanV struct {
	ID   int // concrete channel id
	Elem types.Type
	Term *Term
}

type TupleV []Val

type IterV struct {
	M       *MapV
	Cell    int // visited set cell
	Dom0    *Term
	IsStr   bool
	StrTerm *Term
}

type OpaqueV struct {
	Kind string
	Data any
	T    types.Type
}

type SetV struct { // ghost.Visited
	K    *Sort
	Set  *Term
	Snap *Heap
}

// ---- heaps ------------------------------------------------------------------

type Heap struct {
	m  map[string]*Term
	ck map[string]*Sort
	ep string // distinguishes heaps about which nothing is known
}

func newHeap() *Heap { return &Heap{m: map[string]*Term{}} }

func (h *Heap) clone() *Heap {
	n := newHeap()
	n.ep = h.ep
	for k, v := range h.m {
		n.m[k] = v
	}
	return n
}

func (h *Heap) get(key string, s *Sort) *Term {
	if t, ok := h.m[key]; ok {
		return t
	}
	t := Sym("H0:"+h.ep+key, s)
	h.m[key] = t
	return t
}

// ---- types and sorts --------------------------------------------------------

type Unsupported struct{ Msg string }

func (u Unsupported) Error() string { return u.Msg }

func unsupported(f string, a ...any) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

type Types struct {
	P     *Program
	sorts map[string]*Sort
	names map[string]string
	fork  bool // states that hold different maps in one variable are not merged
}

func isNamed(t types.Type, path, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == path
}

func isTime(t types.Type) bool { return isNamed(t, "time", "Time") }

func isStrBuf(t types.Type) bool {
	return isNamed(t, "strings", "Builder") || isNamed(t, "bytes", "Buffer")
}

func isError(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (T *Types) short(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.NewReplacer(" ", "", "\t", "").Replace(s)
	if len(s) > 60 {
		// keep names unique yet short
		full := types.TypeString(t, nil)
		if n, ok := T.names[full]; ok {
			return n
		}
		n := fmt.Sprintf("T%d", len(T.names))
		T.names[full] = n
		return n
	}
	return s
}

func (T *Types) sortOf(t types.Type) *Sort {
	key := types.TypeString(t, nil)
	if s, ok := T.sorts[key]; ok {
		return s
	}
	s := T.sortOf0(t)
	T.sorts[key] = s
	return s
}

func (T *Types) sortOf0(t types.Type) *Sort {
	if isTime(t) {
		return SInt
	}
	if isStrBuf(t) {
		return SStr
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SReal
		}
	case *types.Map, *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
		return SInt
	case *types.Slice:
		n := "Slice_" + cleanName(T.short(u.Elem()))
		es := T.sortOf(u.Elem())
		return SData(n, []DField{{n + "_arr", SArr(SInt, es)}, {n + "_off", SInt}, {n + "_len", SInt}})
	case *types.Struct:
		n := "St_" + cleanName(T.short(t))
		if t == types.Type(u) {
			n = "St_anon_" + cleanName(T.short(t))
		}
		var fs []DField
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, DField{fmt.Sprintf("%s_%s_%d", n, cleanName(u.Field(i).Name()), i), T.sortOf(u.Field(i).Type())})
		}
		return SData(n, fs)
	case *types.Array:
		return SArr(SInt, T.sortOf(u.Elem()))
	}
	unsupported("type %s has no sort", t)
	return nil
}

// zero time: January 1, year 1 UTC, in nanoseconds relative to the Unix epoch
var zeroTime = IntB(new(big.Int).Mul(big.NewInt(-62135596800), big.NewInt(1000000000)))

func (T *Types) zero(t types.Type) Val {
	if isTime(t) {
		return zeroTime
	}
	if isStrBuf(t) {
		return Str("")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return TFalse
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsFloat != 0:
			return mk(&Term{Op: "real", Name: "0.0", Sort: SReal})
		case u.Kind() == types.UntypedNil:
			return Int(0)
		}
	case *types.Map:
		return &MapV{T: u, Ref: Int(0)}
	case *types.Pointer:
		return T.nilPtr(t)
	case *types.Interface:
		if isError(t) {
			return Int(0)
		}
		return &IfaceV{V: Int(0)}
	case *types.Signature:
		return &FuncV{Opaque: Int(0), Sig: u}
	case *types.Chan:
		return &ChanV{Elem: u.Elem(), Term: Int(0)}
	case *types.Slice:
		return T.emptySlice(u.Elem())
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, T.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return T.zeroArray(u)
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, T.zero(u.At(i).Type()))
		}
		return tv
	}
	unsupported("zero value of %s", t)
	return nil
}

type ArrayV struct {
	T *types.Array
	E []Val
}

func (T *Types) zeroArray(u *types.Array) Val {
	if u.Len() > 4096 {
		unsupported("large array")
	}
	a := &ArrayV{T: u}
	for i := int64(0); i < u.Len(); i++ {
		a.E = append(a.E, T.zero(u.Elem()))
	}
	return a
}

func (T *Types) nilPtr(t types.Type) Val {
	el := t.Underlying().(*types.Pointer).Elem()
	if n := T.heapType(el); n != nil {
		return &PtrV{Elem: el, HT: n, Ref: Int(0)}
	}
	return &PtrV{Elem: el}
}

func (T *Types) heapType(el types.Type) *types.Named {
	n, ok := types.Unalias(el).(*types.Named)
	if !ok || !T.P.HeapTypes[n.String()] {
		return nil
	}
	return n
}

var tokCnt int

func newTok() int { tokCnt++; return tokCnt }

func (T *Types) emptySlice(elem types.Type) *SliceV {
	s := &SliceV{Elem: elem, Off: Int(0), Len: Int(0), Tok: newTok()}
	if T.termable(elem) {
		s.Arr = T.zeroArr(elem)
	} else {
		s.Conc = []Val{}
	}
	return s
}

func (T *Types) zeroArr(elem types.Type) *Term {
	es := T.sortOf(elem)
	return Sym("arr0_"+cleanName(es.Name), SArr(SInt, es))
}

// termable: can values of this type be represented as SMT terms without loss?
func (T *Types) termable(t types.Type) bool {
	if isTime(t) || isError(t) || isStrBuf(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer && u.Kind() != types.UntypedNil && u.Info()&types.IsComplex == 0
	case *types.Map:
		return T.termable(u.Key()) && T.termable(u.Elem())
	case *types.Pointer:
		return T.heapType(u.Elem()) != nil
	case *types.Slice:
		return T.termable(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !T.termable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// toTerm encodes a value as a term of sortOf(t).
func (T *Types) toTerm(v Val, t types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *StructV:
		s := T.sortOf(t)
		u := t.Underlying().(*types.Struct)
		args := make([]*Term, len(x.F))
		for i := range x.F {
			args[i] = T.toTerm(x.F[i], u.Field(i).Type())
		}
		return Ctor(s, args...)
	case *SliceV:
		s := T.sortOf(t)
		if x.Arr == nil {
			unsupported("slice of %s as a term", x.Elem)
		}
		return Ctor(s, x.Arr, x.Off, x.Len)
	case *MapV:
		return x.Ref
	case *PtrV:
		if x.HT != nil && len(x.Path) == 0 {
			return x.Ref
		}
		if x.Cell == 0 && x.HT == nil && x.Glob == nil && x.Slc == nil {
			return Int(0)
		}
		unsupported("pointer to local of type %s stored in a data structure", x.Elem)
	case *FuncV:
		if x.Opaque != nil {
			return x.Opaque
		}
		if x.Cond != nil {
			return Ite(x.Cond, T.toTerm(x.A, t), T.toTerm(x.B, t))
		}
		return T.funcTerm(x)
	case *IfaceV:
		if x.T == nil {
			if tt, ok := x.V.(*Term); ok {
				return tt
			}
		}
		unsupported("interface value stored in a data structure")
	case *ChanV:
		if x.Term != nil {
			return x.Term
		}
		return Int(int64(1000 + x.ID))
	case *SetV:
		return x.Set
	case *ArrayV:
		arr := T.zeroArr(x.T.Elem())
		for i, e := range x.E {
			arr = Store(arr, Int(int64(i)), T.toTerm(e, x.T.Elem()))
		}
		return arr
	}
	unsupported("cannot encode %T (%s) as a term", v, t)
	return nil
}

var funcTerms = map[string]*FuncV{}

func (T *Types) funcTerm(f *FuncV) *Term {
	if f.Fn == nil {
		unsupported("builtin function value %s as term", f.Kind)
	}
	name := "fn:" + f.Fn.String()
	var args []*Term
	for i, b := range f.Bind {
		bt := f.Fn.FreeVars[i].Type()
		args = append(args, T.toTerm(b, bt))
	}
	t := App(name, SInt, args...)
	funcTerms[fmt.Sprint(t.ID)] = f
	return t
}

// fromTerm decodes a term.
func (T *Types) fromTerm(tm *Term, t types.Type, snap *Heap) Val {
	if isTime(t) || isError(t) || isStrBuf(t) {
		return tm
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return tm
	case *types.Map:
		return &MapV{T: u, Ref: tm, Snap: snap}
	case *types.Pointer:
		if n := T.heapType(u.Elem()); n != nil {
			return &PtrV{Elem: u.Elem(), HT: n, Ref: tm, Snap: snap}
		}
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, T.fromTerm(Acc(tm, i), u.Field(i).Type(), snap))
		}
		return s
	case *types.Slice:
		return &SliceV{Elem: u.Elem(), Arr: Acc(tm, 0), Off: Acc(tm, 1), Len: Acc(tm, 2)}
	case *types.Signature:
		if f, ok := funcTerms[fmt.Sprint(tm.ID)]; ok {
			return f
		}
		if tm.Op == "ite" {
			a, ok1 := T.fromTerm(tm.Args[1], t, snap).(*FuncV)
			b, ok2 := T.fromTerm(tm.Args[2], t, snap).(*FuncV)
			if ok1 && ok2 {
				return &FuncV{Cond: tm.Args[0], A: a, B: b, Sig: u}
			}
		}
		return &FuncV{Opaque: tm, Sig: u}
	case *types.Interface:
		return &IfaceV{V: tm}
	case *types.Chan:
		return &ChanV{Elem: u.Elem(), Term: tm}
	}
	unsupported("cannot decode %s", t)
	return nil
}

// sym creates a fresh symbolic value of type t.
func (T *Types) sym(name string, t types.Type) Val {
	if isStrBuf(t) {
		return Fresh(name, SStr)
	}
	if isTime(t) || isError(t) {
		return Fresh(name, SInt)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, T.sym(name+"_"+u.Field(i).Name(), u.Field(i).Type()))
		}
		return s
	case *types.Slice:
		return &SliceV{Elem: u.Elem(), Arr: Fresh(name+"_arr", SArr(SInt, T.sortOf(u.Elem()))), Off: Int(0), Len: Fresh(name+"_len", SInt), Tok: newTok()}
	case *types.Array:
		a := &ArrayV{T: u}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, T.sym(name, u.Elem()))
		}
		return a
	}
	return T.fromTerm(Fresh(name, T.sortOf(t)), t, nil)
}

// typing facts implied by the Go type of a symbolic value (lengths are
// non-negative, references are allocated). bound: allocation counter.
func (T *Types) facts(v Val, t types.Type, bound *Term) []*Term {
	var out []*Term
	switch x := v.(type) {
	case *Term:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			out = append(out, Le(Int(0), x))
		}
	case *StructV:
		u := t.Underlying().(*types.Struct)
		for i := range x.F {
			out = append(out, T.facts(x.F[i], u.Field(i).Type(), bound)...)
		}
	case *SliceV:
		if x.Len.Op != "int" {
			out = append(out, Le(Int(0), x.Len))
		}
		if x.Off.Op != "int" {
			out = append(out, Le(Int(0), x.Off))
		}
	case *MapV:
		if x.Ref.Op != "int" {
			out = append(out, Le(Int(0), x.Ref), Lt(x.Ref, bound))
		}
	case *PtrV:
		if x.HT != nil && x.Ref.Op != "int" {
			out = append(out, Le(Int(0), x.Ref), Lt(x.Ref, bound))
		}
	}
	return out
}

// ---- merging ----------------------------------------------------------------

type mergeFail struct{ why string }

func (T *Types) merge(c *Term, a, b Val) (r Val, ok bool) {
	if sameVal(a, b) {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.Sort == y.Sort {
			return Ite(c, x, y), true
		}
	case *TraceV:
		if y, ok := b.(*TraceV); ok {
			return &TraceV{Arr: Ite(c, x.Arr, y.Arr), Len: Ite(c, x.Len, y.Len)}, true
		}
		return nil, false
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return nil, false
		}
		s := &StructV{T: x.T}
		for i := range x.F {
			m, ok := T.merge(c, x.F[i], y.F[i])
			if !ok {
				return nil, false
			}
			s.F = append(s.F, m)
		}
		return s, true
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if !ok || len(x.E) != len(y.E) {
			return nil, false
		}
		s := &ArrayV{T: x.T}
		for i := range x.E {
			m, ok := T.merge(c, x.E[i], y.E[i])
			if !ok {
				return nil, false
			}
			s.E = append(s.E, m)
		}
		return s, true
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok || x.Arr == nil || y.Arr == nil {
			return nil, false
		}
		tok := 0
		if x.Tok == y.Tok {
			tok = x.Tok
		} else {
			tok = newTok()
			noteDerived(tok, x.Tok, y.Tok)
		}
		return &SliceV{Elem: x.Elem, Arr: Ite(c, x.Arr, y.Arr), Off: Ite(c, x.Off, y.Off), Len: Ite(c, x.Len, y.Len), Tok: tok}, true
	case *MapV:
		y, ok := b.(*MapV)
		if !ok || x.Snap != y.Snap || T.fork {
			return nil, false
		}
		return &MapV{T: x.T, Ref: Ite(c, x.Ref, y.Ref), Snap: x.Snap}, true
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			return nil, false
		}
		if x.HT != nil && y.HT != nil && samePath(x.Path, y.Path) && x.Snap == y.Snap && x.HT.String() == y.HT.String() {
			return &PtrV{Elem: x.Elem, HT: x.HT, Ref: Ite(c, x.Ref, y.Ref), Path: x.Path, Snap: x.Snap}, true
		}
		return nil, false
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok {
			return nil, false
		}
		return &FuncV{Cond: c, A: x, B: y, Sig: x.Sig}, true
	case *SetV:
		y, ok := b.(*SetV)
		if !ok {
			return nil, false
		}
		return &SetV{K: x.K, Set: Ite(c, x.Set, y.Set)}, true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		var tv TupleV
		for i := range x {
			m, ok := T.merge(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			tv = append(tv, m)
		}
		return tv, true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if ok && x.T == nil && y.T == nil {
			m, ok := T.merge(c, x.V, y.V)
			if ok {
				return &IfaceV{V: m}, true
			}
		}
		if ok && x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
			m, ok := T.merge(c, x.V, y.V)
			if ok {
				return &IfaceV{T: x.T, V: m}, true
			}
		}
		return nil, false
	case *OpaqueV:
		return nil, false
	}
	return nil, false
}

var derived = map[int][]int{}

func noteDerived(tok int, from ...int) { derived[tok] = append(derived[tok], from...) }

func samePath(a, b []PathEl) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameVal(a, b Val) bool {
	if ta, ok := a.(TupleV); ok {
		tb, ok := b.(TupleV)
		if !ok || len(ta) != len(tb) {
			return false
		}
		for i := range ta {
			if !sameVal(ta[i], tb[i]) {
				return false
			}
		}
		return true
	}
	if _, ok := b.(TupleV); ok {
		return false
	}
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameVal(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.(*SliceV)
		if ok && x.Arr == nil && y.Arr == nil && len(x.Conc) == len(y.Conc) {
			for i := range x.Conc {
				if !sameVal(x.Conc[i], y.Conc[i]) {
					return false
				}
			}
			return true
		}
		return ok && x.Arr != nil && x.Arr == y.Arr && x.Off == y.Off && x.Len == y.Len && x.Tok == y.Tok
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.Ref == y.Ref && x.Snap == y.Snap
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			return false
		}
		if x.Slc != nil || y.Slc != nil {
			return false
		}
		return x.Cell == y.Cell && x.HT == y.HT && x.Ref == y.Ref && x.Glob == y.Glob && samePath(x.Path, y.Path) && x.Snap == y.Snap
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.Fn != y.Fn || x.Opaque != y.Opaque || x.Kind != y.Kind || len(x.Bind) != len(y.Bind) {
			return false
		}
		if x.Cond != y.Cond {
			return false
		}
		if x.Cond != nil && (!sameVal(x.A, y.A) || !sameVal(x.B, y.B)) {
			return false
		}
		if x.Data != nil || y.Data != nil {
			if !sameVal(x.Data, y.Data) {
				return false
			}
		}
		for i := range x.Bind {
			if !sameVal(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok || (x.T == nil) != (y.T == nil) {
			return false
		}
		if x.T != nil && !types.Identical(x.T, y.T) {
			return false
		}
		return sameVal(x.V, y.V)
	case *ChanV:
		y, ok := b.(*ChanV)
		return ok && x.ID == y.ID && x.Term == y.Term
	case *IterV:
		y, ok := b.(*IterV)
		return ok && x.Cell == y.Cell
	case *SetV:
		y, ok := b.(*SetV)
		return ok && x.Set == y.Set
	}
	return false
}
