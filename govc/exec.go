package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debug = os.Getenv("GOVC_TRACE") != ""

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	defers []*deferred
	path   string // static call path
	binds  []Val
	alloc  *Term // allocation counter at the call
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

type State struct {
	pc      []*Term
	frames  []*Frame
	cells   map[int]Val
	heap    *Heap
	alloc   *Term
	loops   []*loopCtx
	ghost   map[string]Val
	ghostT  map[string]types.Type
	tainted map[int]bool
	gmode   int
	memo    []memoEntry
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{pc: st.pc[:len(st.pc):len(st.pc)], alloc: st.alloc, heap: st.heap.clone(), gmode: st.gmode}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		nf := &Frame{fn: f.fn, path: f.path, binds: f.binds, alloc: f.alloc, defers: f.defers[:len(f.defers):len(f.defers)]}
		nf.regs = make(map[ssa.Value]Val, len(f.regs)+8)
		for k, v := range f.regs {
			nf.regs[k] = v
		}
		n.frames[i] = nf
	}
	n.cells = make(map[int]Val, len(st.cells)+4)
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.loops = st.loops[:len(st.loops):len(st.loops)]
	n.memo = st.memo[:len(st.memo):len(st.memo)]
	n.ghost = st.ghost
	n.ghostT = st.ghostT
	if len(st.tainted) > 0 {
		n.tainted = map[int]bool{}
		for k := range st.tainted {
			n.tainted[k] = true
		}
	}
	return n
}

func (st *State) assume(t *Term) {
	if t.Op == "true" {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	for _, p := range st.pc {
		if p == t {
			return
		}
	}
	st.pc = append(st.pc, t)
}

// assume1 adds the term as one entry (branch conditions)
func (st *State) assume1(t *Term) { st.pc = append(st.pc, t) }

// decide: -1 false, 1 true, 0 unknown
func (st *State) decide(c *Term) int {
	if c.Op == "true" {
		return 1
	}
	if c.Op == "false" {
		return -1
	}
	n := Not(c)
	for _, p := range st.pc {
		if p == c {
			return 1
		}
		if p == n {
			return -1
		}
		if p.Op == "and" {
			for _, a := range p.Args {
				if a == c {
					return 1
				}
				if a == n {
					return -1
				}
			}
		}
		// x = lit known, c: x = lit2
		if p.Op == "=" && c.Op == "=" {
			if r := litConflict(p, c); r {
				return -1
			}
		}
	}
	if c.Op == "<=" || c.Op == "<" {
		// interval reasoning against single facts: p implies c when p: a<=b and c: a<=b+k, k>=0
		for _, p := range st.pc {
			if impliesLin(p, c) {
				return 1
			}
			if impliesLin(p, n) {
				return -1
			}
		}
	}
	if c.Op == "and" {
		all := true
		for _, a := range c.Args {
			switch st.decide(a) {
			case -1:
				return -1
			case 0:
				all = false
			}
		}
		if all {
			return 1
		}
	}
	if c.Op == "or" {
		all := true
		for _, a := range c.Args {
			switch st.decide(a) {
			case 1:
				return 1
			case 0:
				all = false
			}
		}
		if all {
			return -1
		}
	}
	return 0
}

func litConflict(p, c *Term) bool {
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			if p.Args[i] == c.Args[j] && isLit(p.Args[1-i]) && isLit(c.Args[1-j]) && p.Args[1-i] != c.Args[1-j] {
				return true
			}
		}
	}
	return false
}

// p: x <= y (or <), c: u <= v; implied when (v-u)-(y-x) is a constant >= 0
func impliesLin(p, c *Term) bool {
	var dp *Term
	sp := int64(0)
	switch p.Op {
	case "<=":
		dp = Sub(p.Args[1], p.Args[0])
	case "<":
		dp = Sub(p.Args[1], p.Args[0])
		sp = 1
	case "=":
		if p.Args[0].Sort != SInt {
			return false
		}
		// equality implies both directions
		d := Sub(p.Args[1], p.Args[0])
		return impliesD(d, 0, c) || impliesD(Neg(d), 0, c)
	default:
		return false
	}
	return impliesD(dp, sp, c)
}

// known: dp >= sp
func impliesD(dp *Term, sp int64, c *Term) bool {
	dc := Sub(c.Args[1], c.Args[0])
	need := int64(0)
	if c.Op == "<" {
		need = 1
	}
	diff := Sub(dc, dp)
	if diff.Op != "int" {
		return false
	}
	// dc = dp + diff >= sp + diff ; need dc >= need
	return new(big.Int).Add(diff.N, big.NewInt(sp)).Cmp(big.NewInt(need)) >= 0
}

type exit struct {
	st  *State
	blk *ssa.BasicBlock // nil: returned
	ret []Val
}

type Obligation struct {
	Harness string
	Kind    string // ensures, requires, inv-init, inv-pres, index, nil, panic, unsupported, cover ...
	Label   string
	Pos     string
	Asm     []*Term
	Goal    *Term
	Cand    *Cand // for invariants
	Status  string
	By      string
	Note    string
}

type Exec struct {
	pureFn    map[*ssa.Function]bool
	srcNames  map[*ssa.Function]map[ssa.Value][]string
	P         *Program
	T         *Types
	Obls      []*Obligation
	harness   string
	hfn       *ssa.Function
	cellCnt   int
	loopInfo  map[*ssa.Function]*loops
	modsets   map[string]*modset
	cands     map[string]*candSet
	heap0     *Heap
	alloc0    *Term
	depth     int
	templs    []*template
	steps     int
	scout     int // >0: no obligations recorded
	globals   map[*ssa.Global]Val
	contracts map[string]*ssa.Function
	used      map[string]bool // functions verified inline
	trusted   map[string]bool
	maxBind   int // bindings tried per invariant template
	truncated bool
	hints     int                // where invariants with a named loop are tried
	prior     map[string]bool    // what held in an earlier attempt
	scanCells map[int]*scanState // positions of scanners
	zeroCells map[int]bool       // cells expected to be 0 at the head of a loop
	deadline  time.Time
	spawned   map[string]bool // functions whose launch a contract speaks about
	recording bool
	chanOrder []int
	specs     map[*ssa.Function]*specFn
	inits     map[*ssa.Package]bool
	candOrder []*Cand
	atCall    map[string]*FuncV               // what contracts say of inner calls
	modular   map[*ssa.Function]*ssa.Function // functions called by contract, and the contract
	opaqueFn  map[*ssa.Function]bool
	noFacts   bool
	inModular map[*ssa.Function]bool
	modUsed   map[string]bool
	noModular map[*ssa.Function]bool
	recCache  map[*ssa.Function]bool
	curLemma  *ssa.Function
	lemmaArgs []Val
	lemmaName string
	applying  bool
	applyG    int
	assuming  int
	reqLeft   int
	sink      *[]*Term // facts about map entries read while an invariant is evaluated
	nEnsures  int
	feas      *Pool
	feasMemo  map[string]int
	lastEns   [][]*Term
	curRec    map[string]bool
	chanInfo  map[int]*chanInfo
	maxSteps  int
	actCnt    int
	inEnv     bool
	lemmaUse  map[string]bool
	hrecv     string
}

func (x *Exec) pos(p token.Pos) string { return x.P.pos(p) }

func (x *Exec) oblig(st *State, kind, label string, goal *Term, pos token.Pos) {
	if st.gmode > 0 || x.scout > 0 {
		return
	}
	o := &Obligation{Harness: x.harness, Kind: kind, Label: label, Pos: x.pos(pos), Asm: st.pc[:len(st.pc):len(st.pc)], Goal: goal}
	if st.decide(goal) == 1 {
		o.Status = "proved"
		o.By = "simplifier"
	}
	x.Obls = append(x.Obls, o)
}

func (x *Exec) newCell(st *State, v Val) int {
	x.cellCnt++
	st.cells[x.cellCnt] = v
	return x.cellCnt
}

func (x *Exec) allocRef(st *State) *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	return r
}

// ---- map heaps --------------------------------------------------------------

func (x *Exec) mapKeys(t *types.Map) (string, string, *Sort, *Sort) {
	ks, vs := x.T.sortOf(t.Key()), x.T.sortOf(t.Elem())
	n := cleanName(x.T.short(t.Key())) + ":" + cleanName(x.T.short(t.Elem()))
	return "D:" + n, "V:" + n, SArr(SInt, SArr(ks, SBool)), SArr(SInt, SArr(ks, vs))
}

func (x *Exec) heapOf(st *State, snap *Heap) *Heap {
	if snap != nil {
		return snap
	}
	return st.heap
}

func (x *Exec) mapDom(st *State, m *MapV) *Term {
	dk, _, ds, _ := x.mapKeys(m.T)
	return x.domAt(x.heapOf(st, m.Snap).get(dk, ds), m.Ref)
}

// dom of the nil map is empty
func (x *Exec) domAt(d, r *Term) *Term {
	if r.Op == "int" && r.N.Sign() == 0 {
		return ConstArr(d.Sort.Elem, TFalse)
	}
	if r.Op == "ite" {
		return Ite(r.Args[0], x.domAt(d, r.Args[1]), x.domAt(d, r.Args[2]))
	}
	return Select(d, r)
}

func (x *Exec) mapVal(st *State, m *MapV) *Term {
	_, vk, _, vs := x.mapKeys(m.T)
	return Select(x.heapOf(st, m.Snap).get(vk, vs), m.Ref)
}

func (x *Exec) newMap(st *State, t *types.Map) *MapV {
	r := x.allocRef(st)
	dk, vk, ds, vs := x.mapKeys(t)
	st.heap.m[dk] = Store(st.heap.get(dk, ds), r, ConstArr(ds.Elem, TFalse))
	_ = vk
	_ = vs
	return &MapV{T: t, Ref: r}
}

func (x *Exec) mapUpdate(st *State, m *MapV, k, v Val, pos token.Pos) {
	if m.Snap != nil {
		if st.gmode == 0 {
			unsupported("write through a snapshot map")
		}
	}
	x.oblig(st, "nilmap", "assignment to entry in nil map", Not(Eq(m.Ref, Int(0))), pos)
	st.assume(Not(Eq(m.Ref, Int(0))))
	dk, vk, ds, vs := x.mapKeys(m.T)
	kt := x.T.toTerm(k, m.T.Key())
	vt := x.T.toTerm(v, m.T.Elem())
	d, va := st.heap.get(dk, ds), st.heap.get(vk, vs)
	st.heap.m[dk] = Store(d, m.Ref, Store(Select(d, m.Ref), kt, TTrue))
	st.heap.m[vk] = Store(va, m.Ref, Store(Select(va, m.Ref), kt, vt))
}

func (x *Exec) mapDelete(st *State, m *MapV, k Val) {
	dk, _, ds, _ := x.mapKeys(m.T)
	kt := x.T.toTerm(k, m.T.Key())
	d := st.heap.get(dk, ds)
	st.heap.m[dk] = Store(d, m.Ref, Store(Select(d, m.Ref), kt, TFalse))
}

func (x *Exec) mapLookup(st *State, m *MapV, k Val) (Val, *Term) {
	kt := x.T.toTerm(k, m.T.Key())
	in := Select(x.mapDom(st, m), kt)
	vt := Select(x.mapVal(st, m), kt)
	zero := x.T.toTerm(x.T.zero(m.T.Elem()), m.T.Elem())
	var v Val
	switch st.decide(in) {
	case 1:
		v = x.T.fromTerm(vt, m.T.Elem(), m.Snap)
		if x.sink != nil {
			x.wfRead(st, v, m.T.Elem(), in, m.Snap)
		}
		x.wfRead(st, v, m.T.Elem(), TTrue, m.Snap)
	case -1:
		v = x.T.zero(m.T.Elem())
		in = TFalse
	default:
		x.wfRead(st, x.T.fromTerm(vt, m.T.Elem(), m.Snap), m.T.Elem(), in, m.Snap)
		v = x.T.fromTerm(Ite(in, vt, zero), m.T.Elem(), m.Snap)
	}
	return v, in
}

// values read from a heap hold allocated references and well-formed slices
func (x *Exec) wfRead(st *State, v Val, t types.Type, guard *Term, snap *Heap) {
	for _, f := range x.T.facts(v, t, st.alloc) {
		if !f.fv && !guard.fv {
			if x.sink != nil && guard != TTrue {
				*x.sink = append(*x.sink, Imp(guard, f))
			}
			st.assume(Imp(guard, f))
		}
	}
}

func (x *Exec) mapLen(st *State, m *MapV) *Term {
	return Card(x.mapDom(st, m))
}

// ---- struct heaps -----------------------------------------------------------

func (x *Exec) fieldKey(n *types.Named, i int) (string, *Sort, types.Type) {
	u := n.Underlying().(*types.Struct)
	f := u.Field(i)
	return "F:" + cleanName(x.T.short(n)) + ":" + f.Name(), SArr(SInt, x.T.sortOf(f.Type())), f.Type()
}

func (x *Exec) loadHeapStruct(st *State, p *PtrV) Val {
	u := p.HT.Underlying().(*types.Struct)
	s := &StructV{T: p.HT}
	for i := 0; i < u.NumFields(); i++ {
		k, srt, ft := x.fieldKey(p.HT, i)
		v := x.T.fromTerm(Select(x.heapOf(st, p.Snap).get(k, srt), p.Ref), ft, p.Snap)
		x.wfRead(st, v, ft, TTrue, p.Snap)
		s.F = append(s.F, v)
	}
	return s
}

func (x *Exec) storeHeapStruct(st *State, p *PtrV, s *StructV) {
	for i := range s.F {
		k, srt, ft := x.fieldKey(p.HT, i)
		st.heap.m[k] = Store(st.heap.get(k, srt), p.Ref, x.T.toTerm(s.F[i], ft))
	}
}

// ---- pointers ---------------------------------------------------------------

func (x *Exec) load(st *State, pv Val, pos token.Pos) Val {
	p, ok := pv.(*PtrV)
	if !ok {
		unsupported("load through %T", pv)
	}
	if p.Slc != nil {
		return x.sliceGet(st, p.Slc, p.Idx, p.Path)
	}
	if p.Glob != nil {
		return x.pathGet(x.global(st, p.Glob), p.Path)
	}
	if p.HT != nil {
		x.oblig(st, "nil", "nil pointer dereference", Not(Eq(p.Ref, Int(0))), pos)
		if st.gmode == 0 {
			st.assume(Not(Eq(p.Ref, Int(0))))
		}
		if len(p.Path) == 0 {
			return x.loadHeapStruct(st, p)
		}
		k, srt, ft := x.fieldKey(p.HT, p.Path[0].Field)
		v := x.T.fromTerm(Select(x.heapOf(st, p.Snap).get(k, srt), p.Ref), ft, p.Snap)
		x.wfRead(st, v, ft, TTrue, p.Snap)
		return x.pathGet(v, p.Path[1:])
	}
	if p.Cell == 0 {
		x.oblig(st, "nil", "nil pointer dereference", TFalse, pos)
		unsupported("nil dereference")
	}
	v, ok := st.cells[p.Cell]
	if !ok {
		unsupported("dead cell")
	}
	return x.pathGet(v, p.Path)
}

func (x *Exec) pathGet(v Val, path []PathEl) Val {
	for _, e := range path {
		switch s := v.(type) {
		case *StructV:
			v = s.F[e.Field]
		case *ArrayV:
			v = s.E[e.Index]
		default:
			unsupported("path into %T", v)
		}
	}
	return v
}

func (x *Exec) pathSet(v Val, path []PathEl, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	switch s := v.(type) {
	case *StructV:
		n := &StructV{T: s.T, F: append([]Val{}, s.F...)}
		n.F[path[0].Field] = x.pathSet(s.F[path[0].Field], path[1:], nv)
		return n
	case *ArrayV:
		n := &ArrayV{T: s.T, E: append([]Val{}, s.E...)}
		n.E[path[0].Index] = x.pathSet(s.E[path[0].Index], path[1:], nv)
		return n
	}
	unsupported("path update of %T", v)
	return nil
}

func (x *Exec) store(st *State, pv Val, v Val, pos token.Pos) {
	p, ok := pv.(*PtrV)
	if !ok {
		unsupported("store through %T", pv)
	}
	if p.Slc != nil {
		x.sliceSet(st, p.Slc, p.Idx, p.Path, v)
		return
	}
	if p.Glob != nil {
		x.setGlobal(st, p.Glob, x.pathSet(x.global(st, p.Glob), p.Path, v))
		return
	}
	if p.HT != nil {
		x.oblig(st, "nil", "nil pointer dereference", Not(Eq(p.Ref, Int(0))), pos)
		st.assume(Not(Eq(p.Ref, Int(0))))
		if len(p.Path) == 0 {
			x.storeHeapStruct(st, p, v.(*StructV))
			return
		}
		k, srt, ft := x.fieldKey(p.HT, p.Path[0].Field)
		h := st.heap.get(k, srt)
		nv := v
		if len(p.Path) > 1 {
			nv = x.pathSet(x.T.fromTerm(Select(h, p.Ref), ft, nil), p.Path[1:], v)
		}
		st.heap.m[k] = Store(h, p.Ref, x.T.toTerm(nv, ft))
		return
	}
	if p.Cell == 0 {
		x.oblig(st, "nil", "nil pointer dereference", TFalse, pos)
		unsupported("nil dereference")
	}
	st.cells[p.Cell] = x.pathSet(st.cells[p.Cell], p.Path, v)
}

// ---- slices -----------------------------------------------------------------

func (x *Exec) checkTaint(st *State, s *SliceV) {
	if st.tainted[s.Tok] && st.gmode == 0 {
		unsupported("read of a slice whose backing array may have been changed through an alias")
	}
}

func (x *Exec) sliceGet(st *State, s *SliceV, idx *Term, path []PathEl) Val {
	x.checkTaint(st, s)
	if s.Arr == nil {
		if idx.Op != "int" {
			unsupported("symbolic index into concrete slice")
		}
		i := int(idx.N.Int64())
		if i < 0 || i >= len(s.Conc) {
			unsupported("index out of range on concrete slice")
		}
		return x.pathGet(s.Conc[i], path)
	}
	v := x.T.fromTerm(Select(s.Arr, Add(s.Off, idx)), s.Elem, nil)
	x.wfRead(st, v, s.Elem, TTrue, nil)
	return x.pathGet(v, path)
}

func related(a int) map[int]bool {
	// tokens connected to a through merges
	out := map[int]bool{a: true}
	for ch := true; ch; {
		ch = false
		for t, fs := range derived {
			for _, f := range fs {
				if out[f] && !out[t] || out[t] && !out[f] {
					out[f], out[t] = true, true
					ch = true
				}
			}
		}
	}
	return out
}

func (x *Exec) sliceSet(st *State, s *SliceV, idx *Term, path []PathEl, v Val) {
	if s.Arr == nil {
		unsupported("element store to concrete slice")
	}
	if s.Tok == 0 {
		unsupported("element store to a slice loaded from a data structure")
	}
	nv := v
	if len(path) > 0 {
		nv = x.pathSet(x.sliceGet(st, s, idx, nil), path, v)
	}
	narr := Store(s.Arr, Add(s.Off, idx), x.T.toTerm(nv, s.Elem))
	x.replaceTok(st, s.Tok, narr)
	for t := range related(s.Tok) {
		if t != s.Tok {
			if st.tainted == nil {
				st.tainted = map[int]bool{}
			}
			st.tainted[t] = true
		}
	}
}

func (x *Exec) replaceTok(st *State, tok int, narr *Term) {
	for _, f := range st.frames {
		for k, v := range f.regs {
			if nv, ch := replTok(v, tok, narr); ch {
				f.regs[k] = nv
			}
		}
	}
	for k, v := range st.cells {
		if nv, ch := replTok(v, tok, narr); ch {
			st.cells[k] = nv
		}
	}
}

func replTok(v Val, tok int, narr *Term) (Val, bool) {
	switch s := v.(type) {
	case *SliceV:
		if s.Tok == tok && s.Arr != narr {
			n := *s
			n.Arr = narr
			return &n, true
		}
	case *StructV:
		for i := range s.F {
			if nv, ch := replTok(s.F[i], tok, narr); ch {
				n := &StructV{T: s.T, F: append([]Val{}, s.F...)}
				n.F[i] = nv
				for j := i + 1; j < len(n.F); j++ {
					if w, ch := replTok(n.F[j], tok, narr); ch {
						n.F[j] = w
					}
				}
				return n, true
			}
		}
	case TupleV:
		for i := range s {
			if nv, ch := replTok(s[i], tok, narr); ch {
				n := append(TupleV{}, s...)
				n[i] = nv
				return n, true
			}
		}
	case *PtrV:
		if s.Slc != nil {
			if nv, ch := replTok(s.Slc, tok, narr); ch {
				n := *s
				n.Slc = nv.(*SliceV)
				return &n, true
			}
		}
	case *FuncV:
		for i := range s.Bind {
			if nv, ch := replTok(s.Bind[i], tok, narr); ch {
				n := *s
				n.Bind = append([]Val{}, s.Bind...)
				n.Bind[i] = nv
				return &n, true
			}
		}
	}
	return v, false
}

func (x *Exec) appendTo(st *State, s *SliceV, elems []Val) *SliceV {
	x.checkTaint(st, s)
	if s.Arr == nil {
		return &SliceV{Elem: s.Elem, Off: Int(0), Len: Int(int64(len(s.Conc) + len(elems))), Conc: append(append([]Val{}, s.Conc...), elems...), Tok: newTok()}
	}
	arr := s.Arr
	n := s.Len
	for _, e := range elems {
		arr = Store(arr, Add(s.Off, n), x.T.toTerm(e, s.Elem))
		n = Add(n, Int(1))
	}
	return &SliceV{Elem: s.Elem, Arr: arr, Off: s.Off, Len: n, Tok: newTok()}
}

// concatenation of two symbolic slices: fresh array with quantified contents
func (x *Exec) concat(st *State, a, b *SliceV) *SliceV {
	x.checkTaint(st, a)
	x.checkTaint(st, b)
	if a.Arr == nil || b.Arr == nil {
		if b.Arr == nil {
			return x.appendTo(st, a, b.Conc)
		}
		unsupported("concatenation of concrete and symbolic slices")
	}
	if b.Len.Op == "int" && b.Len.N.IsInt64() && b.Len.N.Int64() <= 64 {
		var es []Val
		for i := int64(0); i < b.Len.N.Int64(); i++ {
			es = append(es, x.sliceGet(st, b, Int(i), nil))
		}
		return x.appendTo(st, a, es)
	}
	if a.Len.Op == "int" && a.Len.N.Sign() == 0 {
		r := *b
		r.Tok = newTok()
		return &r
	}
	arr := Fresh("cat", a.Arr.Sort)
	i := BVar("i", SInt)
	st.assume(Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, a.Len)), Eq(Select(arr, i), Select(a.Arr, Add(a.Off, i)))), []*Term{Select(arr, i)}))
	st.assume(Forall([]*Term{i}, Imp(And(Le(a.Len, i), Lt(i, Add(a.Len, b.Len))), Eq(Select(arr, i), Select(b.Arr, Add(b.Off, Sub(i, a.Len))))), []*Term{Select(arr, i)}))
	// reverse triggers
	if b.Off.Op == "int" {
		st.assume(Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, b.Len)), Eq(Select(arr, Add(a.Len, i)), Select(b.Arr, Add(b.Off, i)))), []*Term{Select(b.Arr, Add(b.Off, i))}))
	}
	if a.Off.Op == "int" {
		st.assume(Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, a.Len)), Eq(Select(arr, i), Select(a.Arr, Add(a.Off, i)))), []*Term{Select(a.Arr, Add(a.Off, i))}))
	}
	return &SliceV{Elem: a.Elem, Arr: arr, Off: Int(0), Len: Add(a.Len, b.Len), Tok: newTok()}
}

// ---- register access --------------------------------------------------------

func (x *Exec) val(st *State, v ssa.Value) Val {
	f := st.top()
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return &FuncV{Fn: c, Sig: c.Signature}
	case *ssa.Global:
		return &PtrV{Elem: c.Type().Underlying().(*types.Pointer).Elem(), Glob: c}
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == c {
				return f.binds[i]
			}
		}
	case *ssa.Builtin:
		return &FuncV{Kind: "builtin:" + c.Name()}
	}
	r, ok := f.regs[v]
	if !ok {
		unsupported("value %s of %s not available (unmergeable)", v.Name(), f.fn)
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.T.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return realConst(c.Value)
		}
		n, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		if !ok {
			unsupported("constant %s", c)
		}
		return IntB(n)
	}
	unsupported("constant %s", c)
	return nil
}

func realConst(v constant.Value) *Term {
	r, _ := new(big.Rat).SetString(v.ExactString())
	if r == nil {
		unsupported("float constant %s", v)
	}
	s := fmt.Sprintf("(/ %s.0 %s.0)", new(big.Int).Abs(r.Num()), r.Denom())
	if r.IsInt() {
		s = new(big.Int).Abs(r.Num()).String() + ".0"
	}
	if r.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return mk(&Term{Op: "real", Name: s, Sort: SReal})
}

// ---- running blocks ---------------------------------------------------------

type stopSet map[*ssa.BasicBlock]bool

// arrive evaluates phis of b for an edge from pred.
func (x *Exec) arrive(st *State, b, pred *ssa.BasicBlock) {
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
			break
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		v := func() (v Val) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Unsupported); ok {
						v = nil
						return
					}
					panic(r)
				}
			}()
			return x.val(st, phi.Edges[idx])
		}()
		vals = append(vals, v)
	}
	for i, phi := range phis {
		if vals[i] == nil {
			delete(st.top().regs, phi)
		} else {
			st.top().regs[phi] = vals[i]
		}
	}
}

// goTo continues at block b (phis already evaluated).
func (x *Exec) goTo(st *State, b *ssa.BasicBlock, stops stopSet) []exit {
	if stops[b] {
		return []exit{{st: st, blk: b}}
	}
	li := x.loopsOf(b.Parent())
	if l := li.byHeader[b]; l != nil {
		return x.execLoop(st, l, stops)
	}
	return x.runInstrs(st, b, stops)
}

func (x *Exec) runInstrs(st *State, b *ssa.BasicBlock, stops stopSet) []exit {
	return x.runFrom(st, b, 0, stops)
}

func (x *Exec) runFrom(st *State, b *ssa.BasicBlock, start int, stops stopSet) []exit {
	for i := start; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > x.maxSteps || x.steps%1000 == 0 && time.Now().After(x.deadline) {
			unsupported("symbolic execution budget exceeded")
		}
		in := b.Instrs[i]
		switch ins := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			to := b.Succs[0]
			x.arrive(st, to, b)
			return x.goTo(st, to, stops)
		case *ssa.If:
			return x.branch(st, b, ins, stops)
		case *ssa.Return:
			var rs []Val
			for _, r := range ins.Results {
				rs = append(rs, x.val(st, r))
			}
			return []exit{{st: st, ret: rs}}
		case *ssa.Panic:
			x.oblig(st, "panic", "unreachable panic", TFalse, ins.Pos())
			return nil
		case *ssa.Call:
			outs := x.call(st, ins.Common(), ins, ins.Pos())
			if len(outs) == 1 {
				st = outs[0].st
				x.setResult(st, ins, outs[0].ret)
				continue
			}
			var res []exit
			for _, o := range outs {
				x.setResult(o.st, ins, o.ret)
				res = append(res, x.runFrom(o.st, b, i+1, stops)...)
			}
			return res
		case *ssa.RunDefers:
			outs := x.runDefers(st)
			if len(outs) == 1 {
				st = outs[0]
				continue
			}
			var res []exit
			for _, o := range outs {
				res = append(res, x.runFrom(o, b, i+1, stops)...)
			}
			return res
		case *ssa.Select:
			outs := x.selectStmt(st, ins)
			var res []exit
			for _, o := range outs {
				o.top().regs[ins] = o.top().regs[ins]
				res = append(res, x.runFrom(o, b, i+1, stops)...)
			}
			return res
		default:
			outs := x.instr(st, in)
			if outs == nil {
				continue
			}
			var res []exit
			for _, o := range outs {
				res = append(res, x.runFrom(o, b, i+1, stops)...)
			}
			return res
		}
	}
	panic("block without terminator")
}

func (x *Exec) setResult(st *State, ins *ssa.Call, ret []Val) {
	switch len(ret) {
	case 0:
		st.top().regs[ins] = TupleV{}
	case 1:
		if _, ok := ins.Type().(*types.Tuple); ok {
			if tv, ok := ret[0].(TupleV); ok {
				st.top().regs[ins] = tv
			} else {
				st.top().regs[ins] = TupleV{ret[0]}
			}
		} else {
			st.top().regs[ins] = ret[0]
		}
	default:
		st.top().regs[ins] = TupleV(ret)
	}
}

// specialise simplifies the values at hand under a decided condition.
func (x *Exec) specialise(st *State, c, v *Term) {
	m := map[*Term]*Term{c: v}
	if c.Op == "not" {
		m = map[*Term]*Term{c.Args[0]: Not(v)}
	}
	f := st.top()
	for k, r := range f.regs {
		f.regs[k] = leaves(r, func(t *Term) *Term { return Subst(t, m) })
	}
}

func (x *Exec) branch(st *State, b *ssa.BasicBlock, ins *ssa.If, stops stopSet) []exit {
	cv, ok := x.val(st, ins.Cond).(*Term)
	if !ok {
		unsupported("non-boolean condition")
	}
	c := cv
	switch st.decide(c) {
	case 1:
		x.arrive(st, b.Succs[0], b)
		return x.goTo(st, b.Succs[0], stops)
	case -1:
		x.arrive(st, b.Succs[1], b)
		return x.goTo(st, b.Succs[1], stops)
	}
	switch x.feasible(st, c) {
	case 1:
		st.assume(c)
		x.arrive(st, b.Succs[0], b)
		return x.goTo(st, b.Succs[0], stops)
	case -1:
		st.assume(Not(c))
		x.arrive(st, b.Succs[1], b)
		return x.goTo(st, b.Succs[1], stops)
	}
	J := x.loopsOf(b.Parent()).ipdom[b]
	ns := stops
	own := J != nil && !stops[J]
	if own {
		ns = stopSet{J: true}
		for k := range stops {
			ns[k] = true
		}
	}
	s1 := st.clone()
	s1.assume1(c)
	s2 := st
	s2.assume1(Not(c))
	if x.T.fork {
		x.specialise(s1, c, TTrue)
		x.specialise(s2, c, TFalse)
	}
	x.arrive(s1, b.Succs[0], b)
	e1 := x.goTo(s1, b.Succs[0], ns)
	x.arrive(s2, b.Succs[1], b)
	e2 := x.goTo(s2, b.Succs[1], ns)
	all := append(append([]exit{}, e1...), e2...)
	if !own {
		return x.mergeExits(all)
	}
	var at, rest []exit
	for _, e := range all {
		if e.blk == J {
			at = append(at, e)
		} else {
			rest = append(rest, e)
		}
	}
	at = x.mergeExits(at)
	for _, e := range at {
		rest = append(rest, x.goTo(e.st, J, stops)...)
	}
	return rest
}

// mergeExits merges exits that ended at the same place pairwise.
func (x *Exec) mergeExits(es []exit) []exit {
	if len(es) < 2 {
		return es
	}
	out := append([]exit{}, es...)
	for {
		merged := false
		// prefer pairs with the longest common prefix
		best, bi, bj := -1, 0, 0
		for i := 0; i < len(out); i++ {
			for j := i + 1; j < len(out); j++ {
				if out[i].blk != out[j].blk || len(out[i].ret) != len(out[j].ret) {
					continue
				}
				n, ok := mergePoint(out[i].st, out[j].st)
				if ok && n > best && !noMerge[[2]*State{out[i].st, out[j].st}] {
					best, bi, bj = n, i, j
				}
			}
		}
		if best >= 0 {
			m, ok := x.mergeExit(out[bi], out[bj], best)
			if ok {
				out[bi] = m
				out = append(out[:bj], out[bj+1:]...)
				merged = true
			} else {
				noMerge[[2]*State{out[bi].st, out[bj].st}] = true
				merged = true // try others
			}
		}
		if !merged {
			return out
		}
	}
}

var noMerge = map[[2]*State]bool{}

func mergePoint(a, b *State) (int, bool) {
	n := 0
	for n < len(a.pc) && n < len(b.pc) && a.pc[n] == b.pc[n] {
		n++
	}
	if n >= len(a.pc) || n >= len(b.pc) {
		return 0, false
	}
	return n, a.pc[n] == Not(b.pc[n])
}

func (x *Exec) mergeExit(a, b exit, n int) (exit, bool) {
	sa, sb := a.st, b.st
	if len(sa.frames) != len(sb.frames) || len(sa.loops) != len(sb.loops) {
		return exit{}, false
	}
	for i := range sa.loops {
		if sa.loops[i] != sb.loops[i] {
			return exit{}, false
		}
	}
	c := sa.pc[n]
	st := sa.clone()
	st.pc = append([]*Term{}, sa.pc[:n]...)
	for _, p := range sa.pc[n+1:] {
		st.assume(Imp(c, p))
	}
	nc := Not(c)
	for _, p := range sb.pc[n+1:] {
		st.assume(Imp(nc, p))
	}
	for i, f := range st.frames {
		fb := sb.frames[i]
		if f.fn != fb.fn || len(f.defers) != len(fb.defers) {
			return exit{}, false
		}
		for j := range f.defers {
			if f.defers[j] != fb.defers[j] {
				return exit{}, false
			}
		}
		for k, v := range f.regs {
			w, ok := fb.regs[k]
			if !ok {
				delete(f.regs, k)
				continue
			}
			if sameVal(v, w) {
				continue
			}
			m, ok := x.T.merge(c, v, w)
			if !ok {
				if _, isPhi := k.(*ssa.Phi); isPhi && a.blk != nil && k.(*ssa.Phi).Block() == a.blk && i == len(st.frames)-1 {
					return exit{}, false
				}
				delete(f.regs, k)
				continue
			}
			f.regs[k] = m
		}
	}
	for k, w := range sb.cells {
		v, ok := st.cells[k]
		if !ok {
			st.cells[k] = w
			continue
		}
		if sameVal(v, w) {
			continue
		}
		m, ok := x.T.merge(c, v, w)
		if !ok {
			return exit{}, false
		}
		st.cells[k] = m
	}
	keys := map[string]bool{}
	for k := range sa.heap.m {
		keys[k] = true
	}
	for k := range sb.heap.m {
		keys[k] = true
	}
	for k := range keys {
		va, vb := sa.heap.m[k], sb.heap.m[k]
		if va == nil {
			va = sa.heap.get(k, vb.Sort)
		}
		if vb == nil {
			vb = sb.heap.get(k, va.Sort)
		}
		st.heap.m[k] = Ite(c, va, vb)
	}
	st.alloc = Ite(c, sa.alloc, sb.alloc)
	if st.alloc.Op == "ite" {
		// keep allocation counters simple: a fresh upper bound
		na := Fresh("alloc", SInt)
		st.assume(And(Le(sa.alloc, na), Le(sb.alloc, na)))
		st.alloc = na
	}
	for t := range sb.tainted {
		if st.tainted == nil {
			st.tainted = map[int]bool{}
		}
		st.tainted[t] = true
	}
	if len(sa.ghost) != len(sb.ghost) {
		return exit{}, false
	}
	st.memo = nil
	for _, m := range sa.memo {
		for _, k := range sb.memo {
			same := m.key == k.key && len(m.ret) == len(k.ret)
			for i := 0; same && i < len(m.ret); i++ {
				same = sameVal(m.ret[i], k.ret[i])
			}
			if same {
				st.memo = append(st.memo, m)
			}
		}
	}
	out := exit{st: st, blk: a.blk}
	for i := range a.ret {
		m, ok := x.T.merge(c, a.ret[i], b.ret[i])
		if !ok {
			return exit{}, false
		}
		out.ret = append(out.ret, m)
	}
	return out, true
}

// ---- functions --------------------------------------------------------------

// callFn inlines a function body.
func (x *Exec) callFn(st *State, fn *ssa.Function, binds, args []Val, pos token.Pos) []exit {
	if len(fn.Blocks) == 0 {
		unsupported("no body for %s", fn)
	}
	if len(st.frames) > 40 {
		unsupported("inlining too deep at %s", fn)
	}
	for _, f := range st.frames {
		if f.fn == fn && fn.Parent() == nil && !(x.P.isOverlay(fn)) {
			if outs, ok := x.recursiveCall(st, fn, args, pos); ok {
				return outs
			}
			unsupported("recursive call of %s without a contract", fn)
		}
	}
	path := ""
	if len(st.frames) > 0 {
		path = st.top().path
	}
	path += "/" + fn.Name()
	f := &Frame{fn: fn, regs: map[ssa.Value]Val{}, path: path, binds: binds, alloc: st.alloc}
	if len(fn.Params) != len(args) {
		unsupported("arity mismatch calling %s", fn)
	}
	mkey, memo := "", false
	if st.gmode == 0 && !x.P.isOverlay(fn) && x.memoizable(fn) {
		if mkey, memo = memoKey(fn, args); memo {
			for _, m := range st.memo {
				if m.key == mkey {
					var ret []Val
					for _, v := range m.ret {
						ret = append(ret, reuse(v))
					}
					return one(st, ret...)
				}
			}
		}
	}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	if st.gmode == 0 && !x.P.isOverlay(fn) {
		x.used[fnName(fn)] = true
	}
	base := len(st.frames)
	st.frames = append(st.frames, f)
	outs := x.goTo(st, fn.Blocks[0], stopSet{})
	for i := range outs {
		outs[i].st.frames = outs[i].st.frames[:base]
	}
	outs = x.mergeExits(outs)
	if memo && len(outs) == 1 {
		o := outs[0]
		o.st.memo = append(o.st.memo[:len(o.st.memo):len(o.st.memo)], memoEntry{mkey, append([]Val{}, o.ret...)})
	}
	return outs
}

func fnName(fn *ssa.Function) string {
	s := fn.String()
	if o := fn.Origin(); o != nil {
		s = o.String()
	}
	return strings.ReplaceAll(s, modPath+"/", "")
}

func (x *Exec) runDefers(st *State) []*State {
	f := st.top()
	ds := f.defers
	f.defers = nil
	states := []*State{st}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var next []*State
		for _, s := range states {
			for _, o := range x.callVal(s, d.fn, d.args, d.call, d.pos) {
				next = append(next, o.st)
			}
		}
		states = next
	}
	return states
}

// evalPure calls a function value in ghost mode and returns the merged result.
func (x *Exec) evalPure(st *State, fv Val, args []Val) Val {
	s := st.clone()
	s.gmode++
	n := len(s.pc)
	x.scout++
	outs := x.callVal(s, fv, args, nil, token.NoPos)
	x.scout--
	outs = x.mergeExits(outs)
	if len(outs) != 1 {
		unsupported("specification function with %d unmergeable outcomes", len(outs))
	}
	_ = n
	if len(outs[0].ret) == 1 {
		return outs[0].ret[0]
	}
	return TupleV(outs[0].ret)
}

func (x *Exec) evalTerm(st *State, fv Val, args []Val) *Term {
	v := x.evalPure(st, fv, args)
	t, ok := v.(*Term)
	if !ok {
		unsupported("specification function returned %T", v)
	}
	return t
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// feasible asks the solver whether a branch condition is decided by the path
// (1: always true, -1: always false). Undecided is always a sound answer.
func (x *Exec) feasible(st *State, c *Term) int {
	if st.gmode > 0 || x.feas == nil || c.fv {
		return 0
	}
	var asm []*Term
	key := fmt.Sprint(c.ID)
	for _, p := range st.pc {
		if p.Op == "or" && p.Args[0].Op == "not" && strings.HasPrefix(p.Args[0].Args[0].Name, "act!") {
			continue
		}
		if hasQuant(p) {
			continue
		}
		asm = append(asm, p)
		key += fmt.Sprintf(",%d", p.ID)
	}
	if r, ok := x.feasMemo[key]; ok {
		return r
	}
	r := 0
	ask := func(g *Term) bool {
		q := buildQuery(asm, g, 0)
		a, _ := x.feas.ask(solverSpecs[0], q.Text, 200*time.Millisecond, nil)
		return a == "unsat"
	}
	if ask(c) {
		r = 1
	} else if ask(Not(c)) {
		r = -1
	}
	x.feasMemo[key] = r
	return r
}

var quantMemo = map[int]bool{}

func hasQuant(t *Term) bool {
	if r, ok := quantMemo[t.ID]; ok {
		return r
	}
	r := t.Op == "forall" || t.Op == "exists"
	for _, a := range t.Args {
		if r {
			break
		}
		r = hasQuant(a)
	}
	quantMemo[t.ID] = r
	return r
}
