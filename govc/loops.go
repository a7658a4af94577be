package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	idx    int
}

type loops struct {
	byHeader map[*ssa.BasicBlock]*loop
	ipdom    map[*ssa.BasicBlock]*ssa.BasicBlock
	order    []*loop
}

func (x *Exec) loopsOf(fn *ssa.Function) *loops {
	if l, ok := x.loopInfo[fn]; ok {
		return l
	}
	l := &loops{byHeader: map[*ssa.BasicBlock]*loop{}, ipdom: map[*ssa.BasicBlock]*ssa.BasicBlock{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := l.byHeader[s]
				if lp == nil {
					lp = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					l.byHeader[s] = lp
					l.order = append(l.order, lp)
				}
				var stack []*ssa.BasicBlock
				if !lp.body[b] {
					lp.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if !lp.body[p] {
							lp.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	sort.Slice(l.order, func(i, j int) bool { return l.order[i].header.Index < l.order[j].header.Index })
	for i, lp := range l.order {
		lp.idx = i
	}
	// post-dominators; blocks that end in panic impose no constraint
	n := len(fn.Blocks)
	pd := make([]map[int]bool, n) // nil = universe
	isExit := func(b *ssa.BasicBlock) bool {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		return ok
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			var nw map[int]bool
			if isExit(b) {
				nw = map[int]bool{i: true}
			} else {
				first := true
				for _, s := range b.Succs {
					if pd[s.Index] == nil {
						continue
					}
					if first {
						nw = map[int]bool{}
						for k := range pd[s.Index] {
							nw[k] = true
						}
						first = false
					} else {
						for k := range nw {
							if !pd[s.Index][k] {
								delete(nw, k)
							}
						}
					}
				}
				if first {
					continue
				}
				nw[i] = true
			}
			if pd[i] == nil || len(nw) != len(pd[i]) {
				pd[i] = nw
				ch = true
			}
		}
	}
	for i, b := range fn.Blocks {
		if pd[i] == nil {
			continue
		}
		// immediate: the strict post-dominator with the largest pd set
		best, bl := -1, -1
		for k := range pd[i] {
			if k == i {
				continue
			}
			if pd[k] != nil && len(pd[k]) > bl {
				best, bl = k, len(pd[k])
			}
		}
		if best >= 0 {
			l.ipdom[b] = fn.Blocks[best]
		}
	}
	x.loopInfo[fn] = l
	return l
}

// ---- locations --------------------------------------------------------------

type locKind int

const (
	locReg locKind = iota
	locCell
	locConst
	locCellPath
)

type loc struct {
	kind  locKind
	frame int
	v     ssa.Value
	cell  int
	path  []PathEl
	c     Val
	plus  int64 // added to integer value
	name  string
	isSet bool
	typ   types.Type
	src   string // name of the source variable
	rank  int
	idx   bool // the position of a range loop, one past its index
	iter  int  // cell of the visited set
}

func (x *Exec) resolve(st *State, l loc) (Val, bool) {
	var v Val
	switch l.kind {
	case locReg:
		if l.frame >= len(st.frames) {
			return nil, false
		}
		w, ok := st.frames[l.frame].regs[l.v]
		if !ok {
			return nil, false
		}
		v = w
	case locCell:
		w, ok := st.cells[l.cell]
		if !ok {
			return nil, false
		}
		v = w
	case locConst:
		v = l.c
	}
	if len(l.path) > 0 {
		v = x.pathGet(v, l.path)
	}
	if l.plus != 0 {
		t, ok := v.(*Term)
		if !ok {
			return nil, false
		}
		v = Add(t, Int(l.plus))
	}
	if l.isSet {
		switch s := v.(type) {
		case *IterV:
			set, ok := st.cells[s.Cell]
			if !ok {
				return nil, false
			}
			return set, true
		}
		return nil, false
	}
	return v, true
}

func (l loc) key() string {
	switch l.kind {
	case locReg:
		return fmt.Sprintf("r%d:%s:%p+%d%v", l.frame, l.v.Name(), l.v, l.plus, l.isSet)
	case locCell:
		return fmt.Sprintf("c%d%v+%d", l.cell, l.path, l.plus)
	}
	return fmt.Sprintf("k:%s", l.name)
}

// ---- modification sets ------------------------------------------------------

type modset struct {
	regs  map[string]map[int]bool // phi / register / cell -> changed leaves
	heaps map[string]*Sort
	alloc bool
	ver   int
}

func newModset() *modset {
	return &modset{regs: map[string]map[int]bool{}, heaps: map[string]*Sort{}}
}

// leaves enumerates the component terms of a value.
func leaves(v Val, f func(t *Term) *Term) Val {
	switch s := v.(type) {
	case *Term:
		return f(s)
	case *StructV:
		n := &StructV{T: s.T}
		for _, e := range s.F {
			n.F = append(n.F, leaves(e, f))
		}
		return n
	case *ArrayV:
		n := &ArrayV{T: s.T}
		for _, e := range s.E {
			n.E = append(n.E, leaves(e, f))
		}
		return n
	case *SliceV:
		if s.Arr == nil {
			return s
		}
		n := *s
		n.Arr = f(s.Arr)
		n.Off = f(s.Off)
		n.Len = f(s.Len)
		if n.Arr != s.Arr || n.Off != s.Off || n.Len != s.Len {
			n.Tok = newTok()
			if s.Tok != 0 {
				noteDerived(n.Tok, s.Tok)
			}
		}
		return &n
	case *MapV:
		return &MapV{T: s.T, Ref: f(s.Ref), Snap: s.Snap}
	case *PtrV:
		if s.HT != nil {
			n := *s
			n.Ref = f(s.Ref)
			return &n
		}
		return s
	case *SetV:
		return &SetV{K: s.K, Set: f(s.Set)}
	case TupleV:
		var n TupleV
		for _, e := range s {
			n = append(n, leaves(e, f))
		}
		return n
	case *IfaceV:
		if s.T == nil {
			return &IfaceV{V: leaves(s.V, f)}
		}
		return s
	case *ChanState:
		n := *s
		n.NSent = f(s.NSent)
		n.Sent = f(s.Sent)
		n.NRecv = f(s.NRecv)
		n.Closed = f(s.Closed)
		return &n
	case *TraceV:
		n := *s
		n.Arr = f(s.Arr)
		n.Len = f(s.Len)
		return &n
	}
	return v
}

func leafList(v Val) []*Term {
	var out []*Term
	leaves(v, func(t *Term) *Term { out = append(out, t); return t })
	return out
}

// diffLeaves records leaves of b that differ from a; reports whether shapes agree.
func diffLeaves(a, b Val, into map[int]bool) (changed, ok bool) {
	if sameVal(a, b) {
		return false, true
	}
	la, lb := leafList(a), leafList(b)
	if len(la) != len(lb) {
		return true, false
	}
	if len(la) == 0 {
		return true, false
	}
	n := 0
	for i := range la {
		if la[i] != lb[i] {
			if la[i].Sort != lb[i].Sort {
				return true, false
			}
			n++
			if !into[i] {
				into[i] = true
				changed = true
			}
		}
	}
	if n == 0 && !sliceTokOnly(a, b) {
		return true, false
	}
	return changed, true
}

func sliceTokOnly(a, b Val) bool { return true }

func havocLeaves(name string, v Val, ch map[int]bool) Val {
	i := -1
	return leaves(v, func(t *Term) *Term {
		i++
		if ch[i] {
			return Fresh(name, t.Sort)
		}
		return t
	})
}

// ---- loop contexts and candidates -------------------------------------------

type loopCtx struct {
	key      string
	header   *ssa.BasicBlock
	frame    int
	posCell  int
	entry    *Heap
	entryAll *Term
	parent   *loopCtx
	bodyFn   *FuncV
}

type Cand struct {
	Name  string
	Key   string
	act   *Term
	eval  func(st *State, ctx *loopCtx) *Term
	Alive bool
	Templ bool
	Why   string
}

type candSet struct {
	list []*Cand
	ver  int
}

type template struct {
	fn   *ssa.Function
	name string
	at   []string // the loops it is tried at first ("/F#L0"); all when that fails
}

// Where invariants with a named loop are tried.
const (
	hintsOnly        = iota // only there
	hintsWhereUseful        // those that held nowhere: at every loop without any
	hintsOff                // everywhere
)

// held: the invariants that held somewhere, and the loops where one did.
func (x *Exec) held() map[string]bool {
	out := map[string]bool{}
	for _, key := range sortedKeys(x.cands) {
		for _, c := range x.cands[key].list {
			if c.Alive && c.Templ {
				name, _, _ := strings.Cut(c.Name, "(")
				out[name] = true
				out[typeArgs.ReplaceAllString(key, "")] = true
			}
		}
	}
	return out
}

func (x *Exec) newCand(key, name string, templ bool, ev func(st *State, ctx *loopCtx) *Term) *Cand {
	x.actCnt++
	c := &Cand{Name: name, Key: key, act: Sym(fmt.Sprintf("act!%d", x.actCnt), SBool), eval: ev, Alive: true, Templ: templ}
	return c
}

// mode remembers what kind of execution is under way: an Unsupported that is
// recovered from must not leave another one switched on.
func (x *Exec) mode() func() {
	scout, applying, applyG, lemma := x.scout, x.applying, x.applyG, x.lemmaName
	recording, noFacts, assuming, reqLeft := x.recording, x.noFacts, x.assuming, x.reqLeft
	deadline, steps, depth, sink := x.deadline, x.steps, x.depth, x.sink
	in := map[*ssa.Function]bool{}
	for f := range x.inModular {
		in[f] = true
	}
	return func() {
		x.steps = max(x.steps, steps)
		x.scout, x.applying, x.applyG, x.lemmaName = scout, applying, applyG, lemma
		x.recording, x.noFacts, x.assuming, x.reqLeft = recording, noFacts, assuming, reqLeft
		x.deadline, x.depth, x.sink, x.inModular = deadline, depth, sink, in
	}
}

func (x *Exec) evalCand(c *Cand, st *State, ctx *loopCtx) (t *Term) {
	back := x.mode()
	g := st.gmode
	defer func() {
		if r := recover(); r != nil {
			back()
			st.gmode = g
			if u, ok := r.(Unsupported); ok {
				if debug {
					fmt.Println("  cand", c.Name, "unsupported:", u.Msg)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	if st.gmode > 0 || !c.Templ {
		return c.eval(st, ctx)
	}
	var facts []*Term
	x.sink = &facts
	defer func() { x.sink = nil }()
	t = c.eval(st, ctx)
	for _, f := range facts {
		st.assume(f)
	}
	return t
}

func (x *Exec) candObligs(st *State, ctx *loopCtx, cs *candSet, kind string, pos token.Pos) {
	if x.scout > 0 || st.gmode > 0 {
		return
	}
	// evaluation may add definitional facts to the path
	type r struct {
		c *Cand
		t *Term
	}
	var rs []r
	for _, c := range cs.list {
		if !c.Alive {
			continue
		}
		t := x.evalCand(c, st, ctx)
		rs = append(rs, r{c, t})
	}
	for _, e := range rs {
		if e.t == nil {
			e.c.Alive = false
			e.c.Why = kind + ": not evaluable"
			continue
		}
		if e.t.Op == "true" {
			continue
		}
		goals := []*Term{e.t}
		if e.c.Templ {
			if gs := splitGoal(e.t); len(gs) <= 80 {
				goals = gs
			}
		}
		for _, g := range goals {
			o := &Obligation{Harness: x.harness, Kind: kind, Label: e.c.Name, Pos: x.pos(pos), Asm: st.pc[:len(st.pc):len(st.pc)], Goal: g, Cand: e.c}
			x.Obls = append(x.Obls, o)
		}
	}
}

func (x *Exec) assumeCands(st *State, ctx *loopCtx, cs *candSet) {
	if st.gmode > 0 {
		return
	}
	for _, c := range cs.list {
		if !c.Alive {
			continue
		}
		x.assuming++
		t := x.evalCand(c, st, ctx)
		x.assuming--
		if t == nil {
			c.Alive = false
			c.Why = "head: not evaluable"
			continue
		}
		if t.Op == "true" {
			continue
		}
		st.pc = append(st.pc, mk(&Term{Op: "or", Args: []*Term{Not(c.act), t}, Sort: SBool}))
	}
}

// snapshot of everything that a loop body might change
type locVal struct {
	l loc
	v Val
}

func (x *Exec) outerLocs(st *State, ctx *loopCtx, phis []*ssa.Phi) []locVal {
	var out []locVal
	for i, f := range st.frames {
		var keys []ssa.Value
		for k := range f.regs {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(a, b int) bool { return valOrder(keys[a], keys[b]) })
		for _, k := range keys {
			if i == ctx.frame && ctx.header != nil {
				if !domHeader(k, ctx.header) {
					continue
				}
			}
			out = append(out, locVal{loc{kind: locReg, frame: i, v: k, name: k.Name(), typ: k.Type()}, f.regs[k]})
		}
	}
	var cs []int
	for c := range st.cells {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	for _, c := range cs {
		out = append(out, locVal{loc{kind: locCell, cell: c, name: fmt.Sprintf("cell%d", c)}, st.cells[c]})
	}
	return out
}

func valOrder(a, b ssa.Value) bool {
	if a.Name() != b.Name() {
		if len(a.Name()) != len(b.Name()) {
			return len(a.Name()) < len(b.Name())
		}
		return a.Name() < b.Name()
	}
	return a.Pos() < b.Pos()
}

// value available at loop header h: parameters, or defined in a block that
// dominates h (phis of h included)
func domHeader(v ssa.Value, h *ssa.BasicBlock) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	b := in.Block()
	if b == nil {
		return true
	}
	if b == h {
		_, phi := v.(*ssa.Phi)
		return phi
	}
	return b.Dominates(h)
}

func (x *Exec) loopKey(st *State, h *ssa.BasicBlock, n string) string {
	s := st.top().path
	if h != nil {
		return fmt.Sprintf("%s#L%d", s, x.loopsOf(h.Parent()).byHeader[h].idx)
	}
	return s + "#" + n
}

// abstract one iteration start: havoc per modset; returns locs for later comparison
func (x *Exec) havocState(st *State, ms *modset, ctx *loopCtx) {
	lv := x.outerLocs(st, ctx, nil)
	for _, e := range lv {
		ch := ms.regs[e.l.key()]
		if len(ch) == 0 {
			continue
		}
		cur, ok := x.resolve(st, e.l)
		if !ok {
			continue
		}
		if sv, ok := cur.(*SliceV); ok && e.l.kind == locReg && !isHeaderPhi(e.l, ctx) {
			// element stores through a loop-invariant slice register
			if ch[0] && sv.Arr != nil {
				x.replaceTok(st, sv.Tok, Fresh("slc", sv.Arr.Sort))
			}
			continue
		}
		nv := havocLeaves("h_"+e.l.name, cur, ch)
		switch e.l.kind {
		case locReg:
			st.frames[e.l.frame].regs[e.l.v] = nv
		case locCell:
			st.cells[e.l.cell] = nv
		}
	}
	if ms.alloc {
		na := Fresh("alloc", SInt)
		st.assume(Le(st.alloc, na))
		st.alloc = na
	}
	for _, k := range sortedKeys(ms.heaps) {
		srt := ms.heaps[k]
		st.heap.m[k] = Fresh("H_"+k, srt)
	}
	// typing facts
	for _, e := range lv {
		ch := ms.regs[e.l.key()]
		if len(ch) == 0 {
			continue
		}
		cur, ok := x.resolve(st, e.l)
		if !ok {
			continue
		}
		var t types.Type
		if e.l.kind == locReg {
			t = e.l.v.Type()
		}
		for _, f := range x.factsAny(cur, t, st.alloc) {
			st.assume(f)
		}
		if set, ok := cur.(*SetV); ok {
			_ = set
		}
	}
	// iterators: visited is contained in the domain at the start of the range
	for _, f := range st.frames {
		for _, v := range f.regs {
			if it, ok := v.(*IterV); ok && it.Dom0 != nil {
				if s, ok := st.cells[it.Cell].(*SetV); ok && s.Set.Op == "sym" {
					bv := BVarN("vk", s.K)
					st.assume(Forall([]*Term{bv}, Imp(Select(s.Set, bv), Select(it.Dom0, bv)), []*Term{Select(s.Set, bv)}))
				}
			}
		}
	}
}

func BVarN(name string, s *Sort) *Term {
	return mk(&Term{Op: "bv", Name: name + "?" + cleanName(s.Name), Sort: s})
}

func isHeaderPhi(l loc, ctx *loopCtx) bool {
	phi, ok := l.v.(*ssa.Phi)
	return ok && ctx.header != nil && phi.Block() == ctx.header && l.frame == ctx.frame
}

// loopLimit: the value a counting loop compares its counter with, when that is
// known at the head of the loop: a number from outside the loop, or the length
// of something from outside.
func loopLimit(l loc, ctx *loopCtx) func(x *Exec, st *State) (*Term, bool) {
	h := ctx.header
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cond, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	var y ssa.Value
	switch {
	case cond.X == l.v && (cond.Op == token.LSS || cond.Op == token.NEQ):
		y = cond.Y
	case cond.Y == l.v && (cond.Op == token.GTR || cond.Op == token.NEQ):
		y = cond.X
	default:
		return nil
	}
	reg := func(x *Exec, st *State, v ssa.Value) (Val, bool) {
		if l.frame >= len(st.frames) {
			return nil, false
		}
		w, ok := st.frames[l.frame].regs[v]
		return w, ok
	}
	outside := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return !ok || in.Block() != h && in.Block().Dominates(h)
	}
	if call, ok := y.(*ssa.Call); ok && !outside(y) {
		if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
			return nil
		}
		s := call.Call.Args[0]
		var ptr ssa.Value
		if u, ok := s.(*ssa.UnOp); ok && u.Op == token.MUL && !outside(s) {
			ptr = u.X
			if !outside(ptr) {
				return nil
			}
		} else if !outside(s) {
			return nil
		}
		return func(x *Exec, st *State) (*Term, bool) {
			var v Val
			var ok bool
			if ptr != nil {
				p, has := reg(x, st, ptr)
				pv, isp := p.(*PtrV)
				if !has || !isp || pv.Cell == 0 || len(pv.Path) > 0 {
					return nil, false
				}
				v, ok = st.cells[pv.Cell]
			} else {
				v, ok = reg(x, st, s)
			}
			sv, iss := v.(*SliceV)
			if !ok || !iss {
				return nil, false
			}
			return sv.Len, true
		}
	}
	if _, isc := y.(*ssa.Const); isc || !outside(y) || !isIntType(y.Type()) {
		return nil
	}
	return func(x *Exec, st *State) (*Term, bool) {
		v, ok := reg(x, st, y)
		t, ist := v.(*Term)
		return t, ok && ist
	}
}

func (x *Exec) factsAny(v Val, t types.Type, bound *Term) []*Term {
	switch s := v.(type) {
	case *StructV:
		return x.T.facts(v, s.T, bound)
	case *Term:
		if t != nil {
			return x.T.facts(v, t, bound)
		}
		return nil
	case *SliceV:
		return x.T.facts(v, types.NewSlice(s.Elem), bound)
	case *MapV:
		return x.T.facts(v, s.T, bound)
	case *PtrV:
		return x.T.facts(v, nil, bound)
	case *ChanState:
		return []*Term{Le(Int(0), s.NSent), Le(Int(0), s.NRecv)}
	case *TraceV:
		return []*Term{Le(Int(0), s.Len)}
	}
	return nil
}

// compare a back-edge state with the loop-head state; grow the modset.
func (x *Exec) growModset(head *State, headLocs []locVal, back *State, ms *modset) bool {
	grew := false
	for _, e := range headLocs {
		nv, ok := x.resolve(back, e.l)
		if !ok {
			continue
		}
		k := e.l.key()
		if ms.regs[k] == nil {
			ms.regs[k] = map[int]bool{}
		}
		ch, ok := diffLeaves(e.v, nv, ms.regs[k])
		if !ok {
			unsupported("loop-carried value %s changes shape (%T -> %T)", e.l.name, e.v, nv)
		}
		if ch {
			grew = true
		}
	}
	for k, t := range back.heap.m {
		h := head.heap.get(k, t.Sort)
		if h != t && ms.heaps[k] == nil {
			ms.heaps[k] = t.Sort
			grew = true
		}
	}
	if back.alloc != head.alloc && !ms.alloc {
		ms.alloc = true
		grew = true
	}
	return grew
}

func (x *Exec) execLoop(st *State, l *loop, stops stopSet) []exit {
	h := l.header
	key := x.loopKey(st, h, "")
	ms := x.modsets[key]
	if ms == nil {
		ms = newModset()
		x.modsets[key] = ms
	}
	ctx := &loopCtx{key: key, header: h, frame: len(st.frames) - 1}
	if n := len(st.loops); n > 0 {
		ctx.parent = st.loops[n-1]
	}
	ns := stopSet{h: true}
	for b := range l.body {
		for _, s := range b.Succs {
			if !l.body[s] {
				ns[s] = true
			}
		}
	}
	outerLoops := st.loops
	pos := loopPos(h)
	var out []exit
	for iter := 0; ; iter++ {
		if iter > 12 {
			unsupported("loop modification set does not converge")
		}
		mark := len(x.Obls)
		ctx.entry = st.heap.clone()
		ctx.entryAll = st.alloc
		hd := st.clone()
		hd.loops = append(outerLoops[:len(outerLoops):len(outerLoops)], ctx)
		cs := x.candidates(hd, ctx, ms)
		ini := hd.clone()
		x.candObligs(ini, ctx, cs, "inv-init", pos)
		x.havocState(hd, ms, ctx)
		x.assumeCands(hd, ctx, cs)
		headLocs := x.outerLocs(hd, ctx, nil)
		headCopy := hd.clone()
		exits := x.runInstrs(hd, h, ns)
		exits = x.mergeExits(exits)
		grew := false
		for _, e := range exits {
			if e.blk == h {
				if x.growModset(headCopy, headLocs, e.st, ms) {
					grew = true
				}
			}
		}
		if grew {
			ms.ver++
			x.Obls = x.Obls[:mark]
			continue
		}
		for _, e := range exits {
			if e.blk == h {
				x.candObligs(e.st, ctx, cs, "inv-pres", pos)
				continue
			}
			e.st.loops = outerLoops
			out = append(out, e)
		}
		break
	}
	var res []exit
	byBlk := map[*ssa.BasicBlock][]exit{}
	var order []*ssa.BasicBlock
	for _, e := range out {
		if e.blk == nil {
			res = append(res, e)
			continue
		}
		if byBlk[e.blk] == nil {
			order = append(order, e.blk)
		}
		byBlk[e.blk] = append(byBlk[e.blk], e)
	}
	// continue from exit blocks; merge at the loop's common post-dominator
	var cont []exit
	J := x.commonPdom(order, h)
	ns2 := stops
	if J != nil && !stops[J] {
		ns2 = stopSet{J: true}
		for k := range stops {
			ns2[k] = true
		}
	}
	for _, b := range order {
		for _, e := range x.mergeExits(byBlk[b]) {
			cont = append(cont, x.goTo(e.st, b, ns2)...)
		}
	}
	if J == nil || stops[J] {
		return x.mergeExits(append(res, cont...))
	}
	var at []exit
	for _, e := range cont {
		if e.blk == J {
			at = append(at, e)
		} else {
			res = append(res, e)
		}
	}
	for _, e := range x.mergeExits(at) {
		res = append(res, x.goTo(e.st, J, stops)...)
	}
	return x.mergeExits(res)
}

func (x *Exec) commonPdom(bs []*ssa.BasicBlock, h *ssa.BasicBlock) *ssa.BasicBlock {
	if len(bs) < 2 {
		return nil
	}
	ip := x.loopsOf(h.Parent()).ipdom
	chain := func(b *ssa.BasicBlock) []*ssa.BasicBlock {
		var c []*ssa.BasicBlock
		seen := map[*ssa.BasicBlock]bool{}
		for b != nil && !seen[b] {
			seen[b] = true
			c = append(c, b)
			b = ip[b]
		}
		return c
	}
	first := chain(bs[0])
	for _, c := range first {
		all := true
		for _, b := range bs[1:] {
			found := false
			for _, d := range chain(b) {
				if d == c {
					found = true
				}
			}
			if !found {
				all = false
			}
		}
		if all {
			return c
		}
	}
	return nil
}

func loopPos(h *ssa.BasicBlock) token.Pos {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, p := range h.Preds {
		for _, in := range p.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return h.Parent().Pos()
}

// seqLoop runs an iteration over an abstract sequence: calls body for each
// element of s in order until it returns false.
func (x *Exec) seqLoop(st *State, s *SliceV, body *FuncV, pos token.Pos) []exit {
	if s.Len != nil && s.Len.Op == "int" && s.Len.N.Sign() == 0 {
		return []exit{{st: st}}
	}
	if s.Arr == nil {
		// concrete sequence: unroll
		outs := []exit{{st: st}}
		var done []exit
		for _, e := range s.Conc {
			var next []exit
			for _, o := range outs {
				for _, r := range x.callVal(o.st, body, []Val{e}, nil, pos) {
					c := r.ret[0].(*Term)
					switch r.st.decide(c) {
					case 1:
						next = append(next, exit{st: r.st})
					case -1:
						done = append(done, exit{st: r.st})
					default:
						s2 := r.st.clone()
						s2.assume1(Not(c))
						done = append(done, exit{st: s2})
						r.st.assume1(c)
						next = append(next, exit{st: r.st})
					}
				}
			}
			outs = next
		}
		return x.mergeExits(append(outs, done...))
	}
	key := x.loopKey(st, nil, "seq:"+x.bodyName(body))
	ms := x.modsets[key]
	if ms == nil {
		ms = newModset()
		x.modsets[key] = ms
	}
	ctx := &loopCtx{key: key, frame: len(st.frames) - 1, bodyFn: body}
	if n := len(st.loops); n > 0 {
		ctx.parent = st.loops[n-1]
	}
	outer := st.loops
	posCell := x.newCell(st, Int(0))
	ctx.posCell = posCell
	var out []exit
	for iter := 0; ; iter++ {
		if iter > 12 {
			unsupported("loop modification set does not converge")
		}
		out = nil
		mark := len(x.Obls)
		ctx.entry = st.heap.clone()
		ctx.entryAll = st.alloc
		hd := st.clone()
		hd.loops = append(outer[:len(outer):len(outer)], ctx)
		cs := x.candidates(hd, ctx, ms)
		x.candObligs(hd.clone(), ctx, cs, "inv-init", pos)
		x.havocState(hd, ms, ctx)
		i := Fresh("pos", SInt)
		hd.cells[posCell] = i
		hd.assume(Le(Int(0), i))
		hd.assume(Le(i, s.Len))
		x.assumeCands(hd, ctx, cs)
		headLocs := x.outerLocs(hd, ctx, nil)
		headCopy := hd.clone()
		// exhausted
		ex := hd.clone()
		ex.assume1(Le(s.Len, i))
		ex.assume(Eq(i, s.Len))
		hd.assume1(Lt(i, s.Len))
		el := x.sliceGet(hd, s, i, nil)
		outs := x.callVal(hd, body, []Val{el}, nil, pos)
		grew := false
		var backs []exit
		for _, r := range outs {
			c, ok := r.ret[0].(*Term)
			if !ok {
				unsupported("yield result")
			}
			switch r.st.decide(c) {
			case 1:
				backs = append(backs, exit{st: r.st})
			case -1:
				out = append(out, exit{st: r.st})
			default:
				s2 := r.st.clone()
				s2.assume1(Not(c))
				out = append(out, exit{st: s2})
				r.st.assume1(c)
				backs = append(backs, exit{st: r.st})
			}
		}
		backs = x.mergeExits(backs)
		for _, b := range backs {
			b.st.cells[posCell] = Add(i, Int(1))
			if x.growModset(headCopy, headLocs, b.st, ms) {
				grew = true
			}
		}
		if grew {
			ms.ver++
			x.Obls = x.Obls[:mark]
			continue
		}
		for _, b := range backs {
			x.candObligs(b.st, ctx, cs, "inv-pres", pos)
		}
		out = append(out, exit{st: ex})
		break
	}
	for i := range out {
		out[i].st.loops = outer
		delete(out[i].st.cells, posCell)
	}
	return x.mergeExits(out)
}

func (x *Exec) bodyName(f *FuncV) string {
	if f.Fn != nil {
		return f.Fn.Name()
	}
	return f.Kind
}

// ---- candidate generation ---------------------------------------------------

func (x *Exec) candidates(st *State, ctx *loopCtx, ms *modset) *candSet {
	cs := x.cands[ctx.key]
	if cs != nil && cs.ver == ms.ver {
		return cs
	}
	cs = &candSet{ver: ms.ver}
	x.cands[ctx.key] = cs
	if st.gmode > 0 {
		return cs
	}
	lv := x.outerLocs(st, ctx, nil)
	changed := func(l loc) bool { return len(ms.regs[l.key()]) > 0 }
	// --- automatic candidates
	var lens []locVal
	for _, e := range lv {
		if c, ok := e.l.v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && !changed(e.l) {
				lens = append(lens, e)
			}
		}
	}
	for _, id := range x.scanList() {
		sc := x.scanCells[id]
		if _, ok := st.cells[id]; ok {
			cs.list = append(cs.list, x.newCand(ctx.key, "scan position", false, func(st *State, _ *loopCtx) *Term {
				p := tm(st.cells[id])
				return And(Le(Int(0), p), Le(p, sc.avail))
			}))
		}
	}
	for id := range x.zeroCells {
		if _, ok := st.cells[id]; ok {
			cs.list = append(cs.list, x.newCand(ctx.key, fmt.Sprintf("phase %d", id), false, func(st *State, _ *loopCtx) *Term {
				return Eq(tm(st.cells[id]), Int(0))
			}))
		}
	}
	a0 := x.alloc0
	for _, e := range lv {
		l := e.l
		if !changed(l) {
			continue
		}
		switch v := e.v.(type) {
		case *Term:
			if l.kind == locCell && v.Op == "int" && strings.HasPrefix(cellNames[l.cell], "jump$") {
				// the state of an enclosing loop over a function
				lo := v
				cs.list = append(cs.list, x.newCand(ctx.key, l.name+"=="+v.String(), false, func(st *State, _ *loopCtx) *Term {
					w, ok := x.resolve(st, l)
					if !ok {
						unsupported("loc")
					}
					return Eq(lo, w.(*Term))
				}))
			}
			if v.Sort == SInt && l.kind == locReg && isHeaderPhi(l, ctx) && isIntType(l.v.Type()) {
				if v.Op == "int" {
					lo := v
					cs.list = append(cs.list, x.newCand(ctx.key, l.name+">="+v.String(), false, func(st *State, _ *loopCtx) *Term {
						w, ok := x.resolve(st, l)
						if !ok {
							unsupported("loc")
						}
						return Le(lo, w.(*Term))
					}))
				}
				if up := loopLimit(l, ctx); up != nil {
					start := v
					cs.list = append(cs.list, x.newCand(ctx.key, l.name+" within its limit", false, func(st *State, _ *loopCtx) *Term {
						a, ok1 := x.resolve(st, l)
						n, ok2 := up(x, st)
						if !ok1 || !ok2 {
							unsupported("loc")
						}
						in := Le(a.(*Term), n)
						if start.Op == "int" {
							in = Or(in, Eq(a.(*Term), start))
						}
						return in
					}))
				}
				for _, le := range lens {
					ll := le.l
					cs.list = append(cs.list, x.newCand(ctx.key, l.name+"<"+ll.name, false, func(st *State, _ *loopCtx) *Term {
						a, ok1 := x.resolve(st, l)
						b, ok2 := x.resolve(st, ll)
						if !ok1 || !ok2 {
							unsupported("loc")
						}
						return Lt(a.(*Term), b.(*Term))
					}))
				}
			}
		case *MapV:
			cs.list = append(cs.list, x.newCand(ctx.key, l.name+" fresh", false, func(st *State, _ *loopCtx) *Term {
				w, ok := x.resolve(st, l)
				if !ok {
					unsupported("loc")
				}
				return Le(a0, w.(*MapV).Ref)
			}))
			cs.list = append(cs.list, x.newCand(ctx.key, l.name+" non-nil", false, func(st *State, _ *loopCtx) *Term {
				w, ok := x.resolve(st, l)
				if !ok {
					unsupported("loc")
				}
				return Lt(Int(0), w.(*MapV).Ref)
			}))
		case *StructV:
			// fresh map fields
			for fi, fv := range v.F {
				if _, ok := fv.(*MapV); ok {
					i := fi
					cs.list = append(cs.list, x.newCand(ctx.key, fmt.Sprintf("%s.%d fresh", l.name, i), false, func(st *State, _ *loopCtx) *Term {
						w, ok := x.resolve(st, l)
						if !ok {
							unsupported("loc")
						}
						m := w.(*StructV).F[i].(*MapV)
						return Le(a0, m.Ref)
					}))
					cs.list = append(cs.list, x.newCand(ctx.key, fmt.Sprintf("%s.%d fresh or entry", l.name, i), false, func(st *State, c *loopCtx) *Term {
						w, ok := x.resolve(st, l)
						if !ok {
							unsupported("loc")
						}
						m := w.(*StructV).F[i].(*MapV)
						return Le(c.entryAll, m.Ref)
					}))
				}
			}
		}
	}
	// containers: refs nested inside maps are fresh and non-nil
	for _, e := range lv {
		l := e.l
		v, ok := e.v.(*MapV)
		if !ok || v.Snap != nil {
			continue
		}
		_, vk, _, _ := x.mapKeys(v.T)
		dk, _, _, _ := x.mapKeys(v.T)
		if ms.heaps[vk] == nil && ms.heaps[dk] == nil && !changed(l) {
			continue
		}
		x.nestedCands(cs, ctx, l, v.T)
	}
	// frames
	for _, k := range sortedKeys(ms.heaps) {
		k := k
		srt := ms.heaps[k]
		frame := func(name string, bound func(c *loopCtx) *Term, base func(c *loopCtx) *Term) {
			cs.list = append(cs.list, x.newCand(ctx.key, "frame "+name+" "+k, false, func(st *State, c *loopCtx) *Term {
				h := st.heap.get(k, srt)
				b := base(c)
				if h == b {
					return TTrue
				}
				r := BVarN("fr", SInt)
				return Forall([]*Term{r}, Imp(Lt(r, bound(c)), Eq(Select(h, r), Select(b, r))), []*Term{Select(h, r)})
			}))
		}
		frame("entry", func(c *loopCtx) *Term { return c.entryAll }, func(c *loopCtx) *Term { return c.entry.get(k, srt) })
		seen := map[*Term]bool{ctx.entryAll: true, a0: true}
		for i := len(st.frames) - 1; i > 0 && i >= len(st.frames)-3; i-- {
			if fa := st.frames[i].alloc; fa != nil && !seen[fa] {
				seen[fa] = true
				frame(fmt.Sprintf("call%d", i), func(c *loopCtx) *Term { return fa }, func(c *loopCtx) *Term { return c.entry.get(k, srt) })
			}
		}
		frame("initial", func(c *loopCtx) *Term { return a0 }, func(c *loopCtx) *Term { return x.heap0.get(k, srt) })
		if strings.HasPrefix(k, "D:") {
			cs.list = append(cs.list, x.newCand(ctx.key, "nil map empty "+k, false, func(st *State, c *loopCtx) *Term {
				h := st.heap.get(k, srt)
				return Eq(Select(h, Int(0)), ConstArr(srt.Elem, TFalse))
			}))
		}
	}
	// --- templates
	for _, t := range x.templs {
		x.bindTemplate(st, ctx, cs, t, lv)
	}
	return cs
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Exec) nestedCands(cs *candSet, ctx *loopCtx, l loc, mt *types.Map) {
	a0 := x.alloc0
	// direct refs in element
	refs := x.refPaths(mt.Elem())
	for _, rp := range refs {
		rp := rp
		cs.list = append(cs.list, x.newCand(ctx.key, l.name+"[*]"+rp.name+" fresh", false, func(st *State, _ *loopCtx) *Term {
			w, ok := x.resolve(st, l)
			if !ok {
				unsupported("loc")
			}
			m := w.(*MapV)
			bv := BVarN("ck", x.T.sortOf(mt.Key()))
			d, va := x.mapDom(st, m), x.mapVal(st, m)
			ref := rp.get(Select(va, bv))
			return Forall([]*Term{bv}, Imp(Select(d, bv), And(Le(a0, ref), Lt(ref, st.alloc))), []*Term{Select(d, bv)}, []*Term{Select(va, bv)})
		}))
		// pairwise distinct
		cs.list = append(cs.list, x.newCand(ctx.key, l.name+"[*]"+rp.name+" distinct", false, func(st *State, _ *loopCtx) *Term {
			w, ok := x.resolve(st, l)
			if !ok {
				unsupported("loc")
			}
			m := w.(*MapV)
			ks := x.T.sortOf(mt.Key())
			b1, b2 := BVarN("ca", ks), BVarN("cb", ks)
			d, va := x.mapDom(st, m), x.mapVal(st, m)
			r1, r2 := rp.get(Select(va, b1)), rp.get(Select(va, b2))
			if x.assuming > 0 {
				inv := ownName(r1, b1)
				return Forall([]*Term{b1}, Imp(And(Select(d, b1), Not(Eq(r1, Int(0)))), Eq(App(inv, ks, r1), b1)), []*Term{Select(va, b1)})
			}
			return Forall([]*Term{b1, b2}, Imp(And(Select(d, b1), Select(d, b2), Eq(r1, r2)), Or(Eq(b1, b2), Eq(r1, Int(0)))), []*Term{Select(va, b1), Select(va, b2)})
		}))
		// distinct from other live map registers of the same type is covered by templates
	}
	// one level deeper: refs inside the maps held as elements
	if em, ok := mt.Elem().Underlying().(*types.Map); ok {
		for _, rp := range x.refPaths(em.Elem()) {
			rp := rp
			cs.list = append(cs.list, x.newCand(ctx.key, l.name+"[*][*]"+rp.name+" fresh", false, func(st *State, _ *loopCtx) *Term {
				w, ok := x.resolve(st, l)
				if !ok {
					unsupported("loc")
				}
				m := w.(*MapV)
				b1 := BVarN("ca", x.T.sortOf(mt.Key()))
				b2 := BVarN("cb", x.T.sortOf(em.Key()))
				d, va := x.mapDom(st, m), x.mapVal(st, m)
				im := &MapV{T: em, Ref: Select(va, b1)}
				d2, v2 := x.mapDom(st, im), x.mapVal(st, im)
				ref := rp.get(Select(v2, b2))
				return Forall([]*Term{b1, b2}, Imp(And(Select(d, b1), Select(d2, b2)), And(Le(a0, ref), Lt(ref, st.alloc))), []*Term{Select(d2, b2)})
			}))
			cs.list = append(cs.list, x.newCand(ctx.key, l.name+"[*][*]"+rp.name+" distinct", false, func(st *State, _ *loopCtx) *Term {
				w, ok := x.resolve(st, l)
				if !ok {
					unsupported("loc")
				}
				m := w.(*MapV)
				k1, k2 := BVarN("ca", x.T.sortOf(mt.Key())), BVarN("cb", x.T.sortOf(mt.Key()))
				p1, p2 := BVarN("pa", x.T.sortOf(em.Key())), BVarN("pb", x.T.sortOf(em.Key()))
				d, va := x.mapDom(st, m), x.mapVal(st, m)
				m1, m2 := &MapV{T: em, Ref: Select(va, k1)}, &MapV{T: em, Ref: Select(va, k2)}
				d1, v1 := x.mapDom(st, m1), x.mapVal(st, m1)
				d2, v2 := x.mapDom(st, m2), x.mapVal(st, m2)
				r1, r2 := rp.get(Select(v1, p1)), rp.get(Select(v2, p2))
				if x.assuming > 0 {
					inv := ownName(r1, k1, p1)
					return Forall([]*Term{k1, p1}, Imp(And(Select(d, k1), Select(d1, p1), Not(Eq(r1, Int(0)))), And(Eq(App(inv+"k", k1.Sort, r1), k1), Eq(App(inv+"j", p1.Sort, r1), p1))), []*Term{Select(v1, p1)})
				}
				return Forall([]*Term{k1, k2, p1, p2}, Imp(And(Select(d, k1), Select(d, k2), Select(d1, p1), Select(d2, p2), Eq(r1, r2)), Or(And(Eq(k1, k2), Eq(p1, p2)), Eq(r1, Int(0)))), []*Term{Select(v1, p1), Select(v2, p2)})
			}))
		}
	}
}

type refPath struct {
	name string
	get  func(t *Term) *Term
}

// refPaths lists the map references directly embedded in a value of type t.
func (x *Exec) refPaths(t types.Type) []refPath {
	if isTime(t) || isError(t) {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Map:
		return []refPath{{"", func(t *Term) *Term { return t }}}
	case *types.Pointer:
		if x.T.heapType(u.Elem()) != nil {
			return []refPath{{"", func(t *Term) *Term { return t }}}
		}
	case *types.Struct:
		var out []refPath
		for i := 0; i < u.NumFields(); i++ {
			i := i
			for _, rp := range x.refPaths(u.Field(i).Type()) {
				rp := rp
				out = append(out, refPath{"." + u.Field(i).Name() + rp.name, func(t *Term) *Term { return rp.get(Acc(t, i)) }})
			}
		}
		return out
	}
	return nil
}

// typeArgs are the type arguments in the name of a loop.
var typeArgs = regexp.MustCompile(`\[[^\[\]]*\]`)

func (x *Exec) bindTemplate(st *State, ctx *loopCtx, cs *candSet, t *template, lv []locVal) {
	fn := t.fn
	if len(t.at) > 0 && x.hints != hintsOff {
		here := false
		loop := typeArgs.ReplaceAllString(ctx.key, "")
		for _, a := range t.at {
			here = here || strings.HasSuffix(loop, a)
		}
		if x.hints == hintsWhereUseful && !x.prior[t.name] {
			// it has held at none of its loops: try those that have none yet
			here = !x.prior[loop]
		}
		if !here {
			x.truncated = true
			return
		}
	}
	var choices [][]loc
	for _, p := range fn.Params {
		var ch []loc
		pt := p.Type()
		switch {
		case isNamed(pt, ghostPath, "Pos"):
			ch = x.posLocs(st, ctx)
		case isNamed(pt, ghostPath, "Outer"):
			for c := ctx.parent; c != nil; c = c.parent {
				ch = append(ch, x.posLocs(st, c)...)
			}
		case isNamed(pt, ghostPath, "Entry"):
			ch = []loc{{kind: locConst, c: &OpaqueV{Kind: "entry", Data: ctx}, name: "entry"}}
		case isGhostVisited(pt):
			ks := x.T.sortOf(visitedKey(pt))
			seen := map[int]bool{}
			for _, e := range lv {
				if it, ok := e.v.(*IterV); ok {
					if s, ok := st.cells[it.Cell].(*SetV); ok && s.K == ks && !seen[it.Cell] {
						seen[it.Cell] = true
						l := e.l
						l.isSet, l.iter = true, it.Cell
						ch = append(ch, l)
					}
				}
			}
			if ms := x.modsets[ctx.key]; ms != nil {
				var own []loc
				for _, l := range ch {
					if len(ms.regs[loc{kind: locCell, cell: l.iter}.key()]) > 0 {
						own = append(own, l)
					}
				}
				if len(own) > 0 {
					ch = own
				}
			}
		default:
			if g, ok := st.ghost[p.Name()]; ok && types.Identical(st.ghostT[p.Name()], pt) {
				ch = []loc{{kind: locConst, c: g, name: p.Name()}}
				break
			}
			ch = x.typeLocs(st, ctx, pt, lv)
		}
		if len(ch) == 0 {
			return
		}
		choices = append(choices, ch)
	}
	n := 1
	for i, c := range choices {
		x.rankLocs(ctx, fn.Params[i].Name(), c)
		c = x.distinctLocs(st, ctx, c)
		if x.maxBind <= 10 && len(c) > 1 {
			var named []loc
			for _, l := range c {
				if hasName(l.src, fn.Params[i].Name()) {
					named = append(named, l)
				}
			}
			if len(named) > 0 && len(named) < len(c) {
				c = named
				x.truncated = true
			}
		}
		choices[i] = c
		n *= len(c)
	}
	bind := x.maxBind
	if len(t.at) > 0 {
		bind *= 4 // meant for this loop
	}
	if n > bind {
		x.truncated = true
		if debug {
			fmt.Printf("template %s at %s: %d bindings, truncated\n", t.name, ctx.key, n)
		}
	}
	for _, idx := range combos(choices, bind) {
		var ls []loc
		var nm []string
		for i, c := range choices {
			ls = append(ls, c[idx[i]])
			if c[idx[i]].kind != locConst {
				nm = append(nm, fn.Params[i].Name()+"="+c[idx[i]].name)
			}
		}
		cs.list = append(cs.list, x.newCand(ctx.key, t.name+"("+strings.Join(nm, ",")+")", true, func(st *State, c *loopCtx) *Term {
			var args []Val
			for _, l := range ls {
				if o, ok := l.c.(*OpaqueV); ok && o.Kind == "entry" {
					args = append(args, &OpaqueV{Kind: "entry", Data: c})
					continue
				}
				v, ok := x.resolve(st, l)
				if !ok {
					unsupported("location %s not available", l.name)
				}
				args = append(args, v)
			}
			return x.evalTerm(st, &FuncV{Fn: fn, Sig: fn.Signature}, args)
		}))
	}
}

// combos enumerates index vectors, those with the best-ranked choices first.
func combos(choices [][]loc, limit int) [][]int {
	idx := make([]int, len(choices))
	var all [][]int
	for cnt := 0; cnt < 20000; cnt++ {
		all = append(all, append([]int{}, idx...))
		i := len(idx) - 1
		for i >= 0 {
			idx[i]++
			if idx[i] < len(choices[i]) {
				break
			}
			idx[i] = 0
			i--
		}
		if i < 0 {
			break
		}
	}
	cost := func(v []int) int {
		n := 0
		for i, k := range v {
			n += choices[i][k].rank
		}
		return n
	}
	sort.SliceStable(all, func(a, b int) bool { return cost(all[a]) < cost(all[b]) })
	if len(all) > limit {
		all = all[:limit]
	}
	return all
}

// rankLocs orders the candidates for a template parameter: variables of the
// same name first, then variables the loop changes, then the others.
func (x *Exec) rankLocs(ctx *loopCtx, name string, ls []loc) {
	ms := x.modsets[ctx.key]
	for i := range ls {
		l := &ls[i]
		l.rank = 2
		if ms != nil && len(ms.regs[l.key()]) > 0 {
			l.rank = 1
		}
		if l.kind == locCell && ms != nil {
			if len(ms.regs[loc{kind: locCell, cell: l.cell}.key()]) > 0 {
				l.rank = 1
			}
		}
		if l.kind == locConst || l.rank == 1 && hasName(l.src, name) {
			l.rank = 0
		} else if hasName(l.src, name) && l.rank == 2 {
			l.rank = 1
		}
		if l.plus != 0 && !l.idx {
			l.rank++
		}
	}
	sort.SliceStable(ls, func(a, b int) bool { return ls[a].rank < ls[b].rank })
}

// distinctLocs drops locations the loop leaves alone that hold the same value
// as an earlier one.
func (x *Exec) distinctLocs(st *State, ctx *loopCtx, ls []loc) []loc {
	ms := x.modsets[ctx.key]
	if ms == nil {
		return ls
	}
	fixed := func(l loc) bool {
		if l.kind == locConst || l.plus != 0 {
			return false
		}
		if len(ms.regs[l.key()]) > 0 {
			return false
		}
		return !(l.kind == locCell && len(ms.regs[loc{kind: locCell, cell: l.cell}.key()]) > 0)
	}
	var out []loc
	var vals []Val
	for _, l := range ls {
		v, ok := x.resolve(st, l)
		if !ok || !fixed(l) {
			out, vals = append(out, l), append(vals, nil)
			continue
		}
		if s, ok := v.(*SliceV); ok && s.Arr != nil {
			n := *s
			n.Tok = 0
			v = &n
		}
		dup := false
		for _, w := range vals {
			if w != nil && sameVal(v, w) {
				dup = true
				break
			}
		}
		if !dup {
			out, vals = append(out, l), append(vals, v)
		}
	}
	return out
}

// hasName: is name among the source names in src?
func hasName(src, name string) bool { return strings.Contains(src, "|"+name+"|") }

// srcName gives the source variables a value is known by, as "|a|b|".
func (x *Exec) srcName(v ssa.Value) string {
	s := "|"
	switch u := v.(type) {
	case *ssa.Phi:
		s += u.Comment + "|"
	case *ssa.Alloc:
		s += u.Comment + "|"
	case *ssa.Parameter, *ssa.FreeVar:
		s += u.Name() + "|"
	}
	if fn := v.Parent(); fn != nil {
		for _, n := range x.debugNames(fn)[v] {
			if !hasName(s, n) {
				s += n + "|"
			}
		}
	}
	return s
}

func (x *Exec) debugNames(fn *ssa.Function) map[ssa.Value][]string {
	if m, ok := x.srcNames[fn]; ok {
		return m
	}
	m := map[ssa.Value][]string{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok {
				if id, ok := d.Expr.(*ast.Ident); ok {
					m[d.X] = append(m[d.X], id.Name)
				}
			}
		}
	}
	if x.srcNames == nil {
		x.srcNames = map[*ssa.Function]map[ssa.Value][]string{}
	}
	x.srcNames[fn] = m
	return m
}

func isGhostVisited(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == ghostPath && n.Obj().Name() == "Visited"
}

func visitedKey(t types.Type) types.Type {
	return types.Unalias(t).(*types.Named).TypeArgs().At(0)
}

// positions of a loop
func (x *Exec) posLocs(st *State, c *loopCtx) []loc {
	if c.header == nil {
		return []loc{{kind: locCell, cell: c.posCell, name: "pos"}}
	}
	var out []loc
	for _, id := range x.scanList() {
		if _, ok := st.cells[id]; ok {
			out = append(out, loc{kind: locCell, cell: id, name: "scan"})
		}
	}
	for _, in := range c.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if isIntType(phi.Type()) {
			if v, ok := st.frames[c.frame].regs[phi]; ok {
				if _, ok := v.(*Term); ok {
					if phi.Comment != "rangeindex" {
						out = append(out, loc{kind: locReg, frame: c.frame, v: phi, name: phi.Name()})
					}
					out = append(out, loc{kind: locReg, frame: c.frame, v: phi, plus: 1, idx: phi.Comment == "rangeindex", name: phi.Name() + "+1"})
				}
			}
		}
	}
	return out
}

func (x *Exec) typeLocs(st *State, ctx *loopCtx, t types.Type, lv []locVal) []loc {
	var out []loc
	var vals []Val
	add := func(l loc, v Val, constant bool) {
		for i, w := range vals {
			if sameVal(v, w) {
				// keep both unless both are loop-invariant copies
				if constant && out[i].kind == locReg && l.kind == locReg {
					// the value by its most local name: a merge of values, or
					// one of the frame nearest to the loop
					_, phi := l.v.(*ssa.Phi)
					if l.frame > out[i].frame || phi && l.frame == out[i].frame {
						l.src += out[i].src
						out[i] = l
					} else {
						out[i].src += l.src
					}
					return
				}
				if out[i].key() == l.key() {
					return
				}
			}
		}
		out = append(out, l)
		vals = append(vals, v)
	}
	for _, e := range lv {
		if e.l.kind == locReg {
			e.l.src = x.srcName(e.l.v)
			if types.Identical(e.l.v.Type(), t) {
				add(e.l, e.v, !isHeaderPhi(e.l, ctx))
			}
			if pt, ok := e.l.v.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
				if p, ok := e.v.(*PtrV); ok && p.Cell > 0 {
					if cv, ok := st.cells[p.Cell]; ok {
						if _, ok := tryPath(x, cv, p.Path); ok {
							add(loc{kind: locCell, cell: p.Cell, path: p.Path, name: "*" + e.l.name, src: e.l.src}, cv, false)
						}
					}
				}
			}
		}
	}
	// free variables of frames
	for _, f := range st.frames {
		for i, fv := range f.fn.FreeVars {
			if i >= len(f.binds) {
				continue
			}
			b := f.binds[i]
			if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
				if p, ok := b.(*PtrV); ok && p.Cell > 0 {
					if cv, ok := st.cells[p.Cell]; ok {
						if _, ok := tryPath(x, cv, p.Path); ok {
							add(loc{kind: locCell, cell: p.Cell, path: p.Path, name: "*" + fv.Name(), src: "|" + fv.Name() + "|"}, cv, false)
						}
					}
				}
			}
			if types.Identical(fv.Type(), t) {
				add(loc{kind: locConst, c: b, name: fv.Name()}, b, true)
			}
		}
	}
	// body closure of a synthetic loop
	if ctx.bodyFn != nil && ctx.bodyFn.Fn != nil {
		for i, fv := range ctx.bodyFn.Fn.FreeVars {
			if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
				if p, ok := ctx.bodyFn.Bind[i].(*PtrV); ok && p.Cell > 0 {
					if cv, ok := st.cells[p.Cell]; ok {
						add(loc{kind: locCell, cell: p.Cell, path: p.Path, name: "*" + fv.Name(), src: "|" + fv.Name() + "|"}, cv, false)
					}
				}
			}
		}
	}
	return out
}

func tryPath(x *Exec, v Val, p []PathEl) (r Val, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			ok = false
		}
	}()
	return x.pathGet(v, p), true
}

func (x *Exec) scanList() []int {
	var sc []int
	for id := range x.scanCells {
		sc = append(sc, id)
	}
	sort.Ints(sc)
	return sc
}
