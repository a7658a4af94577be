package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ghostCall gives the vocabulary of zzghost its logical meaning.
func (x *Exec) ghostCall(st *State, fn *ssa.Function, short string, args []Val, pos token.Pos) []exit {
	name := fn.Name()
	if o := fn.Origin(); o != nil {
		name = o.Name()
	}
	switch name {
	case "Requires":
		c := tm(args[1])
		if x.applying && mentionsGhost(c) {
			return one(st)
		}
		if x.applying {
			g := st.gmode
			st.gmode = x.applyG
			x.oblig(st, "lemma-pre", x.lemmaName+": "+litStr(args[0]), c, pos)
			st.gmode = g
			if x.noFacts {
				return one(st)
			}
		}
		if !x.applying && x.reqLeft > 0 {
			if x.reqLeft--; x.reqLeft == 0 && x.assuming > 0 {
				x.assuming = 0
			}
		}
		st.assume(c)
		return one(st)
	case "Ensures":
		c := tm(args[1])
		if x.applying && (x.noFacts || mentionsGhost(c)) {
			return one(st)
		}
		if st.gmode > 0 && !x.applying {
			unsupported("Ensures inside a specification function")
		}
		if !x.applying {
			x.oblig(st, "ensures", litStr(args[0]), c, pos)
			if st.gmode == 0 && x.scout == 0 {
				x.nEnsures++
				x.lastEns = append(x.lastEns, st.pc[:len(st.pc):len(st.pc)])
			}
		}
		st.assume(c)
		return one(st)
	case "Bind":
		// a value invariants can ask for by name
		g, gt := map[string]Val{}, map[string]types.Type{}
		for k, v := range st.ghost {
			g[k], gt[k] = v, st.ghostT[k]
		}
		g[litStr(args[0])], gt[litStr(args[0])] = args[1], fn.Signature.Params().At(1).Type()
		st.ghost, st.ghostT = g, gt
		return one(st)
	case "Proving":
		return one(st, Bool(x.curLemma != nil && !x.applying))
	case "AllInt", "AnyInt":
		return one(st, x.quantInt(st, name == "AnyInt", tm(args[0]), tm(args[1]), args[2]))
	case "AllString":
		k := BVar("s", SStr)
		s := st.clone()
		body := x.evalTerm(s, args[0], []Val{k})
		return one(st, Forall([]*Term{k}, body, pats(k, body)...))
	case "AllKeys", "AnyKey":
		m := args[0].(*MapV)
		dom := x.mapDom(st, m)
		return one(st, x.quantSet(st, name == "AnyKey", dom, m.T.Key(), args[1]))
	case "AllVisited":
		s := args[0].(*SetV)
		return one(st, x.quantSet(st, false, s.Set, visitedKey(fn.Params[0].Type()), args[1]))
	case "MinKeys", "MaxKeys", "MinVisited", "MaxVisited":
		var set *Term
		var kt types.Type
		if m, ok := args[0].(*MapV); ok {
			set, kt = x.mapDom(st, m), m.T.Key()
		} else {
			set, kt = args[0].(*SetV).Set, visitedKey(fn.Params[0].Type())
		}
		k := BVar("k", x.T.sortOf(kt))
		body := x.evalTerm(st, args[2], []Val{x.T.fromTerm(k, kt, nil)})
		ck := BVarN("fk_"+cleanName(k.Sort.Name), k.Sort)
		body = Subst(body, map[*Term]*Term{k: ck})
		return one(st, GFold(strings.ToLower(name[:3]), set, ck, body, tm(args[1])))
	case "Distinct":
		// the number of distinct keys f yields on the i < n with p(i)
		n := tm(args[0])
		i := BVar("i", SInt)
		in := And(Le(Int(0), i), Lt(i, n))
		s := st.clone()
		p := x.evalTerm(s, args[1], []Val{i})
		f := x.evalTerm(s, args[2], []Val{i})
		set := Fresh("distinct", SArr(f.Sort, SBool))
		k := BVar("k", f.Sort)
		ps := pats(i, And(p, Eq(f, f)))
		for _, q := range pats(i, f) {
			ps = append(ps, q)
		}
		st.assume(Forall([]*Term{i}, Imp(And(in, p), Select(set, f)), ps...))
		st.assume(Forall([]*Term{k}, Or(Not(Select(set, k)), Not(Forall([]*Term{i}, Not(And(in, p, Eq(f, k))), ps...))), []*Term{Select(set, k)}))
		return one(st, Card(set))
	case "SumKeys", "SumVisited", "SomeKey", "SomeVisited":
		var set *Term
		var kt types.Type
		if m, ok := args[0].(*MapV); ok {
			set, kt = x.mapDom(st, m), m.T.Key()
		} else {
			set, kt = args[0].(*SetV).Set, visitedKey(fn.Params[0].Type())
		}
		k := BVar("k", x.T.sortOf(kt))
		body := x.evalTerm(st, args[1], []Val{x.T.fromTerm(k, kt, nil)})
		ck := BVarN("fk_"+cleanName(k.Sort.Name), k.Sort)
		body = Subst(body, map[*Term]*Term{k: ck})
		if strings.HasPrefix(name, "Some") {
			return one(st, GFold("any", set, ck, body, TFalse))
		}
		return one(st, GFold("sum", set, ck, body, Int(0)))
	case "Has":
		switch s := args[0].(type) {
		case *SetV:
			return one(st, Select(s.Set, x.T.toTerm(args[1], visitedKey(fn.Signature.Recv().Type()))))
		case *MapV:
			return one(st, Select(x.mapDom(st, s), x.T.toTerm(args[1], s.T.Key())))
		}
	case "Snap":
		m := *args[0].(*MapV)
		if m.Snap == nil {
			m.Snap = st.heap.clone()
		}
		return one(st, &m)
	case "AtEntry":
		ctx := args[0].(*OpaqueV).Data.(*loopCtx)
		m := *args[1].(*MapV)
		m.Snap = ctx.entry
		return one(st, &m)
	case "Now":
		m := *args[0].(*MapV)
		m.Snap = nil
		return one(st, &m)
	case "Clone":
		n := *args[0].(*SliceV)
		n.Tok = newTok()
		return one(st, &n)
	case "Count":
		s := args[0].(*SliceV)
		return one(st, CountT(s.Arr, s.Off, s.Len, x.T.toTerm(args[1], s.Elem)))
	case "Imp":
		p := tm(args[0])
		switch st.decide(p) {
		case -1:
			return one(st, TTrue)
		}
		s := st.clone()
		s.assume1(p)
		return one(st, Imp(p, x.evalTerm(s, args[1], nil)))
	case "Old":
		return one(st, Lt(args[1].(*MapV).Ref, args[0].(*OpaqueV).Data.(*loopCtx).entryAll))
	case "OnlyChanged":
		m := args[1].(*MapV)
		c := args[0].(*OpaqueV).Data.(*loopCtx)
		dk, vk, ds, vs := x.mapKeys(m.T)
		out := TTrue
		for i, k := range []string{dk, vk} {
			h, b := st.heap.get(k, []*Sort{ds, vs}[i]), c.entry.get(k, []*Sort{ds, vs}[i])
			if h != b {
				r := BVarN("fr", SInt)
				out = And(out, Forall([]*Term{r}, Or(Eq(r, m.Ref), Le(c.entryAll, r), Eq(Select(h, r), Select(b, r))), []*Term{Select(h, r)}))
			}
		}
		return one(st, out)
	case "Fresh":
		return one(st, Le(x.alloc0, args[0].(*MapV).Ref))
	case "Same":
		return one(st, Eq(args[0].(*MapV).Ref, args[1].(*MapV).Ref))
	case "Eq":
		return one(st, x.deepEq(args[0], args[1], fn.Signature.Params().At(0).Type()))
	case "Identical":
		t := fn.Signature.Params().At(0).Type()
		return one(st, Eq(x.T.toTerm(args[0], t), x.T.toTerm(args[1], t)))
	case "Allocated":
		r := args[0].(*MapV).Ref
		return one(st, And(Lt(Int(0), r), Lt(r, st.alloc)))
	case "Owned":
		m := args[0].(*MapV)
		kt := m.T.Key()
		k := BVar("k", x.T.sortOf(kt))
		return one(st, x.owned(st, m, []*Term{k}, func(v Val) Val { return v }))
	case "OwnedBy":
		m := args[0].(*MapV)
		k := BVar("k", x.T.sortOf(m.T.Key()))
		return one(st, x.owned(st, m, []*Term{k}, func(v Val) Val { return x.evalPure(st, args[1], []Val{v}) }))
	case "OwnedBy2":
		m := args[0].(*MapV)
		return one(st, x.owned2(st, m, func(v Val) Val { return x.evalPure(st, args[1], []Val{v}) }))
	case "CmdArgs":
		o, ok := args[0].(*OpaqueV)
		if !ok || o.Kind != "cmd" {
			unsupported("CmdArgs of an unknown command (%T)", args[0])
		}
		return one(st, o.Data.(*procState).Args)
	case "Git", "GitLines":
		o := *args[0].(*SliceV)
		o.Tok = newTok()
		st.cells[gitCell("out")] = &o
		st.cells[gitCell("fail")] = tm(args[1])
		return one(st)
	case "StoredJSON", "StoredFrames":
		return one(st, x.setStore(st, args))
	case "NewJSON":
		return one(st, x.newStore(st, fn.TypeArgs()[0]))
	case "NewFrames":
		return one(st, x.newStore(st, types.NewSlice(fn.TypeArgs()[0])))
	case "AddedJSON", "AddedFrames":
		el := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		t, ok := st.cells[gitCell("written")].(*TraceV)
		if !ok {
			unsupported("no file was named")
		}
		return one(st, &SliceV{Elem: el, Arr: t.Arr, Off: Int(0), Len: t.Len, Tok: newTok()})
	case "FileLines":
		o := *args[0].(*SliceV)
		o.Tok = newTok()
		st.cells[gitCell("file")] = &o
		p := Fresh("filepath", SStr)
		st.assume(Lt(Int(0), StrLen(p)))
		st.cells[gitCell("path")] = p
		return one(st, p)
	case "GitText":
		st.cells[gitCell("text")] = tm(args[0])
		st.cells[gitCell("fail")] = tm(args[1])
		return one(st)
	case "GitArgs":
		if o, ok := st.cells[gitCell("args")]; ok {
			return one(st, o)
		}
		unsupported("GitArgs before any command")
	case "GitInput":
		t, ok := st.cells[gitCell("stdin")].(*TraceV)
		if !ok {
			t = &TraceV{Arr: Sym("stdin0", SArr(SInt, SStr)), Len: Int(0)}
		}
		return one(st, &SliceV{Elem: types.Typ[types.String], Arr: t.Arr, Off: Int(0), Len: t.Len, Tok: newTok()})
	case "Delivered":
		t := st.cells[gitCell("delivered")].(*TraceV)
		return one(st, &SliceV{Elem: types.Universe.Lookup("error").Type(), Arr: t.Arr, Off: Int(0), Len: t.Len, Tok: newTok()})
	case "SpawnFailed":
		return one(st, x.flag(st, "spawnfailed"))
	case "CaptureLines":
		st.cells[linesCell()] = Int(0)
		st.cells[textCell()] = &TraceV{Arr: Sym("text0", SArr(SInt, SStr)), Len: Int(0)}
		st.cells[partCell()] = Str("")
		return one(st)
	case "Printed":
		if t, ok := st.cells[textCell()].(*TraceV); ok {
			return one(st, &SliceV{Elem: types.Typ[types.String], Arr: t.Arr, Off: Int(0), Len: t.Len, Tok: newTok()})
		}
		unsupported("Printed without CaptureLines")
	case "AtCall":
		av := args[1]
		if i, ok := av.(*IfaceV); ok {
			av = i.V
		}
		f, ok := av.(*FuncV)
		if !ok {
			unsupported("AtCall with an unknown function")
		}
		x.atCall[litStr(args[0])] = f
		return one(st)
	case "CaptureCalls":
		x.captureCalls(st, litStr(args[0]))
		return one(st)
	case "Calls":
		t, ok := st.cells[callCell(litStr(args[0]), litStr(args[1]))].(*TraceV)
		if !ok {
			unsupported("Calls of %s(%s), which is not watched", litStr(args[0]), litStr(args[1]))
		}
		el := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		return one(st, &SliceV{Elem: el, Arr: t.Arr, Off: Int(0), Len: t.Len, Tok: newTok()})
	case "LinesPrinted":
		if t, ok := st.cells[linesCell()]; ok {
			return one(st, t)
		}
		unsupported("LinesPrinted without CaptureLines")
	case "FakeGit", "Reap", "CaptureRows":
		return one(st)
	case "Failed":
		return one(st, x.flag(st, "failed"))
	case "In":
		s := args[0].(*SliceV)
		c := x.newChan(st, s.Elem, st.top().path+"!in")
		x.chanInfo[c.ID].env = true
		es := s.Arr
		if s.Off.Op != "int" || s.Off.N.Sign() != 0 {
			unsupported("ghost.In of a subslice")
		}
		st.cells[c.ID] = &ChanState{Elem: s.Elem, NSent: s.Len, Sent: es, NRecv: Int(0), Closed: TFalse}
		return one(st, c)
	case "Out":
		elem := fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem()
		c := x.newChan(st, elem, st.top().path+"!out"+fmt.Sprint(len(x.chanOrder)))
		x.chanInfo[c.ID].out = true
		return one(st, c)
	case "Sent":
		_, cs, _ := x.chanState(st, args[0])
		return one(st, &SliceV{Elem: cs.Elem, Arr: cs.Sent, Off: Int(0), Len: cs.NSent, Tok: newTok()})
	case "Symbolic":
		return one(st, TTrue)
	case "Spawned":
		if v, ok := st.cells[spawnCell(litStr(args[0]), -1)]; ok {
			return one(st, v)
		}
		unsupported("Spawned(%s) without a spawned directive", litStr(args[0]))
	case "Passed":
		if v, ok := st.cells[spawnCell(litStr(args[0]), int(tm(args[1]).N.Int64()))]; ok {
			return one(st, v)
		}
		return one(st, x.T.zero(fn.Signature.Results().At(0).Type()))
	case "Chan":
		// the n-th channel of this type that the code made
		elem := fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem()
		n := tm(args[0]).N.Int64()
		for _, id := range x.chanOrder {
			ci := x.chanInfo[id]
			if _, live := st.cells[id]; live && !ci.done && types.Identical(ci.elem, elem) {
				if n--; n < 0 {
					return one(st, &ChanV{ID: id, Elem: elem})
				}
			}
		}
		unsupported("no such channel")
	case "Received":
		_, cs, _ := x.chanState(st, args[0])
		return one(st, cs.NRecv)
	case "Closed":
		_, cs, _ := x.chanState(st, args[0])
		return one(st, cs.Closed)
	case "Rows":
		t, ok := st.cells[rowsCell()].(*TraceV)
		el := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		if !ok {
			t = &TraceV{Arr: Sym("rows0", SArr(SInt, x.T.sortOf(el))), Len: Int(0)}
		}
		return one(st, &SliceV{Elem: el, Arr: t.Arr, Off: Int(0), Len: t.Len, Tok: newTok()})
	}
	unsupported("ghost function %s", name)
	return nil
}

func litStr(v Val) string {
	if t, ok := v.(*Term); ok && t.Op == "str" {
		return t.Name
	}
	return "?"
}

func (x *Exec) quantInt(st *State, any bool, lo, hi *Term, f Val) *Term {
	if lo.Op == "int" && hi.Op == "int" {
		d := Sub(hi, lo)
		if d.N.IsInt64() && d.N.Int64() <= 16 {
			var ts []*Term
			for i := int64(0); i < d.N.Int64(); i++ {
				ts = append(ts, x.evalTerm(st, f, []Val{Add(lo, Int(i))}))
			}
			if any {
				return Or(ts...)
			}
			return And(ts...)
		}
	}
	i := BVar("i", SInt)
	in := And(Le(lo, i), Lt(i, hi))
	s := st.clone()
	body := x.evalTerm(s, f, []Val{i})
	if any {
		return Not(Forall([]*Term{i}, Imp(in, Not(body)), pats(i, body)...))
	}
	return Forall([]*Term{i}, Imp(in, body), pats(i, body)...)
}

func (x *Exec) quantSet(st *State, any bool, set *Term, kt types.Type, f Val) *Term {
	k := BVar("k", x.T.sortOf(kt))
	in := Select(set, k)
	body := x.evalTerm(st, f, []Val{x.T.fromTerm(k, kt, nil)})
	if in.Op == "select" {
		body = Subst(body, map[*Term]*Term{in: TTrue})
	}
	ps := append([][]*Term{{in}}, pats(k, body)...)
	if in.fv == false {
		ps = pats(k, body)
	}
	if any {
		return Not(Forall([]*Term{k}, Imp(in, Not(body)), ps...))
	}
	return Forall([]*Term{k}, Imp(in, body), ps...)
}

// pats: trigger terms: selects indexed exactly by the bound variable (or
// applications to it), each as an alternative pattern.
func pats(i, body *Term) [][]*Term {
	var out [][]*Term
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.fv || seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == "select" && t.Args[1] == i && !t.Args[0].fv && !hasIte(t.Args[0]) {
			out = append(out, []*Term{t})
		}
		if t.Op == "app" {
			ok := false
			for _, a := range t.Args {
				if a == i {
					ok = true
				} else if a.fv {
					ok = false
					break
				}
			}
			if ok {
				out = append(out, []*Term{t})
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(body)
	if len(out) == 0 {
		// selects at an offset from the variable, or from an array an outer
		// variable selects
		seen = map[int]bool{}
		var sec func(t *Term)
		sec = func(t *Term) {
			if !t.fv || seen[t.ID] {
				return
			}
			seen[t.ID] = true
			if t.Op == "select" && sumOf(i, t.Args[1]) && !hasIte(t.Args[0]) && !nestedVar(t) {
				out = append(out, []*Term{t})
			}
			for _, a := range t.Args {
				sec(a)
			}
		}
		sec(body)
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

// t is i, or i plus something
func sumOf(i, t *Term) bool {
	if t.Op == "+" {
		for _, a := range t.Args {
			if a == i {
				return true
			}
		}
	}
	return t == i
}

// t mentions a variable bound by a quantifier built already
func nestedVar(t *Term) bool {
	if !t.fv {
		return false
	}
	if t.Op == "bv" {
		return len(t.Name) > 2 && t.Name[0] == 'q' && t.Name[1] >= '0' && t.Name[1] <= '9'
	}
	for _, a := range t.Args {
		if nestedVar(a) {
			return true
		}
	}
	return false
}

func hasIte(t *Term) bool { return t.Op == "ite" || t.Op == "store" }

// owned: distinct entries hold distinct, non-nil, allocated maps. Where the
// fact is assumed, an inverse (map to key) that exists by distinctness is named
// instead of comparing entries pairwise.
func (x *Exec) owned(st *State, m *MapV, ks []*Term, f func(Val) Val) *Term {
	dom, val := x.mapDom(st, m), x.mapVal(st, m)
	at := func(k *Term) *Term {
		r, ok := f(x.T.fromTerm(Select(val, k), m.T.Elem(), m.Snap)).(*MapV)
		if !ok {
			unsupported("Owned of a map without inner maps")
		}
		return r.Ref
	}
	k := ks[0]
	r := at(k)
	body := And(Lt(Int(0), r), Lt(r, st.alloc))
	pats := [][]*Term{{Select(dom, k)}, {Select(val, k)}}
	if x.assuming > 0 {
		inv := ownName(r, k)
		return Forall([]*Term{k}, Imp(Select(dom, k), And(body, Eq(App(inv, k.Sort, r), k))), pats...)
	}
	k2 := BVar("k", k.Sort)
	return And(Forall([]*Term{k}, Imp(Select(dom, k), body), pats...),
		Forall([]*Term{k, k2}, Imp(And(Select(dom, k), Select(dom, k2), Eq(r, at(k2))), Eq(k, k2)), []*Term{Select(val, k), Select(val, k2)}))
}

// ownName names the inverse of the map from keys to references r.
func ownName(r *Term, ks ...*Term) string {
	m := map[*Term]*Term{}
	for i, k := range ks {
		m[k] = BVarN(fmt.Sprintf("own%d", i), k.Sort)
	}
	return fmt.Sprintf("own!%d", Subst(r, m).ID)
}

// owned2: the maps in the entries of the inner maps of m are distinct.
func (x *Exec) owned2(st *State, m *MapV, f func(Val) Val) *Term {
	in, ok := m.T.Elem().Underlying().(*types.Map)
	if !ok {
		unsupported("OwnedBy2 of %s", m.T)
	}
	dom, val := x.mapDom(st, m), x.mapVal(st, m)
	type ent struct {
		k, j, in, ref, iref *Term
		pats                [][]*Term
	}
	at := func() ent {
		k, j := BVar("k", x.T.sortOf(m.T.Key())), BVar("j", x.T.sortOf(in.Key()))
		im := &MapV{T: in, Ref: Select(val, k), Snap: m.Snap}
		idom, ival := x.mapDom(st, im), x.mapVal(st, im)
		v := x.T.fromTerm(Select(ival, j), in.Elem(), m.Snap)
		r, ok := f(v).(*MapV)
		if !ok {
			unsupported("OwnedBy2 of a map without inner maps")
		}
		return ent{k, j, And(Select(dom, k), Select(idom, j)), r.Ref, im.Ref, [][]*Term{{Select(idom, j)}, {Select(ival, j)}}}
	}
	a := at()
	body := And(Lt(Int(0), a.ref), Lt(a.ref, st.alloc))
	if x.assuming > 0 {
		n := ownName(a.ref, a.k, a.j)
		return Forall([]*Term{a.k, a.j}, Imp(a.in, And(body, Eq(App(n+"k", a.k.Sort, a.ref), a.k), Eq(App(n+"j", a.j.Sort, a.ref), a.j))), a.pats...)
	}
	b := at()
	return And(Forall([]*Term{a.k, a.j}, Imp(a.in, body), a.pats...),
		Forall([]*Term{a.k, a.j, b.k, b.j}, Imp(And(a.in, b.in, Eq(a.ref, b.ref)), And(Eq(a.k, b.k), Eq(a.j, b.j))), append(append([]*Term{}, a.pats[1]...), b.pats[1]...)))
}

var _ = strings.Contains

// deepEq: equal values, slices compared by their elements.
func (x *Exec) deepEq(a, b Val, t types.Type) *Term {
	if x.T.termable(t) {
		ta, tb := x.T.toTerm(a, t), x.T.toTerm(b, t)
		if ta == tb {
			return TTrue
		}
	}
	switch va := a.(type) {
	case *Term:
		if vb, ok := b.(*Term); ok {
			return Eq(va, vb)
		}
	case *StructV:
		vb, ok := b.(*StructV)
		if !ok {
			break
		}
		r := TTrue
		u := t.Underlying().(*types.Struct)
		for i := range va.F {
			r = And(r, x.deepEq(va.F[i], vb.F[i], u.Field(i).Type()))
		}
		return r
	case *SliceV:
		vb, ok := b.(*SliceV)
		if !ok || va.Arr == nil || vb.Arr == nil {
			break
		}
		i := BVar("i", SInt)
		ea, eb := Select(va.Arr, Add(va.Off, i)), Select(vb.Arr, Add(vb.Off, i))
		el := x.deepEq(x.T.fromTerm(ea, va.Elem, nil), x.T.fromTerm(eb, va.Elem, nil), va.Elem)
		return And(Eq(va.Len, vb.Len), Or(And(Eq(va.Arr, vb.Arr), Eq(va.Off, vb.Off)),
			Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, va.Len)), el), []*Term{ea}, []*Term{eb})))
	}
	unsupported("ghost.Eq of %s", t)
	return nil
}
