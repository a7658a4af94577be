package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"path"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Intrinsics: trusted contracts of library functions. Every one used in a
// proof is listed in the evidence.

type intrin func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit

var intrinsics map[string]intrin

type ifaceMethod func(x *Exec, st *State, recv *Term, sig *types.Signature, args []Val, pos token.Pos) []exit
type opaqueMethod func(x *Exec, st *State, recv *OpaqueV, args []Val, pos token.Pos) []exit

var ifaceMethods = map[string]ifaceMethod{}
var opaqueMethods = map[string]opaqueMethod{}

func tm(v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		unsupported("expected a scalar, got %T", v)
	}
	return t
}

func constStr(c *ssa.Const) string {
	v, _ := strconv.Unquote(c.Value.ExactString())
	return v
}

// pure makes an intrinsic from a function on terms.
func pure(f func(a []*Term) *Term) intrin {
	return func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
		ts := make([]*Term, len(args))
		for i, a := range args {
			ts[i] = tm(a)
		}
		return one(st, f(ts))
	}
}

func noop(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
	var out []Val
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		out = append(out, x.T.zero(rs.At(i).Type()))
	}
	return one(st, out...)
}

// external: any result of the right type, or an error (noted as a failure).
func external(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
	var out []Val
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		v := x.T.sym("ext_"+cleanName(fn.Name()), t)
		for _, f := range x.T.facts(v, t, st.alloc) {
			st.assume(f)
		}
		if isError(t) {
			st.assume(Le(Int(0), v.(*Term)))
			x.noteFlag(st, "failed", Not(Eq(v.(*Term), Int(0))))
		}
		out = append(out, v)
	}
	return one(st, out...)
}

func (x *Exec) freshErr(st *State) *Term {
	e := Fresh("err", SInt)
	st.assume(Lt(Int(0), e))
	return e
}

var billion = Int(1000000000)

func mkReal(op string, s *Sort, a ...*Term) *Term { return mk(&Term{Op: op, Args: a, Sort: s}) }

func (x *Exec) loadP(st *State, p Val, pos token.Pos) *Term { return tm(x.load(st, p, pos)) }

// builder pointer -> current text
func (x *Exec) builderAppend(st *State, p Val, s *Term, pos token.Pos) {
	x.store(st, p, Concat(x.loadP(st, p, pos), s), pos)
}

// keysSlice: the keys of a map in an arbitrary order.
func (x *Exec) keysSlice(st *State, m *MapV) *SliceV {
	dom := x.mapDom(st, m)
	ks := x.T.sortOf(m.T.Key())
	arr := Fresh("keys", SArr(SInt, ks))
	n := Card(dom)
	st.assume(Le(Int(0), n))
	i, k := BVar("i", SInt), BVar("k", ks)
	inr := And(Le(Int(0), i), Lt(i, n))
	idx := func(k *Term) *Term { return App("keyidx_"+cleanName(arr.Name), SInt, k) }
	el := Select(arr, i)
	st.assume(Forall([]*Term{i}, Imp(inr, And(Select(dom, el), Eq(idx(el), i))), []*Term{el}))
	st.assume(Forall([]*Term{k}, Imp(Select(dom, k), And(Le(Int(0), idx(k)), Lt(idx(k), n), Eq(Select(arr, idx(k)), k))), []*Term{Select(dom, k)}, []*Term{idx(k)}))
	return &SliceV{Elem: m.T.Key(), Arr: arr, Off: Int(0), Len: n, Tok: newTok()}
}

// toSlice: the finite sequence behind an iterator value.
func (x *Exec) seqSlice(st *State, f *FuncV) *SliceV {
	switch f.Kind {
	case "seq":
		return f.Data.(*SliceV)
	case "keys":
		return x.keysSlice(st, f.Data.(*MapV))
	}
	if f.Cond != nil {
		a, b := x.seqSlice(st, f.A), x.seqSlice(st, f.B)
		if a != nil && b != nil && a.Arr != nil && b.Arr != nil {
			if m, ok := x.T.merge(f.Cond, a, b); ok {
				return m.(*SliceV)
			}
		}
	}
	return nil
}

func CountT(arr, off, n, v *Term) *Term { return App("count", SInt, arr, off, n, v) }

// the constant added in a sum
func constPart(n *Term) int64 {
	for _, a := range n.Args {
		if a.Op == "int" {
			return a.N.Int64()
		}
	}
	return 0
}

func init() {
	unfolders["strjoin"] = func(t *Term) (out []*Term) {
		arr, off, n, sep := t.Args[0], t.Args[1], t.Args[2], t.Args[3]
		p := Sub(n, Int(1))
		last := Select(arr, Add(off, p))
		out = append(out, Imp(Le(n, Int(0)), Eq(t, Str(""))), Imp(Eq(n, Int(1)), Eq(t, Select(arr, off))))
		if n.Op != "int" || n.N.Sign() > 0 {
			out = append(out, Imp(Lt(Int(1), n), Eq(t, Concat(Concat(App("strjoin", SStr, arr, off, p, sep), sep), last))))
		}
		return
	}
	unfolders["count"] = func(t *Term) (out []*Term) {
		arr, off, n, v := t.Args[0], t.Args[1], t.Args[2], t.Args[3]
		out = append(out, Le(Int(0), t), Imp(Le(n, Int(0)), Eq(t, Int(0))), Imp(Le(Int(0), n), Le(t, n)))
		b := func(c *Term) *Term { return Ite(c, Int(1), Int(0)) }
		if arr.Op == "ite" || n.Op == "ite" {
			c := n.Args
			if arr.Op == "ite" {
				c = arr.Args
			}
			side := func(t *Term, k int) *Term {
				if t.Op == "ite" && t.Args[0] == c[0] {
					return t.Args[k]
				}
				return t
			}
			return append(out, Eq(t, Ite(c[0], CountT(side(arr, 1), off, side(n, 1), v), CountT(side(arr, 2), off, side(n, 2), v))))
		}
		if arr.Op == "store" && arr.Args[1] == Add(off, Sub(n, Int(1))) {
			return append(out, Imp(Lt(Int(0), n), Eq(t, Add(CountT(arr.Args[0], off, Sub(n, Int(1)), v), b(Eq(arr.Args[2], v))))))
		}
		switch arr.Op {
		case "store":
			base, i, e := arr.Args[0], arr.Args[1], arr.Args[2]
			bt := CountT(base, off, n, v)
			in := And(Le(off, i), Lt(i, Add(off, n)))
			out = append(out, Eq(t, Ite(in, Add(bt, Sub(b(Eq(e, v)), b(Eq(Select(base, i), v)))), bt)))
		}
		if n.Op == "+" || n.Op == "int" && n.N.Sign() > 0 {
			p := Sub(n, Int(1))
			if n.Op == "int" || p.Op != "+" || len(p.Args) < len(n.Args) || constPart(n) > 1 {
				out = append(out, Imp(Lt(Int(0), n), Eq(t, Add(CountT(arr, off, p, v), b(Eq(Select(arr, Add(off, p)), v))))))
			}
		}
		return
	}
}

// sortSlice: narr is a permutation of s ordered by cmp.
func (x *Exec) sortSlice(st *State, s *SliceV, cmp func(st *State, a, b Val) *Term, pos token.Pos) *Term {
	if s.Arr == nil {
		unsupported("sorting a slice of %s", s.Elem)
	}
	es := x.T.sortOf(s.Elem)
	narr := Fresh("sorted", s.Arr.Sort)
	id := cleanName(narr.Name)
	p := func(i *Term) *Term { return App("perm_"+id, SInt, i) }
	q := func(i *Term) *Term { return App("perminv_"+id, SInt, i) }
	lo, hi := s.Off, Add(s.Off, s.Len)
	i, j := BVar("i", SInt), BVar("j", SInt)
	in := func(i *Term) *Term { return And(Le(lo, i), Lt(i, hi)) }
	st.assume(Forall([]*Term{i}, Imp(in(i), And(Eq(Select(narr, i), Select(s.Arr, p(i))), in(p(i)), Eq(q(p(i)), i))), []*Term{Select(narr, i)}))
	st.assume(Forall([]*Term{i}, Imp(in(i), And(Eq(Select(s.Arr, i), Select(narr, q(i))), in(q(i)), Eq(p(q(i)), i))), []*Term{Select(s.Arr, i)}))
	a := x.T.fromTerm(Select(narr, i), s.Elem, nil)
	b := x.T.fromTerm(Select(narr, j), s.Elem, nil)
	c := cmp(st, a, b)
	st.assume(Forall([]*Term{i, j}, Imp(And(Le(lo, i), Le(i, j), Lt(j, hi)), Le(c, Int(0))), []*Term{Select(narr, i), Select(narr, j)}))
	v := BVar("v", es)
	ct := CountT(narr, s.Off, s.Len, v)
	st.assume(Forall([]*Term{v}, Eq(ct, CountT(s.Arr, s.Off, s.Len, v)), []*Term{ct}))
	return narr
}

// weakOrder: obligations that cmp is a strict weak order on the elements.
func (x *Exec) weakOrder(st *State, sl *SliceV, cmp func(st *State, a, b Val) *Term, run func(st *State, a, b Val), pos token.Pos) {
	if st.gmode > 0 || x.scout > 0 {
		return
	}
	s := st.clone()
	elem := sl.Elem
	mkv := func(n string) Val {
		v := x.T.sym(n, elem)
		if x.T.termable(elem) && sl.Arr != nil {
			i := Fresh("i", SInt)
			s.assume(Le(Int(0), i))
			s.assume(Lt(i, sl.Len))
			s.assume(Eq(x.T.toTerm(v, elem), Select(sl.Arr, Add(sl.Off, i))))
		}
		for _, f := range x.T.facts(v, elem, st.alloc) {
			s.assume(f)
		}
		return v
	}
	a, b, c := mkv("a"), mkv("b"), mkv("c")
	ab, ba, bc, ac := cmp(s, a, b), cmp(s, b, a), cmp(s, b, c), cmp(s, a, c)
	x.oblig(s, "requires", "comparison function is antisymmetric", And(Imp(Lt(ab, Int(0)), Lt(Int(0), ba)), Imp(Eq(ab, Int(0)), Eq(ba, Int(0)))), pos)
	x.oblig(s, "requires", "comparison function is transitive", Imp(And(Le(ab, Int(0)), Le(bc, Int(0))), Le(ac, Int(0))), pos)
	if run != nil {
		run(s.clone(), a, b)
	}
}

func (x *Exec) cmpFn(fv Val) func(st *State, a, b Val) *Term {
	return func(st *State, a, b Val) *Term { return x.evalTerm(st, fv, []Val{a, b}) }
}

// ---- fmt ----------------------------------------------------------------------

func (x *Exec) fmtArg(st *State, v Val) *Term {
	if i, ok := v.(*IfaceV); ok {
		if i.T == nil {
			return tm(i.V)
		}
		if _, ok := i.V.(*Term); !ok {
			if x.T.termable(i.T) {
				return x.T.toTerm(i.V, i.T)
			}
			return Fresh("fmtarg", SInt)
		}
		return tm(i.V)
	}
	return tm(v)
}

// format: text of a printf-style call with a constant format.
func (x *Exec) format(st *State, f *Term, args []Val) *Term {
	if f.Op != "str" {
		unsupported("non-constant format string")
	}
	s := f.Name
	var parts []*Term
	ai := 0
	next := func() *Term {
		if ai >= len(args) {
			unsupported("format %q: too few arguments", s)
		}
		ai++
		return x.fmtArg(st, args[ai-1])
	}
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, Str(lit))
			lit = ""
		}
	}
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lit += string(s[i : i+1])
			continue
		}
		if i+1 < len(s) && s[i+1] == '%' {
			lit += "%"
			i++
			continue
		}
		j := i + 1
		var extra []*Term
		for j < len(s) && strings.IndexByte("+-# 0123456789.*", s[j]) >= 0 {
			if s[j] == '*' {
				extra = append(extra, next())
			}
			j++
		}
		if j >= len(s) {
			unsupported("bad format %q", s)
		}
		spec := s[i+1 : j+1]
		a := next()
		i = j
		flush()
		switch {
		case (spec == "s" || spec == "v") && a.Sort == SStr:
			parts = append(parts, a)
		case (spec == "d" || spec == "v") && a.Sort == SInt:
			parts = append(parts, itoa(a))
		default:
			parts = append(parts, App("fmt:"+spec, SStr, append(extra, a)...))
		}
	}
	flush()
	if len(parts) == 0 {
		return Str("")
	}
	r := parts[0]
	for _, p := range parts[1:] {
		r = Concat(r, p)
	}
	return r
}

func itoa(a *Term) *Term {
	if a.Op == "int" {
		return Str(a.N.String())
	}
	return App("itoa", SStr, a)
}

func variadic(v Val) []Val {
	s, ok := v.(*SliceV)
	if !ok {
		unsupported("variadic arguments %T", v)
	}
	if s.Conc != nil {
		return s.Conc
	}
	if s.Len.Op == "int" && s.Len.N.Sign() == 0 {
		return nil
	}
	unsupported("variadic arguments of unknown length")
	return nil
}

// writeTo appends text to a writer.
func (x *Exec) writeTo(st *State, w Val, s *Term, pos token.Pos) bool {
	if i, ok := w.(*IfaceV); ok {
		w = i.V
	}
	switch p := w.(type) {
	case *PtrV:
		if isNamed(p.Elem, "strings", "Builder") || isNamed(p.Elem, "bytes", "Buffer") {
			x.builderAppend(st, p, s, pos)
			return true
		}
	}
	return false
}

func init() {
	intrinsics = map[string]intrin{
		"fmt.Sprintf": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, x.format(st, tm(args[0]), variadic(args[1])))
		},
		"fmt.Sprint": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, Fresh("sprint", SStr))
		},
		"fmt.Errorf": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			e := x.freshErr(st)
			if f := tm(args[0]); f.Op == "str" && strings.Contains(f.Name, "%w") {
				for _, a := range variadic(args[1]) {
					if i, ok := a.(*IfaceV); ok && i.T == nil {
						if t, ok := i.V.(*Term); ok && t.Sort == SInt {
							b := BVar("t", SInt)
							w := App("errIs", SBool, e, b)
							st.assume(Forall([]*Term{b}, Imp(App("errIs", SBool, t, b), w), []*Term{w}))
						}
					}
				}
			}
			return one(st, e)
		},
		"fmt.Printf":  prints,
		"fmt.Println": prints,
		"fmt.Print":   prints,
		"fmt.Fprint":  prints,
		"fmt.Fprintf": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			if i, ok := args[0].(*IfaceV); ok {
				if p, ok := i.V.(*PtrV); ok && (isNamed(p.Elem, "strings", "Builder") || isNamed(p.Elem, "bytes", "Buffer")) {
					x.builderAppend(st, p, x.format(st, tm(args[1]), variadic(args[2])), pos)
				}
			}
			return one(st, Fresh("n", SInt), Int(0))
		},

		"strings.HasPrefix": pure(func(a []*Term) *Term { return StrOp("str.prefixof", SBool, a[1], a[0]) }),
		"strings.HasSuffix": pure(func(a []*Term) *Term { return StrOp("str.suffixof", SBool, a[1], a[0]) }),
		"strings.Contains":  pure(func(a []*Term) *Term { return StrOp("str.contains", SBool, a[0], a[1]) }),
		"strings.ContainsAny": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			cs := tm(args[1])
			if cs.Op != "str" {
				unsupported("strings.ContainsAny of a variable set")
			}
			var ts []*Term
			for _, r := range cs.Name {
				ts = append(ts, StrOp("str.contains", SBool, tm(args[0]), Str(string(r))))
			}
			return one(st, Or(ts...))
		},
		"strings.Index": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, x.indexOf(st, tm(args[0]), tm(args[1])))
		},
		"strings.IndexByte": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, x.indexOf(st, tm(args[0]), runeStr(tm(args[1]))))
		},
		"strings.IndexRune": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, x.indexOf(st, tm(args[0]), runeStr(tm(args[1]))))
		},
		"strings.ContainsRune": pure(func(a []*Term) *Term { return StrOp("str.contains", SBool, a[0], runeStr(a[1])) }),
		"strings.TrimSpace":    strFn("trimspace", strings.TrimSpace),
		"strings.ToLower":      strFn("tolower", strings.ToLower),
		"strings.ToUpper":      strFn("toupper", strings.ToUpper),
		"strings.TrimPrefix":   pure(func(a []*Term) *Term { return trimPrefix(a[0], a[1]) }),
		"strings.ReplaceAll": pure(func(a []*Term) *Term {
			if a[0].Op == "str" && a[1].Op == "str" && a[2].Op == "str" {
				return Str(strings.ReplaceAll(a[0].Name, a[1].Name, a[2].Name))
			}
			return App("replaceall", SStr, a...)
		}),
		"strings.Compare": pure(func(a []*Term) *Term {
			return Ite(Eq(a[0], a[1]), Int(0), Ite(StrOp("str.<", SBool, a[0], a[1]), Int(-1), Int(1)))
		}),
		"strings.Repeat": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			x.oblig(st, "panic", "strings.Repeat: count is not negative", Le(Int(0), tm(args[1])), pos)
			st.assume(Le(Int(0), tm(args[1])))
			r := App("repeat", SStr, tm(args[0]), tm(args[1]))
			st.assume(Eq(StrLen(r), Mul(StrLen(tm(args[0])), tm(args[1]))))
			return one(st, r)
		},
		"strings.Split": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, x.splitUF(st, "split", tm(args[0]), tm(args[1])))
		},
		"strings.SplitN": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			n := tm(args[2])
			s := x.splitUF(st, "splitn", tm(args[0]), tm(args[1]), n)
			if n.Op == "int" && n.N.Sign() > 0 {
				st.assume(Le(s.Len, n))
			}
			return one(st, s)
		},
		"strings.Fields": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			n := App("fields_len", SInt, tm(args[0]))
			st.assume(Le(Int(0), n))
			return one(st, &SliceV{Elem: types.Typ[types.String], Arr: App("fields_arr", SArr(SInt, SStr), tm(args[0])), Off: Int(0), Len: n, Tok: newTok()})
		},
		"strings.Cut": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			s, sep := tm(args[0]), tm(args[1])
			i := x.indexOf(st, s, sep)
			found := Le(Int(0), i)
			b := Ite(found, substr(s, Int(0), i), s)
			a := Ite(found, substr(s, Add(i, StrLen(sep)), Sub(StrLen(s), Add(i, StrLen(sep)))), Str(""))
			return one(st, b, a, found)
		},
		"strings.Join": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			s := args[0].(*SliceV)
			return one(st, App("strjoin", SStr, s.Arr, s.Off, s.Len, tm(args[1])))
		},
		"(*strings.Builder).WriteString": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			x.builderAppend(st, args[0], tm(args[1]), pos)
			return one(st, StrLen(tm(args[1])), Int(0))
		},
		"(*strings.Builder).WriteByte": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			x.builderAppend(st, args[0], runeStr(tm(args[1])), pos)
			return one(st, Int(0))
		},
		"(*strings.Builder).WriteRune": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			x.builderAppend(st, args[0], runeStr(tm(args[1])), pos)
			return one(st, Int(1), Int(0))
		},
		"(*strings.Builder).String": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, x.loadP(st, args[0], pos))
		},
		"(*strings.Builder).Len": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, StrLen(x.loadP(st, args[0], pos)))
		},

		"strconv.Itoa": pure(func(a []*Term) *Term { return itoa(a[0]) }),
		"strconv.Atoi": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			s := tm(args[0])
			if s.Op == "app" && s.Name == "itoa" {
				return one(st, s.Args[0], Int(0))
			}
			if s.Op == "str" {
				if n, err := strconv.Atoi(s.Name); err == nil {
					return one(st, Int(int64(n)), Int(0))
				}
			}
			e := App("atoi_err", SInt, s)
			st.assume(Le(Int(0), e))
			return one(st, App("atoi", SInt, s), e)
		},

		"errors.New": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, x.freshErr(st))
		},
		"errors.Join": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			e := x.freshErr(st)
			all := TTrue
			var ts []*Term
			sl := args[0].(*SliceV)
			if sl.Conc == nil && sl.Len.Op == "int" && sl.Len.N.IsInt64() {
				for i := int64(0); i < sl.Len.N.Int64(); i++ {
					ts = append(ts, Select(sl.Arr, Add(sl.Off, Int(i))))
				}
			} else {
				for _, a := range variadic(args[0]) {
					ts = append(ts, tm(a))
				}
			}
			b := BVar("t", SInt)
			w := App("errIs", SBool, e, b)
			for _, a := range ts {
				all = And(all, Eq(a, Int(0)))
				st.assume(Forall([]*Term{b}, Imp(And(Not(Eq(a, Int(0))), App("errIs", SBool, a, b)), w), []*Term{w}))
			}
			return one(st, Ite(all, Int(0), e))
		},
		"errors.Is": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			a, b := x.fmtArg(st, args[0]), x.fmtArg(st, args[1])
			return one(st, Or(Eq(a, b), And(Not(Eq(a, Int(0))), App("errIs", SBool, a, b))))
		},

		"time.Now": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			if id, ok := cellIDs["now"]; ok {
				if v, ok := st.cells[id]; ok {
					return one(st, v)
				}
			}
			n := Fresh("now", SInt)
			st.assume(Lt(Int(0), n))
			if x.P.isOverlay(st.top().fn) {
				// a contract that asks for the time stops the clock
				id, ok := cellIDs["now"]
				if !ok {
					id = 1000000 + len(cellIDs)
					cellIDs["now"] = id
				}
				st.cells[id] = n
			}
			return one(st, n)
		},
		"time.Unix": pure(func(a []*Term) *Term { return Add(Mul(a[0], billion), a[1]) }),
		"time.Date": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			a := args
			y, m, d := tm(a[0]), tm(a[1]), tm(a[2])
			h, mi, s, ns := tm(a[3]), tm(a[4]), tm(a[5]), tm(a[6])
			for _, t := range []*Term{h, mi, s, ns} {
				if t.Op != "int" || t.N.Sign() != 0 {
					unsupported("time.Date with a time of day")
				}
			}
			return one(st, civil(y, m, d))
		},
		"(time.Time).Before":           pure(func(a []*Term) *Term { return Lt(a[0], a[1]) }),
		"(time.Time).After":            pure(func(a []*Term) *Term { return Lt(a[1], a[0]) }),
		"(time.Time).Equal":            pure(func(a []*Term) *Term { return Eq(a[0], a[1]) }),
		"(time.Time).Compare":          pure(func(a []*Term) *Term { return Ite(Lt(a[0], a[1]), Int(-1), Ite(Lt(a[1], a[0]), Int(1), Int(0))) }),
		"(time.Time).IsZero":           pure(func(a []*Term) *Term { return Eq(a[0], zeroTime) }),
		"(time.Time).Unix":             pure(func(a []*Term) *Term { return FloorDiv(a[0], billion) }),
		"(time.Time).Add":              pure(func(a []*Term) *Term { return Add(a[0], a[1]) }),
		"(time.Time).Year":             pure(func(a []*Term) *Term { return App("date_y", SInt, a[0]) }),
		"(time.Time).Month":            pure(func(a []*Term) *Term { return App("date_m", SInt, a[0]) }),
		"(time.Time).Day":              pure(func(a []*Term) *Term { return App("date_d", SInt, a[0]) }),
		"(time.Time).Format":           pure(func(a []*Term) *Term { return App("timefmt", SStr, a...) }),
		"(time.Time).String":           pure(func(a []*Term) *Term { return App("timestr", SStr, a...) }),
		"(time.Duration).String":       pure(func(a []*Term) *Term { return App("durstr", SStr, a...) }),
		"(time.Duration).Milliseconds": pure(func(a []*Term) *Term { return GoDiv(a[0], Int(1000000)) }),
		"(time.Duration).Hours": pure(func(a []*Term) *Term {
			return mkReal("r/", SReal, mkReal("to_real", SReal, a[0]), realInt(3600000000000))
		}),
		"(time.Duration).Minutes": pure(func(a []*Term) *Term {
			return mkReal("r/", SReal, mkReal("to_real", SReal, a[0]), realInt(60000000000))
		}),
		"(time.Duration).Seconds": pure(func(a []*Term) *Term { return mkReal("r/", SReal, mkReal("to_real", SReal, a[0]), realInt(1000000000)) }),
		"(time.Time).Local":       func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit { return one(st, args[0]) },
		"(time.Time).UTC":         func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit { return one(st, args[0]) },
		"(time.Time).In":          func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit { return one(st, args[0]) },
		"(time.Time).Location": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, &OpaqueV{Kind: "time.Local"})
		},
		"(time.Time).Date": pure3(func(a *Term) (*Term, *Term, *Term) {
			return App("date_y", SInt, a), App("date_m", SInt, a), App("date_d", SInt, a)
		}),
		"(time.Time).Sub": pure(func(a []*Term) *Term {
			d := Sub(a[0], a[1])
			mx := IntB(new(big.Int).Sub(pow2(63), big.NewInt(1)))
			mn := IntB(new(big.Int).Neg(pow2(63)))
			return Ite(Lt(mx, d), mx, Ite(Lt(d, mn), mn, d))
		}),
		"(time.Time).AddDate": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			t := tm(args[0])
			r := App("adddate", SInt, t, tm(args[1]), tm(args[2]), tm(args[3]))
			if t.Op == "app" && t.Name == "civil" {
				return one(st, civil(Add(t.Args[0], tm(args[1])), Add(t.Args[1], tm(args[2])), Add(t.Args[2], tm(args[3]))))
			}
			return one(st, r)
		},

		"slices.Values": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, &FuncV{Kind: "seq", Data: args[0], Sig: fn.Signature.Results().At(0).Type().Underlying().(*types.Signature)})
		},
		"maps.Keys": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			m := *args[0].(*MapV)
			if m.Snap == nil {
				m.Snap = st.heap.clone()
			}
			return one(st, &FuncV{Kind: "keys", Data: &m, Sig: fn.Signature.Results().At(0).Type().Underlying().(*types.Signature)})
		},
		"slices.Collect": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			f := args[0].(*FuncV)
			if s := x.seqSlice(st, f); s != nil {
				n := *s
				n.Tok = newTok()
				return one(st, &n)
			}
			elem := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
			cell := x.namedCell(st, st.top().path+"!collect", x.T.emptySlice(elem))
			yield := &FuncV{Kind: "native", Data: nativeFn(func(st *State, args []Val) []exit {
				st.cells[cell] = x.appendTo(st, st.cells[cell].(*SliceV), args[:1])
				return one(st, TTrue)
			})}
			outs := x.callVal(st, f, []Val{yield}, nil, pos)
			for i := range outs {
				outs[i].ret = []Val{outs[i].st.cells[cell]}
			}
			return outs
		},
		"slices.Sorted": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			s := x.seqSlice(st, args[0].(*FuncV))
			if s == nil {
				unsupported("slices.Sorted of this iterator")
			}
			cmp := func(st *State, a, b Val) *Term {
				p, q := tm(a), tm(b)
				lt := func(p, q *Term) *Term {
					if p.Sort == SStr {
						return StrOp("str.<", SBool, p, q)
					}
					return Lt(p, q)
				}
				return Ite(Eq(p, q), Int(0), Ite(lt(p, q), Int(-1), Int(1)))
			}
			n := *s
			n.Arr = x.sortSlice(st, s, cmp, pos)
			n.Tok = newTok()
			return one(st, &n)
		},
		"slices.SortedFunc": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			s := x.seqSlice(st, args[0].(*FuncV))
			if s == nil {
				unsupported("slices.SortedFunc of this iterator")
			}
			c := x.cmpFn(args[1])
			x.weakOrder(st, s, c, func(st *State, a, b Val) { x.callVal(st, args[1], []Val{a, b}, nil, pos) }, pos)
			n := *s
			n.Arr = x.sortSlice(st, s, c, pos)
			n.Tok = newTok()
			return one(st, &n)
		},
		"slices.SortFunc": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			s := args[0].(*SliceV)
			c := x.cmpFn(args[1])
			x.weakOrder(st, s, c, func(st *State, a, b Val) { x.callVal(st, args[1], []Val{a, b}, nil, pos) }, pos)
			x.replaceTok(st, s.Tok, x.sortSlice(st, s, c, pos))
			return one(st)
		},
		"slices.Concat": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			var r *SliceV
			vs := args[0].(*SliceV)
			var parts []Val
			if vs.Conc != nil {
				parts = vs.Conc
			} else if vs.Len.Op == "int" {
				for i := int64(0); i < vs.Len.N.Int64(); i++ {
					parts = append(parts, x.sliceGet(st, vs, Int(i), nil))
				}
			} else {
				unsupported("slices.Concat of an unknown number of slices")
			}
			elem := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
			r = x.T.emptySlice(elem)
			for _, p := range parts {
				r = x.concat(st, r, p.(*SliceV))
			}
			return one(st, r)
		},
		"slices.Clone": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			n := *args[0].(*SliceV)
			n.Tok = newTok()
			return one(st, &n)
		},
		"slices.Contains": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			s := args[0].(*SliceV)
			i := BVar("i", SInt)
			r := Fresh("contains", SBool)
			el := Select(s.Arr, i)
			v := x.T.toTerm(args[1], s.Elem)
			w := Fresh("at", SInt)
			in := func(i *Term) *Term { return And(Le(s.Off, i), Lt(i, Add(s.Off, s.Len))) }
			st.assume(Forall([]*Term{i}, Imp(And(in(i), Eq(el, v)), r), []*Term{el}))
			st.assume(Imp(r, And(in(w), Eq(Select(s.Arr, w), v))))
			return one(st, r)
		},

		"(*regexp.Regexp).MatchString": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			o, ok := args[0].(*OpaqueV)
			if !ok || o.Kind != "regexp" {
				unsupported("unknown regular expression")
			}
			return one(st, reMatch(o.Data.(string), tm(args[1])))
		},
		"(*regexp.Regexp).ReplaceAllString": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			o, ok := args[0].(*OpaqueV)
			if !ok || o.Kind != "regexp" {
				unsupported("unknown regular expression")
			}
			return one(st, reReplace(o.Data.(string), tm(args[1]), tm(args[2])))
		},
		"github.com/bmatcuk/doublestar/v4.Match": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			p, n := tm(args[0]), tm(args[1])
			e := App("dsmatch_err", SInt, p)
			st.assume(Le(Int(0), e))
			m := App("dsmatch", SBool, p, n)
			st.assume(Imp(Not(Eq(e, Int(0))), Not(m)))
			return one(st, m, e)
		},
		"github.com/mattn/go-runewidth.Truncate":  pure(func(a []*Term) *Term { return App("rwtruncate", SStr, a...) }),
		"github.com/mattn/go-runewidth.FillRight": pure(func(a []*Term) *Term { return App("rwfill", SStr, a...) }),
		"path.Join":               pathJoin,
		"path/filepath.Join":      pathJoin,
		"path/filepath.ToSlash":   ident,
		"path/filepath.FromSlash": ident,
		"path/filepath.Base":      strFn("base", path.Base),
		"path.Base":               strFn("base", path.Base),
		"path/filepath.Dir":       strFn("dir", path.Dir),
		"path/filepath.IsLocal":   pure(func(a []*Term) *Term { return App("islocal", SBool, a...) }),
		"path/filepath.Rel": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			e := App("relerr", SInt, tm(args[0]), tm(args[1]))
			st.assume(Le(Int(0), e))
			return one(st, App("rel", SStr, tm(args[0]), tm(args[1])), e)
		},
		"unicode/utf8.RuneCountInString": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			s := tm(args[0])
			if s.Op == "str" {
				return one(st, Int(int64(len([]rune(s.Name)))))
			}
			n := App("runecount", SInt, s)
			st.assume(Le(Int(0), n))
			st.assume(Le(n, StrLen(s)))
			st.assume(Eq(Eq(n, Int(0)), Eq(s, Str(""))))
			return one(st, n)
		},
		"math.Ceil": pure(func(a []*Term) *Term {
			return mkReal("to_real", SReal, Neg(mkReal("to_int", SInt, mkReal("r-", SReal, realInt(0), a[0]))))
		}),
		"math.Floor": pure(func(a []*Term) *Term { return mkReal("to_real", SReal, mkReal("to_int", SInt, a[0])) }),
		"math.Round": pure(func(a []*Term) *Term { return App("mathround", SReal, a...) }),

		"context.WithCancel": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			c := x.newCtx(st, st.top().path+"!ctx")
			return one(st, c, &FuncV{Kind: "noop"})
		},
		"context.Background": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, x.newCtx(st, "background"))
		},
		"encoding/csv.NewWriter": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, &OpaqueV{Kind: "csv"})
		},
		"(*encoding/csv.Writer).Write": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			s := args[1].(*SliceV)
			es := x.T.sortOf(fn.Signature.Params().At(0).Type())
			id := rowsCell()
			t, ok := st.cells[id].(*TraceV)
			if !ok {
				t = &TraceV{Arr: Sym("rows0", SArr(SInt, es)), Len: Int(0)}
			}
			st.cells[id] = &TraceV{Arr: Store(t.Arr, t.Len, x.T.toTerm(s, fn.Signature.Params().At(0).Type())), Len: Add(t.Len, Int(1))}
			return one(st, Int(0))
		},
		"(*encoding/csv.Writer).Flush": noop,
		"(*encoding/csv.Writer).Error": noop,
		"runtime.GOMAXPROCS": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			n := Fresh("procs", SInt)
			st.assume(Le(Int(1), n))
			return one(st, n)
		},
		"log/slog.Debug": noop,
		"log/slog.Warn":  noop,
		"log/slog.Info":  noop,
	}
	opaqueMethods["ctx.Done"] = func(x *Exec, st *State, r *OpaqueV, args []Val, pos token.Pos) []exit {
		return one(st, r.Data.(*ChanV))
	}
	opaqueMethods["ctx.Err"] = func(x *Exec, st *State, r *OpaqueV, args []Val, pos token.Pos) []exit {
		return one(st, x.freshErr(st))
	}
}

// cmdArgs: the words of a command line, the program first.
func (x *Exec) cmdArgs(st *State, name, args Val) Val {
	a := args.(*SliceV)
	return x.concat(st, x.appendTo(st, x.T.emptySlice(a.Elem), []Val{name}), a)
}

func rowsCell() int {
	id, ok := cellIDs["trace:rows"]
	if !ok {
		id = 500 + len(cellIDs)
		cellIDs["trace:rows"] = id
	}
	return id
}

func (x *Exec) newCtx(st *State, key string) *OpaqueV {
	c := x.newChan(st, types.NewStruct(nil, nil), key)
	x.chanInfo[c.ID].done = true
	return &OpaqueV{Kind: "ctx", Data: c}
}

func linesCell() int {
	id, ok := cellIDs["printed:lines"]
	if !ok {
		id = 500 + len(cellIDs)
		cellIDs["printed:lines"] = id
	}
	return id
}

// prints to standard output; the lines are counted and, where the format is
// known, remembered.
func prints(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
	old, ok := st.cells[linesCell()].(*Term)
	if !ok {
		return one(st, Fresh("n", SInt), Int(0))
	}
	n := 0
	tr, part := st.cells[textCell()].(*TraceV), st.cells[partCell()].(*Term)
	end := func() {
		tr = &TraceV{Arr: Store(tr.Arr, tr.Len, part), Len: Add(tr.Len, Int(1))}
		part = Str("")
		n++
	}
	f, isT := args[0].(*Term)
	switch {
	case fn.Name() == "Printf" && isT && f.Op == "str":
		vs := variadic(args[1])
		segs := strings.Split(f.Name, "\n")
		for i, sg := range segs {
			k := 0
			for j := 0; j < len(sg); j++ {
				if sg[j] == '*' {
					k++
				} else if sg[j] == '%' {
					if j+1 < len(sg) && sg[j+1] == '%' {
						j++
						continue
					}
					k++
				}
			}
			if k > len(vs) {
				unsupported("format %q: too few arguments", f.Name)
			}
			part = Concat(part, x.format(st, Str(sg), vs[:k]))
			vs = vs[k:]
			if i < len(segs)-1 {
				end()
			}
		}
	case fn.Name() == "Println":
		var ts []*Term
		if s, ok := args[0].(*SliceV); ok && (s.Conc != nil || s.Len.Op == "int") {
			for i, a := range variadic(s) {
				if i > 0 {
					ts = append(ts, Str(" "))
				}
				if t := x.fmtArg(st, a); t.Sort == SStr {
					ts = append(ts, t)
				} else {
					ts = append(ts, Fresh("printed", SStr))
				}
			}
		} else {
			ts = append(ts, Fresh("printed", SStr))
		}
		part = concatAll(append([]*Term{part}, ts...))
		end()
	case fn.Name() == "Print":
		var ts []*Term
		for _, a := range variadic(args[0]) {
			t := x.fmtArg(st, a)
			if t.Sort != SStr || len(ts) > 0 || t.Op == "str" && strings.Contains(t.Name, "\n") {
				t = Fresh("printed", SStr)
			}
			ts = append(ts, t)
		}
		part = concatAll(append([]*Term{part}, ts...))
	default:
		part = Fresh("printed", SStr)
	}
	st.cells[linesCell()] = Add(old, Int(int64(n)))
	st.cells[textCell()], st.cells[partCell()] = tr, part
	return one(st, Fresh("n", SInt), Int(0))
}

func ghostCell(name string) int {
	id, ok := cellIDs[name]
	if !ok {
		id = 500 + len(cellIDs)
		cellIDs[name] = id
	}
	return id
}

func textCell() int { return ghostCell("printed:text") }
func partCell() int { return ghostCell("printed:part") }

func pure3(f func(a *Term) (*Term, *Term, *Term)) intrin {
	return func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
		a, b, c := f(tm(args[0]))
		return one(st, a, b, c)
	}
}

func strFn(name string, f func(string) string) intrin {
	return pure(func(a []*Term) *Term {
		if a[0].Op == "str" {
			return Str(f(a[0].Name))
		}
		return App(name, SStr, a[0])
	})
}

func ident(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
	return one(st, args[0])
}

func pathJoin(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
	s := args[0].(*SliceV)
	if s.Len.Op == "int" && s.Arr != nil {
		var ts []*Term
		for i := int64(0); i < s.Len.N.Int64(); i++ {
			ts = append(ts, Select(s.Arr, Add(s.Off, Int(i))))
		}
		return one(st, App(fmt.Sprintf("pathjoin%d", len(ts)), SStr, ts...))
	}
	return one(st, App("pathjoin", SStr, s.Arr, s.Off, s.Len))
}

func trimPrefix(s, p *Term) *Term {
	return Ite(StrOp("str.prefixof", SBool, p, s), substr(s, StrLen(p), Sub(StrLen(s), StrLen(p))), s)
}

func runeStr(r *Term) *Term {
	if r.Op == "int" && r.N.IsInt64() {
		return Str(string(rune(r.N.Int64())))
	}
	return App("runestr", SStr, r)
}

func (x *Exec) splitUF(st *State, name string, args ...*Term) *SliceV {
	n := App(name+"_len", SInt, args...)
	arr := App(name+"_arr", SArr(SInt, SStr), args...)
	st.assume(Le(Int(1), n))
	// a separator that does not occur leaves the string whole
	if len(args) == 2 {
		st.assume(Imp(Not(StrOp("str.contains", SBool, args[0], args[1])), And(Eq(n, Int(1)), Eq(Select(arr, Int(0)), args[0]))))
		if args[1].Op == "str" && args[1].Name != "" {
			st.assume(Imp(StrOp("str.contains", SBool, args[0], args[1]), Le(Int(2), n)))
		}
	}
	return &SliceV{Elem: types.Typ[types.String], Arr: arr, Off: Int(0), Len: n, Tok: newTok()}
}

// civil: midnight of a calendar day, in nanoseconds.
func civil(y, m, d *Term) *Term { return App("civil", SInt, y, m, d) }

func concatAll(ts []*Term) *Term {
	r := ts[0]
	for _, t := range ts[1:] {
		r = Concat(r, t)
	}
	return r
}
