package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort struct {
	Name string // SMT text
	// datatypes
	Ctor   string
	Fields []DField
	// arrays
	Idx, Elem *Sort
	id        int
}

type DField struct {
	Name string
	Sort *Sort
}

var sortTab = map[string]*Sort{}
var sortOrder []*Sort

func mkSort(name string) *Sort {
	if s, ok := sortTab[name]; ok {
		return s
	}
	s := &Sort{Name: name, id: len(sortTab)}
	sortTab[name] = s
	sortOrder = append(sortOrder, s)
	return s
}

var (
	SInt  = mkSort("Int")
	SBool = mkSort("Bool")
	SStr  = mkSort("Str")
	SReal = mkSort("Real")
)

func SArr(i, e *Sort) *Sort {
	s := mkSort("(Array " + i.Name + " " + e.Name + ")")
	s.Idx, s.Elem = i, e
	return s
}

func SData(name string, fields []DField) *Sort {
	s := mkSort(name)
	if s.Ctor == "" {
		s.Ctor = "mk_" + name
		s.Fields = fields
	}
	return s
}

type Term struct {
	Op   string
	Args []*Term
	Sort *Sort
	Name string // symbol / function / field
	N    *big.Int
	ID   int
	Bnd  []*Term // forall
	Pats [][]*Term
	fv   bool // contains bound variable
}

var termTab = map[string]*Term{}
var termCnt int

func mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	sb.WriteString(t.Sort.Name)
	if t.N != nil {
		sb.WriteByte('#')
		sb.WriteString(t.N.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.ID)
	}
	for _, a := range t.Bnd {
		fmt.Fprintf(&sb, ";%d", a.ID)
	}
	for _, p := range t.Pats {
		sb.WriteByte(':')
		for _, a := range p {
			fmt.Fprintf(&sb, ",%d", a.ID)
		}
	}
	k := sb.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	termCnt++
	t.ID = termCnt
	if t.Op == "bv" {
		t.fv = true
	}
	for _, a := range t.Args {
		if a.fv {
			t.fv = true
		}
	}
	if t.Op == "forall" || t.Op == "exists" {
		// conservatively: closed unless it mentions bound variables of an outer quantifier
		t.fv = hasOuterBound(t)
	}
	termTab[k] = t
	return t
}

func hasOuterBound(t *Term) bool {
	own := map[int]int{}
	seen := map[int]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if !x.fv || seen[x.ID] {
			return false
		}
		if x.Op == "bv" {
			return own[x.ID] == 0
		}
		bind := len(x.Bnd) > 0 && x != t
		if !bind {
			// within a nested binder the answer depends on the scope
			seen[x.ID] = len(own) == len(t.Bnd)
		}
		for _, b := range x.Bnd {
			own[b.ID]++
		}
		r := false
		for i, a := range x.Args {
			if x.Op == "gfold" && i != 1 {
				continue
			}
			if rec(a) {
				r = true
				break
			}
		}
		for _, b := range x.Bnd {
			if own[b.ID]--; own[b.ID] == 0 {
				delete(own, b.ID)
			}
		}
		if !r && x.Op == "gfold" {
			for i, a := range x.Args {
				if i != 1 && rec(a) {
					return true
				}
			}
		}
		return r
	}
	t.fv = true
	return rec(t)
}

var depthMemo = map[int]int{}

// qdepth: how deep quantifiers are nested in t.
func qdepth(t *Term) int {
	if r, ok := depthMemo[t.ID]; ok {
		return r
	}
	r := 0
	for _, a := range t.Args {
		if d := qdepth(a); d > r {
			r = d
		}
	}
	if t.Op == "forall" {
		r++
	}
	depthMemo[t.ID] = r
	return r
}

var symCnt = map[string]int{}

func Sym(name string, s *Sort) *Term { return mk(&Term{Op: "sym", Name: name, Sort: s}) }

func Fresh(prefix string, s *Sort) *Term {
	prefix = cleanName(prefix)
	symCnt[prefix]++
	return Sym(fmt.Sprintf("%s!%d", prefix, symCnt[prefix]), s)
}

func BVar(prefix string, s *Sort) *Term {
	symCnt["bv_"+prefix]++
	return mk(&Term{Op: "bv", Name: fmt.Sprintf("%s?%d", cleanName(prefix), symCnt["bv_"+prefix]), Sort: s})
}

func cleanName(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	if sb.Len() == 0 {
		return "x"
	}
	return sb.String()
}

func IntB(n *big.Int) *Term { return mk(&Term{Op: "int", N: n, Sort: SInt}) }
func Int(n int64) *Term     { return IntB(big.NewInt(n)) }
func Str(s string) *Term    { return mk(&Term{Op: "str", Name: s, Sort: SStr}) }

var TTrue = mk(&Term{Op: "true", Sort: SBool})
var TFalse = mk(&Term{Op: "false", Sort: SBool})

func Bool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func App(name string, s *Sort, args ...*Term) *Term {
	return mk(&Term{Op: "app", Name: name, Sort: s, Args: args})
}

func isLit(t *Term) bool {
	return t.Op == "int" || t.Op == "str" || t.Op == "true" || t.Op == "false"
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return TFalse
	case "false":
		return TTrue
	case "not":
		return a.Args[0]
	case "<=":
		return Lt(a.Args[1], a.Args[0])
	case "<":
		return Le(a.Args[1], a.Args[0])
	}
	return mk(&Term{Op: "not", Args: []*Term{a}, Sort: SBool})
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x.Op == "true" {
			continue
		}
		if x.Op == "false" {
			return TFalse
		}
		if x.Op == "and" {
			for _, y := range x.Args {
				if !seen[y.ID] {
					seen[y.ID] = true
					out = append(out, y)
				}
			}
			continue
		}
		if !seen[x.ID] {
			seen[x.ID] = true
			out = append(out, x)
		}
	}
	for _, x := range out {
		if seen[Not(x).ID] {
			return TFalse
		}
	}
	if len(out) == 0 {
		return TTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{Op: "and", Args: out, Sort: SBool})
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x.Op == "false" {
			continue
		}
		if x.Op == "true" {
			return TTrue
		}
		if x.Op == "or" {
			for _, y := range x.Args {
				if !seen[y.ID] {
					seen[y.ID] = true
					out = append(out, y)
				}
			}
			continue
		}
		if !seen[x.ID] {
			seen[x.ID] = true
			out = append(out, x)
		}
	}
	for _, x := range out {
		if seen[Not(x).ID] {
			return TTrue
		}
	}
	if len(out) == 0 {
		return TFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{Op: "or", Args: out, Sort: SBool})
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s (%s) vs %s (%s)", a, a.Sort.Name, b, b.Sort.Name))
	}
	if isLit(a) && isLit(b) {
		return TFalse
	}
	if a.Sort == SBool {
		if a.Op == "true" {
			return b
		}
		if b.Op == "true" {
			return a
		}
		if a.Op == "false" {
			return Not(b)
		}
		if b.Op == "false" {
			return Not(a)
		}
	}
	if a.Sort == SInt {
		if d := Sub(a, b); d.Op == "int" {
			return Bool(d.N.Sign() == 0)
		}
	}
	if a.Op == "ctor" && b.Op == "ctor" {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	// ite(c, lit, lit2) = lit
	if isLit(b) && a.Op == "ite" {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if isLit(a) && b.Op == "ite" {
		return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
	}
	if a.Sort == SStr {
		for i := 0; i < 2; i++ {
			if a.Op == "str" && b.Op == "str.substr" && b.Args[1].Op == "int" && b.Args[2].Op == "int" && shortASCII(a.Name) {
				n := b.Args[2].N
				if n.IsInt64() && n.Int64() == int64(len(a.Name)) && b.Args[1].N.Sign() >= 0 {
					return codesAt(b.Args[0], b.Args[1].N.Int64(), a.Name)
				}
			}
			a, b = b, a
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(&Term{Op: "=", Args: []*Term{a, b}, Sort: SBool})
}

// factor splits two conjunctions into what they share and the rests.
func factor(a, b *Term) (common []*Term, ra, rb *Term) {
	conj := func(t *Term) []*Term {
		if t.Op == "and" {
			return t.Args
		}
		return []*Term{t}
	}
	in := map[*Term]bool{}
	for _, t := range conj(b) {
		in[t] = true
	}
	var as, bs []*Term
	for _, t := range conj(a) {
		if in[t] {
			common = append(common, t)
			delete(in, t)
		} else {
			as = append(as, t)
		}
	}
	for _, t := range conj(b) {
		if in[t] {
			bs = append(bs, t)
		}
	}
	return common, And(as...), And(bs...)
}

func Ite(c, a, b *Term) *Term {
	if c.Op == "true" {
		return a
	}
	if c.Op == "false" {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Ite sort mismatch: %s vs %s", a.Sort.Name, b.Sort.Name))
	}
	if a.Sort == SBool {
		if a.Op == "true" {
			return Or(c, b)
		}
		if a.Op == "false" {
			return And(Not(c), b)
		}
		if b.Op == "true" {
			return Or(Not(c), a)
		}
		if b.Op == "false" {
			return And(c, a)
		}
		if common, ra, rb := factor(a, b); len(common) > 0 {
			return And(append(common, Ite(c, ra, rb))...)
		}
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Op == "ite" && a.Args[0] == c {
		return Ite(c, a.Args[1], b)
	}
	if b.Op == "ite" && b.Args[0] == c {
		return Ite(c, a, b.Args[2])
	}
	if a.Op == "ctor" && b.Op == "ctor" {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = Ite(c, a.Args[i], b.Args[i])
		}
		return Ctor(a.Sort, args...)
	}
	return mk(&Term{Op: "ite", Args: []*Term{c, a, b}, Sort: a.Sort})
}

// ---- linear integer arithmetic, canonical sums

type lin struct {
	c  *big.Int
	m  map[int]*big.Int
	ts map[int]*Term
}

func toLin(t *Term) lin {
	l := lin{new(big.Int), map[int]*big.Int{}, map[int]*Term{}}
	addLin(&l, t, big.NewInt(1))
	return l
}

func addLin(l *lin, t *Term, k *big.Int) {
	switch t.Op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(t.N, k))
	case "+":
		for _, a := range t.Args {
			addLin(l, a, k)
		}
	case "*":
		if t.Args[0].Op == "int" {
			addLin(l, t.Args[1], new(big.Int).Mul(k, t.Args[0].N))
			return
		}
		fallthrough
	default:
		if x, ok := l.m[t.ID]; ok {
			l.m[t.ID] = new(big.Int).Add(x, k)
		} else {
			l.m[t.ID] = new(big.Int).Set(k)
			l.ts[t.ID] = t
		}
	}
}

func fromLin(l lin) *Term {
	var ids []int
	for id, k := range l.m {
		if k.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var args []*Term
	for _, id := range ids {
		k := l.m[id]
		if k.IsInt64() && k.Int64() == 1 {
			args = append(args, l.ts[id])
		} else {
			args = append(args, mk(&Term{Op: "*", Args: []*Term{IntB(k), l.ts[id]}, Sort: SInt}))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, IntB(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk(&Term{Op: "+", Args: args, Sort: SInt})
}

func Add(xs ...*Term) *Term {
	l := lin{new(big.Int), map[int]*big.Int{}, map[int]*Term{}}
	for _, x := range xs {
		addLin(&l, x, big.NewInt(1))
	}
	return fromLin(l)
}

func Sub(a, b *Term) *Term {
	l := toLin(a)
	addLin(&l, b, big.NewInt(-1))
	return fromLin(l)
}

func Neg(a *Term) *Term { return Sub(Int(0), a) }

func Mul(a, b *Term) *Term {
	if a.Op == "int" {
		l := lin{new(big.Int), map[int]*big.Int{}, map[int]*Term{}}
		addLin(&l, b, a.N)
		return fromLin(l)
	}
	if b.Op == "int" {
		return Mul(b, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(&Term{Op: "*", Args: []*Term{a, b}, Sort: SInt})
}

func Le(a, b *Term) *Term {
	d := Sub(a, b)
	if d.Op == "int" {
		return Bool(d.N.Sign() <= 0)
	}
	return mk(&Term{Op: "<=", Args: []*Term{a, b}, Sort: SBool})
}

func Lt(a, b *Term) *Term {
	d := Sub(a, b)
	if d.Op == "int" {
		return Bool(d.N.Sign() < 0)
	}
	return mk(&Term{Op: "<", Args: []*Term{a, b}, Sort: SBool})
}

func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func MaxT(a, b *Term) *Term { return Ite(Le(a, b), b, a) }
func MinT(a, b *Term) *Term { return Ite(Le(b, a), b, a) }

// Go truncated division/modulus
func GoDiv(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.N.Sign() != 0 {
		return IntB(new(big.Int).Quo(a.N, b.N))
	}
	pos := mk(&Term{Op: "div", Args: []*Term{a, b}, Sort: SInt})
	neg := Neg(mk(&Term{Op: "div", Args: []*Term{Neg(a), b}, Sort: SInt}))
	return Ite(Le(Int(0), a), pos, neg)
}

func FloorDiv(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.N.Sign() > 0 {
		q, m := new(big.Int).DivMod(a.N, b.N, new(big.Int))
		_ = m
		return IntB(q)
	}
	return mk(&Term{Op: "div", Args: []*Term{a, b}, Sort: SInt})
}

func GoMod(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.N.Sign() != 0 {
		return IntB(new(big.Int).Rem(a.N, b.N))
	}
	return Sub(a, Mul(b, GoDiv(a, b)))
}

// ---- arrays

func Select(a, i *Term) *Term {
	switch a.Op {
	case "store":
		if a.Args[1] == i {
			return a.Args[2]
		}
		if distinctTerms(a.Args[1], i) {
			return Select(a.Args[0], i)
		}
		if i.Op == "bv" {
			return Ite(Eq(i, a.Args[1]), a.Args[2], Select(a.Args[0], i))
		}
	case "constarr":
		return a.Args[0]
	case "ite":
		if a.Args[1].Op == "store" || a.Args[2].Op == "store" || a.Args[1].Op == "constarr" || a.Args[2].Op == "constarr" {
			return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
		}
	}
	return mk(&Term{Op: "select", Args: []*Term{a, i}, Sort: a.Sort.Elem})
}

func distinctTerms(a, b *Term) bool {
	if isLit(a) && isLit(b) && a != b {
		return true
	}
	if a.Sort == SInt {
		d := Sub(a, b)
		return d.Op == "int" && d.N.Sign() != 0
	}
	return false
}

func Store(a, i, v *Term) *Term {
	if a.Sort.Elem != v.Sort {
		panic(fmt.Sprintf("store sort mismatch %s <- %s", a.Sort.Name, v.Sort.Name))
	}
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk(&Term{Op: "store", Args: []*Term{a, i, v}, Sort: a.Sort})
}

func ConstArr(s *Sort, v *Term) *Term {
	return mk(&Term{Op: "constarr", Args: []*Term{v}, Sort: s})
}

// ---- datatypes

func Ctor(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.Fields) {
		panic("ctor arity " + s.Name)
	}
	// eta: mk(acc0(x), acc1(x), ...) = x
	if len(args) > 0 && args[0].Op == "acc" && args[0].Args[0].Sort == s {
		x := args[0].Args[0]
		ok := true
		for i, a := range args {
			if a.Op != "acc" || a.Args[0] != x || a.Name != s.Fields[i].Name {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	for i, a := range args {
		if a.Sort != s.Fields[i].Sort {
			panic(fmt.Sprintf("ctor %s field %s sort %s <- %s", s.Name, s.Fields[i].Name, s.Fields[i].Sort.Name, a.Sort.Name))
		}
	}
	return mk(&Term{Op: "ctor", Name: s.Ctor, Args: args, Sort: s})
}

func Acc(t *Term, i int) *Term {
	if t.Op == "ctor" {
		return t.Args[i]
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], Acc(t.Args[1], i), Acc(t.Args[2], i))
	}
	f := t.Sort.Fields[i]
	return mk(&Term{Op: "acc", Name: f.Name, Args: []*Term{t}, Sort: f.Sort})
}

// ---- quantifiers

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body.Op == "true" || body.Op == "false" {
		return body
	}
	if body.Op == "or" {
		for i, a := range body.Args {
			if a.Op == "and" && hasForall(a) {
				var out []*Term
				for _, c := range a.Args {
					xs := append([]*Term{}, body.Args...)
					xs[i] = c
					out = append(out, Forall(vars, Or(xs...), pats...))
				}
				return And(out...)
			}
			if a.Op == "forall" {
				// one quantifier over both
				fresh := map[*Term]*Term{}
				vs := append([]*Term{}, vars...)
				for _, b := range a.Bnd {
					fresh[b] = BVar("m", b.Sort)
					vs = append(vs, fresh[b])
				}
				xs := append([]*Term{}, body.Args...)
				xs[i] = Subst(a.Args[0], fresh)
				var ps [][]*Term
				add := func(p []*Term) {
					if len(ps) < 6 {
						ps = append(ps, p)
					}
				}
				for _, p := range a.Pats {
					q := make([]*Term, len(p))
					for j, t := range p {
						q[j] = Subst(t, fresh)
					}
					if bindsAll(vs, q) {
						add(q)
						continue
					}
					for _, o := range pats {
						if r := append(append([]*Term{}, q...), o...); bindsAll(vs, r) {
							add(r)
						}
					}
				}
				if len(ps) > 0 {
					return Forall(vs, Or(xs...), ps...)
				}
			}
		}
	}
	pats = cleanPats(vars, pats)
	// the bound variables are named after the nesting depth, so that equal
	// quantifiers are one term
	d := qdepth(body) + 1
	m := map[*Term]*Term{}
	bnd := make([]*Term, len(vars))
	for i, v := range vars {
		bnd[i] = BVarN(fmt.Sprintf("q%d_%d", d, i), v.Sort)
		if bnd[i] != v {
			m[v] = bnd[i]
		}
	}
	if len(m) > 0 {
		body = Subst(body, m)
		if body.Op == "true" || body.Op == "false" {
			return body
		}
		for i, p := range pats {
			q := make([]*Term, len(p))
			for j, t := range p {
				q[j] = Subst(t, m)
			}
			pats[i] = q
		}
	}
	return mk(&Term{Op: "forall", Bnd: bnd, Args: []*Term{body}, Pats: pats, Sort: SBool})
}

func hasForall(a *Term) bool {
	for _, c := range a.Args {
		if c.Op == "forall" || c.Op == "or" && hasForall(c) || c.Op == "and" && hasForall(c) {
			return true
		}
	}
	return false
}

func bindsAll(vars, ts []*Term) bool {
	for _, v := range vars {
		ok := false
		collect(ts, map[int]bool{}, func(x *Term) { ok = ok || x == v })
		if !ok {
			return false
		}
	}
	return true
}

// cleanPats drops what cannot be matched on (connectives, conditionals) from
// patterns, keeping the subterms that can and still bind every variable.
func cleanPats(vars []*Term, pats [][]*Term) [][]*Term {
	var bad func(t *Term) bool
	seen := map[int]bool{}
	bad = func(t *Term) bool {
		switch t.Op {
		case "and", "or", "not", "ite", "=", "forall", "<", "<=", "+", "*", "gfold", "card":
			if t.fv || t.Op != "+" {
				return true
			}
		}
		for k, a := range t.Args {
			if t.Op == "select" && k == 1 && a.Op == "+" {
				// an offset from a bound variable
				n := 0
				for _, s := range a.Args {
					if s.Op == "bv" {
						n++
					} else if s.fv && bad(s) {
						return true
					}
				}
				if n == 1 {
					continue
				}
			}
			if a.fv && bad(a) {
				return true
			}
		}
		return t.Op == "store" && t.fv
	}
	binds := func(ts []*Term) bool {
		for _, v := range vars {
			ok := false
			for _, t := range ts {
				collect([]*Term{t}, map[int]bool{}, func(x *Term) { ok = ok || x == v })
			}
			if !ok {
				return false
			}
		}
		return true
	}
	var out [][]*Term
	for _, p := range pats {
		ok := true
		for _, t := range p {
			ok = ok && !bad(t)
		}
		if ok {
			out = append(out, p)
			continue
		}
		// pieces
		var good []*Term
		var rec func(t *Term)
		rec = func(t *Term) {
			if !t.fv || t.Op == "bv" {
				return
			}
			if (t.Op == "select" || t.Op == "app") && !bad(t) {
				good = append(good, t)
				return
			}
			for _, a := range t.Args {
				rec(a)
			}
		}
		for _, t := range p {
			rec(t)
		}
		if len(p) > 1 {
			if binds(good) && len(good) <= 4 {
				out = append(out, good)
			}
			continue
		}
		for _, g := range good {
			if binds([]*Term{g}) && !seen[g.ID] {
				seen[g.ID] = true
				out = append(out, []*Term{g})
			}
		}
	}
	return out
}

// ---- substitution

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if y, ok := m[x]; ok {
			return y
		}
		if len(x.Args) == 0 {
			return x
		}
		if y, ok := memo[x]; ok {
			return y
		}
		for _, b := range x.Bnd {
			if _, ok := m[b]; ok && x.Op == "forall" {
				// shadowed
				m2 := map[*Term]*Term{}
				for k, v := range m {
					m2[k] = v
				}
				for _, b := range x.Bnd {
					delete(m2, b)
				}
				y := x
				if len(m2) > 0 {
					y = Subst(x, m2)
				}
				memo[x] = y
				return y
			}
		}
		args := make([]*Term, len(x.Args))
		ch := false
		for i, a := range x.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		y := x
		if ch {
			y = rebuild(x, args)
			if x.Op == "forall" {
				var pats [][]*Term
				for _, p := range x.Pats {
					var q []*Term
					for _, a := range p {
						q = append(q, rec(a))
					}
					pats = append(pats, q)
				}
				y = Forall(x.Bnd, args[0], pats...)
			}
		}
		memo[x] = y
		return y
	}
	return rec(t)
}

func rebuild(x *Term, args []*Term) *Term {
	switch x.Op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		return Add(args...)
	case "*":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "ctor":
		return Ctor(x.Sort, args...)
	case "acc":
		for i, f := range args[0].Sort.Fields {
			if f.Name == x.Name {
				return Acc(args[0], i)
			}
		}
		panic("acc")
	case "constarr":
		return ConstArr(x.Sort, args[0])
	case "card":
		return Card(args[0])
	case "gfold":
		return GFold(x.Name, args[0], x.Bnd[0], args[1], args[2])
	case "div":
		if args[1].Op == "int" && args[0].Op == "int" {
			return FloorDiv(args[0], args[1])
		}
	}
	if strings.HasPrefix(x.Op, "str.") {
		return StrOp(x.Op, x.Sort, args...)
	}
	return mk(&Term{Op: x.Op, Name: x.Name, N: x.N, Args: args, Sort: x.Sort, Bnd: x.Bnd, Pats: x.Pats})
}

// ---- strings

func StrOp(op string, s *Sort, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if !isLit(a) {
			all = false
		}
	}
	switch op {
	case "str.len":
		if args[0].Op == "str" {
			return Int(int64(len(args[0].Name)))
		}
		if args[0].Op == "str.++" {
			var xs []*Term
			for _, a := range args[0].Args {
				xs = append(xs, StrOp("str.len", SInt, a))
			}
			return Add(xs...)
		}
		if args[0].Op == "ite" {
			return Ite(args[0].Args[0], StrOp(op, s, args[0].Args[1]), StrOp(op, s, args[0].Args[2]))
		}
	case "str.++":
		var xs []*Term
		for _, a := range args {
			if a.Op == "str.++" {
				xs = append(xs, a.Args...)
			} else {
				xs = append(xs, a)
			}
		}
		var ys []*Term
		for _, a := range xs {
			if a.Op == "str" && a.Name == "" {
				continue
			}
			if a.Op == "str" && len(ys) > 0 && ys[len(ys)-1].Op == "str" {
				ys[len(ys)-1] = Str(ys[len(ys)-1].Name + a.Name)
				continue
			}
			ys = append(ys, a)
		}
		if len(ys) == 0 {
			return Str("")
		}
		if len(ys) == 1 {
			return ys[0]
		}
		return mk(&Term{Op: op, Args: ys, Sort: s})
	case "str.contains":
		if all {
			return Bool(strings.Contains(args[0].Name, args[1].Name))
		}
	case "str.prefixof":
		if all {
			return Bool(strings.HasPrefix(args[1].Name, args[0].Name))
		}
		if args[0].Op == "str" && args[0].Name == "" {
			return TTrue
		}
		if args[0].Op == "str" && shortASCII(args[0].Name) && args[1].Op != "str.++" && args[1].Op != "ite" {
			return codesAt(args[1], 0, args[0].Name)
		}
		if a, b := parts(args[0]), parts(args[1]); len(b) > 1 && len(a) <= len(b) {
			same := true
			for i := range a {
				same = same && a[i] == b[i]
			}
			if same {
				return TTrue
			}
		}
	case "str.suffixof":
		if all {
			return Bool(strings.HasSuffix(args[1].Name, args[0].Name))
		}
		if a, b := parts(args[0]), parts(args[1]); len(b) > 1 && len(a) <= len(b) {
			same := true
			for i := range a {
				same = same && a[len(a)-1-i] == b[len(b)-1-i]
			}
			if same {
				return TTrue
			}
		}
	case "str.<":
		if all {
			return Bool(args[0].Name < args[1].Name)
		}
	}
	return mk(&Term{Op: op, Args: args, Sort: s})
}

// parts: what a text is joined of.
func parts(t *Term) []*Term {
	if t.Op == "str.++" {
		return t.Args
	}
	return []*Term{t}
}

func shortASCII(s string) bool {
	if len(s) == 0 || len(s) > 24 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// codesAt: the bytes of lit stand in s from off on.
func codesAt(s *Term, off int64, lit string) *Term {
	cs := []*Term{Le(Int(off+int64(len(lit))), StrLen(s))}
	for i := 0; i < len(lit); i++ {
		cs = append(cs, Eq(StrOp("str.to_code", SInt, StrOp("str.at", SStr, s, Int(off+int64(i)))), Int(int64(lit[i]))))
	}
	return And(cs...)
}

func StrLen(a *Term) *Term    { return StrOp("str.len", SInt, a) }
func Concat(a, b *Term) *Term { return StrOp("str.++", SStr, a, b) }

func (t *Term) String() string {
	switch t.Op {
	case "sym", "bv":
		return t.Name
	case "int":
		return t.N.String()
	case "str":
		return fmt.Sprintf("%q", t.Name)
	case "true", "false":
		return t.Op
	}
	var sb strings.Builder
	sb.WriteByte('(')
	if t.Op == "app" || t.Op == "ctor" || t.Op == "acc" {
		sb.WriteString(t.Name)
	} else {
		sb.WriteString(t.Op)
	}
	for _, a := range t.Args {
		sb.WriteByte(' ')
		s := a.String()
		if len(s) > 400 {
			s = s[:400] + "…"
		}
		sb.WriteString(s)
	}
	sb.WriteByte(')')
	return sb.String()
}
