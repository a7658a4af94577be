package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---- query construction ----------------------------------------------------

// A definitional axiom generator: given an application term returns extra
// facts about it. Registered per UF name.
var unfolders = map[string]func(t *Term) []*Term{}

const unfoldFuel = 3

type Query struct {
	Text    string // strings abstracted to an uninterpreted sort with axioms
	StrText string // with the theory of strings ("" when not needed)
}

// collect gathers all subterms (not crossing into bound contexts for
// instance axioms: terms with free bound variables are skipped for
// instantiation).
func collect(roots []*Term, seen map[int]bool, visit func(t *Term)) {
	var stack []*Term
	for _, r := range roots {
		stack = append(stack, r)
	}
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[t.ID] {
			continue
		}
		seen[t.ID] = true
		visit(t)
		for _, a := range t.Args {
			if !seen[a.ID] {
				stack = append(stack, a)
			}
		}
		for _, p := range t.Pats {
			for _, a := range p {
				if !seen[a.ID] {
					stack = append(stack, a)
				}
			}
		}
	}
}

func isStrSpecific(t *Term) bool {
	return strings.HasPrefix(t.Op, "str.") || strings.HasPrefix(t.Op, "re.")
}

// skolem names the values a universally quantified goal is about, so that the
// definitions of specification functions can be unfolded at them.
func skolem(t *Term) *Term {
	switch t.Op {
	case "forall":
		m := map[*Term]*Term{}
		for _, v := range t.Bnd {
			m[v] = Fresh("sk", v.Sort)
		}
		return skolem(Subst(t.Args[0], m))
	case "and", "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, skolem(a))
		}
		if t.Op == "and" {
			return And(as...)
		}
		return Or(as...)
	case "ite":
		if t.Sort == SBool {
			return Ite(t.Args[0], skolem(t.Args[1]), skolem(t.Args[2]))
		}
	}
	return t
}

func buildQuery(asm []*Term, goal *Term, fuel int) *Query {
	roots := append([]*Term{}, asm...)
	if goal != nil {
		goal = skolem(goal)
		roots = append(roots, Not(goal))
	}
	seen := map[int]bool{}
	level := map[int]int{}
	var axioms []*Term
	axSeen := map[int]bool{}
	cur := roots
	selectsOf := map[int]map[int]*Term{} // array term id -> index terms
	var cards []*Term
	for lvl := 0; lvl <= fuel && len(cur) > 0; lvl++ {
		var next []*Term
		add := func(t *Term) {
			if t.Op == "true" || axSeen[t.ID] {
				return
			}
			axSeen[t.ID] = true
			axioms = append(axioms, t)
			next = append(next, t)
		}
		l := lvl
		collect(cur, seen, func(t *Term) {
			level[t.ID] = l
			if t.fv {
				return
			}
			switch t.Op {
			case "sym":
				if strings.HasPrefix(t.Name, "H0:D:") && t.Sort.Elem != nil {
					add(Eq(Select(t, Int(0)), ConstArr(t.Sort.Elem, TFalse)))
				}
			case "app":
				if u, ok := unfolders[t.Name]; ok && l < fuel {
					for _, a := range u(t) {
						add(a)
					}
				}
			case "card":
				cards = append(cards, t)
				for _, a := range cardAxioms(t) {
					add(a)
				}
			case "gfold":
				for _, a := range foldAxioms(t) {
					add(a)
				}
			case "select":
				if t.Args[0].Sort.Elem == SBool {
					m := selectsOf[t.Args[0].ID]
					if m == nil {
						m = map[int]*Term{}
						selectsOf[t.Args[0].ID] = m
					}
					m[t.Args[1].ID] = t.Args[1]
				}
			}
		})
		cur = next
	}
	// membership/cardinality instances
	for _, c := range cards {
		for _, k := range selectsOf[c.Args[0].ID] {
			axioms = append(axioms, Imp(Select(c.Args[0], k), Le(Int(1), c)))
		}
	}
	// gfold any: membership instances
	all := append(append([]*Term{}, roots...), axioms...)
	var folds []*Term
	collect(all, map[int]bool{}, func(t *Term) {
		if t.Op == "gfold" && !t.fv {
			folds = append(folds, t)
		}
	})
	for _, f := range folds {
		for _, k := range selectsOf[f.Args[0].ID] {
			for _, a := range foldMember(f, k) {
				axioms = append(axioms, a)
			}
		}
	}
	split := foldSplits(folds)
	axioms = append(axioms, split...)
	fseen := map[int]bool{}
	for _, f := range folds {
		fseen[f.ID] = true
	}
	collect(split, map[int]bool{}, func(t *Term) {
		if t.Op == "gfold" && !t.fv && !fseen[t.ID] {
			folds = append(folds, t)
		}
	})
	axioms = append(axioms, foldPairs(folds)...)
	axioms = append(axioms, cardPairs(cards)...)
	r := &Query{}
	var us bool
	r.Text, us = printQuery(axioms, asm, goal, false)
	if us {
		r.StrText, _ = printQuery(axioms, asm, goal, true)
	}
	return r
}

// foldSplits: a fold over a set is the fold over the set without a key,
// joined with the key's own value. The keys tried are those at which a set or
// a summand is updated.
func foldSplits(folds []*Term) (out []*Term) {
	keys := map[*Sort][]*Term{}
	for _, f := range folds {
		seen := map[int]bool{}
		collect([]*Term{f.Args[0], f.Args[1]}, seen, func(t *Term) {
			if t.Op == "store" && !t.Args[1].fv && t.Args[1].Sort == f.Bnd[0].Sort {
				for _, k := range keys[t.Args[1].Sort] {
					if k == t.Args[1] {
						return
					}
				}
				keys[t.Args[1].Sort] = append(keys[t.Args[1].Sort], t.Args[1])
			}
		})
	}
	n := 0
	for _, f := range folds {
		bv := f.Bnd[0]
		for _, k := range keys[bv.Sort] {
			if n++; n > 100 {
				if debug {
					fmt.Println("fold splits truncated", len(folds), len(keys[bv.Sort]))
				}
				return
			}
			set := Store(f.Args[0], k, TFalse)
			base := GFold(f.Name, set, bv, f.Args[1], f.Args[2])
			v := Subst(f.Args[1], map[*Term]*Term{bv: k})
			out = append(out, Eq(f, Ite(Select(f.Args[0], k), foldStep(f.Name, base, v), base)))
		}
	}
	return
}

// foldPairs: two folds over the same set are equal unless the summands differ
// somewhere; a sum of non-negative terms is not negative.
func foldPairs(folds []*Term) (out []*Term) {
	n := 0
	shape := map[*Term]string{}
	for _, f := range folds {
		shape[f] = foldShape(f)
	}
	removed := func(t *Term) *Term {
		if x := t.Args[0]; x.Op == "store" && x.Args[2].Op == "false" {
			return x.Args[1]
		}
		return nil
	}
	for i, a := range folds {
		if a.Name == "sum" && removed(a) == nil {
			w := App(fmt.Sprintf("foldw_%d", a.ID), a.Bnd[0].Sort)
			out = append(out, Or(Le(a.Args[2], a), And(Select(a.Args[0], w), Lt(Subst(a.Args[1], map[*Term]*Term{a.Bnd[0]: w}), Int(0)))))
		}
		for _, b := range folds[i+1:] {
			if b.Name != a.Name || b.Args[2] != a.Args[2] || b.Args[0].Sort != a.Args[0].Sort || b == a || removed(a) != removed(b) || shape[a] != shape[b] {
				continue
			}
			if n++; n > 150 {
				if debug {
					fmt.Println("fold pairs truncated", len(folds))
				}
				return
			}
			w := App(fmt.Sprintf("foldw_%d_%d", a.ID, b.ID), a.Bnd[0].Sort)
			b1 := Subst(a.Args[1], map[*Term]*Term{a.Bnd[0]: w})
			b2 := Subst(b.Args[1], map[*Term]*Term{b.Bnd[0]: w})
			out = append(out, Or(Eq(a, b), Not(Eq(Select(a.Args[0], w), Select(b.Args[0], w))), And(Select(a.Args[0], w), Not(Eq(b1, b2)))))
		}
	}
	return
}

// foldShape names the fields a fold's body reads at its own variable; only
// folds that read the same ones are compared.
func foldShape(f *Term) string {
	memo := map[int]bool{}
	var dep func(x *Term) bool
	dep = func(x *Term) bool {
		if x == f.Bnd[0] {
			return true
		}
		if !x.fv {
			return false
		}
		if r, ok := memo[x.ID]; ok {
			return r
		}
		r := false
		for _, a := range x.Args {
			r = dep(a) || r
		}
		memo[x.ID] = r
		return r
	}
	names := map[string]bool{}
	seen := map[int]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x.ID] || !dep(x) {
			return
		}
		seen[x.ID] = true
		if len(x.Args) == 1 {
			names[x.Op+" "+x.Name] = true
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(f.Args[1])
	var ss []string
	for n := range names {
		ss = append(ss, n)
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

// cardPairs: a set is not larger than one that includes it.
func cardPairs(cards []*Term) (out []*Term) {
	n := 0
	for i, a := range cards {
		for _, b := range cards[i+1:] {
			if a.Args[0].Sort != b.Args[0].Sort || a == b {
				continue
			}
			if n++; n > 60 {
				return
			}
			// a subset is not larger
			le := func(a, b *Term) *Term {
				w := App(fmt.Sprintf("cardw_%d_%d", a.ID, b.ID), a.Args[0].Sort.Idx)
				return Or(Le(a, b), And(Select(a.Args[0], w), Not(Select(b.Args[0], w))))
			}
			out = append(out, le(a, b), le(b, a))
		}
	}
	return
}

func cardAxioms(t *Term) []*Term {
	x := t.Args[0]
	out := []*Term{Le(Int(0), t)}
	switch x.Op {
	case "store":
		y := Card(x.Args[0])
		k := x.Args[1]
		in := Select(x.Args[0], k)
		switch x.Args[2].Op {
		case "true":
			out = append(out, Eq(t, Add(y, Ite(in, Int(0), Int(1)))))
		case "false":
			out = append(out, Eq(t, Sub(y, Ite(in, Int(1), Int(0)))))
		}
	case "ite":
		out = append(out, Eq(t, Ite(x.Args[0], Card(x.Args[1]), Card(x.Args[2]))))
	}
	out = append(out, Imp(Eq(t, Int(0)), Eq(x, ConstArr(x.Sort, TFalse))))
	w := App("card_wit_"+cleanName(x.Sort.Name), x.Sort.Idx, x)
	out = append(out, Imp(Lt(Int(0), t), Select(x, w)))
	return out
}

func Card(x *Term) *Term {
	if x.Op == "constarr" && x.Args[0].Op == "false" {
		return Int(0)
	}
	return mk(&Term{Op: "card", Args: []*Term{x}, Sort: SInt})
}

// gfold: Name = kind, Args = [set, body(bv canonical), init]; Bnd = [bv]
// kinds: sum, any, max, min, cnt
func GFold(kind string, set, bv, body, init *Term) *Term {
	if set.Op == "constarr" && set.Args[0].Op == "false" {
		return init
	}
	if kind == "sum" && body.Op == "int" && body.N.IsInt64() && body.N.Int64() == 1 && init.Op == "int" && init.N.Sign() == 0 {
		return Card(set)
	}
	t := &Term{Op: "gfold", Name: kind, Args: []*Term{set, body, init}, Bnd: []*Term{bv}, Sort: init.Sort}
	return mkFold(t)
}

func mkFold(t *Term) *Term {
	r := mk(t)
	// recompute fv: the body's own bound variable does not count
	fv := r.Args[0].fv || r.Args[2].fv
	if !fv && r.Args[1].fv {
		own := r.Bnd[0]
		seen := map[int]bool{}
		var rec func(x *Term) bool
		rec = func(x *Term) bool {
			if !x.fv || seen[x.ID] {
				return false
			}
			seen[x.ID] = true
			if x.Op == "bv" {
				return x != own
			}
			for _, a := range x.Args {
				if rec(a) {
					return true
				}
			}
			return false
		}
		fv = rec(r.Args[1])
	}
	r.fv = fv
	return r
}

func foldStep(kind string, acc, v *Term) *Term {
	switch kind {
	case "sum":
		return Add(acc, v)
	case "any":
		return Or(acc, v)
	case "max":
		return MaxT(acc, v)
	case "min":
		return MinT(acc, v)
	}
	panic("fold kind " + kind)
}

func foldAxioms(t *Term) []*Term {
	x, body, init := t.Args[0], t.Args[1], t.Args[2]
	bv := t.Bnd[0]
	switch x.Op {
	case "store":
		base := GFold(t.Name, x.Args[0], bv, body, init)
		k := x.Args[1]
		v := Subst(body, map[*Term]*Term{bv: k})
		in := Select(x.Args[0], k)
		switch x.Args[2].Op {
		case "true":
			return []*Term{Eq(t, Ite(in, base, foldStep(t.Name, base, v)))}
		}
	case "ite":
		return []*Term{Eq(t, Ite(x.Args[0], GFold(t.Name, x.Args[1], bv, body, init), GFold(t.Name, x.Args[2], bv, body, init)))}
	default:
		if x.Op != "constarr" {
			out := []*Term{Imp(Eq(x, ConstArr(x.Sort, TFalse)), Eq(t, init))}
			if t.Name == "any" {
				w := App("any_wit_"+cleanName(x.Sort.Name), x.Sort.Idx, x, Int(int64(body.ID)))
				out = append(out, Imp(And(t, Not(init)), And(Select(x, w), Subst(body, map[*Term]*Term{bv: w}))))
			}
			return out
		}
	}
	return nil
}

func foldMember(t *Term, k *Term) []*Term {
	x, body := t.Args[0], t.Args[1]
	bv := t.Bnd[0]
	v := Subst(body, map[*Term]*Term{bv: k})
	switch t.Name {
	case "any":
		return []*Term{Imp(And(Select(x, k), v), t)}
	case "max":
		return []*Term{Imp(Select(x, k), Le(v, t))}
	case "min":
		return []*Term{Imp(Select(x, k), Le(t, v))}
	}
	return nil
}

type printer struct {
	useStr  bool
	names   map[int]string
	out     *strings.Builder
	decl    *strings.Builder
	syms    map[string]bool
	funs    map[string]bool
	sorts   map[string]bool
	strs    map[string]string
	cnt     map[int]int
	foldIDs map[string]string
}

func printQuery(axioms, asm []*Term, goal *Term, useStr bool) (string, bool) {
	p := &printer{names: map[int]string{}, out: &strings.Builder{}, decl: &strings.Builder{}, syms: map[string]bool{}, funs: map[string]bool{}, sorts: map[string]bool{}, strs: map[string]string{}, cnt: map[int]int{}, foldIDs: map[string]string{}}
	roots := append(append([]*Term{}, axioms...), asm...)
	if goal != nil {
		roots = append(roots, Not(goal))
	}
	p.useStr = useStr
	usesStr := false
	collect(roots, map[int]bool{}, func(t *Term) {
		if isStrSpecific(t) {
			usesStr = true
		}
		for _, a := range t.Args {
			p.cnt[a.ID]++
		}
	})
	seen := map[int]bool{}
	var lines []string
	for _, r := range roots {
		s := p.term(r)
		if s == "true" || seen[r.ID] {
			continue
		}
		seen[r.ID] = true
		// flush pending definitions
		lines = append(lines, "(assert "+s+")")
	}
	var sb strings.Builder
	ax := ""
	if !p.useStr && usesStr {
		ax = p.strAxioms()
	}
	sb.WriteString(p.decl.String())
	sb.WriteString(ax)
	if !p.useStr && len(p.strs) > 1 {
		var ns []string
		for _, n := range p.strs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		sb.WriteString("(assert (distinct " + strings.Join(ns, " ") + "))\n")
	}
	sb.WriteString(p.out.String())
	for _, l := range lines {
		sb.WriteString(l)
		sb.WriteByte('\n')
	}
	return sb.String(), usesStr
}

var ufStr = map[string]string{"str.len": "slen", "str.++": "sconcat", "str.contains": "scontains", "str.prefixof": "sprefix", "str.suffixof": "ssuffix",
	"str.<": "slt", "str.substr": "ssubstr", "str.at": "sat", "str.to_code": "scode", "str.from_code": "sfromcode", "str.indexof": "sindexof", "str.replace_all": "sreplaceall"}

// strAxioms: properties of the abstracted string operations in use.
func (p *printer) strAxioms() string {
	p.sort(SStr)
	e := p.raw(Str(""))
	var sb strings.Builder
	if p.funs["slen"] || p.funs["sconcat"] || p.funs["ssubstr"] || p.funs["sprefix"] {
		p.declFun("slen", []string{"Str"}, "Int")
		sb.WriteString("(assert (forall ((s Str)) (! (and (>= (slen s) 0) (= (= (slen s) 0) (= s " + e + "))) :pattern ((slen s)))))\n")
		var ls []string
		for l := range p.strs {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			fmt.Fprintf(&sb, "(assert (= (slen %s) %d))\n", p.strs[l], len(l))
		}
	}
	if p.funs["sconcat"] {
		sb.WriteString("(assert (forall ((a Str) (b Str)) (! (= (slen (sconcat a b)) (+ (slen a) (slen b))) :pattern ((sconcat a b)))))\n")
	}
	if p.funs["sprefix"] {
		sb.WriteString("(assert (forall ((a Str) (b Str)) (! (=> (sprefix a b) (<= (slen a) (slen b))) :pattern ((sprefix a b)))))\n")
	}
	if p.funs["ssubstr"] {
		sb.WriteString("(assert (forall ((a Str) (i Int) (n Int)) (! (and (=> (and (<= 0 i) (<= 0 n) (<= (+ i n) (slen a))) (= (slen (ssubstr a i n)) n)) (=> (and (= i 0) (= n (slen a))) (= (ssubstr a i n) a))) :pattern ((ssubstr a i n)))))\n")
	}
	if p.funs["slt"] {
		sb.WriteString("(assert (forall ((a Str) (b Str)) (! (and (not (and (slt a b) (slt b a))) (or (slt a b) (slt b a) (= a b)) (not (slt a a))) :pattern ((slt a b)))))\n")
		sb.WriteString("(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (slt a b) (slt b c)) (slt a c)) :pattern ((slt a b) (slt b c)))))\n")
	}
	return sb.String()
}

func (p *printer) declFun(n string, args []string, r string) {
	if p.funs[n] {
		return
	}
	p.funs[n] = true
	fmt.Fprintf(p.decl, "(declare-fun %s (%s) %s)\n", n, strings.Join(args, " "), r)
}

func (p *printer) sort(s *Sort) string {
	if s.Name == "Str" {
		if p.useStr {
			return "String"
		}
		if !p.sorts["Str"] {
			p.sorts["Str"] = true
			p.decl.WriteString("(declare-sort Str 0)\n")
		}
		return "Str"
	}
	if s.Idx != nil {
		return "(Array " + p.sort(s.Idx) + " " + p.sort(s.Elem) + ")"
	}
	if s.Ctor != "" {
		if !p.sorts[s.Name] {
			p.sorts[s.Name] = true
			var fs []string
			for _, f := range s.Fields {
				fs = append(fs, "("+f.Name+" "+p.sort(f.Sort)+")")
			}
			if len(fs) == 0 {
				fmt.Fprintf(p.decl, "(declare-datatypes ((%s 0)) (((%s))))\n", s.Name, s.Ctor)
			} else {
				fmt.Fprintf(p.decl, "(declare-datatypes ((%s 0)) (((%s %s))))\n", s.Name, s.Ctor, strings.Join(fs, " "))
			}
		}
		return s.Name
	}
	switch s.Name {
	case "Int", "Bool", "Real":
		return s.Name
	}
	if !p.sorts[s.Name] {
		p.sorts[s.Name] = true
		fmt.Fprintf(p.decl, "(declare-sort %s 0)\n", s.Name)
	}
	return s.Name
}

func q(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.') {
			return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(s) + "|"
		}
	}
	if s == "" || s[0] >= '0' && s[0] <= '9' {
		return "|" + s + "|"
	}
	return s
}

func (p *printer) term(t *Term) string {
	if n, ok := p.names[t.ID]; ok {
		return n
	}
	s := p.raw(t)
	if t.Op == "ite" && !t.fv && t.Sort != SBool {
		// a constant, so that patterns may mention it
		n := fmt.Sprintf("d!%d", t.ID)
		fmt.Fprintf(p.out, "(declare-fun %s () %s)\n(assert (= %s %s))\n", n, p.sort(t.Sort), n, s)
		p.names[t.ID] = n
		return n
	}
	if len(t.Args) > 0 && !t.fv && p.cnt[t.ID] > 1 && len(s) > 24 && t.Op != "forall" {
		n := fmt.Sprintf("d!%d", t.ID)
		fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", n, p.sort(t.Sort), s)
		p.names[t.ID] = n
		return n
	}
	if !t.fv {
		p.names[t.ID] = s
	}
	return s
}

func smtString(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			sb.WriteString(`""`)
		} else if c < 32 || c > 126 || c == '\\' {
			fmt.Fprintf(&sb, `\u{%x}`, c)
		} else {
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (p *printer) args(ts []*Term) string {
	var ss []string
	for _, a := range ts {
		ss = append(ss, p.term(a))
	}
	return strings.Join(ss, " ")
}

func (p *printer) raw(t *Term) string {
	switch t.Op {
	case "int":
		if t.N.Sign() < 0 {
			return "(- " + strings.TrimPrefix(t.N.String(), "-") + ")"
		}
		return t.N.String()
	case "real":
		return t.Name
	case "str":
		if p.useStr {
			return smtString(t.Name)
		}
		if n, ok := p.strs[t.Name]; ok {
			return n
		}
		n := fmt.Sprintf("str!%d", len(p.strs))
		p.strs[t.Name] = n
		p.sort(SStr)
		fmt.Fprintf(p.decl, "(declare-const %s Str) ; %q\n", n, t.Name)
		return n
	case "true", "false":
		return t.Op
	case "sym":
		n := q(t.Name)
		if !p.syms[n] {
			p.syms[n] = true
			s := p.sort(t.Sort)
			fmt.Fprintf(p.decl, "(declare-const %s %s)\n", n, s)
		}
		return n
	case "bv":
		return q(t.Name)
	case "app":
		n := q(t.Name)
		if !p.funs[n] {
			p.funs[n] = true
			var ss []string
			for _, a := range t.Args {
				ss = append(ss, p.sort(a.Sort))
			}
			rs := p.sort(t.Sort)
			fmt.Fprintf(p.decl, "(declare-fun %s (%s) %s)\n", n, strings.Join(ss, " "), rs)
		}
		if len(t.Args) == 0 {
			return n
		}
		return "(" + n + " " + p.args(t.Args) + ")"
	case "card":
		n := "card_" + cleanName(t.Args[0].Sort.Name)
		if !p.funs[n] {
			p.funs[n] = true
			fmt.Fprintf(p.decl, "(declare-fun %s (%s) Int)\n", n, p.sort(t.Args[0].Sort))
		}
		return "(" + n + " " + p.term(t.Args[0]) + ")"
	case "gfold":
		return p.fold(t)
	case "ctor":
		p.sort(t.Sort)
		if len(t.Args) == 0 {
			return t.Name
		}
		return "(" + t.Name + " " + p.args(t.Args) + ")"
	case "acc":
		p.sort(t.Args[0].Sort)
		return "(" + t.Name + " " + p.term(t.Args[0]) + ")"
	case "constarr":
		return "((as const " + p.sort(t.Sort) + ") " + p.term(t.Args[0]) + ")"
	case "forall", "exists":
		var vs []string
		for _, b := range t.Bnd {
			vs = append(vs, "("+q(b.Name)+" "+p.sort(b.Sort)+")")
		}
		body := p.term(t.Args[0])
		if len(t.Pats) > 0 {
			var ps []string
			for _, pt := range t.Pats {
				ps = append(ps, ":pattern ("+p.args(pt)+")")
			}
			body = "(! " + body + " " + strings.Join(ps, " ") + ")"
		}
		return "(" + t.Op + " (" + strings.Join(vs, " ") + ") " + body + ")"
	case "r+", "r-", "r*", "r/", "r<", "r<=", "r>", "r>=":
		return "(" + t.Op[1:] + " " + p.args(t.Args) + ")"
	}
	if isStrSpecific(t) && !p.useStr {
		n, ok := ufStr[t.Op]
		if !ok {
			n = "s_" + cleanName(t.Op)
		}
		if t.Op == "str.++" {
			p.sort(SStr)
			p.declFun(n, []string{"Str", "Str"}, "Str")
			r := p.term(t.Args[0])
			for _, a := range t.Args[1:] {
				r = "(sconcat " + r + " " + p.term(a) + ")"
			}
			return r
		}
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, p.sort(a.Sort))
		}
		p.declFun(n, ss, p.sort(t.Sort))
		return "(" + n + " " + p.args(t.Args) + ")"
	}
	return "(" + t.Op + " " + p.args(t.Args) + ")"
}

// A fold is printed as an application of a function symbol identified by the
// shape of its body; the maximal subterms of the body that do not mention the
// fold's own variable are arguments, so that equal arguments give equal folds.
func (p *printer) fold(t *Term) string {
	own := map[*Term]bool{t.Bnd[0]: true}
	memo := map[int]bool{}
	var dep func(x *Term) bool
	dep = func(x *Term) bool {
		if !x.fv {
			return false
		}
		if r, ok := memo[x.ID]; ok {
			return r
		}
		r := own[x]
		for _, a := range x.Args {
			if dep(a) {
				r = true
			}
		}
		memo[x.ID] = r
		return r
	}
	var fargs []*Term
	idx := map[int]int{}
	var shape func(x *Term) string
	shape = func(x *Term) string {
		if isLit(x) {
			return x.String()
		}
		if own[x] {
			return "$" + x.Name
		}
		if !dep(x) {
			i, ok := idx[x.ID]
			if !ok {
				i = len(fargs)
				idx[x.ID] = i
				fargs = append(fargs, x)
			}
			return fmt.Sprintf("#%d", i)
		}
		for _, b := range x.Bnd {
			if !own[b] {
				own[b] = true
				memo = map[int]bool{}
			}
		}
		s := "(" + x.Op + " " + x.Name
		for _, a := range x.Args {
			s += " " + shape(a)
		}
		return s + ")"
	}
	key := t.Name + " $" + t.Bnd[0].Name + "." + shape(t.Args[1])
	key = strings.ReplaceAll(key, "$"+t.Bnd[0].Name, "$$")
	fargs = append([]*Term{t.Args[0], t.Args[2]}, fargs...)
	var ss []string
	for _, a := range fargs {
		key += " " + a.Sort.Name
		ss = append(ss, p.sort(a.Sort))
	}
	n, ok := p.foldIDs[key]
	if !ok {
		n = fmt.Sprintf("fold_%s_%d", t.Name, len(p.foldIDs))
		p.foldIDs[key] = n
		p.declFun(n, ss, p.sort(t.Sort))
	}
	return "(" + n + " " + p.args(fargs) + ")"
}

// ---- solvers ----------------------------------------------------------------

type SolverSpec struct {
	Name string
	Cmd  []string
	Pre  string
}

var solverSpecs = []SolverSpec{
	{"z3-new", []string{"z3-new", "-in", "-smt2"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n"},
	{"z3-new-mbqi", []string{"z3-new", "-in", "-smt2"}, ""},
	{"z3", []string{"z3", "-in", "-smt2"}, ""},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--strings-exp", "--incremental", "--tlimit-per=%TMO%", "-q"}, "(set-logic ALL)\n"},
}

type solverProc struct {
	spec SolverSpec
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	uses int
}

type SolverStat struct {
	Queries int
	Proved  int
	Time    time.Duration
}

type Pool struct {
	mu    sync.Mutex
	idle  map[string][]*solverProc
	stats map[string]*SolverStat
	sem   chan struct{}
	cache map[string]string
}

func NewPool(n int) *Pool {
	return &Pool{idle: map[string][]*solverProc{}, stats: map[string]*SolverStat{}, sem: make(chan struct{}, n), cache: map[string]string{}}
}

func (p *Pool) get(spec SolverSpec) (*solverProc, error) {
	p.mu.Lock()
	l := p.idle[spec.Name]
	if len(l) > 0 {
		s := l[len(l)-1]
		p.idle[spec.Name] = l[:len(l)-1]
		p.mu.Unlock()
		return s, nil
	}
	p.mu.Unlock()
	var args []string
	for _, a := range spec.Cmd[1:] {
		args = append(args, strings.Replace(a, "%TMO%", "10000", 1))
	}
	cmd := exec.CommandContext(context.Background(), spec.Cmd[0], args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &solverProc{spec: spec, cmd: cmd, in: in, out: bufio.NewReader(out)}, nil
}

func (p *Pool) put(s *solverProc) {
	s.uses++
	if s.uses > 200 {
		s.kill()
		return
	}
	p.mu.Lock()
	p.idle[s.spec.Name] = append(p.idle[s.spec.Name], s)
	p.mu.Unlock()
}

func (s *solverProc) kill() {
	s.in.Close()
	s.cmd.Process.Kill()
	go s.cmd.Wait()
}

func (p *Pool) Close() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, l := range p.idle {
		for _, s := range l {
			s.kill()
		}
	}
	p.idle = map[string][]*solverProc{}
}

// ask runs one query on one solver; returns "sat","unsat","unknown" or "error: ..."
func (p *Pool) ask(spec SolverSpec, text string, tmo time.Duration, stop chan struct{}) (string, string) {
	const wantModel = false
	s, err := p.get(spec)
	if err != nil {
		return "error: " + err.Error(), ""
	}
	var sb strings.Builder
	sb.WriteString("(reset)\n")
	sb.WriteString(spec.Pre)
	if wantModel {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	if strings.HasPrefix(spec.Name, "z3") {
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", tmo.Milliseconds())
	}
	sb.WriteString(text)
	sb.WriteString("(check-sat)\n(echo \"<<end>>\")\n")
	type res struct{ a, m string }
	ch := make(chan res, 1)
	start := time.Now()
	go func() {
		if _, err := io.WriteString(s.in, sb.String()); err != nil {
			ch <- res{"error: " + err.Error(), ""}
			return
		}
		ans := ""
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				ch <- res{"error: eof", ""}
				return
			}
			line = strings.TrimSpace(line)
			if strings.Contains(line, "<<end>>") {
				break
			}
			if strings.HasPrefix(line, "(error") && ans == "" {
				ans = "error: " + line
			}
			if (line == "sat" || line == "unsat" || line == "unknown" || line == "timeout") && !strings.HasPrefix(ans, "error") {
				ans = line
			}
		}
		model := ""
		if wantModel && (ans == "sat" || ans == "unknown") {
			io.WriteString(s.in, "(get-model)\n(echo \"<<end>>\")\n")
			var mb strings.Builder
			for {
				line, err := s.out.ReadString('\n')
				if err != nil || strings.Contains(line, "<<end>>") {
					break
				}
				mb.WriteString(line)
			}
			model = mb.String()
		}
		ch <- res{ans, model}
	}()
	var r res
	select {
	case r = <-ch:
	case <-stop:
		s.kill()
		return "stopped", ""
	case <-time.After(tmo + 2*time.Second):
		s.kill()
		r = res{"unknown", ""}
		p.stat(spec.Name, time.Since(start), false)
		return r.a, ""
	}
	p.stat(spec.Name, time.Since(start), r.a == "unsat")
	if strings.HasPrefix(r.a, "error") {
		s.kill()
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver error:", spec.Name, r.a)
			os.WriteFile("/tmp/govc_err.smt2", []byte(text), 0644)
		}
	} else {
		p.put(s)
	}
	return r.a, r.m
}

func (p *Pool) stat(n string, d time.Duration, proved bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	st := p.stats[n]
	if st == nil {
		st = &SolverStat{}
		p.stats[n] = st
	}
	st.Queries++
	st.Time += d
	if proved {
		st.Proved++
	}
}

// Prove: true iff some solver answers unsat. second result: solver name or last
// answer. The first solver gets a short time alone; then all of them run side
// by side and the first proof wins.
func (p *Pool) Prove(q *Query, tmos []time.Duration) (bool, string, string) {
	p.mu.Lock()
	if by, ok := p.cache[q.Text]; ok {
		p.mu.Unlock()
		return true, by, ""
	}
	p.mu.Unlock()
	done := func(by string) (bool, string, string) {
		p.mu.Lock()
		p.cache[q.Text] = by
		p.mu.Unlock()
		return true, by, ""
	}
	tmo := func(i int) time.Duration {
		if i < len(tmos) {
			return tmos[i]
		}
		return 0
	}
	first := tmo(0)
	rest := tmo(1) > 0 || tmo(2) > 0 || tmo(3) > 0
	if rest && first > 2*time.Second {
		first = 2 * time.Second
	}
	last := ""
	if first > 0 {
		a := p.askS(solverSpecs[0], q.Text, first, nil)
		if a == "unsat" {
			return done(solverSpecs[0].Name)
		}
		last = solverSpecs[0].Name + ": " + a
		if a == "sat" && q.StrText == "" {
			return false, "", "sat"
		}
	}
	type job struct {
		i    int
		text string
		tag  string
	}
	var jobs []job
	if !strings.HasSuffix(last, ": sat") {
		for i := range solverSpecs {
			if i == 0 && (!rest || tmo(0) <= first) {
				continue
			}
			if tmo(i) > 0 {
				jobs = append(jobs, job{i, q.Text, ""})
			}
		}
	}
	if q.StrText != "" {
		for _, i := range []int{1, 3} {
			if tmo(i) > 0 {
				jobs = append(jobs, job{i, q.StrText, "+strings"})
			}
		}
	}
	if len(jobs) == 0 {
		if strings.HasSuffix(last, ": sat") {
			return false, "", "sat"
		}
		return false, "", last
	}
	stop := make(chan struct{})
	type ans struct {
		j job
		a string
	}
	ch := make(chan ans, len(jobs))
	for _, j := range jobs {
		go func() { ch <- ans{j, p.askS(solverSpecs[j.i], j.text, tmo(j.i), stop)} }()
	}
	proved, sat := "", false
	for range jobs {
		r := <-ch
		name := solverSpecs[r.j.i].Name + r.j.tag
		switch {
		case r.a == "unsat" && proved == "":
			proved = name
			close(stop)
		case r.a == "sat" && (q.StrText == "" || r.j.tag != ""):
			if !sat && proved == "" {
				close(stop)
				proved = "-"
			}
			sat = true
		}
		last = name + ": " + r.a
	}
	if proved != "" && proved != "-" {
		return done(proved)
	}
	if sat {
		return false, "", "sat"
	}
	return false, "", last
}

func (p *Pool) askS(spec SolverSpec, text string, tmo time.Duration, stop chan struct{}) string {
	select {
	case p.sem <- struct{}{}:
	case <-stop:
		return "stopped"
	}
	defer func() { <-p.sem }()
	a, _ := p.ask(spec, text, tmo, stop)
	return a
}
