package main

import (
	"regexp/syntax"
	"strings"
)

// Regular expressions anchored at the start whose alternatives are sequences of
// character classes, at most the last of them repeated, get their exact meaning;
// others stay uninterpreted.

type reItem struct {
	lo, hi   []rune // ranges
	min, max int    // max < 0: unbounded
}

type reAlt struct {
	items      []reItem
	start, end bool
}

func reAlts(expr string) []reAlt {
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return nil
	}
	as, ok := reExpand(re)
	if !ok {
		return nil
	}
	for _, a := range as {
		if !a.start {
			return nil
		}
	}
	return as
}

func reExpand(re *syntax.Regexp) ([]reAlt, bool) {
	switch re.Op {
	case syntax.OpEmptyMatch:
		return []reAlt{{}}, true
	case syntax.OpLiteral:
		if re.Flags&syntax.FoldCase != 0 {
			return nil, false
		}
		var a reAlt
		for _, r := range re.Rune {
			a.items = append(a.items, reItem{lo: []rune{r}, hi: []rune{r}, min: 1, max: 1})
		}
		return []reAlt{a}, true
	case syntax.OpCharClass:
		it := reItem{min: 1, max: 1}
		for i := 0; i+1 < len(re.Rune); i += 2 {
			it.lo = append(it.lo, re.Rune[i])
			it.hi = append(it.hi, re.Rune[i+1])
		}
		return []reAlt{{items: []reItem{it}}}, true
	case syntax.OpBeginText:
		return []reAlt{{start: true}}, true
	case syntax.OpEndText:
		return []reAlt{{end: true}}, true
	case syntax.OpCapture:
		return reExpand(re.Sub[0])
	case syntax.OpQuest:
		as, ok := reExpand(re.Sub[0])
		if !ok {
			return nil, false
		}
		if re.Flags&syntax.NonGreedy != 0 {
			return append([]reAlt{{}}, as...), true
		}
		return append(as, reAlt{}), true
	case syntax.OpStar, syntax.OpPlus, syntax.OpRepeat:
		as, ok := reExpand(re.Sub[0])
		if !ok || len(as) != 1 || len(as[0].items) != 1 || as[0].start || as[0].end {
			return nil, false
		}
		it := as[0].items[0]
		if it.min != 1 || it.max != 1 {
			return nil, false
		}
		switch re.Op {
		case syntax.OpStar:
			it.min, it.max = 0, -1
		case syntax.OpPlus:
			it.min, it.max = 1, -1
		default:
			it.min, it.max = re.Min, re.Max
		}
		return []reAlt{{items: []reItem{it}}}, true
	case syntax.OpAlternate:
		var out []reAlt
		for _, s := range re.Sub {
			as, ok := reExpand(s)
			if !ok {
				return nil, false
			}
			out = append(out, as...)
		}
		return out, true
	case syntax.OpConcat:
		out := []reAlt{{}}
		for _, s := range re.Sub {
			as, ok := reExpand(s)
			if !ok {
				return nil, false
			}
			var nw []reAlt
			for _, o := range out {
				for _, a := range as {
					if o.end && len(a.items) > 0 || a.start && len(o.items) > 0 {
						return nil, false
					}
					nw = append(nw, reAlt{items: append(append([]reItem{}, o.items...), a.items...), start: o.start || a.start, end: o.end || a.end})
				}
			}
			out = nw
		}
		if len(out) > 64 {
			return nil, false
		}
		return out, true
	}
	return nil, false
}

func strAtCode(s, i *Term) *Term { return StrOp("str.to_code", SInt, StrOp("str.at", SStr, s, i)) }

// in: the byte c belongs to the class
func (it reItem) in(c *Term) (*Term, bool) {
	var ts []*Term
	for i := range it.lo {
		lo, hi := it.lo[i], it.hi[i]
		if lo > 127 {
			return nil, false
		}
		switch {
		case lo == hi:
			ts = append(ts, Eq(c, Int(int64(lo))))
		case hi > 127:
			if hi < 0x10FFFF {
				return nil, false
			}
			ts = append(ts, Le(Int(int64(lo)), c))
		default:
			ts = append(ts, And(Le(Int(int64(lo)), c), Le(c, Int(int64(hi)))))
		}
	}
	return Or(ts...), true
}

func (it reItem) wide() bool {
	for _, h := range it.hi {
		if h > 127 {
			return true
		}
	}
	return false
}

// cond: the alternative matches s from the start; n is the length of the match
// when fixed.
func (a reAlt) cond(s *Term) (c *Term, n int, ok bool) {
	var cs []*Term
	n = 0
	for i, it := range a.items {
		last := i == len(a.items)-1
		if it.min == 1 && it.max == 1 {
			if it.wide() && (!last || a.end) {
				return nil, 0, false
			}
			b, ok := it.in(strAtCode(s, Int(int64(n))))
			if !ok {
				return nil, 0, false
			}
			cs = append(cs, b)
			n++
			continue
		}
		if !last || it.wide() {
			return nil, 0, false
		}
		if it.min == it.max && it.min <= 64 && !a.end || !a.end {
			return nil, 0, false
		}
		ln := StrLen(s)
		k := Int(int64(n))
		cs = append(cs, Le(Int(int64(n+it.min)), ln))
		if it.max >= 0 {
			cs = append(cs, Le(ln, Int(int64(n+it.max))))
		}
		v := BVar("i", SInt)
		b, ok := it.in(strAtCode(s, v))
		if !ok {
			return nil, 0, false
		}
		body := Imp(And(Le(k, v), Lt(v, ln)), b)
		cs = append(cs, Forall([]*Term{v}, body, []*Term{strAtCode(s, v)}))
		return And(cs...), -1, true
	}
	if a.end {
		cs = append([]*Term{Eq(StrLen(s), Int(int64(n)))}, cs...)
	} else {
		cs = append([]*Term{Le(Int(int64(n)), StrLen(s))}, cs...)
	}
	return And(cs...), n, true
}

func reMatch(expr string, s *Term) *Term {
	as := reAlts(expr)
	if as == nil {
		return App("rematch", SBool, Str(expr), s)
	}
	var ts []*Term
	for _, a := range as {
		c, _, ok := a.cond(s)
		if !ok {
			return App("rematch", SBool, Str(expr), s)
		}
		ts = append(ts, c)
	}
	return Or(ts...)
}

func reReplace(expr string, s, repl *Term) *Term {
	uf := App("rereplace", SStr, Str(expr), s, repl)
	as := reAlts(expr)
	if as == nil || repl.Op != "str" || strings.Contains(repl.Name, "$") {
		return uf
	}
	r := s
	for i := len(as) - 1; i >= 0; i-- {
		c, n, ok := as[i].cond(s)
		if !ok || n < 0 {
			return uf
		}
		rest := substr(s, Int(int64(n)), Sub(StrLen(s), Int(int64(n))))
		if repl.Name != "" {
			rest = Concat(repl, rest)
		}
		r = Ite(c, rest, r)
	}
	return r
}
