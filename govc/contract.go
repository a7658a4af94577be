package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Harness: one contract (or lemma) and everything needed to run it.
type Harness struct {
	Name  string
	Fn    *ssa.Function
	Pkg   string // relative package path
	Props []string
	Lemma bool
	Templ []*template
	Opts  map[string]string
}

// directives reads the //verif: comment lines of a declaration.
func directives(doc *ast.CommentGroup) map[string]string {
	out := map[string]string{}
	if doc == nil {
		return out
	}
	for _, c := range doc.List {
		if s, ok := strings.CutPrefix(c.Text, "//verif:"); ok {
			k, v, _ := strings.Cut(s, " ")
			if out[k] != "" {
				out[k] += "," + strings.TrimSpace(v)
			} else {
				out[k] = strings.TrimSpace(v)
			}
		}
	}
	return out
}

func fields(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' })
}

// Harnesses lists the contracts in the overlay.
func Harnesses(P *Program) []*Harness {
	var hs []*Harness
	var rels []string
	for r := range P.Pkgs {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	for _, rel := range rels {
		pkg := P.Pkgs[rel]
		type inv struct {
			fn *ssa.Function
			to []string
		}
		var invs []inv
		var mine []*Harness
		var names []string
		for n := range pkg.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			fn, ok := pkg.Members[n].(*ssa.Function)
			if !ok || !P.isOverlay(fn) {
				continue
			}
			d, ok := fn.Syntax().(*ast.FuncDecl)
			if !ok {
				continue
			}
			dir := directives(d.Doc)
			switch {
			case strings.HasPrefix(n, "Contract_"), strings.HasPrefix(n, "Lemma_"):
				h := &Harness{Name: n, Fn: fn, Pkg: rel, Lemma: strings.HasPrefix(n, "Lemma_"), Opts: dir, Props: fields(dir["property"])}
				mine = append(mine, h)
			case strings.HasPrefix(n, "Inv_"):
				invs = append(invs, inv{fn, fields(dir["inv"])})
			}
		}
		for _, h := range mine {
			for _, i := range invs {
				var at []string
				for _, t := range i.to {
					if strings.HasPrefix(t, "@") {
						at = append(at, "/"+t[1:])
					}
				}
				for _, t := range i.to {
					if t == h.Name || t == strings.TrimPrefix(h.Name, "Contract_") || t == "*" {
						h.Templ = append(h.Templ, &template{fn: i.fn, name: i.fn.Name(), at: at})
					}
				}
			}
		}
		hs = append(hs, mine...)
	}
	return hs
}

func newExec(P *Program, bind int) *Exec {
	x := &Exec{P: P, maxBind: bind, T: &Types{P: P, sorts: map[string]*Sort{}, names: map[string]string{}},
		loopInfo: map[*ssa.Function]*loops{}, modsets: map[string]*modset{}, cands: map[string]*candSet{},
		globals: map[*ssa.Global]Val{}, contracts: map[string]*ssa.Function{}, used: map[string]bool{}, trusted: map[string]bool{},
		specs: map[*ssa.Function]*specFn{}, inits: map[*ssa.Package]bool{}, curRec: map[string]bool{}, chanInfo: map[int]*chanInfo{},
		lemmaUse: map[string]bool{}, recCache: map[*ssa.Function]bool{}, maxSteps: 400000, deadline: time.Now().Add(150 * time.Second), feasMemo: map[string]int{}, scanCells: map[int]*scanState{}, zeroCells: map[int]bool{}}
	return x
}

// symParam: an arbitrary value of the parameter's type.
func (x *Exec) symParam(st *State, name string, t types.Type) Val {
	if isNamed(t, "context", "Context") {
		c := x.newCtx(st, "param:"+name)
		ch := c.Data.(*ChanV)
		cs := *st.cells[ch.ID].(*ChanState)
		cs.Closed = Fresh("ctxdone", SBool)
		st.cells[ch.ID] = &cs
		return c
	}
	v := x.T.sym(name, t)
	for _, f := range x.factsAny(v, t, st.alloc) {
		st.assume(f)
	}
	return v
}

type HarnessResult struct {
	H        *Harness
	Obls     []*Obligation
	Err      string
	Used     []string
	Trusted  []string
	LastEns  [][]*Term
	Vacuous  bool
	ExecTime time.Duration
	ProveT   time.Duration
}

func (x *Exec) runHarness(h *Harness) (res *HarnessResult) {
	res = &HarnessResult{H: h}
	start := time.Now()
	x.harness = h.Name
	x.hfn = h.Fn
	x.templs = h.Templ
	x.modular, x.inModular, x.modUsed = map[*ssa.Function]*ssa.Function{}, map[*ssa.Function]bool{}, map[string]bool{}
	x.modularFns(h)
	x.atCall = map[string]*FuncV{}
	x.heap0 = newHeap()
	x.alloc0 = Sym("alloc0", SInt)
	st := &State{cells: map[int]Val{}, heap: x.heap0.clone(), alloc: x.alloc0, ghost: map[string]Val{}, ghostT: map[string]types.Type{}}
	st.assume(Lt(Int(0), x.alloc0))
	x.spawned = map[string]bool{}
	for _, n := range fields(h.Opts["spawned"]) {
		x.spawned[n] = true
		st.cells[spawnCell(n, -1)] = TFalse
	}
	_, x.T.fork = h.Opts["fork"]
	defer func() {
		res.Obls = x.Obls
		res.Used = sortedKeys(x.used)
		res.Trusted = sortedKeys(x.trusted)
		res.LastEns = x.lastEns
		res.ExecTime = time.Since(start)
		if r := recover(); r != nil {
			u, ok := r.(Unsupported)
			if !ok {
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				res.Err = fmt.Sprintf("internal error: %v", r)
				return
			}
			res.Err = u.Msg
		}
	}()
	var args []Val
	for _, p := range h.Fn.Params {
		v := x.symParam(st, p.Name(), p.Type())
		st.ghost[p.Name()] = v
		st.ghostT[p.Name()] = p.Type()
		args = append(args, v)
	}
	if h.Lemma {
		x.curLemma = h.Fn
		x.lemmaArgs = args
	}
	// what is said of the inputs up to the last Requires is only assumed
	x.assuming, x.reqLeft = 0, 0
	for _, b := range h.Fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.Name() == "Requires" {
					x.reqLeft++
				}
			}
		}
	}
	if x.reqLeft > 0 && !h.Lemma {
		x.assuming = 1
	}
	for _, f := range []string{"failed", "spawnfailed"} {
		st.cells[flagCell(f)] = TFalse
	}
	st.cells[gitCell("delivered")] = &TraceV{Arr: Sym("delivered0", SArr(SInt, SInt)), Len: Int(0)}
	st.cells[gitCell("stdin")] = &TraceV{Arr: Sym("stdin0", SArr(SInt, SStr)), Len: Int(0)}
	outs := x.callFn(st, h.Fn, nil, args, h.Fn.Pos())
	if len(outs) == 0 {
		res.Err = "the contract has no terminating execution"
	}
	if x.scout != 0 || x.applying || x.recording || len(x.inModular) > 0 {
		res.Err = "internal error: the execution did not end in the mode it began in"
	}
	if x.nEnsures == 0 {
		res.Err = "the contract states nothing"
	}
	return res
}

// ---- discharging -----------------------------------------------------------

type Tier struct {
	Fast []time.Duration // invariant candidates found automatically
	Full []time.Duration
	Fuel int
	Cand time.Duration // invariant templates
	Bind int           // bindings tried per template
}

func sec(f float64) time.Duration { return time.Duration(f * float64(time.Second)) }

var quickTier = Tier{Fast: []time.Duration{sec(3), 0, 0, 0}, Cand: sec(4), Full: []time.Duration{sec(8), sec(8), 0, sec(8)}, Fuel: 2, Bind: 5}
var retryTier = Tier{Fast: []time.Duration{sec(6), sec(4), 0, 0}, Cand: sec(6), Full: []time.Duration{sec(25), sec(25), sec(5), sec(25)}, Fuel: 2, Bind: 60}
var thoroughTier = Tier{Fast: []time.Duration{sec(8), sec(4), 0, 0}, Cand: sec(12), Full: []time.Duration{sec(60), sec(60), sec(30), sec(60)}, Fuel: 3, Bind: 96}

// instantiate replaces activation symbols by their current value.
func instantiate(asm []*Term, alive map[*Term]bool) []*Term {
	var out []*Term
	for _, a := range asm {
		if a.Op == "or" && len(a.Args) >= 1 && a.Args[0].Op == "not" && strings.HasPrefix(a.Args[0].Args[0].Name, "act!") {
			if !alive[a.Args[0].Args[0]] {
				continue
			}
			if len(a.Args) == 2 {
				out = append(out, a.Args[1])
				continue
			}
			out = append(out, Or(a.Args[1:]...))
			continue
		}
		out = append(out, substAct(a, alive))
	}
	return out
}

var actMemo map[*Term]*Term

func substAct(a *Term, alive map[*Term]bool) *Term {
	m := map[*Term]*Term{}
	collect([]*Term{a}, map[int]bool{}, func(t *Term) {
		if t.Op == "sym" && strings.HasPrefix(t.Name, "act!") {
			m[t] = Bool(alive[t])
		}
	})
	if len(m) == 0 {
		return a
	}
	return Subst(a, m)
}

// slice keeps the assumptions that share symbols with the goal (transitively).
// Dropping assumptions is sound.

// keyCases: is the entry written the one the contract looks at
func keyCases(g *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	collect([]*Term{g}, map[int]bool{}, func(t *Term) {
		if t.Op != "select" || len(t.Args) != 2 || t.Args[0].Op != "store" {
			return
		}
		k, c := t.Args[0].Args[1], t.Args[1]
		if k == c || k.Op != "sym" || c.Op != "sym" || len(strings.SplitN(c.Name, "!", 2)[0]) != 2 || c.Name[1] != '0' {
			return
		}
		if eq := Eq(k, c); !seen[eq] && len(out) < 2 {
			seen[eq] = true
			out = append(out, eq)
		}
	})
	return out
}

// iteCase: the condition most terms of the goal depend on.
func iteCase(g *Term) *Term {
	n := map[*Term]int{}
	var best *Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || t.Op == "forall" || t.Op == "exists" || t.Op == "gfold" {
			return
		}
		seen[t] = true
		if t.Op == "ite" {
			c := t.Args[0]
			n[c]++
			if best == nil || n[c] > n[best] {
				best = c
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(g)
	return best
}

// stopAt: no query is started after this time.
var stopAt time.Time

func discharge(pool *Pool, res *HarnessResult, tier Tier, x *Exec) {
	start := time.Now()
	defer func() { res.ProveT = time.Since(start) }()
	alive := map[*Term]bool{}
	var inv, plain []*Obligation
	for _, o := range res.Obls {
		if o.Cand != nil {
			if !o.Cand.Alive {
				continue
			}
			alive[o.Cand.act] = true
			inv = append(inv, o)
		} else {
			plain = append(plain, o)
		}
	}
	// candidates assumed but never to be re-established stay alive
	for _, cs := range x.cands {
		for _, c := range cs.list {
			if c.Alive {
				alive[c.act] = true
			}
		}
	}
	texts := map[*Obligation]string{}
	var bmu sync.Mutex
	query := func(asm []*Term, goal *Term) (q *Query, msg string) {
		bmu.Lock()
		defer bmu.Unlock()
		defer func() {
			if r := recover(); r != nil {
				u, ok := r.(Unsupported)
				if !ok {
					u.Msg = fmt.Sprintf("internal error: %v", r)
				}
				q, msg = nil, u.Msg
			}
		}()
		return buildQuery(instantiate(asm, alive), substAct(goal, alive), tier.Fuel), ""
	}
	prove := func(o *Obligation, tm []time.Duration) bool {
		if !stopAt.IsZero() && time.Now().After(stopAt) {
			o.Status, o.Note = "failed", "no time left for this check"
			return false
		}
		q, msg := query(o.Asm, o.Goal)
		if q == nil {
			o.Status, o.Note = "failed", msg
			return false
		}
		if os.Getenv("GOVC_DUMP") != "" {
			bmu.Lock()
			texts[o] = q.Text
			bmu.Unlock()
		}
		t0 := time.Now()
		ok, by, note := pool.Prove(q, tm)
		if os.Getenv("GOVC_SLOW") != "" {
			n := ""
			if o.Cand != nil {
				n = o.Cand.Key + " " + o.Cand.Name
			}
			fmt.Printf("SLOW %.1f %v %s %s %s %s\n", time.Since(t0).Seconds(), ok, by, o.Kind, o.Pos, n)
		}
		if !ok && note != "sat" && (o.Cand == nil || o.Cand.Templ) {
			// the same entry or another one: two cases
			if eqs := keyCases(o.Goal); len(eqs) > 0 {
				bmu.Lock()
				gs := splitGoal(substAct(o.Goal, alive))
				bmu.Unlock()
				cases := [][]*Term{nil}
				for _, eq := range eqs {
					var n [][]*Term
					for _, c := range cases {
						n = append(n, append([]*Term{eq}, c...), append([]*Term{Not(eq)}, c...))
					}
					cases = n
				}
				ok = true
				for _, g := range gs {
					q, _ := query(o.Asm, g)
					if q == nil {
						ok = false
						break
					}
					if done, by1, _ := pool.Prove(q, []time.Duration{sec(1)}); done {
						by = by1
						continue
					}
					for _, c := range cases {
						if q, _ = query(append(append([]*Term{}, o.Asm...), c...), g); q == nil {
							ok = false
							break
						}
						if ok, by, note = pool.Prove(q, tm); !ok {
							break
						}
					}
					if !ok {
						break
					}
				}
			}
		}
		if _, want := res.H.Opts["cases"]; want && !ok && note != "sat" && (o.Cand == nil || o.Cand.Templ) {
			bmu.Lock()
			gs := splitGoal(substAct(o.Goal, alive))
			bmu.Unlock()
			var cases func(asm []*Term, g *Term, depth int) bool
			cases = func(asm []*Term, g *Term, depth int) bool {
				if g == TTrue || !stopAt.IsZero() && time.Now().After(stopAt) {
					return g == TTrue
				}
				q, _ := query(asm, g)
				if q == nil {
					return false
				}
				first := []time.Duration{sec(1)}
				bmu.Lock()
				c := iteCase(g)
				bmu.Unlock()
				if depth == 0 || c == nil {
					first = tm
				}
				done, by1, n1 := pool.Prove(q, first)
				if done {
					by = by1
					return true
				}
				if depth == 0 || c == nil {
					note = n1
					return false
				}
				for _, v := range []*Term{TTrue, TFalse} {
					bmu.Lock()
					l := c
					if v == TFalse {
						l = Not(c)
					}
					g2 := Subst(g, map[*Term]*Term{c: v})
					bmu.Unlock()
					if !cases(append(append([]*Term{}, asm...), l), g2, depth-1) {
						return false
					}
				}
				return true
			}
			ok = true
			for _, g := range gs {
				if ok = cases(o.Asm, g, 4); !ok {
					break
				}
			}
		}
		o.By = by
		o.Note = note
		if !ok && os.Getenv("GOVC_SPLIT") != "" && (o.Cand == nil || o.Cand.Templ) {
			bmu.Lock()
			gs := splitGoal(substAct(o.Goal, alive))
			bmu.Unlock()
			for i, g := range gs {
				q, _ := query(o.Asm, g)
				if q == nil {
					continue
				}
				if ok, _, _ := pool.Prove(q, []time.Duration{sec(3), sec(3)}); !ok {
					s := g.String()
					if len(s) > 600 {
						s = s[:600]
					}
					o.Note += fmt.Sprintf("\n        conjunct %d: %s", i, s)
					if d := os.Getenv("GOVC_DUMPCONJ"); d != "" {
						os.MkdirAll(d, 0755)
						bmu.Lock()
						dumpN++
						f := fmt.Sprintf("%s/%d.smt2", d, dumpN)
						bmu.Unlock()
						os.WriteFile(f, []byte(q.Text), 0644)
						o.Note += "\n          in " + f
					}
				}
			}
		}
		if ok {
			o.Status = "proved"
		} else {
			o.Status = "failed"
		}
		return ok
	}
	// deps: the candidates an obligation rests on. A proof stands until one of
	// them is dropped.
	deps := map[*Obligation]map[*Term]bool{}
	for _, o := range inv {
		d := map[*Term]bool{}
		collect(append(append([]*Term{}, o.Asm...), o.Goal), map[int]bool{}, func(t *Term) {
			if t.Op == "sym" && strings.HasPrefix(t.Name, "act!") {
				d[t] = true
			}
		})
		deps[o] = d
	}
	valid := map[*Obligation]bool{}
	for round := 0; ; round++ {
		var mu sync.Mutex
		killed := map[*Cand]*Obligation{}
		var wg sync.WaitGroup
		slots := make(chan struct{}, 10)
		for _, o := range inv {
			if !o.Cand.Alive || valid[o] || round == 0 && o.Kind != "inv-init" {
				continue
			}
			valid[o] = true
			o := o
			wg.Add(1)
			go func() {
				defer wg.Done()
				slots <- struct{}{}
				defer func() { <-slots }()
				mu.Lock()
				done := killed[o.Cand] != nil
				mu.Unlock()
				if done { // fails already on another path
					return
				}
				tm := tier.Fast
				if o.Cand.Templ {
					tm = []time.Duration{tier.Cand, tier.Cand, tier.Cand, tier.Cand}
				}
				if !prove(o, tm) {
					mu.Lock()
					killed[o.Cand] = o
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		for c, o := range killed {
			c.Alive = false
			if os.Getenv("GOVC_SPLIT") != "" {
				o.Note += "\n        goal: " + fmt.Sprintf("%.1500s", o.Goal.String())
			}
			c.Why = fmt.Sprintf("round %d: ", round) + o.Kind + " at " + o.Pos + " (" + o.Note + ")"
			alive[c.act] = false
			for o2 := range valid {
				if deps[o2][c.act] {
					delete(valid, o2)
				}
			}
		}
		if len(killed) == 0 && round > 0 {
			break
		}
	}
	var wg sync.WaitGroup
	for _, o := range plain {
		if o.Status == "proved" {
			continue
		}
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			prove(o, tier.Full)
		}()
	}
	wg.Wait()
	// vacuity: the assumptions at the postconditions must not be contradictory
	// on every path
	res.Vacuous = len(res.LastEns) > 0
	for i := len(res.LastEns) - 1; i >= 0 && res.Vacuous; i-- {
		q, _ := query(res.LastEns[i], TFalse)
		if q == nil {
			res.Vacuous = false
			break
		}
		ok, _, _ := pool.Prove(q, []time.Duration{sec(2), 0, 0, 0})
		res.Vacuous = ok
		if f := os.Getenv("GOVC_DUMPVAC"); f != "" && ok {
			os.WriteFile(f, []byte(q.Text), 0644)
		}
	}
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		os.MkdirAll(d, 0755)
		n := 0
		for _, o := range res.Obls {
			if t, ok := texts[o]; ok && (o.Status != "proved" || os.Getenv("GOVC_DUMPALL") != "") {
				n++
				os.WriteFile(fmt.Sprintf("%s/%s_%d.smt2", d, res.H.Name, n), []byte("; "+o.Kind+" "+o.Label+" "+o.Pos+"\n"+t+"(check-sat)\n"), 0644)
			}
		}
	}
}

// failures of a harness, excluding candidate invariants that were dropped.
func (r *HarnessResult) failures() []string {
	var out []string
	if r.Err != "" {
		out = append(out, fmt.Sprintf("%s: outside the verifier's reach: %s", r.H.Name, r.Err))
	}
	for _, o := range r.Obls {
		if o.Cand == nil && o.Status != "proved" {
			out = append(out, fmt.Sprintf("%s: %s: %s at %s [%s]", r.H.Name, o.Kind, o.Label, o.Pos, o.Note))
		}
	}
	if r.Vacuous {
		out = append(out, r.H.Name+": contradictory assumptions (vacuous proof)")
	}
	return out
}

func (r *HarnessResult) proved() (n, total int, by map[string]int) {
	by = map[string]int{}
	for _, o := range r.Obls {
		if o.Cand != nil && !o.Cand.Alive {
			continue
		}
		total++
		if o.Status == "proved" {
			n++
			by[o.By]++
		}
	}
	return
}

// applyModular: a call of a pure function of values is replaced by an unknown
// result that depends on the arguments only, its contract's preconditions
// become obligations and its postconditions facts. Parts of the contract that
// speak about parameters the function does not have are left out.
func (x *Exec) applyModular(st *State, fn, con *ssa.Function, args []Val, pos token.Pos) []exit {
	var ts []*Term
	for i, a := range args {
		ts = append(ts, x.T.toTerm(a, fn.Params[i].Type()))
	}
	var ret []Val
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		uf := fmt.Sprintf("fn_%s_%d", cleanName(fnName(fn)), i)
		var v Val
		if s, ok := t.Underlying().(*types.Slice); ok {
			v = &SliceV{Elem: s.Elem(), Arr: App(uf+"arr", SArr(SInt, x.T.sortOf(s.Elem())), ts...), Off: Int(0), Len: App(uf+"len", SInt, ts...), Tok: newTok()}
		} else {
			v = x.T.fromTerm(App(uf, x.T.sortOf(t), ts...), t, nil)
		}
		ret = append(ret, v)
		if st.gmode == 0 {
			for _, f := range x.factsAny(v, t, st.alloc) {
				st.assume(f)
			}
		}
	}
	if con == nil || x.inModular[fn] || st.gmode > 0 && !x.applying {
		return one(st, ret...)
	}
	var cargs []Val
	for i, p := range con.Params {
		if i < len(args) {
			if !types.Identical(p.Type(), fn.Params[i].Type()) {
				unsupported("%s does not take the parameters of %s", con.Name(), fn)
			}
			cargs = append(cargs, args[i])
			continue
		}
		cargs = append(cargs, x.T.sym("ghost!"+p.Name(), p.Type()))
	}
	x.inModular[fn] = true
	sv := x.noFacts
	x.noFacts = x.opaqueFn[fn]
	defer func() { x.noFacts = sv }()
	outs := x.applyLemma(st, con, cargs, pos)
	delete(x.inModular, fn)
	x.modUsed[fnName(fn)] = true
	return one(outs[0].st, ret...)
}

func mentionsGhost(c *Term) bool {
	hit := false
	collect([]*Term{c}, map[int]bool{}, func(t *Term) {
		if t.Op == "sym" && strings.HasPrefix(t.Name, "ghost!") {
			hit = true
		}
	})
	return hit
}

// modularFns: the functions a contract asks to be called by contract; of an
// opaque one only the preconditions matter.
func (x *Exec) modularFns(h *Harness) {
	x.opaqueFn = map[*ssa.Function]bool{}
	for k, n := range append(fields(h.Opts["modular"]), fields(h.Opts["opaque"])...) {
		rel, name := h.Pkg, n
		if i := strings.LastIndex(n, "."); i >= 0 {
			rel, name = n[:i], n[i+1:]
		}
		pkg := x.P.Pkgs[rel]
		if pkg == nil {
			continue
		}
		fn, _ := pkg.Members[name].(*ssa.Function)
		if fn == nil || !x.memoizable(fn) {
			continue // inlined
		}
		con, _ := pkg.Members["Contract_"+name].(*ssa.Function)
		x.modular[fn] = con
		x.opaqueFn[fn] = k >= len(fields(h.Opts["modular"]))
	}
}

// splitGoal breaks a goal into conjuncts (for diagnosis).
func splitGoal(t *Term) []*Term {
	switch t.Op {
	case "and":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case "ite":
		if t.Sort == SBool {
			var out []*Term
			for _, a := range splitGoal(t.Args[1]) {
				out = append(out, Or(Not(t.Args[0]), a))
			}
			for _, a := range splitGoal(t.Args[2]) {
				out = append(out, Or(t.Args[0], a))
			}
			return out
		}
	case "or":
		for i, a := range t.Args {
			if a.Op == "and" {
				var out []*Term
				for _, c := range splitGoal(a) {
					xs := append([]*Term{}, t.Args...)
					xs[i] = c
					out = append(out, Or(xs...))
				}
				return out
			}
		}
	}
	return []*Term{t}
}

var dumpN int
