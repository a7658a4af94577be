package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// static description of a contract function, read from the source text (so that
// it is known even when the package does not type-check).
type contractDecl struct {
	Name   string
	File   string // contract source under /verif/contracts
	Rel    string // package directory relative to the module
	Props  []string
	Params []string
	Runs   int
}

func listContracts(contracts string) ([]*contractDecl, error) {
	var out []*contractDecl
	err := filepath.Walk(contracts, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(contracts, filepath.Dir(p))
		if rel == "." {
			rel = ""
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			n := fd.Name.Name
			if !strings.HasPrefix(n, "Contract_") && !strings.HasPrefix(n, "Lemma_") && !strings.HasPrefix(n, "Bounded_") {
				continue
			}
			dir := directives(fd.Doc)
			c := &contractDecl{Name: n, File: p, Rel: rel, Props: fields(dir["property"]), Runs: 30000}
			if r, err := strconv.Atoi(dir["runs"]); err == nil {
				c.Runs = r
			}
			for _, fl := range fd.Type.Params.List {
				for _, nm := range fl.Names {
					c.Params = append(c.Params, nm.Name)
				}
			}
			out = append(out, c)
		}
		return nil
	})
	return out, err
}

func has(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

type replayOut struct {
	Failing []string // failing input reports
	Ran     map[string]int
	Log     string
	Broken  string // the test binary did not build or run
}

// replay runs contracts concretely against the real code of the package.
func replay(repo, contracts, rel string, cs []*contractDecl, exclude map[string]bool, seed, mult int, tmo time.Duration) *replayOut {
	r := &replayOut{Ran: map[string]int{}}
	dir, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		r.Broken = err.Error()
		return r
	}
	defer os.RemoveAll(dir)
	files, err := contractFiles(repo, contracts)
	if err != nil {
		r.Broken = err.Error()
		return r
	}
	rep := map[string]string{}
	for t, s := range files {
		if !exclude[s] {
			rep[t] = s
		}
	}
	// package name
	pkgName := ""
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, cs[0].File, nil, parser.PackageClauseOnly)
	if err != nil {
		r.Broken = err.Error()
		return r
	}
	pkgName = f.Name.Name
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\tghost %q\n)\n\n", pkgName, ghostPath)
	for _, c := range cs {
		if exclude[c.File] {
			continue
		}
		fmt.Fprintf(&sb, "func TestZZ_%s(t *testing.T) {\n\tghost.Run(t, %q, %s, %#v, %d, %d)\n}\n\n", c.Name, c.Name, c.Name, append([]string{}, c.Params...), seed, c.Runs*mult)
	}
	tf := filepath.Join(dir, "zz_replay_test.go")
	os.WriteFile(tf, []byte(sb.String()), 0644)
	rep[filepath.Join(repo, rel, "zz_replay_test.go")] = tf
	ents, _ := os.ReadDir(filepath.Join(repo, rel))
	// the package's own tests are not part of the replay
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			rep[filepath.Join(repo, rel, e.Name())] = ""
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, ov, 0644)
	cmd := exec.Command("go", "test", "-v", "-vet=off", "-count=1", "-overlay", of, "-run", "^TestZZ_", "-timeout", fmt.Sprintf("%ds", int(tmo.Seconds())), "./"+rel)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "TMPDIR="+dir, "VERIF_DIR="+filepath.Dir(contracts))
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err = cmd.Run()
	r.Log = buf.String()
	for _, m := range regexp.MustCompile(`zzghost: (\S+) ran=(\d+) skipped=(\d+)`).FindAllStringSubmatch(r.Log, -1) {
		a, _ := strconv.Atoi(m[2])
		s, _ := strconv.Atoi(m[3])
		r.Ran[m[1]] = a - s
	}
	parts := strings.Split(r.Log, "FAILING INPUT for ")
	for _, p := range parts[1:] {
		if i := strings.Index(p, "\n--- FAIL"); i >= 0 {
			p = p[:i]
		}
		if len(p) > 6000 {
			p = p[:6000]
		}
		r.Failing = append(r.Failing, p)
	}
	if err != nil && len(r.Failing) == 0 {
		l := r.Log
		if len(l) > 4000 {
			l = l[len(l)-4000:]
		}
		if strings.Contains(r.Log, "panic: test timed out") {
			r.Failing = append(r.Failing, "a run that does not terminate within the limit\n"+l)
		} else if strings.Contains(r.Log, "fatal error:") {
			r.Failing = append(r.Failing, "a run that crashes the process\n"+l)
		} else {
			r.Broken = l
		}
	}
	return r
}

// loadExcluding drops contract files that do not type-check against the
// current source.
func loadExcluding(repo, contracts string) (*Program, map[string]bool, error) {
	exclude := map[string]bool{}
	for i := 0; i < 6; i++ {
		P, err := Load(repo, contracts, exclude)
		if err == nil {
			return P, exclude, nil
		}
		n := 0
		files, _ := contractFiles(repo, contracts)
		for t, s := range files {
			if exclude[s] {
				continue
			}
			if strings.Contains(err.Error(), t+":") || strings.Contains(err.Error(), filepath.Base(t)+":") && strings.Contains(err.Error(), filepath.Base(filepath.Dir(t))) {
				exclude[s] = true
				n++
			}
		}
		if n == 0 {
			return nil, exclude, err
		}
	}
	return nil, exclude, fmt.Errorf("contracts do not type-check against the source")
}

type known struct {
	Fixed bool
	Prop  string
	Match string // text that a reported failure must contain
	Text  string
}

// known findings: lines "finding: property=<id> match=<text> :: description".
func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if s, ok := strings.CutPrefix(l, "finding: property="); ok {
			id, rest, _ := strings.Cut(s, " match=")
			m, text, _ := strings.Cut(rest, " :: ")
			out = append(out, known{Prop: id, Match: m, Text: text})
		}
	}
	return out
}

func runCheck(prop, tierName, repo, verif string, seed int) int {
	t0 := time.Now()
	mult := 1
	stopAt = t0.Add(560 * time.Second)
	if tierName == "thorough" {
		mult = 20
		stopAt = t0.Add(4 * time.Hour)
	}
	contracts := filepath.Join(verif, "contracts")
	decls, err := listContracts(contracts)
	if err != nil {
		fmt.Println("contracts:", err)
		return 2
	}
	var mine []*contractDecl
	for _, d := range decls {
		if has(d.Props, prop) {
			mine = append(mine, d)
		}
	}
	if len(mine) == 0 {
		fmt.Println("no contract for", prop)
		return 2
	}
	var failures []string
	failed := map[string]bool{}
	pool := NewPool(8)
	defer pool.Close()
	total, disch := 0, 0
	byBack := map[string]int{}
	used, trusted := map[string]bool{}, map[string]bool{}
	var names []string
	invs := 0
	P, exclude, err := loadExcluding(repo, contracts)
	if exclude == nil {
		exclude = map[string]bool{}
	}
	nb, nbRuns := 0, 0
	var inputs []string
	searched := map[string]bool{}
	search := func(ds []*contractDecl) {
		byPkg := map[string][]*contractDecl{}
		var rels []string
		for _, d := range ds {
			searched[d.Name] = true
			if byPkg[d.Rel] == nil {
				rels = append(rels, d.Rel)
			}
			byPkg[d.Rel] = append(byPkg[d.Rel], d)
		}
		sort.Strings(rels)
		for _, rel := range rels {
			r := replay(repo, contracts, rel, byPkg[rel], exclude, seed, mult, 200*time.Second)
			inputs = append(inputs, r.Failing...)
			for _, n := range r.Ran {
				nbRuns += n
			}
			if r.Broken != "" {
				for _, d := range byPkg[rel] {
					if strings.HasPrefix(d.Name, "Bounded_") {
						failures = append(failures, "the bounded check could not run: "+r.Broken)
						break
					}
				}
			}
		}
	}
	// bounded checks
	var bounded []*contractDecl
	for _, d := range mine {
		if strings.HasPrefix(d.Name, "Bounded_") {
			bounded = append(bounded, d)
			nb++
		}
	}
	search(bounded)
	if err != nil {
		failures = append(failures, "the source and its contracts do not load: "+err.Error())
		for _, d := range mine {
			failed[d.Name] = true
		}
	} else {
		for _, d := range mine {
			if exclude[d.File] {
				failures = append(failures, d.Name+": the contract no longer type-checks against the source")
				failed[d.Name] = true
			}
		}
		lemmas := map[string]bool{}
		done := map[string]bool{}
		hs := Harnesses(P)
		run := func(h *Harness) {
			done[h.Name] = true
			more := retryTier
			if tierName == "thorough" {
				more = thoroughTier
			}
			// nothing is gained by trying harder once an input is known to fail
			res, x := attempt(P, pool, h, more, func() bool {
				for _, d := range mine {
					if d.Name == h.Name && !searched[d.Name] && len(inputs) == 0 {
						search([]*contractDecl{d})
					}
				}
				return len(inputs) == 0 && (tierName == "thorough" || time.Since(t0) < 300*time.Second)
			})
			n, tot, by := res.proved()
			total += tot
			disch += n
			for k, v := range by {
				byBack[k] += v
			}
			for _, u := range res.Used {
				used[u] = true
			}
			for _, u := range res.Trusted {
				trusted[u] = true
			}
			for l := range x.lemmaUse {
				lemmas[l] = true
			}
			for f, con := range x.modular {
				if con != nil && x.modUsed[fnName(f)] {
					lemmas[fnName(con)] = true
				}
			}
			for _, o := range res.Obls {
				if o.Cand != nil && o.Cand.Alive {
					invs++
				}
			}
			names = append(names, h.Name)
			fs := res.failures()
			fmt.Printf("%-44s %d/%d obligations, %.1fs\n", h.Name, n, tot, (res.ExecTime + res.ProveT).Seconds())
			if len(fs) > 0 {
				failed[h.Name] = true
				failures = append(failures, fs...)
				if res.Err != "" {
					total++
				}
			}
		}
		for _, h := range hs {
			if has(h.Props, prop) {
				run(h)
			}
		}
		// lemmas the contracts rest on
		for again := true; again; {
			again = false
			for _, h := range hs {
				if !done[h.Name] && lemmas[fnName(h.Fn)] {
					run(h)
					again = true
				}
			}
		}
	}
	// for failed contracts, a search for a failing input
	var rest []*contractDecl
	for _, d := range mine {
		if failed[d.Name] && !searched[d.Name] && !strings.HasPrefix(d.Name, "Lemma_") && !strings.HasPrefix(d.Name, "Bounded_") {
			rest = append(rest, d)
		}
	}
	search(rest)
	// known findings
	kn := readKnown(filepath.Join(verif, "KNOWN-FINDINGS.txt"))
	keep := func(xs []string) []string {
		var out []string
		for _, f := range xs {
			hit := false
			for _, k := range kn {
				if k.Prop == prop && strings.Contains(f, k.Match) {
					hit = true
				}
			}
			if !hit {
				out = append(out, f)
			}
		}
		return out
	}
	for _, k := range kn {
		if k.Prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.Text)
		}
	}
	failures = keep(failures)
	inputs = keep(inputs)
	code := 0
	if len(failures) > 0 || len(inputs) > 0 {
		code = 1
		rp := filepath.Join(verif, "evidence", "replay-"+prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n\nfailed obligations:\n", prop)
		for _, f := range failures {
			fmt.Fprintf(&sb, "  %s\n", f)
			fmt.Println("failed:", strings.SplitN(f, "\n", 2)[0])
		}
		if len(inputs) > 0 {
			sb.WriteString("\ninputs on which the real code violates the contract:\n")
			for _, f := range inputs {
				fmt.Fprintf(&sb, "%s\n\n", f)
				l := f
				if len(l) > 1500 {
					l = l[:1500]
				}
				fmt.Println("failing input:", l)
			}
		}
		fmt.Fprintf(&sb, "\nrerun: cd /verif && VERIF_SEED=%d ./check.sh %s %s\n", seed, prop, tierName)
		os.MkdirAll(filepath.Dir(rp), 0755)
		os.WriteFile(rp, []byte(sb.String()), 0644)
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp)
		if len(inputs) == 0 {
			line += " no-failing-input-found"
		}
		fmt.Println(line)
	}
	var tb []string
	for k := range trusted {
		tb = append(tb, "contract of "+k)
	}
	sort.Strings(tb)
	tb = append(tb, "govc (SSA symbolic executor and VC generator)", "golang.org/x/tools/go/ssa", "z3 and cvc5",
		"machine integers treated as mathematical integers", "floating point treated as real arithmetic", "time.Time as nanoseconds since the epoch")
	st := map[string]any{}
	solverTime := 0.0
	for k, s := range pool.stats {
		st[k] = map[string]any{"queries": s.Queries, "unsat": s.Proved, "seconds": s.Time.Seconds()}
		solverTime += s.Time.Seconds()
	}
	sort.Strings(names)
	cov := map[string]any{
		"obligations": total, "discharged": disch,
		"checker_cmd":              fmt.Sprintf("./check.sh %s %s", prop, tierName),
		"trusted_base":             tb,
		"contracts":                names,
		"functions_under_contract": sortedKeys(used),
		"discharged_by":            byBack,
		"invariant_obligations":    invs,
		"solvers":                  st,
		"solver_seconds":           solverTime,
		"bounded_checks":           nb,
		"bounded_runs":             nbRuns,
	}
	ev := map[string]any{"property": prop, "tier": tierName, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": assumptionsOf(mine), "wall_s": time.Since(t0).Seconds(), "violations": len(failures) + len(inputs)}
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s: %d/%d obligations discharged, %d contracts, %d bounded checks (%d runs), %.1fs\n", prop, disch, total, len(names), nb, nbRuns, time.Since(t0).Seconds())
	return code
}

// assumptionsOf collects the //verif:assume directives of the contract files.
func assumptionsOf(ds []*contractDecl) []string {
	seen := map[string]bool{}
	out := []string{}
	for _, d := range ds {
		b, err := os.ReadFile(d.File)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			if s, ok := strings.CutPrefix(l, "//verif:assume "); ok && !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	return out
}

// replayAll runs contracts concretely on the current tree.
func replayAll(repo, contracts string, re *regexp.Regexp) int {
	decls, err := listContracts(contracts)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	by := map[string][]*contractDecl{}
	for _, d := range decls {
		if re.MatchString(d.Name) && !strings.HasPrefix(d.Name, "Lemma_") {
			by[d.Rel] = append(by[d.Rel], d)
		}
	}
	bad := 0
	for rel, ds := range by {
		r := replay(repo, contracts, rel, ds, map[string]bool{}, 1, 1, 200*time.Second)
		for n, k := range r.Ran {
			fmt.Printf("%-40s %d runs within the precondition\n", n, k)
		}
		for _, f := range r.Failing {
			bad = 1
			fmt.Println("FAILING:", f)
		}
		if r.Broken != "" {
			bad = 1
			fmt.Println("BROKEN:", r.Broken)
		}
	}
	return bad
}

// needRetry: something failed that more solver time might prove.
// attempt verifies a contract; before raising an alarm it tries again with
// more solver time and more places for the invariants.
func attempt(P *Program, pool *Pool, h *Harness, more Tier, inTime func() bool) (*HarnessResult, *Exec) {
	x := newExec(P, quickTier.Bind)
	x.feas = pool
	res := x.runHarness(h)
	discharge(pool, res, quickTier, x)
	for _, hints := range []int{hintsWhereUseful, hintsOff} {
		if !needRetry(res, x) || !inTime() {
			break
		}
		prior := x.held()
		y := newExec(P, more.Bind)
		y.feas = pool
		y.hints, y.prior = hints, prior
		r := y.runHarness(h)
		discharge(pool, r, more, y)
		if debug || os.Getenv("GOVC_STAGES") != "" {
			fmt.Println("stage", hints, "steps", y.steps, "ens", y.nEnsures, len(r.Obls), r.Err, r.ExecTime, r.ProveT, "before:", len(res.Obls), res.Err, res.failures())
		}
		x, res = y, r
	}
	return res, x
}

func needRetry(r *HarnessResult, x *Exec) bool {
	if x.truncated && len(r.failures()) > 0 && !strings.HasPrefix(r.Err, "no model") {
		return true
	}
	if r.Err != "" {
		return strings.Contains(r.Err, "time")
	}
	for _, o := range r.Obls {
		if o.Cand == nil && o.Status != "proved" && o.Note == "sat" {
			return false
		}
	}
	return len(r.failures()) > 0
}
