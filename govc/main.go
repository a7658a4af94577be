package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"time"
)

func main() {
	prop := flag.String("prop", "", "property id")
	pat := flag.String("h", "", "run only contracts matching this pattern")
	tierName := flag.String("tier", "quick", "quick or thorough")
	verbose := flag.Bool("v", false, "")
	rep := flag.String("replay", "", "run the matching contracts concretely (sanity of the contracts)")
	flag.Parse()
	repo := os.Getenv("GOVC_REPO")
	if repo == "" {
		repo = "/repo"
	}
	self, _ := os.Executable()
	verif := filepath.Dir(filepath.Dir(self))
	if v := os.Getenv("GOVC_VERIF"); v != "" {
		verif = v
	}
	if *prop != "" {
		seed := 1
		fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
		os.Exit(runCheck(*prop, *tierName, repo, verif, seed))
	}
	if *rep != "" {
		os.Exit(replayAll(repo, filepath.Join(verif, "contracts"), regexp.MustCompile(*rep)))
	}
	t0 := time.Now()
	P, err := Load(repo, filepath.Join(verif, "contracts"), nil)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	if *verbose {
		fmt.Printf("loaded in %v\n", time.Since(t0))
	}
	pool := NewPool(8)
	defer pool.Close()
	var re *regexp.Regexp
	if *pat != "" {
		re = regexp.MustCompile(*pat)
	}
	for _, h := range Harnesses(P) {
		if re != nil && !re.MatchString(h.Name) {
			continue
		}
		more := retryTier
		if *tierName == "thorough" {
			more = thoroughTier
		}
		r, x := attempt(P, pool, h, more, func() bool { return os.Getenv("GOVC_ONCE") == "" })
		n, tot, by := r.proved()
		fmt.Printf("%-50s %d/%d proved, exec %v, prove %v %v\n", h.Name, n, tot, r.ExecTime.Round(time.Millisecond), r.ProveT.Round(time.Millisecond), by)
		for _, f := range r.failures() {
			fmt.Println("   FAIL", f)
		}
		if *verbose {
			for _, o := range r.Obls {
				if o.Cand == nil && o.By != "simplifier" {
					fmt.Printf("     %s %s: %s at %s (%s)\n", o.Status, o.Kind, o.Label, o.Pos, o.By)
				}
			}
			for _, k := range sortedKeys(x.cands) {
				for _, c := range x.cands[k].list {
					if c.Alive {
						fmt.Println("     inv", k, c.Name)
					} else if c.Templ || os.Getenv("GOVC_ALL") != "" {
						fmt.Println("     dropped", k, c.Name, c.Why)
					}
				}
			}
			fmt.Println("     used", r.Used, "trusted", r.Trusted)
		}
	}
}
