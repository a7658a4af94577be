package concurrent

import (
	"context"
	"errors"
	"iter"
	"slices"
	"strings"

	"github.com/sinclairtarget/git-who/internal/cache"
	"github.com/sinclairtarget/git-who/internal/git"
	"github.com/sinclairtarget/git-who/internal/tally"
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- C05, C06: from git rev-list to the joined result --------------------------------

// zzSum is a tally that is just a number.
type zzSum int

func (a zzSum) Combine(b zzSum) zzSum { return a + b }

func zzTallyCount(commits iter.Seq[git.Commit], opts tally.TallyOpts) (zzSum, error) {
	var n zzSum
	for range commits {
		n += 1
	}
	return n, nil
}

func specTotal(R []zzSum, n int) zzSum {
	if n <= 0 {
		return 0
	}
	return specTotal(R, n-1) + R[n-1]
}

func specFailure(E []error) bool {
	return ghost.AnyInt(0, len(E), func(i int) bool { return E[i] != nil })
}

// zzShelf is a cache with these commits that fails where told to.
type zzShelf struct {
	commits                  []git.Commit
	noOpen, damaged, noClear bool
}

func zzFail(b bool) error {
	if b {
		return errors.New("failed")
	}
	return nil
}

func (s zzShelf) Name() string              { return "zz" }
func (s zzShelf) Open() error               { return zzFail(s.noOpen) }
func (s zzShelf) Close() error              { return nil }
func (s zzShelf) Clear() error              { return zzFail(s.noClear) }
func (s zzShelf) Add(cs []git.Commit) error { return nil }
func (s zzShelf) Get(revs []string) (iter.Seq[git.Commit], func() error) {
	return slices.Values(s.commits), func() error { return zzFail(s.damaged) }
}

// Whatever the workers deliver, in whatever order: every result is counted
// once, any error is an error, and what is handed to the workers is every
// selected revision that is neither ignored nor answered by the cache.
//
//verif:property C05 C06
//verif:spawned runWriter
//verif:assume goroutines do not write the variables they share with tallyFanOutFanIn
func Contract_FanOut(lines []string, fail bool, ranges, ignore []string, S []git.Commit, noOpen, damaged, noClear bool, h0 string) {
	ghost.Requires("read by the verifier", ghost.Symbolic())
	ghost.Requires("lines", ghost.AllInt(0, len(lines), func(i int) bool { return !strings.ContainsAny(lines[i], "\n\r") }))
	ghost.GitLines(lines, fail)
	whop := whoperation[zzSum]{revspec: ranges, ignoreRevs: ignore, tally: zzTallyCount}

	total, err := tallyFanOutFanIn(context.Background(), whop, cache.NewCache(zzShelf{S, noOpen, damaged, noClear}), false)

	ghost.Ensures("git's failure is reported", err != nil || !ghost.Failed())
	if err != nil {
		return
	}
	readable := !noOpen && !damaged
	ghost.Ensures("a cache that cannot be wiped is an error", readable || !noClear || len(lines) == 0)
	ignored := specListed(ignore, h0)
	cached := readable && ghost.AnyInt(0, len(S), func(i int) bool { return S[i].Hash == h0 })
	if ghost.Spawned("runWriter") {
		rest := ghost.Passed[[]string]("runWriter", 1)
		if ignored || cached {
			ghost.Ensures("ignored or answered", ghost.Count(rest, h0) == 0)
		} else {
			ghost.Ensures("handed on", ghost.Count(rest, h0) == ghost.Count(lines, h0))
		}
		R := ghost.Sent(ghost.Chan[zzSum](0))
		if readable {
			ghost.Ensures("every result and the cache's, once", total == specTotal(R, len(R))+zzSum(len(S)))
		} else {
			ghost.Ensures("every result, once", total == specTotal(R, len(R)))
		}
		ghost.Ensures("no worker failed", !specFailure(ghost.Sent(ghost.Chan[error](0))))
		if E := ghost.Sent(ghost.Chan[error](1)); len(E) <= 1 {
			ghost.Ensures("no write failed", !specFailure(E))
		}
	} else if len(lines) > 0 {
		ghost.Ensures("ignored or answered, all of them", ignored || cached || ghost.Count(lines, h0) == 0)
		ghost.Ensures("the cache's", readable && total == zzSum(len(S)))
	} else {
		ghost.Ensures("nothing for nothing", total == 0)
	}
}

//verif:inv FanOut @StdoutLines$1#L0
func Inv_FanOutList(p ghost.Pos, lines, revs []string, h0 string) bool {
	return len(revs) == int(p) && ghost.Count(revs, h0) == ghost.Count(lines[:int(p)], h0)
}

//verif:inv FanOut @tallyFanOutFanIn#L0
func Inv_FanOutIgnored(p ghost.Pos, ignore []string, ignoreSet map[string]bool, h0 string) bool {
	return ignoreSet[h0] == ghost.AnyInt(0, int(p), func(i int) bool { return ignore[i] == h0 })
}

//verif:inv FanOut @tallyFanOutFanIn#L1
func Inv_FanOutFilter(p ghost.Pos, revs, ignore, unignoredRevs []string, h0 string) bool {
	return ghost.Imp(specListed(ignore, h0), func() bool { return ghost.Count(unignoredRevs, h0) == 0 }) &&
		ghost.Imp(!specListed(ignore, h0), func() bool { return ghost.Count(unignoredRevs, h0) == ghost.Count(revs[:int(p)], h0) })
}

//verif:inv FanOut @revTee$1#seq:revTee$1$1
func Inv_FanOutTee(p ghost.Pos, S []git.Commit, n zzSum, foundRevs []string) bool {
	return n == zzSum(p) && len(foundRevs) == int(p) && ghost.AllInt(0, int(p), func(j int) bool {
		return foundRevs[j] == S[j].Hash
	})
}

//verif:inv FanOut @setDiff#L0
func Inv_FanOutKnown(p ghost.Pos, b []string, m map[string]bool) bool {
	return Inv_SetDiffKnown(p, b, m)
}

//verif:inv FanOut @setDiff#L0
func Inv_FanOutSet(p ghost.Pos, b []string, m map[string]struct{}) bool {
	return Inv_SetDiffSet(p, b, m)
}

//verif:inv FanOut @setDiff#L1
func Inv_FanOutDiff(p ghost.Pos, a, b []string, ret []string, h0 string) bool {
	return Inv_SetDiff(p, a, b, ret, h0)
}

func specNone(E []error, n int) bool {
	return n <= len(E) && ghost.AllInt(0, n, func(i int) bool { return E[i] == nil })
}

//verif:inv FanOut @tallyFanOutFanIn#L2
func Inv_FanOutSum(accumulator zzSum, S []git.Commit, noOpen, damaged bool) bool {
	results := ghost.Chan[zzSum](0)
	n := ghost.Received(results)
	R := ghost.Sent(results)
	return n <= len(R) && ghost.Imp(noOpen || damaged, func() bool { return accumulator == specTotal(R, n) }) &&
		ghost.Imp(!noOpen && !damaged, func() bool { return accumulator == zzSum(len(S))+specTotal(R, n) })
}

//verif:inv FanOut @tallyFanOutFanIn#L2 @tallyFanOutFanIn#L3
func Inv_FanOutErrors() bool {
	errs, cacheErr := ghost.Chan[error](0), ghost.Chan[error](1)
	return specNone(ghost.Sent(errs), ghost.Received(errs)) && specNone(ghost.Sent(cacheErr), ghost.Received(cacheErr))
}
