package tally

import (
	"slices"
	"time"

	"github.com/sinclairtarget/git-who/internal/git"
	"github.com/sinclairtarget/git-who/internal/utils/timeutils"
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- C02: tallies with file changes ------------------------------------------

func specDiffMode(opts TallyOpts) bool {
	return opts.Key != nil && (opts.Mode == LinesMode || opts.Mode == FilesMode)
}

// lines added (or removed) by the first n changes
func specDiffSum(D []git.FileDiff, added bool, n int) int {
	if n <= 0 {
		return 0
	}
	if added {
		return specDiffSum(D, added, n-1) + D[n-1].LinesAdded
	}
	return specDiffSum(D, added, n-1) + D[n-1].LinesRemoved
}

// lines author k added (or removed) in the first n commits
func specLines(S []git.Commit, opts TallyOpts, k string, added bool, n int) int {
	if n <= 0 {
		return 0
	}
	if specCounts(S[n-1], opts, k) && !S[n-1].IsMerge {
		return specLines(S, opts, k, added, n-1) + specDiffSum(S[n-1].FileDiffs, added, len(S[n-1].FileDiffs))
	}
	return specLines(S, opts, k, added, n-1)
}

// The lines of an author are the sums over the author's commits that are not
// merges.
//
//verif:property C02
//verif:fork
func Contract_DiffLines(S []git.Commit, opts TallyOpts, k0 string) {
	ghost.Requires("a mode with file changes", specDiffMode(opts))
	ghost.Requires("commits as parsed", specSane(S))

	tallies, err := TallyCommits(slices.Values(S), opts)

	ghost.Ensures("no error", err == nil)
	t, ok := tallies[k0]
	if ok {
		f := t.Final()
		ghost.Ensures("lines added", f.LinesAdded == specLines(S, opts, k0, true, len(S)))
		ghost.Ensures("lines removed", f.LinesRemoved == specLines(S, opts, k0, false, len(S)))
	}
}

// every tally kept for a path is named, has a commit set and no file set
func specNamed(M map[string]Tally) bool {
	return ghost.AllKeys(M, func(q string) bool { return M[q].name != "" && M[q].commitset != nil && M[q].fileset == nil })
}

func specAllNamed(T TalliesByPath) bool {
	return ghost.AllKeys(T, func(k string) bool { return T[k] != nil && specNamed(T[k]) })
}

func specLinesSoFar(tallies TalliesByPath, S []git.Commit, opts TallyOpts, k0 string, n int) bool {
	M := tallies[k0]
	return specLines(S, opts, k0, true, n) == ghost.SumKeys(M, func(q string) int { return M[q].added }) &&
		specLines(S, opts, k0, false, n) == ghost.SumKeys(M, func(q string) int { return M[q].removed })
}

//verif:inv DiffLines
func Inv_LinesByPath(p ghost.Pos, tallies TalliesByPath, S []git.Commit, opts TallyOpts, k0 string) bool {
	return ghost.Owned(tallies) && specAllNamed(tallies) && specLinesSoFar(tallies, S, opts, k0, int(p))
}

//verif:inv DiffLines
func Inv_LinesOfCommit(p ghost.Pos, o ghost.Outer, tallies TalliesByPath, pathTallies map[string]Tally, key string, commit git.Commit, S []git.Commit, opts TallyOpts, k0 string) bool {
	n, j := int(o), int(p)
	return ghost.Owned(tallies) && specNamed(pathTallies) &&
		ghost.AllKeys(tallies, func(k string) bool { return tallies[k] != nil && specNamed(tallies[k]) }) &&
		ghost.Imp(ghost.Has(tallies, key), func() bool { return ghost.Same(tallies[key], pathTallies) }) &&
		ghost.Imp(key != k0, func() bool { return specLinesSoFar(tallies, S, opts, k0, n) }) &&
		ghost.Imp(key == k0, func() bool {
			a, r := 0, 0
			if !commit.IsMerge {
				a, r = specDiffSum(commit.FileDiffs, true, j), specDiffSum(commit.FileDiffs, false, j)
			}
			return specLines(S, opts, k0, true, n)+a == ghost.SumKeys(pathTallies, func(q string) int { return pathTallies[q].added }) &&
				specLines(S, opts, k0, false, n)+r == ghost.SumKeys(pathTallies, func(q string) int { return pathTallies[q].removed })
		})
}

//verif:inv DiffLines
func Inv_LinesReduced(v ghost.Visited[string], byPath TalliesByPath, tallies map[string]Tally, k0 string) bool {
	M := byPath[k0]
	return ghost.Imp(ghost.Has(tallies, k0), func() bool {
		return tallies[k0].name != "" && tallies[k0].added == ghost.SumKeys(M, func(q string) int { return M[q].added }) &&
			tallies[k0].removed == ghost.SumKeys(M, func(q string) int { return M[q].removed })
	})
}

//verif:inv DiffLines
func Inv_LinesReducing(v ghost.Visited[string], pathTallies map[string]Tally, runningTally Tally) bool {
	return (runningTally.name != "" || len(runningTally.commitset) == 0) &&
		runningTally.added == ghost.SumVisited(v, func(q string) int { return pathTallies[q].added }) &&
		runningTally.removed == ghost.SumVisited(v, func(q string) int { return pathTallies[q].removed })
}

// ---- dates -----------------------------------------------------------------

// The first and last edit span exactly the counted commits.
//
//verif:property C02
//verif:fork
func Contract_DiffDates(S []git.Commit, opts TallyOpts, k0 string) {
	ghost.Requires("a mode with file changes", specDiffMode(opts))
	ghost.Requires("commits as parsed", specSane(S))

	tallies, err := TallyCommits(slices.Values(S), opts)

	ghost.Ensures("no error", err == nil)
	t, ok := tallies[k0]
	if ok {
		f := t.Final()
		ghost.Ensures("first edit", f.FirstCommitTime.Equal(specFirst(S, opts, k0, len(S))))
		ghost.Ensures("last edit", f.LastCommitTime.Equal(specLast(S, opts, k0, len(S))))
	}
}

func specNever() time.Time { return time.Unix(1<<62, 0) }

func specFirstOver(M map[string]Tally) time.Time {
	return ghost.MinKeys(M, specNever(), func(q string) time.Time { return M[q].firstCommitTime })
}

func specLastOver(M map[string]Tally) time.Time {
	return ghost.MaxKeys(M, time.Time{}, func(q string) time.Time { return M[q].lastCommitTime })
}

func specDatesSoFar(M map[string]Tally, S []git.Commit, opts TallyOpts, k0 string, n int) bool {
	N := specN(S, opts, k0, n)
	return N >= 0 && ghost.Imp(N > 0, func() bool {
		return specFirstOver(M).Equal(specFirst(S, opts, k0, n)) && specLastOver(M).Equal(specLast(S, opts, k0, n))
	}) && ghost.Imp(N == 0, func() bool {
		return len(M) == 0
	})
}

//verif:inv DiffDates
func Inv_DatesByPath(p ghost.Pos, tallies TalliesByPath, S []git.Commit, opts TallyOpts, k0 string) bool {
	return ghost.Owned(tallies) && specAllNamed(tallies) && specDatesSoFar(tallies[k0], S, opts, k0, int(p))
}

//verif:inv DiffDates
func Inv_DatesOfCommit(p ghost.Pos, o ghost.Outer, tallies TalliesByPath, pathTallies map[string]Tally, key string, commit git.Commit, S []git.Commit, opts TallyOpts, k0 string) bool {
	n, j := int(o), int(p)
	return ghost.Owned(tallies) && specNamed(pathTallies) && specAllNamed(tallies) &&
		ghost.Imp(ghost.Has(tallies, key), func() bool { return ghost.Same(tallies[key], pathTallies) }) &&
		ghost.Imp(key != k0, func() bool { return specDatesSoFar(tallies[k0], S, opts, k0, n) }) &&
		ghost.Imp(key == k0, func() bool {
			return ghost.Imp(j == 0, func() bool { return specDatesSoFar(pathTallies, S, opts, k0, n) }) &&
				ghost.Imp(j > 0 && specN(S, opts, k0, n) == 0, func() bool {
					return specFirstOver(pathTallies).Equal(commit.Date) && specLastOver(pathTallies).Equal(commit.Date)
				}) &&
				ghost.Imp(j > 0 && specN(S, opts, k0, n) > 0, func() bool {
					return specFirstOver(pathTallies).Equal(timeutils.Min(specFirst(S, opts, k0, n), commit.Date)) &&
						specLastOver(pathTallies).Equal(timeutils.Max(specLast(S, opts, k0, n), commit.Date))
				})
		})
}

//verif:inv DiffDates
func Inv_DatesReduced(v ghost.Visited[string], byPath TalliesByPath, tallies map[string]Tally, k0 string) bool {
	return ghost.Imp(ghost.Has(tallies, k0), func() bool {
		return len(byPath[k0]) > 0 && tallies[k0].name != "" &&
			tallies[k0].firstCommitTime.Equal(specFirstOver(byPath[k0])) &&
			tallies[k0].lastCommitTime.Equal(specLastOver(byPath[k0]))
	})
}

//verif:inv DiffDates
func Inv_DatesReducing(v ghost.Visited[string], pathTallies map[string]Tally, runningTally Tally) bool {
	return (runningTally.name != "" || len(runningTally.commitset) == 0) &&
		(len(pathTallies) > 0 || len(runningTally.commitset) == 0) &&
		runningTally.firstCommitTime.Equal(ghost.MinVisited(v, specNever(), func(q string) time.Time { return pathTallies[q].firstCommitTime })) &&
		runningTally.lastCommitTime.Equal(ghost.MaxVisited(v, time.Time{}, func(q string) time.Time { return pathTallies[q].lastCommitTime }))
}

// ---- files ------------------------------------------------------------------

// does one of the first j changes of commit i concern path q
func specConcerns(D []git.FileDiff, q string, j int) bool {
	if j <= 0 {
		return false
	}
	return D[j-1].Path == q || specConcerns(D, q, j-1)
}

// did author k change path q in the first n commits (merges do not count)
func specTouched(S []git.Commit, opts TallyOpts, k string, q string, n int) bool {
	if n <= 0 {
		return false
	}
	if specCounts(S[n-1], opts, k) && !S[n-1].IsMerge && specConcerns(S[n-1].FileDiffs, q, len(S[n-1].FileDiffs)) {
		return true
	}
	return specTouched(S, opts, k, q, n-1)
}

// Each distinct path changed outside merges counts once.
//
//verif:property C02
//verif:fork
func Contract_DiffFiles(S []git.Commit, opts TallyOpts, k0 string) {
	ghost.Requires("a mode with file changes", specDiffMode(opts))
	ghost.Requires("commits as parsed", specSane(S))

	tallies, err := TallyCommits(slices.Values(S), opts)

	ghost.Ensures("no error", err == nil)
	t, ok := tallies[k0]
	if ok {
		f := t.Final()
		ghost.Ensures("file total", f.FileCount == specFiles(S, opts, k0, len(S)))
	}
}

// number of paths author k changed in the first n commits, plus those among
// the first j changes of the next commit
func specFilesPart(S []git.Commit, opts TallyOpts, k string, n int, D []git.FileDiff, j int) int {
	if j <= 0 {
		return 0
	}
	if specTouched(S, opts, k, D[j-1].Path, n) || specConcerns(D, D[j-1].Path, j-1) {
		return specFilesPart(S, opts, k, n, D, j-1)
	}
	return specFilesPart(S, opts, k, n, D, j-1) + 1
}

func specFiles(S []git.Commit, opts TallyOpts, k string, n int) int {
	if n <= 0 {
		return 0
	}
	if specCounts(S[n-1], opts, k) && !S[n-1].IsMerge {
		return specFiles(S, opts, k, n-1) + specFilesPart(S, opts, k, n-1, S[n-1].FileDiffs, len(S[n-1].FileDiffs))
	}
	return specFiles(S, opts, k, n-1)
}

func specOne(b bool) int {
	if b {
		return 1
	}
	return 0
}

func specNumTallied(M map[string]Tally) int {
	return ghost.SumKeys(M, func(q string) int { return M[q].numTallied })
}

func specFilesSoFar(M map[string]Tally, S []git.Commit, opts TallyOpts, k0 string, n int) bool {
	return specFiles(S, opts, k0, n) == specNumTallied(M) &&
		ghost.AllString(func(q string) bool { return M[q].numTallied == specOne(specTouched(S, opts, k0, q, n)) })
}

//verif:inv DiffFiles
func Inv_FilesByPath(p ghost.Pos, tallies TalliesByPath, S []git.Commit, opts TallyOpts, k0 string) bool {
	return ghost.Owned(tallies) && specAllNamed(tallies) && specFilesSoFar(tallies[k0], S, opts, k0, int(p))
}

//verif:inv DiffFiles
func Inv_FilesOfCommit(p ghost.Pos, o ghost.Outer, tallies TalliesByPath, pathTallies map[string]Tally, key string, commit git.Commit, S []git.Commit, opts TallyOpts, k0 string) bool {
	n, j := int(o), int(p)
	D := commit.FileDiffs
	return ghost.Owned(tallies) && specNamed(pathTallies) && specAllNamed(tallies) &&
		ghost.Imp(ghost.Has(tallies, key), func() bool { return ghost.Same(tallies[key], pathTallies) }) &&
		ghost.Imp(key != k0 || commit.IsMerge, func() bool { return specFilesSoFar(tallies[k0], S, opts, k0, n) }) &&
		ghost.Imp(key == k0 && commit.IsMerge, func() bool { return specFilesSoFar(pathTallies, S, opts, k0, n) }) &&
		ghost.Imp(key == k0 && !commit.IsMerge, func() bool {
			return specFiles(S, opts, k0, n)+specFilesPart(S, opts, k0, n, D, j) == specNumTallied(pathTallies) &&
				ghost.AllString(func(q string) bool {
					return pathTallies[q].numTallied == specOne(specTouched(S, opts, k0, q, n) || specConcerns(D, q, j))
				})
		})
}

//verif:inv DiffFiles
func Inv_FilesReduced(v ghost.Visited[string], byPath TalliesByPath, tallies map[string]Tally, k0 string) bool {
	return ghost.Imp(ghost.Has(tallies, k0), func() bool {
		return tallies[k0].name != "" && tallies[k0].numTallied == specNumTallied(byPath[k0]) && tallies[k0].fileset == nil
	})
}

//verif:inv DiffFiles
func Inv_FilesReducing(v ghost.Visited[string], pathTallies map[string]Tally, runningTally Tally) bool {
	return (runningTally.name != "" || len(runningTally.commitset) == 0) && runningTally.fileset == nil &&
		runningTally.numTallied == ghost.SumVisited(v, func(q string) int { return pathTallies[q].numTallied })
}

// ---- commits ----------------------------------------------------------------

// The commit total is the number of distinct counted commits; there is a row
// exactly for authors who have one.
//
//verif:property C02
//verif:fork
func Contract_DiffCommits(S []git.Commit, opts TallyOpts, k0 string, h0 string) {
	ghost.Requires("a mode with file changes", specDiffMode(opts))
	ghost.Requires("commits as parsed", specSane(S))

	tallies, err := TallyCommits(slices.Values(S), opts)

	ghost.Ensures("no error", err == nil)
	t, ok := tallies[k0]
	ghost.Ensures("a row exactly for authors with a counted commit", ok == (specN(S, opts, k0, len(S)) > 0))
	if ok {
		f := t.Final()
		ghost.Ensures("commits are counted as a set", f.Commits == len(t.commitset))
		ghost.Ensures("the set holds exactly the counted commits", ghost.Has(t.commitset, h0) == specIn(S, opts, k0, h0, len(S)))
	}
}

// is h the hash of one of the first n commits counted for author k
func specIn(S []git.Commit, opts TallyOpts, k, h string, n int) bool {
	if n <= 0 {
		return false
	}
	return specCounts(S[n-1], opts, k) && S[n-1].ShortHash == h || specIn(S, opts, k, h, n-1)
}

func specHasHash(M map[string]Tally, h string) bool {
	return ghost.SomeKey(M, func(q string) bool { return ghost.Has(M[q].commitset, h) })
}

func specCommitsSoFar(M map[string]Tally, S []git.Commit, opts TallyOpts, k0, h0 string, n int) bool {
	N := specN(S, opts, k0, n)
	return N >= 0 && (len(M) > 0) == (N > 0) && specHasHash(M, h0) == specIn(S, opts, k0, h0, n)
}

func specNonEmpty(M map[string]Tally) bool {
	return ghost.AllKeys(M, func(q string) bool { return len(M[q].commitset) > 0 })
}

func specAllNonEmpty(tallies TalliesByPath) bool {
	return ghost.AllKeys(tallies, func(k string) bool { return specNonEmpty(tallies[k]) })
}

func specOwnSets(tallies TalliesByPath) bool {
	return ghost.OwnedBy2(tallies, func(t Tally) map[string]bool { return t.commitset })
}

// set is none of those in tallies
func specApart(tallies TalliesByPath, set map[string]bool) bool {
	return ghost.AllKeys(tallies, func(k string) bool {
		return ghost.AllKeys(tallies[k], func(q string) bool { return !ghost.Same(tallies[k][q].commitset, set) })
	})
}

//verif:inv DiffCommits
func Inv_CommitsByPath(p ghost.Pos, tallies TalliesByPath, S []git.Commit, opts TallyOpts, k0, h0 string) bool {
	return ghost.Owned(tallies) && specOwnSets(tallies) && specAllNamed(tallies) && specAllNonEmpty(tallies) &&
		specCommitsSoFar(tallies[k0], S, opts, k0, h0, int(p))
}

//verif:inv DiffCommits
func Inv_CommitsOfCommit(e ghost.Entry, p ghost.Pos, o ghost.Outer, tallies TalliesByPath, pathTallies map[string]Tally, key string, commit git.Commit, S []git.Commit, opts TallyOpts, k0, h0 string) bool {
	n, j := int(o), int(p)
	return ghost.Owned(tallies) && specOwnSets(tallies) && specNamed(pathTallies) && specAllNamed(tallies) &&
		specAllNonEmpty(tallies) && specNonEmpty(pathTallies) &&
		ghost.Imp(ghost.Has(tallies, key), func() bool { return ghost.Same(tallies[key], pathTallies) }) &&
		ghost.Imp(!ghost.Has(tallies, key), func() bool {
			return ghost.OwnedBy(pathTallies, func(t Tally) map[string]bool { return t.commitset }) &&
				ghost.AllKeys(pathTallies, func(q string) bool { return !ghost.Old(e, pathTallies[q].commitset) }) &&
				ghost.AllKeys(tallies, func(k string) bool {
					return !ghost.Same(tallies[k], pathTallies) && ghost.AllKeys(tallies[k], func(q string) bool { return ghost.Old(e, tallies[k][q].commitset) })
				})
		}) &&
		ghost.Imp(key != k0, func() bool { return specCommitsSoFar(tallies[k0], S, opts, k0, h0, n) }) &&
		ghost.Imp(key == k0, func() bool {
			return (len(pathTallies) > 0) == (specN(S, opts, k0, n) > 0 || j > 0) &&
				specHasHash(pathTallies, h0) == (specIn(S, opts, k0, h0, n) || j > 0 && commit.ShortHash == h0)
		})
}

//verif:inv DiffCommits @Reduce#L0
func Inv_CommitsReduced(e ghost.Entry, v ghost.Visited[string], byPath TalliesByPath, tallies map[string]Tally, k0, h0 string) bool {
	return ghost.OnlyChanged(e, map[string]bool(nil)) && specAllNamed(byPath) && specAllNonEmpty(byPath) &&
		ghost.Has(tallies, k0) == (v.Has(k0) && len(byPath[k0]) > 0) &&
		ghost.Imp(ghost.Has(tallies, k0), func() bool {
			return tallies[k0].name != "" && len(tallies[k0].commitset) > 0 && specApart(byPath, tallies[k0].commitset) &&
				ghost.Has(tallies[k0].commitset, h0) == specHasHash(byPath[k0], h0)
		})
}

//verif:inv DiffCommits @Reduce#L1
func Inv_CommitsReducing(e ghost.Entry, v ghost.Visited[string], byPath TalliesByPath, tallies map[string]Tally, pathTallies map[string]Tally, runningTally Tally, k0, h0 string) bool {
	return runningTally.commitset != nil && runningTally.fileset == nil && ghost.OnlyChanged(e, runningTally.commitset) && specApart(byPath, runningTally.commitset) &&
		(runningTally.name != "" || len(runningTally.commitset) == 0) &&
		ghost.Imp(ghost.Has(tallies, k0), func() bool { return !ghost.Same(tallies[k0].commitset, runningTally.commitset) }) &&
		(len(pathTallies) > 0 || len(runningTally.commitset) == 0) &&
		ghost.Imp(len(runningTally.commitset) == 0, func() bool {
			return ghost.AllVisited(v, func(q string) bool { return false })
		}) &&
		ghost.Has(runningTally.commitset, h0) == ghost.SomeVisited(v, func(q string) bool { return ghost.Has(pathTallies[q].commitset, h0) })
}

//verif:inv DiffCommits @unionInPlace#L0
func Inv_CommitsUnion(e ghost.Entry, v ghost.Visited[string], union map[string]bool, h0 string) bool {
	return ghost.OnlyChanged(e, union) && ghost.Has(union, h0) == (ghost.Has(ghost.AtEntry(e, union), h0) || v.Has(h0)) &&
		(len(union) > 0 || len(ghost.AtEntry(e, union)) == 0) &&
		ghost.AllVisited(v, func(q string) bool { return ghost.Has(union, q) })
}
