package tally

import (
	"time"

	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- C12: ranking --------------------------------------------------------------

func specWholeSeconds(t time.Time) bool { return t.Equal(time.Unix(t.Unix(), 0)) }

// the figure the mode ranks by: more is better
func specMetric(f FinalTally, mode TallyMode) int {
	switch mode {
	case CommitMode:
		return f.Commits
	case LinesMode:
		return f.LinesAdded + f.LinesRemoved
	case FilesMode:
		return f.FileCount
	}
	return 0
}

// a belongs strictly before b
func specBefore(a, b FinalTally, mode TallyMode) bool {
	if mode == FirstModifiedMode {
		return a.FirstCommitTime.Before(b.FirstCommitTime) ||
			a.FirstCommitTime.Equal(b.FirstCommitTime) && a.LastCommitTime.After(b.LastCommitTime)
	}
	return specMetric(a, mode) > specMetric(b, mode) ||
		specMetric(a, mode) == specMetric(b, mode) && a.LastCommitTime.After(b.LastCommitTime)
}

func specMode(mode TallyMode) bool {
	return mode == CommitMode || mode == LinesMode || mode == FilesMode || mode == LastModifiedMode || mode == FirstModifiedMode
}

// Comparing two authors: the metric first, then the later last edit.
//
//verif:property C12
//verif:runs 3000
func Contract_Compare(a, b FinalTally, mode TallyMode) {
	ghost.Requires("a ranking mode", specMode(mode))
	ghost.Requires("dates in whole seconds", specWholeSeconds(a.FirstCommitTime) && specWholeSeconds(b.FirstCommitTime) &&
		specWholeSeconds(a.LastCommitTime) && specWholeSeconds(b.LastCommitTime))
	c := a.Compare(b, mode)
	ghost.Ensures("greater exactly when before in the ranking", (c > 0) == specBefore(a, b, mode))
	ghost.Ensures("smaller exactly when after in the ranking", (c < 0) == specBefore(b, a, mode))
	ghost.Ensures("comparing the other way round is the opposite", b.Compare(a, mode) == -c)
}

// one if x is the author's final tally
func specIs(t Tally, f FinalTally) int {
	if t.Final() == f {
		return 1
	}
	return 0
}

// The ranking holds every author exactly once, best first.
//
//verif:property C12
//verif:runs 3000
func Contract_Rank(T map[string]Tally, mode TallyMode, f0 FinalTally, a0, b0 int) {
	ghost.Requires("a ranking mode", specMode(mode))
	ghost.Requires("named, dates in whole seconds", ghost.AllKeys(T, func(k string) bool {
		return (T[k].name != "" || T[k].email != "") && specWholeSeconds(T[k].firstCommitTime) && specWholeSeconds(T[k].lastCommitTime)
	}))

	out := Rank(T, mode)

	ghost.Ensures("as many rows as authors", len(out) == len(T))
	ghost.Ensures("each author's figures as often as tallied", ghost.Count(out, f0) == ghost.SumKeys(T, func(k string) int { return specIs(T[k], f0) }))
	if 0 <= a0 && a0 < b0 && b0 < len(out) {
		ghost.Ensures("best first", !specBefore(out[b0], out[a0], mode))
	}
}

//verif:inv Rank
func Inv_Rank(v ghost.Visited[string], tallies map[string]Tally, final []FinalTally, f0 FinalTally) bool {
	return len(final) == ghost.SumVisited(v, func(k string) int { return 1 }) && ghost.Count(final, f0) == ghost.SumVisited(v, func(k string) int { return specIs(tallies[k], f0) }) &&
		ghost.AllInt(0, len(final), func(i int) bool {
			return specWholeSeconds(final[i].FirstCommitTime) && specWholeSeconds(final[i].LastCommitTime)
		})
}
