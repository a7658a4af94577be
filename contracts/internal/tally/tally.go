package tally

import (
	"slices"
	"time"

	"github.com/sinclairtarget/git-who/internal/git"
	"github.com/sinclairtarget/git-who/internal/utils/timeutils"
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- specification: what an author's figures are, over the first n commits --

func specCounts(c git.Commit, opts TallyOpts, k string) bool {
	return (!c.IsMerge || opts.CountMerges) && opts.Key(c) == k
}

// number of counted commits of author k
func specN(S []git.Commit, opts TallyOpts, k string, n int) int {
	if n <= 0 {
		return 0
	}
	if specCounts(S[n-1], opts, k) {
		return specN(S, opts, k, n-1) + 1
	}
	return specN(S, opts, k, n-1)
}

// earliest date among them
func specFirst(S []git.Commit, opts TallyOpts, k string, n int) time.Time {
	if n <= 0 {
		return time.Time{}
	}
	if specCounts(S[n-1], opts, k) {
		if specN(S, opts, k, n-1) == 0 {
			return S[n-1].Date
		}
		return timeutils.Min(specFirst(S, opts, k, n-1), S[n-1].Date)
	}
	return specFirst(S, opts, k, n-1)
}

// latest date among them
func specLast(S []git.Commit, opts TallyOpts, k string, n int) time.Time {
	if n <= 0 {
		return time.Time{}
	}
	if specCounts(S[n-1], opts, k) {
		if specN(S, opts, k, n-1) == 0 {
			return S[n-1].Date
		}
		return timeutils.Max(specLast(S, opts, k, n-1), S[n-1].Date)
	}
	return specLast(S, opts, k, n-1)
}

// what ParseCommits guarantees about every commit
func specSane(S []git.Commit) bool {
	return ghost.AllInt(0, len(S), func(i int) bool {
		return S[i].AuthorName != "" && S[i].AuthorEmail != "" && !S[i].Date.Before(time.Time{}) &&
			S[i].Date.Before(time.Unix(1<<62, 0))
	})
}

// Ranking by commits or by date: exact totals and dates, no other rows.
//
//verif:property C01
func Contract_TallyCommits(S []git.Commit, opts TallyOpts, k0 string) {
	ghost.Requires("a key function is set", opts.Key != nil)
	ghost.Requires("no file changes needed", opts.Mode == CommitMode || opts.Mode == LastModifiedMode || opts.Mode == FirstModifiedMode)
	ghost.Requires("commits as parsed", specSane(S))

	tallies, err := TallyCommits(slices.Values(S), opts)

	ghost.Ensures("no error", err == nil)
	n := specN(S, opts, k0, len(S))
	t, ok := tallies[k0]
	ghost.Ensures("a row exactly for authors with a counted commit", ok == (n > 0))
	if ok {
		f := t.Final()
		ghost.Ensures("commit total", f.Commits == n)
		ghost.Ensures("first edit", f.FirstCommitTime.Equal(specFirst(S, opts, k0, len(S))))
		ghost.Ensures("last edit", f.LastCommitTime.Equal(specLast(S, opts, k0, len(S))))
	}
}

//verif:inv TallyCommits
func Inv_TallyCommits(p ghost.Pos, tallies map[string]Tally, S []git.Commit, opts TallyOpts, k0 string) bool {
	n := specN(S, opts, k0, int(p))
	t := tallies[k0]
	return n >= 0 && ghost.Has(tallies, k0) == (n > 0) &&
		ghost.Imp(n > 0, func() bool {
			return t.numTallied == n && len(t.commitset) == 0 && len(t.fileset) == 0 && t.name != "" &&
				t.firstCommitTime.Equal(specFirst(S, opts, k0, int(p))) &&
				t.lastCommitTime.Equal(specLast(S, opts, k0, int(p)))
		})
}
