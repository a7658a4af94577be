package git

import (
	"path"
	"slices"

	"github.com/bmatcuk/doublestar/v4"

	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- C10: skipping ignored commits ------------------------------------------

func specIgnored(ignore []string, hash string) bool {
	return ghost.AnyInt(0, len(ignore), func(i int) bool { return ignore[i] == hash })
}

// commits kept among the first n
func specKeptCommits(S []Commit, ignore []string, n int) int {
	if n <= 0 {
		return 0
	}
	if specIgnored(ignore, S[n-1].Hash) {
		return specKeptCommits(S, ignore, n-1)
	}
	return specKeptCommits(S, ignore, n-1) + 1
}

// Exactly the listed commits are skipped, the others pass unchanged and in
// order.
//
//verif:property C10
func Contract_SkipIgnored(S []Commit, ignore []string, j0 int) {
	out := []Commit{}
	for c := range SkipIgnored(slices.Values(S), ignore) {
		out = append(out, c)
	}

	ghost.Ensures("as many as are not listed", len(out) == specKeptCommits(S, ignore, len(S)))
	if 0 <= j0 && j0 < len(S) && !specIgnored(ignore, S[j0].Hash) {
		ghost.Ensures("the commit passes unchanged, in its place", ghost.Eq(out[specKeptCommits(S, ignore, j0)], S[j0]))
	}
}

//verif:inv SkipIgnored
func Inv_IgnoreSet(p ghost.Pos, ignore []string, ignoreSet map[string]bool) bool {
	k := int(p)
	return ghost.AllKeys(ignoreSet, func(h string) bool {
		return ghost.AnyInt(0, k, func(i int) bool { return ignore[i] == h })
	}) && ghost.AllInt(0, k, func(i int) bool { return ghost.Has(ignoreSet, ignore[i]) && ignoreSet[ignore[i]] })
}

//verif:inv SkipIgnored
func Inv_SkipIgnored(p ghost.Pos, S []Commit, ignore []string, out []Commit, j0 int) bool {
	n := int(p)
	return len(out) == specKeptCommits(S, ignore, n) && specKeptCommits(S, ignore, n) >= 0 &&
		ghost.Imp(0 <= j0 && j0 < n && !specIgnored(ignore, S[j0].Hash), func() bool {
			return 0 <= specKeptCommits(S, ignore, j0) && specKeptCommits(S, ignore, j0) < len(out) &&
				ghost.Eq(out[specKeptCommits(S, ignore, j0)], S[j0])
		})
}

// ---- C11: path filters --------------------------------------------------------

// An exclusion starts with :!, :^ or :(exclude).
func specExclusion(p string) bool { return len(p) > 0 && p[0] == ':' }

// what a filter's pattern is, its marker stripped
func specPattern(p string) string {
	if !specExclusion(p) {
		return p
	}
	if len(p) > 1 && (p[1] == '!' || p[1] == '^') {
		if len(p) > 2 && p[2] == ':' {
			return p[3:]
		}
		return p[2:]
	}
	if len(p) >= 10 && p[:10] == ":(exclude)" {
		return p[10:]
	}
	return p
}

// the filters supported: no magic, or one of the exclusion markers
func specSupported(p string) bool {
	if !specExclusion(p) {
		return true
	}
	if len(p) >= 10 && p[:10] == ":(exclude)" {
		return true
	}
	if len(p) < 3 || p[1] != '!' && p[1] != '^' {
		return false
	}
	return p[2] != '!' && p[2] != '^' && p[2] != '/'
}

//verif:property C11
//verif:runs 60000
func Contract_IsSupportedPathspec(argP string) {
	ghost.Ensures("supported exactly without magic or with an exclusion marker", IsSupportedPathspec(argP) == specSupported(argP))
}

// filters of one kind among the first n
func specKind(P []string, excl bool, n int) int {
	if n <= 0 {
		return 0
	}
	if P[n-1] != "" && specExclusion(P[n-1]) == excl {
		return specKind(P, excl, n-1) + 1
	}
	return specKind(P, excl, n-1)
}

// Every filter is one inclusion or one exclusion, its marker stripped.
//
//verif:property C11
//verif:runs 60000
func Contract_SplitPathspecs(argP []string, j0 int) {
	in, ex := SplitPathspecs(argP)

	if !ghost.AllInt(0, len(argP), func(i int) bool { return specSupported(argP[i]) }) {
		return
	}
	ghost.Ensures("inclusions", len(in) == specKind(argP, false, len(argP)))
	ghost.Ensures("exclusions", len(ex) == specKind(argP, true, len(argP)))
	if j0 < 0 || len(argP) <= j0 || argP[j0] == "" {
		return
	}
	if specExclusion(argP[j0]) {
		ghost.Ensures("an exclusion, without its marker", ex[specKind(argP, true, j0)] == specPattern(argP[j0]))
	} else {
		ghost.Ensures("an inclusion, as given", in[specKind(argP, false, j0)] == argP[j0])
	}
}

//verif:inv SplitPathspecs
func Inv_SplitPathspecs(p ghost.Pos, argP []string, includes []string, excludes []string, j0 int) bool {
	n := int(p)
	a, b := specKind(argP, false, n), specKind(argP, true, n)
	return a >= 0 && b >= 0 && ghost.Imp(ghost.AllInt(0, len(argP), func(i int) bool { return specSupported(argP[i]) }), func() bool {
		return specSplitSoFar(argP, includes, excludes, n, j0)
	})
}

func specSplitSoFar(argP []string, includes []string, excludes []string, n int, j0 int) bool {
	a, b := specKind(argP, false, n), specKind(argP, true, n)
	return len(includes) == a && len(excludes) == b &&
		ghost.Imp(0 <= j0 && j0 < n && argP[j0] != "" && specExclusion(argP[j0]), func() bool {
			i := specKind(argP, true, j0)
			return 0 <= i && i < b && excludes[i] == specPattern(argP[j0])
		}) &&
		ghost.Imp(0 <= j0 && j0 < n && argP[j0] != "" && !specExclusion(argP[j0]), func() bool {
			i := specKind(argP, false, j0)
			return 0 <= i && i < a && includes[i] == argP[j0]
		})
}

func specGlob(pattern, p string) bool {
	ok, _ := doublestar.Match(pattern, p)
	return ok
}

func specValid(pattern string) bool {
	_, err := doublestar.Match(pattern, "")
	return err == nil
}

// A pattern matches a path it matches as a glob, everything beneath a
// directory it matches, and with a leading star a path at any depth.
func specMatch(pattern, p string) bool {
	return specGlob(pattern, p) || specGlob(path.Join(pattern, "**"), p) ||
		pattern[0] == '*' && specGlob(path.Join("**/", pattern), p)
}

// a pattern the tool accepts
func specPatternOK(pattern string) bool {
	return pattern != "" && specValid(pattern) && specValid(path.Join(pattern, "**")) && specValid(path.Join("**/", pattern))
}

//verif:property C11
//verif:assume doublestar.Match rejects a pattern regardless of the path it is matched against
//verif:runs 60000
func Contract_PathspecMatch(argPattern string, argPath string) {
	ghost.Requires("a valid pattern", specPatternOK(argPattern))
	ghost.Ensures("glob, directory or any depth", PathspecMatch(argPattern, argPath) == specMatch(argPattern, argPath))
}

// the change is kept: it matches an inclusion, or there are none, and no
// exclusion
func specSelected(in, ex []string, p string) bool {
	return (len(in) == 0 || ghost.AnyInt(0, len(in), func(i int) bool { return PathspecMatch(in[i], p) })) &&
		!ghost.AnyInt(0, len(ex), func(i int) bool { return PathspecMatch(ex[i], p) })
}

// changes kept among the first n
func specKeptDiffs(D []FileDiff, in, ex []string, n int) int {
	if n <= 0 {
		return 0
	}
	if specSelected(in, ex, D[n-1].Path) {
		return specKeptDiffs(D, in, ex, n-1) + 1
	}
	return specKeptDiffs(D, in, ex, n-1)
}

// Each commit passes in its place with exactly the matching changes, in order.
//
//verif:property C11
//verif:opaque PathspecMatch, SplitPathspecs, IsSupportedPathspec
//verif:runs 60000
func Contract_LimitDiffsByPathspec(S []Commit, argP []string, k0 int, j0 int) {
	ghost.Requires("some filter", len(argP) > 0)
	in, ex := SplitPathspecs(argP)
	ghost.Requires("valid patterns", ghost.AllInt(0, len(in), func(i int) bool { return specPatternOK(in[i]) }) &&
		ghost.AllInt(0, len(ex), func(i int) bool { return specPatternOK(ex[i]) }))

	seq, err := LimitDiffsByPathspec(slices.Values(S), argP)

	supported := ghost.AllInt(0, len(argP), func(i int) bool { return IsSupportedPathspec(argP[i]) })
	ghost.Ensures("rejected exactly when a filter is not supported", (err == nil) == supported)
	if err != nil {
		return
	}
	out := []Commit{}
	for c := range seq {
		out = append(out, c)
	}
	ghost.Ensures("every commit passes", len(out) == len(S))
	if k0 < 0 || len(S) <= k0 {
		return
	}
	a, b := out[k0], S[k0]
	ghost.Ensures("nothing else about it changes", a.Hash == b.Hash && a.ShortHash == b.ShortHash && a.IsMerge == b.IsMerge &&
		a.AuthorName == b.AuthorName && a.AuthorEmail == b.AuthorEmail && a.Date.Equal(b.Date))
	D := b.FileDiffs
	ghost.Ensures("as many changes as match", len(a.FileDiffs) == specKeptDiffs(D, in, ex, len(D)))
	if 0 <= j0 && j0 < len(D) && specSelected(in, ex, D[j0].Path) {
		ghost.Ensures("a matching change is kept in its place", a.FileDiffs[specKeptDiffs(D, in, ex, j0)] == D[j0])
	}
}

// Without filters every change is kept.
//
//verif:property C11
func Contract_NoPathspecs(S []Commit, k0 int) {
	seq, err := LimitDiffsByPathspec(slices.Values(S), nil)
	ghost.Ensures("accepted", err == nil)
	out := []Commit{}
	for c := range seq {
		out = append(out, c)
	}
	ghost.Ensures("every commit passes", len(out) == len(S))
	if 0 <= k0 && k0 < len(S) {
		ghost.Ensures("unchanged", ghost.Eq(out[k0], S[k0]))
	}
}

//verif:inv NoPathspecs
func Inv_NoPathspecs(p ghost.Pos, S []Commit, out []Commit, k0 int) bool {
	return len(out) == int(p) && ghost.Imp(0 <= k0 && k0 < int(p), func() bool { return ghost.Eq(out[k0], S[k0]) })
}

//verif:inv LimitDiffsByPathspec
func Inv_Out(p ghost.Pos, S []Commit, includes, excludes []string, out []Commit, k0 int, j0 int) bool {
	n := int(p)
	return len(out) == n && ghost.Imp(0 <= k0 && k0 < n, func() bool {
		a, b := out[k0], S[k0]
		D := b.FileDiffs
		return a.Hash == b.Hash && a.ShortHash == b.ShortHash && a.IsMerge == b.IsMerge &&
			a.AuthorName == b.AuthorName && a.AuthorEmail == b.AuthorEmail && a.Date.Equal(b.Date) &&
			len(a.FileDiffs) == specKeptDiffs(D, includes, excludes, len(D)) &&
			ghost.Imp(0 <= j0 && j0 < len(D) && specSelected(includes, excludes, D[j0].Path), func() bool {
				i := specKeptDiffs(D, includes, excludes, j0)
				return 0 <= i && i < len(a.FileDiffs) && a.FileDiffs[i] == D[j0]
			})
	})
}

//verif:inv LimitDiffsByPathspec
func Inv_Diffs(p ghost.Pos, commit Commit, includes, excludes []string, filtered []FileDiff, j0 int) bool {
	n := int(p)
	D := commit.FileDiffs
	return specKeptDiffs(D, includes, excludes, n) >= 0 && len(filtered) == specKeptDiffs(D, includes, excludes, n) &&
		ghost.Imp(0 <= j0 && j0 < n && specSelected(includes, excludes, D[j0].Path), func() bool {
			i := specKeptDiffs(D, includes, excludes, j0)
			return 0 <= i && i < len(filtered) && filtered[i] == D[j0]
		})
}

//verif:inv LimitDiffsByPathspec
func Inv_NoMatch(p ghost.Pos, includes []string, diff FileDiff) bool {
	return ghost.AllInt(0, int(p), func(i int) bool { return !PathspecMatch(includes[i], diff.Path) })
}

//verif:inv LimitDiffsByPathspec
func Inv_Supported(p ghost.Pos, argP []string) bool {
	return ghost.AllInt(0, int(p), func(i int) bool { return IsSupportedPathspec(argP[i]) })
}

//verif:inv LimitDiffsByPathspec
func Inv_NoExclusion(p ghost.Pos, excludes []string, diff FileDiff) bool {
	return ghost.AllInt(0, int(p), func(i int) bool { return !PathspecMatch(excludes[i], diff.Path) })
}
