package git

import (
	"path/filepath"
	"strings"

	rev "github.com/sinclairtarget/git-who/internal/git/revision"
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// number of leading full hashes among the first n lines
func specLead(lines []string, n int) int {
	if n <= 0 {
		return 0
	}
	k := specLead(lines, n-1)
	if k == n-1 && rev.SpecIsHash(lines[n-1]) {
		return n
	}
	return k
}

// number of lines among the first n that are the separator, after the hashes
func specSeps(lines []string, n int) int {
	if n <= 0 {
		return 0
	}
	if specLead(lines, n) < n && lines[n-1] == "--" {
		return specSeps(lines, n-1) + 1
	}
	return specSeps(lines, n-1)
}

// The leading full hashes are revisions, all else is a path.
//
//verif:property C19 C06
//verif:runs 1500
func Contract_ParseArgs(words []string, argLines []string, fail bool, j0 int) {
	ghost.Requires("lines", ghost.AllInt(0, len(argLines), func(i int) bool { return !strings.ContainsAny(argLines[i], "\n\r") }))
	lines := argLines
	ghost.GitLines(lines, fail)

	revs, paths, err := ParseArgs(words)

	ghost.Ensures("git's failure is reported", err != nil || !ghost.Failed())
	ghost.Ensures("only failures are reported", err == nil || ghost.Failed())
	if err != nil {
		return
	}
	n := len(lines)
	h := specLead(lines, n)
	if h > 0 {
		ghost.Ensures("as many revisions as leading hashes", len(revs) == h)
		if 0 <= j0 && j0 < h {
			ghost.Ensures("revisions as resolved", revs[j0] == lines[j0])
		}
	} else {
		ghost.Ensures("HEAD stands in", len(revs) == 1 && revs[0] == "HEAD")
	}
	ghost.Ensures("everything else is a path", len(paths) == n-h-specSeps(lines, n))
	if h <= j0 && j0 < n && lines[j0] != "--" {
		ghost.Ensures("paths in order", paths[j0-h-specSeps(lines, j0)] == filepath.ToSlash(lines[j0]))
	}
}

//verif:inv ParseArgs
func Inv_ParseArgs(p ghost.Pos, argLines []string, revs []string, pathspecs []string, pastRevs bool, j0 int) bool {
	lines := argLines
	n := int(p)
	h := specLead(lines, n)
	return 0 <= h && h <= n && 0 <= specSeps(lines, n) && specSeps(lines, n) <= n-h &&
		pastRevs == (h < n) && len(revs) == h && len(pathspecs) == n-h-specSeps(lines, n) &&
		ghost.Imp(0 <= j0 && j0 < h, func() bool { return revs[j0] == lines[j0] }) &&
		ghost.Imp(h <= j0 && j0 < n && lines[j0] != "--", func() bool {
			return 0 <= specSeps(lines, j0) && j0-h-specSeps(lines, j0) < len(pathspecs) &&
				0 <= j0-h-specSeps(lines, j0) && pathspecs[j0-h-specSeps(lines, j0)] == filepath.ToSlash(lines[j0])
		})
}
