package config

import (
	"strings"

	rev "github.com/sinclairtarget/git-who/internal/git/revision"
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// what a line lists: the text before a comment, without surrounding blanks
func specListed(line string) string {
	before, _, _ := strings.Cut(line, "#")
	return strings.TrimSpace(before)
}

// lines listing a full hash among the first n
func specNumListed(lines []string, n int) int {
	if n <= 0 {
		return 0
	}
	if rev.IsFullHash(specListed(lines[n-1])) {
		return specNumListed(lines, n-1) + 1
	}
	return specNumListed(lines, n-1)
}

// The revisions ignored are the full hashes the file lists, in order; a file
// that cannot be read is an error.
//
//verif:property C10
func Contract_IgnoreRevs(argLines []string, j0 int) {
	path := ghost.FileLines(argLines)
	sf := SupplementalFiles{IgnoreRevsPath: path}

	revs, err := sf.IgnoreRevs()

	ghost.Ensures("a failure is reported", (err != nil) == ghost.Failed())
	if err == nil {
		ghost.Ensures("as many as the file lists", len(revs) == specNumListed(argLines, len(argLines)))
		if 0 <= j0 && j0 < len(argLines) && rev.IsFullHash(specListed(argLines[j0])) {
			ghost.Ensures("the hash of the line, in its place", revs[specNumListed(argLines, j0)] == specListed(argLines[j0]))
		}
	}
}

//verif:inv IgnoreRevs
func Inv_IgnoreRevs(p ghost.Pos, argLines []string, revs []string, j0 int) bool {
	n := int(p)
	return len(revs) == specNumListed(argLines, n) && specNumListed(argLines, n) >= 0 &&
		ghost.Imp(0 <= j0 && j0 < n && rev.IsFullHash(specListed(argLines[j0])), func() bool {
			return 0 <= specNumListed(argLines, j0) && specNumListed(argLines, j0) < len(revs) &&
				revs[specNumListed(argLines, j0)] == specListed(argLines[j0])
		})
}

// Without the file nothing is ignored.
//
//verif:property C10
func Contract_NoIgnoreRevs(mailmap, global string) {
	sf := SupplementalFiles{RepoMailmapPath: mailmap, GlobalMailmapPath: global}
	revs, err := sf.IgnoreRevs()
	ghost.Ensures("nothing listed", len(revs) == 0 && err == nil && !sf.HasIgnoreRevs())
}
