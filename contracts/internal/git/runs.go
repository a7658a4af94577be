package git

import (
	"context"
	"strings"

	"github.com/sinclairtarget/git-who/internal/git/cmd"
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- C06, C05: what git answers is taken whole, or an error is reported ------------

func specLines(lines []string) bool {
	return ghost.AllInt(0, len(lines), func(i int) bool { return !strings.ContainsAny(lines[i], "\n\r") })
}

// Every revision git lists, once and in order.
//
//verif:property C05 C06
//verif:runs 1500
func Contract_RevList(lines []string, fail bool, ranges, paths []string, filters cmd.LogFilters, j0 int) {
	ghost.Requires("lines", specLines(lines))
	ghost.GitLines(lines, fail)

	revs, err := RevList(context.Background(), ranges, paths, filters)

	ghost.Ensures("git's failure is reported", err != nil || !ghost.Failed())
	if len(ranges) > 0 {
		ghost.Ensures("only failures are reported", err == nil || ghost.Failed())
	}
	if err != nil {
		return
	}
	ghost.Ensures("as many as git lists", len(revs) == len(lines))
	if 0 <= j0 && j0 < len(lines) {
		ghost.Ensures("in order", revs[j0] == lines[j0])
	}
}

//verif:inv RevList
func Inv_RevList(p ghost.Pos, lines, revs []string) bool {
	return len(revs) == int(p) && ghost.AllInt(0, int(p), func(i int) bool { return revs[i] == lines[i] })
}

// The work tree's files are those git lists.
//
//verif:property C13 C06
//verif:runs 1500
func Contract_WorkingTreeFiles(tokens []string, fail bool, paths []string, h0 string) {
	ghost.Requires("file names", ghost.AllInt(0, len(tokens), func(i int) bool { return len(tokens[i]) > 0 && tokens[i][0] != '\n' && !strings.Contains(tokens[i], "\x00") }))
	ghost.Git(tokens, fail)

	set, err := WorkingTreeFiles(paths)

	ghost.Ensures("git's failure is reported", err != nil || !ghost.Failed())
	ghost.Ensures("only failures are reported", err == nil || ghost.Failed())
	if err == nil && h0 != "" {
		ghost.Ensures("listed, in the set", set[h0] == ghost.AnyInt(0, len(tokens), func(i int) bool { return tokens[i] == h0 }))
	}
}

//verif:inv WorkingTreeFiles
func Inv_WorkingTreeFiles(p ghost.Pos, tokens []string, wtreeset map[string]bool, h0 string) bool {
	return wtreeset[h0] == ghost.AnyInt(0, int(p), func(i int) bool { return tokens[i] == h0 })
}

// The root is what git says it is.
//
//verif:property C06
//verif:runs 300
func Contract_GetRoot(root string, fail bool) {
	ghost.Requires("a path", root != "" && strings.TrimSpace(root) == root)
	ghost.GitText(root, fail)

	got, err := GetRoot()

	ghost.Ensures("git's failure is reported", err != nil || !ghost.Failed())
	ghost.Ensures("only failures are reported", err == nil || ghost.Failed())
	if err == nil {
		ghost.Ensures("as git says", got == root)
	}
}
