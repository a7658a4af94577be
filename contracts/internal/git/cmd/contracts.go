package cmd

import (
	"context"
	"fmt"
	"strings"

	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// where the author filters start among the arguments
func specBase(f LogFilters) int {
	n := 0
	if f.Since != "" {
		n += 2
	}
	if f.Until != "" {
		n += 2
	}
	return n
}

// Every filter is passed exactly once and unaltered.
//
//verif:property C20
//verif:runs 60000
func Contract_ToArgs(f LogFilters, j0 int) {
	ghost.Requires("any position", j0 >= 0)

	args := f.ToArgs()

	ghost.Ensures("nothing else", len(args) == specLen(f))
	checkFilters(args, 0, f, j0)
}

// number of words the filters take
func specLen(f LogFilters) int {
	n := specBase(f) + 2*len(f.Authors)
	if len(f.Nauthors) > 0 {
		n += 3
	}
	return n
}

// the filters are the words from a on
func checkFilters(args []string, a int, f LogFilters, j0 int) {
	b := a + specBase(f)
	m := b + 2*len(f.Authors)
	ghost.Ensures("all there", len(args) >= a+specLen(f))
	if f.Since != "" {
		ghost.Ensures("since", args[a] == "--since" && args[a+1] == f.Since)
	}
	if f.Until != "" {
		ghost.Ensures("until", args[b-2] == "--until" && args[b-1] == f.Until)
	}
	ghost.Ensures("authors", ghost.Imp(j0 < len(f.Authors), func() bool {
		return args[b+2*j0] == "--author" && args[b+2*j0+1] == f.Authors[j0]
	}))
	if len(f.Nauthors) > 0 {
		ghost.Ensures("one exclusion pattern", args[m] == "--perl-regexp" && args[m+1] == "--author" &&
			args[m+2] == fmt.Sprintf(`^((?!%s).*)$`, strings.Join(f.Nauthors, "|")))
	}
}

//verif:inv ToArgs,RunLog,RunRevList
func Inv_Authors(p ghost.Pos, j0 int, f LogFilters, args []string) bool {
	b := specBase(f)
	return len(args) == b+2*int(p) &&
		ghost.Imp(f.Since != "", func() bool { return args[0] == "--since" && args[1] == f.Since }) &&
		ghost.Imp(f.Until != "", func() bool { return args[b-2] == "--until" && args[b-1] == f.Until }) &&
		ghost.Imp(j0 < int(p), func() bool { return args[b+2*j0] == "--author" && args[b+2*j0+1] == f.Authors[j0] })
}

//verif:inv ToArgs,RunLog,RunRevList
func Inv_Join(p ghost.Pos, f LogFilters, b strings.Builder) bool {
	k := int(p)
	if k <= 0 {
		return b.String() == ""
	}
	if k == len(f.Nauthors) {
		return b.String() == strings.Join(f.Nauthors[:k], "|")
	}
	return b.String() == strings.Join(f.Nauthors[:k], "|")+"|"
}

// the command line of `git CMD flags... filters... revs... [-- paths...]`, the
// flags being the first nflags words after the command
func checkCmdLine(args []string, cmd string, f LogFilters, revs []string, paths []string, nflags, j0 int) {
	b := 2 + nflags
	r := b + specLen(f)
	p := r + len(revs)
	ghost.Ensures("runs git", len(args) >= 2 && args[0] == "git" && args[1] == cmd)
	if len(paths) == 0 {
		ghost.Ensures("nothing after the revisions", len(args) == p || len(args) == p+1 && args[p] == "--")
	} else {
		ghost.Ensures("separator and paths", len(args) == p+1+len(paths) && args[p] == "--")
		ghost.Ensures("paths unaltered", ghost.Imp(j0 < len(paths), func() bool { return args[p+1+j0] == paths[j0] }))
	}
	checkFilters(args, b, f, j0)
	ghost.Ensures("revisions before the separator", ghost.Imp(j0 < len(revs), func() bool { return args[r+j0] == revs[j0] }))
}

func specB2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// flag s is among the n words after the command
func specFlag(args []string, n int, s string) bool {
	return ghost.AnyInt(2, 12, func(i int) bool { return i < 2+n && args[i] == s })
}

func checkLogFlags(args []string, n int, needDiffs, useMailmap bool) {
	ghost.Ensures("null separators", specFlag(args, n, "-z"))
	ghost.Ensures("unix dates", specFlag(args, n, "--date=unix"))
	ghost.Ensures("oldest first", specFlag(args, n, "--reverse"))
	ghost.Ensures("no signatures", specFlag(args, n, "--no-show-signature"))
	ghost.Ensures("file changes exactly when needed", specFlag(args, n, "--numstat") == needDiffs)
	ghost.Ensures("no mailmap exactly when not wanted", specFlag(args, n, "--no-mailmap") == !useMailmap)
	ghost.Ensures("mailmap names exactly when wanted",
		specFlag(args, n, "--pretty=format:%H%x00%h%x00%p%x00%aN%x00%aE%x00%ad%x00") == useMailmap &&
			specFlag(args, n, "--pretty=format:%H%x00%h%x00%p%x00%an%x00%ae%x00%ad%x00") == !useMailmap)
}

//verif:property C20
//verif:runs 2000
func Contract_RunLog(ctx context.Context, revs []string, paths []string, f LogFilters, needDiffs, useMailmap bool, j0 int) {
	ghost.Requires("any position", j0 >= 0)
	ghost.FakeGit()
	sub, err := RunLog(ctx, revs, paths, f, needDiffs, useMailmap)
	ghost.Ensures("fails only when git cannot be started", (err != nil) == ghost.SpawnFailed())
	if err != nil {
		return
	}
	args := ghost.CmdArgs(sub.cmd)
	ghost.Reap(sub.cmd)
	n := 5 + specB2i(needDiffs) + specB2i(!useMailmap)
	checkLogFlags(args, n, needDiffs, useMailmap)
	checkCmdLine(args, "log", f, revs, paths, n, j0)
}

//verif:property C20
//verif:runs 2000
func Contract_RunStdinLog(ctx context.Context, paths []string, needDiffs, useMailmap bool, j0 int) {
	ghost.Requires("any position", j0 >= 0)
	ghost.FakeGit()
	sub, err := RunStdinLog(ctx, paths, needDiffs, useMailmap)
	ghost.Ensures("fails only when git cannot be started", (err != nil) == ghost.SpawnFailed())
	if err != nil {
		return
	}
	args := ghost.CmdArgs(sub.cmd)
	ghost.Reap(sub.cmd)
	n := 7 + specB2i(needDiffs) + specB2i(!useMailmap)
	checkLogFlags(args, n, needDiffs, useMailmap)
	ghost.Ensures("revisions from the input", specFlag(args, n, "--stdin"))
	ghost.Ensures("only the revisions given", specFlag(args, n, "--no-walk"))
	checkCmdLine(args, "log", LogFilters{}, nil, paths, n, j0)
}

//verif:property C20
//verif:runs 2000
func Contract_RunRevList(ctx context.Context, revs []string, paths []string, f LogFilters, j0 int) {
	ghost.Requires("any position", j0 >= 0)
	ghost.FakeGit()
	sub, err := RunRevList(ctx, revs, paths, f)
	ghost.Ensures("refuses to run without a revision", err != nil || len(revs) > 0)
	ghost.Ensures("fails only when git cannot be started", (err != nil) == (ghost.SpawnFailed() || len(revs) == 0))
	if err != nil {
		return
	}
	args := ghost.CmdArgs(sub.cmd)
	ghost.Reap(sub.cmd)
	ghost.Ensures("oldest first", specFlag(args, 1, "--reverse"))
	checkCmdLine(args, "rev-list", f, revs, paths, 1, j0)
}

//verif:property C20
//verif:runs 2000
func Contract_RunLsFiles(ctx context.Context, paths []string, j0 int) {
	ghost.Requires("any position", j0 >= 0)
	ghost.FakeGit()
	sub, err := RunLsFiles(ctx, paths)
	ghost.Ensures("fails only when git cannot be started", (err != nil) == ghost.SpawnFailed())
	if err != nil {
		return
	}
	args := ghost.CmdArgs(sub.cmd)
	ghost.Reap(sub.cmd)
	ghost.Ensures("null separators", specFlag(args, 2, "-z"))
	ghost.Ensures("standard excludes", specFlag(args, 2, "--exclude-standard"))
	checkCmdLine(args, "ls-files", LogFilters{}, nil, paths, 2, j0)
}

// The arguments the user typed are all handed to git for resolution.
//
//verif:property C19,C20
//verif:runs 2000
func Contract_RunRevParse(ctx context.Context, words []string, j0 int) {
	ghost.Requires("any position", j0 >= 0)
	ghost.FakeGit()
	sub, err := RunRevParse(ctx, words)
	ghost.Ensures("fails only when git cannot be started", (err != nil) == ghost.SpawnFailed())
	if err != nil {
		return
	}
	args := ghost.CmdArgs(sub.cmd)
	ghost.Reap(sub.cmd)
	ghost.Ensures("runs git rev-parse --no-flags", len(args) == 3+len(words) && args[0] == "git" && args[1] == "rev-parse" && args[2] == "--no-flags")
	ghost.Ensures("words unaltered", ghost.Imp(j0 < len(words), func() bool { return args[3+j0] == words[j0] }))
}
