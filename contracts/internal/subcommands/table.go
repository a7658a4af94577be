package subcommands

import (
	"strconv"
	"time"

	"github.com/sinclairtarget/git-who/internal/tally"
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- C17: CSV output -------------------------------------------------------------

// what belongs under a header
func specCell(header string, t tally.FinalTally) string {
	switch header {
	case "name":
		return t.AuthorName
	case "email":
		return t.AuthorEmail
	case "commits":
		return strconv.Itoa(t.Commits)
	case "lines added":
		return strconv.Itoa(t.LinesAdded)
	case "lines removed":
		return strconv.Itoa(t.LinesRemoved)
	case "files":
		return strconv.Itoa(t.FileCount)
	case "last commit time":
		return t.LastCommitTime.Format(time.RFC3339)
	case "first commit time":
		return t.FirstCommitTime.Format(time.RFC3339)
	}
	return "?"
}

func specMode(mode tally.TallyMode) bool {
	return mode == tally.CommitMode || mode == tally.LinesMode || mode == tally.FilesMode ||
		mode == tally.LastModifiedMode || mode == tally.FirstModifiedMode
}

func specDiff(opts tally.TallyOpts) bool {
	return opts.Mode == tally.LinesMode || opts.Mode == tally.FilesMode
}

func specColumns(opts tally.TallyOpts, showEmail bool) int {
	n := 4
	if showEmail {
		n++
	}
	if specDiff(opts) {
		n += 3
	}
	return n
}

// the author first, then commits, lines and files when known, the dates last
func specHeader(h []string, opts tally.TallyOpts, showEmail bool) bool {
	n := specColumns(opts, showEmail)
	return len(h) == n && h[0] == "name" && (!showEmail || h[1] == "email") &&
		h[n-2] == "last commit time" && h[n-1] == "first commit time" &&
		(specDiff(opts) || h[n-3] == "commits") &&
		(!specDiff(opts) || h[n-6] == "commits" && h[n-5] == "lines added" && h[n-4] == "lines removed" && h[n-3] == "files")
}

// Every row holds, under each header, that author's value.
//
//verif:property C17
//verif:fork
//verif:runs 1000
func Contract_WriteCsv(ts []tally.FinalTally, opts tally.TallyOpts, showEmail bool, a0, c0 int) {
	ghost.Requires("a ranking mode", specMode(opts.Mode))
	ghost.Requires("names without line breaks, which CSV readers normalise", ghost.AllInt(0, len(ts), func(i int) bool { return ts[i].AuthorName != "" }))

	ghost.CaptureRows()
	err := writeCsv(ts, opts, showEmail)
	rows := ghost.Rows()

	ghost.Ensures("no error", err == nil)
	ghost.Ensures("a header and a row per author", len(rows) == 1+len(ts))
	h := rows[0]
	n := specColumns(opts, showEmail)
	ghost.Ensures("the header", specHeader(h, opts, showEmail))
	if 0 <= a0 && a0 < len(ts) {
		r := rows[a0+1]
		ghost.Ensures("a value per header", len(r) == n)
		if 0 <= c0 && c0 < n {
			ghost.Ensures("the author's value under its header", r[c0] == specCell(h[c0], ts[a0]))
		}
	}
}

//verif:inv WriteCsv
func Inv_WriteCsv(p ghost.Pos, tallies []tally.FinalTally, opts tally.TallyOpts, showEmail bool, a0, c0 int) bool {
	rows := ghost.Rows()
	return len(rows) == 1+int(p) && specHeader(rows[0], opts, showEmail) && ghost.Imp(0 <= a0 && a0 < int(p), func() bool {
		r := rows[a0+1]
		h := rows[0]
		return len(r) == len(h) && ghost.Imp(0 <= c0 && c0 < len(h), func() bool { return r[c0] == specCell(h[c0], tallies[a0]) })
	})
}
