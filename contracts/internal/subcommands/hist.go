package subcommands

import (
	"github.com/sinclairtarget/git-who/internal/tally"
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

type zzPlot struct {
	buckets []tally.TimeBucket
	maxVal  int
}

var _ = ghost.Gen(func(r *ghost.Rand) zzPlot {
	p := zzPlot{maxVal: barWidth}
	scale := []int{3, 40, 2000, 3000000}[r.Intn(4)]
	for n := r.Intn(6); n > 0; n-- {
		c, l, f := r.Intn(scale), r.Intn(scale), r.Intn(scale)
		if r.Intn(3) == 0 {
			c, l, f = 0, 0, 0
		}
		w := tally.FinalTally{AuthorName: r.Str("author"), AuthorEmail: r.Str("email"), Commits: c, LinesAdded: l, LinesRemoved: l / 2, FileCount: f}
		t := w
		t.Commits, t.LinesAdded, t.LinesRemoved, t.FileCount = c+r.Intn(scale), l+r.Intn(scale), l/2, f+r.Intn(scale)
		p.buckets = append(p.buckets, tally.TimeBucket{Name: "2020", Tally: w, TotalTally: t})
		p.maxVal = max(p.maxVal, t.Commits, t.LinesAdded+t.LinesRemoved, t.FileCount)
	}
	return p
})

// Drawing never fails: no bar has a negative length, whatever the counts.
//
//verif:property C16
//verif:runs 300
func Contract_DrawPlot(plot zzPlot, mode tally.TallyMode, showEmail bool) {
	buckets, maxVal := plot.buckets, plot.maxVal
	ghost.Requires("a timeline mode", mode == tally.CommitMode || mode == tally.LinesMode || mode == tally.FilesMode)
	ghost.Requires("the scale covers every period", maxVal >= barWidth && ghost.AllInt(0, len(buckets), func(i int) bool {
		b := buckets[i]
		return b.Tally.Commits >= 0 && b.Tally.FileCount >= 0 && b.Tally.LinesAdded >= 0 && b.Tally.LinesRemoved >= 0 &&
			b.Value(mode) <= b.TotalValue(mode) && b.TotalValue(mode) <= maxVal
	}))
	ghost.CaptureLines()
	drawPlot(buckets, maxVal, mode, showEmail)
	ghost.Ensures("a line per period", ghost.LinesPrinted() == len(buckets))
}

//verif:inv DrawPlot
func Inv_DrawPlot(p ghost.Pos) bool { return ghost.LinesPrinted() == int(p) }
