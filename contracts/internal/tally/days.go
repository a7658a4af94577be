package tally

import (
	"slices"
	"time"

	"github.com/sinclairtarget/git-who/internal/git"
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- C15: one bucket per day, every commit in its own ---------------------------

// a history, the days from that of its first commit to that of its last, and
// for every commit the place of its day in the list
type zzDays struct {
	S    []git.Commit
	days []time.Time
	pos  []int
}

var _ = ghost.Gen(func(r *ghost.Rand) zzDays {
	var z zzDays
	n := 1 + r.Intn(6)
	lo, hi := time.Time{}, time.Time{}
	for i := 0; i < n; i++ {
		c := git.Commit{Hash: r.Str("hash"), AuthorName: r.Str("author"), AuthorEmail: r.Str("author") + "@x", IsMerge: r.Intn(4) == 0}
		c.Date = time.Unix(int64(r.Intn(12*86400)), 0)
		for d := r.Intn(4); d > 0; d-- {
			c.FileDiffs = append(c.FileDiffs, git.FileDiff{Path: r.Str("path"), LinesAdded: r.Intn(9), LinesRemoved: r.Intn(9)})
		}
		z.S = append(z.S, c)
		day := daily.apply(c.Date)
		if i == 0 || day.Before(lo) {
			lo = day
		}
		if i == 0 || day.After(hi) {
			hi = day
		}
	}
	for d := lo; !d.After(hi); d = daily.next(d) {
		z.days = append(z.days, d)
	}
	for _, c := range z.S {
		z.pos = append(z.pos, slices.IndexFunc(z.days, daily.apply(c.Date).Equal))
	}
	return z
})

// the days follow one another
func specConsecutive(D []time.Time) bool {
	return len(D) > 0 && ghost.AllInt(0, len(D), func(i int) bool {
		return daily.apply(D[i]).Equal(D[i]) && specWholeSeconds(D[i]) && daily.next(D[i]).After(D[len(D)-1]) == (i == len(D)-1) &&
			ghost.Imp(i+1 < len(D), func() bool { return daily.next(D[i]).Equal(D[i+1]) }) &&
			ghost.AllInt(0, len(D), func(j int) bool { return D[i].Before(D[j]) == (i < j) })
	})
}

// commit c is k's and belongs to day u
func specOnDay(c git.Commit, opts TallyOpts, k string, u time.Time) bool {
	return specCounts(c, opts, k) && daily.apply(c.Date).Equal(u)
}

// counted commits of author k on day u, among the first n
func specDayN(S []git.Commit, opts TallyOpts, k string, u time.Time, n int) int {
	if n <= 0 {
		return 0
	}
	if specOnDay(S[n-1], opts, k, u) {
		return specDayN(S, opts, k, u, n-1) + 1
	}
	return specDayN(S, opts, k, u, n-1)
}

// lines added (or removed) in them
func specDayLines(S []git.Commit, opts TallyOpts, k string, u time.Time, added bool, n int) int {
	if n <= 0 {
		return 0
	}
	if specOnDay(S[n-1], opts, k, u) && !S[n-1].IsMerge {
		return specDayLines(S, opts, k, u, added, n-1) + specDiffSum(S[n-1].FileDiffs, added, len(S[n-1].FileDiffs))
	}
	return specDayLines(S, opts, k, u, added, n-1)
}

// path h is among the first n changes
func specTouches(D []git.FileDiff, h string, n int) bool {
	if n <= 0 {
		return false
	}
	if D[n-1].Path == h {
		return true
	}
	return specTouches(D, h, n-1)
}

// ... changed by them
func specDayFile(S []git.Commit, opts TallyOpts, k string, u time.Time, h string, n int) bool {
	if n <= 0 {
		return false
	}
	if specOnDay(S[n-1], opts, k, u) && !S[n-1].IsMerge && specTouches(S[n-1].FileDiffs, h, len(S[n-1].FileDiffs)) {
		return true
	}
	return specDayFile(S, opts, k, u, h, n-1)
}

// The timeline by days has one bucket for each day from the first commit's to
// the last's, and an author's tally of a day covers exactly the counted
// commits of that author on that day; merges add no lines or files.
//
//verif:property C15
//verif:fork
//verif:opaque internal/tally.startOfDay
//verif:runs 3000
func Contract_ByDate(z zzDays, opts TallyOpts, j0 int, k0, h0 string) {
	S, D := z.S, z.days
	now := time.Now()
	ghost.Requires("a timeline mode", specHistMode(opts.Mode) && opts.Key != nil)
	ghost.Requires("commits as parsed", specSane(S) && len(S) > 0 && len(S) == len(z.pos))
	ghost.Requires("consecutive days", specConsecutive(D) && !D[0].Before(time.Time{}) && !D[0].After(now))
	ghost.Requires("of the commits", ghost.AllInt(0, len(S), func(i int) bool {
		p := z.pos[i]
		return 0 <= p && p < len(D) && daily.apply(S[i].Date).Equal(D[p])
	}))
	ghost.Requires("from the first to the last", ghost.AnyInt(0, len(S), func(i int) bool { return z.pos[i] == 0 }) &&
		ghost.AnyInt(0, len(S), func(i int) bool { return z.pos[i] == len(D)-1 }))

	out, err := TallyCommitsByDate(slices.Values(S), opts)

	ghost.Ensures("no error", err == nil)
	ghost.Ensures("a bucket for every day", len(out) == len(D))
	if 0 <= j0 && j0 < len(D) {
		u := D[j0]
		ghost.Ensures("in order", out[j0].Time.Equal(u) && out[j0].Name == daily.label(u))
		n := specDayN(S, opts, k0, u, len(S))
		t, ok := out[j0].tallies[k0]
		ghost.Ensures("a tally exactly for authors with a counted commit", ok == (n > 0))
		if ok {
			ghost.Ensures("commits", t.numTallied == n)
			ghost.Ensures("lines added", t.added == specDayLines(S, opts, k0, u, true, len(S)))
			ghost.Ensures("lines removed", t.removed == specDayLines(S, opts, k0, u, false, len(S)))
			ghost.Ensures("files", ghost.Has(t.fileset, h0) == specDayFile(S, opts, k0, u, h0, len(S)))
		}
	}
}

// B holds a bucket of its own for each of its days
func specDayBuckets(B map[int64]TimeBucket) bool {
	return ghost.AllKeys(B, func(x int64) bool {
		return B[x].Time.Unix() == x && specWholeSeconds(B[x].Time) && B[x].Name == daily.label(B[x].Time) && ghost.Allocated(B[x].tallies) &&
			ghost.AllKeys(B, func(y int64) bool { return x == y || !ghost.Same(B[x].tallies, B[y].tallies) }) &&
			ghost.AllKeys(B[x].tallies, func(k string) bool { return ghost.Allocated(B[x].tallies[k].fileset) })
	})
}

// set is no file set of B but that of author k0 on day u
func specNoBucketFiles(B map[int64]TimeBucket, u int64, k0 string, set map[string]bool) bool {
	return ghost.AllKeys(B, func(x int64) bool {
		return ghost.AllKeys(B[x].tallies, func(k string) bool {
			return x == u && k == k0 || !ghost.Same(B[x].tallies[k].fileset, set)
		})
	})
}

//verif:inv ByDate @TallyCommitsByDate#seq:TallyCommitsByDate$2
func Inv_ByDateRange(p ghost.Pos, minTime, maxTime time.Time, z zzDays) bool {
	D := z.days
	return !minTime.Before(D[0]) && !maxTime.After(D[len(D)-1]) && ghost.AllInt(0, int(p), func(i int) bool {
		return !D[z.pos[i]].Before(minTime) && !D[z.pos[i]].After(maxTime)
	})
}

//verif:inv ByDate @TallyCommitsByDate#seq:TallyCommitsByDate$2
func Inv_ByDateBuckets(p ghost.Pos, buckets map[int64]TimeBucket, z zzDays, opts TallyOpts, j0 int, k0, h0 string) bool {
	S, D := z.S, z.days
	return specDayBuckets(buckets) && ghost.Imp(0 <= j0 && j0 < len(D), func() bool {
		return specNoBucketFiles(buckets, D[j0].Unix(), k0, buckets[D[j0].Unix()].tallies[k0].fileset) && specDayTally0(buckets, S, opts, D[j0], k0, h0, int(p))
	})
}

func specDayTally0(buckets map[int64]TimeBucket, S []git.Commit, opts TallyOpts, u time.Time, k0, h0 string, p int) bool {
	n := specDayN(S, opts, k0, u, p)
	t, ok := buckets[u.Unix()].tallies[k0]
	return n >= 0 && ok == (n > 0) && ghost.Imp(!ok, func() bool {
		return specDayLines(S, opts, k0, u, true, p) == 0 && specDayLines(S, opts, k0, u, false, p) == 0 && !specDayFile(S, opts, k0, u, h0, p)
	}) && ghost.Imp(ok, func() bool {
		return t.numTallied == n && t.added == specDayLines(S, opts, k0, u, true, p) && t.removed == specDayLines(S, opts, k0, u, false, p) &&
			ghost.Has(t.fileset, h0) == specDayFile(S, opts, k0, u, h0, p)
	})
}

//verif:inv ByDate @TallyCommitsByDate$2#L0
func Inv_ByDateFiles(p ghost.Pos, o ghost.Outer, buckets map[int64]TimeBucket, bucket TimeBucket, tally Tally, key string, commit git.Commit, z zzDays, opts TallyOpts, j0 int, k0, h0 string) bool {
	S, D := z.S, z.days
	n, j := int(o), int(p)
	return specDayBuckets(buckets) && ghost.Allocated(tally.fileset) && ghost.Imp(0 <= j0 && j0 < len(D), func() bool {
		u := D[j0]
		here := key == k0 && bucket.Time.Equal(u)
		return specNoBucketFiles(buckets, u.Unix(), k0, buckets[u.Unix()].tallies[k0].fileset) &&
			ghost.Imp(!here, func() bool {
				return specDayTally0(buckets, S, opts, u, k0, h0, n) && !ghost.Same(tally.fileset, buckets[u.Unix()].tallies[k0].fileset)
			}) &&
			ghost.Imp(here, func() bool {
				a, r := 0, 0
				if !commit.IsMerge {
					a, r = specDiffSum(commit.FileDiffs, true, j), specDiffSum(commit.FileDiffs, false, j)
				}
				return tally.numTallied == specDayN(S, opts, k0, u, n)+1 && specNoBucketFiles(buckets, u.Unix(), k0, tally.fileset) && tally.added == specDayLines(S, opts, k0, u, true, n)+a && tally.removed == specDayLines(S, opts, k0, u, false, n)+r &&
					ghost.Has(tally.fileset, h0) == (specDayFile(S, opts, k0, u, h0, n) || !commit.IsMerge && specTouches(commit.FileDiffs, h0, j))
			})
	})
}

//verif:inv ByDate @TallyCommitsByDate#L0
func Inv_ByDateDense(buckets map[int64]TimeBucket, bucketSlice []TimeBucket, t time.Time, z zzDays, j0 int, k0 string) bool {
	D := z.days
	n := len(bucketSlice)
	return n <= len(D) && ghost.Imp(n < len(D), func() bool { return t.Equal(D[n]) }) &&
		ghost.Imp(n == len(D), func() bool { return t.After(D[n-1]) }) &&
		ghost.Imp(0 <= j0 && j0 < n, func() bool {
			b, u := bucketSlice[j0], D[j0].Unix()
			return b.Time.Equal(D[j0]) && b.Name == daily.label(D[j0]) && b.tallies != nil &&
				ghost.Imp(ghost.Has(buckets, u), func() bool { return ghost.Same(b.tallies, buckets[u].tallies) }) &&
				ghost.Imp(!ghost.Has(buckets, u), func() bool { return !ghost.Has(b.tallies, k0) })
		})
}

// ---- coarser periods -------------------------------------------------------------

// a timeline by days, a resolution, the periods it has from the first day's to
// the end's, and for every day the place of its period
type zzCoarse struct {
	days   []TimeBucket
	end    time.Time
	res    Resolution
	starts []time.Time
	pos    []int

	// the figures of author k on every day
	k                   string
	has                 []bool
	num, added, removed []int
}

var _ = ghost.Gen(func(r *ghost.Rand) zzCoarse {
	z := zzCoarse{k: r.Str("author"), res: CalcResolution(time.Unix(0, 0), time.Unix(int64([]int{1, 61, 1900}[r.Intn(3)]*86400), 0))}
	d := daily.apply(time.Unix(int64(r.Intn(9000))*86400, 0))
	for n := 1 + r.Intn(5); n > 0; n-- {
		b := zzBucket(r, d.Unix())
		b.Name, b.Time = daily.label(d), d
		z.days, z.end = append(z.days, b), d
		for k := []int{1, 1, 20, 200, 500}[r.Intn(5)]; k > 0; k-- {
			d = daily.next(d)
		}
	}
	for k := []int{0, 0, 3, 90, 800}[r.Intn(5)]; k > 0; k-- {
		z.end = z.end.Add(20 * time.Hour)
	}
	for t := z.res.apply(z.days[0].Time); !t.After(z.end); t = z.res.next(t) {
		z.starts = append(z.starts, t)
	}
	for _, b := range z.days {
		z.pos = append(z.pos, slices.IndexFunc(z.starts, z.res.apply(b.Time).Equal))
		t, ok := b.tallies[z.k]
		z.has, z.num, z.added, z.removed = append(z.has, ok), append(z.num, t.numTallied), append(z.added, t.added), append(z.removed, t.removed)
	}
	return z
})

// the periods follow one another up to the end
func specPeriods(z zzCoarse) bool {
	D, r := z.starts, z.res
	return len(D) > 0 && ghost.AllInt(0, len(D), func(i int) bool {
		return r.apply(D[i]).Equal(D[i]) && r.next(D[i]).After(z.end) == (i == len(D)-1) && !D[i].After(z.end) &&
			ghost.Imp(i+1 < len(D), func() bool { return r.next(D[i]).Equal(D[i+1]) }) &&
			ghost.AllInt(0, len(D), func(j int) bool { return D[i].Before(D[j]) == (i < j) })
	})
}

// what the first n days whose period is at p have together
func specPeriodSum(X []int, has []bool, pos []int, p, n int) int {
	if n <= 0 {
		return 0
	}
	if has[n-1] && pos[n-1] == p {
		return specPeriodSum(X, has, pos, p, n-1) + X[n-1]
	}
	return specPeriodSum(X, has, pos, p, n-1)
}

// the figures of author z.k from day n on
func specFigures(z zzCoarse, n int) bool {
	return ghost.AllInt(n, len(z.days), func(i int) bool {
		t, ok := z.days[i].tallies[z.k]
		return ok == z.has[i] && ghost.Imp(ok, func() bool { return t.numTallied == z.num[i] && t.added == z.added[i] && t.removed == z.removed[i] })
	})
}

// t is what author z.k has in period p, as of the first n days
func specInPeriod(z zzCoarse, t Tally, ok bool, p, n int) bool {
	N := specPeriodSum(z.num, z.has, z.pos, p, n)
	return N >= 0 && ok == (N > 0) && ghost.Imp(!ok, func() bool {
		return specPeriodSum(z.added, z.has, z.pos, p, n) == 0 && specPeriodSum(z.removed, z.has, z.pos, p, n) == 0
	}) && ghost.Imp(ok, func() bool {
		return t.numTallied == N && t.added == specPeriodSum(z.added, z.has, z.pos, p, n) && t.removed == specPeriodSum(z.removed, z.has, z.pos, p, n)
	})
}

// The coarser timeline has one bucket for each period from that of the first
// day to that of the end, and an author's tally of a period takes together
// those of its days.
//
//verif:property C15
//verif:fork
//verif:runs 3000
func Contract_Rebucket(z zzCoarse, j0 int) {
	B, D := z.days, z.starts
	ghost.Requires("a resolution", z.res.apply != nil && z.res.next != nil && z.res.label != nil)
	ghost.Requires("days in order", len(B) > 0 && specSeries(B) && ghost.AllInt(0, len(B), func(i int) bool { return ghost.Allocated(B[i].tallies) }))
	ghost.Requires("consecutive periods", specPeriods(z))
	ghost.Requires("of the days", len(z.pos) == len(B) && z.pos[0] == 0 && ghost.AllInt(0, len(B), func(i int) bool {
		p := z.pos[i]
		return 0 <= p && p < len(D) && z.res.apply(B[i].Time).Equal(D[p]) &&
			ghost.AllInt(0, len(B), func(j int) bool { return ghost.Imp(i <= j, func() bool { return p <= z.pos[j] }) })
	}))
	ghost.Requires("an author", len(z.has) == len(B) && len(z.num) == len(B) && len(z.added) == len(B) && len(z.removed) == len(B) && specFigures(z, 0))

	out := Rebucket(B, z.res, z.end)

	ghost.Ensures("a bucket for every period", len(out) == len(D))
	if 0 <= j0 && j0 < len(D) {
		ghost.Ensures("in order", out[j0].Time.Equal(D[j0]) && out[j0].Name == z.res.label(D[j0]))
		t, ok := out[j0].tallies[z.k]
		ghost.Ensures("the author's figures of its days together", specInPeriod(z, t, ok, j0, len(B)))
	}
}

//verif:inv Rebucket @Rebucket#L1
func Inv_RebucketDays(p ghost.Pos, rebuckets []TimeBucket, i int, z zzCoarse, j0 int) bool {
	n := int(p)
	return len(rebuckets) == len(z.starts) && specCoarse(rebuckets, z) && specFigures(z, n) &&
		ghost.Imp(n == 0, func() bool { return i == 0 }) && ghost.Imp(n > 0, func() bool { return i == z.pos[n-1] }) &&
		ghost.Imp(0 <= j0 && j0 < len(z.starts), func() bool {
			t, ok := rebuckets[j0].tallies[z.k]
			return specInPeriod(z, t, ok, j0, n)
		})
}

//verif:inv Rebucket @Rebucket#L2
func Inv_RebucketSkip(o ghost.Outer, rebuckets []TimeBucket, rebucket TimeBucket, i int, z zzCoarse) bool {
	return i <= z.pos[int(o)] && rebucket.Time == rebuckets[i].Time && rebucket.Name == rebuckets[i].Name
}

//verif:inv Rebucket @Combine#L0
func Inv_RebucketCombine(e ghost.Entry, v ghost.Visited[string], o ghost.Outer, a, b, merged TimeBucket, z zzCoarse) bool {
	t0, ok0 := ghost.AtEntry(e, a.tallies)[z.k]
	t, ok := a.tallies[z.k]
	n := int(o)
	return ghost.OnlyChanged(e, a.tallies) && ghost.Same(merged.tallies, a.tallies) && merged.Name == a.Name && merged.Time == a.Time &&
		ghost.Imp(!v.Has(z.k), func() bool {
			return ok == ok0 && ghost.Imp(ok, func() bool { return t.numTallied == t0.numTallied && t.added == t0.added && t.removed == t0.removed })
		}) &&
		ghost.Imp(v.Has(z.k) && ok0, func() bool {
			return ok && t.numTallied == t0.numTallied+z.num[n] && t.added == t0.added+z.added[n] && t.removed == t0.removed+z.removed[n]
		}) &&
		ghost.Imp(v.Has(z.k) && !ok0, func() bool {
			return ok && t.numTallied == z.num[n] && t.added == z.added[n] && t.removed == z.removed[n]
		})
}

//verif:inv Rebucket @Rebucket#L0
func Inv_RebucketDense(rebuckets []TimeBucket, t time.Time, z zzCoarse) bool {
	D := z.starts
	n := len(rebuckets)
	return n <= len(D) && ghost.Imp(n < len(D), func() bool { return t.Equal(D[n]) }) &&
		ghost.Imp(n == len(D), func() bool { return t.After(z.end) }) && specCoarse(rebuckets, z) &&
		ghost.AllInt(0, n, func(i int) bool { return !ghost.Has(rebuckets[i].tallies, z.k) })
}

// R has the buckets of the periods, each with tallies of its own
func specCoarse(R []TimeBucket, z zzCoarse) bool {
	return ghost.AllInt(0, len(R), func(i int) bool {
		return R[i].Time == z.starts[i] && R[i].Name == z.res.label(z.starts[i]) && ghost.Allocated(R[i].tallies) &&
			ghost.AllInt(0, len(R), func(j int) bool { return i == j || !ghost.Same(R[i].tallies, R[j].tallies) }) &&
			ghost.AllInt(0, len(z.days), func(j int) bool { return !ghost.Same(R[i].tallies, z.days[j].tallies) })
	})
}

// ---- the whole timeline, concretely ------------------------------------------------

// a history, when its timeline ends (zero: with the last commit), and the time
// zone of the user
type zzTimeline struct {
	S    []git.Commit
	end  time.Time
	zone string
}

// some have days that do not begin at midnight, or that are missing
var zzZones = []string{"UTC", "America/Sao_Paulo", "Asia/Beirut", "Africa/Cairo", "America/Havana", "Pacific/Apia", "Asia/Kathmandu", "America/New_York", "Asia/Tokyo"}

var _ = ghost.Gen(func(r *ghost.Rand) zzTimeline {
	z := zzTimeline{zone: zzZones[r.Intn(len(zzZones))]}
	loc, err := time.LoadLocation(z.zone)
	if err != nil {
		loc = time.UTC
	}
	span := []int{1, 3, 40, 70, 400, 2300}[r.Intn(6)]
	from := time.Date(1995+r.Intn(25), time.Month(1+r.Intn(12)), 1+r.Intn(31), r.Intn(24), r.Intn(60), 0, 0, loc)
	var last time.Time
	for n := 1 + r.Intn(6); n > 0; n-- {
		c := git.Commit{Hash: r.Str("hash"), AuthorName: r.Str("author"), IsMerge: r.Intn(4) == 0}
		c.AuthorEmail = c.AuthorName + "@x"
		d := from.AddDate(0, 0, r.Intn(span))
		if r.Intn(3) == 0 { // at the edge of a day
			d = time.Date(d.Year(), d.Month(), d.Day(), 0, 0, -r.Intn(2), 0, loc)
		} else {
			d = d.Add(time.Duration(r.Intn(86400)) * time.Second)
		}
		c.Date = time.Unix(d.Unix(), 0)
		for k := r.Intn(4); k > 0; k-- {
			c.FileDiffs = append(c.FileDiffs, git.FileDiff{Path: r.Str("path"), LinesAdded: r.Intn(9), LinesRemoved: r.Intn(9)})
		}
		z.S = append(z.S, c)
		if c.Date.After(last) {
			last = c.Date
		}
	}
	if r.Intn(2) == 0 {
		z.end = last.Add(time.Duration([]int{0, 1, 86400, 40 * 86400, 800 * 86400}[r.Intn(5)]) * time.Second)
	}
	return z
})

// period of the kind of label as a number: consecutive periods have consecutive
// numbers
func zzPeriod(t time.Time, label string) int {
	y, m, d := t.Date()
	switch len(label) {
	case len("2006"):
		return y
	case len("Jan 2006"):
		return y*12 + int(m)
	}
	return int(time.Date(y, m, d, 0, 0, 0, 0, time.UTC).Unix() / 86400)
}

func zzLabel(t time.Time, like string) string {
	switch len(like) {
	case len("2006"):
		return t.Format("2006")
	case len("Jan 2006"):
		return t.Format("Jan 2006")
	}
	return t.Format(time.DateOnly)
}

// Any history in any time zone: one bucket per consecutive period from the
// first commit's to the end's, each counted commit in its own.
//
//verif:property C15
//verif:runs 4000
func Bounded_Timeline(z zzTimeline, opts TallyOpts) {
	ghost.Requires("a timeline mode", specHistMode(opts.Mode) && opts.Key != nil)
	loc, err := time.LoadLocation(z.zone)
	if err != nil {
		loc = time.UTC
	}
	defer func(l *time.Location) { time.Local = l }(time.Local)
	time.Local = loc
	for i := range z.S {
		z.S[i].Date = time.Unix(z.S[i].Date.Unix(), 0)
	}
	if !z.end.IsZero() {
		z.end = z.end.Local()
	}

	out, err := TallyCommitsTimeline(slices.Values(z.S), opts, z.end)

	ghost.Ensures("no error", err == nil)
	ghost.Ensures("not empty", len(out) > 0)
	first, last := z.S[0].Date, z.S[0].Date
	for _, c := range z.S {
		if c.Date.Before(first) {
			first = c.Date
		}
		if c.Date.After(last) {
			last = c.Date
		}
	}
	if !z.end.IsZero() {
		last = z.end
	}
	like := out[0].Name
	ghost.Ensures("from the first commit's period", zzPeriod(out[0].Time, like) == zzPeriod(first, like))
	ghost.Ensures("to the end's", zzPeriod(out[len(out)-1].Time, like) == zzPeriod(last, like))
	total := 0
	for i, b := range out {
		p := zzPeriod(b.Time, like)
		ghost.Ensures("no gap", i == 0 || p == zzPeriod(out[i-1].Time, like)+1 || zzMissing(out[i-1].Time, b.Time, like))
		ghost.Ensures("labelled", b.Name == zzLabel(b.Time, like))
		for k, t := range b.tallies {
			n, add, rem := 0, 0, 0
			files := map[string]bool{}
			for _, c := range z.S {
				if !specCounts(c, opts, k) || zzPeriod(c.Date, like) != p {
					continue
				}
				n++
				if !c.IsMerge {
					for _, d := range c.FileDiffs {
						add, rem, files[d.Path] = add+d.LinesAdded, rem+d.LinesRemoved, true
					}
				}
			}
			ghost.Ensures("the author's commits of the period", t.numTallied == n)
			ghost.Ensures("their lines", t.added == add && t.removed == rem)
			ghost.Ensures("their files", len(t.fileset) == len(files))
			for f := range t.fileset {
				ghost.Ensures("only their files", files[f])
			}
			total += t.numTallied
		}
	}
	counted := 0
	for _, c := range z.S {
		if !c.IsMerge || opts.CountMerges {
			counted++
		}
	}
	ghost.Ensures("every counted commit", total == counted)
}

// the days between a and b do not exist in the time zone
func zzMissing(a, b time.Time, like string) bool {
	return b.After(a) && len(like) == len(time.DateOnly) && b.Sub(a) <= 25*time.Hour
}
