package tally

import (
	"time"

	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- C16: a period's winner and total --------------------------------------------

func specHistMode(mode TallyMode) bool {
	return mode == CommitMode || mode == LinesMode || mode == FilesMode
}

// as TallyCommitsByDate leaves an author's tally for a day
func specDayTally(t Tally) bool {
	return (t.name != "" || t.email != "") && t.numTallied >= 1 && t.added >= 0 && t.removed >= 0 &&
		t.fileset != nil && t.commitset == nil
}

func specDayTallies(T map[string]Tally) bool {
	return ghost.AllKeys(T, func(k string) bool { return specDayTally(T[k]) }) &&
		ghost.OwnedBy(T, func(t Tally) map[string]bool { return t.fileset })
}

//verif:property C16
func Contract_BucketValue(b TimeBucket, mode TallyMode) {
	ghost.Requires("a timeline mode", specHistMode(mode))
	ghost.Ensures("the winner's figure", b.Value(mode) == specMetric(b.Tally, mode))
	ghost.Ensures("the combined figure", b.TotalValue(mode) == specMetric(b.TotalTally, mode))
}

// The winner has the highest value, the total is everyone's together.
//
//verif:property C16
//verif:runs 3000
func Contract_BucketRank(b TimeBucket, mode TallyMode, k0 string) {
	ghost.Requires("a timeline mode", specHistMode(mode))
	ghost.Requires("tallies of a period", specDayTallies(b.tallies))

	T := ghost.Snap(b.tallies)
	t0, ok := T[k0]
	var f0 FinalTally
	if ok {
		f0 = t0.Final()
	}
	r := b.Rank(mode)

	if len(T) == 0 {
		ghost.Ensures("an empty period stays empty", r.Value(mode) == b.Value(mode) && r.TotalValue(mode) == b.TotalValue(mode))
	} else {
		if ok {
			ghost.Ensures("nobody has more than the winner", specMetric(f0, mode) <= r.Value(mode))
			ghost.Ensures("nobody has more than the total", specMetric(f0, mode) <= r.TotalValue(mode))
		}
		ghost.Ensures("the winner is an author of the period", ghost.AnyKey(T, func(k string) bool { return T[k].Final() == r.Tally }))
		ghost.Ensures("commits add up", r.TotalTally.Commits == ghost.SumKeys(T, func(k string) int { return T[k].numTallied }))
		ghost.Ensures("lines add up", r.TotalTally.LinesAdded == ghost.SumKeys(T, func(k string) int { return T[k].added }) &&
			r.TotalTally.LinesRemoved == ghost.SumKeys(T, func(k string) int { return T[k].removed }))
	}
}

//verif:inv BucketRank @Rank#L0
func Inv_BucketRankAuthors(v ghost.Visited[string], tallies map[string]Tally, final []FinalTally, k0 string) bool {
	return len(final) == ghost.SumVisited(v, func(k string) int { return 1 }) &&
		ghost.AllInt(0, len(final), func(i int) bool {
			return ghost.AnyKey(tallies, func(k string) bool { return tallies[k].Final() == final[i] })
		}) &&
		ghost.Imp(v.Has(k0), func() bool {
			return ghost.AnyInt(0, len(final), func(i int) bool { return tallies[k0].Final() == final[i] })
		})
}

// the figures so far cover those of every period tally met
//
//verif:inv BucketRank @Rank#L0
func Inv_BucketRankTotal(e ghost.Entry, v ghost.Visited[string], b TimeBucket, runningTally Tally, k0 string) bool {
	T := ghost.AtEntry(e, b.tallies)
	t0 := T[k0]
	F0 := ghost.AtEntry(e, t0.fileset)
	return runningTally.commitset == nil &&
		runningTally.numTallied == ghost.SumVisited(v, func(k string) int { return T[k].numTallied }) &&
		runningTally.added == ghost.SumVisited(v, func(k string) int { return T[k].added }) &&
		runningTally.removed == ghost.SumVisited(v, func(k string) int { return T[k].removed }) &&
		runningTally.numTallied >= 0 && runningTally.added >= 0 && runningTally.removed >= 0 &&
		ghost.AllVisited(v, func(k string) bool {
			return runningTally.fileset != nil && (runningTally.name != "" || runningTally.email != "")
		}) &&
		ghost.AllKeys(T, func(k string) bool { return v.Has(k) || !ghost.Same(T[k].fileset, runningTally.fileset) }) &&
		ghost.Imp(ghost.Has(T, k0) && v.Has(k0), func() bool {
			return t0.numTallied <= runningTally.numTallied && t0.added <= runningTally.added && t0.removed <= runningTally.removed &&
				ghost.AllKeys(F0, func(h string) bool { return ghost.Has(runningTally.fileset, h) })
		}) &&
		ghost.Imp(ghost.Has(T, k0) && !v.Has(k0), func() bool {
			return ghost.AllKeys(F0, func(h string) bool { return ghost.Has(ghost.Now(t0.fileset), h) })
		})
}

//verif:inv BucketRank @unionInPlace#L0
func Inv_BucketRankUnion(e ghost.Entry, v ghost.Visited[string], union map[string]bool) bool {
	return ghost.OnlyChanged(e, union) &&
		ghost.AllKeys(ghost.AtEntry(e, union), func(h string) bool { return ghost.Has(union, h) }) &&
		ghost.AllVisited(v, func(h string) bool { return ghost.Has(union, h) })
}

// ---- C04: merging timelines --------------------------------------------------------

// t is a's and b's tally of one author and period taken together; in, inA and
// inB: whether a certain path is in their file sets
func specDayMerged(t, a, b Tally, in, inA, inB bool) bool {
	return (t.name != "" || t.email != "") && t.fileset != nil && t.commitset == nil &&
		t.numTallied == a.numTallied+b.numTallied && t.added == a.added+b.added && t.removed == a.removed+b.removed &&
		in == (inA || inB)
}

func specDaySame(t, a Tally) bool {
	return t.name == a.name && t.email == a.email && t.numTallied == a.numTallied && t.added == a.added && t.removed == a.removed &&
		t.commitset == nil && ghost.Same(t.fileset, a.fileset)
}

// set is no file set of T but that of k0
func specNoOtherFiles(T map[string]Tally, k0 string, set map[string]bool) bool {
	return ghost.AllKeys(T, func(k string) bool { return k == k0 || !ghost.Same(T[k].fileset, set) })
}

type zzSeries struct{ a, b []TimeBucket }

type zzHalves struct{ a, b TimeBucket }

func zzBucket(r *ghost.Rand, u int64) TimeBucket {
	b := newBucket(time.Unix(u, 0).UTC().Format(time.DateOnly), time.Unix(u, 0))
	for k := r.Intn(4); k > 0; k-- {
		t := Tally{name: r.Str("author"), numTallied: 1 + r.Intn(3), added: r.Intn(9), removed: r.Intn(9), fileset: map[string]bool{}}
		for f := r.Intn(4); f > 0; f-- {
			t.fileset[r.Str("path")] = true
		}
		b.tallies[t.name] = t
	}
	return b
}

var _ = ghost.Gen(func(r *ghost.Rand) zzHalves { return zzHalves{zzBucket(r, 86400), zzBucket(r, 86400)} })

var _ = ghost.Gen(func(r *ghost.Rand) zzSeries {
	series := func() (out []TimeBucket) {
		u := int64(r.Intn(4)) * 86400
		for n := r.Intn(4); n > 0; n-- {
			out = append(out, zzBucket(r, u))
			u += 86400 * int64(1+r.Intn(2))
		}
		return
	}
	return zzSeries{series(), series()}
})

// Merging two halves of one period: every author's tallies are merged, nobody
// is lost or counted twice.
//
//verif:property C04
//verif:fork
//verif:runs 3000
func Contract_BucketCombine(s zzHalves, k0, h0 string) {
	a, b := s.a, s.b
	ghost.Requires("the same period", a.Name == b.Name && a.Time == b.Time)
	ghost.Requires("tallies of a period", a.tallies != nil && b.tallies != nil && specDayTallies(a.tallies) && specDayTallies(b.tallies))
	ghost.Requires("nothing shared", !ghost.Same(a.tallies, b.tallies) && ghost.AllKeys(a.tallies, func(k string) bool {
		return specNoOtherFiles(b.tallies, "", a.tallies[k].fileset) && !ghost.Same(b.tallies[""].fileset, a.tallies[k].fileset)
	}))

	ta, aok := a.tallies[k0]
	tb, bok := b.tallies[k0]
	inA, inB := ghost.Has(ta.fileset, h0), ghost.Has(tb.fileset, h0)

	m := a.Combine(b)

	t, ok := m.tallies[k0]
	ghost.Ensures("the same period still", m.Name == a.Name && m.Time == a.Time)
	ghost.Ensures("an author of either half", ok == (aok || bok))
	if aok && bok {
		ghost.Ensures("both halves together", specDayMerged(t, ta, tb, ghost.Has(t.fileset, h0), inA, inB))
	} else if aok {
		ghost.Ensures("only in the first", specDaySame(t, ta) && ghost.Has(t.fileset, h0) == inA)
	} else if bok {
		ghost.Ensures("only in the second", specDaySame(t, tb) && ghost.Has(t.fileset, h0) == inB)
	}
}

//verif:inv BucketCombine @Combine#L0
func Inv_BucketCombine(e ghost.Entry, v ghost.Visited[string], a, b, merged TimeBucket, k0, h0 string) bool {
	return specInPlace(e, v, a, b, merged, k0) && specCombining(e, v, a, b, k0, h0)
}

func specCombining(e ghost.Entry, v ghost.Visited[string], a, b TimeBucket, k0, h0 string) bool {
	A, B := ghost.AtEntry(e, a.tallies), ghost.AtEntry(e, b.tallies)
	ta, aok := A[k0]
	tb, bok := B[k0]
	inA, inB := ghost.Has(ghost.AtEntry(e, ta.fileset), h0), ghost.Has(ghost.AtEntry(e, tb.fileset), h0)
	t, ok := a.tallies[k0]
	return ghost.Has(ghost.Now(tb.fileset), h0) == inB &&
		ghost.Imp(!v.Has(k0), func() bool {
			return ok == aok && ghost.Imp(ok, func() bool { return specDaySame(t, ta) && ghost.Has(t.fileset, h0) == inA })
		}) &&
		ghost.Imp(v.Has(k0) && aok, func() bool {
			return ok && specDayMerged(t, ta, tb, ghost.Has(t.fileset, h0), inA, inB)
		}) &&
		ghost.Imp(v.Has(k0) && !aok, func() bool {
			return ok && bok && specDaySame(t, tb) && ghost.Has(t.fileset, h0) == inB
		})
}

// the tallies of a keep their file sets, new ones have those of b
func specInPlace(e ghost.Entry, v ghost.Visited[string], a, b, merged TimeBucket, k0 string) bool {
	A, B := ghost.AtEntry(e, a.tallies), ghost.AtEntry(e, b.tallies)
	return ghost.Same(merged.tallies, a.tallies) && merged.Name == a.Name && merged.Time == a.Time && ghost.OnlyChanged(e, a.tallies) &&
		ghost.AllKeys(A, func(k string) bool { return k == k0 || ghost.Has(a.tallies, k) }) &&
		ghost.AllKeys(a.tallies, func(k string) bool {
			return ghost.Imp(!v.Has(k), func() bool { return ghost.Has(A, k) && ghost.Same(a.tallies[k].fileset, A[k].fileset) }) &&
				ghost.Imp(v.Has(k) && ghost.Has(A, k), func() bool { return ghost.Same(a.tallies[k].fileset, A[k].fileset) }) &&
				ghost.Imp(v.Has(k) && !ghost.Has(A, k), func() bool { return ghost.Same(a.tallies[k].fileset, B[k].fileset) })
		})
}

//verif:inv BucketCombine @unionInPlace#L0
func Inv_BucketCombineUnion(e ghost.Entry, v ghost.Visited[string], union map[string]bool, h0 string) bool {
	return ghost.OnlyChanged(e, union) && ghost.Has(union, h0) == (ghost.Has(ghost.AtEntry(e, union), h0) || v.Has(h0))
}

func specDated(S []TimeBucket, u int64, n int) bool {
	return ghost.AnyInt(0, n, func(i int) bool { return S[i].Time.Unix() == u })
}

// as TallyCommitsByDate leaves a timeline: one bucket per date, nothing shared
func specSeries(S []TimeBucket) bool {
	return ghost.AllInt(0, len(S), func(i int) bool {
		return S[i].tallies != nil && specDayTallies(S[i].tallies) && specWholeSeconds(S[i].Time) &&
			ghost.AllInt(0, len(S), func(j int) bool {
				return i == j || S[i].Time.Unix() != S[j].Time.Unix() && !ghost.Same(S[i].tallies, S[j].tallies)
			})
	})
}

// Merging two timelines: one bucket per date of either, in date order; a date
// of both has the bucket of the first, into which that of the second is merged
// (Contract_BucketCombine).
//
//verif:property C04
//verif:fork
//verif:runs 2000
func Contract_SeriesCombine(s zzSeries, i0, j0, m0, n0 int) {
	a, b := TimeSeries(s.a), TimeSeries(s.b)
	ghost.Requires("timelines", specSeries(a) && specSeries(b))
	ghost.Requires("same labels for the same dates", ghost.AllInt(0, len(a), func(i int) bool {
		return ghost.AllInt(0, len(b), func(j int) bool {
			return a[i].Time.Unix() != b[j].Time.Unix() || a[i].Name == b[j].Name && a[i].Time == b[j].Time
		})
	}))

	ghost.Requires("nothing shared", specApart2(a, b))

	out := a.Combine(b)

	if 0 <= i0 && i0 < len(a) {
		ghost.Ensures("every date of the first", specDated(out, a[i0].Time.Unix(), len(out)))
	}
	if 0 <= j0 && j0 < len(b) {
		ghost.Ensures("every date of the second", specDated(out, b[j0].Time.Unix(), len(out)))
	}
	if 0 <= m0 && m0 < len(out) {
		u := out[m0].Time.Unix()
		ghost.Ensures("no other date", specDated(a, u, len(a)) || specDated(b, u, len(b)))
		if 0 <= i0 && i0 < len(a) && a[i0].Time.Unix() == u {
			ghost.Ensures("the bucket of the first", ghost.Same(out[m0].tallies, a[i0].tallies))
		} else if 0 <= j0 && j0 < len(b) && b[j0].Time.Unix() == u && !specDated(a, u, len(a)) {
			ghost.Ensures("the bucket of the second", ghost.Same(out[m0].tallies, b[j0].tallies))
		}
		if m0 < n0 && n0 < len(out) {
			ghost.Ensures("in date order, each once", out[m0].Time.Before(out[n0].Time))
		}
	}
}

// What becomes of an author's tally: concretely, on generated timelines.
//
//verif:property C04
//verif:runs 3000
func Bounded_SeriesContent(s zzSeries) {
	a, b := TimeSeries(s.a), TimeSeries(s.b)
	type entry struct{ n, add, rem, files int }
	all := map[string]map[string]entry{}
	files := map[string]map[string]bool{}
	for _, S := range []TimeSeries{a, b} {
		for _, bk := range S {
			for k, t := range bk.tallies {
				if all[bk.Name] == nil {
					all[bk.Name] = map[string]entry{}
				}
				id := bk.Name + "\x00" + k
				if files[id] == nil {
					files[id] = map[string]bool{}
				}
				for h := range t.fileset {
					files[id][h] = true
				}
				x := all[bk.Name][k]
				all[bk.Name][k] = entry{x.n + t.numTallied, x.add + t.added, x.rem + t.removed, len(files[id])}
			}
		}
	}
	for _, bk := range a.Combine(b) {
		ghost.Ensures("the same authors", len(bk.tallies) == len(all[bk.Name]))
		for k, t := range bk.tallies {
			x := all[bk.Name][k]
			ghost.Ensures("both together", t.numTallied == x.n && t.added == x.add && t.removed == x.rem && len(t.fileset) == x.files)
			for h := range t.fileset {
				ghost.Ensures("no other file", files[bk.Name+"\x00"+k][h])
			}
		}
	}
}

// no map of tallies of a is one of b
func specApart2(a, b []TimeBucket) bool {
	return ghost.AllInt(0, len(a), func(i int) bool {
		return ghost.AllInt(0, len(b), func(j int) bool { return !ghost.Same(a[i].tallies, b[j].tallies) })
	})
}

//verif:inv SeriesCombine @Combine#L0
func Inv_SeriesLeft(p ghost.Pos, a TimeSeries, buckets map[int64]TimeBucket) bool {
	return ghost.AllInt(0, int(p), func(i int) bool {
		u := a[i].Time.Unix()
		return ghost.Has(buckets, u) && specSameBucket(buckets[u], a[i])
	}) && ghost.AllKeys(buckets, func(u int64) bool {
		return buckets[u].Time.Unix() == u && specWholeSeconds(buckets[u].Time) && specDated(a, u, int(p))
	})
}

func specSameBucket(a, b TimeBucket) bool {
	return a.Name == b.Name && a.Time == b.Time && ghost.Same(a.tallies, b.tallies)
}

//verif:inv SeriesCombine @Combine#L1
func Inv_SeriesRight(p ghost.Pos, a, b TimeSeries, buckets map[int64]TimeBucket) bool {
	return ghost.AllInt(0, len(a), func(i int) bool {
		u := a[i].Time.Unix()
		return ghost.Has(buckets, u) && specSameBucket(buckets[u], a[i])
	}) && ghost.AllInt(0, int(p), func(j int) bool {
		u := b[j].Time.Unix()
		return ghost.Has(buckets, u) && (specDated(a, u, len(a)) || specSameBucket(buckets[u], b[j]))
	}) && ghost.AllKeys(buckets, func(u int64) bool {
		return ghost.AllInt(0, len(b), func(j int) bool {
			return !ghost.Same(buckets[u].tallies, b[j].tallies) || j < int(p) && b[j].Time.Unix() == u
		}) && ghost.AllInt(0, len(a), func(i int) bool {
			return !ghost.Same(buckets[u].tallies, a[i].tallies) || a[i].Time.Unix() == u
		})
	}) && ghost.AllKeys(buckets, func(u int64) bool {
		return buckets[u].Time.Unix() == u && specWholeSeconds(buckets[u].Time) && (specDated(a, u, len(a)) || specDated(b, u, int(p)))
	})
}

//verif:inv SeriesCombine @Combine#L2
func Inv_SeriesOut(p ghost.Pos, buckets map[int64]TimeBucket, sortedKeys []int64, outBuckets []TimeBucket) bool {
	return len(outBuckets) == int(p) && ghost.AllInt(0, int(p), func(i int) bool {
		return specSameBucket(outBuckets[i], buckets[sortedKeys[i]])
	})
}
