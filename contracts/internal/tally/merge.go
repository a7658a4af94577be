package tally

import (
	"time"

	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- C03: merging the partial tallies of two batches --------------------------

// as TallyCommitsByPath leaves them: named, with a commit set and real dates,
// counting the path at most once
func specPartial(T TalliesByPath) bool {
	return ghost.AllKeys(T, func(k string) bool {
		return T[k] != nil && ghost.AllKeys(T[k], func(q string) bool {
			t := T[k][q]
			return t.name != "" && t.commitset != nil && t.fileset == nil && 0 <= t.numTallied && t.numTallied <= 1 &&
				!t.lastCommitTime.Before(time.Time{}) && t.firstCommitTime.Before(time.Unix(1<<62, 0))
		})
	})
}

// L and R share no map of tallies
func specDisjoint(L, R TalliesByPath) bool {
	return ghost.AllKeys(L, func(k string) bool {
		return ghost.AllKeys(R, func(j string) bool { return !ghost.Same(L[k], R[j]) })
	})
}

// set is none of the commit sets of T
func specNoSet(T TalliesByPath, set map[string]bool) bool {
	return ghost.AllKeys(T, func(k string) bool {
		return ghost.AllKeys(T[k], func(q string) bool { return !ghost.Same(T[k][q].commitset, set) })
	})
}

// Merging gives, for every author k0 and path p0, the two entries taken
// together: lines add up, the commit sets are united, the path counts once and
// the dates span both. An entry present in only one of the two is kept as is.
//
//verif:property C03
//verif:fork
//verif:runs 3000
func Contract_Combine(L, R TalliesByPath, k0, p0, h0 string) {
	ghost.Requires("maps", L != nil && R != nil && !ghost.Same(L, R))
	ghost.Requires("partial tallies", specPartial(L) && specPartial(R))
	ghost.Requires("nothing shared", ghost.Owned(L) && ghost.Owned(R) && specDisjoint(L, R) &&
		ghost.OwnedBy2(L, func(t Tally) map[string]bool { return t.commitset }) && specNoSet(L, R[k0][p0].commitset))

	a, aok := L[k0][p0]
	b, bok := R[k0][p0]
	inA, inB := ghost.Has(a.commitset, h0), ghost.Has(b.commitset, h0)

	M := L.Combine(R)

	t, ok := M[k0][p0]
	ghost.Ensures("an entry exactly where either side has one", ok == (aok || bok))
	if ok {
		ghost.Ensures("named", t.name != "")
		ghost.Ensures("lines add up", t.added == a.added+b.added && t.removed == a.removed+b.removed)
		ghost.Ensures("the path counts once", t.numTallied == min(a.numTallied+b.numTallied, 1))
		ghost.Ensures("the commits of both", ghost.Has(t.commitset, h0) == (inA || inB))
		if aok && bok {
			ghost.Ensures("from the earlier first edit", !t.firstCommitTime.After(a.firstCommitTime) && !t.firstCommitTime.After(b.firstCommitTime) &&
				(t.firstCommitTime.Equal(a.firstCommitTime) || t.firstCommitTime.Equal(b.firstCommitTime)))
			ghost.Ensures("to the later last edit", !t.lastCommitTime.Before(a.lastCommitTime) && !t.lastCommitTime.Before(b.lastCommitTime) &&
				(t.lastCommitTime.Equal(a.lastCommitTime) || t.lastCommitTime.Equal(b.lastCommitTime)))
		} else if aok {
			ghost.Ensures("dates of the only entry (left)", t.firstCommitTime.Equal(a.firstCommitTime) && t.lastCommitTime.Equal(a.lastCommitTime))
		} else {
			ghost.Ensures("dates of the only entry (right)", t.firstCommitTime.Equal(b.firstCommitTime) && t.lastCommitTime.Equal(b.lastCommitTime))
		}
	}
}

// t is a and b merged; in: h0 is in its commit set
func specMerged(t, a, b Tally, aok, bok bool, in, inA, inB bool) bool {
	return t.name != "" && t.added == a.added+b.added && t.removed == a.removed+b.removed &&
		t.numTallied == min(a.numTallied+b.numTallied, 1) && in == (inA || inB) &&
		ghost.Imp(aok && bok, func() bool {
			return !t.firstCommitTime.After(a.firstCommitTime) && !t.firstCommitTime.After(b.firstCommitTime) &&
				(t.firstCommitTime.Equal(a.firstCommitTime) || t.firstCommitTime.Equal(b.firstCommitTime)) &&
				!t.lastCommitTime.Before(a.lastCommitTime) && !t.lastCommitTime.Before(b.lastCommitTime) &&
				(t.lastCommitTime.Equal(a.lastCommitTime) || t.lastCommitTime.Equal(b.lastCommitTime))
		}) &&
		ghost.Imp(!bok, func() bool {
			return t.firstCommitTime.Equal(a.firstCommitTime) && t.lastCommitTime.Equal(a.lastCommitTime)
		})
}

func specSame(t, b Tally) bool {
	return t.name == b.name && t.added == b.added && t.removed == b.removed && t.numTallied == b.numTallied &&
		ghost.Same(t.commitset, b.commitset) && t.firstCommitTime.Equal(b.firstCommitTime) && t.lastCommitTime.Equal(b.lastCommitTime)
}

//verif:inv Combine @Combine#L0
func Inv_CombineAuthors(e ghost.Entry, v ghost.Visited[string], left, right TalliesByPath, k0, p0, h0 string) bool {
	R0 := ghost.AtEntry(e, ghost.AtEntry(e, right)[k0])
	a, aok := left[k0][p0]
	b, bok := R0[p0]
	B := ghost.Now(b.commitset)
	t, ok := right[k0][p0]
	L0 := ghost.AtEntry(e, left[k0])
	return !ghost.Same(left, right) && ghost.OnlyChanged(e, right) && ghost.Owned(left) && ghost.Owned(right) && specDisjoint(left, right) && specNoSet(left, B) && specNoOther(left, k0, p0, t.commitset) &&
		specPartial(left) && ghost.OwnedBy2(left, func(t Tally) map[string]bool { return t.commitset }) &&
		aok == ghost.Has(L0, p0) && ghost.Imp(aok, func() bool { return specSame(a, L0[p0]) }) &&
		ghost.Imp(!v.Has(k0) || !aok, func() bool { return ghost.Has(B, h0) == ghost.Has(ghost.AtEntry(e, B), h0) }) &&
		ghost.Imp(!v.Has(k0), func() bool {
			return ok == bok && ghost.Has(right, k0) == ghost.Has(ghost.AtEntry(e, right), k0) && ghost.Imp(ok, func() bool { return specSame(t, b) }) &&
				ghost.Same(right[k0], R0) &&
				ghost.Has(a.commitset, h0) == ghost.Has(ghost.AtEntry(e, a.commitset), h0)
		}) &&
		ghost.Imp(v.Has(k0), func() bool {
			return ok == (aok || bok) && ghost.Imp(!aok && ok, func() bool { return specSame(t, b) }) &&
				ghost.Imp(aok, func() bool {
					return specMerged(t, a, b, aok, bok, ghost.Has(t.commitset, h0), ghost.Has(ghost.AtEntry(e, a.commitset), h0), ghost.Has(ghost.AtEntry(e, B), h0))
				})
		})
}

// set is no commit set of L but that of (k0, p0)
func specNoOther(L TalliesByPath, k0, p0 string, set map[string]bool) bool {
	return ghost.AllKeys(L, func(k string) bool {
		return ghost.AllKeys(L[k], func(q string) bool { return k == k0 && q == p0 || !ghost.Same(L[k][q].commitset, set) })
	})
}

//verif:inv Combine @Combine#L1
func Inv_CombinePaths(e ghost.Entry, v ghost.Visited[string], left, right TalliesByPath, key string, leftPathTallies, rightPathTallies map[string]Tally, k0, p0, h0 string) bool {
	a, aok := left[k0][p0]
	A := a.commitset
	b, bok := ghost.AtEntry(e, rightPathTallies)[p0]
	B := ghost.Now(b.commitset)
	t, ok := rightPathTallies[p0]
	T := right[k0][p0].commitset
	return !ghost.Same(left, right) && specPartial(left) && ghost.OwnedBy2(left, func(t Tally) map[string]bool { return t.commitset }) && rightPathTallies != nil && ghost.OnlyChanged(e, rightPathTallies) &&
		ghost.AllKeys(left, func(k string) bool { return !ghost.Same(left[k], rightPathTallies) }) &&
		ghost.Imp(ghost.Has(right, key), func() bool { return ghost.Same(right[key], rightPathTallies) }) &&
		ghost.AllKeys(right, func(k string) bool { return k == key || !ghost.Same(right[k], rightPathTallies) }) &&
		ghost.Imp(key != k0, func() bool {
			return specNoOther(left, k0, p0, T) && ghost.Has(A, h0) == ghost.Has(ghost.AtEntry(e, A), h0) && ghost.Has(T, h0) == ghost.Has(ghost.AtEntry(e, T), h0)
		}) &&
		ghost.Imp(key == k0, func() bool {
			return specNoSet(left, B) && ghost.Has(B, h0) == ghost.Has(ghost.AtEntry(e, B), h0) &&
				ghost.Imp(!v.Has(p0), func() bool {
					return ok == bok && ghost.Imp(ok, func() bool { return specSame(t, b) }) && ghost.Has(A, h0) == ghost.Has(ghost.AtEntry(e, A), h0)
				}) &&
				ghost.Imp(v.Has(p0), func() bool {
					return ok && aok && specNoOther(left, k0, p0, t.commitset) &&
						specMerged(t, a, b, aok, bok, ghost.Has(t.commitset, h0), ghost.Has(ghost.AtEntry(e, A), h0), ghost.Has(ghost.AtEntry(e, B), h0))
				})
		})
}

//verif:inv Combine @unionInPlace#L0
func Inv_CombineUnion(e ghost.Entry, v ghost.Visited[string], union map[string]bool, h0 string) bool {
	return ghost.OnlyChanged(e, union) && ghost.Has(union, h0) == (ghost.Has(ghost.AtEntry(e, union), h0) || v.Has(h0))
}
