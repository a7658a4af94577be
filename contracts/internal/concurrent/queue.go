package concurrent

import (
	"context"
	"errors"
	"fmt"
	"iter"
	"slices"

	"github.com/sinclairtarget/git-who/internal/cache"
	"github.com/sinclairtarget/git-who/internal/git"
	"github.com/sinclairtarget/git-who/internal/tally"
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- C05: every revision is handed on exactly once ----------------------------------

func specListed(S []string, h string) bool {
	return ghost.AnyInt(0, len(S), func(i int) bool { return S[i] == h })
}

// Revisions answered from the cache are not handed on, all the others are, as
// often as they were selected.
//
//verif:property C05
//verif:runs 3000
func Contract_SetDiff(a, b []string, h0 string) {
	out := setDiff(a, b)
	if specListed(b, h0) {
		ghost.Ensures("answered already", ghost.Count(out, h0) == 0)
	} else {
		ghost.Ensures("still to be done", ghost.Count(out, h0) == ghost.Count(a, h0))
	}
}

//verif:inv SetDiff @setDiff#L0
func Inv_SetDiffKnown(p ghost.Pos, b []string, m map[string]bool) bool {
	k := int(p)
	return ghost.AllKeys(m, func(h string) bool {
		return ghost.AnyInt(0, k, func(i int) bool { return b[i] == h })
	}) && ghost.AllInt(0, k, func(i int) bool { return ghost.Has(m, b[i]) })
}

// The same over a map used as a set.
//
//verif:inv SetDiff @setDiff#L0
func Inv_SetDiffSet(p ghost.Pos, b []string, m map[string]struct{}) bool {
	k := int(p)
	return ghost.AllKeys(m, func(h string) bool {
		return ghost.AnyInt(0, k, func(i int) bool { return b[i] == h })
	}) && ghost.AllInt(0, k, func(i int) bool { return ghost.Has(m, b[i]) })
}

//verif:inv SetDiff @setDiff#L1
func Inv_SetDiff(p ghost.Pos, a, b []string, ret []string, h0 string) bool {
	return ghost.Imp(specListed(b, h0), func() bool { return ghost.Count(ret, h0) == 0 }) &&
		ghost.Imp(!specListed(b, h0), func() bool { return ghost.Count(ret, h0) == ghost.Count(a[:int(p)], h0) })
}

func zzLength(r *ghost.Rand) int {
	if r.Intn(2) == 0 {
		return r.Intn(20)
	}
	return chunkSize*r.Intn(4) + r.Intn(3) + r.Intn(2)*r.Intn(chunkSize)
}

type zzRevs []string

type zzCommits []git.Commit

var _ = ghost.Gen(func(r *ghost.Rand) (out zzRevs) {
	for n := zzLength(r); n > 0; n-- {
		out = append(out, fmt.Sprintf("%040x", r.Intn(1<<30)))
	}
	return
})

var _ = ghost.Gen(func(r *ghost.Rand) (out zzCommits) {
	for n := zzLength(r); n > 0; n-- {
		out = append(out, git.Commit{Hash: fmt.Sprintf("%040x", r.Intn(1<<30)), AuthorName: r.Str("author")})
	}
	return
})

// The writer hands on consecutive batches that together are all the revisions;
// cancelled, it stops between two batches.
//
//verif:property C05
//verif:runs 300
func Contract_RunWriter(revs zzRevs, c0, j0 int) {
	q := ghost.Out[[]string]()
	runWriter(context.Background(), revs, q)
	sent := ghost.Sent(q)

	if len(revs) > 0 {
		ghost.Ensures("as many batches as it takes", len(sent) == (len(revs)-1)/chunkSize+1)
	} else {
		ghost.Ensures("nothing for nothing", len(sent) == 0)
	}
	if 0 <= c0 && c0 < len(sent) {
		batch := sent[c0]
		if c0 == len(sent)-1 {
			ghost.Ensures("the last batch is the rest", len(batch) == len(revs)-c0*chunkSize)
		} else {
			ghost.Ensures("a full batch", len(batch) == chunkSize)
		}
		if 0 <= j0 && j0 < len(batch) {
			ghost.Ensures("the next revision", batch[j0] == revs[c0*chunkSize+j0])
		}
	}
}

//verif:inv RunWriter
func Inv_RunWriter(revs zzRevs, q chan []string, i int) bool {
	sent := ghost.Sent(q)
	return len(sent)*chunkSize == i && (i < len(revs)+chunkSize) &&
		ghost.AllInt(0, len(sent), func(c int) bool {
			return len(sent[c]) == min(chunkSize, len(revs)-c*chunkSize) && ghost.AllInt(0, len(sent[c]), func(j int) bool {
				return sent[c][j] == revs[c*chunkSize+j]
			})
		})
}

// Whoever tallies the commits gets every one, and its revision is noted.
//
//verif:property C05
func Contract_RevTee(S []git.Commit, j0 int) {
	revs := []string{}
	out := []git.Commit{}
	for c := range revTee(slices.Values(S), &revs) {
		out = append(out, c)
	}
	ghost.Ensures("every commit", len(out) == len(S))
	ghost.Ensures("every revision", len(revs) == len(S))
	if 0 <= j0 && j0 < len(S) {
		ghost.Ensures("unchanged and in order", ghost.Eq(out[j0], S[j0]))
		ghost.Ensures("its revision", revs[j0] == S[j0].Hash)
	}
}

//verif:inv RevTee
func Inv_RevTee(p ghost.Pos, S, out []git.Commit, revs []string) bool {
	return len(out) == int(p) && len(revs) == int(p) && ghost.AllInt(0, int(p), func(j int) bool {
		return ghost.Identical(out[j], S[j]) && revs[j] == S[j].Hash
	})
}

// Whoever tallies the commits gets every one, and so does the cache.
//
//verif:property C05
//verif:runs 300
func Contract_CacheTee(S zzCommits, c0, j0 int) {
	q := ghost.Out[[]git.Commit]()
	out := []git.Commit{}
	for c := range cacheTee(slices.Values(S), q) {
		out = append(out, c)
	}
	sent := ghost.Sent(q)

	ghost.Ensures("every commit", len(out) == len(S))
	if 0 <= j0 && j0 < len(S) {
		ghost.Ensures("unchanged and in order", ghost.Eq(out[j0], S[j0]))
	}
	if len(S) > 0 {
		ghost.Ensures("as many chunks as it takes", len(sent) == (len(S)-1)/cacheChunkSize+1)
	} else {
		ghost.Ensures("nothing for nothing", len(sent) == 0)
	}
	if 0 <= c0 && c0 < len(sent) {
		chunk := sent[c0]
		if c0 == len(sent)-1 {
			ghost.Ensures("the last chunk is the rest", len(chunk) == len(S)-c0*cacheChunkSize)
		} else {
			ghost.Ensures("a full chunk", len(chunk) == cacheChunkSize)
		}
		if 0 <= j0 && j0 < len(chunk) {
			ghost.Ensures("the next commit", ghost.Eq(chunk[j0], S[c0*cacheChunkSize+j0]))
		}
	}
}

//verif:inv CacheTee
func Inv_CacheTee(p ghost.Pos, S zzCommits, out []git.Commit, q chan []git.Commit, chunk []git.Commit) bool {
	sent := ghost.Sent(q)
	done := len(sent) * cacheChunkSize
	return len(out) == int(p) && ghost.AllInt(0, int(p), func(j int) bool { return ghost.Identical(out[j], S[j]) }) &&
		done+len(chunk) == int(p) && len(chunk) < cacheChunkSize &&
		ghost.AllInt(0, len(chunk), func(j int) bool { return ghost.Identical(chunk[j], S[done+j]) }) &&
		ghost.AllInt(0, len(sent), func(c int) bool {
			return len(sent[c]) == cacheChunkSize && ghost.AllInt(0, cacheChunkSize, func(j int) bool {
				return ghost.Identical(sent[c][j], S[c*cacheChunkSize+j])
			})
		})
}

// ---- C05: what the cache answers -----------------------------------------------------

// zzStore is a cache that has these commits and may turn out to be damaged.
type zzStore struct {
	commits []git.Commit
	damaged bool
}

func (s zzStore) Name() string              { return "zz" }
func (s zzStore) Open() error               { return nil }
func (s zzStore) Close() error              { return nil }
func (s zzStore) Clear() error              { return nil }
func (s zzStore) Add(cs []git.Commit) error { return nil }
func (s zzStore) Get(revs []string) (iter.Seq[git.Commit], func() error) {
	return slices.Values(s.commits), func() error {
		if s.damaged {
			return errors.New("damaged")
		}
		return nil
	}
}

// zzHashes is a tally that is just the hashes of the commits tallied.
type zzHashes []string

func (a zzHashes) Combine(b zzHashes) zzHashes { return append(a, b...) }

func zzTallyHashes(commits iter.Seq[git.Commit], opts tally.TallyOpts) (zzHashes, error) {
	var out zzHashes
	for c := range commits {
		out = append(out, c.Hash)
	}
	return out, nil
}

// Commits found in the cache are tallied and not handed on; a damaged cache
// gives an error.
//
//verif:property C05 C06
//verif:runs 3000
func Contract_AccumulateCached(S []git.Commit, damaged bool, revs []string, h0 string) {
	whop := whoperation[zzHashes]{tally: zzTallyHashes}
	got, rest, err := accumulateCached(whop, cache.NewCache(zzStore{S, damaged}), revs)

	ghost.Ensures("damage is an error", (err != nil) == damaged)
	if err == nil {
		ghost.Ensures("every commit found is tallied", len(got) == len(S) && ghost.AllInt(0, len(S), func(i int) bool { return got[i] == S[i].Hash }))
		if ghost.AnyInt(0, len(S), func(i int) bool { return S[i].Hash == h0 }) {
			ghost.Ensures("and not handed on", ghost.Count(rest, h0) == 0)
		} else {
			ghost.Ensures("the others are", ghost.Count(rest, h0) == ghost.Count(revs, h0))
		}
	} else {
		ghost.Ensures("all are handed on", len(rest) == len(revs) && ghost.AllInt(0, len(revs), func(i int) bool { return rest[i] == revs[i] }))
	}
}

//verif:inv AccumulateCached @revTee$1#seq:revTee$1$1
func Inv_AccumulateTee(p ghost.Pos, S []git.Commit, out zzHashes, foundRevs []string) bool {
	return len(out) == int(p) && len(foundRevs) == int(p) && ghost.AllInt(0, int(p), func(j int) bool {
		return out[j] == S[j].Hash && foundRevs[j] == S[j].Hash
	})
}

//verif:inv AccumulateCached @setDiff#L0
func Inv_AccumulateKnown(p ghost.Pos, b []string, m map[string]bool) bool {
	return Inv_SetDiffKnown(p, b, m)
}

//verif:inv AccumulateCached @setDiff#L0
func Inv_AccumulateSet(p ghost.Pos, b []string, m map[string]struct{}) bool {
	return Inv_SetDiffSet(p, b, m)
}

//verif:inv AccumulateCached @setDiff#L1
func Inv_AccumulateDiff(p ghost.Pos, a, b []string, ret []string, h0 string) bool {
	return Inv_SetDiff(p, a, b, ret, h0)
}
