package backends

import (
	"fmt"
	"iter"
	"math/rand"
	"os"
	"path/filepath"
	"slices"
	"time"

	"github.com/sinclairtarget/git-who/internal/git"
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- C07: the cache returns exactly what was stored ---------------------------

// zzStore is what a file holds: commits in the order stored, frame k being
// all[cuts[k]:cuts[k+1]], and whether it is damaged behind them; and what is
// asked for.
type zzStore struct {
	all     []git.Commit
	cuts    []int
	damaged bool
	revs    []string
}

var _ = ghost.Gen(func(r *ghost.Rand) (s zzStore) {
	hash := func() string { return fmt.Sprintf("%040x", r.Intn(1<<20)) }
	s.cuts = []int{0}
	for n := r.Intn(5); n > 0; n-- {
		for m := r.Intn(5); m > 0; m-- {
			c := git.Commit{
				Hash: hash(), ShortHash: r.Str("short"), IsMerge: r.Intn(2) == 0,
				AuthorName: r.Str("name"), AuthorEmail: r.Str("email"), Date: r.Time(),
			}
			if len(s.all) > 0 && r.Intn(12) == 0 {
				c.Hash = s.all[r.Intn(len(s.all))].Hash
			}
			for k := r.Intn(4); k > 0; k-- {
				c.FileDiffs = append(c.FileDiffs, git.FileDiff{Path: r.Str("path"), LinesAdded: r.Intn(100), LinesRemoved: r.Intn(100)})
			}
			s.all = append(s.all, c)
		}
		s.cuts = append(s.cuts, len(s.all))
	}
	s.damaged = r.Intn(3) == 0
	for _, c := range s.all {
		if r.Intn(3) > 0 {
			s.revs = append(s.revs, c.Hash)
		}
	}
	for n := r.Intn(3); n > 0; n-- {
		s.revs = append(s.revs, hash())
	}
	r.Shuffle(len(s.revs), func(i, j int) { s.revs[i], s.revs[j] = s.revs[j], s.revs[i] })
	return
})

// the hash is among the revisions
func specAsked(revs []string, h string) bool {
	return ghost.AnyInt(0, len(revs), func(i int) bool { return revs[i] == h })
}

// a commit with the hash is among the first n stored
func specMet(all []git.Commit, n int, h string) bool {
	return ghost.AnyInt(0, n, func(i int) bool { return all[i].Hash == h })
}

// commits asked for among the first n stored
func specHits(all []git.Commit, revs []string, n int) int {
	if n <= 0 {
		return 0
	}
	if specAsked(revs, all[n-1].Hash) {
		return specHits(all, revs, n-1) + 1
	}
	return specHits(all, revs, n-1)
}

// a commit asked for is met twice among the first n stored
func specTwice(all []git.Commit, revs []string, n int) bool {
	return ghost.AnyInt(0, n, func(i int) bool { return specMet(all, i, all[i].Hash) && specAsked(revs, all[i].Hash) })
}

// The commits asked for, unchanged and in order; reading stops with an error at
// a commit met twice and at damage, and then yields nothing twice.
//
//verif:property C07
func Contract_JSONGet(s zzStore, j0, a0, b0 int) {
	path := ghost.StoredJSON(s.all, s.damaged)
	b := JSONBackend{Path: path}

	seq, finish := b.Get(s.revs)
	got := slices.Collect(seq)
	err := finish()

	checkGot(s, got, err, j0, a0, b0)
}

func checkGot(s zzStore, got []git.Commit, err error, j0, a0, b0 int) {
	n := len(s.all)
	if !s.damaged && !specTwice(s.all, s.revs, n) {
		ghost.Ensures("no error without a cause", (err != nil) == ghost.Failed())
	} else {
		ghost.Ensures("a commit met twice and damage are errors", err != nil)
	}
	if err == nil {
		ghost.Ensures("as many as are stored and asked for", len(got) == specHits(s.all, s.revs, n))
		if 0 <= j0 && j0 < n && specAsked(s.revs, s.all[j0].Hash) {
			ghost.Ensures("the commit asked for, unchanged, in its place", ghost.Identical(got[specHits(s.all, s.revs, j0)], s.all[j0]))
		}
	}
	if 0 <= a0 && a0 < len(got) {
		ghost.Ensures("only what was asked for", specAsked(s.revs, got[a0].Hash) && specMet(s.all, n, got[a0].Hash))
		if a0 < b0 && b0 < len(got) {
			ghost.Ensures("each once", got[a0].Hash != got[b0].Hash)
		}
	}
}

//verif:inv JSONGet GobGet @Get#L0
func Inv_Asked(p ghost.Pos, s zzStore, lookingFor map[string]bool) bool {
	return specAskedSet(s.revs, int(p), lookingFor)
}

//verif:inv JSONGet GobGet @Get#L1 @Get$2#L0 @Get$2#L1
func Inv_AskedAll(s zzStore, lookingFor map[string]bool) bool {
	return specAskedSet(s.revs, len(s.revs), lookingFor)
}

func specAskedSet(revs []string, n int, m map[string]bool) bool {
	return ghost.AllKeys(m, func(h string) bool {
		return ghost.AnyInt(0, n, func(i int) bool { return revs[i] == h })
	}) && ghost.AllInt(0, n, func(i int) bool { return ghost.Has(m, revs[i]) && m[revs[i]] })
}

// after the first n commits stored
func specRead(s zzStore, n int, seen map[string]bool, got []git.Commit, j0, a0, b0 int) bool {
	return !specTwice(s.all, s.revs, n) && len(got) == specHits(s.all, s.revs, n) && specHits(s.all, s.revs, n) >= 0 &&
		ghost.AllKeys(seen, func(h string) bool { return specMet(s.all, n, h) && specAsked(s.revs, h) }) &&
		ghost.AllInt(0, n, func(i int) bool {
			return ghost.Imp(specAsked(s.revs, s.all[i].Hash), func() bool { return ghost.Has(seen, s.all[i].Hash) && seen[s.all[i].Hash] })
		}) &&
		ghost.Imp(0 <= j0 && j0 < n && specAsked(s.revs, s.all[j0].Hash), func() bool {
			return 0 <= specHits(s.all, s.revs, j0) && specHits(s.all, s.revs, j0) < len(got) &&
				ghost.Identical(got[specHits(s.all, s.revs, j0)], s.all[j0])
		}) &&
		ghost.Imp(0 <= a0 && a0 < len(got), func() bool {
			return ghost.Has(seen, got[a0].Hash) && seen[got[a0].Hash]
		}) &&
		ghost.Imp(0 <= a0 && a0 < b0 && b0 < len(got), func() bool { return got[a0].Hash != got[b0].Hash })
}

//verif:inv JSONGet @Get#L1
func Inv_JSONRead(p ghost.Pos, s zzStore, seen map[string]bool, commits []git.Commit, j0, a0, b0 int) bool {
	return specRead(s, int(p), seen, commits, j0, a0, b0)
}

// The same of frames.
//
//verif:property C07
func Contract_GobGet(s zzStore, j0, a0, b0 int) {
	ghost.Requires("frames, one behind the other", len(s.cuts) > 0 && s.cuts[0] == 0 && s.cuts[len(s.cuts)-1] == len(s.all) &&
		ghost.AllInt(0, len(s.cuts), func(k int) bool {
			return 0 <= s.cuts[k] && s.cuts[k] <= len(s.all) && ghost.Imp(k > 0, func() bool { return s.cuts[k-1] <= s.cuts[k] })
		}))
	path := ghost.StoredFrames(s.all, s.cuts, s.damaged)
	b := &GobBackend{Dir: "/nonexistent", Path: path, wasOpened: true}

	seq, finish := b.Get(s.revs)
	var got []git.Commit
	for c := range seq {
		got = append(got, c)
	}
	err := finish()

	checkGot(s, got, err, j0, a0, b0)
}

//verif:inv GobGet @Get$2#L0
func Inv_GobFrames(p ghost.Pos, s zzStore, seen map[string]bool, got []git.Commit, j0, a0, b0 int) bool {
	return specRead(s, s.cuts[p], seen, got, j0, a0, b0)
}

//verif:inv GobGet @Get$2#L1
func Inv_GobRead(q ghost.Outer, p ghost.Pos, s zzStore, seen map[string]bool, got []git.Commit, j0, a0, b0 int) bool {
	k := int(q)
	return k > 0 && specRead(s, s.cuts[k-1]+int(p), seen, got, j0, a0, b0)
}

// Nothing is stored, nothing is returned.
//
//verif:property C07
func Contract_NoopGet(argRevs []string, argC []git.Commit) {
	b := NoopBackend{}
	err := b.Add(argC)
	seq, finish := b.Get(argRevs)
	ghost.Ensures("nothing", len(slices.Collect(seq)) == 0 && finish() == nil && err == nil)
}

// What is added goes to the end of the file, unchanged and in order; a failure
// is reported.
//
//verif:property C07
func Contract_JSONAdd(s zzStore, j0 int) {
	b := JSONBackend{Path: ghost.NewJSON[git.Commit]()}

	err := b.Add(s.all)

	ghost.Ensures("a failure is reported", (err != nil) == ghost.Failed())
	if err == nil {
		added := ghost.AddedJSON[git.Commit]()
		ghost.Ensures("every commit", len(added) == len(s.all))
		if 0 <= j0 && j0 < len(s.all) {
			ghost.Ensures("the commit, unchanged, in its place", ghost.Identical(added[j0], s.all[j0]))
		}
	}
}

//verif:inv JSONAdd
func Inv_JSONAdd(p ghost.Pos, s zzStore, j0 int) bool {
	added := ghost.AddedJSON[git.Commit]()
	return len(added) == int(p) && !ghost.Failed() &&
		ghost.Imp(0 <= j0 && j0 < int(p), func() bool { return ghost.Identical(added[j0], s.all[j0]) })
}

// The commits added are one frame at the end of the file.
//
//verif:property C07
func Contract_GobAdd(s zzStore, j0 int) {
	b := &GobBackend{Dir: "/nonexistent", Path: ghost.NewFrames[git.Commit](), wasOpened: true}

	err := b.Add(s.all)

	if ghost.Failed() {
		ghost.Ensures("a failure is reported", err != nil)
	}
	if err == nil {
		ghost.Ensures("the file is kept when the cache is closed", b.isDirty)
		added := ghost.AddedFrames[git.Commit]()
		ghost.Ensures("one frame", len(added) == 1)
		ghost.Ensures("of every commit", len(added[0]) == len(s.all))
		if 0 <= j0 && j0 < len(s.all) {
			ghost.Ensures("the commit, unchanged, in its place", ghost.Identical(added[0][j0], s.all[j0]))
		}
	}
}

// ---- histories on real files (bounded) ------------------------------------------

type zzHistory int64

var _ = ghost.Gen(func(r *ghost.Rand) zzHistory { return zzHistory(r.Int63n(1 << 40)) })

type zzBackend interface {
	Open() error
	Close() error
	Get(revs []string) (iter.Seq[git.Commit], func() error)
	Add(commits []git.Commit) error
	Clear() error
}

// Random histories of additions, queries, closings and clearings, in both
// formats, on real files: queries answer with what was stored before.
//
//verif:property C07
//verif:runs 3000
func Bounded_History(seed zzHistory) {
	r := rand.New(rand.NewSource(int64(seed)))
	dir, err := os.MkdirTemp("", "zzcache")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	gob := r.Intn(3) > 0
	var b zzBackend
	open := func() {
		b = JSONBackend{Path: filepath.Join(dir, "c.json")}
		if gob {
			b = &GobBackend{Dir: filepath.Join(dir, "d"), Path: filepath.Join(dir, "d", "c.gobs")}
		}
		if err := b.Open(); err != nil {
			panic(fmt.Sprintf("seed %d: open: %v", seed, err))
		}
	}
	if gob {
		os.MkdirAll(filepath.Join(dir, "d"), 0o700)
	}
	open()
	var stored []git.Commit
	next := 0
	word := func() string {
		return []string{"", "a", "Zoë", "日本", "x\ty", "\"q\"", "\u2028<&>", "a\nb", "\\\x01"}[r.Intn(9)] + fmt.Sprint(r.Intn(50))
	}
	for step := 0; step < 3+r.Intn(10); step++ {
		switch k := r.Intn(10); {
		case k < 4: // add
			var batch []git.Commit
			for n := r.Intn(6) * r.Intn(6); n > 0; n-- {
				next++
				c := git.Commit{
					Hash: fmt.Sprintf("%040x", next), ShortHash: word(), IsMerge: r.Intn(2) == 0, AuthorName: word(), AuthorEmail: word(),
					Date: time.Unix(r.Int63n(1<<32), 0).In(time.FixedZone("", 900*(r.Intn(97)-48))),
				}
				for m := r.Intn(4); m > 0; m-- {
					c.FileDiffs = append(c.FileDiffs, git.FileDiff{Path: word(), LinesAdded: r.Intn(3) * r.Intn(1000), LinesRemoved: r.Intn(3) * r.Intn(1000)})
				}
				batch = append(batch, c)
			}
			if err := b.Add(batch); err != nil {
				panic(fmt.Sprintf("seed %d: add: %v", seed, err))
			}
			stored = append(stored, batch...)
		case k < 5: // close and open again
			if err := b.Close(); err != nil {
				panic(fmt.Sprintf("seed %d: close: %v", seed, err))
			}
			open()
		case k < 6 && (gob || len(stored) > 0) && r.Intn(2) == 0: // clear
			if err := b.Clear(); err != nil {
				panic(fmt.Sprintf("seed %d: clear: %v", seed, err))
			}
			stored = nil
		default: // query
			asked := map[string]bool{}
			var revs []string
			p := r.Float64() * 1.2
			for i := 0; i <= next+1; i++ {
				if r.Float64() < p {
					h := fmt.Sprintf("%040x", i)
					asked[h] = true
					revs = append(revs, h)
				}
			}
			r.Shuffle(len(revs), func(i, j int) { revs[i], revs[j] = revs[j], revs[i] })
			var want []git.Commit
			for _, c := range stored {
				if asked[c.Hash] {
					want = append(want, c)
				}
			}
			stop := -1
			if r.Intn(5) == 0 {
				stop = r.Intn(len(want) + 1)
				want = want[:min(stop+1, len(want))]
			}
			var got []git.Commit
			seq, finish := b.Get(revs)
			for c := range seq {
				got = append(got, c)
				if len(got) == stop+1 && stop >= 0 {
					break
				}
			}
			if err := finish(); err != nil {
				panic(fmt.Sprintf("seed %d: get: %v", seed, err))
			}
			if !ghost.Eq(got, want) {
				panic(fmt.Sprintf("seed %d, step %d: got %d commits %v\nwant %d %v", seed, step, len(got), got, len(want), want))
			}
		}
	}
	b.Close()
}
