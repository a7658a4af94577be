package concurrent

import (
	"context"
	"errors"
	"iter"

	"github.com/sinclairtarget/git-who/internal/cache"
	"github.com/sinclairtarget/git-who/internal/git"
	"github.com/sinclairtarget/git-who/internal/tally"
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- C05, C06: what is read is stored, or an error is reported ----------------------

// zzDisk is a cache that notes what it is given, until it is full.
type zzDisk struct {
	added [][]git.Commit
	room  int
}

func (d *zzDisk) Name() string { return "zz" }
func (d *zzDisk) Open() error  { return nil }
func (d *zzDisk) Close() error { return nil }
func (d *zzDisk) Clear() error { return nil }
func (d *zzDisk) Get(revs []string) (iter.Seq[git.Commit], func() error) {
	return nil, func() error { return nil }
}
func (d *zzDisk) Add(cs []git.Commit) error {
	if len(d.added) >= d.room {
		return errors.New("disk full")
	}
	d.added = append(d.added, cs)
	return nil
}

// Every chunk is written, in order; a failing write is an error.
//
//verif:property C05 C06
//verif:runs 2000
func Contract_RunCacher(chunks [][]git.Commit, room int, c0 int) {
	ghost.Requires("room", room >= 0)
	d := &zzDisk{room: room}
	c := cache.NewCache(d)

	err := runCacher(context.Background(), &c, ghost.In(chunks))

	ghost.Ensures("a failing write is an error", (err != nil) == (len(chunks) > room))
	if err == nil {
		ghost.Ensures("every chunk is written", len(d.added) == len(chunks))
		if 0 <= c0 && c0 < len(chunks) {
			ghost.Ensures("in order", ghost.Identical(d.added[c0], chunks[c0]))
		}
	}
}

//verif:inv RunCacher
func Inv_RunCacher(chunks [][]git.Commit, d *zzDisk, in chan []git.Commit, room int) bool {
	n := len(d.added)
	return d.room == room && n == ghost.Received(in) && n <= room && n <= len(chunks) && ghost.AllInt(0, n, func(i int) bool {
		return ghost.Identical(d.added[i], chunks[i])
	})
}

func specHanded(B [][]string, n int, h string) int {
	if n <= 0 {
		return 0
	}
	return specHanded(B, n-1, h) + ghost.Count(B[n-1], h)
}

// zzTallyUnless adds the commits it is given to tallied.
func zzTallyUnless(broken bool, tallied *int) tallyFunc[zzSum] {
	return func(commits iter.Seq[git.Commit], opts tally.TallyOpts) (zzSum, error) {
		for range commits {
			*tallied += 1
		}
		if broken {
			return 0, errors.New("cannot tally")
		}
		return 1, nil
	}
}

// A worker asks git about every revision of every batch, delivers one result
// for each, and stores no fewer commits than it tallies; whatever fails is an
// error.
//
//verif:property C05 C06
//verif:runs 300
//verif:assume git stops reading its standard input only when it fails
func Contract_RunWorker(batches [][]string, tokens []string, fail, broken, mailmap bool, h0 string) {
	ghost.Requires("read by the verifier", ghost.Symbolic())
	ghost.Git(tokens, fail)
	results := ghost.Out[zzSum]()
	toCache := ghost.Out[[]git.Commit]()
	tallied := 0
	whop := whoperation[zzSum]{useMailmap: mailmap, tally: zzTallyUnless(broken, &tallied)}
	in := ghost.In(batches)

	err := runWorker(context.Background(), 1, whop, in, results, toCache)

	ghost.Ensures("a failure is an error", err != nil || !ghost.Failed())
	if err != nil {
		return
	}
	if len(batches) > 0 {
		ghost.Ensures("a failing tally is an error", !broken)
	}
	ghost.Ensures("one result a batch", len(ghost.Sent(results)) == len(batches))
	ghost.Ensures("git is asked about every revision", ghost.Count(ghost.GitInput(), h0) == specHanded(batches, len(batches), h0))
	ghost.Ensures("what is tallied is stored", tallied <= len(ghost.Sent(toCache))*cacheChunkSize)
}

//verif:inv RunWorker @runWorker#L0
func Inv_RunWorker(batches [][]string, in chan []string, results chan zzSum, toCache chan []git.Commit, tallied int, broken bool, h0 string) bool {
	n := ghost.Received(in)
	return n <= len(batches) && len(ghost.Sent(results)) == n && (n == 0 || !broken) && !ghost.Failed() &&
		ghost.Count(ghost.GitInput(), h0) == specHanded(batches, n, h0) &&
		tallied <= len(ghost.Sent(toCache))*cacheChunkSize
}

//verif:inv RunWorker
func Inv_RunWorkerAsks(p ghost.Pos, revs []string, batches [][]string, in chan []string, h0 string) bool {
	return ghost.Count(ghost.GitInput(), h0) == specHanded(batches, ghost.Received(in)-1, h0)+ghost.Count(revs[:int(p)], h0)
}

//verif:inv RunWorker @StdoutNullDelimitedLines$1#L0
func Inv_RunWorkerReads(toCache chan []git.Commit, chunk []git.Commit, tallied int) bool {
	return len(chunk) < cacheChunkSize && tallied <= len(ghost.Sent(toCache))*cacheChunkSize+len(chunk)
}

// The spawner passes on every batch, once and in order, and starts a worker as
// soon as there is one.
//
//verif:property C05
//verif:runs 100
func Contract_RunSpawner(batches [][]string, c0, j0 int) {
	ghost.Requires("read by the verifier", ghost.Symbolic())
	q2 := ghost.Out[[]string]()
	workers := ghost.Out[worker]()
	results := ghost.Out[zzSum]()
	toCache := ghost.Out[[]git.Commit]()

	runSpawner(context.Background(), whoperation[zzSum]{tally: zzTallyCount}, ghost.In(batches), q2, workers, results, toCache)

	out := ghost.Sent(q2)
	ghost.Ensures("every batch once", len(out) == len(batches))
	if 0 <= c0 && c0 < len(out) {
		ghost.Ensures("as it came", ghost.Identical(out[c0], batches[c0]))
	}
	ghost.Ensures("a worker for the batches", len(ghost.Sent(workers)) >= 1 || len(batches) == 0 || nCPU < 1)
	ghost.Ensures("no more workers than batches", len(ghost.Sent(workers)) <= len(batches))
	ghost.Ensures("the spawner itself computes nothing", len(ghost.Sent(results)) == 0 && len(ghost.Sent(toCache)) == 0)
}

//verif:inv RunSpawner
func Inv_RunSpawner(batches [][]string, q chan []string, q2 chan []string, workers chan worker, nWorkers int) bool {
	n := ghost.Received(q)
	return n <= len(batches) && len(ghost.Sent(q2)) == n && len(ghost.Sent(workers)) == nWorkers && 0 <= nWorkers && nWorkers <= n &&
		(n == 0 || nWorkers >= 1 || nCPU < 1) && ghost.AllInt(0, n, func(i int) bool {
		return ghost.Identical(ghost.Sent(q2)[i], batches[i])
	})
}

// Every error a worker ends with is passed on.
//
//verif:property C06
//verif:runs 100
func Contract_RunWaiter(ws []worker, j0 int) {
	ghost.Requires("read by the verifier", ghost.Symbolic())
	errs := ghost.Out[error]()

	runWaiter(ghost.In(ws), errs)

	out := ghost.Sent(errs)
	ghost.Ensures("every error", len(out) == len(ghost.Delivered()))
	if 0 <= j0 && j0 < len(out) {
		ghost.Ensures("as it came", out[j0] == ghost.Delivered()[j0])
	}
}

//verif:inv RunWaiter
func Inv_RunWaiter(errs chan error) bool {
	return len(ghost.Sent(errs)) == len(ghost.Delivered()) && ghost.AllInt(0, len(ghost.Sent(errs)), func(i int) bool {
		return ghost.Sent(errs)[i] == ghost.Delivered()[i]
	})
}
