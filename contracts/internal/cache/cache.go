package cache

import (
	"errors"
	"iter"
	"slices"

	"github.com/sinclairtarget/git-who/internal/git"
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- C07: the cache adds nothing to its backend --------------------------------

// zzBackend holds commits and fails when told to.
type zzBackend struct {
	commits []git.Commit
	fail    bool
	added   *[]git.Commit
}

var zzFailure = errors.New("failure")

func (b zzBackend) err() error {
	if b.fail {
		return zzFailure
	}
	return nil
}

func (b zzBackend) Name() string { return "zz" }
func (b zzBackend) Open() error  { return b.err() }
func (b zzBackend) Close() error { return b.err() }
func (b zzBackend) Clear() error { return b.err() }

func (b zzBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
	return slices.Values(b.commits), func() error { return b.err() }
}

func (b zzBackend) Add(commits []git.Commit) error {
	*b.added = commits
	return b.err()
}

// The commits and the failures of the cache are its backend's.
//
//verif:property C07
func Contract_CachePasses(S, argAdded []git.Commit, argRevs []string, fail bool, j0 int) {
	var added []git.Commit
	c := NewCache(zzBackend{commits: S, fail: fail, added: &added})

	seq, finish := c.Get(argRevs)
	got := slices.Collect(seq)
	ghost.Ensures("a failure to read is passed on", (finish() != nil) == fail)
	ghost.Ensures("as many commits as the backend gives", len(got) == len(S))
	if 0 <= j0 && j0 < len(S) {
		ghost.Ensures("the backend's commit", ghost.Identical(got[j0], S[j0]))
	}

	err := c.Add(argAdded)
	ghost.Ensures("a failure to add is passed on", (err != nil) == fail)
	ghost.Ensures("every commit is handed to the backend", len(added) == len(argAdded))
	if 0 <= j0 && j0 < len(argAdded) {
		ghost.Ensures("unchanged", ghost.Identical(added[j0], argAdded[j0]))
	}
	ghost.Ensures("failures to open, close and clear are passed on", (c.Open() != nil) == fail && (c.Close() != nil) == fail && (c.Clear() != nil) == fail)
}
