package tally

import (
	"os"
	"path/filepath"
	"strings"
	"time"

	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- C13: one author's tallies of two paths taken together ---------------------------

// Lines add up, the commits of both are counted once each, the dates span both.
//
//verif:property C13 C03
//verif:runs 2000
func Contract_TallyCombine(two zzTwoTallies, h0 string) {
	a, b := two.a, two.b
	ghost.Requires("commit sets", a.commitset != nil && b.commitset != nil && !ghost.Same(a.commitset, b.commitset) && a.fileset == nil && b.fileset == nil)
	inA, inB := ghost.Has(a.commitset, h0), ghost.Has(b.commitset, h0)
	t := a.Combine(b)
	ghost.Ensures("named", t.name == a.name || a.name == "" && t.name == b.name)
	ghost.Ensures("addressed", t.email == a.email || a.email == "" && t.email == b.email)
	ghost.Ensures("lines add up", t.added == a.added+b.added && t.removed == a.removed+b.removed)
	ghost.Ensures("files add up", t.numTallied == a.numTallied+b.numTallied)
	ghost.Ensures("the commits of both", ghost.Has(t.commitset, h0) == (inA || inB))
	ghost.Ensures("b's stay", ghost.Has(b.commitset, h0) == inB)
	ghost.Ensures("from the earlier first edit", !t.firstCommitTime.After(a.firstCommitTime) && !t.firstCommitTime.After(b.firstCommitTime) &&
		(t.firstCommitTime.Equal(a.firstCommitTime) || t.firstCommitTime.Equal(b.firstCommitTime)))
	ghost.Ensures("to the later last edit", !t.lastCommitTime.Before(a.lastCommitTime) && !t.lastCommitTime.Before(b.lastCommitTime) &&
		(t.lastCommitTime.Equal(a.lastCommitTime) || t.lastCommitTime.Equal(b.lastCommitTime)))
}

type zzTwoTallies struct{ a, b Tally }

var _ = ghost.Gen(func(r *ghost.Rand) zzTwoTallies {
	one := func() Tally {
		t := Tally{name: r.Str("author"), email: r.Str("email"), commitset: map[string]bool{}, added: r.Intn(99), removed: r.Intn(99), numTallied: r.Intn(3),
			firstCommitTime: time.Unix(int64(r.Intn(1000)), 0), lastCommitTime: time.Unix(int64(r.Intn(1000)), 0)}
		for n := r.Intn(4); n > 0; n-- {
			t.commitset[r.Str("hash")] = true
		}
		return t
	}
	return zzTwoTallies{one(), one()}
})

//verif:inv TallyCombine
func Inv_TallyCombine(e ghost.Entry, v ghost.Visited[string], union, b map[string]bool, h0 string) bool {
	return ghost.OnlyChanged(e, union) &&
		ghost.Has(union, h0) == (ghost.Has(ghost.AtEntry(e, union), h0) || v.Has(h0))
}

// ---- C13: insertion -------------------------------------------------------------------

// The first component of a path and the rest of it.
//
//verif:property C13
//verif:runs 2000
func Contract_SplitPath(p string) {
	dir, rest := splitPath(p)
	ghost.Ensures("no separator in the first component", !strings.Contains(dir, "/"))
	if strings.Contains(p, "/") {
		ghost.Ensures("nothing lost", p == dir+"/"+rest)
	} else {
		ghost.Ensures("a single component", dir == p && rest == "")
	}
}

// One step of an insertion: the tally goes unchanged to the node of the first
// component, made when it is missing, and from there to the rest of the path;
// at the end it is stored under its author, and nothing else is. A node is
// present in the work tree when it was or when the path is.
//
//verif:property C13
//verif:runs 500
func Contract_Insert(at zzNodeIn, p, key string, tally Tally, inW bool, k0 string) {
	t := at.node
	ghost.Requires("a node", t != nil && t.Children != nil && t.tallies != nil)
	ghost.Requires("with its children", ghost.AllKeys(t.Children, func(k string) bool {
		c := t.Children[k]
		return c != nil && c != t && c.Children != nil && c.tallies != nil && !ghost.Same(c.tallies, t.tallies) && !ghost.Same(c.Children, t.Children)
	}))
	dir, rest := p, ""
	if i := strings.Index(p, "/"); i >= 0 {
		dir, rest = p[:i], p[i+1:]
	}
	was, had := t.Children[dir]
	in0 := had && was.InWorkTree
	own, ok0 := t.tallies[k0]
	self := t.InWorkTree

	ghost.AtCall("TreeNode.insert", func(c *TreeNode, p2, key2 string, tally2 Tally, inW2 bool) {
		ghost.Ensures("towards the rest of the path", p != "" && p2 == rest)
		ghost.Ensures("to the node of the first component", c == t.Children[dir] && (!had || c == was))
		ghost.Ensures("the tally unchanged", key2 == key && ghost.Identical(tally2, tally) && inW2 == inW)
		ghost.Ensures("present when it was or the path is", c.InWorkTree == (in0 || inW))
		ghost.Ensures("a whole node", c != nil && c.Children != nil && c.tallies != nil)
		if !had {
			ghost.Ensures("a new node has no tally of its own", !ghost.Has(c.tallies, k0) && !ghost.Has(c.Children, k0))
		}
		now, ok := t.tallies[k0]
		ghost.Ensures("no other tally touched", ok == ok0 && ghost.Identical(now, own) && t.InWorkTree == self)
	})
	t.insert(p, key, tally, inW)

	if p == "" {
		now, ok := t.tallies[k0]
		if k0 == key {
			ghost.Ensures("stored under its author", ok && ghost.Identical(now, tally))
		} else {
			ghost.Ensures("no other tally touched", ok == ok0 && ghost.Identical(now, own))
		}
		ghost.Ensures("presence unchanged", t.InWorkTree == self)
	}
}

type zzNodeIn struct{ node *TreeNode }

var _ = ghost.Gen(func(r *ghost.Rand) zzNodeIn {
	n := newNode(r.Intn(2) == 0)
	for k := r.Intn(3); k > 0; k-- {
		n.Children[r.Str("path")] = newNode(r.Intn(2) == 0)
	}
	for k := r.Intn(3); k > 0; k-- {
		n.tallies[r.Str("author")] = Tally{added: r.Intn(9)}
	}
	return zzNodeIn{n}
})

// ---- C13: whole trees, sampled ---------------------------------------------------------

type zzTreeIn struct {
	paths TalliesByPath
	wtree map[string]bool // relative to the working directory
	below string          // the repository's root, as seen from the working directory
	sub   string          // the working directory, as seen from the root
	mode  TallyMode
}

var _ = ghost.Gen(func(r *ghost.Rand) zzTreeIn {
	in := zzTreeIn{paths: TalliesByPath{}, wtree: map[string]bool{}, mode: []TallyMode{CommitMode, LinesMode, FilesMode, LastModifiedMode, FirstModifiedMode}[r.Intn(5)]}
	switch r.Intn(4) {
	case 0:
		in.below, in.sub = "..", "tally/"
	case 1:
		in.below, in.sub = ".", ""
	}
	parts := []string{"a", "b", "tally", "src", "x.go", "é ü.txt", "..x", "a b"}
	var ps []string
	for n := 1 + r.Intn(9); n > 0; n-- {
		p := in.sub
		if r.Intn(4) == 0 {
			p = ""
		}
		if len(ps) > 0 && r.Intn(3) == 0 {
			p = ps[r.Intn(len(ps))] + "/"
		}
		p += parts[r.Intn(len(parts))]
		for d := r.Intn(4); d > 0; d-- {
			p += "/" + parts[r.Intn(len(parts))]
		}
		if p+"/" == in.sub {
			continue // a file where the working directory is now
		}
		ps = append(ps, p)
	}
	if r.Intn(4) == 0 {
		ps = append(ps, NoDiffPathname)
	}
	for _, p := range ps {
		if q, ok := strings.CutPrefix(p, in.sub); ok && r.Intn(3) > 0 {
			in.wtree[q] = true
		}
		for n := 1 + r.Intn(3); n > 0; n-- {
			k := []string{"ann", "bob", "cy"}[r.Intn(3)]
			if in.paths[k] == nil {
				in.paths[k] = map[string]Tally{}
			}
			t := Tally{name: k, email: k + "@x", commitset: map[string]bool{}, added: r.Intn(50), removed: r.Intn(50), numTallied: 1}
			for c := 1 + r.Intn(4); c > 0; c-- {
				t.commitset[k+string(rune('0'+r.Intn(6)))] = true
			}
			f := int64(1e9 + r.Intn(1000))
			t.firstCommitTime, t.lastCommitTime = time.Unix(f, 0), time.Unix(f+int64(r.Intn(1000)), 0)
			in.paths[k][p] = t
		}
	}
	return in
})

func zzValue(t FinalTally, m TallyMode) int64 {
	switch m {
	case LinesMode:
		return int64(t.LinesAdded + t.LinesRemoved)
	case FilesMode:
		return int64(t.FileCount)
	case LastModifiedMode:
		return t.LastCommitTime.Unix()
	case FirstModifiedMode:
		return -t.FirstCommitTime.Unix()
	}
	return int64(t.Commits)
}

// Every node of a tree made from random tallies holds, for every author, the
// merge of what lies at and below it.
//
//verif:property C13
//verif:runs 3000
func Bounded_Tree(in zzTreeIn) {
	root := ""
	if in.below != "" {
		wd, _ := os.Getwd()
		root = filepath.Join(wd, in.below)
	}
	want := map[string]map[string]Tally{}
	present := map[string]bool{"": true}
	for k, ts := range in.paths {
		for p, t := range ts {
			q, ok := strings.CutPrefix(p, in.sub)
			if !ok {
				continue
			}
			for at := q; ; {
				if want[at] == nil {
					want[at] = map[string]Tally{}
				}
				w, ok := want[at][k]
				if !ok {
					w = Tally{name: k, email: k + "@x", commitset: map[string]bool{}, firstCommitTime: t.firstCommitTime, lastCommitTime: t.lastCommitTime}
				}
				for h := range t.commitset {
					w.commitset[h] = true
				}
				w.added, w.removed, w.numTallied = w.added+t.added, w.removed+t.removed, w.numTallied+1
				if t.firstCommitTime.Before(w.firstCommitTime) {
					w.firstCommitTime = t.firstCommitTime
				}
				if t.lastCommitTime.After(w.lastCommitTime) {
					w.lastCommitTime = t.lastCommitTime
				}
				want[at][k] = w
				present[at] = present[at] || in.wtree[q]
				if at == "" {
					break
				}
				at = at[:max(strings.LastIndex(at, "/"), 0)]
			}
		}
	}

	tree, err := TallyCommitsTreeFromPaths(in.paths, in.wtree, root)
	if len(want) == 0 {
		ghost.Ensures("an empty tree is told apart", err == EmptyTreeErr)
		return
	}
	ghost.Ensures("no error", err == nil)
	tree = tree.Rank(in.mode)
	n := 0
	var check func(at string, node *TreeNode)
	check = func(at string, node *TreeNode) {
		n++
		w := want[at]
		ghost.Ensures("no invented nodes", w != nil)
		ghost.Ensures("present when a path at or under it is", node.InWorkTree == present[at])
		ghost.Ensures("the authors of what lies beneath", len(node.tallies) == len(w))
		shown, best := false, false
		for k, x := range w {
			y := node.tallies[k]
			ghost.Ensures("commits counted once", len(y.commitset) == len(x.commitset))
			for h := range x.commitset {
				ghost.Ensures("the commits of what lies beneath", y.commitset[h])
			}
			ghost.Ensures("lines and files add up", y.added == x.added && y.removed == x.removed && y.numTallied == x.numTallied)
			ghost.Ensures("the dates", y.firstCommitTime.Equal(x.firstCommitTime) && y.lastCommitTime.Equal(x.lastCommitTime))
			ghost.Ensures("whose it is", y.name == x.name && y.email == x.email)
			f := x.Final()
			if node.Tally.AuthorName == f.AuthorName {
				shown = f.Commits == node.Tally.Commits && f.LinesAdded == node.Tally.LinesAdded && f.LinesRemoved == node.Tally.LinesRemoved && f.FileCount == node.Tally.FileCount &&
					f.FirstCommitTime.Equal(node.Tally.FirstCommitTime) && f.LastCommitTime.Equal(node.Tally.LastCommitTime)
			}
			best = best || zzValue(f, in.mode) > zzValue(node.Tally, in.mode)
		}
		ghost.Ensures("an author of the node is shown", shown)
		ghost.Ensures("the best one", !best)
		for k, c := range node.Children {
			ghost.Ensures("a child", c != nil)
			q := k
			if at != "" {
				q = at + "/" + k
			}
			check(q, c)
		}
	}
	check("", tree)
	ghost.Ensures("no node missing", n == len(want))
}
