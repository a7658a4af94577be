package subcommands

import (
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/sinclairtarget/git-who/internal/format"
	"github.com/sinclairtarget/git-who/internal/pretty"
	"github.com/sinclairtarget/git-who/internal/tally"
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- C14: printing ---------------------------------------------------------------

var _ = ghost.Gen(func(r *ghost.Rand) []treeOutputLine {
	names := []string{"src/", "a.go", "é日.txt", "a very long name that goes on and on.txt", "x", "."}
	who := []string{"Ann", "Bob Ünal", "A Name Longer Than Twenty-Five Runes", "c", ""}
	var ls []treeOutputLine
	for n := r.Intn(7); n > 0; n-- {
		ls = append(ls, treeOutputLine{
			indent: []string{"", "├── ", "│   └── "}[r.Intn(3)], path: names[r.Intn(len(names))], metric: []string{"(1)", "(2,345)", "(3 days ago)"}[r.Intn(3)],
			tally:    tally.FinalTally{AuthorName: who[r.Intn(len(who))], AuthorEmail: who[r.Intn(len(who))]},
			showLine: r.Intn(3) > 0, showTally: r.Intn(2) == 0, dimTally: r.Intn(2) == 0, dimPath: r.Intn(3) == 0,
		})
	}
	return ls
})

// how many of the first n lines are shown
func specShown(lines []treeOutputLine, n int) int {
	if n <= 0 {
		return 0
	}
	k := specShown(lines, n-1)
	if lines[n-1].showLine {
		k++
	}
	return k
}

func specName(l treeOutputLine) string {
	if l.dimPath {
		return pretty.Dim + l.path + pretty.Reset
	}
	return l.path
}

func specWho(l treeOutputLine, showEmail bool) string {
	if showEmail {
		return format.Abbrev(format.GitEmail(l.tally.AuthorEmail), 25)
	}
	return format.Abbrev(l.tally.AuthorName, 25)
}

// the width of the widest of the first n lines
func specWidth(lines []treeOutputLine, n int) int {
	if n <= 0 {
		return 0
	}
	return max(specWidth(lines, n-1), specRunes(lines[n-1]))
}

func specRunes(l treeOutputLine) int {
	return utf8.RuneCountInString(l.indent) + utf8.RuneCountInString(l.path)
}

func specPrinted(s string, l treeOutputLine, width int, showEmail bool) bool {
	if !l.showTally {
		return s == l.indent+specName(l)
	}
	dots := strings.Repeat(".", width+4-specRunes(l))
	if l.dimTally {
		return s == l.indent+specName(l)+pretty.Dim+dots+pretty.Reset+specWho(l, showEmail)+" "+l.metric
	}
	return s == l.indent+specName(l)+pretty.Dim+dots+specWho(l, showEmail)+" "+l.metric+pretty.Reset
}

// Exactly the lines to show are printed, each once and in order, with the path
// and, unless it is to be left out, the author and the metric.
//
//verif:property C14
//verif:fork
//verif:opaque internal/format.Abbrev,internal/format.GitEmail
//verif:runs 300
func Contract_PrintTree(lines []treeOutputLine, showEmail bool, j0 int) {
	ghost.CaptureLines()
	printTree(lines, showEmail)
	out := ghost.Printed()
	ghost.Ensures("a line for every line to show", len(out) == specShown(lines, len(lines)))
	if 0 <= j0 && j0 < len(lines) && lines[j0].showLine {
		ghost.Ensures("in order", 0 <= specShown(lines, j0) && specShown(lines, j0) < len(out))
		ghost.Ensures("as it should be", specPrinted(out[specShown(lines, j0)], lines[j0], specWidth(lines, len(lines)), showEmail))
	}
}

//verif:inv PrintTree @printTree#L0
func Inv_TreeWidth(p ghost.Pos, lines []treeOutputLine, longest int) bool {
	return longest == specWidth(lines, int(p)) && ghost.AllInt(0, int(p), func(i int) bool { return specRunes(lines[i]) <= longest })
}

//verif:inv PrintTree @printTree#L1
func Inv_TreePrinted(p ghost.Pos, lines []treeOutputLine, showEmail bool, j0 int) bool {
	out := ghost.Printed()
	return len(out) == specShown(lines, int(p)) && len(out) >= 0 &&
		ghost.Imp(0 <= j0 && j0 < int(p) && lines[j0].showLine, func() bool {
			return 0 <= specShown(lines, j0) && specShown(lines, j0) < len(out) && specPrinted(out[specShown(lines, j0)], lines[j0], specWidth(lines, len(lines)), showEmail)
		})
}

// ---- C14: flattening ---------------------------------------------------------------

func zzRandTree(r *ghost.Rand, depth int, root bool) *tally.TreeNode {
	who := []string{"Ann", "Bob", "Cy"}
	n := &tally.TreeNode{Children: map[string]*tally.TreeNode{}, InWorkTree: r.Intn(4) > 0}
	w := who[r.Intn(3)]
	n.Tally = tally.FinalTally{AuthorName: w, AuthorEmail: w + "@x", Commits: 1 + r.Intn(9), FileCount: 1 + r.Intn(3), LinesAdded: r.Intn(2000)}
	names := []string{"a", "b", "B", "c.go", "é", "src", "zz", "a-1", "docs", "."}
	if depth > 0 {
		for k := []int{0, 1, 1, 2, 3, 5}[r.Intn(6)]; k > 0; k-- {
			n.Children[names[r.Intn(len(names))]] = zzRandTree(r, depth-1-r.Intn(2), false)
		}
		if root && r.Intn(3) == 0 {
			c := zzRandTree(r, 0, false)
			c.InWorkTree = r.Intn(4) == 0
			n.Children[tally.NoDiffPathname] = c
		}
	}
	return n
}

var _ = ghost.Gen(func(r *ghost.Rand) *tally.TreeNode { return zzRandTree(r, r.Intn(6), true) })

var _ = ghost.Gen(func(r *ghost.Rand) printTreeOpts {
	o := printTreeOpts{
		mode:       []tally.TallyMode{tally.CommitMode, tally.LinesMode, tally.FilesMode, tally.LastModifiedMode, tally.FirstModifiedMode}[r.Intn(5)],
		maxDepth:   []int{100, 1, 2, 3, 4}[r.Intn(5)],
		showHidden: r.Intn(2) == 0,
		key:        func(t tally.FinalTally) string { return t.AuthorName },
	}
	if r.Intn(3) == 0 {
		o.key = func(t tally.FinalTally) string { return t.AuthorEmail }
	}
	return o
})

// every node below is there
func specWhole(n *tally.TreeNode) bool {
	return n != nil && n.Tally.Commits >= 0 && n.Tally.FileCount >= 0 && n.Tally.LinesAdded >= 0 && n.Tally.LinesRemoved >= 0 &&
		ghost.AllKeys(n.Children, func(k string) bool { return n.Children[k] != nil && specWhole(n.Children[k]) })
}

func specPre_toLines(node *tally.TreeNode, path string, depth int, lastAuthor string, isFinalChild []bool, opts printTreeOpts, lines []treeOutputLine) bool {
	return specWhole(node) && specMode(opts.mode) && opts.key != nil
}

// the line of a node
func specNodeLine(l treeOutputLine, node *tally.TreeNode, path string, lastAuthor string, opts printTreeOpts) bool {
	dir := len(node.Children) > 0
	p := path
	if dir {
		p = path + "/"
	}
	return l.path == p && ghost.Identical(l.tally, node.Tally) &&
		l.showLine == (node.InWorkTree || opts.showHidden) &&
		l.dimPath == !node.InWorkTree && l.dimTally == dir &&
		l.showTally == (opts.showHidden || dir || opts.key(node.Tally) != lastAuthor)
}

// what holds of every line
func specLineRule(l treeOutputLine, opts printTreeOpts) bool {
	return l.showLine == (opts.showHidden || !l.dimPath) && (l.showTally || !opts.showHidden && !l.dimTally)
}

func specPost_toLines(node *tally.TreeNode, path string, depth int, lastAuthor string, isFinalChild []bool, opts printTreeOpts, lines []treeOutputLine, out []treeOutputLine) bool {
	n := len(lines)
	hidden := path == tally.NoDiffPathname || depth > opts.maxDepth
	return len(out) >= n && ghost.AllInt(0, n, func(i int) bool { return ghost.Identical(out[i], lines[i]) }) &&
		ghost.AllInt(n, len(out), func(i int) bool { return specLineRule(out[i], opts) }) &&
		(!hidden || len(out) == n) &&
		(hidden || depth < opts.maxDepth && len(node.Children) == 1 || len(out) > n && specNodeLine(out[n], node, path, lastAuthor, opts))
}

// A node within the depth limit, unless collapsed with its only child, gets its
// own line before those of its children; lines already there stay; a line is
// shown unless the path is gone from the work tree; an annotation is left out
// only for a file with its parent's author.
//
//verif:property C14
//verif:runs 500
func Contract_ToLines(node *tally.TreeNode, path string, depth int, lastAuthor string, isFinalChild []bool, opts printTreeOpts, lines0 []treeOutputLine) {
	ghost.Requires("a tree", specPre_toLines(node, path, depth, lastAuthor, isFinalChild, opts, lines0))
	out := toLines(node, path, depth, lastAuthor, isFinalChild, opts, lines0)
	ghost.Ensures("the lines", specPost_toLines(node, path, depth, lastAuthor, isFinalChild, opts, lines0, out))
}

//verif:inv ToLines
func Inv_ToLines(p ghost.Pos, node *tally.TreeNode, path, lastAuthor string, opts printTreeOpts, lines0, lines []treeOutputLine) bool {
	n := len(lines0)
	return len(lines) > n && ghost.AllInt(0, n, func(i int) bool { return ghost.Identical(lines[i], lines0[i]) }) &&
		ghost.AllInt(n, len(lines), func(i int) bool { return specLineRule(lines[i], opts) }) &&
		specNodeLine(lines[n], node, path, lastAuthor, opts)
}

//verif:inv ToLines
func Inv_ToLinesKept(lines0, lines []treeOutputLine, opts printTreeOpts) bool {
	n := len(lines0)
	return len(lines) >= n && ghost.AllInt(0, n, func(i int) bool { return ghost.Identical(lines[i], lines0[i]) }) &&
		ghost.AllInt(n, len(lines), func(i int) bool { return specLineRule(lines[i], opts) })
}

func specDir(n *tally.TreeNode, k string) bool { return len(n.Children[k].Children) > 0 }

// directories first, then by name
func specBefore(n *tally.TreeNode, a, b string) bool {
	if specDir(n, a) != specDir(n, b) {
		return specDir(n, a)
	}
	return a < b
}

// One step of the descent: every child is visited once, directories first and
// in alphabetical order, one level further down and with this node's author as
// the author of the parent; an only child is visited in place of its parent.
//
//verif:property C14
func Contract_ToLinesStep(node *tally.TreeNode, path string, depth int, lastAuthor string, isFinalChild []bool, opts printTreeOpts, lines0 []treeOutputLine, j0 int) {
	ghost.Requires("a tree", specPre_toLines(node, path, depth, lastAuthor, isFinalChild, opts, lines0))
	ghost.Requires("read by the verifier", ghost.Symbolic())
	ghost.CaptureCalls("toLines")
	toLines(node, path, depth, lastAuthor, isFinalChild, opts, lines0)
	nodes, paths := ghost.Calls[*tally.TreeNode]("toLines", "node"), ghost.Calls[string]("toLines", "path")
	depths, authors := ghost.Calls[int]("toLines", "depth"), ghost.Calls[string]("toLines", "lastAuthor")
	switch {
	case path == tally.NoDiffPathname || depth > opts.maxDepth:
		ghost.Ensures("nothing below", len(paths) == 0)
	case depth < opts.maxDepth && len(node.Children) == 1:
		ghost.Ensures("the only child", len(paths) == 1)
		ghost.Ensures("in place of its parent", ghost.AllKeys(node.Children, func(k string) bool {
			return nodes[0] == node.Children[k] && paths[0] == filepath.Join(path, k) && depths[0] == depth+1 && authors[0] == lastAuthor
		}))
	default:
		ghost.Ensures("every child once", len(paths) == len(node.Children))
		if 0 <= j0 && j0 < len(paths) {
			ghost.Ensures("a child", ghost.Has(node.Children, paths[j0]) && nodes[j0] == node.Children[paths[j0]])
			ghost.Ensures("below this node", depths[j0] == depth+1 && authors[j0] == opts.key(node.Tally))
			ghost.Ensures("in order", j0 == 0 || specBefore(node, paths[j0-1], paths[j0]))
		}
	}
}

//verif:inv ToLinesStep @toLines#L0
func Inv_StepElide(v ghost.Visited[string], node *tally.TreeNode, path string, depth int, lastAuthor string) bool {
	nodes, paths := ghost.Calls[*tally.TreeNode]("toLines", "node"), ghost.Calls[string]("toLines", "path")
	depths, authors := ghost.Calls[int]("toLines", "depth"), ghost.Calls[string]("toLines", "lastAuthor")
	return len(nodes) == len(paths) && len(depths) == len(paths) && len(authors) == len(paths) && len(paths) == ghost.SumVisited(v, func(k string) int { return 1 }) &&
		ghost.Imp(ghost.SumVisited(v, func(k string) int { return 1 }) == 1, func() bool {
			return ghost.AllVisited(v, func(k string) bool {
				return nodes[0] == node.Children[k] && paths[0] == filepath.Join(path, k) && depths[0] == depth+1 && authors[0] == lastAuthor
			})
		})
}

//verif:inv ToLinesStep @toLines#L3
func Inv_StepDown(p ghost.Pos, childPaths []string, node *tally.TreeNode, depth int, opts printTreeOpts, j0 int) bool {
	nodes, paths := ghost.Calls[*tally.TreeNode]("toLines", "node"), ghost.Calls[string]("toLines", "path")
	depths, authors := ghost.Calls[int]("toLines", "depth"), ghost.Calls[string]("toLines", "lastAuthor")
	return len(nodes) == int(p) && len(depths) == int(p) && len(authors) == int(p) && len(paths) == int(p) && ghost.AllInt(0, int(p), func(i int) bool { return paths[i] == childPaths[i] }) &&
		ghost.Imp(0 <= j0 && j0 < int(p), func() bool {
			return nodes[j0] == node.Children[paths[j0]] && depths[j0] == depth+1 && authors[j0] == opts.key(node.Tally)
		})
}

// ---- C14: whole listings, sampled ----------------------------------------------------

type zzListed struct {
	level     int
	path      string
	show, who bool
	tally     tally.FinalTally
}

// what is to be listed, from the statement of the property
func zzListing(n *tally.TreeNode, name string, depth, level int, parent string, o printTreeOpts) []zzListed {
	if name == tally.NoDiffPathname || depth > o.maxDepth {
		return nil
	}
	var dirs, files []string
	for k, c := range n.Children {
		if len(c.Children) > 0 {
			dirs = append(dirs, k)
		} else {
			files = append(files, k)
		}
	}
	sort.Strings(dirs)
	sort.Strings(files)
	all := append(dirs, files...)
	if depth < o.maxDepth && len(all) == 1 {
		k := all[0]
		if k != tally.NoDiffPathname || name != "." {
			k = filepath.Join(name, k)
		}
		return zzListing(n.Children[all[0]], k, depth+1, level, parent, o)
	}
	l := zzListed{level: level, path: name, show: n.InWorkTree || o.showHidden, who: true, tally: n.Tally}
	if len(all) > 0 {
		l.path += "/"
	} else if !o.showHidden {
		l.who = o.key(n.Tally) != parent
	}
	out := []zzListed{l}
	for _, k := range all {
		out = append(out, zzListing(n.Children[k], k, depth+1, level+1, o.key(n.Tally), o)...)
	}
	return out
}

// Random trees are listed as the property says.
//
//verif:property C14
//verif:runs 4000
func Bounded_ToLines(node *tally.TreeNode, opts printTreeOpts) {
	got := toLines(node, ".", 0, "", []bool{}, opts, []treeOutputLine{})
	want := zzListing(node, ".", 0, 0, "", opts)
	ghost.Ensures("as many lines", len(got) == len(want))
	for i, w := range want {
		g := got[i]
		ghost.Ensures("the nodes in order", g.path == w.path && utf8.RuneCountInString(g.indent) == 4*w.level && g.tally == w.tally)
		ghost.Ensures("shown when asked for", g.showLine == w.show)
		ghost.Ensures("annotated unless it repeats its parent", g.showTally == w.who)
	}
}
