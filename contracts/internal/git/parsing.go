package git

import (
	"fmt"
	"slices"
	"strconv"
	"strings"
	"time"

	rev "github.com/sinclairtarget/git-who/internal/git/revision"
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- C09: the stream of git log is taken apart faithfully ----------------------------

// What a line of git log is.
const (
	zzHash = iota
	zzShort
	zzParents
	zzName
	zzEmail
	zzDate
	zzChange  // added, removed, path
	zzRenamed // added, removed; two paths follow
	zzFrom
	zzTo
	zzEnd // an empty line
)

// zzLog is the output of git log with a description of it: for every line what
// it is, the line its record starts on, the number of file changes of its
// record up to it, and the number of admitted records before its record.
type zzLog struct {
	lines []string
	role  []int
	first []int
	nth   []int
	out   []int
	diff  []FileDiff // the file change a line belongs to
	bad   int // the first line whose numbers are not numbers
	s, e  int // the lines of some record
}

func specNumber(s string) bool {
	_, err := strconv.Atoi(s)
	return s == "-" || err == nil
}

func specValue(s string) int {
	if s == "-" {
		return 0
	}
	n, _ := strconv.Atoi(s)
	return n
}

func specFollows(r, q int) bool {
	switch {
	case q < zzDate:
		return r == q+1
	case q == zzRenamed:
		return r == zzFrom
	case q == zzFrom:
		return r == zzTo
	case q == zzEnd:
		return r == zzHash
	}
	return r == zzHash || r == zzChange || r == zzRenamed || r == zzEnd
}

// specOrder: the line follows the previous one.
func specOrder(g zzLog, k int) bool {
	return 0 <= g.role[k] && g.role[k] <= zzEnd &&
		ghost.Imp(k == 0, func() bool { return g.role[k] == zzHash && g.out[k] == 0 }) &&
		ghost.Imp(k > 0, func() bool { return specFollows(g.role[k], g.role[k-1]) }) &&
		ghost.Imp(g.role[k] == zzHash, func() bool { return g.first[k] == k && g.nth[k] == 0 }) &&
		ghost.Imp(g.role[k] != zzHash, func() bool {
			return g.first[k] == g.first[k-1] && g.out[k] == g.out[k-1] &&
				ghost.Imp(g.role[k] == zzChange || g.role[k] == zzTo, func() bool { return g.nth[k] == g.nth[k-1]+1 }) &&
				ghost.Imp(g.role[k] != zzChange && g.role[k] != zzTo, func() bool { return g.nth[k] == g.nth[k-1] })
		}) && 0 <= g.first[k] && g.first[k] <= k && 0 <= g.nth[k] && 0 <= g.out[k] && g.out[k] == g.out[g.first[k]]
}

// specAdmitted: the record starting at line s has an author and is not dated in
// the future.
func specAdmitted(g zzLog, s int, now time.Time) bool {
	n, _ := strconv.Atoi(g.lines[s+5])
	return (g.lines[s+3] != "" || g.lines[s+4] != "") && !time.Unix(int64(n), 0).After(now)
}

// specCounted: records are numbered as they are admitted.
func specCounted(g zzLog, k int, now time.Time) bool {
	return ghost.Imp(k > 0 && g.role[k] == zzHash, func() bool {
		s := g.first[k-1]
		return ghost.Imp(specAdmitted(g, s, now), func() bool { return g.out[k] == g.out[s]+1 }) &&
			ghost.Imp(!specAdmitted(g, s, now), func() bool { return g.out[k] == g.out[s] })
	})
}

// specForm: the line is what it should be, up to its numbers.
func specForm(g zzLog, k int) bool {
	line, r := g.lines[k], g.role[k]
	parts := strings.SplitN(line, "\t", 3)
	return ghost.Imp(r == zzHash, func() bool { return line != "" && rev.IsFullHash(line) }) &&
		ghost.Imp(r == zzFrom, func() bool { return line != "" }) &&
		ghost.Imp(r == zzEnd, func() bool { return line == "" }) &&
		ghost.Imp(r == zzChange || r == zzRenamed, func() bool {
			return line != "" && !rev.IsFullHash(line) && len(parts) == 3 && parts[0] != "" && parts[1] != "" && (parts[2] == "") == (r == zzRenamed) &&
				g.diff[k].LinesAdded == specValue(parts[0]) && g.diff[k].LinesRemoved == specValue(parts[1]) &&
				ghost.Imp(r == zzChange, func() bool { return g.diff[k].Path == parts[2] })
		}) &&
		ghost.Imp(r == zzFrom || r == zzTo, func() bool {
			return g.diff[k].LinesAdded == g.diff[k-1].LinesAdded && g.diff[k].LinesRemoved == g.diff[k-1].LinesRemoved &&
				ghost.Imp(r == zzTo, func() bool { return g.diff[k].Path == line })
		})
}

// specSound: the numbers on the line are numbers.
func specSound(g zzLog, k int) bool {
	line, r := g.lines[k], g.role[k]
	parts := strings.SplitN(line, "\t", 3)
	_, err := strconv.Atoi(line)
	return ghost.Imp(r == zzDate, func() bool { return err == nil }) &&
		ghost.Imp(r == zzChange || r == zzRenamed, func() bool { return specNumber(parts[0]) && specNumber(parts[1]) })
}

func zzMakeLog(r *ghost.Rand) zzLog {
	var g zzLog
	add := func(role int, line string) {
		k := len(g.lines)
		g.lines, g.role = append(g.lines, line), append(g.role, role)
		first, nth, out := k, 0, 0
		if k > 0 {
			out = g.out[k-1]
		}
		if role == zzHash {
			if s := k - 1; s >= 0 {
				s = g.first[s]
				if specAdmitted(g, s, time.Now()) {
					out += 1
				}
			}
		} else {
			first, nth = g.first[k-1], g.nth[k-1]
			if role == zzChange || role == zzTo {
				nth += 1
			}
		}
		var d FileDiff
		switch role {
		case zzChange, zzRenamed:
			parts := strings.SplitN(line, "\t", 3)
			d = FileDiff{LinesAdded: specValue(parts[0]), LinesRemoved: specValue(parts[1]), Path: parts[2]}
		case zzFrom, zzTo:
			d = g.diff[k-1]
			d.Path = line
		}
		g.diff = append(g.diff, d)
		g.first, g.nth, g.out = append(g.first, first), append(g.nth, nth), append(g.out, out)
	}
	hash := func() string {
		return fmt.Sprintf("%08x%08x%08x%08x%08x", r.Intn(1<<30), r.Intn(1<<30), r.Intn(1<<30), r.Intn(1<<30), r.Intn(1<<30))
	}
	num := func() string {
		switch r.Intn(12) {
		case 0:
			return "-"
		case 1:
			return "x1"
		}
		return strconv.Itoa(r.Intn(12))
	}
	path := func() string {
		switch r.Intn(12) {
		case 0:
			return hash()
		case 1:
			return "a\tb"
		case 2:
			return "{a => b}/c"
		case 3:
			return "-"
		case 4:
			return "1\t2\tx"
		}
		return "f" + strconv.Itoa(r.Intn(5))
	}
	for n := r.Intn(5); n > 0; n-- {
		add(zzHash, hash())
		add(zzShort, r.Str("short"))
		add(zzParents, []string{"", "p", "p q", "p q r"}[r.Intn(4)])
		add(zzName, []string{"", "A", "B C", "deadbeef"}[r.Intn(4)])
		add(zzEmail, []string{"", "a@b", "1\t2\tc"}[r.Intn(3)])
		add(zzDate, []string{"0", "-5", "86400", "1700000000", "99999999999", "4102444800", "noon", ""}[r.Intn(6)+r.Intn(2)+r.Intn(2)])
		for d := r.Intn(4) * r.Intn(2); d > 0; d-- {
			if r.Intn(3) == 0 {
				add(zzRenamed, num()+"\t"+num()+"\t")
				add(zzFrom, path())
				if r.Intn(4) == 0 {
					add(zzTo, "")
				} else {
					add(zzTo, path())
				}
			} else {
				add(zzChange, num()+"\t"+num()+"\t"+path())
			}
		}
		if r.Intn(2) == 0 {
			add(zzEnd, "")
		}
	}
	for g.bad < len(g.lines) && specSound(g, g.bad) {
		g.bad++
	}
	if n := len(g.lines); n > 0 {
		g.s = g.first[r.Intn(n)]
		for g.e = g.s + 1; g.e < n && g.first[g.e] == g.s; g.e++ {
		}
	}
	return g
}

var _ = ghost.Gen(zzMakeLog)

func specComplete(g zzLog) bool {
	n := len(g.lines)
	return len(g.role) == n && len(g.first) == n && len(g.nth) == n && len(g.out) == n && len(g.diff) == n &&
		ghost.Imp(n > 0, func() bool {
			return g.role[n-1] == zzDate || g.role[n-1] == zzChange || g.role[n-1] == zzTo || g.role[n-1] == zzEnd
		})
}

// Every record gives its commit, with every file change, in order; a date or a
// line count that is not a number ends the commits with an error.
//
//verif:property C09
//verif:opaque internal/git/revision.IsFullHash
//verif:cases
//verif:runs 4000
//verif:assume the clock stands still while the commits are read
func Contract_ParseCommits(g zzLog, k0 int) {
	now := time.Now()
	n, bad := len(g.lines), g.bad
	ghost.Requires("complete", specComplete(g))
	ghost.Requires("in order", ghost.AllInt(0, n, func(k int) bool { return specOrder(g, k) }))
	ghost.Requires("numbered", ghost.AllInt(0, n, func(k int) bool { return specCounted(g, k, now) }))
	ghost.Requires("well formed", ghost.AllInt(0, n, func(k int) bool { return specForm(g, k) }))
	ghost.Requires("up to a bad line", 0 <= bad && bad <= n && ghost.AllInt(0, bad, func(k int) bool { return specSound(g, k) }) &&
		ghost.Imp(bad < n, func() bool { return !specSound(g, bad) }))

	ghost.Requires("some record", 0 <= g.s && g.s <= g.e && g.e <= n && ghost.Imp(g.s < g.e, func() bool { return specRecord(g, g.s, g.e) }))

	seq, finish := ParseCommits(slices.Values(g.lines))
	var out []Commit
	for c := range seq {
		out = append(out, c)
	}
	err := finish()

	ghost.Ensures("a bad line is an error, nothing else is", (err != nil) == (bad < n))
	if bad < n {
		ghost.Ensures("nothing after it", len(out) == g.out[bad])
	} else if n == 0 {
		ghost.Ensures("nothing from nothing", len(out) == 0)
	} else if specAdmitted(g, g.first[n-1], now) {
		ghost.Ensures("every admitted record", len(out) == g.out[n-1]+1)
	} else {
		ghost.Ensures("every admitted record", len(out) == g.out[n-1])
	}
	s0, e0 := g.s, g.e
	if s0 < e0 && e0 <= bad && specAdmitted(g, s0, now) {
		i := g.out[s0]
		ghost.Ensures("in order", 0 <= i && i < len(out))
		c := out[i]
		ghost.Ensures("its fields", specFields(g, s0, c))
		ghost.Ensures("its date", specDated(g, s0, c))
		ghost.Ensures("all its changes", len(c.FileDiffs) == g.nth[e0-1])
		if s0 < k0 && k0 < e0 && (g.role[k0] == zzChange || g.role[k0] == zzTo) {
			ghost.Ensures("each change", specSame(g, k0, c.FileDiffs[g.nth[k0]-1]))
		}
	}
}

// specRecord: these lines are one record.
func specRecord(g zzLog, s, e int) bool {
	return g.role[s] == zzHash && ghost.AllInt(s, e, func(k int) bool { return g.first[k] == s }) &&
		(e == len(g.lines) || g.role[e] == zzHash)
}

func specFields(g zzLog, s int, c Commit) bool {
	return c.Hash == g.lines[s] && c.ShortHash == g.lines[s+1] && c.IsMerge == strings.Contains(g.lines[s+2], " ") &&
		c.AuthorName == g.lines[s+3] && c.AuthorEmail == g.lines[s+4]
}

func specDated(g zzLog, s int, c Commit) bool {
	n, _ := strconv.Atoi(g.lines[s+5])
	return c.Date.Equal(time.Unix(int64(n), 0))
}

// specSame: the file change line k completes.
func specSame(g zzLog, k int, d FileDiff) bool {
	return ghost.Identical(d, g.diff[k])
}

func specOpen(g zzLog, p int) bool { return p > 0 && g.role[p-1] != zzEnd }

func specStart(g zzLog, p int) int {
	if p > 0 {
		return g.first[p-1]
	}
	return 0
}

//verif:inv ParseCommits @ParseCommits$1#seq:ParseCommits$1$1
func Inv_ParseState(p ghost.Pos, g zzLog, linesThisCommit int, diff *FileDiff, iterErr error) bool {
	q := int(p)
	if iterErr != nil {
		return false
	}
	if !specOpen(g, q) {
		return linesThisCommit == 0 && diff == nil
	}
	r := g.role[q-1]
	return linesThisCommit == q-specStart(g, q) &&
		(diff == nil) == (r != zzRenamed && r != zzFrom) &&
		ghost.Imp(r == zzRenamed, func() bool {
			return diff.Path == "" && diff.LinesAdded == g.diff[q-1].LinesAdded && diff.LinesRemoved == g.diff[q-1].LinesRemoved
		}) &&
		ghost.Imp(r == zzFrom, func() bool {
			return diff.Path != "" && diff.LinesAdded == g.diff[q-1].LinesAdded && diff.LinesRemoved == g.diff[q-1].LinesRemoved
		})
}

//verif:inv ParseCommits @ParseCommits$1#seq:ParseCommits$1$1
func Inv_ParseRole(p ghost.Pos, g zzLog) bool {
	q := int(p)
	f := specStart(g, q)
	return q <= len(g.lines) && q <= g.bad && ghost.Imp(specOpen(g, q), func() bool {
		return ghost.Imp(q-f <= 6, func() bool { return g.role[q-1] == q-f-1 }) && ghost.Imp(q-f > 6, func() bool { return g.role[q-1] > zzDate })
	})
}

//verif:inv ParseCommits @ParseCommits$1#seq:ParseCommits$1$1
func Inv_ParseCommit(p ghost.Pos, g zzLog, commit Commit) bool {
	q := int(p)
	if !specOpen(g, q) {
		return len(commit.FileDiffs) == 0
	}
	f := specStart(g, q)
	n := q - f
	return commit.Hash == g.lines[f] &&
		ghost.Imp(n > 1, func() bool { return commit.ShortHash == g.lines[f+1] }) &&
		ghost.Imp(n > 2, func() bool { return commit.IsMerge == strings.Contains(g.lines[f+2], " ") }) &&
		ghost.Imp(n > 3, func() bool { return commit.AuthorName == g.lines[f+3] }) &&
		ghost.Imp(n > 4, func() bool { return commit.AuthorEmail == g.lines[f+4] }) &&
		ghost.Imp(n > 5, func() bool { return specDated(g, f, commit) }) &&
		len(commit.FileDiffs) == g.nth[q-1]
}

//verif:inv ParseCommits @ParseCommits$1#seq:ParseCommits$1$1
func Inv_ParseChange(p ghost.Pos, g zzLog, commit Commit, k0 int) bool {
	q := int(p)
	return ghost.Imp(specOpen(g, q) && specStart(g, q) < k0 && k0 < q && (g.role[k0] == zzChange || g.role[k0] == zzTo), func() bool {
		i := g.nth[k0] - 1
		return 0 <= i && i < len(commit.FileDiffs) && specSame(g, k0, commit.FileDiffs[i])
	})
}

//verif:inv ParseCommits @ParseCommits$1#seq:ParseCommits$1$1
func Inv_ParseCount(p ghost.Pos, g zzLog, out []Commit, now time.Time) bool {
	q := int(p)
	f := specStart(g, q)
	if q == 0 {
		return len(out) == 0
	}
	return ghost.Imp(specOpen(g, q) || !specAdmitted(g, f, now), func() bool { return len(out) == g.out[f] }) &&
		ghost.Imp(!specOpen(g, q) && specAdmitted(g, f, now), func() bool { return len(out) == g.out[f]+1 })
}

// specDone: of the record asked about everything has been read.
func specDone(g zzLog, q int, now time.Time) bool {
	return g.s < g.e && (q > g.e || q == g.e && g.role[g.e-1] == zzEnd) && specAdmitted(g, g.s, now)
}

//verif:inv ParseCommits @ParseCommits$1#seq:ParseCommits$1$1
func Inv_ParseWhich(p ghost.Pos, g zzLog) bool {
	q := int(p)
	return ghost.Imp(g.s < q && q <= g.e, func() bool { return g.first[q-1] == g.s })
}

//verif:inv ParseCommits @ParseCommits$1#seq:ParseCommits$1$1
func Inv_ParseDone(p ghost.Pos, g zzLog, out []Commit, now time.Time) bool {
	return ghost.Imp(specDone(g, int(p), now), func() bool {
		i := g.out[g.s]
		return 0 <= i && i < len(out)
	})
}

//verif:inv ParseCommits @ParseCommits$1#seq:ParseCommits$1$1
func Inv_ParseFields(p ghost.Pos, g zzLog, out []Commit, now time.Time) bool {
	return ghost.Imp(specDone(g, int(p), now), func() bool {
		c := out[g.out[g.s]]
		return specFields(g, g.s, c) && specDated(g, g.s, c) && len(c.FileDiffs) == g.nth[g.e-1]
	})
}

//verif:inv ParseCommits @ParseCommits$1#seq:ParseCommits$1$1
func Inv_ParseChanges(p ghost.Pos, g zzLog, out []Commit, now time.Time, k0 int) bool {
	return ghost.Imp(specDone(g, int(p), now) && g.s < k0 && k0 < g.e && (g.role[k0] == zzChange || g.role[k0] == zzTo), func() bool {
		D := out[g.out[g.s]].FileDiffs
		j := g.nth[k0] - 1
		return 0 <= j && j < len(D) && specSame(g, k0, D[j])
	})
}

//verif:inv ParseCommits @ParseCommits$1$1#L0
func Inv_ParseParts(p ghost.Pos, parts, nonemptyParts []string) bool {
	n := int(p)
	ne := nonemptyParts
	return n <= len(parts) && len(ne) <= n &&
		ghost.Imp(n > 0 && parts[0] != "", func() bool {
			return len(ne) > 0 && ne[0] == parts[0] && ghost.Imp(n > 1 && parts[1] != "", func() bool {
				return len(ne) > 1 && ne[1] == parts[1] &&
					ghost.Imp(n > 2 && parts[2] != "", func() bool { return len(ne) == 3 && ne[2] == parts[2] }) &&
					ghost.Imp(n == 2 || n == 3 && parts[2] == "", func() bool { return len(ne) == 2 })
			})
		})
}
