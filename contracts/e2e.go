package main

// Bounded end-to-end checks of the glue that is outside the verifier's reach
// (subcommands, the goroutines of internal/concurrent, the files of the cache).
// The built program runs with a git that serves a generated history; its output
// is compared with totals worked out here from that history. Bounds: histories
// of at most 3,300 commits, five authors, sixteen paths. Never counted as proved.

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/csv"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// ---- histories ---------------------------------------------------------------

type zzDiff struct {
	Path, Old      string // Old: the path before a rename
	Added, Removed int
	Binary         bool
}

type zzCommit struct {
	Hash        string
	Merge       bool
	Name, Email string
	Date        int64
	Diffs       []zzDiff
}

func (c zzCommit) short() string { return c.Hash[:9] }

func (c zzCommit) allowed() bool {
	return !(c.Name == "" && c.Email == "") && c.Date <= time.Now().Unix()
}

type zzFault struct {
	Cmd   string // subcommand that fails: revparse-args, revparse-top, revlist, log, stdin, lsfiles, cachedir
	Nth   int    // which invocation
	After int    // records written before
	Kind  string // exit, date, count, fields, long, signal
	Sleep int    // ms
}

// inRecord: a damaged record rather than a failing command.
func (f zzFault) inRecord() bool {
	return f.Kind == "date" || f.Kind == "count" || f.Kind == "fields" || f.Kind == "long"
}

type zzWorld struct {
	Dir      string
	Commits  []zzCommit
	Tree     []string // files in the work tree
	Fault    zzFault
	Ignore   []string
	Jitter   int64
	Mailmap  bool
	NoisyErr bool
}

var zzAuthors = [][2]string{{"Ann Lee", "ann@x.org"}, {"Bob", "bob@y.net"}, {"Cid", "ann@x.org"}, {"Bob", "bob2@y.net"}, {"Zoë, \"Z\"", "zoe@x.org"}, {"Dan", "dan@w.io"}, {"Eve Q", "eve@w.io"}}

var zzPaths = []string{"a", "b.txt", "src/main.go", "src/util/x.go", "src/util/y.go", "docs/a.md", "docs/b.md", "docs/img/p.png", "lib/deep/er/z.c", "lib/deep/er/w.c", "a/inner", "with space/f", "Zed", "src/util", "één/ü", "one/two/three/four"}

func zzHash(r *rand.Rand) string {
	const hex = "0123456789abcdef"
	b := make([]byte, 40)
	for i := range b {
		b[i] = hex[r.Intn(16)]
	}
	return string(b)
}

func zzHistory(r *rand.Rand, n int) []zzCommit {
	base := []int64{1262304000, 1546300800, 1583020800, 1540000000, 1677628800}[r.Intn(5)]
	span := []int64{3600, 86400 * 3, 86400 * 40, 86400 * 70, 86400 * 500, 86400 * 3000}[r.Intn(6)]
	if base+span > 1730000000 {
		base = 1262304000
	}
	order := r.Intn(3)
	na, np := 1+r.Intn(len(zzAuthors)), 1+r.Intn(len(zzPaths))
	off := r.Intn(len(zzPaths))
	var cs []zzCommit
	for i := 0; i < n; i++ {
		a := zzAuthors[r.Intn(na)]
		c := zzCommit{Hash: zzHash(r), Name: a[0], Email: a[1], Merge: r.Intn(8) == 0}
		switch order {
		case 0:
			c.Date = base + int64(i)*span/int64(n+1)
		case 1:
			c.Date = base + r.Int63n(span)
		default:
			c.Date = base + r.Int63n(1+span/86400)*86400
		}
		k := r.Intn(4)
		if c.Merge && r.Intn(3) > 0 {
			k = 0
		}
		seen := map[string]bool{}
		for j := 0; j < k; j++ {
			p := zzPaths[(off+r.Intn(np))%len(zzPaths)]
			if seen[p] {
				continue
			}
			seen[p] = true
			d := zzDiff{Path: p, Added: r.Intn(30), Removed: r.Intn(10)}
			switch r.Intn(12) {
			case 0:
				d.Binary, d.Added, d.Removed = true, 0, 0
			case 1:
				d.Old = "old/" + p
			case 2:
				d.Added += 1000 * r.Intn(5)
			}
			c.Diffs = append(c.Diffs, d)
		}
		if r.Intn(40) == 0 {
			c.Name, c.Email = "", ""
		}
		if r.Intn(40) == 0 {
			c.Date = time.Now().Unix() + 86400*400
		}
		cs = append(cs, c)
	}
	return cs
}

func zzSize(r *rand.Rand) int {
	switch r.Intn(8) {
	case 0:
		return r.Intn(3)
	case 1:
		return []int{1024, 1023, 1025, 2048, 2049, 3000, 1500, 3300}[r.Intn(8)]
	case 2:
		return 100 + r.Intn(200)
	}
	return 1 + r.Intn(25)
}

// ---- the git the program talks to ---------------------------------------------

func init() {
	if dir := os.Getenv("ZZ_FAKEGIT"); dir != "" {
		os.Exit(zzFakeGit(dir, os.Args[1:]))
	}
}

func zzLoad(dir string) (w zzWorld) {
	b, err := os.ReadFile(filepath.Join(dir, "world"))
	if err == nil {
		err = gob.NewDecoder(bytes.NewReader(b)).Decode(&w)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "fake git:", err)
		os.Exit(99)
	}
	return w
}

type zzCall struct {
	Args  []string
	Stdin []string
}

func zzNote(dir string, c zzCall) {
	b, _ := json.Marshal(c)
	f, err := os.OpenFile(filepath.Join(dir, "calls"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err == nil {
		f.Write(append(b, '\n'))
		f.Close()
	}
}

// how many times has this kind been called before
func zzNth(dir, kind string) int {
	for i := 1; ; i++ {
		f, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("n-%s-%d", kind, i)), os.O_CREATE|os.O_EXCL, 0o644)
		if err == nil {
			f.Close()
			return i
		}
	}
}

func zzIn(p, spec string) bool {
	spec = strings.TrimSuffix(spec, "/")
	return spec == "." || p == spec || strings.HasPrefix(p, spec+"/")
}

func zzWanted(p string, specs []string) bool {
	inc, any := false, false
	for _, s := range specs {
		if x, ok := strings.CutPrefix(s, ":!"); ok {
			if zzIn(p, x) {
				return false
			}
			continue
		}
		any = true
		inc = inc || zzIn(p, s)
	}
	return inc || !any
}

// the commits git selects for these paths, with the changes it shows
func zzSelect(cs []zzCommit, specs []string) []zzCommit {
	if len(specs) == 0 {
		return cs
	}
	var out []zzCommit
	for _, c := range cs {
		var ds []zzDiff
		for _, d := range c.Diffs {
			if zzWanted(d.Path, specs) {
				ds = append(ds, d)
			}
		}
		if len(ds) > 0 {
			c.Diffs = ds
			out = append(out, c)
		}
	}
	return out
}

func zzFakeGit(dir string, args []string) int {
	w := zzLoad(dir)
	var specs []string
	rest := args
	for i, a := range args {
		if a == "--" {
			specs, rest = args[i+1:], args[:i]
			break
		}
	}
	has := func(s string) bool {
		for _, a := range rest {
			if a == s {
				return true
			}
		}
		return false
	}
	kind := args[0]
	switch {
	case kind == "rev-parse" && has("--show-toplevel"):
		kind = "revparse-top"
	case kind == "rev-parse":
		kind = "revparse-args"
	case kind == "rev-list":
		kind = "revlist"
	case kind == "ls-files":
		kind = "lsfiles"
	case kind == "log" && has("--stdin"):
		kind = "stdin"
	}
	fault := zzFault{After: -1}
	if w.Fault.Cmd == kind && zzNth(dir, kind) == w.Fault.Nth {
		fault = w.Fault
		if fault.Sleep > 0 {
			time.Sleep(time.Duration(fault.Sleep) * time.Millisecond)
		}
	}
	if w.Jitter > 0 && kind == "stdin" {
		time.Sleep(time.Duration(rand.New(rand.NewSource(time.Now().UnixNano())).Int63n(w.Jitter)) * time.Millisecond)
	}
	var out bytes.Buffer
	defer func() { os.Stdout.Write(out.Bytes()) }()
	fail := func() int {
		os.Stdout.Write(out.Bytes())
		out.Reset()
		if fault.Kind == "signal" {
			p, _ := os.FindProcess(os.Getpid())
			p.Kill()
			time.Sleep(time.Second)
		}
		fmt.Fprintln(os.Stderr, "fatal: injected failure")
		return 128
	}
	call := zzCall{Args: args}
	switch kind {
	case "config":
		zzNote(dir, call)
		return 1
	case "revparse-top":
		zzNote(dir, call)
		if fault.After >= 0 {
			return fail()
		}
		fmt.Fprintln(&out, filepath.Join(w.Dir, "repo"))
	case "revparse-args":
		zzNote(dir, call)
		if fault.After >= 0 {
			return fail()
		}
		tip := strings.Repeat("f", 40)
		past := false
		for _, a := range args[2:] {
			switch {
			case past:
				fmt.Fprintln(&out, a)
			case a == "HEAD":
				fmt.Fprintln(&out, tip)
			case len(a) == 40 && strings.Trim(a, "0123456789abcdef") == "":
				fmt.Fprintln(&out, a)
			case strings.HasSuffix(a, "..HEAD"):
				fmt.Fprintf(&out, "%s\n^%s\n", tip, a[:40])
			default:
				past = true
				fmt.Fprintln(&out, a)
			}
		}
	case "lsfiles":
		zzNote(dir, call)
		sub, _ := os.Getwd()
		root, _ := filepath.EvalSymlinks(filepath.Join(w.Dir, "repo"))
		sub, _ = filepath.EvalSymlinks(sub)
		rel, _ := filepath.Rel(root, sub)
		for i, p := range w.Tree {
			if fault.After >= 0 && i >= fault.After {
				return fail()
			}
			if rel != "." {
				q, ok := strings.CutPrefix(p, rel+"/")
				if !ok {
					continue
				}
				p = q
			}
			if zzWanted(p, specs) {
				fmt.Fprintf(&out, "%s\x00", p)
			}
		}
		if fault.After >= 0 {
			return fail()
		}
	case "revlist":
		zzNote(dir, call)
		for i, c := range zzSelect(w.Commits, specs) {
			if fault.After >= 0 && i >= fault.After && !fault.inRecord() {
				return fail()
			}
			fmt.Fprintln(&out, c.Hash)
		}
		if fault.After >= 0 && fault.inRecord() {
			// more than a line scanner takes, and a clean exit
			fmt.Fprintln(&out, strings.Repeat("e", 66000))
		} else if fault.After >= 0 {
			return fail()
		}
	case "log", "stdin":
		cs := zzSelect(w.Commits, specs)
		if kind == "stdin" {
			b, _ := io.ReadAll(os.Stdin)
			call.Stdin = strings.Fields(string(b))
			by := map[string]zzCommit{}
			for _, c := range w.Commits {
				by[c.Hash] = c
			}
			cs = nil
			for _, h := range call.Stdin {
				if c, ok := by[h]; ok {
					cs = append(cs, c)
				}
			}
		}
		zzNote(dir, call)
		num := has("--numstat")
		for i, c := range cs {
			if fault.After >= 0 && i >= fault.After && !fault.inRecord() {
				return fail()
			}
			if i > 0 {
				out.WriteByte(0)
			}
			parents := "1234567"
			if c.Merge {
				parents += " 89abcde"
			}
			date := strconv.FormatInt(c.Date, 10)
			bad := fault.After >= 0 && i == fault.After
			if bad && fault.Kind == "date" {
				date = "yesterday"
			}
			name := c.Name
			if bad && fault.Kind == "long" {
				name = strings.Repeat("n", 70000)
			}
			fmt.Fprintf(&out, "%s\x00%s\x00%s\x00%s\x00%s\x00%s\x00", c.Hash, c.short(), parents, name, c.Email, date)
			if !num {
				continue
			}
			nl := "\n"
			for _, d := range c.Diffs {
				add, del := strconv.Itoa(d.Added), strconv.Itoa(d.Removed)
				if d.Binary {
					add, del = "-", "-"
				}
				if d.Old != "" {
					fmt.Fprintf(&out, "%s%s\t%s\t\x00%s\x00%s\x00", nl, add, del, d.Old, d.Path)
				} else {
					fmt.Fprintf(&out, "%s%s\t%s\t%s\x00", nl, add, del, d.Path)
				}
				nl = ""
			}
			if bad && fault.Kind == "count" {
				fmt.Fprintf(&out, "%s%s\t%s\t%s\x00", nl, "1x", "2", "f")
			}
			if bad && fault.Kind == "fields" {
				fmt.Fprintf(&out, "%snonsense\x00", nl)
			}
		}
		if fault.After >= 0 && !fault.inRecord() {
			return fail()
		}
		if fault.Kind == "cachedir" {
			c := filepath.Join(w.Dir, "cache", "git-who", "gob")
			os.RemoveAll(c)
			os.WriteFile(c, []byte("x"), 0o644)
		}
	default:
		zzNote(dir, call)
		return 1
	}
	return 0
}

// ---- running the program -------------------------------------------------------

var (
	zzOnce sync.Once
	zzBin  string
	zzSem  = make(chan bool, 8)
)

type zzBad string

// zzProgram builds the program from the current tree.
func zzProgram() string {
	zzOnce.Do(func() {
		dir, err := os.MkdirTemp("", "e2e")
		if err != nil {
			panic(err)
		}
		zzBin = filepath.Join(dir, "git-who")
		wd, _ := os.Getwd()
		cmd := exec.Command("go", "build", "-o", zzBin, ".")
		cmd.Dir = wd
		if b, err := cmd.CombinedOutput(); err != nil {
			panic("the program does not build: " + string(b))
		}
		exe, err := os.Executable()
		if err != nil {
			panic(err)
		}
		if err := os.Symlink(exe, filepath.Join(dir, "git")); err != nil {
			panic(err)
		}
	})
	return zzBin
}

type zzRun struct {
	Out, Err string
	Code     int
	Hang     bool
}

func zzNew(w *zzWorld) {
	zzProgram()
	dir, err := os.MkdirTemp("", "world")
	if err != nil {
		panic(err)
	}
	w.Dir = dir
	os.MkdirAll(filepath.Join(dir, "repo", "src", "util"), 0o755)
	os.MkdirAll(filepath.Join(dir, "repo", "docs"), 0o755)
	if w.Ignore != nil {
		os.WriteFile(filepath.Join(dir, "repo", ".git-blame-ignore-revs"), []byte(strings.Join(w.Ignore, "\n")+"\n"), 0o644)
	}
	if w.Mailmap {
		os.WriteFile(filepath.Join(dir, "repo", ".mailmap"), []byte("A <a@b>\n"), 0o644)
	}
	w.save()
}

func (w *zzWorld) save() {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(w); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(w.Dir, "world"), b.Bytes(), 0o644); err != nil {
		panic(err)
	}
	// counters and the record of calls start afresh
	ms, _ := filepath.Glob(filepath.Join(w.Dir, "n-*"))
	for _, m := range append(ms, filepath.Join(w.Dir, "calls")) {
		os.Remove(m)
	}
}

func (w *zzWorld) done() { os.RemoveAll(w.Dir) }

func (w *zzWorld) calls() []zzCall {
	b, _ := os.ReadFile(filepath.Join(w.Dir, "calls"))
	var out []zzCall
	for _, l := range strings.Split(string(b), "\n") {
		var c zzCall
		if l != "" && json.Unmarshal([]byte(l), &c) == nil {
			out = append(out, c)
		}
	}
	return out
}

func (w *zzWorld) run(procs int, tz, sub string, args ...string) zzRun {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, zzBin, args...)
	cmd.Dir = filepath.Join(w.Dir, "repo", sub)
	cmd.Env = []string{"HOME=" + w.Dir, "XDG_CACHE_HOME=" + filepath.Join(w.Dir, "cache"), "PATH=" + filepath.Dir(zzBin) + ":" + os.Getenv("PATH"),
		"ZZ_FAKEGIT=" + w.Dir, fmt.Sprintf("GOMAXPROCS=%d", procs), "TZ=" + tz, "PWD=" + cmd.Dir}
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	cmd.WaitDelay = 5 * time.Second
	err := cmd.Run()
	r := zzRun{Out: out.String(), Err: er.String()}
	if err != nil {
		r.Code = -1
		if e, ok := err.(*exec.ExitError); ok {
			r.Code = e.ExitCode()
		}
		r.Hang = ctx.Err() != nil
	}
	return r
}

// many runs f on n seeds at a time and reports the first complaint.
func zzMany(seed int64, n int, f func(r *rand.Rand) string) {
	zzProgram()
	msgs := make([]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					msgs[i] = fmt.Sprint(e)
				}
			}()
			msgs[i] = f(rand.New(rand.NewSource(seed*1000 + int64(i))))
		}()
	}
	wg.Wait()
	for i, m := range msgs {
		if m != "" {
			panic(fmt.Sprintf("seed %d.%d: %s", seed, i, m))
		}
	}
}

type zzSeed int64

var _ = ghost.Gen(func(r *ghost.Rand) zzSeed { return zzSeed(r.Int63n(1 << 40)) })

// ---- what the totals should be --------------------------------------------------

type zzTot struct {
	Commits       map[string]bool
	Added, Rem    int
	Files         map[string]bool
	First, Last   int64
	Names, Emails map[string]bool
}

type zzOpts struct {
	Mode   string // "", l, f, m, c
	Email  bool
	Merges bool
}

func (o zzOpts) diff() bool { return o.Mode == "l" || o.Mode == "f" }

func (o zzOpts) key(c zzCommit) string {
	if o.Email {
		return c.Email
	}
	return c.Name
}

func (o zzOpts) args() []string {
	var a []string
	if o.Mode != "" {
		a = append(a, "-"+o.Mode)
	}
	if o.Email {
		a = append(a, "-e")
	}
	if o.Merges {
		a = append(a, "--merges")
	}
	return a
}

func zzAdd(m map[string]*zzTot, k string, c zzCommit, ds []zzDiff) {
	t := m[k]
	if t == nil {
		t = &zzTot{Commits: map[string]bool{}, Files: map[string]bool{}, First: c.Date, Last: c.Date, Names: map[string]bool{}, Emails: map[string]bool{}}
		m[k] = t
	}
	t.Commits[c.Hash] = true
	t.First, t.Last = min(t.First, c.Date), max(t.Last, c.Date)
	t.Names[c.Name], t.Emails[c.Email] = true, true
	if !c.Merge {
		for _, d := range ds {
			t.Added += d.Added
			t.Rem += d.Removed
			t.Files[d.Path] = true
		}
	}
}

func (w *zzWorld) counted(o zzOpts, specs []string) []zzCommit {
	ign := map[string]bool{}
	for _, l := range w.Ignore {
		l, _, _ = strings.Cut(l, "#")
		ign[strings.TrimSpace(l)] = true
	}
	var out []zzCommit
	for _, c := range zzSelect(w.Commits, specs) {
		if c.allowed() && !ign[c.Hash] && (!c.Merge || o.Merges) {
			out = append(out, c)
		}
	}
	return out
}

func (w *zzWorld) totals(o zzOpts, specs []string) map[string]*zzTot {
	m := map[string]*zzTot{}
	for _, c := range w.counted(o, specs) {
		zzAdd(m, o.key(c), c, c.Diffs)
	}
	return m
}

func (t *zzTot) metric(mode string) int64 {
	switch mode {
	case "l":
		return int64(t.Added + t.Rem)
	case "f":
		return int64(len(t.Files))
	case "m":
		return t.Last
	case "c":
		return -t.First
	}
	return int64(len(t.Commits))
}

var zzAnsi = regexp.MustCompile("\x1b\\[[0-9;]*[A-Za-z]")

func zzLines(s string) []string {
	var out []string
	for _, l := range strings.Split(zzAnsi.ReplaceAllString(s, ""), "\n") {
		if l != "" {
			out = append(out, l)
		}
	}
	return out
}

func zzCut(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func (w *zzWorld) about(what string, args []string, procs int, r zzRun) string {
	s := fmt.Sprintf("%s\n  command: git who %s (GOMAXPROCS=%d), exit code %d, fault %+v\n  stderr: %s\n  stdout: %s\n  history of %d commits", what, strings.Join(args, " "), procs, r.Code, w.Fault, zzCut(r.Err), zzCut(r.Out), len(w.Commits))
	for i, c := range w.Commits {
		if i >= 12 {
			s += "\n    ..."
			break
		}
		s += fmt.Sprintf("\n    %s merge=%v %q <%s> %d %v", c.short(), c.Merge, c.Name, c.Email, c.Date, c.Diffs)
	}
	if r.Hang {
		s = "does not terminate: " + s
	}
	return s
}

// checkCsv compares the rows of --csv -n 0 with the totals.
func zzCheckCsv(out string, o zzOpts, want map[string]*zzTot) string {
	rows, err := csv.NewReader(strings.NewReader(out)).ReadAll()
	if err != nil || len(rows) == 0 {
		return fmt.Sprintf("not CSV: %v", err)
	}
	col := map[string]int{}
	for i, h := range rows[0] {
		col[h] = i
	}
	need := []string{"name", "commits", "last commit time", "first commit time"}
	if o.Email {
		need = append(need, "email")
	}
	if o.diff() {
		need = append(need, "lines added", "lines removed", "files")
	}
	if len(need) != len(col) || len(col) != len(rows[0]) {
		return fmt.Sprintf("the header is %v", rows[0])
	}
	for _, n := range need {
		if _, ok := col[n]; !ok {
			return fmt.Sprintf("the header %v lacks %s", rows[0], n)
		}
	}
	seen := map[string]bool{}
	var prev *zzTot
	for _, row := range rows[1:] {
		get := func(n string) string { return row[col[n]] }
		k := get("name")
		if o.Email {
			k = get("email")
		}
		t := want[k]
		if t == nil {
			return fmt.Sprintf("a row for %q, who has no counted commit", k)
		}
		if seen[k] {
			return fmt.Sprintf("two rows for %q", k)
		}
		seen[k] = true
		if !t.Names[get("name")] {
			return fmt.Sprintf("wrong name in %v", row)
		}
		for n, v := range map[string]int{"commits": len(t.Commits), "lines added": t.Added, "lines removed": t.Rem, "files": len(t.Files)} {
			if _, ok := col[n]; ok && get(n) != strconv.Itoa(v) {
				return fmt.Sprintf("%s of %q: %s, should be %d", n, k, get(n), v)
			}
		}
		for n, v := range map[string]int64{"first commit time": t.First, "last commit time": t.Last} {
			d, err := time.Parse(time.RFC3339, get(n))
			if err != nil || d.Unix() != v {
				return fmt.Sprintf("%s of %q: %s, should be %s", n, k, get(n), time.Unix(v, 0).UTC())
			}
		}
		if prev != nil && (prev.metric(o.Mode) < t.metric(o.Mode) || prev.metric(o.Mode) == t.metric(o.Mode) && prev.Last < t.Last) {
			return fmt.Sprintf("%q is ranked too low", k)
		}
		prev = t
	}
	if len(seen) != len(want) {
		return fmt.Sprintf("%d rows, should be %d", len(seen), len(want))
	}
	return ""
}

func zzPick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

func zzWorldOf(r *rand.Rand, n int) *zzWorld {
	w := &zzWorld{Commits: zzHistory(r, n)}
	for _, p := range zzPaths {
		if r.Intn(3) > 0 {
			w.Tree = append(w.Tree, p)
		}
	}
	if r.Intn(3) == 0 {
		w.Jitter = 1 + r.Int63n(20)
	}
	w.Mailmap = r.Intn(8) == 0
	zzNew(w)
	return w
}

func zzProcs(r *rand.Rand) int { return []int{1, 2, 3, 8}[r.Intn(4)] }

func zzTable(r *rand.Rand, mode string, n int, procs int) string {
	w := zzWorldOf(r, n)
	defer w.done()
	o := zzOpts{Mode: mode, Email: r.Intn(2) == 0, Merges: r.Intn(2) == 0}
	args := append([]string{"table", "--csv", "-n", "0"}, o.args()...)
	x := w.run(procs, "UTC", "", args...)
	if x.Code != 0 {
		return w.about("the command fails", args, procs, x)
	}
	if m := zzCheckCsv(x.Out, o, w.totals(o, nil)); m != "" {
		return w.about(m, args, procs, x)
	}
	return ""
}

// Totals of git who table, by commits and by date.
//
//verif:property C01 C17 C12
//verif:runs 12
func Bounded_TableCommits(seed zzSeed) {
	zzMany(int64(seed), 16, func(r *rand.Rand) string {
		return zzTable(r, zzPick(r, "", "", "m", "c"), zzSize(r), zzProcs(r))
	})
}

// Totals of git who table with file changes, one process or many.
//
//verif:property C02 C17 C12
//verif:runs 12
func Bounded_TableDiffs(seed zzSeed) {
	zzMany(int64(seed), 16, func(r *rand.Rand) string {
		return zzTable(r, zzPick(r, "l", "f"), zzSize(r), zzProcs(r))
	})
}

// Batches, a warm cache and several workers give the same totals.
//
//verif:property C03 C05
//verif:runs 10
func Bounded_Batches(seed zzSeed) {
	zzMany(int64(seed), 12, func(r *rand.Rand) string {
		n := 1 + r.Intn(60)
		if r.Intn(3) == 0 {
			n = []int{1023, 1024, 1025, 2048, 2049, 2500, 3100}[r.Intn(7)]
		}
		w := zzWorldOf(r, n)
		defer w.done()
		all := w.Commits
		if r.Intn(3) == 0 {
			for i := 0; i < 3; i++ {
				w.Ignore = append(w.Ignore, all[r.Intn(n)].Hash)
			}
			os.WriteFile(filepath.Join(w.Dir, "repo", ".git-blame-ignore-revs"), []byte(strings.Join(w.Ignore, "\n")+"\n"), 0o644)
		}
		cached := map[string]bool{}
		for step := 0; step < 3; step++ {
			// a growing selection, the last one is everything
			w.Commits = nil
			p := r.Intn(4)
			for _, c := range all {
				if step == 2 || r.Intn(4) < p {
					w.Commits = append(w.Commits, c)
				}
			}
			w.save()
			o := zzOpts{Mode: zzPick(r, "l", "f"), Email: r.Intn(2) == 0, Merges: r.Intn(2) == 0}
			procs := []int{2, 3, 8}[r.Intn(3)]
			args := append([]string{"table", "--csv", "-n", "0"}, o.args()...)
			x := w.run(procs, "UTC", "", args...)
			if x.Code != 0 {
				return w.about("the command fails", args, procs, x)
			}
			if m := zzCheckCsv(x.Out, o, w.totals(o, nil)); m != "" {
				return w.about(fmt.Sprintf("run %d with the cache: %s", step+1, m), args, procs, x)
			}
			ign := map[string]bool{}
			for _, h := range w.Ignore {
				ign[h] = true
			}
			asked := map[string]int{}
			for _, c := range w.calls() {
				for _, h := range c.Stdin {
					asked[h]++
				}
			}
			for _, c := range w.Commits {
				want := 1
				if ign[c.Hash] || cached[c.Hash] {
					want = 0
				}
				if asked[c.Hash] != want {
					return w.about(fmt.Sprintf("run %d: revision %s (cached %v, ignored %v) handed to a worker %d times", step+1, c.short(), cached[c.Hash], ign[c.Hash], asked[c.Hash]), args, procs, x)
				}
				delete(asked, c.Hash)
				if c.allowed() && !ign[c.Hash] {
					cached[c.Hash] = true
				}
			}
			if len(asked) > 0 {
				return w.about("a worker was handed a revision that was not selected", args, procs, x)
			}
		}
		return ""
	})
}

// Ignored commits are left out, with one process or many.
//
//verif:property C10
//verif:runs 8
func Bounded_Ignored(seed zzSeed) {
	zzMany(int64(seed), 12, func(r *rand.Rand) string {
		n := 1 + r.Intn(30)
		w := zzWorldOf(r, n)
		defer w.done()
		for i := r.Intn(6); i > 0; i-- {
			h := w.Commits[r.Intn(n)].Hash
			if r.Intn(3) == 0 {
				h = zzHash(r)
			}
			w.Ignore = append(w.Ignore, zzPick(r, h, h, "  "+h+"\t", h+" # why", "# "+h, h[:39], ""))
		}
		os.WriteFile(filepath.Join(w.Dir, "repo", ".git-blame-ignore-revs"), []byte(strings.Join(w.Ignore, "\n")+"\n"), 0o644)
		w.save()
		o := zzOpts{Mode: zzPick(r, "", "l", "f", "m", "c"), Email: r.Intn(2) == 0, Merges: r.Intn(2) == 0}
		procs := zzProcs(r)
		args := append([]string{"table", "--csv", "-n", "0"}, o.args()...)
		x := w.run(procs, "UTC", "", args...)
		if x.Code != 0 {
			return w.about("the command fails", args, procs, x)
		}
		if m := zzCheckCsv(x.Out, o, w.totals(o, nil)); m != "" {
			return w.about(m+fmt.Sprintf(" (ignore file %q)", w.Ignore), args, procs, x)
		}
		return ""
	})
}

// Path filters reach the totals.
//
//verif:property C11 C05
//verif:runs 8
func Bounded_Paths(seed zzSeed) {
	zzMany(int64(seed), 12, func(r *rand.Rand) string {
		w := zzWorldOf(r, 1+r.Intn(40))
		defer w.done()
		// what one run leaves in the cache serves another one with other paths
		for step := 1 + r.Intn(2); step > 0; step-- {
			var specs []string
			for i := r.Intn(4); i > 0; i-- {
				specs = append(specs, zzPick(r, "", "", ":!")+zzPick(r, "src", "src/util", "docs", "a", "b.txt", "lib/", "Zed", "docs/a.md"))
			}
			o := zzOpts{Mode: zzPick(r, "", "l", "f", "f", "m"), Email: r.Intn(2) == 0, Merges: r.Intn(2) == 0}
			procs := zzProcs(r)
			args := append([]string{"table", "--csv", "-n", "0"}, o.args()...)
			if len(specs) > 0 {
				args = append(append(args, "--"), specs...)
			}
			x := w.run(procs, "UTC", "", args...)
			if x.Code != 0 {
				return w.about("the command fails", args, procs, x)
			}
			if m := zzCheckCsv(x.Out, o, w.totals(o, specs)); m != "" {
				return w.about(m, args, procs, x)
			}
		}
		return ""
	})
}

// A row limit keeps the top rows and says how many it left out.
//
//verif:property C12
//verif:runs 8
func Bounded_Limit(seed zzSeed) {
	zzMany(int64(seed), 12, func(r *rand.Rand) string {
		w := zzWorldOf(r, r.Intn(60))
		defer w.done()
		o := zzOpts{Mode: zzPick(r, "", "l", "f", "m", "c"), Merges: r.Intn(2) == 0}
		limit := r.Intn(8)
		procs := zzProcs(r)
		want := w.totals(o, nil)
		var ms []*zzTot
		for _, t := range want {
			ms = append(ms, t)
		}
		sort.Slice(ms, func(i, j int) bool {
			a, b := ms[i].metric(o.Mode), ms[j].metric(o.Mode)
			return a > b || a == b && ms[i].Last > ms[j].Last
		})
		n := len(ms)
		if limit > 0 {
			n = min(n, limit)
		}
		if r.Intn(2) == 0 {
			args := append([]string{"table", "--csv", "-n", strconv.Itoa(limit)}, o.args()...)
			x := w.run(procs, "UTC", "", args...)
			rows, err := csv.NewReader(strings.NewReader(x.Out)).ReadAll()
			if x.Code != 0 || err != nil || len(rows) != n+1 {
				return w.about(fmt.Sprintf("%d rows, should be %d", len(rows)-1, n), args, procs, x)
			}
			for i, row := range rows[1:] {
				t := want[row[0]]
				if t == nil || t.metric(o.Mode) != ms[i].metric(o.Mode) || t.Last != ms[i].Last {
					return w.about(fmt.Sprintf("row %d is %q", i, row[0]), args, procs, x)
				}
			}
			return ""
		}
		args := append([]string{"table", "-n", strconv.Itoa(limit)}, o.args()...)
		x := w.run(procs, "UTC", "", args...)
		if x.Code != 0 {
			return w.about("the command fails", args, procs, x)
		}
		ls := zzLines(x.Out)
		if n == 0 {
			if len(ls) != 0 {
				return w.about("output for an empty history", args, procs, x)
			}
			return ""
		}
		left := len(ms) - n
		body := ls[min(3, len(ls)) : len(ls)-1]
		if left > 0 {
			if len(body) == 0 || !strings.Contains(body[len(body)-1], fmt.Sprintf("...%d more...", left)) {
				return w.about(fmt.Sprintf("%d rows left out are not reported", left), args, procs, x)
			}
			body = body[:len(body)-1]
		}
		if len(body) != n {
			return w.about(fmt.Sprintf("%d rows, should be %d", len(body), n), args, procs, x)
		}
		for i, l := range body {
			ok := false
			for k, t := range want {
				ok = ok || strings.HasPrefix(l, "│"+k+" ") && t.metric(o.Mode) == ms[i].metric(o.Mode) && t.Last == ms[i].Last
			}
			if !ok {
				return w.about(fmt.Sprintf("row %d is out of place", i), args, procs, x)
			}
		}
		return ""
	})
}

// ---- failures ---------------------------------------------------------------------

// Every injected failure is reported and nothing is printed; a damaged cache
// changes nothing.
//
//verif:property C06
//verif:runs 14
func Bounded_Failures(seed zzSeed) {
	zzMany(int64(seed), 16, func(r *rand.Rand) string {
		n := r.Intn(20)
		if r.Intn(3) == 0 {
			n = []int{1025, 2100, 3200}[r.Intn(3)]
		}
		w := zzWorldOf(r, n)
		defer w.done()
		procs := zzProcs(r)
		sub := zzPick(r, "table", "tree", "hist")
		o := zzOpts{Mode: zzPick(r, "l", "f", ""), Merges: r.Intn(2) == 0}
		par := procs > 1 && (sub == "tree" || o.diff())
		f := zzFault{Nth: 1, Kind: zzPick(r, "exit", "exit", "signal"), Sleep: r.Intn(2) * r.Intn(30)}
		kinds := []string{"revparse-args", "revparse-top"}
		if sub == "tree" {
			kinds = append(kinds, "lsfiles")
		}
		if par {
			kinds = append(kinds, "revlist", "revlist")
			for i := 0; i < 6 && n > 0; i++ {
				kinds = append(kinds, "stdin")
			}
		} else {
			for i := 0; i < 6; i++ {
				kinds = append(kinds, "log")
			}
		}
		f.Cmd = kinds[r.Intn(len(kinds))]
		size := n
		if f.Cmd == "stdin" {
			f.Nth = 1 + r.Intn((n+1023)/1024)
			size = n - 1024*((n+1023)/1024-1)
		}
		if f.Cmd == "lsfiles" {
			size = len(w.Tree)
		}
		f.After = r.Intn(size + 1)
		if (f.Cmd == "log" || f.Cmd == "stdin") && size > 0 && r.Intn(2) == 0 {
			f.Kind = zzPick(r, "date", "count", "fields", "long")
			if !o.diff() && sub != "tree" {
				f.Kind = zzPick(r, "date", "long")
			}
			f.After = r.Intn(size)
		}
		if f.Cmd == "revlist" && r.Intn(2) == 0 {
			f.Kind = "long"
		}
		w.Fault = f
		w.save()
		args := append([]string{sub}, o.args()...)
		if sub == "table" && r.Intn(2) == 0 {
			args = append(args, "--csv")
		}
		x := w.run(procs, "UTC", "", args...)
		if x.Hang || x.Code == 0 || len(zzLines(x.Out)) > 0 || strings.Contains(x.Err, "goroutine ") {
			return w.about("a failure of git is not reported as an error", args, procs, x)
		}
		return ""
	})
}

// A failure to store commits is reported.
//
//verif:property C06
//verif:runs 4
func Bounded_CacheWriteFails(seed zzSeed) {
	zzMany(int64(seed), 12, func(r *rand.Rand) string {
		n := 1 + r.Intn(20)
		if r.Intn(3) == 0 {
			n = []int{1025, 2100, 3200}[r.Intn(3)]
		}
		w := zzWorldOf(r, n)
		defer w.done()
		any := false
		for _, c := range w.Commits {
			any = any || c.allowed()
		}
		if !any {
			return ""
		}
		w.Fault = zzFault{Cmd: "stdin", Nth: 1, After: -1, Kind: "cachedir"}
		w.save()
		args := []string{zzPick(r, "table", "tree", "hist"), "-l"}
		x := w.run(2, "UTC", "", args...)
		ok := false
		for _, c := range w.calls() {
			for _, h := range c.Stdin {
				for _, k := range w.Commits {
					ok = ok || k.Hash == h && k.allowed()
				}
			}
		}
		if ok && n <= 1024 && (x.Hang || x.Code == 0 || len(zzLines(x.Out)) > 0) {
			return w.about("a failed cache write is not reported as an error", args, 2, x)
		}
		return ""
	})
}

// Nothing selected is an empty result, not a crash.
//
//verif:property C06
//verif:runs 6
func Bounded_Empty(seed zzSeed) {
	zzMany(int64(seed), 12, func(r *rand.Rand) string {
		n := r.Intn(4)
		w := zzWorldOf(r, n)
		defer w.done()
		switch r.Intn(3) {
		case 0: // everything ignored
			for _, c := range w.Commits {
				w.Ignore = append(w.Ignore, c.Hash)
			}
			if n > 0 {
				os.WriteFile(filepath.Join(w.Dir, "repo", ".git-blame-ignore-revs"), []byte(strings.Join(w.Ignore, "\n")+"\n"), 0o644)
			}
		case 1: // only merges, which do not count
			for i := range w.Commits {
				w.Commits[i].Merge = true
			}
		default:
			w.Commits = nil
		}
		w.save()
		procs := zzProcs(r)
		o := zzOpts{Mode: zzPick(r, "l", "f", "")}
		sub := zzPick(r, "table", "tree", "hist")
		args := append([]string{sub}, o.args()...)
		if r.Intn(2) == 0 {
			args = append(args, strings.Repeat("f", 40))
		}
		x := w.run(procs, "UTC", "", args...)
		bad := x.Hang || x.Code != 0
		for _, l := range zzLines(x.Out) {
			bad = bad || sub != "hist" || !strings.HasSuffix(l, " ┤ ")
		}
		if bad {
			return w.about("an empty selection is not an empty result", args, procs, x)
		}
		return ""
	})
}

// A damaged cache is put aside; totals do not change.
//
//verif:property C07 C06 C05
//verif:runs 10
func Bounded_DamagedCache(seed zzSeed) {
	zzMany(int64(seed), 12, func(r *rand.Rand) string {
		w := zzWorldOf(r, 1+r.Intn(40))
		defer w.done()
		all := w.Commits
		o := zzOpts{Mode: zzPick(r, "l", "f"), Merges: true}
		args := append([]string{"table", "--csv", "-n", "0"}, o.args()...)
		for step := 0; step < 5; step++ {
			// a growing selection makes the cache hold several additions
			w.Commits = all[:len(all)*min(step+1, 3)/3]
			w.save()
			x := w.run(4, "UTC", "", args...)
			if x.Code != 0 {
				return w.about(fmt.Sprintf("run %d fails", step+1), args, 4, x)
			}
			if m := zzCheckCsv(x.Out, o, w.totals(o, nil)); m != "" {
				return w.about(fmt.Sprintf("run %d: %s", step+1, m), args, 4, x)
			}
			ms, _ := filepath.Glob(filepath.Join(w.Dir, "cache", "git-who", "gob", "*", "*"))
			for _, m := range ms {
				b, _ := os.ReadFile(m)
				switch r.Intn(6) {
				case 0:
					b = b[:r.Intn(len(b)+1)]
				case 1:
					if len(b) > 0 {
						b[r.Intn(len(b))] ^= byte(1 + r.Intn(255))
					}
				case 2:
					b = append(b, "junk"...)
				case 3, 4:
					// damage under an intact compression
					zr, err := gzip.NewReader(bytes.NewReader(b))
					if err != nil {
						break
					}
					raw, err := io.ReadAll(zr)
					if err != nil {
						break
					}
					switch r.Intn(4) {
					case 0:
						raw = raw[:r.Intn(len(raw)+1)]
					case 1:
						raw = append(raw, 1, 2)
					case 2:
						raw = append(raw, 3, 0, 0, 0, 255, 255, 255)
					default:
						raw = append(raw, raw...)
					}
					var z bytes.Buffer
					zw := gzip.NewWriter(&z)
					zw.Write(raw)
					zw.Close()
					b = z.Bytes()
				}
				os.WriteFile(m, b, 0o644)
			}
		}
		return ""
	})
}

// ---- the tree ------------------------------------------------------------------------

type zzNode struct {
	kids map[string]*zzNode
	in   bool
	tots map[string]*zzTot
}

func zzTree(w *zzWorld, o zzOpts, sub string) *zzNode {
	node := func() *zzNode { return &zzNode{kids: map[string]*zzNode{}, tots: map[string]*zzTot{}} }
	root := node()
	root.in = true
	intree := map[string]bool{}
	for _, p := range w.Tree {
		intree[p] = true
	}
	for _, c := range w.counted(o, nil) {
		ds := c.Diffs
		if len(ds) == 0 {
			if sub == "" {
				zzAdd(root.tots, o.key(c), c, nil)
				if root.kids[""] == nil {
					root.kids[""] = node()
				}
			}
			continue
		}
		for _, d := range ds {
			p := d.Path
			if sub != "" {
				q, ok := strings.CutPrefix(p, sub+"/")
				if !ok {
					continue
				}
				p = q
			}
			n := root
			zzAdd(n.tots, o.key(c), c, []zzDiff{d})
			for _, s := range strings.Split(p, "/") {
				if n.kids[s] == nil {
					n.kids[s] = node()
				}
				n = n.kids[s]
				n.in = n.in || intree[d.Path]
				zzAdd(n.tots, o.key(c), c, []zzDiff{d})
			}
		}
	}
	return root
}

type zzTreeLine struct {
	level int
	path  string
	dir   bool
	node  *zzNode
	up    int // the line of the nearest directory above
}

func (n *zzNode) lines(path string, depth, level, up, max int, all bool, out []zzTreeLine) []zzTreeLine {
	if path == "" || depth > max {
		return out
	}
	if depth < max && len(n.kids) == 1 {
		for k, c := range n.kids {
			if k != "" {
				k = filepath.Join(path, k)
			}
			return c.lines(k, depth+1, level, up, max, all, out)
		}
	}
	if n.in || all {
		out = append(out, zzTreeLine{level: level, path: path, dir: len(n.kids) > 0, node: n, up: up})
		up = len(out) - 1
	}
	var ks []string
	for k := range n.kids {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := len(n.kids[ks[i]].kids) > 0, len(n.kids[ks[j]].kids) > 0
		if a != b {
			return a
		}
		return ks[i] < ks[j]
	})
	for _, k := range ks {
		out = n.kids[k].lines(k, depth+1, level+1, up, max, all, out)
	}
	return out
}

func zzComma(n int) string {
	s := strconv.Itoa(n)
	if n >= 1000 && n < 1000000 {
		s = s[:len(s)-3] + "," + s[len(s)-3:]
	}
	return s
}

func zzMetric(t *zzTot, mode string) string {
	switch mode {
	case "l":
		return fmt.Sprintf("(%s / %s)", zzComma(t.Added), zzComma(t.Rem))
	case "f":
		return fmt.Sprintf("(%s)", zzComma(len(t.Files)))
	case "":
		return fmt.Sprintf("(%s)", zzComma(len(t.Commits)))
	}
	return ""
}

// who could be shown for these totals
func zzBest(tots map[string]*zzTot, mode string, tie bool) map[string]*zzTot {
	var b *zzTot
	for _, t := range tots {
		if b == nil || t.metric(mode) > b.metric(mode) || tie && t.metric(mode) == b.metric(mode) && t.Last > b.Last {
			b = t
		}
	}
	out := map[string]*zzTot{}
	for k, t := range tots {
		if t.metric(mode) == b.metric(mode) && (!tie || t.Last == b.Last) {
			out[k] = t
		}
	}
	return out
}

func zzCheckTree(out string, o zzOpts, ls []zzTreeLine, all bool) string {
	got := zzLines(out)
	if len(got) != len(ls) {
		return fmt.Sprintf("%d lines, should be %d", len(got), len(ls))
	}
	who := make([]string, len(ls))
	for i, l := range ls {
		g := []rune(got[i])
		level := 0
		for len(g) >= 4 {
			p := string(g[:4])
			if p != "    " && p != "│   " && p != "└── " && p != "├── " {
				break
			}
			g = g[4:]
			level++
		}
		name := l.path
		if l.dir {
			name += "/"
		}
		s, ok := strings.CutPrefix(string(g), name)
		if !ok || level != l.level {
			return fmt.Sprintf("line %d is %q, should be %s at level %d", i+1, got[i], name, l.level)
		}
		best := zzBest(l.node.tots, o.Mode, true)
		if s == "" {
			if l.dir || all || l.up < 0 {
				return fmt.Sprintf("no annotation on %s", name)
			}
			if best[who[l.up]] == nil {
				return fmt.Sprintf("no annotation on %s, whose author is not its parent's", name)
			}
			who[i] = who[l.up]
			continue
		}
		if !strings.HasPrefix(s, "....") {
			return fmt.Sprintf("annotation of %s is %q", name, s)
		}
		s = strings.TrimLeft(s, ".")
		for k, t := range best {
			v := k
			if o.Email {
				v = "<" + k + ">"
			}
			if m, ok := strings.CutPrefix(s, v+" "); ok && (m == zzMetric(t, o.Mode) || o.Mode == "m" || o.Mode == "c") {
				who[i] = k
			}
		}
		if who[i] == "" {
			return fmt.Sprintf("annotation of %s is %q, should be one of %v %s", name, s, zzKeys(best), zzMetric(zzAny(best), o.Mode))
		}
		if !l.dir && !all && l.up >= 0 && who[i] == who[l.up] {
			return fmt.Sprintf("%s repeats the author of its directory", name)
		}
	}
	return ""
}

func zzKeys(m map[string]*zzTot) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func zzAny(m map[string]*zzTot) *zzTot {
	for _, t := range m {
		return t
	}
	return &zzTot{}
}

// The listing of git who tree: nodes, order, authors and metrics.
//
//verif:property C13 C14
//verif:runs 14
func Bounded_Tree(seed zzSeed) {
	zzMany(int64(seed), 16, func(r *rand.Rand) string {
		n := 1 + r.Intn(40)
		if r.Intn(10) == 0 {
			n = 1025 + r.Intn(1500)
		}
		w := zzWorldOf(r, n)
		defer w.done()
		o := zzOpts{Mode: zzPick(r, "", "l", "f", "m", "c"), Email: r.Intn(3) == 0, Merges: r.Intn(2) == 0}
		all, max := r.Intn(2) == 0, 100
		args := append([]string{"tree"}, o.args()...)
		if all {
			args = append(args, "-a")
		}
		if r.Intn(2) == 0 {
			max = 1 + r.Intn(4)
			args = append(args, "-d", strconv.Itoa(max))
		}
		sub := zzPick(r, "", "", "", "src", "docs", "src/util")
		for _, c := range w.Commits {
			for _, d := range c.Diffs {
				if d.Path == sub {
					sub = "" // a file where the directory is now
				}
			}
		}
		procs := zzProcs(r)
		x := w.run(procs, "UTC", sub, args...)
		if x.Code != 0 {
			return w.about("the command fails", args, procs, x)
		}
		t := zzTree(w, o, sub)
		var ls []zzTreeLine
		if len(t.kids) > 0 {
			ls = t.lines(".", 0, 0, -1, max, all, nil)
		}
		if m := zzCheckTree(x.Out, o, ls, all); m != "" {
			return w.about(m+" (work tree "+strings.Join(w.Tree, " ")+", in "+sub+")", args, procs, x)
		}
		return ""
	})
}

// ---- the timeline -----------------------------------------------------------------------

type zzPeriod struct {
	name string
	tots map[string]*zzTot
	all  *zzTot
}

func zzPeriods(w *zzWorld, o zzOpts, loc *time.Location, layout string, now bool) []zzPeriod {
	day := func(u int64) time.Time {
		y, m, d := time.Unix(u, 0).In(loc).Date()
		switch layout {
		case "2006":
			m, d = 1, 1
		case "Jan 2006":
			d = 1
		}
		return time.Date(y, m, d, 0, 0, 0, 0, time.UTC)
	}
	var first, last time.Time
	any := false
	ign := map[string]bool{}
	for _, h := range w.Ignore {
		ign[h] = true
	}
	for _, c := range w.Commits {
		if !c.allowed() || ign[c.Hash] {
			continue
		}
		d := day(c.Date)
		if !any || d.Before(first) {
			first = d
		}
		if !any || d.After(last) {
			last = d
		}
		any = true
	}
	if !any {
		return nil
	}
	if now {
		last = day(time.Now().Unix())
	}
	var out []zzPeriod
	at := map[time.Time]int{}
	for d := first; !d.After(last); {
		at[d] = len(out)
		out = append(out, zzPeriod{name: d.Format(layout), tots: map[string]*zzTot{}})
		switch layout {
		case "2006":
			d = d.AddDate(1, 0, 0)
		case "Jan 2006":
			d = d.AddDate(0, 1, 0)
		default:
			d = d.AddDate(0, 0, 1)
		}
	}
	tot := make([]map[string]*zzTot, len(out))
	for _, c := range w.counted(o, nil) {
		i := at[day(c.Date)]
		zzAdd(out[i].tots, o.key(c), c, c.Diffs)
		if tot[i] == nil {
			tot[i] = map[string]*zzTot{}
		}
		zzAdd(tot[i], "", c, c.Diffs)
		out[i].all = tot[i][""]
	}
	return out
}

func zzCheckHist(w *zzWorld, o zzOpts, loc *time.Location, now bool, out string) string {
	got := zzLines(out)
	layout := "2006-01-02"
	if len(got) > 0 {
		name, _, _ := strings.Cut(got[0], " ┤")
		switch {
		case len(name) == 4:
			layout = "2006"
		case len(name) == 8:
			layout = "Jan 2006"
		}
	}
	ps := zzPeriods(w, o, loc, layout, now)
	if len(ps) != len(got) {
		return fmt.Sprintf("%d periods, should be %d", len(got), len(ps))
	}
	top := int64(36)
	for _, p := range ps {
		if p.all != nil {
			top = max(top, p.all.metric(o.Mode))
		}
	}
	for i, p := range ps {
		s, ok := strings.CutPrefix(got[i], p.name+" ┤ ")
		if !ok {
			return fmt.Sprintf("period %d is %q, should be %s", i, got[i], p.name)
		}
		if p.all == nil {
			if s != "" {
				return fmt.Sprintf("%s has no counted commit but shows %q", p.name, s)
			}
			continue
		}
		best := zzBest(p.tots, o.Mode, false)
		v, t := zzAny(best).metric(o.Mode), p.all.metric(o.Mode)
		if v == 0 {
			if s != "" {
				return fmt.Sprintf("%s shows %q", p.name, s)
			}
			continue
		}
		rest := strings.TrimLeft(s, "#")
		nv := len(s) - len(rest)
		s, rest = rest, strings.TrimLeft(rest, "-")
		nt := nv + len(s) - len(rest)
		near := func(got int, v int64) bool {
			e := int((36*v + top - 1) / top)
			return got == e || got == e+1 && 36*v%top == 0
		}
		if nt > 36 || !near(nv, v) || !near(nt, t) {
			return fmt.Sprintf("%s: bar of %d of %d marks for %d of %d (scale %d)", p.name, nv, nt, v, t, top)
		}
		rest = strings.TrimLeft(rest, " ")
		hit := false
		for k, t := range best {
			name := k
			if o.Email {
				name = "<" + k + ">"
			}
			hit = hit || rest == name+" "+zzMetric(t, o.Mode)
		}
		if !hit {
			return fmt.Sprintf("%s shows %q, should be one of %v %s", p.name, rest, zzKeys(best), zzMetric(zzAny(best), o.Mode))
		}
	}
	return ""
}

func zzHist(r *rand.Rand, n, procs int, steps int) string {
	w := zzWorldOf(r, n)
	defer w.done()
	tz := zzPick(r, "UTC", "UTC", "America/New_York", "Asia/Kolkata", "America/Sao_Paulo", "America/Santiago", "Pacific/Auckland")
	loc, err := time.LoadLocation(tz)
	if err != nil {
		tz, loc = "UTC", time.UTC
	}
	all := w.Commits
	for s := 0; s < steps; s++ {
		if steps > 1 {
			w.Commits = nil
			p := 1 + r.Intn(3)
			for _, c := range all {
				if s == steps-1 || r.Intn(4) < p {
					w.Commits = append(w.Commits, c)
				}
			}
			w.save()
		}
		o := zzOpts{Mode: zzPick(r, "", "l", "f"), Email: r.Intn(3) == 0, Merges: r.Intn(2) == 0}
		if steps > 1 {
			o.Mode = zzPick(r, "l", "f")
		}
		args := append([]string{"hist"}, o.args()...)
		now := true
		if r.Intn(4) > 0 {
			now = false
			args = append(args, strings.Repeat("f", 40))
		}
		d0 := time.Now().In(loc).Day()
		x := w.run(procs, tz, "", args...)
		if x.Code != 0 {
			return w.about("the command fails (TZ="+tz+")", args, procs, x)
		}
		if now && time.Now().In(loc).Day() != d0 {
			return ""
		}
		if m := zzCheckHist(w, o, loc, now, x.Out); m != "" {
			return w.about(m+" (TZ="+tz+")", args, procs, x)
		}
	}
	return ""
}

// The timeline: dense, every commit in its period, winners and bars.
//
//verif:property C15 C16
//verif:runs 14
func Bounded_Hist(seed zzSeed) {
	zzMany(int64(seed), 16, func(r *rand.Rand) string { return zzHist(r, zzSize(r), zzProcs(r), 1) })
}

// The timeline over batches and a partly warm cache.
//
//verif:property C04
//verif:runs 12
func Bounded_HistBatches(seed zzSeed) {
	zzMany(int64(seed), 12, func(r *rand.Rand) string {
		n := 1 + r.Intn(60)
		if r.Intn(3) == 0 {
			n = []int{1024, 1025, 2049, 2500, 3100}[r.Intn(5)]
		}
		return zzHist(r, n, []int{2, 3, 8}[r.Intn(3)], 3)
	})
}

// ---- arguments ---------------------------------------------------------------------------

// What the user typed reaches git unchanged.
//
//verif:property C19 C20
//verif:runs 10
func Bounded_Arguments(seed zzSeed) {
	zzMany(int64(seed), 16, func(r *rand.Rand) string {
		w := zzWorldOf(r, 1+r.Intn(5))
		defer w.done()
		sub := zzPick(r, "", "table", "tree", "hist")
		o := zzOpts{Mode: zzPick(r, "", "l", "f")}
		procs := zzProcs(r)
		var args []string
		if sub != "" {
			args = append(args, sub)
		}
		args = append(args, o.args()...)
		var filters []string
		if r.Intn(2) == 0 {
			v := zzPick(r, "2 weeks ago", "2020-01-01", "yesterday")
			args, filters = append(args, "--since", v), append(filters, "--since", v)
		}
		if r.Intn(2) == 0 {
			v := zzPick(r, "1 day ago", "2021-01-01")
			args, filters = append(args, "--until", v), append(filters, "--until", v)
		}
		var auth, nauth []string
		for i := r.Intn(3); i > 0; i-- {
			auth = append(auth, zzPick(r, "Ann", "bob@y", "Zoë", "a b", "^x"))
		}
		for i := r.Intn(4); i > 0; i-- {
			nauth = append(nauth, zzPick(r, "Cid", "dan@", "E v", "x|y"))
		}
		for _, a := range auth {
			args, filters = append(args, "--author", a), append(filters, "--author", a)
		}
		for _, a := range nauth {
			args = append(args, "--nauthor", a)
		}
		if len(nauth) > 0 {
			filters = append(filters, "--perl-regexp", "--author", "^((?!"+strings.Join(nauth, "|")+").*)$")
		}
		var rest []string
		revs := []string{strings.Repeat("f", 40)}
		switch r.Intn(4) {
		case 0:
			rest = append(rest, "HEAD")
		case 1:
			h := zzHash(r)
			rest, revs = append(rest, h), []string{h}
		case 2:
			h := zzHash(r)
			rest, revs = append(rest, h+"..HEAD"), append(revs, "^"+h)
		default:
			revs = []string{"HEAD"}
		}
		var paths []string
		sep := false
		for i := r.Intn(3); i > 0; i-- {
			paths = append(paths, zzPick(r, "src", "docs/a.md", ":!docs", "with space", "-l", "b.txt", "--since", "HEAD"))
		}
		if len(paths) > 0 || r.Intn(4) == 0 {
			sep = r.Intn(2) == 0
			for _, p := range paths {
				sep = sep || strings.HasPrefix(p, "-") || p == "HEAD"
			}
			if sep || len(rest) == 0 {
				sep = true
				rest = append(rest, "--")
			}
		}
		rest = append(rest, paths...)
		args = append(args, rest...)
		x := w.run(procs, "UTC", "", args...)
		if x.Code != 0 {
			return w.about("the command fails", args, procs, x)
		}
		var n = map[string]int{}
		for _, c := range w.calls() {
			var want []string
			a := c.Args
			kind := a[0]
			switch {
			case kind == "rev-parse" && len(a) > 1 && a[1] == "--no-flags":
				kind, want = "args", append([]string{"rev-parse", "--no-flags"}, rest...)
			case kind == "ls-files":
				want = []string{"ls-files", "--exclude-standard", "-z"}
				if len(paths) > 0 {
					want = append(append(want, "--"), paths...)
				}
			case kind == "rev-list" || kind == "log" && !strings.Contains(strings.Join(a, " "), " --stdin"):
				base := map[string]bool{}
				i := 1
				for ; i < len(a); i++ {
					if a[i] == "--since" || a[i] == "--until" || a[i] == "--author" || a[i] == "--perl-regexp" || !strings.HasPrefix(a[i], "-") || a[i] == "--" {
						break
					}
					base[a[i]] = true
				}
				tail := append(append([]string{}, filters...), revs...)
				if len(paths) > 0 {
					tail = append(append(tail, "--"), paths...)
				}
				if strings.Join(a[i:], "\x00") != strings.Join(tail, "\x00") {
					return w.about(fmt.Sprintf("git %s is given %q, should be %q", kind, a[i:], tail), args, procs, x)
				}
				if kind == "log" && (base["--numstat"] != (sub == "tree" || o.diff())) {
					return w.about("--numstat is not requested exactly when needed", args, procs, x)
				}
				if kind == "log" && (base["--no-mailmap"] == w.Mailmap) {
					return w.about("mailmap names are not requested exactly when needed", args, procs, x)
				}
			case kind == "log":
				j := strings.Join(a, " ")
				if !strings.Contains(j, " --numstat") || strings.Contains(j, " --no-mailmap") == w.Mailmap || strings.Contains(j, "%aN") != w.Mailmap {
					return w.about(fmt.Sprintf("git log --stdin is given %q", a), args, procs, x)
				}
			}
			n[kind]++
			if want != nil && strings.Join(a, "\x00") != strings.Join(want, "\x00") {
				return w.about(fmt.Sprintf("git is given %q, should be %q", a, want), args, procs, x)
			}
		}
		par := procs > 1 && (sub == "tree" || o.diff())
		if n["args"] != 1 || par && n["rev-list"] != 1 || !par && n["log"] != 1 || (sub == "tree") != (n["ls-files"] == 1) {
			return w.about(fmt.Sprintf("git was called %v", n), args, procs, x)
		}
		return ""
	})
}

// Two ranking flags, or an unsupported path filter, are refused.
//
//verif:property C19 C11
//verif:runs 2
func Bounded_Refused(seed zzSeed) {
	zzMany(int64(seed), 12, func(r *rand.Rand) string {
		w := zzWorldOf(r, 3)
		defer w.done()
		sub := zzPick(r, "table", "tree", "hist")
		flags := []string{"-l", "-f", "-m", "-c"}
		if sub == "hist" {
			flags = flags[:2]
		}
		args := []string{sub}
		n := 0
		for _, f := range flags {
			if r.Intn(3) == 0 {
				args = append(args, f)
				n++
			}
		}
		bad := n > 1
		if r.Intn(3) == 0 {
			args = append(args, "--", ":(glob)src")
			bad = true
		}
		procs := zzProcs(r)
		x := w.run(procs, "UTC", "", args...)
		if bad != (x.Code != 0) || bad && x.Out != "" || x.Hang {
			return w.about("accepted flags", args, procs, x)
		}
		return ""
	})
}
