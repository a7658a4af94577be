// Package zzghost is the specification vocabulary of the contracts in
// /verif/contracts. The verifier (govc) gives every function below a logical
// meaning; the bodies here are its executable counterpart, used only to replay
// a failed obligation on concrete inputs.
package zzghost

import (
	"bytes"
	"encoding/binary"
	"encoding/csv"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"
)

// Skip and Failure are the panics that end a concrete run.
type Skip struct{}
type Failure struct{ Label, Detail string }

// Requires restricts the inputs a contract speaks about (in a lemma: the
// hypothesis).
func Requires(label string, cond bool) {
	if !cond {
		panic(Skip{})
	}
}

// Ensures states what must hold (in a lemma: the conclusion).
func Ensures(label string, cond bool) {
	if !cond {
		panic(Failure{Label: label})
	}
}

// Proving is true while the verifier proves a lemma, false where it is used.
func Proving() bool { return false }

// AllInt: f holds for every i with lo <= i < hi.
func AllInt(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// AnyInt: f holds for some i with lo <= i < hi.
func AnyInt(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// AllString: f holds for every string (in invariants only).
func AllString(f func(s string) bool) bool { panic("ghost") }

// AllKeys: f holds for every key of m.
func AllKeys[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

func AnyKey[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if f(k) {
			return true
		}
	}
	return false
}

// SomeKey is AnyKey, as a fold over the keys.
func SomeKey[K comparable, V any](m map[K]V, f func(k K) bool) bool { return AnyKey(m, f) }

func Has[K comparable, V any](m map[K]V, k K) bool { _, ok := m[k]; return ok }

// SumKeys adds f(k) over the keys of m.
func SumKeys[K comparable, V any](m map[K]V, f func(k K) int) int {
	n := 0
	for k := range m {
		n += f(k)
	}
	return n
}

// MinKeys is the least of init and f(k) over the keys of m.
func MinKeys[K comparable, V any](m map[K]V, init time.Time, f func(k K) time.Time) time.Time {
	r := init
	for k := range m {
		if v := f(k); v.Before(r) {
			r = v
		}
	}
	return r
}

// MaxKeys is the greatest of init and f(k) over the keys of m.
func MaxKeys[K comparable, V any](m map[K]V, init time.Time, f func(k K) time.Time) time.Time {
	r := init
	for k := range m {
		if v := f(k); v.After(r) {
			r = v
		}
	}
	return r
}

// Distinct is the number of different keys f gives on the i < n with p(i).
func Distinct[K comparable](n int, p func(i int) bool, f func(i int) K) int {
	set := map[K]bool{}
	for i := 0; i < n; i++ {
		if p(i) {
			set[f(i)] = true
		}
	}
	return len(set)
}

// Snap is the map as it is now, nested maps included.
func Snap[K comparable, V any](m map[K]V) map[K]V {
	return deepCopy(reflect.ValueOf(m)).Interface().(map[K]V)
}

func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, deepCopy(v.MapIndex(k)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Kind() == reflect.Map {
				src, dst := rw(addressable(v).Field(i)), rw(n.Field(i))
				dst.Set(deepCopy(src))
			}
		}
		return n
	}
	return v
}

// Clone is a copy of the slice.
func Clone[T any](s []T) []T { return append([]T{}, s...) }

// Count is the number of positions of s holding x.
func Count[T comparable](s []T, x T) int {
	n := 0
	for _, y := range s {
		if y == x {
			n++
		}
	}
	return n
}

// Imp is implication; g is evaluated only when p holds.
func Imp(p bool, g func() bool) bool { return !p || g() }

// In is a channel that delivers exactly vals and is then closed.
func In[T any](vals []T) chan T {
	c := make(chan T, len(vals))
	for _, v := range vals {
		c <- v
	}
	close(c)
	return c
}

// Out is an open channel with room for everything the code sends.
func Out[T any]() chan T { return make(chan T, 1<<16) }

// Sent is what has been sent on a channel made by Out.
func Sent[T any](c chan T) []T {
	out := []T{}
	for n := len(c); n > 0; n-- {
		v, ok := <-c
		if !ok {
			break
		}
		out = append(out, v)
	}
	return out
}

// Closed tells whether the code closed a channel (everything sent on it must
// have been read with Sent before).
func Closed[T any](c chan T) bool {
	select {
	case _, ok := <-c:
		return !ok
	default:
		return false
	}
}

// Symbolic is true while the verifier reads the contract, false in a concrete
// run. A contract that requires it has no concrete runs.
func Symbolic() bool { return false }

// Spawned: a goroutine calling the function was started.
func Spawned(name string) bool { panic("ghost") }

// Passed is the n-th argument of the spawned function.
func Passed[T any](name string, n int) (v T) { panic("ghost") }

// Chan is the n-th channel of its type that the code made.
func Chan[T any](n int) chan T { panic("ghost") }

// Delivered are the errors received so far from channels that other goroutines
// keep in data structures.
func Delivered() []error { panic("ghost") }

// Received is the number of values taken from a channel (in invariants only).
func Received[T any](c chan T) int { panic("ghost") }

// FakeGit puts a git that does nothing in front of the real one, so that a
// replay starts no real command.
func FakeGit() {
	fakeGit.Do(func() {
		dir, err := os.MkdirTemp("", "fakegit")
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(dir, "git"), []byte("#!/bin/true\n"), 0755); err != nil {
			panic(err)
		}
		os.Setenv("PATH", dir+":"+os.Getenv("PATH"))
	})
}

var fakeGit sync.Once

// Git is a git that writes the tokens, separated by NULs, and fails if asked.
func Git(tokens []string, fail bool) {
	fakeOutput(strings.Join(tokens, "\x00"), fail)
}

// GitLines is a git that writes the lines and fails if asked.
func GitLines(lines []string, fail bool) {
	s := ""
	for _, l := range lines {
		s += l + "\n"
	}
	fakeOutput(s, fail)
}

// FileLines is the path of a file with these lines.
func FileLines(lines []string) string {
	if fakeFile == "" {
		f, err := os.CreateTemp("", "fakefile")
		if err != nil {
			panic(err)
		}
		fakeFile = f.Name()
		f.Close()
	}
	s := ""
	for _, l := range lines {
		s += l + "\n"
	}
	if err := os.WriteFile(fakeFile, []byte(s), 0644); err != nil {
		panic(err)
	}
	return fakeFile
}

var fakeFile string

// StoredJSON is the path of a file of these values in JSON, damaged after the
// last or not.
func StoredJSON[T any](items []T, damaged bool) string {
	path := FileLines(nil)
	f, err := os.OpenFile(path, os.O_WRONLY|os.O_TRUNC, 0644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	enc := json.NewEncoder(f)
	for i := range items {
		if err := enc.Encode(&items[i]); err != nil {
			panic(err)
		}
	}
	if damaged {
		f.WriteString("{\"Hash\":\"0")
		failed = true
	}
	return path
}

// StoredFrames is the path of a file of frames, frame k holding
// items[cuts[k]:cuts[k+1]], damaged after the last or not.
func StoredFrames[T any](items []T, cuts []int, damaged bool) string {
	var out bytes.Buffer
	for k := 0; k+1 < len(cuts); k++ {
		var data bytes.Buffer
		frame := items[cuts[k]:cuts[k+1]]
		if err := gob.NewEncoder(&data).Encode(&frame); err != nil {
			panic(err)
		}
		binary.Write(&out, binary.LittleEndian, uint32(data.Len()))
		out.Write(data.Bytes())
	}
	if damaged {
		out.WriteString([]string{"\x07", "\x07\x00\x00\x00", "\x07\x00\x00\x00ab", "\x03\x00\x00\x00\x02\xff\x01", "\x00\x00\x00\x00"}[len(items)%5])
		failed = true
	}
	path := FileLines(nil)
	if err := os.WriteFile(path, out.Bytes(), 0644); err != nil {
		panic(err)
	}
	return path
}

// NewJSON is the path of a file to which JSON values are added, NewFrames of one
// to which frames are. Both may hold something already.
func NewJSON[T any]() string {
	addedTo++
	return StoredJSON(make([]T, addedTo%3), false)
}

func NewFrames[T any]() string {
	addedTo++
	var cuts []int
	for k := 0; k <= addedTo%3; k++ {
		cuts = append(cuts, k)
	}
	return StoredFrames(make([]T, addedTo%3), cuts, false)
}

var addedTo int

// AddedJSON and AddedFrames are what was added to the file.
func AddedJSON[T any]() (out []T) {
	b, _ := os.ReadFile(fakeFile)
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var v T
		if d.Decode(&v) != nil {
			return out[addedTo%3:]
		}
		out = append(out, v)
	}
}

func AddedFrames[T any]() (out [][]T) {
	b, _ := os.ReadFile(fakeFile)
	for len(b) >= 4 {
		n := binary.LittleEndian.Uint32(b)
		var v []T
		if int(n) > len(b)-4 || gob.NewDecoder(bytes.NewReader(b[4:4+n])).Decode(&v) != nil {
			break
		}
		out = append(out, v)
		b = b[4+n:]
	}
	return out[addedTo%3:]
}

// GitText is a git that writes the text and fails if asked.
func GitText(text string, fail bool) { fakeOutput(text, fail) }

var fakeDir string

func fakeOutput(out string, fail bool) {
	if fakeDir == "" {
		dir, err := os.MkdirTemp("", "fakegit")
		if err != nil {
			panic(err)
		}
		fakeDir = dir
		os.Setenv("PATH", dir+":"+os.Getenv("PATH"))
		script := "#!/bin/bash\nd=$(dirname \"$0\")\nprintf '%s\\0' \"$@\" > $d/args\n[ \"$(cat $d/stdin)\" = yes ] && cat > $d/in\ncat $d/out\nexit $(cat $d/code)\n"
		if err := os.WriteFile(filepath.Join(dir, "git"), []byte(script), 0755); err != nil {
			panic(err)
		}
	}
	code := "0"
	if fail {
		code = "3"
		failed = true
	}
	w := func(name, s string) {
		if err := os.WriteFile(filepath.Join(fakeDir, name), []byte(s), 0644); err != nil {
			panic(err)
		}
	}
	w("out", out)
	w("code", code)
	w("stdin", "no")
	os.Remove(filepath.Join(fakeDir, "args"))
}

// GitArgs are the words of the last git command line, "git" first.
func GitArgs() []string {
	b, _ := os.ReadFile(filepath.Join(fakeDir, "args"))
	return append([]string{"git"}, strings.Split(strings.TrimSuffix(string(b), "\x00"), "\x00")...)
}

// SpawnFailed: a subprocess could not be started.
func SpawnFailed() bool { return false }

// CmdArgs is the command line of a command, the program first.
func CmdArgs(cmd *exec.Cmd) []string { return cmd.Args }

// Reap waits for the command.
func Reap(cmd *exec.Cmd) { cmd.Wait() }

// GitInput: the lines written to the standard input of git, whatever the run.
func GitInput() []string { panic("ghost") }

// Failed: some external operation (git, the file system, a worker) failed.
func Failed() bool { return failed }

var failed bool

// Bind makes a value known to the loop invariants as the parameter name.
func Bind[T any](name string, v T) {}

// Types that appear only in loop invariants.
type Pos int
type Outer int
type Entry struct{}
type Visited[K comparable] struct{ _ [0]K }

func (Visited[K]) Has(k K) bool { panic("ghost") }

// SumVisited adds f(k) over the keys visited so far.
func SumVisited[K comparable](v Visited[K], f func(k K) int) int { panic("ghost") }

func MinVisited[K comparable](v Visited[K], init time.Time, f func(k K) time.Time) time.Time {
	panic("ghost")
}

func MaxVisited[K comparable](v Visited[K], init time.Time, f func(k K) time.Time) time.Time {
	panic("ghost")
}

// SomeVisited: f holds for some key visited so far, as a fold.
func SomeVisited[K comparable](v Visited[K], f func(k K) bool) bool { panic("ghost") }

// AllVisited: f holds for every key visited so far.
func AllVisited[K comparable](v Visited[K], f func(k K) bool) bool { panic("ghost") }

// AtEntry is the map m as it was when the loop was entered.
func AtEntry[K comparable, V any](e Entry, m map[K]V) map[K]V { panic("ghost") }

// Now is a map found in an earlier state as it is now.
func Now[K comparable, V any](m map[K]V) map[K]V { panic("ghost") }

// OnlyChanged: since the loop was entered no map of m's type other than m
// has changed.
func OnlyChanged[K comparable, V any](e Entry, m map[K]V) bool { panic("ghost") }

// Old: m existed when the loop was entered.
func Old[K comparable, V any](e Entry, m map[K]V) bool { panic("ghost") }

// Fresh: the map was made since the function under contract was entered.
func Fresh[K comparable, V any](m map[K]V) bool { return true }

// Allocated: m is a map made before now.
func Allocated[K comparable, V any](m map[K]V) bool { return m != nil }

// Same: the two maps are the same object.
func Same[K comparable, V any](a, b map[K]V) bool {
	return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
}

// Identical: the same value, slices being the same stretch of the same array.
func Identical[T any](a, b T) bool { return Eq(a, b) }

// Eq: equal values; slices are compared by their elements.
func Eq[T any](a, b T) bool { return deepEq(reflect.ValueOf(a), reflect.ValueOf(b)) }

func deepEq(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if t, ok := a.Type().MethodByName("Equal"); ok && a.Type().String() == "time.Time" {
		return t.Func.Call([]reflect.Value{rw(addressable(a)), rw(addressable(b))})[0].Bool()
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deepEq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !deepEq(rw(addressable(a).Field(i)), rw(addressable(b).Field(i))) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// Owned: no two entries of the nested map share their value map, and none is
// nil. (Every caller in git-who builds nested maps that way.)
func Owned[K comparable, J comparable, V any](m map[K]map[J]V) bool {
	seen := map[uintptr]bool{}
	for _, v := range m {
		p := reflect.ValueOf(v).Pointer()
		if p == 0 || seen[p] {
			return false
		}
		seen[p] = true
	}
	return true
}

// OwnedBy: as Owned, for the map f finds inside each value (nil allowed is not).
func OwnedBy[K comparable, V any, J comparable, W any](m map[K]V, f func(v V) map[J]W) bool {
	seen := map[uintptr]bool{}
	for _, v := range m {
		p := reflect.ValueOf(f(v)).Pointer()
		if p == 0 || seen[p] {
			return false
		}
		seen[p] = true
	}
	return true
}

// OwnedBy2: two levels down; a nil inner map is allowed.
func OwnedBy2[K comparable, I comparable, V any, J comparable, W any](m map[K]map[I]V, f func(v V) map[J]W) bool {
	seen := map[uintptr]bool{}
	for _, mm := range m {
		for _, v := range mm {
			p := reflect.ValueOf(f(v)).Pointer()
			if p == 0 {
				continue
			}
			if seen[p] {
				return false
			}
			seen[p] = true
		}
	}
	return true
}

// CaptureRows makes Rows possible: standard output goes to a file.
func CaptureRows() {
	f, err := os.CreateTemp("", "rows")
	if err != nil {
		panic(err)
	}
	realStdout, os.Stdout = os.Stdout, f
}

var realStdout *os.File

// CaptureLines makes LinesPrinted possible.
func CaptureLines() { CaptureRows() }

// CaptureCalls makes Calls possible: the calls a function makes to itself.
func CaptureCalls(fn string) {}

// Calls are the values passed for a parameter by the calls fn made to itself;
// only the verifier sees them.
func Calls[T any](fn, param string) []T { panic("ghost") }

// AtCall has f state what must hold where fn calls itself; f takes what is
// passed. Only the verifier sees it.
func AtCall(fn string, f any) {}

// LinesPrinted is the number of lines written to standard output since
// CaptureLines.
func LinesPrinted() int {
	f := os.Stdout
	os.Stdout = realStdout
	defer os.Remove(f.Name())
	defer f.Close()
	b, err := os.ReadFile(f.Name())
	if err != nil {
		panic(err)
	}
	return strings.Count(string(b), "\n")
}

// Printed are the lines written to standard output since CaptureLines.
func Printed() []string {
	f := os.Stdout
	os.Stdout = realStdout
	defer os.Remove(f.Name())
	defer f.Close()
	b, err := os.ReadFile(f.Name())
	if err != nil {
		panic(err)
	}
	ls := strings.Split(string(b), "\n")
	return ls[:len(ls)-1]
}

// Rows are the CSV rows written to standard output since CaptureRows.
func Rows() [][]string {
	f := os.Stdout
	os.Stdout = realStdout
	defer os.Remove(f.Name())
	defer f.Close()
	if _, err := f.Seek(0, 0); err != nil {
		panic(err)
	}
	r := csv.NewReader(f)
	r.FieldsPerRecord = -1
	rows, err := r.ReadAll()
	if err != nil {
		panic(err)
	}
	return rows
}

func fmtv(v any) string { return fmt.Sprintf("%#v", v) }
