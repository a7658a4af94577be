package zzghost

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

// ---- random inputs for concrete replays (not seen by the verifier) ----------

type Rand struct {
	*rand.Rand
	Size  int
	pool  []string // strings generated so far in this run
	times []time.Time
}

var gens = map[reflect.Type]func(r *Rand) reflect.Value{}

// Gen registers a generator for a type.
func Gen[T any](f func(r *Rand) T) bool {
	var z T
	gens[reflect.TypeOf(&z).Elem()] = func(r *Rand) reflect.Value { v := f(r); return reflect.ValueOf(&v).Elem() }
	return true
}

func rw(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func addressable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return v
	}
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

var Hashes = []string{
	"1111111111111111111111111111111111111111",
	"2222222222222222222222222222222222222222",
	"3333333333333333333333333333333333333333",
	"abcdefabcdefabcdefabcdefabcdefabcdefabcd",
	"00000000000000000000000000000000deadbeef",
}

func pick(r *Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

// Str makes a string; the hint (a parameter or field name) selects the kind.
// A name without a kind mostly reuses a string made earlier in the same run.
func (r *Rand) Str(hint string) string {
	h := strings.ToLower(hint)
	if len(r.pool) > 0 && len(h) == 2 && h[1] == '0' && r.Intn(5) > 0 {
		return r.pool[r.Intn(len(r.pool))]
	}
	s := r.str(h)
	r.pool = append(r.pool, s)
	return s
}

func (r *Rand) str(h string) string {
	switch {
	case strings.HasPrefix(h, "argline"):
		x := Hashes[r.Intn(len(Hashes))]
		return pick(r, x, x, " "+x+"\t", x+" # why", x+"#", "# "+x, "#"+x, "", "text", x+" "+x, x[1:], "^"+x, " # ", x+"a", "\t"+x)
	case strings.HasPrefix(h, "argp") && h != "argpath":
		q := pick(r, "", "", "", "", ":!", ":^", ":!:", ":^:", ":(exclude)", ":")
		return q + pick(r, "a", "b", "a/b", "a/", "a*", "*", "*.txt", "b/*", "b/x*", "a/**", "?", "a/?", "[ab]", "*/x", "*/x*", "c.t?t", "a/c", "**/d", "x", "/a", "!a", "")
	case strings.HasPrefix(h, "arg") && h != "argpath":
		x := Hashes[r.Intn(len(Hashes))]
		return pick(r, x, x, x, "^"+x, "^"+x, "^"+x[1:], x+"a", x[1:], strings.ToUpper(x), "--", "--", "a/b", "HEAD", ":!a", "", "g"+x[1:], "^"+x+"b", "^^"+x)
	case strings.Contains(h, "shorthash"):
		return pick(r, "1111111", "2222222", "3333333", "abcdefa", "0000000")
	case strings.Contains(h, "hash"), strings.Contains(h, "rev"):
		return Hashes[r.Intn(len(Hashes))]
	case strings.Contains(h, "email"):
		return pick(r, "a@x", "b@x", "c@y", "d@z")
	case strings.Contains(h, "author"), h == "name":
		return pick(r, "Al", "Bo", "Cy", "Di")
	case h == "argpath", strings.Contains(h, "path"):
		return pick(r, "a", "b", "a/b", "a/c", "a/c/d", "b/x", "b/x/y", "c.txt", ".git-who-no-diff-commits")
	}
	if r.Intn(8) == 0 {
		return Hashes[r.Intn(len(Hashes))]
	}
	n := r.Intn(r.Size + 2)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteByte("abc/. \t#:!-01"[r.Intn(13)])
	}
	return sb.String()
}

// Time: often a round number of units away from a time made earlier.
func (r *Rand) Time() time.Time {
	base := []int64{0, 86400, 86401, 172800, 1700000000, 1702678400, 1735689600, 1735689599, 4102444800}
	t := time.Unix(base[r.Intn(len(base))]+int64(r.Intn(3)), 0)
	if len(r.times) > 0 && r.Intn(4) > 0 {
		t = r.times[r.Intn(len(r.times))]
		if r.Intn(5) > 0 {
			u := []int64{1, 60, 3600, 86400, 7 * 86400, 30 * 86400, 365 * 86400, 3650 * 86400}[r.Intn(8)]
			d := u*int64(r.Intn(13)) + []int64{0, 0, 1, -1, int64(r.Intn(int(u) + 1))}[r.Intn(5)]
			if r.Intn(2) == 0 {
				d = -d
			}
			t = time.Unix(t.Unix()+d, 0)
		}
	}
	r.times = append(r.times, t)
	return t
}

// Num: small, near a power of ten, or anything.
func (r *Rand) Num() int64 {
	switch r.Intn(6) {
	case 0, 1:
		return int64(r.Intn(40))
	case 2, 3:
		p := int64(1)
		for i := r.Intn(10); i > 0; i-- {
			p *= 10
		}
		return p*int64(1+r.Intn(12)) + int64(r.Intn(5)) - 2
	}
	return r.Int63n(1 << uint(4+r.Intn(30)))
}

func (r *Rand) Value(t reflect.Type, hint string) reflect.Value {
	if g, ok := gens[t]; ok {
		return g(r)
	}
	v := reflect.New(t).Elem()
	switch t {
	case reflect.TypeOf(time.Time{}):
		v.Set(reflect.ValueOf(r.Time()))
		return v
	case reflect.TypeOf((*context.Context)(nil)).Elem():
		v.Set(reflect.ValueOf(context.Background()))
		return v
	case reflect.TypeOf((*error)(nil)).Elem():
		if r.Intn(3) == 0 {
			v.Set(reflect.ValueOf(errors.New("injected")))
		}
		return v
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		switch {
		case r.Intn(20) == 0:
			v.SetInt(-1)
		case r.Intn(3) == 0 && (t.Kind() == reflect.Int || t.Kind() == reflect.Int64):
			v.SetInt(r.Num())
		default:
			v.SetInt(int64(r.Intn(5)))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(r.Intn(5)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.Intn(100)) / 4)
	case reflect.String:
		v.SetString(r.Str(hint))
	case reflect.Slice:
		if r.Intn(12) == 0 {
			return v
		}
		n := r.Intn(r.Size + 1)
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			v.Index(i).Set(r.Value(t.Elem(), hint))
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(r.Value(t.Elem(), hint))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		n := r.Intn(r.Size + 1)
		for i := 0; i < n; i++ {
			v.SetMapIndex(r.Value(t.Key(), hint), r.Value(t.Elem(), ""))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			rw(v.Field(i)).Set(r.Value(t.Field(i).Type, t.Field(i).Name))
		}
	case reflect.Pointer:
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(r.Value(t.Elem(), hint))
	case reflect.Func:
		which := r.Intn(2)
		v.Set(reflect.MakeFunc(t, func(in []reflect.Value) []reflect.Value {
			var out []reflect.Value
			for i := 0; i < t.NumOut(); i++ {
				z := reflect.New(t.Out(i)).Elem()
				if z.Kind() == reflect.String && len(in) == 1 && in[0].Kind() == reflect.Struct {
					for _, n := range [][]string{{"AuthorEmail"}, {"AuthorName"}}[which] {
						if f := in[0].FieldByName(n); f.IsValid() {
							z = f
						}
					}
				}
				out = append(out, z)
			}
			return out
		}))
	}
	return v
}

// Dump renders a value, unexported fields included.
func Dump(v reflect.Value, depth int) string {
	if depth > 8 {
		return "..."
	}
	if !v.IsValid() {
		return "nil"
	}
	if v.Type() == reflect.TypeOf(time.Time{}) {
		v = rw(addressable(v))
		return "time.Unix(" + strconv.FormatInt(v.Interface().(time.Time).Unix(), 10) + ", 0)"
	}
	switch v.Kind() {
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Slice, reflect.Array:
		var ss []string
		for i := 0; i < v.Len(); i++ {
			ss = append(ss, Dump(v.Index(i), depth+1))
		}
		return v.Type().String() + "{" + strings.Join(ss, ", ") + "}"
	case reflect.Map:
		var ss []string
		for _, k := range v.MapKeys() {
			ss = append(ss, Dump(k, depth+1)+": "+Dump(v.MapIndex(k), depth+1))
		}
		return v.Type().String() + "{" + strings.Join(ss, ", ") + "}"
	case reflect.Struct:
		v = addressable(v)
		var ss []string
		for i := 0; i < v.NumField(); i++ {
			ss = append(ss, v.Type().Field(i).Name+": "+Dump(rw(v.Field(i)), depth+1))
		}
		return v.Type().String() + "{" + strings.Join(ss, ", ") + "}"
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "&" + Dump(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return Dump(v.Elem(), depth+1)
	case reflect.Func:
		return "func"
	}
	return fmt.Sprint(v)
}

type tb interface {
	Fatalf(string, ...any)
	Logf(string, ...any)
}

// Run executes a contract on random inputs and reports the first failure.
func Run(t tb, name string, fn any, params []string, seed int64, n int) {
	fv := reflect.ValueOf(fn)
	ran, skipped := 0, 0
	dead := time.Now().Add(20 * time.Second)
	for i := 0; i < n && time.Now().Before(dead); i++ {
		r := &Rand{Rand: rand.New(rand.NewSource(seed + int64(i)*7919)), Size: 1 + i*5/n}
		failed = false
		var args []reflect.Value
		for p := 0; p < fv.Type().NumIn(); p++ {
			args = append(args, r.Value(fv.Type().In(p), params[p]))
		}
		var dump []string
		for p, a := range args {
			dump = append(dump, "  "+params[p]+" = "+Dump(a, 0))
		}
		msg := func() (msg string) {
			defer func() {
				switch e := recover().(type) {
				case nil:
				case Skip:
					skipped++
				case Failure:
					msg = "postcondition fails: " + e.Label
				default:
					msg = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
				}
			}()
			ran++
			fv.Call(args)
			return ""
		}()
		if msg != "" {
			t.Fatalf("FAILING INPUT for %s (run %d, seed %d)\n%s\n%s", name, i, seed, strings.Join(dump, "\n"), msg)
		}
	}
	t.Logf("%s: %d runs, %d outside the precondition", name, ran, skipped)
	fmt.Fprintf(os.Stderr, "zzghost: %s ran=%d skipped=%d\n", name, ran, skipped)
}
