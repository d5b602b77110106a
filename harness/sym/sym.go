// Package sym is the harness side of the symbolic executor: nondeterministic
// inputs, assumptions and assertions. Under the engine every function here is
// intercepted; compiled natively, the inputs come from a replay file.
package sym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
)

type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

type Case struct {
	Inputs []InputVal     `json:"inputs"`
	Params map[string]int `json:"params"`
}

type Result struct {
	Status string   `json:"status"` // ok, assert, assume, panic, diverged
	Label  string   `json:"label"`
	Obs    []string `json:"obs"`
}

var cur struct {
	c   Case
	pos int
	res Result
}

func next(name string) uint64 {
	if cur.pos >= len(cur.c.Inputs) {
		finish("diverged", "no input for "+name)
	}
	in := cur.c.Inputs[cur.pos]
	cur.pos++
	if in.Name != name {
		finish("diverged", "input "+name+" expected, got "+in.Name)
	}
	return in.Val
}

func finish(status, label string) {
	cur.res.Status, cur.res.Label = status, label
	runtime.Goexit()
}

// Symbolic tells whether the harness runs under the symbolic engine.
func Symbolic() bool { return false }

// Param is a bound of the check, set from its specification.
func Param(name string, def int) int {
	if v, ok := cur.c.Params[name]; ok {
		return v
	}
	return def
}

// Int is an arbitrary integer in lo..hi.
func Int(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	v := int(next(name))
	if v < lo || v > hi {
		finish("assume", name)
	}
	return v
}

// Int64 is an arbitrary 64-bit integer.
func Int64(name string) int64 { return int64(next(name)) }

func Byte(name string) byte { return byte(next(name)) }
func Bool(name string) bool { return next(name) != 0 }

// Choice is an arbitrary integer 0..n-1, resolved at once.
func Choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next(name))
}

// Bytes is an arbitrary string of n bytes.
func Bytes(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(fmt.Sprintf("%s[%d]", name, i)))
	}
	return string(b)
}

// BytesOf is an arbitrary string of n bytes drawn from alphabet.
func BytesOf(name string, n int, alphabet string) string { return Bytes(name, n) }

func Assume(cond bool) {
	if !cond {
		finish("assume", "")
	}
}

func Assert(cond bool, label string) {
	if !cond {
		finish("assert", label)
	}
}

func Fail(label string) { finish("assert", label) }

// Reach is a reachability witness.
func Reach(label string) {}

func Observe(label string, v string)  { cur.res.Obs = append(cur.res.Obs, fmt.Sprintf("%s=%q", label, v)) }
func ObserveInt(label string, v int)  { cur.res.Obs = append(cur.res.Obs, fmt.Sprintf("%s=%d", label, v)) }
func ObserveBool(label string, v bool) { cur.res.Obs = append(cur.res.Obs, fmt.Sprintf("%s=%t", label, v)) }

// Concretize forks over the values of s (identity natively).
func Concretize(s string) string { return s }
func ConcretizeInt(i int) int    { return i }

// FreshPools / AnyPools select how sync.Pool.Get behaves under the engine
// (never reuse / nondeterministic reuse; default: always reuse).
func FreshPools() {}
func AnyPools()   {}

// SharedPools makes other goroutines take and overwrite whatever is put in a
// sync.Pool; PoolsUntouched reports whether nothing of it was written since.
func SharedPools()         { sharedPools(true) }
func PoolsUntouched() bool { return poolsUntouched() }

// GlobalsUntouched reports whether what can be reached from the package-level
// variables of the code under test is as it was when SharedPools was called.
func GlobalsUntouched() bool { return globalsUntouched() }

var (
	globalsUntouched = func() bool { return true }
	sharedPools    = func(bool) {}
	poolsUntouched = func() bool { return true }
)

// AnyMapOrder makes map iteration order nondeterministic under the engine.
func AnyMapOrder(on bool) {}

// WriteFile creates a file the code under test can read (scratch directory).
func WriteFile(name, content string) {
	os.MkdirAll(filepath.Dir(name), 0o755)
	if err := os.WriteFile(name, []byte(content), 0o644); err != nil {
		panic(err)
	}
}

func RemoveFile(name string) { os.Remove(name) }

// Caught runs f and reports whether it panicked (and, if it did not panic but
// the harness ended the path, does not return).
func Caught(f func()) (v any, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			v = recover()
		}
	}()
	f()
	panicked = false
	return
}

// Main runs the harness natively over the cases of the file given as first
// argument and writes one result per line to the second.
func Main(f func()) {
	debug.SetMaxStack(256 << 20)
	in, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	outPath, _ := filepath.Abs(os.Args[2])
	out, err := os.Create(outPath)
	if err != nil {
		panic(err)
	}
	scratch := os.Args[3]
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	n := 0
	for sc.Scan() {
		var c Case
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			panic(err)
		}
		cur.c, cur.pos, cur.res = c, 0, Result{Status: "ok"}
		sharedPools(false)
		d := filepath.Join(scratch, fmt.Sprint(n))
		os.MkdirAll(d, 0o755)
		os.Chdir(d)
		n++
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					cur.res.Status = "panic"
					cur.res.Label = fmt.Sprint(r)
				}
			}()
			f()
		}()
		<-done
		b, _ := json.Marshal(cur.res)
		out.Write(append(b, '\n'))
	}
	out.Close()
	os.Exit(0)
}
