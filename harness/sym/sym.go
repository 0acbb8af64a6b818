// Package sym is the interface between harnesses and the checker. This file is
// the native implementation, used to replay counterexamples and witnesses on
// the compiled code; during symbolic execution every function is intercepted.
package sym

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"runtime/debug"
	"strings"
)

// Case is one concrete input.
type Case struct {
	Harness string             `json:"harness"`
	Vals    map[string]float64 `json:"vals"`
}

// Failure is one assertion that did not hold.
type Failure struct {
	Label string `json:"label"`
	Msg   string `json:"msg"`
}

// Result is the outcome of running one case.
type Result struct {
	Case     int                `json:"case"`
	Fails    []Failure          `json:"fails,omitempty"`
	Obs      map[string]float64 `json:"obs,omitempty"`
	Panic    string             `json:"panic,omitempty"`
	Exit     string             `json:"exit,omitempty"`
	Assumed  bool               `json:"assumed,omitempty"` // an assumption failed
	Missing  string             `json:"missing,omitempty"`
	Asserts  int                `json:"asserts"`
	Complete bool               `json:"complete"`
}

type stopCase struct{}

var (
	cur      map[string]float64
	count    map[string]int
	res      *Result
	obsN     int
	tier     string
	dirs     []string
	cleanups []func()
	outFile  *os.File
	realOut  = os.Stdout
)

func get(name string) (float64, bool) {
	k := count[name]
	count[name]++
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	v, ok := cur[name]
	if !ok && res.Missing == "" {
		res.Missing = name
	}
	return v, ok
}

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int {
	v, ok := get(name)
	if !ok || v < float64(lo) || v > float64(hi) {
		return lo
	}
	return int(v)
}

// Float is an arbitrary real in [lo,hi].
func Float(name string, lo, hi float64) float64 {
	v, ok := get(name)
	if !ok {
		return math.Min(math.Max(0, lo), hi)
	}
	return v
}

// Fresh is Float.
func Fresh(name string, lo, hi float64) float64 { return Float(name, lo, hi) }

// Bool is an arbitrary boolean.
func Bool(name string) bool { v, _ := get(name); return v != 0 }

// Choose forks over n alternatives.
func Choose(name string, n int) int {
	v, _ := get(name)
	if v < 0 || int(v) >= n {
		return 0
	}
	return int(v)
}

// Name is an arbitrary identifier.
func Name(name string) string { v, _ := get(name); return fmt.Sprintf("nm%d", int(v)) }

// MapOrder makes the iteration order of maps arbitrary during symbolic execution.
func MapOrder() { get("maporder") }

// Assume restricts the inputs considered.
func Assume(b bool) {
	if !b {
		res.Assumed = true
		panic(stopCase{})
	}
}

func fail(label, msg string) {
	if len(res.Fails) < 20 {
		res.Fails = append(res.Fails, Failure{label, msg})
	}
}

// Assert states a fact.
func Assert(label string, b bool) {
	res.Asserts++
	if !b {
		fail(label, "assertion is false")
	}
}

// EqInt states equality of integers.
func EqInt(label string, a, b int) {
	res.Asserts++
	if a != b {
		fail(label, fmt.Sprintf("got %d want %d", a, b))
	}
}

// EqStr states equality of strings.
func EqStr(label string, a, b string) {
	res.Asserts++
	if a != b {
		fail(label, fmt.Sprintf("got %q want %q", a, b))
	}
}

// Close states |a-b| <= tol.
func Close(label string, a, b, tol float64) {
	res.Asserts++
	if math.IsNaN(a) && math.IsNaN(b) || a == b {
		return
	}
	// Rounding of the computation itself is granted relative to the magnitudes.
	t := 2*tol + 1e-9*math.Max(math.Abs(a), math.Abs(b))
	if !(math.Abs(a-b) <= t) {
		fail(label, fmt.Sprintf("got %.12g want %.12g (tolerance %g)", a, b, tol))
	}
}

// CloseC states |a-b| <= tol for both parts.
func CloseC(label string, a, b complex128, tol float64) {
	Close(label+".re", real(a), real(b), tol)
	Close(label+".im", imag(a), imag(b), tol)
}

// Observe records a value for comparison between symbolic and native runs.
func Observe(name string, v float64) {
	if !math.IsNaN(v) && !math.IsInf(v, 0) {
		res.Obs[fmt.Sprintf("%s@%d", name, obsN)] = v
	}
	obsN++
}

// Bound documents a bound of the check.
func Bound(s string) {}

// Assumption documents an assumption of the check.
func Assumption(s string) {}

// Thorough tells whether the thorough tier runs.
func Thorough() bool { return tier == "thorough" }

// Symbolic tells whether the harness runs symbolically.
func Symbolic() bool { return false }

// Concrete forces a concrete value.
func Concrete(v int) int { return v }

// Fail states that this point is never reached.
func Fail(label string) { res.Asserts++; fail(label, "reached") }

// Reached marks a program point.
func Reached(label string) {}

// TempDir is a scratch directory, removed after the case.
func TempDir() string {
	d, err := ioutil.TempDir("", "verifnative")
	if err != nil {
		panic(err)
	}
	dirs = append(dirs, d)
	return d
}

// Cleanup registers a function to run after the case.
func Cleanup(f func()) { cleanups = append(cleanups, f) }

// Printed is what was written to standard output so far.
func Printed() string {
	if outFile == nil {
		return ""
	}
	outFile.Sync()
	b, _ := ioutil.ReadFile(outFile.Name())
	return string(b)
}

// Panics runs f and tells whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// Main runs cases: args are the case file, the result file, the first case, the tier.
func Main(hs map[string]func()) {
	var cases []Case
	b, err := ioutil.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &cases)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	first := 0
	fmt.Sscan(os.Args[3], &first)
	tier = os.Args[4]
	out, err := os.OpenFile(os.Args[2], os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	enc := json.NewEncoder(out)
	for k := first; k < len(cases); k++ {
		c := cases[k]
		cur, count, obsN = c.Vals, map[string]int{}, 0
		res = &Result{Case: k, Obs: map[string]float64{}}
		dirs, cleanups = nil, nil
		enc.Encode(map[string]int{"begin": k})
		outFile, _ = ioutil.TempFile("", "verifout")
		if outFile != nil {
			os.Stdout = outFile
		}
		runCase(hs[c.Harness])
		for j := len(cleanups) - 1; j >= 0; j-- {
			func() {
				defer func() { recover() }()
				cleanups[j]()
			}()
		}
		for _, d := range dirs {
			if strings.Contains(d, "verifnative") {
				os.RemoveAll(d)
			}
		}
		os.Stdout = realOut
		if outFile != nil {
			outFile.Close()
			os.Remove(outFile.Name())
		}
		enc.Encode(res)
	}
	enc.Encode(map[string]int{"end": len(cases)})
}

func runCase(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				return
			}
			res.Panic = fmt.Sprint(r)
			st := string(debug.Stack())
			if k := strings.Index(st, "panic("); k >= 0 {
				st = st[k:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			res.Panic += "\n" + st
		}
	}()
	f()
	res.Complete = true
}
