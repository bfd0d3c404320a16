// Package vv is the harness library: symbolic under the engine in /verif/engine
// (every function below is intercepted), concrete when a counterexample or a path
// model is replayed against the real build.
package vv

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"strconv"
	"time"
)

var inputs map[string]int64
var curTier int
var quiet bool

func in(name string) int64 { return inputs[name] }

// Bool is an arbitrary truth value.
func Bool(name string) bool { return in(name) != 0 }

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	v, ok := inputs[name]
	if !ok {
		return lo
	}
	return int(v)
}

// Str is an arbitrary element of menu.
func Str(name string, menu ...string) string {
	if len(menu) == 1 {
		return menu[0]
	}
	return menu[in(name)]
}

// IntOf is an arbitrary element of menu.
func IntOf(name string, menu ...int) int {
	if len(menu) == 1 {
		return menu[0]
	}
	return menu[in(name)]
}

// F64 is an arbitrary element of menu.
func F64(name string, menu ...float64) float64 {
	if len(menu) == 1 {
		return menu[0]
	}
	return menu[in(name)]
}

// F32 is an arbitrary element of menu.
func F32(name string, menu ...float32) float32 {
	if len(menu) == 1 {
		return menu[0]
	}
	return menu[in(name)]
}

// Pick is an arbitrary integer in [0, n); the exploration forks over its values.
func Pick(name string, n int) int { return int(in(name)) }

// Concrete forks the exploration over the values of x.
func Concrete(x int) int { return x }

// Bytes is an arbitrary string of n bytes.
func Bytes(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in(name + "#" + strconv.Itoa(i)))
	}
	return string(b)
}

// Split is Concrete, and the paths are never joined again.
func Split(x int) int { return x }

type stop struct{ code int }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		fmt.Println("VV-ASSUME")
		panic(stop{4})
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		fmt.Println("\nVV-FAIL " + label)
		panic(stop{3})
	}
}

// Cover states that cond has to be reachable (guards against vacuous harnesses).
func Cover(label string, cond bool) {}

func obs(name string, v string) {
	if !quiet {
		fmt.Println("\nVV-OBS " + name + "=" + strconv.Quote(v))
	}
}

// ObsInt, ObsStr and ObsBool record outputs that are compared between the
// symbolic path (under a model) and the native run.
func ObsInt(name string, v int)    { obs(name, strconv.Itoa(v)) }
func ObsStr(name string, v string) { obs(name, v) }
func ObsBool(name string, v bool)  { obs(name, strconv.FormatBool(v)) }

// And, Or, Implies, Iff, IteInt, IteStr evaluate without forking.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteStr(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

// MapOrder selects the iteration orders of maps in the code under test: 0
// insertion order, 1 reverse, 2 some orders, 3 all orders (up to 4 entries).
func MapOrder(mode int) {}

// Sched selects the goroutine schedules: 0 run-to-block in order of creation,
// 1 newest first, 2 all choices at blocking points.
func Sched(mode int) {}

// Race switches on happens-before race detection (and state merging off).
func Race() {}

// SetCPU sets the number of CPUs the code under test sees.
func SetCPU(n int) { runtime.GOMAXPROCS(n) }

// Tier is 0 for quick and 1 for thorough runs.
func Tier() int { return curTier }

// Symbolic is true under the engine.
func Symbolic() bool { return false }

// N is name followed by the number i.
func N(name string, i int) string { return name + strconv.Itoa(i) }

// Itoa formats i.
func Itoa(i int) string { return strconv.Itoa(i) }

// ModelFprint, ModelFprintf and ModelFprintln replace printing to a writer under the
// engine: printing to files has no effect.
func ModelFprint(w io.Writer, a ...interface{}) (int, error) {
	if _, file := w.(*os.File); file {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprint(a...)))
}
func ModelFprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	if _, file := w.(*os.File); file {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprintf(format, a...)))
}
func ModelFprintln(w io.Writer, a ...interface{}) (int, error) {
	if _, file := w.(*os.File); file {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprintln(a...)))
}

// ModelIs replaces errors.Is under the engine.
func ModelIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

// AnyLen and AnySwap serve ModelSortSlice.
func AnyLen(x interface{}) int        { panic("symbolic only") }
func AnySwap(x interface{}, i, j int) { panic("symbolic only") }

// ModelSortSlice replaces sort.Slice under the engine. For up to 12 elements it
// is the algorithm sort.Slice uses (insertion sort).
func ModelSortSlice(x interface{}, less func(i, j int) bool) {
	n := AnyLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			AnySwap(x, j, j-1)
		}
	}
}

// Main replays one assignment natively.
func Main(hs map[string]func(int)) {
	h, ok := hs[os.Getenv("VV_HARNESS")]
	if !ok {
		fmt.Println("VV-NOHARNESS")
		os.Exit(7)
	}
	c, _ := strconv.Atoi(os.Getenv("VV_CASE"))
	curTier, _ = strconv.Atoi(os.Getenv("VV_TIER"))
	rep, _ := strconv.Atoi(os.Getenv("VV_REPEAT"))
	if rep < 1 {
		rep = 1
	}
	b, err := os.ReadFile(os.Getenv("VV_INPUTS"))
	if err == nil {
		err = json.Unmarshal(b, &inputs)
	}
	if err != nil {
		fmt.Println("VV-BADINPUT", err)
		os.Exit(7)
	}
	so := os.Stdout
	start := time.Now()
	for i := 0; i < rep && (i == 0 || time.Since(start) < 20*time.Second); i++ {
		if code := one(h, c); code != 0 {
			if code == 4 && i+1 < rep {
				continue
			}
			os.Stdout = so
			os.Exit(code)
		}
		quiet = true
	}
	os.Stdout = so
	fmt.Println("\nVV-OK")
}

func one(h func(int), c int) (code int) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				code = s.code
				return
			}
			fmt.Printf("\nVV-PANIC %v\n", r)
			code = 5
		}
	}()
	h(c)
	return 0
}
