// Package vp is the harness API. The symbolic engine replaces these functions; this implementation
// replays concrete inputs (JSON, name -> value) against the real code.
package vp

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strconv"
)

var (
	inputs = map[string]string{}
	names  = map[string]int{}
	// Obs, when set, prints every compared value.
	Obs      bool
	tierFlag string
	// Failed is the first violated assertion.
	Failed string
)

// Load reads the inputs file.
func Load(path, tier string, obs bool) {
	tierFlag = tier
	Obs = obs
	if path == "" {
		return
	}
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &inputs); err != nil {
		panic(err)
	}
}

// Restart resets the per-run state.
func Restart() { names = map[string]int{} }

func vname(s string) string {
	k := names[s]
	names[s]++
	if k == 0 {
		return s
	}
	return fmt.Sprintf("%s#%d", s, k)
}

func fval(name string) float64 {
	s, ok := inputs[vname(name)]
	if !ok {
		return 0
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return f
}

// Float is an arbitrary finite real.
func Float(name string) float64 { return fval(name) }

// Float32 is an arbitrary finite real held in a float32.
func Float32(name string) float32 { return float32(fval(name)) }

// FloatIn is an arbitrary real in [lo,hi].
func FloatIn(name string, lo, hi float64) float64 { return math.Min(hi, math.Max(lo, fval(name))) }

// Float32In is an arbitrary real in [lo,hi] held in a float32.
func Float32In(name string, lo, hi float32) float32 {
	return float32(math.Min(float64(hi), math.Max(float64(lo), fval(name))))
}

// Floats is a slice of arbitrary reals.
func Floats(name string, n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = Float(name + "[" + strconv.Itoa(i) + "]")
	}
	return out
}

// FloatsIn is a slice of arbitrary reals in [lo,hi].
func FloatsIn(name string, n int, lo, hi float64) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = FloatIn(name+"["+strconv.Itoa(i)+"]", lo, hi)
	}
	return out
}

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int {
	s, ok := inputs[vname(name)]
	if !ok {
		return lo
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return int(n)
}

// Uint64 is an arbitrary integer in [0,n).
func Uint64(name string, n uint64) uint64 {
	s, ok := inputs[vname(name)]
	if !ok {
		return 0
	}
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return v
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return inputs[vname(name)] == "1" }

// Choose picks one of n alternatives.
func Choose(name string, n int) int {
	s, ok := inputs[vname(name)]
	if !ok {
		return 0
	}
	v, _ := strconv.Atoi(s)
	if v < 0 || v >= n {
		return 0
	}
	return v
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		fmt.Println("VP-ASSUME")
		os.Exit(4)
	}
}

// Fail reports a violated assertion.
func Fail(msg string) {
	fmt.Println("VP-FAIL " + msg)
	os.Exit(3)
}

// Assert is the property.
func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

// Val records a value for comparison between the symbolic and the native run.
func Val(msg string, v float64) {
	if Obs {
		fmt.Printf("VP-OBS %s=%v\n", msg, v)
	}
}

// Eq asserts equality of reals.
func Eq(a, b float64, msg string) {
	Val(msg+"/got", a)
	Val(msg+"/want", b)
	if a == b || a != a && b != b {
		return
	}
	if math.Abs(a-b) <= 1e-6*math.Max(1, math.Max(math.Abs(a), math.Abs(b))) {
		return
	}
	Fail(fmt.Sprintf("%s: got %v want %v", msg, a, b))
}

// Near asserts |a-b| <= tol.
func Near(a, b, tol float64, msg string) {
	Val(msg+"/got", a)
	Val(msg+"/want", b)
	if a == b || a != a && b != b {
		return
	}
	if math.Abs(a-b) <= tol*(1+1e-6) {
		return
	}
	Fail(fmt.Sprintf("%s: got %v want %v (tol %v)", msg, a, b, tol))
}

// And is a non-forking conjunction.
func And(a ...bool) bool {
	for _, x := range a {
		if !x {
			return false
		}
	}
	return true
}

// Or is a non-forking disjunction.
func Or(a ...bool) bool {
	for _, x := range a {
		if x {
			return true
		}
	}
	return false
}

// Implies is a non-forking implication.
func Implies(a, b bool) bool { return !a || b }

// Iff is a non-forking equivalence.
func Iff(a, b bool) bool { return a == b }

// IfF is a non-forking conditional.
func IfF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

// B2F is 1 for true and 0 for false.
func B2F(c bool) float64 {
	if c {
		return 1
	}
	return 0
}

// Same is equality with NaN equal to itself.
func Same(a, b float64) bool {
	return a == b || a != a && b != b || math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

// Reach marks a point that must be reachable.
func Reach(label string) {}

// Thorough tells the tier.
func Thorough() bool { return tierFlag == "thorough" }

// Symbolic is true under the symbolic engine.
func Symbolic() bool { return false }

// CPUs sets the number of processors the code under test sees.
func CPUs(n int) { runtime.GOMAXPROCS(n) }

// Schedules explores goroutine schedules with n preemptions.
func Schedules(n int) {}

// NewestFirst lets the goroutine started last go first instead of the one started first.
func NewestFirst(on bool) {}

// MapOrders explores map iteration orders.
func MapOrders(on bool) {}

// NoMerge disables if-conversion.
func NoMerge(on bool) {}

// NoRace disables race tracking.
func NoRace() {}

// NativeFloats makes concrete arithmetic round as the hardware does.
func NativeFloats(on bool) {}

// MaxSteps bounds a path.
func MaxSteps(n int) {}

// Conc forks over the values of a small integer.
func Conc(n int) int { return n }

// Panics runs f and tells whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

// Source is a random source whose draws are arbitrary values below N.
type Source struct {
	Name string
	N    uint64
}

// Uint64 draws.
func (s *Source) Uint64() uint64 { return Uint64(s.Name, s.N) }

// Seed does nothing.
func (s *Source) Seed(uint64) {}
