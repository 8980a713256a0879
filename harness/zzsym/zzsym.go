// Package zzsym is the harness API. Under the symbolic executor the functions
// below are intercepted and yield symbolic values; compiled natively they
// replay one recorded assignment.
package zzsym

import (
	"fmt"
	"math/big"
)

// RuntimeError stands for the Go runtime's panics under the executor.
type RuntimeError struct{ Msg string }

func (e *RuntimeError) Error() string { return "runtime error: " + e.Msg }
func (e *RuntimeError) RuntimeError() {}

// OpaqueError is an error whose text is not modelled.
type OpaqueError struct {
	Msg     string
	Wrapped error
}

func (e *OpaqueError) Error() string { return e.Msg }
func (e *OpaqueError) Unwrap() error { return e.Wrapped }

// Stop is panicked with by the native replay.
type Stop struct{ Kind, Msg string }

type NDVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

var (
	in  []NDVal
	pos int
	Out []string // observations
)

// Load installs an assignment (native replay).
func Load(v []NDVal) { in, pos, Out = v, 0, nil }

//
//go:norace
func next(name, kind string) *big.Int {
	for pos < len(in) && (in[pos].Kind == "sched" || in[pos].Kind == "fresh") {
		pos++
	}
	if pos >= len(in) {
		return new(big.Int) // past the recorded path: unconstrained
	}
	v := in[pos]
	if v.Name != name || v.Kind != kind {
		panic(Stop{"diverged", fmt.Sprintf("asked for %s/%s, recorded %s/%s", name, kind, v.Name, v.Kind)})
	}
	pos++
	x, ok := new(big.Int).SetString(v.Val, 10)
	if !ok {
		panic(Stop{"diverged", "bad value " + v.Val})
	}
	return x
}

// Byte and friends return an arbitrary value.
func Byte(name string) byte     { return byte(next(name, "byte").Uint64()) }
func Uint16(name string) uint16 { return uint16(next(name, "u16").Uint64()) }
func Uint32(name string) uint32 { return uint32(next(name, "u32").Uint64()) }
func Uint64(name string) uint64 { return next(name, "u64").Uint64() }
func Int64(name string) int64   { return int64(next(name, "u64").Uint64()) }
func Int(name string) int       { return int(next(name, "u64").Uint64()) }
func Int32(name string) int32   { return int32(next(name, "u32").Uint64()) }
func Bool(name string) bool     { return next(name, "bool").Sign() != 0 }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name, "byte").Uint64())
	}
	return b
}

// Str returns a string of n arbitrary bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Choose returns an arbitrary value in [0,n); each value is explored
// separately (a concrete number on every path).
func Choose(name string, n int) int {
	v := int(next(name, "choose").Uint64())
	if v >= n {
		panic(Stop{"diverged", "choice out of range"})
	}
	return v
}

// Range returns an arbitrary integer in [lo,hi].
func Range(name string, lo, hi int) int {
	v := int(next(name, "u64").Uint64())
	if v < lo || v > hi {
		if pos >= len(in) {
			return lo
		}
		panic(Stop{"diverged", "value out of range"})
	}
	return v
}

// BigU returns an arbitrary non-negative integer of at most bits bits.
func BigU(name string, bits int) *big.Int { return next(name, "big") }

// BigS returns an arbitrary integer with |x| < 2^bits.
func BigS(name string, bits int) *big.Int {
	v := next(name, "big")
	if next(name, "bool").Sign() != 0 {
		v.Neg(v)
	}
	return v
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(Stop{"assume", ""})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Stop{"assert", msg})
	}
}

// AssertMod asserts that a and b are the same modulo m; the executor decides
// it in integer arithmetic.
func AssertMod(a, b, m *big.Int, msg string) {
	d := new(big.Int).Sub(a, b)
	Assert(d.Mod(d, m).Sign() == 0, msg)
}

// Identical tells whether a and b are the same number; in the executor, whether
// they are for all values of the unknowns.
func Identical(a, b *big.Int) bool { return a.Cmp(b) == 0 }

// Monomial tells whether a is not 0; in the executor, whether it is a small
// constant times a product of unknowns.
func Monomial(a *big.Int) bool { return a.Sign() != 0 }

// AssertLess asserts that a < b; the executor decides it in integer arithmetic.
func AssertLess(a, b *big.Int, msg string) {
	Assert(a.Cmp(b) < 0, msg)
}

// LowBytes is the lowest n bytes of a number that is not negative.
func LowBytes(x *big.Int, n int) []byte {
	m := new(big.Int).Lsh(big.NewInt(1), uint(8*n))
	return m.Mod(x, m).FillBytes(make([]byte, n))
}

// Cover marks a point that must be reachable.
func Cover(name string) {}

// Symbolic reports whether the symbolic executor is running.
func Symbolic() bool { return false }

// Concrete forces a value to be explored value by value.
func Concrete(x int) int { return x }

// Obs* record observations: the executor's prediction for a path is compared
// with what the real code does on the same inputs.
func ObsBytes(name string, b []byte) { Out = append(Out, fmt.Sprintf("%s=%x", name, b)) }
func ObsStr(name string, s string)   { Out = append(Out, fmt.Sprintf("%s=%x", name, s)) }
func ObsInt(name string, v int64)    { Out = append(Out, fmt.Sprintf("%s=%d", name, v)) }
func ObsBool(name string, v bool)    { Out = append(Out, fmt.Sprintf("%s=%v", name, v)) }
func ObsBig(name string, v *big.Int) { Out = append(Out, fmt.Sprintf("%s=%d", name, v)) }

// Try runs f and reports whether it panicked.
func Try(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(Stop); ok {
				panic(s)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// And, Or and Ite combine conditions without branching.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// EqBytes compares without branching per byte.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Known tells whether b is true in any case; for models only.
func Known(b bool) bool { return b }

// Fresh is any n bytes; for models only, as the real code knows no such bytes.
func Fresh(name string, n int) []byte { panic("zzsym: Fresh outside symbolic execution") }

// UFBytes is an uninterpreted function of its arguments, for models only.
func UFBytes(name string, n int, args ...[]byte) []byte {
	panic("zzsym: UFBytes outside symbolic execution")
}
