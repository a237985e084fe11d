// Package vc is the contract language of the verifier in /verif/govc.
//
// A contract is a Go function that receives the parameters of the function
// under contract, states what it requires, calls the function once and states
// what it ensures. The verifier executes it symbolically on the real code;
// compiled with the real code it is an executable check used for replay and
// for bounded search.
package vc

import (
	"math/big"
	"reflect"
)

type skipT struct{}
type Failure struct{ Label string }

// Requires is the precondition.
func Requires(b bool) {
	if !b {
		panic(skipT{})
	}
}

// Assume restricts a theorem to the inputs satisfying b.
func Assume(b bool) {
	if !b {
		panic(skipT{})
	}
}

// Known excludes inputs on which a recorded finding applies.
func Known(id string, b bool) {
	if b {
		panic(skipT{})
	}
}

// Ensures is the postcondition.
func Ensures(label string, f func() bool) {
	if !f() {
		panic(Failure{label})
	}
}

// Assert states a proved fact of a theorem.
func Assert(label string, f func() bool) {
	if !f() {
		panic(Failure{label})
	}
}

// Cut is an assertion that is available as a hypothesis afterwards.
func Cut(label string, f func() bool) {
	if !f() {
		panic(Failure{label})
	}
}

// Step is a Cut inside the proof of a contract; callers do not see it.
func Step(label string, f func() bool) {
	if !f() {
		panic(Failure{label})
	}
}

// Sampled is checked only on concrete inputs (bounded).
func Sampled(label string, f func() bool) {
	if !f() {
		panic(Failure{label})
	}
}

// Symbolic tells whether the verifier is executing the contract.
func Symbolic() bool { return false }

// Modifies lists the memory the function may change.
func Modifies(xs ...interface{}) {}

// ModifiesAny: no frame condition.
func ModifiesAny() {}

// Returns: result i is exactly v.
func Returns(i int, v interface{}) {}

// IndexOf tells which element of the slice s the pointer p points to, or -1.
func IndexOf(s, p interface{}) int {
	v := reflect.ValueOf(s)
	for i := 0; i < v.Len(); i++ {
		if v.Index(i).Addr().Pointer() == reflect.ValueOf(p).Pointer() {
			return i
		}
	}
	return -1
}

// ElementOf requires that p points to an element of s.
func ElementOf(s, p interface{}) interface{} {
	Requires(IndexOf(s, p) >= 0)
	return p
}

// ReturnsElement: result i points to an element of s.
func ReturnsElement(i int, s interface{}) {}

// Ghost names a value for loop invariants.
func Ghost(name string, v interface{}) {}

func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

// ---- values

// Snap copies bytes.
func Snap(b []byte) []byte {
	r := make([]byte, len(b))
	copy(r, b)
	return r
}

// Frozen copies a slice of any kind.
func Frozen(s interface{}) interface{} {
	v := reflect.ValueOf(s)
	w := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
	reflect.Copy(w, v)
	return w.Interface()
}

// Build makes the n bytes f(0), ..., f(n-1).
func Build(n int, f func(i int) byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = f(i)
	}
	return b
}

// BE is the big-endian value of b.
func BE(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

func I(n int64) *big.Int         { return big.NewInt(n) }
func U(n uint64) *big.Int        { return new(big.Int).SetUint64(n) }
func Add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func Sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func Mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func Neg(a *big.Int) *big.Int    { return new(big.Int).Neg(a) }
func Abs(a *big.Int) *big.Int    { return new(big.Int).Abs(a) }
func Copy(a *big.Int) *big.Int   { return new(big.Int).Set(a) }

// Mod is the Euclidean remainder.
func Mod(a, b *big.Int) *big.Int { return new(big.Int).Mod(a, b) }

// Div is the Euclidean quotient.
func Div(a, b *big.Int) *big.Int { return new(big.Int).Div(a, b) }
func Eq(a, b *big.Int) bool      { return a.Cmp(b) == 0 }
func Le(a, b *big.Int) bool      { return a.Cmp(b) <= 0 }
func Lt(a, b *big.Int) bool      { return a.Cmp(b) < 0 }
func Pow2(n uint) *big.Int       { return new(big.Int).Lsh(big.NewInt(1), n) }
func IsZero(a *big.Int) bool     { return a.Sign() == 0 }

// Byte is byte k (from the least significant) of v >= 0.
func Byte(v *big.Int, k int) byte {
	if k < 0 {
		return 0
	}
	return byte(new(big.Int).Rsh(v, uint(8*k)).Uint64())
}

// Hex parses a constant.
func Hex(s string) *big.Int {
	r, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("vc.Hex")
	}
	return r
}

// Congruent mod m.
func EqMod(a, b, m *big.Int) bool { return Mod(Sub(a, b), m).Sign() == 0 }

// PowMod is a^e modulo the prime of secp256k1.
func PowMod(a, e *big.Int) *big.Int { return new(big.Int).Exp(a, e, SecpP) }

// NoZeroDiv: the prime of secp256k1 divides a*b iff it divides a or b.
func NoZeroDiv(a, b *big.Int) {
	z := func(x *big.Int) bool { return Mod(x, SecpP).Sign() == 0 }
	if z(Mul(a, b)) != (z(a) || z(b)) {
		panic("vc.NoZeroDiv")
	}
}

// SumZero: if the prime of secp256k1 divides a and b, it divides a+b.
func SumZero(a, b *big.Int) {
	z := func(x *big.Int) bool { return Mod(x, SecpP).Sign() == 0 }
	if z(a) && z(b) && !z(Add(a, b)) {
		panic("vc.SumZero")
	}
}

// BytesEq compares contents.
func BytesEq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	return Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

// Cases verifies the contract once per value lo <= n <= hi.
func Cases(n, lo, hi int) int { return n }

// Same tells whether two pointers/slices denote the same memory.
func Same(a, b interface{}) bool { return true }
