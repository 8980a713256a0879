package ec

import (
	"math/big"

	"github.com/philhofer/seth/zzsym"
)

// Field arithmetic.
//
//zz:prop=C10
//zz:use common_field

// zzField is any field value of a magnitude up to 2^bits (words of 26+bits bits,
// the last one of 22+bits).
func zzField(name string, bits uint) *fieldVal {
	f := new(fieldVal)
	for i := range f.n {
		w := 26 + bits
		if i == 9 {
			w = 22 + bits
		}
		f.n[i] = zzsym.Uint32(name) & uint32(1<<w-1)
	}
	return f
}

// zzMagnitude is any field value of the magnitude m.
func zzMagnitude(name string, m uint32) *fieldVal {
	f := new(fieldVal)
	ok := true
	for i := range f.n {
		top := uint32(1<<26 - 1)
		if i == 9 {
			top = 1<<22 - 1
		}
		f.n[i] = zzsym.Uint32(name)
		ok = zzsym.And(ok, f.n[i] <= top*m)
	}
	zzsym.Assume(ok)
	return f
}

// zzNormal is any value below the prime, as normalising leaves it.
func zzNormal(name string) *fieldVal {
	f := zzField(name, 0)
	zzsym.Assume(zzValue(f).Cmp(zzP) < 0)
	return f
}

// zzSmall tells whether a value has the magnitude that a product has.
func zzSmall(f *fieldVal) bool {
	ok := true
	for i := range f.n {
		w := uint(26)
		if i == 9 {
			w = 22
		}
		// the carry into a word may exceed the magnitude 1 by a bit
		ok = zzsym.And(ok, f.n[i] < 1<<w+1<<(w-6))
	}
	return ok
}

// zzWithin tells whether a value has the magnitude m.
func zzWithin(f *fieldVal, m uint32) bool {
	ok := true
	for i := range f.n {
		top := uint32(1<<26 - 1)
		if i == 9 {
			top = 1<<22 - 1
		}
		ok = zzsym.And(ok, f.n[i] <= top*m)
	}
	return ok
}

// products of two values of magnitude up to 8, into a third, or into one of
// them
//
//zz:ints=on
//zz:cover product
func ZZ_C10_mul() {
	a, b := zzField("a", 3), zzField("b", 3)
	va := zzValue(a)
	want := new(big.Int).Mul(va, zzValue(b))
	f := new(fieldVal)
	var r *fieldVal
	switch zzsym.Choose("into", 4) {
	case 0:
		r = f.Mul2(a, b)
	case 1:
		f = a
		r = f.Mul(b)
	case 2:
		f = b
		r = f.Mul2(a, f)
	case 3:
		b = a
		want = new(big.Int).Mul(va, va)
		f = a
		r = f.Mul(a)
	}
	zzsym.Assert(r == f, "the result is the receiver")
	zzsym.AssertMod(zzValue(f), want, zzP, "the product of the values")
	zzsym.Assert(zzSmall(f), "the product is small")
	zzsym.Cover("product")
}

// squares of values of magnitude up to 8, into another, or in place
//
//zz:ints=on
//zz:cover square
func ZZ_C10_square() {
	a := zzField("a", 3)
	va := zzValue(a)
	want := new(big.Int).Mul(va, va)
	f := new(fieldVal)
	var r *fieldVal
	if zzsym.Choose("into", 2) == 0 {
		r = f.SquareVal(a)
	} else {
		f = a
		r = f.Square()
	}
	zzsym.Assert(r == f, "the result is the receiver")
	zzsym.AssertMod(zzValue(f), want, zzP, "the square of the value")
	zzsym.Assert(zzSmall(f), "the square is small")
	zzsym.Cover("square")
}

// sums of values of a magnitude up to 31 each, small numbers added, and values
// times up to 8 of a magnitude of up to 7
//
//zz:ints=on
//zz:cover add add2 addint mulint
func ZZ_C10_add() {
	switch zzsym.Choose("op", 4) {
	case 0:
		a, b := zzMagnitude("a", 31), zzMagnitude("b", 31)
		want := new(big.Int).Add(zzValue(a), zzValue(b))
		r := a.Add(b)
		zzsym.Assert(r == a, "the result is the receiver")
		zzsym.AssertMod(zzValue(a), want, zzP, "the sum of the values")
		zzsym.Assert(zzWithin(a, 62), "the sum has the magnitude of both")
		zzsym.Cover("add")
	case 1:
		a, b := zzMagnitude("a", 31), zzMagnitude("b", 31)
		want := new(big.Int).Add(zzValue(a), zzValue(b))
		f := zzField("f", 6)
		r := f.Add2(a, b)
		zzsym.Assert(r == f, "the result is the receiver")
		zzsym.AssertMod(zzValue(f), want, zzP, "the sum of the values")
		zzsym.Assert(zzWithin(f, 62), "the sum has the magnitude of both")
		zzsym.Cover("add2")
	case 2:
		a := zzMagnitude("a", 31)
		n := zzsym.Uint64("n")
		zzsym.Assume(n < 1<<26)
		want := new(big.Int).Add(zzValue(a), new(big.Int).SetUint64(n))
		r := a.AddInt(uint(n))
		zzsym.Assert(r == a, "the result is the receiver")
		zzsym.AssertMod(zzValue(a), want, zzP, "the value and the number")
		zzsym.Cover("addint")
	case 3:
		a := zzMagnitude("a", 7)
		n := zzsym.Choose("n", 9)
		want := new(big.Int).Mul(zzValue(a), big.NewInt(int64(n)))
		r := a.MulInt(uint(n))
		zzsym.Assert(r == a, "the result is the receiver")
		zzsym.AssertMod(zzValue(a), want, zzP, "the value times the number")
		zzsym.Cover("mulint")
	}
}

// values of the magnitudes 1 to 31 negated, into another, or in place
//
//zz:ints=on
//zz:cover negate
func ZZ_C10_negate() {
	m := uint32(zzsym.Choose("magnitude", 31)) + 1
	a := zzMagnitude("a", m)
	want := new(big.Int).Neg(zzValue(a))
	f := new(fieldVal)
	var r *fieldVal
	if zzsym.Choose("into", 2) == 0 {
		r = f.NegateVal(a, m)
	} else {
		f = a
		r = f.Negate(m)
	}
	zzsym.Assert(r == f, "the result is the receiver")
	zzsym.AssertMod(zzValue(f), want, zzP, "the value negated")
	zzsym.Assert(zzWithin(f, m+1), "one magnitude more")
	zzsym.Cover("negate")
}

// values of any magnitude up to 63 normalised
//
//zz:ints=on merge=off
//zz:cover normal
func ZZ_C10_normalize() {
	a := zzMagnitude("a", 63)
	in := zzValue(a)
	r := a.Normalize()
	zzsym.Assert(r == a, "the result is the receiver")
	zzsym.Assert(zzWithin(a, 1), "each word within its bits")
	out := zzValue(a)
	zzsym.Assert(out.Cmp(zzP) < 0, "below the prime")
	zzsym.AssertMod(out, in, zzP, "the same residue")
	zzsym.Cover("normal")
}

// any 32 bytes loaded and stored, and any value below the prime stored and
// loaded; shorter slices are the number they spell
//
//zz:cover load store slice int
func ZZ_C10_bytes() {
	switch zzsym.Choose("op", 4) {
	case 0:
		var b [32]byte
		copy(b[:], zzsym.Bytes("b", 32))
		f := zzField("f", 6)
		r := f.SetBytes(&b)
		zzsym.Assert(r == f, "the result is the receiver")
		zzsym.Assert(zzValue(f).Cmp(new(big.Int).SetBytes(b[:])) == 0, "the number that the bytes spell")
		zzsym.Assert(zzWithin(f, 1), "of magnitude 1")
		zzsym.Assert(zzsym.EqBytes(f.Bytes()[:], b[:]), "stored as loaded")
		zzsym.Cover("load")
	case 1:
		f := zzNormal("f")
		var b [32]byte
		copy(b[:], zzsym.Bytes("old", 32))
		f.PutBytes(&b)
		zzsym.Assert(zzValue(f).Cmp(new(big.Int).SetBytes(b[:])) == 0, "the bytes of the value")
		g := new(fieldVal).SetBytes(f.Bytes())
		zzsym.Assert(g.Equals(f), "loaded as stored")
		zzsym.Cover("store")
	case 2:
		b := zzsym.Bytes("b", zzsym.Choose("len", 33))
		f := zzField("f", 6)
		f.SetByteSlice(b)
		zzsym.Assert(zzValue(f).Cmp(new(big.Int).SetBytes(b)) == 0, "the number that the slice spells")
		zzsym.Cover("slice")
	case 3:
		f := zzField("f", 6)
		n := zzsym.Uint32("n")
		f.SetInt(uint(n))
		zzsym.Assert(zzValue(f).Cmp(new(big.Int).SetUint64(uint64(n))) == 0, "the number")
		f.Zero()
		zzsym.Assert(zzValue(f).Sign() == 0, "zero")
		zzsym.Cover("int")
	}
}

// comparisons of any two normalised values
//
//zz:cover equal different zero odd
func ZZ_C10_compare() {
	a, b := zzNormal("a"), zzNormal("b")
	same := zzValue(a).Cmp(zzValue(b)) == 0
	eq := a.Equals(b)
	zzsym.Assert(eq == same, "equal values")
	if eq {
		zzsym.Cover("equal")
	} else {
		zzsym.Cover("different")
	}
	z := a.IsZero()
	zzsym.Assert(z == (zzValue(a).Sign() == 0), "the zero test")
	if z {
		zzsym.Cover("zero")
	}
	odd := a.IsOdd()
	zzsym.Assert(odd == (zzValue(a).Bit(0) == 1), "the odd test")
	if odd {
		zzsym.Cover("odd")
	}
	c := new(fieldVal).Set(a)
	zzsym.Assert(c.Equals(a), "a copy")
}

// In the exponent reading a field value is a power of some element, and its
// words are the exponent modulo 2^260.

func zzExpSum(f, a, b *fieldVal) *fieldVal {
	var r fieldVal
	c := uint64(0)
	for i := range r.n {
		c += uint64(a.n[i]) + uint64(b.n[i])
		r.n[i] = uint32(c & (1<<26 - 1))
		c >>= 26
	}
	*f = r
	return f
}

func Model_exponent__seth_ec__P0fieldVal__Mul2(f, a, b *fieldVal) *fieldVal { return zzExpSum(f, a, b) }
func Model_exponent__seth_ec__P0fieldVal__Mul(f, a *fieldVal) *fieldVal     { return zzExpSum(f, f, a) }
func Model_exponent__seth_ec__P0fieldVal__SquareVal(f, a *fieldVal) *fieldVal {
	return zzExpSum(f, a, a)
}
func Model_exponent__seth_ec__P0fieldVal__Square(f *fieldVal) *fieldVal { return zzExpSum(f, f, f) }

// inverses of any power of any element, by the exponents (multiplying adds
// them): the power p-2, which is the inverse
//
//zz:ints=on models=exponent
//zz:cover inverse
func ZZ_C10_inverse() {
	a := zzField("a", 0)
	in := zzValue(a)
	r := a.Inverse()
	zzsym.Assert(r == a, "the result is the receiver")
	if zzsym.Symbolic() {
		e := new(big.Int).Sub(zzP, big.NewInt(2))
		zzsym.AssertMod(zzValue(a), e.Mul(e, in), new(big.Int).Lsh(big.NewInt(1), 260), "the power p-2")
	} else {
		v := new(big.Int).Mod(in, zzP)
		v.Mul(v, zzValue(a)).Mod(v, zzP)
		zzsym.Assert(v.Cmp(big.NewInt(1)) == 0 || new(big.Int).Mod(in, zzP).Sign() == 0, "the power p-2")
	}
	zzsym.Cover("inverse")
}
