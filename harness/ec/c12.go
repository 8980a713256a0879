package ec

import (
	"math/big"

	"github.com/philhofer/seth/zzsym"
)

// Scalar recoding.
//
//zz:prop=C12

// zzHalf is the limit for the halves of a scalar.
var zzHalf = new(big.Int).Lsh(big.NewInt(1), 129)

// Model_padded__math_big__PInt__Bytes has 17 bytes for every number: the same
// number, with zeros before it.
func Model_padded__math_big__PInt__Bytes(x *big.Int) []byte {
	v := new(big.Int).Set(x)
	if v.Sign() < 0 {
		v.Neg(v)
	}
	zzsym.AssertLess(v, zzHalf, "halves of at most 129 bits")
	return zzsym.LowBytes(v, 17)
}

// Model_reduced__math_big__PInt__Bytes is likewise, of 32 bytes and below the
// order.
func Model_reduced__math_big__PInt__Bytes(x *big.Int) []byte {
	zzsym.AssertLess(x, secp256k1.N, "below the order")
	return zzsym.LowBytes(x, 32)
}

// every 32-byte scalar split: the halves recombine modulo the group order and
// have at most 129 bits (the bytes of the halves are read with leading zeros)
//
//zz:ints=on models=padded merge=off
//zz:cover split
func ZZ_C12_split() {
	k := zzsym.Bytes("k", 32)
	b1, b2, s1, s2 := secp256k1.splitK(k)
	k1, k2 := new(big.Int).SetBytes(b1), new(big.Int).SetBytes(b2)
	zzsym.Assert(s1 >= -1 && s1 <= 1 && s2 >= -1 && s2 <= 1, "signs")
	if s1 < 0 {
		k1.Neg(k1)
	}
	if s2 < 0 {
		k2.Neg(k2)
	}
	k2.Mul(k2, secp256k1.lambda)
	zzsym.AssertMod(k1.Add(k1, k2), new(big.Int).SetBytes(k), secp256k1.N, "the halves recombine")
	zzsym.Cover("split")
}

// every string of up to 5 bytes (thorough: 33) recoded: non-adjacent digits
// that stand for the number
//
//zz:cover longer same
func ZZ_C12_naf() {
	n := zzsym.Choose("n", zzsym.Bound(6, 34))
	k := zzsym.Bytes("k", n)
	keep := append([]byte{}, k...)
	pos, neg := NAF(k)
	zzsym.Assert(len(pos) == len(neg), "digits of one length")
	zzsym.Assert(len(pos) == n || len(pos) == n+1, "at most one byte more")
	zzsym.Assert(zzsym.EqBytes(k, keep), "the scalar unchanged")
	p, m := new(big.Int).SetBytes(pos), new(big.Int).SetBytes(neg)
	zzsym.Assert(new(big.Int).And(p, m).Sign() == 0, "one digit in each place")
	d := new(big.Int).Or(p, m)
	zzsym.Assert(new(big.Int).And(d, new(big.Int).Rsh(d, 1)).Sign() == 0, "no two digits are adjacent")
	zzsym.Assert(p.Sub(p, m).Cmp(new(big.Int).SetBytes(k)) == 0, "the digits stand for the number")
	if len(pos) > n {
		zzsym.Cover("longer")
	} else {
		zzsym.Cover("same")
	}
}

// scalars of up to 32 bytes, and of 33 to 48 bytes (thorough: 80), reduced (the
// bytes are read with leading zeros)
//
//zz:ints=on models=reduced merge=off
//zz:cover short long
func ZZ_C12_reduce() {
	n := zzsym.Choose("n", zzsym.Bound(49, 81))
	k := zzsym.Bytes("k", n)
	keep := append([]byte{}, k...)
	r := secp256k1.moduloReduce(k)
	zzsym.Assert(len(r) <= 32, "at most 32 bytes")
	zzsym.AssertMod(new(big.Int).SetBytes(r), new(big.Int).SetBytes(k), secp256k1.N, "the same scalar")
	zzsym.Assert(zzsym.EqBytes(k, keep), "the scalar given is as it was")
	if n > 32 {
		zzsym.Cover("long")
	} else {
		zzsym.Cover("short")
	}
}
