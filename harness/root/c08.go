package seth

import (
	"math/big"

	"github.com/philhofer/seth/zzsym"
)

// Signatures are stored in canonical low-s form.
//
//zz:prop=C08

// NewSignature for every r and every s below the group order.
//
//zz:budget=120
//zz:cover low high
func ZZ_C08_new() {
	k := []int{0, 1, 31, 2, 16}[zzsym.Choose("zeros", zzsym.Bound(2, 5))]
	rb, sb := make([]byte, 32), zzsym.Bytes("s", 32)
	copy(rb[k:], zzsym.Bytes("r", 32-k))
	zzsym.Assume(rb[k] != 0)
	r, s := new(big.Int).SetBytes(rb), new(big.Int).SetBytes(sb)
	zzsym.Assume(zzsym.And(s.Sign() > 0, s.Cmp(order) < 0))
	s0 := new(big.Int).Set(s)
	v := zzsym.Int("v")
	zzsym.Assume(zzsym.Or(v == 0, v == 1))
	sig := NewSignature(r, s, v)
	zzsym.Assert(s.Cmp(s0) == 0, "the arguments are not changed")
	zzsym.Assert(zzsym.EqBytes(sig[:32], rb), "r is stored as a 32-byte number")
	got := new(big.Int).SetBytes(sig[32:64])
	if s.Cmp(halforder) > 0 {
		zzsym.Assert(new(big.Int).Add(got, s).Cmp(order) == 0, "high s is negated")
		zzsym.Assert(int(sig[64]) == 1-v, "and the parity flipped")
		zzsym.Cover("high")
	} else {
		zzsym.Assert(got.Cmp(s) == 0, "low s is stored")
		zzsym.Assert(int(sig[64]) == v, "with its parity")
		zzsym.Cover("low")
	}
	pr, ps, pv := sig.Parts()
	zzsym.Assert(zzsym.And(pr.Cmp(r) == 0, ps.Cmp(got) == 0), "the parts read back")
	zzsym.Assert(pv == int(sig[64]), "the parity reads back")
	if r.Cmp(order) < 0 {
		zzsym.Assert(sig.Valid(), "a signature built from numbers in range is valid")
	}
}

func zzConstBig(s string) *big.Int {
	v, _ := new(big.Int).SetString(s, 16)
	return v
}

// The documented constants, written out.
var zzN = zzConstBig("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")

func zzValid(z *Signature) bool {
	r, s := new(big.Int).SetBytes(z[:32]), new(big.Int).SetBytes(z[32:64])
	return zzsym.And(zzsym.And(r.Sign() > 0, r.Cmp(zzN) < 0),
		zzsym.And(s.Sign() > 0, new(big.Int).Lsh(s, 1).Cmp(zzN) < 0))
}

// Valid for every 65 bytes.
//
//zz:budget=60
//zz:cover valid invalid
func ZZ_C08_valid() {
	z := new(Signature)
	copy(z[:], zzsym.Bytes("z", 65))
	want := zzValid(z)
	got := z.Valid()
	zzsym.Assert(got == want, "valid exactly when r is in 1..n-1 and s in 1..(n-1)/2")
	if want {
		zzsym.Cover("valid")
	} else {
		zzsym.Cover("invalid")
	}
}

// Recover refuses every invalid signature.
//
//zz:budget=60
//zz:cover refused
func ZZ_C08_recover() {
	z := new(Signature)
	copy(z[:], zzsym.Bytes("z", 65))
	zzsym.Assume(!zzValid(z))
	var h Hash
	copy(h[:], zzsym.Bytes("h", 32))
	k, err := z.Recover(&h)
	zzsym.Assert(k == nil && err != nil, "invalid signatures are refused")
	zzsym.Cover("refused")
}

// An r that is not the x coordinate of any point, for every parity byte.
//
//zz:budget=60
//zz:cover refused
func ZZ_C08_offcurve() {
	z := new(Signature)
	// x^3+7 is not a square for these
	z[31] = []byte{5, 7, 9, 10, 11}[zzsym.Choose("r", 5)]
	z[63] = 1 + byte(zzsym.Choose("s", 3))
	z[64] = []byte{0, 1, 27, 28}[zzsym.Choose("v", 4)]
	zzsym.Assert(z.Valid(), "in range")
	var h Hash
	h[31] = 1
	k, err := z.Recover(&h)
	zzsym.Assert(k == nil && err != nil, "an r without a curve point is refused")
	zzsym.Cover("refused")
}

// A signature survives its text form.
//
//zz:budget=60
//zz:cover ok
func ZZ_C08_text() {
	z := new(Signature)
	copy(z[:], zzsym.Bytes("z", 65))
	t, err := z.MarshalText()
	zzsym.Assert(err == nil && len(t) == 132, "132 characters")
	p, err := ParseSignature(string(t))
	zzsym.Assert(err == nil && *p == *z, "the text reads back")
	zzsym.Cover("ok")
}
