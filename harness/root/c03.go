package seth

//zz:use common_abi

import (
	"math/big"

	"github.com/philhofer/seth/zzsym"
)

func zzCheckEncode(args []zzArg) {
	sig := "method("
	var vals []EtherType
	for i, a := range args {
		if i > 0 {
			sig += ","
		}
		sig += a.typ
		vals = append(vals, a.v)
	}
	sig += ")"
	var opts CallOpts
	opts.EncodeCall(sig, vals...)
	got := []byte(opts.Data)
	h := HashBytes([]byte(sig))
	zzsym.Assert(len(got) >= 4 && zzsym.EqBytes(got[:4], h[:4]), "call data starts with the selector")
	zzsym.Assert(zzsym.EqBytes(got[4:], zzABI(args)), "arguments follow the ABI layout")
	for _, a := range args {
		zzsym.Assert(a.same(), "encoding does not modify its arguments")
	}
	zzsym.ObsBytes("data", got)
	zzsym.Cover("enc")
}

// One argument of every kind: integers of every length 0..32 bytes, data of
// every length 0..32, bytes of every length 0..65, arrays of 0..4 elements.
//
//zz:budget=90
//zz:cover enc
func ZZ_C03_one() {
	max := [7]int{1, 33, 33, 66, 5, 5, 5}
	k := zzsym.Choose("kind", 7)
	zzCheckEncode([]zzArg{zzMakeArg(k, zzsym.Choose("size", max[k]))})
}

// Up to two (quick) / three (thorough) arguments of every kind and order, with
// boundary sizes; no argument at all.
//
//zz:budget=150 thorough_budget=1200
//zz:cover enc
func ZZ_C03_mix() {
	n := zzsym.Choose("n", zzsym.Bound(3, 4))
	var args []zzArg
	for i := 0; i < n; i++ {
		k := zzsym.Choose("kind", 7)
		args = append(args, zzMakeArg(k, zzSizes[k][zzsym.Choose("size", len(zzSizes[k]))]))
	}
	zzCheckEncode(args)
}

// Three and four arguments, static and dynamic interleaved in every order.
//
//zz:budget=90
//zz:cover enc
func ZZ_C03_interleave() {
	n := 3 + zzsym.Choose("n", zzsym.Bound(2, 3))
	var args []zzArg
	for i := 0; i < n; i++ {
		if zzsym.Choose("dyn", 2) == 1 {
			args = append(args, zzMakeArg(3, 32*(i%2)+1))
		} else {
			args = append(args, zzMakeArg(0, 0))
		}
	}
	zzCheckEncode(args)
}

// Negative integers down to -2^255 are encoded in two's complement; integers
// that need more than 32 bytes are refused.
//
//zz:budget=60
//zz:cover neg over under
func ZZ_C03_range() {
	if zzsym.Choose("what", 2) == 0 {
		n := 1 + zzsym.Choose("n", 33)
		m, b := zzBigBytes("m", n)
		if n == 33 || n == 32 && m.Cmp(new(big.Int).Lsh(big.NewInt(1), 255)) > 0 {
			i := (*Int)(new(big.Int).Neg(m))
			zzsym.Assert(zzsym.Try(func() { i.EncodeABI(nil) }), "integers below -2^255 are refused")
			zzsym.Cover("under")
			return
		}
		_ = b
		i := (*Int)(new(big.Int).Neg(m))
		got := i.EncodeABI(nil)
		zzsym.Assert(len(got) == 32, "an integer takes one word")
		two := new(big.Int).SetBytes(got)
		zzsym.Assert(new(big.Int).Add(two, m).Cmp(new(big.Int).Lsh(big.NewInt(1), 256)) == 0, "negative integers are in two's complement")
		zzsym.Cover("neg")
		return
	}
	v, _ := zzBigBytes("v", 33)
	i := (*Int)(v)
	zzsym.Assert(zzsym.Try(func() { i.EncodeABI(nil) }), "integers of more than 256 bits are refused")
	zzsym.Cover("over")
}

// Well-known selectors.
//
//zz:budget=30
func ZZ_C03_selectors() {
	a, n := new(Address), NewInt(0)
	zzsym.Assert(zzsym.EqBytes(ABIEncode("transfer(address,uint256)", a, n)[:4], []byte{0xa9, 0x05, 0x9c, 0xbb}), "selector of transfer")
	zzsym.Assert(zzsym.EqBytes(ABIEncode("transferFrom(address,address,uint256)", a, a, n)[:4], []byte{0x23, 0xb8, 0x72, 0xdd}), "selector of transferFrom")
	zzsym.Assert(zzsym.EqBytes(ABIEncode("balanceOf(address)", a)[:4], []byte{0x70, 0xa0, 0x82, 0x31}), "selector of balanceOf")
	zzsym.Assert(zzsym.EqBytes(ABIEncode("totalSupply()")[:4], []byte{0x18, 0x16, 0x0d, 0xdd}), "selector of totalSupply")
}
