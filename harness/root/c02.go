package seth

//zz:use common

import (
	"math/big"

	"github.com/philhofer/seth/zzsym"
)

// minimal hex digits of v by repeated division.
func zzMinHex(v *big.Int) []byte {
	if v.Sign() == 0 {
		return []byte("0x0")
	}
	n := (v.BitLen() + 3) / 4
	out := make([]byte, 2+n)
	out[0], out[1] = '0', 'x'
	for i := 0; i < n; i++ {
		d := byte(new(big.Int).And(new(big.Int).Rsh(v, uint(4*(n-1-i))), big.NewInt(15)).Uint64())
		if d < 10 {
			out[2+i] = '0' + d
		} else {
			out[2+i] = 'a' + d - 10
		}
	}
	return out
}

// Every non-negative Int below 2^256: minimal hex text, which reads back equal
// as text, as bare and quoted JSON, into a destination with any old value.
//
//zz:budget=90
//zz:cover zero rt
func ZZ_C02_int_roundtrip() {
	nb := zzsym.Choose("bytes", 33) // length of the value in bytes
	raw := zzsym.Bytes("v", nb)
	if nb > 0 {
		zzsym.Assume(raw[0] != 0)
	}
	v := new(big.Int).SetBytes(raw)
	i := (*Int)(new(big.Int).Set(v))
	txt, err := i.MarshalText()
	zzsym.Assert(err == nil, "MarshalText of an Int succeeds")
	zzsym.Assert(zzsym.EqBytes(txt, zzMinHex(v)), "Int text is the minimal hex quantity")
	zzsym.Assert(i.String() == string(txt), "Int.String equals its text")
	zzsym.Assert(i.Big().Cmp(v) == 0, "marshalling does not change the Int")
	var back Int
	back.SetInt64(int64(zzsym.Choose("old", 2) * 77))
	switch zzsym.Choose("entry", 4) {
	case 0:
		err = back.UnmarshalText(txt)
	case 1:
		err = back.UnmarshalJSON(txt)
	case 2:
		err = back.UnmarshalJSON([]byte("\"" + string(txt) + "\""))
	case 3:
		err = back.FromString(string(txt))
	}
	zzsym.Assert(err == nil && back.Big().Cmp(v) == 0, "Int text round trip")
	if nb == 0 {
		zzsym.Cover("zero")
	}
	zzsym.ObsBytes("txt", txt)
	zzsym.Cover("rt")
}

// Every 64-bit quantity round trips, with minimal text; itox agrees.
//
//zz:budget=60
//zz:cover rt
func ZZ_C02_uint64_roundtrip() {
	u := zzsym.Uint64("u")
	txt, err := Uint64(u).MarshalText()
	zzsym.Assert(err == nil, "MarshalText of a Uint64 succeeds")
	zzsym.Assert(zzsym.EqBytes(txt, zzMinHex(new(big.Int).SetUint64(u))), "Uint64 text is the minimal hex quantity")
	back := Uint64(zzsym.Uint64("old"))
	if zzsym.Choose("json", 2) == 0 {
		err = back.UnmarshalText(txt)
	} else {
		err = back.UnmarshalJSON([]byte("\"" + string(txt) + "\""))
	}
	zzsym.Assert(err == nil && uint64(back) == u, "Uint64 text round trip")
	if u < 1<<63 {
		q := itox(int64(u))
		zzsym.Assert(zzsym.EqBytes(q, []byte("\""+string(txt)+"\"")), "a block number is sent as the quoted minimal quantity")
	}
	zzsym.Cover("rt")
}

// Every text of 0x and up to 18 (quick) / 66 (thorough) hex digits of either
// case: Int gets the value; Uint64 gets it exactly when it fits.
//
//zz:budget=60
//zz:cover fits over
func ZZ_C02_hex_parse() {
	n := 1 + zzsym.Choose("n", zzsym.Bound(18, 66))
	s := append([]byte("0x"), zzsym.Bytes("s", n)...)
	want := new(big.Int)
	for k := 0; k < n; k++ {
		d, ok := zzHexval(s[2+k])
		zzsym.Assume(ok)
		want.Add(want.Lsh(want, 4), big.NewInt(int64(d)))
	}
	var i Int
	zzsym.Assert(i.UnmarshalText(s) == nil && i.Big().Cmp(want) == 0, "Int equals its hex digits")
	u := Uint64(7)
	err := u.UnmarshalText(s)
	if want.IsUint64() {
		zzsym.Assert(err == nil && uint64(u) == want.Uint64(), "Uint64 equals its hex digits")
		zzsym.Cover("fits")
	} else {
		zzsym.Assert(err != nil, "Uint64 rejects values of more than 64 bits")
		zzsym.Cover("over")
	}
}

// Every decimal text of up to 21 digits without leading zeros, optionally
// negative: value for Int; Uint64 accepts exactly 0..2^64-1.
//
//zz:budget=120
//zz:cover fits over neg
func ZZ_C02_dec_parse() {
	n := 1 + zzsym.Choose("n", zzsym.Bound(21, 24))
	s := zzsym.Bytes("s", n)
	want := new(big.Int)
	for k := 0; k < n; k++ {
		zzsym.Assume(zzsym.And(s[k] >= '0', s[k] <= '9'))
		want.Add(want.Mul(want, big.NewInt(10)), big.NewInt(int64(s[k]-'0')))
	}
	if n > 1 {
		zzsym.Assume(s[0] != '0')
	}
	txt := s
	neg := zzsym.Choose("neg", 2) == 1
	if neg {
		txt = append([]byte("-"), s...)
		want.Neg(want)
	}
	var i Int
	zzsym.Assert(i.UnmarshalText(txt) == nil && i.Big().Cmp(want) == 0, "Int equals its decimal digits")
	u := Uint64(7)
	var err error
	if zzsym.Choose("quoted", 2) == 0 {
		err = u.UnmarshalJSON(txt)
	} else {
		err = u.UnmarshalJSON([]byte("\"" + string(txt) + "\""))
	}
	if want.IsUint64() {
		zzsym.Assert(err == nil && uint64(u) == want.Uint64(), "Uint64 equals its decimal digits")
		zzsym.Cover("fits")
	} else {
		zzsym.Assert(err != nil, "Uint64 rejects negative values and values of more than 64 bits")
		zzsym.Cover("over")
		if neg {
			zzsym.Cover("neg")
		}
	}
}

// Arbitrary text of up to 5 (quick) / 7 (thorough) characters as JSON: never a
// panic; text with a character that no number contains is rejected; null
// leaves the value alone.
//
//zz:budget=120
//zz:cover null bad
func ZZ_C02_garbage() {
	n := zzsym.Choose("n", zzsym.Bound(6, 8))
	s := zzsym.Bytes("s", n)
	i := NewInt(99)
	u := Uint64(99)
	err := i.UnmarshalJSON(s)
	err2 := u.UnmarshalJSON(s)
	if string(s) == "null" {
		zzsym.Assert(err == nil && err2 == nil && i.Int64() == 99 && u == 99, "null leaves a quantity unchanged")
		zzsym.Cover("null")
		return
	}
	in := s
	if n >= 2 && s[0] == '"' && s[n-1] == '"' {
		in = s[1 : n-1]
	}
	bad := len(in) == 0
	for k := range in {
		c := in[k]
		_, hex := zzHexval(c)
		ok := zzsym.Or(hex, zzsym.Or(zzsym.Or(c == 'x', c == 'X'), zzsym.Or(zzsym.Or(c == 'o', c == 'O'), zzsym.Or(c == '_', zzsym.Or(c == '+', c == '-')))))
		bad = zzsym.Or(bad, !ok)
	}
	zzsym.Assert(zzsym.Implies(bad, err != nil), "Int rejects text that is not a number")
	zzsym.Assert(zzsym.Implies(bad, err2 != nil), "Uint64 rejects text that is not a number")
	if bad {
		zzsym.Cover("bad")
	}
}
