package seth

import (
	"math/big"

	"github.com/philhofer/seth/zzsym"
)

// ABI decoding of hostile data returns an error, never panics.
//
//zz:prop=C06

// zzDst makes a destination of each supported kind.
func zzDst(k int) interface{} {
	switch k {
	case 0:
		return new(Address)
	case 1:
		return new(Int)
	case 2:
		return new(big.Int)
	case 3:
		return new(Data)
	case 4:
		return new(bool)
	case 5:
		return new(uint8)
	case 6:
		return new(uint64)
	case 7:
		return new(int64)
	case 8:
		return new(int)
	case 9:
		return new(string)
	case 10:
		return new([]byte)
	case 11:
		return new(Bytes)
	case 12:
		return new(IntSlice)
	case 13:
		return new(AddrSlice)
	}
	return new(DataSlice)
}

const zzDstKinds = 15

func zzStatic(k int) bool { return k < 9 }

// zzDstLen is what the destination now holds, in bytes of data behind it.
func zzDstLen(d interface{}) int {
	switch d := d.(type) {
	case *string:
		return len(*d)
	case *[]byte:
		return len(*d)
	case *Bytes:
		return len(*d)
	case *IntSlice:
		return 32 * len(*d)
	case *AddrSlice:
		return 32 * len(*d)
	case *DataSlice:
		return 32 * len(*d)
	}
	return 0
}

func zzTryDecode(v []byte, dst ...interface{}) {
	var err error
	p := zzsym.Try(func() { err = DecodeABI(v, dst...) })
	zzsym.Assert(!p, "decoding does not panic")
	if p {
		return
	}
	if err != nil {
		zzsym.Cover("err")
		return
	}
	zzsym.Assert(len(v) >= 32*len(dst), "data shorter than the words asked for is an error")
	for _, d := range dst {
		n := zzDstLen(d)
		zzsym.Assert(n <= len(v), "no more is decoded than the data has")
	}
	zzsym.Cover("ok")
}

// Any bytes of any length, one destination.
//
//zz:budget=150 thorough_budget=600
//zz:cover ok err
func ZZ_C06_one() {
	k := zzsym.Choose("kind", zzDstKinds)
	n := []int{0, 1, 11, 12, 20, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128}[zzsym.Choose("len", zzsym.Bound(14, 15))]
	zzTryDecode(zzsym.Bytes("v", n), zzDst(k))
}

// Any bytes, two or three destinations.
//
//zz:budget=200 thorough_budget=900
//zz:cover ok err
func ZZ_C06_more() {
	k1 := zzsym.Choose("kind1", zzDstKinds)
	k2 := zzsym.Choose("kind2", zzDstKinds)
	if !zzStatic(k1) && !zzStatic(k2) && zzsym.Bound(0, 1) == 0 && k1 != 9 && k1 != 12 {
		return
	}
	n := []int{64, 63, 96, 32, 40, 97, 128}[zzsym.Choose("len", zzsym.Bound(3, 7))]
	zzTryDecode(zzsym.Bytes("v", n), zzDst(k1), zzDst(k2))
}

// A destination of an unsupported type is an error.
//
//zz:budget=20
//zz:cover err
func ZZ_C06_unsupported() {
	v := zzsym.Bytes("v", 64)
	zzsym.Assert(DecodeABI(v, new(float64)) != nil, "unsupported")
	zzsym.Assert(DecodeABI(v, nil) != nil, "nil")
	zzsym.Assert(DecodeABI(v, new(int), struct{}{}) != nil, "not a pointer")
	zzsym.Assert(DecodeABI(nil, new(int)) != nil, "no data")
	zzsym.Assert(DecodeABI(nil) == nil, "nothing asked for")
	zzsym.Cover("err")
}

// The text form rejects what is not hex, without panicking.
//
//zz:budget=60
//zz:cover ok err
func ZZ_C06_text() {
	n := []int{0, 1, 2, 3, 10, 66}[zzsym.Choose("len", 6)]
	t := zzsym.Bytes("t", n)
	if n == 66 {
		for _, c := range t[8:] {
			zzsym.Assume(c == '0')
		}
	}
	var i Int
	d := NewABIDecoder(&i)
	var err error
	p := zzsym.Try(func() { err = d.UnmarshalText(t) })
	zzsym.Assert(!p, "decoding text does not panic")
	if err != nil {
		zzsym.Cover("err")
	} else {
		zzsym.Assert(n == 66, "text shorter than a word is an error")
		zzsym.Cover("ok")
	}
}
