package seth

import (
	"math/big"

	"github.com/philhofer/seth/zzsym"
)

// ABI decoding returns exactly the encoded values.
//
//zz:prop=C05

//zz:use common_abi

// zzRet is one returned value: its reference encoding, a destination, and the
// comparison of the destination with the value.
type zzRet struct {
	head []byte
	tail []byte
	dst  interface{}
	same func() bool
	poke func() // changes the bytes the destination refers to
}

const zzRetKinds = 9

func zzPad(b []byte) []byte {
	t := append(zzWordInt(len(b)), b...)
	for len(t)%32 != 0 {
		t = append(t, 0)
	}
	return t
}

// zzMakeRet: kind, size where the kind has one; old tells whether the
// destination already holds something.
func zzMakeRet(kind, size int, old bool) zzRet {
	switch kind {
	case 0:
		var a Address
		copy(a[:], zzsym.Bytes("addr", 20))
		d := new(Address)
		if old {
			copy(d[:], zzsym.Bytes("olda", 20))
		}
		return zzRet{head: zzWord(append([]byte{}, a[:]...)), dst: d, same: func() bool { return *d == a }}
	case 1:
		b := zzsym.Bytes("int", 32)
		v := new(big.Int).SetBytes(b)
		d := new(Int)
		if old {
			d = NewInt(77)
		}
		return zzRet{head: b, dst: d, same: func() bool { return d.Big().Cmp(v) == 0 }}
	case 2:
		b := zzsym.Bytes("word", 32)
		d := new(Data)
		if old {
			*d = Data("old content")
			if size == 1 {
				*d = make([]byte, 40)
			}
		}
		return zzRet{head: b, dst: d, same: func() bool { return zzsym.EqBytes(*d, b) },
			poke: func() { (*d)[0] ^= 1 }}
	case 3:
		b := zzsym.Bytes("bytes", size)
		d := new(Bytes)
		if old {
			*d = Bytes("old content")
		}
		return zzRet{tail: zzPad(b), dst: d, same: func() bool { return zzsym.EqBytes(*d, b) },
			poke: func() {
				if len(*d) > 0 {
					(*d)[0] ^= 1
				}
			}}
	case 4:
		b := zzsym.Bytes("str", size)
		d := new(string)
		if old {
			*d = "old content"
		}
		return zzRet{tail: zzPad(b), dst: d, same: func() bool { return zzsym.EqBytes([]byte(*d), b) }}
	case 5:
		var vs []*big.Int
		t := zzWordInt(size)
		for j := 0; j < size; j++ {
			b := zzsym.Bytes("elem", 32)
			vs = append(vs, new(big.Int).SetBytes(b))
			t = append(t, b...)
		}
		d := new(IntSlice)
		if old {
			*d = IntSlice{*NewInt(1)}
		}
		return zzRet{tail: t, dst: d, same: func() bool {
			ok := len(*d) == size
			if !ok {
				return false
			}
			for j := range vs {
				ok = zzsym.And(ok, (*d)[j].Big().Cmp(vs[j]) == 0)
			}
			return ok
		}}
	case 6:
		var as []Address
		t := zzWordInt(size)
		for j := 0; j < size; j++ {
			var a Address
			copy(a[:], zzsym.Bytes("elem", 20))
			as = append(as, a)
			t = append(t, zzWord(append([]byte{}, a[:]...))...)
		}
		d := new(AddrSlice)
		return zzRet{tail: t, dst: d, same: func() bool {
			ok := len(*d) == size
			if !ok {
				return false
			}
			for j := range as {
				ok = zzsym.And(ok, (*d)[j] == as[j])
			}
			return ok
		}}
	case 7:
		var ws [][]byte
		t := zzWordInt(size)
		for j := 0; j < size; j++ {
			b := zzsym.Bytes("elem", 32)
			ws = append(ws, b)
			t = append(t, b...)
		}
		d := new(DataSlice)
		return zzRet{tail: t, dst: d, same: func() bool {
			ok := len(*d) == size
			if !ok {
				return false
			}
			for j := range ws {
				ok = zzsym.And(ok, zzsym.EqBytes((*d)[j], ws[j]))
			}
			return ok
		}, poke: func() {
			if len(*d) > 0 {
				(*d)[0][0] ^= 1
			}
		}}
	}
	b := zzsym.Bytes("raw", size)
	d := new([]byte)
	if old {
		*d = []byte("old content")
	}
	return zzRet{tail: zzPad(b), dst: d, same: func() bool { return zzsym.EqBytes(*d, b) },
		poke: func() {
			if len(*d) > 0 {
				(*d)[0] ^= 1
			}
		}}
}

var zzRetSizes = [zzRetKinds][]int{{0}, {0}, {0, 1}, {0, 1, 31, 32, 33}, {0, 1, 31, 32, 33}, {0, 1, 2}, {0, 1, 2}, {0, 1, 2}, {0, 1, 31, 32, 33}}

func zzLayout(rs []zzRet) []byte {
	var head, tail []byte
	for _, r := range rs {
		if r.tail != nil {
			head = append(head, zzWordInt(32*len(rs)+len(tail))...)
			tail = append(tail, r.tail...)
		} else {
			head = append(head, r.head...)
		}
	}
	return append(head, tail...)
}

func zzCheckDecode(rs []zzRet) {
	data := zzLayout(rs)
	in := append([]byte{}, data...)
	var dst []interface{}
	for _, r := range rs {
		dst = append(dst, r.dst)
	}
	err := DecodeABI(in, dst...)
	zzsym.Assert(err == nil, "well-formed data decodes")
	if err != nil {
		return
	}
	for _, r := range rs {
		zzsym.Assert(r.same(), "every destination has its value")
	}
	zzsym.Assert(zzsym.EqBytes(in, data), "the input is not written")
	zzsym.Cover("dec")
	for i := range in {
		in[i] ^= 0xff
	}
	for _, r := range rs {
		zzsym.Assert(r.same(), "decoded values do not alias the input")
	}
	for i := range rs {
		if rs[i].poke != nil {
			rs[i].poke()
			for j := i + 1; j < len(rs); j++ {
				zzsym.Assert(rs[j].same(), "decoded values do not alias each other")
			}
			return
		}
	}
}

// One value of each kind and size, into empty and used destinations.
//
//zz:budget=60
//zz:cover dec
func ZZ_C05_one() {
	k := zzsym.Choose("kind", zzRetKinds)
	s := zzRetSizes[k]
	zzCheckDecode([]zzRet{zzMakeRet(k, s[zzsym.Choose("size", len(s))], zzsym.Choose("old", 2) == 1)})
}

// Two or three values of any kinds.
//
//zz:budget=120 thorough_budget=600
//zz:cover dec
func ZZ_C05_mix() {
	n := 2 + zzsym.Choose("n", zzsym.Bound(2, 3))
	var rs []zzRet
	for i := 0; i < n; i++ {
		k := zzsym.Choose("kind", zzsym.Bound(8, zzRetKinds))
		sz := zzRetSizes[k][0]
		if k >= 3 {
			sz = []int{0, 1, 2}[i%3]
		}
		if n == 4 && k != 0 && k != 3 && k != 5 {
			return
		}
		rs = append(rs, zzMakeRet(k, sz, false))
	}
	zzCheckDecode(rs)
}

// Go integers and booleans, with every value that fits them.
//
//zz:budget=60
//zz:cover dec
func ZZ_C05_small() {
	which := zzsym.Choose("which", 12)
	pre := zzsym.Choose("pre", 2)
	v := zzsym.Uint64("v")
	w := make([]byte, 32)
	word := func(x uint64, neg bool) {
		for i := 0; i < 8; i++ {
			w[31-i] = byte(x >> uint(8*i))
		}
		for i := 0; i < 24; i++ {
			if neg {
				w[i] = 0xff
			}
		}
	}
	var dst interface{}
	var same func() bool
	switch which {
	case 0:
		d := new(bool)
		word(v&1, false)
		dst, same = d, func() bool { return *d == (v&1 == 1) }
	case 1:
		d := new(uint8)
		word(uint64(uint8(v)), false)
		dst, same = d, func() bool { return *d == uint8(v) }
	case 2:
		d := new(uint16)
		word(uint64(uint16(v)), false)
		dst, same = d, func() bool { return *d == uint16(v) }
	case 3:
		d := new(uint32)
		word(uint64(uint32(v)), false)
		dst, same = d, func() bool { return *d == uint32(v) }
	case 4:
		d := new(uint64)
		word(v, false)
		dst, same = d, func() bool { return *d == v }
	case 5:
		d := new(uint)
		word(v, false)
		dst, same = d, func() bool { return *d == uint(v) }
	case 6:
		d := new(int8)
		word(uint64(int64(int8(v))), int8(v) < 0)
		dst, same = d, func() bool { return *d == int8(v) }
	case 7:
		d := new(int16)
		word(uint64(int64(int16(v))), int16(v) < 0)
		dst, same = d, func() bool { return *d == int16(v) }
	case 8:
		d := new(int32)
		word(uint64(int64(int32(v))), int32(v) < 0)
		dst, same = d, func() bool { return *d == int32(v) }
	case 9:
		d := new(int64)
		word(v, int64(v) < 0)
		dst, same = d, func() bool { return *d == int64(v) }
	case 10:
		d := new(int)
		word(v, int64(v) < 0)
		dst, same = d, func() bool { return *d == int(int64(v)) }
	default:
		d := new(big.Int)
		copy(w, zzsym.Bytes("w", 32))
		ref := new(big.Int).SetBytes(w)
		dst, same = d, func() bool { return d.Cmp(ref) == 0 }
	}
	rs := []zzRet{{head: w, dst: dst, same: same}}
	if pre == 1 {
		rs = append([]zzRet{zzMakeRet(0, 0, false)}, rs...)
	}
	zzCheckDecode(rs)
}

// The text form: an ABIDecoder reads 0x-hex.
//
//zz:budget=60
//zz:cover dec
func ZZ_C05_text() {
	rs := []zzRet{zzMakeRet(3, 2, false), zzMakeRet(0, 0, false), zzMakeRet(1, 0, false)}
	data := zzLayout(rs)
	txt := append([]byte("0x"), make([]byte, 2*len(data))...)
	const digits = "0123456789abcdef"
	for i, c := range data {
		txt[2+2*i] = digits[c>>4]
		txt[3+2*i] = digits[c&15]
	}
	d := NewABIDecoder(rs[0].dst, rs[1].dst, rs[2].dst)
	zzsym.Assert(d.UnmarshalText(txt) == nil, "hex return data decodes")
	for _, r := range rs {
		zzsym.Assert(r.same(), "every destination has its value")
	}
	zzsym.Cover("dec")
}

// What is encoded by EncodeCall decodes to the same values.
//
//zz:budget=60
//zz:cover dec
func ZZ_C05_roundtrip() {
	a := zzMakeArg(0, 0)
	b := zzMakeArg(3, 5)
	c := zzMakeArg(4, 2)
	d := zzMakeArg(1, 32)
	out := ABIEncode("f(address,bytes,uint256[],uint256)", a.v, b.v, c.v, d.v)
	var ra Address
	var rb Bytes
	var rc IntSlice
	var rd Int
	zzsym.Assert(DecodeABI(out[4:], &ra, &rb, &rc, &rd) == nil, "call data decodes")
	zzsym.Assert(ra == *a.v.(*Address), "address")
	zzsym.Assert(zzsym.EqBytes(rb, *b.v.(*Bytes)), "bytes")
	zzsym.Assert(len(rc) == 2, "count")
	for i := range rc {
		zzsym.Assert(rc[i].Big().Cmp((*c.v.(*IntSlice))[i].Big()) == 0, "element")
	}
	zzsym.Assert(rd.Big().Cmp(d.v.(*Int).Big()) == 0, "integer")
	zzsym.Cover("dec")
}
