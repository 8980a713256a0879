package seth

import (
	"math/big"

	"github.com/philhofer/seth/zzsym"
)

// zzArg is one argument with its reference encoding.
type zzArg struct {
	v    EtherType
	typ  string
	head []byte // static: the word
	tail []byte // dynamic: count word and content
	same func() bool
}

func zzWord(b []byte) []byte { // right aligned
	w := make([]byte, 32)
	copy(w[32-len(b):], b)
	return w
}

func zzWordInt(n int) []byte {
	w := make([]byte, 32)
	for i := 0; i < 4; i++ {
		w[31-i] = byte(n >> uint(8*i))
	}
	return w
}

func zzBigBytes(name string, n int) (*big.Int, []byte) {
	b := zzsym.Bytes(name, n)
	if n > 0 {
		zzsym.Assume(b[0] != 0)
	}
	return new(big.Int).SetBytes(b), b
}

// zzMakeArg makes an argument of the kind with symbolic content; size is the
// number of bytes or elements where the kind has one.
func zzMakeArg(kind, size int) zzArg {
	switch kind {
	case 0:
		a := new(Address)
		copy(a[:], zzsym.Bytes("addr", 20))
		old := *a
		return zzArg{v: a, typ: "address", head: zzWord(old[:]), same: func() bool { return *a == old }}
	case 1:
		v, b := zzBigBytes("int", size)
		i := (*Int)(new(big.Int).Set(v))
		return zzArg{v: i, typ: "uint256", head: zzWord(b), same: func() bool { return i.Big().Cmp(v) == 0 }}
	case 2:
		b := zzsym.Bytes("data", size)
		d := Data(append([]byte{}, b...))
		w := make([]byte, 32)
		copy(w, b)
		return zzArg{v: &d, typ: "bytes32", head: w, same: func() bool { return zzsym.EqBytes(d, b) }}
	case 3:
		b := zzsym.Bytes("bytes", size)
		d := Bytes(append([]byte{}, b...))
		t := append(zzWordInt(size), b...)
		for len(t)%32 != 0 {
			t = append(t, 0)
		}
		return zzArg{v: &d, typ: "bytes", tail: t, same: func() bool { return zzsym.EqBytes(d, b) }}
	case 4:
		var s IntSlice
		t := zzWordInt(size)
		for j := 0; j < size; j++ {
			v, b := zzBigBytes("elem", 1+31*(j%2))
			s = append(s, Int(*v))
			t = append(t, zzWord(b)...)
		}
		return zzArg{v: &s, typ: "uint256[]", tail: t, same: func() bool { return len(s) == size }}
	case 5:
		var s AddrSlice
		t := zzWordInt(size)
		for j := 0; j < size; j++ {
			var a Address
			copy(a[:], zzsym.Bytes("elem", 20))
			s = append(s, a)
			t = append(t, zzWord(a[:])...)
		}
		return zzArg{v: &s, typ: "address[]", tail: t, same: func() bool { return len(s) == size }}
	}
	var s DataSlice
	t := zzWordInt(size)
	for j := 0; j < size; j++ {
		b := zzsym.Bytes("elem", 32)
		s = append(s, Data(b))
		t = append(t, b...)
	}
	return zzArg{v: &s, typ: "bytes32[]", tail: t, same: func() bool { return len(s) == size }}
}

// zzABI is the reference encoding of the argument area.
func zzABI(args []zzArg) []byte {
	var head, tail []byte
	for _, a := range args {
		if a.tail != nil {
			head = append(head, zzWordInt(32*len(args)+len(tail))...)
			tail = append(tail, a.tail...)
		} else {
			head = append(head, a.head...)
		}
	}
	return append(head, tail...)
}

var zzSizes = [7][]int{
	{0}, {0, 1, 31, 32}, {0, 1, 31, 32}, {0, 1, 31, 32, 33}, {0, 1, 2}, {0, 1, 2}, {0, 1, 2},
}
