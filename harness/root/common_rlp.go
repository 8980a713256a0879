package seth

import "github.com/philhofer/seth/zzsym"

// reference RLP

func zzLen(n int, short, long byte) []byte {
	if n < 56 {
		return []byte{short + byte(n)}
	}
	var l []byte
	for m := n; m > 0; m >>= 8 {
		l = append([]byte{byte(m)}, l...)
	}
	return append([]byte{long + byte(len(l))}, l...)
}

func zzItem(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return append([]byte{}, b...)
	}
	return append(zzLen(len(b), 0x80, 0xb7), b...)
}

func zzList(items ...[]byte) []byte {
	var p []byte
	for _, it := range items {
		p = append(p, zzItem(it)...)
	}
	return append(zzLen(len(p), 0xc0, 0xf7), p...)
}

// zzQuant makes a number of exactly n significant bytes.
func zzQuant(name string, n int) []byte {
	b := zzsym.Bytes(name, n)
	if n > 0 {
		zzsym.Assume(b[0] != 0)
	}
	return b
}

func zzU64(b []byte) uint64 {
	var v uint64
	for _, c := range b {
		v = v<<8 | uint64(c)
	}
	return v
}
