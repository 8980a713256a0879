package seth

import (
	"github.com/philhofer/seth/zzsym"
)

// Metadata at the end of bytecode.
//
//zz:prop=C35

// zzIsMeta tells whether b ends with a metadata section: nine bytes of CBOR
// head, the hash and the length of all that.
func zzIsMeta(b []byte) bool {
	if len(b) < 43 {
		return false
	}
	head := []byte("\xa1\x65bzzr0\x58\x20")
	at := len(b) - 43
	return zzsym.And(zzsym.EqBytes(b[at:at+9], head), zzsym.EqBytes(b[len(b)-2:], []byte{0, 41}))
}

func zzStripped(b []byte) {
	orig := append([]byte(nil), b...)
	// what follows in memory is not part of the code
	mem := append(append([]byte(nil), b...), "\x00\x29\xa1\x65bzzr0\x58\x20\x00\x29"...)
	code := mem[:len(b)]
	var out, hash []byte
	zzsym.Assert(!zzsym.Try(func() { out = StripBytecode(code); hash = MetadataHash(code) }), "no panic")
	zzsym.ObsBytes("out", out)
	zzsym.ObsBytes("hash", hash)
	zzsym.Assert(zzsym.EqBytes(mem[:len(b)], orig), "the code is left as it is")
	if zzIsMeta(orig) {
		zzsym.Cover("metadata")
		zzsym.Assert(len(out) == len(orig)-43, "43 bytes are removed")
		zzsym.Assert(zzsym.EqBytes(out, orig[:len(orig)-43]), "the code before the metadata stays")
		zzsym.Assert(len(hash) == 32 && zzsym.EqBytes(hash, orig[len(orig)-34:len(orig)-2]), "the hash is the one in the metadata")
	} else {
		zzsym.Cover("plain")
		zzsym.Assert(len(out) == len(orig), "nothing is removed")
		zzsym.Assert(zzsym.EqBytes(out, orig), "the code is unchanged")
		zzsym.Assert(hash == nil, "no hash")
	}
}

// code of 0 to 64 (thorough 200) arbitrary bytes
//
//zz:cover plain metadata
func ZZ_C35_any() {
	zzStripped(zzsym.Bytes("code", zzsym.Choose("len", zzsym.Bound(65, 201))))
}

// code of up to 8 (thorough 40) arbitrary bytes that ends with one or two
// metadata sections, with up to 3 arbitrary bytes after each, of which one
// byte at any place is arbitrary; empty code; no code
//
//zz:budget=60
//zz:cover plain metadata two bare
func ZZ_C35_near() {
	if zzsym.Choose("none", 2) == 1 {
		zzStripped(nil)
		return
	}
	var code []byte
	code = append(code, zzsym.Bytes("code", zzsym.Choose("len", zzsym.Bound(9, 41)))...)
	if len(code) == 0 {
		zzsym.Cover("bare")
	}
	n := 1 + zzsym.Choose("sections", 2)
	for i := 0; i < n; i++ {
		code = append(code, "\xa1\x65bzzr0\x58\x20"...)
		code = append(code, zzsym.Bytes("hash", 32)...)
		code = append(code, 0, 41)
		if i == 1 {
			zzsym.Cover("two")
		}
		if t := zzsym.Choose("after", 4); t > 0 && len(code) <= 60 {
			code = append(code, zzsym.Bytes("after", t)...)
		}
	}
	// one altered place, chosen by the solver
	at := zzsym.Range("at", 0, len(code)-1)
	v := zzsym.Byte("v")
	for i := range code {
		code[i] = byte(zzsym.IteInt(i == at, int(v), int(code[i])))
	}
	zzStripped(code)
}

// two codes of up to 8 bytes that differ only in the hash of their metadata
// are equal once stripped, while codes that differ elsewhere are not
//
//zz:cover differ
func ZZ_C35_compare() {
	n := zzsym.Choose("len", 9)
	a, b := zzsym.Bytes("a", n), zzsym.Bytes("b", n)
	full := func(code, hash []byte) []byte {
		out := append([]byte(nil), code...)
		out = append(out, "\xa1\x65bzzr0\x58\x20"...)
		out = append(out, hash...)
		return append(out, 0, 41)
	}
	fa, fb := full(a, zzsym.Bytes("ha", 32)), full(b, zzsym.Bytes("hb", 32))
	sa, sb := StripBytecode(fa), StripBytecode(fb)
	same := zzsym.EqBytes(a, b)
	if !same {
		zzsym.Cover("differ")
	}
	zzsym.Assert(zzsym.EqBytes(sa, sb) == same, "stripped codes are equal exactly when the codes are")
	zzsym.Assert(zzsym.EqBytes(StripBytecode(fa[:len(fa)-1]), fa[:len(fa)-1]), "a section that is cut short stays")
}

// one to three metadata sections with any 0 to 2 bytes between them and
// after the last: only one at the end counts, and only that one goes
//
//zz:cover plain metadata
func ZZ_C35_many() {
	n := 1 + zzsym.Choose("sections", 3)
	code := []byte{0x60, 0x80}
	for i := 0; i < n; i++ {
		code = append(code, "\xa1\x65bzzr0\x58\x20"...)
		for j := 0; j < 32; j++ {
			code = append(code, byte(32*i+j))
		}
		code = append(code, 0, 41)
		if k := zzsym.Choose("after", 3); k > 0 {
			code = append(code, zzsym.Bytes("after", k)...)
		}
	}
	zzStripped(code)
}
