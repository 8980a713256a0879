package seth

//zz:use common

import "github.com/philhofer/seth/zzsym"

// Data and Bytes of every content up to 40 (quick) / 80 (thorough) bytes: text
// round trip, canonical text ("0x" then two lower-case digits per byte).
//
//zz:budget=60
//zz:cover rt
func ZZ_C01_data_roundtrip() {
	n := zzsym.Choose("n", zzsym.Bound(41, 81))
	b := zzsym.Bytes("b", n)
	d := Data(append([]byte{}, b...))
	txt, err := d.MarshalText()
	zzsym.Assert(err == nil, "MarshalText of Data succeeds")
	zzsym.Assert(len(txt) == 2+2*n && txt[0] == '0' && txt[1] == 'x', "Data text is 0x followed by two digits per byte")
	for i := 0; i < n; i++ {
		h, ok1 := zzHexval(txt[2+2*i])
		l, ok2 := zzHexval(txt[3+2*i])
		zzsym.Assert(zzsym.And(zzsym.And(ok1, ok2), h<<4|l == b[i]), "Data text digits encode the bytes")
	}
	var back Data
	zzsym.Assert(back.UnmarshalText(txt) == nil, "Data text decodes")
	zzsym.Assert(zzsym.EqBytes(back, b), "Data round trip")
	bb := Bytes(append([]byte{}, b...))
	txt2, err := bb.MarshalText()
	zzsym.Assert(err == nil && zzsym.EqBytes(txt2, txt), "Bytes text equals Data text")
	var back2 Bytes
	zzsym.Assert(back2.UnmarshalText(txt2) == nil && zzsym.EqBytes(back2, b), "Bytes round trip")
	zzsym.Assert((&d).String() == string(txt), "Data.String equals its text")
	zzsym.ObsBytes("txt", txt)
	zzsym.Cover("rt")
}

// Address and Hash: round trip for every value, decoded into a destination
// with arbitrary previous content.
//
//zz:budget=60
//zz:cover addr hash
func ZZ_C01_fixed_roundtrip() {
	if zzsym.Choose("which", 2) == 0 {
		var a, dst Address
		copy(a[:], zzsym.Bytes("a", 20))
		copy(dst[:], zzsym.Bytes("old", 20))
		txt, err := a.MarshalText()
		zzsym.Assert(err == nil && len(txt) == 42, "Address text has 42 characters")
		zzsym.Assert(a.String() == string(txt), "Address.String equals its text")
		switch zzsym.Choose("entry", 3) {
		case 0:
			zzsym.Assert(dst.UnmarshalText(txt) == nil, "Address text decodes")
			zzsym.Assert(dst == a, "Address decode does not depend on the destination's old content")
		case 1:
			p, err := ParseAddress(string(txt))
			zzsym.Assert(err == nil && *p == a, "ParseAddress(String(a)) == a")
		case 2:
			zzsym.Assert(dst.FromString(string(txt)) == nil && dst == a, "Address.FromString does not depend on the destination's old content")
		}
		zzsym.ObsBytes("txt", txt)
		zzsym.Cover("addr")
		return
	}
	var h, dst Hash
	copy(h[:], zzsym.Bytes("h", 32))
	copy(dst[:], zzsym.Bytes("old", 32))
	txt, err := h.MarshalText()
	zzsym.Assert(err == nil && len(txt) == 66, "Hash text has 66 characters")
	zzsym.Assert(h.String() == string(txt), "Hash.String equals its text")
	switch zzsym.Choose("entry", 3) {
	case 0:
		zzsym.Assert(dst.UnmarshalText(txt) == nil, "Hash text decodes")
		zzsym.Assert(dst == h, "Hash decode does not depend on the destination's old content")
	case 1:
		p, err := ParseHash(string(txt))
		zzsym.Assert(err == nil && *p == h, "ParseHash(String(h)) == h")
	case 2:
		zzsym.Assert(dst.FromString(string(txt)) == nil && dst == h, "Hash.FromString does not depend on the destination's old content")
	}
	zzsym.ObsBytes("txt", txt)
	zzsym.Cover("hash")
}

// Every text of up to 10 (quick) / 16 (thorough) arbitrary characters given to
// Data: accepted exactly when it is 0x and hex digits of either case, an odd
// count of digits meaning a leading zero nibble; value as written.
//
//zz:budget=90
//zz:cover ok bad
func ZZ_C01_data_parse() {
	n := zzsym.Choose("n", zzsym.Bound(11, 17))
	s := zzsym.Bytes("s", n)
	valid := n >= 2 && s[0] == '0' && s[1] == 'x'
	if valid {
		for i := 2; i < n; i++ {
			_, ok := zzHexval(s[i])
			valid = zzsym.And(valid, ok)
		}
	}
	var d Data
	err := d.UnmarshalText(s)
	if !valid {
		zzsym.Assert(err != nil, "Data rejects text that is not 0x-prefixed hex")
		zzsym.Cover("bad")
		return
	}
	zzsym.Assert(err == nil, "Data accepts every 0x-prefixed hex text")
	digits := n - 2
	zzsym.Assert(len(d) == (digits+1)/2, "Data length is half the digits, rounded up")
	for i := 0; i < digits; i++ {
		v, _ := zzHexval(s[n-1-i])
		got := d[len(d)-1-i/2]
		if i%2 == 1 {
			got >>= 4
		}
		zzsym.Assert(got&15 == v, "Data value equals the digits")
	}
	if digits%2 == 1 {
		zzsym.Assert(d[0]>>4 == 0, "odd digit count has a zero leading nibble")
	}
	zzsym.ObsBytes("d", d)
	zzsym.Cover("ok")
}

// Address text of every length 0..46 with arbitrary characters: accepted only
// as 0x plus 40 (or 39) hex digits; the value is the digits.
//
//zz:budget=90
//zz:cover ok bad
func ZZ_C01_addr_parse() {
	n := 38 + zzsym.Choose("n", 8)
	s := zzsym.Bytes("s", n)
	var a Address
	err := a.UnmarshalText(s)
	valid := s[0] == '0' && s[1] == 'x'
	for i := 2; i < n; i++ {
		_, ok := zzHexval(s[i])
		valid = zzsym.And(valid, ok)
	}
	if err != nil {
		zzsym.Assert(!zzsym.And(valid, n == 42), "Address accepts every 0x-prefixed 40-digit text")
		zzsym.Cover("bad")
		return
	}
	zzsym.Assert(zzsym.And(valid, n == 42 || n == 41), "Address rejects malformed text and wrong lengths")
	for i := 0; i < n-2; i++ {
		v, _ := zzHexval(s[n-1-i])
		got := a[19-i/2]
		if i%2 == 1 {
			got >>= 4
		}
		zzsym.Assert(got&15 == v, "Address value equals the digits")
	}
	zzsym.Cover("ok")
}
