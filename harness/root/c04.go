package seth

import (
	"math/big"
	"strings"

	"github.com/philhofer/seth/zzsym"
)

// Mismatched call arguments are refused.
//
//zz:prop=C04

//zz:use common_abi

// the argument kinds, by the number used in zzPick
func zzPick(k int) EtherType {
	switch k {
	case 0:
		a := Address{1}
		return &a
	case 1:
		return (*Int)(big.NewInt(7))
	case 2:
		d := Data("abc")
		return &d
	case 3:
		b := Bytes("abc")
		return &b
	case 4:
		return &IntSlice{*NewInt(1)}
	case 5:
		return &AddrSlice{Address{2}}
	}
	d := DataSlice{Data("x")}
	return &d
}

var zzTypes = []struct {
	name string
	ok   [7]bool // kinds that are accepted
}{
	{"address", [7]bool{0: true}},
	{"uint", [7]bool{1: true}},
	{"uint256", [7]bool{1: true}},
	{"int", [7]bool{1: true}},
	{"int256", [7]bool{1: true}},
	{"bytes32", [7]bool{1: true, 2: true}},
	{"uint256[]", [7]bool{3: true, 4: true, 5: true, 6: true}},
	{"address[]", [7]bool{3: true, 4: true, 5: true, 6: true}},
	{"bytes32[]", [7]bool{3: true, 4: true, 5: true, 6: true}},
	{"bytes", [7]bool{3: true, 4: true, 5: true, 6: true}},
}

// Every list of types against every list of kinds, with equal or different
// lengths.
//
//zz:budget=90
//zz:cover match mismatch count
func ZZ_C04_kinds() {
	max := zzsym.Bound(2, 3)
	nt := zzsym.Choose("types", max+1)
	na := zzsym.Choose("args", max+1)
	var names []string
	var args []EtherType
	good := nt == na
	if !good {
		// the numbers decide; one type and one kind do
		for i := 0; i < nt; i++ {
			names = append(names, "uint256")
		}
		for i := 0; i < na; i++ {
			args = append(args, zzPick(1))
		}
	} else {
		for i := 0; i < nt; i++ {
			t := zzTypes[zzsym.Choose("type", len(zzTypes)-1)]
			k := zzsym.Choose("kind", 7)
			names = append(names, t.name)
			args = append(args, zzPick(k))
			if !t.ok[k] {
				good = false
			}
		}
	}
	var out []byte
	p := zzsym.Try(func() { out = ABIEncode("f("+strings.Join(names, ",")+")", args...) })
	zzsym.Assert(p == !good, "a call is refused exactly when its arguments mismatch")
	if good {
		zzsym.Assert(len(out) >= 4+32*na, "call data has a word per argument")
		zzsym.Cover("match")
	} else if nt != na {
		zzsym.Cover("count")
	} else {
		zzsym.Cover("mismatch")
	}
	// CallOpts.EncodeCall agrees
	var c CallOpts
	p2 := zzsym.Try(func() { c.EncodeCall("f("+strings.Join(names, ",")+")", args...) })
	zzsym.Assert(p2 == p, "EncodeCall refuses what ABIEncode refuses")
	if p2 {
		zzsym.Assert(c.Data == nil, "a refused call leaves no call data")
	} else {
		zzsym.Assert(zzsym.EqBytes(c.Data, out), "EncodeCall stores the call data")
	}
}

// Signatures whose types are not checked individually (bytes and friends)
// still have to have the right number of arguments.
//
//zz:budget=30
//zz:cover refused accepted
func ZZ_C04_dyn() {
	n := zzsym.Choose("args", 3)
	var args []EtherType
	for i := 0; i < n; i++ {
		args = append(args, zzPick(3))
	}
	p := zzsym.Try(func() { ABIEncode("f(bytes)", args...) })
	zzsym.Assert(p == (n != 1), "one argument for one type")
	if p {
		zzsym.Cover("refused")
	} else {
		zzsym.Cover("accepted")
	}
}

func zzIllegal(c byte) bool {
	return strings.IndexByte(" \t\n\b-+/~!@#$%^&*=|;:\"<>\\?", c) >= 0
}

// A signature is a name, one left parenthesis, and one right parenthesis at the
// end; for every byte at every position of a good signature.
//
//zz:budget=120 maxpaths=40000
//zz:cover ok bad
func ZZ_C04_syntax() {
	var sig string
	var args []EtherType
	if zzsym.Choose("base", 2) == 0 {
		sig = "a()"
	} else {
		sig = "ab(address,uint)"
		args = []EtherType{zzPick(0), zzPick(1)}
	}
	pos := zzsym.Choose("pos", len(sig))
	c := zzsym.Byte("c")
	b := []byte(sig)
	b[pos] = c
	s := string(b)
	p := zzsym.Try(func() { ABIEncode(s, args...) })
	lp := strings.IndexByte(sig, '(')
	if zzIllegal(c) {
		zzsym.Assert(p, "illegal characters are refused")
		zzsym.Cover("bad")
		return
	}
	if pos == lp && c != '(' {
		zzsym.Assert(p, "a signature without a left parenthesis is refused")
		zzsym.Cover("bad")
		return
	}
	if pos == len(sig)-1 && c != ')' {
		zzsym.Assert(p, "a signature that does not end in a right parenthesis is refused")
		zzsym.Cover("bad")
		return
	}
	if pos != len(sig)-1 && c == ')' {
		zzsym.Assert(p, "a right parenthesis before the end is refused")
		zzsym.Cover("bad")
		return
	}
	if pos < lp && c != '(' && c != ')' {
		zzsym.Assert(!p, "any other name is accepted")
		zzsym.Cover("ok")
		return
	}
	if string(b) == sig {
		zzsym.Assert(!p, "the signature itself is accepted")
	}
}

// Truncated signatures.
//
//zz:budget=30
func ZZ_C04_short() {
	sig := "f(address)"
	n := zzsym.Choose("len", len(sig))
	a := zzPick(0)
	zzsym.Assert(zzsym.Try(func() { ABIEncode(sig[:n], a) }), "a truncated signature is refused")
	zzsym.Assert(zzsym.Try(func() { ABIEncode(sig[n:], a) }) == (n > 1), "a signature with no name or no parenthesis")
}

// Data longer than a word and integers that need more than a word.
//
//zz:budget=30
func ZZ_C04_big() {
	n := zzsym.Choose("n", 40)
	d := Data(zzsym.Bytes("d", n))
	zzsym.Assert(zzsym.Try(func() { ABIEncode("f(bytes32)", &d) }) == (n > 32), "data longer than a word is refused")
	v, _ := zzBigBytes("v", n)
	zzsym.Assert(zzsym.Try(func() { ABIEncode("f(uint256)", (*Int)(v)) }) == (n > 32), "an integer longer than a word is refused")
}
