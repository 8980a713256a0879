package main

import (
	"encoding/json"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
)

// Jump tables.
//
//zz:prop=C39
//zz:use common_eth

// zzPreambles are the ways to get the selector on the stack.
var zzPreambles = [...]string{
	"\x60\x00\x35\x7c\x01" + zz28 + "\x90\x04\x63\xff\xff\xff\xff\x16",
	"\x63\xff\xff\xff\xff\x60\x00\x35\x7c\x01" + zz28 + "\x90\x04\x16",
	"\x63\xff\xff\xff\xff\x7c\x01" + zz28 + "\x60\x00\x35\x04\x16",
	"\x60\x00\x35\x7c\x01" + zz28 + "\x90\x04",
	"\x63\xff\xff\xff\xff\x60\xe0\x60\x02\x0a\x60\x00\x35\x04\x16",
	"\x60\xe0\x60\x02\x0a\x60\x00\x35\x04",
}

const zz28 = "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"

type zzJump struct {
	sel  []byte
	dest int
}

// zzTable reads the table that t begins with.
func zzTable(t []byte) (out []zzJump) {
	for {
		var sel []byte
		at := 0
		push4 := func() bool {
			if len(t) < at+5 || t[at] != 0x63 {
				return false
			}
			sel = t[at+1 : at+5]
			at += 5
			return true
		}
		op := func(b byte) bool {
			if len(t) <= at || t[at] != b {
				return false
			}
			at++
			return true
		}
		switch {
		case op(0x80):
			if !push4() || !op(0x14) {
				return out
			}
		case push4():
			if !op(0x81) || !op(0x14) {
				return out
			}
		default:
			return out
		}
		if len(t) <= at || t[at] < 0x60 || t[at] > 0x63 {
			return out
		}
		n := zzsym.Concrete(int(t[at]) - 0x5f)
		at++
		if len(t) < at+n {
			return out
		}
		dest := 0
		for _, b := range t[at : at+n] {
			dest = dest<<8 | int(b)
		}
		at += n
		if !op(0x57) {
			return out
		}
		out = append(out, zzJump{sel, dest})
		t = t[at:]
	}
}

func zzEntries(code []byte) (got []jmpentry, exited bool) {
	// what follows in memory is not code
	mem := append(append([]byte(nil), code...), "\x80\x63\x01\x02\x03\x04\x14\x61\x01\x02\x57\x80\x63\x01\x02\x03\x04\x14\x61\x01\x02\x57"...)
	exited = zzRun(func() { got = jumpentries(mem[:len(code):len(code)]) })
	return
}

func zzCheckTable(code, table []byte) {
	want := zzTable(table)
	got, exited := zzEntries(code)
	zzsym.Assert(!exited, "a dispatch is found")
	zzsym.ObsInt("entries", int64(len(got)))
	zzsym.Assert(len(got) == len(want), "as many entries as the code has")
	if len(want) > 0 {
		zzsym.Cover("entries")
	}
	for i := range want {
		zzsym.Assert(zzsym.EqBytes(got[i].prefix[:], want[i].sel), "the selector is the one compared")
		zzsym.Assert(got[i].jmpdest == want[i].dest, "the target is the one jumped to")
	}
}

// code that starts with 0 to 2 arbitrary bytes and a preamble that masks the
// selector, followed by 0 to 24 (thorough 36) arbitrary bytes
//
//zz:budget=150 split=8 splitdepth=2
//zz:cover entries
func ZZ_C39_any() {
	pre := zzsym.Bytes("pre", zzsym.Choose("prelen", zzsym.Bound(2, 3)))
	n := zzsym.Choose("len", zzsym.Bound(25, 37))
	tail := zzsym.Bytes("tail", n)
	code := append(append([]byte(nil), pre...), zzPreambles[0]...)
	zzCheckTable(append(code, tail...), tail)
}

// any preamble after 0 to 5 bytes of other code, and up to 1 (thorough 3) entries of
// either form with any selector and a target of 1 to 4 bytes, followed by
// nothing, a fallback, or an entry that has one byte of another value or is
// cut short
//
//zz:budget=150 split=8 splitdepth=3
//zz:cover entries end cut
func ZZ_C39_table() {
	var code []byte
	switch zzsym.Choose("pre", zzsym.Bound(2, 3)) {
	case 1:
		code = append(code, 0x60, 0x80, 0x60, 0x40, 0x52)
	case 2:
		code = append(code, 0x60)
	}
	code = append(code, zzPreambles[zzsym.Choose("preamble", len(zzPreambles))]...)
	start := len(code)
	entry := func(name string) []byte {
		var e []byte
		sel := zzsym.Bytes(name+"-sel", 4)
		form := zzsym.Choose(name+"-form", 2)
		if form == 0 {
			e = append(e, 0x80, 0x63)
			e = append(e, sel...)
			e = append(e, 0x14)
		} else {
			e = append(e, 0x63)
			e = append(e, sel...)
			e = append(e, 0x81, 0x14)
		}
		w := 2
		if form == 0 || zzsym.Bound(0, 1) == 1 {
			w = 1 + zzsym.Choose(name+"-width", 4)
		}
		e = append(e, byte(0x5f+w))
		e = append(e, zzsym.Bytes(name+"-dest", w)...)
		return append(e, 0x57)
	}
	n := zzsym.Choose("entries", zzsym.Bound(2, 4))
	for i := 0; i < n; i++ {
		code = append(code, entry("e")...)
	}
	switch zzsym.Choose("end", 4) {
	case 0:
		zzsym.Cover("end")
	case 1:
		code = append(code, 0x5b, 0x60, 0x00, 0x80, 0xfd)
	case 2:
		e := entry("last")
		at := zzsym.Choose("at", len(e))
		e[at] = zzsym.Byte("v")
		code = append(code, e...)
		if zzsym.Choose("more", zzsym.Bound(1, 2)) == 1 {
			code = append(code, 0x5b, 0x60, 0x00, 0x80)
		}
	case 3:
		e := entry("last")
		code = append(code, e[:zzsym.Choose("cut", len(e))]...)
		zzsym.Cover("cut")
	}
	zzCheckTable(code, code[start:])
}

// code without a preamble, of 0 to 8 arbitrary bytes or with a preamble that
// lacks a byte: refused
//
//zz:cover refused
func ZZ_C39_none() {
	var code []byte
	if zzsym.Choose("how", 2) == 0 {
		code = zzsym.Bytes("code", zzsym.Choose("len", 9))
	} else {
		p := []byte(zzPreambles[4+zzsym.Choose("preamble", 2)])
		at := zzsym.Choose("at", len(p))
		code = append(append(code, p[:at]...), p[at+1:]...)
		if len(p) == 15 && (at < 5 || at == 14) {
			return // what is left is another one
		}
	}
	_, exited := zzEntries(code)
	zzsym.Assert(exited, "code without a dispatch is refused")
	zzsym.Cover("refused")
}

// the check of a function against the table of a contract with two entries
// with any selectors: a call of a function that is not there is refused
// unless forced
//
//zz:budget=60
//zz:cover there missing forced
func ZZ_C39_call() {
	fns := [...]string{"transfer(address,uint256)", "a()", ""}
	sels := [...][]byte{{0xa9, 0x05, 0x9c, 0xbb}, {0x0d, 0xbe, 0x67, 0x1f}}
	k := zzsym.Choose("fn", 2)
	s1, s2 := zzsym.Bytes("s1", 4), zzsym.Bytes("s2", 4)
	code := []byte(zzPreambles[0])
	code = append(code, 0x80, 0x63)
	code = append(code, s1...)
	code = append(code, 0x14, 0x61, 0x01, 0x02, 0x57, 0x63)
	code = append(code, s2...)
	code = append(code, 0x81, 0x14, 0x61, 0x03, 0x04, 0x57, 0x5b, 0x60, 0x00, 0x80, 0xfd)
	node := &zzNode{h: func(n int, req *seth.RPCRequest, res *seth.RPCResponse) error {
		zzsym.Assert(req.Method == "eth_getCode", "the code is asked for")
		res.Result = json.RawMessage(`"0x` + zzHex(code) + `"`)
		return nil
	}}
	addr := seth.Address{1}
	forcecall = zzsym.Choose("force", 2) == 1
	args := []string{"0x00000000000000000000000000000000000000ff", "5"}
	if k == 1 {
		args = nil
	}
	var out []seth.EtherType
	exited := zzRun(func() { out = parsefn(seth.NewClientTransport(node), &addr, fns[k], args) })
	there := zzsym.Or(zzsym.EqBytes(s1, sels[k]), zzsym.EqBytes(s2, sels[k]))
	switch {
	case forcecall:
		zzsym.Assert(!exited && len(node.reqs) == 0, "a forced call is not checked")
		zzsym.Cover("forced")
	case there:
		zzsym.Assert(!exited, "a function in the table can be called")
		zzsym.Assert(len(out) == len(args), "with its arguments")
		zzsym.Cover("there")
	default:
		zzsym.Assert(exited, "a function that is not in the table is refused")
		zzsym.Cover("missing")
	}
}
