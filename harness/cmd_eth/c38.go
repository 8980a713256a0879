package main

import (
	"encoding/json"
	"errors"
	"math/big"
	"os"
	"strconv"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
)

// Arguments of the command line.
//
//zz:prop=C38
//zz:use common_eth
//zz:use common_keys
//zz:use common_cli

// zzDigit is the value of a digit, or 99.
func zzDigit(c byte) int {
	switch {
	case '0' <= c && c <= '9':
		return int(c - '0')
	case 'a' <= c && c <= 'z':
		return int(c-'a') + 10
	case 'A' <= c && c <= 'Z':
		return int(c-'A') + 10
	}
	return 99
}

// zzReadInt reads an integer in Go's syntax (without underscores).
func zzReadInt(s []byte) (v *big.Int, ok bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	base := 10
	if len(s) > 1 && s[0] == '0' {
		switch s[1] {
		case 'x', 'X':
			base, s = 16, s[2:]
		case 'o', 'O':
			base, s = 8, s[2:]
		case 'b', 'B':
			base, s = 2, s[2:]
		default:
			base, s = 8, s[1:]
		}
	}
	if len(s) == 0 {
		return nil, false
	}
	v = new(big.Int)
	for _, c := range s {
		d := zzDigit(c)
		if d >= base {
			return nil, false
		}
		v.Mul(v, big.NewInt(int64(base)))
		v.Add(v, big.NewInt(int64(d)))
	}
	if neg {
		v.Neg(v)
	}
	return v, true
}

// zzFits tells whether v is a value of the type.
func zzFits(v *big.Int, width int, signed bool) bool {
	lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(width))
	if signed {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	return v.Cmp(lo) >= 0 && v.Cmp(hi) < 0
}

// zzWordOf is v as a word, in two's complement.
func zzWordOf(v *big.Int) []byte {
	u := v
	if v.Sign() < 0 {
		u = new(big.Int).Add(v, new(big.Int).Lsh(big.NewInt(1), 256))
	}
	b := u.Bytes()
	w := make([]byte, 32)
	copy(w[32-len(b):], b)
	return w
}

func zzCount(n int) []byte {
	w := make([]byte, 32)
	w[30], w[31] = byte(n>>8), byte(n)
	return w
}

func zzLeft(b []byte) []byte {
	n := (len(b) + 31) / 32 * 32
	w := make([]byte, n)
	copy(w, b)
	return w
}

// zzDo parses the one argument of a function that takes the type, as the
// commands do, and gives the data of the call without the selector.
func zzDo(typ, text string) (data []byte, exited bool) {
	sig := "f(" + typ + ")"
	exited = zzRun(func() {
		addr := seth.Address{1}
		args := parsefn(nil, &addr, sig, []string{text})
		zzsym.Assert(len(args) == 1, "one argument")
		opts := seth.CallOpts{}
		opts.EncodeCall(sig, args...)
		data = opts.Data[4:]
	})
	zzsym.ObsBool("exited", exited)
	zzsym.ObsBytes("data", data)
	return
}

var zzWidths = [...]int{8, 16, 32, 64, 128, 256}

func zzIntType(w int, signed bool) string {
	t := "uint" + strconv.Itoa(w)
	if signed {
		t = t[1:]
	}
	return t
}

func zzCheckInt(text []byte, w int, signed bool) {
	v, ok := zzReadInt(text)
	data, exited := zzDo(zzIntType(w, signed), string(text))
	if !ok {
		zzsym.Assert(exited, "text that is not an integer is refused")
		zzsym.Cover("text")
		return
	}
	if !zzFits(v, w, signed) {
		zzsym.Assert(exited, "an integer out of range is refused")
		zzsym.Cover("range")
		return
	}
	zzsym.Assert(!exited, "an integer in range is accepted")
	zzsym.Assert(zzsym.EqBytes(data, zzWordOf(v)), "the value is the one that was written")
	zzsym.Cover("value")
}

// every text of 0 to 3 (thorough 4) bytes other than '_' and bytes above 127 as an
// 8-bit integer
//
//zz:budget=200 split=8 splitdepth=2
//zz:cover text range value
func ZZ_C38_text() {
	n := zzsym.Choose("len", zzsym.Bound(4, 5))
	b := zzsym.Bytes("text", n)
	for _, c := range b {
		zzsym.Assume(c < 128)
		zzsym.Assume(c != '_')
	}
	zzCheckInt(b, 8, zzsym.Choose("signed", 2) == 1)
}

// decimal numbers of 1 to 3 (8 bits), 5 (16 bits) or 6 (16 bits) digits with any digits
// and either sign
//
//zz:budget=200 split=8 splitdepth=3
//zz:cover range value
func ZZ_C38_decimal() {
	signed := zzsym.Choose("signed", 2) == 1
	w, n := 8, 0
	switch k := zzsym.Choose("digits", zzsym.Bound(4, 5)); k {
	case 0, 1, 2:
		n = k + 1
	case 3:
		w, n = 16, 5
	case 4:
		w, n = 16, 6
	}
	var t []byte
	if zzsym.Choose("neg", 2) == 1 {
		t = append(t, '-')
	}
	for i := 0; i < n; i++ {
		d := zzsym.Byte("d")
		zzsym.Assume(d <= 9)
		if i == 0 && n > 1 {
			zzsym.Assume(d != 0)
		}
		t = append(t, '0'+d)
	}
	zzCheckInt(t, w, signed)
}

// hex numbers of every width with either sign: with as many digits as the width has or
// one more, with any digits (quick: any first four and last two digits beyond 64 bits)
//
//zz:budget=150 thorough_budget=600 split=8 splitdepth=4
//zz:cover range value
func ZZ_C38_hex() {
	w := zzWidths[zzsym.Choose("width", len(zzWidths))]
	signed := zzsym.Choose("signed", 2) == 1
	neg := zzsym.Choose("neg", 2) == 1
	var t []byte
	if neg {
		t = append(t, '-')
	}
	n := w/4 + zzsym.Choose("more", 2)
	t = append(t, "0x"...)
	v := new(big.Int)
	size := (n + 1) / 2
	var b []byte
	if size <= 9 || zzsym.Bound(0, 1) == 1 {
		b = zzsym.Bytes("v", size)
	} else {
		b = append(b, zzsym.Bytes("v", 2)...)
		for len(b) < size-1 {
			b = append(b, byte(0x5a+37*len(b)))
		}
		b = append(b, zzsym.Byte("v"))
	}
	if n%2 == 1 {
		zzsym.Assume(b[0] < 16)
	}
	v.SetBytes(b)
	h := zzHex(b)
	t = append(t, h[len(h)-n:]...)
	if neg {
		v.Neg(v)
	}
	data, exited := zzDo(zzIntType(w, signed), string(t))
	if !zzFits(v, w, signed) {
		zzsym.Assert(exited, "an integer out of range is refused")
		zzsym.Cover("range")
		return
	}
	zzsym.Assert(!exited, "an integer in range is accepted")
	zzsym.Assert(zzsym.EqBytes(data, zzWordOf(v)), "the value is the one that was written")
	zzsym.Cover("value")
}

// the ends of the ranges of every width in decimal, and one beyond them
//
//zz:cover range value
func ZZ_C38_ends() {
	w := zzWidths[zzsym.Choose("width", len(zzWidths))]
	signed := zzsym.Choose("signed", 2) == 1
	v := new(big.Int).Lsh(big.NewInt(1), uint(w))
	if signed {
		v.Rsh(v, 1)
	}
	if zzsym.Choose("low", 2) == 1 {
		if signed {
			v.Neg(v)
		} else {
			v.SetInt64(0)
		}
	}
	v.Add(v, big.NewInt(int64(zzsym.Choose("off", 3)-1)))
	zzCheckInt([]byte(v.String()), w, signed)
}

// any text of 0 to 6 bytes as a boolean
//
//zz:cover true false refused
func ZZ_C38_bool() {
	b := zzsym.Bytes("text", zzsym.Choose("len", 7))
	data, exited := zzDo("bool", string(b))
	switch string(b) {
	case "true":
		zzsym.Assert(!exited && zzsym.EqBytes(data, zzCount(1)), "true is 1")
		zzsym.Cover("true")
	case "false":
		zzsym.Assert(!exited && zzsym.EqBytes(data, zzCount(0)), "false is 0")
		zzsym.Cover("false")
	default:
		zzsym.Assert(exited, "other text is refused")
		zzsym.Cover("refused")
	}
}

// any text of 0 to 4 (thorough 40) bytes as a string
//
//zz:cover string
func ZZ_C38_string() {
	n := zzsym.Choose("len", 5)
	if zzsym.Bound(0, 1) == 1 {
		n *= 10
	}
	b := zzsym.Bytes("text", n)
	data, exited := zzDo("string", string(b))
	want := append(append(zzCount(32), zzCount(n)...), zzLeft(b)...)
	zzsym.Assert(!exited && zzsym.EqBytes(data, want), "a string is its text")
	zzsym.Cover("string")
}

// addresses with any digits of either case; and with one byte that is not a
// digit, a digit or two too many, two too few, or without the prefix
//
//zz:budget=100
//zz:cover value refused
func ZZ_C38_address() {
	a := zzsym.Bytes("addr", 20)
	h := []byte(zzHex(a))
	if zzsym.Choose("case", 2) == 1 {
		for i, c := range h {
			if c >= 'a' {
				h[i] = c - 32
			}
		}
	}
	text := append([]byte("0x"), h...)
	bad := zzsym.Choose("bad", 5)
	switch bad {
	case 1:
		c := zzsym.Byte("c")
		zzsym.Assume(zzDigit(c) >= 16)
		text[[...]int{2, 21, 41}[zzsym.Choose("at", 3)]] = c
	case 2:
		text = append(text, "00"[:1+zzsym.Choose("more", 2)]...)
	case 3:
		text = text[:40]
	case 4:
		text = text[2:]
	}
	data, exited := zzDo("address", string(text))
	if bad != 0 {
		zzsym.Assert(exited, "what is not an address is refused")
		zzsym.Cover("refused")
		return
	}
	w := make([]byte, 32)
	copy(w[12:], a)
	zzsym.Assert(!exited && zzsym.EqBytes(data, w), "an address is the one that was written")
	zzsym.Cover("value")
}

// bytesN for N of 0, 1, 4, 8, 31, 32 and 33, and bytes, from hex text of 0 to
// 33 bytes with or without the prefix; and with a digit too few or a byte that
// is not a digit
//
//zz:budget=100 split=4 splitdepth=2
//zz:cover value refused
func ZZ_C38_bytes() {
	ns := [...]int{0, 1, 4, 8, 31, 32, 33}
	k := zzsym.Choose("type", len(ns)+1)
	typ := "bytes"
	size := [...]int{0, 1, 31, 32, 33}[zzsym.Choose("size", 5)]
	if k < len(ns) {
		typ += strconv.Itoa(ns[k])
		if zzsym.Choose("same", 2) == 1 {
			size = ns[k]
		}
	}
	b := zzsym.Bytes("b", size)
	text := zzHex(b)
	if zzsym.Choose("prefix", 2) == 1 {
		text = "0x" + text
	}
	bad := 0
	if size > 0 {
		bad = zzsym.Choose("bad", 3)
	}
	switch bad {
	case 1:
		text = text[:len(text)-1]
	case 2:
		c := zzsym.Byte("c")
		zzsym.Assume(zzDigit(c) >= 16)
		text = text[:len(text)-1] + string([]byte{c})
		if size == 1 {
			zzsym.Assume(c != 'x' && c != 'X')
		}
	}
	data, exited := zzDo(typ, text)
	switch {
	case bad != 0:
		zzsym.Assert(exited, "what is not hex is refused")
		zzsym.Cover("refused")
	case k == len(ns):
		want := append(append(zzCount(32), zzCount(size)...), zzLeft(b)...)
		zzsym.Assert(!exited && zzsym.EqBytes(data, want), "bytes are the ones that were written")
		zzsym.Cover("value")
	case ns[k] == 0 || ns[k] > 32 || size != ns[k]:
		zzsym.Assert(exited, "the length has to be the one of the type")
		zzsym.Cover("refused")
	default:
		zzsym.Assert(!exited && zzsym.EqBytes(data, zzLeft(b)), "bytes are the ones that were written")
		zzsym.Cover("value")
	}
}

// arrays of 0 to 3 elements of the types uint8, int256, bool and address with any
// values, and with a bracket missing, an element missing or one element that is
// malformed; arrays of strings, bytes and arrays are refused
//
//zz:budget=100 split=4 splitdepth=2
//zz:cover value refused empty
func ZZ_C38_array() {
	kinds := [...]string{"uint8", "int256", "bool", "address", "bytes4", "string", "bytes", "uint8[]"}
	k := zzsym.Choose("kind", len(kinds))
	n := zzsym.Choose("n", 4)
	bad := zzsym.Choose("bad", 5)
	want := append(zzCount(32), zzCount(n)...)
	text := "["
	for i := 0; i < n; i++ {
		if i > 0 {
			text += ","
		}
		w := make([]byte, 32)
		switch k {
		case 0:
			v := zzsym.Byte("e")
			text += "0x" + zzHex([]byte{v})
			w[31] = v
		case 1:
			v := zzsym.Uint16("e")
			b := []byte{byte(v >> 8), byte(v)}
			text += "-0x" + zzHex(b)
			w = zzWordOf(new(big.Int).Neg(new(big.Int).SetBytes(b)))
		case 2:
			v := zzsym.Choose("e", 2)
			text += [...]string{"false", "true"}[v]
			w[31] = byte(v)
		case 3:
			a := zzsym.Bytes("e", 20)
			text += "0x" + zzHex(a)
			copy(w[12:], a)
		case 4:
			text += "01020304"
		default:
			text += [...]string{"a", "00", "[]"}[k-5]
		}
		want = append(want, w...)
	}
	switch bad {
	case 1: // no end
	case 2:
		text = text[1:] + "]"
	case 3:
		if n == 0 {
			text = zzsym.Str("t", zzsym.Choose("len", 3))
			zzsym.Assume(text != "[]")
		} else {
			text += ",]"
		}
	case 4:
		if n > 0 {
			text += ","
		}
		text += [...]string{"0x100", "--1", "yes", "0x12", "010203", ",", "0", "["}[k] + "]"
	default:
		text += "]"
	}
	data, exited := zzDo(kinds[k]+"[]", text)
	switch {
	case bad != 0 || n > 0 && k > 3:
		zzsym.Assert(exited, "what is not an array of values of the type is refused")
		zzsym.Cover("refused")
	default:
		zzsym.Assert(!exited && zzsym.EqBytes(data, want), "the elements are the ones that were written")
		zzsym.Cover("value")
		if n == 0 {
			zzsym.Cover("empty")
		}
	}
}

// functions with 0 to 3 arguments of the types uint8, address and bool in any
// order with any values, with as many arguments as the signature has or with
// one too few; what follows the arguments is left alone
//
//zz:budget=100 split=4 splitdepth=2
//zz:cover value few none
func ZZ_C38_list() {
	n := zzsym.Choose("n", 4)
	sig := "f("
	var args []string
	var want []byte
	for i := 0; i < n; i++ {
		if i > 0 {
			sig += ","
		}
		w := make([]byte, 32)
		switch zzsym.Choose("kind", 3) {
		case 0:
			v := zzsym.Byte("e")
			args = append(args, "0x"+zzHex([]byte{v}))
			w[31] = v
			sig += "uint8"
		case 1:
			a := zzsym.Bytes("e", 20)
			args = append(args, "0x"+zzHex(a))
			copy(w[12:], a)
			sig += "address"
		case 2:
			args = append(args, "true")
			w[31] = 1
			sig += "bool"
		}
		want = append(want, w...)
	}
	sig += ")"
	few := n > 0 && zzsym.Choose("few", 2) == 1
	if few {
		args = args[:n-1]
	} else if zzsym.Choose("more", 2) == 1 {
		args = append(args, "uint256")
	}
	addr := seth.Address{1}
	var got []seth.EtherType
	var data []byte
	exited := zzRun(func() {
		got = parsefn(nil, &addr, sig, args)
		data = seth.ABIEncode(sig, got...)[4:]
	})
	zzsym.ObsBytes("data", data)
	if few {
		zzsym.Assert(exited, "arguments that are missing are an error")
		zzsym.Cover("few")
		return
	}
	zzsym.Assert(!exited && len(got) == n, "as many arguments as the signature has")
	zzsym.Assert(zzsym.EqBytes(data, want), "in their order")
	zzsym.Cover("value")
	if n == 0 {
		zzsym.Cover("none")
	}
}

// signatures of 0 to 3 (thorough 4) arbitrary bytes followed by nothing or "uint8)"
// or "bool,uint8)" with two arguments: one that is not a name and a list of
// known types in parentheses is refused
//
//zz:budget=150 split=8 splitdepth=2
//zz:cover value refused
func ZZ_C38_signature() {
	b := zzsym.Bytes("sig", zzsym.Choose("len", zzsym.Bound(4, 5)))
	tail := zzsym.Choose("tail", 3)
	sig := string(b) + [...]string{"", "uint8)", "bool,uint8)"}[tail]
	addr := seth.Address{1}
	var got []seth.EtherType
	exited := zzRun(func() { got = parsefn(nil, &addr, sig, []string{"true", "7"}) })
	zzsym.ObsBool("exited", exited)
	// a name, '(', and the list with its ')' at the end
	open := len(b)
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == '(' {
			open = i
		}
	}
	ok := open < len(b)
	for i := 0; i < len(b); i++ {
		if b[i] == ')' && !(tail == 0 && i == len(b)-1) {
			ok = false
		}
	}
	var list string
	if ok {
		if tail == 0 && b[len(b)-1] != ')' {
			ok = false
		} else {
			list = sig[open+1 : len(sig)-1]
			switch list {
			case "":
			case "bool,uint8", "bool":
				ok = open > 0
			default:
				// "true" is no uint8, and the other lists have no types
				ok = false
			}
		}
	}
	if !ok {
		if list == "string" || list == "string,uint8" {
			return
		}
		zzsym.Assert(exited, "what is not a signature is refused")
		zzsym.Cover("refused")
		return
	}
	zzsym.Assert(!exited, "a signature is accepted")
	zzsym.Cover("value")
	switch list {
	case "":
		zzsym.Assert(len(got) == 0, "no arguments")
	default:
		zzsym.Assert(len(got) == 2, "two arguments")
	}
}

// zzItems are the items of an RLP list of strings.
func zzItems(b []byte) (items [][]byte) {
	next := func(short byte) (n int) {
		c := b[0]
		b = b[1:]
		n = int(c - short)
		if c >= short+0x38 {
			w := int(c - short - 0x37)
			n = 0
			for i := 0; i < w; i++ {
				n = n<<8 | int(b[i])
			}
			b = b[w:]
		}
		return n
	}
	n := next(0xc0)
	zzsym.Assert(n == len(b), "a list")
	for len(b) > 0 {
		if b[0] < 0x80 {
			items = append(items, b[:1])
			b = b[1:]
			continue
		}
		n := next(0x80)
		items = append(items, b[:n])
		b = b[n:]
	}
	return items
}

// a call with 0 to 3 arguments of one byte of a function that takes 1 or 2, with one
// key, at a nonce that is given (7) or asked for (5), and a gas price of 4 or 9 gwei; a node that fails at
// one of the requests
//
//zz:budget=60 models=keys
//zz:cover refused sent failed nonce
func ZZ_C38_call() {
	c, done := zzNewCLI()
	defer done()
	c.quiet = true
	dev := zzDevice()
	dev.ids, dev.keys = []string{"first"}, []int{zzsym.Choose("key", 2)}
	zzMust(os.Setenv("ETHER_ADDR", "first"))
	_, undo := zzKeyDir()
	defer undo()
	n := 1 + zzsym.Choose("want", 2)
	sig := [...]string{"f(uint8)", "f(uint8,uint8)"}[n-1]
	to := make([]byte, 20)
	to[19] = 0xff
	nonce := [...]int{-1, 7}[zzsym.Choose("nonce", 2)]
	gwei := [...]int{4, 9}[zzsym.Choose("gwei", 2)]
	args := []string{"-f=true", "-n=" + strconv.Itoa(nonce), "-g=" + strconv.Itoa(gwei), "0x" + zzHex(to), sig}
	h := seth.HashString(sig)
	data := append([]byte(nil), h[:4]...)
	m := zzsym.Choose("args", 4)
	for i := 0; i < m; i++ {
		v := zzsym.Bytes("a", 1)
		args = append(args, "0x"+zzHex(v))
		data = append(data, make([]byte, 31)...)
		data = append(data, v...)
	}
	fail := zzsym.Choose("fail", 4)
	sent := 0
	node := &zzNode{h: func(k int, req *seth.RPCRequest, res *seth.RPCResponse) error {
		zzsym.Assert(m == n, "nothing is asked for another number of arguments")
		switch req.Method {
		case "eth_estimateGas":
			if fail == 1 {
				return errors.New("zz: down")
			}
			var opts seth.CallOpts
			zzsym.Assert(json.Unmarshal(req.Params[0], &opts) == nil, "a call")
			zzsym.Assert(zzsym.EqBytes(opts.Data, data), "the gas of the call is estimated")
			res.Result = json.RawMessage(`"0x64"`)
		case "eth_getTransactionCount":
			if fail == 2 {
				return errors.New("zz: down")
			}
			zzsym.Assert(nonce < 0, "the nonce is the one that was given")
			zzParam(req, 0, `"`+zzAddrTexts[dev.keys[0]]+`"`)
			res.Result = json.RawMessage(`"0x5"`)
			zzsym.Cover("nonce")
		case "eth_sendRawTransaction":
			if fail == 3 {
				return errors.New("zz: down")
			}
			zzsym.Assert(sent == 0, "one transaction")
			sent++
			raw := unhex(string(req.Params[0][1 : len(req.Params[0])-1]))
			it := zzItems(raw)
			zzsym.Assert(len(it) == 9, "a signed transaction")
			want := byte(7)
			if nonce < 0 {
				want = 5
			}
			zzsym.Assert(len(it[0]) == 1 && it[0][0] == want, "the nonce")
			zzsym.Assert(new(big.Int).SetBytes(it[1]).Int64() == int64(gwei)*1e9, "the gas price")
			zzsym.Assert(zzsym.EqBytes(it[3], to), "the address that was asked for")
			zzsym.Assert(len(it[4]) == 0, "no value")
			zzsym.Assert(zzsym.EqBytes(it[5], data), "the function with the arguments")
			res.Result = json.RawMessage(`"0x` + zzHex(h[:]) + `"`)
		default:
			zzsym.Assert(false, "no other requests")
		}
		return nil
	}}
	defer zzServe(node)()
	out, exited := c.run("call", args...)
	switch {
	case m != n:
		zzsym.Assert(exited && len(out) == 0, "another number of arguments is refused")
		zzsym.Assert(len(dev.used) == 0, "and nothing is signed")
		zzsym.Cover("refused")
	case fail == 0 || fail == 2 && nonce >= 0:
		zzsym.Assert(!exited && sent == 1, "the call is sent")
		zzsym.Assert(zzsym.EqBytes(out, []byte("0x"+zzHex(h[:])+"\n")), "the hash is printed")
		zzsym.Cover("sent")
	default:
		zzsym.Assert(exited && sent == 0 && len(out) == 0, "a node that fails is an error")
		zzsym.Cover("failed")
	}
}
