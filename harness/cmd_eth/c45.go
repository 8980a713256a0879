package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"math/big"
	"os"
	"strconv"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/cc"
	"github.com/philhofer/seth/zzsym"
)

// Commands that ask the node, and what they print.
//
//zz:prop=C45
//zz:use common_eth
//zz:use common_keys
//zz:use common_cli

func zzAddrArg(name string) (text string, b []byte) {
	b = zzsym.Bytes(name, 20)
	return "0x" + zzHex(b), b
}

func zzQuant(v *big.Int) json.RawMessage {
	return json.RawMessage(`"0x` + v.Text(16) + `"`)
}

// the balances of an address (of 1 or 2 bytes) or of 2 addresses (of 1 byte): in hex, in decimal and in
// ether; a node that fails
//
//zz:budget=100 split=4 splitdepth=3
//zz:cover hex decimal ether failed
func ZZ_C45_balance() {
	c, done := zzNewCLI()
	defer done()
	n := 1 + zzsym.Choose("n", 2)
	mode := zzsym.Choose("mode", 3)
	fail := zzsym.Choose("fail", n+1)
	var texts []string
	var bals []*big.Int
	for i := 0; i < n; i++ {
		t, _ := zzAddrArg("addr")
		texts = append(texts, t)
		size := 1
		if n == 1 {
			size += zzsym.Choose("ballen", 2)
		}
		b := zzsym.Bytes("bal", size)
		zzsym.Assume(b[0] != 0)
		bals = append(bals, new(big.Int).SetBytes(b))
	}
	node := &zzNode{h: func(k int, req *seth.RPCRequest, res *seth.RPCResponse) error {
		zzsym.Assert(req.Method == "eth_getBalance" && k < n, "one balance for each address")
		zzParam(req, 0, `"`+texts[k]+`"`)
		if k == fail {
			return errors.New("zz: down")
		}
		b := bals[k].Bytes()
		res.Result = json.RawMessage(`"0x` + zzHex(b) + `"`)
		return nil
	}}
	defer zzServe(node)()
	args := append([]string{"-x=" + strconv.FormatBool(mode == 0), "-d=" + strconv.FormatBool(mode == 1)}, texts...)
	out, exited := c.run("balance", args...)
	var want []byte
	for i := 0; i < n && i != fail; i++ {
		switch mode {
		case 0:
			v := seth.Int(*bals[i])
			want = append(want, v.String()...)
			zzsym.Cover("hex")
		case 1:
			want = append(want, bals[i].String()...)
			zzsym.Cover("decimal")
		default:
			want = append(want, (&cc.Amount{Currency: "ETH", Amount: *bals[i]}).String()...)
			zzsym.Cover("ether")
		}
		want = append(want, '\n')
	}
	zzsym.Assert(exited == (fail < n), "a node that fails is an error")
	if fail < n {
		zzsym.Cover("failed")
	}
	zzsym.Assert(zzsym.EqBytes(out, want), "the balances are the ones of the node")
}

// the code, of 0 to 4 (thorough 40) bytes, of an address; a malformed address
//
//zz:cover code bad
func ZZ_C45_code() {
	c, done := zzNewCLI()
	defer done()
	addr, _ := zzAddrArg("addr")
	bad := zzsym.Choose("bad", 2) == 1
	n := zzsym.Choose("len", 5)
	if zzsym.Bound(0, 1) == 1 {
		n *= 10
	}
	code := zzsym.Bytes("code", n)
	node := &zzNode{h: func(k int, req *seth.RPCRequest, res *seth.RPCResponse) error {
		zzsym.Assert(req.Method == "eth_getCode" && k == 0 && !bad, "the code is asked for once")
		zzParam(req, 0, `"`+addr+`"`)
		res.Result = json.RawMessage(`"0x` + zzHex(code) + `"`)
		return nil
	}}
	defer zzServe(node)()
	if bad {
		_, exited := c.run("code", addr+"00")
		zzsym.Assert(exited, "a malformed address is refused")
		zzsym.Cover("bad")
		return
	}
	out, exited := c.run("code", addr)
	zzsym.Assert(!exited && zzsym.EqBytes(out, []byte(zzHex(code)+"\n")), "the code is the one of the node")
	zzsym.Cover("code")
}

func zzBlockJSON(num string) json.RawMessage {
	return json.RawMessage(`{"number":` + num + `,"transactions":[],"uncles":[]}`)
}

// zzNumbers are the values of the number fields of what was printed.
func zzNumbers(out []byte) (l []int64) {
	for {
		i := bytes.Index(out, []byte(`"number"`))
		if i < 0 {
			return l
		}
		out = out[i+8:]
		for out[0] == ' ' || out[0] == ':' {
			out = out[1:]
		}
		end := 1
		for out[end] != '"' {
			end++
		}
		var v seth.Uint64
		zzsym.Assert(json.Unmarshal(out[:end+1], &v) == nil, "a number is printed")
		l = append(l, int64(v))
		out = out[end:]
	}
}

// 1 or 2 block specifiers, each a number below 100, latest, pending or
// earliest (quick: the second a number or latest), or none at all; ranges of 0 to 3 blocks up or down from a number
// below 100 or from latest or pending; malformed specifiers
//
//zz:budget=150 split=8 splitdepth=4
//zz:cover one range down bad none below nonum
func ZZ_C45_block() {
	c, done := zzNewCLI()
	defer done()
	head := int64(zzsym.Byte("head"))
	zzsym.Assume(head >= 4)
	zzsym.Assume(head < 100)
	noNum := false
	num := func(v int64) string {
		return `"0x` + zzHex([]byte{byte(v)}) + `"`
	}
	type ask struct {
		spec string // the parameter, if it is a tag
		num  int64
		show bool
	}
	var asks []ask
	decimal := func(name string) (string, int64) {
		d := zzsym.Bytes(name, 1+zzsym.Choose(name+"len", 2))
		v := int64(0)
		for i := range d {
			zzsym.Assume(d[i] >= '0' && d[i] <= '9')
			if i == 0 && len(d) > 1 {
				zzsym.Assume(d[i] != '0')
			}
			v = 10*v + int64(d[i]-'0')
		}
		return string(d), v
	}
	var args []string
	bad := false
	n := zzsym.Choose("n", 3)
	if n == 0 {
		asks = append(asks, ask{spec: "pending", show: true})
		zzsym.Cover("none")
	}
	for i := 0; i < n && !bad; i++ {
		k := zzsym.Choose("kind", 6)
		if i > 0 && (k >= 4 || k > 1 && zzsym.Bound(0, 1) == 0) {
			return
		}
		switch k {
		case 0:
			t, v := decimal("num")
			args = append(args, t)
			asks = append(asks, ask{num: v, show: true})
		case 1, 2, 3:
			t := [...]string{"latest", "pending", "earliest"}[k-1]
			args = append(args, t)
			asks = append(asks, ask{spec: t, show: true})
		case 4:
			from := zzsym.Choose("from", 4)
			op := zzsym.Choose("op", 2)
			cnt := int64(zzsym.Choose("count", 4))
			var t string
			var v int64
			switch from {
			case 0:
				t, v = decimal("num")
			case 1:
				t, v = "earliest", 0
			default:
				t = [...]string{"latest", "pending"}[from-2]
				v = head + int64(from-2)
				asks = append(asks, ask{spec: t})
				if from == 3 && zzsym.Choose("nonum", 2) == 1 {
					noNum = true
				}
			}
			args = append(args, t+[...]string{"+", "-"}[op]+strconv.FormatInt(cnt, 10))
			for j := int64(0); j < cnt; j++ {
				a := v + j
				if op == 1 {
					a = v - j
				}
				if a < 0 {
					bad = true
					zzsym.Cover("below")
					break
				}
				asks = append(asks, ask{num: a, show: true})
			}
			if noNum {
				asks, bad = asks[:1], true
				zzsym.Cover("nonum")
			} else if cnt > 0 {
				zzsym.Cover([...]string{"range", "down"}[op])
			}
		case 5:
			args = append(args, [...]string{"x", "12x", "1+", "+1", "1+2+3", "latest-x", "0x", "1-+1"}[zzsym.Choose("bad", 8)])
			bad = true
			zzsym.Cover("bad")
		}
	}
	var shown []int64
	node := &zzNode{h: func(k int, req *seth.RPCRequest, res *seth.RPCResponse) error {
		zzsym.Assert(req.Method == "eth_getBlockByNumber", "blocks are asked for")
		if bad && k >= len(asks) {
			return errors.New("zz: no such block")
		}
		zzsym.Assert(k < len(asks), "each block once")
		a := asks[k]
		var v int64
		switch a.spec {
		case "":
			v = a.num
			var got seth.Uint64
			if v != 0 || string(req.Params[0]) != `"earliest"` {
				zzsym.Assert(json.Unmarshal(req.Params[0], &got) == nil && int64(got) == v, "the block that was asked for")
			}
		case "earliest":
			var got seth.Uint64
			zzsym.Assert(string(req.Params[0]) == `"earliest"` || json.Unmarshal(req.Params[0], &got) == nil && got == 0, "the first block")
		default:
			zzParam(req, 0, `"`+a.spec+`"`)
			v = head
			if a.spec == "pending" {
				v = head + 1
			}
		}
		if a.show {
			zzParam(req, 1, "true")
			shown = append(shown, v)
		}
		t := num(v)
		if noNum {
			t = "null"
		}
		res.Result = zzBlockJSON(t)
		return nil
	}}
	defer zzServe(node)()
	out, exited := c.run("block", args...)
	zzsym.Assert(exited == bad, "malformed specifiers and blocks that do not exist are errors")
	if bad {
		return
	}
	zzsym.Assert(len(node.reqs) == len(asks), "every block is asked for")
	got := zzNumbers(out)
	zzsym.Assert(len(got) == len(shown), "every block is printed, and nothing else")
	for i := range shown {
		zzsym.Assert(got[i] == shown[i], "in its turn")
	}
	zzsym.Cover("one")
}

// 1 to 3 raw transactions of 1 to 3 bytes in files or on the standard input, with a
// newline at the end or not, with a malformed digit, cut short, or empty; a node
// that fails at one
//
//zz:budget=100 split=4 splitdepth=3
//zz:cover sent bad failed stdin
func ZZ_C45_post() {
	c, done := zzNewCLI()
	defer done()
	n := 1 + zzsym.Choose("n", zzsym.Bound(2, 3))
	bad := zzsym.Choose("bad", 4)
	at := 0
	if bad > 0 {
		at = zzsym.Choose("at", n)
	}
	fail := zzsym.Choose("fail", n+1)
	var args []string
	var raws [][]byte
	var hashes []string
	for i := 0; i < n; i++ {
		raw := zzsym.Bytes("raw", 1+zzsym.Choose("rawlen", 3))
		raws = append(raws, raw)
		text := []byte(zzHex(raw))
		if bad > 0 && at == i {
			switch bad {
			case 1:
				text = text[:len(text)-1]
			case 2:
				ch := zzsym.Byte("c")
				zzsym.Assume(!(ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'f' || ch >= 'A' && ch <= 'F'))
				text[len(text)-2] = ch
			case 3:
				text = nil
			}
		}
		if len(text) > 0 && zzsym.Choose("newline", 2) == 1 {
			text = append(text, '\n')
		}
		if i == 0 && zzsym.Choose("stdin", 2) == 1 {
			c.stdin(text)
			args = append(args, "-")
			zzsym.Cover("stdin")
		} else {
			args = append(args, c.file("tx"+string([]byte{'0' + byte(i)}), text))
		}
		h := make([]byte, 32)
		copy(h[5:], zzsym.Bytes("hash", 2))
		hashes = append(hashes, "0x"+zzHex(h))
	}
	node := &zzNode{h: func(k int, req *seth.RPCRequest, res *seth.RPCResponse) error {
		zzsym.Assert(bad == 0, "nothing is sent when one of them is malformed")
		zzsym.Assert(req.Method == "eth_sendRawTransaction" && k < n && k <= fail, "each is sent once")
		zzParam(req, 0, `"0x`+zzHex(raws[k])+`"`)
		if k == fail {
			return errors.New("zz: down")
		}
		res.Result = json.RawMessage(`"` + hashes[k] + `"`)
		return nil
	}}
	defer zzServe(node)()
	out, exited := c.run("post", args...)
	if bad > 0 {
		zzsym.Assert(exited && len(out) == 0, "what is malformed is refused")
		zzsym.Cover("bad")
		return
	}
	zzsym.Assert(exited == (fail < n), "a node that fails is an error")
	want := ""
	for i := 0; i < n && i < fail; i++ {
		want += hashes[i] + "\n"
	}
	zzsym.Assert(zzsym.EqBytes(out, []byte(want)), "the hashes are the ones of the node")
	if fail < n {
		zzsym.Cover("failed")
	} else {
		zzsym.Cover("sent")
	}
}

// a call of f(uint8) with any argument that returns 1 or 2 values of the types
// uint256 (1 byte), int16, bool, address, bytes4, bytes and
// string (0 to 3 letters); quick: the second is a uint256, bytes or int16
//
//zz:budget=150 split=8 splitdepth=3 thorough_budget=500
//zz:cover read
func ZZ_C45_read() {
	c, done := zzNewCLI()
	defer done()
	addr, _ := zzAddrArg("addr")
	arg := zzsym.Byte("arg")
	n := 1 + zzsym.Choose("n", 2)
	var types []string
	var heads, tail []byte
	want := ""
	for i := 0; i < n; i++ {
		w := make([]byte, 32)
		k := 0
		if i == 0 || zzsym.Bound(0, 1) == 1 {
			k = zzsym.Choose("type", 7)
		} else {
			k = 3 * zzsym.Choose("type", 3)
		}
		switch k {
		case 6:
			types = append(types, "int16")
			v := int16(zzsym.Uint16("v"))
			zzsym.Assume(v > -100)
			zzsym.Assume(v < 100)
			w[31] = byte(v)
			if v < 0 {
				for j := 0; j < 31; j++ {
					w[j] = 0xff
				}
			}
			want += strconv.Itoa(int(v)) + "\n"
		case 0:
			types = append(types, "uint256")
			v := zzsym.Byte("v")
			w[31] = v
			want += strconv.Itoa(int(v)) + "\n"
		case 1:
			types = append(types, "bool")
			if v := zzsym.Choose("v", 2); v == 1 {
				w[31] = 1
				want += "true\n"
			} else {
				want += "false\n"
			}
		case 2:
			types = append(types, "address")
			t, b := zzAddrArg("v")
			copy(w[12:], b)
			want += t + "\n"
		case 3:
			types = append(types, "bytes")
			b := zzsym.Bytes("v", zzsym.Choose("len", 4))
			copy(w, zzCount45(32*n+len(tail)))
			tail = append(tail, zzCount45(len(b))...)
			if len(b) > 0 {
				p := make([]byte, 32)
				copy(p, b)
				tail = append(tail, p...)
			}
			want += zzHex(b) + "\n"
		case 4:
			types = append(types, "string")
			b := zzLetters45("v", zzsym.Choose("len", 4))
			copy(w, zzCount45(32*n+len(tail)))
			tail = append(tail, zzCount45(len(b))...)
			if len(b) > 0 {
				p := make([]byte, 32)
				copy(p, b)
				tail = append(tail, p...)
			}
			want += b + "\n"
		case 5:
			types = append(types, "bytes4")
			b := zzsym.Bytes("v", 4)
			copy(w, b)
			want += zzHex(b) + "\n"
		}
		heads = append(heads, w...)
	}
	sig := "f(uint8)"
	node := &zzNode{h: func(k int, req *seth.RPCRequest, res *seth.RPCResponse) error {
		zzsym.Assert(req.Method == "eth_call" && k == 0, "one call")
		var opts seth.CallOpts
		zzsym.Assert(json.Unmarshal(req.Params[0], &opts) == nil, "a call")
		zzsym.Assert(opts.To != nil && opts.To.String() == addr, "of the address")
		a := make([]byte, 32)
		a[31] = arg
		h := seth.HashString(sig)
		zzsym.Assert(zzsym.EqBytes(opts.Data, append(append([]byte(nil), h[:4]...), a...)), "of the function with the argument")
		res.Result = json.RawMessage(`"0x` + zzHex(append(append([]byte(nil), heads...), tail...)) + `"`)
		return nil
	}}
	defer zzServe(node)()
	args := append([]string{"-f=true", addr, sig, "0x" + zzHex([]byte{arg})}, types...)
	out, exited := c.run("read", args...)
	zzsym.Assert(!exited && zzsym.EqBytes(out, []byte(want)), "the values are the ones of the node")
	zzsym.Cover("read")
}

func zzCount45(n int) []byte {
	w := make([]byte, 32)
	w[30], w[31] = byte(n>>8), byte(n)
	return w
}

func zzLetters45(name string, n int) string {
	b := zzsym.Bytes(name, n)
	for i := range b {
		zzsym.Assume(b[i] >= 'a' && b[i] <= 'z')
	}
	return string(b)
}

// signing of a file of 0 to 3 (thorough 40) bytes with a prefix of 0 or 2 bytes, or of a
// hash of 31 to 33 bytes, with the output in each form: what is printed is a
// signature of the key that was selected, for the hash of the input
//
//zz:budget=100 models=keys
//zz:cover data hashed refused json
func ZZ_C45_sign() {
	c, done := zzNewCLI()
	defer done()
	c.quiet = true
	dev := zzDevice()
	k := zzsym.Choose("key", 2)
	dev.ids, dev.keys = []string{"first", "second"}, []int{0, 1}
	zzMust(os.Setenv("ETHER_ADDR", dev.ids[k]))
	_, undo := zzKeyDir()
	defer undo()
	form := zzsym.Choose("form", 4) // binary, hex, json, both
	hashed := zzsym.Choose("hashed", 2) == 1
	prefix := [...]string{"", "\x19E"}[zzsym.Choose("prefix", 2)]
	n := zzsym.Choose("len", 4)
	if hashed {
		n = [...]int{31, 32, 33, 0}[n]
	} else if zzsym.Bound(0, 1) == 1 {
		n *= 10
	}
	data := zzsym.Bytes("data", n)
	in := c.file("in", data)
	yes := strconv.FormatBool
	out, exited := c.run("sign", "-h="+yes(hashed), "-prefix="+prefix, "-x="+yes(form == 1 || form == 3), "-j="+yes(form >= 2), in)
	if form == 3 || hashed && (prefix != "" || n != 32) {
		zzsym.Assert(exited && len(out) == 0, "what cannot be signed is refused")
		zzsym.Cover("refused")
		return
	}
	zzsym.Assert(!exited, "the input is signed")
	var h seth.Hash
	if hashed {
		copy(h[:], data)
		zzsym.Cover("hashed")
	} else {
		h = seth.HashBytes(append([]byte(prefix), data...))
		zzsym.Cover("data")
	}
	var sig seth.Signature
	switch form {
	case 0:
		zzsym.Assert(len(out) == len(sig), "a signature is printed")
		copy(sig[:], out)
	case 1:
		zzsym.Assert(len(out) == 2*len(sig)+1 && out[2*len(sig)] == '\n', "a signature is printed in hex")
		b, err := hex.DecodeString(string(out[:2*len(sig)]))
		zzsym.Assert(err == nil, "a signature is printed in hex")
		copy(sig[:], b)
	case 2:
		var p struct {
			R, S seth.Int
			V    seth.Int
		}
		zzsym.Assert(json.Unmarshal(out, &p) == nil, "a signature is printed in JSON")
		sig = *seth.NewSignature(p.R.Big(), p.S.Big(), int(p.V.Int64()))
		zzsym.Cover("json")
	}
	pub, err := sig.Recover(&h)
	_, _, want := zzKey(k)
	zzsym.Assert(err == nil && *pub.Address() == want, "the signature is the one of the selected key for the input")
}

// recovery from a signature by either of two keys of a hash or of a text of 0 to 3
// bytes on the standard input: the address or the public key; signatures and
// hashes that are malformed or of something else
//
//zz:budget=100 models=keys
//zz:cover address public malformed other
func ZZ_C45_recover() {
	c, done := zzNewCLI()
	defer done()
	c.quiet = true
	k := zzsym.Choose("key", 2)
	key, pub, addr := zzKey(k)
	stdin := zzsym.Choose("stdin", 2) == 1
	var h seth.Hash
	if stdin {
		data := zzsym.Bytes("data", zzsym.Choose("len", 4))
		c.stdin(data)
		h = seth.HashBytes(data)
	} else {
		copy(h[:], zzsym.Bytes("hash", 32))
	}
	sig := key.Sign(&h).String()
	hash := h.String()
	bad := zzsym.Choose("bad", 4)
	switch bad {
	case 1:
		sig = sig[:len(sig)-2]
	case 2:
		hash += "00"
	case 3:
		h[zzsym.Choose("at", 2)*31] ^= 1
		hash = h.String()
	}
	if stdin && bad >= 2 {
		return
	}
	asPub := zzsym.Choose("pub", 2) == 1
	args := []string{"-pub=" + strconv.FormatBool(asPub), sig}
	if !stdin {
		args = append(args, hash)
	}
	out, exited := c.run("recover", args...)
	switch {
	case bad == 1 || bad == 2:
		zzsym.Assert(exited && len(out) == 0, "what is malformed is refused")
		zzsym.Cover("malformed")
	case bad == 3:
		zzsym.Assert(exited || string(out) != addr.String()+"\n" && string(out) != pub.String()+"\n", "the key did not sign this hash")
		zzsym.Cover("other")
	case asPub:
		zzsym.Assert(!exited && string(out) == pub.String()+"\n", "the key that signed")
		zzsym.Cover("public")
	default:
		zzsym.Assert(!exited && string(out) == addr.String()+"\n", "the address of the key that signed")
		zzsym.Cover("address")
	}
}
