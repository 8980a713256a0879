package seth

import (
	"errors"
	"math/big"

	"github.com/philhofer/seth/zzsym"
)

// Sending fills defaults, pads gas and signs what it sends.
//
//zz:prop=C17
//zz:use common_client
//zz:use common_rlp

// Two keys with their public keys; signing and recovery are idealised while
// executing symbolically: a signature recovers to the key that made it, for
// the hash it was made for.

func zzKey(i int) (k PrivateKey, pub PublicKey, a Address) {
	k[31] = byte(7 + 2*i)
	if err := pub.FromString([]string{
		"0x5cbdf0646e5db4eaa398f365f2ea7a0e3d419b7e0330e39ce92bddedcac4f9bc6aebca40ba255960a3178d6d861a54dba813d0b813fde7b5a5082628087264da",
		"0xacd484e2f0c7f65309ad178a9f559abde09796974c57e714c35f110dfc27ccbecc338921b0a7d9fd64380971763b61e9add888a4375f8e0f05cc262ac64f9c37"}[i]); err != nil {
		panic(err)
	}
	if err := a.FromString([]string{"0xd41c057fd1c78805aac12b0a94a405c0461a6fbb", "0xf7edc8fa1ecc32967f827c9043fcae6ba73afa5c"}[i]); err != nil {
		panic(err)
	}
	return
}

var zzSigned []struct {
	k   PrivateKey
	h   Hash
	sig Signature
}

func Model_ideal__seth__PPrivateKey__Sign(k *PrivateKey, h *Hash) *Signature {
	var s Signature
	for i := range s {
		s[i] = byte(i + 1)
	}
	s[64] = h[31] & 1
	zzSigned = append(zzSigned, struct {
		k   PrivateKey
		h   Hash
		sig Signature
	}{*k, *h, s})
	return &s
}

func Model_ideal__seth__PSignature__Recover(z *Signature, h *Hash) (*PublicKey, error) {
	for i := range zzSigned {
		if zzSigned[i].h == *h && zzSigned[i].sig == *z {
			_, pub, _ := zzKey(int(zzSigned[i].k[31]-7) / 2)
			return &pub, nil
		}
	}
	return nil, errors.New("zz: no such signature")
}

func Model_ideal__seth__PPublicKey__Address(p *PublicKey) *Address {
	for i := 0; i < 2; i++ {
		if _, pub, a := zzKey(i); pub == *p {
			return &a
		}
	}
	panic("zz: unknown public key")
}

// zzQ is a quantity of exactly one significant byte, its text and bytes known
// to have fixed sizes.
func zzQ(name string) uint64 {
	v := uint64(zzsym.Byte(name))
	zzsym.Assume(v >= 0x80)
	return v
}

// zzQText writes a number below 2^32 known to need n digits (n = 0: zero).
func zzQText(v uint64, n int) []byte {
	if n == 0 {
		n = 1
	}
	return zzQuantText(v, n)
}

// zzFixed is the n-byte big-endian form of v.
func zzFixed(v uint64, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(v >> uint(8*(n-1-i)))
	}
	return out
}

func zzJoin(parts ...[]byte) (out []byte) {
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

type zzSend struct {
	s    *Sender
	t    *zzTport
	est  uint64
	num  int
	den  int
	defP uint64
	fail int // request that fails, -1 for none
	mode int // how it fails
	non  uint64
	nonN int
	txh  Hash
}

func zzSender(signer int) *zzSend {
	z := &zzSend{fail: -1}
	_, _, a := zzKey(0)
	z.t = &zzTport{}
	z.s = NewSender(NewClientTransport(z.t), &a)
	zzsym.Assert(z.s.GasRatio.Num == 6 && z.s.GasRatio.Denom == 5 && z.s.GasPrice.Int64() == 50000000000, "documented defaults")
	z.defP = zzQ("defaultprice")
	z.s.GasPrice.SetUint64(z.defP)
	for i := range z.txh {
		z.txh[i] = byte(17*i + 3)
	}
	z.txh[31] = zzsym.Byte("txhash")
	if signer > 0 {
		k, _, _ := zzKey(signer - 1)
		z.s.Signer = k.Signer()
	}
	z.t.h = func(n int, req *RPCRequest, r *RPCResponse) error {
		if n == z.fail {
			switch z.mode {
			case 0:
				return errZZ
			case 1:
				r.Error.Code = 3
				return nil
			}
			r.Result = rawnull
			return nil
		}
		switch req.Method {
		case "eth_estimateGas":
			r.Result = zzQText(z.est, 4)
		case "eth_getTransactionCount":
			r.Result = zzQText(z.non, z.nonN)
		case "eth_sendTransaction", "eth_sendRawTransaction":
			r.Result = zzHexText(z.txh[:])
		default:
			panic("zz: unexpected method " + req.Method)
		}
		return nil
	}
	return z
}

// zzFields is the JSON of a call object with exactly the given fields.
func zzFields(from, to *Address, gas, price, value, nonce []byte, data []byte) []byte {
	out := []byte{'{'}
	add := func(name string, v []byte) {
		if v == nil {
			return
		}
		if len(out) > 1 {
			out = append(out, ',')
		}
		out = append(append(append(append(out, '"'), name...), '"', ':'), v...)
	}
	if from != nil {
		add("from", zzHexText(from[:]))
	}
	if to != nil {
		add("to", zzHexText(to[:]))
	}
	add("gas", gas)
	add("gasPrice", price)
	add("value", value)
	add("data", zzHexText(data))
	add("nonce", nonce)
	return append(out, '}')
}

func zzPad(est uint64, num, den int) uint64 { return est * uint64(num) / uint64(den) }

// Sender.Call with the node signing, for every subset of From, To, Gas,
// GasPrice, Value and Nonce left unset, quantities from 0x80 to 0xff (nonces
// also zero, gas estimates from 0x5200 to 0x52ff), 1 byte of data, gas ratios
// 6/5 and 3/2.
//
//zz:budget=60 models=ideal
func ZZ_C17_plain() { zzCallOne(0, false) }

// As before, signing with the account's own key or with another.
//
//zz:budget=60 models=ideal split=8 splitdepth=7
func ZZ_C17_signed() { zzCallOne(1+zzsym.Choose("key", 2), false) }

// A failure (transport, server, null) of any one request, with every field
// set or none, unsigned, signed by the right key or by another.
//
//zz:budget=60 models=ideal
func ZZ_C17_fail() { zzCallOne(zzsym.Choose("key", 3), true) }

// zzSubset chooses which fields are set: any subset, or (few) all or none.
func zzSubset(few bool) func(string) bool {
	if few {
		all := zzsym.Choose("all", 2) == 1
		return func(string) bool { return all }
	}
	return func(name string) bool { return zzsym.Choose(name, 2) == 1 }
}

func zzCallOne(signer int, fails bool) {
	set := zzSubset(fails)
	z := zzSender(signer)
	opts := &CallOpts{Data: Data(zzsym.Bytes("data", 1))}
	var from, to Address
	_, _, from = zzKey(0)
	var gas, price, value, nonce []byte
	var gasV, priceV, valueV, nonceV uint64
	priceV = z.defP
	if set("from") {
		_, _, from = zzKey(1)
		f := from
		opts.From = &f
	}
	var toP *Address
	if set("to") {
		_, _, to = zzKey(1)
		to[0], to[19] = 0, zzsym.Byte("to")
		toP = &to
		t := to
		opts.To = &t
	}
	q := func(name string, dst **Int) uint64 {
		v := zzQ(name)
		*dst = new(Int)
		(*dst).SetUint64(v)
		return v
	}
	hasGas, hasNonce := false, false
	if set("gas") {
		hasGas = true
		gasV = q("gasv", &opts.Gas)
	}
	if set("price") {
		priceV = q("pricev", &opts.GasPrice)
	}
	if set("value") {
		valueV = q("valuev", &opts.Value)
		value = zzQText(valueV, 2)
	}
	nonceN := 2
	if !fails {
		nonceN = 2 * zzsym.Choose("nonzero", 2)
	}
	if nonceN > 0 {
		nonceV = zzQ("noncev")
	}
	if set("nonce") {
		hasNonce = true
		n := Uint64(nonceV)
		opts.Nonce = &n
		nonce = zzQText(nonceV, nonceN)
	} else {
		z.non, z.nonN = nonceV, nonceN
	}
	gasN := 2
	if !hasGas {
		gasN = 4
		z.est = 0x5200 + uint64(zzsym.Byte("estimate"))
		if opts.Value != nil {
			z.s.GasRatio.Num = 3
			z.s.GasRatio.Denom = 2
		}
		gasV = zzPad(z.est, z.s.GasRatio.Num, z.s.GasRatio.Denom)
	}
	// the requests expected
	var want []string
	if !hasGas {
		want = append(want, "eth_estimateGas")
	}
	if signer == 0 {
		want = append(want, "eth_sendTransaction")
	} else {
		if !hasNonce {
			want = append(want, "eth_getTransactionCount")
		}
		want = append(want, "eth_sendRawTransaction")
	}
	if fails {
		z.fail = zzsym.Choose("fail", len(want))
		z.mode = zzsym.Choose("failmode", 3)
	}
	mismatch := signer > 0 && (signer == 2) != (opts.From != nil)
	h, err := z.s.Call(opts)

	failed := z.fail >= 0 && !(mismatch && z.fail == len(want)-1)
	n := len(want)
	switch {
	case failed:
		n = z.fail + 1
	case mismatch:
		n--
	}
	zzsym.Assert(len(z.t.reqs) == n, "the number of requests")
	for i := range z.t.reqs {
		r := &z.t.reqs[i]
		zzsym.Assert(r.Method == want[i], "the order of requests")
		switch r.Method {
		case "eth_estimateGas":
			p := zzQText(priceV, 2)
			zzsym.Assert(len(r.Params) >= 1 && string(r.Params[0]) == string(zzFields(&from, toP, nil, p, value, nonce, opts.Data)), "the call estimated is the call made")
		case "eth_getTransactionCount":
			zzsym.Assert(len(r.Params) == 2 && string(r.Params[0]) == string(zzHexText(from[:])) && string(r.Params[1]) == `"pending"`, "the sender's pending nonce")
		case "eth_sendTransaction":
			gas = zzQText(gasV, gasN)
			price = zzQText(priceV, 2)
			zzsym.Assert(len(r.Params) == 1 && string(r.Params[0]) == string(zzFields(&from, toP, gas, price, value, nonce, opts.Data)), "the transaction sent")
		case "eth_sendRawTransaction":
			var tb []byte
			if toP != nil {
				tb = to[:]
			}
			items := [][]byte{zzFixed(nonceV, nonceN/2), zzFixed(priceV, 1), zzFixed(gasV, gasN/2), tb, zzFixed(valueV, len(value)/5), opts.Data}
			hash := HashBytes(zzList(append(items[:len(items):len(items)], []byte{1}, nil, nil)...))
			k, _, _ := zzKey(signer - 1)
			sig := k.Sign(&hash)
			v := uint64(sig[64]) + 37
			items = append(items, []byte{byte(v)}, zzStrip(sig[:32]), zzStrip(sig[32:64]))
			zzsym.Assert(len(r.Params) == 1 && string(r.Params[0]) == string(zzHexText(zzList(items...))), "the signed transaction sent")
		}
	}
	switch {
	case failed:
		zzsym.Assert(err != nil && h == Hash{}, "a failing request fails the call")
	case mismatch:
		zzsym.Assert(err != nil, "a signature of somebody else is refused")
	default:
		zzsym.Assert(err == nil && h == z.txh, "the transaction hash is returned")
	}
	zzsym.Assert(z.s.GasPrice.Int64() == int64(z.defP), "the sender's own price is untouched")
}

func zzStrip(b []byte) []byte {
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	return b
}

// The gas padding alone, for estimates up to 32 bits (thorough: 64) and ratios up to 255
// over 1, 2, 4, 5, 7 and 10.
func ZZ_C17_pad() {
	s := NewSender(nil, nil)
	s.GasRatio.Num = int(zzsym.Byte("num"))
	den := []int{1, 2, 4, 5, 7, 10}[zzsym.Choose("den", 6)]
	s.GasRatio.Denom = den
	est := zzsym.BigU("estimate", zzsym.Bound(32, 64))
	e := Int(*new(big.Int).Set(est))
	p := s.pad(&e)
	// floor: p*den <= est*num < (p+1)*den
	prod := new(big.Int).Mul(est, big.NewInt(int64(s.GasRatio.Num)))
	lo := new(big.Int).Mul(p.Big(), big.NewInt(int64(den)))
	hi := new(big.Int).Add(lo, big.NewInt(int64(den)))
	zzsym.Assert(lo.Cmp(prod) <= 0 && prod.Cmp(hi) < 0, "the estimate is padded to the floor of estimate*num/den")
	zzsym.Assert(e.Big().Cmp(est) == 0, "the estimate itself is untouched")
}

// Cancelling: the pending transaction's nonce, to oneself, at a strictly
// higher price (prices of 2, 16 and 17 digits on either side), and never when it
// is mined or unknown.
//
//zz:cover own bumped mined unknown
//zz:split=9 splitdepth=4
func ZZ_C17_cancel() {
	z := zzSender(0)
	z.est = 0x5208
	var mine, theirs []byte
	digits := func(name string) (*big.Int, []byte) {
		n := []int{2, 16, 17}[zzsym.Choose(name+"digits", 3)]
		v := zzsym.BigU(name, 4*n)
		zzsym.Assume(v.BitLen() > 4*n-4)
		t := []byte{'"', '0', 'x'}
		for i := n - 1; i >= 0; i-- {
			d := new(big.Int).Rsh(v, uint(4*i))
			d.And(d, big.NewInt(15))
			t = append(t, zzDigits[d.Uint64()])
		}
		return v, append(t, '"')
	}
	own, mine := digits("own")
	tx, theirs := digits("theirs")
	z.s.GasPrice = Int(*new(big.Int).Set(own))
	nonce := zzQ("nonce")
	mined := zzsym.Choose("mined", 2) == 1
	unknown := zzsym.Choose("unknown", 2) == 1
	hash := zzHashOf("hash")
	inner := z.t.h
	z.t.h = func(n int, req *RPCRequest, r *RPCResponse) error {
		if req.Method != "eth_getTransactionByHash" {
			return inner(n, req, r)
		}
		zzsym.Assert(len(req.Params) == 1 && string(req.Params[0]) == string(zzHexText(hash[:])), "the transaction asked for")
		if unknown {
			r.Result = rawnull
			return nil
		}
		idx := `null`
		if mined {
			idx = `"0x0"`
		}
		r.Result = zzJoin([]byte(`{"nonce":`), zzQText(nonce, 2), []byte(`,"gasPrice":`), theirs, []byte(`,"gas":"0x5208","transactionIndex":`), []byte(idx), []byte(`,"input":"0x11","value":"0x5"}`))
		return nil
	}
	h, err := z.s.Cancel(&hash)
	if unknown || mined {
		if unknown {
			zzsym.Cover("unknown")
			zzsym.Assert(err == ErrNotFound, "an unknown transaction is not found")
		} else {
			zzsym.Cover("mined")
			zzsym.Assert(err == ErrCannotCancel, "a mined transaction is refused")
		}
		zzsym.Assert(len(z.t.reqs) == 1, "nothing is sent")
		return
	}
	zzsym.Assert(err == nil && h == z.txh && len(z.t.reqs) == 3, "the replacement is sent")
	last := z.t.reqs[2]
	zzsym.Assert(last.Method == "eth_sendTransaction" && len(last.Params) == 1, "the replacement is sent last")
	_, _, a := zzKey(0)
	gas := zzQText(zzPad(z.est, 6, 5), 4)
	if own.Cmp(tx) > 0 {
		zzsym.Cover("own")
		zzsym.Assert(string(last.Params[0]) == string(zzFields(&a, &a, gas, mine, nil, zzQText(nonce, 2), nil)), "the replacement at the sender's own price")
		return
	}
	zzsym.Cover("bumped")
	// everything but the price is as above; the price is compared as text
	p := last.Params[0]
	head := zzJoin([]byte(`{"from":`), zzHexText(a[:]), []byte(`,"to":`), zzHexText(a[:]), []byte(`,"gas":`), gas, []byte(`,"gasPrice":"0x`))
	tail := zzJoin([]byte(`","data":"0x","nonce":`), zzQText(nonce, 2), []byte{'}'})
	if len(p) <= len(head)+len(tail) || string(p[:len(head)]) != string(head) || string(p[len(p)-len(tail):]) != string(tail) {
		zzsym.Assert(false, "the replacement re-uses the nonce and moves nothing")
		return
	}
	got, old := string(p[len(head):len(p)-len(tail)]), string(theirs[3:len(theirs)-1])
	zzsym.Assert(len(got) > len(old) || len(got) == len(old) && got > old, "the replacement pays strictly more")
}
