package seth

import (
	"errors"
	"math/big"

	"github.com/philhofer/seth/zzsym"
)

// Transactions are serialised as canonical RLP.
//
//zz:prop=C07
//zz:use common_rlp

type zzTx struct {
	tx    Transaction
	items [][]byte
}

// zzMakeTx makes a transaction whose fields have the given sizes.
func zzMakeTx(nonce, price, gas int, to bool, value, input int) zzTx {
	var z zzTx
	n, p, g := zzQuant("nonce", nonce), zzQuant("price", price), zzQuant("gas", gas)
	v, in := zzQuant("value", value), zzsym.Bytes("input", input)
	z.tx.Nonce = Uint64(zzU64(n))
	z.tx.GasPrice = Int(*new(big.Int).SetBytes(p))
	z.tx.Gas = Uint64(zzU64(g))
	z.tx.Value = Int(*new(big.Int).SetBytes(v))
	z.tx.Input = Data(append([]byte{}, in...))
	var addr []byte
	if to {
		a := new(Address)
		copy(a[:], zzsym.Bytes("to", 20))
		addr = append(addr, a[:]...)
		z.tx.To = a
	}
	// fields that are not serialised
	z.tx.From = &Address{9}
	z.tx.BlockNumber = 77
	z.items = [][]byte{n, p, g, addr, v, in}
	return z
}

func zzStrip(b []byte) []byte {
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	return b
}

func zzCheckTx(z zzTx, rlen, slen int) {
	sig := new(Signature)
	r, s := zzQuant("r", rlen), zzQuant("s", slen)
	copy(sig[32-rlen:32], r)
	copy(sig[64-slen:64], s)
	v := zzsym.Byte("v")
	zzsym.Assume(v < 2)
	sig[64] = v
	raw := z.tx.Encode(sig)
	want := zzList(append(append([][]byte{}, z.items...), []byte{37 + v}, r, s)...)
	zzsym.Assert(zzsym.EqBytes(raw, want), "the signed transaction is the canonical list of its nine fields")
	h := z.tx.HashToSign()
	wh := HashBytes(zzList(append(append([][]byte{}, z.items...), []byte{1}, nil, nil)...))
	zzsym.Assert(*h == wh, "the hash to sign covers six fields and the chain id")
	zzsym.Cover("tx")
}

// Every size of one number, small sizes of the rest.
//
//zz:budget=60
//zz:cover tx
func ZZ_C07_sizes() {
	n, p, g, to, v, in, r, s := 1, 1, 1, true, 1, 0, 32, 32
	switch zzsym.Choose("field", 7) {
	case 0:
		n = zzsym.Choose("n", 9)
	case 1:
		p = zzsym.Choose("p", 33)
	case 2:
		g = zzsym.Choose("g", 9)
	case 3:
		to = false
	case 4:
		v = zzsym.Choose("v", 33)
	case 5:
		r = 1 + zzsym.Choose("r", 32)
	case 6:
		s = 1 + zzsym.Choose("s", 32)
	}
	zzCheckTx(zzMakeTx(n, p, g, to, v, in), r, s)
}

// Input sizes around the header boundaries, with and without a recipient.
//
//zz:budget=90
//zz:cover tx
func ZZ_C07_input() {
	in := []int{0, 1, 2, 54, 55, 56, 57, 128, 255, 256, 257}[zzsym.Choose("in", zzsym.Bound(11, 11))]
	to := zzsym.Choose("to", 2) == 1
	k := zzsym.Choose("k", 2)
	zzCheckTx(zzMakeTx(2*k, 5*k, 3*k, to, 8*k, in), 32, 32)
}

// Total sizes around 55 bytes of list content, where the header of the unsigned
// list changes.
//
//zz:budget=90
//zz:cover tx
func ZZ_C07_total() {
	in := zzsym.Choose("in", 60)
	zzCheckTx(zzMakeTx(0, 0, 0, zzsym.Choose("to", 2) == 1, 0, in), 1, 1)
}

// Long inputs (three-byte length), content mostly concrete.
//
//zz:budget=60
//zz:cover tx
func ZZ_C07_long() {
	z := zzMakeTx(1, 1, 1, true, 1, 0)
	in := make([]byte, []int{65535, 65536}[zzsym.Choose("in", 2)])
	in[0], in[len(in)-1] = zzsym.Byte("first"), zzsym.Byte("last")
	z.tx.Input = in
	z.items[5] = append([]byte{}, in...)
	sig := new(Signature)
	copy(sig[:64], zzsym.Bytes("sig", 64))
	zzsym.Assume(sig[0] != 0 && sig[32] != 0)
	raw := z.tx.Encode(sig)
	want := zzList(append(append([][]byte{}, z.items...), []byte{37}, sig[:32], sig[32:64])...)
	zzsym.Assert(zzsym.EqBytes(raw, want), "the signed transaction is the canonical list of its nine fields")
	zzsym.Cover("tx")
}

// SignTransaction signs the hash of the transaction and serialises the
// signature it got.
//
//zz:budget=30
//zz:cover ok err
func ZZ_C07_sign() {
	z := zzMakeTx(1, 1, 1, true, 1, 4)
	sig := new(Signature)
	copy(sig[:64], zzsym.Bytes("sig", 64))
	zzsym.Assume(sig[0] != 0 && sig[32] != 0)
	sig[64] = zzsym.Byte("v") & 1
	var got *Hash
	calls := 0
	if zzsym.Bool("fail") {
		e := errors.New("no")
		raw, err := SignTransaction(&z.tx, func(h *Hash) (*Signature, error) { return nil, e })
		zzsym.Assert(raw == nil && err == e, "a signer error is returned")
		zzsym.Cover("err")
		return
	}
	raw, err := SignTransaction(&z.tx, func(h *Hash) (*Signature, error) { calls++; got = h; return sig, nil })
	zzsym.Assert(err == nil && calls == 1, "signed once")
	zzsym.Assert(*got == *z.tx.HashToSign(), "the hash to sign is signed")
	want := zzList(append(append([][]byte{}, z.items...), []byte{37 + sig[64]}, sig[:32], sig[32:64])...)
	zzsym.Assert(zzsym.EqBytes(raw, want), "the signed transaction carries the signature")
	zzsym.Cover("ok")
}
