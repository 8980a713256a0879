package seth

import (
	"crypto/cipher"
	"hash"
	"math/big"

	"github.com/philhofer/seth/ec"
	"github.com/philhofer/seth/zzsym"
)

// Signing then recovering yields the signer.
//
// The code runs over small groups: those of y^2 = x^3 + B over the fields of
// 19, 7 and 43 elements, of 13, 13 and 31 elements, in which the points
// are looked up; that the real functions are those of the group of the real curve is
// C11 and C12. In a run of the real code the same happens with some keys, hashes
// and signatures of the real curve.
//
//zz:prop=C09

type zzGroup struct {
	p, b, n int
	x, y    []int
}

var zzGroups = []zzGroup{
	{19, 3, 13,
		[]int{0, 1, 14, 11, 7, 3, 2, 2, 3, 7, 11, 14, 1},
		[]int{0, 2, 12, 2, 17, 12, 12, 7, 7, 2, 17, 7, 17}},
	{7, 3, 13,
		[]int{0, 1, 6, 2, 4, 3, 5, 5, 3, 4, 2, 6, 1},
		[]int{0, 2, 3, 2, 5, 3, 3, 4, 4, 2, 5, 4, 5}},
	{43, 7, 31,
		[]int{0, 2, 7, 35, 21, 12, 29, 25, 32, 20, 42, 40, 37, 13, 34, 38, 38, 34, 13, 37, 40, 42, 20, 32, 25, 29, 12, 21, 35, 7, 2},
		[]int{0, 12, 7, 21, 18, 12, 31, 18, 40, 40, 7, 25, 36, 21, 40, 21, 22, 3, 22, 7, 18, 36, 3, 3, 25, 12, 31, 25, 22, 36, 31}},
}

var zzG zzGroup

// zzSmall puts a small group in the place of the curve (not in a run of the
// real code).
func zzSmall() {
	zzG = zzGroups[zzsym.Choose("group", zzsym.Bound(2, 3))]
	if !zzsym.Symbolic() {
		return
	}
	q := params
	q.N.SetInt64(int64(zzG.n))
	q.P.SetInt64(int64(zzG.p))
	q.B.SetInt64(int64(zzG.b))
	q.Gx.SetInt64(int64(zzG.x[1]))
	q.Gy.SetInt64(int64(zzG.y[1]))
	order = q.N
	halforder = big.NewInt(int64(zzG.n / 2))
	curve.QPlus1Div4().SetInt64(int64((zzG.p + 1) / 4))
}

// the group

// zzMod is a number modulo the order.
func zzMod(k *big.Int) int {
	return int(new(big.Int).Mod(k, big.NewInt(int64(zzG.n))).Int64())
}

func zzPick(t []int, i int) int {
	v := t[0]
	for k := 1; k < len(t); k++ {
		v = zzsym.IteInt(i == k, t[k], v)
	}
	return v
}

func zzPointOf(i int) (*big.Int, *big.Int) {
	return big.NewInt(int64(zzPick(zzG.x, i))), big.NewInt(int64(zzPick(zzG.y, i)))
}

// zzLogOf is the number of a point.
func zzLogOf(x, y *big.Int) int {
	xi, yi, r := int(x.Int64()), int(y.Int64()), -1
	for k := range zzG.x {
		r = zzsym.IteInt(zzsym.And(xi == zzG.x[k], yi == zzG.y[k]), k, r)
	}
	zzsym.Assert(r >= 0, "a point of the curve")
	return r
}

func Model_tiny__seth_ec__PKoblitzCurve__ScalarBaseMult(c *ec.KoblitzCurve, k []byte) (*big.Int, *big.Int) {
	return zzPointOf(zzMod(new(big.Int).SetBytes(k)))
}

func Model_tiny__seth_ec__PKoblitzCurve__ScalarMult(c *ec.KoblitzCurve, x, y *big.Int, k []byte) (*big.Int, *big.Int) {
	return zzPointOf(zzLogOf(x, y) * zzMod(new(big.Int).SetBytes(k)) % zzG.n)
}

func Model_tiny__seth_ec__PKoblitzCurve__Add(c *ec.KoblitzCurve, x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	return zzPointOf((zzLogOf(x1, y1) + zzLogOf(x2, y2)) % zzG.n)
}

func Model_tiny__seth_ec__PKoblitzCurve__Double(c *ec.KoblitzCurve, x, y *big.Int) (*big.Int, *big.Int) {
	return zzPointOf(2 * zzLogOf(x, y) % zzG.n)
}

func Model_tiny__seth_ec__PKoblitzCurve__IsOnCurve(c *ec.KoblitzCurve, x, y *big.Int) bool {
	p := big.NewInt(int64(zzG.p))
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x).Add(r, big.NewInt(int64(zzG.b)))
	return l.Mod(l, p).Cmp(r.Mod(r, p)) == 0
}

// arithmetic modulo a small number

func zzTable(x *big.Int, n int, f func(i int) int) *big.Int {
	t := make([]int, n)
	for i := range t {
		t[i] = f(i)
	}
	return big.NewInt(int64(zzPick(t, int(new(big.Int).Mod(x, big.NewInt(int64(n))).Int64()))))
}

func Model_tiny__math_big__PInt__ModInverse(z, x, m *big.Int) *big.Int {
	n := int(m.Int64())
	z.Set(zzTable(x, n, func(i int) int {
		for k := 1; k < n; k++ {
			if i*k%n == 1 {
				return k
			}
		}
		return 0
	}))
	return z
}

func Model_tiny__math_big__PInt__Exp(z, x, y, m *big.Int) *big.Int {
	n, e := int(m.Int64()), int(y.Int64())
	z.Set(zzTable(x, n, func(i int) int {
		r := 1
		for k := 0; k < e; k++ {
			r = r * i % n
		}
		return r
	}))
	return z
}

// the stream of nonces: whatever the harness puts there

type zzSeeds struct{ in []byte }

var zzSeeded [][]byte

func (h *zzSeeds) Write(p []byte) (int, error) { h.in = append(h.in, p...); return len(p), nil }
func (h *zzSeeds) Reset()                      { h.in = nil }
func (h *zzSeeds) Size() int                   { return 32 }
func (h *zzSeeds) BlockSize() int              { return 136 }
func (h *zzSeeds) Sum(b []byte) []byte {
	zzSeeded = append(zzSeeded, append([]byte{}, h.in...))
	out := make([]byte, 32)
	out[0], out[31] = 0xa5, byte(len(zzSeeded))
	return append(b, out...)
}

func Model_tiny__seth_keccak__New256() hash.Hash { return &zzSeeds{} }

type zzNoBlock struct{}

func (zzNoBlock) BlockSize() int          { return 16 }
func (zzNoBlock) Encrypt(dst, src []byte) { panic("zz: block") }
func (zzNoBlock) Decrypt(dst, src []byte) { panic("zz: block") }

// zzUsed are the seeds of the streams.
var zzUsed [][]byte

func Model_tiny__crypto_aes__NewCipher(key []byte) (cipher.Block, error) {
	zzsym.Assert(len(key) == 32 && key[0] == 0xa5 && int(key[31]) == len(zzSeeded), "the nonces come from the hash")
	zzUsed = append(zzUsed, zzSeeded[len(zzSeeded)-1])
	return zzNoBlock{}, nil
}

var zzStopping bool

type zzNonces struct{ n int }

func Model_tiny__crypto_cipher__NewCTR(b cipher.Block, iv []byte) cipher.Stream {
	return &zzNonces{}
}

func (s *zzNonces) XORKeyStream(dst, src []byte) {
	zzsym.Assert(len(dst) == 32 && len(src) == 32, "nonces of 32 bytes")
	if zzStopping {
		panic(zzStop{})
	}
	zzsym.Assume(s.n < 2)
	s.n++
	for i := range dst {
		dst[i] = 0
	}
	k := zzsym.Choose("nonce", zzG.n+4)
	if k == zzG.n+3 {
		dst[0], k = 0x80, 1
	}
	dst[31] = byte(k)
}

// zzHashes is any hash of the form q q q ... r, where the q q q come to a
// multiple of the order of the group whatever q is, up to 31 bytes of it.
func zzHashes(name string) (h Hash) {
	n := 3
	if zzG.n == 31 {
		n = 5
	}
	q := zzsym.Bytes(name, 31/n)
	for i := range q {
		for j := 0; j < n; j++ {
			h[31-n*len(q)+n*i+j] = q[i]
		}
	}
	h[31] = byte(zzsym.Choose("residue", zzG.n))
	return
}

func zzKey() (d int, k PrivateKey) {
	d = 1 + zzsym.Choose("key", zzG.n-1)
	k[31] = byte(d)
	return d, k
}

// zzReally is the j-th value of a run of the real code.
func zzReally(j int, b []byte) (r [32]byte) {
	copy(r[:], b)
	if j == 0 {
		return
	}
	for i := range r {
		r[i] = byte(int(r[i])*(2*j+1) + (i*i+7)*j*j + j>>3)
	}
	if j%7 == 3 {
		r[0] = 0
	}
	if j%5 == 2 {
		for i := range r[:16] {
			r[i] = 0xff
		}
	}
	return
}

// zzVerifies tells whether a signature is one of the hash under the key d G.
func zzVerifies(r, s *big.Int, h *Hash, d int) bool {
	n := big.NewInt(int64(zzG.n))
	w := new(big.Int)
	Model_tiny__math_big__PInt__ModInverse(w, s, n)
	u := new(big.Int).SetBytes(h[:])
	u.Add(u, new(big.Int).Mul(r, big.NewInt(int64(d))))
	u.Mul(u.Mod(u, n), w)
	x, _ := zzPointOf(zzMod(u))
	return x.Mod(x, n).Cmp(r) == 0
}

// zzReallyVerifies likewise for the real curve.
func zzReallyVerifies(r, s *big.Int, h *Hash, q *PublicKey) bool {
	w := new(big.Int).ModInverse(s, order)
	u := new(big.Int).SetBytes(h[:])
	u.Mul(u, w).Mod(u, order)
	x1, y1 := curve.ScalarBaseMult(u.Bytes())
	u.Mul(r, w).Mod(u, order)
	x2, y2 := curve.ScalarMult(new(big.Int).SetBytes(q[:32]), new(big.Int).SetBytes(q[32:]), u.Bytes())
	x, y := curve.Add(x1, y1, x2, y2)
	return (x.Sign() != 0 || y.Sign() != 0) && x.Mod(x, order).Cmp(r) == 0
}

func zzSigned(k *PrivateKey, h *Hash, d int) *Signature {
	k0, h0 := *k, *h
	sig := k.Sign(h)
	zzsym.Assert(*k == k0 && *h == h0, "the key and the hash are as they were")
	zzsym.Assert(sig.Valid(), "the signature is valid")
	zzsym.Assert(sig[64] < 2, "the parity")
	q := k.PublicKey()
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
	zzsym.Assert(zzsym.And(r.Sign() > 0, zzsym.And(s.Sign() > 0, s.Cmp(halforder) <= 0)), "the parts are not zero, and s is low")
	if zzsym.Symbolic() {
		zzsym.Assert(zzVerifies(r, s, h, d), "the signature verifies")
	} else {
		zzsym.Assert(zzReallyVerifies(r, s, h, q), "the signature verifies")
	}
	got, err := sig.Recover(h)
	zzsym.Assert(err == nil, "the key is recovered")
	if err == nil {
		zzsym.Assert(zzsym.EqBytes(got[:], q[:]), "recovering gives the key of the signer")
	}
	zzsym.Assert(*h == h0, "the hash is as it was")
	return sig
}

// every key, every hash by its last byte (after zeros or ones) and any nonces
// after each other of which the second is good, in groups of 13 elements
// (thorough: also of 31 and 79)
//
//zz:models=tiny split=16 splitdepth=4
//zz:cover signed
func ZZ_C09_sign() {
	zzSmall()
	h := zzHashes("hash")
	d, k := zzKey()
	if zzsym.Symbolic() {
		zzSigned(&k, &h, d)
	} else {
		for j := 0; j < 150; j++ {
			kj, hj := PrivateKey(zzReally(j, k[:])), Hash(zzReally(j+1, h[:]))
			zzSigned(&kj, &hj, 0)
		}
	}
	zzsym.Cover("signed")
}

// every signature of the group and every hash by its last byte
//
//zz:models=tiny split=16 splitdepth=4
//zz:cover key error
func ZZ_C09_recover() {
	zzSmall()
	h := zzHashes("hash")
	var sig Signature
	sig[31] = byte(zzsym.Choose("r", zzG.p+1))
	sig[63] = byte(zzsym.Choose("s", zzG.n+1))
	sig[64] = byte(zzsym.Choose("v", 2))
	if zzsym.Symbolic() {
		zzRecovers(sig, &h)
		return
	}
	for j := 0; j < 150; j++ {
		var z Signature
		r, s := zzReally(j, sig[:32]), zzReally(j+1, sig[32:64])
		copy(z[:], r[:])
		copy(z[32:], s[:])
		z[32] &= 0x7f
		z[64] = sig[64]
		hj := Hash(zzReally(j+2, h[:]))
		zzRecovers(z, &hj)
		// a signature that is of no key at all: s R is e G
		m := new(big.Int).SetBytes(hj[:])
		m.Mod(m, order)
		x, y := params.Gx, params.Gy
		if m.Sign() != 0 {
			zzRecovers(*NewSignature(x, m, int(y.Bit(0))), &hj)
		}
	}
}

func zzRecovers(z Signature, h *Hash) {
	z0, h0 := z, *h
	q, err := z.Recover(h)
	zzsym.Assert(z == z0 && *h == h0, "the signature and the hash are as they were")
	if err != nil {
		zzsym.Assert(q == nil, "a key or an error")
		zzsym.Cover("error")
		return
	}
	zzsym.Assert(!zzsym.EqBytes(q[:], make([]byte, 64)), "the key is not the point at infinity")
	r, s := new(big.Int).SetBytes(z[:32]), new(big.Int).SetBytes(z[32:64])
	if zzsym.Symbolic() {
		d := zzLogOf(new(big.Int).SetBytes(q[:32]), new(big.Int).SetBytes(q[32:]))
		zzsym.Assert(zzVerifies(r, s, h, d), "the signature verifies under the key")
	} else {
		zzsym.Assert(zzReallyVerifies(r, s, h, q), "the signature verifies under the key")
	}
	zzsym.Cover("key")
}

// two signatures with another key or another byte of the hash: with streams of
// nonces of their own
//
//zz:models=tiny
//zz:cover other same
func ZZ_C09_nonces() {
	zzG = zzGroups[0]
	var k1, k2 PrivateKey
	copy(k1[:], zzsym.Bytes("key", 32))
	var h1 Hash
	copy(h1[:], zzsym.Bytes("hash1", 32))
	zzsym.Assume(zzsym.And(k1[0] < 0x7f, k1[31] != 0))
	k2 = k1
	h2 := h1
	i := zzsym.Choose("byte", 64)
	if i < 32 {
		h2[i] = zzsym.Byte("hash2")
	} else {
		k2[i-32] = zzsym.Byte("key2")
		zzsym.Assume(zzsym.And(k2[0] < 0x7f, k2[31] != 0))
	}
	if zzsym.And(zzsym.EqBytes(k1[:], k2[:]), zzsym.EqBytes(h1[:], h2[:])) {
		if !zzsym.Symbolic() {
			zzsym.Assert(*k1.Sign(&h1) == *k2.Sign(&h2), "the same signature")
		}
		zzsym.Cover("same")
		return
	}
	if zzsym.Symbolic() {
		zzSeeded, zzUsed = nil, nil
		zzTrySign(&k1, &h1)
		zzTrySign(&k2, &h2)
		zzsym.Assert(len(zzUsed) == 2, "a stream of nonces for each")
		if len(zzUsed) == 2 {
			zzsym.Assert(len(zzUsed[0]) == len(zzUsed[1]) && !zzsym.EqBytes(zzUsed[0], zzUsed[1]), "streams of their own")
		}
	} else {
		a, b := k1.Sign(&h1), k2.Sign(&h2)
		zzsym.Assert(!zzsym.EqBytes(a[:32], b[:32]), "streams of their own")
	}
	zzsym.Cover("other")
}

type zzStop struct{}

// zzTrySign signs until the first nonce is asked for.
func zzTrySign(k *PrivateKey, h *Hash) {
	zzStopping = true
	defer func() {
		zzStopping = false
		if r := recover(); r != nil {
			if _, ok := r.(zzStop); !ok {
				panic(r)
			}
		}
	}()
	k.Sign(h)
}
