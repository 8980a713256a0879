package seth

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"errors"
	"hash"
	"strconv"

	"github.com/philhofer/seth/keccak"
	"github.com/philhofer/seth/zzsym"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/scrypt"
)

// Key files.
//
//zz:prop=C14
//zz:use common_client

// While executing symbolically the primitives are uninterpreted functions;
// what the library functions check or panic on is kept.

type zzCall struct {
	name string
	args [][]byte
	out  []byte
}

var zzCalls []zzCall

// zzUF is an uninterpreted function: the same bytes for the same arguments.
func zzUF(name string, n int, args ...[]byte) []byte {
next:
	for _, c := range zzCalls {
		if c.name != name || len(c.out) != n {
			continue
		}
		for i, a := range args {
			if len(a) != len(c.args[i]) || !zzsym.EqBytes(a, c.args[i]) {
				continue next
			}
		}
		return append([]byte(nil), c.out...)
	}
	c := zzCall{name: name, out: zzsym.Fresh(name, n)}
	for _, a := range args {
		c.args = append(c.args, append([]byte(nil), a...))
	}
	zzCalls = append(zzCalls, c)
	return append([]byte(nil), c.out...)
}

// Hex text made from bytes is read back as those bytes.
var zzHexes []struct {
	b []byte
	s string
}

func Model_ideal__encoding_hex__EncodeToString(b []byte) string {
	t := zzHexText(b)
	s := string(t[3 : len(t)-1])
	zzHexes = append(zzHexes, struct {
		b []byte
		s string
	}{append([]byte(nil), b...), s})
	return s
}

func Model_ideal__encoding_hex__DecodeString(s string) ([]byte, error) {
	for _, h := range zzHexes {
		if len(h.s) == len(s) && zzsym.Known(h.s == s) {
			return append([]byte(nil), h.b...), nil
		}
	}
	out := make([]byte, len(s)/2)
	n, err := hex.Decode(out, []byte(s))
	return out[:n], err
}

func Model_ideal__xcrypto_pbkdf2__Key(password, salt []byte, iter, keyLen int, h func() hash.Hash) []byte {
	size := h().Size()
	n := (keyLen + size - 1) / size
	dk := make([]byte, 0, n*size)
	if n > 0 {
		if iter < 1 {
			iter = 1
		}
		dk = dk[:n*size]
		copy(dk, zzUF("pbkdf2-"+strconv.Itoa(size)+"-"+strconv.Itoa(iter), n*size, password, salt))
	}
	return dk[:keyLen]
}

// zzKDF records the derivations by which one passphrase could be confused with
// another.
var zzKDF []struct{ pass, key []byte }

func Model_ideal__xcrypto_scrypt__Key(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {
	const maxInt = int(^uint(0) >> 1)
	if N <= 1 || N&(N-1) != 0 {
		return nil, errors.New("scrypt: N")
	}
	if uint64(r)*uint64(p) >= 1<<30 || r > maxInt/128/p || r > maxInt/256 || N > maxInt/128/r {
		return nil, errors.New("scrypt: parameters")
	}
	if r < 0 || p < 0 {
		panic("scrypt: negative")
	}
	n := (keyLen + 31) / 32
	dk := make([]byte, 0, n*32)
	if n > 0 {
		dk = dk[:n*32]
		copy(dk, zzUF("scrypt-"+strconv.Itoa(N)+"-"+strconv.Itoa(r)+"-"+strconv.Itoa(p), n*32, password, salt))
	}
	dk = dk[:keyLen]
	if keyLen == 32 {
		for _, o := range zzKDF {
			same := len(o.pass) == len(password) && zzsym.EqBytes(o.pass, password)
			zzsym.Assume(zzsym.Or(same, !zzsym.EqBytes(o.key[16:], dk[16:])))
		}
		zzKDF = append(zzKDF, struct{ pass, key []byte }{append([]byte(nil), password...), append([]byte(nil), dk...)})
	}
	return dk, nil
}

type zzBlock struct{ key []byte }

func (b *zzBlock) BlockSize() int          { return 16 }
func (b *zzBlock) Encrypt(dst, src []byte) { panic("zz: block") }
func (b *zzBlock) Decrypt(dst, src []byte) { panic("zz: block") }

func Model_ideal__crypto_aes__NewCipher(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
		return &zzBlock{append([]byte(nil), key...)}, nil
	}
	return nil, aes.KeySizeError(len(key))
}

type zzStream struct {
	b   *zzBlock
	iv  []byte
	pos int
}

func Model_ideal__crypto_cipher__NewCTR(b cipher.Block, iv []byte) cipher.Stream {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCTR: IV length must equal block size")
	}
	return &zzStream{b: b.(*zzBlock), iv: append([]byte(nil), iv...)}
}

func (s *zzStream) XORKeyStream(dst, src []byte) {
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	k := zzUF("ctr", 80, s.b.key, s.iv)
	for i := range src {
		dst[i] = src[i] ^ k[s.pos]
		s.pos++
	}
}

// zzHash is a hash free of collisions.
type zzHash struct{ in []byte }

var zzSums []struct{ in, out []byte }

func (h *zzHash) Write(p []byte) (int, error) { h.in = append(h.in, p...); return len(p), nil }
func (h *zzHash) Reset()                      { h.in = nil }
func (h *zzHash) Size() int                   { return 32 }
func (h *zzHash) BlockSize() int              { return 136 }
func (h *zzHash) Sum(b []byte) []byte {
	out := zzUF("keccak256", 32, h.in)
	for _, s := range zzSums {
		same := len(s.in) == len(h.in) && zzsym.EqBytes(s.in, h.in)
		zzsym.Assume(zzsym.Or(same, !zzsym.EqBytes(s.out, out)))
	}
	zzSums = append(zzSums, struct{ in, out []byte }{append([]byte(nil), h.in...), out})
	return append(b, out...)
}

func Model_ideal__seth_keccak__New256() hash.Hash { return &zzHash{} }

func Model_ideal__seth__PPrivateKey__Address(p *PrivateKey) *Address {
	var a Address
	copy(a[:], zzUF("address", 20, p[:]))
	return &a
}

func Model_ideal__crypto_rand__Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(37 * i) // any will do: only uninterpreted functions see it
	}
	return len(b), nil
}

// Any private key and passphrase of 0, 1 or 9 bytes; opened as created or
// after a trip through JSON, with or without its address in the file.
//
//zz:models=ideal samples=3
func ZZ_C14_roundtrip() {
	var k PrivateKey
	copy(k[:], zzsym.Bytes("key", 32))
	k[0] |= 1
	zzsym.Assume(k[0] < 0xff)
	pass := zzsym.Bytes("pass", []int{0, 1, 9}[zzsym.Choose("len", 3)])
	kf := k.ToKeyfile("n", append([]byte(nil), pass...))
	zzsym.Assert(kf.Name == "n" && kf.Version == 3 && kf.Address == "", "the file is named")
	switch zzsym.Choose("how", 3) {
	case 1:
		buf, err := json.Marshal(kf)
		zzsym.Assert(err == nil, "the file can be written")
		kf = new(Keyfile)
		zzsym.Assert(json.Unmarshal(buf, kf) == nil, "and read")
	case 2:
		a := k.Address()
		kf.Address = hex.EncodeToString(a[:])
	}
	got, err := kf.Private(pass)
	zzsym.Assert(err == nil, "the file opens with its passphrase")
	zzsym.Assert(*got == k, "to the key it was made from")
}

// A file made from any key, with any one byte of its authentication code or
// ciphertext changed, its authentication code cut to 0, 1 or 31 bytes or one
// byte longer, or not hex, opened with another passphrase, or holding another
// address (any one byte changed, cut, extended or not hex).
//
//zz:models=ideal samples=3
func ZZ_C14_tampered() {
	var k PrivateKey
	copy(k[:], zzsym.Bytes("key", 32))
	k[0] |= 1
	zzsym.Assume(k[0] < 0xff)
	pass := zzsym.Bytes("pass", 2)
	kf := k.ToKeyfile("", append([]byte(nil), pass...))
	flip := func(s string) string {
		b, err := hex.DecodeString(s)
		zzsym.Assert(err == nil, "hex")
		i := zzsym.Choose("pos", len(b))
		if len(b) == 32 && zzsym.Bound(0, 1) == 0 {
			zzsym.Assume(i == 0 || i == 15 || i == 16 || i == 31)
		}
		b[i] ^= 1 << (zzsym.Byte("bit") & 7)
		return hex.EncodeToString(b)
	}
	shape := func(s string) string {
		switch zzsym.Choose("shape", 6) {
		case 0:
			return flip(s)
		case 1:
			return ""
		case 2:
			return s[:2]
		case 3:
			return s[:len(s)-2]
		case 4:
			return s + "00"
		}
		return s[:len(s)-1] + "g"
	}
	switch zzsym.Choose("what", 4) {
	case 0:
		kf.Crypto.MAC = shape(kf.Crypto.MAC)
	case 1:
		kf.Crypto.Ciphertext = flip(kf.Crypto.Ciphertext)
	case 2:
		switch zzsym.Choose("wrong", 3) {
		case 0:
			pass[0]++
		case 1:
			pass = pass[:1]
		case 2:
			pass = append(pass, zzsym.Byte("more"))
		}
	case 3:
		a := k.Address()
		kf.Address = shape(hex.EncodeToString(a[:]))
		zzsym.Assume(kf.Address != "") // the address is optional
	}
	got, err := kf.Private(pass)
	zzsym.Assert(err != nil, "the file is refused")
	zzsym.Assert(got == nil, "and yields no key")
}

// zzDerive is the derived key.
func zzDerive(kdf, prf int, pass, salt []byte, c, n, r, p, dklen int) []byte {
	if kdf == 1 {
		k, err := scrypt.Key(pass, salt, n, r, p, dklen)
		zzsym.Assert(err == nil, "scrypt")
		return k
	}
	return pbkdf2.Key(pass, salt, c, dklen, []func() hash.Hash{sha256.New, sha512.New, sha512.New384, sha256.New224, sha1.New}[prf])
}

// Files with any derivation function, derived-key length, scrypt parameters,
// salt, cipher, initialisation vector and ciphertext length from the lists
// below, one of them off the norm at a time, and the authentication code that
// goes with them.
//
//zz:models=ideal
//zz:cover ok bad
func ZZ_C14_shape() {
	pass := zzsym.Bytes("pass", 2)
	kdf := zzsym.Choose("kdf", 2)
	name := []string{"pbkdf2", "scrypt"}[kdf]
	prf, prfName := 0, "hmac-sha256"
	salt := zzsym.Bytes("salt", 4)
	saltText := hex.EncodeToString(salt)
	dklen, dkText := 32, `"dklen":32,`
	nrp := `"n":2,"r":1,"p":1,`
	n, r, p, c := 2, 1, 1, 1
	ivn, ctn := 16, 32
	ivText, ctText := "", ""
	cname := "aes-128-ctr"
	ok, either := true, false
	cparams, kparams := "", ""
	switch zzsym.Choose("odd", 12) {
	case 0:
		prf = zzsym.Choose("prf", 5)
		prfName = []string{"hmac-sha256", "hmac-sha512", "hmac-sha384", "hmac-sha224", "HMAC-SHA1"}[prf]
		c = 3
	case 1:
		dklen = []int{0, -1, -32, 1, 8, 15, 16, 17, 31, 33, 48, 64, 65}[zzsym.Choose("dklen", 13)]
		dkText = `"dklen":` + strconv.Itoa(dklen) + `,`
		ok, either = false, dklen > 32
	case 2:
		dklen, dkText, ok = 0, "", false
	case 3:
		k := zzsym.Choose("scrypt", 10)
		nrp = []string{``, `"n":2,"r":1,`, `"n":2,"p":1,`, `"r":1,"p":1,`, `"n":2,"r":0,"p":1,`, `"n":2,"r":1,"p":0,`,
			`"n":2,"r":-1,"p":1,`, `"n":2,"r":1,"p":-1,`, `"n":3,"r":1,"p":1,`, `"n":4,"r":2,"p":3,`}[k]
		n, r, p = 4, 2, 3
		ok = k == 9 || kdf == 0
	case 4:
		ivn = []int{0, 1, 15, 17, 32}[zzsym.Choose("iv", 5)]
		ok = false
	case 5:
		ivText, ok = "0g", false
	case 6:
		ctn = []int{0, 1, 16, 31, 33, 64}[zzsym.Choose("ct", 6)]
		ok = false
	case 7:
		ctText, ok = "0", false
	case 8:
		cname = []string{"aes-128-cbc", "", "AES-128-CTR", "aes-128-ctr "}[zzsym.Choose("cipher", 4)]
		ok = cname == "AES-128-CTR"
	case 9:
		k := zzsym.Choose("kdfname", 4)
		name = []string{[]string{"PBKDF2", "Scrypt"}[kdf], "", "argon2", "scrypt "}[k]
		ok = k == 0
	case 10:
		cparams = []string{`null`, `{}`, `[]`, `{"iv":7}`, ``, `{"iv":`}[zzsym.Choose("cparams", 6)]
		ok = false
		ivn = 0
	case 11:
		k := zzsym.Choose("kparams", 5)
		kparams = []string{`null`, `{}`, `[]`, `{"dklen":"32"}`, `{"salt":"0"}`}[k]
		ok = false
	}
	iv := zzsym.Bytes("iv", ivn)
	ct := zzsym.Bytes("ct", ctn)
	if ivText == "" {
		ivText = hex.EncodeToString(iv)
	}
	kf := new(Keyfile)
	kf.Crypto.KDF = name
	kf.Crypto.Cipher = cname
	kf.Crypto.CipherParams = json.RawMessage(`{"iv":"` + ivText + `"}`)
	kf.Crypto.KDFParams = json.RawMessage(`{` + dkText + nrp + `"c":` + strconv.Itoa(c) + `,"prf":"` + prfName + `","salt":"` + saltText + `"}`)
	if cparams != "" {
		kf.Crypto.CipherParams = json.RawMessage(cparams)
	}
	if kparams != "" {
		kf.Crypto.KDFParams = json.RawMessage(kparams)
	}
	if ctText == "" {
		kf.Crypto.Ciphertext = hex.EncodeToString(ct)
	} else {
		kf.Crypto.Ciphertext = ctText
	}
	var key []byte
	if dklen >= 0 && (ok || nrp == `"n":2,"r":1,"p":1,`) {
		key = zzDerive(kdf, prf, pass, salt, c, n, r, p, dklen)
	}
	h := keccak.New256()
	if len(key) >= 16 {
		h.Write(key[len(key)-16:])
	} else {
		h.Write(key)
	}
	h.Write(ct)
	kf.Crypto.MAC = hex.EncodeToString(h.Sum(nil))
	got, err := kf.Private(pass)
	if !ok && !either || err != nil {
		zzsym.Cover("bad")
		zzsym.Assert(err != nil && got == nil, "a malformed file is refused")
		zzsym.Assert(!ok, "a proper file opens")
		return
	}
	zzsym.Cover("ok")
	b, err := aes.NewCipher(key[:16])
	zzsym.Assert(err == nil, "aes")
	var want PrivateKey
	cipher.NewCTR(b, iv).XORKeyStream(want[:], ct)
	zzsym.Assert(*got == want, "the key is the ciphertext decrypted with the derived key")
}
