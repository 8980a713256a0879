package main

import (
	"bytes"
	"errors"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
)

// Two keys with their public keys; signing, recovery and the unlocking of key
// files are idealised while executing symbolically: a signature recovers to
// the key that made it, for the hash it was made for, and a key file gives its
// key for its passphrase.

var zzPubs = [...]string{
	"0x5cbdf0646e5db4eaa398f365f2ea7a0e3d419b7e0330e39ce92bddedcac4f9bc6aebca40ba255960a3178d6d861a54dba813d0b813fde7b5a5082628087264da",
	"0xacd484e2f0c7f65309ad178a9f559abde09796974c57e714c35f110dfc27ccbecc338921b0a7d9fd64380971763b61e9add888a4375f8e0f05cc262ac64f9c37",
}

var zzAddrTexts = [...]string{"0xd41c057fd1c78805aac12b0a94a405c0461a6fbb", "0xf7edc8fa1ecc32967f827c9043fcae6ba73afa5c"}

func zzKey(i int) (k seth.PrivateKey, pub seth.PublicKey, a seth.Address) {
	k[31] = byte(7 + 2*i)
	if err := pub.FromString(zzPubs[i]); err != nil {
		panic(err)
	}
	if err := a.FromString(zzAddrTexts[i]); err != nil {
		panic(err)
	}
	return
}

var zzCrypto = [...]string{
	`{"cipher":"aes-128-ctr","cipherparams":{"iv":"00000000000000000000000000000000"},"ciphertext":"4ba08c5b48fa57a167c774bcbc447cc8899c7eec6ac191c19c34a010e740601e","kdf":"scrypt","kdfparams":{"dklen":32,"n":2,"r":1,"p":1,"salt":"01020304"},"mac":"128a08edcd02c59de32c23edda323ef38218205bfc9106e849747ac3fd6cd237"}`,
	`{"cipher":"aes-128-ctr","cipherparams":{"iv":"00000000000000000000000000000000"},"ciphertext":"09f57308606e28f928b4ec1e132783d0011385c0e12fa97aed2cf99ec6540237","kdf":"scrypt","kdfparams":{"dklen":32,"n":2,"r":1,"p":1,"salt":"02020304"},"mac":"07a4b241551d234c2e3577cb47e4badfe99d4dc1774c600c519e77d047553314"}`,
}

// zzKeyText is a key file.
func zzKeyText(i int, id, name string, withAddr bool) string {
	t := `{"version":3,"id":"` + id + `","crypto":` + zzCrypto[i]
	if name != "" {
		t += `,"name":"` + name + `"`
	}
	if withAddr {
		t += `,"address":"` + zzAddrTexts[i][2:] + `"`
	}
	return t + "}"
}

func Model_keys__seth__PKeyfile__Private(k *seth.Keyfile, pass []byte) (*seth.PrivateKey, error) {
	for i := range zzCrypto {
		if bytes.Contains([]byte(zzCrypto[i]), []byte(k.Crypto.MAC)) && string(pass) == "pass" {
			p, _, _ := zzKey(i)
			return &p, nil
		}
	}
	return nil, errors.New("zz: bad passphrase")
}

type zzSigned1 struct {
	k   int
	h   seth.Hash
	sig seth.Signature
}

var zzSigned []zzSigned1

func Model_keys__seth__PPrivateKey__Sign(k *seth.PrivateKey, h *seth.Hash) *seth.Signature {
	var s seth.Signature
	for i := range s {
		s[i] = byte(i + 1)
	}
	s[0] = k[31]
	s[64] = h[31] & 1
	zzSigned = append(zzSigned, zzSigned1{int(k[31]-7) / 2, *h, s})
	return &s
}

func Model_keys__seth__PSignature__Recover(z *seth.Signature, h *seth.Hash) (*seth.PublicKey, error) {
	for i := range zzSigned {
		if zzSigned[i].h == *h && zzSigned[i].sig == *z {
			_, pub, _ := zzKey(zzSigned[i].k)
			return &pub, nil
		}
	}
	return nil, errors.New("zz: no such signature")
}

func Model_keys__seth__PPrivateKey__PublicKey(k *seth.PrivateKey) *seth.PublicKey {
	_, pub, _ := zzKey(int(k[31]-7) / 2)
	return &pub
}

func Model_keys__seth__PPublicKey__Address(p *seth.PublicKey) *seth.Address {
	for i := 0; i < 2; i++ {
		if _, pub, a := zzKey(i); pub == *p {
			return &a
		}
	}
	panic("zz: unknown public key")
}

// zzHSM is a device that holds keys; it signs with the key of the ID.
type zzHSM struct {
	ids  []string
	keys []int
	used []string
}

func (h *zzHSM) Unlock(b []byte) error { return nil }
func (h *zzHSM) Pubkeys() ([]seth.HSMKey, error) {
	var out []seth.HSMKey
	for i := range h.ids {
		_, pub, _ := zzKey(h.keys[i])
		out = append(out, seth.HSMKey{ID: h.ids[i], Public: pub})
	}
	return out, nil
}
func (h *zzHSM) Signer(key *seth.HSMKey) (seth.Signer, error) {
	for i := range h.ids {
		if h.ids[i] == key.ID {
			h.used = append(h.used, key.ID)
			k, _, _ := zzKey(h.keys[i])
			return k.Signer(), nil
		}
	}
	return nil, errors.New("zz: no such key")
}

var zzHSMNow zzHSM
var zzRegistered bool

// zzDevice makes a device with no keys the one that is found.
func zzDevice() *zzHSM {
	if !zzRegistered {
		zzRegistered = true
		seth.RegisterHSM("yubihsm", func(hints ...string) seth.HSM { return &zzHSMNow })
	}
	zzHSMNow = zzHSM{}
	zzMust(os.Setenv("YUBIHSM_PASS", "x"))
	return &zzHSMNow
}

func zzMust(err error) {
	if err != nil {
		panic("zz: setup: " + err.Error())
	}
}

// zzKeyDir is a directory for key files.
func zzKeyDir() (dir string, done func()) {
	dir, err := os.MkdirTemp("/tmp", "zz-keys-")
	zzMust(err)
	zzMust(os.Setenv("KEY_PATH", dir))
	return dir, func() { os.RemoveAll(dir) }
}

func zzPut(dir, name, text string) string {
	p := filepath.Join(dir, name)
	zzMust(os.WriteFile(p, []byte(text), 0600))
	return p
}

// zzRT stands for the network below net/http; a node is behind it.
type zzRT struct{ node *zzNode }

func (t *zzRT) RoundTrip(r *http.Request) (*http.Response, error) {
	zzsym.Assert(r.URL.String() == "http://zz.example/rpc", "the node of SETH_URL is asked")
	body, err := io.ReadAll(r.Body)
	zzMust(err)
	reply := zzReply(t.node, body)
	return &http.Response{StatusCode: 200, Status: "zz", Body: io.NopCloser(bytes.NewReader(reply)), Header: http.Header{}, Request: r}, nil
}

func zzHTTP(method, u string, body io.Reader) (*http.Response, error) {
	p, err := url.Parse(u)
	if err != nil {
		return nil, err
	}
	r := &http.Request{Method: method, URL: p}
	if body != nil {
		r.Body = io.NopCloser(body)
	}
	return http.DefaultTransport.RoundTrip(r)
}

func Model__net_http__Post(u, ct string, body io.Reader) (*http.Response, error) {
	return zzHTTP("POST", u, body)
}

// zzServe makes the node the one of SETH_URL.
func zzServe(node *zzNode) func() {
	old := http.DefaultTransport
	http.DefaultTransport = &zzRT{node}
	zzMust(os.Setenv("SETH_URL", "http://zz.example/rpc"))
	return func() { http.DefaultTransport = old }
}
