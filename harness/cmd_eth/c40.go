package main

import (
	"os"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
)

// The choice of the key.
//
//zz:prop=C40
//zz:use common_eth
//zz:use common_keys

// zzLetters is a text of n letters from g to z.
func zzLetters(name string, n int) string {
	b := zzsym.Bytes(name, n)
	for i := range b {
		zzsym.Assume(b[i] >= 'g' && b[i] <= 'z')
	}
	return string(b)
}

// zzSpec is a key specification and what it matches.
type zzSpec struct {
	text  string
	match func(s string) bool
	bad   bool
}

func zzIndex(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func zzPickSpec(few bool) zzSpec {
	k := 0
	if few {
		k = [...]int{0, 4, 5, 6}[zzsym.Choose("spec", 4)]
	} else {
		k = zzsym.Choose("spec", 8)
	}
	switch k {
	case 0, 1:
		w := zzLetters("word", 1+k)
		return zzSpec{text: w, match: func(s string) bool { return zzIndex(s, w) >= 0 }}
	case 2:
		w := zzLetters("word", 2)
		return zzSpec{text: "^" + w + "$", match: func(s string) bool { return s == w }}
	case 3:
		a, b := zzLetters("a", 1), zzLetters("b", 1)
		return zzSpec{text: a + "|" + b, match: func(s string) bool { return zzIndex(s, a) >= 0 || zzIndex(s, b) >= 0 }}
	case 4, 5:
		t := zzAddrTexts[k-4]
		return zzSpec{text: t, match: func(s string) bool { return zzIndex(s, t) >= 0 }}
	case 6:
		return zzSpec{text: ".", match: func(s string) bool { return len(s) > 0 }}
	default:
		return zzSpec{text: [...]string{"", "[", "a**"}[zzsym.Choose("bad", 3)], bad: true}
	}
}

type zzHave struct {
	id   string
	addr string
	key  int
	hsm  bool
}

// 0 to 2 (thorough 3) keys, each in a key file (with a name or an ID of 1 or 2 letters,
// with or without its address) or on a device (with an ID of 1 or 2 letters; quick:
// all IDs but the first have 1 letter), the keys on the device and in the files in any combination, and specifications of 1 or
// 2 letters (quick, for 2 keys: 1 letter, an address or anything), two letters anchored at both ends, alternatives of a letter, an
// address, anything, nothing, or malformed
//
//zz:budget=120 thorough_budget=700 split=8 splitdepth=4 models=keys
//zz:cover used none several bad file device
func ZZ_C40_choose() {
	dir, done := zzKeyDir()
	defer done()
	dev := zzDevice()
	zzPass = []byte("pass")
	var have []zzHave
	n := zzsym.Choose("n", zzsym.Bound(3, 4))
	for i := 0; i < n; i++ {
		h := zzHave{key: zzsym.Choose("key", 2)}
		n := 1
		if i == 0 || zzsym.Bound(0, 1) == 1 {
			n += zzsym.Choose("idlen", 2)
		}
		id := zzLetters("id", n)
		h.id = id
		h.addr = zzAddrTexts[h.key]
		switch zzsym.Choose("where", 3) {
		case 0:
			h.hsm = true
			for j := range have {
				if have[j].hsm {
					zzsym.Assume(have[j].id != id)
				}
			}
			dev.ids = append(dev.ids, id)
			dev.keys = append(dev.keys, h.key)
		case 1:
			withAddr := zzsym.Choose("addr", 2) == 1
			if !withAddr {
				h.addr = ""
			}
			zzPut(dir, string([]byte{'k', '0' + byte(i)}), zzKeyText(h.key, id, "", withAddr))
		case 2:
			zzPut(dir, string([]byte{'k', '0' + byte(i)}), zzKeyText(h.key, "x#", id, true))
		}
		have = append(have, h)
	}
	spec := zzPickSpec(n >= 2 && zzsym.Bound(0, 1) == 0)
	zzMust(os.Setenv("ETHER_ADDR", spec.text))

	var matches []zzHave
	if !spec.bad {
		for _, h := range have {
			if spec.match(h.id) || spec.match(h.addr) || spec.text == "." {
				matches = append(matches, h)
			}
		}
	}
	var s seth.Signer
	var from seth.Address
	exited := zzRun(func() { s, from = signer() })
	zzsym.ObsBool("exited", exited)
	if spec.bad {
		zzsym.Assert(exited, "a malformed specification is refused")
		zzsym.Cover("bad")
		return
	}
	if len(matches) != 1 {
		zzsym.Assert(exited, "no key and several keys are refused")
		if len(matches) == 0 {
			zzsym.Cover("none")
		} else {
			zzsym.Cover("several")
		}
		return
	}
	zzsym.Assert(!exited, "the key is found")
	m := matches[0]
	_, _, want := zzKey(m.key)
	zzsym.Assert(from == want, "the address is the one of the key")
	h := seth.Hash{1, 2, 3}
	sig, err := s(&h)
	zzsym.Assert(err == nil, "the key signs")
	pub, err := sig.Recover(&h)
	zzsym.Assert(err == nil && *pub.Address() == want, "the key that was asked for signs")
	if m.hsm {
		zzsym.Assert(len(dev.used) == 1 && dev.used[0] == m.id, "the key on the device")
		zzsym.Cover("device")
	} else {
		zzsym.Assert(len(dev.used) == 0, "not a key on the device")
		zzsym.Cover("file")
	}
	zzsym.Cover("used")
}
