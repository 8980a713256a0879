package keccak

import (
	"hash"

	"github.com/philhofer/seth/zzsym"
)

// Keccak hashing is independent of how data is fed.
//
//zz:prop=C13

//zz:copy keccakf.go keccakF1600=zzPortable

// zzSponge is the reference sponge: absorb m in blocks of rate bytes with the
// padding 0x01 ... 0x80, squeeze out n bytes.
func zzSponge(m []byte, rate, n int) []byte {
	p := append(append([]byte{}, m...), 1)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] ^= 0x80
	var a [25]uint64
	for len(p) > 0 {
		for i := 0; i < rate; i++ {
			a[i/8] ^= uint64(p[i]) << uint(8*(i%8))
		}
		p = p[rate:]
		keccakF1600(&a)
	}
	var out []byte
	for i := 0; i < n; i++ {
		out = append(out, byte(a[i/8]>>uint(8*(i%8))))
	}
	return out
}

type zzAlg struct {
	mk   func() hash.Hash
	rate int
	n    int
}

var zzAlgs = []zzAlg{
	{New256, 136, 32}, {New512, 72, 64}, {New224, 144, 28}, {New384, 104, 48},
}

func zzAlgOf(i int) zzAlg { return zzAlgs[i] }

// One write of any content, at every length up to two blocks.
//
//zz:budget=90
//zz:cover sum
func ZZ_C13_oneshot() {
	i := zzsym.Choose("alg", 4)
	al := zzAlgOf(i)
	lens := []int{0, 1, 7, 8, al.rate - 2, al.rate - 1, al.rate, al.rate + 1, 2*al.rate - 1, 2 * al.rate, 2*al.rate + 1}
	m := zzsym.Bytes("m", lens[zzsym.Choose("len", len(lens))])
	h := al.mk()
	n, err := h.Write(append([]byte{}, m...))
	zzsym.Assert(n == len(m) && err == nil, "everything is written")
	pre := zzsym.Bytes("pre", 3)
	got := h.Sum(append([]byte{}, pre...))
	want := zzSponge(m, al.rate, al.n)
	zzsym.Assert(zzsym.EqBytes(got[:3], pre), "Sum appends")
	zzsym.Assert(zzsym.EqBytes(got[3:], want), "the digest is that of the sponge")
	zzsym.Assert(h.Size() == al.n && h.BlockSize() == al.rate, "sizes")
	var one []byte
	switch i {
	case 0:
		s := Sum256(m)
		one = s[:]
	case 1:
		s := Sum512(m)
		one = s[:]
	case 2:
		s := Sum224(m)
		one = s[:]
	default:
		s := Sum384(m)
		one = s[:]
	}
	zzsym.Assert(zzsym.EqBytes(one, want), "the one-shot function gives the same digest")
	zzsym.Cover("sum")
}

// Every split into three writes of messages around one and two blocks, with a
// digest asked for in between.
//
//zz:budget=150 thorough_budget=900 maxpaths=60000
//zz:cover split
func ZZ_C13_splits() {
	al := zzAlgOf(zzsym.Choose("alg", zzsym.Bound(2, 4)))
	r := al.rate
	lens := []int{3, r, r + 1, 2*r + 3}
	total := lens[zzsym.Choose("len", len(lens))]
	m := zzsym.Bytes("m", total)
	cuts := []int{0, 1, 2, 3, r - 1, r, r + 1, r + 2, 2 * r, 2*r + 1, 2*r + 2, 2*r + 3}
	pick := func(name string) int {
		c := cuts[zzsym.Choose(name, len(cuts))]
		if c > total {
			c = total
		}
		return c
	}
	a, b := pick("a"), pick("b")
	if a > b {
		return
	}
	h := al.mk()
	h.Write(m[:a])
	var mid []byte
	ask := zzsym.Choose("ask", 2) == 1
	if ask {
		mid = h.Sum(nil)
	}
	h.Write(m[a:b])
	h.Write(m[b:])
	got := h.Sum(nil)
	zzsym.Assert(zzsym.EqBytes(got, zzSponge(m, r, al.n)), "the digest does not depend on the split")
	zzsym.Assert(zzsym.EqBytes(h.Sum(nil), got), "asking again gives the same digest")
	if ask {
		zzsym.Assert(zzsym.EqBytes(mid, zzSponge(m[:a], r, al.n)), "the digest of the prefix")
	}
	zzsym.Cover("split")
}

// Byte-at-a-time and reset.
//
//zz:budget=60
//zz:cover reset
func ZZ_C13_reset() {
	al := zzAlgOf(zzsym.Choose("alg", 4))
	h := al.mk()
	g := zzsym.Bytes("garbage", []int{0, 5, al.rate, al.rate + 9}[zzsym.Choose("garbage", 4)])
	h.Write(g)
	if zzsym.Choose("sum", 2) == 1 {
		h.Sum(nil)
	}
	h.Reset()
	m := zzsym.Bytes("m", []int{0, 4, al.rate}[zzsym.Choose("len", 3)])
	for i := range m {
		h.Write(m[i : i+1])
	}
	zzsym.Assert(zzsym.EqBytes(h.Sum(nil), zzSponge(m, al.rate, al.n)), "a reset hash starts over")
	zzsym.Cover("reset")
}

// The sponge object copied before, within and after squeezing goes on exactly
// from there.
//
//zz:budget=60
//zz:cover clone
func ZZ_C13_copy() {
	d := New256().(*state)
	x, y := zzsym.Bytes("x", []int{0, 3, 136, 140}[zzsym.Choose("x", 4)]), zzsym.Bytes("y", 5)
	d.Write(x)
	if zzsym.Choose("squeeze", 2) == 1 {
		n := []int{1, 32, 136, 140}[zzsym.Choose("n", 4)]
		d.Read(make([]byte, n))
		c := d.clone()
		o1, o2, o3 := make([]byte, 150), make([]byte, 150), make([]byte, 150)
		c.Read(o1)
		d2 := d.clone()
		d.Read(o2)
		d2.Read(o3)
		zzsym.Assert(zzsym.EqBytes(o1, o2), "a copy squeezes the same bytes")
		zzsym.Assert(zzsym.EqBytes(o2, o3), "and leaves the original alone")
		zzsym.Cover("clone")
		return
	}
	c := d.clone()
	c.Write(y)
	d.Write(nil)
	zzsym.Assert(zzsym.EqBytes(c.Sum(nil), zzSponge(append(append([]byte{}, x...), y...), 136, 32)), "a copy continues the state")
	zzsym.Assert(zzsym.EqBytes(d.Sum(nil), zzSponge(x, 136, 32)), "and leaves the original alone")
	zzsym.Cover("clone")
}

// The byte order of absorbing and squeezing is the same on every platform.
//
//zz:budget=30
//zz:cover same
func ZZ_C13_generic() {
	var a, b state
	for i := range a.a {
		a.a[i] = zzsym.Uint64("lane")
	}
	b.a = a.a
	rate := []int{72, 104, 136, 144, 168}[zzsym.Choose("rate", 5)]
	m := zzsym.Bytes("m", rate)
	xorIn(&a, m)
	xorInGeneric(&b, m)
	same := true
	for i := range a.a {
		same = zzsym.And(same, a.a[i] == b.a[i])
	}
	zzsym.Assert(same, "absorbing")
	o1, o2 := make([]byte, rate), make([]byte, rate)
	copyOut(&a, o1)
	copyOutGeneric(&b, o2)
	zzsym.Assert(zzsym.EqBytes(o1, o2), "squeezing")
	zzsym.Cover("same")
}

// zzKeccakF is the definition: theta, rho, pi, chi and iota with offsets and
// round constants computed, not tabulated.
func zzKeccakF(a *[25]uint64, rounds int) {
	rot := func(x uint64, n uint) uint64 {
		n %= 64
		return x<<n | x>>(64-n)
	}
	lfsr := byte(1)
	bit := func() uint64 {
		r := uint64(lfsr & 1)
		if lfsr&0x80 != 0 {
			lfsr = lfsr<<1 ^ 0x71
		} else {
			lfsr <<= 1
		}
		return r
	}
	for r := 0; r < rounds; r++ {
		// theta
		var c [5]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				c[x] ^= a[x+5*y]
			}
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ rot(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x+5*y] ^= d
			}
		}
		// rho and pi
		x, y := 1, 0
		cur := a[1]
		for t := 0; t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			cur, a[x+5*y] = a[x+5*y], rot(cur, uint((t+1)*(t+2)/2))
		}
		// chi
		for y := 0; y < 5; y++ {
			var row [5]uint64
			copy(row[:], a[5*y:5*y+5])
			for x := 0; x < 5; x++ {
				a[x+5*y] = row[x] ^ (^row[(x+1)%5] & row[(x+2)%5])
			}
		}
		// iota
		var rc uint64
		for j := uint(0); j < 7; j++ {
			rc ^= bit() << (uint(1)<<j - 1)
		}
		a[0] ^= rc
	}
}

// The portable permutation is the Keccak-f[1600] definition, for every state.
//
//zz:budget=120
//zz:cover perm
func ZZ_C13_perm() {
	var a, b [25]uint64
	for i := range a {
		a[i] = zzsym.Uint64("lane")
	}
	b = a
	zzPortable(&a)
	zzKeccakF(&b, 24)
	same := true
	for i := range a {
		same = zzsym.And(same, a[i] == b[i])
	}
	zzsym.Assert(same, "the portable permutation is Keccak-f[1600]")
	zzsym.Cover("perm")
}

// Known digests (these also compare the assembly with the engine's own
// permutation when the run is replayed natively).
//
//zz:budget=30
func ZZ_C13_known() {
	e := Sum256(nil)
	zzsym.Assert(zzsym.EqBytes(e[:8], []byte{0xc5, 0xd2, 0x46, 0x01, 0x86, 0xf7, 0x23, 0x3c}), "Keccak-256 of nothing")
	var z [25]uint64
	zzKeccakF(&z, 24)
	var a [25]uint64
	keccakF1600(&a)
	zzsym.Assert(a == z, "the permutation of the zero state")
	keccakF1600(&a)
	zzKeccakF(&z, 24)
	zzsym.Assert(a == z, "and of its image")
}
