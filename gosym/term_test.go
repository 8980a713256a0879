package main

import (
	"math/big"
	"math/rand"
	"testing"
)

// Random expressions: the simplified term must evaluate like the naive one.
func TestSimplifier(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	for iter := 0; iter < 60000; iter++ {
		c := NewCtx()
		m := Model{}
		memo := map[*Term]*big.Int{}
		type pv struct {
			t *Term
			v *big.Int
		}
		var pool []pv
		widths := []int{1, 8, 8, 16, 32, 64, 72}
		mk := func(w int, v *big.Int, tm *Term) {
			pool = append(pool, pv{tm, v})
			got, _ := c.Eval(tm, m, memo)
			if tm.w != w || got.Cmp(v) != 0 {
				t.Fatalf("mismatch w=%d want %x got %x: %s", w, v, got, termStr(tm, 12))
			}
			if w > 0 && w <= 64 {
				lo, hi := c.Range(tm)
				if v.Uint64() < lo || v.Uint64() > hi {
					t.Fatalf("range %x not in [%x,%x] %s", v, lo, hi, termStr(tm, 12))
				}
			}
		}
		rnd := func(w int) *big.Int {
			switch rng.Intn(4) {
			case 0:
				return new(big.Int).And(big.NewInt(int64(rng.Intn(4))), maskB(w))
			case 1:
				return new(big.Int).Sub(maskB(w), new(big.Int).And(big.NewInt(int64(rng.Intn(3))), maskB(w)))
			}
			return new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		}
		for i := 0; i < 5; i++ {
			w := widths[rng.Intn(len(widths))]
			v := c.FreshVar(w, "x")
			m[v] = rnd(w)
			mk(w, m[v], v)
		}
		b := c.FreshVar(0, "b")
		m[b] = big.NewInt(int64(rng.Intn(2)))
		mk(0, m[b], b)
		sg := func(v *big.Int, w int) *big.Int {
			if v.Bit(w-1) == 1 {
				return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
			}
			return v
		}
		bb := func(x bool) *big.Int {
			if x {
				return big.NewInt(1)
			}
			return new(big.Int)
		}
		for step := 0; step < 25; step++ {
			a := pool[rng.Intn(len(pool))]
			d := pool[rng.Intn(len(pool))]
			if rng.Intn(4) == 0 && a.t.w > 0 {
				v := rnd(a.t.w)
				d = pv{c.BVBig(a.t.w, v), v}
			}
			g := pool[rng.Intn(len(pool))]
			for g.t.w != 0 {
				g = pool[rng.Intn(len(pool))]
			}
			if a.t.w == 0 {
				if d.t.w != 0 {
					continue
				}
				switch rng.Intn(5) {
				case 0:
					mk(0, bb(a.v.Sign() != 0 && d.v.Sign() != 0), c.And(a.t, d.t))
				case 1:
					mk(0, bb(a.v.Sign() != 0 || d.v.Sign() != 0), c.Or(a.t, d.t))
				case 2:
					mk(0, bb(a.v.Sign() == 0), c.Not(a.t))
				case 3:
					mk(0, bb(a.v.Cmp(d.v) == 0), c.Eq(a.t, d.t))
				case 4:
					r := d.v
					if g.v.Sign() != 0 {
						r = a.v
					}
					mk(0, r, c.Ite(g.t, a.t, d.t))
				}
				continue
			}
			w := a.t.w
			switch rng.Intn(8) {
			case 0:
				hi := rng.Intn(w)
				lo := rng.Intn(hi + 1)
				v := new(big.Int).Rsh(a.v, uint(lo))
				mk(hi-lo+1, v.And(v, maskB(hi-lo+1)), c.Extract(a.t, hi, lo))
				continue
			case 1:
				if d.t.w > 0 && w+d.t.w <= 100 {
					v := new(big.Int).Lsh(a.v, uint(d.t.w))
					mk(w+d.t.w, v.Or(v, d.v), c.Concat(a.t, d.t))
				}
				continue
			case 2:
				n := w + 1 + rng.Intn(20)
				if n < 110 {
					if rng.Intn(2) == 0 {
						mk(n, a.v, c.ZExt(a.t, n))
					} else {
						mk(n, new(big.Int).And(sg(a.v, w), maskB(n)), c.SExt(a.t, n))
					}
				}
				continue
			}
			if d.t.w != w {
				if d.t.w == 0 {
					continue
				}
				if d.t.w < w {
					d = pv{c.ZExt(d.t, w), d.v}
				} else {
					d = pv{c.Extract(d.t, w-1, 0), new(big.Int).And(d.v, maskB(w))}
				}
			}
			mm := func(v *big.Int) *big.Int { return new(big.Int).And(v, maskB(w)) }
			one := uint(w)
			if d.v.Cmp(big.NewInt(int64(w))) < 0 {
				one = uint(d.v.Uint64())
			}
			switch rng.Intn(22) {
			case 0:
				mk(w, mm(new(big.Int).Add(a.v, d.v)), c.Add(a.t, d.t))
			case 1:
				mk(w, mm(new(big.Int).Sub(a.v, d.v)), c.Sub(a.t, d.t))
			case 2:
				mk(w, mm(new(big.Int).Mul(a.v, d.v)), c.Mul(a.t, d.t))
			case 3:
				if d.v.Sign() != 0 {
					mk(w, new(big.Int).Quo(a.v, d.v), c.UDiv(a.t, d.t))
					mk(w, new(big.Int).Rem(a.v, d.v), c.URem(a.t, d.t))
				}
			case 4:
				if d.v.Sign() != 0 {
					mk(w, mm(new(big.Int).Quo(sg(a.v, w), sg(d.v, w))), c.SDiv(a.t, d.t))
					mk(w, mm(new(big.Int).Rem(sg(a.v, w), sg(d.v, w))), c.SRem(a.t, d.t))
				}
			case 5, 6:
				mk(w, new(big.Int).And(a.v, d.v), c.BAnd(a.t, d.t))
			case 7, 8:
				mk(w, new(big.Int).Or(a.v, d.v), c.BOr(a.t, d.t))
			case 9, 10:
				mk(w, new(big.Int).Xor(a.v, d.v), c.BXor(a.t, d.t))
			case 11:
				mk(w, new(big.Int).Xor(a.v, maskB(w)), c.BNot(a.t))
			case 12:
				mk(w, mm(new(big.Int).Lsh(a.v, one)), c.Shl(a.t, d.t))
			case 13:
				mk(w, new(big.Int).Rsh(a.v, one), c.LShr(a.t, d.t))
			case 14:
				mk(w, mm(new(big.Int).Rsh(sg(a.v, w), one)), c.AShr(a.t, d.t))
			case 15:
				mk(0, bb(a.v.Cmp(d.v) < 0), c.Ult(a.t, d.t))
			case 16:
				mk(0, bb(a.v.Cmp(d.v) <= 0), c.Ule(a.t, d.t))
			case 17:
				mk(0, bb(sg(a.v, w).Cmp(sg(d.v, w)) < 0), c.Slt(a.t, d.t))
			case 18:
				mk(0, bb(sg(a.v, w).Cmp(sg(d.v, w)) <= 0), c.Sle(a.t, d.t))
			case 19:
				mk(0, bb(a.v.Cmp(d.v) == 0), c.Eq(a.t, d.t))
			default:
				r := d.v
				if g.v.Sign() != 0 {
					r = a.v
				}
				mk(w, r, c.Ite(g.t, a.t, d.t))
			}
		}
	}
}
