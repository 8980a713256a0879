package main

import (
	"math/big"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

func keccakIntr(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
	p := e.ptr(st, a[0])
	ag, ok := e.resolve(st, e.load(st, p)).(*Agg)
	if !ok || len(ag.elems) != 25 {
		e.unsup("keccak state")
	}
	in := make([]*Term, 25)
	konst := true
	for i := range in {
		in[i] = e.term(st, ag.elems[i])
		konst = konst && in[i].IsConst()
	}
	out := make([]Value, 25)
	if konst {
		var s [25]uint64
		for i := range s {
			s[i] = in[i].val
		}
		keccakF(&s)
		for i := range out {
			out[i] = e.c.BV(64, s[i])
		}
	} else {
		// lane 24 first so that bit 0 is lane 0's low bit
		rev := make([]*Term, 25)
		for i := range in {
			rev[24-i] = in[i]
		}
		u := e.c.UF(1600, "keccakF", e.c.Concat(rev...))
		e.ufNames["keccakF"] = true
		for i := range out {
			out[i] = e.c.Extract(u, 64*i+63, 64*i)
		}
	}
	for i, v := range out {
		e.store(st, p.extend(PE{idx: i}), v)
	}
	return nil, true
}

var keccakRC = func() (rc [24]uint64) {
	// the LFSR of FIPS 202, section 3.2.5
	r := byte(1)
	for i := range rc {
		for j := 0; j <= 6; j++ {
			if r&1 == 1 {
				rc[i] |= 1 << (1<<uint(j) - 1)
			}
			hi := r >> 7
			r <<= 1
			if hi == 1 {
				r ^= 0x71
			}
		}
	}
	return
}()

var keccakRot = func() (rot [25]int) {
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		rot[x+5*y] = ((t + 1) * (t + 2) / 2) % 64
		x, y = y, (2*x+3*y)%5
	}
	return
}()

func keccakF(s *[25]uint64) {
	for r := 0; r < 24; r++ {
		var c, d [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = s[x] ^ s[x+5] ^ s[x+10] ^ s[x+15] ^ s[x+20]
		}
		for x := 0; x < 5; x++ {
			d[x] = c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
		}
		var b [25]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[y+5*((2*x+3*y)%5)] = bits.RotateLeft64(s[x+5*y]^d[x], keccakRot[x+5*y])
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				s[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
			}
		}
		s[0] ^= keccakRC[r]
	}
}

// realUF evaluates a known uninterpreted function for real.
func realUF(t *Term, args []*big.Int) (*big.Int, bool) {
	if t.name == "keccakF" && len(args) == 1 {
		var s [25]uint64
		m := new(big.Int).SetUint64(^uint64(0))
		for i := range s {
			s[i] = new(big.Int).And(new(big.Int).Rsh(args[0], uint(64*i)), m).Uint64()
		}
		keccakF(&s)
		r := new(big.Int)
		for i := 24; i >= 0; i-- {
			r.Lsh(r, 64)
			r.Or(r, new(big.Int).SetUint64(s[i]))
		}
		return r, true
	}
	return nil, false
}

// realModel completes m with the real values of known functions, bottom up.
func (e *Engine) realModel(roots []*Term, m Model) (Model, bool) {
	n := Model{}
	var ufs []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OUF {
			ufs = append(ufs, t) // arguments first
		}
	}
	for _, r := range roots {
		walk(r)
	}
	for k, v := range m {
		if k.op != OUF {
			n[k] = v
		}
	}
	all := true
	for _, u := range ufs {
		args := make([]*big.Int, len(u.args))
		memo := map[*Term]*big.Int{}
		for i, a := range u.args {
			args[i], _ = e.c.Eval(a, n, memo)
		}
		if v, ok := realUF(u, args); ok {
			n[u] = v
		} else {
			all = false
			if v := m[u]; v != nil {
				n[u] = v
			}
		}
	}
	return n, all
}

// refine turns a model that may give hash functions arbitrary values into one
// consistent with the real functions, adding evaluation lemmas as needed.
func (e *Engine) refine(roots []*Term, m Model) Model {
	has := false
	for _, l := range leaves(roots) {
		if l.op == OUF {
			has = true
		}
	}
	if !has {
		return m
	}
	extra := append([]*Term{}, roots...)
	for it := 0; it < 12; it++ {
		n, _ := e.realModel(roots, m)
		ok := true
		memo := map[*Term]*big.Int{}
		for _, r := range roots {
			if v, _ := e.c.Eval(r, n, memo); v.Sign() == 0 {
				ok = false
				break
			}
		}
		if ok {
			return n
		}
		// lemmas: for each known UF application, args==values -> result==real
		added := false
		for _, l := range leaves(roots) {
			if l.op != OUF {
				continue
			}
			args := make([]*big.Int, len(l.args))
			eqs := make([]*Term, len(l.args))
			mm := map[*Term]*big.Int{}
			for i, a := range l.args {
				args[i], _ = e.c.Eval(a, m, mm)
				eqs[i] = e.c.Eq(a, e.c.BVBig(a.w, args[i]))
			}
			if v, ok := realUF(l, args); ok {
				extra = append(extra, e.c.Implies(e.c.And(eqs...), e.c.Eq(l, e.c.BVBig(l.w, v))))
				added = true
			}
		}
		if !added {
			return m
		}
		v, m2 := e.s.Portfolio(extra, 20)
		if v != Sat {
			return nil
		}
		m = m2
	}
	// give the native replay a chance
	return m
}
