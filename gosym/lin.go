package main

import (
	"math/big"
	"sort"
)

// Linear forms of big.Int values: value = k + sum m[atom]*atom, the atoms
// being terms read as signed integers. Big integers never wrap (every
// operation widens), so equal forms are equal values.
type Lin struct {
	k *big.Int
	m map[*Term]*big.Int
}

const linMax = 120

func (e *Engine) linOf(t *Term) *Lin {
	if t.IsConst() {
		return &Lin{k: t.SBig()}
	}
	if l := e.lins[t]; l != nil {
		return l
	}
	if t.op == OSExt {
		return e.linOf(t.args[0])
	}
	return &Lin{k: new(big.Int), m: map[*Term]*big.Int{t: big.NewInt(1)}}
}

func linAdd(a, b *Lin, f *big.Int) *Lin {
	r := &Lin{k: new(big.Int).Mul(b.k, f), m: map[*Term]*big.Int{}}
	r.k.Add(r.k, a.k)
	for t, c := range a.m {
		r.m[t] = c
	}
	for t, c := range b.m {
		x := new(big.Int).Mul(c, f)
		if o := r.m[t]; o != nil {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(r.m, t)
		} else {
			r.m[t] = x
		}
	}
	return r
}

// residue is the value of x modulo d where every unknown part of x counts a
// multiple of d; nil where one does not.
func (e *Engine) residue(x *Term, d *big.Int) *big.Int {
	l := e.linOf(x)
	k := new(big.Int).Set(l.k)
	rest := map[*Term]*big.Int{} // read as unsigned
	for t, c := range l.m {
		if e.c.leadZeros(t) == 0 {
			if new(big.Int).Mod(c, d).Sign() != 0 {
				return nil
			}
			continue
		}
		parts := []*Term{t}
		if t.op == OConcat {
			parts = t.args
		}
		at := new(big.Int).Set(c)
		for i := len(parts) - 1; i >= 0; i-- {
			p := parts[i]
			if p.IsConst() {
				k.Add(k, new(big.Int).Mul(at, p.Big()))
			} else {
				o := rest[p]
				if o == nil {
					o = new(big.Int)
				}
				rest[p] = new(big.Int).Add(o, at)
			}
			at = new(big.Int).Lsh(at, uint(p.w))
		}
	}
	for _, c := range rest {
		if new(big.Int).Mod(c, d).Sign() != 0 {
			return nil
		}
	}
	return k.Mod(k, d)
}

// bounds of an atom read as a signed integer
func (e *Engine) atomRange(t *Term) (lo, hi *big.Int) {
	n := e.c.leadZeros(t)
	if n > 0 {
		hi = new(big.Int).Lsh(big.NewInt(1), uint(t.w-n))
		return new(big.Int), hi.Sub(hi, big.NewInt(1))
	}
	hi = new(big.Int).Lsh(big.NewInt(1), uint(t.w-1))
	lo = new(big.Int).Neg(hi)
	return lo, hi.Sub(hi, big.NewInt(1))
}

func (e *Engine) linRange(l *Lin) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for t, c := range l.m {
		a, b := e.atomRange(t)
		a, b = new(big.Int).Mul(a, c), new(big.Int).Mul(b, c)
		if c.Sign() < 0 {
			a, b = b, a
		}
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	return
}

// linTerm builds the canonical term of l.
func (e *Engine) linTerm(l *Lin) *Term {
	if len(l.m) == 0 {
		return e.mkbig(l.k).t
	}
	lo, hi := e.linRange(l)
	w := hi.BitLen() + 1
	if lo.Sign() < 0 {
		w = max(w, new(big.Int).Not(lo).BitLen()+1)
	}
	at := make([]*Term, 0, len(l.m))
	for t := range l.m {
		at = append(at, t)
		w = max(w, t.w-e.c.leadZeros(t)+1)
	}
	sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
	var sum []*Term
	for _, t := range at {
		x := t
		if x.w > w { // known to be small
			x = e.c.Extract(x, w-1, 0)
		}
		x = e.c.SExt(x, w)
		if c := l.m[t]; c.Cmp(big.NewInt(1)) != 0 {
			x = e.c.Mul(e.c.BVBig(w, new(big.Int).And(c, maskB(w))), x)
		}
		sum = append(sum, x)
	}
	if l.k.Sign() != 0 {
		sum = append(sum, e.c.BVBig(w, new(big.Int).And(l.k, maskB(w))))
	}
	r := sum[0]
	if len(sum) > 1 {
		r = e.c.Add(sum...)
	}
	if lo.Sign() >= 0 && !e.c.signKnownNonneg(r) {
		r = e.c.ZExt(e.c.Extract(r, w-2, 0), w)
	}
	return r
}

// setLin stores a value with a known linear form; nil falls back to t.
func (e *Engine) setLin(st *State, v Value, l *Lin, t *Term) Value {
	if l == nil || len(l.m) > linMax {
		return e.setBig(st, v, t)
	}
	r := e.linTerm(l)
	b := e.trimBig(r)
	if len(l.m) > 0 {
		e.lins[r], e.lins[b.t] = l, l
	}
	p := e.ptr(st, e.resolve(st, v))
	if p.obj == 0 {
		e.nilDeref()
	}
	e.store(st, p, b)
	return p
}

// linDiff gives x-y reduced by the linear facts on the path.
func (e *Engine) linDiff(st *State, x, y *Term) *Lin {
	d := linAdd(e.linOf(x), e.linOf(y), big.NewInt(-1))
	if len(d.m) == 0 || len(e.linFacts) == 0 || len(d.m) > linMax {
		return d
	}
	pcl := st.pc.List()
facts:
	for _, t := range pcl {
		f := e.linFacts[t]
		if f == nil {
			continue
		}
		for _, n := range f.need {
			found := false
			for _, t := range pcl {
				found = found || t == n
			}
			if !found {
				continue facts
			}
		}
		// f.l = 0 with coefficient +-1 at f.at: eliminate f.at
		if c := d.m[f.at]; c != nil {
			q := new(big.Int).Neg(c)
			if f.l.m[f.at].Sign() < 0 {
				q.Neg(q)
			}
			d = linAdd(d, f.l, q)
		}
	}
	return d
}

type linFact struct {
	l  *Lin
	at *Term

	need []*Term // holds where these are on the path, too
}

func (l *Lin) String() string {
	s := l.k.String()
	for t, c := range l.m {
		s += " + " + c.String() + "*" + termStr(t, 3)
	}
	return s
}
