package main

import (
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Integer reading of bit-vector terms: every term is the linear combination of
// integer unknowns that it is as an unsigned number, where products of
// unknowns, quotients by powers of two and the carries that are lost are
// unknowns of their own, tied by linear (in)equalities. The translation is
// exact but for products and other operations, about which only their range is
// kept; what follows from it holds for the bit-vectors. The obligations are
// decided by SMT solvers in linear integer arithmetic.

type iform struct {
	k *big.Int
	m map[int]*big.Int // by unknown
}

type iunk struct {
	hi   *big.Int // 0 <= unknown <= hi
	prod []int    // the unknowns it is the product of
}

type ixlat struct {
	e     *Engine
	unk   []iunk
	prods map[string]int
	rems  map[string]int
	quots map[string]int
	carry map[int]*big.Int // multiples that are not known, less this
	loose map[int]bool     // remainders by a multiple that is not known
	subst map[int]*iform   // remainder := the rest of its division
	ffs   []ifact
	conds []string
	terms map[*Term]int
	fix   Model // leaves read as these numbers
}

type ifact struct {
	f      *iform
	lo, hi *big.Int // lo <= f <= hi, nil: no bound
}

func newXlat(e *Engine) *ixlat {
	return &ixlat{e: e, prods: map[string]int{}, rems: map[string]int{}, quots: map[string]int{}, subst: map[int]*iform{}, loose: map[int]bool{}, carry: map[int]*big.Int{}, terms: map[*Term]int{}}
}

var big1 = big.NewInt(1)

func pow2(n int) *big.Int { return new(big.Int).Lsh(big1, uint(n)) }

func iconst(k *big.Int) *iform { return &iform{k: k, m: map[int]*big.Int{}} }

func iadd(a, b *iform, c *big.Int) *iform {
	r := &iform{k: new(big.Int).Mul(b.k, c), m: map[int]*big.Int{}}
	r.k.Add(r.k, a.k)
	for v, x := range a.m {
		r.m[v] = x
	}
	for v, x := range b.m {
		y := new(big.Int).Mul(x, c)
		if o := r.m[v]; o != nil {
			y.Add(y, o)
		}
		if y.Sign() == 0 {
			delete(r.m, v)
		} else {
			r.m[v] = y
		}
	}
	return r
}

func (f *iform) keys() []int {
	l := make([]int, 0, len(f.m))
	for v := range f.m {
		l = append(l, v)
	}
	sort.Ints(l)
	return l
}

func (f *iform) key() string {
	var b strings.Builder
	b.WriteString(f.k.String())
	for _, v := range f.keys() {
		fmt.Fprintf(&b, ",%d:%s", v, f.m[v])
	}
	return b.String()
}

func (x *ixlat) fresh(hi *big.Int) int {
	x.unk = append(x.unk, iunk{hi: hi})
	return len(x.unk) - 1
}

func ivar(v int) *iform { return &iform{k: new(big.Int), m: map[int]*big.Int{v: big1}} }

// bounds of a form from the ranges of the unknowns
func (x *ixlat) bounds(f *iform) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(f.k), new(big.Int).Set(f.k)
	for v, c := range f.m {
		t := new(big.Int).Mul(c, x.unk[v].hi)
		if c.Sign() < 0 {
			lo.Add(lo, t)
		} else {
			hi.Add(hi, t)
		}
	}
	return
}

func imax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func imin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

type ival struct {
	f  *iform
	hi *big.Int
	lo *big.Int
}

func (x *ixlat) mul(a, b ival) ival {
	r := iconst(new(big.Int).Mul(a.f.k, b.f.k))
	r = iadd(r, &iform{k: new(big.Int), m: a.f.m}, b.f.k)
	r = iadd(r, &iform{k: new(big.Int), m: b.f.m}, a.f.k)
	for u, c := range a.f.m {
		for v, d := range b.f.m {
			p := x.product(u, v)
			y := new(big.Int).Mul(c, d)
			if o := r.m[p]; o != nil {
				y.Add(y, o)
			}
			if y.Sign() == 0 {
				delete(r.m, p)
			} else {
				r.m[p] = y
			}
		}
	}
	var lo, hi *big.Int
	for _, p := range []*big.Int{a.lo, a.hi} {
		for _, q := range []*big.Int{b.lo, b.hi} {
			y := new(big.Int).Mul(p, q)
			if lo == nil {
				lo, hi = y, y
			}
			lo, hi = imin(lo, y), imax(hi, y)
		}
	}
	return ival{f: r, lo: lo, hi: hi}
}

func (x *ixlat) factors(v int) []int {
	if p := x.unk[v].prod; p != nil {
		return p
	}
	return []int{v}
}

func (x *ixlat) product(u, v int) int {
	p := append(append([]int{}, x.factors(u)...), x.factors(v)...)
	sort.Ints(p)
	k := fmt.Sprint(p)
	if i, ok := x.prods[k]; ok {
		return i
	}
	hi := big.NewInt(1)
	for _, a := range p {
		hi = new(big.Int).Mul(hi, x.unk[a].hi)
	}
	i := x.fresh(hi)
	x.unk[i].prod = p
	x.prods[k] = i
	return i
}

// divmod splits v by d: v = d*q + r
func (x *ixlat) rem(v ival, d *big.Int) ival {
	if v.lo.Sign() >= 0 && v.hi.Cmp(d) < 0 {
		return v
	}
	top := new(big.Int).Sub(d, big1)
	// what is a multiple of d does not matter
	g := iconst(new(big.Int).Mod(v.f.k, d))
	half := new(big.Int).Rsh(d, 1)
	for u, c := range v.f.m {
		m := new(big.Int).Mod(c, d)
		if m.Cmp(half) > 0 {
			m.Sub(m, d)
		}
		if m.Sign() != 0 {
			g.m[u] = m
		}
	}
	if lo, hi := x.bounds(g); lo.Sign() >= 0 && hi.Cmp(d) < 0 {
		return ival{f: g, lo: lo, hi: hi}
	}
	k := d.String() + "|" + g.key()
	r, ok := x.rems[k]
	if !ok {
		r = x.fresh(top)
		x.rems[k] = r
		// some multiple of d away
		lo, hi := new(big.Int).Div(v.lo, d), new(big.Int).Div(v.hi, d)
		c := x.fresh(new(big.Int).Sub(hi, lo))
		f := iadd(v.f, ivar(r), big.NewInt(-1))
		f = iadd(f, iadd(ivar(c), iconst(lo), big1), new(big.Int).Neg(d))
		x.ffs = append(x.ffs, ifact{f, new(big.Int), new(big.Int)})
		x.carry[c] = lo
		x.subst[r] = iadd(f, ivar(r), big1)
		x.loose[r] = true
		// most likely the one that v is away
		at := new(big.Int).Sub(g.k, v.f.k)
		x.carry[c] = at.Sub(lo, at.Div(at, d))
	}
	return ival{f: ivar(r), lo: new(big.Int), hi: top}
}

func (x *ixlat) quot(v ival, d *big.Int) ival {
	if v.lo.Sign() >= 0 && v.hi.Cmp(d) < 0 {
		return ival{f: iconst(new(big.Int)), lo: new(big.Int), hi: new(big.Int)}
	}
	all := new(big.Int).Mod(v.f.k, d).Sign() == 0
	for _, c := range v.f.m {
		all = all && new(big.Int).Mod(c, d).Sign() == 0
	}
	lo, hi := new(big.Int).Div(v.lo, d), new(big.Int).Div(v.hi, d)
	if all {
		g := iconst(new(big.Int).Div(v.f.k, d))
		for u, c := range v.f.m {
			g.m[u] = new(big.Int).Div(c, d)
		}
		return ival{f: g, lo: lo, hi: hi}
	}
	k := d.String() + "|" + v.f.key()
	q, ok := x.quots[k]
	if !ok {
		q = x.fresh(hi)
		x.quots[k] = q
		r := x.rem(v, d)
		f := iadd(v.f, ivar(q), new(big.Int).Neg(d))
		f = iadd(f, r.f, big.NewInt(-1))
		x.ffs = append(x.ffs, ifact{f, new(big.Int), new(big.Int)})
		// the remainder is what is left: used to eliminate it
		if len(r.f.m) == 1 && r.f.k.Sign() == 0 {
			for u, c := range r.f.m {
				if c.Cmp(big1) == 0 && (x.subst[u] == nil || x.loose[u]) {
					delete(x.loose, u)
					x.subst[u] = iadd(v.f, ivar(q), new(big.Int).Neg(d))
				}
			}
		}
	}
	return ival{f: ivar(q), lo: lo, hi: hi}
}

// wrap reads v, which is a value modulo 2^w, as a number from lo on.
func (x *ixlat) wrap(v ival, w int, lo *big.Int) (ival, bool) {
	m := pow2(w)
	p := new(big.Int).Div(new(big.Int).Sub(v.lo, lo), m)
	q := new(big.Int).Div(new(big.Int).Sub(v.hi, lo), m)
	if p.Cmp(q) != 0 {
		return v, false
	}
	if p.Sign() != 0 {
		p.Mul(p, m)
		v = ival{f: iadd(v.f, iconst(p), big.NewInt(-1)), lo: new(big.Int).Sub(v.lo, p), hi: new(big.Int).Sub(v.hi, p)}
	}
	return v, true
}

func (x *ixlat) opaque(t *Term) ival {
	if k := x.fix[t]; k != nil {
		return ival{f: iconst(k), lo: k, hi: k}
	}
	hi := pow2(t.w - x.e.c.leadZeros(t))
	hi.Sub(hi, big1)
	if t.w <= 64 {
		_, h := x.e.c.Range(t)
		hi = imin(hi, new(big.Int).SetUint64(h))
	}
	v, ok := x.terms[t]
	if !ok {
		v = x.fresh(hi)
		x.terms[t] = v
	}
	return ival{f: ivar(v), lo: new(big.Int), hi: hi}
}

// val reads t as an unsigned number.
func (x *ixlat) val(t *Term, memo map[*Term]ival) ival {
	v, ok := x.wrap(x.lin(t, memo), t.w, zero0)
	if !ok {
		v = x.rem(v, pow2(t.w))
	}
	if t.w <= 64 && t.op != OConst {
		l, h := x.e.c.Range(t)
		v.lo = imax(v.lo, new(big.Int).SetUint64(l))
		v.hi = imin(v.hi, new(big.Int).SetUint64(h))
	}
	return v
}

// signed reads t as a signed number.
func (x *ixlat) signed(t *Term, memo map[*Term]ival) ival {
	half := pow2(t.w - 1)
	if v, ok := x.wrap(x.lin(t, memo), t.w, new(big.Int).Neg(half)); ok {
		return v
	}
	v := x.val(t, memo)
	if v.hi.Cmp(half) < 0 {
		return v
	}
	s := x.quot(v, half)
	return ival{f: iadd(v.f, s.f, new(big.Int).Neg(pow2(t.w))), lo: new(big.Int).Neg(half), hi: new(big.Int).Sub(half, big1)}
}

// signedConst reads a constant of w bits near zero.
func signedConst(t *Term) *big.Int {
	k := new(big.Int).Set(t.Big())
	if k.Bit(t.w-1) == 1 {
		k.Sub(k, pow2(t.w))
	}
	return k
}

// lin is a number that equals t modulo 2^(width of t).
func (x *ixlat) lin(t *Term, memo map[*Term]ival) ival {
	if v, ok := memo[t]; ok {
		return v
	}
	v := x.lin1(t, memo)
	memo[t] = v
	return v
}

func (x *ixlat) scale(v ival, k *big.Int) ival {
	r := ival{f: iadd(iconst(new(big.Int)), v.f, k), lo: new(big.Int).Mul(v.lo, k), hi: new(big.Int).Mul(v.hi, k)}
	if k.Sign() < 0 {
		r.lo, r.hi = r.hi, r.lo
	}
	return r
}

func iplus(a, b ival) ival {
	return ival{f: iadd(a.f, b.f, big1), lo: new(big.Int).Add(a.lo, b.lo), hi: new(big.Int).Add(a.hi, b.hi)}
}

func ionly(k *big.Int) ival { return ival{f: iconst(k), lo: k, hi: k} }

func (x *ixlat) lin1(t *Term, memo map[*Term]ival) ival {
	switch t.op {
	case OConst:
		return ionly(signedConst(t))
	case OConcat:
		r := ionly(new(big.Int))
		sh := t.w
		for _, a := range t.args {
			sh -= a.w
			r = iplus(r, x.scale(x.val(a, memo), pow2(sh)))
		}
		return r
	case OExtract:
		if t.lo == 0 {
			return x.lin(t.args[0], memo)
		}
		return x.quot(x.val(t.args[0], memo), pow2(t.lo))
	case OAdd:
		r := ionly(new(big.Int))
		for _, a := range t.args {
			r = iplus(r, x.lin(a, memo))
		}
		return r
	case OMul:
		if len(t.args) == 2 {
			return x.mul(x.lin(t.args[0], memo), x.lin(t.args[1], memo))
		}
	case OBNot:
		return iplus(ionly(big.NewInt(-1)), x.scale(x.lin(t.args[0], memo), big.NewInt(-1)))
	case OShl:
		if t.args[1].op == OConst && t.args[1].Big().Cmp(big.NewInt(int64(t.w))) < 0 {
			return x.scale(x.lin(t.args[0], memo), pow2(int(t.args[1].Big().Int64())))
		}
	case OLShr:
		if t.args[1].op == OConst && t.args[1].Big().Cmp(big.NewInt(int64(t.w))) < 0 {
			return x.quot(x.val(t.args[0], memo), pow2(int(t.args[1].Big().Int64())))
		}
	case OUDiv, OURem:
		if t.args[1].op == OConst && t.args[1].Big().Sign() > 0 {
			v := x.val(t.args[0], memo)
			d := t.args[1].Big()
			q := x.quot(v, d)
			if t.op == OUDiv {
				return q
			}
			return ival{f: iadd(v.f, q.f, new(big.Int).Neg(d)), lo: new(big.Int), hi: new(big.Int).Sub(d, big1)}
		}
	case OSExt:
		return x.signed(t.args[0], memo)
	case OBAnd:
		for i, a := range t.args {
			if a.op != OConst || len(t.args) != 2 {
				continue
			}
			v := x.val(t.args[1-i], memo)
			r := ionly(new(big.Int))
			k := a.Big()
			for b := 0; b < t.w; b++ {
				if k.Bit(b) == 0 {
					continue
				}
				e := b
				for e < t.w && k.Bit(e) == 1 {
					e++
				}
				p := v
				if b > 0 {
					p = x.quot(v, pow2(b))
				}
				y, ok := x.wrap(p, e-b, zero0)
				if !ok {
					y = x.rem(p, pow2(e-b))
				}
				r = iplus(r, x.scale(y, pow2(b)))
				b = e
			}
			return r
		}
	case OIte:
		a, b := x.val(t.args[1], memo), x.val(t.args[2], memo)
		hi := imax(a.hi, b.hi)
		v := x.fresh(hi)
		// v is a when s is 0, and b when s is 1
		far := new(big.Int).Add(hi, big1)
		s := x.fresh(big1)
		off := ivar(s)
		for _, y := range []ival{a, b} {
			d := iadd(ivar(v), y.f, big.NewInt(-1))
			x.ffs = append(x.ffs,
				ifact{f: iadd(d, off, new(big.Int).Neg(far)), hi: zero0},
				ifact{f: iadd(d, off, far), lo: zero0})
			off = iadd(iconst(big1), ivar(s), big.NewInt(-1))
		}
		return ival{f: ivar(v), lo: imin(a.lo, b.lo), hi: hi}
	}
	return x.opaque(t)
}

var zero0 = new(big.Int)

// elim replaces remainders by what they are left of, the latest first.
func (x *ixlat) elim(f *iform) *iform {
	f = iadd(f, iconst(new(big.Int)), big1)
	for v := len(x.unk) - 1; v >= 0; v-- {
		c, s := f.m[v], x.subst[v]
		if c == nil || s == nil {
			continue
		}
		delete(f.m, v)
		f.k.Add(f.k, new(big.Int).Mul(s.k, c))
		for u, y := range s.m {
			z := new(big.Int).Mul(y, c)
			if o := f.m[u]; o != nil {
				z.Add(z, o)
			}
			if z.Sign() == 0 {
				delete(f.m, u)
			} else {
				f.m[u] = z
			}
		}
	}
	return f
}

func smtInt(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func (f *iform) smt() string {
	if len(f.m) == 0 {
		return smtInt(f.k)
	}
	var b strings.Builder
	b.WriteString("(+ " + smtInt(f.k))
	for _, v := range f.keys() {
		fmt.Fprintf(&b, " (* %s u%d)", smtInt(f.m[v]), v)
	}
	b.WriteString(")")
	return b.String()
}

// script asks whether the facts and the goals can hold.
func (x *ixlat) script(goals []string, withFacts bool) string {
	var b strings.Builder
	b.WriteString("(set-logic QF_LIA)\n")
	for i, u := range x.unk {
		fmt.Fprintf(&b, "(declare-const u%d Int)\n(assert (<= 0 u%d %s))\n", i, i, u.hi)
	}
	if withFacts {
		for _, f := range x.ffs {
			t := f.f.smt()
			if f.lo != nil && f.hi != nil && f.lo.Cmp(f.hi) == 0 {
				fmt.Fprintf(&b, "(assert (= %s %s))\n", t, smtInt(f.lo))
				continue
			}
			if f.lo != nil {
				fmt.Fprintf(&b, "(assert (<= %s %s))\n", smtInt(f.lo), t)
			}
			if f.hi != nil {
				fmt.Fprintf(&b, "(assert (<= %s %s))\n", t, smtInt(f.hi))
			}
		}
	}
	if withFacts {
		for _, f := range x.conds {
			b.WriteString("(assert " + f + ")\n")
		}
	}
	for _, g := range goals {
		b.WriteString(g + "\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// decideInt gives the verdict of the first solver that has one.
func (e *Engine) decideInt(script string) Verdict {
	s := e.s
	secs := s.slowS
	if !s.deadline.IsZero() {
		if left := int(time.Until(s.deadline).Seconds()); left < secs {
			secs = left
		}
		if secs <= 0 {
			return Unknown
		}
	}
	s.nOneShot++
	f := filepath.Join(s.dir, fmt.Sprintf("q%d.smt2", s.nOneShot))
	os.MkdirAll(s.dir, 0o755)
	os.WriteFile(f, []byte(script), 0o644)
	if d := os.Getenv("GOSYM_DUMPINT"); d != "" {
		os.WriteFile(filepath.Join(d, fmt.Sprintf("int%d.smt2", s.nOneShot)), []byte(script), 0o644)
	}
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	cmds := [][]string{{"z3-new", f}, {"cvc5", f}}
	ch := make(chan Verdict, len(cmds))
	t0 := time.Now()
	for _, a := range cmds {
		go func(a []string) {
			cmd := exec.CommandContext(ctx, a[0], a[1:]...)
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			out, _ := cmd.Output()
			switch strings.TrimSpace(strings.SplitN(string(out), "\n", 2)[0]) {
			case "sat":
				ch <- Sat
			case "unsat":
				ch <- Unsat
			default:
				ch <- Unknown
			}
		}(a)
	}
	s.Stats.OneShot++
	s.Stats.Queries++
	res := Unknown
	for range cmds {
		if r := <-ch; r != Unknown {
			res = r
			break
		}
	}
	cancel()
	atomic.AddInt64(&s.Stats.TimeNS, int64(time.Since(t0)))
	switch res {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	return res
}

// pathFacts adds the conditions on the path.
func (x *ixlat) pathFacts(st *State, memo map[*Term]ival) {
	for _, t := range st.pc.List() {
		if f := x.cond(t, false, memo, 0); f != "true" {
			x.conds = append(x.conds, f)
		}
	}
}

// cond is a condition that t (neg: that not t) implies.
func (x *ixlat) cond(t *Term, neg bool, memo map[*Term]ival, depth int) string {
	if depth > 50 {
		return "true"
	}
	switch t.op {
	case ONot:
		return x.cond(t.args[0], !neg, memo, depth+1)
	case OAnd, OOr:
		op := "and"
		if (t.op == OAnd) == neg {
			op = "or"
		}
		l := make([]string, len(t.args))
		for i, a := range t.args {
			l[i] = x.cond(a, neg, memo, depth+1)
		}
		return "(" + op + " " + strings.Join(l, " ") + ")"
	case OEq:
		if t.args[0].w == 0 {
			return "true"
		}
		for i, a := range t.args {
			// all the ones of a conjunction
			if a.op != OBAnd || t.args[1-i].op != OConst || new(big.Int).Add(t.args[1-i].Big(), big1).Cmp(pow2(a.w)) != 0 {
				continue
			}
			op := "and"
			if neg {
				op = "or"
			}
			f := "(" + op
			all := append([]*Term{}, a.args...)
			for j := 0; j < len(all); j++ {
				y := all[j]
				if y.op == OBAnd {
					all = append(all, y.args...)
					continue
				}
				v := x.val(y, memo)
				d := iadd(v.f, iconst(t.args[1-i].Big()), big.NewInt(-1)).smt()
				if neg {
					f += " (<= " + d + " (- 1))"
				} else {
					f += " (= " + d + " 0)"
				}
			}
			return f + ")"
		}
	case OUlt, OUle, OSlt, OSle:
	default:
		return "true"
	}
	var a, b ival
	if t.op == OSlt || t.op == OSle {
		a, b = x.signed(t.args[0], memo), x.signed(t.args[1], memo)
	} else {
		a, b = x.val(t.args[0], memo), x.val(t.args[1], memo)
	}
	d := iadd(a.f, b.f, big.NewInt(-1)).smt() // a-b
	strict := t.op == OUlt || t.op == OSlt
	switch {
	case t.op == OEq && neg:
		return "(not (= " + d + " 0))"
	case t.op == OEq:
		return "(= " + d + " 0)"
	case !neg && strict:
		return "(< " + d + " 0)"
	case !neg:
		return "(<= " + d + " 0)"
	case strict:
		return "(>= " + d + " 0)"
	}
	return "(> " + d + " 0)"
}

// intQuery is the question for values that break an obligation, with the
// leaves in fix set.
func (e *Engine) intQuery(st *State, a, b *Term, m *big.Int, fix Model, tight bool) (*ixlat, []string) {
	x := newXlat(e)
	x.fix = fix
	memo := map[*Term]ival{}
	va, vb := x.signed(a, memo), x.signed(b, memo)
	d := iadd(va.f, vb.f, big.NewInt(-1))
	x.pathFacts(st, memo)
	if m == nil {
		return x, []string{fmt.Sprintf("(assert (<= 0 %s))", d.smt())}
	}
	d = x.elim(d)
	if tight {
		for _, v := range d.keys() {
			if x.carry[v] != nil {
				k := e.onlyValue(x, v)
				if k != nil {
					g := iadd(d, ivar(v), new(big.Int).Neg(d.m[v]))
					d = iadd(g, iconst(k), d.m[v])
				}
			}
		}
	}
	top := new(big.Int).Sub(m, big1)
	return x, []string{
		"(declare-const kk Int)", "(declare-const rr Int)",
		fmt.Sprintf("(assert (<= 1 rr %s))", top),
		fmt.Sprintf("(assert (= %s (+ (* %s kk) rr)))", d.smt(), m),
	}
}

// onlyValue is the only value that a carry can have (nil: not found). That
// there is no other follows from the facts even for real numbers.
func (e *Engine) onlyValue(x *ixlat, v int) *big.Int {
	for _, n := range []int64{0, -1, 1} {
		k := new(big.Int).Sub(big.NewInt(n), x.carry[v])
		if k.Sign() < 0 || k.Cmp(x.unk[v].hi) > 0 {
			continue
		}
		d := iadd(ivar(v), iconst(k), big.NewInt(-1)).smt()
		s := x.script([]string{fmt.Sprintf("(assert (or (<= %s (- 1)) (>= %s 1)))", d, d)}, true)
		s = strings.Replace(strings.ReplaceAll(s, " Int)", " Real)"), "QF_LIA", "QF_LRA", 1)
		if e.decideInt(s) == Unsat {
			return k
		}
	}
	return nil
}

// intValues is what the unknowns named are in an answer.
func (e *Engine) intValues(script string, names []string) map[string]*big.Int {
	script += "(get-value (" + strings.Join(names, " ") + "))\n"
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-in")
	cmd.Stdin = strings.NewReader(script)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, _ := cmd.Output()
	e.s.Stats.Queries++
	txt := string(out)
	if !strings.HasPrefix(txt, "sat") {
		return nil
	}
	vals := map[string]*big.Int{}
	fs := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt[3:]))
	for i := 0; i+1 < len(fs); i += 2 {
		k, ok := new(big.Int).SetString(fs[i+1], 10)
		if !ok {
			return nil
		}
		vals[fs[i]] = k
	}
	return vals
}

// intModel is what the leaves are in an answer to an integer question.
func (e *Engine) intModel(x *ixlat, goals []string, ls []*Term) Model {
	var names []string
	for _, l := range ls {
		if v, ok := x.terms[l]; ok {
			names = append(names, fmt.Sprintf("u%d", v))
		}
	}
	if len(names) == 0 {
		return nil
	}
	vals := e.intValues(x.script(goals, true), names)
	if vals == nil {
		return nil
	}
	md := Model{}
	for _, l := range ls {
		md[l] = new(big.Int)
		if k := x.fix[l]; k != nil {
			md[l] = k
		} else if v, ok := x.terms[l]; ok {
			if k := vals[fmt.Sprintf("u%d", v)]; k != nil {
				md[l] = k
			}
		}
	}
	return md
}

// assertInt decides an obligation about integers: that a-b is a multiple of m
// (m nil: that a < b).
func (e *Engine) assertInt(st *State, a, b *Term, m *big.Int, msg string) {
	as := e.Asserts[msg]
	if as == nil {
		as = &AssertStat{}
		e.Asserts[msg] = as
	}
	as.Checked++
	x, goals := e.intQuery(st, a, b, m, nil, false)
	v := Unknown
	if m != nil {
		v = e.decideInt(x.script(goals, false))
		if v != Unsat && len(x.carry) > 0 {
			x, goals = e.intQuery(st, a, b, m, nil, true)
			v = e.decideInt(x.script(goals, false))
		}
	}
	if v != Unsat {
		v = e.decideInt(x.script(goals, true))
	}
	if v == Unsat {
		return
	}
	if e.vioSites["assert:"+msg] {
		as.Failed++
		return
	}
	// a counterexample: among the ends of the ranges and arbitrary values
	cm := e.intCounter(st, a, b, m)
	if cm == nil {
		as.Unknown++
		e.inconcl("undecided integer obligation: %s", msg)
		return
	}
	as.Failed++
	e.vioSites["assert:"+msg] = true
	vio := &Violation{Harness: e.harness, Kind: "assert", Msg: msg, Model: cm, Pos: e.where(st), stack: e.stack(st), Trace: append([]string{}, st.trace...), maybe: st.maybe}
	vio.Values = e.ndValues(st, cm)
	vio.Sched = st.evs
	e.Violations = append(e.Violations, vio)
}

// intCounter looks for values of the unknowns that break an obligation.
func (e *Engine) intCounter(st *State, a, b *Term, m *big.Int) Model {
	roots := append(st.pc.List(), a, b)
	ls := leaves(roots)
	seed := uint64(1)
	rnd := func() uint64 {
		seed ^= seed << 13
		seed ^= seed >> 7
		seed ^= seed << 17
		return seed
	}
	check := func(md Model) bool {
		ev := map[*Term]*big.Int{}
		for _, c := range st.pc.List() {
			if r, good := e.c.Eval(c, md, ev); !good || r.Sign() == 0 {
				return false
			}
		}
		sgn := func(t *Term) *big.Int {
			r, _ := e.c.Eval(t, md, ev)
			r = new(big.Int).Set(r)
			if r.Bit(t.w-1) == 1 {
				r.Sub(r, pow2(t.w))
			}
			return r
		}
		d := new(big.Int).Sub(sgn(a), sgn(b))
		return m != nil && new(big.Int).Mod(d, m).Sign() != 0 || m == nil && d.Sign() >= 0
	}
	any := func(w, try int) *big.Int {
		v := new(big.Int)
		for i := 0; i < w; i += 64 {
			v.Lsh(v, 64)
			v.Or(v, new(big.Int).SetUint64(rnd()))
		}
		switch {
		case try == 0 || try > 1 && rnd()%uint64(2+try%5) == 0:
			v = new(big.Int).Sub(pow2(w), big1)
		case try == 1 || try%3 == 0 && rnd()%4 == 0:
			v = new(big.Int)
		}
		return v.And(v, new(big.Int).Sub(pow2(w), big1))
	}
	groups := map[string]bool{}
	group := func(l *Term) string { return strings.TrimRight(l.name, "0123456789!_#.") }
	for _, l := range ls {
		if l.op != OVar {
			return nil
		}
		groups[group(l)] = true
	}
	// what the integer question answers, with all but one group of leaves set
	var gl []string
	for g := range groups {
		gl = append(gl, g)
	}
	sort.Strings(gl)
	for try := 0; try < 4; try++ {
		for _, g := range append([]string{""}, gl...) {
			if g == "" && try > 0 || g != "" && len(gl) == 1 {
				continue
			}
			fix := Model{}
			for _, l := range ls {
				if g != "" && group(l) != g {
					fix[l] = any(max(l.w, 1), try)
				}
			}
			x, goals := e.intQuery(st, a, b, m, fix, false)
			if md := e.intModel(x, goals, ls); md != nil && check(md) {
				return md
			}
		}
	}
	for try := 0; try < 3000; try++ {
		md := Model{}
		for _, l := range ls {
			md[l] = any(max(l.w, 1), try)
		}
		if check(md) {
			return md
		}
	}
	return nil
}

// hardForBits tells that deciding t bit by bit is out of reach.
func (e *Engine) hardForBits(t *Term) bool {
	if v, ok := e.hard[t]; ok {
		return v
	}
	r := false
	switch t.op {
	case OUDiv, OURem, OSDiv, OSRem:
		r = t.w > 64
	case OMul:
		r = t.w > 64 && t.args[0].op != OConst && t.args[1].op != OConst
	}
	for _, a := range t.args {
		r = r || e.hardForBits(a)
	}
	e.hard[t] = r
	return r
}

// intFeasible decides a branch by its integer reading.
func (e *Engine) intFeasible(st *State, g *Term) (bool, Model) {
	x := newXlat(e)
	memo := map[*Term]ival{}
	x.pathFacts(st, memo)
	goals := []string{"(assert " + x.cond(g, false, memo, 0) + ")"}
	if e.decideInt(x.script(goals, true)) == Unsat {
		return false, nil
	}
	ls := leaves(append(st.pc.List(), g))
	if md := e.intModel(x, goals, ls); md != nil {
		ev := map[*Term]*big.Int{}
		ok := true
		for _, c := range append(st.pc.List(), g) {
			if r, good := e.c.Eval(c, md, ev); !good || r.Sign() == 0 {
				ok = false
				break
			}
		}
		if ok {
			return true, md
		}
	}
	st.maybe = true
	e.Notes["feasibility of a branch undecided; explored anyway"] = true
	return true, nil
}

// identical tells whether a and b are the same for all values of the unknowns.
func (e *Engine) identical(a, b *Term) bool {
	x := newXlat(e)
	memo := map[*Term]ival{}
	d := x.elim(iadd(x.signed(a, memo).f, x.signed(b, memo).f, big.NewInt(-1)))
	return len(d.m) == 0 && d.k.Sign() == 0
}

// monomial tells whether a is a small constant times a product of unknowns.
func (e *Engine) monomial(a *Term) bool {
	x := newXlat(e)
	f := x.elim(x.signed(a, map[*Term]ival{}).f)
	if f.k.Sign() != 0 {
		return len(f.m) == 0 && f.k.BitLen() < 64
	}
	for _, c := range f.m {
		return len(f.m) == 1 && c.BitLen() < 64
	}
	return false
}
