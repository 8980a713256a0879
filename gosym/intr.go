package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool)

const zzp = "github.com/philhofer/seth/zzsym."

// ---------- helpers ----------

func (e *Engine) term(st *State, v Value) *Term {
	t, ok := e.resolve(st, v).(*Term)
	if !ok {
		e.unsup("scalar expected, got %T", v)
	}
	return t
}

func (e *Engine) cstr(st *State, v Value) string {
	s, ok := e.resolve(st, v).(StrV)
	if !ok {
		e.unsup("string expected, got %T", v)
	}
	c, ok := strConst(s)
	if !ok {
		e.unsup("constant string expected")
	}
	return c
}

func (e *Engine) nd(st *State, name, kind string, t *Term) {
	n := 1
	if st.nondet != nil {
		n = st.nondet.n + 1
	}
	st.nondet = &Nondet{name: name, kind: kind, t: t, prev: st.nondet, n: n}
}

// ndVar makes the variable for the next nondeterministic value of this path.
// The name carries the position so that both sides of a fork share it.
func (e *Engine) ndVar(st *State, w int, name, kind string) *Term {
	n := 0
	if st.nondet != nil {
		n = st.nondet.n
	}
	v := e.c.Var(w, fmt.Sprintf("%s/%s!%d", name, kind, n))
	e.nd(st, name, kind, v)
	return v
}

func (e *Engine) nilErr() Value { return IfaceV{} }

func (e *Engine) mkErr(st *State, msg StrV, wrapped Value) Value {
	if wrapped == nil {
		wrapped = IfaceV{}
	}
	if e.typeOE == nil {
		e.unsup("no error type")
	}
	id := e.alloc(st, e.typeOE.(*types.Pointer).Elem(), &Agg{elems: []Value{msg, wrapped}}, "error")
	return IfaceV{e.typeOE, Ptr{obj: id}}
}

func (e *Engine) sliceVals(st *State, v Value) []Value {
	s, ok := e.resolve(st, v).(SliceV)
	if !ok {
		e.unsup("slice expected, got %T", v)
	}
	n := int(int64(e.concretize(st, s.len)))
	return e.readSlice(st, s, n)
}

// ---------- big integers ----------

func (e *Engine) bigAt(st *State, v Value) *Term {
	p := e.ptr(st, e.resolve(st, v))
	if p.obj == 0 {
		e.nilDeref()
	}
	x := e.resolve(st, e.load(st, p))
	b, ok := x.(BigV)
	if !ok {
		e.unsup("big.Int holds %T", x)
	}
	return b.t
}

func (e *Engine) setBig(st *State, v Value, t *Term) Value {
	p := e.ptr(st, e.resolve(st, v))
	if p.obj == 0 {
		e.nilDeref()
	}
	e.store(st, p, e.trimBig(t))
	return p
}

func (e *Engine) ext2(x, y *Term, extra int) (*Term, *Term) {
	w := max(x.w, y.w) + extra
	return e.c.SExt(x, w), e.c.SExt(y, w)
}

func (e *Engine) bigAbs(x *Term) *Term { // unsigned, width x.w
	w := x.w
	neg := e.c.Slt(x, e.c.BV(w, 0))
	return e.c.Ite(neg, e.c.Neg(x), x)
}

func (e *Engine) bigNeg(x *Term) *Term { return e.c.Slt(x, e.c.BV(x.w, 0)) }

func (e *Engine) bitLen(st *State, a *Term) *Term { // a unsigned
	r := e.i64(0)
	lo := 0
	if st != nil && !a.IsConst() {
		// the topmost byte known to be non-zero decides
		for k := (a.w - 1) / 8; k > 0; k-- {
			b := e.c.Extract(a, min(a.w-1, 8*k+7), 8*k)
			if b.isZero() {
				continue
			}
			z := e.c.Eq(b, e.c.BV(b.w, 0))
			if z.isFalse() {
				lo = 8 * k
			} else if v, _, ok := e.s.fastDecide(st.pc, z, nil); ok && v == Unsat {
				lo = 8 * k
			} else if kv, ok := st.known(e.c, z); ok && !kv {
				lo = 8 * k
			}
			break
		}
	}
	for i := lo; i < a.w; i++ {
		r = e.c.Ite(e.c.Eq(e.c.Extract(a, i, i), e.c.BV(1, 1)), e.i64(int64(i+1)), r)
	}
	return r
}

// byteLen picks the number of significant bytes of a (forking).
func (e *Engine) byteLen(st *State, a *Term) int {
	if a.IsConst() {
		return (a.Big().BitLen() + 7) / 8
	}
	mx := (a.w - e.c.leadZeros(a) + 7) / 8
	k := mx
	for k > 0 {
		// are all bytes >= k-1 zero?
		lo := 8 * (k - 1)
		hi := e.c.Extract(a, a.w-1, lo)
		if e.branch(st, e.c.Eq(hi, e.c.BV(hi.w, 0))) {
			k--
			continue
		}
		break
	}
	return k
}

func (e *Engine) bytesBE(a *Term, n int) []*Term {
	a = e.c.ZExt(a, max(a.w, 8*n))
	out := make([]*Term, n)
	for i := 0; i < n; i++ {
		lo := 8 * (n - 1 - i)
		out[i] = e.c.Extract(a, lo+7, lo)
	}
	return out
}

func (e *Engine) bigText(st *State, x *Term, base int) []*Term {
	const digs = "0123456789abcdefghijklmnopqrstuvwxyz"
	if x.IsConst() {
		s := x.SBig().Text(base)
		return e.str(s).b
	}
	var out []*Term
	if e.branch(st, e.bigNeg(x)) {
		out = append(out, e.byteC['-'])
	}
	a := e.bigAbs(x)
	sign := int64(0) // of x, when known
	if v, ok := st.known(e.c, e.bigNeg(x)); ok && v || len(out) > 0 {
		sign = -1
	} else {
		sign = 1
		a = x
	}
	digit := func(d *Term) *Term { // 8-bit value 0..35
		if base <= 10 {
			return e.c.Add(d, e.c.BV(8, '0'))
		}
		return e.c.Ite(e.c.Ult(d, e.c.BV(8, 10)), e.c.Add(d, e.c.BV(8, '0')), e.c.Add(d, e.c.BV(8, 'a'-10)))
	}
	if base == 16 {
		mx := (a.w + 3) / 4
		a = e.c.ZExt(a, 4*mx)
		k := mx
		for k > 1 {
			hi := e.c.Extract(a, a.w-1, 4*(k-1))
			if e.branch(st, e.c.Eq(hi, e.c.BV(hi.w, 0))) {
				k--
				continue
			}
			break
		}
		for i := k - 1; i >= 0; i-- {
			out = append(out, digit(e.c.ZExt(e.c.Extract(a, 4*i+3, 4*i), 8)))
		}
		return out
	}
	if a.w > 80 {
		e.Notes["decimal text of a wide symbolic integer"] = true
	}
	// number of digits
	lim := new(big.Int).Lsh(big.NewInt(1), uint(a.w))
	p := big.NewInt(int64(base))
	k := 1
	for p.Cmp(lim) < 0 {
		if e.branch(st, e.c.Ult(a, e.c.BVBig(a.w, p))) {
			break
		}
		k++
		p.Mul(p, big.NewInt(int64(base)))
	}
	// the digits are fresh values tied to a by their sum, which determines
	// them uniquely
	W := a.w + 5
	acc := e.c.BV(W, 0)
	ds := make([]*Term, k)
	hint := st.hint
	var hv *big.Int
	if hint != nil {
		if v, ok := e.c.Eval(a, hint, map[*Term]*big.Int{}); ok {
			hv = v
			n := make(Model, len(hint)+k)
			for t, v := range hint {
				n[t] = v
			}
			hint = n
		}
	}
	p = new(big.Int).Exp(big.NewInt(int64(base)), big.NewInt(int64(k-1)), nil)
	for i := 0; i < k; i++ {
		d := e.c.Var(8, fmt.Sprintf("dec%d!%d_%d_%d", base, a.id, k, i))
		if hv != nil {
			q := new(big.Int).Quo(hv, p)
			hint[d] = q.Mod(q, big.NewInt(int64(base)))
			p.Quo(p, big.NewInt(int64(base)))
		}
		ds[i] = digit(d)
		e.addPC(st, e.c.Ult(d, e.c.BV(8, uint64(base))))
		if i == 0 && k > 1 {
			e.addPC(st, e.c.Not(e.c.Eq(d, e.c.BV(8, 0))))
		}
		acc = e.c.Add(e.c.Mul(acc, e.c.BV(W, uint64(base))), e.c.ZExt(d, W))
	}
	if sign < 0 {
		a = e.c.Neg(x)
	}
	fact := e.c.Eq(e.c.ZExt(a, W), acc)
	e.addPC(st, fact)
	if xl := e.linOf(x); len(xl.m) == 1 && xl.k.Sign() == 0 {
		for at, c := range xl.m {
			if c.IsInt64() && (c.Int64() == 1 || c.Int64() == -1) {
				l := linAdd(&Lin{k: new(big.Int)}, xl, big.NewInt(sign))
				ten := big.NewInt(1)
				for i := k - 1; i >= 0; i-- {
					d := e.c.ZExt(e.c.Sub(ds[i], e.c.BV(8, '0')), 9)
					l = linAdd(l, e.linOf(d), new(big.Int).Neg(ten))
					ten = new(big.Int).Mul(ten, big.NewInt(int64(base)))
				}
				need := []*Term{fact}
				if fact.op == OAnd {
					need = fact.args
				}
				e.linFacts[need[0]] = &linFact{l, at, need[1:]}
			}
		}
	}
	st.hint = nil
	if hv != nil {
		st.hint = hint
	}
	return append(out, ds...)
}

func bigIntrinsics(t map[string]intrinsic) {
	m := func(name string, f intrinsic) { t["(*math/big.Int)."+name] = f }
	bin := func(name string, extra int, f func(c *Ctx, x, y *Term) *Term) {
		m(name, func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			x, y := e.bigAt(st, a[1]), e.bigAt(st, a[2])
			x, y = e.ext2(x, y, extra)
			return e.setBig(st, a[0], f(e.c, x, y)), true
		})
	}
	m("Add", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := e.bigAt(st, a[1]), e.bigAt(st, a[2])
		l := linAdd(e.linOf(x), e.linOf(y), big.NewInt(1))
		x, y = e.ext2(x, y, 1)
		return e.setLin(st, a[0], l, e.c.Add(x, y)), true
	})
	m("Sub", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := e.bigAt(st, a[1]), e.bigAt(st, a[2])
		l := linAdd(e.linOf(x), e.linOf(y), big.NewInt(-1))
		x, y = e.ext2(x, y, 1)
		return e.setLin(st, a[0], l, e.c.Sub(x, y)), true
	})
	bin("And", 0, func(c *Ctx, x, y *Term) *Term { return c.BAnd(x, y) })
	bin("Or", 0, func(c *Ctx, x, y *Term) *Term { return c.BOr(x, y) })
	bin("Xor", 0, func(c *Ctx, x, y *Term) *Term { return c.BXor(x, y) })
	bin("AndNot", 0, func(c *Ctx, x, y *Term) *Term { return c.BAnd(x, c.BNot(y)) })
	m("Mul", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := e.bigAt(st, a[1]), e.bigAt(st, a[2])
		w := x.w + y.w
		var l *Lin
		if y.IsConst() {
			l = linAdd(&Lin{k: new(big.Int)}, e.linOf(x), y.SBig())
		} else if x.IsConst() {
			l = linAdd(&Lin{k: new(big.Int)}, e.linOf(y), x.SBig())
		}
		return e.setLin(st, a[0], l, e.c.Mul(e.c.SExt(x, w), e.c.SExt(y, w))), true
	})
	divs := func(e *Engine, st *State, x, y *Term, euclid, onlyRem bool) (q, r *Term) {
		if euclid && onlyRem && y.IsConst() && y.SBig().Sign() > 0 && !x.IsConst() {
			if k := e.residue(x, y.SBig()); k != nil {
				r = e.mkbig(k).t
				return r, r
			}
		}
		x, y = e.ext2(x, y, 1)
		if e.branch(st, e.c.Eq(y, e.c.BV(y.w, 0))) {
			panic(goPanic{msg: "division by zero", val: IfaceV{types.Typ[types.String], e.str("division by zero")}})
		}
		zero := e.c.BV(x.w, 0)
		if x.IsConst() && y.IsConst() {
			var Q, R = new(big.Int), new(big.Int)
			if euclid {
				Q.DivMod(x.SBig(), y.SBig(), R)
			} else {
				Q.QuoRem(x.SBig(), y.SBig(), R)
			}
			return e.mkbig(Q).t, e.mkbig(R).t
		}
		if e.c.signKnownNonneg(x) && e.c.signKnownNonneg(y) {
			return e.c.UDiv(x, y), e.c.URem(x, y)
		}
		if e.c.wide && euclid && y.IsConst() && y.SBig().Sign() > 0 {
			// moved up by a multiple of y, and back
			n := x.w
			w := n + y.w + 2
			up := new(big.Int).Lsh(y.SBig(), uint(n))
			u := e.c.Add(e.c.SExt(x, w), e.c.BVBig(w, up))
			d := e.c.SExt(y, w)
			back := new(big.Int).Sub(pow2(w), pow2(n))
			return e.c.Add(e.c.UDiv(u, d), e.c.BVBig(w, back)), e.c.URem(u, d)
		}
		q, r = e.c.SDiv(x, y), e.c.SRem(x, y)
		if euclid {
			neg := e.c.Slt(r, zero)
			yneg := e.c.Slt(y, zero)
			one := e.c.BV(x.w, 1)
			q = e.c.Ite(neg, e.c.Ite(yneg, e.c.Add(q, one), e.c.Sub(q, one)), q)
			r = e.c.Ite(neg, e.c.Ite(yneg, e.c.Sub(r, y), e.c.Add(r, y)), r)
		}
		return
	}
	for _, d := range []struct {
		n string
		e bool
		r bool
	}{{"Div", true, false}, {"Mod", true, true}, {"Quo", false, false}, {"Rem", false, true}} {
		d := d
		m(d.n, func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			q, r := divs(e, st, e.bigAt(st, a[1]), e.bigAt(st, a[2]), d.e, d.r)
			if d.r {
				q = r
			}
			return e.setBig(st, a[0], q), true
		})
	}
	for _, d := range []struct {
		n string
		e bool
	}{{"DivMod", true}, {"QuoRem", false}} {
		d := d
		m(d.n, func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			q, r := divs(e, st, e.bigAt(st, a[1]), e.bigAt(st, a[2]), d.e, false)
			z := e.setBig(st, a[0], q)
			mm := e.setBig(st, a[3], r)
			return Tuple{z, mm}, true
		})
	}
	m("Neg", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.bigAt(st, a[1])
		l := linAdd(&Lin{k: new(big.Int)}, e.linOf(x), big.NewInt(-1))
		return e.setLin(st, a[0], l, e.c.Neg(e.c.SExt(x, x.w+1))), true
	})
	m("Abs", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.bigAt(st, a[1])
		return e.setBig(st, a[0], e.c.ZExt(e.bigAbs(x), x.w+1)), true
	})
	m("Not", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return e.setBig(st, a[0], e.c.BNot(e.bigAt(st, a[1]))), true
	})
	m("Set", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return e.setBig(st, a[0], e.bigAt(st, a[1])), true
	})
	m("SetInt64", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return e.setBig(st, a[0], e.term(st, a[1])), true
	})
	m("SetUint64", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return e.setBig(st, a[0], e.c.ZExt(e.term(st, a[1]), 65)), true
	})
	t["math/big.NewInt"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		el := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		id := e.alloc(st, el, e.trimBig(e.term(st, a[0])), "big.NewInt")
		return Ptr{obj: id}, true
	}
	m("SetBytes", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		b := e.bytesOf(st, a[1])
		x := e.c.BV(1, 0)
		if len(b) > 0 {
			x = e.c.ZExt(e.c.Concat(b...), 8*len(b)+1)
		}
		return e.setBig(st, a[0], x), true
	})
	m("Bytes", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.bigAt(st, a[0])
		ab := e.bigAbs(x)
		k := e.byteLen(st, ab)
		s := e.newBytes(st, e.bytesBE(ab, k))
		// the real capacity is rounded up to whole words
		return s, true
	})
	m("FillBytes", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.bigAt(st, a[0])
		ab := e.bigAbs(x)
		s := e.resolve(st, a[1]).(SliceV)
		n := int(e.concretize(st, s.len))
		if ab.w > 8*n {
			hi := e.c.Extract(ab, ab.w-1, 8*n)
			if !e.branch(st, e.c.Eq(hi, e.c.BV(hi.w, 0))) {
				panic(goPanic{msg: "math/big: buffer too small to fit value", val: IfaceV{types.Typ[types.String], e.str("math/big: buffer too small to fit value")}})
			}
		}
		bs := e.bytesBE(ab, n)
		vs := make([]Value, n)
		for i := range bs {
			vs[i] = bs[i]
		}
		e.writeSlice(st, s, 0, vs)
		return s, true
	})
	m("Cmp", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := e.bigAt(st, a[0]), e.bigAt(st, a[1])
		if os.Getenv("GOSYM_LIN") != "" {
			fmt.Fprintln(os.Stderr, "CMP", e.linDiff(st, x, y))
			for _, t := range st.pc.List() {
				if f := e.linFacts[t]; f != nil {
					fmt.Fprintln(os.Stderr, "   FACT", f.l)
				}
			}
		}
		if d := e.linDiff(st, x, y); len(d.m) == 0 {
			return e.i64(int64(d.k.Sign())), true
		}
		x, y = e.ext2(x, y, 0)
		return e.c.Cmp3(64, e.c.Slt(x, y), e.c.Eq(x, y), e.c.Slt(y, x)), true
	})
	m("CmpAbs", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := e.bigAbs(e.bigAt(st, a[0])), e.bigAbs(e.bigAt(st, a[1]))
		w := max(x.w, y.w)
		x, y = e.c.ZExt(x, w), e.c.ZExt(y, w)
		return e.c.Cmp3(64, e.c.Ult(x, y), e.c.Eq(x, y), e.c.Ult(y, x)), true
	})
	m("Sign", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.bigAt(st, a[0])
		return e.c.Cmp3(64, e.bigNeg(x), e.c.Eq(x, e.c.BV(x.w, 0)), e.c.Slt(e.c.BV(x.w, 0), x)), true
	})
	m("BitLen", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return e.bitLen(st, e.bigAbs(e.bigAt(st, a[0]))), true
	})
	m("TrailingZeroBits", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.bigAt(st, a[0])
		r := e.i64(0)
		for i := x.w - 1; i >= 0; i-- {
			r = e.c.Ite(e.c.Eq(e.c.Extract(x, i, i), e.c.BV(1, 1)), e.i64(int64(i)), r)
		}
		return r, true
	})
	m("Int64", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.bigAt(st, a[0])
		return e.c.Extract(e.c.SExt(x, max(x.w, 64)), 63, 0), true
	})
	m("Uint64", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.bigAbs(e.bigAt(st, a[0]))
		return e.c.Extract(e.c.ZExt(x, max(x.w, 64)), 63, 0), true
	})
	m("IsInt64", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.bigAt(st, a[0])
		if x.w <= 64 {
			return e.c.True, true
		}
		return e.c.Eq(e.c.SExt(e.c.Extract(x, 63, 0), x.w), x), true
	})
	m("IsUint64", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.bigAt(st, a[0])
		nn := e.c.Not(e.bigNeg(x))
		if x.w <= 65 {
			return nn, true
		}
		hi := e.c.Extract(x, x.w-1, 64)
		return e.c.Eq(hi, e.c.BV(hi.w, 0)), true
	})
	m("Lsh", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.bigAt(st, a[1])
		n := int(e.concretize(st, e.term(st, a[2])))
		if n > 1<<16 {
			e.unsup("huge shift")
		}
		if n == 0 {
			return e.setBig(st, a[0], x), true
		}
		return e.setBig(st, a[0], e.c.Concat(x, e.c.BV(n, 0))), true
	})
	m("Rsh", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.bigAt(st, a[1])
		n := int(e.concretize(st, e.term(st, a[2])))
		if n >= x.w {
			n = x.w - 1
		}
		return e.setBig(st, a[0], e.c.Extract(x, x.w-1, n)), true
	})
	m("Bit", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.bigAt(st, a[0])
		n := int(e.concretize(st, e.term(st, a[1])))
		if n < 0 {
			panic(goPanic{msg: "negative bit index"})
		}
		if n >= x.w {
			n = x.w - 1
		}
		return e.c.ZExt(e.c.Extract(x, n, n), 64), true
	})
	m("SetBit", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.bigAt(st, a[1])
		n := int(e.concretize(st, e.term(st, a[2])))
		b := e.term(st, a[3])
		w := max(x.w, n+2)
		x = e.c.SExt(x, w)
		bit := e.c.Extract(b, 0, 0)
		var parts []*Term
		parts = append(parts, e.c.Extract(x, w-1, n+1), bit)
		if n > 0 {
			parts = append(parts, e.c.Extract(x, n-1, 0))
		}
		return e.setBig(st, a[0], e.c.Concat(parts...)), true
	})
	m("Exp", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := e.bigAt(st, a[1]), e.bigAt(st, a[2])
		mp := e.ptr(st, e.resolve(st, a[3]))
		if x.IsConst() && y.IsConst() {
			var mod *big.Int
			if mp.obj != 0 {
				mt := e.bigAt(st, a[3])
				if !mt.IsConst() {
					e.unsup("Exp with symbolic modulus")
				}
				mod = mt.SBig()
			}
			if mod == nil && y.SBig().BitLen() > 12 {
				e.unsup("huge exponentiation")
			}
			r := new(big.Int).Exp(x.SBig(), y.SBig(), mod)
			return e.setBig(st, a[0], e.mkbig(r).t), true
		}
		if x.IsConst() && mp.obj == 0 {
			// constant base, small exponent: enumerate
			k := e.concretize(st, y)
			yv := new(big.Int).SetUint64(k)
			if yv.BitLen() > 12 {
				e.unsup("huge exponentiation")
			}
			return e.setBig(st, a[0], e.mkbig(new(big.Int).Exp(x.SBig(), yv, nil)).t), true
		}
		e.unsup("symbolic Exp")
		return nil, true
	})
	m("ModInverse", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := e.bigAt(st, a[1]), e.bigAt(st, a[2])
		if x.IsConst() && y.IsConst() {
			r := new(big.Int).ModInverse(x.SBig(), y.SBig())
			if r == nil {
				return Ptr{}, true
			}
			return e.setBig(st, a[0], e.mkbig(r).t), true
		}
		e.unsup("symbolic ModInverse")
		return nil, true
	})
	m("Sqrt", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.bigAt(st, a[1])
		if x.IsConst() && x.SBig().Sign() >= 0 {
			return e.setBig(st, a[0], e.mkbig(new(big.Int).Sqrt(x.SBig())).t), true
		}
		e.unsup("symbolic Sqrt")
		return nil, true
	})
	m("GCD", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		e.unsup("GCD")
		return nil, true
	})
	text := func(e *Engine, st *State, v Value, base int) StrV {
		p := e.ptr(st, e.resolve(st, v))
		if p.obj == 0 {
			return e.str("<nil>")
		}
		return e.mkStr(e.bigText(st, e.bigAt(st, v), base))
	}
	m("String", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return text(e, st, a[0], 10), true
	})
	m("Text", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return text(e, st, a[0], int(e.concretize(st, e.term(st, a[1])))), true
	})
	m("Append", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		s := text(e, st, a[0], int(e.concretize(st, e.term(st, a[2]))))
		vals := make([]Value, len(s.b))
		for i := range vals {
			vals[i] = s.b[i]
		}
		return e.appendVals(st, e.resolve(st, a[1]).(SliceV), types.Typ[types.Uint8], vals), true
	})
	mt := func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		s := text(e, st, a[0], 10)
		return Tuple{e.newBytes(st, s.b), IfaceV{}}, true
	}
	m("MarshalText", mt)
	m("MarshalJSON", mt)
}

// ---------- fmt ----------

func (e *Engine) format(st *State, f StrV, args []Value) (StrV, Value) {
	fs, ok := strConst(f)
	if !ok {
		return StrV{n: e.i64(0), opaque: "formatted"}, nil
	}
	opaque := false
	var out []*Term
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, e.byteC[s[i]])
		}
	}
	var wrapped Value
	indexed := false
	ai := 0
	for i := 0; i < len(fs); i++ {
		c := fs[i]
		if c != '%' {
			out = append(out, e.byteC[c])
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			opaque = true
			break
		}
		flags, verb := fs[i+1:j], fs[j]
		if verb == '[' && flags == "" {
			// an explicit argument index
			k := strings.IndexByte(fs[j:], ']')
			if k > 0 && j+k+1 < len(fs) {
				if n, err := strconv.Atoi(fs[j+1 : j+k]); err == nil && n >= 1 && n <= len(args) {
					ai = n - 1
					indexed = true
					j += k + 1
					verb = fs[j]
				}
			}
		}
		i = j
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		av, ok := e.resolve(st, args[ai]).(IfaceV)
		ai++
		if !ok {
			opaque = true
			continue
		}
		if verb == 'w' {
			wrapped = av
		}
		if !e.fmtOne(st, flags, verb, av, &out) {
			opaque = true
		}
	}
	if opaque || ai < len(args) && !indexed {
		return StrV{n: e.i64(0), opaque: "formatted:" + fs}, wrapped
	}
	return e.mkStr(out), wrapped
}

func (e *Engine) hasMethod(t types.Type, name string) bool {
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func (e *Engine) fmtOne(st *State, flags string, verb byte, av IfaceV, out *[]*Term) bool {
	put := func(s string) {
		for i := 0; i < len(s); i++ {
			*out = append(*out, e.byteC[s[i]])
		}
	}
	if av.typ == nil {
		if verb == 'v' || verb == 's' {
			put("<nil>")
			return verb == 'v'
		}
		return false
	}
	if verb == 'T' {
		return false
	}
	if (verb == 'v' || verb == 's' || verb == 'd' || verb == 'x') && (e.hasMethod(av.typ, "Format")) {
		if p, ok := av.val.(Ptr); ok && verb == 'd' && flags == "" && p.obj != 0 {
			if b, ok := e.load(st, p).(BigV); ok {
				*out = append(*out, e.bigText(st, b.t, 10)...)
				return true
			}
		}
		return false
	}
	if (verb == 'v' || verb == 's' || verb == 'x' || verb == 'q') && (e.hasMethod(av.typ, "Error") || e.hasMethod(av.typ, "String")) {
		return false
	}
	switch x := av.val.(type) {
	case StrV:
		if x.opaque != "" {
			return false
		}
		switch {
		case (verb == 's' || verb == 'v') && flags == "":
			*out = append(*out, e.strBytes(st, x)...)
			return true
		case (verb == 's' || verb == 'v') && isWidth(flags):
			b := e.strBytes(st, x)
			n, _ := strconv.Atoi(flags)
			for _, t := range b {
				if !t.IsConst() || t.Big().Uint64() >= 128 {
					return false // the width counts runes
				}
			}
			for i := len(b); i < n; i++ {
				*out = append(*out, e.byteC[' '])
			}
			*out = append(*out, b...)
			return true
		case verb == 'x' && flags == "":
			e.hexOut(e.strBytes(st, x), out)
			return true
		case verb == 'q':
			if s, ok := strConst(x); ok && flags == "" {
				put(fmt.Sprintf("%q", s))
				return true
			}
			if flags == "" {
				// printable ASCII without quotes and backslashes is quoted as it is
				b := e.strBytes(st, x)
				plain := e.c.True
				for _, t := range b {
					k := func(v uint64) *Term { return e.c.BV(8, v) }
					plain = e.c.And(plain, e.c.And(e.c.And(e.c.Ule(k(' '), t), e.c.Ule(t, k('~'))), e.c.And(e.c.Not(e.c.Eq(t, k('"'))), e.c.Not(e.c.Eq(t, k('\\'))))))
				}
				if e.branch(st, plain) {
					put("\"")
					*out = append(*out, b...)
					put("\"")
					return true
				}
			}
		}
	case SliceV:
		if s, ok := av.typ.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && flags == "" {
				if verb == 's' {
					*out = append(*out, e.bytesOf(st, x)...)
					return true
				}
				if verb == 'x' {
					e.hexOut(e.bytesOf(st, x), out)
					return true
				}
			}
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && verb == 'v' && flags == "#" {
				if types.TypeString(av.typ, nil) != "[]byte" && types.TypeString(av.typ, nil) != "[]uint8" {
					return false
				}
				put("[]byte")
				if x.obj == 0 {
					put("(nil)")
					return true
				}
				put("{")
				for i, t := range e.bytesOf(st, x) {
					if i > 0 {
						put(", ")
					}
					put("0x")
					*out = append(*out, e.bigText(st, e.c.ZExt(t, 9), 16)...)
				}
				put("}")
				return true
			}
		}
	case *Agg:
		if a, ok := av.typ.Underlying().(*types.Array); ok && verb == 'x' && flags == "" {
			if b, ok := a.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				ts := make([]*Term, len(x.elems))
				for i := range ts {
					ts[i] = x.elems[i].(*Term)
				}
				e.hexOut(ts, out)
				return true
			}
		}
	case *Term:
		b, ok := av.typ.Underlying().(*types.Basic)
		if !ok {
			return false
		}
		w, signed, _ := basicWidth(b)
		if w == 0 {
			if x.IsConst() {
				put(fmt.Sprintf("%"+flags+string(verb), x.isTrue()))
				return true
			}
			return false
		}
		if x.IsConst() {
			var v interface{}
			if signed {
				v = x.SBig().Int64()
			} else {
				v = x.Big().Uint64()
			}
			put(fmt.Sprintf("%"+flags+string(verb), v))
			return true
		}
		sx := x
		if !signed {
			sx = e.c.ZExt(x, w+1)
		}
		switch {
		case (verb == 'd' || verb == 'v') && flags == "":
			*out = append(*out, e.bigText(st, sx, 10)...)
			return true
		case verb == 'x' && flags == "":
			*out = append(*out, e.bigText(st, sx, 16)...)
			return true
		case verb == 'x' && flags == "02" && !signed && w == 8:
			e.hexOut([]*Term{x}, out)
			return true
		}
	}
	return false
}

func isWidth(flags string) bool {
	_, err := strconv.Atoi(flags)
	return err == nil && flags[0] >= '1' && flags[0] <= '9'
}

func (e *Engine) hexOut(b []*Term, out *[]*Term) {
	for _, t := range b {
		for _, d := range []*Term{e.c.Extract(t, 7, 4), e.c.Extract(t, 3, 0)} {
			v := e.c.ZExt(d, 8)
			*out = append(*out, e.c.Ite(e.c.Ult(v, e.c.BV(8, 10)), e.c.Add(v, e.c.BV(8, '0')), e.c.Add(v, e.c.BV(8, 'a'-10))))
		}
	}
}

// ---------- table ----------

func intrinsicTable() map[string]intrinsic {
	t := map[string]intrinsic{}
	bigIntrinsics(t)
	zz := func(name string, f intrinsic) { t[zzp+name] = f }
	scalar := func(name, kind string, w int) {
		zz(name, func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			return e.ndVar(st, w, e.cstr(st, a[0]), kind), true
		})
	}
	scalar("Byte", "byte", 8)
	scalar("Uint16", "u16", 16)
	scalar("Uint32", "u32", 32)
	scalar("Int32", "u32", 32)
	scalar("Uint64", "u64", 64)
	scalar("Int64", "u64", 64)
	scalar("Int", "u64", 64)
	scalar("Bool", "bool", 0)
	ndBytes := func(e *Engine, st *State, a []Value) []*Term {
		n := int(int64(e.concretize(st, e.term(st, a[1]))))
		nm := e.cstr(st, a[0])
		b := make([]*Term, n)
		for i := range b {
			b[i] = e.ndVar(st, 8, nm, "byte")
		}
		return b
	}
	zz("Bytes", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return e.newBytes(st, ndBytes(e, st, a)), true
	})
	zz("Str", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return e.mkStr(ndBytes(e, st, a)), true
	})
	zz("Choose", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		n := e.concretize(st, e.term(st, a[1]))
		nm := e.cstr(st, a[0])
		cnt := 0
		if st.nondet != nil {
			cnt = st.nondet.n
		}
		v := e.c.Var(64, fmt.Sprintf("%s/choose!%d", nm, cnt))
		if n == 0 {
			panic(killPath{})
		}
		in := e.c.Ult(v, e.i64(int64(n)))
		if _, ok := st.conc[v]; !ok {
			if k, known := st.known(e.c, in); !known || !k {
				e.addPC(st, in)
				st.hint = nil
			}
		}
		k := e.concretize(st, v)
		e.nd(st, nm, "choose", v)
		if st.chooseN < e.splitDepth {
			st.chooseN++
			st.chooseH = st.chooseH*7 + uint32(k)
			if st.chooseN == e.splitDepth && int((st.chooseH^st.chooseH>>4)%uint32(e.splitK)) != e.splitJ {
				panic(killPath{})
			}
		}
		return e.i64(int64(k)), true
	})
	zz("Range", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		lo, hi := e.term(st, a[1]), e.term(st, a[2])
		v := e.ndVar(st, 64, e.cstr(st, a[0]), "u64")
		e.assume(st, e.c.And(e.c.Sle(lo, v), e.c.Sle(v, hi)))
		return v, true
	})
	zz("BigU", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		bits := int(e.concretize(st, e.term(st, a[1])))
		v := e.ndVar(st, bits, e.cstr(st, a[0]), "big")
		el := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		id := e.alloc(st, el, e.trimBig(e.c.ZExt(v, bits+1)), "BigU")
		return Ptr{obj: id}, true
	})
	zz("BigS", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		bits := int(e.concretize(st, e.term(st, a[1])))
		nm := e.cstr(st, a[0])
		v := e.ndVar(st, bits, nm, "big")
		s := e.ndVar(st, 0, nm, "bool")
		x := e.c.ZExt(v, bits+1)
		el := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		id := e.alloc(st, el, e.trimBig(e.c.Ite(s, e.c.Neg(x), x)), "BigS")
		return Ptr{obj: id}, true
	})
	zz("Assume", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		e.assume(st, e.term(st, a[0]))
		return nil, true
	})
	zz("Assert", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		e.assertCond(st, e.term(st, a[0]), e.cstr(st, a[1]))
		return nil, true
	})
	zz("AssertMod", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		m := e.bigAt(st, a[2])
		if !m.IsConst() {
			e.unsup("symbolic modulus")
		}
		e.assertInt(st, e.bigAt(st, a[0]), e.bigAt(st, a[1]), m.SBig(), e.cstr(st, a[3]))
		return nil, true
	})
	zz("Identical", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return e.c.Bool(e.identical(e.bigAt(st, a[0]), e.bigAt(st, a[1]))), true
	})
	zz("Monomial", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return e.c.Bool(e.monomial(e.bigAt(st, a[0]))), true
	})
	zz("AssertLess", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		e.assertInt(st, e.bigAt(st, a[0]), e.bigAt(st, a[1]), nil, e.cstr(st, a[2]))
		return nil, true
	})
	zz("LowBytes", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.bigAt(st, a[0])
		n := int(e.concretize(st, e.term(st, a[1])))
		return e.newBytes(st, e.bytesBE(e.c.SExt(x, max(x.w, 8*n)), n)), true
	})
	zz("Cover", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		nm := e.cstr(st, a[0])
		if e.Covers[nm] == 0 {
			if st.maybe {
				if v, _ := e.s.Decide(st.pc, e.c.True); v != Sat {
					return nil, true
				}
			}
			e.Covers[nm]++
		} else {
			e.Covers[nm]++
		}
		return nil, true
	})
	zz("Symbolic", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return e.c.True, true
	})
	zz("Bound", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		if e.tier == "thorough" {
			return a[1], true
		}
		return a[0], true
	})
	zz("Fresh", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		b := make([]*Term, int(int64(e.concretize(st, e.term(st, a[1])))))
		for i := range b {
			b[i] = e.ndVar(st, 8, e.cstr(st, a[0]), "fresh")
		}
		return e.newBytes(st, b), true
	})
	zz("Known", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		if e.term(st, a[0]) == e.c.True {
			return e.c.True, true
		}
		return e.c.False, true
	})
	zz("Concrete", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return e.i64(int64(e.concretize(st, e.term(st, a[0])))), true
	})
	zz("And", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return e.c.And(e.term(st, a[0]), e.term(st, a[1])), true
	})
	zz("Or", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return e.c.Or(e.term(st, a[0]), e.term(st, a[1])), true
	})
	zz("Implies", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return e.c.Implies(e.term(st, a[0]), e.term(st, a[1])), true
	})
	zz("IteInt", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return e.c.Ite(e.term(st, a[0]), e.term(st, a[1]), e.term(st, a[2])), true
	})
	obs := func(name string, f func(e *Engine, st *State, v Value) (kind string, ts []*Term)) {
		zz(name, func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			k, ts := f(e, st, a[1])
			st.obs = append(st.obs[:len(st.obs):len(st.obs)], obsRec{e.cstr(st, a[0]), k, ts})
			return nil, true
		})
	}
	obs("ObsBytes", func(e *Engine, st *State, v Value) (string, []*Term) { return "bytes", e.bytesOf(st, v) })
	obs("ObsStr", func(e *Engine, st *State, v Value) (string, []*Term) {
		if s, ok := e.resolve(st, v).(StrV); ok && s.opaque != "" {
			return "skip", nil
		}
		return "bytes", e.bytesOf(st, v)
	})
	obs("ObsInt", func(e *Engine, st *State, v Value) (string, []*Term) { return "int", []*Term{e.term(st, v)} })
	obs("ObsBool", func(e *Engine, st *State, v Value) (string, []*Term) { return "bool", []*Term{e.term(st, v)} })
	obs("ObsBig", func(e *Engine, st *State, v Value) (string, []*Term) { return "big", []*Term{e.bigAt(st, v)} })
	zz("Yield", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) { return nil, true })
	zz("Quiesce", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		if st.hb != nil {
			st.hb.joinAll(st.cur)
		}
		return nil, true
	})
	// UFBytes(name, outLen, args...) []byte
	zz("UFBytes", func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		nm := e.cstr(st, a[0])
		n := int(e.concretize(st, e.term(st, a[1])))
		if n == 0 {
			return e.newBytes(st, nil), true
		}
		var ts []*Term
		for _, v := range e.sliceVals(st, a[2]) {
			b := e.bytesOf(st, v)
			nm += fmt.Sprintf("_%d", len(b))
			if len(b) > 0 {
				ts = append(ts, e.c.Concat(b...))
			}
		}
		nm += fmt.Sprintf("_out%d", n)
		if len(ts) == 0 {
			ts = append(ts, e.c.BV(1, 0))
		}
		u := e.c.UF(8*n, nm, ts...)
		e.ufNames[nm] = true
		return e.newBytes(st, e.bytesBE(u, n)), true
	})

	// fmt
	t["fmt.Errorf"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		f := e.resolve(st, a[0]).(StrV)
		var args []Value
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case forkOn, splitOn, concOn:
						panic(r)
					case unsupported:
						args = nil
					default:
						panic(r)
					}
				}
			}()
			args = e.sliceVals(st, a[1])
		}()
		// the text is not modelled; only %w is
		var wrapped Value
		if fs, ok := strConst(f); ok && strings.Contains(fs, "%w") {
			_, wrapped = e.formatNoFork(st, f, args)
		}
		fs, _ := strConst(f)
		return e.mkErr(st, StrV{n: e.i64(0), opaque: "errorf:" + fs}, wrapped), true
	}
	t["fmt.Sprintf"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		s, _ := e.format(st, e.resolve(st, a[0]).(StrV), e.sliceVals(st, a[1]))
		return s, true
	}
	t["fmt.Sprint"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return StrV{n: e.i64(0), opaque: "sprint"}, true
	}
	t["fmt.Sprintln"] = t["fmt.Sprint"]
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "(*log.Logger).Printf", "(*log.Logger).Println", "runtime.SetFinalizer", "runtime.KeepAlive", "runtime.GC", "(*testing.common).Helper",
		"github.com/ethereum/go-ethereum/log.Trace", "github.com/ethereum/go-ethereum/log.Debug", "github.com/ethereum/go-ethereum/log.Info", "github.com/ethereum/go-ethereum/log.Warn", "github.com/ethereum/go-ethereum/log.Error",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable", "internal/race.ReadRange", "internal/race.WriteRange"} {
		t[n] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			if fn.Signature.Results().Len() == 0 {
				return nil, true
			}
			return e.zero(resType(fn)), true
		}
	}
	// assembly leaf functions with direct term models
	eqb := func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := e.resolve(st, a[0]), e.resolve(st, a[1])
		sx, sy := x.(SliceV), y.(SliceV)
		if !e.branch(st, e.c.Eq(sx.len, sy.len)) {
			return e.c.False, true
		}
		bx, by := e.bytesOf(st, sx), e.bytesOf(st, sy)
		if len(bx) != len(by) {
			return e.c.False, true
		}
		g := make([]*Term, len(bx))
		for i := range bx {
			g[i] = e.c.Eq(bx[i], by[i])
		}
		return e.c.And(g...), true
	}
	t["bytes.Equal"] = eqb
	zz("EqBytes", eqb)
	t["internal/bytealg.Equal"] = eqb
	t["crypto/subtle.ConstantTimeCompare"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		v, _ := eqb(e, st, fn, a)
		return e.c.BoolToBV(v.(*Term), 64), true
	}
	t["crypto/internal/fips140/subtle.ConstantTimeCompare"] = t["crypto/subtle.ConstantTimeCompare"]
	t["crypto/hmac.Equal"] = eqb
	// keccak permutation: uninterpreted, evaluated when constant
	t["github.com/philhofer/seth/keccak.keccakF1600"] = keccakIntr
	t["golang.org/x/crypto/sha3.keccakF1600"] = keccakIntr
	t["github.com/philhofer/seth/zzsym.KeccakF"] = keccakIntr

	// sync
	lockOp := func(name string, f func(e *Engine, st *State, l *LockSt)) {
		t[name] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			e.hbSync(st, a[0])
			f(e, st, e.lock(st, a[0]))
			return nil, true
		}
	}
	fatal := func(e *Engine, msg string) { panic(goPanic{msg: msg, runtime: true}) }
	lockOp("(*sync.Mutex).Lock", func(e *Engine, st *State, l *LockSt) {
		if l.w {
			e.unsup("lock granted while held")
		}
		l.w = true
	})
	lockOp("(*sync.Mutex).Unlock", func(e *Engine, st *State, l *LockSt) {
		if !l.w {
			fatal(e, "unlock of unlocked mutex")
		}
		l.w = false
	})
	t["(*sync.Mutex).TryLock"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		l := e.lock(st, a[0])
		e.hbSync(st, a[0])
		if l.w {
			return e.c.False, true
		}
		l.w = true
		return e.c.True, true
	}
	lockOp("(*sync.RWMutex).Lock", func(e *Engine, st *State, l *LockSt) { l.w = true })
	lockOp("(*sync.RWMutex).Unlock", func(e *Engine, st *State, l *LockSt) {
		if !l.w {
			fatal(e, "unlock of unlocked mutex")
		}
		l.w = false
	})
	lockOp("(*sync.RWMutex).RLock", func(e *Engine, st *State, l *LockSt) { l.readers++ })
	lockOp("(*sync.RWMutex).RUnlock", func(e *Engine, st *State, l *LockSt) {
		if l.readers == 0 {
			fatal(e, "unlock of unlocked mutex")
		}
		l.readers--
	})
	t["(*sync.WaitGroup).Add"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		e.hbSync(st, a[0])
		l := e.lock(st, a[0])
		l.cnt += int64(e.concretize(st, e.term(st, a[1])))
		if l.cnt < 0 {
			fatal(e, "negative WaitGroup counter")
		}
		return nil, true
	}
	lockOp("(*sync.WaitGroup).Done", func(e *Engine, st *State, l *LockSt) {
		l.cnt--
		if l.cnt < 0 {
			fatal(e, "negative WaitGroup counter")
		}
	})
	lockOp("(*sync.WaitGroup).Wait", func(e *Engine, st *State, l *LockSt) {})
	t["(*sync.Cond).Wait"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		th := st.thr()
		lk := e.lock(st, e.condL(st, a[0]))
		if th.opKey == 0 {
			// phase 1: release and park
			if !lk.w {
				fatal(e, "unlock of unlocked mutex")
			}
			lk.w = false
			l := e.lock(st, a[0])
			l.waiters = append(l.waiters, th.id)
			th.opKey = 1
			th.grant = false
			panic(parkOp{})
		}
		th.opKey = 0
		lk.w = true
		return nil, true
	}
	lockOp("(*sync.Cond).Signal", func(e *Engine, st *State, l *LockSt) {
		if len(l.waiters) > 0 {
			l.waiters = append([]int{}, l.waiters[1:]...)
		}
	})
	lockOp("(*sync.Cond).Broadcast", func(e *Engine, st *State, l *LockSt) { l.waiters = nil })
	t["(*sync.copyChecker).check"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) { return nil, true }
	t["(*sync.Once).Do"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		l := e.lock(st, a[0])
		if l.once {
			return nil, true
		}
		l.once = true
		fv := e.resolve(st, a[1]).(FuncV)
		if fv.fn == nil {
			e.nilDeref()
		}
		return e.pushClosure(st, fv, nil), true
	}
	t["(*sync.Pool).Put"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) { return nil, true }
	t["(*sync.Pool).Get"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		p := e.ptr(st, a[0])
		ag := e.load(st, p).(*Agg)
		for _, x := range ag.elems {
			if fv, ok := x.(FuncV); ok {
				if fv.fn == nil {
					return IfaceV{}, true
				}
				return e.pushClosure(st, fv, nil), true
			}
		}
		return IfaceV{}, true
	}
	t["time.Sleep"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) { return nil, true }
	t["runtime.Gosched"] = t["time.Sleep"]
	// atomics
	for _, w := range []struct {
		n string
	}{{"Int32"}, {"Int64"}, {"Uint32"}, {"Uint64"}, {"Uintptr"}, {"Pointer"}} {
		t["sync/atomic.Load"+w.n] = atomicOp(func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			return e.load(st, e.ptr(st, a[0])), true
		})
		t["sync/atomic.Store"+w.n] = atomicOp(func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			e.store(st, e.ptr(st, a[0]), a[1])
			return nil, true
		})
		t["sync/atomic.Swap"+w.n] = atomicOp(func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			o := e.load(st, e.ptr(st, a[0]))
			e.store(st, e.ptr(st, a[0]), a[1])
			return o, true
		})
		t["sync/atomic.Add"+w.n] = atomicOp(func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			p := e.ptr(st, a[0])
			v := e.c.Add(e.term(st, e.load(st, p)), e.term(st, a[1]))
			e.store(st, p, v)
			return v, true
		})
		t["sync/atomic.CompareAndSwap"+w.n] = atomicOp(func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			p := e.ptr(st, a[0])
			eq := e.equal(st, fn.Signature.Params().At(1).Type(), e.load(st, p), a[1])
			if e.branch(st, eq) {
				e.store(st, p, a[2])
				return e.c.True, true
			}
			return e.c.False, true
		})
	}
	// randomness: arbitrary bytes (not part of the recorded inputs)
	rnd := func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		s := e.resolve(st, a[len(a)-1]).(SliceV)
		n := int(e.concretize(st, s.len))
		vs := make([]Value, n)
		for i := range vs {
			vs[i] = e.c.FreshVar(8, "rand")
		}
		e.writeSlice(st, s, 0, vs)
		return Tuple{e.i64(int64(n)), IfaceV{}}, true
	}
	t["crypto/rand.Read"] = rnd
	// math/bits via terms
	bitsLen := func(w int) intrinsic {
		return func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			return e.bitLen(st, e.term(st, a[0])), true
		}
	}
	t["math/bits.Len"], t["math/bits.Len64"], t["math/bits.Len32"], t["math/bits.Len16"], t["math/bits.Len8"] = bitsLen(64), bitsLen(64), bitsLen(32), bitsLen(16), bitsLen(8)
	tz := func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := e.term(st, a[0])
		r := e.i64(int64(x.w))
		for i := x.w - 1; i >= 0; i-- {
			r = e.c.Ite(e.c.Eq(e.c.Extract(x, i, i), e.c.BV(1, 1)), e.i64(int64(i)), r)
		}
		return r, true
	}
	for _, n := range []string{"", "64", "32", "16", "8"} {
		t["math/bits.TrailingZeros"+n] = tz
	}
	t["math/bits.Mul64"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := e.c.ZExt(e.term(st, a[0]), 128), e.c.ZExt(e.term(st, a[1]), 128)
		p := e.c.Mul(x, y)
		return Tuple{e.c.Extract(p, 127, 64), e.c.Extract(p, 63, 0)}, true
	}
	// process exit: the path ends here
	ex := func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		if r := e.zzFn("exited"); r != nil {
			return e.pushCall(st, r, nil), true
		}
		panic(killPath{})
	}
	// the precomputed table is data no harness evaluates; decoding it at
	// initialisation is skipped
	t[modPath+"/ec.loadS256BytePoints"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return e.nilErr(), true
	}
	for _, n := range []string{"os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln"} {
		t[n] = ex
	}
	jsonIntrinsics(t)
	for _, f := range extraIntrinsics {
		f(t)
	}
	return t
}

func (e *Engine) formatNoFork(st *State, f StrV, args []Value) (StrV, Value) {
	fs, _ := strConst(f)
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			continue
		}
		i++
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) || fs[i] == '%' {
			continue
		}
		if fs[i] == 'w' && ai < len(args) {
			return f, e.resolve(st, args[ai])
		}
		ai++
	}
	return f, nil
}

func (e *Engine) zzFn(name string) *ssa.Function {
	if e.zz == nil {
		return nil
	}
	return e.zz.Func(name)
}

// pushClosure pushes a frame for fv; its result becomes the call's result.
func (e *Engine) pushClosure(st *State, fv FuncV, args []Value) Value {
	v := e.pushCall(st, fv.fn, args)
	f := st.top()
	for i := range fv.binds {
		f.regs[len(args)+i] = fv.binds[i]
	}
	f.binds = fv.binds
	return v
}

func (e *Engine) prim(st *State, fv FuncV, args []Value) Value {
	e.unsup("primitive %s", fv.prim)
	return nil
}

type obsRec struct {
	name string
	kind string
	ts   []*Term
}

// initRedirects wires functions implemented outside Go to Go models.
func (e *Engine) initRedirects() {
	e.zz = e.pkgs["github.com/philhofer/seth/zzsym"]
	if e.zz == nil {
		return
	}
	e.zz.Build()
	if o := e.zz.Pkg.Scope().Lookup("RuntimeError"); o != nil {
		e.typeRT = types.NewPointer(o.Type())
	}
	if o := e.zz.Pkg.Scope().Lookup("OpaqueError"); o != nil {
		e.typeOE = types.NewPointer(o.Type())
	}
	for from, to := range map[string]string{
		"internal/bytealg.IndexByte":                "IndexByte",
		"internal/bytealg.IndexByteString":          "IndexByteString",
		"internal/bytealg.LastIndexByteString":      "LastIndexByteString",
		"internal/bytealg.CountString":              "CountString",
		"internal/bytealg.Count":                    "Count",
		"internal/bytealg.IndexString":              "IndexString",
		"internal/bytealg.Index":                    "Index",
		"internal/bytealg.Compare":                  "Compare",
		"internal/bytealg.CompareString":            "CompareString",
		"bytes.IndexByte":                           "IndexByte",
		"strings.IndexByte":                         "IndexByteString",
		"bytes.Compare":                             "Compare",
		"strings.Index":                             "IndexString",
		"bytes.Index":                               "Index",
		"internal/bytealg.MakeNoZero":               "MakeNoZero",
		"github.com/tinylib/msgp/msgp.UnsafeString": "UnsafeString",
		"github.com/tinylib/msgp/msgp.UnsafeBytes":  "UnsafeBytes",
		"strings.Count":                             "",
	} {
		if to == "" {
			continue
		}
		if f := e.zz.Func(to); f != nil {
			e.redirect[from] = f
		}
	}
	e.modelRedirects(e.zz, nil)
}

// modelRedirects: a model is a function of zzsym or of a harness's package
// named Model__pkg__Func or Model__pkg__Type__Method (PType for a pointer
// receiver, P0type for one to an unexported type; "seth" stands for the module). Model_tag__... applies only to
// harnesses with models=tag.
func (e *Engine) modelRedirects(p *ssa.Package, tags map[string]bool) {
	for _, m := range p.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(f.Name(), "Model_") {
			continue
		}
		parts := strings.Split(f.Name()[len("Model"):], "__")
		if len(parts) < 3 {
			continue
		}
		tag := parts[0]
		if tag != "" && !tags[strings.TrimPrefix(tag, "_")] {
			continue
		}
		parts = parts[1:]
		pkg := strings.ReplaceAll(parts[0], "_", "/")
		if pkg == "seth" || strings.HasPrefix(pkg, "seth/") {
			pkg = modPath + pkg[4:]
		}
		if strings.HasPrefix(pkg, "xcrypto/") {
			pkg = "golang.org/x/crypto" + pkg[7:]
		}
		if strings.HasPrefix(pkg, "geth/") {
			pkg = "github.com/ethereum/go-ethereum" + pkg[4:]
		}
		var name string
		switch len(parts) {
		case 2:
			name = pkg + "." + parts[1]
		case 3:
			if strings.HasPrefix(parts[1], "P") && len(parts[1]) > 1 && parts[1][1] >= 'A' && parts[1][1] <= 'Z' {
				name = "(*" + pkg + "." + parts[1][1:] + ")." + parts[2]
			} else if strings.HasPrefix(parts[1], "P0") {
				name = "(*" + pkg + "." + parts[1][2:] + ")." + parts[2]
			} else {
				name = "(" + pkg + "." + parts[1] + ")." + parts[2]
			}
		default:
			continue
		}
		e.redirect[name] = f
		if tag != "" {
			e.forced[name] = true
		}
	}
}
