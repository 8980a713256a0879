package main

import (
	"fmt"
	"math/big"
	"math/bits"
)

// Terms are hash-consed bit-vector / boolean expressions. Width 0 = Bool.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool n-ary
	OOr  // bool n-ary
	OIte // bool or bv
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd // n-ary
	OMul // binary
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLShr
	OAShr
	OConcat // n-ary, msb first
	OExtract
	OSExt
	OUF
)

var opNames = [...]string{"const", "var", "not", "and", "or", "ite", "=", "bvult", "bvule", "bvslt", "bvsle",
	"bvadd", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvshl", "bvlshr", "bvashr", "concat", "extract", "sext", "uf"}

type Term struct {
	id     int32
	op     Op
	w      int // 0 = bool
	args   []*Term
	val    uint64   // const value when w<=64 (bool: 0/1)
	big    *big.Int // const value when w>64
	name   string   // var / UF
	hi, lo int      // extract
	hash   uint64
	rngOK  bool
	umin   uint64
	umax   uint64
	hasUF  bool
	size   int32
}

type Ctx struct {
	tab    map[uint64][]*Term
	n      int32
	True   *Term
	False  *Term
	byID   []*Term
	varSeq map[string]int
	cmps   map[*Term]cmpInfo // three-way comparison results
	wide   bool              // sums and products are not narrowed to the bits asked for
}

type cmpInfo struct{ lt, eq, gt *Term }

// Cmp3 is -1, 0 or 1.
func (c *Ctx) Cmp3(w int, lt, eq, gt *Term) *Term {
	r := c.Ite(lt, c.Not1(w), c.Ite(eq, c.BV(w, 0), c.BV(w, 1)))
	if r.op == OIte {
		c.cmps[r] = cmpInfo{lt, eq, gt}
	}
	return r
}

// Not1 is -1 at width w.
func (c *Ctx) Not1(w int) *Term {
	return c.BVBig(w, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1)))
}

func (c *Ctx) cmpTest(a, b *Term) (ci cmpInfo, k int, ok bool) {
	if a.op != OIte || b.op != OConst {
		return
	}
	if ci, ok = c.cmps[a]; !ok {
		return
	}
	v := b.SBig()
	if !v.IsInt64() || v.Int64() < -1 || v.Int64() > 1 {
		return ci, 0, false
	}
	return ci, int(v.Int64()), true
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[uint64][]*Term{}, varSeq: map[string]int{}, cmps: map[*Term]cmpInfo{}}
	c.True = c.intern(&Term{op: OConst, w: 0, val: 1})
	c.False = c.intern(&Term{op: OConst, w: 0, val: 0})
	return c
}

func mix(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	return bits.RotateLeft64(h, 29)
}

func (c *Ctx) intern(t *Term) *Term {
	h := mix(uint64(t.op)+17, uint64(t.w))
	for _, a := range t.args {
		h = mix(h, uint64(a.id)+1)
	}
	h = mix(h, t.val)
	if t.big != nil {
		for _, wd := range t.big.Bits() {
			h = mix(h, uint64(wd))
		}
	}
	for i := 0; i < len(t.name); i++ {
		h = mix(h, uint64(t.name[i]))
	}
	h = mix(h, uint64(t.hi)<<20|uint64(t.lo))
	t.hash = h
outer:
	for _, o := range c.tab[h] {
		if o.op != t.op || o.w != t.w || len(o.args) != len(t.args) || o.val != t.val || o.name != t.name || o.hi != t.hi || o.lo != t.lo {
			continue
		}
		for i := range t.args {
			if o.args[i] != t.args[i] {
				continue outer
			}
		}
		if (o.big == nil) != (t.big == nil) || (o.big != nil && o.big.Cmp(t.big) != 0) {
			continue
		}
		return o
	}
	t.id = c.n
	c.n++
	sz := int64(1)
	for _, a := range t.args {
		if a.hasUF {
			t.hasUF = true
		}
		sz += int64(a.size)
	}
	if sz > 1<<30 {
		sz = 1 << 30
	}
	t.size = int32(sz)
	if t.op == OUF {
		t.hasUF = true
	}
	c.tab[h] = append(c.tab[h], t)
	c.byID = append(c.byID, t)
	return t
}

func maskU(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func maskB(w int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return m.Sub(m, big.NewInt(1))
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) Big() *big.Int {
	if t.big != nil {
		return t.big
	}
	return new(big.Int).SetUint64(t.val)
}

// SBig is the signed value of a constant.
func (t *Term) SBig() *big.Int {
	v := new(big.Int).Set(t.Big())
	if t.w > 0 && v.Bit(t.w-1) == 1 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(t.w)))
	}
	return v
}

func (t *Term) S64() int64 {
	if t.w >= 64 {
		return int64(t.val)
	}
	sh := uint(64 - t.w)
	return int64(t.val<<sh) >> sh
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) BV(w int, v uint64) *Term {
	if w == 0 {
		return c.Bool(v&1 == 1)
	}
	if w > 64 {
		return c.BVBig(w, new(big.Int).SetUint64(v))
	}
	return c.intern(&Term{op: OConst, w: w, val: v & maskU(w)})
}

func (c *Ctx) BVInt(w int, v int64) *Term {
	if w > 64 {
		return c.BVBig(w, big.NewInt(v))
	}
	return c.BV(w, uint64(v))
}

func (c *Ctx) BVBig(w int, v *big.Int) *Term {
	if v.Sign() < 0 || v.BitLen() > w {
		v = new(big.Int).And(v, maskB(w))
	}
	if w <= 64 {
		return c.BV(w, v.Uint64())
	}
	return c.intern(&Term{op: OConst, w: w, big: v})
}

func (c *Ctx) Var(w int, name string) *Term {
	return c.intern(&Term{op: OVar, w: w, name: name})
}

// FreshVar returns a variable whose name is unique in this context.
func (c *Ctx) FreshVar(w int, name string) *Term {
	n := c.varSeq[name]
	c.varSeq[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return c.Var(w, name)
}

func (c *Ctx) UF(w int, name string, args ...*Term) *Term {
	return c.intern(&Term{op: OUF, w: w, name: name, args: args})
}

func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }
func (t *Term) isZero() bool {
	if t.op != OConst {
		return false
	}
	if t.big != nil {
		return t.big.Sign() == 0
	}
	return t.val == 0
}
func (t *Term) isOnes() bool {
	if t.op != OConst || t.w == 0 {
		return false
	}
	if t.big != nil {
		return t.big.Cmp(maskB(t.w)) == 0
	}
	return t.val == maskU(t.w)
}

// ---- bool ----

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.val == 0)
	case ONot:
		return a.args[0]
	case OUlt:
		return c.Ule(a.args[1], a.args[0])
	case OUle:
		return c.Ult(a.args[1], a.args[0])
	case OSlt:
		return c.Sle(a.args[1], a.args[0])
	case OSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.intern(&Term{op: ONot, args: []*Term{a}})
}

func (c *Ctx) nary(op Op, unit, zero *Term, in []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range in {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	// absorption: a and (a or b) = a ; a and (!a or b) = a and b
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	changed := false
	for i, t := range out {
		if t.op != dual {
			continue
		}
		var keep []*Term
		drop := false
		for _, a := range t.args {
			if seen[a] {
				drop = true
				break
			}
			if seen[c.Not(a)] {
				continue
			}
			keep = append(keep, a)
		}
		if drop {
			out[i] = unit
			changed = true
		} else if len(keep) != len(t.args) {
			if dual == OOr {
				out[i] = c.Or(keep...)
			} else {
				out[i] = c.And(keep...)
			}
			changed = true
		}
	}
	if changed {
		return c.nary(op, unit, zero, out)
	}
	sortTerms(out)
	return c.intern(&Term{op: op, args: out})
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

func (c *Ctx) And(a ...*Term) *Term {
	if len(a) == 2 {
		if a[0] == c.True {
			return a[1]
		}
		if a[1] == c.True {
			return a[0]
		}
	}
	return c.nary(OAnd, c.True, c.False, a)
}
func (c *Ctx) Or(a ...*Term) *Term      { return c.nary(OOr, c.False, c.True, a) }
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("ite width %d %d", a.w, b.w))
	}
	if g.isTrue() || a == b {
		return a
	}
	if g.isFalse() {
		return b
	}
	if g.op == ONot {
		return c.Ite(g.args[0], b, a)
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return g
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(g)
		}
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if a.op == OIte {
		if a.args[0] == g {
			return c.Ite(g, a.args[1], b)
		}
		if a.args[2] == b { // ite(g, ite(h,x,y), y) = ite(g&h, x, y)
			return c.Ite(c.And(g, a.args[0]), a.args[1], b)
		}
		if a.args[1] == b { // ite(g, ite(h,x,y), x) = ite(g & !h, y, x)
			return c.Ite(c.And(g, c.Not(a.args[0])), a.args[2], b)
		}
	}
	if b.op == OIte {
		if b.args[0] == g {
			return c.Ite(g, a, b.args[2])
		}
		if b.args[1] == a { // ite(g, x, ite(h, x, y)) = ite(g|h, x, y)
			return c.Ite(c.Or(g, b.args[0]), a, b.args[2])
		}
		if b.args[2] == a {
			return c.Ite(c.Or(g, c.Not(b.args[0])), a, b.args[1])
		}
	}
	// common concat structure
	if a.w > 0 && (a.op == OConcat || b.op == OConcat) {
		if r := c.zipSegs(a, b, func(x, y *Term) *Term {
			if x == y {
				return x
			}
			return nil
		}, func(x, y *Term) *Term {
			return c.intern(&Term{op: OIte, w: x.w, args: []*Term{g, x, y}})
		}); r != nil {
			return r
		}
	}
	return c.intern(&Term{op: OIte, w: a.w, args: []*Term{g, a, b}})
}

// segs splits t into concat segments (msb first).
func segs(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

// zipSegs combines a and b segment by segment. f returns nil when a segment
// pair does not simplify; if nothing simplifies, nil is returned; otherwise
// g builds the remaining segments.
func (c *Ctx) zipSegs(a, b *Term, f, g func(x, y *Term) *Term) *Term {
	sa, sb := segs(a), segs(b)
	if len(sa) == 1 && len(sb) == 1 {
		return nil
	}
	type pair struct{ x, y *Term }
	var pairs []pair
	ia, ib := 0, 0
	ra, rb := sa[0].w, sb[0].w // remaining (low) bits of the current segs
	for ia < len(sa) && ib < len(sb) {
		n := ra
		if rb < n {
			n = rb
		}
		pairs = append(pairs, pair{c.Extract(sa[ia], ra-1, ra-n), c.Extract(sb[ib], rb-1, rb-n)})
		ra -= n
		rb -= n
		if ra == 0 {
			ia++
			if ia < len(sa) {
				ra = sa[ia].w
			}
		}
		if rb == 0 {
			ib++
			if ib < len(sb) {
				rb = sb[ib].w
			}
		}
	}
	res := make([]*Term, len(pairs))
	any := false
	for i, p := range pairs {
		if r := f(p.x, p.y); r != nil {
			res[i] = r
			any = true
		}
	}
	if !any {
		return nil
	}
	// group adjacent unsimplified segments
	for i, p := range pairs {
		if res[i] == nil {
			res[i] = g(p.x, p.y)
		}
	}
	return c.Concat(res...)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d (%s, %s)", a.w, b.w, opNames[a.op], opNames[b.op]))
	}
	for i := 0; i < 2; i++ {
		if ci, k, ok := c.cmpTest(a, b); ok {
			return [3]*Term{ci.lt, ci.eq, ci.gt}[k+1]
		}
		a, b = b, a
	}
	if a.op == OConst && b.op == OConst {
		return c.False // hash-consed, distinct
	}
	if a.w == 0 {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	} else {
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			switch a.op {
			case OIte:
				x, y := a.args[1], a.args[2]
				if x.op == OConst || y.op == OConst || (b.op == OConst && a.size < 400) {
					return c.Ite(a.args[0], c.Eq(x, b), c.Eq(y, b))
				}
			case OBNot:
				return c.Eq(a.args[0], c.BNot(b))
			case OBXor:
				if a.args[0].op == OConst {
					return c.Eq(a.args[1], c.BXor(a.args[0], b))
				}
			case OAdd:
				if a.args[0].op == OConst {
					return c.Eq(c.Add(a.args[1:]...), c.Sub(b, a.args[0]))
				}
			case OSExt:
				in := a.args[0]
				low := c.Extract(b, in.w-1, 0)
				if c.SExt(low, a.w) == b {
					return c.Eq(in, low)
				}
				return c.False
			}
			if a.w <= 64 && a.op != OConst {
				lo, hi := c.Range(a)
				if b.val < lo || b.val > hi {
					return c.False
				}
			}
		}
		if a.op == OConcat || b.op == OConcat {
			sa, sb := segs(a), segs(b)
			// split the equality over segments
			var conj []*Term
			ia, ib := 0, 0
			ra, rb := sa[0].w, sb[0].w
			for ia < len(sa) && ib < len(sb) {
				n := ra
				if rb < n {
					n = rb
				}
				e := c.Eq(c.Extract(sa[ia], ra-1, ra-n), c.Extract(sb[ib], rb-1, rb-n))
				if e.isFalse() {
					return e
				}
				conj = append(conj, e)
				ra -= n
				rb -= n
				if ra == 0 {
					ia++
					if ia < len(sa) {
						ra = sa[ia].w
					}
				}
				if rb == 0 {
					ib++
					if ib < len(sb) {
						rb = sb[ib].w
					}
				}
			}
			return c.And(conj...)
		}
		if a.op == OAdd || b.op == OAdd {
			// cancel common addends
			d := c.Sub(a, b)
			if d.op == OConst {
				return c.Bool(d.isZero())
			}
		}
		if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
			return c.Ite(a.args[0], c.Eq(a.args[1], b.args[1]), c.Eq(a.args[2], b.args[2]))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(&Term{op: OEq, args: []*Term{a, b}})
}

func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

// Range gives unsigned bounds for terms of width 1..64.
func (c *Ctx) Range(t *Term) (uint64, uint64) {
	if t.w == 0 || t.w > 64 {
		return 0, ^uint64(0)
	}
	if t.op == OConst {
		return t.val, t.val
	}
	if t.rngOK {
		return t.umin, t.umax
	}
	lo, hi := uint64(0), maskU(t.w)
	m := maskU(t.w)
	switch t.op {
	case OIte:
		l1, h1 := c.Range(t.args[1])
		l2, h2 := c.Range(t.args[2])
		lo, hi = min(l1, l2), max(h1, h2)
	case OConcat:
		lo, hi = 0, 0
		for _, a := range t.args {
			l, h := c.Range(a)
			lo = lo<<uint(a.w) | l
			hi = hi<<uint(a.w) | h
		}
	case OExtract:
		if t.lo == 0 && t.args[0].w <= 64 {
			l, h := c.Range(t.args[0])
			if h <= m {
				lo, hi = l, h
			}
		} else if t.args[0].w <= 64 {
			_, h := c.Range(t.args[0])
			if t.hi == t.args[0].w-1 {
				l, h2 := c.Range(t.args[0])
				lo, hi = l>>uint(t.lo), h2>>uint(t.lo)
			} else if h>>uint(t.lo) <= m {
				hi = h >> uint(t.lo)
			}
		}
	case OAdd:
		l, h, ok := uint64(0), uint64(0), true
		nb := 0
		var negc *Term
		for _, a := range t.args {
			al, ah := c.Range(a)
			if a.op == OConst && a.val > m/2 {
				negc = a
				continue
			}
			var cy uint64
			h, cy = bits.Add64(h, ah, 0)
			l += al
			nb++
			if cy != 0 || h > m {
				ok = false
			}
		}
		if ok && negc != nil {
			neg := (-negc.val) & m
			if l >= neg {
				l -= neg
				h -= neg
			} else {
				ok = false
			}
		}
		if ok {
			lo, hi = l, h
		}
	case OMul:
		l1, h1 := c.Range(t.args[0])
		l2, h2 := c.Range(t.args[1])
		hh, hl := bits.Mul64(h1, h2)
		if hh == 0 && hl <= m {
			lo, hi = l1*l2, hl
		}
	case OUDiv:
		l1, h1 := c.Range(t.args[0])
		l2, h2 := c.Range(t.args[1])
		if l2 > 0 {
			lo, hi = l1/h2, h1/l2
		}
	case OURem:
		_, h1 := c.Range(t.args[0])
		l2, h2 := c.Range(t.args[1])
		hi = h1
		if l2 > 0 && h2-1 < hi {
			hi = h2 - 1
		}
	case OBAnd:
		hi = m
		for _, a := range t.args {
			_, h := c.Range(a)
			hi = min(hi, h)
		}
	case OBOr, OBXor:
		var o uint64
		for _, a := range t.args {
			_, h := c.Range(a)
			o |= h
		}
		hi = maskU(bits.Len64(o))
		if t.op == OBOr {
			for _, a := range t.args {
				l, _ := c.Range(a)
				lo = max(lo, l)
			}
		}
	case OLShr:
		_, h := c.Range(t.args[0])
		l2, _ := c.Range(t.args[1])
		if l2 < 64 {
			hi = h >> l2
		} else {
			hi = 0
		}
	case OShl:
		_, h := c.Range(t.args[0])
		_, h2 := c.Range(t.args[1])
		if h2 < 64 && bits.Len64(h)+int(h2) <= t.w {
			hi = h << h2
		}
	case OSExt:
		_, h := c.Range(t.args[0])
		if h <= maskU(t.args[0].w)/2 {
			l, _ := c.Range(t.args[0])
			lo, hi = l, h
		}
	}
	t.rngOK, t.umin, t.umax = true, lo, hi
	return lo, hi
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.Big().Cmp(b.Big()) < 0)
	}
	if b.isZero() {
		return c.False
	}
	if a.w <= 64 {
		l1, h1 := c.Range(a)
		l2, h2 := c.Range(b)
		if h1 < l2 {
			return c.True
		}
		if l1 >= h2 {
			return c.False
		}
		if b.op == OConst && b.val == 1 {
			return c.Eq(a, c.BV(a.w, 0))
		}
		if a.op == OConst && a.val == maskU(a.w)-1 {
			return c.Eq(b, c.BV(a.w, maskU(a.w)))
		}
	}
	if r := c.cmpShrink(a, b, c.Ult); r != nil {
		return r
	}
	if r := c.cmpIte(a, b, c.Ult); r != nil {
		return r
	}
	return c.intern(&Term{op: OUlt, args: []*Term{a, b}})
}

// distribute comparison with a constant over ite with constant leaves
func (c *Ctx) cmpIte(a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.op == OIte && b.op == OConst && (a.args[1].op == OConst || a.args[2].op == OConst) && a.size < 400 {
		return c.Ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
	}
	if b.op == OIte && a.op == OConst && (b.args[1].op == OConst || b.args[2].op == OConst) && b.size < 400 {
		return c.Ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
	}
	return nil
}

// strip common leading segments (zero-extended operands)
func (c *Ctx) cmpShrink(a, b *Term, f func(a, b *Term) *Term) *Term {
	lz := func(t *Term) int {
		if t.op == OConst {
			return t.w - t.Big().BitLen()
		}
		if t.op == OConcat && t.args[0].isZero() {
			return t.args[0].w
		}
		return 0
	}
	n := min(lz(a), lz(b))
	if n > 0 && n < a.w {
		return f(c.Extract(a, a.w-1-n, 0), c.Extract(b, b.w-1-n, 0))
	}
	return nil
}

func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.Big().Cmp(b.Big()) <= 0)
	}
	if a.isZero() || b.isOnes() {
		return c.True
	}
	if a.w <= 64 {
		l1, h1 := c.Range(a)
		l2, h2 := c.Range(b)
		if h1 <= l2 {
			return c.True
		}
		if l1 > h2 {
			return c.False
		}
	}
	if b.isZero() {
		return c.Eq(a, b)
	}
	if r := c.cmpShrink(a, b, c.Ule); r != nil {
		return r
	}
	if r := c.cmpIte(a, b, c.Ule); r != nil {
		return r
	}
	return c.intern(&Term{op: OUle, args: []*Term{a, b}})
}

func (c *Ctx) signKnownNonneg(a *Term) bool {
	if a.op == OConst {
		return a.Big().Bit(a.w-1) == 0
	}
	if a.op == OConcat && a.args[0].isZero() {
		return true
	}
	if a.w <= 64 {
		_, h := c.Range(a)
		return h <= maskU(a.w)>>1
	}
	return false
}

func (c *Ctx) signKnownNeg(a *Term) bool {
	if a.op == OConst {
		return a.Big().Bit(a.w-1) == 1
	}
	if a.w <= 64 {
		l, _ := c.Range(a)
		return l > maskU(a.w)>>1
	}
	return false
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.SBig().Cmp(b.SBig()) < 0)
	}
	if ci, k, ok := c.cmpTest(a, b); ok { // a < k
		return [3]*Term{c.False, ci.lt, c.Not(ci.gt)}[k+1]
	}
	if ci, k, ok := c.cmpTest(b, a); ok { // k < b
		return [3]*Term{c.Not(ci.lt), ci.gt, c.False}[k+1]
	}
	an, bn := c.signKnownNonneg(a), c.signKnownNonneg(b)
	if an && bn {
		return c.Ult(a, b)
	}
	if c.signKnownNeg(a) && bn {
		return c.True
	}
	if an && c.signKnownNeg(b) {
		return c.False
	}
	if b.isZero() {
		return c.Eq(c.Extract(a, a.w-1, a.w-1), c.BV(1, 1))
	}
	if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
		return c.Slt(a.args[0], b.args[0])
	}
	if a.op == OSExt && b.op == OConst {
		in := a.args[0]
		low := c.Extract(b, in.w-1, 0)
		if c.SExt(low, a.w) == b {
			return c.Slt(in, low)
		}
	}
	if r := c.cmpIte(a, b, c.Slt); r != nil {
		return r
	}
	return c.intern(&Term{op: OSlt, args: []*Term{a, b}})
}

func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.SBig().Cmp(b.SBig()) <= 0)
	}
	if _, _, ok := c.cmpTest(a, b); ok {
		return c.Not(c.Slt(b, a))
	}
	if _, _, ok := c.cmpTest(b, a); ok {
		return c.Not(c.Slt(b, a))
	}
	an, bn := c.signKnownNonneg(a), c.signKnownNonneg(b)
	if an && bn {
		return c.Ule(a, b)
	}
	if c.signKnownNeg(a) && bn {
		return c.True
	}
	if an && c.signKnownNeg(b) {
		return c.False
	}
	if a.isZero() {
		return c.Eq(c.Extract(b, b.w-1, b.w-1), c.BV(1, 0))
	}
	if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
		return c.Sle(a.args[0], b.args[0])
	}
	if r := c.cmpIte(a, b, c.Sle); r != nil {
		return r
	}
	return c.intern(&Term{op: OSle, args: []*Term{a, b}})
}

// ---- arithmetic ----

func (c *Ctx) Add(in ...*Term) *Term {
	if len(in) == 1 {
		return in[0]
	}
	w := in[0].w
	coef := map[*Term]*big.Int{}
	var order []*Term
	k := new(big.Int)
	var add func(t *Term, m *big.Int)
	add = func(t *Term, m *big.Int) {
		if t.w != w {
			panic(fmt.Sprintf("add width %d %d", t.w, w))
		}
		switch {
		case t.op == OConst:
			k.Add(k, new(big.Int).Mul(m, t.Big()))
		case t.op == OAdd:
			for _, a := range t.args {
				add(a, m)
			}
		case t.op == OMul && t.args[0].op == OConst:
			add(t.args[1], new(big.Int).Mul(m, t.args[0].Big()))
		default:
			if o, ok := coef[t]; ok {
				coef[t] = new(big.Int).Add(o, m)
			} else {
				coef[t] = m
				order = append(order, t)
			}
		}
	}
	one := big.NewInt(1)
	for _, t := range in {
		add(t, one)
	}
	mk := maskB(w)
	k.And(k, mk)
	var out []*Term
	if k.Sign() != 0 {
		out = append(out, c.BVBig(w, new(big.Int).Set(k)))
	}
	var rest []*Term
	for _, t := range order {
		m := new(big.Int).And(coef[t], mk)
		if m.Sign() == 0 {
			continue
		}
		if m.Cmp(one) == 0 {
			rest = append(rest, t)
		} else {
			rest = append(rest, c.intern(&Term{op: OMul, w: w, args: []*Term{c.BVBig(w, m), t}}))
		}
	}
	sortTerms(rest)
	out = append(out, rest...)
	if len(out) == 0 {
		return c.BV(w, 0)
	}
	if len(out) == 1 {
		return out[0]
	}
	// ite with constant leaves + const
	if len(out) == 2 && out[0].op == OConst && out[1].op == OIte && out[1].args[1].op == OConst && out[1].args[2].op == OConst {
		return c.Ite(out[1].args[0], c.Add(out[0], out[1].args[1]), c.Add(out[0], out[1].args[2]))
	}
	// disjoint bits: addition of concats without carries = or
	if len(out) == 2 && (out[0].op == OConcat || out[1].op == OConcat) {
		ok := true
		r := c.zipSegs(out[0], out[1], func(x, y *Term) *Term {
			if x.isZero() {
				return y
			}
			if y.isZero() {
				return x
			}
			ok = false
			return nil
		}, func(x, y *Term) *Term { return x })
		if r != nil && ok {
			return r
		}
	}
	return c.intern(&Term{op: OAdd, w: w, args: out})
}

func (c *Ctx) Neg(a *Term) *Term    { return c.Mul(c.BVInt(a.w, -1), a) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.Add(a, c.Neg(b)) }

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.w != b.w {
		panic("mul width")
	}
	if b.op == OConst {
		a, b = b, a
	}
	if a.op == OConst {
		if b.op == OConst {
			return c.BVBig(a.w, new(big.Int).Mul(a.Big(), b.Big()))
		}
		if a.isZero() {
			return a
		}
		av := a.Big()
		if av.BitLen() == 1 && av.Bit(0) == 1 {
			return b
		}
		if b.op == OAdd {
			var out []*Term
			for _, t := range b.args {
				out = append(out, c.Mul(a, t))
			}
			return c.Add(out...)
		}
		if b.op == OMul && b.args[0].op == OConst {
			return c.Mul(c.Mul(a, b.args[0]), b.args[1])
		}
		if b.op == OIte && b.args[1].op == OConst && b.args[2].op == OConst {
			return c.Ite(b.args[0], c.Mul(a, b.args[1]), c.Mul(a, b.args[2]))
		}
		return c.intern(&Term{op: OMul, w: a.w, args: []*Term{a, b}})
	}
	if a.op == OMul && a.args[0].op == OConst {
		return c.Mul(a.args[0], c.Mul(a.args[1], b))
	}
	if b.op == OMul && b.args[0].op == OConst {
		return c.Mul(b.args[0], c.Mul(a, b.args[1]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(&Term{op: OMul, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	if b.op == OConst && !b.isZero() {
		if a.op == OConst {
			return c.BVBig(a.w, new(big.Int).Quo(a.Big(), b.Big()))
		}
		bv := b.Big()
		if bv.BitLen()-1 == int(bv.TrailingZeroBits()) {
			return c.LShr(a, c.BV(a.w, uint64(bv.BitLen()-1)))
		}
		if a.w <= 64 {
			l, h := c.Range(a)
			if l/b.val == h/b.val {
				return c.BV(a.w, l/b.val)
			}
		}
		if r := c.divShrink(a, b, c.UDiv); r != nil {
			return r
		}
	}
	return c.intern(&Term{op: OUDiv, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) leadZeros(a *Term) int {
	if a.op == OConst {
		return a.w - a.Big().BitLen()
	}
	if a.w <= 64 {
		_, h := c.Range(a)
		return a.w - bits.Len64(h)
	}
	if a.op == OConcat {
		n := 0
		for _, s := range a.args {
			z := c.leadZeros(s)
			n += z
			if z < s.w {
				break
			}
		}
		return n
	}
	if a.op == OIte {
		return min(c.leadZeros(a.args[1]), c.leadZeros(a.args[2]))
	}
	return 0
}

func (c *Ctx) divShrink(a, b *Term, f func(a, b *Term) *Term) *Term {
	n := min(c.leadZeros(a), c.leadZeros(b))
	if n > 0 && n < a.w {
		return c.ZExt(f(c.Extract(a, a.w-1-n, 0), c.Extract(b, b.w-1-n, 0)), a.w)
	}
	return nil
}

func (c *Ctx) URem(a, b *Term) *Term {
	if b.op == OConst && !b.isZero() {
		if a.op == OConst {
			return c.BVBig(a.w, new(big.Int).Rem(a.Big(), b.Big()))
		}
		bv := b.Big()
		if bv.BitLen()-1 == int(bv.TrailingZeroBits()) {
			n := bv.BitLen() - 1
			if n == 0 {
				return c.BV(a.w, 0)
			}
			return c.ZExt(c.Extract(a, n-1, 0), a.w)
		}
		if a.w <= 64 {
			_, h := c.Range(a)
			if h < b.val {
				return a
			}
		}
		if r := c.divShrink(a, b, c.URem); r != nil {
			return r
		}
	}
	return c.intern(&Term{op: OURem, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) SDiv(a, b *Term) *Term {
	if c.signKnownNonneg(a) && c.signKnownNonneg(b) {
		return c.UDiv(a, b)
	}
	if a.op == OConst && b.op == OConst && !b.isZero() {
		return c.BVBig(a.w, new(big.Int).Quo(a.SBig(), b.SBig()))
	}
	return c.intern(&Term{op: OSDiv, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) SRem(a, b *Term) *Term {
	if c.signKnownNonneg(a) && c.signKnownNonneg(b) {
		return c.URem(a, b)
	}
	if a.op == OConst && b.op == OConst && !b.isZero() {
		return c.BVBig(a.w, new(big.Int).Rem(a.SBig(), b.SBig()))
	}
	return c.intern(&Term{op: OSRem, w: a.w, args: []*Term{a, b}})
}

// ---- bitwise ----

func (c *Ctx) BNot(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.BVBig(a.w, new(big.Int).Xor(a.Big(), maskB(a.w)))
	case OBNot:
		return a.args[0]
	case OConcat:
		var out []*Term
		for _, s := range a.args {
			out = append(out, c.BNot(s))
		}
		return c.Concat(out...)
	case OIte:
		if a.args[1].op == OConst && a.args[2].op == OConst {
			return c.Ite(a.args[0], c.BNot(a.args[1]), c.BNot(a.args[2]))
		}
	}
	return c.intern(&Term{op: OBNot, w: a.w, args: []*Term{a}})
}

// constRuns splits a constant into runs of equal bits, as a concat-like list.
func (c *Ctx) constRuns(k *Term) []*Term {
	v := k.Big()
	var out []*Term
	i := k.w - 1
	for i >= 0 {
		b := v.Bit(i)
		j := i
		for j >= 0 && v.Bit(j) == b {
			j--
		}
		n := i - j
		if b == 0 {
			out = append(out, c.BV(n, 0))
		} else {
			out = append(out, c.BVBig(n, maskB(n)))
		}
		i = j
	}
	return out
}

// bitwise terms above this size are not split any further
const bigBitop = 3000

func (c *Ctx) bitop(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bitop width %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		r := new(big.Int)
		switch op {
		case OBAnd:
			r.And(a.Big(), b.Big())
		case OBOr:
			r.Or(a.Big(), b.Big())
		case OBXor:
			r.Xor(a.Big(), b.Big())
		}
		return c.BVBig(a.w, r)
	}
	if b.op == OConst {
		a, b = b, a
	}
	if a.op == OConst {
		if a.isZero() {
			if op == OBAnd {
				return a
			}
			return b
		}
		if a.isOnes() {
			switch op {
			case OBAnd:
				return b
			case OBOr:
				return a
			case OBXor:
				return c.BNot(b)
			}
		}
		if b.op == OIte && b.args[1].op == OConst && b.args[2].op == OConst {
			return c.Ite(b.args[0], c.bitop(op, a, b.args[1]), c.bitop(op, a, b.args[2]))
		}
		if b.op == op && b.args[0].op == OConst {
			return c.bitop(op, c.bitop(op, a, b.args[0]), b.args[1])
		}
		runs := c.constRuns(a)
		if len(runs) > 1 && (op != OBXor || b.op == OConcat) && (len(runs) <= 6 || b.op == OConcat) {
			pos := a.w
			var out []*Term
			for _, r := range runs {
				out = append(out, c.bitop(op, r, c.Extract(b, pos-1, pos-r.w)))
				pos -= r.w
			}
			return c.Concat(out...)
		}
	}
	if a == b {
		if op == OBXor {
			return c.BV(a.w, 0)
		}
		return a
	}
	if c.BNot(a) == b {
		switch op {
		case OBAnd:
			return c.BV(a.w, 0)
		default:
			return c.BVBig(a.w, maskB(a.w))
		}
	}
	if op == OBXor {
		// cancel
		if a.op == OBNot && b.op == OBNot {
			return c.bitop(op, a.args[0], b.args[0])
		}
		if a.op == OBNot {
			return c.BNot(c.bitop(op, a.args[0], b))
		}
		if b.op == OBNot {
			return c.BNot(c.bitop(op, a, b.args[0]))
		}
		var fl []*Term
		flat(op, a, &fl)
		flat(op, b, &fl)
		if len(fl) > 2 {
			cnt := map[*Term]int{}
			for _, t := range fl {
				cnt[t]++
			}
			var out []*Term
			for _, t := range fl {
				if cnt[t]%2 == 1 {
					out = append(out, t)
					cnt[t] = 0
				}
			}
			if len(out) == 0 {
				return c.BV(a.w, 0)
			}
			if len(out) < len(fl) {
				r := out[0]
				for _, t := range out[1:] {
					r = c.bitop(op, r, t)
				}
				return r
			}
			if !anyConcat(out) {
				sortTerms(out)
				return c.intern(&Term{op: op, w: a.w, args: out})
			}
		}
	}
	if (a.op == OConcat || b.op == OConcat) && a.size < bigBitop && b.size < bigBitop {
		if r := c.zipSegs(a, b, func(x, y *Term) *Term {
			if x.op == OConst || y.op == OConst || x == y {
				return c.bitop(op, x, y)
			}
			return nil
		}, func(x, y *Term) *Term { return c.bitop(op, x, y) }); r != nil {
			return r
		}
	}
	if op == OBXor {
		var fl []*Term
		flat(op, a, &fl)
		flat(op, b, &fl)
		sortTerms(fl)
		return c.intern(&Term{op: op, w: a.w, args: fl})
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(&Term{op: op, w: a.w, args: []*Term{a, b}})
}

func anyConcat(ts []*Term) bool {
	for _, t := range ts {
		if t.op == OConcat || t.op == OConst {
			return true
		}
	}
	return false
}

func flat(op Op, t *Term, out *[]*Term) {
	if t.op == op {
		for _, a := range t.args {
			flat(op, a, out)
		}
		return
	}
	*out = append(*out, t)
}

func (c *Ctx) BAnd(a, b *Term) *Term { return c.bitop(OBAnd, a, b) }
func (c *Ctx) BOr(a, b *Term) *Term  { return c.bitop(OBOr, a, b) }
func (c *Ctx) BXor(a, b *Term) *Term { return c.bitop(OBXor, a, b) }

// ---- shifts ---- (shift amount already of the same width)

func (c *Ctx) Shl(a, s *Term) *Term {
	if s.op == OConst {
		if s.Big().Cmp(big.NewInt(int64(a.w))) >= 0 {
			return c.BV(a.w, 0)
		}
		n := int(s.Big().Int64())
		if n == 0 {
			return a
		}
		return c.Concat(c.Extract(a, a.w-1-n, 0), c.BV(n, 0))
	}
	if a.isZero() {
		return a
	}
	if r := c.shiftIte(a, s, c.Shl); r != nil {
		return r
	}
	return c.intern(&Term{op: OShl, w: a.w, args: []*Term{a, s}})
}

func (c *Ctx) shiftIte(a, s *Term, f func(a, b *Term) *Term) *Term {
	if s.op == OIte && (s.args[1].op == OConst || s.args[2].op == OConst) && s.size < 200 {
		return c.Ite(s.args[0], f(a, s.args[1]), f(a, s.args[2]))
	}
	return nil
}

func (c *Ctx) LShr(a, s *Term) *Term {
	if s.op == OConst {
		if s.Big().Cmp(big.NewInt(int64(a.w))) >= 0 {
			return c.BV(a.w, 0)
		}
		n := int(s.Big().Int64())
		if n == 0 {
			return a
		}
		return c.Concat(c.BV(n, 0), c.Extract(a, a.w-1, n))
	}
	if a.isZero() {
		return a
	}
	if r := c.shiftIte(a, s, c.LShr); r != nil {
		return r
	}
	return c.intern(&Term{op: OLShr, w: a.w, args: []*Term{a, s}})
}

func (c *Ctx) AShr(a, s *Term) *Term {
	if c.signKnownNonneg(a) {
		return c.LShr(a, s)
	}
	if s.op == OConst {
		n := a.w - 1
		if s.Big().Cmp(big.NewInt(int64(a.w))) < 0 {
			n = int(s.Big().Int64())
		}
		if n == 0 {
			return a
		}
		return c.SExt(c.Extract(a, a.w-1, n), a.w)
	}
	if r := c.shiftIte(a, s, c.AShr); r != nil {
		return r
	}
	return c.intern(&Term{op: OAShr, w: a.w, args: []*Term{a, s}})
}

// ---- structure ----

func (c *Ctx) Extract(t *Term, hi, lo int) *Term {
	if lo == 0 && hi == t.w-1 {
		return t
	}
	if lo < 0 || hi < lo || hi >= t.w {
		panic(fmt.Sprintf("extract %d %d of %d", hi, lo, t.w))
	}
	w := hi - lo + 1
	switch t.op {
	case OConst:
		if t.big == nil {
			return c.BV(w, t.val>>uint(lo))
		}
		return c.BVBig(w, new(big.Int).And(new(big.Int).Rsh(t.Big(), uint(lo)), maskB(w)))
	case OExtract:
		return c.Extract(t.args[0], hi+t.lo, lo+t.lo)
	case OConcat:
		var out []*Term
		pos := t.w
		for _, s := range t.args {
			sh, sl := pos-1, pos-s.w
			pos -= s.w
			if sl > hi || sh < lo {
				continue
			}
			h, l := min(sh, hi), max(sl, lo)
			out = append(out, c.Extract(s, h-sl, l-sl))
		}
		return c.Concat(out...)
	case OSExt:
		in := t.args[0]
		if hi < in.w {
			return c.Extract(in, hi, lo)
		}
		if lo >= in.w-1 {
			return c.SExt(c.Extract(in, in.w-1, in.w-1), w)
		}
		return c.SExt(c.Extract(in, in.w-1, lo), w)
	case OIte:
		x, y := t.args[1], t.args[2]
		if (x.op == OConst || x.op == OConcat || x.op == OExtract) && (y.op == OConst || y.op == OConcat || y.op == OExtract) || t.size < 60 {
			return c.Ite(t.args[0], c.Extract(x, hi, lo), c.Extract(y, hi, lo))
		}
	case OBNot:
		return c.BNot(c.Extract(t.args[0], hi, lo))
	case OBAnd, OBOr, OBXor:
		if t.size > bigBitop {
			break
		}
		r := c.Extract(t.args[0], hi, lo)
		for _, a := range t.args[1:] {
			r = c.bitop(t.op, r, c.Extract(a, hi, lo))
		}
		return r
	case OAdd:
		if lo == 0 && !c.wide {
			var out []*Term
			for _, a := range t.args {
				out = append(out, c.Extract(a, hi, 0))
			}
			return c.Add(out...)
		}
	case OMul:
		if lo == 0 && !c.wide {
			return c.Mul(c.Extract(t.args[0], hi, 0), c.Extract(t.args[1], hi, 0))
		}
	}
	if t.w <= 64 {
		l, h := c.Range(t)
		if l>>uint(lo) == h>>uint(lo) {
			return c.BV(w, l>>uint(lo))
		}
		if h>>uint(lo) == 0 {
			return c.BV(w, 0)
		}
		// trim known-zero high bits
		hb := bits.Len64(h)
		if hi >= hb && hb > lo {
			return c.Concat(c.BV(hi-hb+1, 0), c.Extract(t, hb-1, lo))
		}
	}
	return c.intern(&Term{op: OExtract, w: w, args: []*Term{t}, hi: hi, lo: lo})
}

func (c *Ctx) Concat(in ...*Term) *Term {
	if len(in) == 1 {
		return in[0]
	}
	var out []*Term
	push := func(t *Term) {
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.op == OConst && t.op == OConst {
				v := new(big.Int).Lsh(p.Big(), uint(t.w))
				v.Or(v, t.Big())
				out[n-1] = c.BVBig(p.w+t.w, v)
				return
			}
			pb, ph, pl := p, p.w-1, 0
			if p.op == OExtract {
				pb, ph, pl = p.args[0], p.hi, p.lo
			}
			tb, th, tl := t, t.w-1, 0
			if t.op == OExtract {
				tb, th, tl = t.args[0], t.hi, t.lo
			}
			if pb == tb && pl == th+1 {
				out[n-1] = c.Extract(pb, ph, tl)
				return
			}
			// merge ites on the same guard
			if p.op == OIte && t.op == OIte && p.args[0] == t.args[0] && p.size < 5000 {
				a := c.Concat(p.args[1], t.args[1])
				b := c.Concat(p.args[2], t.args[2])
				if a.op != OConcat || b.op != OConcat {
					out[n-1] = c.Ite(p.args[0], a, b)
					return
				}
			}
		}
		out = append(out, t)
	}
	for _, t := range in {
		if t.op == OConcat {
			for _, a := range t.args {
				push(a)
			}
		} else {
			push(t)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	for _, t := range out {
		if t.op == OConcat { // may arise from merges
			return c.Concat(out...)
		}
	}
	w := 0
	for _, t := range out {
		w += t.w
	}
	return c.intern(&Term{op: OConcat, w: w, args: out})
}

func (c *Ctx) ZExt(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return c.Extract(a, w-1, 0)
	}
	if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
		return c.Ite(a.args[0], c.ZExt(a.args[1], w), c.ZExt(a.args[2], w))
	}
	return c.Concat(c.BV(w-a.w, 0), a)
}

func (c *Ctx) SExt(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return c.Extract(a, w-1, 0)
	}
	if c.signKnownNonneg(a) {
		return c.ZExt(a, w)
	}
	if a.op == OConst {
		return c.BVBig(w, a.SBig())
	}
	if a.op == OSExt {
		return c.SExt(a.args[0], w)
	}
	if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
		return c.Ite(a.args[0], c.SExt(a.args[1], w), c.SExt(a.args[2], w))
	}
	return c.intern(&Term{op: OSExt, w: w, args: []*Term{a}})
}

// BoolToBV gives 1-bit vector
func (c *Ctx) BoolToBV(b *Term, w int) *Term { return c.Ite(b, c.BV(w, 1), c.BV(w, 0)) }

// ---- evaluation ----

type Model map[*Term]*big.Int

// Eval evaluates t under m; leaves (vars, UF apps) absent from m are 0. ok is
// false when an absent UF application was met.
func (c *Ctx) Eval(t *Term, m Model, memo map[*Term]*big.Int) (*big.Int, bool) {
	ok := true
	one, zero := big.NewInt(1), new(big.Int)
	var ev func(t *Term) *big.Int
	b2i := func(b bool) *big.Int {
		if b {
			return one
		}
		return zero
	}
	sgn := func(v *big.Int, w int) *big.Int {
		if v.Bit(w-1) == 1 {
			return new(big.Int).Sub(v, new(big.Int).Lsh(one, uint(w)))
		}
		return v
	}
	ev = func(t *Term) *big.Int {
		if t.op == OConst {
			return t.Big()
		}
		if v, found := memo[t]; found {
			return v
		}
		var r *big.Int
		switch t.op {
		case OVar:
			r = m[t]
			if r == nil {
				r = zero
			}
		case OUF:
			r = m[t]
			if r == nil {
				ok = false
				r = zero
			}
		case ONot:
			r = b2i(ev(t.args[0]).Sign() == 0)
		case OAnd:
			r = one
			for _, a := range t.args {
				if ev(a).Sign() == 0 {
					r = zero
					break
				}
			}
		case OOr:
			r = zero
			for _, a := range t.args {
				if ev(a).Sign() != 0 {
					r = one
					break
				}
			}
		case OIte:
			if ev(t.args[0]).Sign() != 0 {
				r = ev(t.args[1])
			} else {
				r = ev(t.args[2])
			}
		case OEq:
			r = b2i(ev(t.args[0]).Cmp(ev(t.args[1])) == 0)
		case OUlt:
			r = b2i(ev(t.args[0]).Cmp(ev(t.args[1])) < 0)
		case OUle:
			r = b2i(ev(t.args[0]).Cmp(ev(t.args[1])) <= 0)
		case OSlt:
			w := t.args[0].w
			r = b2i(sgn(ev(t.args[0]), w).Cmp(sgn(ev(t.args[1]), w)) < 0)
		case OSle:
			w := t.args[0].w
			r = b2i(sgn(ev(t.args[0]), w).Cmp(sgn(ev(t.args[1]), w)) <= 0)
		case OAdd:
			r = new(big.Int)
			for _, a := range t.args {
				r.Add(r, ev(a))
			}
			r.And(r, maskB(t.w))
		case OMul:
			r = new(big.Int).Mul(ev(t.args[0]), ev(t.args[1]))
			r.And(r, maskB(t.w))
		case OUDiv:
			b := ev(t.args[1])
			if b.Sign() == 0 {
				r = maskB(t.w)
			} else {
				r = new(big.Int).Quo(ev(t.args[0]), b)
			}
		case OURem:
			b := ev(t.args[1])
			if b.Sign() == 0 {
				r = ev(t.args[0])
			} else {
				r = new(big.Int).Rem(ev(t.args[0]), b)
			}
		case OSDiv:
			a, b := sgn(ev(t.args[0]), t.w), sgn(ev(t.args[1]), t.w)
			if b.Sign() == 0 {
				if a.Sign() < 0 {
					r = one
				} else {
					r = maskB(t.w)
				}
			} else {
				r = new(big.Int).Quo(a, b)
				r.And(r, maskB(t.w))
			}
		case OSRem:
			a, b := sgn(ev(t.args[0]), t.w), sgn(ev(t.args[1]), t.w)
			if b.Sign() == 0 {
				r = new(big.Int).And(a, maskB(t.w))
			} else {
				r = new(big.Int).Rem(a, b)
				r.And(r, maskB(t.w))
			}
		case OBAnd, OBOr, OBXor:
			r = new(big.Int).Set(ev(t.args[0]))
			for _, a := range t.args[1:] {
				switch t.op {
				case OBAnd:
					r.And(r, ev(a))
				case OBOr:
					r.Or(r, ev(a))
				default:
					r.Xor(r, ev(a))
				}
			}
		case OBNot:
			r = new(big.Int).Xor(ev(t.args[0]), maskB(t.w))
		case OShl, OLShr, OAShr:
			a, s := ev(t.args[0]), ev(t.args[1])
			n := uint(t.w)
			if s.Cmp(big.NewInt(int64(t.w))) < 0 {
				n = uint(s.Uint64())
			}
			switch t.op {
			case OShl:
				r = new(big.Int).Lsh(a, n)
				r.And(r, maskB(t.w))
			case OLShr:
				r = new(big.Int).Rsh(a, n)
			default:
				r = new(big.Int).Rsh(sgn(a, t.w), n)
				r.And(r, maskB(t.w))
			}
		case OConcat:
			r = new(big.Int)
			for _, a := range t.args {
				r.Lsh(r, uint(a.w))
				r.Or(r, ev(a))
			}
		case OExtract:
			r = new(big.Int).Rsh(ev(t.args[0]), uint(t.lo))
			r.And(r, maskB(t.w))
		case OSExt:
			r = new(big.Int).And(sgn(ev(t.args[0]), t.args[0].w), maskB(t.w))
		default:
			panic("eval op")
		}
		memo[t] = r
		return r
	}
	r := ev(t)
	return r, ok
}

func (c *Ctx) String(t *Term) string {
	return termStr(t, 6)
}

func termStr(t *Term, d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%s:%d", t.Big().Text(16), t.w)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	s := "(" + opNames[t.op]
	if t.op == OExtract {
		s += fmt.Sprintf("[%d:%d]", t.hi, t.lo)
	}
	if t.op == OUF {
		s += " " + t.name
	}
	for _, a := range t.args {
		s += " " + termStr(a, d-1)
	}
	return s + ")"
}
