package ec

import (
	"math/big"

	"github.com/philhofer/seth/zzsym"
)

// Point arithmetic.
//
// The formulas run over field values that are fractions of polynomials in the
// coordinates and scale factors of the points, whatever these are: the result
// is the sum of the points if this is an identity of polynomials. That the real
// operations are those of the field is C10. A value with a number n[3] stands
// for a fraction of the table, others for the constant n[0]; n[1] is the
// magnitude, and n[2] is not 0 for a value that may not be normalised.
//
//zz:prop=C11
//zz:use common_field

type zzFrac struct{ num, den *big.Int }

var zzFracs []zzFrac

func zzConst(v int64) zzFrac { return zzFrac{big.NewInt(v), big.NewInt(1)} }

func (a zzFrac) plus(b zzFrac) zzFrac {
	if zzsym.Identical(a.den, b.den) {
		return zzFrac{new(big.Int).Add(a.num, b.num), a.den}
	}
	l := new(big.Int).Mul(a.num, b.den)
	return zzFrac{l.Add(l, new(big.Int).Mul(b.num, a.den)), new(big.Int).Mul(a.den, b.den)}
}

func (a zzFrac) times(b zzFrac) zzFrac {
	return zzFrac{new(big.Int).Mul(a.num, b.num), new(big.Int).Mul(a.den, b.den)}
}

func (a zzFrac) minus(b zzFrac) zzFrac { return a.plus(b.times(zzConst(-1))) }

func (a zzFrac) over(b zzFrac) zzFrac { return a.times(zzFrac{b.den, b.num}) }

func (a zzFrac) zero() bool { return zzsym.Identical(a.num, new(big.Int)) }

func (a zzFrac) same(b zzFrac) bool { return a.minus(b).zero() }

// zzAsk are the questions that the facts do not answer.
var zzAsk []zzAsked

type zzAsked struct {
	diff   zzFrac
	answer bool
}

// zzNot are values that are not zero.
var zzNot []zzFrac

// field operations

func zzOf(f *fieldVal) zzFrac {
	if f.n[3] != 0 {
		return zzFracs[f.n[3]-1]
	}
	return zzConst(int64(f.n[0]))
}

func zzSet(f *fieldVal, v zzFrac, mag, loose uint32) *fieldVal {
	*f = fieldVal{}
	if zzsym.Identical(v.num, new(big.Int)) {
		f.n[1], f.n[2] = mag, loose
		return f
	}
	zzFracs = append(zzFracs, v)
	f.n[1], f.n[2], f.n[3] = mag, loose, uint32(len(zzFracs))
	return f
}

func zzMul(f, a, b *fieldVal) *fieldVal {
	zzsym.Assert(a.n[1] <= 8 && b.n[1] <= 8, "factors of magnitude at most 8")
	return zzSet(f, zzOf(a).times(zzOf(b)), 1, 1)
}

func Model_ring__seth_ec__P0fieldVal__Mul2(f, a, b *fieldVal) *fieldVal   { return zzMul(f, a, b) }
func Model_ring__seth_ec__P0fieldVal__Mul(f, a *fieldVal) *fieldVal       { return zzMul(f, f, a) }
func Model_ring__seth_ec__P0fieldVal__SquareVal(f, a *fieldVal) *fieldVal { return zzMul(f, a, a) }
func Model_ring__seth_ec__P0fieldVal__Square(f *fieldVal) *fieldVal       { return zzMul(f, f, f) }

func zzMag(m uint32) uint32 {
	zzsym.Assert(m <= 63, "magnitudes that fit the words")
	return m
}

func Model_ring__seth_ec__P0fieldVal__AddInt(f *fieldVal, v uint) *fieldVal {
	return zzSet(f, zzOf(f).plus(zzConst(int64(v))), zzMag(f.n[1]+1), 1)
}

func Model_ring__seth_ec__P0fieldVal__Add(f, a *fieldVal) *fieldVal {
	return zzSet(f, zzOf(f).plus(zzOf(a)), zzMag(f.n[1]+a.n[1]), 1)
}

func Model_ring__seth_ec__P0fieldVal__Add2(f, a, b *fieldVal) *fieldVal {
	return zzSet(f, zzOf(a).plus(zzOf(b)), zzMag(a.n[1]+b.n[1]), 1)
}

func Model_ring__seth_ec__P0fieldVal__MulInt(f *fieldVal, v uint) *fieldVal {
	return zzSet(f, zzOf(f).times(zzConst(int64(v))), zzMag(f.n[1]*uint32(v)), 1)
}

func zzNeg(f, a *fieldVal, m uint32) *fieldVal {
	zzsym.Assert(a.n[1] <= m, "no value above the magnitude it is negated for")
	return zzSet(f, zzOf(a).times(zzConst(-1)), zzMag(m+1), 1)
}

func Model_ring__seth_ec__P0fieldVal__NegateVal(f, a *fieldVal, m uint32) *fieldVal {
	return zzNeg(f, a, m)
}
func Model_ring__seth_ec__P0fieldVal__Negate(f *fieldVal, m uint32) *fieldVal { return zzNeg(f, f, m) }

func Model_ring__seth_ec__P0fieldVal__Normalize(f *fieldVal) *fieldVal {
	f.n[1], f.n[2] = 1, 0
	return f
}

// zzZero tells whether a value is zero; looking at values that are not
// normalised may miss it.
func zzZero(d zzFrac, loose bool) bool {
	if d.zero() {
		return !loose || zzsym.Bool("noticed")
	}
	if zzsym.Monomial(d.num) {
		return false
	}
	for _, n := range zzNot {
		if d.same(n) || d.same(n.times(zzConst(-1))) {
			return false
		}
	}
	r := zzsym.Bool("zero")
	zzAsk = append(zzAsk, zzAsked{d, r})
	return r
}

func Model_ring__seth_ec__P0fieldVal__IsZero(f *fieldVal) bool {
	return zzZero(zzOf(f), f.n[2] != 0)
}

func Model_ring__seth_ec__P0fieldVal__Equals(f, a *fieldVal) bool {
	return zzZero(zzOf(f).minus(zzOf(a)), f.n[2] != 0 || a.n[2] != 0)
}

func Model_ring__seth_ec__P0fieldVal__Inverse(f *fieldVal) *fieldVal {
	zzsym.Assert(f.n[1] <= 8, "inverting a magnitude of at most 8")
	if v := zzOf(f); !v.zero() {
		return zzSet(f, zzConst(1).over(v), 1, 1)
	}
	return zzSet(f, zzConst(0), 1, 1)
}

// the bytes of a value that is no constant are a mark and its number

func zzMark(f *fieldVal) *big.Int {
	v := new(big.Int).SetUint64(uint64(f.n[0]))
	if f.n[3] != 0 {
		v.Lsh(big.NewInt(1), 248)
		v.Add(v, new(big.Int).SetUint64(uint64(f.n[3])))
	}
	return v
}

func zzMarked(v *big.Int) *fieldVal {
	f := new(fieldVal)
	if v.BitLen() == 249 {
		f.n[3], f.n[1] = uint32(v.Uint64()&0xffffff), 1
	} else {
		f.n[0] = uint32(v.Uint64())
	}
	return f
}

func Model_ring__seth_ec__P0fieldVal__SetBytes(f *fieldVal, b *[32]byte) *fieldVal {
	*f = *zzMarked(new(big.Int).SetBytes(b[:]))
	return f
}

func Model_ring__seth_ec__P0fieldVal__SetByteSlice(f *fieldVal, b []byte) *fieldVal {
	*f = *zzMarked(new(big.Int).SetBytes(b))
	return f
}

func Model_ring__seth_ec__P0fieldVal__PutBytes(f *fieldVal, b *[32]byte) {
	zzsym.Assert(f.n[2] == 0, "the bytes of a normalised value")
	zzMark(f).FillBytes(b[:])
}

func Model_ring__seth_ec__P0fieldVal__Bytes(f *fieldVal) *[32]byte {
	b := new([32]byte)
	Model_ring__seth_ec__P0fieldVal__PutBytes(f, b)
	return b
}

// points

// zzAffine is a point by its coordinates: fractions, or numbers in a run of the
// real code. It is at infinity when it has none.
type zzAffine struct {
	ok   bool
	x, y zzFrac
}

func zzVar(name string) zzFrac { return zzFrac{zzsym.BigU(name, 16), big.NewInt(1)} }

// reduce keeps the numbers of a run of the real code small.
func (a zzFrac) reduce() zzFrac {
	if zzsym.Symbolic() {
		return a
	}
	v := new(big.Int).Mod(a.den, zzP)
	v.ModInverse(v, zzP).Mul(v, a.num)
	return zzFrac{v.Mod(v, zzP), big.NewInt(1)}
}

func (a zzAffine) negative() zzAffine {
	return zzAffine{a.ok, a.x, a.y.times(zzConst(-1)).reduce()}
}

// chord and tangent
func (a zzAffine) plus(b zzAffine) zzAffine {
	if !a.ok {
		return b
	}
	if !b.ok {
		return a
	}
	var l zzFrac
	if a.x.minus(b.x).reduce().zero() {
		if !a.y.minus(b.y).reduce().zero() {
			return zzAffine{}
		}
		l = a.x.times(a.x).times(zzConst(3)).over(a.y.times(zzConst(2)))
	} else {
		l = b.y.minus(a.y).over(b.x.minus(a.x))
	}
	l = l.reduce()
	x := l.times(l).minus(a.x).minus(b.x).reduce()
	return zzAffine{true, x, l.times(a.x.minus(x)).minus(a.y).reduce()}
}

// zzAny is any point: the j-th one in a run of the real code.
func zzAny(name string, j int) zzAffine {
	if zzsym.Symbolic() {
		return zzAffine{true, zzVar("x" + name), zzVar("y" + name)}
	}
	g := zzAffine{true, zzFrac{S256().Gx, big.NewInt(1)}, zzFrac{S256().Gy, big.NewInt(1)}}
	var r zzAffine
	for k, i := uint64(1+j)*0x9e3779b97f4a7c15>>(1+uint(j)%40), 63; i >= 0; i-- {
		r = r.plus(r)
		if k>>uint(i)&1 != 0 {
			r = r.plus(g)
		}
	}
	return r
}

// zzOther is any point that is neither a nor its negative.
func zzOther(a zzAffine, j int) zzAffine {
	if zzsym.Symbolic() {
		return zzAffine{true, a.x.plus(zzVar("dx")), zzVar("y2")}
	}
	return zzAny("2", j+70)
}

// zzScale is any scale factor.
func zzScale(name string, j int) zzFrac {
	if zzsym.Symbolic() {
		return zzVar(name)
	}
	v := big.NewInt(int64(j + 3 + len(name)*int(name[len(name)-1])))
	return zzFrac{v.Exp(v, big.NewInt(131), zzP), big.NewInt(1)}
}

func zzField(v zzFrac, mag, loose uint32) *fieldVal {
	if zzsym.Symbolic() {
		return zzSet(new(fieldVal), v, mag, loose)
	}
	f := new(fieldVal).SetByteSlice(v.reduce().num.Bytes())
	if mag > 1 {
		f.Negate(1).Normalize().Negate(1)
	}
	return f
}

// zzProj is a point with a scale factor; neg: as the negative of another, with
// a y that is not normalised; loose: with an x and a scale factor that come from
// a product.
type zzProj struct{ x, y, z *fieldVal }

func zzScaled(a zzAffine, z zzFrac, neg, loose bool) zzProj {
	l, n := uint32(0), uint32(0)
	if loose {
		l = 1
	}
	if neg {
		n = 1
	}
	zz := z.times(z)
	return zzProj{zzField(a.x.times(zz), 1, l), zzField(a.y.times(zz).times(z), 1+n, n), zzField(z, 1, l)}
}

// zzInfinity is one of the forms of the point at infinity.
func zzInfinity(form int) zzProj {
	p := zzProj{new(fieldVal), new(fieldVal), new(fieldVal)}
	switch form {
	case 1:
		p.z.SetInt(1)
	case 2:
		p.x.SetInt(3)
		p.y.SetInt(5)
	}
	return p
}

func (p zzProj) copy() zzProj {
	x, y, z := *p.x, *p.y, *p.z
	return zzProj{&x, &y, &z}
}

func zzGet(f *fieldVal) zzFrac {
	if zzsym.Symbolic() {
		return zzOf(f)
	}
	return zzFrac{zzValue(f), big.NewInt(1)}.reduce()
}

// zzStays tells whether a point has the coordinates it had, up to normalising.
func (p zzProj) stays(was zzProj) bool {
	return zzGet(p.x).same(zzGet(was.x)) && zzGet(p.y).same(zzGet(was.y)) && zzGet(p.z).same(zzGet(was.z))
}

// is asserts that a projective point is the affine one.
func (p zzProj) is(a zzAffine, what string) {
	x, y, z := zzGet(p.x), zzGet(p.y), zzGet(p.z)
	inf := z.zero() || x.zero() && y.zero()
	zzsym.Assert(inf == !a.ok, what+": infinity")
	if inf || !a.ok {
		return
	}
	zzsym.Assert(zzsym.Monomial(z.num), what+": a scale factor that is not zero")
	zz := z.times(z)
	zzSameMod(x, a.x.times(zz), what+": x")
	zzSameMod(y, a.y.times(zz).times(z), what+": y")
	if zzsym.Symbolic() {
		zzsym.Assert(p.x.n[1] <= 1 && p.y.n[1] <= 2 && p.z.n[1] <= 1, what+": can be an operand in turn")
	}
}

func zzSameMod(a, b zzFrac, what string) {
	zzsym.AssertMod(new(big.Int).Mul(a.num, b.den), new(big.Int).Mul(b.num, a.den), zzP, what)
}

// zzRounds is the number of times a harness runs the code: once for all values
// here, and for some points in a run of the real code.
func zzRounds() int {
	zzFracs, zzAsk, zzNot = nil, nil, nil
	if zzsym.Symbolic() {
		return 1
	}
	return 40
}

func zzFlag(name string) bool { return zzsym.Choose(name, 2) == 1 }

func zzSum(a, b zzProj, want zzAffine, alias bool) {
	was1, was2 := a.copy(), b.copy()
	r := zzProj{new(fieldVal), new(fieldVal), new(fieldVal)}
	if alias {
		r = a
	}
	secp256k1.addJacobian(a.x, a.y, a.z, b.x, b.y, b.z, r.x, r.y, r.z)
	r.is(want, "the sum")
	zzsym.Assert(b.stays(was2), "the second point is as it was")
	zzsym.Assert(alias || a.stays(was1), "the first point is as it was")
}

// any two points but infinity added, equal and opposite ones too, with any
// scale factors, also into the first one, in the forms in which scalar
// multiplication makes points
//
//zz:models=ring ints=on merge=off split=16 splitdepth=3
//zz:cover general doubled opposite
func ZZ_C11_add() {
	rel := zzsym.Choose("points", 3)
	scales := zzsym.Choose("scales", 5)
	neg1, loose1 := zzFlag("negative1"), zzFlag("loose1")
	neg2, loose2 := zzFlag("negative2"), zzFlag("loose2")
	alias := zzFlag("into")
	for j, n := 0, zzRounds(); j < n; j++ {
		a := zzAny("1", j)
		b := a
		switch rel {
		case 0:
			b = zzOther(a, j)
		case 1:
			b = a.negative()
		}
		one := zzConst(1)
		z1, z2 := one, one
		switch scales {
		case 1:
			z1 = zzScale("z1", j)
			z2 = z1
		case 2:
			z1 = zzScale("z1", j)
		case 3:
			z2 = zzScale("z2", j)
		case 4:
			z1, z2 = zzScale("z1", j), zzScale("z2", j)
		}
		zzNot = []zzFrac{z1.minus(one), z2.minus(one), z1.minus(z2)}
		zzSum(zzScaled(a, z1, neg1, loose1), zzScaled(b, z2, neg2, loose2), a.plus(b), alias)
	}
	zzsym.Cover([]string{"general", "opposite", "doubled"}[rel])
}

// the point at infinity in every form, added to any point, to itself, and any
// point added to it
//
//zz:models=ring ints=on merge=off
//zz:cover infinity point
func ZZ_C11_infinity() {
	f1, f2 := zzsym.Choose("infinity", 3), zzsym.Choose("second", 4)
	scale, neg, loose, alias, swap := zzFlag("scale"), zzFlag("negative"), zzFlag("loose"), zzFlag("into"), zzFlag("swap")
	for j, n := 0, zzRounds(); j < n; j++ {
		a, b := zzInfinity(f1), zzProj{}
		var want zzAffine
		if f2 < 3 {
			b = zzInfinity(f2)
		} else {
			z := zzConst(1)
			if scale {
				z = zzScale("z1", j)
			}
			want = zzAny("1", j)
			b = zzScaled(want, z, neg, loose)
		}
		if swap {
			a, b = b, a
		}
		zzSum(a, b, want, alias)
	}
	if f2 < 3 {
		zzsym.Cover("infinity")
	} else {
		zzsym.Cover("point")
	}
}

// any point doubled, also in place, and the point at infinity
//
//zz:models=ring ints=on merge=off
//zz:cover point infinity
func ZZ_C11_double() {
	form := zzsym.Choose("point", 4)
	scale, neg, loose, alias := zzFlag("scale"), zzFlag("negative"), zzFlag("loose"), zzFlag("into")
	for j, n := 0, zzRounds(); j < n; j++ {
		var p zzAffine
		a := zzInfinity(form % 3)
		if form == 3 {
			z := zzConst(1)
			if scale {
				z = zzScale("z1", j)
			}
			p = zzAny("1", j)
			a = zzScaled(p, z, neg, loose)
			zzNot = []zzFrac{z.minus(zzConst(1))}
		}
		was := a.copy()
		r := zzProj{new(fieldVal), new(fieldVal), new(fieldVal)}
		if alias {
			r = a
		}
		secp256k1.doubleJacobian(a.x, a.y, a.z, r.x, r.y, r.z)
		r.is(p.plus(p), "the double")
		zzsym.Assert(alias || a.stays(was), "the point is as it was")
	}
	if form == 3 {
		zzsym.Cover("point")
	} else {
		zzsym.Cover("infinity")
	}
}

// coordinates as the big numbers of the interface: marks, or the numbers

func (a zzAffine) big() (*big.Int, *big.Int) {
	if !a.ok {
		return new(big.Int), new(big.Int)
	}
	if zzsym.Symbolic() {
		return zzMark(zzSet(new(fieldVal), a.x, 1, 0)), zzMark(zzSet(new(fieldVal), a.y, 1, 0))
	}
	return new(big.Int).Mod(a.x.num, zzP), new(big.Int).Mod(a.y.num, zzP)
}

func zzIsBig(x, y *big.Int, want zzAffine, what string) {
	if !want.ok {
		zzsym.Assert(x.Sign() == 0 && y.Sign() == 0, what+": infinity")
		return
	}
	if !zzsym.Symbolic() {
		wx, wy := want.big()
		zzsym.Assert(wx.Cmp(x) == 0 && wy.Cmp(y) == 0, what)
		return
	}
	zzsym.Assert(x.Sign() != 0 && y.Sign() != 0, what+": not infinity")
	zzSameMod(zzOf(zzMarked(x)), want.x, what+": x")
	zzSameMod(zzOf(zzMarked(y)), want.y, what+": y")
}

// projective points with any scale factor, and infinity, turned into numbers
//
//zz:models=ring ints=on merge=off
//zz:cover affine
func ZZ_C11_affine() {
	form := zzsym.Choose("point", 5)
	neg, loose := zzFlag("negative"), zzFlag("loose")
	for j, n := 0, zzRounds(); j < n; j++ {
		a, p := zzInfinity(form%3), zzAffine{}
		if form >= 3 {
			z := zzConst(1)
			if form == 4 {
				z = zzScale("z1", j)
			}
			p = zzAny("1", j)
			a = zzScaled(p, z, neg, loose)
		}
		if form != 1 && form != 2 { // other forms of infinity do not come up
			x, y := secp256k1.fieldJacobianToBigAffine(a.x, a.y, a.z)
			zzIsBig(x, y, p, "the coordinates")
		}
	}
	zzsym.Cover("affine")
}

// Add and Double of any two points (equal, opposite, or infinity)
//
//zz:models=ring ints=on merge=off
//zz:cover sum
func ZZ_C11_affinesum() {
	rel := zzsym.Choose("points", 6)
	for j, n := 0, zzRounds(); j < n; j++ {
		a := zzAny("1", j)
		var b zzAffine
		switch rel {
		case 0:
			b = zzOther(a, j)
		case 1:
			b = a.negative()
		case 2:
			b = a
		case 4:
			a, b = b, a
		case 5:
			a = b
		}
		x1, y1 := a.big()
		x2, y2 := b.big()
		k := []*big.Int{new(big.Int).Set(x1), new(big.Int).Set(y1), new(big.Int).Set(x2), new(big.Int).Set(y2)}
		x, y := secp256k1.Add(x1, y1, x2, y2)
		zzIsBig(x, y, a.plus(b), "the sum")
		x, y = secp256k1.Double(x1, y1)
		zzIsBig(x, y, a.plus(a), "the double")
		zzsym.Assert(x1.Cmp(k[0]) == 0 && y1.Cmp(k[1]) == 0 && x2.Cmp(k[2]) == 0 && y2.Cmp(k[3]) == 0, "the points are as they were")
	}
	zzsym.Cover("sum")
}

// whether numbers are the coordinates of a point: when y^2 is x^3+7
//
//zz:models=ring ints=on merge=off
//zz:cover yes no
func ZZ_C11_on() {
	off := zzFlag("off")
	for j, n := 0, zzRounds(); j < n; j++ {
		p := zzAny("1", j)
		if !zzsym.Symbolic() && off {
			p.y = p.y.plus(zzConst(int64(j + 1)))
		}
		x, y := p.big()
		zzAsk = nil
		on := secp256k1.IsOnCurve(x, y)
		if !zzsym.Symbolic() {
			zzsym.Assert(on == !off, "on the curve")
			continue
		}
		zzsym.Assert(len(zzAsk) == 1, "one comparison")
		d := p.y.times(p.y).minus(p.x.times(p.x).times(p.x)).minus(zzConst(7))
		q := zzAsk[0].diff
		if !q.same(d) {
			q = q.times(zzConst(-1))
		}
		zzSameMod(q, d, "the equation of the curve")
		zzsym.Assert(on == zzAsk[0].answer, "what the equation tells")
	}
	if off {
		zzsym.Cover("no")
	} else {
		zzsym.Cover("yes")
	}
}

// Multiples of a point P: in the reading of the group, points are sums of
// multiples of P and of others (Q, which is P with its x multiplied by beta; or
// the windows of the table for the base point), and coordinates are those of a
// sum of the table. Adding and doubling are those of a group (which the
// harnesses above are about), recoding is C12.

type zzSumOf [2]int

const (
	zzIsX = 1 + iota
	zzIsY
	zzIsTab
)

func zzPutSum(s zzSumOf, x, y, z *fieldVal) {
	*x, *y, *z = fieldVal{}, fieldVal{}, fieldVal{}
	x.n[2], y.n[2] = zzIsX, zzIsY
	for i, v := range s {
		x.n[6+i], y.n[6+i] = uint32(v), uint32(v)
	}
	z.n[0] = 1
}

// zzGetSum is the sum that coordinates stand for.
func zzGetSum(x, y, z *fieldVal) zzSumOf {
	var s zzSumOf
	if x.n[2] == 0 && y.n[2] == 0 {
		zzsym.Assert(x.n[0] == 0 && y.n[0] == 0 && z.n[0] == 0, "infinity")
		return s
	}
	zzsym.Assert(x.n[2] == zzIsX && y.n[2] == zzIsY && z.n[0] == 1, "the coordinates of a point")
	zzsym.Assert(zzsym.And(x.n[6] == y.n[6], x.n[7] == y.n[7]), "the coordinates of one point")
	for i := range s {
		s[i] = int(int32(x.n[6+i]))
		if y.n[4] == 1 { // negative
			s[i] = -s[i]
		}
	}
	if x.n[4] == 1 { // by beta: only of P
		zzsym.Assert(s[1] == 0, "beta times P")
		s[0], s[1] = 0, s[0]
	}
	return s
}

func Model_group__seth_ec__PKoblitzCurve__addJacobian(c *KoblitzCurve, x1, y1, z1, x2, y2, z2, x3, y3, z3 *fieldVal) {
	a, b := zzGetSum(x1, y1, z1), zzGetSum(x2, y2, z2)
	zzPutSum(zzSumOf{a[0] + b[0], a[1] + b[1]}, x3, y3, z3)
}

func Model_group__seth_ec__PKoblitzCurve__doubleJacobian(c *KoblitzCurve, x1, y1, z1, x3, y3, z3 *fieldVal) {
	a := zzGetSum(x1, y1, z1)
	zzPutSum(zzSumOf{2 * a[0], 2 * a[1]}, x3, y3, z3)
}

// zzEnd is the sum that was turned into numbers.
var zzEnd zzSumOf

func Model_group__seth_ec__PKoblitzCurve__fieldJacobianToBigAffine(c *KoblitzCurve, x, y, z *fieldVal) (*big.Int, *big.Int) {
	zzEnd = zzGetSum(x, y, z)
	return big.NewInt(0x1111), big.NewInt(0x2222)
}

func Model_group__seth_ec__PKoblitzCurve__bigAffineToField(c *KoblitzCurve, x, y *big.Int) (*fieldVal, *fieldVal) {
	zzsym.Assert(x.Int64() == 0x3333 && y.Int64() == 0x4444, "the coordinates of P")
	fx, fy := new(fieldVal), new(fieldVal)
	zzPutSum(zzSumOf{1, 0}, fx, fy, new(fieldVal))
	return fx, fy
}

func Model_group__seth_ec__P0fieldVal__Mul2(f, a, b *fieldVal) *fieldVal {
	if b.n[2] == zzIsX {
		a, b = b, a
	}
	zzsym.Assert(a.n[2] == zzIsX && a.n[4] == 0 && b.n == zzBeta.n, "x times beta")
	*f = *a
	f.n[4] = 1
	return f
}

func Model_group__seth_ec__P0fieldVal__NegateVal(f, a *fieldVal, m uint32) *fieldVal {
	zzsym.Assert(a.n[2] == zzIsY && m >= 1+a.n[5], "the negative of a y")
	*f = *a
	f.n[4], f.n[5] = 1-a.n[4], m
	return f
}

var zzBeta = fieldVal{n: [10]uint32{77}}

// zzHalves are the halves of the scalar, by their digits.
var zzHalves struct {
	of     []byte
	digits [2][2][]byte
	signs  [2]int
}

func Model_group__seth_ec__PKoblitzCurve__splitK(c *KoblitzCurve, k []byte) ([]byte, []byte, int, int) {
	zzHalves.of = append([]byte{}, k...)
	return []byte{0}, []byte{1}, zzHalves.signs[0], zzHalves.signs[1]
}

func Model_group__seth_ec__NAF(k []byte) ([]byte, []byte) {
	return zzHalves.digits[k[0]][0], zzHalves.digits[k[0]][1]
}

func zzCount(b []byte) int {
	v := 0
	for _, c := range b {
		v = v<<8 | int(c)
	}
	return v
}

// zzDigits are signed digits, and their value.
func zzDigitsOf(name string, n int) (pos, neg []byte) {
	pos, neg = zzsym.Bytes(name, n), zzsym.Bytes(name+"neg", n)
	for i := range pos {
		zzsym.Assume(pos[i]&neg[i] == 0)
	}
	return
}

// any multiple of a point: k1 P + k2 Q for the halves k1 and k2 of the scalar,
// of up to 1 byte of signed digits each (thorough: 3)
//
//zz:models=group split=8 splitdepth=4
//zz:cover multiple
func ZZ_C11_multiple() {
	n1, n2 := zzsym.Choose("n1", zzsym.Bound(2, 4)), zzsym.Choose("n2", zzsym.Bound(2, 4))
	k1, neg1 := zzDigitsOf("k1", n1)
	k2, neg2 := zzDigitsOf("k2", n2)
	s1, s2 := 1, 1
	if zzFlag("minus1") {
		s1 = -1
	}
	if zzFlag("minus2") {
		s2 = -1
	}
	if zzsym.Symbolic() {
		k := []byte{1, 2, 3, 4}
		zzHalves.digits = [2][2][]byte{{k1, neg1}, {k2, neg2}}
		zzHalves.signs = [2]int{s1, s2}
		c := &KoblitzCurve{byteSize: 32, beta: &zzBeta}
		x, y := c.ScalarMult(big.NewInt(0x3333), big.NewInt(0x4444), k)
		zzsym.Assert(zzsym.EqBytes(zzHalves.of, k), "the scalar split is the one given")
		zzsym.Assert(x.Int64() == 0x1111 && y.Int64() == 0x2222, "the coordinates of the sum")
		zzsym.Assert(zzsym.And(zzEnd[0] == s1*(zzCount(k1)-zzCount(neg1)), zzEnd[1] == s2*(zzCount(k2)-zzCount(neg2))), "the multiple")
	} else {
		for j, n := 0, zzRounds(); j < n; j++ {
			k := new(big.Int).SetBytes(k2)
			k.Mul(k, secp256k1.lambda).Mul(k, big.NewInt(int64(s2)))
			h := new(big.Int).SetBytes(k1)
			k.Add(k, h.Mul(h, big.NewInt(int64(s1))))
			for i := 0; i < j; i++ {
				k.Mul(k, big.NewInt(0x7fffffed)).Add(k, big.NewInt(int64(1+j)))
			}
			k.Mod(k, secp256k1.N)
			p := zzAny("1", j)
			px, py := p.big()
			x, y := secp256k1.ScalarMult(px, py, append(make([]byte, j%3), k.Bytes()...))
			zzIsBig(x, y, p.multiple(k), "the multiple")
		}
	}
	zzsym.Cover("multiple")
}

func (p zzAffine) multiple(k *big.Int) zzAffine {
	var r zzAffine
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.plus(r)
		if k.Bit(i) != 0 {
			r = r.plus(p)
		}
	}
	return r
}

// In the reading of the table its entries are the digits of their windows.

type zzWindows [32]int

var zzSeen, zzSeenEnd zzWindows

func Model_table__seth_ec__PKoblitzCurve__addJacobian(c *KoblitzCurve, x1, y1, z1, x2, y2, z2, x3, y3, z3 *fieldVal) {
	zzsym.Assert(x2.n[2] == zzIsTab && y2.n[2] == zzIsTab && z2.n[2] == zzIsTab && x2.n[1] == 0 && y2.n[1] == 1 && z2.n[1] == 2, "the coordinates of a point of the table")
	zzsym.Assert(x2.n[5] == y2.n[5] && x2.n[5] == z2.n[5], "the coordinates of one point")
	zzsym.Assert(zzsym.And(x2.n[4] == y2.n[4], x2.n[4] == z2.n[4]), "the coordinates of one point")
	zzsym.Assert(x1 == x3 && y1 == y3 && z1 == z3, "one sum")
	zzSeen[x2.n[5]] += int(x2.n[4])
}

func Model_table__seth_ec__PKoblitzCurve__fieldJacobianToBigAffine(c *KoblitzCurve, x, y, z *fieldVal) (*big.Int, *big.Int) {
	zzSeenEnd = zzSeen
	return big.NewInt(0x1111), big.NewInt(0x2222)
}

// zzReduced is what a longer scalar is reduced to.
var zzReduced []byte

func Model_table__seth_ec__PKoblitzCurve__moduloReduce(c *KoblitzCurve, k []byte) []byte {
	if len(k) <= 32 {
		return k
	}
	return zzReduced
}

// any multiple of the base point by scalars of 0, 1, 2, 31 and 32 bytes (thorough: also 5,
// 12, 20, 26), or longer ones reduced to these,
// from a table of multiples: each byte with its window
//
//zz:models=table maxloop=60000
//zz:cover multiple
func ZZ_C11_base() {
	n := []int{0, 1, 2, 31, 32, 5, 12, 20, 26}[zzsym.Choose("n", zzsym.Bound(5, 9))]
	long := zzFlag("long")
	k := zzsym.Bytes("k", n)
	keep := append([]byte{}, k...)
	if zzsym.Symbolic() {
		var tab [32][256][3]fieldVal
		for i := 32 - n; i < 32; i++ {
			for b := range tab[i] {
				for m := range tab[i][b] {
					f := &tab[i][b][m]
					f.n[1], f.n[2], f.n[4], f.n[5] = uint32(m), zzIsTab, uint32(b), uint32(i)
				}
			}
		}
		zzSeen = zzWindows{}
		c := &KoblitzCurve{byteSize: 32, bytePoints: &tab}
		arg := k
		if long {
			arg = make([]byte, 40)
			zzReduced = k
		}
		x, y := c.ScalarBaseMult(arg)
		zzsym.Assert(x.Int64() == 0x1111 && y.Int64() == 0x2222, "the coordinates of the sum")
		ok := true
		for i, v := range zzSeenEnd {
			w := 0
			if i >= 32-n {
				w = int(k[i-(32-n)])
			}
			ok = zzsym.And(ok, v == w)
		}
		zzsym.Assert(ok, "the multiple")
		zzsym.Assert(zzsym.EqBytes(k, keep), "the scalar is as it was")
	} else {
		g := zzAffine{true, zzFrac{S256().Gx, big.NewInt(1)}, zzFrac{S256().Gy, big.NewInt(1)}}
		for j, m := 0, zzRounds(); j < m; j++ {
			s := append([]byte{}, k...)
			for i := range s {
				s[i] += byte(j * (i + 91))
			}
			if j > 2 || long {
				s = append(append(s, k...), byte(j))
			}
			if long {
				s = append(s, make([]byte, 33)...)
			}
			if len(s) < 29 && j > 4 {
				s = append(make([]byte, 30-len(s)), append(s, byte(j))...)
			}
			x, y := secp256k1.ScalarBaseMult(s)
			zzIsBig(x, y, g.multiple(new(big.Int).Mod(new(big.Int).SetBytes(s), secp256k1.N)), "the multiple")
		}
	}
	zzsym.Cover("multiple")
}
