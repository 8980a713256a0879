package cc

import (
	"math/big"

	"github.com/philhofer/seth/zzsym"
)

// Conversion is the exact product, rounded down to the target's unit.
//
//zz:prop=C23
//zz:use common_cc

func zzPow10(n int) *big.Int {
	return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil)
}

// product gives the reference conversion of n units from one currency to
// another at rate r.
func zzProduct(n, r *big.Int, from, to Currency) *big.Int {
	v := new(big.Int).Mul(n, r)
	e := to.Digits() - from.Digits() - RateDigits
	if e >= 0 {
		return v.Mul(v, zzPow10(e))
	}
	return v.Div(v, zzPow10(-e))
}

// Any amount at any rate between any two kinds of currency (0 to 18 digits).
//
//zz:budget=60 merge=off split=4 splitdepth=2
//zz:cover neg pos
func ZZ_C23_convert() {
	from := zzCurrencies[zzsym.Choose("from", len(zzCurrencies))]
	to := zzCurrencies[zzsym.Choose("to", len(zzCurrencies))]
	n := zzsym.BigS("n", zzsym.Bound(48, 160))
	r := zzsym.BigS("r", zzsym.Bound(32, 96))
	n0, r0 := new(big.Int).Set(n), new(big.Int).Set(r)
	a := &Amount{Currency: from, Amount: *n}
	got := Convert(a, to, (*Rate)(r))
	zzsym.Assert(got.Currency == to, "the result is in the target currency")
	zzsym.Assert(got.Amount.Cmp(zzProduct(n0, r0, from, to)) == 0, "the result is the exact product, rounded down")
	zzsym.Assert(a.Currency == from && a.Amount.Cmp(n0) == 0, "the amount is unchanged")
	zzsym.Assert(r.Cmp(r0) == 0, "the rate is unchanged")
	zzsym.ObsBig("got", &got.Amount)
	if n0.Sign() < 0 {
		zzsym.Cover("neg")
	} else {
		zzsym.Cover("pos")
	}
}

// Amounts of every size at rates with special values: scaling and rounding.
//
//zz:budget=60 merge=off
func ZZ_C23_wide() {
	from := zzCurrencies[zzsym.Choose("from", 3)]
	to := zzCurrencies[zzsym.Choose("to", 3)]
	rate := []string{"1", "0.00000001", "-0.5", "123.456", "0", "99999999.99999999"}[zzsym.Choose("rate", 6)]
	r, err := ParseRate(rate)
	zzsym.Assert(err == nil, "a rate")
	n := zzsym.BigS("n", zzsym.Bound(140, 256))
	n0 := new(big.Int).Set(n)
	a := &Amount{Currency: from, Amount: *n}
	got := Convert(a, to, r)
	zzsym.Assert(got.Currency == to, "the result is in the target currency")
	zzsym.Assert(got.Amount.Cmp(zzProduct(n0, (*big.Int)(r), from, to)) == 0, "the result is the exact product, rounded down")
	zzsym.ObsBig("got", &got.Amount)
}

// The inverse is the reciprocal at 8 digits, and a pair's inverse swaps its
// currencies; zero has no reciprocal and stays zero.
//
//zz:budget=60 merge=off
//zz:cover zero other
func ZZ_C23_inverse() {
	r := zzsym.BigS("r", zzsym.Bound(48, 80))
	r0 := new(big.Int).Set(r)
	p := &Pair{From: ETH, To: USD, Rate: Rate(*r)}
	inv := (*Rate)(r).Inverse()
	q := p.Inverse()
	zzsym.Assert(r.Cmp(r0) == 0, "the rate is unchanged")
	zzsym.Assert((*big.Int)(&p.Rate).Cmp(r0) == 0 && p.From == ETH && p.To == USD, "the pair is unchanged")
	zzsym.Assert(q.From == USD && q.To == ETH, "the currencies are swapped")
	zzsym.Assert((*big.Int)(&q.Rate).Cmp((*big.Int)(inv)) == 0, "the pair's rate is inverted")
	zzsym.ObsBig("inv", (*big.Int)(inv))
	if r0.Sign() == 0 {
		zzsym.Assert((*big.Int)(inv).Sign() == 0, "the inverse of zero is zero")
		zzsym.Cover("zero")
		return
	}
	zzsym.Cover("other")
	zzsym.Assert((*big.Int)(inv).Cmp(new(big.Int).Div(zzPow10(2*RateDigits), r0)) == 0, "the inverse is the reciprocal")
}

// A pair converts either way, by its rate or the inverse, and refuses others.
//
//zz:budget=60 merge=off
//zz:cover forth back refused
func ZZ_C23_pair() {
	from := zzCurrencies[zzsym.Choose("from", len(zzCurrencies))]
	to := zzCurrencies[zzsym.Choose("to", len(zzCurrencies))]
	cur := zzCurrencies[zzsym.Choose("cur", len(zzCurrencies))]
	n := zzsym.BigS("n", zzsym.Bound(40, 100))
	r := zzsym.BigS("r", zzsym.Bound(24, 64))
	n0, r0 := new(big.Int).Set(n), new(big.Int).Set(r)
	p := &Pair{From: from, To: to, Rate: Rate(*r)}
	a := &Amount{Currency: cur, Amount: *n}
	var got *Amount
	panicked := zzsym.Try(func() { got = p.Convert(a) })
	zzsym.Assert(p.From == from && p.To == to && (*big.Int)(&p.Rate).Cmp(r0) == 0, "the pair is unchanged")
	zzsym.Assert(a.Currency == cur && a.Amount.Cmp(n0) == 0, "the amount is unchanged")
	if cur == from {
		zzsym.Cover("forth")
		zzsym.Assert(!panicked && got.Currency == to, "an amount in the first currency is converted to the second")
		zzsym.Assert(got.Amount.Cmp(zzProduct(n0, r0, from, to)) == 0, "at the pair's rate")
		return
	}
	if cur == to {
		zzsym.Cover("back")
		zzsym.Assert(!panicked && got.Currency == from, "an amount in the second currency is converted to the first")
		inv := new(big.Int)
		if r0.Sign() != 0 {
			inv.Div(zzPow10(2*RateDigits), r0)
		}
		zzsym.Assert(got.Amount.Cmp(zzProduct(n0, inv, to, from)) == 0, "at the inverse rate")
		return
	}
	zzsym.Cover("refused")
	zzsym.Assert(panicked, "an amount in a third currency is refused")
}

// A pair prints so that it reads back, and its text names the currencies in
// the right order.
//
//zz:budget=60 merge=off
func ZZ_C23_text() {
	from := zzCurrencies[zzsym.Choose("from", len(zzCurrencies))]
	to := zzCurrencies[zzsym.Choose("to", len(zzCurrencies))]
	r := zzsym.BigS("r", zzsym.Bound(32, 64))
	p := &Pair{From: from, To: to, Rate: Rate(*r)}
	s := p.String()
	zzsym.Assert(s == (*Rate)(r).String()+" "+to.String()+"/"+from.String(), "the text is the rate, then target over source")
	q := &Pair{From: USD, To: USD, Rate: Rate(*big.NewInt(77))}
	zzsym.Assert(q.FromString(s) == nil, "the text is accepted")
	zzsym.Assert(q.From == from && q.To == to, "the currencies read back")
	zzsym.Assert((*big.Int)(&q.Rate).Cmp(r) == 0, "the rate reads back")
}
