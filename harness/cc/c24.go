package cc

import (
	"math/big"

	"github.com/philhofer/seth/zzsym"
)

// Amounts: exact arithmetic on the smallest unit, never across currencies.
//
//zz:prop=C24
//zz:use common_cc

// zzSomeCurrency is any known currency or, as in an Amount never set, none.
func zzSomeCurrency(name string) Currency {
	i := zzsym.Choose(name, 4)
	return []Currency{"", ETH, USD, EDG}[i]
}

// Every operation on every pair of amounts: same or different currency,
// uninitialised on either side, and an amount with itself.
//
//zz:budget=60 merge=off split=4 splitdepth=2
//zz:cover refused add sub cmp self fresh
func ZZ_C24_ops() {
	op := zzsym.Choose("op", 3)
	ca := zzSomeCurrency("ca")
	self := zzsym.Choose("self", 2) == 1
	cb := ca
	if !self {
		cb = zzSomeCurrency("cb")
	}
	bits := zzsym.Bound(200, 400)
	n := zzsym.BigS("n", bits)
	if ca == "" {
		// an amount without currency is one that was never set
		n = new(big.Int)
	}
	a := &Amount{Currency: ca, Amount: *n}
	b, m := a, n
	if !self {
		m = zzsym.BigS("m", bits)
		if cb == "" {
			m = new(big.Int)
		}
		b = &Amount{Currency: cb, Amount: *m}
	} else {
		zzsym.Cover("self")
	}
	n0, m0 := new(big.Int).Set(n), new(big.Int).Set(m)

	var r *Amount
	c := 0
	panicked := zzsym.Try(func() {
		switch op {
		case 0:
			r = a.Add(b)
		case 1:
			r = a.Sub(b)
		default:
			c = a.Cmp(b)
		}
	})
	fresh := ca == ""
	if !self {
		zzsym.Assert(b.Currency == cb && b.Amount.Cmp(m0) == 0, "the operand is unchanged")
	}
	if ca != cb && (!fresh || op == 2) {
		zzsym.Assert(panicked, "amounts of different currencies are refused")
		zzsym.Assert(a.Currency == ca && a.Amount.Cmp(n0) == 0, "a refused operation changes nothing")
		zzsym.Cover("refused")
		return
	}
	zzsym.Assert(!panicked, "amounts of the same currency are accepted")
	if op == 2 {
		zzsym.Assert(c == n0.Cmp(m0), "comparison is that of the numbers of units")
		zzsym.Assert(a.Currency == ca && a.Amount.Cmp(n0) == 0, "comparing changes nothing")
		zzsym.Cover("cmp")
		return
	}
	want := new(big.Int)
	if op == 0 {
		want.Add(n0, m0)
		zzsym.Cover("add")
	} else {
		want.Sub(n0, m0)
		zzsym.Cover("sub")
	}
	zzsym.Assert(r == a, "the receiver is returned")
	if fresh {
		zzsym.Cover("fresh")
	}
	zzsym.Assert(a.Currency == cb, "the sum is in the operand's currency")
	zzsym.Assert(a.Amount.Cmp(want) == 0, "the sum is exact")
	zzsym.ObsBig("a", &a.Amount)
	zzsym.ObsBig("b", &b.Amount)
	if self {
		return
	}

	// what happens to the result later does not reach the operand
	if fresh && cb == "" {
		return
	}
	one := &Amount{Currency: cb, Amount: *big.NewInt(1)}
	a.Add(one)
	a.Neg()
	zzsym.Assert(b.Currency == cb && b.Amount.Cmp(m0) == 0, "later changes to the sum do not reach the operand")
	zzsym.ObsBig("b", &b.Amount)
	b.Add(one).Add(one)
	zzsym.Assert(a.Amount.Cmp(want.Neg(want.Add(want, big.NewInt(1)))) == 0, "later changes to the operand do not reach the sum")
	zzsym.ObsBig("a", &a.Amount)
}

// Copies, signs and negation.
//
//zz:budget=60 merge=off
func ZZ_C24_copy() {
	ca := zzCurrencies[zzsym.Choose("ca", 4)]
	n := zzsym.BigS("n", zzsym.Bound(200, 400))
	n0 := new(big.Int).Set(n)
	a := &Amount{Currency: ca, Amount: *n}
	b := a.Copy()
	zzsym.Assert(b != a && b.Currency == ca && b.Amount.Cmp(n0) == 0, "the copy is equal")
	zzsym.Assert(a.Sign() == n0.Sign(), "the sign is the number's")
	one := &Amount{Currency: ca, Amount: *big.NewInt(1)}
	b.Add(one)
	zzsym.Assert(a.Amount.Cmp(n0) == 0, "changing the copy leaves the original")
	zzsym.ObsBig("a", &a.Amount)
	a.Sub(one)
	zzsym.Assert(b.Amount.Cmp(new(big.Int).Add(n0, big.NewInt(1))) == 0, "changing the original leaves the copy")
	zzsym.ObsBig("b", &b.Amount)
	zzsym.Assert(one.Amount.Cmp(big.NewInt(1)) == 0, "the operand is unchanged")
	c := new(Amount).Set(b)
	zzsym.Assert(c.Neg() == c && c.Amount.Cmp(new(big.Int).Neg(&b.Amount)) == 0, "negation is exact")
	zzsym.Assert(b.Amount.Cmp(new(big.Int).Add(n0, big.NewInt(1))) == 0, "negating a copy leaves the original")
	zzsym.ObsBig("c", &c.Amount)
	zzsym.ObsBig("b", &b.Amount)
}
