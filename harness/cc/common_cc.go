package cc

import (
	"math/big"

	"github.com/philhofer/seth/zzsym"
)

// zzDecimal is the reference reading of a decimal number: an optional minus
// sign, digits, and optionally a point and more digits; at least one digit
// must be there. The value is in units of 10^-digits.
func zzDecimal(s string, digits int) (*big.Int, bool) {
	i, neg := 0, false
	if i < len(s) && s[i] == '-' {
		neg = true
		i++
	}
	n, frac, point := 0, 0, false
	v := new(big.Int)
	for ; i < len(s); i++ {
		if s[i] == '.' && !point {
			point = true
			continue
		}
		if s[i] < '0' || s[i] > '9' {
			return nil, false
		}
		n++
		if point {
			frac++
		}
		v.Mul(v, big.NewInt(10))
		v.Add(v, big.NewInt(int64(s[i]-'0')))
	}
	if n == 0 || frac > digits {
		return nil, false
	}
	for ; frac < digits; frac++ {
		v.Mul(v, big.NewInt(10))
	}
	if neg {
		v.Neg(v)
	}
	return v, true
}

var zzCurrencies = []Currency{ETH, USD, EDG, GUP, OST, UNI}

// zzAnyDecimal is an arbitrary well-formed decimal of up to ip+fp digits.
func zzDigits(name string, n int) string {
	b := zzsym.Bytes(name, n)
	for i := range b {
		zzsym.Assume(zzsym.And(b[i] >= '0', b[i] <= '9'))
	}
	return string(b)
}
