package cc

import (
	"math/big"

	"github.com/philhofer/seth/zzsym"
)

// Currency amounts and rates parse and print exactly.
//
//zz:prop=C22
//zz:use common_cc

// Every text of up to 4 (6) bytes as an amount of every kind of currency.
//
//zz:budget=60 split=4 splitdepth=1
//zz:cover good bad
func ZZ_C22_text() {
	s := zzsym.Str("s", zzsym.Choose("len", zzsym.Bound(5, 7)))
	c := zzCurrencies[zzsym.Choose("currency", zzsym.Bound(3, len(zzCurrencies)))]
	a, err := c.ParseAmount(s)
	want, ok := zzDecimal(s, c.Digits())
	if ok {
		zzsym.Assert(err == nil, "a decimal number is accepted")
		zzsym.Assert(a.Currency == c, "in the given currency")
		zzsym.Assert(a.Amount.Cmp(want) == 0, "with exactly the value it denotes")
		zzsym.ObsBig("amount", &a.Amount)
		zzsym.Cover("good")
	} else {
		zzsym.Assert(err != nil, "malformed or too precise text is refused")
		zzsym.Cover("bad")
	}
}

// Longer decimals: every digit counts.
//
//zz:budget=60
func ZZ_C22_long() {
	c := zzCurrencies[zzsym.Choose("currency", len(zzCurrencies))]
	s := zzDigits("ip", []int{1, 7, 20}[zzsym.Choose("ip", 3)])
	if zzsym.Choose("neg", 2) == 1 {
		s = "-" + s
	}
	fp := []int{0, 1, 8, 18, 19}[zzsym.Choose("fp", 5)]
	if fp > 0 {
		s += "." + zzDigits("fp", fp)
	}
	a, err := c.ParseAmount(s)
	if fp > c.Digits() {
		zzsym.Assert(err != nil, "too many digits are refused")
		return
	}
	zzsym.Assert(err == nil, "a decimal number is accepted")
	want, _ := zzDecimal(s, c.Digits())
	zzsym.Assert(a.Amount.Cmp(want) == 0, "with exactly the value it denotes")
}

// Every text of up to 5 (7) bytes as a rate.
//
//zz:budget=60
//zz:cover good bad
func ZZ_C22_rate() {
	s := zzsym.Str("s", zzsym.Choose("len", zzsym.Bound(6, 8)))
	r, err := ParseRate(s)
	want, ok := zzDecimal(s, RateDigits)
	if ok {
		zzsym.Assert(err == nil, "a decimal number is accepted")
		zzsym.Assert((*big.Int)(r).Cmp(want) == 0, "with exactly the value it denotes")
		zzsym.Cover("good")
	} else {
		zzsym.Assert(err != nil, "malformed text is refused")
		zzsym.Cover("bad")
	}
}

// Amounts print so that they read back, also into an amount already in use.
//
//zz:budget=60 merge=off split=4 splitdepth=1
func ZZ_C22_print() {
	c := zzCurrencies[zzsym.Choose("currency", len(zzCurrencies))]
	n := zzsym.BigS("n", zzsym.Bound(64, 128))
	a := &Amount{Currency: c, Amount: *n}
	s := a.String()
	b := new(Amount)
	if zzsym.Choose("used", 2) == 1 {
		b = &Amount{Currency: ETH, Amount: *zzsym.BigS("old", 20)}
	}
	zzsym.Assert(b.UnmarshalText([]byte(s)) == nil, "the printed amount is accepted")
	zzsym.Assert(b.Currency == c, "the currency reads back")
	zzsym.Assert(b.Amount.Cmp(n) == 0, "the amount reads back")
	zzsym.Assert(a.Amount.Cmp(n) == 0, "printing does not change it")
}

// Rates print so that they read back.
//
//zz:budget=60 merge=off
func ZZ_C22_printrate() {
	n := zzsym.BigS("n", zzsym.Bound(100, 300))
	r := (*Rate)(n)
	got, err := ParseRate(r.String())
	zzsym.Assert(err == nil, "the printed rate is accepted")
	zzsym.Assert((*big.Int)(got).Cmp(n) == 0, "the rate reads back")
	txt, err := r.MarshalJSON()
	zzsym.Assert(err == nil, "a rate marshals")
	back := Rate(*zzsym.BigS("old", 20))
	zzsym.Assert(back.UnmarshalJSON(txt) == nil, "the JSON is accepted")
	zzsym.Assert((*big.Int)(&back).Cmp(n) == 0, "the JSON reads back")
}

// The text of an amount, for every short text: an error or the exact value.
//
//zz:budget=90 split=6 splitdepth=2
//zz:cover good bad
func ZZ_C22_amount() {
	num := zzsym.Str("s", zzsym.Choose("len", zzsym.Bound(4, 5)))
	sep := []string{" ", "", "  ", "\n", "\t"}[zzsym.Choose("sep", zzsym.Bound(3, 5))]
	name := []string{"USD", "1ST", "EDG", "XXX", ""}[zzsym.Choose("name", 5)]
	for i := 0; i < len(num); i++ {
		zzsym.Assume(num[i] < 0x80)
	}
	old := zzsym.BigU("old", 8)
	a := &Amount{Currency: ETH, Amount: *old}
	var err error
	if zzsym.Try(func() { err = a.UnmarshalText([]byte(num + sep + name)) }) {
		zzsym.Assert(false, "reading an amount does not panic")
	}
	if err != nil {
		zzsym.Cover("bad")
		return
	}
	zzsym.Cover("good")
	// the text accepted is a number, then a currency
	all, i := num+sep+name, 0
	for i < len(all) && isdecimal(rune(all[i])) {
		i++
	}
	zzsym.ObsBig("amount", &a.Amount)
	zzsym.ObsStr("currency", string(a.Currency))
	if want, ok := zzDecimal(all[:i], a.Digits()); ok {
		zzsym.Assert(a.Amount.Cmp(want) == 0, "the amount is exactly the number in the text")
	}
}

// JSON rates: every short text is read exactly or refused.
//
//zz:budget=60
//zz:cover quoted bare
func ZZ_C22_json() {
	s := zzsym.Bytes("s", zzsym.Choose("len", zzsym.Bound(5, 7)))
	old := zzsym.BigU("old", 8)
	r := Rate(*old)
	var err error
	if zzsym.Try(func() { err = r.UnmarshalJSON(s) }) {
		zzsym.Assert(false, "reading a rate does not panic")
	}
	t := string(s)
	if t == "null" {
		zzsym.Assert(err == nil && (*big.Int)(&r).Cmp(old) == 0, "null leaves the rate alone")
		return
	}
	if len(t) >= 2 && t[0] == '"' && t[len(t)-1] == '"' {
		t = t[1 : len(t)-1]
		zzsym.Cover("quoted")
	} else {
		zzsym.Cover("bare")
	}
	want, ok := zzDecimal(t, RateDigits)
	if ok {
		zzsym.Assert(err == nil && (*big.Int)(&r).Cmp(want) == 0, "the rate is exactly the number in the text")
	} else {
		zzsym.Assert(err != nil, "anything else is refused")
	}
}
