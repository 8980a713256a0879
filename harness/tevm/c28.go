package tevm

import (
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
)

// Value transfers: nothing is minted, nothing is lost, nobody else is touched.
//
//zz:prop=C28
//zz:use common_state

// A transfer through the chain between any two addresses (the same one
// included) with any balances, whether or not they exist yet; a third account
// looks on.
//
//zz:budget=60 split=4 splitdepth=2
//zz:cover self other zero unaffordable newcomer
func ZZ_C28_send() {
	c := zzChain()
	from, to := zzPick("from"), zzPick("to")
	third := zzOther(&from, &to)
	bf, bt, b3 := zzAmount("bf"), zzAmount("bt"), big.NewInt(77)
	v := zzAmount("v")
	self := zzEqAddr(&from, &to)
	nf, nt := zzsym.Uint64("nf"), zzsym.Uint64("nt")
	db := c.State.StateDB()
	zzFund(c, &from, bf, nf)
	zzFund(c, &third, b3, 3)
	newcomer := false
	if self {
		bt, nt = bf, nf
	} else if zzsym.Choose("newcomer", 2) == 1 {
		newcomer = true
		bt, nt = new(big.Int), 0
	} else {
		zzFund(c, &to, bt, nt)
	}
	bf0, bt0, v0 := new(big.Int).Set(bf), new(big.Int).Set(bt), new(big.Int).Set(v)

	err := c.Send(&from, &to, v)

	zzsym.Assert(v.Cmp(v0) == 0, "the amount is not changed")
	zzsym.Assert(zzEqBig(c.BalanceOf(&third), b3), "another account keeps its balance")
	zzsym.Assert(db.GetNonce(common.Address(third)) == 3, "another account keeps its nonce")
	zzsym.Assert(db.GetNonce(common.Address(from)) == nf, "the sender's nonce stays")
	zzsym.Assert(db.GetNonce(common.Address(to)) == nt, "the recipient's nonce stays")
	if bf0.Cmp(v0) < 0 {
		zzsym.Cover("unaffordable")
		zzsym.Assert(err != nil, "a transfer that is not affordable fails")
		zzsym.Assert(zzEqBig(c.BalanceOf(&from), bf0), "a failed transfer leaves the sender's balance")
		zzsym.Assert(zzEqBig(c.BalanceOf(&to), bt0), "a failed transfer leaves the recipient's balance")
		return
	}
	zzsym.Assert(err == nil, "an affordable transfer succeeds")
	if self {
		zzsym.Cover("self")
		zzsym.Assert(zzEqBig(c.BalanceOf(&from), bf0), "a transfer to oneself changes nothing")
		return
	}
	if newcomer {
		zzsym.Cover("newcomer")
	}
	if v0.Sign() == 0 {
		zzsym.Cover("zero")
	} else {
		zzsym.Cover("other")
	}
	zzsym.Assert(zzEqBig(c.BalanceOf(&from), bf0.Sub(bf0, v0)), "the amount leaves the sender")
	zzsym.Assert(zzEqBig(c.BalanceOf(&to), bt0.Add(bt0, v0)), "the amount reaches the recipient")
}

// A contract that passes on the value in its call data, then stops or fails.
//
//zz:budget=60 split=2 splitdepth=2
//zz:cover done short failed
func ZZ_C28_contract() {
	addrs := zzAddrs()
	user, con, to := addrs[0], addrs[1], addrs[2*zzsym.Choose("to", 2)]
	fail := zzsym.Choose("fail", 2) == 1
	c := zzChain()
	db := c.State.StateDB()
	bc, bt, v := zzAmount("bc"), zzAmount("bt"), zzAmount("v")
	zzFund(c, &user, big.NewInt(5), 1)
	zzFund(c, &con, bc, 1)
	if zzsym.Choose("exists", 2) == 1 {
		zzFund(c, &addrs[2], bt, 1)
	} else {
		bt = new(big.Int)
	}
	zzFund(c, &addrs[3], big.NewInt(9), 1)
	// call(gas, to, calldata[4:36], 0, 0, 0, 0)
	code := []byte{0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, 4, 0x35, 0x73}
	code = append(code, to[:]...)
	code = append(code, 0x5a, 0xf1)
	if fail {
		code = append(code, 0xfe)
	}
	db.SetCode(common.Address(con), code)
	before := [3]*big.Int{big.NewInt(5), new(big.Int).Set(bc), new(big.Int).Set(bt)}
	arg := seth.NewInt(0)
	*arg.Big() = *v

	_, err := c.Call(&user, &con, "pay(uint256)", arg)

	zzsym.Assert((err != nil) == fail, "the call fails exactly when the code does")
	zzsym.Assert(zzEqBig(c.BalanceOf(&addrs[3]), big.NewInt(9)), "another account keeps its balance")
	if !fail && v.Cmp(bc) <= 0 {
		zzsym.Cover("done")
		before[1].Sub(before[1], v)
		for i := range before {
			if to == addrs[i] {
				before[i].Add(before[i], v)
			}
		}
	} else if fail {
		zzsym.Cover("failed")
	} else {
		zzsym.Cover("short")
	}
	for i := range before {
		zzsym.Assert(zzEqBig(c.BalanceOf(&addrs[i]), before[i]), "the amount moves from the contract to the recipient, or nothing does")
	}
}

// A contract that destroys itself hands over its balance: no ether appears.
//
//zz:budget=60
func ZZ_C28_destroy() {
	addrs := zzAddrs()
	user, con, to := addrs[0], addrs[1], addrs[2*zzsym.Choose("to", 2)]
	c := zzChain()
	db := c.State.StateDB()
	bc, bt := zzAmount("bc"), zzAmount("bt")
	zzFund(c, &to, bt, 1)
	zzFund(c, &con, bc, 1)
	db.SetCode(common.Address(con), append(append([]byte{0x73}, to[:]...), 0xff))
	want := new(big.Int).Add(bc, bt)
	_, err := c.Call(&user, &con, "end()")
	zzsym.Assert(err == nil, "the call succeeds")
	zzsym.Assert(zzEqBig(c.BalanceOf(&to), want), "the balance reaches the beneficiary")
	zzsym.Assert(c.BalanceOf(&con).Sign() == 0, "the balance leaves the contract")
}
