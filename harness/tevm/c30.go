package tevm

import (
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
)

// Accounts and storage: what is written is what is read, and nothing else
// changes.
//
//zz:prop=C30
//zz:use common_state
//zz:use common_ref

// Any three changes, of any kinds, to either account; everything is compared
// after each.
//
//zz:budget=60 split=6 splitdepth=2
func ZZ_C30_pairs() {
	kinds := [3]int{}
	n := zzsym.Bound(2, 3)
	for i := 0; i < n; i++ {
		kinds[i] = zzsym.Choose("kind", zzKinds)
	}
	s := new(State)
	r := zzNewRef()
	db := s.StateDB()
	if kinds[0] >= 6 {
		r.mutate(db, 0, 0, 0)
		r.mutate(db, 4, 0, 0)
	}
	r.mutate(db, kinds[0], 0, 0)
	r.same(s, "after one change")
	for i := 1; i < n; i++ {
		a := 0
		if kinds[i] != 4 && kinds[i] != 5 && kinds[i] != 8 {
			a = zzsym.Choose("acct", 2)
		}
		r.mutate(db, kinds[i], a, i%2)
	}
	r.same(s, "after the last change")
}

// Balances of any size, added to and taken from.
//
//zz:budget=60 merge=off
func ZZ_C30_balance() {
	s := new(State)
	db := s.StateDB()
	a, b := common.Address(zzAddrs()[0]), common.Address(zzAddrs()[1])
	x, y := zzAmount("x"), zzAmount("y")
	x0, y0 := new(big.Int).Set(x), new(big.Int).Set(y)
	db.SetNonce(b, 3)
	db.AddBalance(b, big.NewInt(55))
	nonce := zzsym.Uint64("nonce")
	db.SetNonce(a, nonce)
	db.AddBalance(a, x)
	zzsym.Assert(db.GetBalance(a).Cmp(x0) == 0, "the balance added is there")
	want := new(big.Int)
	if zzsym.Choose("sub", 2) == 1 {
		zzsym.Assume(y.Cmp(x) <= 0)
		db.SubBalance(a, y)
		want.Sub(x0, y0)
	} else {
		db.AddBalance(a, y)
		want.Add(x0, y0)
	}
	got := db.GetBalance(a)
	zzsym.ObsBig("got", got)
	zzsym.Assert(got.Cmp(want) == 0, "the balance is the sum or the difference")
	zzsym.Assert(x.Cmp(x0) == 0 && y.Cmp(y0) == 0, "the amounts are not changed")
	got.Add(got, big.NewInt(1))
	zzsym.Assert(db.GetBalance(a).Cmp(want) == 0, "changing a balance read does not change the account")
	zzsym.Assert(db.GetNonce(a) == nonce && !db.HasSuicided(a), "the other fields stay")
	zzsym.Assert(db.GetNonce(b) == 3 && db.GetBalance(b).Cmp(big.NewInt(55)) == 0, "the other account stays")
}

// The account record itself, at every width.
//
//zz:budget=60
func ZZ_C30_record() {
	var acct Account
	for i := range acct[:40] {
		acct[i] = zzsym.Byte("old")
	}
	sui := zzsym.Choose("suicided", 2) == 1
	acct.SetSuicided(sui)
	bal0, nonce0 := acct.Balance(), acct.Nonce()
	zzsym.Assert(bal0.Big().Cmp(new(big.Int).SetBytes(acct[:32])) == 0, "the balance is the first 32 bytes")
	n := zzsym.Uint64("n")
	v := zzAmount("v")
	switch zzsym.Choose("op", 3) {
	case 0:
		acct.SetBalance(v)
		bal := acct.Balance()
		zzsym.Assert(bal.Big().Cmp(v) == 0, "the balance reads back")
		zzsym.Assert(acct.Nonce() == nonce0 && acct.Suicided() == sui, "the rest stays")
	case 1:
		acct.SetNonce(n)
		bal := acct.Balance()
		zzsym.Assert(acct.Nonce() == n, "the nonce reads back")
		zzsym.Assert(bal.Big().Cmp(bal0.Big()) == 0 && acct.Suicided() == sui, "the rest stays")
	default:
		acct.SetSuicided(!sui)
		bal := acct.Balance()
		zzsym.Assert(acct.Suicided() == !sui, "the mark reads back")
		zzsym.Assert(bal.Big().Cmp(bal0.Big()) == 0 && acct.Nonce() == nonce0, "the rest stays")
	}
}

// Storage slots of any two accounts at any two positions hold their own
// values, of every byte.
//
//zz:budget=60
//zz:cover same other zero
func ZZ_C30_storage() {
	s := new(State)
	db := s.StateDB()
	a := common.Address(zzPick("a"))
	b := common.Address(zzPick("b"))
	var ka, kb, va, vb common.Hash
	pos := []int{0, 12, 31}[zzsym.Choose("pos", 3)]
	kb[pos] = byte(zzsym.Choose("kb", 2))
	copy(va[:], zzsym.Bytes("va", 32))
	vpos := []int{0, 31}[zzsym.Choose("vpos", 2)]
	vb[vpos] = zzsym.Byte("vb")
	db.SetState(a, ka, va)
	got := db.GetState(a, ka)
	zzsym.Assert(zzsym.EqBytes(got[:], va[:]), "a slot reads back")
	db.SetState(b, kb, vb)
	got = db.GetState(b, kb)
	zzsym.Assert(zzsym.EqBytes(got[:], vb[:]), "a slot reads back")
	zzsym.ObsBytes("b", got[:])
	got = db.GetState(a, ka)
	if a == b && ka == kb {
		zzsym.Cover("same")
		zzsym.Assert(zzsym.EqBytes(got[:], vb[:]), "a slot is overwritten")
	} else {
		zzsym.Cover("other")
		zzsym.Assert(zzsym.EqBytes(got[:], va[:]), "another slot stays")
	}
	db.SetState(a, ka, common.Hash{})
	got = db.GetState(a, ka)
	zzsym.Assert(zzsym.EqBytes(got[:], make([]byte, 32)), "a slot is cleared")
	zzsym.Cover("zero")
	got = db.GetState(b, kb)
	if a != b || ka != kb {
		zzsym.Assert(zzsym.EqBytes(got[:], vb[:]), "clearing a slot leaves the others")
	}
	zzsym.Assert(!db.Exist(a), "storage does not make an account")
}

// Code of any length with its hash, kept apart from the buffer given.
//
//zz:budget=60
func ZZ_C30_code() {
	s := new(State)
	db := s.StateDB()
	a, b := common.Address(zzAddrs()[0]), common.Address(zzAddrs()[1])
	code := zzsym.Bytes("code", zzsym.Choose("len", 4))
	code0 := append([]byte{}, code...)
	other := []byte{1, 2, 3}
	db.SetCode(b, other)
	db.SetCode(a, code)
	zzsym.Assert(zzsym.EqBytes(db.GetCode(a), code0), "the code reads back")
	zzsym.Assert(db.GetCodeSize(a) == len(code0), "the size is the code's")
	zzsym.Assert(common.Hash(seth.HashBytes(code0)) == db.GetCodeHash(a), "the hash is the code's")
	zzsym.Assert(zzsym.EqBytes(db.GetCode(b), []byte{1, 2, 3}), "other code stays")
	zzsym.Assert(db.GetBalance(a).Sign() == 0 && db.GetNonce(a) == 0, "code gives no balance or nonce")
}

// A contract created at an address that already has ether keeps it, starts
// with nonce 1 and no storage, and runs with its own code.
//
//zz:budget=60
func ZZ_C30_create() {
	addrs := zzAddrs()
	user := addrs[0]
	c := NewChain()
	db := c.State.StateDB()
	x := zzAmount("x")
	zzFund(c, &user, big.NewInt(1000), 0)
	w := zzsym.Byte("w")
	// returns the one byte w as the code
	init := []byte{0x60, w, 0x60, 0, 0x53, 0x60, 1, 0x60, 0, 0xf3}
	fresh := common.Address(Model__geth_crypto__CreateAddress(common.Address(user), 0))
	sent := zzsym.Choose("sent", 2) == 1
	if sent {
		f := seth.Address(fresh)
		zzFund(c, &f, x, 0)
	} else {
		x = new(big.Int)
	}
	got, err := c.Create(&user, init)
	zzsym.Assert(err == nil && common.Address(got) == fresh, "the contract is created at its address")
	zzsym.Assert(db.GetBalance(fresh).Cmp(x) == 0, "it keeps the balance the address had")
	zzsym.Assert(db.GetNonce(fresh) == 1 && db.GetNonce(common.Address(user)) == 1, "the nonces count the creation")
	code := db.GetCode(fresh)
	zzsym.Assert(len(code) == 1 && code[0] == w, "the code is what the constructor returned")
	zzsym.Assert(db.Exist(fresh) && !db.Empty(fresh), "it exists")
	zzsym.Assert(!db.Exist(common.Address(addrs[2])), "nothing else appears")
}

// New accounts have the ether asked for and are told apart from none.
//
//zz:budget=30
func ZZ_C30_new() {
	c := NewChain()
	n := []int{0, 1, 7, 1000000}[zzsym.Choose("ether", 4)]
	a := c.NewAccount(n)
	want := new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)
	want.Mul(want, big.NewInt(int64(n)))
	zzsym.Assert(c.BalanceOf(&a).Cmp(want) == 0, "the account has the ether asked for")
	db := c.State.StateDB()
	zzsym.Assert(db.Exist(common.Address(a)), "the account exists")
	zzsym.Assert(db.GetNonce(common.Address(a)) == 0 && db.GetCodeSize(common.Address(a)) == 0, "and starts empty")
	zzsym.Assert(db.Empty(common.Address(a)) == (n == 0), "it is empty without ether")
	b := a
	b[5] ^= 1
	zzsym.Assert(!db.Exist(common.Address(b)) && c.BalanceOf(&b).Sign() == 0, "others do not exist")
	v := zzAmount("v")
	c.AddBalance(&b, v)
	zzsym.Assert(c.BalanceOf(&b).Cmp(v) == 0 && c.BalanceOf(&a).Cmp(want) == 0, "balances are added one by one")
	c.SubBalance(&b, v)
	zzsym.Assert(c.BalanceOf(&b).Sign() == 0 && c.BalanceOf(&a).Cmp(want) == 0, "and taken away")
}
