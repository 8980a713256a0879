package tevm

import (
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
)

// Reverting to a snapshot restores the state; nothing else undoes anything.
//
//zz:prop=C29
//zz:use common_state
//zz:use common_ref

type zzStateHist struct {
	s     State
	r     *zzRef
	ids   []int
	saved []zzRef
}

func (h *zzStateHist) snap() {
	h.ids = append(h.ids, h.s.StateDB().Snapshot())
	h.saved = append(h.saved, *h.r)
}

func (h *zzStateHist) revert(i int) {
	h.s.StateDB().RevertToSnapshot(h.ids[i])
	*h.r = h.saved[i]
	h.ids, h.saved = h.ids[:i], h.saved[:i]
}

// One kind of change at a time, to either account, around nested snapshots
// and reverts to any of them.
//
//zz:budget=60 split=6 splitdepth=2
func ZZ_C29_kinds() {
	kind := zzsym.Choose("kind", zzKinds)
	h := &zzStateHist{r: zzNewRef()}
	db := h.s.StateDB()
	first := zzsym.Choose("first", 2)
	n := 0
	change := func() {
		n++
		a := 0
		if n == 2 || n == 4 {
			a = zzsym.Choose("acct", 2)
		}
		if kind == 6 || kind == 8 {
			// something to take away
			h.r.mutate(db, kind-6, a, 0)
			h.r.mutate(db, 4, a, 0)
		}
		h.r.mutate(db, kind, a, n%2)
	}
	if first == 1 {
		change()
	}
	h.snap()
	change()
	h.snap()
	change()
	h.r.same(&h.s, "without a revert")
	h.revert(zzsym.Choose("to", 2))
	h.r.same(&h.s, "after a revert")
	change()
	h.snap()
	change()
	h.revert(zzsym.Choose("then", len(h.ids)))
	h.r.same(&h.s, "after a second revert")
}

// Every history of changes (of all kinds at once), snapshots and reverts.
//
//zz:budget=60 split=4 splitdepth=3
func ZZ_C29_all() {
	h := &zzStateHist{r: zzNewRef()}
	db := h.s.StateDB()
	steps := zzsym.Bound(5, 7)
	changes := 0
	ops := make([]int, steps)
	depth := 0
	for i := range ops {
		ops[i] = zzsym.Choose("op", 2+depth)
		if ops[i] == 1 {
			depth++
		}
		if ops[i] > 1 {
			depth = ops[i] - 2
		}
	}
	for _, op := range ops {
		switch op {
		case 0:
			if changes == 2 {
				return
			}
			changes++
			for _, kind := range []int{0, 1, 2, 3, 4, 5} {
				h.r.mutate(db, kind, 0, 0)
			}
			h.r.mutate(db, 1, 1, 0)
			if changes == 2 {
				h.r.mutate(db, 6, 0, 0)
			}
		case 1:
			h.snap()
		default:
			h.revert(op - 2)
		}
	}
	h.r.same(&h.s, "at the end")
}

// A contract writes storage, logs, sends ether and creates a contract, and
// then succeeds or fails in one of several ways, called directly or by another
// contract that carries on. What failed leaves nothing behind.
//
//zz:budget=60 split=4 splitdepth=2
//zz:cover ok failed
func ZZ_C29_calls() {
	addrs := zzAddrs()
	user, inner, outer, pal := addrs[0], addrs[1], addrs[2], addrs[3]
	c := NewChain()
	db := c.State.StateDB()
	end := zzsym.Choose("end", 5)
	nested := zzsym.Choose("nested", 2) == 1
	v, w := zzsym.Byte("v"), zzsym.Byte("w")
	zzFund(c, &user, big.NewInt(1000), 7)
	zzFund(c, &inner, big.NewInt(500), 1)
	zzFund(c, &outer, big.NewInt(300), 1)
	old := zzsym.Byte("old")
	var h0 common.Hash
	h0[31] = old
	db.SetState(common.Address(inner), zzSlot(0), h0)

	asm := []byte{0x60, v, 0x60, 0, 0x55}                             // slot 0 = v
	asm = append(asm, 0x60, w, 0x60, 0, 0x53, 0x60, 1, 0x60, 0, 0xa0) // log byte w
	asm = append(asm, 0x60, 0, 0x60, 0, 0x60, 5, 0xf0, 0x50)          // create(5, empty)
	asm = append(asm, zzCall(&pal, 11)...)
	switch end {
	case 1: // revert
		asm = append(asm, 0x60, 0, 0x60, 0, 0xfd)
	case 2: // invalid instruction
		asm = append(asm, 0xfe)
	case 3: // stack underflow
		asm = append(asm, 0x01)
	case 4: // out of gas: memory far away
		asm = append(asm, 0x60, 1, 0x64, 1, 0, 0, 0, 0, 0x52)
	}
	failed := end != 0
	db.SetCode(common.Address(inner), asm)
	to := inner
	if nested {
		to = outer
		// slot 1 = 9, call inner with all but a 64th of the gas, log
		asm := []byte{0x60, 9, 0x60, 1, 0x55}
		asm = append(asm, zzCall(&inner, 3)...)
		asm = append(asm, 0x60, 0, 0x60, 0, 0xa0)
		db.SetCode(common.Address(outer), asm)
	}
	snaps := len(c.State.Snapshots)
	_, err := c.Call(&user, &to, "go()")
	zzsym.Assert((err != nil) == (failed && !nested), "the call fails exactly when the code does")
	_ = snaps

	var slot, kept common.Hash
	bal := map[seth.Address]int64{user: 1000, inner: 500, outer: 300, pal: 0}
	logs, nonce := 0, uint64(1)
	slot = h0
	if !failed {
		zzsym.Cover("ok")
		slot = common.Hash{}
		slot[31] = v
		bal[inner] -= 16
		bal[pal] += 11
		logs++
		nonce++
	} else {
		zzsym.Cover("failed")
	}
	if nested {
		kept[31] = 9
		if !failed {
			bal[inner] += 3
			bal[outer] -= 3
		}
		logs++
	}
	got := db.GetState(common.Address(inner), zzSlot(0))
	zzsym.Assert(zzsym.EqBytes(got[:], slot[:]), "the storage is what was written, or what it was")
	got = db.GetState(common.Address(outer), zzSlot(1))
	zzsym.Assert(zzsym.EqBytes(got[:], kept[:]), "the caller keeps its writes")
	for a, b := range bal {
		a := a
		zzsym.Assert(zzEqBig(c.BalanceOf(&a), big.NewInt(b)), "the balances moved, or not at all")
	}
	zzsym.Assert(len(c.State.Logs) == logs, "the logs are those of what succeeded")
	if logs > 0 && !failed {
		zzsym.Assert(len(c.State.Logs[0].Data) == 1 && c.State.Logs[0].Data[0] == w, "the log has its data")
	}
	zzsym.Assert(db.GetNonce(common.Address(inner)) == nonce, "the creator's nonce counts what it created")
	zzsym.Assert(db.Exist(common.Address(pal)) == !failed, "a recipient is created by a transfer that happened")
	zzsym.Assert(db.GetNonce(common.Address(user)) == 7, "the sender's nonce stays")
}

// zzCall is code that sends a value to an address.
func zzCall(to *seth.Address, value byte) []byte {
	asm := []byte{0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, value, 0x73}
	asm = append(asm, to[:]...)
	return append(asm, 0x5a, 0xf1, 0x50)
}

// Gas estimates and static calls leave the state alone, whether they succeed
// or not.
//
//zz:budget=60
func ZZ_C29_dry() {
	addrs := zzAddrs()
	user, con, pal := addrs[0], addrs[1], addrs[3]
	c := NewChain()
	db := c.State.StateDB()
	v := zzsym.Byte("v")
	zzFund(c, &user, big.NewInt(1000), 7)
	zzFund(c, &con, big.NewInt(500), 1)
	asm := []byte{0x60, v, 0x60, 0, 0x55, 0x60, 0, 0x60, 0, 0xa0}
	asm = append(asm, zzCall(&pal, 11)...)
	if zzsym.Choose("fail", 2) == 1 {
		asm = append(asm, 0xfe)
	}
	db.SetCode(common.Address(con), asm)
	call := &callArgs{From: common.Address(user), Data: seth.Data(asm)}
	block := []int64{-1, -2, 100}[zzsym.Choose("block", 3)]
	switch zzsym.Choose("what", 4) {
	case 0:
		c.estimate(call, block)
	case 1:
		to := common.Address(con)
		call.To = &to
		c.estimate(call, block)
	case 2:
		to := common.Address(con)
		call.To = &to
		_, err := c.staticCall(call, block)
		zzsym.Assert(err != nil, "a static call cannot write")
	default:
		_, err := c.StaticCall(&user, &con, "go()")
		zzsym.Assert(err != nil, "a static call cannot write")
	}
	got := db.GetState(common.Address(con), zzSlot(0))
	zzsym.Assert(zzsym.EqBytes(got[:], make([]byte, 32)), "the storage stays")
	zzsym.Assert(zzEqBig(c.BalanceOf(&user), big.NewInt(1000)) && zzEqBig(c.BalanceOf(&con), big.NewInt(500)), "the balances stay")
	zzsym.Assert(db.GetNonce(common.Address(user)) == 7 && db.GetNonce(common.Address(con)) == 1, "the nonces stay")
	zzsym.Assert(!db.Exist(common.Address(pal)), "no account appears")
	zzsym.Assert(len(c.State.Logs) == 0, "no log appears")
}
