package tevm

import (
	"encoding/json"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
)

// Forks: what was not changed locally is read from the node at the block of
// the fork, what was changed is not.
//
//zz:prop=C46
//zz:use common_state
//zz:use common_ref

// zzForkNode is a node with two accounts.
type zzForkNode struct {
	block string // the block all questions must be about
	bal   [2]byte
	nonce [2]byte
	code  [2]int // -1: none, else its one byte
	slot  [2][2]byte
	body  []byte // the code of the first account, if it is longer
	fresh bool   // no further questions are expected
}

func zzHexByte(b byte) string {
	const digits = "0123456789abcdef"
	return string([]byte{digits[b>>4], digits[b&15]})
}

func (z *zzForkNode) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	zzsym.Assert(!z.fresh, "what is known is not asked for again")
	block := string(req.Params[len(req.Params)-1])
	if z.block == `"0x0"` && block == `"earliest"` {
		block = z.block
	}
	zzsym.Assert(block == z.block, "the question is about the block of the fork")
	var addr seth.Address
	zzsym.Assert(json.Unmarshal(req.Params[0], &addr) == nil, "the address is one")
	a := -1
	for i, x := range zzAddrs() {
		if i < 2 && x == addr {
			a = i
		}
	}
	v := byte(0)
	hex := ""
	switch req.Method {
	case "eth_getBalance":
		if a >= 0 {
			v = z.bal[a]
		}
		hex = zzHexByte(v)
	case "eth_getTransactionCount":
		if a >= 0 {
			v = z.nonce[a]
		}
		hex = zzHexByte(v)
	case "eth_getCode":
		if a == 0 && z.body != nil {
			for _, b := range z.body {
				hex += zzHexByte(b)
			}
		} else if a >= 0 && z.code[a] >= 0 {
			hex = zzHexByte(byte(z.code[a]))
		}
	case "eth_getStorageAt":
		zzsym.Assert(len(req.Params) == 3, "the parameters are complete")
		var h seth.Hash
		zzsym.Assert(json.Unmarshal(req.Params[1], &h) == nil, "the slot is one")
		for i := 0; i < 2; i++ {
			if common.Hash(h) == zzSlot(i) && a >= 0 {
				v = z.slot[a][i]
			}
		}
		for i := 0; i < 32; i++ {
			if i == 7 {
				hex += zzHexByte(v)
			} else {
				hex += "00"
			}
		}
	default:
		zzsym.Assert(false, "the question is about an account")
	}
	res.ID, res.Version = req.ID, "2.0"
	res.Result = []byte(`"0x` + hex + `"`)
	return nil
}

// zzForked is a fork over a node with accounts of any content, and the
// reference for it.
func zzForked(blocks int) (*zzForkNode, *Chain, *zzRef) {
	i := zzsym.Choose("block", blocks)
	n := []int64{4000000, 0}[i]
	z := &zzForkNode{block: []string{`"0x3d0900"`, `"0x0"`}[i]}
	r := zzNewRef()
	// the second account exists on the node in one way, the first in any
	z.bal = [2]byte{zzsym.Byte("nodebal"), 3}
	z.nonce = [2]byte{zzsym.Byte("nodenonce"), 4}
	z.code = [2]int{-1, 5}
	z.slot[0] = [2]byte{zzsym.Byte("nodeslot"), 0}
	z.slot[1] = [2]byte{6, 7}
	if zzsym.Choose("nodecode", 2) == 1 {
		z.code[0] = int(zzsym.Byte("nodecode"))
	}
	for a := 0; a < 2; a++ {
		r.bal[a], r.nonce[a] = uint64(z.bal[a]), uint64(z.nonce[a])
		r.code[a], r.slot[a] = z.code[a], z.slot[a]
		r.exists[a] = zzsym.Or(z.bal[a] != 0, zzsym.Or(z.nonce[a] != 0, z.code[a] >= 0))
	}
	return z, NewFork(seth.NewClientTransport(z), n), r
}

func (r *zzRef) forkMutate(c *Chain, kind, a, s int) {
	r.mutate(c.State.StateDB(), kind, a, s)
	if kind == 2 {
		// what has code exists
		r.exists[a] = true
	}
}

var zzForkKinds = [6]int{0, 1, 2, 3, 6, 7}

// Accounts of any balance, nonce and slot up to 255 on the node, with and
// without code: everything read before and after any two local changes.
//
//zz:budget=60 split=6 splitdepth=3
func ZZ_C46_changes() {
	k0, k1 := zzForkKinds[zzsym.Choose("kind", 6)], zzForkKinds[zzsym.Choose("then", 6)]
	a1 := zzsym.Choose("acct", 2)
	look := zzsym.Choose("look", 2) == 1
	_, c, r := zzForked(1)
	if look {
		r.same(&c.State, "before any change")
	}
	r.forkMutate(c, k0, 0, 0)
	r.forkMutate(c, k1, a1, a1)
	r.same(&c.State, "after two changes")
}

// A change is taken back: the state is the node's again.
//
//zz:budget=60 split=4 splitdepth=3
func ZZ_C46_revert() {
	k := zzForkKinds[zzsym.Choose("kind", 6)]
	look := zzsym.Choose("look", 2) == 1
	_, c, r := zzForked(2)
	if look {
		r.same(&c.State, "before any change")
	}
	old := *r
	db := c.State.StateDB()
	snap := db.Snapshot()
	r.forkMutate(c, k, 0, 0)
	r.same(&c.State, "after a change")
	db.RevertToSnapshot(snap)
	old.same(&c.State, "after a revert")
}

// A copy of a fork reads from the node, too, and has the changes made before;
// later changes are not in the other.
//
//zz:budget=60 split=4 splitdepth=3
func ZZ_C46_copy() {
	k0, k1 := zzForkKinds[zzsym.Choose("kind", zzsym.Bound(5, 6))], zzForkKinds[zzsym.Choose("then", zzsym.Bound(4, 6))]
	orig := zzsym.Choose("orig", 2) == 1
	_, c, r := zzForked(1)
	r.forkMutate(c, k0, 0, 0)
	cc := c.Copy()
	old := *r
	if orig {
		c, cc = cc, c
	}
	r.forkMutate(c, k1, 0, 0)
	r.same(&c.State, "the changed one")
	old.same(&cc.State, "the other one")
}

// A contract of the node is called: it runs whatever else the account has,
// reads its slots from the node, and what it writes stays in the fork.
//
//zz:budget=60 split=4 splitdepth=3
func ZZ_C46_call() {
	z, c, r := zzForked(2)
	addrs := zzAddrs()
	// slot 1 = slot 0 + 1; return slot 0
	z.body = []byte{0x60, 0, 0x54, 0x60, 1, 0x01, 0x60, 1, 0x55,
		0x60, 0, 0x54, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3}
	user := addrs[2]
	zzFund(c, &user, big.NewInt(1000), 1)
	before := z.slot[0][0]
	out, err := c.Call(&user, &addrs[0], "go()")
	zzsym.Assert(err == nil, "the call succeeds")
	zzsym.Assert(len(out) == 32, "the contract answers")
	zzsym.Assert(out[7] == before, "the contract reads the slot of the node")
	var h common.Hash
	h[7], h[31] = before, 1
	got := c.State.StateDB().GetState(common.Address(addrs[0]), zzSlot(1))
	zzsym.Assert(zzsym.EqBytes(got[:], h[:]), "the contract's slot is written")
	zzsym.Assert(zzsym.EqBytes(z.slot[0][:], r.slot[0][:]), "the node is as it was")
}

// What is sent from and to accounts of the node, of which the second runs code.
//
//zz:budget=60
func ZZ_C46_send() {
	z, c, r := zzForked(2)
	addrs := zzAddrs()
	z.code = [2]int{-1, -1}
	if zzsym.Choose("code", 2) == 1 {
		z.code[1] = 0 // STOP
	}
	v := zzsym.Byte("v")
	from := zzsym.Choose("from", 2)
	err := c.Send(&addrs[from], &addrs[1-from], big.NewInt(int64(v)))
	if uint64(v) <= r.bal[from] {
		zzsym.Assert(err == nil, "what is there can be sent")
		r.bal[from] -= uint64(v)
		r.bal[1-from] += uint64(v)
	} else {
		zzsym.Assert(err != nil, "what is not there can't be sent")
	}
	for i := 0; i < 2; i++ {
		zzsym.Assert(c.BalanceOf(&addrs[i]).Cmp(new(big.Int).SetUint64(r.bal[i])) == 0, "the balances are those of the node but for what was sent")
	}
}

// Contracts of one instruction, any of the 256, on a stack of 0s, 1s or 32s:
// none of them crashes the simulator, called or asked about.
//
//zz:budget=60 split=8 splitdepth=2
func ZZ_C46_instructions() {
	hi, lo := zzsym.Choose("hi", 16), zzsym.Choose("lo", 16)
	arg := []byte{0, 1, 32}[zzsym.Choose("arg", 3)]
	how := zzsym.Choose("how", 3)
	z, c := new(zzForkNode), (*Chain)(nil)
	z.block, z.code = `"0x3d0900"`, [2]int{-1, -1}
	addrs := zzAddrs()
	for i := 0; i < 7; i++ {
		z.body = append(z.body, 0x60, arg)
	}
	z.body = append(z.body, byte(hi<<4|lo), 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3)
	c = NewFork(seth.NewClientTransport(z), 4000000)
	user := addrs[2]
	zzFund(c, &user, big.NewInt(1000), 1)
	switch how {
	case 0:
		c.Call(&user, &addrs[0], "go()")
	case 1:
		c.StaticCall(&user, &addrs[0], "go()")
	default:
		c.Mine(&seth.Transaction{From: &user, To: &addrs[0], Gas: 500000, Nonce: 1})
	}
	_, err := c.Call(&user, &addrs[3], "go()")
	zzsym.Assert(err == nil, "the simulator goes on")
}

// The gas price that a contract sees is that of the transaction or the call.
//
//zz:budget=60
func ZZ_C46_gasprice() {
	z, c := new(zzForkNode), (*Chain)(nil)
	z.block, z.code = `"0x3d0900"`, [2]int{-1, -1}
	// slot 0 = gas price; return it
	z.body = []byte{0x3a, 0x80, 0x60, 0, 0x55, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3}
	c = NewFork(seth.NewClientTransport(z), 4000000)
	addrs := zzAddrs()
	user := addrs[2]
	zzFund(c, &user, big.NewInt(1000), 1)
	price := zzsym.Byte("price")
	ret, _, err := c.Mine(&seth.Transaction{From: &user, To: &addrs[0], Gas: 500000, Nonce: 1, GasPrice: *seth.NewInt(int64(price))})
	zzsym.Assert(err == nil && len(ret) == 32, "the transaction runs")
	zzsym.Assert(ret[31] == price && ret[30] == 0, "the price is that of the transaction")
	got := c.State.StateDB().GetState(common.Address(addrs[0]), zzSlot(0))
	zzsym.Assert(got[31] == price, "the price is written")
}
