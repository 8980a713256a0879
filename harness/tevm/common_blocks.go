package tevm

import (
	"math/big"

	"github.com/ethereum/go-ethereum/core/types"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
)

// zzSide is a chain together with what it should hold.
type zzSide struct {
	c     *Chain
	old   []zzBlk // sealed blocks
	pend  zzBlk
	first int64
	bal   [2]int64
	odd   bool // amounts are odd, so never 0
}

type zzBlk struct {
	n   int64
	txs []zzTxn
	bal [2]int64
}

type zzTxn struct {
	hash  seth.Hash
	value int64
	ok    bool
}

func zzNewSide(c *Chain, first int64) *zzSide {
	addrs := zzAddrs()
	zzFund(c, &addrs[0], big.NewInt(1000), 3)
	return &zzSide{c: c, first: first, pend: zzBlk{n: first}, bal: [2]int64{1000, 0}}
}

func (z *zzSide) fork(c *Chain) *zzSide {
	o := *z
	o.c = c
	o.old = append([]zzBlk(nil), z.old...)
	o.pend.txs = append([]zzTxn(nil), z.pend.txs...)
	return &o
}

// mine sends ether from the first account to the second: more than there is
// when ok is false.
func (z *zzSide) mine(ok bool) {
	addrs := zzAddrs()
	v := int64(zzsym.Byte("value") & 0x3f)
	if z.odd {
		v |= 1
	}
	if !ok {
		v += 1001
	}
	tx := &seth.Transaction{From: &addrs[0], To: &addrs[1], Value: *seth.NewInt(v), Gas: 100000}
	_, h, err := z.c.Mine(tx)
	zzsym.Assert((err == nil) == ok, "a transaction fails exactly when it cannot be paid")
	if ok {
		z.bal[0] -= v
		z.bal[1] += v
	}
	for _, b := range append([]zzBlk{z.pend}, z.old...) {
		for _, t := range b.txs {
			zzsym.Assert(t.hash != h, "each transaction has a hash of its own")
		}
	}
	z.pend.txs = append(z.pend.txs, zzTxn{h, v, ok})
}

func (z *zzSide) seal() {
	z.c.Seal()
	z.pend.bal = z.bal
	z.old = append(z.old, z.pend)
	z.pend = zzBlk{n: z.pend.n + 1}
}

func (z *zzSide) op(k int) {
	switch k {
	case 0:
		z.seal()
	default:
		z.mine(k == 1)
	}
}

func (z *zzSide) balances(c *Chain, bal [2]int64, what string) {
	addrs := zzAddrs()
	for i := range bal {
		zzsym.Assert(zzEqBig(c.BalanceOf(&addrs[i]), big.NewInt(bal[i])), what)
	}
}

// history checks the state at every block.
func (z *zzSide) history() {
	z.balances(z.c, z.bal, "the current state is that after all transactions")
	for _, b := range z.old {
		at := z.c.AtBlock(b.n)
		zzsym.Assert(at != nil, "a sealed block can be looked at")
		z.balances(at, b.bal, "the state at a block is that when it was sealed")
	}
	if len(z.old) > 0 {
		z.balances(z.c.AtBlock(-2), z.old[len(z.old)-1].bal, "the latest state is that of the last block")
	}
	z.balances(z.c.AtBlock(-1), z.bal, "the pending state is the current one")
	zzsym.Assert(z.c.AtBlock(z.pend.n+1) == nil, "there is no state after the pending block")
	if len(z.old) > 0 {
		zzsym.Assert(z.c.AtBlock(z.first-1) == nil, "there is no state before the first block")
	}
}

func (z *zzSide) block(b *seth.Block, err error, w *zzBlk, last *seth.Hash) {
	zzsym.Assert(err == nil, "a block can be asked for")
	zzsym.Assert(b.Number != nil && int64(*b.Number) == w.n && b.Hash != nil, "blocks are numbered one by one")
	if last != nil {
		zzsym.Assert(b.Parent == *last, "a block's parent is the one before")
	}
	zzsym.Assert(len(b.Transactions) == len(w.txs), "a block has its transactions")
	for i, t := range w.txs {
		s := t.hash.String()
		zzsym.Assert(string(b.Transactions[i]) == `"`+s+`"`, "in order")
	}
}

// records checks blocks, transactions and receipts.
func (z *zzSide) records() {
	cl := z.c.Client()
	var last *seth.Hash
	for i := range z.old {
		w := &z.old[i]
		b, err := cl.GetBlock(w.n, false)
		z.block(b, err, w, last)
		last = b.Hash
		for j := range w.txs {
			t := &w.txs[j]
			r, err := cl.GetReceipt(&t.hash)
			zzsym.Assert(err == nil, "a sealed transaction has a receipt")
			zzsym.Assert(r.Hash == t.hash && int(r.Index) == j, "of that transaction")
			zzsym.Assert(int64(r.BlockNumber) == w.n && r.BlockHash == *b.Hash, "in that block")
			zzsym.Assert(r.Threw() == !t.ok, "telling whether it failed")
			z.tx(cl, t, w, j, b.Hash)
		}
	}
	b, err := cl.GetBlock(z.pend.n, false)
	z.block(b, err, &z.pend, last)
	for j := range z.pend.txs {
		t := &z.pend.txs[j]
		_, err := cl.GetReceipt(&t.hash)
		zzsym.Assert(err != nil, "a pending transaction has no receipt yet")
		z.tx(cl, t, &z.pend, j, b.Hash)
	}
	if n := len(z.old); n > 0 {
		b, err = cl.GetBlock(seth.Latest, false)
		zzsym.Assert(err == nil && int64(*b.Number) == z.old[n-1].n, "the latest block is the last one sealed")
	}
	_, err = cl.GetBlock(z.pend.n+1, false)
	zzsym.Assert(err != nil, "there are no further blocks")
}

func (z *zzSide) tx(cl *seth.Client, t *zzTxn, w *zzBlk, j int, h *seth.Hash) {
	tx, err := cl.GetTransaction(&t.hash)
	zzsym.Assert(err == nil, "a transaction can be asked for")
	zzsym.Assert(tx.Hash == t.hash && tx.Value.Int64() == t.value, "and is the one sent")
	zzsym.Assert(tx.TxIndex != nil && int(*tx.TxIndex) == j && int64(tx.BlockNumber) == w.n && tx.Block == *h, "and in its place")
}

type zzLog = types.Log
