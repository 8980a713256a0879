package tevm

import (
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
)

// Blocks, history, copies and forks.
//
//zz:prop=C31
//zz:use common_state
//zz:use common_blocks

// Every sequence of 4 (thorough: 6) steps, each a transfer that succeeds or
// fails or a seal; transfers of any amount below 64 of 1000 wei.
//
//zz:budget=60 split=3 splitdepth=1
func ZZ_C31_history() {
	z := zzNewSide(NewChain(), defaultBlock)
	for i := zzsym.Bound(4, 6); i > 0; i-- {
		z.op(zzsym.Choose("op", 3))
	}
	z.history()
	z.history()
}

// Blocks, transactions and receipts as the client sees them: 3 (thorough: 4)
// steps.
//
//zz:budget=60 split=9 splitdepth=2
func ZZ_C31_records() {
	z := zzNewSide(NewChain(), defaultBlock)
	for i := zzsym.Bound(3, 4); i > 0; i-- {
		z.op(zzsym.Choose("op", 3))
	}
	z.records()
}

// A copy after up to 1 (thorough: 2) steps, 2 steps on the copy and 2 on the original, in
// both orders, looking at state or records.
//
//zz:budget=60 split=9 splitdepth=3
func ZZ_C31_copy() {
	z := zzNewSide(NewChain(), defaultBlock)
	z.odd = true
	for i := zzsym.Choose("before", zzsym.Bound(2, 3)); i > 0; i-- {
		z.op(zzsym.Choose("op", 2))
	}
	o := z.fork(z.c.Copy())
	x, y := z, o
	if zzsym.Choose("order", 2) == 1 {
		x, y = o, z
	}
	x.op(zzsym.Choose("op", 2))
	y.op(zzsym.Choose("op", 2))
	x.op(zzsym.Choose("op", 2))
	y.op(zzsym.Choose("op", 2))
	if zzsym.Choose("what", 2) == 0 {
		x.history()
		y.history()
		return
	}
	x.records()
	y.records()
}

// The chain at an earlier block goes on for itself.
//
//zz:budget=60 split=4 splitdepth=2
func ZZ_C31_past() {
	z := zzNewSide(NewChain(), defaultBlock)
	z.odd = true
	n := 1 + zzsym.Choose("blocks", 3)
	var past []*zzSide
	for i := 0; i < n; i++ {
		if zzsym.Choose("tx", 2) == 1 {
			z.mine(true)
		}
		past = append(past, z.fork(nil))
		z.seal()
	}
	z.mine(true)
	i := zzsym.Choose("at", n)
	o := past[i]
	o.c = z.c.AtBlock(z.old[i].n)
	if o.c == nil {
		zzsym.Assert(false, "a sealed block can be looked at")
		return
	}
	if i > 0 {
		o.history()
	}
	// transactions on it come after those in the block
	o.mine(true)
	o.history()
	o.seal()
	o.history()
	z.history()
	o.mine(false)
	o.seal()
	z.seal()
	z.history()
	o.history()
}

// A fork of a chain at block 0, 65535, 4000000 or 2^32-1, over a node on which no
// account has anything: 3 steps.
//
//zz:budget=60 split=9 splitdepth=2
func ZZ_C31_fork() {
	n := []int64{0, 1<<32 - 1, 4000000, 1<<16 - 1}[zzsym.Choose("block", 4)]
	z := zzNewSide(NewFork(seth.NewClientTransport(zzEmpty{}), n), n+1)
	z.op(zzsym.Choose("op", 3))
	z.op(zzsym.Choose("op", 2))
	z.op(zzsym.Choose("op", 2))
	if zzsym.Choose("copy", 2) == 1 {
		o := z.fork(z.c.Copy())
		o.mine(true)
		o.seal()
		o.history()
	}
	z.history()
	z.records()
}

type zzEmpty struct{}

func (zzEmpty) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	res.ID, res.Version = req.ID, "2.0"
	res.Result = []byte(`"0x0"`)
	if req.Method == "eth_getCode" {
		res.Result = []byte(`"0x"`)
	}
	return nil
}

// A copy keeps its logs when the original reverts and logs again.
func ZZ_C31_logs() {
	c := NewChain()
	db := c.State.StateDB()
	log := func(db interface{ AddLog(*zzLog) }, b byte) { db.AddLog(&zzLog{Data: []byte{b}, BlockNumber: 100}) }
	a, b, d := zzsym.Byte("a"), zzsym.Byte("b"), zzsym.Byte("d")
	early := zzsym.Choose("early", 2) == 1
	if early {
		log(db, a)
	}
	snap := db.Snapshot()
	log(db, b)
	cc := c.Copy()
	db.RevertToSnapshot(snap)
	log(db, d)
	n := 0
	got, old := c.Logs(), cc.Logs()
	if early {
		n++
		zzsym.Assert(len(got) > 0 && got[0].Data[0] == a && len(old) > 0 && old[0].Data[0] == a, "logs before the snapshot stay")
	}
	zzsym.Assert(len(got) == n+1 && got[n].Data[0] == d, "the original has its own log")
	zzsym.Assert(len(old) == n+1 && old[n].Data[0] == b, "the copy keeps its log")
}
