package seth

import (
	"encoding/json"

	"github.com/philhofer/seth/zzsym"
)

// Waiting and draining.
//
//zz:prop=C43
//zz:use common_client

// zzPool is a node: replies to successive calls are chosen by the harness.
type zzPool struct {
	n       int // requests so far
	max     int // requests explored
	bad     string
	failed  bool
	null    bool
	h       [32]byte // hash waited for, in the last byte
	waiting bool
	mined   bool
	blocks  int
	own     Address
	other   Address
	pool    []int // senders in the last block: 0 own, 1 other, 2 own again, 3 none
	asked   int   // eth_getTransactionByHash calls for the hash waited for
	indexed bool
}

func (z *zzPool) tx(k int) string {
	from := "null"
	switch k {
	case 0, 2:
		from = string(zzHexText(z.own[:]))
	case 1:
		from = string(zzHexText(z.other[:]))
	}
	var h [32]byte
	h[31] = byte(k) + 1
	idx := "null"
	if z.indexed {
		idx = `"0x3"` // as some nodes report for the pending block
	}
	return `{"hash":` + string(zzHexText(h[:])) + `,"from":` + from + `,"transactionIndex":` + idx + `}`
}

func (z *zzPool) Execute(req *RPCRequest, res *RPCResponse) error {
	zzsym.Assume(z.n < z.max)
	z.n++
	res.ID, res.Version = req.ID, "2.0"
	if z.failed || z.null {
		z.bad = "goes on after a failure"
	}
	switch zzsym.Choose("fail", 3) {
	case 1:
		z.failed = true
		return errZZ
	case 2:
		z.null = true
		res.Result = json.RawMessage("null")
		return nil
	}
	switch req.Method {
	case "eth_getTransactionByHash":
		if len(req.Params) != 1 || string(req.Params[0]) != string(zzHexText(z.h[:])) {
			z.bad = "hash"
		}
		if z.mined {
			z.bad = "asks again for a mined transaction"
		}
		z.asked++
		bn, ix := "null", "null"
		if zzsym.Choose("mined", 2) == 1 {
			z.mined = true
			bn, ix = `"0x7"`, []string{`"0x0"`, `"0x12"`}[zzsym.Choose("txindex", 2)]
		}
		res.Result = json.RawMessage(`{"hash":` + string(req.Params[0]) + `,"blockNumber":` + bn + `,"transactionIndex":` + ix + `}`)
	case "eth_getBlockByNumber":
		if len(req.Params) != 2 || string(req.Params[0]) != `"pending"` || string(req.Params[1]) != "true" {
			z.bad = "block"
		}
		if z.blocks > 0 && !z.mined {
			z.bad = "looks again before the transaction is mined"
		}
		z.blocks++
		z.pool = nil
		text := ""
		for i := zzsym.Choose("txs", zzsym.Bound(3, 4)); i > 0; i-- {
			k := zzsym.Choose("from", 4)
			z.pool = append(z.pool, k)
			if text != "" {
				text += ","
			}
			text += z.tx(k)
		}
		res.Result = json.RawMessage(`{"number":"0x9","transactions":[` + text + `]}`)
		z.mined, z.asked = false, 0
		for _, k := range z.pool {
			if k == 0 || k == 2 {
				z.h = [32]byte{31: byte(k) + 1}
				break
			}
		}
	default:
		z.bad = req.Method
	}
	return nil
}

// Any transaction hash; up to 4 requests, each answered with a pending or
// mined transaction, null, or a transport failure.
//
//zz:sched=on
func ZZ_C43_wait() {
	z := &zzPool{max: zzsym.Bound(4, 7)}
	h := zzHashOf("hash")
	z.h = h
	s := NewSender(NewClientTransport(z), &Address{1})
	err := s.Wait(&h)
	zzsym.Assert(z.bad == "", "only the transaction is asked for")
	if err == nil {
		zzsym.Assert(z.mined && !z.failed && !z.null, "success only once mined")
		return
	}
	zzsym.Assert(!z.mined, "a mined transaction is no error")
	zzsym.Assert(z.failed && err == errZZ || z.null && err == ErrNotFound, "the failing call's error is returned")
}

// An account and another one that differs in one byte at the start or end;
// pending blocks of up to 2 (thorough: 3) transactions from either, or with no known sender,
// with and without an index; up to 4 requests (thorough: 5), each of which may
// fail or give null; with and without a prompt.
//
//zz:sched=on
//zz:split=16 splitdepth=6 budget=60
func ZZ_C43_drain() {
	z := &zzPool{max: zzsym.Bound(4, 5)}
	z.own = Address{1: 0xa1, 18: 0x1f, 19: 7}
	z.other = z.own
	mode := zzsym.Choose("mode", 2)
	z.indexed = mode == 1
	d := []int{0, 19}[mode]
	z.own[d] = zzsym.Byte("own")
	z.other[d] = zzsym.Byte("other")
	zzsym.Assume(z.own[d] != z.other[d])
	s := NewSender(NewClientTransport(z), &z.own)
	prompts := 0
	seen := func(t *Transaction) {
		prompts++
		zzsym.Assert(*t.From == z.own && t.Hash == Hash(z.h), "the prompt gets a transaction of the account")
	}
	var err error
	if mode == 1 {
		err = s.Drain(seen)
	} else {
		prompts = -1
		err = s.Drain()
	}
	zzsym.Assert(z.bad == "", "the pending block and the transactions found are asked for")
	if err == nil {
		for _, k := range z.pool {
			zzsym.Assert(k == 1 || k == 3, "success only with no transaction from the account pending")
		}
		zzsym.Assert(z.blocks > 0 && !z.failed && !z.null, "success only on the node's word")
		zzsym.Assert(prompts == -1 || prompts == z.blocks-1, "every round is announced")
		return
	}
	zzsym.Assert(z.failed && err == errZZ || z.null && err == ErrNotFound, "the failing call's error is returned")
}
