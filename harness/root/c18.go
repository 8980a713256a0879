package seth

import (
	"bytes"

	"github.com/philhofer/seth/zzsym"
)

// Block specifiers select the intended block.
//
//zz:prop=C18
//zz:use common_client

// zzSpec chooses a block specifier and gives the texts that may stand for it.
func zzSpec() (int64, []string) {
	switch k := zzsym.Choose("spec", 19); k {
	case 0:
		return Pending, []string{`"pending"`}
	case 1:
		return Latest, []string{`"latest"`}
	case 2:
		return Earliest, []string{`"earliest"`, `"0x0"`}
	default:
		n := k - 2 // 1 to 16 digits
		v := zzsym.Uint64("block")
		d := v >> uint(4*(n-1))
		zzsym.Assume(v>>63 == 0 && d >= 1 && d <= 15)
		return int64(v), []string{string(zzQuantText(v, n))}
	}
}

// Every request method with a block parameter, for the three special values
// and every positive 63-bit number.
//
//zz:cover special number
func ZZ_C18_requests() {
	t := &zzTport{h: func(n int, req *RPCRequest, r *RPCResponse) error { return errZZ }}
	c := NewClientTransport(t)
	num, want := zzSpec()
	if len(want) == 1 && want[0][1] == '0' {
		zzsym.Cover("number")
	} else {
		zzsym.Cover("special")
	}
	addr := zzAddrOf("addr")
	slot := zzHashOf("slot")
	pos := 1
	method := ""
	var out Data
	switch zzsym.Choose("method", 6) {
	case 0:
		method = "eth_getTransactionCount"
		c.GetNonceAt(&addr, num)
	case 1:
		method = "eth_getBalance"
		c.GetBalanceAt(&addr, num)
	case 2:
		method = "eth_getBlockByNumber"
		pos = 0
		c.GetBlock(num, zzsym.Choose("txs", 2) == 1)
	case 3:
		method = "eth_getCode"
		c.GetCodeAt(&addr, num)
	case 4:
		method = "eth_call"
		c.ConstCallAt(&CallOpts{To: &addr}, &out, num)
	case 5:
		method = "eth_getStorageAt"
		pos = 2
		c.StorageAt(&addr, &slot, num)
	}
	zzsym.Assert(len(t.reqs) == 1, "one request")
	r := t.reqs[0]
	zzsym.Assert(r.Method == method && len(r.Params) > pos, "the method and its parameters")
	ok := false
	for _, w := range want {
		ok = zzsym.Or(ok, string(r.Params[pos]) == w)
	}
	zzsym.Assert(ok, "the block parameter of "+method)
	switch method {
	case "eth_getBlockByNumber", "eth_call":
	default:
		zzsym.Assert(bytes.Equal(r.Params[0], zzHexText(addr[:])), "the address parameter of "+method)
	}
	if method == "eth_getStorageAt" {
		zzsym.Assert(bytes.Equal(r.Params[1], zzHexText(slot[:])), "the slot parameter")
	}
}

// The methods with a fixed block: latest balance, nonce, code and block,
// pending transactions, constant calls on the pending or latest block, gas
// estimates.
//
//zz:cover pending latest
func ZZ_C18_fixed() {
	t := &zzTport{h: func(n int, req *RPCRequest, r *RPCResponse) error { return errZZ }}
	c := NewClientTransport(t)
	addr := zzAddrOf("addr")
	want, pos := `"latest"`, 1
	var out Data
	m := zzsym.Choose("method", 8)
	switch m {
	case 0:
		c.GetNonce(&addr)
	case 1:
		c.GetBalance(&addr)
	case 2:
		c.GetCode(&addr)
	case 3:
		pos = 0
		c.Latest(zzsym.Choose("txs", 2) == 1)
	case 4:
		c.ConstCall(&CallOpts{To: &addr}, &out, false)
	case 5:
		want = `"pending"`
		c.ConstCall(&CallOpts{To: &addr}, &out, true)
	case 6:
		want = `"pending"`
		c.EstimateGas(&CallOpts{To: &addr})
	case 7:
		want, pos = `"pending"`, 0
		c.Pending()
	}
	if want == `"pending"` {
		zzsym.Cover("pending")
	} else {
		zzsym.Cover("latest")
	}
	zzsym.Assert(len(t.reqs) == 1 && len(t.reqs[0].Params) > pos && string(t.reqs[0].Params[pos]) == want, "the block asked for is "+want)
}

// Log filters: the block range for every pair of bounds, negative ones
// standing for the latest block.
//
//zz:cover from to
func ZZ_C18_filter() {
	t := &zzTport{h: func(n int, req *RPCRequest, r *RPCResponse) error { return errZZ }}
	c := NewClientTransport(t)
	bound := func(name string) (int64, string) {
		switch k := zzsym.Choose(name, 6); k {
		case 0:
			v := zzsym.Int64("neg")
			zzsym.Assume(v < 0)
			return v, `"latest"`
		case 1:
			return 0, `"0x0"`
		default:
			n := []int{1, 2, 15, 16}[k-2]
			v := zzsym.Uint64("block")
			d := v >> uint(4*(n-1))
			zzsym.Assume(v>>63 == 0 && d >= 1 && d <= 15)
			return int64(v), string(zzQuantText(v, n))
		}
	}
	from, wf := bound("from")
	to, wt := bound("to")
	if from >= 0 {
		zzsym.Cover("from")
	}
	if to >= 0 {
		zzsym.Cover("to")
	}
	f, err := c.FilterTopics(nil, nil, from, to)
	zzsym.Assert(f == nil && err == errZZ, "a failing node yields its error")
	zzsym.Assert(len(t.reqs) == 1 && t.reqs[0].Method == "eth_newFilter" && len(t.reqs[0].Params) == 1, "one filter request")
	zzsym.Assert(string(t.reqs[0].Params[0]) == `{"fromBlock":`+wf+`,"toBlock":`+wt+`}`, "the block range asked for")
}
