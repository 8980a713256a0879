package tevm

import (
	"encoding/json"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
)

// The simulated node understands the client's requests.
//
//zz:prop=C33
//zz:use common_state

// zzBlocks is a chain of 3 sealed blocks; every account has its own balance
// in every block.
func zzBlocks() (*Chain, *seth.Client, int64) {
	c := NewChain()
	a := zzAddrs()
	first := int64(*c.State.Pending.Number)
	for n := 0; n < 4; n++ {
		for i := range a {
			zzFund(c, &a[i], big.NewInt(int64(1)<<uint(8*i)), uint64(n))
		}
		if n < 3 {
			c.Seal()
		}
	}
	return c, seth.NewClientTransport(c), first
}

// zzHas is the balance of the i-th account in the n-th block.
func zzHas(i int, n int64) int64 { return (n + 1) << uint(8*i) }

// zzSized is any positive number, by its number of hex digits.
func zzSized(name string) int64 {
	n := 1 + zzsym.Choose("digits", 16)
	v := zzsym.Uint64(name)
	d := v >> uint(4*(n-1))
	zzsym.Assume(v>>63 == 0 && d >= 1 && d <= 15)
	return int64(v)
}

// Balances of 4 accounts at the special blocks and at any other 63-bit block
// number.
//
//zz:budget=60 split=4 splitdepth=2
func ZZ_C33_balance() {
	c, cl, first := zzBlocks()
	i := zzsym.Choose("addr", 4)
	addr := zzAddrs()[i]
	_ = c
	num, at := int64(0), int64(-1)
	switch k := zzsym.Choose("spec", 8); k {
	case 0:
		num, at = seth.Pending, 3
	case 1:
		num, at = seth.Latest, 2
	case 2:
		num, at = seth.Earliest, -1
	case 3:
		num = zzSized("block")
		zzsym.Assume(num < first || num > first+3)
	default:
		at = int64(k - 4)
		num = first + at
	}
	got, err := cl.GetBalanceAt(&addr, num)
	if at < 0 {
		zzsym.Assert(err != nil, "there is no balance at a block that does not exist")
		return
	}
	zzsym.Assert(err == nil, "the balance can be asked for")
	zzsym.Assert(zzEqBig(got.Big(), big.NewInt(zzHas(i, at))), "the balance of that account at that block")
}

// Blocks by number, for 11 numbers, and by hash, for any hash that differs
// from a block's in any way in two bytes.
//
//zz:budget=60 split=4 splitdepth=2
func ZZ_C33_block() {
	c, cl, first := zzBlocks()
	switch zzsym.Choose("spec", 5) {
	case 0:
		b, err := cl.GetBlock(seth.Pending, false)
		zzsym.Assert(err == nil && int64(*b.Number) == first+3, "the pending block")
	case 1:
		b, err := cl.GetBlock(seth.Latest, true)
		zzsym.Assert(err == nil && int64(*b.Number) == first+2, "the latest block")
	case 2:
		_, err := cl.GetBlock(seth.Earliest, false)
		zzsym.Assert(err != nil, "there is no block 0")
	case 3:
		num := []int64{1, first - 1, first, first + 1, first + 2, first + 3, first + 4, first + 256, first << 56, first + 1<<32, 1<<63 - 1}[zzsym.Choose("block", 11)]
		b, err := cl.GetBlock(num, zzsym.Choose("txs", 2) == 1)
		ok := num >= first && num <= first+3
		zzsym.Assert((err == nil) == ok, "a block is there exactly if it was made")
		zzsym.Assert(!ok || int64(*b.Number) == num, "and it is the one asked for")
	case 4:
		n := first + int64(zzsym.Choose("of", 4))
		b, err := cl.GetBlock(n, false)
		zzsym.Assert(err == nil, "the block is there")
		h := *b.Hash
		i := zzsym.Choose("byte", 4) * 7
		x, y := zzsym.Byte("x"), zzsym.Byte("y")
		h[i] ^= x
		h[31-i] ^= y
		buf, _ := json.Marshal(&h)
		b = new(seth.Block)
		err = cl.Do("eth_getBlockByHash", []json.RawMessage{buf, json.RawMessage("false")}, b)
		same := x == 0 && y == 0
		zzsym.Assert((err == nil) == same, "a block is found by its hash only")
		zzsym.Assert(!same || int64(*b.Number) == n, "and it is that block")
	}
	_ = c
}

// Transactions and receipts by hash, for any hash that differs from a
// transaction's in any way in two bytes.
//
//zz:budget=60 split=2 splitdepth=1
func ZZ_C33_hash() {
	c := NewChain()
	cl := seth.NewClientTransport(c)
	a := zzAddrs()
	zzFund(c, &a[0], big.NewInt(1000), 3)
	var hs []seth.Hash
	for i := 0; i < 2; i++ {
		h, err := cl.Call(&seth.CallOpts{From: &a[0], To: &a[1], Value: seth.NewInt(int64(i + 5))})
		zzsym.Assert(err == nil, "a transaction can be sent")
		hs = append(hs, h)
	}
	k := zzsym.Choose("of", 2)
	h := hs[k]
	i := zzsym.Choose("byte", 4) * 7
	x, y := zzsym.Byte("x"), zzsym.Byte("y")
	h[i] ^= x
	h[31-i] ^= y
	same := x == 0 && y == 0
	tx, err := cl.GetTransaction(&h)
	zzsym.Assert((err == nil) == same, "a transaction is found by its hash only")
	zzsym.Assert(!same || (tx.Hash == h && tx.Value.Int64() == int64(k+5)), "and it is that transaction")
	r, err := cl.GetReceipt(&h)
	zzsym.Assert((err == nil) == same, "a receipt is found by its hash only")
	zzsym.Assert(!same || r.Hash == h, "and it is the receipt of that transaction")
}

// zzOpts is a call with optional and arbitrary parts.
func zzOpts(value bool) (o seth.CallOpts, from seth.Address) {
	a := zzAddrs()
	if k := zzsym.Choose("from", zzsym.Bound(3, 5)); k > 0 {
		from = a[k-1]
		o.From = &from
	}
	o.To = new(seth.Address)
	*o.To = a[zzsym.Choose("to", 2)]
	o.Gas = seth.NewInt(100000 + int64(zzsym.Byte("gas")))
	price := zzsym.Choose("hasprice", 2) == 1
	if price {
		o.GasPrice = (*seth.Int)(zzsym.BigU("price", zzsym.Bound(7, 16)))
	}
	if value && zzsym.Choose("hasvalue", 2) == 1 {
		o.Value = (*seth.Int)(zzsym.BigU("value", zzsym.Bound(7, 16)))
	}
	lens := []int{0, 1, 33}
	if price && zzsym.Bound(1, 0) == 1 {
		lens = lens[2:]
	}
	o.Data = zzsym.Bytes("data", lens[zzsym.Choose("datalen", len(lens))])
	return o, from
}

// A contract called by the client at the latest and pending blocks and at a
// numbered one sees the sender, receiver, gas and data of the call, and the
// storage of that block.
//
//zz:budget=60 split=6 splitdepth=3
func ZZ_C33_call() {
	c := NewChain()
	cl := seth.NewClientTransport(c)
	a := zzAddrs()
	db := c.State.StateDB()
	// gas, caller, address, storage at 0 and calldata
	code := []byte{
		0x5a, 0x60, 0, 0x52, 0x33, 0x60, 32, 0x52, 0x30, 0x60, 64, 0x52,
		0x60, 0, 0x54, 0x60, 96, 0x52,
		0x36, 0x60, 0, 0x60, 128, 0x37, 0x36, 0x60, 128, 0x01, 0x60, 0, 0xf3,
	}
	for i := 0; i < 2; i++ {
		zzFund(c, &a[i], big.NewInt(1), 1)
		db.SetCode(common.Address(a[i]), code)
	}
	first := int64(*c.State.Pending.Number)
	for n := 0; n < 3; n++ {
		db.SetState(common.Address(a[0]), common.Hash{}, common.Hash{31: byte(10 + n)})
		db.SetState(common.Address(a[1]), common.Hash{}, common.Hash{31: byte(20 + n)})
		if n < 2 {
			c.Seal()
		}
	}
	num, at := seth.Pending, 2
	switch zzsym.Choose("spec", 5) {
	case 1:
		num, at = seth.Latest, 1
	case 2:
		num, at = first, 0
	case 3:
		num, at = first+1, 1
	case 4:
		num, at = first+2, 2
	}
	o, from := zzOpts(false)
	var out seth.Data
	err := cl.ConstCallAt(&o, &out, num)
	zzsym.Assert(err == nil, "a contract can be called")
	zzsym.Assert(len(out) == 128+len(o.Data), "the result comes back")
	word := func(i int) *big.Int { return new(big.Int).SetBytes(out[32*i : 32*i+32]) }
	gas := int64(o.Gas.Uint64())
	zzsym.Assert(zzEqBig(word(0), big.NewInt(gas-2)), "the gas of the call")
	zzsym.Assert(zzsym.EqBytes(out[44:64], from[:]), "the sender of the call")
	zzsym.Assert(zzsym.EqBytes(out[76:96], o.To[:]), "the receiver of the call")
	s := int64(10 + at)
	if *o.To == a[1] {
		s += 10
	}
	zzsym.Assert(zzEqBig(word(3), big.NewInt(s)), "the storage at that block")
	zzsym.Assert(zzsym.EqBytes(out[128:], o.Data), "the data of the call")
}

// A transaction sent by the client is the one that is kept and applied.
//
//zz:budget=60 split=8 splitdepth=3
func ZZ_C33_send() {
	c := NewChain()
	cl := seth.NewClientTransport(c)
	a := zzAddrs()
	for i := range a {
		zzFund(c, &a[i], big.NewInt(70000), 3)
	}
	o, from := zzOpts(true)
	if len(o.Data) == 33 {
		n := seth.Uint64(zzsym.Byte("nonce"))
		o.Nonce = &n
	}
	v := new(big.Int)
	if o.Value != nil {
		v = o.Value.Big()
	}
	h, err := cl.Call(&o)
	if o.From == nil && v.Sign() != 0 {
		zzsym.Assert(err != nil, "nobody has no ether")
		return
	}
	zzsym.Assert(err == nil, "a transaction can be sent")
	tx, err := cl.GetTransaction(&h)
	zzsym.Assert(err == nil, "and looked up")
	zzsym.Assert(tx.Hash == h && tx.From != nil && *tx.From == from && tx.To != nil && *tx.To == *o.To, "sender and receiver")
	zzsym.Assert(uint64(tx.Gas) == o.Gas.Uint64(), "gas")
	zzsym.Assert(zzEqBig(tx.Value.Big(), v), "value")
	p := new(big.Int)
	if o.GasPrice != nil {
		p = o.GasPrice.Big()
	}
	zzsym.Assert(zzEqBig(tx.GasPrice.Big(), p), "gas price")
	zzsym.Assert(zzsym.EqBytes(tx.Input, o.Data), "data")
	zzsym.Assert(o.Nonce == nil || tx.Nonce == *o.Nonce, "nonce")
	for i := range a {
		w := big.NewInt(70000)
		if o.From != nil && a[i] == from {
			w.Sub(w, v)
		}
		if a[i] == *o.To {
			w.Add(w, v)
		}
		zzsym.Assert(zzEqBig(c.BalanceOf(&a[i]), w), "the value has moved")
	}
}

type zzParam struct{ good, bad []string }

func zzMethods(first int64) (names []string, params [][]zzParam) {
	a := zzAddrs()
	text := func(v interface{}) string {
		b, err := json.Marshal(v)
		zzsym.Assert(err == nil, "a parameter can be written")
		return string(b)
	}
	addr := text(&a[0])
	h := zzsym1()
	hash := text(&h)
	hex := func(t string) zzParam {
		return zzParam{
			good: []string{t},
			bad: []string{`"0x"`, `""`, t[:len(t)-1] + `0"`, t[:len(t)-1] + `00"`, t[:len(t)-3] + `"`,
				t[:20] + "g" + t[21:], t[:20] + " " + t[21:], `"0y` + t[3:], `5`, `true`, `{}`, `[]`, `[` + t + `]`, `0x` + t[3:len(t)-1]},
		}
	}
	block := zzParam{
		good: []string{`"latest"`, `"pending"`, text(seth.NewInt(first))},
		bad: []string{`"lates"`, `"latest "`, `"LATEST"`, `latest`, `-1`, `-2`, `"-1"`, `"0x-1"`, `"-0x1"`, `"0x8000000000000000"`, `"0xffffffffffffffff"`,
			`"0xfffffffffffffffe"`, `"0x10000000000000064"`, `18446744073709551716`, `true`, `{}`, `[]`, `"0x6g"`, `"0x 64"`, `" 0x64"`, `100.5`, `1e400`, `["latest"]`},
	}
	yes := zzParam{good: []string{`true`, `false`}, bad: []string{`"true"`, `1`, `0`, `tru`, `{}`, `"latest"`}}
	num := zzParam{good: []string{`"0x1"`}, bad: []string{`"0xg"`, `true`, `{}`, `[]`, `"x1"`, `"1x"`, `1.5`, `"0x1 "`}}
	call := zzParam{
		good: []string{`{"from":` + addr + `,"to":` + addr + `,"value":"0x1","gas":"0xffff","gasPrice":"0x1","data":"0x","nonce":"0x0"}`},
		bad: []string{`5`, `""`, addr, `[]`, `true`, `{"to":5}`, `{"to":"0x12"}`, `{"to":""}`, `{"to":` + hash + `}`, `{"from":"0x12"}`, `{"from":true}`,
			`{"gas":"0x10000000000000000"}`, `{"gas":"x"}`, `{"gas":-1}`, `{"gas":"-1"}`, `{"value":"0xg"}`, `{"value":{}}`, `{"value":"x"}`, `{"gasPrice":"y"}`, `{"gasPrice":[]}`,
			`{"data":"0xgg"}`, `{"data":5}`, `{"data":"12z"}`, `{"nonce":"z"}`, `{"to":` + addr, `{"to":` + addr + `,}`},
	}
	filt := zzParam{
		good: []string{`{"fromBlock":"0x1","toBlock":"latest","address":` + addr + `,"topics":[null,` + hash + `]}`},
		bad: []string{`5`, `""`, `[]`, `{"fromBlock":"x"}`, `{"fromBlock":-1}`, `{"toBlock":true}`, `{"toBlock":"0x8000000000000000"}`, `{"fromBlock":"0x2","toBlock":"0x1"}`,
			`{"address":"0x12"}`, `{"address":5}`, `{"topics":5}`, `{"topics":["0x12"]}`, `{"topics":[5]}`, `{"topics":[` + hash + `,"0x"]}`, `{"topics":{}}`},
	}
	add := func(name string, p ...zzParam) {
		names = append(names, name)
		params = append(params, p)
	}
	add("eth_getBalance", hex(addr), block)
	add("eth_call", call, block)
	add("eth_estimateGas", call, block)
	add("eth_sendTransaction", call)
	add("eth_getTransactionReceipt", hex(hash))
	add("eth_getTransactionByHash", hex(hash))
	add("eth_getBlockByHash", hex(hash), yes)
	add("eth_getBlockByNumber", block, yes)
	add("eth_newFilter", filt)
	add("eth_getFilterChanges", num)
	add("eth_getFilterLogs", num)
	add("eth_uninstallFilter", num)
	add("eth_protocolVersion")
	add("eth_syncing")
	add("eth_gasPrice")
	add("eth_blockNumber")
	return names, params
}

func zzsym1() (h seth.Hash) {
	for i := range h {
		h[i] = byte(0x31 + 5*i)
	}
	return h
}

// zzAsk makes a request and tells whether it was answered.
func zzAsk(c *Chain, method string, params []string) bool {
	req := &seth.RPCRequest{ID: 7, Version: "2.0", Method: method}
	for _, p := range params {
		req.Params = append(req.Params, json.RawMessage(p))
	}
	var res seth.RPCResponse
	err := c.Execute(req, &res)
	zzsym.Assert(err == nil && res.ID == 7, "every request has a reply")
	failed := res.Error.Code != 0 || res.Error.Message != ""
	zzsym.Assert(!failed || len(res.Result) == 0, "a reply is a result or an error")
	zzsym.Assert(failed || len(res.Result) > 0, "a reply is a result or an error")
	return !failed
}

// Every method, with parameters that are missing, null, of the wrong type or
// malformed in up to 27 ways each, and with one parameter more or fewer.
//
//zz:budget=60 split=8 splitdepth=2
func ZZ_C33_malformed() {
	c, cl, first := zzBlocks()
	a := zzAddrs()
	names, params := zzMethods(first)
	m := zzsym.Choose("method", len(names))
	ps := params[m]
	var in []string
	for _, p := range ps {
		in = append(in, p.good[zzsym.Choose("good", len(p.good))])
	}
	zzAsk(c, "eth_newFilter", []string{`{"fromBlock":"0x0","toBlock":"latest"}`})
	what := zzsym.Choose("what", 4+len(ps))
	switch what {
	case 0:
		// no harm
		ok := zzAsk(c, names[m], in)
		unknown := names[m] == "eth_getTransactionReceipt" || names[m] == "eth_getTransactionByHash" || names[m] == "eth_getBlockByHash"
		zzsym.Assert(ok == !unknown, "a well-formed request is answered")
		return
	case 1:
		in = append(in, in...)
		if len(in) == 0 {
			in = []string{"null"}
		}
	case 2:
		if len(in) == 0 {
			return
		}
		in = in[:len(in)-1]
	case 3:
		in = append(in, "null")
	default:
		p := ps[what-4]
		k := zzsym.Choose("bad", len(p.bad)+2)
		t := ""
		switch k {
		case 0:
			t = "null"
		case 1: // empty
		default:
			t = p.bad[k-2]
		}
		in[what-4] = t
	}
	zzsym.Assert(!zzAsk(c, names[m], in), "a malformed request is refused")
	zzsym.Assert(zzEqBig(c.BalanceOf(&a[0]), big.NewInt(4)), "and changes nothing")
	n, err := cl.GetBlock(seth.Pending, false)
	zzsym.Assert(err == nil && int64(*n.Number) == first+3 && len(n.Transactions) == 0, "and makes no block")
	zzsym.Assert(zzAsk(c, "eth_uninstallFilter", []string{`"0x1"`}), "and leaves filters alone")
	zzsym.Assert(!zzAsk(c, "eth_foo", nil), "methods that do not exist are refused")
}

// An address, a hash, a block number and a quantity with one arbitrary
// character.
//
//zz:budget=60 split=4 splitdepth=1
func ZZ_C33_char() {
	c, _, first := zzBlocks()
	a := zzAddrs()
	ch := zzsym.Byte("char")
	zzsym.Assume(ch < 0x80)
	digit := int64(-1)
	switch {
	case ch >= '0' && ch <= '9':
		digit = int64(ch - '0')
	case ch >= 'a' && ch <= 'f':
		digit = int64(ch-'a') + 10
	case ch >= 'A' && ch <= 'F':
		digit = int64(ch-'A') + 10
	}
	ask := func(method string, params ...string) (r seth.RPCResponse) {
		req := &seth.RPCRequest{ID: 7, Version: "2.0", Method: method}
		for _, p := range params {
			req.Params = append(req.Params, json.RawMessage(p))
		}
		err := c.Execute(req, &r)
		zzsym.Assert(err == nil, "every request has a reply")
		return r
	}
	put := func(t string, i int) string { return t[:i] + string([]byte{ch}) + t[i+1:] }
	check := func(r *seth.RPCResponse, want int64) {
		if want < 0 {
			zzsym.Assert(r.Error.Code != 0, "a malformed parameter is refused")
			return
		}
		var got seth.Int
		zzsym.Assert(r.Error.Code == 0 && json.Unmarshal(r.Result, &got) == nil, "a well-formed one is not")
		zzsym.Assert(zzEqBig(got.Big(), big.NewInt(want)), "and means what it says")
	}
	switch zzsym.Choose("param", 4) {
	case 0: // the address of account 0 ends in b3
		b, _ := json.Marshal(&a[0])
		r := ask("eth_getBalance", put(string(b), 42-zzsym.Choose("at", 2)), `"latest"`)
		want := int64(0)
		if r.Error.Code != 0 || digit < 0 {
			want = -1
		} else {
			var got seth.Int
			zzsym.Assert(json.Unmarshal(r.Result, &got) == nil, "a balance is a number")
			// whose it is
			for i := range a {
				if zzEqBig(got.Big(), big.NewInt(zzHas(i, 2))) {
					want = zzHas(i, 2)
					zzsym.Assert(i < 2, "that account is far away")
				}
			}
		}
		zzsym.Assert((r.Error.Code == 0) == (digit >= 0), "an address is made of digits")
		check(&r, want)
	case 1: // blocks 0x64 to 0x67
		b, _ := json.Marshal(&a[0])
		zzsym.Assert(first == 0x64, "the first block")
		if k := zzsym.Choose("known", 5); k < 4 {
			ch, digit = '4'+byte(k), 4+int64(k)
		} else {
			zzsym.Assume(digit < 4 || digit > 7)
		}
		r := ask("eth_getBalance", string(b), put(`"0x6_"`, 4))
		want := int64(-1)
		if digit >= 4 && digit <= 7 {
			want = zzHas(0, digit-4)
		}
		check(&r, want)
	case 2: // the quote, and what is in front of it
		b, _ := json.Marshal(&a[0])
		i := zzsym.Choose("at", 3)
		r := ask("eth_getBalance", string(b), put(`"0x65"`, []int{0, 1, 5}[i]))
		want := int64(-1)
		if (i != 1 && ch == '"') || (i == 1 && ch == '0') {
			want = zzHas(0, 1)
		}
		check(&r, want)
	case 3: // gas
		to, _ := json.Marshal(&a[0])
		r := ask("eth_estimateGas", `{"from":`+string(to)+`,"to":`+string(to)+`,"value":`+put(`"0x_"`, 3)+`}`, `"pending"`)
		want := int64(-1)
		if digit >= 0 && digit <= 4 {
			want = 0
		}
		check(&r, want)
	}
}
