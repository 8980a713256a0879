package seth

import (
	"bytes"
	"encoding/json"
	"math/big"

	"github.com/philhofer/seth/zzsym"
)

// Token transfers.
//
//zz:prop=C19
//zz:use common_client

// "Transfer(address,address,uint256)", hashed
var zzTransferTopic = [32]byte{
	0xdd, 0xf2, 0x52, 0xad, 0x1b, 0xe2, 0xc8, 0x9b, 0x69, 0xc2, 0xb0, 0x68, 0xfc, 0x37, 0x8d, 0xaa,
	0x95, 0x2b, 0xa7, 0xf1, 0x63, 0xc4, 0xa1, 0x16, 0x28, 0xf5, 0x5a, 0x4d, 0xf5, 0x23, 0xb3, 0xef,
}

// A log with 0 to 4 topics, each of 31, 32 or 33 arbitrary bytes, and 0, 1, 31,
// 32 or 33 bytes of data (thorough: up to 64), in any block at any index.
//
//zz:split=4 splitdepth=2
//zz:cover transfer other short few
func ZZ_C19_parse() {
	nt := zzsym.Choose("topics", 5)
	nd := []int{32, 0, 33, 1, 31, 64}[zzsym.Choose("data", zzsym.Bound(5, 6))]
	l := &Log{Data: zzsym.Bytes("data", nd), Address: zzAddrOf("token")}
	ok := nt == 3
	for i := 0; i < nt; i++ {
		n := 32
		if nd == 32 {
			n = []int{32, 31, 33}[zzsym.Choose("len", 3)]
		}
		if n != 32 && i < 3 {
			ok = false
		}
		l.Topics = append(l.Topics, zzsym.Bytes("topic", n))
	}
	if zzsym.Choose("removed", 2) == 1 {
		l.Removed = true
	}
	keep := append([]byte(nil), l.Data...)
	r := &Receipt{BlockNumber: Uint64(zzsym.Uint64("block") >> 1), Index: Uint64(zzsym.Uint64("index") >> 1)}
	tt, got := r.ParseTransfer(l)
	if !ok {
		if nt == 3 {
			zzsym.Cover("short")
		} else {
			zzsym.Cover("few")
		}
		zzsym.Assert(!got, "a log without the two address topics is no transfer")
		return
	}
	is := zzsym.EqBytes(l.Topics[0], zzTransferTopic[:])
	zzsym.Assert(got == is, "a transfer is told by its first topic")
	if !got {
		zzsym.Cover("other")
		return
	}
	zzsym.Cover("transfer")
	zzsym.Assert(tt.From == *zzTail(l.Topics[1]), "the sender is the first indexed address")
	zzsym.Assert(tt.To == *zzTail(l.Topics[2]), "the recipient is the second")
	zzsym.Assert(tt.Token == l.Address, "the token is the contract that logged")
	zzsym.Assert(tt.Block == int64(r.BlockNumber) && tt.TxHeight == int(r.Index), "the position is that of the receipt")
	want := new(big.Int)
	for _, b := range keep {
		want.Lsh(want, 8)
		want.Or(want, big.NewInt(int64(b)))
	}
	zzsym.Assert((*big.Int)(&tt.Amount).Cmp(want) == 0, "the amount is the data")
	zzsym.Assert(bytes.Equal(l.Data, keep), "the log is left alone")
}

func zzTail(b []byte) (a *Address) {
	a = new(Address)
	copy(a[:], b[len(b)-20:])
	return
}

// Any token, sender and recipient, each given or not, and ranges that start
// and end at the latest block, at block 0, or at a block of 1 to 2 digits.
func ZZ_C19_filter() {
	var req *RPCRequest
	t := &zzTport{h: func(n int, q *RPCRequest, r *RPCResponse) error { req = q; return errZZ }}
	c := NewClientTransport(t)
	var who [3]*Address
	for i := range who {
		if zzsym.Choose("given", 2) == 1 {
			a := zzAddrOf("addr")
			who[i] = &a
		}
	}
	var at [2]int64
	var want [2]string
	for i := range at {
		switch zzsym.Choose("block", 4) {
		case 0:
			at[i], want[i] = -1, `"latest"`
		case 1:
			at[i], want[i] = 0, `"0x0"`
		case 2:
			v := 1 + zzsym.Uint64("n")&7
			at[i], want[i] = int64(v), string(zzQuantText(v, 1))
		case 3:
			v := 0x80 | zzsym.Uint64("n")&0x7f
			at[i], want[i] = int64(v), string(zzQuantText(v, 2))
		}
	}
	var keep [3]Address
	for i := range who {
		if who[i] != nil {
			keep[i] = *who[i]
		}
	}
	f, err := c.TokenTransfers(who[0], who[1], who[2], at[0], at[1])
	zzsym.Assert(f == nil && err == errZZ, "the node's failure is reported")
	zzsym.Assert(len(t.reqs) == 1 && req.Method == "eth_newFilter" && len(req.Params) == 1, "one filter is asked for")
	var got struct {
		From    json.RawMessage   `json:"fromBlock"`
		To      json.RawMessage   `json:"toBlock"`
		Address json.RawMessage   `json:"address"`
		Topics  []json.RawMessage `json:"topics"`
	}
	zzsym.Assert(json.Unmarshal(req.Params[0], &got) == nil, "the request is well formed")
	null := func(b []byte) bool { return len(b) == 0 || string(b) == "null" }
	zzsym.Assert(string(got.From) == want[0] && string(got.To) == want[1], "the range is that asked for")
	if who[2] == nil {
		zzsym.Assert(null(got.Address), "any token")
	} else {
		zzsym.Assert(bytes.Equal(got.Address, zzHexText(keep[2][:])), "the token asked for")
	}
	zzsym.Assert(len(got.Topics) == 3, "three topics")
	zzsym.Assert(bytes.Equal(got.Topics[0], zzHexText(zzTransferTopic[:])), "transfers only")
	for i := 0; i < 2; i++ {
		if who[i] == nil {
			zzsym.Assert(null(got.Topics[i+1]), "any party")
			continue
		}
		var w [32]byte
		copy(w[12:], keep[i][:])
		zzsym.Assert(bytes.Equal(got.Topics[i+1], zzHexText(w[:])), "the party asked for")
	}
}
