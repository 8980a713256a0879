package seth

import (
	"encoding/json"
	"sync"

	"github.com/philhofer/seth/zzsym"
)

// Block iteration yields consecutive blocks exactly once.
//
//zz:prop=C21
//zz:use common_client

// zzHead is a node whose head advances and which fails now and then: reply i
// is the block, a missing block or a failure; later replies are all blocks, up
// to a number of requests.
type zzHead struct {
	mu      sync.Mutex
	replies []int // 0 block, 1 missing, 2 transport failure, 3 server error
	max     int
	n       int
	asked   []string
	txs     string
	latest  uint64
	bad     bool
}

func (z *zzHead) Execute(req *RPCRequest, res *RPCResponse) error {
	z.mu.Lock()
	defer z.mu.Unlock()
	res.ID, res.Version = req.ID, "2.0"
	zzsym.Assume(z.n < z.max)
	k := 0
	if z.n < len(z.replies) {
		k = z.replies[z.n]
	}
	z.n++
	if req.Method != "eth_getBlockByNumber" || len(req.Params) != 2 || string(req.Params[1]) != z.txs {
		z.bad = true
	}
	num := string(req.Params[0])
	z.asked = append(z.asked, num)
	switch num {
	case `"latest"`, `"pending"`:
		num = string(zzQuantText(z.latest, 2))
	case `"earliest"`:
		num = `"0x0"`
	}
	switch k {
	case 0:
		res.Result = json.RawMessage(`{"number":` + num + `}`)
	case 1:
		res.Result = json.RawMessage("null")
	case 2:
		return errZZ
	case 3:
		res.Error = RPCError{Code: -32000, Message: "no"}
	}
	return nil
}

// From block 0, 9, 254, the latest block (0x3f) or the pending one; the first
// 2 (thorough: 3) requests give the block, a missing block, a transport failure
// or a server error, the others (up to 6) the block; with and without
// transactions. The consumer takes 0 to 3 blocks, stops, and drains. All
// schedules with up to 2 preemptions.
//
//zz:sched=on
//zz:split=8 splitdepth=4 preempt=1 thorough_preempt=2 budget=60
func ZZ_C21_iterate() {
	z := &zzHead{txs: "false", latest: 0x3f, max: 6}
	from := []int64{0, 9, 254, Latest, Pending}[zzsym.Choose("from", 5)]
	take := zzsym.Choose("take", 4)
	for i := 0; i < zzsym.Bound(2, 3); i++ {
		z.replies = append(z.replies, zzsym.Choose("reply", 4))
	}
	txs := false
	if from == 9 {
		txs, z.txs = true, "true"
	}
	first := uint64(from)
	if from < 0 {
		first = z.latest
	}
	it := NewClientTransport(z).IterateBlocks(from, txs)
	n := uint64(0)
	see := func(b *Block) {
		zzsym.Assert(b != nil && b.Number != nil && uint64(*b.Number) == first+n, "blocks come in order, each once")
		n++
	}
	for i := 0; i < take; i++ {
		b, ok := <-it.Next()
		if !ok {
			zzsym.Assert(false, "the channel stays open until stopped")
			return
		}
		see(b)
	}
	it.Stop()
	for b := range it.Next() {
		see(b)
	}
	zzsym.Quiesce()
	zzsym.Assert(!z.bad, "blocks are asked for as requested")
	// each request names the next block, repeated while it is not there
	next, got := first, uint64(0)
	special := from < 0
	for i, a := range z.asked {
		want := `"0x` + zzHexDigits(next) + `"`
		switch {
		case special && from == Latest:
			want = `"latest"`
		case special:
			want = `"pending"`
		case next == 0:
			want = `"earliest"`
		}
		zzsym.Assert(a == want, "the block asked for is the next one")
		if i >= len(z.replies) || z.replies[i] == 0 {
			next++
			got++
			special = false
		}
	}
	zzsym.Assert(got == n || got == n+1, "every block fetched is delivered, but perhaps for one in flight when stopped")
}

func zzHexDigits(v uint64) string {
	if v == 0 {
		return "0"
	}
	s := ""
	for ; v > 0; v >>= 4 {
		s = string(zzDigits[v&15]) + s
	}
	return s
}
