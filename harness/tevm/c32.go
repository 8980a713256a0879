package tevm

import (
	"encoding/json"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
)

// Log filters of the simulated node.
//
//zz:prop=C32
//zz:use common_state

// zzLogged is a log that was made.
type zzLogged struct {
	addr   int
	topics []byte // the byte in which topics differ
	block  int64
	tx     seth.Hash
	data   byte
}

type zzLogs struct {
	c    *Chain
	cl   *seth.Client
	logs []zzLogged
	from []seth.Address
}

func zzNewLogs() *zzLogs {
	c := NewChain()
	a := zzAddrs()
	for i := range a {
		zzFund(c, &a[i], big.NewInt(1000), 3)
	}
	return &zzLogs{c: c, cl: seth.NewClientTransport(c), from: a[:]}
}

func zzTopic(b byte) (h seth.Hash) {
	for i := range h {
		h[i] = byte(0x11 * i)
	}
	h[30] = b
	return h
}

// emit runs a contract that logs its first byte of input with topics from
// the words after it.
func (z *zzLogs) emit(addr int, topics []byte) {
	n := len(topics)
	code := []byte{0x60, 1, 0x60, 0, 0x60, 0, 0x37}
	for i := n - 1; i >= 0; i-- {
		code = append(code, 0x60, byte(1+32*i), 0x35)
	}
	code = append(code, 0x60, 1, 0x60, 0, 0xa0+byte(n), 0)
	z.c.State.StateDB().SetCode(common.Address(z.from[addr]), code)
	l := zzLogged{addr: addr, topics: topics, block: int64(*z.c.State.Pending.Number), data: byte(len(z.logs) + 1)}
	in := []byte{l.data}
	for _, t := range topics {
		h := zzTopic(t)
		in = append(in, h[:]...)
	}
	_, h, err := z.c.Mine(&seth.Transaction{From: &z.from[3], To: &z.from[addr], Gas: 100000, Input: in})
	zzsym.Assert(err == nil, "the contract runs")
	l.tx = h
	z.logs = append(z.logs, l)
}

// zzFilt is a filter: from and to are nil for the latest block.
type zzFilt struct {
	id       seth.Int
	err      error
	from, to *int64
	addr     int // -1 for any
	topics   []int
	vals     []byte
}

func (z *zzLogs) create(f *zzFilt) {
	type req struct {
		From    json.RawMessage `json:"fromBlock,omitempty"`
		To      json.RawMessage `json:"toBlock,omitempty"`
		Address *seth.Address   `json:"address,omitempty"`
		Topics  []*seth.Hash    `json:"topics,omitempty"`
	}
	spec := func(n *int64) json.RawMessage {
		if n == nil {
			return json.RawMessage(`"latest"`)
		}
		b, _ := json.Marshal(seth.NewInt(*n))
		return b
	}
	r := &req{From: spec(f.from), To: spec(f.to)}
	if f.addr >= 0 {
		r.Address = &z.from[f.addr]
	}
	for _, i := range f.topics {
		if i < 0 {
			r.Topics = append(r.Topics, nil)
			continue
		}
		h := zzTopic(f.vals[i])
		r.Topics = append(r.Topics, &h)
	}
	buf, err := json.Marshal(r)
	zzsym.Assert(err == nil, "a filter can be asked for")
	if f.from == nil {
		n := int64(*z.c.State.Pending.Number) - 1
		f.from = &n
	}
	f.err = z.cl.Do("eth_newFilter", []json.RawMessage{buf}, &f.id)
}

func (f *zzFilt) matches(l *zzLogged) bool {
	if l.block < *f.from || (f.to != nil && l.block > *f.to) || (f.addr >= 0 && f.addr != l.addr) {
		return false
	}
	for i, t := range f.topics {
		if t < 0 {
			// whether one without a topic here matches is left open
			zzsym.Assume(i < len(l.topics))
			continue
		}
		if i >= len(l.topics) || l.topics[i] != f.vals[t] {
			return false
		}
	}
	return true
}

// fetch gets logs and compares with the ones from the i-th made.
func (z *zzLogs) fetch(method string, f *zzFilt, i int) {
	buf, err := json.Marshal(f.id)
	zzsym.Assert(err == nil, "a filter has an id")
	var got []seth.Log
	err = z.cl.Do(method, []json.RawMessage{buf}, &got)
	zzsym.Assert(err == nil, "a filter can be polled")
	n := 0
	for i < len(z.logs) {
		l := &z.logs[i]
		i++
		if !f.matches(l) {
			continue
		}
		zzsym.Assert(n < len(got), "every matching log is there")
		g := &got[n]
		n++
		zzsym.Assert(len(g.Data) == 1 && g.Data[0] == l.data, "logs come once, in order")
		zzsym.Assert(g.Address == z.from[l.addr] && g.BlockNumber != nil && int64(*g.BlockNumber) == l.block && g.TxHash != nil && *g.TxHash == l.tx, "and tell where they are from")
		zzsym.Assert(len(g.Topics) == len(l.topics), "a log has its topics")
		for j, t := range l.topics {
			h := zzTopic(t)
			zzsym.Assert(zzsym.EqBytes(g.Topics[j], h[:]), "a log's topics are in place")
		}
	}
	zzsym.Assert(n == len(got), "no other logs are there")
}

// Two logs (thorough: three) with up to 2 topics that differ in one byte,
// from either of two addresses; filters by address and up to 2 topics,
// fetched in one go or in two.
//
//zz:budget=60 split=9 splitdepth=2
func ZZ_C32_match() {
	z := zzNewLogs()
	f := &zzFilt{from: new(int64), addr: zzsym.Choose("filter addr", 3) - 1}
	kind := zzsym.Choose("filter", 5)
	f.topics = [][]int{nil, {0}, {-1, 0}, {0, -1}, {0, 1}}[kind]
	f.vals = []byte{0x5a, 0xa5}
	how := zzsym.Choose("how", 3)
	if how > 0 {
		z.create(f)
		zzsym.Assert(f.err == nil, "a filter can be made")
	}
	n := zzsym.Bound(2, 3)
	for i := 0; i < n; i++ {
		topics := make([]byte, zzsym.Choose("topics", 3))
		for j := range topics {
			topics[j] = zzsym.Byte("topic")
		}
		addr := i & 1
		if f.addr >= 0 {
			addr = zzsym.Choose("addr", 2)
		}
		z.emit(addr, topics)
		z.c.Seal()
		if how == 2 && i == 0 {
			z.fetch("eth_getFilterChanges", f, 0)
		}
	}
	switch how {
	case 0:
		z.create(f)
		zzsym.Assert(f.err == nil, "a filter can be made")
		z.fetch("eth_getFilterLogs", f, 0)
		z.fetch("eth_getFilterChanges", f, n)
	case 1:
		z.fetch("eth_getFilterChanges", f, 0)
		z.fetch("eth_getFilterChanges", f, n)
		z.fetch("eth_getFilterLogs", f, 0)
	case 2:
		z.fetch("eth_getFilterChanges", f, 1)
		z.fetch("eth_getFilterChanges", f, n)
	}
}

// Filters over ranges of blocks, made before, between or after 4 blocks of
// which each has at most one log.
//
//zz:budget=60 split=6 splitdepth=2
func ZZ_C32_range() {
	z := zzNewLogs()
	first := int64(*z.c.State.Pending.Number)
	pick := func(what string) *int64 {
		k := int64(zzsym.Choose(what, 6))
		if k == 0 {
			return nil
		}
		k += first - 2
		return &k
	}
	f := &zzFilt{from: pick("from"), to: pick("to"), addr: -1}
	at := zzsym.Choose("at", 5)
	seen := 0
	make := func() {
		bad := f.from != nil && f.to != nil && *f.from > *f.to
		z.create(f)
		if f.to == nil || *f.from <= *f.to || bad {
			zzsym.Assert((f.err != nil) == bad, "a filter can be made for a range of blocks")
		}
	}
	for i := 0; i < 4; i++ {
		if i == at {
			make()
		}
		if i&1 == 0 || at&1 == 0 {
			z.emit(0, []byte{1})
		}
		z.c.Seal()
		if i >= at && f.err == nil && i&1 == 1 {
			z.fetch("eth_getFilterChanges", f, seen)
			seen = len(z.logs)
		}
	}
	if at == 4 {
		make()
	}
	if f.err == nil {
		z.fetch("eth_getFilterChanges", f, seen)
		z.fetch("eth_getFilterLogs", f, 0)
	}
}

// Two filters have nothing to do with each other, and one that was removed
// is gone.
func ZZ_C32_two() {
	z := zzNewLogs()
	f := &zzFilt{from: new(int64), addr: 0}
	g := &zzFilt{from: new(int64), addr: 1}
	z.create(f)
	z.create(g)
	zzsym.Assert(f.err == nil && g.err == nil && f.id.Cmp(&g.id) != 0, "filters have their own ids")
	z.emit(0, nil)
	z.emit(1, nil)
	z.c.Seal()
	z.fetch("eth_getFilterChanges", f, 0)
	gone, stays := f, g
	if zzsym.Choose("remove", 2) == 1 {
		gone, stays = g, f
	}
	drop := func(id *seth.Int) bool {
		var ok bool
		buf, _ := json.Marshal(id)
		err := z.cl.Do("eth_uninstallFilter", []json.RawMessage{buf}, &ok)
		return err == nil && ok
	}
	zzsym.Assert(drop(&gone.id), "a filter can be removed")
	zzsym.Assert(!drop(&gone.id), "once")
	z.emit(0, nil)
	z.emit(1, nil)
	z.c.Seal()
	i := 0
	if stays == f {
		i = 2
	}
	z.fetch("eth_getFilterChanges", stays, i)
	z.fetch("eth_getFilterChanges", stays, 4)
	// any id but that of the filter, including that of the removed one
	b := zzsym.BigU("id", 72)
	id := (*seth.Int)(b)
	zzsym.Assume(id.Cmp(&stays.id) != 0)
	buf, err := json.Marshal(id)
	zzsym.Assert(err == nil, "a filter has an id")
	for _, m := range []string{"eth_getFilterChanges", "eth_getFilterLogs"} {
		var got []seth.Log
		zzsym.Assert(z.cl.Do(m, []json.RawMessage{buf}, &got) != nil, "there is no filter with another id")
	}
	zzsym.Assert(!drop(id), "nor can it be removed")
}
