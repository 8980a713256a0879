package seth

import (
	"encoding/json"
	"sync"

	"github.com/philhofer/seth/zzsym"
)

// Log filters deliver every log once, in order, and close.
//
//zz:prop=C20
//zz:use common_client

// zzNode is a node serving one filter; the transport is safe for concurrent
// use.
type zzNode struct {
	mu     sync.Mutex
	id     string   // the filter's id, in quotes
	rounds [][]byte // logs of each fetch, by their data byte
	fail   int      // the fetch that fails, -1 for none
	fetch  int
	gone   int
	after  int // what happens past the rounds: 0 the fetch fails, 1 it is not explored
	bad    string
}

func (z *zzNode) Execute(req *RPCRequest, res *RPCResponse) error {
	z.mu.Lock()
	defer z.mu.Unlock()
	res.ID, res.Version = req.ID, "2.0"
	switch req.Method {
	case "eth_newFilter":
		res.Result = json.RawMessage(z.id)
		return nil
	case "eth_uninstallFilter":
		z.gone++
		res.Result = json.RawMessage("true")
	case "eth_getFilterLogs", "eth_getFilterChanges":
		n := z.fetch
		z.fetch++
		if (req.Method == "eth_getFilterLogs") != (n == 0) {
			z.bad = "method"
		}
		if n == z.fail || z.gone > 0 {
			return errZZ
		}
		if n >= len(z.rounds) {
			zzsym.Assume(z.after == 0)
			return errZZ
		}
		t := "["
		for i, b := range z.rounds[n] {
			if i > 0 {
				t += ","
			}
			t += `{"data":"0x` + string([]byte{zzDigits[b>>4], zzDigits[b&15]}) + `"}`
		}
		res.Result = json.RawMessage(t + "]")
	default:
		z.bad = req.Method
	}
	if len(req.Params) != 1 || string(req.Params[0]) != z.id {
		z.bad = "id"
	}
	return nil
}

func zzRounds() (out [][]byte, all []byte) {
	k := byte(0)
	for i := 1 + zzsym.Choose("rounds", 2); i > 0; i-- {
		var r []byte
		for n := zzsym.Choose("logs", 3); n > 0; n-- {
			k++
			r = append(r, k)
		}
		out = append(out, r)
		all = append(all, r...)
	}
	return
}

// A reader who keeps reading, over 1 or 2 fetches of 0 to 2 logs each, any of
// them failing; polling (from the latest block) or not; filter ids of 1, 16
// and 32 digits. All schedules with up to 1
// preemption (thorough: 2).
//
//zz:sched=on
//zz:split=8 splitdepth=4 preempt=1 thorough_preempt=2
//zz:cover polled once failed
func ZZ_C20_deliver() {
	z := &zzNode{fail: -1}
	z.id = []string{`"0x1"`, `"0xfedcba9876543210"`, `"0x10000000000000000000000000000002"`}[zzsym.Choose("id", 3)]
	var all []byte
	poll := zzsym.Choose("poll", 2) == 1
	z.rounds, all = zzRounds()
	if !poll {
		all = z.rounds[0]
	}
	z.fail = zzsym.Choose("fail", len(z.rounds)+1)
	failed := poll || z.fail == 0
	if z.fail < len(z.rounds) {
		all = nil
		for i := 0; i < z.fail && (poll || i == 0); i++ {
			all = append(all, z.rounds[i]...)
		}
	}
	start := int64(5)
	if poll {
		start = -1
	}
	f, err := NewClientTransport(z).FilterTopics(nil, nil, start, -1)
	if err != nil {
		zzsym.Assert(false, "the filter is created")
		return
	}
	n := 0
	for l := range f.Out() {
		zzsym.Assert(n < len(all) && len(l.Data) == 1 && l.Data[0] == all[n], "the logs arrive once each and in order")
		n++
	}
	zzsym.Assert(n == len(all), "every log fetched arrives")
	zzsym.Assert(z.bad == "", "the filter asks for its own logs first and its changes then")
	if failed {
		zzsym.Cover("failed")
		zzsym.Assert(f.Err() == errZZ, "a failed fetch is reported")
	} else {
		zzsym.Cover("once")
		zzsym.Assert(f.Err() == nil, "no error without a failure")
	}
	if z.fetch > 1 {
		zzsym.Cover("polled")
	}
	zzsym.Assert(poll || z.fetch == 1, "a bounded filter fetches once")
	f.Close()
	f.Close()
	zzsym.Assert(z.gone == 1 && z.bad == "", "closing uninstalls the filter once")
}

// More logs in one fetch than the channel holds (19 to 23), with a reader who
// may be slow.
//
//zz:sched=on
func ZZ_C20_many() {
	n := 19 + zzsym.Choose("n", 5)
	z := &zzNode{fail: -1, id: `"0x1"`}
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(i)
	}
	z.rounds = [][]byte{r}
	f, err := NewClientTransport(z).FilterTopics(nil, nil, 5, -1)
	if err != nil {
		zzsym.Assert(false, "the filter is created")
		return
	}
	k := 0
	for l := range f.Out() {
		zzsym.Assert(k < n && l.Data[0] == r[k], "the logs arrive once each and in order")
		k++
	}
	zzsym.Assert(k == n && f.Err() == nil, "every log fetched arrives")
}

// Two goroutines close the filter, each once or twice, while it polls a node
// that has up to 1 log in each of its first 2 fetches; the reader drains the
// output and the channel closes. All schedules with up to 2 preemptions (3
// fetches at most).
//
//zz:sched=on
//zz:preempt=2 thorough_preempt=3 split=8 splitdepth=4 budget=100
func ZZ_C20_close() {
	z := &zzNode{fail: -1, id: `"0x7"`, after: 1}
	var all []byte
	for i := 0; i < 2; i++ {
		var r []byte
		if zzsym.Choose("log", 2) == 1 {
			r = []byte{byte(i + 1)}
		}
		z.rounds = append(z.rounds, r)
		all = append(all, r...)
	}
	start := int64(-1)
	if zzsym.Choose("poll", 2) == 0 {
		start = 3
	}
	f, err := NewClientTransport(z).FilterTopics(nil, nil, start, -1)
	if err != nil {
		zzsym.Assert(false, "the filter is created")
		return
	}
	twice := zzsym.Choose("twice", 2) == 1
	go func() {
		f.Close()
	}()
	f.Close()
	if twice {
		f.Close()
	}
	f.Err()
	n := 0
	for l := range f.Out() {
		zzsym.Assert(n < len(all) && l.Data[0] == all[n], "logs arrive once each and in order")
		n++
	}
	zzsym.Quiesce()
	err = f.Err()
	zzsym.Assert(err == nil || err == errZZ, "no other error")
	zzsym.Assert(z.gone == 1 && z.bad == "", "the filter is uninstalled once")
}
