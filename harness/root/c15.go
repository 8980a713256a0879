package seth

import (
	"encoding/json"
	"errors"
	"io"
	"sync"

	"github.com/philhofer/seth/zzsym"
)

// Concurrent RPC calls each get their own reply.
//
//zz:prop=C15

var errZZDial = errors.New("zz: dial")
var errZZWrite = errors.New("zz: write")

// zzConn is one connection. What is still in flight when it is closed may
// or may not arrive.
type zzConn struct {
	s      *zzServer
	first  bool
	in     chan []byte
	mu     sync.Mutex
	closed bool
	held   []byte
	rest   []byte
}

func (c *zzConn) Read(p []byte) (int, error) {
	if len(c.rest) == 0 {
		b, ok := <-c.in
		if !ok {
			return 0, io.EOF
		}
		c.rest = b
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *zzConn) shut() {
	if !c.closed {
		c.closed = true
		close(c.in)
	}
}

func (c *zzConn) Close() error {
	c.mu.Lock()
	c.shut()
	c.mu.Unlock()
	return nil
}

func (c *zzConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, errZZWrite
	}
	var req RPCRequest
	if json.Unmarshal(p, &req) != nil || req.Version != "2.0" {
		c.s.bad = true
	}
	return len(p), c.s.serve(c, req.ID)
}

// zzServer answers every connection; the first one in a chosen way.
type zzServer struct {
	how    int
	k      int // the request on the first connection something happens to
	n      int // requests seen on it
	dials  int
	noDial int // the dial that fails
	bad    bool
}

func zzReply(id int) []byte {
	d := string([]byte{'0' + byte(id)})
	return []byte(`{"jsonrpc":"2.0","id":` + d + `,"result":"r` + d + `"}` + "\n")
}

const (
	zzInOrder = iota
	zzSwapped
	zzTogether
	zzTwice
	zzErr
	zzNull
	zzWriteFails
	zzHangup
	zzReplyHangup
	zzGarbage
	zzHows
)

func (s *zzServer) serve(c *zzConn, id int) error {
	if !c.first {
		c.in <- zzReply(id)
		return nil
	}
	n := s.n
	s.n++
	d := string([]byte{'0' + byte(id)})
	switch {
	case s.how == zzSwapped && n == s.k || s.how == zzTogether && n == s.k:
		c.held = zzReply(id)
	case s.how == zzTogether && c.held != nil:
		c.in <- append(zzReply(id), c.held...)
		c.held = nil
	case s.how == zzSwapped && c.held != nil:
		c.in <- zzReply(id)
		c.in <- c.held
		c.held = nil
	case n != s.k:
		c.in <- zzReply(id)
	case s.how == zzTwice:
		c.in <- []byte(`{"jsonrpc":"2.0","id":9,"result":"r9"}`)
		c.in <- zzReply(id)
		c.in <- zzReply(id)
	case s.how == zzErr:
		c.in <- []byte(`{"jsonrpc":"2.0","id":` + d + `,"error":{"code":-7,"message":"m` + d + `"}}`)
	case s.how == zzNull:
		c.in <- []byte(`{"jsonrpc":"2.0","id":` + d + `,"result":null}`)
	case s.how == zzWriteFails:
		return errZZWrite
	case s.how == zzHangup:
		c.shut()
	case s.how == zzReplyHangup:
		c.in <- zzReply(id)
		c.shut()
	case s.how == zzGarbage:
		c.in <- []byte("]")
	default:
		c.in <- zzReply(id)
	}
	return nil
}

func (s *zzServer) dial() (io.ReadWriteCloser, error) {
	s.dials++
	if s.dials == s.noDial {
		return nil, errZZDial
	}
	return &zzConn{s: s, first: s.dials == 1, in: make(chan []byte, 8)}, nil
}

type zzCaller struct {
	res  RPCResponse
	err  error
	done bool
}

func (c *zzCaller) call(t Transport, id int) {
	req := &RPCRequest{Version: "2.0", Method: "m", ID: id}
	c.err = t.Execute(req, &c.res)
	c.done = true
}

func zzRPC(s *zzServer) Transport { return NewClient(s.dial).tport }

// check: the reply is the caller's own, or the error one that s produces.
func (s *zzServer) check(c *zzCaller, id int, fault bool) {
	d := string([]byte{'0' + byte(id)})
	zzsym.Assert(c.done, "every call returns")
	if c.err == nil {
		zzsym.Assert(c.res.ID == id && string(c.res.Result) == `"r`+d+`"`, "each call gets its own reply")
		return
	}
	if e, ok := c.err.(*RPCError); ok {
		zzsym.Assert(s.how == zzErr && e.Code == -7 && e.Message == "m"+d, "a server error is the one for this call")
		return
	}
	if c.err == ErrNotFound {
		zzsym.Assert(s.how == zzNull, "only a null result is not found")
		return
	}
	zzsym.Assert(fault, "no other error on a working connection")
}

func (s *zzServer) faulty() bool { return s.how >= zzWriteFails || s.noDial > 0 }

// Two concurrent calls (thorough: three) and another one after them, over a
// connection on which one of the first requests is answered out of order,
// together with another, twice and with an unsolicited reply, with an error,
// with null, with garbage, or on which the write fails or the server hangs up
// before or after replying; any of the first 2 dials failing. All schedules
// with up to 1 preemption (thorough: 2).
//
//zz:sched=on
//zz:split=16 splitdepth=3 preempt=1 thorough_preempt=2 budget=100
func ZZ_C15_calls() {
	s := &zzServer{how: zzsym.Choose("how", zzHows)}
	s.k = zzsym.Choose("k", 2)
	s.noDial = zzsym.Choose("nodial", 3)
	if s.noDial == 1 {
		zzsym.Assume(s.how == 0)
	}
	if s.how == zzSwapped || s.how == zzTogether {
		zzsym.Assume(s.k == 0 && s.noDial == 0)
	}
	t := zzRPC(s)
	var c [3]zzCaller
	go c[1].call(t, 2)
	c[0].call(t, 1)
	zzsym.Quiesce()
	if s.how == zzSwapped || s.how == zzTogether || !s.faulty() {
		zzsym.Assert(s.dials == 1, "one connection serves all calls")
	}
	c[2].call(t, 3)
	zzsym.Quiesce()
	for i := range c {
		s.check(&c[i], i+1, s.faulty())
	}
	if s.noDial == 0 {
		zzsym.Assert(c[2].err == nil, "a call after a failed connection gets a new one")
	}
	zzsym.Assert(!s.bad && s.dials <= 3, "requests are sent whole")
}

type zzIDs struct {
	mu  sync.Mutex
	ids []int
}

func (t *zzIDs) Execute(req *RPCRequest, res *RPCResponse) error {
	t.mu.Lock()
	t.ids = append(t.ids, req.ID)
	t.mu.Unlock()
	res.ID = req.ID
	res.Result = json.RawMessage(`"` + req.Method + `"`)
	return nil
}

// Three concurrent calls through one Client: all schedules with up to 1
// preemption (thorough: 3), and any first request id.
//
//zz:sched=on
//zz:preempt=1 thorough_preempt=3 budget=30
func ZZ_C15_ids() {
	t := &zzIDs{}
	c := NewClientTransport(t)
	c.nextid = uintptr(zzsym.Uint32("nextid"))
	var r [3]string
	var err [3]error
	do := func(i int) { err[i] = c.Do(string([]byte{'a' + byte(i)}), nil, &r[i]) }
	go do(0)
	go do(1)
	do(2)
	zzsym.Quiesce()
	for i := range r {
		zzsym.Assert(err[i] == nil && r[i] == string([]byte{'a' + byte(i)}), "each call gets the result of its method")
	}
	zzsym.Assert(len(t.ids) == 3 && t.ids[0] != t.ids[1] && t.ids[1] != t.ids[2] && t.ids[0] != t.ids[2], "concurrent requests have different ids")
}
