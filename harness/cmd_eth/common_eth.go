package main

import (
	"encoding/json"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
)

// What ends the process or needs a terminal is answered here.
//
//zz:swap os.Exit=zzOsExit terminal.ReadPassword=zzReadPassword

type zzExit struct{ code int }

func zzOsExit(code int) { panic(zzExit{code}) }

var zzPass = []byte("pass")
var zzAsked int

func zzReadPassword(fd int) ([]byte, error) {
	zzAsked++
	return zzPass, nil
}

// zzRun tells whether f ended the process; any panic is a failure.
func zzRun(f func()) (exited bool) {
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(zzsym.Stop); ok {
				panic(s)
			}
			e, ok := x.(zzExit)
			zzsym.Assert(ok, "no panic")
			zzsym.Assert(e.code != 0, "the exit tells of a failure")
			exited = true
		}
	}()
	f()
	return false
}

// zzNode is a node that answers with what the harness prepared.
type zzNode struct {
	reqs []seth.RPCRequest
	h    func(n int, req *seth.RPCRequest, res *seth.RPCResponse) error
}

func (t *zzNode) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	t.reqs = append(t.reqs, *req)
	if err := t.h(len(t.reqs)-1, req, res); err != nil {
		return err
	}
	res.ID = req.ID
	res.Version = "2.0"
	return nil
}

// zzReply is what the node answers to a request's text.
func zzReply(t *zzNode, body []byte) []byte {
	var req seth.RPCRequest
	if err := json.Unmarshal(body, &req); err != nil {
		panic("zz: request: " + err.Error())
	}
	var res seth.RPCResponse
	if err := t.Execute(&req, &res); err != nil {
		return []byte(`{"jsonrpc":"2.0","id":1,"error":{"code":-1,"message":"zz"}}`)
	}
	out := append([]byte(`{"jsonrpc":"2.0","id":1,"result":`), res.Result...)
	return append(out, '}')
}

const zzDigits = "0123456789abcdef"

func zzHex(b []byte) string {
	out := make([]byte, 0, 2*len(b))
	for _, c := range b {
		out = append(out, zzDigits[c>>4], zzDigits[c&15])
	}
	return string(out)
}
