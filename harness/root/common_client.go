package seth

import (
	"encoding/json"
	"errors"

	"github.com/philhofer/seth/zzsym"
)

// zzTport is a transport that answers with what the harness prepared and
// records what it was asked.
type zzTport struct {
	reqs []RPCRequest
	h    func(n int, req *RPCRequest, res *RPCResponse) error
}

func (t *zzTport) Execute(req *RPCRequest, res *RPCResponse) error {
	t.reqs = append(t.reqs, *req)
	n := len(t.reqs) - 1
	if err := t.h(n, req, res); err != nil {
		return err
	}
	res.ID = req.ID
	res.Version = "2.0"
	return nil
}

var errZZ = errors.New("zz: transport failed")

func zzRaw(s string) json.RawMessage { return json.RawMessage(s) }

const zzDigits = "0123456789abcdef"

// zzHexText is "0x" and two digits per byte, in quotes.
func zzHexText(b []byte) []byte {
	out := []byte{'"', '0', 'x'}
	for _, c := range b {
		out = append(out, zzDigits[c>>4], zzDigits[c&15])
	}
	return append(out, '"')
}

// zzQuantText is the quantity v in exactly n digits, in quotes.
func zzQuantText(v uint64, n int) []byte {
	out := []byte{'"', '0', 'x'}
	for i := n - 1; i >= 0; i-- {
		out = append(out, zzDigits[v>>uint(4*i)&15])
	}
	return append(out, '"')
}

func zzAddrOf(name string) (a Address) {
	copy(a[:], zzsym.Bytes(name, 20))
	return a
}

func zzHashOf(name string) (h Hash) {
	copy(h[:], zzsym.Bytes(name, 32))
	return h
}
