package seth

import (
	"bytes"
	"encoding/json"
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/philhofer/seth/zzsym"
)

// Call results, server errors and missing results are told apart.
//
//zz:prop=C16
//zz:use common_client

// Client.Do over every combination of a transport error, an error code (any
// 64-bit value), a message of up to 2 arbitrary bytes, error data, and a
// result that is null or a quantity of up to 4 digits; then a second,
// successful call.
//
//zz:cover result null servererr tporterr
func ZZ_C16_do() {
	var tpErr bool
	var code int
	var msg, res []byte
	v := uint64(0)
	null := false
	t := &zzTport{h: func(n int, req *RPCRequest, r *RPCResponse) error {
		if tpErr {
			return errZZ
		}
		r.Error.Code = code
		r.Error.Message = string(msg)
		r.Result = res
		return nil
	}}
	c := NewClientTransport(t)
	for i := 0; i < 2; i++ {
		code, msg = 0, nil
		if i == 1 {
			tpErr, null, res, v = false, false, zzRaw(`"0x7"`), 7
		} else if tpErr = zzsym.Choose("tport", 2) == 1; zzsym.Choose("err", 2) == 1 {
			code = zzsym.Int("code")
			msg = zzsym.Bytes("msg", zzsym.Choose("msglen", 3))
		}
		if i == 1 {
		} else if null = zzsym.Choose("null", 2) == 1; null {
			res = zzRaw("null")
		} else {
			n := 1 + zzsym.Choose("digits", 4)
			v = zzsym.Uint64("v")
			zzsym.Assume(v>>uint(4*n) == 0)
			res = zzQuantText(v, n)
		}
		out := Uint64(0x1234567)
		err := c.Do("zz_method", []json.RawMessage{zzRaw("true")}, &out)
		switch {
		case tpErr:
			zzsym.Cover("tporterr")
			zzsym.Assert(err == errZZ, "transport errors come back as they are")
			zzsym.Assert(out == 0x1234567, "output untouched after a transport error")
		case zzsym.Or(code != 0, len(msg) > 0):
			zzsym.Cover("servererr")
			e, ok := err.(*RPCError)
			zzsym.Assert(ok, "a server error comes back as an RPCError")
			if ok {
				zzsym.Assert(e.Code == code && e.Message == string(msg), "code and message of the server error")
			}
			zzsym.Assert(out == 0x1234567, "output untouched after a server error")
		case null:
			zzsym.Cover("null")
			zzsym.Assert(err == ErrNotFound, "a null result is not-found")
			zzsym.Assert(out == 0x1234567, "output untouched by a null result")
		default:
			zzsym.Cover("result")
			zzsym.Assert(err == nil && uint64(out) == v, "the result is delivered")
		}
	}
	zzsym.Assert(len(t.reqs) == 2 && t.reqs[0].ID != t.reqs[1].ID, "request numbers differ")
	for i := range t.reqs {
		r := &t.reqs[i]
		zzsym.Assert(r.Version == "2.0" && r.Method == "zz_method" && len(r.Params) == 1 && string(r.Params[0]) == "true", "the request says what was asked")
	}
}

// Every read method of the client returns the value the server gave (8-bit to
// 64-bit quantities of 1, 2 or 15 digits, any address or hash, up to 2 bytes
// of data, booleans) and passes on not-found, server and transport errors.
//
//zz:cover value failure
func ZZ_C16_methods() {
	kind := zzsym.Choose("kind", 4)
	var result []byte
	t := &zzTport{h: func(n int, req *RPCRequest, r *RPCResponse) error {
		switch kind {
		case 1:
			r.Result = rawnull
		case 2:
			r.Error.Code = -32000
			r.Error.Message = "nope"
		case 3:
			return errZZ
		default:
			r.Result = result
		}
		return nil
	}}
	c := NewClientTransport(t)
	quant := func() uint64 {
		n := []int{1, 2, 15}[zzsym.Choose("digits", 3)]
		v := zzsym.Uint64("v")
		zzsym.Assume(v>>uint(4*n) == 0)
		result = zzQuantText(v, n)
		return v
	}
	arg := zzAddrOf("arg")
	var err error
	method := ""
	good := true
	switch zzsym.Choose("method", 14) {
	case 0:
		v := quant()
		var got int64
		got, err = c.BlockNumber()
		method, good = "eth_blockNumber", uint64(got) == v
	case 1:
		v := quant()
		var got int64
		got, err = c.GasPrice()
		method, good = "eth_gasPrice", uint64(got) == v
	case 2:
		v := quant()
		var got int64
		got, err = c.Hashrate()
		method, good = "eth_hashrate", uint64(got) == v
	case 3:
		v := quant()
		var got int64
		got, err = c.GetNonce(&arg)
		method, good = "eth_getTransactionCount", uint64(got) == v
	case 4:
		v := quant()
		var got Int
		got, err = c.GetBalance(&arg)
		method, good = "eth_getBalance", got.Big().IsUint64() && got.Big().Uint64() == v
	case 5:
		result = zzRaw(`"63"`)
		var got string
		got, err = c.ProtocolVersion()
		method, good = "eth_protocolVersion", got == "63"
	case 6:
		b := zzsym.Choose("mining", 2) == 1
		result = rawfalse
		if b {
			result = rawtrue
		}
		var got bool
		got, err = c.Mining()
		method, good = "eth_mining", got == b
	case 7:
		a := zzAddrOf("a")
		result = zzHexText(a[:])
		var got *Address
		got, err = c.Coinbase()
		method, good = "eth_coinbase", got != nil && *got == a
	case 8:
		n := zzsym.Choose("accounts", 3)
		as := []Address{zzAddrOf("a"), zzAddrOf("b")}[:n]
		result = append(result, '[')
		for i := range as {
			if i > 0 {
				result = append(result, ',')
			}
			result = append(result, zzHexText(as[i][:])...)
		}
		result = append(result, ']')
		var got []Address
		got, err = c.Accounts()
		good = len(got) == n
		for i := range as {
			good = good && got != nil && got[i] == as[i]
		}
		method = "eth_accounts"
	case 9:
		b := zzsym.Bytes("code", zzsym.Choose("codelen", 3))
		result = zzHexText(b)
		var got []byte
		got, err = c.GetCode(&arg)
		method, good = "eth_getCode", string(got) == string(b)
	case 10:
		var got *SyncStatus
		if zzsym.Choose("syncing", 2) == 0 {
			result = rawfalse
			got, err = c.Syncing()
			good = got == nil
		} else {
			v := quant()
			q := result
			result = append(append(append([]byte(`{"startingBlock":"0x5","currentBlock":`), q...), `,"highestBlock":`...), q...)
			result = append(result, '}')
			got, err = c.Syncing()
			good = got != nil && got.Starting == 5 && uint64(got.Current) == v && uint64(got.Highest) == v
		}
		method = "eth_syncing"
	case 11:
		h := zzHashOf("h")
		v := quant()
		q := result
		a := zzAddrOf("a")
		result = []byte(`{"hash":`)
		result = append(append(result, zzHexText(h[:])...), `,"nonce":`...)
		result = append(append(result, q...), `,"from":`...)
		result = append(append(result, zzHexText(a[:])...), `,"to":null,"blockNumber":null,"unknown":[1,{"x":null}]}`...)
		var got *Transaction
		got, err = c.GetTransaction(&h)
		good = got != nil && got.Hash == h && uint64(got.Nonce) == v && got.From != nil && *got.From == a && got.To == nil && got.TxIndex == nil
		method = "eth_getTransactionByHash"
	case 12:
		h := zzHashOf("h")
		v := quant()
		q := result
		a := zzAddrOf("a")
		result = []byte(`{"transactionHash":`)
		result = append(append(result, zzHexText(h[:])...), `,"gasUsed":`...)
		result = append(append(result, q...), `,"contractAddress":`...)
		result = append(append(result, zzHexText(a[:])...), `,"status":"0x0","logs":[]}`...)
		var got *Receipt
		got, err = c.GetReceipt(&h)
		good = got != nil && got.Hash == h && uint64(got.GasUsed) == v && got.Address != nil && *got.Address == a && got.Threw() && len(got.Logs) == 0
		method = "eth_getTransactionReceipt"
	case 13:
		h := zzHashOf("h")
		v := quant()
		q := result
		result = []byte(`{"hash":`)
		result = append(append(result, zzHexText(h[:])...), `,"number":`...)
		result = append(append(result, q...), `,"difficulty":"0x10","transactions":[`...)
		result = append(append(result, zzHexText(h[:])...), `]}`...)
		var got *Block
		got, err = c.GetBlock(7, false)
		good = got != nil && got.Hash != nil && *got.Hash == h && got.Number != nil && uint64(*got.Number) == v && got.Difficulty != nil && got.Difficulty.Int64() == 16 && len(got.Transactions) == 1
		method = "eth_getBlockByNumber"
	}
	zzsym.Assert(len(t.reqs) == 1 && t.reqs[0].Method == method, "the right method is called, once")
	switch kind {
	case 0:
		zzsym.Cover("value")
		zzsym.Assert(err == nil, "a result is no error")
		zzsym.Assert(good, "the result of "+method)
	case 1:
		zzsym.Cover("failure")
		zzsym.Assert(err == ErrNotFound || method == "eth_syncing" && err != nil, "null means not found")
	case 2:
		e, ok := err.(*RPCError)
		zzsym.Assert(ok && e.Code == -32000 && e.Message == "nope", "the server's error")
	case 3:
		zzsym.Assert(err == errZZ, "the transport's error")
	}
}

type zzBody struct {
	io.Reader
	closed int
}

func (b *zzBody) Close() error { b.closed++; return nil }

// zzRT stands for the network below net/http.
type zzRT struct {
	method, url string
	body        []byte
	status      int
	err         error
	reply       []byte
	rb          *zzBody
}

func (t *zzRT) RoundTrip(r *http.Request) (*http.Response, error) {
	t.method, t.url = r.Method, r.URL.String()
	if r.Body != nil {
		t.body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	if t.err != nil {
		return nil, t.err
	}
	t.rb = &zzBody{Reader: bytes.NewReader(t.reply)}
	return &http.Response{StatusCode: t.status, Status: "zz", Body: t.rb, Header: http.Header{}, Request: r}, nil
}

func zzHTTP(method, u string, body io.Reader) (*http.Response, error) {
	p, err := url.Parse(u)
	if err != nil {
		return nil, err
	}
	r := &http.Request{Method: method, URL: p}
	if body != nil {
		r.Body = io.NopCloser(body)
	}
	return http.DefaultTransport.RoundTrip(r)
}

func Model__net_http__Post(u, ct string, body io.Reader) (*http.Response, error) {
	return zzHTTP("POST", u, body)
}

func Model__net_http__Get(u string) (*http.Response, error) { return zzHTTP("GET", u, nil) }

// The HTTP and Infura transports: the request reaches the right address with
// the right body or query; replies with a result (a quantity of 1 or 15
// digits), an error (codes -4 to 3, a 1-byte message), null, a status other
// than 200, a body cut at any of 4 places, and network errors.
//
//zz:cover ok server null status cut network
func ZZ_C16_http() {
	rt := &zzRT{status: 200}
	old := http.DefaultTransport
	http.DefaultTransport = rt
	defer func() { http.DefaultTransport = old }()
	var tp Transport = &HTTPTransport{URL: "http://zz.example/rpc"}
	infura := zzsym.Choose("infura", 2) == 1
	method := "eth_getCode"
	if infura {
		tp = InfuraTransport{}
		method = []string{"eth_getCode", "eth_sendRawTransaction", "eth_estimateGas"}[zzsym.Choose("method", 3)]
	}
	want := uint64(0)
	kind := zzsym.Choose("kind", 6)
	code := 0
	var msg byte
	switch kind {
	case 0:
		n := []int{1, 15}[zzsym.Choose("digits", 2)]
		want = zzsym.Uint64("v")
		zzsym.Assume(want>>uint(4*n) == 0)
		rt.reply = append(append([]byte(`{"jsonrpc":"2.0","id":1,"result":`), zzQuantText(want, n)...), '}')
	case 1:
		code = zzsym.Choose("code", 8) - 4
		msg = zzsym.Byte("msg")
		zzsym.Assume(msg >= ' ' && msg < 0x7f && msg != '"' && msg != '\\')
		digits := []string{"-4", "-3", "-2", "-1", "0", "1", "2", "3"}
		rt.reply = append(append([]byte(`{"id":1,"error":{"code":`+digits[code+4]+`,"message":"`), msg), `","data":{"a":1}}}`...)
	case 2:
		rt.reply = []byte(`{"id":1,"result":null,"error":null}`)
	case 3:
		rt.reply = []byte(`{"id":1,"result":"0x1"}`)
		rt.status = zzsym.Range("status", 100, 599)
		zzsym.Assume(rt.status != 200 && (rt.status < 300 || rt.status > 399))
	case 4:
		full := `{"id":1,"result":"0x1"}`
		rt.reply = []byte(full[:[]int{0, 5, 19, 22}[zzsym.Choose("cut", 4)]])
	case 5:
		rt.err = errZZ
	}
	c := NewClientTransport(tp)
	out := Uint64(0x55)
	a := zzAddrOf("a")
	p, _ := json.Marshal(&a)
	err := c.Do(method, []json.RawMessage{p, zzRaw(`"latest"`)}, &out)
	params := "[" + string(p) + `,"latest"]`
	if infura && method == "eth_getCode" {
		u, q := rt.url, ""
		if i := strings.IndexByte(u, '?'); i >= 0 {
			u, q = u[:i], u[i+1:]
		}
		zzsym.Assert(rt.method == "GET" && u == "https://api.infura.io/v1/jsonrpc/mainnet/eth_getCode", "the Infura address of the method")
		vals, qerr := url.ParseQuery(q)
		zzsym.Assert(qerr == nil && len(vals) == 1 && vals.Get("params") == params, "the Infura query carries the parameters")
	} else {
		w := "http://zz.example/rpc"
		if infura {
			w = "https://api.infura.io/v1/jsonrpc/mainnet"
		}
		zzsym.Assert(rt.method == "POST" && rt.url == w, "the address posted to")
		zzsym.Assert(string(rt.body) == `{"jsonrpc":"2.0","method":"`+method+`","params":`+params+`,"id":1}`, "the request posted")
	}
	zzsym.Assert(rt.err != nil || rt.rb.closed > 0, "the reply body is closed")
	switch kind {
	case 0:
		zzsym.Cover("ok")
		zzsym.Assert(err == nil && uint64(out) == want, "the result is delivered")
		return
	case 1:
		zzsym.Cover("server")
		e, ok := err.(*RPCError)
		zzsym.Assert(ok && e.Code == code && e.Message == string([]byte{msg}), "the server's error")
	case 2:
		zzsym.Cover("null")
		zzsym.Assert(err == ErrNotFound, "null means not found")
	case 3:
		zzsym.Cover("status")
		zzsym.Assert(err != nil, "a status other than 200 is an error")
	case 4:
		zzsym.Cover("cut")
		zzsym.Assert(err != nil, "a truncated reply is an error")
	case 5:
		zzsym.Cover("network")
		zzsym.Assert(err != nil, "a network error is an error")
	}
	zzsym.Assert(out == 0x55, "output untouched on failure")
}
