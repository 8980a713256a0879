package seth

import (
	"bytes"
	"encoding/json"
	"math/big"

	"github.com/tinylib/msgp/msgp"

	"github.com/philhofer/seth/zzsym"
)

// Binary records.
//
//zz:prop=C34

type zzMsg interface {
	msgp.Encodable
	msgp.Decodable
	msgp.Marshaler
	msgp.Unmarshaler
	Msgsize() int
}

// zzDump lists the parts of a record; lengths and what is missing are told.
type zzDump struct{ b []byte }

func (d *zzDump) u(v uint64) {
	for i := 0; i < 8; i++ {
		d.b = append(d.b, byte(v>>uint(8*i)))
	}
}
func (d *zzDump) bytes(b []byte) { d.u(uint64(len(b))); d.b = append(d.b, b...) }
func (d *zzDump) str(s string)   { d.bytes([]byte(s)) }
func (d *zzDump) nil(isnil bool) bool {
	if isnil {
		d.b = append(d.b, 0)
		return false
	}
	d.b = append(d.b, 1)
	return true
}
func (d *zzDump) bool(b bool) { d.u(uint64(zzsym.IteInt(b, 1, 0))) }
func (d *zzDump) int(i *Int) {
	if d.nil(i == nil) {
		zzsym.Assert(i.Big().Sign() >= 0, "an integer keeps its sign")
		b := make([]byte, 40)
		i.Big().FillBytes(b)
		d.bytes(b)
	}
}
func (d *zzDump) pu(p *Uint64) {
	if d.nil(p == nil) {
		d.u(uint64(*p))
	}
}
func (d *zzDump) hash(h *Hash) {
	if d.nil(h == nil) {
		d.bytes(h[:])
	}
}
func (d *zzDump) addr(a *Address) {
	if d.nil(a == nil) {
		d.bytes(a[:])
	}
}
func (d *zzDump) log(v *Log) {
	d.bool(v.Removed)
	d.pu(v.LogIndex)
	d.pu(v.TxIndex)
	d.hash(v.TxHash)
	d.hash(v.BlockHash)
	d.pu(v.BlockNumber)
	d.addr(&v.Address)
	d.bytes(v.Data)
	d.u(uint64(len(v.Topics)))
	for _, t := range v.Topics {
		d.bytes(t)
	}
}
func (d *zzDump) param(v *ABIParam) {
	d.str(v.Name)
	d.str(v.Type)
	d.bool(v.Indexed)
	d.u(uint64(len(v.Components)))
	for i := range v.Components {
		d.param(&v.Components[i])
	}
}
func (d *zzDump) desc(v *ABIDescriptor) {
	d.str(v.Type)
	d.str(v.Name)
	for _, ps := range [][]ABIParam{v.Inputs, v.Outputs} {
		d.u(uint64(len(ps)))
		for i := range ps {
			d.param(&ps[i])
		}
	}
	d.bool(v.Payable)
	d.str(v.Mutability)
	d.bool(v.Constant)
	d.bool(v.Anonymous)
}
func (d *zzDump) contract(v *CompiledContract) {
	d.str(v.Name)
	d.bytes(v.Code)
	d.str(v.Sourcemap)
	d.u(uint64(len(v.ABI)))
	for i := range v.ABI {
		d.desc(&v.ABI[i])
	}
}

func (d *zzDump) any(r zzMsg) {
	switch v := r.(type) {
	case *Address:
		d.addr(v)
	case *Hash:
		d.hash(v)
	case *Data:
		d.bytes(*v)
	case *Int:
		d.int(v)
	case *Uint64:
		d.u(uint64(*v))
	case *Block:
		d.pu(v.Number)
		d.hash(v.Hash)
		d.hash(&v.Parent)
		d.u(uint64(v.Nonce))
		d.hash(&v.UncleHash)
		d.bytes(v.Bloom)
		d.hash(&v.TxRoot)
		d.hash(&v.StateRoot)
		d.hash(&v.ReceiptsRoot)
		d.addr(&v.Miner)
		d.u(uint64(v.GasLimit))
		d.u(uint64(v.GasUsed))
		d.u(uint64(len(v.Transactions)))
		for _, t := range v.Transactions {
			d.bytes(t)
		}
		d.u(uint64(len(v.Uncles)))
		for i := range v.Uncles {
			d.hash(&v.Uncles[i])
		}
		d.int(v.Difficulty)
		d.int(v.TotalDifficulty)
		d.u(uint64(v.Timestamp))
		d.bytes(v.Extra)
	case *Log:
		d.log(v)
	case *Receipt:
		d.hash(&v.Hash)
		d.u(uint64(v.Index))
		d.hash(&v.BlockHash)
		d.u(uint64(v.BlockNumber))
		d.u(uint64(v.GasUsed))
		d.u(uint64(v.Cumulative))
		d.addr(v.Address)
		d.u(uint64(v.Status))
		d.u(uint64(len(v.Logs)))
		for i := range v.Logs {
			d.log(&v.Logs[i])
		}
	case *Transaction:
		d.hash(&v.Hash)
		d.u(uint64(v.Nonce))
		d.hash(&v.Block)
		d.u(uint64(v.BlockNumber))
		d.addr(v.To)
		d.pu(v.TxIndex)
		d.addr(v.From)
		d.int(&v.Value)
		d.int(&v.GasPrice)
		d.u(uint64(v.Gas))
		d.bytes(v.Input)
	case *TokenTransfer:
		d.u(uint64(v.Block))
		d.u(uint64(v.TxHeight))
		d.addr(&v.Token)
		d.addr(&v.From)
		d.addr(&v.To)
		d.int(&v.Amount)
	case *RPCError:
		d.u(uint64(v.Code))
		d.str(v.Message)
		d.bytes(v.Data)
	case *ABIParam:
		d.param(v)
	case *ABIDescriptor:
		d.desc(v)
	case *CompiledContract:
		d.contract(v)
	case *CompiledBundle:
		for _, l := range [][]string{v.Filenames, v.Sources, v.Warnings} {
			d.u(uint64(len(l)))
			for _, s := range l {
				d.str(s)
			}
		}
		d.u(uint64(len(v.Contracts)))
		for i := range v.Contracts {
			d.contract(&v.Contracts[i])
		}
	case *Source:
		d.str(v.Filename)
		d.str(v.Body)
	default:
		panic("zz: record")
	}
}

func zzDumpOf(r zzMsg) []byte {
	d := new(zzDump)
	d.any(r)
	return d.b
}

const zzRecords = 16

func zzNewRecord(k int) zzMsg {
	return []zzMsg{new(Address), new(Hash), new(Data), new(Int), new(Uint64), new(Block), new(Log), new(Receipt), new(Transaction),
		new(TokenTransfer), new(RPCError), new(ABIParam), new(ABIDescriptor), new(CompiledContract), new(CompiledBundle), new(Source)}[k]
}

// zzFill makes records. Sizes, and which parts are missing, depend on n;
// parts are arbitrary if sym, but only the n-th number is of any size.
type zzFill struct {
	n   int
	sym bool
	num int
}

func (z *zzFill) bytes(n int) []byte {
	if z.sym {
		return zzsym.Bytes("b", n)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(0x85 + 3*i + z.n)
	}
	return b
}
func (z *zzFill) str(n int) string { return string(z.bytes(n)) }
func (z *zzFill) u() uint64 {
	z.num++
	switch {
	case !z.sym:
		return uint64(z.num) << uint(5*z.num%60)
	case z.num == z.n:
		return zzsym.Uint64("u")
	}
	return uint64(zzsym.Byte("u") & 0x7f)
}
func (z *zzFill) pu() *Uint64 {
	v := Uint64(z.u())
	if (z.n+z.num)%3 == 0 {
		return nil
	}
	return &v
}
func (z *zzFill) hash() (h Hash)    { copy(h[:], z.bytes(32)); return }
func (z *zzFill) addr() (a Address) { copy(a[:], z.bytes(20)); return }
func (z *zzFill) phash() *Hash {
	z.num++
	h := z.hash()
	if (z.n+z.num)%3 == 0 {
		return nil
	}
	return &h
}
func (z *zzFill) paddr() *Address {
	z.num++
	h := z.addr()
	if (z.n+z.num)%3 == 0 {
		return nil
	}
	return &h
}
func (z *zzFill) bool() bool {
	if z.sym {
		return zzsym.Bool("flag")
	}
	z.num++
	return z.num&1 == 0
}
func (z *zzFill) int() *Int {
	z.num++
	n := []int{0, 1, 2, 32, 9}[(z.num+z.n)%5]
	b := z.bytes(n)
	if n > 0 && z.sym {
		zzsym.Assume(b[0] != 0)
	}
	return (*Int)(new(big.Int).SetBytes(b))
}
func (z *zzFill) pint() *Int {
	i := z.int()
	if (z.n+z.num)%4 == 0 {
		return nil
	}
	return i
}
func (z *zzFill) log() Log {
	l := Log{Removed: z.bool(), LogIndex: z.pu(), TxIndex: z.pu(), TxHash: z.phash(), BlockHash: z.phash(), BlockNumber: z.pu(), Address: z.addr(), Data: z.bytes(z.n % 4 * 11)}
	for i := 0; i < z.n%3; i++ {
		l.Topics = append(l.Topics, z.bytes(32*i))
	}
	return l
}
func (z *zzFill) param(deep int) ABIParam {
	p := ABIParam{Name: z.str(z.n % 3), Type: z.str(3), Indexed: z.bool()}
	for i := 0; deep > 0 && i < z.n%3; i++ {
		p.Components = append(p.Components, z.param(deep-1))
	}
	return p
}
func (z *zzFill) desc() ABIDescriptor {
	d := ABIDescriptor{Type: z.str(3), Name: z.str(2), Payable: z.bool(), Mutability: z.str(4), Constant: z.bool(), Anonymous: z.bool()}
	for i := 0; i < z.n%3; i++ {
		d.Inputs = append(d.Inputs, z.param(i))
	}
	for i := 0; i < (z.n+1)%3; i++ {
		d.Outputs = append(d.Outputs, z.param(0))
	}
	return d
}
func (z *zzFill) contract() CompiledContract {
	c := CompiledContract{Name: z.str(3), Code: z.bytes(z.n * 13), Sourcemap: z.str(z.n % 3 * 20)}
	for i := 0; i < z.n%3; i++ {
		c.ABI = append(c.ABI, z.desc())
	}
	return c
}

func (z *zzFill) record(k int) zzMsg {
	switch v := zzNewRecord(k).(type) {
	case *Address:
		*v = z.addr()
		return v
	case *Hash:
		*v = z.hash()
		return v
	case *Data:
		*v = z.bytes([]int{0, 1, 31, 255, 256}[z.n%5])
		return v
	case *Int:
		return z.int()
	case *Uint64:
		z.n = 1
		*v = Uint64(z.u())
		return v
	case *Block:
		*v = Block{Number: z.pu(), Hash: z.phash(), Parent: z.hash(), Nonce: Uint64(z.u()), UncleHash: z.hash(), Bloom: z.bytes(z.n * 7), TxRoot: z.hash(), StateRoot: z.hash(), ReceiptsRoot: z.hash(), Miner: z.addr(),
			GasLimit: Uint64(z.u()), GasUsed: Uint64(z.u()), Difficulty: z.pint(), TotalDifficulty: z.pint(), Timestamp: Uint64(z.u()), Extra: z.bytes(z.n)}
		for i := 0; i < z.n%3; i++ {
			v.Transactions = append(v.Transactions, json.RawMessage(z.bytes(20*i)))
			v.Uncles = append(v.Uncles, z.hash())
		}
		return v
	case *Log:
		*v = z.log()
		return v
	case *Receipt:
		*v = Receipt{Hash: z.hash(), Index: Uint64(z.u()), BlockHash: z.hash(), BlockNumber: Uint64(z.u()), GasUsed: Uint64(z.u()), Cumulative: Uint64(z.u()), Address: z.paddr(), Status: Uint64(z.u())}
		for i := 0; i < z.n%3; i++ {
			v.Logs = append(v.Logs, z.log())
		}
		return v
	case *Transaction:
		*v = Transaction{Hash: z.hash(), Nonce: Uint64(z.u()), Block: z.hash(), BlockNumber: Uint64(z.u()), To: z.paddr(), TxIndex: z.pu(), From: z.paddr(), Value: *z.int(), GasPrice: *z.int(), Gas: Uint64(z.u()), Input: z.bytes(z.n * 9)}
		return v
	case *TokenTransfer:
		*v = TokenTransfer{Block: int64(z.u()), TxHeight: int(z.u()), Token: z.addr(), From: z.addr(), To: z.addr(), Amount: *z.int()}
		return v
	case *RPCError:
		*v = RPCError{Code: int(z.u()), Message: z.str(z.n), Data: json.RawMessage(z.bytes(z.n * 8))}
		return v
	case *ABIParam:
		*v = z.param(2)
		return v
	case *ABIDescriptor:
		*v = z.desc()
		return v
	case *CompiledContract:
		*v = z.contract()
		return v
	case *CompiledBundle:
		for i := 0; i < z.n%3; i++ {
			v.Filenames = append(v.Filenames, z.str(i+1))
			v.Sources = append(v.Sources, z.str(40*i))
			v.Contracts = append(v.Contracts, z.contract())
		}
		for i := 0; i < (z.n+1)%3; i++ {
			v.Warnings = append(v.Warnings, z.str(i))
		}
		return v
	case *Source:
		*v = Source{Filename: z.str(z.n), Body: z.str(z.n * 8)}
		return v
	}
	panic("zz: record")
}

// Every kind of record with arbitrary contents in 4 (thorough: 9) sizes, with
// one number of any size, into records that hold nothing or something else.
//
//zz:budget=60 split=8 splitdepth=2
func ZZ_C34_marshal() {
	k := zzsym.Choose("record", zzRecords)
	n := 1 + zzsym.Choose("size", zzsym.Bound(4, 9))
	r := (&zzFill{n: n, sym: true}).record(k)
	want := zzDumpOf(r)
	pre := []byte("x")
	out, err := r.MarshalMsg(pre)
	zzsym.Assert(err == nil, "a record can be written")
	zzsym.Assert(bytes.Equal(out[:1], pre), "after what is there")
	out = out[1:]
	zzsym.Assert(len(out) <= r.Msgsize(), "in no more space than announced")
	back := zzNewRecord(k)
	if zzsym.Choose("dirty", 2) == 1 {
		back = (&zzFill{n: n + 1}).record(k)
	}
	rest, err := back.UnmarshalMsg(append(out, 'y', 'z'))
	zzsym.Assert(err == nil, "and read")
	zzsym.Assert(string(rest) == "yz", "leaving what comes after")
	zzsym.Assert(string(zzDumpOf(back)) == string(want), "and is the same")
	zzsym.Assert(string(zzDumpOf(r)) == string(want), "writing does not change it")
}

// The same through a stream.
//
//zz:budget=60 split=8 splitdepth=2
func ZZ_C34_stream() {
	k := zzsym.Choose("record", zzRecords)
	n := 1 + zzsym.Choose("size", zzsym.Bound(3, 9))
	r := (&zzFill{n: n, sym: true}).record(k)
	want := zzDumpOf(r)
	var buf bytes.Buffer
	w := msgp.NewWriter(&buf)
	err := r.EncodeMsg(w)
	zzsym.Assert(err == nil && w.Flush() == nil, "a record can be written")
	// streams and slices have the same contents
	out, err := r.MarshalMsg(nil)
	zzsym.Assert(err == nil && string(out) == buf.String(), "in one way")
	back := zzNewRecord(k)
	if zzsym.Choose("dirty", 2) == 1 {
		back = (&zzFill{n: n + 1}).record(k)
	}
	buf.WriteString("yz")
	rd := msgp.NewReader(&buf)
	zzsym.Assert(back.DecodeMsg(rd) == nil, "and read")
	zzsym.Assert(string(zzDumpOf(back)) == string(want), "and is the same")
	left := make([]byte, 2)
	m, err := rd.R.Read(left)
	zzsym.Assert(err == nil && m == 2 && string(left) == "yz", "leaving what comes after")
}

// Every kind of record, cut short anywhere.
//
//zz:budget=60 split=8 splitdepth=2
func ZZ_C34_cut() {
	k := zzsym.Choose("record", zzRecords)
	n := 1 + zzsym.Choose("size", zzsym.Bound(2, 5))
	r := (&zzFill{n: n}).record(k)
	out, err := r.MarshalMsg(nil)
	zzsym.Assert(err == nil, "a record can be written")
	stream := zzsym.Choose("stream", 2) == 1
	back := zzNewRecord(k)
	for cut := range out {
		if stream {
			err = back.DecodeMsg(msgp.NewReader(bytes.NewReader(out[:cut])))
		} else {
			_, err = back.UnmarshalMsg(out[:cut:cut])
		}
		zzsym.Assert(err != nil, "a record cut short cannot be read")
	}
}

// Every kind of record with any one byte of it (quick: every 11th) replaced
// by 43 others, among them all type bytes of the format (but those for arrays
// of 2^16 and more parts), read as the record it is:
// it is refused, or read as something that can be written again.
//
//zz:budget=60 split=8 splitdepth=2
func ZZ_C34_garble() {
	k := zzsym.Choose("record", zzRecords)
	n := 1 + zzsym.Choose("size", zzsym.Bound(1, 2))
	r := (&zzFill{n: n}).record(k)
	out, err := r.MarshalMsg(nil)
	zzsym.Assert(err == nil, "a record can be written")
	xs := []byte("\x00\x01\x0b\x7f\x80\x81\x8f\x90\x91\x9f\xa0\xa1\xa4\xbf\xc0\xc1\xc2\xc3\xc4\xc5\xc6\xc7\xc8\xc9\xca\xcb\xcc\xcd\xce\xcf\xd0\xd1\xd2\xd3\xd4\xd8\xd9\xda\xdb\xde\xdf\xe0\xff")
	x := xs[zzsym.Choose("x", len(xs))]
	step := zzsym.Bound(11, 1)
	i := zzsym.Choose("at", (len(out)+step-1)/step)*step + zzsym.Choose("by", zzsym.Bound(1, step))
	if i >= len(out) {
		i = len(out) - 1
	}
	if i > 40*step {
		return
	}
	out[i] = x
	back := zzNewRecord(k)
	rest, err := back.UnmarshalMsg(out)
	if err != nil {
		return
	}
	zzsym.Assert(len(rest) < len(out), "something was read")
	_, err = back.MarshalMsg(nil)
	zzsym.Assert(err == nil, "what was read can be written")
}

// One kind of record read as another is refused, unless both are numbers or
// both byte strings; so are up to 3 (thorough: 5) arbitrary bytes.
//
//zz:budget=60 split=8 splitdepth=2
func ZZ_C34_mistyped() {
	k := zzsym.Choose("record", zzRecords)
	back := zzNewRecord(k)
	if zzsym.Choose("any", 2) == 1 {
		b := zzsym.Bytes("raw", zzsym.Choose("len", zzsym.Bound(4, 6)))
		if len(b) > 0 && k > 4 {
			// arrays with more parts than there are bytes
			for _, x := range b {
				zzsym.Assume(x != 0xdc && x != 0xdd)
			}
		}
		rest, err := back.UnmarshalMsg(b)
		zzsym.Assert(err != nil || len(rest) < len(b), "something was read")
		return
	}
	j := zzsym.Choose("other", zzRecords)
	if j == k {
		return
	}
	out, err := (&zzFill{n: 1}).record(j).MarshalMsg(nil)
	zzsym.Assert(err == nil, "a record can be written")
	if j > 4 && k > 4 {
		return // both are maps
	}
	bin := func(k int) bool { return k == 2 || k == 3 }
	_, err = back.UnmarshalMsg(out)
	zzsym.Assert((err == nil) == (bin(k) && (bin(j) || j < 2)), "a record of another kind is refused")
}
