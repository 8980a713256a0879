package tevm

import (
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
)

// zzRef is the reference state of two accounts with two storage slots each.
type zzRef struct {
	exists  [2]bool
	bal     [2]uint64
	nonce   [2]uint64
	code    [2]int // -1: none, else its one byte
	suicide [2]bool
	slot    [2][2]byte
	refund  uint64
	logs    [8]byte
	nlogs   int
}

func zzNewRef() *zzRef {
	r := new(zzRef)
	r.code = [2]int{-1, -1}
	return r
}

func zzSlot(i int) (h common.Hash) { h[31] = byte(i); return h }

const zzKinds = 9

// zzMutate performs one kind of change to account a on both.
func (r *zzRef) mutate(db vm.StateDB, kind, a, s int) {
	addr := common.Address(zzAddrs()[a])
	switch kind {
	case 0:
		v := zzsym.Byte("bal")
		db.AddBalance(addr, big.NewInt(int64(v)))
		r.bal[a] += uint64(v)
		r.exists[a] = true
	case 1:
		n := zzsym.Uint64("nonce")
		db.SetNonce(addr, n)
		r.nonce[a] = n
		r.exists[a] = true
	case 2:
		c := zzsym.Byte("code")
		db.SetCode(addr, []byte{c})
		r.code[a] = int(c)
	case 3:
		v := zzsym.Byte("slot")
		var h common.Hash
		h[7] = v
		db.SetState(addr, zzSlot(s), h)
		r.slot[a][s] = v
	case 4:
		v := zzsym.Byte("refund")
		db.AddRefund(uint64(v))
		r.refund += uint64(v)
	case 5:
		b := zzsym.Byte("log")
		db.AddLog(&types.Log{Address: addr, Data: []byte{b}})
		r.logs[r.nlogs] = b
		r.nlogs++
	case 6:
		did := db.Suicide(addr)
		zzsym.Assert(did == (r.exists[a] && !r.suicide[a]), "an account is destroyed once, if it exists")
		if r.exists[a] {
			r.suicide[a] = true
			r.bal[a] = 0
		}
	case 7:
		db.CreateAccount(addr)
		r.exists[a] = true
		r.nonce[a] = 0
		r.suicide[a] = false
	case 8:
		zzsym.Assume(r.refund > 0)
		db.SubRefund(1)
		r.refund--
	}
}

// same compares everything that can be read from the state.
func (r *zzRef) same(s *State, what string) {
	db := s.StateDB()
	for a := 0; a < 2; a++ {
		addr := common.Address(zzAddrs()[a])
		zzsym.Assert(db.GetBalance(addr).Cmp(new(big.Int).SetUint64(r.bal[a])) == 0, what+": the balance")
		zzsym.Assert(db.GetNonce(addr) == r.nonce[a], what+": the nonce")
		code := db.GetCode(addr)
		zzsym.Assert(db.GetCodeSize(addr) == len(code), what+": the code size is that of the code")
		if r.code[a] < 0 {
			zzsym.Assert(len(code) == 0, what+": no code")
		} else {
			zzsym.Assert(len(code) == 1 && int(code[0]) == r.code[a], what+": the code")
		}
		zzsym.Assert(db.HasSuicided(addr) == r.suicide[a], what+": destroyed or not")
		zzsym.Assert(db.Exist(addr) == r.exists[a], what+": existing or not")
		empty := r.bal[a] == 0 && r.nonce[a] == 0 && r.code[a] < 0
		zzsym.Assert(db.Empty(addr) == zzsym.Or(!r.exists[a], empty), what+": empty or not")
		for i := 0; i < 2; i++ {
			h := db.GetState(addr, zzSlot(i))
			var w common.Hash
			w[7] = r.slot[a][i]
			zzsym.Assert(zzsym.EqBytes(h[:], w[:]), what+": the storage slot")
		}
	}
	other := common.Address(zzAddrs()[3])
	zzsym.Assert(!db.Exist(other), what+": an account never touched does not exist")
	zzsym.Assert(db.GetRefund() == r.refund, what+": the refund counter")
	zzsym.Assert(len(s.Logs) == r.nlogs, what+": the number of logs")
	for i := 0; i < r.nlogs; i++ {
		zzsym.Assert(s.Logs[i].Data[0] == r.logs[i], what+": the logs")
	}
}

// zzFrom is an account that calls contracts.
func zzFrom() seth.Address { return zzAddrs()[2] }
