package tevm

import (
	"errors"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
)

// zzAddrs are addresses that differ from each other in one byte.
func zzAddrs() (out [4]seth.Address) {
	for i := range out {
		for j := range out[i] {
			out[i][j] = 0xa0 + byte(j)
		}
	}
	out[1][19]++
	out[2][0]--
	out[3][10]++
	return out
}

// zzPick is one of them.
func zzPick(name string) seth.Address { return zzAddrs()[zzsym.Choose(name, 4)] }

func zzEqAddr(a, b *seth.Address) bool { return zzsym.EqBytes(a[:], b[:]) }

// zzFund gives an account a balance and a nonce.
func zzFund(c *Chain, a *seth.Address, bal *big.Int, nonce uint64) {
	db := c.State.StateDB()
	db.AddBalance(common.Address(*a), bal)
	db.SetNonce(common.Address(*a), nonce)
}

func zzBal(c *Chain, a *seth.Address) *big.Int { return c.BalanceOf(a) }

func zzEqBig(a, b *big.Int) bool { return a.Cmp(b) == 0 }

// zzAmount is a number with 8 arbitrary bits far up and 16 at the bottom.
func zzAmount(name string) *big.Int {
	v := zzsym.BigU(name+"hi", 8)
	v.Lsh(v, 232)
	return v.Add(v, zzsym.BigU(name+"lo", 16))
}

func zzChain() *Chain { return NewChain() }

// zzOther is an address that is neither of the two.
func zzOther(a, b *seth.Address) seth.Address {
	all := zzAddrs()
	for _, x := range all {
		if x != *a && x != *b {
			return x
		}
	}
	return all[0]
}

// Model__geth_crypto__CreateAddress is the address of a contract created by
// b: the end of the hash of the RLP list of b and the nonce (the real one
// encodes by reflection).
func Model__geth_crypto__CreateAddress(b common.Address, nonce uint64) (out common.Address) {
	item := append([]byte{0x80 + 20}, b[:]...)
	n := 0
	for n < 8 && nonce>>(8*uint(n)) != 0 {
		n++
	}
	if n == 1 && nonce < 0x80 {
		item = append(item, byte(nonce))
	} else {
		item = append(item, 0x80+byte(n))
		for n--; n >= 0; n-- {
			item = append(item, byte(nonce>>(8*uint(n))))
		}
	}
	h := seth.HashBytes(append([]byte{0xc0 + byte(len(item))}, item...))
	copy(out[:], h[12:])
	return out
}

// Model__math_rand__Read gives bytes like any other.
func Model__math_rand__Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(0x35 + 17*i)
	}
	return len(p), nil
}

// Model__geth_common__PAddress__UnmarshalJSON: the real one asks for the
// length of the type by reflection.
func Model__geth_common__PAddress__UnmarshalJSON(a *common.Address, in []byte) error {
	if len(in) < 2 || in[0] != '"' || in[len(in)-1] != '"' {
		return errors.New("json: cannot unmarshal non-string into Go value of type common.Address")
	}
	return hexutil.UnmarshalFixedText("common.Address", in[1:len(in)-1], a[:])
}

// Model__geth_common_math__ReadBits: the real one reads machine words.
func Model__geth_common_math__ReadBits(x *big.Int, buf []byte) { x.FillBytes(buf) }

// Model__geth_common_math__Exp: the real one walks machine words.
func Model__geth_common_math__Exp(base, exponent *big.Int) *big.Int {
	return new(big.Int).Exp(base, exponent, new(big.Int).Lsh(big.NewInt(1), 256))
}

// Model__geth_common_math__Byte: so does this one.
func Model__geth_common_math__Byte(bigint *big.Int, padlength, n int) byte {
	if n >= padlength {
		return 0
	}
	return bigint.FillBytes(make([]byte, 32))[32-padlength+n]
}
