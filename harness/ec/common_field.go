package ec

import "math/big"

var zzP, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)

// zzValue is the number that the words stand for.
func zzValue(f *fieldVal) *big.Int {
	v := new(big.Int)
	for i := 9; i >= 0; i-- {
		v.Lsh(v, 26)
		v.Add(v, new(big.Int).SetUint64(uint64(f.n[i])))
	}
	return v
}
