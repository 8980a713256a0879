package zzsym

import (
	"errors"
	"math/big"
)

// Models of math/big's text parsing (nat.scan with base prefixes and digit
// separators, as in the pinned toolchain).

func digitVal(c byte) int {
	v := 99
	if c >= '0' && c <= '9' {
		v = int(c - '0')
	}
	if c >= 'a' && c <= 'z' {
		v = int(c-'a') + 10
	}
	if c >= 'A' && c <= 'Z' {
		v = int(c-'A') + 10
	}
	return v
}

// parseBig gives the value, and how much of s was used; used < 0 on error.
func parseBig(s []byte, base int) (*big.Int, int) {
	i := 0
	neg := false
	if i < len(s) && (s[i] == '-' || s[i] == '+') {
		neg = s[i] == '-'
		i++
	}
	v := new(big.Int)
	b := base
	prefix := byte(0)
	prev := byte('.')
	count := 0
	if base == 0 {
		b = 10
		if i < len(s) && s[i] == '0' {
			prev = '0'
			count = 1
			i++
			if i < len(s) {
				c := s[i]
				if c == 'b' || c == 'B' {
					b, prefix = 2, 'b'
				} else if c == 'o' || c == 'O' {
					b, prefix = 8, 'o'
				} else if c == 'x' || c == 'X' {
					b, prefix = 16, 'x'
				} else {
					b, prefix = 8, '0'
				}
				count = 0
				if prefix != '0' {
					i++
				}
			}
		}
	}
	bb := big.NewInt(int64(b))
	var nibs []byte
	invalSep := false
	for i < len(s) {
		c := s[i]
		if base == 0 && c == '_' {
			if prev != '0' {
				invalSep = true
			}
			prev = '_'
		} else {
			if b <= 10 {
				if c < '0' || c >= '0'+byte(b) {
					break
				}
				v.Mul(v, bb)
				v.Add(v, big.NewInt(int64(c-'0')))
				prev = '0'
				count++
				i++
				continue
			}
			d := digitVal(c)
			if d >= b {
				break
			}
			if b == 16 {
				nibs = append(nibs, byte(d))
			} else {
				v.Mul(v, bb)
				v.Add(v, big.NewInt(int64(d)))
			}
			prev = '0'
			count++
		}
		i++
	}
	if b == 16 {
		buf := make([]byte, (len(nibs)+1)/2)
		for j := range nibs {
			at := len(nibs) - 1 - j
			buf[len(buf)-1-j/2] |= nibs[at] & 15 << (4 * uint(j&1))
		}
		v.SetBytes(buf)
	}
	if invalSep || prev == '_' {
		return nil, -1
	}
	if count == 0 {
		if prefix == '0' {
			return v, i
		}
		return nil, -1
	}
	if neg {
		v.Neg(v)
	}
	return v, i
}

func Model__math_big__PInt__UnmarshalText(z *big.Int, text []byte) error {
	v, used := parseBig(text, 0)
	if used < 0 || used != len(text) {
		return errors.New("math/big: cannot unmarshal into a *big.Int")
	}
	z.Set(v)
	return nil
}

func Model__math_big__PInt__SetString(z *big.Int, s string, base int) (*big.Int, bool) {
	v, used := parseBig([]byte(s), base)
	if used < 0 || used != len(s) {
		return nil, false
	}
	z.Set(v)
	return z, true
}
