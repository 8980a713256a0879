package seth

import (
	"github.com/philhofer/seth/zzsym"
)

// Source positions.
//
//zz:prop=C36

// zzEntry is one entry of a source map with every field filled in.
type zzEntry struct{ s, l, f int }

// zzOpcode is the number of the instruction that the byte at pc belongs to.
func zzOpcode(code []byte, pc int) int {
	n := 0
	for at := 0; at < len(code); n++ {
		next := at + 1
		if op := code[at]; zzsym.And(op >= 0x60, op <= 0x7f) {
			next += zzsym.Concrete(int(op) - 0x60 + 1)
		}
		if pc < next {
			return n
		}
		at = next
	}
	return n
}

// zzText is the source text that pc should give.
func zzText(b *CompiledBundle, code []byte, entries []zzEntry, pc int) string {
	if pc < 0 || pc >= len(code) {
		return ""
	}
	n := zzOpcode(code, pc)
	if n >= len(entries) {
		return ""
	}
	e := entries[n]
	if e.f < 0 || e.f >= len(b.Sources) {
		return ""
	}
	src := b.Sources[e.f]
	if zzsym.Or(zzsym.Or(e.s < 0, e.s > len(src)), zzsym.Or(e.l <= 0, zzsym.Or(e.l > len(src), e.s+e.l > len(src)))) {
		return ""
	}
	return src[e.s : e.s+e.l]
}

func zzSourceOf(b *CompiledBundle, c *CompiledContract, pc int) (s string) {
	zzsym.Assert(!zzsym.Try(func() { s = b.SourceOf(c, pc) }), "no panic")
	return s
}

func zzCheckPC(b *CompiledBundle, c *CompiledContract, entries []zzEntry, pc int) {
	got := zzSourceOf(b, c, pc)
	want := zzText(b, c.Code, entries, pc)
	zzsym.ObsStr("text", got)
	if want != "" {
		zzsym.Cover("text")
	}
	zzsym.Assert(got == want, "the text is that of the instruction")
}

// code of up to 6 (thorough 8) arbitrary bytes with an entry of its own for
// each instruction, or for fewer; every counter from -2 to two beyond the
// code, in both orders
//
//zz:budget=150 split=4 splitdepth=2
//zz:cover text push cut short
func ZZ_C36_code() {
	n := zzsym.Choose("len", zzsym.Bound(7, 9))
	m := zzsym.Choose("entries", 4)
	code := zzsym.Bytes("code", n)
	var entries []zzEntry
	text := ""
	for i := 0; i < n; i++ {
		if m == 3 && i >= 2 {
			zzsym.Cover("short")
			break // an entry is missing for the rest
		}
		if i > 0 {
			text += ";"
		}
		switch m {
		case 0: // complete
			text += string([]byte{'0' + byte(i), ':', '1', ':', '0', ':', '-'})
			entries = append(entries, zzEntry{i, 1, 0})
		case 1: // only the start changes
			if i == 0 {
				text += "0:2:0:i"
			} else {
				text += string([]byte{'0' + byte(i)})
			}
			entries = append(entries, zzEntry{i, 2, 0})
		case 2, 3: // with the field of newer compilers
			text += string([]byte{'0' + byte(i), ':', '1', ':', '0', ':', 'o', ':', '3'})
			entries = append(entries, zzEntry{i, 1, 0})
		}
	}
	if n == 0 {
		entries = append(entries, zzEntry{})
	}
	b := &CompiledBundle{Filenames: []string{"a"}, Sources: []string{zzsym.Str("src", 12)}}
	c := &CompiledContract{Name: "c", Code: code, Sourcemap: text}
	if n > 0 && zzsym.Known(true) {
		op := code[n-1]
		if op >= 0x60 && op <= 0x7f {
			zzsym.Cover("cut")
		}
		op = code[0]
		if op >= 0x60 && op <= 0x7f {
			zzsym.Cover("push")
		}
	}
	if zzsym.Choose("down", 2) == 1 {
		for pc := n + 1; pc >= -2; pc-- {
			zzCheckPC(b, c, entries, pc)
		}
	} else {
		for pc := -2; pc <= n+1; pc++ {
			zzCheckPC(b, c, entries, pc)
		}
	}
}

// zzField writes one field of an entry: left out, one digit, or (file) -1.
func zzField(name string, text string, v *int, kinds int) string {
	switch zzsym.Choose(name+"-kind", kinds) {
	case 1:
		d := zzsym.Range(name, 0, zzsym.Bound(2, 9))
		*v = d
		text += string([]byte{'0' + byte(d)})
	case 2:
		*v = -1
		text += "-1"
	case 3:
		d := zzsym.Range(name, 0, 99)
		*v = d
		text += string([]byte{'0' + byte(d/10), '0' + byte(d%10)})
	}
	return text
}

// maps of up to 2 (thorough 3) entries for two instructions of one byte and a
// push, each entry with 0 to 5 fields, each field left out, with one
// digit up to 2 (thorough 9), -1, or with two digits (no -1 and two digits in
// quick but -1 for the file), over three source files of 0, 2 and 2
// (thorough 12) bytes; the first counter of each instruction that has an
// entry
//
//zz:budget=100 split=16 splitdepth=5 thorough_budget=800
//zz:cover text
func ZZ_C36_map() {
	var entries []zzEntry
	text := ""
	var e zzEntry
	n := 1 + zzsym.Choose("entries", zzsym.Bound(2, 3))
	for i := 0; i < n; i++ {
		if i > 0 {
			text += ";"
		}
		kinds := zzsym.Bound(2, 4)
		nf := zzsym.Choose("fields", 6)
		if nf > 0 {
			text = zzField("s", text, &e.s, kinds)
		}
		if nf > 1 {
			text = zzField("l", text+":", &e.l, kinds)
		}
		if nf > 2 {
			text = zzField("f", text+":", &e.f, 3)
		}
		if nf > 3 {
			text += ":"
			if zzsym.Choose("jump", zzsym.Bound(1, 2)) == 1 || nf == 5 {
				text += string([]byte{zzsym.Byte("j")&1 + 'i'})
			}
		}
		if nf > 4 {
			text += ":4"
		}
		entries = append(entries, e)
	}
	b := &CompiledBundle{
		Filenames: []string{"a", "b", "c"},
		Sources:   []string{zzsym.Str("src0", zzsym.Bound(2, 12)), "", zzsym.Str("src2", 2)},
	}
	c := &CompiledContract{Name: "c", Code: []byte{0x01, 0x61, 0x60, 0x60, 0x5b}, Sourcemap: text}
	for _, pc := range []int{0, 1, 4}[:n] {
		zzCheckPC(b, c, entries, pc)
	}
}

// zzParse reads a source map; ok tells whether it is well formed.
func zzParse(text string) (out []zzEntry, ok bool) {
	var e zzEntry
	field, start, neg, v := 0, true, false, 0
	ok = true
	end := func() {
		if !start {
			if neg {
				v = -v
			}
			switch field {
			case 0:
				e.s = v
			case 1:
				e.l = v
			case 2:
				e.f = v
			}
		}
		start, neg, v = true, false, 0
	}
	for i := 0; i < len(text); i++ {
		switch c := text[i]; {
		case c == ';':
			end()
			out = append(out, e)
			field = 0
		case c == ':':
			end()
			field++
		case field >= 3:
			start = false
		case c == '-':
			// a sign comes first, with a digit after it
			if !start || i+1 == len(text) || text[i+1] < '0' || text[i+1] > '9' {
				return nil, false
			}
			start, neg = false, true
		case c >= '0' && c <= '9':
			start = false
			v = 10*v + int(c-'0')
		default:
			return nil, false
		}
	}
	end()
	return append(out, e), true
}

// maps that are any text of up to 4 (thorough 5) bytes; one that is not a
// source map gives no panic
//
//zz:budget=150 split=4 splitdepth=2
//zz:cover text malformed
func ZZ_C36_text() {
	text := zzsym.Str("map", zzsym.Choose("len", zzsym.Bound(5, 6)))
	two := zzsym.Choose("sources", 2)
	entries, ok := zzParse(text)
	b := &CompiledBundle{Filenames: []string{"a"}, Sources: []string{zzsym.Str("src0", 3)}}
	if two == 1 {
		b.Filenames = append(b.Filenames, "b")
		b.Sources = append(b.Sources, zzsym.Str("src1", 9))
	}
	c := &CompiledContract{Name: "c", Code: []byte{0x01, 0x60, 0x60, 0x5b}, Sourcemap: text}
	for pc := 0; pc < 4; pc++ {
		if ok {
			zzCheckPC(b, c, entries, pc)
		} else {
			zzsym.Cover("malformed")
			zzSourceOf(b, c, pc)
		}
	}
}

// numbers of a field that are as large as they can be written, with a sign
// or without: no panic and no text; a bundle without sources
//
//zz:cover none
func ZZ_C36_huge() {
	huge := [...]string{"9223372036854775807", "-9223372036854775808", "9223372036854775808", "99999999999999999999999", "4294967296", "2147483648", "18446744073709551615"}
	h := huge[zzsym.Choose("n", len(huge))]
	text := ""
	switch zzsym.Choose("where", 4) {
	case 0:
		text = h + ":1:0:-"
	case 1:
		text = "1:" + h + ":0:-"
	case 2:
		text = "0:1:" + h + ":-"
	case 3:
		text = h + ":" + h + ":" + h
	}
	b := &CompiledBundle{}
	if zzsym.Choose("sources", 2) == 1 {
		b = &CompiledBundle{Filenames: []string{"a"}, Sources: []string{zzsym.Str("src", 4)}}
	}
	c := &CompiledContract{Name: "c", Code: []byte{0x01, 0x60}, Sourcemap: text}
	for pc := 0; pc < 2; pc++ {
		zzsym.Assert(zzSourceOf(b, c, pc) == "", "no text")
	}
	zzsym.Cover("none")
}
