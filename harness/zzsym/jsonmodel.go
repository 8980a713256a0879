package zzsym

import (
	"encoding"
	"encoding/base64"
	"encoding/json"
	"errors"
	"io"
	"strconv"
)

// A Go model of encoding/json (which the real library implements with
// reflection): the executor redirects the package's entry points here. Values
// are reached through "refs", interface values holding a *T, with the Rv*
// primitives the executor provides. Floating point numbers are not modelled.

const (
	rvInvalid = iota
	rvBool
	rvInt
	rvUint
	rvString
	rvSlice
	rvArray
	rvMap
	rvPtr
	rvStruct
	rvIface
	rvOther
)

func RvKind(ref interface{}) int                         { panic("executor only") }
func RvBox(v interface{}) interface{}                    { panic("executor only") }
func RvLoad(ref interface{}) interface{}                 { panic("executor only") }
func RvIsPtr(v interface{}) bool                         { panic("executor only") }
func RvNilPtr(v interface{}) bool                        { panic("executor only") }
func RvNew(ref interface{}) interface{}                  { panic("executor only") }
func RvSetZero(ref interface{})                          { panic("executor only") }
func RvIsNil(ref interface{}) bool                       { panic("executor only") }
func RvInt(ref interface{}) int64                        { panic("executor only") }
func RvSetInt(ref interface{}, v int64)                  { panic("executor only") }
func RvBits(ref interface{}) int                         { panic("executor only") }
func RvBool(ref interface{}) bool                        { panic("executor only") }
func RvSetBool(ref interface{}, v bool)                  { panic("executor only") }
func RvString(ref interface{}) string                    { panic("executor only") }
func RvSetString(ref interface{}, v string)              { panic("executor only") }
func RvLen(ref interface{}) int                          { panic("executor only") }
func RvCap(ref interface{}) int                          { panic("executor only") }
func RvIndex(ref interface{}, i int) interface{}         { panic("executor only") }
func RvResize(ref interface{}, n, c int)                 { panic("executor only") }
func RvSwap(ref interface{}, i, j int)                   { panic("executor only") }
func RvElemIsByte(ref interface{}) bool                  { panic("executor only") }
func RvBytes(ref interface{}) []byte                     { panic("executor only") }
func RvSetBytes(ref interface{}, b []byte)               { panic("executor only") }
func RvMapKeys(ref interface{}) []interface{}            { panic("executor only") }
func RvMapGet(ref, key interface{}) interface{}          { panic("executor only") }
func RvMapSet(ref, key, val interface{})                 { panic("executor only") }
func RvMakeMap(ref interface{})                          { panic("executor only") }
func RvNewKey(ref interface{}) interface{}               { panic("executor only") }
func RvNewElem(ref interface{}) interface{}              { panic("executor only") }
func RvIfaceSet(ref, v interface{})                      { panic("executor only") }
func RvIfaceAny(ref interface{}) bool                    { panic("executor only") }
func RvNF(ref interface{}) int                           { panic("executor only") }
func RvFName(ref interface{}, i int) string              { panic("executor only") }
func RvFOmit(ref interface{}, i int) bool                { panic("executor only") }
func RvFQuoted(ref interface{}, i int) bool              { panic("executor only") }
func RvFRef(ref interface{}, i int, mk bool) interface{} { panic("executor only") }
func JsOpaque(s string) bool                             { panic("executor only") }
func JsPlain(s []byte) bool                              { panic("executor only") }
func JsPlainRun(s []byte, i int) int                     { panic("executor only") }
func RvUnsup(msg string)                                 { panic("executor only") }

var errJSONEnd = errors.New("unexpected end of JSON input")
var errJSONSyntax = errors.New("invalid JSON")

// jsonStop is how the encoder reports a failure.
type jsonStop struct{ err error }

// ---- syntax ----

func jsWS(b []byte, i int) int {
	for i < len(b) && (b[i] == ' ' || b[i] == '\n' || b[i] == '\t' || b[i] == '\r') {
		i++
	}
	return i
}

func jsLit(b []byte, i int, lit string) (int, error) {
	for k := 0; k < len(lit); k++ {
		if i+k >= len(b) {
			return 0, errJSONEnd
		}
		if b[i+k] != lit[k] {
			return 0, errJSONSyntax
		}
	}
	return i + len(lit), nil
}

func jsHexDigit(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// jsString scans the string whose opening quote is at i.
func jsString(b []byte, i int) (int, error) {
	i++
	for {
		i += JsPlainRun(b, i)
		if i >= len(b) {
			return 0, errJSONEnd
		}
		c := b[i]
		switch {
		case c == '"':
			return i + 1, nil
		case c == '\\':
			if i+1 >= len(b) {
				return 0, errJSONEnd
			}
			switch b[i+1] {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
				i += 2
			case 'u':
				for k := 2; k < 6; k++ {
					if i+k >= len(b) {
						return 0, errJSONEnd
					}
					if !jsHexDigit(b[i+k]) {
						return 0, errJSONSyntax
					}
				}
				i += 6
			default:
				return 0, errJSONSyntax
			}
		case c < ' ':
			return 0, errJSONSyntax
		default:
			i++
		}
	}
}

func jsDigits(b []byte, i int) int {
	for i < len(b) && b[i] >= '0' && b[i] <= '9' {
		i++
	}
	return i
}

// jsNumber scans a number; at the end of the input it may be incomplete.
func jsNumber(b []byte, i int) (int, error) {
	if b[i] == '-' {
		i++
	}
	if i >= len(b) {
		return 0, errJSONEnd
	}
	switch {
	case b[i] == '0':
		i++
	case b[i] >= '1' && b[i] <= '9':
		i = jsDigits(b, i)
	default:
		return 0, errJSONSyntax
	}
	if i < len(b) && b[i] == '.' {
		j := jsDigits(b, i+1)
		if j >= len(b) && j == i+1 {
			return 0, errJSONEnd
		}
		if j == i+1 {
			return 0, errJSONSyntax
		}
		i = j
	}
	if i < len(b) && (b[i] == 'e' || b[i] == 'E') {
		i++
		if i < len(b) && (b[i] == '+' || b[i] == '-') {
			i++
		}
		j := jsDigits(b, i)
		if j == i {
			if j >= len(b) {
				return 0, errJSONEnd
			}
			return 0, errJSONSyntax
		}
		i = j
	}
	return i, nil
}

// jsValue scans one value starting at or after i and returns its end.
func jsValue(b []byte, i, depth int) (int, error) {
	i = jsWS(b, i)
	if i >= len(b) {
		return 0, errJSONEnd
	}
	if depth > 10000 {
		return 0, errJSONSyntax
	}
	switch c := b[i]; {
	case c == '{':
		i = jsWS(b, i+1)
		if i >= len(b) {
			return 0, errJSONEnd
		}
		if b[i] == '}' {
			return i + 1, nil
		}
		for {
			i = jsWS(b, i)
			if i >= len(b) {
				return 0, errJSONEnd
			}
			if b[i] != '"' {
				return 0, errJSONSyntax
			}
			var err error
			if i, err = jsString(b, i); err != nil {
				return 0, err
			}
			i = jsWS(b, i)
			if i >= len(b) {
				return 0, errJSONEnd
			}
			if b[i] != ':' {
				return 0, errJSONSyntax
			}
			if i, err = jsValue(b, i+1, depth+1); err != nil {
				return 0, err
			}
			i = jsWS(b, i)
			if i >= len(b) {
				return 0, errJSONEnd
			}
			if b[i] == '}' {
				return i + 1, nil
			}
			if b[i] != ',' {
				return 0, errJSONSyntax
			}
			i++
		}
	case c == '[':
		i = jsWS(b, i+1)
		if i >= len(b) {
			return 0, errJSONEnd
		}
		if b[i] == ']' {
			return i + 1, nil
		}
		for {
			var err error
			if i, err = jsValue(b, i, depth+1); err != nil {
				return 0, err
			}
			i = jsWS(b, i)
			if i >= len(b) {
				return 0, errJSONEnd
			}
			if b[i] == ']' {
				return i + 1, nil
			}
			if b[i] != ',' {
				return 0, errJSONSyntax
			}
			i++
		}
	case c == '"':
		return jsString(b, i)
	case c == 't':
		return jsLit(b, i, "true")
	case c == 'f':
		return jsLit(b, i, "false")
	case c == 'n':
		return jsLit(b, i, "null")
	case c == '-' || c >= '0' && c <= '9':
		return jsNumber(b, i)
	}
	return 0, errJSONSyntax
}

// jsCompact appends the value src without insignificant space.
func jsCompact(out, src []byte) ([]byte, error) {
	end, err := jsValue(src, 0, 0)
	if err != nil {
		return nil, err
	}
	if jsWS(src, end) != len(src) {
		return nil, errJSONSyntax
	}
	for i := 0; i < end; {
		switch src[i] {
		case ' ', '\n', '\t', '\r':
			i++
		case '"':
			j, _ := jsString(src, i)
			out = append(out, src[i:j]...)
			i = j
		default:
			out = append(out, src[i])
			i++
		}
	}
	return out, nil
}

// jsUnquote gives the content of a quoted string.
func jsUnquote(q []byte) []byte {
	s := q[1 : len(q)-1]
	if JsPlainRun(s, 0) == len(s) {
		return append([]byte(nil), s...)
	}
	var out []byte
	for i := 0; i < len(s); {
		n := JsPlainRun(s, i)
		if n > 0 {
			out = append(out, s[i:i+n]...)
			i += n
			continue
		}
		if s[i] != '\\' {
			out = append(out, s[i])
			i++
			continue
		}
		switch s[i+1] {
		case 'b':
			out = append(out, '\b')
		case 'f':
			out = append(out, '\f')
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case 'u':
			r := rune(0)
			for k := 2; k < 6; k++ {
				c := s[i+k]
				switch {
				case c <= '9':
					r = r<<4 | rune(c-'0')
				case c >= 'a':
					r = r<<4 | rune(c-'a'+10)
				default:
					r = r<<4 | rune(c-'A'+10)
				}
			}
			if r >= 0xd800 && r < 0xe000 {
				RvUnsup("surrogate escapes in JSON strings")
			}
			out = append(out, string(r)...)
			i += 4
		default:
			out = append(out, s[i+1])
		}
		i += 2
	}
	return out
}

// ---- encoding ----

const jsHex = "0123456789abcdef"

func jsQuote(out []byte, s []byte) []byte {
	out = append(out, '"')
	if JsPlain(s) {
		out = append(out, s...)
		return append(out, '"')
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			out = append(out, '\\', c)
		case c == '\b':
			out = append(out, '\\', 'b')
		case c == '\f':
			out = append(out, '\\', 'f')
		case c == '\n':
			out = append(out, '\\', 'n')
		case c == '\r':
			out = append(out, '\\', 'r')
		case c == '\t':
			out = append(out, '\\', 't')
		case c < ' ' || c == '<' || c == '>' || c == '&':
			out = append(out, '\\', 'u', '0', '0', jsHex[c>>4], jsHex[c&15])
		case c >= 0x80:
			r := []rune(string(s[i:]))[0]
			n := len(string(r))
			switch {
			case r == 0xfffd && !(len(s) >= i+3 && s[i] == 0xef && s[i+1] == 0xbf && s[i+2] == 0xbd):
				out = append(out, 0xef, 0xbf, 0xbd)
				n = 1
			case r == 0x2028:
				out = append(out, "\\u2028"...)
			case r == 0x2029:
				out = append(out, "\\u2029"...)
			default:
				out = append(out, s[i:i+n]...)
			}
			i += n - 1
		default:
			out = append(out, c)
		}
	}
	return append(out, '"')
}

func jsEncode(out []byte, ref interface{}, addr bool, quoted bool) []byte {
	k := RvKind(ref)
	if k == rvPtr {
		if RvIsNil(ref) {
			return append(out, "null"...)
		}
		return jsEncode(out, RvLoad(ref), true, quoted)
	}
	if k == rvIface {
		v := RvLoad(ref)
		if v == nil {
			return append(out, "null"...)
		}
		return jsEncodeTop(out, v)
	}
	var recv interface{}
	if addr {
		recv = ref
	} else {
		recv = RvLoad(ref)
	}
	if m, ok := recv.(json.Marshaler); ok {
		b, err := m.MarshalJSON()
		if err == nil {
			out, err = jsCompact(out, b)
		}
		if err != nil {
			panic(jsonStop{err})
		}
		return out
	}
	if m, ok := recv.(encoding.TextMarshaler); ok {
		b, err := m.MarshalText()
		if err != nil {
			panic(jsonStop{err})
		}
		return jsQuote(out, b)
	}
	switch k {
	case rvBool:
		if RvBool(ref) {
			return jsMaybeQuote(out, "true", quoted)
		}
		return jsMaybeQuote(out, "false", quoted)
	case rvInt:
		return jsMaybeQuote(out, strconv.FormatInt(RvInt(ref), 10), quoted)
	case rvUint:
		return jsMaybeQuote(out, strconv.FormatUint(uint64(RvInt(ref)), 10), quoted)
	case rvString:
		s := RvString(ref)
		if JsOpaque(s) {
			s = "(text not modelled)"
		}
		if quoted {
			return jsQuote(out, jsQuote(nil, []byte(s)))
		}
		return jsQuote(out, []byte(s))
	case rvSlice:
		if RvIsNil(ref) {
			return append(out, "null"...)
		}
		if RvElemIsByte(ref) {
			out = append(out, '"')
			out = append(out, base64.StdEncoding.EncodeToString(RvBytes(ref))...)
			return append(out, '"')
		}
		out = append(out, '[')
		n := Concrete(RvLen(ref))
		for i := 0; i < n; i++ {
			if i > 0 {
				out = append(out, ',')
			}
			out = jsEncode(out, RvIndex(ref, i), true, false)
		}
		return append(out, ']')
	case rvArray:
		out = append(out, '[')
		n := RvLen(ref)
		for i := 0; i < n; i++ {
			if i > 0 {
				out = append(out, ',')
			}
			out = jsEncode(out, RvIndex(ref, i), addr, false)
		}
		return append(out, ']')
	case rvMap:
		if RvIsNil(ref) {
			return append(out, "null"...)
		}
		keys := RvMapKeys(ref)
		names := make([]string, len(keys))
		for i, kr := range keys {
			names[i] = jsKeyName(kr)
		}
		for i := 1; i < len(keys); i++ {
			for j := i; j > 0 && names[j] < names[j-1]; j-- {
				names[j], names[j-1] = names[j-1], names[j]
				keys[j], keys[j-1] = keys[j-1], keys[j]
			}
		}
		out = append(out, '{')
		for i := range keys {
			if i > 0 {
				out = append(out, ',')
			}
			out = jsQuote(out, []byte(names[i]))
			out = append(out, ':')
			out = jsEncode(out, RvMapGet(ref, keys[i]), false, false)
		}
		return append(out, '}')
	case rvStruct:
		out = append(out, '{')
		first := true
		n := RvNF(ref)
		for i := 0; i < n; i++ {
			f := RvFRef(ref, i, false)
			if f == nil || RvFOmit(ref, i) && jsEmpty(f) {
				continue
			}
			if !first {
				out = append(out, ',')
			}
			first = false
			out = jsQuote(out, []byte(RvFName(ref, i)))
			out = append(out, ':')
			out = jsEncode(out, f, addr, RvFQuoted(ref, i))
		}
		return append(out, '}')
	}
	panic(jsonStop{errors.New("json: unsupported type")})
}

func jsMaybeQuote(out []byte, s string, quoted bool) []byte {
	if quoted {
		out = append(out, '"')
	}
	out = append(out, s...)
	if quoted {
		out = append(out, '"')
	}
	return out
}

func jsKeyName(ref interface{}) string {
	if RvKind(ref) == rvString {
		return RvString(ref)
	}
	if m, ok := RvLoad(ref).(encoding.TextMarshaler); ok {
		b, err := m.MarshalText()
		if err != nil {
			panic(jsonStop{err})
		}
		return string(b)
	}
	switch RvKind(ref) {
	case rvInt:
		return strconv.FormatInt(RvInt(ref), 10)
	case rvUint:
		return strconv.FormatUint(uint64(RvInt(ref)), 10)
	}
	panic(jsonStop{errors.New("json: unsupported map key type")})
}

func jsEmpty(ref interface{}) bool {
	switch RvKind(ref) {
	case rvArray, rvMap, rvSlice, rvString:
		return RvLen(ref) == 0
	case rvBool:
		return !RvBool(ref)
	case rvInt, rvUint:
		return RvInt(ref) == 0
	case rvPtr, rvIface:
		return RvIsNil(ref)
	}
	return false
}

func jsEncodeTop(out []byte, v interface{}) []byte {
	if v == nil {
		return append(out, "null"...)
	}
	return jsEncode(out, RvBox(v), false, false)
}

func jsMarshal(v interface{}) (b []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(jsonStop)
			if !ok {
				panic(r)
			}
			b, err = nil, s.err
		}
	}()
	return jsEncodeTop(nil, v), nil
}

func Model__encoding_json__Marshal(v interface{}) ([]byte, error) { return jsMarshal(v) }

func Model__encoding_json__MarshalIndent(v interface{}, prefix, indent string) ([]byte, error) {
	b, err := jsMarshal(v)
	if err != nil {
		return nil, err
	}
	var out []byte
	depth := 0
	line := func() {
		out = append(out, '\n')
		out = append(out, prefix...)
		for i := 0; i < depth; i++ {
			out = append(out, indent...)
		}
	}
	str, esc := false, false
	for i, c := range b {
		switch {
		case esc:
			esc = false
		case str:
			if c == '\\' {
				esc = true
			} else if c == '"' {
				str = false
			}
		case c == '"':
			str = true
		case c == '{' || c == '[':
			out = append(out, c)
			depth++
			if b[i+1] != '}' && b[i+1] != ']' {
				line()
			}
			continue
		case c == '}' || c == ']':
			depth--
			if b[i-1] != '{' && b[i-1] != '[' {
				line()
			}
		case c == ',':
			out = append(out, c)
			line()
			continue
		case c == ':':
			out = append(out, ':', ' ')
			continue
		}
		out = append(out, c)
	}
	return out, nil
}

// ---- decoding ----

type jsDec struct {
	b []byte
	i int
}

func (d *jsDec) ws() byte {
	d.i = jsWS(d.b, d.i)
	return d.b[d.i]
}

// raw takes the next value.
func (d *jsDec) raw() []byte {
	d.ws()
	s := d.i
	d.i, _ = jsValue(d.b, s, 0)
	return d.b[s:d.i]
}

func (d *jsDec) typeErr(what string) error {
	return errors.New("json: cannot unmarshal " + what)
}

func jsFirst(a, b error) error {
	if a != nil {
		return a
	}
	return b
}

func jsNull(b []byte) bool { return b[0] == 'n' }

func (d *jsDec) value(ref interface{}, quoted bool) error {
	c := d.ws()
	k := RvKind(ref)
	if k == rvPtr {
		if c == 'n' {
			d.raw()
			RvSetZero(ref)
			return nil
		}
		if RvIsNil(ref) {
			return d.value(RvNew(ref), quoted)
		}
		return d.value(RvLoad(ref), quoted)
	}
	if k == rvIface {
		return d.iface(ref)
	}
	if u, ok := ref.(json.Unmarshaler); ok {
		return u.UnmarshalJSON(append([]byte(nil), d.raw()...))
	}
	if u, ok := ref.(encoding.TextUnmarshaler); ok {
		switch c {
		case 'n':
			d.raw()
			return nil
		case '"':
			return u.UnmarshalText(jsUnquote(d.raw()))
		}
		d.raw()
		return d.typeErr("non-string")
	}
	if c == 'n' {
		d.raw()
		switch k {
		case rvSlice, rvMap:
			RvSetZero(ref)
		}
		return nil
	}
	if quoted {
		RvUnsup("string option of encoding/json in decoding")
	}
	switch k {
	case rvBool:
		d.raw()
		if c != 't' && c != 'f' {
			return d.typeErr("value into bool")
		}
		RvSetBool(ref, c == 't')
		return nil
	case rvString:
		r := d.raw()
		if c != '"' {
			return d.typeErr("value into string")
		}
		RvSetString(ref, string(jsUnquote(r)))
		return nil
	case rvInt:
		r := d.raw()
		if c != '-' && (c < '0' || c > '9') {
			return d.typeErr("value into integer")
		}
		n, err := strconv.ParseInt(string(r), 10, RvBits(ref))
		if err != nil {
			return d.typeErr("number")
		}
		RvSetInt(ref, n)
		return nil
	case rvUint:
		r := d.raw()
		if c != '-' && (c < '0' || c > '9') {
			return d.typeErr("value into integer")
		}
		n, err := strconv.ParseUint(string(r), 10, RvBits(ref))
		if err != nil {
			return d.typeErr("number")
		}
		RvSetInt(ref, int64(n))
		return nil
	case rvSlice:
		if RvElemIsByte(ref) && c == '"' {
			s := jsUnquote(d.raw())
			out := make([]byte, base64.StdEncoding.DecodedLen(len(s)))
			n, err := base64.StdEncoding.Decode(out, s)
			if err != nil {
				return d.typeErr("base64")
			}
			RvSetBytes(ref, out[:n])
			return nil
		}
		if c != '[' {
			d.raw()
			return d.typeErr("value into slice")
		}
		var first error
		n := 0
		cp := Concrete(RvCap(ref))
		if cp > 0 {
			RvResize(ref, cp, cp)
		}
		d.i++
		for d.ws() != ']' {
			if d.b[d.i] == ',' {
				d.i++
				continue
			}
			if n == cp {
				cp = 2*cp + 1
				RvResize(ref, cp, cp)
			}
			first = jsFirst(first, d.value(RvIndex(ref, n), false))
			n++
		}
		d.i++
		if n == 0 {
			RvResize(ref, 0, 0)
		} else {
			RvResize(ref, n, cp)
		}
		return first
	case rvArray:
		if c != '[' {
			d.raw()
			return d.typeErr("value into array")
		}
		var first error
		n := 0
		d.i++
		for d.ws() != ']' {
			if d.b[d.i] == ',' {
				d.i++
				continue
			}
			if n >= RvLen(ref) {
				d.raw()
				continue
			}
			first = jsFirst(first, d.value(RvIndex(ref, n), false))
			n++
		}
		d.i++
		for ; n < RvLen(ref); n++ {
			RvSetZero(RvIndex(ref, n))
		}
		return first
	case rvMap, rvStruct:
		if c != '{' {
			d.raw()
			return d.typeErr("value into object")
		}
		if k == rvMap && RvIsNil(ref) {
			RvMakeMap(ref)
		}
		var first error
		d.i++
		for d.ws() != '}' {
			if d.b[d.i] == ',' {
				d.i++
				continue
			}
			name := jsUnquote(d.raw())
			d.ws()
			d.i++ // :
			if k == rvMap {
				key := RvNewKey(ref)
				if u, ok := key.(encoding.TextUnmarshaler); ok && RvKind(key) != rvString {
					if err := u.UnmarshalText(name); err != nil {
						first = jsFirst(first, err)
						d.raw()
						continue
					}
				} else if RvKind(key) == rvString {
					RvSetString(key, string(name))
				} else {
					RvUnsup("map keys that are neither strings nor text")
				}
				el := RvNewElem(ref)
				first = jsFirst(first, d.value(el, false))
				RvMapSet(ref, key, el)
				continue
			}
			f := -1
			nf := RvNF(ref)
			for i := 0; i < nf && f < 0; i++ {
				if RvFName(ref, i) == string(name) {
					f = i
				}
			}
			for i := 0; i < nf && f < 0; i++ {
				if jsFold(RvFName(ref, i), string(name)) {
					f = i
				}
			}
			if f < 0 {
				d.raw()
				continue
			}
			first = jsFirst(first, d.value(RvFRef(ref, f, true), RvFQuoted(ref, f)))
		}
		d.i++
		return first
	}
	d.raw()
	return d.typeErr("value into unsupported type")
}

func jsFold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		x, y := a[i], b[i]
		if x >= 'A' && x <= 'Z' {
			x += 32
		}
		if y >= 'A' && y <= 'Z' {
			y += 32
		}
		if x != y {
			return false
		}
	}
	return true
}

func (d *jsDec) iface(ref interface{}) error {
	v := RvLoad(ref)
	if v != nil {
		if RvIsPtr(v) && !RvNilPtr(v) {
			if d.ws() == 'n' {
				if RvKind(v) == rvPtr {
					d.raw()
					RvSetZero(v)
					return nil
				}
				d.raw()
				RvSetZero(ref)
				return nil
			}
			return d.value(v, false)
		}
		RvSetZero(ref)
	}
	if d.ws() == 'n' {
		d.raw()
		RvSetZero(ref)
		return nil
	}
	if !RvIfaceAny(ref) {
		d.raw()
		return d.typeErr("value into nil interface")
	}
	RvIfaceSet(ref, d.generic())
	return nil
}

func (d *jsDec) generic() interface{} {
	switch c := d.ws(); c {
	case '{':
		m := make(map[string]interface{})
		d.i++
		for d.ws() != '}' {
			if d.b[d.i] == ',' {
				d.i++
				continue
			}
			name := string(jsUnquote(d.raw()))
			d.ws()
			d.i++
			m[name] = d.generic()
		}
		d.i++
		return m
	case '[':
		s := []interface{}{}
		d.i++
		for d.ws() != ']' {
			if d.b[d.i] == ',' {
				d.i++
				continue
			}
			s = append(s, d.generic())
		}
		d.i++
		return s
	case '"':
		return string(jsUnquote(d.raw()))
	case 't', 'f':
		d.raw()
		return c == 't'
	case 'n':
		d.raw()
		return nil
	}
	RvUnsup("JSON number decoded into an interface value")
	return nil
}

func jsUnmarshal(data []byte, v interface{}) error {
	if v == nil || !RvIsPtr(v) || RvNilPtr(v) {
		return errors.New("json: Unmarshal of a non-pointer or nil")
	}
	end, err := jsValue(data, 0, 0)
	if err != nil {
		return err
	}
	if jsWS(data, end) != len(data) {
		return errJSONSyntax
	}
	d := &jsDec{b: data}
	return d.value(v, false)
}

func Model__encoding_json__Unmarshal(data []byte, v interface{}) error { return jsUnmarshal(data, v) }

func Model__encoding_json__Valid(data []byte) bool {
	end, err := jsValue(data, 0, 0)
	return err == nil && jsWS(data, end) == len(data)
}

// ---- streams ----

type jsDecState struct {
	r   io.Reader
	buf []byte
	err error
}

type jsEncState struct {
	w   io.Writer
	err error
}

var jsDecs = map[*json.Decoder]*jsDecState{}
var jsEncs = map[*json.Encoder]*jsEncState{}

func Model__encoding_json__NewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	jsDecs[d] = &jsDecState{r: r}
	return d
}

func Model__encoding_json__NewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	jsEncs[e] = &jsEncState{w: w}
	return e
}

func Model__encoding_json__PDecoder__More(dec *json.Decoder) bool {
	d := jsDecs[dec]
	for {
		s := jsWS(d.buf, 0)
		if s < len(d.buf) {
			return d.buf[s] != ']' && d.buf[s] != '}'
		}
		tmp := make([]byte, 512)
		n, err := d.r.Read(tmp)
		d.buf = append(d.buf[:len(d.buf):len(d.buf)], tmp[:n]...)
		if err != nil && n == 0 {
			return false
		}
	}
}

func Model__encoding_json__PDecoder__Decode(dec *json.Decoder, v interface{}) error {
	d := jsDecs[dec]
	if d.err != nil {
		return d.err
	}
	empty := 0
	for {
		s := jsWS(d.buf, 0)
		if s < len(d.buf) {
			end, err := jsValue(d.buf, s, 0)
			num := d.buf[s] == '-' || d.buf[s] >= '0' && d.buf[s] <= '9'
			if err == nil && !(num && end == len(d.buf)) {
				val := d.buf[s:end]
				d.buf = d.buf[end:]
				return jsUnmarshal(val, v)
			}
			if err == errJSONSyntax {
				d.err = err
				return err
			}
		}
		tmp := make([]byte, 512)
		n, err := d.r.Read(tmp)
		if n > 0 {
			d.buf = append(d.buf[:len(d.buf):len(d.buf)], tmp[:n]...)
			empty = 0
			continue
		}
		if err == nil {
			empty++
			if empty > 100 {
				d.err = io.ErrNoProgress
				return d.err
			}
			continue
		}
		if err == io.EOF {
			s = jsWS(d.buf, 0)
			if s < len(d.buf) {
				if end, verr := jsValue(d.buf, s, 0); verr == nil {
					val := d.buf[s:end]
					d.buf = d.buf[end:]
					return jsUnmarshal(val, v)
				}
				err = io.ErrUnexpectedEOF
			}
		}
		d.err = err
		return err
	}
}

func Model__encoding_json__PEncoder__Encode(enc *json.Encoder, v interface{}) error {
	e := jsEncs[enc]
	if e.err != nil {
		return e.err
	}
	b, err := jsMarshal(v)
	if err != nil {
		return err
	}
	b = append(b, '\n')
	if _, err := e.w.Write(b); err != nil {
		e.err = err
		return err
	}
	return nil
}

// Sorting with a function: insertion sort, as the real one for up to 12
// elements.
func Model__sort__Slice(x interface{}, less func(i, j int) bool) {
	ref := RvBox(x)
	n := RvLen(ref)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			RvSwap(ref, j, j-1)
		}
	}
}

func Model__sort__SliceStable(x interface{}, less func(i, j int) bool) {
	Model__sort__Slice(x, less)
}
