package zzsym

import (
	"fmt"
	"io"
	"os"
	"time"
)

// Go models of functions the real tree implements in assembly or through
// reflection; the executor redirects calls here.

func IndexByte(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func IndexByteString(b string, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByteString(b string, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func CountString(b string, c byte) int {
	n := 0
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			n++
		}
	}
	return n
}

func Count(b []byte, c byte) int {
	n := 0
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			n++
		}
	}
	return n
}

func IndexString(a, b string) int {
	for i := 0; i+len(b) <= len(a); i++ {
		if a[i:i+len(b)] == b {
			return i
		}
	}
	return -1
}

func Index(a, b []byte) int {
	for i := 0; i+len(b) <= len(a); i++ {
		if string(a[i:i+len(b)]) == string(b) {
			return i
		}
	}
	return -1
}

func Compare(a, b []byte) int {
	l := len(a)
	if len(b) < l {
		l = len(b)
	}
	for i := 0; i < l; i++ {
		if a[i] < b[i] {
			return -1
		}
		if a[i] > b[i] {
			return 1
		}
	}
	if len(a) < len(b) {
		return -1
	}
	if len(a) > len(b) {
		return 1
	}
	return 0
}

func CompareString(a, b string) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func ContainsString(a, b string) bool { return IndexString(a, b) >= 0 }

func ToLower(s string) string {
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		if 'A' <= c && c <= 'Z' {
			c += 'a' - 'A'
		}
		b[i] = c
	}
	return string(b)
}

func ToUpper(s string) string {
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		if 'a' <= c && c <= 'z' {
			c -= 'a' - 'A'
		}
		b[i] = c
	}
	return string(b)
}

// MakeNoZero models internal/bytealg.MakeNoZero.
func MakeNoZero(n int) []byte { return make([]byte, n) }

// Strings over the bytes of a slice are copies here.
func UnsafeString(b []byte) string { return string(b) }
func UnsafeBytes(s string) []byte  { return []byte(s) }

// The clock stands still.
func Model__time__Now() time.Time { return time.Unix(1500000000, 0) }

// Text for the standard error, or for files that do not exist, is not looked
// at.
func fmtTo(w io.Writer) bool {
	f, ok := w.(*os.File)
	return !ok || fsOf(f) != nil
}

func fmtOne(a interface{}) string {
	switch v := a.(type) {
	case string:
		return v
	case fmt.Formatter:
	case error:
		return v.Error()
	case fmt.Stringer:
		return v.String()
	}
	return fmt.Sprintf("%v", a)
}

func fmtLine(args []interface{}) string {
	s := ""
	for i, a := range args {
		if i > 0 {
			s += " "
		}
		s += fmtOne(a)
	}
	return s + "\n"
}

func Model__fmt__Fprintf(w io.Writer, format string, args ...interface{}) (int, error) {
	if !fmtTo(w) {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprintf(format, args...)))
}
func Model__fmt__Printf(format string, args ...interface{}) (int, error) {
	return Model__fmt__Fprintf(os.Stdout, format, args...)
}
func Model__fmt__Fprintln(w io.Writer, args ...interface{}) (int, error) {
	if !fmtTo(w) {
		return 0, nil
	}
	return w.Write([]byte(fmtLine(args)))
}
func Model__fmt__Println(args ...interface{}) (int, error) {
	return Model__fmt__Fprintln(os.Stdout, args...)
}

func fmtAll(args []interface{}) string {
	s := ""
	for i, a := range args {
		_, str := a.(string)
		if i > 0 && !str {
			if _, str = args[i-1].(string); !str {
				s += " "
			}
		}
		s += fmtOne(a)
	}
	return s
}

func Model__fmt__Fprint(w io.Writer, args ...interface{}) (int, error) {
	if !fmtTo(w) {
		return 0, nil
	}
	return w.Write([]byte(fmtAll(args)))
}
func Model__fmt__Print(args ...interface{}) (int, error) {
	return Model__fmt__Fprint(os.Stdout, args...)
}
