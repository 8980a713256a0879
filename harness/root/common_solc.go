package seth

import (
	"errors"
	"hash"
	"os"
	"path/filepath"
	"syscall"

	"github.com/philhofer/seth/zzsym"
)

// A compiler that prints what it is told to, in a scratch directory.

type zzSolc struct {
	dir, tmp string
}

const zzScript = `#!/bin/sh
n=0
while [ -e "$ZZDIR/in$n" ]; do n=$((n+1)); done
/bin/cat > "$ZZDIR/in$n"
/bin/cat "$ZZDIR/out"
if [ -e "$ZZDIR/fail" ]; then exit 1; fi
exit 0
`

func zzMust(err error) {
	if err != nil {
		panic("zz: setup: " + err.Error())
	}
}

func zzNewSolc() *zzSolc {
	if !zzsym.Symbolic() && os.Getuid() == 0 {
		// what is removed here is nobody's
		zzMust(syscall.Setgroups(nil))
		zzMust(syscall.Setgid(65534))
		zzMust(syscall.Setuid(65534))
	}
	dir, err := os.MkdirTemp("/tmp", "zz-solc-")
	zzMust(err)
	z := &zzSolc{dir: dir, tmp: filepath.Join(dir, "a-b")}
	zzMust(os.Mkdir(z.tmp, 0700))
	zzMust(os.Mkdir(filepath.Join(dir, "bin"), 0700))
	zzMust(os.WriteFile(filepath.Join(dir, "bin", "solc"), []byte(zzScript), 0700))
	zzMust(os.Setenv("TMPDIR", z.tmp))
	zzMust(os.Setenv("PATH", filepath.Join(dir, "bin")))
	zzMust(os.Setenv("ZZDIR", dir))
	zzsym.Exec = func(args []string, stdin []byte) ([]byte, error) {
		zzMust(os.WriteFile(filepath.Join(z.dir, "in"+string([]byte{'0' + byte(z.calls())})), stdin, 0600))
		out, err := os.ReadFile(filepath.Join(z.dir, "out"))
		zzMust(err)
		if _, err := os.Stat(filepath.Join(z.dir, "fail")); err == nil {
			return out, errors.New("exit status 1")
		}
		return out, nil
	}
	return z
}

func (z *zzSolc) close() {
	if z.dir != "" {
		os.RemoveAll(z.dir)
	}
}

func (z *zzSolc) prints(out string) {
	zzMust(os.WriteFile(filepath.Join(z.dir, "out"), []byte(out), 0600))
}

// calls is how often the compiler ran.
func (z *zzSolc) calls() int {
	n := 0
	for {
		if _, err := os.Stat(filepath.Join(z.dir, "in"+string([]byte{'0' + byte(n)}))); err != nil {
			return n
		}
		n++
	}
}

// input is what the compiler was given at its n-th run.
func (z *zzSolc) input(n int) []byte {
	b, err := os.ReadFile(filepath.Join(z.dir, "in"+string([]byte{'0' + byte(n)})))
	zzMust(err)
	return b
}

// entries are the files of the cache.
func (z *zzSolc) entries() []string {
	l, err := filepath.Glob(filepath.Join(z.tmp, "tevm", "*"))
	zzMust(err)
	return l
}

// Hashes of different inputs differ, in the part that is used.
type zzNameHash struct{ in []byte }

var zzNames [][]byte

func (h *zzNameHash) Write(b []byte) (int, error) { h.in = append(h.in, b...); return len(b), nil }
func (h *zzNameHash) Reset()                      { h.in = nil }
func (h *zzNameHash) Size() int                   { return 32 }
func (h *zzNameHash) BlockSize() int              { return 136 }
func (h *zzNameHash) Sum(b []byte) []byte {
	at := -1
	for i := range zzNames {
		if len(zzNames[i]) == len(h.in) && string(zzNames[i]) == string(h.in) {
			at = i
			break
		}
	}
	if at < 0 {
		at = len(zzNames)
		zzNames = append(zzNames, append([]byte(nil), h.in...))
	}
	out := make([]byte, 32)
	for i := range out {
		out[i] = byte(at + 1 + i)
	}
	return append(b, out...)
}

func Model_solc__seth_keccak__New256() hash.Hash { return &zzNameHash{} }

// zzOneOut is the output of the compiler for one file with one contract.
func zzOneOut(file, contract, code string) string {
	return `{"sources":{"` + file + `":{"id":0}},"contracts":{"` + file + `":{"` + contract +
		`":{"abi":[],"evm":{"bytecode":{"object":"` + code + `","sourceMap":"0:0:0:-"}}}}}}`
}
