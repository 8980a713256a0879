package seth

import (
	"encoding/json"
	"os"
	"path/filepath"

	"github.com/philhofer/seth/zzsym"
)

// Compiling and its cache.
//
//zz:prop=C37
//zz:use common_solc
//zz:use common_client

// zzText37 is n characters that are letters, digits or colons.
func zzText37(name string, n int) string {
	s := zzsym.Str(name, n)
	for i := 0; i < n; i++ {
		c := s[i]
		zzsym.Assume(zzsym.Or(zzsym.And(c >= '0', c <= ':'), zzsym.And(c >= 'a', c <= 'z')))
	}
	return s
}

func zzSources(name string, max int) []Source {
	n := 1 + zzsym.Choose(name+"-n", 2)
	out := make([]Source, n)
	for i := range out {
		out[i].Filename = zzText37(name+"-file", 1+zzsym.Choose(name+"-filelen", max))
		out[i].Body = zzText37(name+"-body", zzsym.Choose(name+"-bodylen", max+1))
	}
	if n == 2 {
		zzsym.Assume(out[0].Filename != out[1].Filename)
	}
	return out
}

func zzClone(s []Source) []Source { return append([]Source(nil), s...) }

// zzSameSources tells whether a and b are the same files.
func zzSameSources(a, b []Source) bool {
	if len(a) != len(b) {
		return false
	}
	eq := func(x, y Source) bool {
		return zzsym.And(x.Filename == y.Filename, x.Body == y.Body)
	}
	if len(a) == 1 {
		return eq(a[0], b[0])
	}
	return zzsym.Or(zzsym.And(eq(a[0], b[0]), eq(a[1], b[1])), zzsym.And(eq(a[0], b[1]), eq(a[1], b[0])))
}

func zzCompile(s []Source) (b *CompiledBundle, err error) {
	zzsym.Assert(!zzsym.Try(func() { b, err = Compile(zzClone(s)) }), "no panic")
	return b, err
}

func zzIsBundle(b *CompiledBundle, err error, contract string) bool {
	return err == nil && b != nil && len(b.Contracts) == 1 && b.Contracts[0].Name == contract
}

// two compilations of any one or two files with names of 1 (thorough 2) and bodies of
// up to 1 (thorough 2) letters, digits and colons, with the compiler answering
// differently each time, and then the first again
//
//zz:budget=150 split=8 splitdepth=6 models=solc
//zz:cover same different
func ZZ_C37_entries() {
	z := zzNewSolc()
	defer z.close()
	max := zzsym.Bound(1, 2)
	a, b := zzSources("a", max), zzSources("b", max)
	same := zzSameSources(a, b)

	z.prints(zzOneOut("x", "A", "01"))
	r, err := zzCompile(a)
	zzsym.Assert(zzIsBundle(r, err, "A"), "the first is compiled")
	zzsym.Assert(z.calls() == 1, "by the compiler")

	z.prints(zzOneOut("x", "B", "02"))
	r, err = zzCompile(b)
	if same {
		zzsym.Cover("same")
		zzsym.Assert(zzIsBundle(r, err, "A"), "the bundle of the same sources is the cached one")
		zzsym.Assert(z.calls() == 1, "and is not compiled again")
		return
	}
	zzsym.Cover("different")
	zzsym.Assert(zzIsBundle(r, err, "B"), "the bundle of other sources is theirs")
	zzsym.Assert(z.calls() == 2, "from the compiler")

	z.prints(zzOneOut("x", "C", "03"))
	r, err = zzCompile(a)
	zzsym.Assert(zzIsBundle(r, err, "A") || zzIsBundle(r, err, "C"), "the bundle of the first sources is still theirs")
	zzsym.Assert(zzIsBundle(r, err, "C") == (z.calls() == 3), "from the cache or the compiler")
}

// three compilations: two of sources with the same file names and one of
// others, in any order; other files in the cache and the directories above it
//
//zz:budget=120 split=4 splitdepth=3 models=solc
//zz:cover pruned
func ZZ_C37_prune() {
	z := zzNewSolc()
	defer z.close()
	b1, b2 := zzText37("b1", 1), zzText37("b2", 1)
	zzsym.Assume(b1 != b2)
	srcs := [...][]Source{
		{{"one", b1}, {"two", "x"}},
		{{"one", b2}, {"two", "x"}},
		{{"other", b1}, {"two", "x"}},
	}
	zzMust(os.Mkdir(filepath.Join(z.tmp, "tevm"), 0700))
	keep := []string{
		filepath.Join(z.dir, "a-keep"),
		filepath.Join(z.tmp, "a-keep"),
		filepath.Join(z.tmp, "tevm-keep"),
		filepath.Join(z.tmp, "tevm", "keep"),
		filepath.Join(z.tmp, "tevm", "a-keep.bundle"),
	}
	for _, k := range keep {
		zzMust(os.WriteFile(k, nil, 0600))
	}
	last := -1 // the last of the two of the same name
	third := false
	answers := "ABCDE"
	for i := 0; i < 4; i++ {
		k := zzsym.Choose("which", 3)
		before, n := z.entries(), z.calls()
		z.prints(zzOneOut("x", answers[i:i+1], "01"))
		r, err := zzCompile(srcs[k])
		zzsym.Assert(err == nil && len(r.Contracts) == 1, "compiled")
		cached := k == 2 && third || k < 2 && k == last
		if cached {
			zzsym.Assert(z.calls() == n, "what is cached is not compiled")
			zzsym.Assert(len(z.entries()) == len(before), "and nothing is removed")
		} else if z.calls() > n {
			zzsym.Assert(zzIsBundle(r, err, answers[i:i+1]), "the new bundle is returned")
		}
		if k == 2 {
			third = true
		} else {
			if last >= 0 && last != k {
				zzsym.Cover("pruned")
				zzsym.Assert(len(z.entries()) == len(before), "the older entry goes, the new one comes")
			}
			last = k
		}
	}
	for _, k := range keep {
		_, err := os.Stat(k)
		zzsym.Assert(err == nil, "other files stay")
	}
}

// an entry of which only a part was written, or nothing, or which is other
// than a bundle: the sources are compiled again and the entry replaced
//
//zz:budget=60 models=solc
//zz:cover again
func ZZ_C37_torn() {
	z := zzNewSolc()
	defer z.close()
	src := []Source{{"one", zzText37("body", 1)}}
	z.prints(zzOneOut("one", "A", "6001"))
	r, err := zzCompile(src)
	zzsym.Assert(zzIsBundle(r, err, "A"), "compiled")
	l := z.entries()
	zzsym.Assert(len(l) == 1, "one entry")
	data, err := os.ReadFile(l[0])
	zzMust(err)
	damage := zzsym.Choose("damage", 7)
	switch damage {
	case 0:
		data = nil
	case 1:
		data = data[:3]
	case 2:
		data = data[:len(data)/4]
	case 3:
		data = data[:len(data)/2]
	case 4:
		data = data[:len(data)-9]
	case 5:
		data = []byte("not a bundle, but text that is long enough")
	case 6:
		data = data[:len(data)-1]
	}
	zzMust(os.WriteFile(l[0], data, 0600))
	z.prints(zzOneOut("one", "B", "6002"))
	r, err = zzCompile(src)
	if damage == 6 {
		// all of the bundle is there
		zzsym.Assert(zzIsBundle(r, err, "A") || zzIsBundle(r, err, "B"), "the bundle is that of the sources")
		return
	}
	zzsym.Cover("again")
	zzsym.Assert(zzIsBundle(r, err, "B"), "compiled again")
	zzsym.Assert(zzsym.EqBytes(r.Contracts[0].Code, []byte{0x60, 0x02}), "with the new code")
	z.prints(zzOneOut("one", "C", "6003"))
	r, err = zzCompile(src)
	zzsym.Assert(zzIsBundle(r, err, "B"), "the entry was replaced")
}

// zzCut cuts s into n pieces, the first of which has at characters.
func zzCut(s string, n, at int) []string {
	if n == 1 {
		return []string{s}
	}
	return []string{s[:at], s[at:]}
}

// two sets of one or two files whose names, or bodies, are the same text of 3
// (thorough 4) characters cut at different places
//
//zz:budget=60 models=solc
//zz:cover different same
func ZZ_C37_cut() {
	z := zzNewSolc()
	defer z.close()
	n := zzsym.Bound(3, 4)
	names, bodies := zzText37("names", n), zzText37("bodies", n)
	mk := func(name string) []Source {
		k := 1 + zzsym.Choose(name+"-n", 2)
		at, bat := 1, n
		if k == 2 {
			at, bat = 1+zzsym.Choose(name+"-at", n-1), zzsym.Choose(name+"-bat", n+1)
		}
		f, b := zzCut(names, k, at), zzCut(bodies, k, bat)
		out := make([]Source, k)
		for i := range out {
			out[i] = Source{f[i], b[i]}
		}
		if k == 2 {
			zzsym.Assume(out[0].Filename != out[1].Filename)
		}
		return out
	}
	a, b := mk("a"), mk("b")
	same := zzSameSources(a, b)
	z.prints(zzOneOut("x", "A", "01"))
	r, err := zzCompile(a)
	zzsym.Assert(zzIsBundle(r, err, "A"), "the first is compiled")
	z.prints(zzOneOut("x", "B", "02"))
	r, err = zzCompile(b)
	if same {
		zzsym.Cover("same")
		zzsym.Assert(zzIsBundle(r, err, "A") && z.calls() == 1, "the same sources are served from the cache")
	} else {
		zzsym.Cover("different")
		zzsym.Assert(zzIsBundle(r, err, "B") && z.calls() == 2, "other sources are compiled")
	}
}

type zzIn struct {
	Language string `json:"language"`
	Sources  map[string]struct {
		Content string `json:"content"`
	} `json:"sources"`
}

// zzGiven checks that the compiler was given the sources at its n-th run.
func (z *zzSolc) given(n int, src []Source) {
	var in zzIn
	zzsym.Assert(json.Unmarshal(z.input(n), &in) == nil, "the compiler is given JSON")
	zzsym.Assert(in.Language == "Solidity", "the language")
	zzsym.Assert(len(in.Sources) == len(src), "all files are given to the compiler")
	for _, s := range src {
		f, ok := in.Sources[s.Filename]
		zzsym.Assert(ok && f.Content == s.Body, "with their text")
	}
}

// zzSameBundle compares the parts that are kept.
func zzSameBundle(a, b *CompiledBundle) bool {
	if len(a.Filenames) != len(b.Filenames) || len(a.Sources) != len(b.Sources) || len(a.Contracts) != len(b.Contracts) || len(a.Warnings) != len(b.Warnings) {
		return false
	}
	ok := true
	for i := range a.Filenames {
		ok = zzsym.And(ok, zzsym.And(a.Filenames[i] == b.Filenames[i], a.Sources[i] == b.Sources[i]))
	}
	for i := range a.Warnings {
		ok = zzsym.And(ok, a.Warnings[i] == b.Warnings[i])
	}
	for i := range a.Contracts {
		x, y := &a.Contracts[i], &b.Contracts[i]
		ok = zzsym.And(ok, zzsym.And(x.Name == y.Name, zzsym.And(zzsym.EqBytes(x.Code, y.Code), x.Sourcemap == y.Sourcemap)))
		ok = zzsym.And(ok, len(x.ABI) == len(y.ABI))
	}
	return ok
}

var zzFiles37 = [...]string{"a.sol", "b.sol", "lib/c.sol"}

// one or two files of up to 2 characters (one of them any ASCII character,
// in quick only without contracts) and a third that the compiler found, with
// any numbering; zero to two contracts in any of them, with up to 3 bytes of
// code; with and without warnings; then the same from the cache
//
//zz:budget=150 split=8 splitdepth=5 models=solc
//zz:cover none two
func ZZ_C37_bundle() {
	z := zzNewSolc()
	defer z.close()
	n := 1 + zzsym.Choose("files", 2)
	src := make([]Source, n)
	for i := range src {
		src[i] = Source{zzFiles37[i], zzText37("body", 1-zzsym.Choose("bodylen", zzsym.Bound(1, 2)))}
	}
	nc := zzsym.Choose("contracts", 3)
	if (nc == 0 || zzsym.Bound(0, 1) == 1) && zzsym.Choose("special", 2) == 1 {
		b := zzsym.Str("char", 1)
		zzsym.Assume(b[0] < 0x80)
		src[0].Body += b
	}
	perms := [...][3]int{{0, 1, 2}, {1, 0, 2}, {2, 0, 1}, {0, 2, 1}, {1, 2, 0}, {2, 1, 0}}
	total, id := n, perms[0]
	if zzsym.Choose("more", 2) == 1 {
		total = 3
		id = perms[zzsym.Choose("ids", len(perms))]
	} else if n == 2 {
		id = perms[zzsym.Choose("ids", 2)]
	}
	names := zzFiles37[:n:n]
	if total == 3 && n == 1 {
		names = zzFiles37[:]
	} else if total == 3 {
		names = zzFiles37[:3]
	}
	out := `{"sources":{`
	for i, f := range names {
		if i > 0 {
			out += ","
		}
		out += `"` + f + `":{"id":` + string([]byte{'0' + byte(id[i])}) + "}"
	}
	out += `},"contracts":{`
	type contract struct {
		file int
		code []byte
		smap string
		pay  bool
	}
	cs := make([]contract, nc)
	for i := range cs {
		c := &cs[i]
		c.file = zzsym.Choose("file", total)
		if i == 1 && c.file < cs[0].file {
			return // the order of the files is that above
		}
		c.code = zzsym.Bytes("code", 2*i+zzsym.Choose("codelen", zzsym.Bound(1, 2)))
		c.smap = zzText37("map", 1) + ";"
		c.pay = (i == 1 || zzsym.Bound(0, 1) == 1) && zzsym.Choose("payable", 2) == 1
	}
	for f := 0; f < total; f++ {
		first := true
		for i := range cs {
			c := &cs[i]
			if c.file != f {
				continue
			}
			switch {
			case !first:
				out += ","
			default:
				if out[len(out)-1] == '}' {
					out += ","
				}
				out += `"` + names[f] + `":{`
			}
			first = false
			code := ""
			for _, b := range c.code {
				code += string([]byte{zzDigits[b>>4], zzDigits[b&15]})
			}
			out += `"C` + string([]byte{'0' + byte(i)}) + `":{"abi":[`
			if c.pay {
				out += `{"type":"function","name":"pay","inputs":[{"name":"x","type":"uint256"}],"outputs":[{"name":"","type":"bool"}],"payable":true,"stateMutability":"payable"}`
			}
			out += `],"evm":{"bytecode":{"object":"` + code + `","sourceMap":"` + c.smap + `"}}}`
		}
		if !first {
			out += "}"
		}
	}
	out += `},"errors":[`
	warn := 0
	if nc == 1 || zzsym.Bound(0, 1) == 1 {
		warn = zzsym.Choose("warnings", 2)
	}
	if warn == 1 {
		out += `{"type":"Warning","message":"m","formattedMessage":"w1"},{"type":"Warning","formattedMessage":"w2"}`
	}
	z.prints(out + `]}`)

	r, err := zzCompile(src)
	zzsym.Assert(err == nil, "no error")
	z.given(0, src)
	zzsym.Assert(len(r.Filenames) == total && len(r.Sources) == total, "all files are in the bundle")
	for i, f := range names {
		zzsym.Assert(r.Filenames[id[i]] == f, "a file is at its number")
		if i < n {
			zzsym.Assert(r.Sources[id[i]] == src[i].Body, "with its text")
		} else {
			zzsym.Assert(r.Sources[id[i]] == "", "or no text if it is not known")
		}
	}
	zzsym.Assert(len(r.Contracts) == nc, "all contracts are in the bundle")
	for i := range cs {
		c := r.Contract("C" + string([]byte{'0' + byte(i)}))
		zzsym.Assert(c != nil, "a contract is found by name")
		zzsym.Assert(zzsym.EqBytes(c.Code, cs[i].code), "with its code")
		zzsym.Assert(c.Sourcemap == cs[i].smap, "with its source map")
		if cs[i].pay {
			zzsym.Assert(len(c.ABI) == 1, "with its interface")
			d := c.ABI[0]
			zzsym.Assert(d.Type == "function" && d.Name == "pay" && d.Payable && d.Mutability == "payable" && !d.Constant, "a function")
			zzsym.Assert(len(d.Inputs) == 1 && d.Inputs[0].Name == "x" && d.Inputs[0].Type == "uint256", "its input")
			zzsym.Assert(len(d.Outputs) == 1 && d.Outputs[0].Name == "" && d.Outputs[0].Type == "bool", "its output")
		} else {
			zzsym.Assert(len(c.ABI) == 0, "without an interface")
		}
	}
	zzsym.Assert(r.Contract("C9") == nil, "no other contract is found")
	zzsym.Assert(len(r.Warnings) == 2*warn, "all warnings are in the bundle")
	if warn == 1 {
		zzsym.Assert(r.Warnings[0] == "w1" && r.Warnings[1] == "w2", "in order")
	}
	if nc == 0 {
		zzsym.Cover("none")
	}
	if nc == 2 {
		zzsym.Cover("two")
	}
	again, err := zzCompile(src)
	zzsym.Assert(err == nil && z.calls() == 1, "served from the cache")
	zzsym.Assert(zzSameBundle(r, again), "the cached bundle is the same")
}

// output that cannot be a bundle, or compilers that fail: an error, and
// nothing in the cache
//
//zz:budget=60 models=solc
//zz:cover refused
func ZZ_C37_refused() {
	z := zzNewSolc()
	defer z.close()
	src := []Source{{"a.sol", zzText37("body", 1)}}
	good := zzOneOut("a.sol", "A", "01")
	bad := zzOneOut("a.sol", "A", "0g")
	switch zzsym.Choose("how", 11) {
	case 0:
		bad = ""
	case 1:
		bad = good[:len(good)-1]
	case 2:
		bad = "solc: not found"
	case 3: // not linked
		bad = zzOneOut("a.sol", "A", "73__lib.sol:Lib__________________________63")
	case 4:
		bad = zzOneOut("a.sol", "A", "011")
	case 5:
		bad = `{"errors":[{"type":"Warning","formattedMessage":"w"},{"type":"TypeError","formattedMessage":"e"}]}`
	case 6:
		bad = `{"errors":[{"type":"InternalCompilerError","formattedMessage":"e"}],` + good[1:]
	case 7: // numbers that are not those of files
		bad = `{"sources":{"a.sol":{"id":` + []string{"1", "-1", "4294967296", "9223372036854775807"}[zzsym.Choose("id", 4)] + `}},"contracts":{}}`
	case 8:
		zzMust(os.WriteFile(filepath.Join(z.dir, "fail"), nil, 0600))
		bad = good
	case 9:
		bad = `{"sources":["a.sol"]}`
	}
	z.prints(bad)
	r, err := zzCompile(src)
	zzsym.Assert(err != nil && r == nil, "refused with an error")
	zzsym.Assert(len(z.entries()) == 0, "nothing is cached")
	zzsym.Cover("refused")
	os.Remove(filepath.Join(z.dir, "fail"))
	z.prints(good)
	r, err = zzCompile(src)
	zzsym.Assert(zzIsBundle(r, err, "A"), "compiled once it can be")
}

// a string, twice; up to 2 ASCII characters
//
//zz:budget=60 models=solc
//zz:cover string
func ZZ_C37_string() {
	z := zzNewSolc()
	defer z.close()
	code := zzsym.Str("code", 1+zzsym.Choose("len", 2))
	for i := 0; i < len(code); i++ {
		zzsym.Assume(code[i] < 0x80)
	}
	for i := 0; i < 2; i++ {
		z.prints(zzOneOut("<stdin>", "AB"[i:i+1], "01"))
		r, err := CompileString(code)
		zzsym.Assert(zzIsBundle(r, err, "AB"[i:i+1]), "compiled each time")
		zzsym.Assert(len(r.Filenames) == 1 && r.Filenames[0] == "<stdin>" && r.Sources[0] == code, "with its text")
		z.given(i, []Source{{"<stdin>", code}})
	}
	zzsym.Assert(len(z.entries()) == 0, "nothing is cached")
	zzsym.Cover("string")
}

// the files of a directory of which two or none match
//
//zz:budget=60 models=solc
//zz:cover matched none
func ZZ_C37_glob() {
	z := zzNewSolc()
	defer z.close()
	d := filepath.Join(z.dir, "src")
	zzMust(os.Mkdir(d, 0700))
	src := []Source{
		{filepath.Join(d, "b.sol"), zzText37("b", 1)},
		{filepath.Join(d, "a.sol"), zzText37("a", 2)},
	}
	for _, s := range src {
		zzMust(os.WriteFile(s.Filename, []byte(s.Body), 0600))
	}
	zzMust(os.WriteFile(filepath.Join(d, "c.go"), []byte("package c"), 0600))
	z.prints(zzOneOut(src[1].Filename, "A", "01"))
	if zzsym.Choose("none", 2) == 1 {
		r, err := CompileGlob(filepath.Join(d, "*.txt"))
		zzsym.Assert(r == nil && err != nil && z.calls() == 0, "nothing to compile is an error")
		r, err = CompileGlob(filepath.Join(d, "["))
		zzsym.Assert(r == nil && err != nil && z.calls() == 0, "a malformed pattern is an error")
		zzsym.Cover("none")
		return
	}
	r, err := CompileGlob(filepath.Join(d, "*.sol"))
	zzsym.Assert(zzIsBundle(r, err, "A"), "compiled")
	z.given(0, src)
	zzsym.Assert(len(r.Sources) == 1 && r.Sources[0] == src[1].Body, "with its text")
	zzsym.Cover("matched")
}
