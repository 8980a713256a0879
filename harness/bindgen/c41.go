package main

import (
	"bytes"
	"errors"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
	"golang.org/x/tools/imports"
)

// What the generated bindings do. The generated source is parsed with go/parser
// and its methods are interpreted: which of the sender's functions is called
// for which address, with which signature and which of the arguments, of
// which types, and where what is returned goes.
//
//zz:prop=C41
//zz:swap imports.Process=zzProcess os.Exit=zzOsExit seth.Compile=zzCompile

type zzExit struct{}

func zzOsExit(code int) { panic(zzExit{}) }

func zzMust(err error) {
	if err != nil {
		panic("zz: setup: " + err.Error())
	}
}

// zzType is the text of a type.
func zzType(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name
	case *ast.StarExpr:
		return "*" + zzType(e.X)
	case *ast.SelectorExpr:
		return zzType(e.X) + "." + e.Sel.Name
	case *ast.ArrayType:
		if e.Len == nil {
			return "[]" + zzType(e.Elt)
		}
	}
	return "?"
}

func zzOneOf(s string, l ...string) bool {
	for i := range l {
		if l[i] == s {
			return true
		}
	}
	return false
}

// zzKind tells what an ABI type is: its class and its bits or bytes.
func zzKind(t string) (kind string, n int) {
	kind = t
	if k := len(t) - 2; k > 0 && t[k:] == "[]" {
		kind, n = zzKind(t[:k])
		return kind + "[]", n
	}
	for _, p := range [...]string{"uint", "int", "bytes"} {
		if len(t) > len(p) && t[:len(p)] == p {
			n, err := strconv.Atoi(t[len(p):])
			zzMust(err)
			if p == "bytes" {
				p = "word"
			}
			return p, n
		}
	}
	return
}

// zzTakes tells whether a Go type is encoded as an ABI type.
func zzTakes(goType, abi string) bool {
	switch kind, _ := zzKind(abi); kind {
	case "bool", "int", "uint":
		return goType == "*seth.Int"
	case "address":
		return goType == "*seth.Address"
	case "word":
		return goType == "*seth.Data"
	case "bytes", "string":
		return goType == "*seth.Bytes"
	case "bool[]", "int[]", "uint[]":
		return goType == "*seth.IntSlice"
	case "address[]":
		return goType == "*seth.AddrSlice"
	case "word[]":
		return goType == "*seth.DataSlice"
	}
	panic("zz: " + abi)
}

// zzGives tells whether what is decoded as a Go type can be any value of an ABI type.
func zzGives(goType, abi string) bool {
	kind, n := zzKind(abi)
	switch kind {
	case "bool":
		return goType == "bool"
	case "int", "uint":
		if zzOneOf(goType, "seth.Int", "big.Int") {
			return true
		}
		for _, k := range [...]int{8, 16, 32, 64} {
			if k >= n && goType == kind+strconv.Itoa(k) {
				return true
			}
		}
		return false
	case "address":
		return goType == "seth.Address"
	case "word":
		return goType == "seth.Data"
	case "string":
		return zzOneOf(goType, "string", "[]byte", "seth.Bytes")
	case "bytes":
		return zzOneOf(goType, "[]byte", "seth.Bytes")
	case "bool[]", "int[]", "uint[]":
		return goType == "seth.IntSlice"
	case "address[]":
		return goType == "seth.AddrSlice"
	case "word[]":
		return goType == "seth.DataSlice"
	}
	panic("zz: " + abi)
}

type zzParam struct{ name, typ string }

func zzParams(l *ast.FieldList) (out []zzParam) {
	if l == nil {
		return nil
	}
	for _, f := range l.List {
		if len(f.Names) == 0 {
			out = append(out, zzParam{"", zzType(f.Type)})
		}
		for _, n := range f.Names {
			out = append(out, zzParam{n.Name, zzType(f.Type)})
		}
	}
	return out
}

// zzMethod is a method as it was generated.
type zzMethod struct {
	recv    zzParam
	ins     []zzParam
	outs    []zzParam
	fn      string   // the sender's function that is called
	sig     string   // with this signature
	args    []string // and these values
	targets []string // what is decoded
}

// zzRead reads a method.
func zzRead(d *ast.FuncDecl) (m zzMethod) {
	m.recv = zzParams(d.Recv)[0]
	m.ins = zzParams(d.Type.Params)
	m.outs = zzParams(d.Type.Results)
	decoders := map[string][]string{}
	returned := false
	call := func(e ast.Expr) {
		c, ok := e.(*ast.CallExpr)
		zzsym.Assert(ok && m.fn == "", "one call")
		f, ok := c.Fun.(*ast.SelectorExpr)
		zzsym.Assert(ok && zzType(f.X) == m.recv.name+".s", "of the sender")
		m.fn = f.Sel.Name
		zzsym.Assert(zzOneOf(m.fn, "Send", "ConstCall"), "a call of the contract")
		k := 2
		if m.fn == "ConstCall" {
			k = 3
		}
		zzsym.Assert(len(c.Args) >= k, "with all arguments")
		zzsym.Assert(zzType(c.Args[0]) == m.recv.name+".addr", "of the address of the binding")
		lit, ok := c.Args[1].(*ast.BasicLit)
		zzsym.Assert(ok && lit.Kind == token.STRING, "of a function")
		sig, err := strconv.Unquote(lit.Value)
		zzsym.Assert(err == nil, "of a function")
		m.sig = sig
		if k == 3 {
			t, ok := decoders[zzType(c.Args[2])]
			zzsym.Assert(ok, "what is returned is decoded")
			m.targets = t
		}
		for _, a := range c.Args[k:] {
			m.args = append(m.args, zzType(a))
		}
	}
	for _, s := range d.Body.List {
		zzsym.Assert(!returned, "nothing after the end")
		switch s := s.(type) {
		case *ast.AssignStmt:
			zzsym.Assert(len(s.Lhs) == 1 && len(s.Rhs) == 1, "an assignment")
			c, ok := s.Rhs[0].(*ast.CallExpr)
			zzsym.Assert(ok, "of a call")
			if zzType(c.Fun) == "seth.NewABIDecoder" {
				zzsym.Assert(s.Tok == token.DEFINE, "a new variable")
				t := []string{}
				for _, a := range c.Args {
					u, ok := a.(*ast.UnaryExpr)
					zzsym.Assert(ok && u.Op == token.AND, "what is decoded into is a variable")
					t = append(t, zzType(u.X))
				}
				decoders[zzType(s.Lhs[0])] = t
				continue
			}
			zzsym.Assert(len(m.outs) > 0 && zzType(s.Lhs[0]) == m.outs[len(m.outs)-1].name, "the error is returned")
			call(c)
			zzsym.Assert(m.fn == "ConstCall" && s.Tok == token.ASSIGN, "the error is returned")
		case *ast.ReturnStmt:
			returned = true
			if len(s.Results) == 0 {
				continue
			}
			zzsym.Assert(len(s.Results) == 1, "a call is returned")
			call(s.Results[0])
			zzsym.Assert(m.fn == "Send", "a call is returned")
		default:
			zzsym.Assert(false, "an unknown statement")
		}
	}
	zzsym.Assert(returned && m.fn != "", "the method calls the contract")
	return m
}

// zzSource is what was generated.
type zzSource struct {
	pkg     string
	types   map[string]*ast.StructType
	vars    map[string]ast.Expr
	funcs   map[string]*ast.FuncDecl
	methods map[string][]zzMethod
	names   map[string][]string
}

func zzParse(src []byte) *zzSource {
	f, err := parser.ParseFile(token.NewFileSet(), "zz.go", src, parser.SkipObjectResolution)
	zzsym.Assert(err == nil, "Go source is generated")
	z := &zzSource{
		pkg:     f.Name.Name,
		types:   map[string]*ast.StructType{},
		vars:    map[string]ast.Expr{},
		funcs:   map[string]*ast.FuncDecl{},
		methods: map[string][]zzMethod{},
		names:   map[string][]string{},
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil {
				z.funcs[d.Name.Name] = d
				continue
			}
			m := zzRead(d)
			zzsym.Assert(len(m.recv.typ) > 0 && m.recv.typ[0] == '*', "the methods are those of a pointer")
			t := m.recv.typ[1:]
			z.methods[t] = append(z.methods[t], m)
			z.names[t] = append(z.names[t], d.Name.Name)
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					st, ok := s.Type.(*ast.StructType)
					zzsym.Assert(ok, "the binding is a struct")
					z.types[s.Name.Name] = st
				case *ast.ValueSpec:
					zzsym.Assert(len(s.Names) == 1 && len(s.Values) == 1, "a variable")
					z.vars[s.Names[0].Name] = s.Values[0]
				}
			}
		}
	}
	return z
}

// zzBinding checks the type of a contract and its constructor.
func zzBinding(z *zzSource, name string) {
	st := z.types[name]
	zzsym.Assert(st != nil, "the contract has a binding")
	fields := map[string]string{}
	for _, p := range zzParams(st.Fields) {
		fields[p.name] = p.typ
	}
	zzsym.Assert(fields["addr"] == "*seth.Address" && fields["s"] == "*seth.Sender", "of an address and a sender")
	d := z.funcs["New"+name]
	zzsym.Assert(d != nil, "the binding can be made")
	in := zzParams(d.Type.Params)
	zzsym.Assert(len(in) == 2 && in[0].typ == "*seth.Address" && in[1].typ == "*seth.Sender", "of an address and a sender")
	out := zzParams(d.Type.Results)
	zzsym.Assert(len(out) == 1 && out[0].typ == "*"+name, "it is made")
	zzsym.Assert(len(d.Body.List) == 1, "it is made")
	r, ok := d.Body.List[0].(*ast.ReturnStmt)
	zzsym.Assert(ok && len(r.Results) == 1, "it is made")
	u, ok := r.Results[0].(*ast.UnaryExpr)
	zzsym.Assert(ok && u.Op == token.AND, "it is made")
	l, ok := u.X.(*ast.CompositeLit)
	zzsym.Assert(ok && zzType(l.Type) == name && len(l.Elts) == 2, "it is made")
	for _, e := range l.Elts {
		kv, ok := e.(*ast.KeyValueExpr)
		zzsym.Assert(ok, "it is made of what was given")
		k, v := zzType(kv.Key), zzType(kv.Value)
		zzsym.Assert(k == "addr" && v == in[0].name || k == "s" && v == in[1].name, "it is made of what was given")
	}
}

// zzDeclared checks a method against the function of the contract.
func zzDeclared(m *zzMethod, d *seth.ABIDescriptor) {
	sig := d.Name + "("
	for i, p := range d.Inputs {
		if i > 0 {
			sig += ","
		}
		sig += p.Type
	}
	sig += ")"
	zzsym.Assert(m.sig == sig, "the function that was declared is called")
	zzsym.Assert(len(m.ins) == len(d.Inputs) && len(m.args) == len(m.ins), "with as many arguments")
	for i := range m.ins {
		zzsym.Assert(m.args[i] == m.ins[i].name, "in their order")
		zzsym.Assert(zzTakes(m.ins[i].typ, d.Inputs[i].Type), "encoded as they were declared")
	}
	last := len(m.outs) - 1
	zzsym.Assert(last >= 0 && m.outs[last].typ == "error", "errors are returned")
	if !d.Constant {
		zzsym.Assert(m.fn == "Send", "a transaction is sent")
		zzsym.Assert(last == 1 && m.outs[0].typ == "seth.Hash", "its hash is returned")
		return
	}
	zzsym.Assert(m.fn == "ConstCall", "a constant function is called without a transaction")
	zzsym.Assert(last == len(d.Outputs) && len(m.targets) == last, "as many values are returned")
	for i := range m.targets {
		zzsym.Assert(m.targets[i] == m.outs[i].name, "in their order")
		zzsym.Assert(zzGives(m.outs[i].typ, d.Outputs[i].Type), "decoded as they were declared")
	}
}

var zzTypes = [...]string{
	"bool", "uint8", "int16", "uint24", "uint32", "int64", "uint128", "int128", "int256", "uint256",
	"address", "bytes1", "bytes4", "bytes32", "bytes", "string",
	"address[]", "uint256[]", "int256[]", "uint8[]", "bool[]", "bytes32[]",
}

func zzName(n int) string {
	b := zzsym.Bytes("name", n)
	for i := range b {
		zzsym.Assume(b[i] >= 'a' && b[i] <= 'z')
	}
	return string(b)
}

// a contract with a function (with a name of 1 or 2 letters) of up to 2 (thorough 3) arguments,
// constant with up to 2 results or not, each of 22 types (all but one of them
// uint256 and address), between a constructor, an event and a function
//
//zz:budget=100 split=8 splitdepth=3
//zz:cover constant sends none
func ZZ_C41_method() {
	bin = false
	d := seth.ABIDescriptor{Type: "function", Name: zzName(1 + zzsym.Choose("namelen", 2))}
	d.Constant = zzsym.Choose("constant", 2) == 1
	ins := zzsym.Choose("ins", zzsym.Bound(3, 4))
	outs := zzsym.Choose("outs", 3)
	special := zzsym.Choose("special", 3)
	t := zzTypes[zzsym.Choose("type", len(zzTypes))]
	if special >= ins+outs {
		return
	}
	for i := 0; i < ins+outs; i++ {
		p := seth.ABIParam{Name: "x", Type: [...]string{"uint256", "address"}[i%2]}
		if i == special {
			p.Type = t
		}
		if i < ins {
			d.Inputs = append(d.Inputs, p)
		} else {
			d.Outputs = append(d.Outputs, p)
		}
	}
	other := seth.ABIDescriptor{Type: "function", Name: "ooo"}
	c := seth.CompiledContract{Name: "Con", ABI: []seth.ABIDescriptor{
		{Type: "constructor", Inputs: []seth.ABIParam{{Type: "bool"}}},
		{Type: "event", Name: "E", Inputs: []seth.ABIParam{{Type: "bool"}}},
		d,
		other,
	}}
	var w bytes.Buffer
	w.WriteString("package p\n\n")
	generate(&w, &c)
	z := zzParse(w.Bytes())
	zzBinding(z, "Con")
	ms := z.methods["Con"]
	if d.Constant && outs == 0 {
		// what neither changes nor returns anything may be left out
		zzsym.Assert(len(ms) >= 1, "every function has a method")
		zzsym.Cover("none")
	} else {
		zzsym.Assert(len(ms) == 2, "every function has a method, and nothing else")
		zzDeclared(&ms[0], &d)
		name := []byte(d.Name)
		name[0] -= 'a' - 'A'
		zzsym.Assert(z.names["Con"][0] == string(name), "with its name")
		if d.Constant {
			zzsym.Cover("constant")
		} else {
			zzsym.Cover("sends")
		}
	}
	m := &ms[len(ms)-1]
	zzsym.Assert(z.names["Con"][len(ms)-1] == "Ooo", "with its name")
	zzDeclared(m, &other)
}

// zzProcess leaves the source as it was generated.
func zzProcess(name string, src []byte, opt *imports.Options) ([]byte, error) { return src, nil }

var zzSources []seth.Source
var zzBundle *seth.CompiledBundle

func zzCompile(sources []seth.Source) (*seth.CompiledBundle, error) {
	zzSources = sources
	if zzBundle == nil {
		return nil, errors.New("zz: does not compile")
	}
	return zzBundle, nil
}

// zzRun tells whether f ended the process.
func zzRun(f func()) (exited bool) {
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(zzsym.Stop); ok {
				panic(s)
			}
			_, exited = x.(zzExit)
			zzsym.Assert(exited, "no panic")
		}
	}()
	f()
	return false
}

// the program with 1 or 2 source files of up to 2 bytes, that compile or not, and 1 or 2
// of 3 contracts asked for, in any order, one of them missing; with the code
// (of 0 to 2 bytes) or not, in a file or on the standard output
//
//zz:budget=60 split=4 splitdepth=3
//zz:cover bindings code missing broken stdout file
func ZZ_C41_program() {
	dir, err := os.MkdirTemp("/tmp", "zz-bindgen-")
	zzMust(err)
	defer os.RemoveAll(dir)
	want := [...][]string{{"Aa"}, {"Bb"}, {"Aa", "Bb"}, {"Bb", "Aa"}, {"Cc"}, {"Aa", "Cc"}}[zzsym.Choose("want", 6)]
	withCode := zzsym.Choose("bin", 2) == 1
	file := zzsym.Choose("file", 2) == 1
	broken := zzsym.Choose("broken", 2) == 1
	n := 1 + zzsym.Choose("sources", 2)
	var bodies [][]byte
	var names []string
	for i := 0; i < n; i++ {
		b := zzsym.Bytes("body", zzsym.Choose("bodylen", 3))
		bodies = append(bodies, b)
		names = append(names, filepath.Join(dir, "s"+strconv.Itoa(i)))
		zzMust(os.WriteFile(names[i], b, 0600))
	}
	code := zzsym.Bytes("code", zzsym.Choose("codelen", 3))
	fn := [...]seth.ABIDescriptor{{Type: "function", Name: "one"}, {Type: "function", Name: "two"}}
	zzBundle = &seth.CompiledBundle{Contracts: []seth.CompiledContract{
		{Name: "Aa", ABI: fn[:1], Code: code},
		{Name: "Bb", ABI: fn[1:], Code: []byte{1}},
	}}
	if broken {
		zzBundle = nil
	}
	out, outfile := filepath.Join(dir, "out"), ""
	if file {
		outfile = out
	}
	c := want[0]
	for _, w := range want[1:] {
		c += "," + w
	}
	f, err := os.Create(filepath.Join(dir, "stdout"))
	zzMust(err)
	oldArgs, oldOut := os.Args, os.Stdout
	os.Args = append([]string{"bindgen", "-c=" + c, "-o=" + outfile, "-p=pkg", "-b=" + strconv.FormatBool(withCode)}, names...)
	os.Stdout = f
	exited := zzRun(main)
	os.Args, os.Stdout = oldArgs, oldOut
	f.Close()
	if !file {
		out = filepath.Join(dir, "stdout")
	}
	src, err := os.ReadFile(out)
	missing := want[len(want)-1] == "Cc"
	zzsym.ObsBool("exited", exited)
	if broken || missing {
		zzsym.Assert(exited && (err != nil || len(src) == 0), "an error, and no bindings")
		if broken {
			zzsym.Cover("broken")
		} else {
			zzsym.Cover("missing")
		}
		return
	}
	zzsym.Assert(!exited && err == nil, "the bindings are generated")
	zzsym.Assert(len(zzSources) == n, "all files are compiled")
	for i := range zzSources {
		zzsym.Assert(zzSources[i].Filename == names[i], "under their names")
		zzsym.Assert(zzsym.EqBytes([]byte(zzSources[i].Body), bodies[i]), "as they are")
	}
	if file {
		zzsym.Cover("file")
	} else {
		zzsym.Cover("stdout")
	}
	z := zzParse(src)
	zzsym.Assert(z.pkg == "pkg", "the package is the one that was asked for")
	zzsym.Assert(len(z.types) == len(want), "only what was asked for is generated")
	for _, w := range want {
		zzBinding(z, w)
		k := int(w[0] - 'A')
		ms := z.methods[w]
		zzsym.Assert(len(ms) == 1, "every contract has its own methods")
		zzDeclared(&ms[0], &fn[k])
		zzsym.Assert(z.names[w][0] == [...]string{"One", "Two"}[k], "with its name")
		zzsym.Cover("bindings")
		if !withCode {
			continue
		}
		v := z.vars[w+"Code"]
		zzsym.Assert(v != nil, "the code is a variable")
		l, ok := v.(*ast.CompositeLit)
		zzsym.Assert(ok && zzOneOf(zzType(l.Type), "[]byte", "[]uint8"), "of bytes")
		got := []byte{}
		for _, e := range l.Elts {
			b, ok := e.(*ast.BasicLit)
			zzsym.Assert(ok && b.Kind == token.INT, "of numbers")
			x, err := strconv.ParseUint(b.Value, 0, 8)
			zzsym.Assert(err == nil, "of numbers")
			got = append(got, byte(x))
		}
		exp := code
		if k == 1 {
			exp = []byte{1}
		}
		zzsym.Assert(zzsym.EqBytes(got, exp), "the code is the one of the contract")
		zzsym.Cover("code")
	}
}
