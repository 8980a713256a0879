package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/philhofer/seth"

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

// Harness is one entry point with its options.
type Harness struct {
	Name   string
	Pkg    string // directory below the repository
	File   string
	Desc   string
	Opts   map[string]string
	Covers []string // cover points that must be reached
}

type Case struct {
	Harness string    `json:"harness"`
	Values  []NDVal   `json:"values"`
	Sched   []schedEv `json:"sched,omitempty"`
	race    bool
	id      int
}

type CaseResult struct {
	Kind string   `json:"kind"` // ok assert panic assume diverged timeout
	Msg  string   `json:"msg"`
	Out  []string `json:"out"`
}

type sample struct {
	vals  []NDVal
	pred  []string
	sched []schedEv
}

type Result struct {
	h        *Harness
	e        *Engine
	secs     float64
	samples  []sample
	nsamples int
}

func dirOf(d string) string {
	if d == "root" {
		return "."
	}
	return strings.ReplaceAll(d, "_", "/")
}

func pkgPath(d string) string {
	if d == "." {
		return modPath
	}
	return modPath + "/" + d
}

var optRE = regexp.MustCompile(`(\w+)=(\S+)`)

func findHarnesses(prop string) (hs []*Harness, files map[string][]string, err error) {
	files = map[string][]string{}
	dirs, _ := filepath.Glob(verifDir + "/harness/*")
	for _, d := range dirs {
		base := filepath.Base(d)
		if base == "zzsym" {
			continue
		}
		fs, _ := filepath.Glob(d + "/*.go")
		mine := []string{}
		common := []string{}
		for _, f := range fs {
			b := strings.TrimSuffix(filepath.Base(f), ".go")
			if b == strings.ToLower(prop) || strings.HasPrefix(b, strings.ToLower(prop)+"_") {
				mine = append(mine, f)
			} else if strings.HasPrefix(b, "common") {
				common = append(common, f)
			}
		}
		if len(mine) == 0 {
			continue
		}
		pkg := dirOf(base)
		// common files named in "//zz:use common_x" lines
		for _, f := range mine {
			src, err := os.ReadFile(f)
			if err != nil {
				return nil, nil, err
			}
			for _, c := range common {
				cb := strings.TrimSuffix(filepath.Base(c), ".go")
				if strings.Contains(string(src), "//zz:use "+cb+"\n") {
					files[pkg] = addUniq(files[pkg], c)
				}
			}
			files[pkg] = addUniq(files[pkg], f)
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				return nil, nil, err
			}
			for _, dcl := range af.Decls {
				fd, ok := dcl.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "ZZ_") {
					continue
				}
				h := &Harness{Name: fd.Name.Name, Pkg: pkg, File: f, Opts: map[string]string{}}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						t := strings.TrimPrefix(c.Text, "//")
						if strings.HasPrefix(t, "zz:cover ") {
							h.Covers = append(h.Covers, strings.Fields(t[9:])...)
						} else if strings.HasPrefix(t, "zz:") {
							for _, m := range optRE.FindAllStringSubmatch(t, -1) {
								h.Opts[m[1]] = m[2]
							}
						} else {
							h.Desc += strings.TrimSpace(t) + " "
						}
					}
				}
				hs = append(hs, h)
			}
		}
	}
	return
}

func addUniq(l []string, s string) []string {
	for _, x := range l {
		if x == s {
			return l
		}
	}
	return append(l, s)
}

func (h *Harness) opt(tier, name string) (string, bool) {
	if v, ok := h.Opts[tier+"_"+name]; ok {
		return v, true
	}
	v, ok := h.Opts[name]
	return v, ok
}

func (h *Harness) optInt(tier, name string, def int) int {
	if v, ok := h.opt(tier, name); ok {
		n, err := strconv.Atoi(v)
		if err == nil {
			return n
		}
	}
	return def
}

func overlayFiles(files map[string][]string) map[string]string {
	o := map[string]string{}
	zs, _ := filepath.Glob(verifDir + "/harness/zzsym/*.go")
	for _, z := range zs {
		o[filepath.Join(repoDir, "zzsym", filepath.Base(z))] = z
	}
	for pkg, fs := range files {
		for _, f := range fs {
			o[filepath.Join(repoDir, pkg, "zz_verif_"+filepath.Base(f))] = f
			if t := srcOverride[f]; t != "" {
				o[filepath.Join(repoDir, pkg, "zz_verif_"+filepath.Base(f))] = t
			}
			for dst, src := range copies(pkg, f) {
				o[dst] = src
			}
		}
		for dst, src := range swaps(pkg, fs) {
			o[dst] = src
		}
	}
	return o
}

// swaps handles "//zz:swap pkg.Func=name ..." lines of harness files: calls
// of functions that would end the process or need a terminal go to functions
// of the harness in all files of the package.
func swaps(pkg string, harness []string) map[string]string {
	m := map[string]string{}
	var rs []string
	for _, h := range harness {
		src, _ := os.ReadFile(h)
		for _, l := range strings.Split(string(src), "\n") {
			if strings.HasPrefix(l, "//zz:swap ") {
				rs = append(rs, strings.Fields(l)[1:]...)
			}
		}
	}
	if len(rs) == 0 {
		return m
	}
	fs, _ := filepath.Glob(filepath.Join(repoDir, pkg, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		t := string(b)
		for _, r := range rs {
			k := strings.Index(r, "=")
			re := regexp.MustCompile(`\b` + regexp.QuoteMeta(r[:k]) + `\b`)
			if u := re.ReplaceAllString(t, r[k+1:]); u != t {
				t = u + "\nvar _ = " + r[:k] + "\n"
			}
		}
		if t == string(b) {
			continue
		}
		tmp := filepath.Join(scratchDir(), "swap_"+strings.ReplaceAll(pkg, "/", "_")+"_"+filepath.Base(f))
		if os.WriteFile(tmp, []byte(t), 0o644) == nil {
			m[f] = tmp
		}
	}
	return m
}

type loadErr struct {
	msg string
	pos []string
}

func (e *loadErr) Error() string { return e.msg }

// srcOverride replaces harness files by copies without the declarations that
// do not fit the current tree.
var srcOverride = map[string]string{}

var loadedPkgs []*packages.Package

// loadFitting loads the program; declarations of harness files that do not
// type-check against the current tree (an internal name is gone) are dropped,
// and named in the result and the evidence.
func loadFitting(files map[string][]string) (*ssa.Program, map[string]bool, error) {
	dropped := map[string]bool{}
	for round := 0; ; round++ {
		prog, ps, err := loadProg(files)
		loadedPkgs = ps
		le, ok := err.(*loadErr)
		if err == nil || !ok || round > 8 {
			return prog, dropped, err
		}
		any := false
		for _, p := range le.pos {
			if dropDecl(files, p, dropped) {
				any = true
			}
		}
		if !any {
			return prog, dropped, err
		}
	}
}

// dropDecl blanks the declaration at pos (file:line:col) of a harness file.
func dropDecl(files map[string][]string, pos string, dropped map[string]bool) bool {
	f := strings.Split(pos, ":")
	if len(f) < 2 {
		return false
	}
	line, _ := strconv.Atoi(f[1])
	for pkg, fs := range files {
		for _, h := range fs {
			if filepath.Join(repoDir, pkg, "zz_verif_"+filepath.Base(h)) != f[0] {
				continue
			}
			src := h
			if o := srcOverride[h]; o != "" {
				src = o
			}
			b, err := os.ReadFile(src)
			if err != nil {
				return false
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, h, b, parser.ParseComments)
			if err != nil {
				return false
			}
			blank := func(from, to token.Pos) {
				for i := fset.Position(from).Offset; i < fset.Position(to).Offset; i++ {
					if b[i] != '\n' {
						b[i] = ' '
					}
				}
			}
			in := func(n ast.Node) bool {
				return fset.Position(n.Pos()).Line <= line && line <= fset.Position(n.End()).Line
			}
			done := false
			for _, d := range af.Decls {
				if !in(d) {
					continue
				}
				if fd, ok := d.(*ast.FuncDecl); ok {
					dropped[fd.Name.Name] = true
					blank(fd.Pos(), fd.End())
					done = true
				} else if gd, ok := d.(*ast.GenDecl); ok {
					for _, s := range gd.Specs {
						if in(s) {
							blank(s.Pos(), s.End())
							done = true
						}
					}
					if !gd.Lparen.IsValid() {
						blank(gd.Pos(), gd.End())
					}
				}
			}
			if !done {
				return false
			}
			tmp := filepath.Join(scratchDir(), "fit_"+strings.ReplaceAll(pkg, "/", "_")+"_"+filepath.Base(h))
			if os.WriteFile(tmp, b, 0o644) != nil {
				return false
			}
			srcOverride[h] = tmp
			return true
		}
	}
	return false
}

var tmpDir string

func scratchDir() string { return tmpDir }

var tagRE = regexp.MustCompile(`(?m)^//\s*(\+build|go:build).*$`)

// copies handles "//zz:copy file old=new ..." lines of a harness file: the
// named source file of the package joins the build whatever its build
// constraints, with some identifiers renamed.
func copies(pkg, harness string) map[string]string {
	src, _ := os.ReadFile(harness)
	m := map[string]string{}
	for _, l := range strings.Split(string(src), "\n") {
		if !strings.HasPrefix(l, "//zz:copy ") {
			continue
		}
		fs := strings.Fields(l)[1:]
		b, err := os.ReadFile(filepath.Join(repoDir, pkg, fs[0]))
		if err != nil {
			continue
		}
		t := tagRE.ReplaceAllString(string(b), "")
		for _, r := range fs[1:] {
			if k := strings.Index(r, "="); k > 0 {
				t = regexp.MustCompile(`\b`+regexp.QuoteMeta(r[:k])+`\b`).ReplaceAllString(t, r[k+1:])
			}
		}
		name := "zz_verif_copy_" + strings.TrimSuffix(fs[0], ".go") + "_.go"
		tmp := filepath.Join(scratchDir(), strings.ReplaceAll(pkg, "/", "_")+name)
		if os.WriteFile(tmp, []byte(t), 0o644) == nil {
			m[filepath.Join(repoDir, pkg, name)] = tmp
		}
	}
	return m
}

func loadProg(files map[string][]string) (*ssa.Program, []*packages.Package, error) {
	ov := map[string][]byte{}
	dsts := overlayFiles(files)
	for dst, src := range dsts {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Dir: repoDir,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Overlay: ov,
		Env:     os.Environ(),
	}
	var pats []string
	for pkg := range files {
		pats = append(pats, pkgPath(pkg))
	}
	sort.Strings(pats)
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			le := &loadErr{msg: fmt.Sprintf("%s: %v", p.PkgPath, p.Errors[0])}
			for _, e := range p.Errors {
				le.pos = append(le.pos, e.Pos)
			}
			return nil, nil, le
		}
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	return prog, ps, nil
}

// ---------- native side ----------

type Native struct {
	bins map[string]string // pkg dir -> test binary
	errs map[string]error
	dir  string
	done chan struct{}
	tier string
	ovs  map[string]string // pkg dir -> overlay file
	race map[string]string // race-enabled binaries, built on demand
}

func buildNative(dir string, files map[string][]string, hs []*Harness, tier string) *Native {
	n := &Native{bins: map[string]string{}, errs: map[string]error{}, dir: dir, done: make(chan struct{}), tier: tier, ovs: map[string]string{}, race: map[string]string{}}
	go func() {
		defer close(n.done)
		for pkg, fs := range files {
			name := ""
			src, _ := os.ReadFile(fs[0])
			if af, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.PackageClauseOnly); err == nil {
				name = af.Name.Name
			}
			var b bytes.Buffer
			fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\t%q\n)\n\nfunc TestZZSym(t *testing.T) {\n\tzzsym.RunCases(map[string]func(){\n", name, modPath+"/zzsym")
			for _, h := range hs {
				if h.Pkg == pkg {
					fmt.Fprintf(&b, "\t\t%q: %s,\n", h.Name, h.Name)
				}
			}
			b.WriteString("\t})\n}\n")
			key := strings.ReplaceAll(pkg, "/", "_")
			tf := filepath.Join(dir, key+"_test.go")
			os.WriteFile(tf, b.Bytes(), 0o644)
			ov := overlayFiles(map[string][]string{pkg: fs})
			ov[filepath.Join(repoDir, pkg, "zz_verif_main_test.go")] = tf
			// the package's own tests are not part of the replay
			own, _ := filepath.Glob(filepath.Join(repoDir, pkg, "*_test.go"))
			for _, f := range own {
				ov[f] = ""
			}
			for _, h := range hs {
				if h.Pkg == pkg && h.Opts["sched"] == "on" {
					m, err := instrumented(loadedPkgs, ov, dir)
					if err != nil {
						n.errs[pkg] = err
					}
					for k, v := range m {
						ov[k] = v
					}
					break
				}
			}
			j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
			of := filepath.Join(dir, key+"_overlay.json")
			os.WriteFile(of, j, 0o644)
			bin := filepath.Join(dir, key+".test")
			cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", of, "-o", bin, "./"+pkg)
			cmd.Dir = repoDir
			out, err := cmd.CombinedOutput()
			if err != nil {
				n.errs[pkg] = fmt.Errorf("%v: %s", err, tail(string(out), 2000))
				continue
			}
			n.bins[pkg] = bin
			n.ovs[pkg] = of
		}
	}()
	return n
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// run replays cases natively.
func (n *Native) run(pkg string, cases []Case, secs int) ([]CaseResult, error) {
	<-n.done
	if err := n.errs[pkg]; err != nil {
		return nil, err
	}
	res := make([]CaseResult, len(cases))
	rem := cases
	if len(cases) > 1 {
		for _, c := range cases {
			if len(c.Sched) == 0 {
				continue
			}
			for i := range cases {
				r, err := n.run(pkg, cases[i:i+1], secs)
				if err != nil {
					return nil, err
				}
				res[i] = r[0]
			}
			return res, nil
		}
	}
	bin := n.bins[pkg]
	if len(cases) == 1 && cases[0].race {
		if n.race[pkg] == "" {
			n.race[pkg] = bin + ".race"
			cmd := exec.Command("go", "test", "-race", "-c", "-vet=off", "-overlay", n.ovs[pkg], "-o", bin+".race", "./"+pkg)
			cmd.Dir = repoDir
			if out, err := cmd.CombinedOutput(); err != nil {
				return nil, fmt.Errorf("%v: %s", err, tail(string(out), 2000))
			}
		}
		bin = n.race[pkg]
	}
	base := 0
	for len(rem) > 0 {
		f, _ := os.CreateTemp(n.dir, "cases*.json")
		j, _ := json.Marshal(rem)
		f.Write(j)
		f.Close()
		scratch, _ := os.MkdirTemp(n.dir, "scratch")
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
		cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestZZSym$", "-test.timeout", "0")
		cmd.Dir = scratch
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		cmd.WaitDelay = 2 * time.Second
		outF := f.Name() + ".out"
		cmd.Env = append(os.Environ(), "ZZSYM_CASES="+f.Name(), "ZZSYM_OUT="+outF, "ZZSYM_TIER="+n.tier, "HOME="+scratch, "ZZSYM_SCRATCH="+scratch)
		out, err := cmd.CombinedOutput()
		timedOut := ctx.Err() != nil
		cancel()
		os.RemoveAll(scratch)
		data, _ := os.ReadFile(outF)
		os.Remove(f.Name())
		os.Remove(outF)
		got := 0
		for _, ln := range strings.Split(string(data), "\n") {
			if ln == "" {
				continue
			}
			var r CaseResult
			if json.Unmarshal([]byte(ln), &r) == nil && got < len(rem) {
				res[base+got] = r
				got++
			}
		}
		if got == len(rem) {
			if len(cases) == 1 && cases[0].race && strings.Contains(string(out), "WARNING: DATA RACE") {
				res[0].Kind = "race"
				res[0].Msg = tail(string(out), 3000)
			}
			return res, nil
		}
		// the process died in case number got
		r := CaseResult{Kind: "crash", Msg: tail(string(out), 3000)}
		if timedOut {
			r = CaseResult{Kind: "timeout", Msg: tail(string(out), 500)}
		} else if err == nil {
			r.Msg = "exited early: " + r.Msg
		}
		if strings.Contains(string(out), "all goroutines are asleep - deadlock!") {
			r.Kind = "deadlock"
		}
		res[base+got] = r
		base += got + 1
		rem = rem[got+1:]
	}
	return res, nil
}

// ---------- running ----------

func runOne(prog *ssa.Program, h *Harness, tier string, dir string, verbose bool, seed, part, split int) *Result {
	t0 := time.Now()
	e := NewEngine(prog, fmt.Sprintf("%s-%d", filepath.Join(dir, h.Name), part))
	defer e.s.Close()
	e.harness = h.Name
	e.verbose = verbose
	e.tier = tier
	budget := h.optInt(tier, "budget", map[string]int{"quick": 120, "thorough": 1500}[tier])
	e.deadline = t0.Add(time.Duration(budget) * time.Second)
	e.s.deadline = e.deadline
	e.maxLoop = h.optInt(tier, "maxloop", e.maxLoop)
	e.maxPaths = h.optInt(tier, "maxpaths", e.maxPaths)
	e.preemptMax = h.optInt(tier, "preempt", e.preemptMax)
	e.concMax = h.optInt(tier, "conc", e.concMax)
	if v, _ := h.opt(tier, "ints"); v == "on" {
		e.c.wide = true
	}
	e.s.slowS = h.optInt(tier, "slow", map[string]int{"quick": 60, "thorough": 300}[tier])
	e.s.quickMS = h.optInt(tier, "qms", e.s.quickMS)
	if split > 1 {
		e.splitK, e.splitJ = split, part
		e.splitDepth = h.optInt(tier, "splitdepth", 2)
	}
	if v, _ := h.opt(tier, "merge"); v == "off" {
		e.mergeOn = false
	}
	r := &Result{h: h, e: e}
	p := e.pkgs[pkgPath(h.Pkg)]
	if p == nil {
		e.inconcl("package %s not loaded", h.Pkg)
		return r
	}
	p.Build()
	tags := map[string]bool{}
	if v, ok := h.opt(tier, "models"); ok {
		for _, t := range strings.Split(v, ",") {
			tags[t] = true
		}
	}
	if v, _ := h.opt(tier, "sched"); v == "on" {
		e.sched = true
	}
	e.modelRedirects(p, tags)
	fn := p.Func(h.Name)
	if fn == nil {
		e.inconcl("harness not found")
		return r
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", x, debug.Stack())
				}
				e.inconcl("engine failure: %v", x)
			}
		}()
		e.RunHarness(fn)
	}()
	e.takeSamples(r, h.optInt(tier, "samples", 12), seed)
	r.secs = time.Since(t0).Seconds()
	for k, n := range e.forkAt {
		if n > 50 {
			fmt.Fprintf(os.Stderr, "forks %6d %s\n", n, k)
		}
	}
	for k, n := range e.s.tags {
		fmt.Fprintf(os.Stderr, "queries %6d %s\n", n, k)
	}
	e.heapRelease()
	return r
}

func (e *Engine) heapRelease() {
	e.work, e.Completed = nil, nil
	e.base = Heap{}
	e.fninfo = nil
	e.c = nil
	e.s.models = nil
	e.s.c = nil
	e.s.pr = nil
}

func (e *Engine) takeSamples(r *Result, k int, seed int) {
	defer func() { recover() }()
	n := len(e.Completed)
	if n == 0 || k == 0 {
		return
	}
	e.s.deadline = time.Time{}
	end := time.Now().Add(20 * time.Second)
	step := n/k + 1
	for i := (seed % step); i < n; i += step {
		if time.Now().After(end) {
			return
		}
		st := e.Completed[i]
		v, m := e.s.checkInc(st.pc, e.c.True, true)
		if v != Sat {
			continue
		}
		roots := st.pc.List()
		for _, o := range st.obs {
			roots = append(roots, o.ts...)
		}
		m, _ = e.realModel(roots, m)
		ok := true
		memo := map[*Term]*big.Int{}
		for _, t := range st.pc.List() {
			x, evok := e.c.Eval(t, m, memo)
			if !evok || x.Sign() == 0 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		s := sample{vals: e.ndValues(st, m), sched: st.evs}
		for _, o := range st.obs {
			good := o.kind != "skip"
			vals := make([]*big.Int, len(o.ts))
			for j, t := range o.ts {
				x, evok := e.c.Eval(t, m, memo)
				vals[j] = x
				good = good && evok
				if o.kind == "int" || o.kind == "big" {
					if x.Bit(t.w-1) == 1 {
						vals[j] = new(big.Int).Sub(x, new(big.Int).Lsh(big.NewInt(1), uint(t.w)))
					}
				}
			}
			if !good {
				s.pred = append(s.pred, o.name+"=?")
				continue
			}
			switch o.kind {
			case "bytes":
				b := make([]byte, len(vals))
				for j := range b {
					b[j] = byte(vals[j].Uint64())
				}
				s.pred = append(s.pred, fmt.Sprintf("%s=%x", o.name, b))
			case "int", "big":
				s.pred = append(s.pred, fmt.Sprintf("%s=%d", o.name, vals[0]))
			case "bool":
				s.pred = append(s.pred, fmt.Sprintf("%s=%v", o.name, vals[0].Sign() != 0))
			}
		}
		r.samples = append(r.samples, s)
	}
}

type Finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"` // exact message of the failing assertion
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func loadFindings() (fs []Finding) {
	b, err := os.ReadFile(verifDir + "/known_findings.jsonl")
	if err != nil {
		return nil
	}
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		if ln == "" || !strings.HasPrefix(ln, "{") {
			continue
		}
		var f Finding
		if json.Unmarshal([]byte(ln), &f) == nil && f.Fixed == "" {
			fs = append(fs, f)
		}
	}
	return
}

var onExit = func() {}

func main() {
	debug.SetGCPercent(200)
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("only", "", "run only harnesses whose name contains this")
	verbose := flag.Bool("v", false, "verbose")
	repo := flag.String("repo", "/repo", "tree under check")
	verif := flag.String("verif", "/verif", "this directory")
	replay := flag.String("replay", "", "replay a recorded violation")
	jobs := flag.Int("j", 0, "parallel harnesses")
	flag.Parse()
	if pf := os.Getenv("GOSYM_PROF"); pf != "" {
		if f, err := os.Create(pf); err == nil {
			pprof.StartCPUProfile(f)
			onExit = pprof.StopCPUProfile
		}
	}
	repoDir, verifDir = *repo, *verif
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed < 0 {
		seed = -seed
	}
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := 0
	defer func() { os.RemoveAll(dir); onExit(); os.Exit(code) }()
	tmpDir = dir
	hs, files, err := findHarnesses(*prop)
	if err == nil && len(hs) == 0 {
		err = fmt.Errorf("no harness for %q", *prop)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		code = 2
		return
	}
	if *replay != "" {
		code = doReplay(dir, files, hs, *replay, *tier)
		return
	}
	var sel []*Harness
	for _, h := range hs {
		if t, ok := h.Opts["tier"]; ok && t != *tier {
			continue
		}
		if *only != "" && !strings.Contains(h.Name, *only) {
			continue
		}
		sel = append(sel, h)
	}
	prog, dropped, err := loadFitting(files)
	if len(dropped) > 0 {
		var keep []*Harness
		for _, h := range hs {
			if !dropped[h.Name] {
				keep = append(keep, h)
			}
		}
		hs = keep
		keep = nil
		for _, h := range sel {
			if !dropped[h.Name] {
				keep = append(keep, h)
			}
		}
		sel = keep
		if len(sel) == 0 && err == nil {
			err = fmt.Errorf("no harness fits the current tree")
		}
	}
	nat := buildNative(dir, files, hs, *tier)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot encode the current tree:", err)
		code = 2
		return
	}
	nj := *jobs
	if nj == 0 {
		nj = runtime.NumCPU()
		if nj > 8 {
			nj = 8
		}
	}
	type job struct {
		h           *Harness
		part, split int
	}
	var jobl []job
	for _, h := range sel {
		k := h.optInt(*tier, "split", 1)
		for j := 0; j < k; j++ {
			jobl = append(jobl, job{h, j, k})
		}
	}
	results := make([]*Result, len(jobl))
	sem := make(chan struct{}, nj)
	var wg sync.WaitGroup
	for i, j := range jobl {
		wg.Add(1)
		go func(i int, h *Harness, part, split int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			results[i] = runOne(prog, h, *tier, dir, *verbose, seed, part, split)
			if *verbose {
				r := results[i]
				fmt.Fprintf(os.Stderr, "%s: %.1fs paths=%d forks=%d merges=%d steps=%d queries=%d solver=%.1fs vio=%d covers=%v inconcl=%v\n", h.Name, r.secs, r.e.Paths, r.e.Forks, r.e.Merges, r.e.Steps, r.e.s.Stats.Queries, float64(r.e.s.Stats.TimeNS)/1e9, len(r.e.Violations), r.e.Covers, r.e.Inconcl)
			}
		}(i, j.h, j.part, j.split)
	}
	wg.Wait()
	code = report(*prop, *tier, seed, results, nat, dir, t0, *verbose, dropped)
}

func doReplay(dir string, files map[string][]string, hs []*Harness, path, tier string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rec struct {
		Pkg     string    `json:"pkg"`
		Harness string    `json:"harness"`
		Tier    string    `json:"tier"`
		Values  []NDVal   `json:"values"`
		Sched   []schedEv `json:"sched"`
		Kind    string    `json:"kind"`
	}
	json.Unmarshal(b, &rec)
	if rec.Tier != "" {
		tier = rec.Tier
	}
	if _, _, err := loadFitting(files); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	nat := buildNative(dir, files, hs, tier)
	rs, err := nat.run(rec.Pkg, []Case{{Harness: rec.Harness, Values: rec.Values, Sched: rec.Sched, race: rec.Kind == "race"}}, 60)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %s %s\n", rec.Harness, rs[0].Kind, rs[0].Msg)
	if rs[0].Kind == "ok" {
		return 0
	}
	return 1
}
