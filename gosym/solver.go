package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

type Verdict int

const (
	Unsat Verdict = iota
	Sat
	Unknown
)

func (v Verdict) String() string { return [...]string{"unsat", "sat", "unknown"}[v] }

type SolverStats struct {
	Queries         int64
	Sat             int64
	Unsat           int64
	Unknown         int64
	OneShot         int64
	TimeNS          int64
	Fast, ModelHits int64
	Trivial         int64
	ErrorLines      int64
}

// ---------- SMT-LIB printing ----------

func smtSort(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtConst(t *Term) string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		s := t.Big().Text(16)
		return "#x" + strings.Repeat("0", t.w/4-len(s)) + s
	}
	s := t.Big().Text(2)
	return "#b" + strings.Repeat("0", t.w-len(s)) + s
}

type printer struct {
	c    *Ctx
	done map[*Term]bool
	ufs  map[string]bool
	out  *strings.Builder
}

func (p *printer) ref(t *Term) string {
	if t.op == OConst {
		return smtConst(t)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (p *printer) emit(root *Term) {
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	if root.op == OConst || p.done[root] {
		return
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != OConst && !p.done[a] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		t := f.t
		st = st[:len(st)-1]
		if p.done[t] {
			continue
		}
		p.done[t] = true
		p.def(t)
	}
}

func (p *printer) def(t *Term) {
	b := p.out
	switch t.op {
	case OVar:
		fmt.Fprintf(b, "(declare-const t%d %s) ; %s\n", t.id, smtSort(t.w), strings.ReplaceAll(t.name, "\n", " "))
		return
	case OUF:
		sig := t.name
		key := fmt.Sprintf("%s/%d", sig, t.w)
		for _, a := range t.args {
			key += fmt.Sprintf("_%d", a.w)
		}
		if len(t.args) == 0 {
			fmt.Fprintf(b, "(declare-const t%d %s)\n", t.id, smtSort(t.w))
			return
		}
		if !p.ufs[key] {
			p.ufs[key] = true
			fmt.Fprintf(b, "(declare-fun |%s| (", key)
			for _, a := range t.args {
				b.WriteString(smtSort(a.w) + " ")
			}
			fmt.Fprintf(b, ") %s)\n", smtSort(t.w))
		}
		fmt.Fprintf(b, "(define-fun t%d () %s (|%s|", t.id, smtSort(t.w), key)
		for _, a := range t.args {
			b.WriteString(" " + p.ref(a))
		}
		b.WriteString("))\n")
		return
	}
	fmt.Fprintf(b, "(define-fun t%d () %s (", t.id, smtSort(t.w))
	switch t.op {
	case OExtract:
		fmt.Fprintf(b, "(_ extract %d %d)", t.hi, t.lo)
	case OSExt:
		fmt.Fprintf(b, "(_ sign_extend %d)", t.w-t.args[0].w)
	default:
		b.WriteString(opNames[t.op])
	}
	for _, a := range t.args {
		b.WriteString(" " + p.ref(a))
	}
	b.WriteString("))\n")
}

// ---------- incremental process ----------

type Proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startProc(name string, args ...string) (*Proc, error) {
	cmd := exec.Command(name, args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &Proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20)}, nil
}

func (p *Proc) kill() {
	if p == nil || p.cmd == nil {
		return
	}
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

type Solver struct {
	c        *Ctx
	p        *Proc
	pr       *printer
	stack    []*Term // asserted terms, one per push level
	Stats    SolverStats
	quickMS  int
	slowS    int
	dir      string
	nOneShot int
	deadline time.Time
	models   []Model // recent models for reuse
	memoBad  int
	fast     *fastCtx
	tag      string
	tags     map[string]int
}

func NewSolver(c *Ctx, dir string) *Solver {
	return &Solver{c: c, fast: newFast(), quickMS: 3000, slowS: 120, dir: dir}
}

func (s *Solver) start() {
	if s.p != nil {
		s.p.kill()
	}
	p, err := startProc("z3-new", "-in", "-smt2")
	if err != nil {
		panic(err)
	}
	s.p = p
	s.pr = &printer{c: s.c, done: map[*Term]bool{}, ufs: map[string]bool{}, out: &strings.Builder{}}
	s.stack = nil
	fmt.Fprintf(s.p.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.quickMS)
}

func (s *Solver) Close() {
	if s.p != nil {
		s.p.kill()
		s.p = nil
	}
}

var debugSlow = os.Getenv("GOSYM_SLOW") != ""
var slowDepth = func() int { n := 5; fmt.Sscan(os.Getenv("GOSYM_SLOW"), &n); return n }()

// Path conditions are persistent lists.
type PC struct {
	parent *PC
	t      *Term
	n      int
	imp    bool // follows from the rest: not sent to the solver
}

// PushImp records a fact that the rest of the path condition implies.
func (p *PC) PushImp(t *Term) *PC {
	q := p.Push(t)
	q.imp = true
	return q
}

func (p *PC) Push(t *Term) *PC {
	n := 1
	if p != nil {
		n = p.n + 1
	}
	return &PC{parent: p, t: t, n: n}
}

func (p *PC) List() []*Term {
	if p == nil {
		return nil
	}
	k := p.n
	out := make([]*Term, p.n)
	for q := p; q != nil; q = q.parent {
		if !q.imp {
			k--
			out[k] = q.t
		}
	}
	return out[k:]
}

// checkInc runs an incremental query: pc and extra.
func (s *Solver) checkInc(pc *PC, extra *Term, wantModel bool) (Verdict, Model) {
	if s.p == nil {
		s.start()
	}
	if debugSlow {
		if s.tags == nil {
			s.tags = map[string]int{}
		}
		s.tags[s.tag]++
		if q := os.Getenv("GOSYM_DUMPAT"); q != "" && strings.Contains(s.tag, q) {
			fmt.Fprintf(os.Stderr, "AT %s\n  Q %s\n", s.tag, termStr(extra, 6))
			for _, t := range pc.List() {
				if s.fast.single(t) == manyVar {
					fmt.Fprintf(os.Stderr, "  PC %s\n", termStr(t, 6))
				}
			}
		}
	}
	list := pc.List()
	k := 0
	for k < len(s.stack) && k < len(list) && s.stack[k] == list[k] {
		k++
	}
	b := s.pr.out
	b.Reset()
	if k < len(s.stack) {
		fmt.Fprintf(b, "(pop %d)\n", len(s.stack)-k)
		s.stack = s.stack[:k]
	}
	for ; k < len(list); k++ {
		s.pr.emit(list[k])
		fmt.Fprintf(b, "(push 1)\n(assert %s)\n", s.pr.ref(list[k]))
		s.stack = append(s.stack, list[k])
	}
	if extra != nil && extra != s.c.True {
		s.pr.emit(extra)
		fmt.Fprintf(b, "(push 1)\n(assert %s)\n", s.pr.ref(extra))
	} else {
		b.WriteString("(push 1)\n")
	}
	b.WriteString("(check-sat)\n")
	t0 := time.Now()
	io.WriteString(s.p.in, b.String())
	line, err := s.readLine()
	atomic.AddInt64(&s.Stats.TimeNS, int64(time.Since(t0)))
	s.Stats.Queries++
	if debugSlow && time.Since(t0) > 150*time.Millisecond {
		fmt.Fprintf(os.Stderr, "slow query %.2fs %s: pc %d extra %s\n", time.Since(t0).Seconds(), line, len(list), termStr(extra, slowDepth))
	}
	if err != nil {
		s.start()
		s.Stats.Unknown++
		return Unknown, nil
	}
	var m Model
	v := Unknown
	switch line {
	case "sat":
		v = Sat
		s.Stats.Sat++
		if wantModel {
			m = s.getModel(append(append([]*Term{}, list...), extra))
		}
	case "unsat":
		v = Unsat
		s.Stats.Unsat++
	default:
		if strings.HasPrefix(line, "(error") {
			s.Stats.ErrorLines++
			fmt.Fprintln(os.Stderr, "solver error:", line)
			s.start()
			s.Stats.Unknown++
			return Unknown, nil
		}
		s.Stats.Unknown++
	}
	io.WriteString(s.p.in, "(pop 1)\n")
	return v, m
}

func (s *Solver) readLine() (string, error) {
	for {
		type res struct {
			l string
			e error
		}
		ch := make(chan res, 1)
		go func() {
			l, e := s.p.out.ReadString('\n')
			ch <- res{l, e}
		}()
		var r res
		select {
		case r = <-ch:
		case <-time.After(time.Duration(s.quickMS)*time.Millisecond*4 + 20*time.Second):
			s.p.kill()
			r = <-ch
			return "", fmt.Errorf("solver hung")
		}
		l := strings.TrimSpace(r.l)
		if l == "" && r.e == nil {
			continue
		}
		return l, r.e
	}
}

// leaves reachable from the roots
func leaves(roots []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	st := []*Term{}
	for _, r := range roots {
		if r != nil {
			st = append(st, r)
		}
	}
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[t] {
			continue
		}
		seen[t] = true
		if t.op == OVar || t.op == OUF {
			out = append(out, t)
		}
		st = append(st, t.args...)
	}
	return out
}

func (s *Solver) getModel(roots []*Term) Model {
	ls := leaves(roots)
	m := Model{}
	if len(ls) == 0 {
		return m
	}
	var b strings.Builder
	b.WriteString("(get-value (")
	for _, t := range ls {
		fmt.Fprintf(&b, "t%d ", t.id)
	}
	b.WriteString("))\n")
	io.WriteString(s.p.in, b.String())
	txt, err := readSexp(s.p.out)
	if err != nil {
		return nil
	}
	parseValues(s.c, txt, m)
	return m
}

func readSexp(r *bufio.Reader) (string, error) {
	var b strings.Builder
	depth := 0
	started := false
	for {
		ch, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		if !started && (ch == '\n' || ch == ' ') {
			continue
		}
		started = true
		b.WriteByte(ch)
		if ch == '(' {
			depth++
		} else if ch == ')' {
			depth--
			if depth == 0 {
				return b.String(), nil
			}
		} else if depth == 0 && ch == '\n' {
			return b.String(), nil
		}
	}
}

func parseValues(c *Ctx, txt string, m Model) {
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(f); {
		if !strings.HasPrefix(f[i], "t") || f[i] == "true" {
			i++
			continue
		}
		var id int
		if _, err := fmt.Sscanf(f[i], "t%d", &id); err != nil || id >= len(c.byID) {
			i++
			continue
		}
		v := f[i+1]
		i += 2
		x := new(big.Int)
		switch {
		case v == "true":
			x.SetInt64(1)
		case v == "false":
		case strings.HasPrefix(v, "#x"):
			x.SetString(v[2:], 16)
		case strings.HasPrefix(v, "#b"):
			x.SetString(v[2:], 2)
		case v == "_" && i < len(f) && strings.HasPrefix(f[i], "bv"):
			x.SetString(f[i][2:], 10)
			i += 2
		}
		m[c.byID[id]] = x
	}
}

// Feasible decides whether pc && extra has a model. Models are cached.
func (s *Solver) Feasible(pc *PC, extra *Term, hint Model) (Verdict, Model) {
	if extra.isFalse() {
		s.Stats.Trivial++
		return Unsat, nil
	}
	if hint != nil {
		if v, ok := s.c.Eval(extra, hint, map[*Term]*big.Int{}); ok && v.Sign() != 0 {
			s.Stats.ModelHits++
			return Sat, hint
		}
	}
	extra = s.reduce(pc, extra)
	if extra.isFalse() {
		s.Stats.Fast++
		return Unsat, nil
	}
	if v, m, ok := s.fastDecide(pc, extra, hint); ok {
		return v, m
	}
	return s.checkInc(pc, extra, true)
}

// ---------- one-shot portfolio ----------

func (s *Solver) script(roots []*Term, ls []*Term, uf bool, cvc bool) string {
	var b strings.Builder
	pr := &printer{c: s.c, done: map[*Term]bool{}, ufs: map[string]bool{}, out: &b}
	if uf {
		b.WriteString("(set-logic QF_UFBV)\n")
	} else {
		b.WriteString("(set-logic QF_BV)\n")
	}
	b.WriteString("(set-option :produce-models true)\n")
	for _, r := range roots {
		pr.emit(r)
	}
	for _, l := range ls {
		pr.emit(l)
	}
	for _, r := range roots {
		fmt.Fprintf(&b, "(assert %s)\n", pr.ref(r))
	}
	b.WriteString("(check-sat)\n")
	if len(ls) > 0 {
		b.WriteString("(get-value (")
		for _, t := range ls {
			fmt.Fprintf(&b, "t%d ", t.id)
		}
		b.WriteString("))\n")
	}
	return b.String()
}

// Decide is the heavyweight check used for assertions.
func (s *Solver) Decide(pc *PC, extra *Term) (Verdict, Model) {
	if extra.isFalse() {
		s.Stats.Trivial++
		return Unsat, nil
	}
	extra = s.reduce(pc, extra)
	if extra.isFalse() {
		s.Stats.Fast++
		return Unsat, nil
	}
	if v, _, ok := s.fastDecide(pc, extra, nil); ok && v == Unsat {
		return Unsat, nil
	}
	v, m := s.checkInc(pc, extra, true)
	if v != Unknown {
		return v, m
	}
	roots := append(pc.List(), extra)
	return s.Portfolio(roots, s.slowS)
}

func (s *Solver) Portfolio(roots []*Term, secs int) (Verdict, Model) {
	if !s.deadline.IsZero() {
		if left := int(time.Until(s.deadline).Seconds()); left < secs {
			secs = left
		}
		if secs <= 0 {
			return Unknown, nil
		}
	}
	ls := leaves(roots)
	uf := false
	for _, l := range ls {
		if l.op == OUF {
			uf = true
		}
	}
	s.nOneShot++
	f := filepath.Join(s.dir, fmt.Sprintf("q%d.smt2", s.nOneShot))
	os.MkdirAll(s.dir, 0o755)
	os.WriteFile(f, []byte(s.script(roots, ls, uf, false)), 0o644)
	defer os.Remove(f)
	type ans struct {
		v    Verdict
		m    Model
		name string
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	cmds := [][]string{
		{"z3-new", f},
		{"cvc5", "--produce-models", f},
	}
	if !uf {
		cmds = append(cmds, []string{"cvc5", "--solve-bv-as-int=sum", "--produce-models", f})
	}
	ch := make(chan ans, len(cmds))
	t0 := time.Now()
	for _, a := range cmds {
		go func(a []string) {
			cmd := exec.CommandContext(ctx, a[0], a[1:]...)
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			out, _ := cmd.Output()
			txt := string(out)
			r := ans{v: Unknown, name: strings.Join(a, " ")}
			i := strings.IndexByte(txt, '\n')
			if i >= 0 {
				switch strings.TrimSpace(txt[:i]) {
				case "sat":
					r.v = Sat
					r.m = Model{}
					parseValues(s.c, txt[i:], r.m)
				case "unsat":
					r.v = Unsat
				}
			}
			ch <- r
		}(a)
	}
	s.Stats.OneShot++
	s.Stats.Queries++
	res := ans{v: Unknown}
	for range cmds {
		r := <-ch
		if r.v != Unknown {
			res = r
			break
		}
	}
	cancel()
	atomic.AddInt64(&s.Stats.TimeNS, int64(time.Since(t0)))
	switch res.v {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	return res.v, res.m
}
