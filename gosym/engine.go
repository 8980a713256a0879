package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Nondet struct {
	name string
	kind string
	t    *Term
	prev *Nondet
	n    int
}

type deferred struct {
	fv   FuncV
	args []Value
	call ssa.CallInstruction
}

type Frame struct {
	fi        *FnInfo
	regs      []Value
	block     *ssa.BasicBlock
	pc        int
	prev      *ssa.BasicBlock
	defers    []deferred
	call      ssa.CallInstruction // call in the caller, nil for deferred / top
	binds     []Value
	id        int
	deferOf   bool // this frame is a deferred call of the frame below
	unwinding bool
	loopCnt   map[*ssa.BasicBlock]int
}

type panicV struct {
	val       Value
	msg       string
	recovered bool
	runtime   bool
}

type Thread struct {
	id         int
	frames     []*Frame
	pan        *panicV
	done       bool
	atOp       bool // parked before a visible operation
	grant      bool // may execute the visible operation now
	name       string
	needUnwind bool
	opKey      int
	fresh      bool // has not run yet
}

// JoinRec is a merge region opened by a fork.
type JoinRec struct {
	parent  *JoinRec
	frameID int
	depth   int // frames in thread when forked
	block   *ssa.BasicBlock
	out     int // outstanding states
	arrived []*State
	pc      *PC
	noMerge bool
}

type State struct {
	id      int
	epoch   int
	pc      *PC
	heap    Heap
	threads []*Thread
	cur     int
	nondet  *Nondet
	hint    Model
	rec     *JoinRec
	conc    map[*Term]uint64
	locks   map[string]*LockSt
	steps   int
	init    bool
	preempt int
	trace   []string
	depth   int
	maybe   bool // path feasibility undecided somewhere
	ghost   map[string]Value
	schedN  int
	chooseN int // choices made and their hash (for split harnesses)
	chooseH uint32
	obs     []obsRec
	evs     []schedEv
	hb      *hbState
}

type LockSt struct {
	w       bool
	readers int
	cnt     int64 // waitgroup
	waiters []int // cond
	once    bool
}

type Violation struct {
	Harness string
	Kind    string // assert | panic | deadlock
	Msg     string
	Pos     string
	Model   Model
	Values  []NDVal
	Trace   []string
	maybe   bool
	stack   string
	Sched   []schedEv
}

type NDVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

type Engine struct {
	forkAt   map[string]int // where forks happen, for GOSYM_FORKS
	lins     map[*Term]*Lin
	linFacts map[*Term]*linFact

	splitK, splitJ, splitDepth int // this run explores part J of K, by the first choices made
	c                          *Ctx
	s                          *Solver
	prog                       *ssa.Program
	fset                       *token.FileSet
	byteC                      [256]*Term
	bigStruct                  types.Type
	fninfo                     map[*ssa.Function]*FnInfo
	plainB                     map[*Term]bool // bytes shown to be plain JSON string content
	globals                    map[*ssa.Global]int
	nextObj                    int
	nextEpoch                  int
	nextState                  int
	nextFrame                  int
	base                       Heap
	inited                     map[*ssa.Package]bool
	initFail                   map[string]string
	work                       []*State
	harness                    string
	pkgs                       map[string]*ssa.Package
	zz                         *ssa.Package
	forced                     map[string]bool // these redirects go before intrinsics
	hard                       map[*Term]bool
	redirect                   map[string]*ssa.Function
	typeRT                     types.Type // zzsym.RuntimeError pointer type
	typeOE                     types.Type

	sched          bool // explore and record schedules
	noAcc          bool
	evC, evP, evPC int

	// options
	maxSteps   int
	maxLoop    int
	maxPaths   int
	deadline   time.Time
	mergeOn    bool
	preemptMax int
	verbose    bool
	ufNames    map[string]bool
	skipFns    map[string]bool
	allowedPan bool
	concMax    int
	tier       string

	// results
	Violations  []*Violation
	vioSites    map[string]bool
	Inconcl     map[string]int
	Covers      map[string]int
	Asserts     map[string]*AssertStat
	Funcs       map[string]bool
	Paths       int
	Forks       int
	Merges      int
	Steps       int64
	Completed   []*State // sample of completed paths for validation
	nCompleted  int
	Deadlocks   int
	Notes       map[string]bool
	Scheds      int
	curInstrPos token.Pos
	intr        map[string]intrinsic
}

type AssertStat struct {
	Checked int
	Trivial int
	Unknown int
	Failed  int
}

type FnInfo struct {
	fn     *ssa.Function
	slot   map[ssa.Value]int
	n      int
	ipdom  []*ssa.BasicBlock // by block index; nil = exit
	live   [][]int           // live-in slots (after phis) by block index
	inRepo bool
	inst   bool // instrumented in native replays of schedules
}

// control-flow exceptions inside a step
type forkOn struct{ cond *Term }
type splitOn struct{ u *Union }
type concOn struct{ t *Term }
type unsupported struct{ why string }
type goPanic struct {
	val     Value
	msg     string
	runtime bool
}
type parkOp struct{}
type killPath struct{}

func (e *Engine) unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func NewEngine(prog *ssa.Program, dir string) *Engine {
	c := NewCtx()
	e := &Engine{lins: map[*Term]*Lin{}, linFacts: map[*Term]*linFact{}, c: c, prog: prog, fset: prog.Fset,
		fninfo: map[*ssa.Function]*FnInfo{}, globals: map[*ssa.Global]int{},
		inited: map[*ssa.Package]bool{}, initFail: map[string]string{}, vioSites: map[string]bool{},
		Inconcl: map[string]int{}, Covers: map[string]int{}, Asserts: map[string]*AssertStat{}, Funcs: map[string]bool{}, Notes: map[string]bool{},
		pkgs: map[string]*ssa.Package{}, nextObj: 1, nextEpoch: 1,
		maxSteps: 40000000, maxLoop: 2000, maxPaths: 200000, mergeOn: true, preemptMax: 2, concMax: 300,
		forced: map[string]bool{}, hard: map[*Term]bool{},
		redirect: map[string]*ssa.Function{}, ufNames: map[string]bool{}, skipFns: map[string]bool{},
	}
	e.s = NewSolver(c, dir)
	for i := range e.byteC {
		e.byteC[i] = c.BV(8, uint64(i))
	}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	if p := e.pkgs["math/big"]; p != nil {
		e.bigStruct = p.Pkg.Scope().Lookup("Int").Type().Underlying()
	}
	e.intr = intrinsicTable()
	if os.Getenv("GOSYM_FORKS") != "" {
		e.forkAt = map[string]int{}
	}
	e.initRedirects()
	return e
}

func (e *Engine) info(fn *ssa.Function) *FnInfo {
	if fi := e.fninfo[fn]; fi != nil {
		return fi
	}
	if fn.Pkg != nil {
		// waits for a build that another job has under way
		fn.Pkg.Build()
	}
	fi := &FnInfo{fn: fn, slot: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		fi.slot[p] = fi.n
		fi.n++
	}
	for _, p := range fn.FreeVars {
		fi.slot[p] = fi.n
		fi.n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.slot[v] = fi.n
				fi.n++
			}
		}
	}
	fi.postdom()
	fi.liveness()
	pos := e.fset.Position(fn.Pos())
	if strings.HasPrefix(pos.Filename, repoDir+"/") && !strings.Contains(pos.Filename, "/zzsym/") {
		fi.inst = true
	}
	if strings.HasPrefix(pos.Filename, repoDir+"/") && !strings.Contains(pos.Filename, "zz_verif") && !strings.Contains(pos.Filename, "/zzsym/") {
		fi.inRepo = true
	}
	e.fninfo[fn] = fi
	return fi
}

func (fi *FnInfo) postdom() {
	n := len(fi.fn.Blocks)
	fi.ipdom = make([]*ssa.BasicBlock, n)
	if n == 0 {
		return
	}
	// sets as bitmaps; exit = n
	words := (n + 1 + 63) / 64
	pd := make([][]uint64, n+1)
	for i := range pd {
		pd[i] = make([]uint64, words)
		for w := range pd[i] {
			pd[i][w] = ^uint64(0)
		}
	}
	for w := range pd[n] {
		pd[n][w] = 0
	}
	pd[n][n/64] |= 1 << uint(n%64)
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fi.fn.Blocks[i]
			nw := make([]uint64, words)
			if len(b.Succs) == 0 {
				copy(nw, pd[n])
			} else {
				for w := range nw {
					nw[w] = ^uint64(0)
				}
				// a panic block does not constrain its siblings
				used := false
				for _, s := range b.Succs {
					if isPanicBlock(s) && len(b.Succs) > 1 {
						continue
					}
					used = true
					for w := range nw {
						nw[w] &= pd[s.Index][w]
					}
				}
				if !used {
					copy(nw, pd[n])
				}
			}
			nw[i/64] |= 1 << uint(i%64)
			for w := range nw {
				if nw[w] != pd[i][w] {
					pd[i] = nw
					changed = true
					break
				}
			}
		}
	}
	count := func(s []uint64) int {
		k := 0
		for _, w := range s {
			for ; w != 0; w &= w - 1 {
				k++
			}
		}
		return k
	}
	for i := 0; i < n; i++ {
		// ipdom = the strict postdominator with the largest own set
		best, bc := -1, -1
		for j := 0; j < n; j++ {
			if j != i && pd[i][j/64]>>(uint(j%64))&1 == 1 {
				if c := count(pd[j]); c > bc && c <= n+1 {
					best, bc = j, c
				}
			}
		}
		if best >= 0 {
			fi.ipdom[i] = fi.fn.Blocks[best]
		}
	}
}

func isPanicBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

func (fi *FnInfo) liveness() {
	n := len(fi.fn.Blocks)
	fi.live = make([][]int, n)
	use := make([]map[int]bool, n)
	def := make([]map[int]bool, n)
	in := make([]map[int]bool, n)
	for i, b := range fi.fn.Blocks {
		use[i], def[i], in[i] = map[int]bool{}, map[int]bool{}, map[int]bool{}
		for _, ins := range b.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				def[i][fi.slot[ph]] = true
				continue
			}
			for _, op := range ins.Operands(nil) {
				if *op == nil {
					continue
				}
				if s, ok := fi.slot[*op]; ok && !def[i][s] {
					use[i][s] = true
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				def[i][fi.slot[v]] = true
			}
		}
	}
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fi.fn.Blocks[i]
			add := func(s int) {
				if !in[i][s] {
					in[i][s] = true
					changed = true
				}
			}
			for s := range use[i] {
				add(s)
			}
			for _, sc := range b.Succs {
				for s := range in[sc.Index] {
					if !def[i][s] {
						add(s)
					}
				}
				pi := -1
				for k, p := range sc.Preds {
					if p == b {
						pi = k
					}
				}
				for _, ins := range sc.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					if s, ok := fi.slot[ph.Edges[pi]]; ok && !def[i][s] {
						add(s)
					}
				}
			}
		}
	}
	for i, b := range fi.fn.Blocks {
		// live after phis: live-in plus phi defs used here or live out
		l := map[int]bool{}
		for s := range in[i] {
			l[s] = true
		}
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			l[fi.slot[ph]] = true
		}
		for s := range l {
			fi.live[i] = append(fi.live[i], s)
		}
		sort.Ints(fi.live[i])
	}
	// the Recover block can be reached from anywhere
}

// ---------- state ----------

func (e *Engine) newEpoch() int { e.nextEpoch++; return e.nextEpoch }

func (e *Engine) newState() *State {
	e.nextState++
	return &State{id: e.nextState, epoch: e.newEpoch(), conc: map[*Term]uint64{}, locks: map[string]*LockSt{}}
}

func (st *State) thr() *Thread { return st.threads[st.cur] }
func (st *State) top() *Frame  { t := st.thr(); return t.frames[len(t.frames)-1] }

func (e *Engine) fork(st *State) *State {
	e.nextState++
	e.Forks++
	if e.forkAt != nil {
		e.forkAt[e.where(st)]++
	}
	n := *st
	n.id = e.nextState
	st.epoch = e.newEpoch()
	n.epoch = e.newEpoch()
	n.threads = make([]*Thread, len(st.threads))
	for i, t := range st.threads {
		nt := *t
		if t.pan != nil {
			p := *t.pan
			nt.pan = &p
		}
		nt.frames = make([]*Frame, len(t.frames))
		for j, f := range t.frames {
			nf := *f
			nf.regs = append([]Value{}, f.regs...)
			nf.defers = append([]deferred{}, f.defers...)
			if f.loopCnt != nil {
				nf.loopCnt = make(map[*ssa.BasicBlock]int, len(f.loopCnt))
				for k, v := range f.loopCnt {
					nf.loopCnt[k] = v
				}
			}
			nt.frames[j] = &nf
		}
		n.threads[i] = &nt
	}
	n.conc = make(map[*Term]uint64, len(st.conc))
	for k, v := range st.conc {
		n.conc[k] = v
	}
	n.locks = make(map[string]*LockSt, len(st.locks))
	for k, v := range st.locks {
		l := *v
		l.waiters = append([]int{}, v.waiters...)
		n.locks[k] = &l
	}
	if st.ghost != nil {
		n.ghost = make(map[string]Value, len(st.ghost))
		for k, v := range st.ghost {
			n.ghost[k] = v
		}
	}
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	n.evs = st.evs[:len(st.evs):len(st.evs)]
	if st.hb != nil {
		n.hb = st.hb.clone()
	}
	return &n
}

func (e *Engine) alloc(st *State, typ types.Type, v Value, site string) int {
	id := e.nextObj
	e.nextObj++
	if id >= 1<<20 {
		e.unsup("object limit")
	}
	st.heap.set(id, &Obj{typ: typ, val: unown(v), owner: st.epoch, site: site}, st.epoch)
	return id
}

func (e *Engine) obj(st *State, id int) *Obj {
	if o := st.heap.get(id); o != nil {
		return o
	}
	if o := e.base.get(id); o != nil {
		return o
	}
	panic(unsupported{fmt.Sprintf("no object %d", id)})
}

func (e *Engine) setObj(st *State, id int, v Value) {
	if e.obj(st, id).site == roSite {
		e.unsup("write through a read-only view")
	}
	o := st.heap.get(id)
	if o != nil && o.owner == st.epoch {
		o.val = v
		return
	}
	if o == nil {
		o = e.obj(st, id)
	}
	st.heap.set(id, &Obj{typ: o.typ, val: v, owner: st.epoch, site: o.site}, st.epoch)
}

// facts: is g decided by the path condition?
func (st *State) known(c *Ctx, g *Term) (bool, bool) {
	if g.IsConst() {
		return g.val == 1, true
	}
	ng := c.Not(g)
	for p := st.pc; p != nil; p = p.parent {
		if p.t == g {
			return true, true
		}
		if p.t == ng {
			return false, true
		}
		if p.t.op == OAnd {
			for _, a := range p.t.args {
				if a == g {
					return true, true
				}
				if a == ng {
					return false, true
				}
			}
		}
	}
	return false, false
}

// branch decides a condition inside an instruction, forking if needed.
func (e *Engine) branch(st *State, g *Term) bool {
	if v, ok := st.known(e.c, g); ok {
		return v
	}
	panic(forkOn{g})
}

func (e *Engine) resolve(st *State, v Value) Value {
	for {
		u, ok := v.(*Union)
		if !ok {
			return v
		}
		hit := false
		for _, a := range u.alts {
			if k, known := st.known(e.c, a.g); known && k {
				v = a.v
				hit = true
				break
			}
		}
		if !hit {
			panic(splitOn{u})
		}
	}
}

// concretize returns a concrete value for t, forking over feasible values.
func (e *Engine) concretize(st *State, t *Term) uint64 {
	if t.IsConst() {
		return t.val
	}
	if v, ok := st.conc[t]; ok {
		return v
	}
	panic(concOn{t})
}

// ---------- memory ----------

func (e *Engine) constIdx(st *State, pe PE) PE {
	if pe.sym != nil {
		if pe.sym.IsConst() {
			return PE{idx: int(int64(pe.sym.val))}
		}
		if v, ok := st.conc[pe.sym]; ok {
			return PE{idx: int(int64(v))}
		}
	}
	return pe
}

func (e *Engine) load(st *State, p Ptr) Value {
	if p.obj == 0 {
		e.nilDeref()
	}
	if st.hb != nil {
		e.access(st, p.obj, p.path, false)
	}
	v := e.obj(st, p.obj).val
	for _, pe := range p.path {
		pe = e.constIdx(st, pe)
		v = e.resolve(st, v)
		a, ok := v.(*Agg)
		if !ok {
			if _, isP := v.(Poison); isP {
				return v
			}
			e.unsup("load path through %T", v)
		}
		if pe.sym == nil {
			if pe.idx < 0 || pe.idx >= len(a.elems) {
				e.unsup("load index %d out of %d", pe.idx, len(a.elems))
			}
			v = a.elems[pe.idx]
		} else {
			v = e.muxRead(st, a.elems, pe.sym)
		}
	}
	return unown(v)
}

// muxRead reads elems[idx] for a symbolic idx known to be in range.
func (e *Engine) muxRead(st *State, elems []Value, idx *Term) Value {
	lo, hi := e.c.Range(idx)
	if hi >= uint64(len(elems)) {
		hi = uint64(len(elems)) - 1
	}
	if lo > hi {
		lo = hi
	}
	if _, ok := elems[lo].(*Term); ok {
		// bit-tree mux
		nb := 0
		for hi>>uint(nb) != 0 {
			nb++
		}
		var rec func(base uint64, bit int) *Term
		rec = func(base uint64, bit int) *Term {
			if bit < 0 {
				return elems[base].(*Term)
			}
			l := base
			h := base | 1<<uint(bit)
			if h > hi {
				return rec(l, bit-1)
			}
			if l|(1<<uint(bit)-1) < lo {
				return rec(h, bit-1)
			}
			a, b := rec(h, bit-1), rec(l, bit-1)
			return e.c.Ite(e.c.Eq(e.c.Extract(idx, bit, bit), e.c.BV(1, 1)), a, b)
		}
		for i := lo; i <= hi; i++ {
			if _, ok := elems[i].(*Term); !ok {
				e.unsup("mux over mixed values")
			}
		}
		return rec(0, nb-1)
	}
	v := elems[hi]
	for i := int(hi) - 1; i >= int(lo); i-- {
		m, ok := e.mergeVal(e.c.Eq(idx, e.i64(int64(i))), elems[i], v, 2)
		if !ok {
			// concretize the index
			k := e.concretize(st, idx)
			return elems[k]
		}
		v = m
	}
	return v
}

func (e *Engine) store(st *State, p Ptr, v Value) {
	if p.obj == 0 {
		e.nilDeref()
	}
	if st.hb != nil {
		e.access(st, p.obj, p.path, true)
	}
	unown(v)
	if len(p.path) == 0 {
		e.setObj(st, p.obj, v)
		return
	}
	o := e.obj(st, p.obj)
	owned := o.owner == st.epoch && st.heap.get(p.obj) == o
	nv := e.storeRec(st, o.val, p.path, v, owned)
	if nv != o.val || !owned {
		e.setObj(st, p.obj, nv)
	}
}

func (e *Engine) storeRec(st *State, cur Value, path []PE, v Value, owned bool) Value {
	if len(path) == 0 {
		return v
	}
	cur = e.resolve(st, cur)
	a, ok := cur.(*Agg)
	if !ok {
		e.unsup("store path through %T", cur)
	}
	pe := e.constIdx(st, path[0])
	if pe.sym != nil && len(path) > 1 {
		pe = PE{idx: int(e.concretize(st, pe.sym))}
	}
	if pe.sym == nil && (pe.idx < 0 || pe.idx >= len(a.elems)) {
		e.unsup("store index %d out of %d", pe.idx, len(a.elems))
	}
	var merged []Value
	if pe.sym != nil {
		lo, hi := e.c.Range(pe.sym)
		merged = make([]Value, len(a.elems))
		copy(merged, a.elems)
		for i := range a.elems {
			if uint64(i) < lo || uint64(i) > hi {
				continue
			}
			m, ok := e.mergeVal(e.c.Eq(pe.sym, e.i64(int64(i))), v, a.elems[i], 2)
			if !ok {
				pe = PE{idx: int(e.concretize(st, pe.sym))}
				merged = nil
				break
			}
			merged[i] = m
		}
	}
	if !(owned && a.owner == st.epoch) {
		a = cloneAgg(a, st.epoch)
	}
	if merged != nil {
		copy(a.elems, merged)
		return a
	}
	ce := a.elems[pe.idx]
	ownedChild := false
	if ca, ok := ce.(*Agg); ok && ca.owner == st.epoch {
		ownedChild = true
	}
	a.elems[pe.idx] = e.storeRec(st, ce, path[1:], v, ownedChild)
	return a
}

func (e *Engine) nilDeref() {
	panic(goPanic{msg: "nil pointer dereference", runtime: true})
}

func (e *Engine) rtPanic(f string, a ...interface{}) {
	panic(goPanic{msg: fmt.Sprintf(f, a...), runtime: true})
}

// elems of an array object at a slice's path
func (e *Engine) sliceArr(st *State, s SliceV) *Agg {
	if s.obj == 0 {
		return &Agg{}
	}
	v := e.load(st, Ptr{s.obj, s.path})
	a, ok := v.(*Agg)
	if !ok {
		e.unsup("slice of %T", v)
	}
	return a
}

// readSlice returns n elements of s starting at s.off (n concrete).
func (e *Engine) readSlice(st *State, s SliceV, n int) []Value {
	if n == 0 {
		return nil
	}
	a := e.sliceArr(st, s)
	off := s.off
	if v, ok := st.conc[off]; ok {
		off = e.i64(int64(v))
	}
	if off.IsConst() {
		o := int(off.val)
		if o < 0 || o+n > len(a.elems) {
			e.unsup("readSlice out of range %d+%d>%d", o, n, len(a.elems))
		}
		return a.elems[o : o+n]
	}
	// barrel shift
	cur := a.elems
	lo, hi := e.c.Range(off)
	if hi > uint64(len(cur)) {
		hi = uint64(len(cur))
	}
	_ = lo
	allT := true
	for _, x := range cur {
		if _, ok := x.(*Term); !ok {
			allT = false
		}
	}
	if !allT {
		o := int(e.concretize(st, off))
		if o < 0 || o+n > len(a.elems) {
			e.unsup("readSlice out of range")
		}
		return a.elems[o : o+n]
	}
	for bit := 63; bit >= 0; bit-- {
		if hi>>uint(bit) == 0 {
			continue
		}
		sh := 1 << uint(bit)
		g := e.c.Eq(e.c.Extract(off, bit, bit), e.c.BV(1, 1))
		// need n + (sum of lower bits) elements
		need := n + sh - 1
		nx := make([]Value, 0, need)
		for i := 0; i < need; i++ {
			var x, y *Term
			if i < len(cur) {
				x = cur[i].(*Term)
			}
			if i+sh < len(cur) {
				y = cur[i+sh].(*Term)
			}
			if x == nil && y == nil {
				break
			}
			if x == nil {
				x = y
			}
			if y == nil {
				y = x
			}
			nx = append(nx, e.c.Ite(g, y, x))
		}
		cur = nx
	}
	for len(cur) < n {
		cur = append(cur, e.c.BV(cur[0].(*Term).w, 0))
	}
	return cur[:n]
}

// bytesOf returns the bytes of a slice with concretized length.
func (e *Engine) bytesOf(st *State, v Value) []*Term {
	v = e.resolve(st, v)
	switch s := v.(type) {
	case SliceV:
		n := int(int64(e.concretize(st, s.len)))
		vs := e.readSlice(st, s, n)
		out := make([]*Term, n)
		for i := range vs {
			t, ok := vs[i].(*Term)
			if !ok {
				e.unsup("byte slice holds %T", vs[i])
			}
			out[i] = t
		}
		return out
	case StrV:
		return e.strBytes(st, s)
	}
	e.unsup("bytesOf %T", v)
	return nil
}

func (e *Engine) strBytes(st *State, s StrV) []*Term {
	if s.opaque != "" {
		e.unsup("content of formatted string %q", s.opaque)
	}
	if s.n.IsConst() {
		return s.b
	}
	n := int(e.concretize(st, s.n))
	return s.b[:n]
}

// newSlice allocates a slice holding vals.
func (e *Engine) newSlice(st *State, elem types.Type, vals []Value) SliceV {
	a := &Agg{elems: vals}
	id := e.alloc(st, types.NewArray(elem, int64(len(vals))), a, "")
	n := e.i64(int64(len(vals)))
	return SliceV{id, nil, e.i64(0), n, n}
}

func (e *Engine) newBytes(st *State, b []*Term) SliceV {
	vals := make([]Value, len(b))
	for i := range b {
		vals[i] = b[i]
	}
	return e.newSlice(st, types.Typ[types.Uint8], vals)
}

func (e *Engine) writeSlice(st *State, s SliceV, at int, vals []Value) {
	if len(vals) == 0 {
		return
	}
	off := s.off
	if v, ok := st.conc[off]; ok {
		off = e.i64(int64(v))
	}
	o := int(e.concretize(st, off))
	p := Ptr{s.obj, s.path}
	for i, v := range vals {
		e.store(st, p.extend(PE{idx: o + at + i}), v)
	}
}

func (e *Engine) mkStr(b []*Term) StrV {
	return StrV{b: b, n: e.i64(int64(len(b)))}
}

// ---------- merging ----------

// mergeVal merges a (when g) and b. level 0: only identical; 1: scalars with
// the index heuristics; 2: anything expressible.
func (e *Engine) mergeVal(g *Term, a, b Value, level int) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if level == 1 && x.w == 64 && x.IsConst() && y.IsConst() {
			return nil, false
		}
		return e.c.Ite(g, x, y), true
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.elems) != len(y.elems) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		n := &Agg{elems: make([]Value, len(x.elems))}
		for i := range x.elems {
			if valIdent(x.elems[i], y.elems[i]) {
				n.elems[i] = unown(x.elems[i])
				continue
			}
			v, ok := e.mergeVal(g, x.elems[i], y.elems[i], level)
			if !ok {
				return nil, false
			}
			n.elems[i] = v
		}
		return n, true
	case BigV:
		y, ok := b.(BigV)
		if !ok {
			return nil, false
		}
		w := max(x.t.w, y.t.w)
		return e.trimBig(e.c.Ite(g, e.c.SExt(x.t, w), e.c.SExt(y.t, w))), true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		n := make(Tuple, len(x))
		for i := range x {
			if valIdent(x[i], y[i]) {
				n[i] = x[i]
				continue
			}
			v, ok := e.mergeVal(g, x[i], y[i], level)
			if !ok {
				return nil, false
			}
			n[i] = v
		}
		return n, true
	case SliceV:
		y, ok := b.(SliceV)
		if ok && x.obj == y.obj && pathEq(x.path, y.path) && (level == 2 || (x.off == y.off && x.cap == y.cap && (x.len == y.len || !(x.len.IsConst() && y.len.IsConst())))) {
			return SliceV{x.obj, x.path, e.c.Ite(g, x.off, y.off), e.c.Ite(g, x.len, y.len), e.c.Ite(g, x.cap, y.cap)}, true
		}
	case StrV:
		y, ok := b.(StrV)
		if ok && x.opaque == "" && y.opaque == "" && x.n == y.n {
			o := make([]*Term, len(x.b))
			for i := range o {
				o[i] = e.c.Ite(g, x.b[i], y.b[i])
			}
			return StrV{b: o, n: x.n}, true
		}
	case IfaceV:
		y, ok := b.(IfaceV)
		if ok && x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			v, ok := e.mergeVal(g, x.val, y.val, level)
			if ok {
				return IfaceV{x.typ, v}, true
			}
		}
	case Poison:
		return x, true
	}
	if valIdent(a, b) {
		return a, true
	}
	if _, ok := b.(Poison); ok {
		return b, true
	}
	if level == 2 {
		if a == nil || b == nil {
			return nil, false
		}
		var alts []UAlt
		add := func(g *Term, v Value) {
			if u, ok := v.(*Union); ok {
				for _, a := range u.alts {
					alts = append(alts, UAlt{e.c.And(g, a.g), a.v})
				}
			} else {
				alts = append(alts, UAlt{g, v})
			}
		}
		add(g, a)
		add(e.c.Not(g), b)
		return &Union{alts}, true
	}
	return nil, false
}

func pathEq(a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func valIdent(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Agg:
		y, ok := b.(*Agg)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if len(x.elems) != len(y.elems) {
			return false
		}
		for i := range x.elems {
			if !valIdent(x.elems[i], y.elems[i]) {
				return false
			}
		}
		return true
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.obj == y.obj && pathEq(x.path, y.path)
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.obj == y.obj && pathEq(x.path, y.path) && x.off == y.off && x.len == y.len && x.cap == y.cap
	case StrV:
		y, ok := b.(StrV)
		if !ok || x.opaque != y.opaque || x.n != y.n || len(x.b) != len(y.b) {
			return false
		}
		if x.opaque != "" {
			return true
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return false
		}
		if x.typ == nil || y.typ == nil {
			return x.typ == nil && y.typ == nil
		}
		return types.Identical(x.typ, y.typ) && valIdent(x.val, y.val)
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.fn != y.fn || x.builtin != y.builtin || x.prim != y.prim || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !valIdent(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case MapV:
		y, ok := b.(MapV)
		return ok && x == y
	case ChanV:
		y, ok := b.(ChanV)
		return ok && x == y
	case BigV:
		y, ok := b.(BigV)
		return ok && x == y
	case FloatV:
		y, ok := b.(FloatV)
		return ok && x == y
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valIdent(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Union:
		y, ok := b.(*Union)
		return ok && x == y
	case *MapObj:
		y, ok := b.(*MapObj)
		if !ok || len(x.ents) != len(y.ents) {
			return false
		}
		for i := range x.ents {
			if x.ents[i].g != y.ents[i].g || !valIdent(x.ents[i].k, y.ents[i].k) || !valIdent(x.ents[i].v, y.ents[i].v) {
				return false
			}
		}
		return true
	case *ChanObj:
		y, ok := b.(*ChanObj)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		return false
	case *IterObj:
		y, ok := b.(*IterObj)
		return ok && (x == y || (x.pos == y.pos && x.mobj == y.mobj))
	case UPtr:
		y, ok := b.(UPtr)
		return ok && x.obj == y.obj && x.off == y.off && x.str == y.str && valIdent(x.p, y.p)
	case IterV:
		y, ok := b.(IterV)
		return ok && x == y
	case nil:
		return b == nil
	}
	return false
}

func pcSuffix(p, base *PC) []*Term {
	n := 0
	if base != nil {
		n = base.n
	}
	var out []*Term
	for q := p; q != nil && q.n > n; q = q.parent {
		if !q.imp {
			out = append(out, q.t)
		}
	}
	return out
}

// mergeStates merges b into a (both parked at the same point). Returns nil if
// impossible.
func (e *Engine) mergeStates(a, b *State, rec *JoinRec) *State {
	if len(a.threads) != len(b.threads) || a.cur != b.cur || len(a.threads) != 1 {
		return nil
	}
	if e.splitK > 1 && (a.chooseN != b.chooseN || a.chooseN < e.splitDepth && a.chooseH != b.chooseH) {
		return nil
	}
	ta, tb := a.thr(), b.thr()
	if len(ta.frames) != len(tb.frames) || ta.pan != nil || tb.pan != nil {
		return nil
	}
	if len(a.locks) != len(b.locks) || len(a.ghost) != len(b.ghost) {
		return nil
	}
	for k, v := range a.locks {
		w := b.locks[k]
		if w == nil || v.w != w.w || v.readers != w.readers || v.cnt != w.cnt || v.once != w.once {
			return nil
		}
	}
	for k, v := range a.ghost {
		w, ok := b.ghost[k]
		if !ok || !valIdent(v, w) {
			return nil
		}
	}
	if len(a.evs) != len(b.evs) {
		return nil
	}
	for i := range a.evs {
		if a.evs[i] != b.evs[i] {
			return nil
		}
	}
	if len(a.obs) != len(b.obs) {
		return nil
	}
	for i := range a.obs {
		if len(a.obs[i].ts) != len(b.obs[i].ts) {
			return nil
		}
		for j := range a.obs[i].ts {
			if a.obs[i].ts[j] != b.obs[i].ts[j] {
				return nil
			}
		}
	}
	// nondets must extend the same list compatibly
	if a.nondet != b.nondet {
		return nil
	}
	level := 1
	fa, fb := ta.frames[len(ta.frames)-1], tb.frames[len(tb.frames)-1]
	if fa.id != fb.id || fa.block != fb.block || fa.pc != fb.pc || len(fa.defers) != len(fb.defers) {
		return nil
	}
	for i := range fa.defers {
		if fa.defers[i].call != fb.defers[i].call || len(fa.defers[i].args) != len(fb.defers[i].args) {
			return nil
		}
		for j := range fa.defers[i].args {
			if !valIdent(fa.defers[i].args[j], fb.defers[i].args[j]) {
				return nil
			}
		}
		if !valIdent(fa.defers[i].fv, fb.defers[i].fv) {
			return nil
		}
	}
	sa, sb := pcSuffix(a.pc, rec.pc), pcSuffix(b.pc, rec.pc)
	ga, gb := e.c.And(sa...), e.c.And(sb...)
	// registers
	type upd struct {
		f    *Frame
		slot int
		v    Value
	}
	var upds []upd
	for k := range ta.frames {
		x, y := ta.frames[k], tb.frames[k]
		if x.id != y.id {
			return nil
		}
		var slots []int
		if k == len(ta.frames)-1 {
			if rec.block != nil {
				slots = x.fi.live[x.block.Index]
			} else {
				slots = e.liveAt(x)
			}
		} else {
			slots = e.liveAt(x)
		}
		for _, s := range slots {
			va, vb := x.regs[s], y.regs[s]
			if valIdent(va, vb) {
				continue
			}
			if va == nil || vb == nil {
				return nil
			}
			v, ok := e.mergeVal(ga, va, vb, level)
			if !ok {
				return nil
			}
			upds = append(upds, upd{x, s, v})
		}
	}
	type hupd struct {
		id  int
		o   *Obj
		add bool
	}
	var hu []hupd
	fail := false
	heapDiff(a.heap.root, b.heap.root, hdepth-1, 0, func(id int, x, y *Obj) {
		if fail {
			return
		}
		if x == nil {
			if e.base.get(id) != nil {
				x = e.base.get(id)
			} else {
				hu = append(hu, hupd{id, y, true})
				return
			}
		}
		if y == nil {
			if e.base.get(id) != nil {
				y = e.base.get(id)
			} else {
				return
			}
		}
		if valIdent(x.val, y.val) {
			return
		}
		v, ok := e.mergeVal(ga, x.val, y.val, level)
		if !ok {
			fail = true
			return
		}
		hu = append(hu, hupd{id, &Obj{typ: x.typ, val: v, site: x.site}, false})
	})
	if fail {
		return nil
	}
	for _, u := range upds {
		u.f.regs[u.slot] = unown(u.v)
	}
	for _, h := range hu {
		o := *h.o
		o.owner = 0
		unown(o.val)
		a.heap.set(h.id, &o, a.epoch)
	}
	// path condition
	pc := rec.pc
	common := map[*Term]bool{}
	inA := map[*Term]bool{}
	for _, t := range sa {
		inA[t] = true
	}
	for _, t := range sb {
		if inA[t] {
			common[t] = true
		}
	}
	var ra, rb []*Term
	for i := len(sa) - 1; i >= 0; i-- {
		if common[sa[i]] {
			pc = pc.Push(sa[i])
		} else {
			ra = append(ra, sa[i])
		}
	}
	for i := len(sb) - 1; i >= 0; i-- {
		if !common[sb[i]] {
			rb = append(rb, sb[i])
		}
	}
	or := e.c.Or(e.c.And(ra...), e.c.And(rb...))
	_ = gb
	if !or.isTrue() {
		pc = pc.Push(or)
	}
	a.pc = pc
	for k, v := range a.conc {
		if w, ok := b.conc[k]; !ok || w != v {
			delete(a.conc, k)
		}
	}
	a.maybe = a.maybe || b.maybe
	if b.steps > a.steps {
		a.steps = b.steps
	}
	// loop counters: keep the larger
	for k := range ta.frames {
		x, y := ta.frames[k], tb.frames[k]
		for blk, n := range y.loopCnt {
			if x.loopCnt == nil {
				x.loopCnt = map[*ssa.BasicBlock]int{}
			}
			if x.loopCnt[blk] < n {
				x.loopCnt[blk] = n
			}
		}
	}
	e.Merges++
	return a
}

// liveAt: conservative live slots of a frame at its current pc: live-in of the
// block's rest. We approximate by everything defined (non-nil) that is used
// at or after pc in this block or live into successors.
func (e *Engine) liveAt(f *Frame) []int {
	need := map[int]bool{}
	b := f.block
	for i := f.pc; i < len(b.Instrs); i++ {
		for _, op := range b.Instrs[i].Operands(nil) {
			if *op == nil {
				continue
			}
			if s, ok := f.fi.slot[*op]; ok {
				need[s] = true
			}
		}
	}
	for _, sc := range b.Succs {
		// live-in of sc includes phi results; those are harmless extras
		for _, s := range f.fi.live[sc.Index] {
			need[s] = true
		}
		for _, ins := range sc.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for _, ed := range ph.Edges {
				if s, ok := f.fi.slot[ed]; ok {
					need[s] = true
				}
			}
		}
	}
	var out []int
	for s := range need {
		out = append(out, s)
	}
	sort.Ints(out)
	return out
}

// ---------- operands ----------

func (e *Engine) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return e.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, signed, ok := basicWidth(u); ok {
			if w == 0 {
				return e.c.Bool(constant.BoolVal(k.Value))
			}
			v := constant.ToInt(k.Value)
			if bi, ok := constant.Val(v).(*big.Int); ok {
				return e.c.BVBig(w, new(big.Int).And(bi, maskB(w)))
			}
			if i, ok := constant.Int64Val(v); ok {
				return e.c.BVInt(w, i)
			}
			_ = signed
			uv, _ := constant.Uint64Val(v)
			return e.c.BV(w, uv)
		}
		if u.Info()&types.IsString != 0 {
			if k.Value.Kind() == constant.String {
				return e.str(constant.StringVal(k.Value))
			}
			i, _ := constant.Int64Val(k.Value)
			return e.str(string(rune(i)))
		}
		if u.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(k.Value)
			return FloatV{f}
		}
	case *types.Interface: // type param etc
	}
	return Poison{"const " + k.String()}
}

func (e *Engine) get(st *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return e.globalPtr(st, x)
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return FuncV{builtin: x}
	}
	s, ok := f.fi.slot[v]
	if !ok {
		e.unsup("no slot for %s in %s", v.Name(), f.fi.fn)
	}
	r := f.regs[s]
	if u, ok := r.(*Union); ok {
		return e.resolve(st, u)
	}
	if p, ok := r.(Poison); ok && !st.init {
		e.unsup("poison: %s", p.why)
	}
	return r
}

func (e *Engine) getT(st *State, f *Frame, v ssa.Value) *Term {
	r := e.get(st, f, v)
	t, ok := r.(*Term)
	if !ok {
		e.unsup("expected scalar, got %T for %s (%s)", r, v.Name(), v.Type())
	}
	return t
}

func (e *Engine) set(f *Frame, v ssa.Value, x Value) {
	f.regs[f.fi.slot[v]] = x
}

func (e *Engine) globalPtr(st *State, g *ssa.Global) Ptr {
	id, ok := e.globals[g]
	if !ok {
		e.initPkg(g.Pkg)
		id, ok = e.globals[g]
		if !ok {
			e.unsup("global %s", g)
		}
	}
	return Ptr{obj: id}
}

func (e *Engine) initPkg(p *ssa.Package) {
	if e.inited[p] {
		return
	}
	e.inited[p] = true
	p.Build()
	initFn := p.Func("init")
	poison := map[*ssa.Global]bool{}
	for _, b := range initFn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok {
					poison[g] = true
				}
			}
		}
	}
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			id := e.nextObj
			e.nextObj++
			e.globals[g] = id
			el := g.Type().(*types.Pointer).Elem()
			var v Value
			if poison[g] && g.Name() != "init$guard" {
				v = Poison{"global " + g.String() + " not initialised"}
			} else {
				v = e.zero(el)
			}
			e.base.set(id, &Obj{typ: el, val: v, site: g.String()}, -1)
		}
	}
	if e.skipInit(p) {
		return
	}
	st := e.newState()
	st.init = true
	fi := e.info(initFn)
	fr := &Frame{fi: fi, regs: make([]Value, fi.n), block: initFn.Blocks[0], id: -1}
	st.threads = []*Thread{{id: 0, frames: []*Frame{fr}}}
	saveWork, saveSteps := e.work, e.Steps
	e.work = nil
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(initAbort); ok {
					return
				}
				panic(r)
			}
		}()
		lim := 0
		for !st.thr().done {
			lim++
			if lim > 60000000 {
				e.initFail[p.Pkg.Path()] = "step limit"
				break
			}
			e.stepInit(st, p)
		}
	}()
	e.work, e.Steps = saveWork, saveSteps
	heapDiff(nil, st.heap.root, hdepth-1, 0, func(id int, x, y *Obj) {
		o := *y
		o.owner = -1
		e.base.set(id, &o, -1)
	})
	// everything in base is shared: drop ownership marks by bumping epochs
	st.epoch = -2
}

type initAbort struct{}

func (e *Engine) skipInit(p *ssa.Package) bool {
	switch p.Pkg.Path() {
	case "runtime", "internal/cpu", "syscall", "os", "reflect", "internal/godebug", "net", "crypto/tls", "crypto/x509", "internal/poll", "runtime/debug", "time", "net/http":
		return p.Pkg.Path() == "runtime" || p.Pkg.Path() == "internal/cpu" || p.Pkg.Path() == "syscall"
	}
	return false
}

// stepInit executes one instruction of a package initialiser; what cannot be
// executed yields Poison.
func (e *Engine) stepInit(st *State, p *ssa.Package) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		why := ""
		switch x := r.(type) {
		case unsupported:
			why = x.why
		case goPanic:
			why = "panic " + x.msg
		case forkOn, splitOn, concOn, parkOp, killPath:
			why = "symbolic in init"
		case initAbort:
			panic(r)
		default:
			if os.Getenv("GOSYM_DEBUGINIT") != "" {
				panic(r)
			}
			why = fmt.Sprint(r)
		}
		e.initFail[p.Pkg.Path()] = why
		// unwind to the outermost init frame and poison the call's result
		t := st.thr()
		for len(t.frames) > 1 {
			t.frames = t.frames[:len(t.frames)-1]
		}
		f := t.frames[0]
		if f.pc >= len(f.block.Instrs) {
			panic(initAbort{})
		}
		in := f.block.Instrs[f.pc]
		switch in.(type) {
		case *ssa.If, *ssa.Jump, *ssa.Return:
			panic(initAbort{})
		}
		if v, ok := in.(ssa.Value); ok {
			e.set(f, v, Poison{"init of " + p.Pkg.Path() + ": " + why})
		}
		f.pc++
	}()
	e.step(st)
}
