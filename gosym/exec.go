package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------- main loop ----------

func (e *Engine) RunHarness(fn *ssa.Function) {
	st := e.newState()
	fi := e.info(fn)
	e.nextFrame++
	fr := &Frame{fi: fi, regs: make([]Value, fi.n), block: fn.Blocks[0], id: e.nextFrame}
	st.threads = []*Thread{{id: 0, frames: []*Frame{fr}, name: "main"}}
	st.hint = Model{}
	if e.sched {
		st.hb = newHB()
	}
	e.work = []*State{st}
	for len(e.work) > 0 {
		if !e.deadline.IsZero() && time.Now().After(e.deadline) {
			e.inconcl("time budget exhausted with %d states pending", len(e.work))
			return
		}
		if e.Paths > e.maxPaths {
			e.inconcl("path budget exhausted")
			return
		}
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.runState(s)
	}
}

func (e *Engine) inconcl(f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	e.Inconcl[m]++
	if e.verbose && e.Inconcl[m] == 1 {
		fmt.Fprintln(os.Stderr, "  inconclusive:", m)
	}
}

// finish removes a state from its join region.
func (e *Engine) finish(st *State) { e.leave(st.rec) }

func (e *Engine) leave(rec *JoinRec) {
	if rec == nil {
		return
	}
	rec.out--
	e.maybeJoin(rec)
}

func (e *Engine) maybeJoin(rec *JoinRec) {
	if rec.out > 0 {
		return
	}
	arr := rec.arrived
	rec.arrived = nil
	if len(arr) == 0 {
		e.leave(rec.parent)
		return
	}
	var res []*State
	if rec.noMerge || !e.mergeOn {
		res = arr
	} else {
		for _, s := range arr {
			done := false
			for i, r := range res {
				if m := e.mergeStates(r, s, rec); m != nil {
					res[i] = m
					done = true
					break
				}
			}
			if !done {
				res = append(res, s)
			}
		}
	}
	if rec.parent != nil {
		rec.parent.out += len(res) - 1
	}
	for _, s := range res {
		s.rec = rec.parent
	}
	for i := len(res) - 1; i >= 0; i-- {
		// a state may be already at its parent's join point
		if !e.tryPark(res[i]) {
			e.work = append(e.work, res[i])
		}
	}
}

// tryPark parks st when it stands at its region's join point.
func (e *Engine) tryPark(st *State) bool {
	rec := st.rec
	if rec == nil {
		return false
	}
	if len(st.threads) != 1 || st.thr().pan != nil {
		// give up merging for this state
		st.rec = rec.parent
		if rec.parent != nil {
			rec.parent.out++
		}
		e.leave(rec)
		return e.tryPark(st)
	}
	t := st.thr()
	if t.done {
		return false
	}
	d := len(t.frames)
	f := t.frames[d-1]
	if rec.block != nil {
		if d == rec.depth && f.id == rec.frameID && f.block == rec.block && f.pc == firstNonPhi(f.block) {
			rec.arrived = append(rec.arrived, st)
			rec.out--
			e.maybeJoin(rec)
			return true
		}
		if d < rec.depth || (d == rec.depth && f.id != rec.frameID) {
			// left the frame without passing the join
			st.rec = rec.parent
			if rec.parent != nil {
				rec.parent.out++
			}
			e.leave(rec)
			return e.tryPark(st)
		}
		return false
	}
	if d < rec.depth {
		if d == rec.depth-1 {
			rec.arrived = append(rec.arrived, st)
			rec.out--
			e.maybeJoin(rec)
			return true
		}
		st.rec = rec.parent
		if rec.parent != nil {
			rec.parent.out++
		}
		e.leave(rec)
		return e.tryPark(st)
	}
	return false
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

// runState runs a state until it forks, parks or ends.
func (e *Engine) runState(st *State) {
	for {
		ended, moved := e.stepSafe(st)
		if ended {
			return
		}
		if moved && st.rec != nil {
			if e.tryPark(st) {
				return
			}
		}
		if st.steps&0xffff == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
			e.inconcl("time budget exhausted inside a path")
			e.finish(st)
			return
		}
		if st.steps > e.maxSteps {
			e.inconcl("step bound reached in a path (%s)", st.top().fi.fn)
			e.finish(st)
			return
		}
	}
}

func (e *Engine) stepSafe(st *State) (ended, moved bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case forked:
			ended = true
		case forkOn:
			e.doFork(st, x.cond)
			ended = true
		case splitOn:
			e.doSplit(st, x.u)
			ended = true
		case concOn:
			e.doConc(st, x.t)
			ended = true
		case unsupported:
			if os.Getenv("GOSYM_STACK") != "" {
				fmt.Fprintf(os.Stderr, "unsupported: %s\n%s", x.why, e.stack(st))
			}
			e.inconcl("unsupported: %s [%s]", x.why, e.where(st))
			e.finish(st)
			ended = true
		case killPath:
			e.finish(st)
			ended = true
		case goPanic:
			e.raise(st, x)
			moved = true
			if st.thr().done {
				e.pathEnd(st)
				ended = true
			}
		case parkOp:
			ended = e.schedule(st)
			moved = false
		default:
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "engine panic at %s: %v\n%s\n", e.where(st), r, debug.Stack())
				os.Exit(3)
			}
			e.inconcl("engine error: %v [%s]", r, e.where(st))
			e.finish(st)
			ended = true
		}
	}()
	if debugSlow {
		e.s.tag = e.where(st)
	}
	moved = e.step(st)
	if st.thr().done {
		t := st.thr()
		if t.id == 0 {
			e.pathEnd(st)
			return true, true
		}
		return e.schedule(st), false
	}
	return false, moved
}

func (e *Engine) where(st *State) string {
	if st.thr().done || len(st.thr().frames) == 0 {
		return "end"
	}
	f := st.top()
	p := token.NoPos
	if f.pc < len(f.block.Instrs) {
		for i := f.pc; i >= 0 && p == token.NoPos; i-- {
			p = f.block.Instrs[i].Pos()
		}
	}
	s := e.fset.Position(p)
	return fmt.Sprintf("%s %s:%d", f.fi.fn, shortPath(s.Filename), s.Line)
}

func (e *Engine) stack(st *State) string {
	s := ""
	t := st.thr()
	for i := len(t.frames) - 1; i >= 0; i-- {
		f := t.frames[i]
		p := token.NoPos
		for k := min(f.pc, len(f.block.Instrs)-1); k >= 0 && p == token.NoPos; k-- {
			p = f.block.Instrs[k].Pos()
		}
		ps := e.fset.Position(p)
		s += fmt.Sprintf("%s %s:%d\n", f.fi.fn, shortPath(ps.Filename), ps.Line)
	}
	return s
}

func shortPath(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			return s[i+1:]
		}
	}
	return s
}

func (e *Engine) addPC(st *State, g *Term) {
	if g.isTrue() {
		return
	}
	if g.op == OAnd {
		for _, a := range g.args {
			st.pc = st.pc.Push(a)
		}
		return
	}
	st.pc = st.pc.Push(g)
}

func (e *Engine) feasible(st *State, g *Term) (bool, Model) {
	if g.isFalse() {
		return false, nil
	}
	if st.init {
		return !g.isFalse(), nil
	}
	if e.c.wide && e.hardForBits(g) {
		return e.intFeasible(st, g)
	}
	v, m := e.s.Feasible(st.pc, g, st.hint)
	if v == Unknown {
		st.maybe = true
		e.Notes["feasibility of a branch undecided; explored anyway"] = true
		return true, nil
	}
	return v == Sat, m
}

func (e *Engine) doFork(st *State, cond *Term) {
	if st.init {
		panic(unsupported{"symbolic branch in init"})
	}
	tOK, tm := e.feasible(st, cond)
	fOK, fm := e.feasible(st, e.c.Not(cond))
	if tOK && fOK {
		o := e.fork(st)
		if st.rec != nil {
			st.rec.out++
		}
		e.addPC(st, cond)
		e.addPC(o, e.c.Not(cond))
		st.hint, o.hint = tm, fm
		e.work = append(e.work, o, st)
		return
	}
	if tOK {
		st.pc = st.pc.PushImp(cond)
		st.hint = tm
		e.work = append(e.work, st)
		return
	}
	if fOK {
		st.pc = st.pc.PushImp(e.c.Not(cond))
		st.hint = fm
		e.work = append(e.work, st)
		return
	}
	e.finish(st)
}

func (e *Engine) doSplit(st *State, u *Union) {
	var feas []UAlt
	var ms []Model
	for _, a := range u.alts {
		if ok, m := e.feasible(st, a.g); ok {
			feas = append(feas, a)
			ms = append(ms, m)
		}
	}
	if len(feas) == 0 {
		e.finish(st)
		return
	}
	states := []*State{st}
	for i := 1; i < len(feas); i++ {
		states = append(states, e.fork(st))
		if st.rec != nil {
			st.rec.out++
		}
	}
	for i, s := range states {
		// push the guard itself so that known() finds it
		s.pc = s.pc.Push(feas[i].g)
		s.hint = ms[i]
		e.work = append(e.work, s)
	}
}

func (e *Engine) doConc(st *State, t *Term) {
	// enumerate feasible values
	var vals []uint64
	var ms []Model
	excl := e.c.True
	complete := false
	for len(vals) <= e.concMax {
		ok, m := e.feasible(st, excl)
		if !ok {
			complete = true
			break
		}
		if m == nil {
			e.inconcl("concretisation undecided [%s]", e.where(st))
			break
		}
		v, evok := e.c.Eval(t, m, map[*Term]*bigInt{})
		if !evok {
			// leaves missing: ask a full model
			_, m2 := e.s.checkInc(st.pc, excl, true)
			if m2 == nil {
				e.inconcl("concretisation undecided [%s]", e.where(st))
				break
			}
			m = m2
			v, _ = e.c.Eval(t, m, map[*Term]*bigInt{})
		}
		k := v.Uint64()
		vals = append(vals, k)
		ms = append(ms, m)
		excl = e.c.And(excl, e.c.Ne(t, e.c.BV(t.w, k)))
		if excl.isFalse() {
			complete = true
			break
		}
	}
	if len(vals) > e.concMax {
		e.inconcl("more than %d values of an index or length [%s]", e.concMax, e.where(st))
		vals = vals[:e.concMax]
	}
	if len(vals) == 0 {
		e.finish(st)
		return
	}
	states := []*State{st}
	for i := 1; i < len(vals); i++ {
		states = append(states, e.fork(st))
		if st.rec != nil {
			st.rec.out++
		}
	}
	for i, s := range states {
		if eq := e.c.Eq(t, e.c.BV(t.w, vals[i])); len(states) == 1 && complete {
			s.pc = s.pc.PushImp(eq)
		} else {
			e.addPC(s, eq)
		}
		s.conc[t] = vals[i]
		s.hint = ms[i]
		e.work = append(e.work, s)
	}
}

// ---------- panics ----------

func (e *Engine) raise(st *State, p goPanic) {
	t := st.thr()
	v := p.val
	if v == nil {
		v = e.runtimeErr(st, p.msg)
	}
	t.pan = &panicV{val: v, msg: p.msg, runtime: p.runtime}
	if st.init {
		panic(unsupported{"panic in init: " + p.msg})
	}
	st.trace = append(st.trace, "panic: "+p.msg+" at "+e.where(st))
	t.atOp, t.grant = false, false
	t.needUnwind = true
}

func (e *Engine) runtimeErr(st *State, msg string) Value {
	if e.typeRT == nil {
		return IfaceV{types.Typ[types.String], e.str(msg)}
	}
	pt := e.typeRT.(*types.Pointer)
	id := e.alloc(st, pt.Elem(), &Agg{elems: []Value{e.str(msg)}}, "runtime error")
	return IfaceV{e.typeRT, Ptr{obj: id}}
}

// unwind continues an active panic: run the next deferred call or pop.
func (e *Engine) unwind(st *State) {
	t := st.thr()
	t.needUnwind = false
	if len(t.frames) == 0 {
		t.done = true
		e.uncaught(st)
		return
	}
	f := t.frames[len(t.frames)-1]
	f.unwinding = true
	if len(f.defers) > 0 {
		t.needUnwind = true // until a frame is pushed
		if e.runDefer(st, f) {
			t.needUnwind = false
		}
		return
	}
	if t.pan != nil && t.pan.recovered {
		e.resumeRecovered(st)
		return
	}
	t.frames = t.frames[:len(t.frames)-1]
	t.needUnwind = true
}

// runDefer runs the last deferred call of f; reports whether a frame was
// pushed.
func (e *Engine) runDefer(st *State, f *Frame) bool {
	all := f.defers
	d := all[len(all)-1]
	if e.isVisible(d.fv, d.args) && !e.opGranted(st) {
		panic(parkOp{})
	}
	f.defers = all[:len(all)-1]
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case forkOn, splitOn, concOn, parkOp:
				f.defers = all
			}
			panic(r)
		}
	}()
	if e.sched && e.isVisible(d.fv, d.args) {
		pushed := false
		e.visOp(st, f, func() { pushed = e.callValue(st, d.fv, d.args, nil, true) })
		return pushed
	}
	return e.callValue(st, d.fv, d.args, nil, true)
}

func (e *Engine) resumeRecovered(st *State) {
	t := st.thr()
	f := t.frames[len(t.frames)-1]
	t.pan = nil
	f.unwinding = false
	if f.fi.fn.Recover != nil {
		f.prev = f.block
		f.block = f.fi.fn.Recover
		f.pc = 0
		return
	}
	// no named results: return zero values
	var res Value
	sig := f.fi.fn.Signature.Results()
	switch sig.Len() {
	case 0:
	case 1:
		res = e.zero(sig.At(0).Type())
	default:
		res = e.zero(sig)
	}
	e.popFrame(st, res)
}

func (e *Engine) uncaught(st *State) {
	t := st.thr()
	p := t.pan
	msg := p.msg
	if msg == "" {
		msg = "panic"
	}
	e.report(st, "panic", "uncaught panic: "+msg, e.c.True)
	// the path is over for all threads
	st.cur = 0
	st.threads[0].done = true
	st.threads[0].pan = p
}

// popFrame returns res from the top frame.
func (e *Engine) popFrame(st *State, res Value) {
	t := st.thr()
	f := t.frames[len(t.frames)-1]
	t.frames = t.frames[:len(t.frames)-1]
	if len(t.frames) == 0 {
		t.done = true
		return
	}
	c := t.frames[len(t.frames)-1]
	if f.deferOf {
		if c.unwinding {
			t.needUnwind = true
			return
		}
		return // RunDefers re-executes
	}
	if f.call != nil {
		if v, ok := f.call.(ssa.Value); ok {
			e.set(c, v, res)
		}
		c.pc++
	}
}

// ---------- reporting ----------

func (e *Engine) report(st *State, kind, msg string, cond *Term) {
	key := kind + ":" + msg
	if kind == "panic" {
		key += e.panicSite(st)
	}
	if e.vioSites[key] {
		return
	}
	v, m := e.s.Decide(st.pc, cond)
	if v == Unsat {
		return
	}
	if v == Unknown {
		e.inconcl("undecided: %s %s", kind, msg)
		return
	}
	roots := append(st.pc.List(), cond)
	m = e.refine(roots, m)
	if m == nil {
		e.inconcl("counterexample could not be made consistent with the real hash functions: %s", msg)
		return
	}
	e.vioSites[key] = true
	vio := &Violation{Harness: e.harness, Kind: kind, Msg: msg, Model: m, Trace: append([]string{}, st.trace...), maybe: st.maybe}
	vio.Values = e.ndValues(st, m)
	vio.Sched = st.evs
	if !st.thr().done && len(st.thr().frames) > 0 {
		vio.Pos = e.where(st)
		vio.stack = e.stack(st)
	}
	e.Violations = append(e.Violations, vio)
	if e.verbose {
		fmt.Fprintf(os.Stderr, "  candidate %s: %s at %s\n", kind, msg, vio.Pos)
	}
}

func (e *Engine) panicSite(st *State) string {
	for i := len(st.trace) - 1; i >= 0; i-- {
		if len(st.trace[i]) > 6 && st.trace[i][:6] == "panic:" {
			return st.trace[i]
		}
	}
	return ""
}

func (e *Engine) ndValues(st *State, m Model) []NDVal {
	n := 0
	if st.nondet != nil {
		n = st.nondet.n
	}
	out := make([]NDVal, n)
	memo := map[*Term]*bigInt{}
	for q := st.nondet; q != nil; q = q.prev {
		v, _ := e.c.Eval(q.t, m, memo)
		out[q.n-1] = NDVal{q.name, q.kind, v.String()}
	}
	return out
}

func (e *Engine) pathEnd(st *State) {
	e.Paths++
	if st.thr().pan == nil && st.hint != nil && len(e.Completed) < 4000 {
		e.Completed = append(e.Completed, st)
	}
	e.finish(st)
}

func (e *Engine) assertCond(st *State, cond *Term, msg string) {
	as := e.Asserts[msg]
	if as == nil {
		as = &AssertStat{}
		e.Asserts[msg] = as
	}
	as.Checked++
	if cond.isTrue() {
		as.Trivial++
		return
	}
	nc := e.c.Not(cond)
	if v, ok := st.known(e.c, nc); ok && !v {
		as.Trivial++
		return
	}
	v, m := e.s.Decide(st.pc, nc)
	switch v {
	case Unknown:
		if ok := e.polyDecide(st, nc); ok {
			e.addPC(st, cond)
			return
		}
		as.Unknown++
		e.inconcl("undecided assertion: %s", msg)
		e.addPC(st, cond)
		return
	case Unsat:
		// implied by the path condition; kept only when it is cheap
		if e.s.fast.single(cond) != manyVar {
			e.addPC(st, cond)
		}
		return
	}
	as.Failed++
	if !e.vioSites["assert:"+msg] {
		roots := append(st.pc.List(), nc)
		m = e.refine(roots, m)
		if m == nil {
			e.inconcl("counterexample could not be made consistent with the real hash functions: %s", msg)
		} else {
			e.vioSites["assert:"+msg] = true
			vio := &Violation{Harness: e.harness, Kind: "assert", Msg: msg, Model: m, Pos: e.where(st), stack: e.stack(st), Trace: append([]string{}, st.trace...), maybe: st.maybe}
			vio.Values = e.ndValues(st, m)
			vio.Sched = st.evs
			vio.Sched = st.evs
			e.Violations = append(e.Violations, vio)
			if e.verbose {
				fmt.Fprintf(os.Stderr, "  candidate assert: %s at %s\n", msg, vio.Pos)
			}
		}
	}
	// continue on the side where it holds
	ok, hm := e.feasible(st, cond)
	if !ok {
		panic(killPath{})
	}
	e.addPC(st, cond)
	st.hint = hm
}

func (e *Engine) assume(st *State, cond *Term) {
	if cond.isTrue() {
		return
	}
	ok, m := e.feasible(st, cond)
	if !ok {
		panic(killPath{})
	}
	e.addPC(st, cond)
	st.hint = m
}

// ---------- stepping ----------

// jump moves f to block b evaluating phis.
func (e *Engine) jump(st *State, f *Frame, b *ssa.BasicBlock) {
	pred := f.block
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
			break
		}
	}
	n := firstNonPhi(b)
	if n > 0 {
		vals := make([]Value, n)
		for i := 0; i < n; i++ {
			ph := b.Instrs[i].(*ssa.Phi)
			ed := ph.Edges[pi]
			// phis may carry unions / poison through
			if s, ok := f.fi.slot[ed]; ok {
				vals[i] = f.regs[s]
			} else {
				vals[i] = e.get(st, f, ed)
			}
		}
		for i := 0; i < n; i++ {
			e.set(f, b.Instrs[i].(*ssa.Phi), vals[i])
		}
	}
	if b.Index <= pred.Index && !st.init {
		if f.loopCnt == nil {
			f.loopCnt = map[*ssa.BasicBlock]int{}
		}
		f.loopCnt[b]++
		if f.loopCnt[b] > e.maxLoop {
			panic(unsupported{fmt.Sprintf("loop bound %d reached in %s", e.maxLoop, f.fi.fn)})
		}
	}
	f.prev = pred
	f.block = b
	f.pc = n
}

// step executes one instruction; reports whether control moved to a point
// where a join could be.
func (e *Engine) step(st *State) bool {
	t := st.thr()
	if t.needUnwind {
		e.unwind(st)
		return true
	}
	f := t.frames[len(t.frames)-1]
	st.steps++
	e.Steps++
	in := f.block.Instrs[f.pc]
	switch x := in.(type) {
	case *ssa.If:
		c := e.getT(st, f, x.Cond)
		if c.IsConst() {
			if c.isTrue() {
				e.jump(st, f, f.block.Succs[0])
			} else {
				e.jump(st, f, f.block.Succs[1])
			}
			return true
		}
		if v, ok := st.known(e.c, c); ok {
			if v {
				e.jump(st, f, f.block.Succs[0])
			} else {
				e.jump(st, f, f.block.Succs[1])
			}
			return true
		}
		e.forkIf(st, f, c)
		panic(forked{})
	case *ssa.Jump:
		e.jump(st, f, f.block.Succs[0])
		return true
	case *ssa.Return:
		var res Value
		switch len(x.Results) {
		case 0:
		case 1:
			res = e.getRaw(st, f, x.Results[0])
		default:
			tp := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				tp[i] = e.getRaw(st, f, r)
			}
			res = tp
		}
		unown(res)
		e.popFrame(st, res)
		return true
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			e.runDefer(st, f)
			return true
		}
		f.pc++
	case *ssa.Panic:
		v := e.get(st, f, x.X)
		panic(goPanic{val: v, msg: e.panicMsg(st, v)})
	case *ssa.Call:
		e.doCall(st, f, x)
		return true
	case *ssa.Go:
		e.doGo(st, f, x)
	case *ssa.Defer:
		fv, args := e.prepCall(st, f, &x.Call)
		f.defers = append(f.defers, deferred{fv, args, x})
		f.pc++
	default:
		e.exec(st, f, in)
		f.pc++
	}
	return false
}

type forked struct{}

// getRaw reads an operand without resolving unions.
func (e *Engine) getRaw(st *State, f *Frame, v ssa.Value) Value {
	if s, ok := f.fi.slot[v]; ok {
		return f.regs[s]
	}
	return e.get(st, f, v)
}

func (e *Engine) forkIf(st *State, f *Frame, c *Term) {
	if st.init {
		panic(unsupported{"symbolic branch in init"})
	}
	tOK, tm := e.feasible(st, c)
	var fOK bool
	var fm Model
	if tOK {
		fOK, fm = e.feasible(st, e.c.Not(c))
	} else {
		fOK, fm = true, nil
		if st.maybe {
			fOK, fm = e.feasible(st, e.c.Not(c))
		} else {
			fm = st.hint
		}
	}
	bt, bf := f.block.Succs[0], f.block.Succs[1]
	if tOK && fOK {
		rec := &JoinRec{parent: st.rec, frameID: f.id, depth: len(st.thr().frames), block: f.fi.ipdom[f.block.Index], out: 2, pc: st.pc}
		if len(st.threads) > 1 || !e.mergeOn || st.thr().pan != nil {
			rec = nil
		}
		o := e.fork(st)
		if rec != nil {
			st.rec, o.rec = rec, rec
		} else if st.rec != nil {
			st.rec.out++
		}
		of := o.top()
		e.addPC(st, c)
		e.addPC(o, e.c.Not(c))
		st.hint, o.hint = tm, fm
		e.jump(st, f, bt)
		e.jump(o, of, bf)
		if !e.tryPark(o) {
			e.work = append(e.work, o)
		}
		if !e.tryPark(st) {
			e.work = append(e.work, st)
		}
		return
	}
	if tOK {
		st.pc = st.pc.PushImp(c)
		st.hint = tm
		e.jump(st, f, bt)
	} else if fOK {
		st.pc = st.pc.PushImp(e.c.Not(c))
		st.hint = fm
		e.jump(st, f, bf)
	} else {
		e.finish(st)
		return
	}
	if !e.tryPark(st) {
		e.work = append(e.work, st)
	}
}

func (e *Engine) panicMsg(st *State, v Value) string {
	iv, ok := v.(IfaceV)
	if !ok {
		return "panic"
	}
	if s, ok := iv.val.(StrV); ok {
		if c, ok := strConst(s); ok {
			return c
		}
		if s.opaque != "" {
			return s.opaque
		}
	}
	if iv.typ != nil {
		return "panic(" + iv.typ.String() + ")"
	}
	return "panic(nil)"
}

// ---------- calls ----------

func (e *Engine) prepCall(st *State, f *Frame, c *ssa.CallCommon) (FuncV, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := e.get(st, f, c.Value)
		iv, ok := recv.(IfaceV)
		if !ok {
			e.unsup("invoke on %T", recv)
		}
		if iv.typ == nil {
			e.nilDeref()
		}
		fn := e.prog.LookupMethod(iv.typ, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			e.unsup("no method %s on %s", c.Method.Name(), iv.typ)
		}
		args = append(args, iv.val)
		for _, a := range c.Args {
			args = append(args, e.get(st, f, a))
		}
		return FuncV{fn: fn}, args
	}
	fvv := e.get(st, f, c.Value)
	fv, ok := fvv.(FuncV)
	if !ok {
		e.unsup("call of %T", fvv)
	}
	for _, a := range c.Args {
		args = append(args, e.get(st, f, a))
	}
	return fv, args
}

func (e *Engine) doCall(st *State, f *Frame, x *ssa.Call) {
	fv, args := e.prepCall(st, f, &x.Call)
	if e.isVisible(fv, args) && !e.opGranted(st) {
		panic(parkOp{})
	}
	if e.sched && e.isVisible(fv, args) {
		e.visOp(st, f, func() { e.callValueAt(st, fv, args, x, false) })
		return
	}
	e.callValueAt(st, fv, args, x, false)
}

// callValue calls fv; returns whether a frame was pushed.
func (e *Engine) callValue(st *State, fv FuncV, args []Value, call ssa.CallInstruction, deferOf bool) bool {
	return e.callValueAt(st, fv, args, call, deferOf)
}

func (e *Engine) callValueAt(st *State, fv FuncV, args []Value, call ssa.CallInstruction, deferOf bool) bool {
	t := st.thr()
	setRes := func(v Value) {
		t.grant = false
		if call == nil {
			return
		}
		f := t.frames[len(t.frames)-1]
		if cv, ok := call.(ssa.Value); ok {
			e.set(f, cv, unown(v))
		}
		f.pc++
	}
	if fv.builtin != nil {
		setRes(e.builtin(st, fv.builtin, args, call))
		return false
	}
	if fv.prim != "" {
		setRes(e.prim(st, fv, args))
		return false
	}
	if fv.fn == nil {
		e.nilDeref()
	}
	fn := fv.fn
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if st.init && e.skipFns[name] {
		setRes(e.zero(resType(fn)))
		return false
	}
	if in, ok := e.intr[name]; ok && !e.forced[name] {
		if v, handled := in(e, st, fn, args); handled {
			if _, pushed := v.(pushedFrame); pushed {
				// the intrinsic pushed a frame itself
				top := t.frames[len(t.frames)-1]
				top.call = call
				top.deferOf = deferOf
				return true
			}
			setRes(v)
			return false
		}
	}
	if r := e.redirect[name]; r != nil {
		fn = r
		if !st.init {
			e.Notes["model: "+name] = true
		}
	}
	fi := e.info(fn)
	if len(fn.Blocks) == 0 {
		e.unsup("external function %s", name)
	}
	if fi.inRepo && !st.init {
		e.Funcs[fn.String()] = true
	}
	if len(t.frames) > 400 {
		e.unsup("recursion depth in %s", name)
	}
	e.nextFrame++
	nf := &Frame{fi: fi, regs: make([]Value, fi.n), block: fn.Blocks[0], id: e.nextFrame, call: call, deferOf: deferOf, binds: fv.binds}
	if len(args) != len(fn.Params) {
		e.unsup("arity of %s: %d vs %d", name, len(args), len(fn.Params))
	}
	for i := range args {
		nf.regs[i] = unown(args[i])
	}
	for i := range fv.binds {
		nf.regs[len(args)+i] = fv.binds[i]
	}
	t.grant = false
	t.frames = append(t.frames, nf)
	return true
}

type pushedFrame struct{}

func resType(fn *ssa.Function) types.Type {
	r := fn.Signature.Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

// pushCall pushes a frame for fn from an intrinsic (tail call).
func (e *Engine) pushCall(st *State, fn *ssa.Function, args []Value) Value {
	fi := e.info(fn)
	if len(fn.Blocks) == 0 {
		e.unsup("external function %s", fn)
	}
	t := st.thr()
	e.nextFrame++
	nf := &Frame{fi: fi, regs: make([]Value, fi.n), block: fn.Blocks[0], id: e.nextFrame}
	for i := range args {
		nf.regs[i] = unown(args[i])
	}
	if fi.inRepo {
		e.Funcs[fn.String()] = true
	}
	t.frames = append(t.frames, nf)
	return pushedFrame{}
}
