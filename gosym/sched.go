package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Threads switch only before visible operations: channel operations, lock
// operations, atomics, goroutine starts. The choice is a symbolic variable.

func (e *Engine) opGranted(st *State) bool {
	if st.init {
		return true
	}
	t := st.thr()
	if t.grant {
		return true
	}
	if len(st.threads) == 1 && e.opEnabled(st, t) {
		t.grant = true
		return true
	}
	if e.sched && len(st.threads) > 1 && e.leftMover(st) {
		// a release commutes to the left: switching before it shows nothing
		// that switching before the acquire or after it does not
		t.grant = true
		return true
	}
	return false
}

func (e *Engine) grantOrPark(st *State) {
	if !e.opGranted(st) {
		panic(parkOp{})
	}
}

var visibleFns = map[string]bool{
	"(*sync.Mutex).Lock": true, "(*sync.Mutex).Unlock": true, "(*sync.Mutex).TryLock": true,
	"(*sync.RWMutex).Lock": true, "(*sync.RWMutex).Unlock": true, "(*sync.RWMutex).RLock": true, "(*sync.RWMutex).RUnlock": true,
	"(*sync.WaitGroup).Wait": true, "(*sync.WaitGroup).Add": true, "(*sync.WaitGroup).Done": true,
	"(*sync.Cond).Wait": true, "(*sync.Cond).Signal": true, "(*sync.Cond).Broadcast": true,
	"sync/atomic.AddUintptr": true, "sync/atomic.AddInt64": true, "sync/atomic.AddInt32": true, "sync/atomic.AddUint32": true, "sync/atomic.AddUint64": true,
	"sync/atomic.LoadInt32": true, "sync/atomic.LoadInt64": true, "sync/atomic.LoadUint32": true, "sync/atomic.LoadUint64": true, "sync/atomic.LoadUintptr": true,
	"sync/atomic.StoreInt32": true, "sync/atomic.StoreInt64": true, "sync/atomic.StoreUint32": true, "sync/atomic.StoreUint64": true,
	"sync/atomic.CompareAndSwapInt32": true, "sync/atomic.CompareAndSwapUint32": true, "sync/atomic.CompareAndSwapInt64": true, "sync/atomic.CompareAndSwapUint64": true,
	"time.Sleep": true, "runtime.Gosched": true,
	"github.com/philhofer/seth/zzsym.Yield":   true,
	"github.com/philhofer/seth/zzsym.Quiesce": true,
}

func (e *Engine) isVisible(fv FuncV, args []Value) bool {
	if fv.builtin != nil {
		return fv.builtin.Name() == "close"
	}
	return fv.fn != nil && visibleFns[fv.fn.String()]
}

// opEnabled: can t execute its pending instruction now?
func (e *Engine) opEnabled(st *State, t *Thread) bool {
	if t.done {
		return false
	}
	if !t.atOp || t.needUnwindOp() {
		// running or just created; or a deferred op
		if !t.atOp {
			return true
		}
	}
	f := t.frames[len(t.frames)-1]
	var fv FuncV
	var args []Value
	save := st.cur
	st.cur = t.id
	defer func() { st.cur = save }()
	in := f.block.Instrs[f.pc]
	if t.needUnwind || isRunDefers(in) {
		d := f.defers[len(f.defers)-1]
		fv, args = d.fv, d.args
	} else {
		switch x := in.(type) {
		case *ssa.Send:
			ch, ok := e.get(st, f, x.Chan).(ChanV)
			if !ok || ch.obj == 0 {
				return false
			}
			return e.canSend(st, t, ch)
		case *ssa.UnOp:
			ch, ok := e.get(st, f, x.X).(ChanV)
			if !ok || ch.obj == 0 {
				return false
			}
			return e.canRecv(st, t, ch)
		case *ssa.Select:
			if !x.Blocking {
				return true
			}
			return len(e.selReady(st, t, f, x)) > 0
		case *ssa.Call:
			fv, args = e.prepCall(st, f, &x.Call)
		default:
			return true
		}
	}
	if fv.fn == nil {
		return true
	}
	switch fv.fn.String() {
	case "(*sync.Mutex).Lock":
		l := e.lock(st, args[0])
		return !l.w
	case "(*sync.RWMutex).Lock":
		l := e.lock(st, args[0])
		return !l.w && l.readers == 0
	case "(*sync.RWMutex).RLock":
		return !e.lock(st, args[0]).w
	case "(*sync.WaitGroup).Wait":
		return e.lock(st, args[0]).cnt == 0
	case "github.com/philhofer/seth/zzsym.Quiesce":
		// enabled only when no other thread can move
		for _, o := range st.threads {
			if o.id != t.id && !o.done && e.opEnabled(st, o) {
				return false
			}
		}
		return true
	case "(*sync.Cond).Wait":
		l := e.lock(st, args[0])
		// phase 2: woken and the lock is free
		for _, w := range l.waiters {
			if w == t.id {
				return false
			}
		}
		if t.opKey == 1 {
			return !e.lock(st, e.condL(st, args[0])).w
		}
		return true
	}
	return true
}

func (t *Thread) needUnwindOp() bool { return false }

func isRunDefers(in ssa.Instruction) bool {
	_, ok := in.(*ssa.RunDefers)
	return ok
}

func (e *Engine) lockKey(st *State, v Value) string {
	p := e.ptr(st, v)
	if p.obj == 0 {
		e.nilDeref()
	}
	k := fmt.Sprint(p.obj)
	for _, pe := range p.path {
		k += fmt.Sprintf(".%d", pe.idx)
	}
	return k
}

func (e *Engine) lock(st *State, v Value) *LockSt {
	k := e.lockKey(st, v)
	l := st.locks[k]
	if l == nil {
		l = &LockSt{}
		st.locks[k] = l
	}
	return l
}

func (e *Engine) condL(st *State, v Value) Value {
	// sync.Cond{noCopy, L, notify, checker}
	p := e.ptr(st, v)
	a := e.load(st, p).(*Agg)
	for _, x := range a.elems {
		if iv, ok := x.(IfaceV); ok && iv.typ != nil {
			return iv.val
		}
	}
	e.unsup("cond without locker")
	return nil
}

// schedule picks the next thread to run; returns true if st ended or forked.
func (e *Engine) schedule(st *State) bool {
	t := st.thr()
	if !t.done {
		t.atOp = true
	}
	var en []int
	for _, o := range st.threads {
		if !o.done && e.opEnabled(st, o) {
			en = append(en, o.id)
		}
	}
	if len(en) == 0 {
		// deadlock: the main thread cannot finish
		e.Deadlocks++
		e.report(st, "deadlock", "all goroutines are blocked", e.c.True)
		st.threads[0].pan = &panicV{msg: "deadlock"}
		e.pathEnd(st)
		return true
	}
	// preemption bounding: if the current thread is enabled, others cost one
	curOK := false
	for _, id := range en {
		if id == st.cur {
			curOK = true
		}
	}
	if curOK && e.yielding(st) {
		curOK = false
	}
	if curOK && st.preempt >= e.preemptMax {
		en = []int{st.cur}
	}
	if len(en) == 1 {
		e.switchTo(st, en[0])
		return false
	}
	e.Scheds++
	st.schedN++
	v := e.c.Var(8, fmt.Sprintf("sched_%d", st.schedN))
	prev := st.cur
	states := []*State{st}
	for i := 1; i < len(en); i++ {
		states = append(states, e.fork(st))
		if st.rec != nil {
			st.rec.out++
		}
	}
	for i := len(states) - 1; i >= 0; i-- {
		s := states[i]
		s.pc = s.pc.Push(e.c.Eq(v, e.c.BV(8, uint64(en[i]))))
		if curOK && en[i] != prev {
			s.preempt++
		}
		n := 1
		if s.nondet != nil {
			n = s.nondet.n + 1
		}
		s.nondet = &Nondet{name: "sched", kind: "sched", t: e.c.BV(8, uint64(en[i])), prev: s.nondet, n: n}
		e.switchTo(s, en[i])
		e.work = append(e.work, s)
	}
	return true
}

// leftMover: the next operation releases a lock.
func (e *Engine) leftMover(st *State) bool {
	f := st.top()
	var fn *ssa.Function
	in := f.block.Instrs[f.pc]
	if st.thr().needUnwind || isRunDefers(in) {
		fn = f.defers[len(f.defers)-1].fv.fn
	} else if x, ok := in.(*ssa.Call); ok {
		fn = x.Call.StaticCallee()
	}
	if fn == nil {
		return false
	}
	switch fn.String() {
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return true
	}
	return false
}

// yielding: the current thread is about to sleep or yield, so letting another
// run costs no preemption.
func (e *Engine) yielding(st *State) bool {
	t := st.thr()
	if t.done || len(t.frames) == 0 || t.needUnwind {
		return false
	}
	f := t.frames[len(t.frames)-1]
	if x, ok := f.block.Instrs[f.pc].(*ssa.Call); ok {
		if c := x.Call.StaticCallee(); c != nil {
			switch c.String() {
			case "time.Sleep", "runtime.Gosched", "github.com/philhofer/seth/zzsym.Yield":
				return true
			}
		}
	}
	return false
}

func (e *Engine) switchTo(st *State, id int) {
	st.cur = id
	t := st.threads[id]
	if e.sched && t.fresh {
		st.evs = append(st.evs[:len(st.evs):len(st.evs)], schedEv{T: id, P: -1, W: 1})
	}
	t.fresh = false
	t.atOp = false
	t.grant = true
}

func (e *Engine) doGo(st *State, f *Frame, x *ssa.Go) {
	fv, args := e.prepCall(st, f, &x.Call)
	if fv.fn == nil {
		e.unsup("go of a builtin")
	}
	nt := &Thread{id: len(st.threads), name: fv.fn.Name(), fresh: true}
	fn := fv.fn
	if r := e.redirect[fn.String()]; r != nil {
		fn = r
	}
	fi := e.info(fn)
	if len(fn.Blocks) == 0 {
		e.unsup("go of external %s", fn)
	}
	e.nextFrame++
	nf := &Frame{fi: fi, regs: make([]Value, fi.n), block: fn.Blocks[0], id: e.nextFrame}
	for i := range args {
		nf.regs[i] = unown(args[i])
	}
	for i := range fv.binds {
		nf.regs[len(args)+i] = fv.binds[i]
	}
	if fi.inRepo {
		e.Funcs[fn.String()] = true
	}
	nt.frames = []*Frame{nf}
	st.threads = append(st.threads, nt)
	if st.hb != nil {
		st.hb.spawn(st.cur, nt.id)
	}
	f.pc++
	// the new thread becomes schedulable at the next visible operation
}

// ---------- channels ----------

func (e *Engine) chanObj(st *State, c ChanV) *ChanObj {
	return e.obj(st, c.obj).val.(*ChanObj)
}

func (e *Engine) setChan(st *State, c ChanV, o *ChanObj) { e.setObj(st, c.obj, o) }

// partner finds a thread parked at a matching operation on an unbuffered
// channel.
func (e *Engine) partner(st *State, self *Thread, ch ChanV, wantRecv bool) (tid int, selCase int) {
	for _, o := range st.threads {
		if o.id == self.id || o.done || !o.atOp || o.needUnwind || len(o.frames) == 0 {
			continue
		}
		f := o.frames[len(o.frames)-1]
		switch x := f.block.Instrs[f.pc].(type) {
		case *ssa.Send:
			if !wantRecv {
				if c, ok := f.regs0(e, st, x.Chan).(ChanV); ok && c == ch {
					return o.id, -1
				}
			}
		case *ssa.UnOp:
			if wantRecv && x.Op.String() == "<-" {
				if c, ok := f.regs0(e, st, x.X).(ChanV); ok && c == ch {
					return o.id, -1
				}
			}
		case *ssa.Select:
			for i, s := range x.States {
				if (s.Dir == types.RecvOnly) == wantRecv {
					if c, ok := f.regs0(e, st, s.Chan).(ChanV); ok && c == ch {
						return o.id, i
					}
				}
			}
		}
	}
	return -1, -1
}

func (f *Frame) regs0(e *Engine, st *State, v ssa.Value) Value {
	if s, ok := f.fi.slot[v]; ok {
		return f.regs[s]
	}
	return e.get(st, f, v)
}

func (e *Engine) canSend(st *State, t *Thread, ch ChanV) bool {
	o := e.chanObj(st, ch)
	if o.closed || len(o.buf) < o.cap {
		return true
	}
	if o.cap == 0 {
		id, _ := e.partner(st, t, ch, true)
		return id >= 0
	}
	return false
}

func (e *Engine) canRecv(st *State, t *Thread, ch ChanV) bool {
	o := e.chanObj(st, ch)
	if o.closed || len(o.buf) > 0 {
		return true
	}
	if o.cap == 0 {
		id, _ := e.partner(st, t, ch, false)
		return id >= 0
	}
	return false
}

func (e *Engine) doSend(st *State, f *Frame, x *ssa.Send) {
	e.grantOrPark(st)
	ch := e.get(st, f, x.Chan).(ChanV)
	v := e.get(st, f, x.X)
	e.visOp(st, f, func() { e.sendOn(st, ch, v) })
	st.thr().grant = false
}

func (e *Engine) sendOn(st *State, ch ChanV, v Value) {
	o := e.chanObj(st, ch)
	if o.closed {
		e.rtPanic("send on closed channel")
	}
	unown(v)
	if st.hb != nil {
		st.hb.both(st.cur, fmt.Sprintf("c%d", ch.obj))
	}
	if len(o.buf) < o.cap {
		n := *o
		n.buf = append(append([]Value{}, o.buf...), v)
		e.setChan(st, ch, &n)
		return
	}
	id, sc := e.partner(st, st.thr(), ch, true)
	if id < 0 {
		e.unsup("send granted without a partner")
	}
	e.evP, e.evPC = id, sc
	if st.hb != nil {
		st.hb.meet(st.cur, id)
	}
	e.completeRecv(st, st.threads[id], sc, v, true)
}

// completeRecv finishes a parked receive of thread t with value v.
func (e *Engine) completeRecv(st *State, t *Thread, sc int, v Value, ok bool) {
	f := t.frames[len(t.frames)-1]
	switch x := f.block.Instrs[f.pc].(type) {
	case *ssa.UnOp:
		if x.CommaOk {
			e.set(f, x, Tuple{v, e.c.Bool(ok)})
		} else {
			e.set(f, x, v)
		}
	case *ssa.Select:
		e.set(f, x, e.selResult(x, sc, v, ok))
	}
	f.pc++
	t.atOp = false
	t.grant = false
}

func (e *Engine) selResult(x *ssa.Select, idx int, v Value, ok bool) Tuple {
	tt := x.Type().(*types.Tuple)
	tp := make(Tuple, tt.Len())
	tp[0] = e.i64(int64(idx))
	tp[1] = e.c.Bool(ok)
	k := 2
	for i, s := range x.States {
		if s.Dir == types.RecvOnly {
			if i == idx {
				tp[k] = v
			} else {
				tp[k] = e.zero(tt.At(k).Type())
			}
			k++
		}
	}
	return tp
}

func (e *Engine) doRecv(st *State, f *Frame, x *ssa.UnOp) Value {
	e.grantOrPark(st)
	ch := e.get(st, f, x.X).(ChanV)
	var v Value
	var ok bool
	e.visOp(st, f, func() { v, ok = e.recvOn(st, ch) })
	st.thr().grant = false
	if x.CommaOk {
		return Tuple{v, e.c.Bool(ok)}
	}
	return v
}

func (e *Engine) recvOn(st *State, ch ChanV) (Value, bool) {
	o := e.chanObj(st, ch)
	if st.hb != nil {
		st.hb.both(st.cur, fmt.Sprintf("c%d", ch.obj))
	}
	if len(o.buf) > 0 {
		n := *o
		n.buf = append([]Value{}, o.buf[1:]...)
		e.setChan(st, ch, &n)
		return o.buf[0], true
	}
	if o.closed {
		return e.zero(o.elem), false
	}
	id, sc := e.partner(st, st.thr(), ch, false)
	if id < 0 {
		e.unsup("receive granted without a partner")
	}
	e.evP, e.evPC = id, sc
	if st.hb != nil {
		st.hb.meet(st.cur, id)
	}
	t := st.threads[id]
	pf := t.frames[len(t.frames)-1]
	var v Value
	switch x := pf.block.Instrs[pf.pc].(type) {
	case *ssa.Send:
		v = pf.regs0(e, st, x.X)
	case *ssa.Select:
		v = pf.regs0(e, st, x.States[sc].Send)
		e.set(pf, x, e.selResult(x, sc, nil, false))
	}
	pf.pc++
	t.atOp = false
	t.grant = false
	return v, true
}

func (e *Engine) selReady(st *State, t *Thread, f *Frame, x *ssa.Select) []int {
	var out []int
	for i, s := range x.States {
		ch, ok := f.regs0(e, st, s.Chan).(ChanV)
		if !ok || ch.obj == 0 {
			continue
		}
		if s.Dir == types.RecvOnly {
			if e.canRecv(st, t, ch) {
				out = append(out, i)
			}
		} else if e.canSend(st, t, ch) {
			out = append(out, i)
		}
	}
	return out
}

func (e *Engine) doSelect(st *State, f *Frame, x *ssa.Select) Value {
	e.grantOrPark(st)
	var v Value
	e.visOp(st, f, func() { v = e.doSelect1(st, f, x) })
	return v
}

func (e *Engine) doSelect1(st *State, f *Frame, x *ssa.Select) Value {
	t := st.thr()
	ready := e.selReady(st, t, f, x)
	if len(ready) == 0 {
		if !x.Blocking {
			t.grant = false
			e.evC = -1
			return e.selResult(x, -1, nil, false)
		}
		t.grant = false
		panic(parkOp{})
	}
	pick := ready[0]
	if len(ready) > 1 {
		v := e.c.Var(8, fmt.Sprintf("select_%d_%d", st.schedN, len(st.trace)))
		// fork over ready cases
		for _, r := range ready[:len(ready)-1] {
			if e.branch(st, e.c.Eq(v, e.c.BV(8, uint64(r)))) {
				pick = r
				goto chosen
			}
		}
		pick = ready[len(ready)-1]
	}
chosen:
	st.schedN++
	e.evC = pick
	s := x.States[pick]
	ch := e.get(st, f, s.Chan).(ChanV)
	t.grant = false
	if s.Dir == types.RecvOnly {
		v, ok := e.recvOn(st, ch)
		return e.selResult(x, pick, v, ok)
	}
	e.sendOn(st, ch, e.get(st, f, s.Send))
	return e.selResult(x, pick, nil, false)
}

func (e *Engine) chanClose(st *State, ch ChanV) {
	if ch.obj == 0 {
		e.rtPanic("close of nil channel")
	}
	o := e.chanObj(st, ch)
	if o.closed {
		e.rtPanic("close of closed channel")
	}
	if st.hb != nil {
		st.hb.both(st.cur, fmt.Sprintf("c%d", ch.obj))
	}
	n := *o
	n.closed = true
	e.setChan(st, ch, &n)
}
