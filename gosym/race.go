package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Happens-before tracking for harnesses that explore schedules
// ("//zz:sched=on"): vector clocks per thread, lock, channel and atomic; two
// accesses of different threads to the same place, one of them a write, that
// are not ordered are a data race.

type schedEv struct {
	T  int `json:"t"`           // thread granted
	C  int `json:"c"`           // select case chosen, -1 for default
	P  int `json:"p"`           // thread whose pending operation is completed with it, or -1
	PC int `json:"pc"`          // its select case
	W  int `json:"w,omitempty"` // 1: start of the thread
}

type hbAcc struct {
	path  []int
	typ   string
	wt    int // last writer, -1 none
	wc    uint32
	wpos  string
	r     []uint32 // last read per thread
	rpos  []string
	nread int
}

type hbState struct {
	vc   [][]uint32
	sync map[string][]uint32
	acc  map[int][]*hbAcc // by object; entries immutable
}

func newHB() *hbState {
	return &hbState{vc: [][]uint32{{1}}, sync: map[string][]uint32{}, acc: map[int][]*hbAcc{}}
}

func (h *hbState) clone() *hbState {
	n := &hbState{vc: make([][]uint32, len(h.vc)), sync: make(map[string][]uint32, len(h.sync)), acc: make(map[int][]*hbAcc, len(h.acc))}
	for i, v := range h.vc {
		n.vc[i] = append([]uint32{}, v...)
	}
	for k, v := range h.sync {
		n.sync[k] = v
	}
	for k, v := range h.acc {
		n.acc[k] = v[:len(v):len(v)]
	}
	return n
}

func vcJoin(a, b []uint32) []uint32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func vcAt(a []uint32, i int) uint32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (h *hbState) acquire(t int, key string) {
	h.vc[t] = vcJoin(h.vc[t], h.sync[key])
}

func (h *hbState) release(t int, key string) {
	h.sync[key] = vcJoin(append([]uint32{}, h.sync[key]...), h.vc[t])
	h.tick(t)
}

func (h *hbState) tick(t int) {
	for len(h.vc[t]) <= t {
		h.vc[t] = append(h.vc[t], 0)
	}
	h.vc[t][t]++
}

func (h *hbState) spawn(parent, child int) {
	h.vc = append(h.vc, append([]uint32{}, h.vc[parent]...))
	h.tick(child)
	h.tick(parent)
}

// both synchronises in both directions.
func (h *hbState) both(t int, key string) {
	h.acquire(t, key)
	h.release(t, key)
}

func (h *hbState) meet(a, b int) {
	v := vcJoin(append([]uint32{}, h.vc[a]...), h.vc[b])
	h.vc[a] = append([]uint32{}, v...)
	h.vc[b] = append([]uint32{}, v...)
	h.tick(a)
	h.tick(b)
}

func (h *hbState) joinAll(t int) {
	for i := range h.vc {
		h.vc[t] = vcJoin(h.vc[t], h.vc[i])
	}
}

// access records a memory access of the current thread.
func (e *Engine) access(st *State, id int, path []PE, write bool) {
	if st.hb == nil || len(st.threads) < 2 || e.noAcc {
		return
	}
	t := st.cur
	o := e.obj(st, id)
	if o.typ != nil && strings.Contains(o.typ.String(), "/zzsym.") {
		return // bookkeeping of a model
	}
	var p []int
	typ := o.typ
	for _, pe := range path {
		if typ == nil {
			break
		}
		switch u := typ.Underlying().(type) {
		case *types.Struct:
			if pe.sym != nil || pe.idx >= u.NumFields() {
				typ = nil
				continue
			}
			p = append(p, pe.idx)
			typ = u.Field(pe.idx).Type()
			continue
		case *types.Array:
			if pe.sym == nil && u.Len() <= 8 {
				p = append(p, pe.idx)
				typ = u.Elem()
				continue
			}
		}
		break
	}
	l := st.hb.acc[id]
	var mine *hbAcc
	at := -1
	me := st.hb.vc[t]
	for i, a := range l {
		n := len(p)
		if len(a.path) < n {
			n = len(a.path)
		}
		over := true
		for j := 0; j < n; j++ {
			if a.path[j] != p[j] {
				over = false
				break
			}
		}
		if !over {
			continue
		}
		if a.wt >= 0 && a.wt != t && a.wc > vcAt(me, a.wt) {
			e.raceAt(st, o, a.wpos, write)
		}
		if write {
			for u, c := range a.r {
				if u != t && c > vcAt(me, u) {
					e.raceAt(st, o, a.rpos[u], write)
				}
			}
		}
		if len(a.path) == len(p) {
			mine, at = a, i
		}
	}
	n := &hbAcc{path: p, wt: -1}
	if mine != nil {
		*n = *mine
	}
	c := vcAt(me, t)
	if write {
		if mine != nil && n.wt == t && n.wc == c {
			return
		}
		n.wt, n.wc, n.wpos = t, c, e.where(st)
	} else {
		if vcAt(n.r, t) == c {
			return
		}
		n.r = append([]uint32{}, n.r...)
		n.rpos = append([]string{}, n.rpos...)
		for len(n.r) <= t {
			n.r = append(n.r, 0)
			n.rpos = append(n.rpos, "")
		}
		n.r[t], n.rpos[t] = c, e.where(st)
	}
	nl := append([]*hbAcc{}, l...)
	if at >= 0 {
		nl[at] = n
	} else {
		nl = append(nl, n)
	}
	st.hb.acc[id] = nl
}

func (e *Engine) raceAt(st *State, o *Obj, other string, write bool) {
	what := "read"
	if write {
		what = "write"
	}
	name := "memory"
	if o.typ != nil {
		name = types.TypeString(o.typ, func(p *types.Package) string { return p.Name() })
	}
	st.trace = append(st.trace, fmt.Sprintf("race: %s at %s is not ordered with the access at %s", what, e.where(st), other))
	e.report(st, "race", "data race on "+name, e.c.True)
}

// event records that the current thread performed a visible operation.
func (e *Engine) event(st *State, f *Frame) {
	ev := schedEv{T: st.cur, C: e.evC, P: e.evP, PC: e.evPC}
	e.evC, e.evP, e.evPC = 0, -1, 0
	if !e.sched || st.init || !f.fi.inst {
		return
	}
	st.evs = append(st.evs[:len(st.evs):len(st.evs)], ev)
}

// visOp runs a visible operation and records it if it took place.
func (e *Engine) visOp(st *State, f *Frame, op func()) {
	if !e.sched {
		op()
		return
	}
	e.evC, e.evP, e.evPC = 0, -1, 0
	id := st.cur
	defer func() {
		r := recover()
		_, pan := r.(goPanic)
		if r == nil || pan {
			cur := st.cur
			st.cur = id
			e.event(st, f)
			st.cur = cur
		}
		if r != nil {
			panic(r)
		}
	}()
	op()
}

func (e *Engine) hbSync(st *State, lock Value) {
	if st.hb != nil {
		st.hb.both(st.cur, "l"+e.lockKey(st, lock))
	}
}

// atomicOp makes an intrinsic a synchronising access that never races.
func atomicOp(f intrinsic) intrinsic {
	return func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		e.hbSync(st, a[0])
		e.noAcc = true
		defer func() { e.noAcc = false }()
		return f(e, st, fn, a)
	}
}
