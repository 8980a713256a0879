package main

import "math/big"

// Decisions over conditions that depend on one small variable, without the
// solver: the set of values is enumerated exhaustively (an exact decision
// procedure for that fragment).

type bset [4]uint64

func (b *bset) has(i int) bool { return b[i>>6]>>(uint(i)&63)&1 == 1 }
func (b *bset) add(i int)      { b[i>>6] |= 1 << (uint(i) & 63) }
func (b bset) and(c bset) (r bset) {
	for i := range b {
		r[i] = b[i] & c[i]
	}
	return
}
func (b bset) empty() bool { return b[0]|b[1]|b[2]|b[3] == 0 }

type supInfo struct {
	vars map[*Term]bool
	uf   bool
}

type fastCtx struct {
	one  map[*Term]*Term // single support variable; manyVar / noVar markers
	sets map[*Term]bset
	sup  map[*Term]*supInfo
}

var manyVar, noVar = &Term{name: "many"}, &Term{name: "none"}

func newFast() *fastCtx {
	return &fastCtx{one: map[*Term]*Term{}, sets: map[*Term]bset{}, sup: map[*Term]*supInfo{}}
}

func (f *fastCtx) single(t *Term) *Term {
	switch t.op {
	case OConst:
		return noVar
	case OVar:
		return t
	case OUF:
		return manyVar
	}
	if v, ok := f.one[t]; ok {
		return v
	}
	r := noVar
	for _, a := range t.args {
		s := f.single(a)
		if s == noVar {
			continue
		}
		if s == manyVar || (r != noVar && r != s) {
			r = manyVar
			break
		}
		r = s
	}
	f.one[t] = r
	return r
}

// set gives the values of v (a variable of at most 8 bits) making t true.
func (f *fastCtx) set(t, v *Term) (bset, bool) {
	if s, ok := f.sets[t]; ok {
		return s, true
	}
	order, ok := topo64(t)
	if !ok {
		return bset{}, false
	}
	var s bset
	n := 2
	if v.w > 0 {
		n = 1 << uint(v.w)
	}
	vals := make(map[*Term]uint64, len(order))
	for i := 0; i < n; i++ {
		vals[v] = uint64(i)
		for _, x := range order {
			if x != v {
				vals[x] = eval64(x, vals)
			}
		}
		if vals[t] == 1 {
			s.add(i)
		}
	}
	f.sets[t] = s
	return s, true
}

func topo64(t *Term) ([]*Term, bool) {
	var out []*Term
	seen := map[*Term]bool{}
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		if !ok || seen[t] {
			return
		}
		seen[t] = true
		if t.w > 64 || len(out) > 4000 {
			ok = false
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		out = append(out, t)
	}
	walk(t)
	return out, ok
}

func sx64(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<uint(64-w)) >> uint(64-w)
}

func b64(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func eval64(t *Term, vals map[*Term]uint64) uint64 {
	m := maskU(t.w)
	if t.w == 0 {
		m = 1
	}
	a := func(i int) uint64 { return vals[t.args[i]] }
	switch t.op {
	case OConst:
		return t.val
	case ONot:
		return a(0) ^ 1
	case OAnd:
		for i := range t.args {
			if a(i) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for i := range t.args {
			if a(i) == 1 {
				return 1
			}
		}
		return 0
	case OIte:
		if a(0) == 1 {
			return a(1)
		}
		return a(2)
	case OEq:
		return b64(a(0) == a(1))
	case OUlt:
		return b64(a(0) < a(1))
	case OUle:
		return b64(a(0) <= a(1))
	case OSlt:
		w := t.args[0].w
		return b64(sx64(a(0), w) < sx64(a(1), w))
	case OSle:
		w := t.args[0].w
		return b64(sx64(a(0), w) <= sx64(a(1), w))
	case OAdd:
		var s uint64
		for i := range t.args {
			s += a(i)
		}
		return s & m
	case OMul:
		s := uint64(1)
		for i := range t.args {
			s *= a(i)
		}
		return s & m
	case OUDiv:
		if a(1) == 0 {
			return m
		}
		return a(0) / a(1)
	case OURem:
		if a(1) == 0 {
			return a(0)
		}
		return a(0) % a(1)
	case OSDiv, OSRem:
		x, y := sx64(a(0), t.w), sx64(a(1), t.w)
		if t.op == OSDiv {
			if y == 0 {
				if x < 0 {
					return 1 & m
				}
				return m
			}
			if y == -1 {
				return uint64(-x) & m
			}
			return uint64(x/y) & m
		}
		if y == 0 {
			return uint64(x) & m
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		r := m
		for i := range t.args {
			r &= a(i)
		}
		return r
	case OBOr:
		r := uint64(0)
		for i := range t.args {
			r |= a(i)
		}
		return r
	case OBXor:
		r := uint64(0)
		for i := range t.args {
			r ^= a(i)
		}
		return r
	case OBNot:
		return ^a(0) & m
	case OShl:
		if a(1) >= uint64(t.w) {
			return 0
		}
		return a(0) << a(1) & m
	case OLShr:
		if a(1) >= uint64(t.w) {
			return 0
		}
		return a(0) >> a(1)
	case OAShr:
		s := a(1)
		if s >= uint64(t.w) {
			s = uint64(t.w) - 1
		}
		return uint64(sx64(a(0), t.w)>>s) & m
	case OConcat:
		r := uint64(0)
		for i := range t.args {
			r = r<<uint(t.args[i].w) | a(i)
		}
		return r & m
	case OExtract:
		return a(0) >> uint(t.lo) & m
	case OSExt:
		return uint64(sx64(a(0), t.args[0].w)) & m
	}
	panic("eval64 op")
}

func (f *fastCtx) support(t *Term) *supInfo {
	if s := f.sup[t]; s != nil {
		return s
	}
	s := &supInfo{vars: map[*Term]bool{}}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			s.vars[t] = true
		}
		if t.op == OUF {
			s.uf = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	f.sup[t] = s
	return s
}

// reduce drops the disjuncts of cond that are impossible on their own under
// pc (cond and the result are equivalent under pc).
func (s *Solver) reduce(pc *PC, cond *Term) *Term {
	var disj []*Term
	switch {
	case cond.op == OAnd:
		for _, a := range cond.args {
			if s.reduce(pc, a).isFalse() {
				return s.c.False
			}
			if vv, _, ok := s.fastDecide(pc, a, nil); ok && vv == Unsat {
				return s.c.False
			}
		}
		return cond
	case cond.op == OOr:
		disj = cond.args
	case cond.op == ONot && cond.args[0].op == OAnd:
		for _, a := range cond.args[0].args {
			disj = append(disj, s.c.Not(a))
		}
	default:
		return cond
	}
	var keep []*Term
	for _, a := range disj {
		a = s.reduce(pc, a)
		if a.isFalse() {
			continue
		}
		if vv, _, ok := s.fastDecide(pc, a, nil); ok && vv == Unsat {
			continue
		}
		keep = append(keep, a)
	}
	if len(keep) == len(disj) {
		return cond
	}
	return s.c.Or(keep...)
}

// fastDecide: verdict for pc && cond, assuming pc is satisfiable. ok=false when
// not in the fragment.
func (s *Solver) fastDecide(pc *PC, cond *Term, hint Model) (Verdict, Model, bool) {
	f := s.fast
	v := f.single(cond)
	if v == noVar || v == manyVar || v.w > 8 {
		return Unknown, nil, false
	}
	set, ok := f.set(cond, v)
	if !ok {
		return Unknown, nil, false
	}
	if set.empty() {
		s.Stats.Fast++
		return Unsat, nil, true
	}
	indep := true
	for p := pc; p != nil; p = p.parent {
		if p.imp {
			continue
		}
		o := f.single(p.t)
		if o == v {
			ps, ok := f.set(p.t, v)
			if !ok {
				indep = false
				continue
			}
			set = set.and(ps)
			if set.empty() {
				s.Stats.Fast++
				return Unsat, nil, true
			}
			continue
		}
		if o == manyVar && indep {
			si := f.support(p.t)
			if si.vars[v] {
				indep = false
			}
		}
	}
	if !indep || hint == nil {
		return Unknown, nil, false
	}
	// UF applications in the pc whose arguments mention v were excluded by
	// the support test; values of other UF applications stay as in the hint.
	n := make(Model, len(hint)+1)
	for k, x := range hint {
		n[k] = x
	}
	for i := 0; i < 256; i++ {
		if set.has(i) {
			n[v] = big.NewInt(int64(i))
			break
		}
	}
	s.Stats.Fast++
	return Sat, n, true
}
