package main

import (
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) exec(st *State, f *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		el := x.Type().(*types.Pointer).Elem()
		id := e.alloc(st, el, e.zero(el), x.Comment)
		e.set(f, x, Ptr{obj: id})
	case *ssa.Store:
		p := e.ptr(st, e.get(st, f, x.Addr))
		e.storeTyped(st, p, x.Val.Type(), e.getRaw(st, f, x.Val))
	case *ssa.UnOp:
		e.set(f, x, e.unop(st, f, x))
	case *ssa.BinOp:
		a, b := e.get(st, f, x.X), e.get(st, f, x.Y)
		e.set(f, x, e.binop(st, x.Op, x.X.Type(), x.Y.Type(), a, b))
	case *ssa.FieldAddr:
		pv := e.get(st, f, x.X)
		p := e.ptr(st, pv)
		if p.obj == 0 {
			e.nilDeref()
		}
		e.set(f, x, p.extend(PE{idx: x.Field}))
	case *ssa.Field:
		v := e.get(st, f, x.X)
		a, ok := v.(*Agg)
		if !ok {
			e.unsup("field of %T", v)
		}
		e.set(f, x, unown(a.elems[x.Field]))
	case *ssa.IndexAddr:
		e.set(f, x, e.indexAddr(st, f, x))
	case *ssa.Index:
		v := e.get(st, f, x.X)
		idx := e.idx64(st, f, x.Index)
		switch a := v.(type) {
		case *Agg:
			e.boundsCheck(st, idx, e.i64(int64(len(a.elems))), "index out of range")
			e.set(f, x, e.readElem(st, a.elems, idx))
		case StrV:
			e.set(f, x, e.strIndex(st, a, idx))
		default:
			e.unsup("index of %T", v)
		}
	case *ssa.Lookup:
		v := e.get(st, f, x.X)
		switch m := v.(type) {
		case StrV:
			e.set(f, x, e.strIndex(st, m, e.idx64(st, f, x.Index)))
		case MapV:
			k := e.get(st, f, x.Index)
			val, ok := e.mapGet(st, m, k)
			if val == nil {
				val = e.zero(x.X.Type().Underlying().(*types.Map).Elem())
			}
			if x.CommaOk {
				e.set(f, x, Tuple{unown(val), e.c.Bool(ok)})
			} else {
				e.set(f, x, unown(val))
			}
		default:
			e.unsup("lookup in %T", v)
		}
	case *ssa.MapUpdate:
		m, ok := e.get(st, f, x.Map).(MapV)
		if !ok {
			e.unsup("map update")
		}
		if m.obj == 0 {
			e.rtPanic("assignment to entry in nil map")
		}
		e.mapSet(st, m, e.get(st, f, x.Key), e.get(st, f, x.Value))
	case *ssa.MakeMap:
		id := e.alloc(st, x.Type(), &MapObj{}, "map")
		e.set(f, x, MapV{id})
	case *ssa.MakeChan:
		n := e.concretize(st, e.getT(st, f, x.Size))
		id := e.alloc(st, x.Type(), &ChanObj{cap: int(n), elem: x.Type().Underlying().(*types.Chan).Elem()}, "chan")
		e.set(f, x, ChanV{id})
	case *ssa.MakeSlice:
		e.set(f, x, e.makeSlice(st, f, x))
	case *ssa.MakeInterface:
		v := e.getRaw(st, f, x.X)
		if u, ok := v.(*Union); ok {
			v = e.resolve(st, u)
		}
		e.set(f, x, IfaceV{x.X.Type(), unown(v)})
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		b := make([]Value, len(x.Bindings))
		for i, v := range x.Bindings {
			b[i] = e.get(st, f, v)
		}
		e.set(f, x, FuncV{fn: fn, binds: b})
	case *ssa.ChangeType:
		e.set(f, x, e.getRaw(st, f, x.X))
	case *ssa.ChangeInterface:
		e.set(f, x, e.get(st, f, x.X))
	case *ssa.Convert:
		e.set(f, x, e.convert(st, x.X.Type(), x.Type(), e.get(st, f, x.X)))
	case *ssa.MultiConvert:
		e.set(f, x, e.convert(st, x.X.Type(), x.Type(), e.get(st, f, x.X)))
	case *ssa.Slice:
		e.set(f, x, e.slice(st, f, x))
	case *ssa.SliceToArrayPointer:
		s := e.get(st, f, x.X).(SliceV)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if e.branch(st, e.c.Ult(s.len, e.i64(n))) {
			e.rtPanic("slice too short to convert to array pointer")
		}
		e.set(f, x, e.sliceArrPtr(st, s, n, x.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.TypeAssert:
		e.set(f, x, e.typeAssert(st, f, x))
	case *ssa.Extract:
		v := e.get(st, f, x.Tuple)
		tp, ok := v.(Tuple)
		if !ok {
			if p, isP := v.(Poison); isP {
				e.set(f, x, p)
				return
			}
			e.unsup("extract from %T", v)
		}
		e.set(f, x, unown(tp[x.Index]))
	case *ssa.Range:
		v := e.get(st, f, x.X)
		it := &IterObj{}
		switch m := v.(type) {
		case MapV:
			if m.obj != 0 {
				mo := e.mapObj(st, m)
				it.ents = append([]MapEnt{}, mo.ents...)
				it.mobj = m.obj
			}
		case StrV:
			s := m
			it.str = &s
		default:
			e.unsup("range over %T", v)
		}
		id := e.alloc(st, x.Type(), it, "iter")
		e.set(f, x, IterV{id})
	case *ssa.Next:
		e.set(f, x, e.next(st, f, x))
	case *ssa.Send:
		e.doSend(st, f, x)
	case *ssa.Select:
		e.set(f, x, e.doSelect(st, f, x))
	default:
		e.unsup("instruction %T", in)
	}
}

func (e *Engine) ptr(st *State, v Value) Ptr {
	switch p := v.(type) {
	case Ptr:
		return p
	case UPtr:
		return p.p
	case Poison:
		e.unsup("poison pointer: %s", p.why)
	}
	e.unsup("pointer expected, got %T", v)
	return Ptr{}
}

// storeTyped / loadTyped deal with reinterpretation through unsafe pointers.
func (e *Engine) storeTyped(st *State, p Ptr, t types.Type, v Value) {
	if p.obj != 0 && len(p.path) > 0 && p.path[len(p.path)-1].idx < 0 && p.path[len(p.path)-1].sym == nil {
		e.reinterpStore(st, p, t, v)
		return
	}
	e.store(st, p, v)
}

func (e *Engine) idx64(st *State, f *Frame, v ssa.Value) *Term {
	t := e.getT(st, f, v)
	if t.w == 64 {
		return t
	}
	b, _ := v.Type().Underlying().(*types.Basic)
	_, signed, _ := basicWidth(b)
	if signed {
		return e.c.SExt(t, 64)
	}
	return e.c.ZExt(t, 64)
}

func (e *Engine) boundsCheck(st *State, idx, n *Term, msg string) {
	if !e.branch(st, e.c.Ult(idx, n)) {
		e.rtPanic("%s", msg)
	}
}

func (e *Engine) readElem(st *State, elems []Value, idx *Term) Value {
	if v, ok := st.conc[idx]; ok {
		return unown(elems[v])
	}
	if idx.IsConst() {
		return unown(elems[idx.val])
	}
	return e.muxRead(st, elems, idx)
}

func (e *Engine) strIndex(st *State, s StrV, idx *Term) Value {
	if s.opaque != "" {
		e.unsup("index of formatted string")
	}
	e.boundsCheck(st, idx, s.n, "string index out of range")
	if v, ok := st.conc[idx]; ok {
		return s.b[v]
	}
	if idx.IsConst() {
		return s.b[idx.val]
	}
	vs := make([]Value, len(s.b))
	for i := range vs {
		vs[i] = s.b[i]
	}
	return e.muxRead(st, vs, idx)
}

func (e *Engine) indexAddr(st *State, f *Frame, x *ssa.IndexAddr) Value {
	v := e.get(st, f, x.X)
	idx := e.idx64(st, f, x.Index)
	pe := func(t *Term) PE {
		if t.IsConst() {
			return PE{idx: int(int64(t.val))}
		}
		if k, ok := st.conc[t]; ok {
			return PE{idx: int(int64(k))}
		}
		return PE{sym: t}
	}
	switch s := v.(type) {
	case SliceV:
		e.boundsCheck(st, idx, s.len, "index out of range")
		return Ptr{s.obj, s.path}.extend(pe(e.c.Add(s.off, idx)))
	case Ptr:
		if s.obj == 0 {
			e.nilDeref()
		}
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		e.boundsCheck(st, idx, e.i64(n), "index out of range")
		if len(s.path) > 0 {
			if last := s.path[len(s.path)-1]; last.idx == reinterpMark {
				return s.extend(PE{idx: pe(idx).idx})
			}
		}
		return s.extend(pe(idx))
	}
	e.unsup("indexaddr of %T", v)
	return nil
}

func (e *Engine) makeSlice(st *State, f *Frame, x *ssa.MakeSlice) Value {
	l, c := e.idx64(st, f, x.Len), e.idx64(st, f, x.Cap)
	el := x.Type().Underlying().(*types.Slice).Elem()
	// negative or huge -> panic
	lim := e.i64(1 << 40)
	if e.branch(st, e.c.Ule(lim, l)) {
		e.rtPanic("makeslice: len out of range")
	}
	if l != c {
		if e.branch(st, e.c.Ule(lim, c)) || e.branch(st, e.c.Ult(c, l)) {
			e.rtPanic("makeslice: cap out of range")
		}
	}
	n := e.concretize(st, c)
	ln := l
	if l == c {
		ln = e.i64(int64(n))
	}
	if n > 1<<24 {
		e.unsup("allocation of %d elements", n)
	}
	a := e.zero(types.NewArray(el, int64(n)))
	id := e.alloc(st, types.NewArray(el, int64(n)), a, "makeslice")
	return SliceV{id, nil, e.i64(0), ln, e.i64(int64(n))}
}

func (e *Engine) slice(st *State, f *Frame, x *ssa.Slice) Value {
	v := e.get(st, f, x.X)
	opt := func(y ssa.Value) *Term {
		if y == nil {
			return nil
		}
		return e.idx64(st, f, y)
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	zero := e.i64(0)
	if lo == nil {
		lo = zero
	}
	switch s := v.(type) {
	case StrV:
		if s.opaque != "" {
			if x.Low == nil && x.High == nil {
				return s
			}
			e.unsup("slice of formatted string")
		}
		if hi == nil {
			hi = s.n
		}
		if !e.branch(st, e.c.And(e.c.Ule(lo, hi), e.c.Ule(hi, s.n))) {
			e.rtPanic("slice bounds out of range (string)")
		}
		a, b := int(e.concretize(st, lo)), int(e.concretize(st, hi))
		return e.mkStr(s.b[a:b])
	case SliceV:
		if hi == nil {
			hi = s.len
		}
		m := s.cap
		if mx != nil {
			if !e.branch(st, e.c.Ule(mx, s.cap)) {
				e.rtPanic("slice bounds out of range (max)")
			}
			m = mx
		}
		if !e.branch(st, e.c.Ule(hi, m)) {
			e.rtPanic("slice bounds out of range (high)")
		}
		if !e.branch(st, e.c.Ule(lo, hi)) {
			e.rtPanic("slice bounds out of range (low)")
		}
		if s.obj == 0 {
			return s
		}
		return SliceV{s.obj, s.path, e.c.Add(s.off, lo), e.c.Sub(hi, lo), e.c.Sub(m, lo)}
	case Ptr:
		if s.obj == 0 {
			e.nilDeref()
		}
		n := e.i64(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		m := n
		if mx != nil {
			if !e.branch(st, e.c.Ule(mx, n)) {
				e.rtPanic("slice bounds out of range (max)")
			}
			m = mx
		}
		if !e.branch(st, e.c.Ule(hi, m)) || !e.branch(st, e.c.Ule(lo, hi)) {
			e.rtPanic("slice bounds out of range")
		}
		if k := len(s.path); k > 0 && s.path[k-1].sym == nil && s.path[k-1].idx == reinterpMark {
			return e.sliceView(st, s, lo, hi, m)
		}
		return SliceV{s.obj, s.path, lo, e.c.Sub(hi, lo), e.c.Sub(m, lo)}
	}
	e.unsup("slice of %T", v)
	return nil
}

const reinterpMark = -7

// sliceArrPtr gives a pointer to an array aliasing a slice; only whole arrays.
func (e *Engine) sliceArrPtr(st *State, s SliceV, n int64, at types.Type) Value {
	if s.obj == 0 {
		return Ptr{}
	}
	a := e.sliceArr(st, s)
	off := e.concretize(st, s.off)
	if off == 0 && int64(len(a.elems)) == n {
		return Ptr{s.obj, s.path}
	}
	// copy: sound only for reads; mark
	e.Notes["slice converted to array pointer by copy (reads only)"] = true
	v := &Agg{elems: append([]Value{}, a.elems[off:int64(off)+n]...)}
	id := e.alloc(st, at, v, roSite)
	return Ptr{obj: id}
}

// ---------- unary / binary ----------

func (e *Engine) unop(st *State, f *Frame, x *ssa.UnOp) Value {
	switch x.Op {
	case token.MUL:
		p := e.ptr(st, e.get(st, f, x.X))
		return e.loadTyped(st, p, x.Type())
	case token.ARROW:
		return e.doRecv(st, f, x)
	}
	v := e.get(st, f, x.X)
	switch x.Op {
	case token.NOT:
		return e.c.Not(v.(*Term))
	case token.SUB:
		if fl, ok := v.(FloatV); ok {
			return FloatV{-fl.f}
		}
		return e.c.Neg(v.(*Term))
	case token.XOR:
		return e.c.BNot(v.(*Term))
	}
	e.unsup("unop %s", x.Op)
	return nil
}

func (e *Engine) loadTyped(st *State, p Ptr, t types.Type) Value {
	if p.obj == 0 {
		e.nilDeref()
	}
	if n := len(p.path); n > 0 {
		for _, pe := range p.path {
			if pe.idx == reinterpMark && pe.sym == nil {
				return e.reinterpLoad(st, p, t)
			}
		}
	}
	v := e.load(st, p)
	if po, ok := v.(Poison); ok && !st.init {
		e.unsup("load of poison: %s", po.why)
	}
	return v
}

func (e *Engine) binop(st *State, op token.Token, tx, ty types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return e.equal(st, tx, a, b)
	case token.NEQ:
		return e.c.Not(e.equal(st, tx, a, b))
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			if _, isU := b.(UPtr); isU {
				e.unsup("uintptr arithmetic")
			}
			e.unsup("binop %s on %T", op, b)
		}
		bt, ok := tx.Underlying().(*types.Basic)
		if !ok {
			e.unsup("binop type %s", tx)
		}
		_, signed, _ := basicWidth(bt)
		return e.arith(st, op, x, y, signed, ty)
	case StrV:
		y := b.(StrV)
		switch op {
		case token.ADD:
			return e.strCat(st, x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			lt, eq := e.strCmp(st, x, y)
			switch op {
			case token.LSS:
				return lt
			case token.LEQ:
				return e.c.Or(lt, eq)
			case token.GTR:
				return e.c.Not(e.c.Or(lt, eq))
			default:
				return e.c.Not(lt)
			}
		}
	case FloatV:
		y, ok := b.(FloatV)
		if !ok {
			e.unsup("float op %T", b)
		}
		switch op {
		case token.ADD:
			return FloatV{x.f + y.f}
		case token.SUB:
			return FloatV{x.f - y.f}
		case token.MUL:
			return FloatV{x.f * y.f}
		case token.QUO:
			return FloatV{x.f / y.f}
		case token.LSS:
			return e.c.Bool(x.f < y.f)
		case token.LEQ:
			return e.c.Bool(x.f <= y.f)
		case token.GTR:
			return e.c.Bool(x.f > y.f)
		case token.GEQ:
			return e.c.Bool(x.f >= y.f)
		}
	case UPtr:
		if y, ok := b.(*Term); ok && y.IsConst() && (op == token.ADD || op == token.XOR || op == token.AND) {
			if y.isZero() {
				return x
			}
		}
		e.unsup("unsafe pointer arithmetic")
	}
	e.unsup("binop %s on %T", op, a)
	return nil
}

func (e *Engine) arith(st *State, op token.Token, x, y *Term, signed bool, ty types.Type) Value {
	c := e.c
	if x.w == 0 {
		switch op {
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		}
	}
	switch op {
	case token.ADD:
		return c.Add(x, y)
	case token.SUB:
		return c.Sub(x, y)
	case token.MUL:
		return c.Mul(x, y)
	case token.QUO, token.REM:
		if e.branch(st, c.Eq(y, c.BV(y.w, 0))) {
			e.rtPanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return c.SDiv(x, y)
		case op == token.QUO:
			return c.UDiv(x, y)
		case signed:
			return c.SRem(x, y)
		}
		return c.URem(x, y)
	case token.AND:
		return c.BAnd(x, y)
	case token.OR:
		return c.BOr(x, y)
	case token.XOR:
		return c.BXor(x, y)
	case token.AND_NOT:
		return c.BAnd(x, c.BNot(y))
	case token.SHL, token.SHR:
		// shift count semantics
		b, _ := ty.Underlying().(*types.Basic)
		_, ysig, _ := basicWidth(b)
		if ysig {
			if e.branch(st, c.Slt(y, c.BV(y.w, 0))) {
				e.rtPanic("negative shift amount")
			}
		}
		big := c.False
		var s *Term
		if y.w > x.w {
			big = c.Ule(c.BV(y.w, uint64(x.w)), y)
			s = c.Extract(y, x.w-1, 0)
		} else {
			s = c.ZExt(y, x.w)
		}
		if op == token.SHL {
			return c.Ite(big, c.BV(x.w, 0), c.Shl(x, s))
		}
		if signed {
			return c.Ite(big, c.AShr(x, c.BV(x.w, uint64(x.w-1))), c.AShr(x, s))
		}
		return c.Ite(big, c.BV(x.w, 0), c.LShr(x, s))
	case token.LSS:
		if signed {
			return c.Slt(x, y)
		}
		return c.Ult(x, y)
	case token.LEQ:
		if signed {
			return c.Sle(x, y)
		}
		return c.Ule(x, y)
	case token.GTR:
		if signed {
			return c.Slt(y, x)
		}
		return c.Ult(y, x)
	case token.GEQ:
		if signed {
			return c.Sle(y, x)
		}
		return c.Ule(y, x)
	}
	e.unsup("arith %s", op)
	return nil
}

func (e *Engine) strCat(st *State, x, y StrV) Value {
	if x.opaque != "" || y.opaque != "" {
		return StrV{n: e.c.FreshVar(64, "fmtlen"), opaque: x.opaque + "+" + y.opaque + "?"}
	}
	b := append(append([]*Term{}, e.strBytes(st, x)...), e.strBytes(st, y)...)
	return e.mkStr(b)
}

func (e *Engine) strCmp(st *State, x, y StrV) (lt, eq *Term) {
	a, b := e.strBytes(st, x), e.strBytes(st, y)
	n := min(len(a), len(b))
	lt = e.c.Bool(len(a) < len(b))
	eq = e.c.Bool(len(a) == len(b))
	for i := n - 1; i >= 0; i-- {
		same := e.c.Eq(a[i], b[i])
		lt = e.c.Or(e.c.Ult(a[i], b[i]), e.c.And(same, lt))
		eq = e.c.And(same, eq)
	}
	return
}

func (e *Engine) strEq(st *State, x, y StrV) *Term {
	if x.opaque != "" || y.opaque != "" {
		if x.opaque == y.opaque && x.n == y.n {
			return e.c.True
		}
		e.unsup("comparison of formatted string %q %q", x.opaque, y.opaque)
	}
	if x.n.IsConst() && y.n.IsConst() {
		if len(x.b) != len(y.b) {
			return e.c.False
		}
		conj := make([]*Term, 0, len(x.b))
		for i := range x.b {
			q := e.c.Eq(x.b[i], y.b[i])
			if q.isFalse() {
				return q
			}
			conj = append(conj, q)
		}
		return e.c.And(conj...)
	}
	conj := []*Term{e.c.Eq(x.n, y.n)}
	for i := 0; i < max(len(x.b), len(y.b)); i++ {
		if i >= len(x.b) || i >= len(y.b) {
			break
		}
		conj = append(conj, e.c.Or(e.c.Ule(x.n, e.i64(int64(i))), e.c.Eq(x.b[i], y.b[i])))
	}
	return e.c.And(conj...)
}

func (e *Engine) equal(st *State, t types.Type, a, b Value) *Term {
	c := e.c
	a, b = e.resolve(st, a), e.resolve(st, b)
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return c.Eq(x, y)
		}
	case StrV:
		return e.strEq(st, x, b.(StrV))
	case Ptr:
		var y Ptr
		switch z := b.(type) {
		case Ptr:
			y = z
		case UPtr:
			y = z.p
		default:
			e.unsup("ptr compare %T", b)
		}
		if x.obj != y.obj || len(x.path) != len(y.path) {
			return c.False
		}
		r := c.True
		for i := range x.path {
			p, q := x.path[i], y.path[i]
			if p.sym == nil && q.sym == nil {
				if p.idx != q.idx {
					return c.False
				}
				continue
			}
			ps, qs := p.sym, q.sym
			if ps == nil {
				ps = e.i64(int64(p.idx))
			}
			if qs == nil {
				qs = e.i64(int64(q.idx))
			}
			r = c.And(r, c.Eq(ps, qs))
		}
		return r
	case SliceV:
		y := b.(SliceV)
		// only comparable with nil
		return c.Bool(x.obj == 0 && y.obj == 0)
	case MapV:
		return c.Bool(x.obj == b.(MapV).obj)
	case ChanV:
		return c.Bool(x.obj == b.(ChanV).obj)
	case FuncV:
		y := b.(FuncV)
		xn := x.fn == nil && x.builtin == nil && x.prim == ""
		yn := y.fn == nil && y.builtin == nil && y.prim == ""
		return c.Bool(xn && yn)
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			e.unsup("iface compare %T", b)
		}
		if x.typ == nil || y.typ == nil {
			return c.Bool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return c.False
		}
		return e.equal(st, x.typ, x.val, y.val)
	case *Agg:
		y := b.(*Agg)
		var conj []*Term
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := range x.elems {
				if u.Field(i).Name() == "_" {
					continue
				}
				q := e.equal(st, u.Field(i).Type(), x.elems[i], y.elems[i])
				if q.isFalse() {
					return q
				}
				conj = append(conj, q)
			}
		case *types.Array:
			for i := range x.elems {
				q := e.equal(st, u.Elem(), x.elems[i], y.elems[i])
				if q.isFalse() {
					return q
				}
				conj = append(conj, q)
			}
		}
		return c.And(conj...)
	case FloatV:
		return c.Bool(x.f == b.(FloatV).f)
	case UPtr:
		switch y := b.(type) {
		case UPtr:
			return c.Bool(valIdent(x, y))
		case Ptr:
			return c.Bool(x.p.obj == y.obj && x.str == nil && x.obj == 0)
		case *Term:
			if y.isZero() {
				return c.Bool(x.p.obj == 0 && x.str == nil && x.obj == 0)
			}
		}
	}
	e.unsup("comparison of %T and %T", a, b)
	return nil
}

// ---------- conversion ----------

func (e *Engine) convert(st *State, from, to types.Type, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := tu.(*types.Basic); ok {
		if tw, tsig, ok := basicWidth(tp); ok {
			switch x := v.(type) {
			case *Term:
				fb, ok := fu.(*types.Basic)
				if !ok {
					break
				}
				_, fsig, _ := basicWidth(fb)
				if tw <= x.w {
					return e.c.Extract(x, tw-1, 0)
				}
				if fsig {
					return e.c.SExt(x, tw)
				}
				return e.c.ZExt(x, tw)
			case FloatV:
				_ = tsig
				bf := new(big.Float).SetFloat64(math.Trunc(x.f))
				bi, _ := bf.Int(nil)
				return e.c.BVBig(tw, new(big.Int).And(bi, maskB(tw)))
			case UPtr:
				return x
			case Ptr:
				return UPtr{p: x, typ: from}
			}
		}
		if tp.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case StrV:
				return x
			case SliceV:
				el := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Int32 {
					e.unsup("[]rune to string")
				}
				return e.mkStr(append([]*Term{}, e.bytesOf(st, x)...))
			case *Term:
				if x.IsConst() {
					return e.str(string(rune(x.S64())))
				}
				// ASCII only
				w := x
				if e.branch(st, e.c.Ult(w, e.c.BV(w.w, 0x80))) {
					return e.mkStr([]*Term{e.c.Extract(w, 7, 0)})
				}
				e.unsup("rune to string")
			}
		}
		if tp.Info()&types.IsFloat != 0 {
			switch x := v.(type) {
			case FloatV:
				if tp.Kind() == types.Float32 {
					return FloatV{float64(float32(x.f))}
				}
				return x
			case *Term:
				if x.IsConst() {
					fb := fu.(*types.Basic)
					_, fsig, _ := basicWidth(fb)
					var bi *big.Int
					if fsig {
						bi = x.SBig()
					} else {
						bi = x.Big()
					}
					fl, _ := new(big.Float).SetInt(bi).Float64()
					return FloatV{fl}
				}
				e.unsup("symbolic int to float")
			}
		}
		if tp.Kind() == types.UnsafePointer {
			switch x := v.(type) {
			case UPtr:
				return x
			case Ptr:
				return UPtr{p: x, typ: from}
			case *Term:
				if x.isZero() {
					return UPtr{}
				}
			}
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		switch x := v.(type) {
		case StrV:
			if b, ok := ts.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				s, ok := strConst(x)
				if !ok {
					var vals []Value
					for b := e.strBytes(st, x); len(b) > 0; {
						r, n := e.decodeRune(st, b)
						vals = append(vals, r)
						b = b[n:]
					}
					return e.newSlice(st, ts.Elem(), vals)
				}
				var vals []Value
				for _, r := range s {
					vals = append(vals, e.c.BV(32, uint64(uint32(r))))
				}
				return e.newSlice(st, ts.Elem(), vals)
			}
			return e.newBytes(st, append([]*Term{}, e.strBytes(st, x)...))
		case SliceV:
			return x
		}
	}
	if tp, ok := tu.(*types.Pointer); ok {
		switch x := v.(type) {
		case UPtr:
			return e.castPtr(st, x, tp)
		case Ptr:
			return x
		}
	}
	switch v.(type) {
	case *Agg, IfaceV, FuncV, MapV, ChanV, BigV:
		return v
	}
	e.unsup("convert %T from %s to %s", v, from, to)
	return nil
}

// castPtr reinterprets an unsafe pointer.
func (e *Engine) castPtr(st *State, u UPtr, to *types.Pointer) Value {
	if u.p.obj == 0 && u.str == nil && u.obj == 0 {
		return Ptr{}
	}
	if u.typ != nil && u.str == nil {
		if fp, ok := u.typ.Underlying().(*types.Pointer); ok {
			if types.Identical(fp.Elem(), to.Elem()) || types.Identical(fp.Elem().Underlying(), to.Elem().Underlying()) {
				return u.p
			}
		}
	}
	// a header view or numeric view: mark the path
	if u.str == nil {
		id := e.alloc(st, to.Elem(), Tuple{u, typeBox{to.Elem()}}, "reinterp")
		return Ptr{obj: id, path: []PE{{idx: reinterpMark}}}
	}
	e.unsup("cast of %v to %s", u.typ, to)
	return nil
}

type typeBox struct{ t types.Type }

// reinterpLoad handles loads through reinterpreting casts.
func (e *Engine) reinterpLoad(st *State, p Ptr, t types.Type) Value {
	box, ok := e.obj(st, p.obj).val.(Tuple)
	if !ok || len(box) != 2 || p.path[0].idx != reinterpMark {
		e.unsup("reinterpreting load")
	}
	u := box[0].(UPtr)
	as := box[1].(typeBox).t
	from := u.typ.Underlying().(*types.Pointer).Elem()
	rest := p.path[1:]
	named := func(t types.Type) string {
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name()
		}
		return ""
	}
	// StringHeader / SliceHeader views
	if named(as) == "StringHeader" || named(as) == "SliceHeader" {
		v := e.load(st, u.p)
		if len(rest) == 1 {
			switch s := v.(type) {
			case StrV:
				switch rest[0].idx {
				case 0:
					return UPtr{str: &s}
				case 1:
					return s.n
				}
			case SliceV:
				switch rest[0].idx {
				case 0:
					return UPtr{p: Ptr{s.obj, s.path}, typ: from, obj: -1}
				case 1:
					return s.len
				case 2:
					return s.cap
				}
			}
		}
		e.unsup("header view")
	}
	if named(from) == "SliceHeader" && len(rest) == 0 {
		// *(*[]byte)(unsafe.Pointer(&SliceHeader{...}))
		h := e.load(st, u.p).(*Agg)
		n, m := h.elems[1].(*Term), h.elems[2].(*Term)
		if d, ok := h.elems[0].(UPtr); ok && d.str != nil {
			s := *d.str
			ln := int(e.concretize(st, n))
			mc := int(e.concretize(st, m))
			if ln > len(s.b) || mc > len(s.b) {
				e.unsup("slice header longer than its string")
			}
			sl := e.newBytes(st, append([]*Term{}, s.b[:mc]...))
			sl.len = e.i64(int64(ln))
			return sl
		}
		if n.isZero() {
			return e.newBytes(st, nil)
		}
		e.unsup("slice from header")
	}
	if _, ok := t.Underlying().(*types.Basic); ok {
		if s, ok := e.load(st, u.p).(SliceV); ok && len(rest) == 0 && types.Identical(t.Underlying(), types.Typ[types.String]) {
			return e.mkStr(append([]*Term{}, e.bytesOf(st, s)...))
		}
	}
	return e.wordView(st, u, as, rest, nil)
}

func (e *Engine) reinterpStore(st *State, p Ptr, t types.Type, v Value) {
	e.unsup("store through a reinterpreting cast")
}

// byteView gives the memory bytes (little-endian) from a pointer to an
// element of an integer array onwards.
func (e *Engine) byteView(st *State, u UPtr) (get func(int) *Term, n int) {
	if len(u.p.path) == 0 {
		e.unsup("word view of %v", u.typ)
	}
	last := u.p.path[len(u.p.path)-1]
	if last.sym != nil {
		e.unsup("word view at symbolic offset")
	}
	arr, ok := e.load(st, Ptr{u.p.obj, u.p.path[:len(u.p.path)-1]}).(*Agg)
	if !ok || len(arr.elems) == 0 {
		e.unsup("word view of non-array")
	}
	e0, ok := arr.elems[0].(*Term)
	if !ok || e0.w%8 != 0 || e0.w == 0 {
		e.unsup("word view elems")
	}
	k := e0.w / 8
	get = func(i int) *Term {
		t := arr.elems[last.idx+i/k].(*Term)
		return e.c.Extract(t, i%k*8+7, i%k*8)
	}
	return get, (len(arr.elems) - last.idx) * k
}

// wordView reads words through a reinterpreted element pointer.
func (e *Engine) wordView(st *State, u UPtr, as types.Type, rest []PE, store *Term) Value {
	get, n := e.byteView(st, u)
	var el types.Type = as
	idx := 0
	if a, ok := as.Underlying().(*types.Array); ok {
		el = a.Elem()
		if len(rest) != 1 || rest[0].sym != nil {
			e.unsup("word view index")
		}
		idx = rest[0].idx
	} else if len(rest) != 0 {
		e.unsup("word view path")
	}
	b, ok := el.Underlying().(*types.Basic)
	if !ok {
		e.unsup("word view elem")
	}
	w, _, _ := basicWidth(b)
	if w == 0 || w%8 != 0 {
		e.unsup("word view elem width")
	}
	o := idx * w / 8
	if o+w/8 > n {
		e.unsup("word view beyond the array")
	}
	parts := make([]*Term, w/8)
	for i := range parts {
		parts[len(parts)-1-i] = get(o + i)
	}
	return e.c.Concat(parts...)
}

// sliceView slices a reinterpreted array pointer: a read-only copy.
func (e *Engine) sliceView(st *State, p Ptr, lo, hi, m *Term) Value {
	box, ok := e.obj(st, p.obj).val.(Tuple)
	if !ok || len(box) != 2 || len(p.path) != 1 {
		e.unsup("slice of a reinterpreted pointer")
	}
	u := box[0].(UPtr)
	a, ok := box[1].(typeBox).t.Underlying().(*types.Array)
	if !ok || !types.Identical(a.Elem().Underlying(), types.Typ[types.Uint8]) {
		e.unsup("slice of a reinterpreted pointer to %s", box[1].(typeBox).t)
	}
	get, n := e.byteView(st, u)
	if int64(n) < a.Len() {
		e.unsup("reinterpreted array longer than its memory")
	}
	ag := &Agg{elems: make([]Value, a.Len())}
	for i := range ag.elems {
		ag.elems[i] = get(i)
	}
	e.Notes["slice of a reinterpreted array by copy (writes refused)"] = true
	id := e.alloc(st, a, ag, roSite)
	return SliceV{id, nil, lo, e.c.Sub(hi, lo), e.c.Sub(m, lo)}
}

// objects allocated at roSite are snapshots of other memory
const roSite = "read-only view"

// ---------- type assertion ----------

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (e *Engine) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) Value {
	v := e.get(st, f, x.X)
	iv, ok := v.(IfaceV)
	if !ok {
		e.unsup("type assert on %T", v)
	}
	match := false
	if iv.typ != nil {
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			match = e.implements(iv.typ, it)
		} else {
			match = types.Identical(iv.typ, x.AssertedType)
		}
	}
	if match {
		var r Value = iv
		if !types.IsInterface(x.AssertedType) {
			r = iv.val
		}
		if x.CommaOk {
			return Tuple{r, e.c.True}
		}
		return r
	}
	if x.CommaOk {
		return Tuple{e.zero(x.AssertedType), e.c.False}
	}
	e.rtPanic("interface conversion: %v is not %s", iv.typ, x.AssertedType)
	return nil
}

// ---------- maps ----------

func (e *Engine) mapObj(st *State, m MapV) *MapObj {
	return e.obj(st, m.obj).val.(*MapObj)
}

func keyType(o *Obj) types.Type {
	return o.typ.Underlying().(*types.Map).Key()
}

func (e *Engine) mapGet(st *State, m MapV, k Value) (Value, bool) {
	if m.obj == 0 {
		return nil, false
	}
	o := e.obj(st, m.obj)
	mo := o.val.(*MapObj)
	kt := keyType(o)
	e.access(st, m.obj, nil, false)
	for i := range mo.ents {
		if e.branch(st, e.equal(st, kt, mo.ents[i].k, k)) {
			return mo.ents[i].v, true
		}
	}
	return nil, false
}

func (e *Engine) mapSet(st *State, m MapV, k, v Value) {
	o := e.obj(st, m.obj)
	mo := o.val.(*MapObj)
	kt := keyType(o)
	if iv, ok := k.(IfaceV); ok && iv.typ != nil && !types.Comparable(iv.typ) {
		e.rtPanic("hash of unhashable type")
	}
	unown(k)
	unown(v)
	e.access(st, m.obj, nil, true)
	if st.init {
		// concrete keys, fast path: mutate in place, keep order
		if s, ok := k.(StrV); ok {
			for i := range mo.ents {
				if valIdent(mo.ents[i].k, s) {
					mo.ents[i].v = v
					return
				}
			}
			mo.ents = append(mo.ents, MapEnt{k: k, v: v})
			return
		}
	}
	for i := range mo.ents {
		if e.branch(st, e.equal(st, kt, mo.ents[i].k, k)) {
			n := &MapObj{ents: append([]MapEnt{}, mo.ents...)}
			n.ents[i].v = v
			e.setObj(st, m.obj, n)
			return
		}
	}
	n := &MapObj{ents: append(append([]MapEnt{}, mo.ents...), MapEnt{k: k, v: v})}
	e.setObj(st, m.obj, n)
}

func (e *Engine) mapDelete(st *State, m MapV, k Value) {
	if m.obj == 0 {
		return
	}
	o := e.obj(st, m.obj)
	mo := o.val.(*MapObj)
	kt := keyType(o)
	e.access(st, m.obj, nil, true)
	for i := range mo.ents {
		if e.branch(st, e.equal(st, kt, mo.ents[i].k, k)) {
			n := &MapObj{ents: append(append([]MapEnt{}, mo.ents[:i]...), mo.ents[i+1:]...)}
			e.setObj(st, m.obj, n)
			return
		}
	}
}

func (e *Engine) next(st *State, f *Frame, x *ssa.Next) Value {
	it := e.get(st, f, x.Iter).(IterV)
	io := e.obj(st, it.obj).val.(*IterObj)
	tt := x.Type().(*types.Tuple)
	if io.str != nil {
		s := *io.str
		b := e.strBytes(st, s)
		if io.pos >= len(b) {
			return Tuple{e.c.False, e.i64(0), e.c.BV(32, 0)}
		}
		c0 := b[io.pos]
		if e.branch(st, e.c.Ult(c0, e.c.BV(8, 0x80))) {
			n := *io
			n.pos++
			e.setObj(st, it.obj, &n)
			return Tuple{e.c.True, e.i64(int64(io.pos)), e.c.ZExt(c0, 32)}
		}
		r, sz := e.decodeRune(st, b[io.pos:])
		n := *io
		n.pos += sz
		e.setObj(st, it.obj, &n)
		return Tuple{e.c.True, e.i64(int64(io.pos)), r}
	}
	pos := io.pos
	var cur *MapObj
	if io.mobj != 0 {
		cur = e.mapObj(st, MapV{io.mobj})
	}
	for pos < len(io.ents) {
		en := io.ents[pos]
		pos++
		// entries deleted meanwhile are skipped; values are current
		found := false
		for _, ce := range cur.ents {
			if valIdent(ce.k, en.k) {
				en = ce
				found = true
				break
			}
		}
		if !found {
			continue
		}
		n := *io
		n.pos = pos
		e.setObj(st, it.obj, &n)
		return Tuple{e.c.True, en.k, unown(en.v)}
	}
	zk, zv := Value(e.i64(0)), Value(e.i64(0))
	if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		zk = e.zero(tt.At(1).Type())
	}
	if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		zv = e.zero(tt.At(2).Type())
	}
	return Tuple{e.c.False, zk, zv}
}

// decodeRune decodes the UTF-8 sequence at the start of b (not empty).
func (e *Engine) decodeRune(st *State, b []*Term) (*Term, int) {
	c := e.c
	in := func(t *Term, lo, hi uint64) *Term {
		return c.And(c.Ule(c.BV(8, lo), t), c.Ule(t, c.BV(8, hi)))
	}
	if e.branch(st, c.Ult(b[0], c.BV(8, 0x80))) {
		return c.ZExt(b[0], 32), 1
	}
	low := func(t *Term) *Term { return c.Extract(t, 5, 0) }
	if len(b) >= 2 && e.branch(st, c.And(in(b[0], 0xC2, 0xDF), in(b[1], 0x80, 0xBF))) {
		return c.ZExt(c.Concat(c.Extract(b[0], 4, 0), low(b[1])), 32), 2
	}
	imp := func(x, y *Term) *Term { return c.Or(c.Not(x), y) }
	is := func(v uint64) *Term { return c.Eq(b[0], c.BV(8, v)) }
	if len(b) >= 3 {
		ok := c.And(in(b[0], 0xE0, 0xEF), in(b[1], 0x80, 0xBF), in(b[2], 0x80, 0xBF),
			imp(is(0xE0), c.Ule(c.BV(8, 0xA0), b[1])), imp(is(0xED), c.Ule(b[1], c.BV(8, 0x9F))))
		if e.branch(st, ok) {
			return c.ZExt(c.Concat(c.Extract(b[0], 3, 0), low(b[1]), low(b[2])), 32), 3
		}
	}
	if len(b) >= 4 {
		ok := c.And(in(b[0], 0xF0, 0xF4), in(b[1], 0x80, 0xBF), in(b[2], 0x80, 0xBF), in(b[3], 0x80, 0xBF),
			imp(is(0xF0), c.Ule(c.BV(8, 0x90), b[1])), imp(is(0xF4), c.Ule(b[1], c.BV(8, 0x8F))))
		if e.branch(st, ok) {
			return c.ZExt(c.Concat(c.Extract(b[0], 2, 0), low(b[1]), low(b[2]), low(b[3])), 32), 4
		}
	}
	return c.BV(32, 0xFFFD), 1
}

// ---------- builtins ----------

func (e *Engine) builtin(st *State, b *ssa.Builtin, args []Value, call ssa.CallInstruction) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			return x.len
		case StrV:
			return x.n
		case MapV:
			if x.obj == 0 {
				return e.i64(0)
			}
			return e.i64(int64(len(e.mapObj(st, x).ents)))
		case ChanV:
			if x.obj == 0 {
				return e.i64(0)
			}
			return e.i64(int64(len(e.obj(st, x.obj).val.(*ChanObj).buf)))
		case *Agg:
			return e.i64(int64(len(x.elems)))
		case Ptr:
			t := call.Common().Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return e.i64(t.Len())
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return x.cap
		case ChanV:
			if x.obj == 0 {
				return e.i64(0)
			}
			return e.i64(int64(e.obj(st, x.obj).val.(*ChanObj).cap))
		case Ptr:
			t := call.Common().Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return e.i64(t.Len())
		}
	case "append":
		return e.appendB(st, args, call)
	case "copy":
		return e.copyB(st, args[0], args[1])
	case "delete":
		e.mapDelete(st, args[0].(MapV), args[1])
		return nil
	case "close":
		e.chanClose(st, args[0].(ChanV))
		return nil
	case "panic":
		panic(goPanic{val: args[0], msg: e.panicMsg(st, args[0])})
	case "recover":
		return e.doRecover(st)
	case "print", "println":
		return nil
	case "min", "max":
		r, ok := args[0].(*Term)
		if !ok {
			break
		}
		bt := call.Common().Args[0].Type().Underlying().(*types.Basic)
		_, signed, _ := basicWidth(bt)
		for _, a := range args[1:] {
			t := a.(*Term)
			var lt *Term
			if signed {
				lt = e.c.Slt(r, t)
			} else {
				lt = e.c.Ult(r, t)
			}
			if b.Name() == "min" {
				r = e.c.Ite(lt, r, t)
			} else {
				r = e.c.Ite(lt, t, r)
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case MapV:
			if x.obj != 0 {
				e.setObj(st, x.obj, &MapObj{})
			}
			return nil
		case SliceV:
			n := int(e.concretize(st, x.len))
			if n == 0 {
				return nil
			}
			el := call.Common().Args[0].Type().Underlying().(*types.Slice).Elem()
			vals := make([]Value, n)
			for i := range vals {
				vals[i] = e.zero(el)
			}
			e.writeSlice(st, x, 0, vals)
			return nil
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			e.nilDeref()
		}
		return args[0]
	case "SliceData":
		s := args[0].(SliceV)
		if s.obj == 0 {
			return Ptr{}
		}
		o := int(e.concretize(st, s.off))
		return Ptr{s.obj, s.path}.extend(PE{idx: o})
	case "StringData":
		s := args[0].(StrV)
		sl := e.newBytes(st, append([]*Term{}, e.strBytes(st, s)...))
		return Ptr{obj: sl.obj, path: []PE{{idx: 0}}}
	case "String":
		p := e.ptr(st, args[0])
		n := int(e.concretize(st, args[1].(*Term)))
		if n == 0 {
			return e.str("")
		}
		a := e.load(st, Ptr{p.obj, p.path[:len(p.path)-1]}).(*Agg)
		o := p.path[len(p.path)-1].idx
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = a.elems[o+i].(*Term)
		}
		return e.mkStr(bs)
	case "Slice":
		p := e.ptr(st, args[0])
		n := args[1].(*Term)
		if p.obj == 0 {
			return e.nilSlice()
		}
		if len(p.path) == 0 {
			e.unsup("unsafe.Slice of a variable")
		}
		last := p.path[len(p.path)-1]
		off := last.sym
		if off == nil {
			off = e.i64(int64(last.idx))
		}
		return SliceV{p.obj, p.path[:len(p.path)-1], off, n, n}
	}
	e.unsup("builtin %s(%T)", b.Name(), args[0])
	return nil
}

func (e *Engine) appendB(st *State, args []Value, call ssa.CallInstruction) Value {
	dst := args[0].(SliceV)
	var src []Value
	var el types.Type
	if call != nil {
		el = call.Common().Args[0].Type().Underlying().(*types.Slice).Elem()
	} else {
		el = types.Typ[types.Uint8]
	}
	switch s := args[1].(type) {
	case SliceV:
		n := int(e.concretize(st, s.len))
		if n == 0 {
			return dst
		}
		src = e.readSlice(st, s, n)
	case StrV:
		for _, t := range e.strBytes(st, s) {
			src = append(src, t)
		}
	}
	return e.appendVals(st, dst, el, src)
}

func (e *Engine) appendVals(st *State, dst SliceV, el types.Type, src []Value) SliceV {
	if len(src) == 0 {
		return dst
	}
	n := int(e.concretize(st, dst.len))
	c := int(e.concretize(st, dst.cap))
	src = append([]Value{}, src...)
	for _, v := range src {
		unown(v)
	}
	if n+len(src) <= c && dst.obj != 0 {
		dst.len = e.i64(int64(n))
		e.writeSlice(st, dst, n, src)
		return SliceV{dst.obj, dst.path, dst.off, e.i64(int64(n + len(src))), dst.cap}
	}
	old := e.readSlice(st, dst, n)
	need := n + len(src)
	nc := growCap(c, need, e.sizeof(el))
	vals := make([]Value, nc)
	copy(vals, old)
	for _, v := range old {
		unown(v)
	}
	copy(vals[n:], src)
	for i := need; i < nc; i++ {
		vals[i] = e.zero(el)
	}
	s := e.newSlice(st, el, vals)
	s.len = e.i64(int64(need))
	return s
}

var stdSizes = types.SizesFor("gc", "amd64")

func (e *Engine) sizeof(t types.Type) int64 {
	defer func() { recover() }()
	return stdSizes.Sizeof(t)
}

// growCap mimics the runtime's growth, including size classes, so that
// aliasing after append matches the real program.
func growCap(oldCap, need int, elSize int64) int {
	nc := oldCap
	if need > 2*oldCap {
		nc = need
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if elSize <= 0 {
		return max(nc, need)
	}
	sz := int64(nc) * elSize
	sz = roundupsize(sz)
	return int(sz / elSize)
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int64) int64 {
	if n <= 32768 {
		for _, s := range sizeClasses {
			if s >= n {
				return s
			}
		}
	}
	return (n + 8191) &^ 8191
}

func (e *Engine) copyB(st *State, d, s Value) Value {
	dst := d.(SliceV)
	var sl *Term
	switch x := s.(type) {
	case SliceV:
		sl = x.len
	case StrV:
		if x.opaque != "" {
			e.unsup("copy of formatted string")
		}
		sl = x.n
	}
	var n *Term
	if e.c.Ule(sl, dst.len).isTrue() {
		n = sl
	} else if e.c.Ule(dst.len, sl).isTrue() {
		n = dst.len
	} else if e.branch(st, e.c.Ule(sl, dst.len)) {
		n = sl
	} else {
		n = dst.len
	}
	k := int(e.concretize(st, n))
	if k == 0 {
		return e.i64(0)
	}
	var src []Value
	switch x := s.(type) {
	case SliceV:
		src = append([]Value{}, e.readSlice(st, x, k)...)
	case StrV:
		for _, t := range x.b[:k] {
			src = append(src, t)
		}
	}
	for _, v := range src {
		unown(v)
	}
	e.concretize(st, dst.off)
	e.writeSlice(st, dst, 0, src)
	return e.i64(int64(k))
}

func (e *Engine) doRecover(st *State) Value {
	t := st.thr()
	// frame calling recover must be a deferred call of an unwinding frame
	n := len(t.frames)
	if n >= 2 && t.pan != nil && !t.pan.recovered {
		f := t.frames[n-1]
		if f.deferOf && t.frames[n-2].unwinding {
			t.pan.recovered = true
			return t.pan.val
		}
	}
	return IfaceV{}
}
