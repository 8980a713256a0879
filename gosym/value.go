package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Ptr, SliceV, StrV, IfaceV, FuncV, MapV, ChanV,
// Tuple, *Agg, BigV, FloatV, Poison, *Union, UPtr, IterV, nil (unset).
type Value interface{}

type PE struct {
	idx int   // concrete field or element
	sym *Term // symbolic element index (64 bit) when non-nil
}

type Ptr struct {
	obj  int // 0 = nil
	path []PE
}

type SliceV struct {
	obj      int // 0 = nil slice
	path     []PE
	off      *Term
	len, cap *Term
}

// StrV is an immutable string. n is its length; when n is constant len(b)==n.
type StrV struct {
	b      []*Term
	n      *Term
	opaque string // non-empty: content unknown (formatted text)
}

type IfaceV struct {
	typ types.Type // nil = nil interface
	val Value
}

type FuncV struct {
	fn      *ssa.Function
	builtin *ssa.Builtin
	binds   []Value
	prim    string // engine primitive
}

type MapV struct{ obj int }
type ChanV struct{ obj int }
type Tuple []Value

type Agg struct {
	elems []Value
	owner int
}

// BigV is the mathematical content of a big.Int: a signed bit-vector wide
// enough never to overflow.
type BigV struct{ t *Term }

type FloatV struct{ f float64 }

type Poison struct{ why string }

type UAlt struct {
	g *Term
	v Value
}
type Union struct{ alts []UAlt }

// UPtr is an unsafe.Pointer / uintptr derived from a typed pointer or from
// string / slice data.
type UPtr struct {
	p   Ptr
	typ types.Type // pointee type (element type for data pointers)
	str *StrV      // pointer to string bytes
	off int
	obj int
}

type MapEnt struct {
	k, v Value
	g    *Term // presence
}

type MapObj struct {
	ents []MapEnt
}

type ChanObj struct {
	cap    int
	buf    []Value
	closed bool
	recvq  []int // unused; scheduling is by polling
	elem   types.Type
	// rendezvous for unbuffered channels
	sendWait []sendItem
	nsent    int
	nrecv    int
}

type sendItem struct {
	tid  int
	v    Value
	done bool
}

type IterV struct {
	obj int
}

type IterObj struct {
	ents []MapEnt
	pos  int
	str  *StrV
	mobj int
}

// ---------- heap: persistent radix tree ----------

const radix = 32

type hnode struct {
	kids  [radix]*hnode
	vals  [radix]*Obj
	owner int
}

type Obj struct {
	typ   types.Type
	val   Value
	owner int
	site  string
}

type Heap struct {
	root *hnode // depth 4 -> 32^4 = 1M objects
}

const hdepth = 4

func (h *Heap) get(id int) *Obj {
	n := h.root
	for d := hdepth - 1; d > 0; d-- {
		if n == nil {
			return nil
		}
		n = n.kids[(id>>(5*d))&31]
	}
	if n == nil {
		return nil
	}
	return n.vals[id&31]
}

func (h *Heap) set(id int, o *Obj, epoch int) {
	var rec func(n *hnode, d int) *hnode
	rec = func(n *hnode, d int) *hnode {
		if n == nil {
			n = &hnode{owner: epoch}
		} else if n.owner != epoch {
			m := *n
			m.owner = epoch
			n = &m
		}
		if d == 0 {
			n.vals[id&31] = o
		} else {
			i := (id >> (5 * d)) & 31
			n.kids[i] = rec(n.kids[i], d-1)
		}
		return n
	}
	h.root = rec(h.root, hdepth-1)
}

// diff calls f for ids whose objects differ.
func heapDiff(a, b *hnode, d, base int, f func(id int, x, y *Obj)) {
	if a == b {
		return
	}
	if d == 0 {
		for i := 0; i < radix; i++ {
			var x, y *Obj
			if a != nil {
				x = a.vals[i]
			}
			if b != nil {
				y = b.vals[i]
			}
			if x != y {
				f(base|i, x, y)
			}
		}
		return
	}
	for i := 0; i < radix; i++ {
		var x, y *hnode
		if a != nil {
			x = a.kids[i]
		}
		if b != nil {
			y = b.kids[i]
		}
		if x != y {
			heapDiff(x, y, d-1, base|i<<(5*d), f)
		}
	}
}

// ---------- helpers ----------

func cloneAgg(a *Agg, owner int) *Agg {
	n := &Agg{elems: make([]Value, len(a.elems)), owner: owner}
	copy(n.elems, a.elems)
	for _, e := range n.elems {
		if x, ok := e.(*Agg); ok {
			x.owner = 0
		}
	}
	return n
}

func unown(v Value) Value {
	if a, ok := v.(*Agg); ok {
		a.owner = 0
	}
	return v
}

func (p Ptr) extend(e PE) Ptr {
	np := make([]PE, len(p.path)+1)
	copy(np, p.path)
	np[len(p.path)] = e
	return Ptr{p.obj, np}
}

func (e *Engine) isBigInt(t types.Type) bool {
	if e.bigStruct == nil {
		return false
	}
	if t.Underlying() == e.bigStruct {
		return true
	}
	return false
}

func basicWidth(b *types.Basic) (w int, signed bool, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func (e *Engine) zero(t types.Type) Value {
	if e.isBigInt(t) {
		return BigV{e.c.BV(1, 0)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := basicWidth(u); ok {
			return e.c.BV(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return e.str("")
		case types.Float32, types.Float64, types.UntypedFloat:
			return FloatV{0}
		case types.UnsafePointer:
			return UPtr{}
		case types.UntypedNil:
			return Ptr{}
		case types.Invalid:
			return Poison{"invalid type"}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return e.nilSlice()
	case *types.Struct:
		a := &Agg{elems: make([]Value, u.NumFields())}
		for i := range a.elems {
			a.elems[i] = e.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		if n > 1<<22 {
			return Poison{"huge array"}
		}
		a := &Agg{elems: make([]Value, n)}
		if n > 0 {
			z := e.zero(u.Elem())
			if _, ok := z.(*Agg); ok {
				for i := range a.elems {
					a.elems[i] = e.zero(u.Elem())
				}
			} else {
				for i := range a.elems {
					a.elems[i] = z
				}
			}
		}
		return a
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = e.zero(u.At(i).Type())
		}
		return tp
	}
	return Poison{"zero of " + t.String()}
}

func (e *Engine) nilSlice() SliceV {
	z := e.c.BV(64, 0)
	return SliceV{0, nil, z, z, z}
}

func (e *Engine) str(s string) StrV {
	b := make([]*Term, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = e.byteC[s[i]]
	}
	return StrV{b: b, n: e.c.BV(64, uint64(len(s)))}
}

func strConst(s StrV) (string, bool) {
	if s.opaque != "" || !s.n.IsConst() {
		return "", false
	}
	b := make([]byte, len(s.b))
	for i, t := range s.b {
		if !t.IsConst() {
			return "", false
		}
		b[i] = byte(t.val)
	}
	return string(b), true
}

func (e *Engine) i64(v int64) *Term { return e.c.BV(64, uint64(v)) }

func (e *Engine) mkbig(v *big.Int) BigV {
	w := v.BitLen() + 1
	return BigV{e.c.BVBig(w, new(big.Int).And(v, maskB(w)))}
}

// trim a signed bit-vector of redundant sign bits (known statically).
func (e *Engine) trimBig(t *Term) BigV {
	if t.IsConst() {
		return e.mkbig(t.SBig())
	}
	if t.op == OSExt {
		return e.trimBig(t.args[0])
	}
	if n := e.c.leadZeros(t); n > 1 {
		return BigV{e.c.Extract(t, t.w-n, 0)}
	}
	return BigV{t}
}

func valStr(v Value) string {
	switch x := v.(type) {
	case *Term:
		return termStr(x, 4)
	case StrV:
		if s, ok := strConst(x); ok {
			return fmt.Sprintf("%q", s)
		}
		return fmt.Sprintf("str(len %s)", termStr(x.n, 2))
	case Ptr:
		return fmt.Sprintf("&%d%v", x.obj, x.path)
	case SliceV:
		return fmt.Sprintf("slice(%d%v off %s len %s)", x.obj, x.path, termStr(x.off, 2), termStr(x.len, 2))
	case IfaceV:
		if x.typ == nil {
			return "iface(nil)"
		}
		return fmt.Sprintf("iface(%s %s)", x.typ, valStr(x.val))
	case *Agg:
		return fmt.Sprintf("agg%d", len(x.elems))
	case BigV:
		return "big:" + termStr(x.t, 4)
	}
	return fmt.Sprintf("%T", v)
}

type bigInt = big.Int
