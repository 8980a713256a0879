package main

import (
	"go/types"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The primitives the Go model of encoding/json (zzsym/jsonmodel.go) reaches
// values through: a ref is an interface value holding a *T.

const (
	rvInvalid = iota
	rvBool
	rvInt
	rvUint
	rvString
	rvSlice
	rvArray
	rvMap
	rvPtr
	rvStruct
	rvIface
	rvOther
)

type jsField struct {
	name   string
	omit   bool
	quoted bool
	path   []int
	depth  int
	tagged bool
}

var (
	jsFieldMu    sync.Mutex
	jsFieldCache = map[types.Type][]jsField{}
)

func jsFields(t types.Type) []jsField {
	jsFieldMu.Lock()
	f, ok := jsFieldCache[t]
	jsFieldMu.Unlock()
	if ok {
		return f
	}
	var all []jsField
	var walk func(t types.Type, path []int, seen map[types.Type]bool)
	walk = func(t types.Type, path []int, seen map[types.Type]bool) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || seen[t] {
			return
		}
		seen[t] = true
		defer delete(seen, t)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			p := append(append([]int{}, path...), i)
			ft := f.Type()
			if pt, ok := ft.(*types.Pointer); ok && f.Embedded() {
				ft = pt.Elem()
			}
			_, isStruct := ft.Underlying().(*types.Struct)
			if f.Embedded() && isStruct && parts[0] == "" {
				walk(ft, p, seen)
				continue
			}
			if !f.Exported() {
				continue
			}
			jf := jsField{name: parts[0], path: p, depth: len(p), tagged: parts[0] != ""}
			if jf.name == "" {
				jf.name = f.Name()
			}
			for _, o := range parts[1:] {
				jf.omit = jf.omit || o == "omitempty"
				jf.quoted = jf.quoted || o == "string"
			}
			all = append(all, jf)
		}
	}
	walk(t, nil, map[types.Type]bool{})
	var out []jsField
	for i, f := range all {
		keep := true
		for j, g := range all {
			if i == j || f.name != g.name {
				continue
			}
			if g.depth < f.depth || g.depth == f.depth && (g.tagged || !f.tagged) {
				keep = false
			}
		}
		if keep {
			out = append(out, f)
		}
	}
	jsFieldMu.Lock()
	jsFieldCache[t] = out
	jsFieldMu.Unlock()
	return out
}

func jsonIntrinsics(t map[string]intrinsic) {
	type ref struct {
		t types.Type
		p Ptr
	}
	toRef := func(e *Engine, st *State, v Value) ref {
		iv, ok := e.resolve(st, v).(IfaceV)
		if !ok || iv.typ == nil {
			e.unsup("json model: not a reference")
		}
		pt, ok := iv.typ.Underlying().(*types.Pointer)
		if !ok {
			e.unsup("json model: reference of type %s", iv.typ)
		}
		p, ok := e.resolve(st, iv.val).(Ptr)
		if !ok {
			e.unsup("json model: reference holds %T", iv.val)
		}
		return ref{pt.Elem(), p}
	}
	mk := func(tt types.Type, p Ptr) Value { return IfaceV{types.NewPointer(tt), p} }
	ld := func(e *Engine, st *State, r ref) Value { return e.resolve(st, e.load(st, r.p)) }
	rv := func(name string, f func(e *Engine, st *State, r ref, a []Value) Value) {
		t[zzp+name] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			return f(e, st, toRef(e, st, a[0]), a), true
		}
	}
	bl := func(e *Engine, b bool) Value {
		if b {
			return e.c.True
		}
		return e.c.False
	}
	rv("RvKind", func(e *Engine, st *State, r ref, a []Value) Value {
		k := rvOther
		switch u := r.t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsBoolean != 0:
				k = rvBool
			case u.Info()&types.IsUnsigned != 0:
				k = rvUint
			case u.Info()&types.IsInteger != 0:
				k = rvInt
			case u.Info()&types.IsString != 0:
				k = rvString
			}
		case *types.Slice:
			k = rvSlice
		case *types.Array:
			k = rvArray
		case *types.Map:
			k = rvMap
		case *types.Pointer:
			k = rvPtr
		case *types.Struct:
			k = rvStruct
		case *types.Interface:
			k = rvIface
		}
		return e.i64(int64(k))
	})
	t[zzp+"RvBox"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		iv := e.resolve(st, a[0]).(IfaceV)
		id := e.alloc(st, iv.typ, iv.val, "json")
		return mk(iv.typ, Ptr{obj: id}), true
	}
	t[zzp+"RvIsPtr"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		iv := e.resolve(st, a[0]).(IfaceV)
		_, ok := iv.typ.Underlying().(*types.Pointer)
		return bl(e, ok), true
	}
	t[zzp+"RvNilPtr"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		r := toRef(e, st, a[0])
		return bl(e, r.p.obj == 0), true
	}
	rv("RvLoad", func(e *Engine, st *State, r ref, a []Value) Value {
		v := ld(e, st, r)
		if types.IsInterface(r.t) {
			return v
		}
		return IfaceV{r.t, v}
	})
	rv("RvNew", func(e *Engine, st *State, r ref, a []Value) Value {
		el := r.t.Underlying().(*types.Pointer).Elem()
		p := Ptr{obj: e.alloc(st, el, e.zero(el), "json")}
		e.store(st, r.p, p)
		return IfaceV{r.t, p}
	})
	rv("RvSetZero", func(e *Engine, st *State, r ref, a []Value) Value {
		e.store(st, r.p, e.zero(r.t))
		return nil
	})
	rv("RvIsNil", func(e *Engine, st *State, r ref, a []Value) Value {
		switch v := ld(e, st, r).(type) {
		case Ptr:
			return bl(e, v.obj == 0)
		case SliceV:
			return bl(e, v.obj == 0)
		case MapV:
			return bl(e, v.obj == 0)
		case IfaceV:
			return bl(e, v.typ == nil)
		case FuncV:
			return bl(e, v.fn == nil && v.prim == "")
		case ChanV:
			return bl(e, v.obj == 0)
		}
		return bl(e, false)
	})
	width := func(r ref) (int, bool) {
		w, signed, _ := basicWidth(r.t.Underlying().(*types.Basic))
		return w, signed
	}
	rv("RvInt", func(e *Engine, st *State, r ref, a []Value) Value {
		x := e.term(st, ld(e, st, r))
		if _, signed := width(r); signed {
			return e.c.SExt(x, 64)
		}
		return e.c.ZExt(x, 64)
	})
	rv("RvSetInt", func(e *Engine, st *State, r ref, a []Value) Value {
		w, _ := width(r)
		x := e.term(st, a[1])
		if w < 64 {
			x = e.c.Extract(x, w-1, 0)
		}
		e.store(st, r.p, x)
		return nil
	})
	rv("RvBits", func(e *Engine, st *State, r ref, a []Value) Value {
		w, _ := width(r)
		return e.i64(int64(w))
	})
	rv("RvBool", func(e *Engine, st *State, r ref, a []Value) Value { return ld(e, st, r) })
	rv("RvString", func(e *Engine, st *State, r ref, a []Value) Value { return ld(e, st, r) })
	set := func(e *Engine, st *State, r ref, a []Value) Value {
		e.store(st, r.p, e.resolve(st, a[1]))
		return nil
	}
	rv("RvSetBool", set)
	rv("RvSetString", set)
	rv("RvSetBytes", set)
	rv("RvBytes", func(e *Engine, st *State, r ref, a []Value) Value { return ld(e, st, r) })
	rv("RvLen", func(e *Engine, st *State, r ref, a []Value) Value {
		if at, ok := r.t.Underlying().(*types.Array); ok {
			return e.i64(at.Len())
		}
		switch v := ld(e, st, r).(type) {
		case SliceV:
			return v.len
		case StrV:
			if v.opaque != "" {
				return e.i64(1)
			}
			return v.n
		case MapV:
			if v.obj == 0 {
				return e.i64(0)
			}
			n := e.i64(0)
			for _, ent := range e.mapObj(st, v).ents {
				if ent.g != nil {
					e.unsup("json model: map with conditional entries")
				}
				n = e.c.Add(n, e.i64(1))
			}
			return n
		}
		e.unsup("json model: length of %s", r.t)
		return nil
	})
	rv("RvCap", func(e *Engine, st *State, r ref, a []Value) Value { return ld(e, st, r).(SliceV).cap })
	rv("RvIndex", func(e *Engine, st *State, r ref, a []Value) Value {
		i := int(int64(e.concretize(st, e.term(st, a[1]))))
		if at, ok := r.t.Underlying().(*types.Array); ok {
			return mk(at.Elem(), r.p.extend(PE{idx: i}))
		}
		s := ld(e, st, r).(SliceV)
		off := int(e.concretize(st, s.off))
		return mk(r.t.Underlying().(*types.Slice).Elem(), Ptr{s.obj, s.path}.extend(PE{idx: off + i}))
	})
	rv("RvSwap", func(e *Engine, st *State, r ref, a []Value) Value {
		i := int(int64(e.concretize(st, e.term(st, a[1]))))
		j := int(int64(e.concretize(st, e.term(st, a[2]))))
		s := ld(e, st, r).(SliceV)
		off := int(e.concretize(st, s.off))
		p, q := Ptr{s.obj, s.path}.extend(PE{idx: off + i}), Ptr{s.obj, s.path}.extend(PE{idx: off + j})
		x, y := e.load(st, p), e.load(st, q)
		unown(x)
		unown(y)
		e.store(st, p, y)
		e.store(st, q, x)
		return nil
	})
	rv("RvResize", func(e *Engine, st *State, r ref, a []Value) Value {
		n := int(int64(e.concretize(st, e.term(st, a[1]))))
		c := int(int64(e.concretize(st, e.term(st, a[2]))))
		s := ld(e, st, r).(SliceV)
		if c <= int(e.concretize(st, s.cap)) && s.obj != 0 {
			if n == 0 && c == 0 { // the empty slice the real code installs
				s = e.newSlice(st, r.t.Underlying().(*types.Slice).Elem(), nil)
			}
			s.len = e.i64(int64(n))
			e.store(st, r.p, s)
			return nil
		}
		el := r.t.Underlying().(*types.Slice).Elem()
		old := e.readSlice(st, s, int(e.concretize(st, s.len)))
		vals := append([]Value{}, old...)
		for i := range vals {
			unown(vals[i])
		}
		for len(vals) < c {
			vals = append(vals, e.zero(el))
		}
		ns := e.newSlice(st, el, vals)
		ns.len = e.i64(int64(n))
		e.store(st, r.p, ns)
		return nil
	})
	rv("RvElemIsByte", func(e *Engine, st *State, r ref, a []Value) Value {
		el := r.t.Underlying().(*types.Slice).Elem()
		b, ok := el.Underlying().(*types.Basic)
		return bl(e, ok && b.Kind() == types.Uint8 && !e.hasMethod(el, "MarshalJSON") && !e.hasMethod(el, "MarshalText"))
	})
	rv("RvMapKeys", func(e *Engine, st *State, r ref, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		var out []Value
		if m := ld(e, st, r).(MapV); m.obj != 0 {
			for _, ent := range e.mapObj(st, m).ents {
				if ent.g != nil {
					e.unsup("json model: map with conditional entries")
				}
				out = append(out, mk(mt.Key(), Ptr{obj: e.alloc(st, mt.Key(), ent.k, "json")}))
			}
		}
		return e.newSlice(st, types.NewInterfaceType(nil, nil), out)
	})
	rv("RvMapGet", func(e *Engine, st *State, r ref, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		v, ok := e.mapGet(st, ld(e, st, r).(MapV), ld(e, st, toRef(e, st, a[1])))
		if !ok {
			e.unsup("json model: missing map key")
		}
		return mk(mt.Elem(), Ptr{obj: e.alloc(st, mt.Elem(), v, "json")})
	})
	rv("RvMapSet", func(e *Engine, st *State, r ref, a []Value) Value {
		e.mapSet(st, ld(e, st, r).(MapV), ld(e, st, toRef(e, st, a[1])), ld(e, st, toRef(e, st, a[2])))
		return nil
	})
	rv("RvMakeMap", func(e *Engine, st *State, r ref, a []Value) Value {
		e.store(st, r.p, MapV{e.alloc(st, r.t, &MapObj{}, "map")})
		return nil
	})
	rv("RvNewKey", func(e *Engine, st *State, r ref, a []Value) Value {
		k := r.t.Underlying().(*types.Map).Key()
		return mk(k, Ptr{obj: e.alloc(st, k, e.zero(k), "json")})
	})
	rv("RvNewElem", func(e *Engine, st *State, r ref, a []Value) Value {
		k := r.t.Underlying().(*types.Map).Elem()
		return mk(k, Ptr{obj: e.alloc(st, k, e.zero(k), "json")})
	})
	rv("RvIfaceSet", set)
	rv("RvIfaceAny", func(e *Engine, st *State, r ref, a []Value) Value {
		return bl(e, r.t.Underlying().(*types.Interface).NumMethods() == 0)
	})
	rv("RvNF", func(e *Engine, st *State, r ref, a []Value) Value { return e.i64(int64(len(jsFields(r.t)))) })
	fi := func(e *Engine, st *State, r ref, a []Value) jsField {
		return jsFields(r.t)[int(e.concretize(st, e.term(st, a[1])))]
	}
	rv("RvFName", func(e *Engine, st *State, r ref, a []Value) Value { return e.str(fi(e, st, r, a).name) })
	rv("RvFOmit", func(e *Engine, st *State, r ref, a []Value) Value { return bl(e, fi(e, st, r, a).omit) })
	rv("RvFQuoted", func(e *Engine, st *State, r ref, a []Value) Value { return bl(e, fi(e, st, r, a).quoted) })
	rv("RvFRef", func(e *Engine, st *State, r ref, a []Value) Value {
		f := fi(e, st, r, a)
		alloc := e.term(st, a[2]).isTrue()
		p, tt := r.p, r.t
		for i, k := range f.path {
			if pt, ok := tt.Underlying().(*types.Pointer); ok && i > 0 {
				q := e.resolve(st, e.load(st, p)).(Ptr)
				if q.obj == 0 {
					if !alloc {
						return IfaceV{}
					}
					q = Ptr{obj: e.alloc(st, pt.Elem(), e.zero(pt.Elem()), "json")}
					e.store(st, p, q)
				}
				p, tt = q, pt.Elem()
			}
			p, tt = p.extend(PE{idx: k}), tt.Underlying().(*types.Struct).Field(k).Type()
		}
		return mk(tt, p)
	})
	t[zzp+"RvUnsup"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		e.unsup("%s", e.cstr(st, a[0]))
		return nil, true
	}
	t[zzp+"JsOpaque"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		s, ok := e.resolve(st, a[0]).(StrV)
		return bl(e, ok && s.opaque != ""), true
	}
	special := func(e *Engine, b *Term) *Term {
		eq := func(x byte) *Term { return e.c.Eq(b, e.c.BV(8, uint64(x))) }
		r := e.c.Or(e.c.Ult(b, e.c.BV(8, ' ')), e.c.Ule(e.c.BV(8, 0x80), b))
		for _, x := range []byte{'"', '\\', '<', '>', '&'} {
			r = e.c.Or(r, eq(x))
		}
		return r
	}
	constPlain := func(x uint64) bool {
		return x >= ' ' && x < 0x80 && x != '"' && x != '\\' && x != '<' && x != '>' && x != '&'
	}
	// plain: provably an unremarkable string byte, whatever the inputs
	plain := func(e *Engine, st *State, b *Term) bool {
		if b.IsConst() {
			return constPlain(b.val)
		}
		if e.plainB == nil {
			e.plainB = map[*Term]bool{}
		}
		ok, hit := e.plainB[b]
		if !hit {
			g := special(e, b)
			if g.isFalse() {
				ok = true
			} else if v, known := st.known(e.c, g); known {
				return !v // decided on this path only
			} else {
				v, _ := e.s.Feasible(nil, g, nil)
				ok = v == Unsat
			}
			e.plainB[b] = ok
		}
		return ok
	}
	// plainHere: provably so on this path
	plainHere := func(e *Engine, st *State, bs []*Term) bool {
		g := e.c.False
		for _, b := range bs {
			if !plain(e, st, b) {
				g = e.c.Or(g, special(e, b))
			}
		}
		if g.isFalse() {
			return true
		}
		if v, known := st.known(e.c, g); known {
			return !v
		}
		v, _ := e.s.Feasible(st.pc, g, st.hint)
		return v == Unsat
	}
	t[zzp+"JsPlain"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return bl(e, plainHere(e, st, e.bytesOf(st, a[0]))), true
	}
	t[zzp+"JsPlainRun"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		bs := e.bytesOf(st, a[0])
		i := int(int64(e.concretize(st, e.term(st, a[1]))))
		// bytes up to the first constant that ends a run, all shown together
		j := i
		for j < len(bs) && !(bs[j].IsConst() && !constPlain(bs[j].val)) {
			j++
		}
		if j > i && plainHere(e, st, bs[i:j]) {
			return e.i64(int64(j - i)), true
		}
		k := i
		for k < j && plain(e, st, bs[k]) {
			k++
		}
		return e.i64(int64(k - i)), true
	}
}

func init() {
	extraIntrinsics = append(extraIntrinsics, func(t map[string]intrinsic) {
		// no GODEBUG setting is in force
		t["(*internal/godebug.Setting).Value"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			return e.str(""), true
		}
		t["(*internal/godebug.Setting).IncNonDefault"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			return nil, true
		}
	})
}

var extraIntrinsics []func(map[string]intrinsic)
