package tevm

import (
	"bytes"

	"github.com/philhofer/seth/zzsym"
)

// The key-value tree behaves as a map.
//
//zz:prop=C25
//zz:use common_tree

func zzTreeOps(t *Tree, m *zzMap, n, lens int) {
	for i := 0; i < n; i++ {
		switch zzsym.Choose("op", 2) {
		case 0:
			k, v := zzKey("k", lens), zzsym.Bytes("v", 1)
			t.Insert(k, v)
			m.put(k, v)
		case 1:
			k := zzKey("k", lens)
			had, _ := m.get(k)
			got := t.Delete(k)
			zzsym.Assert(got == had, "deleting reports whether the key was stored")
			m.del(k)
		}
	}
}

// Any sequence of insertions and deletions, then a lookup of any key.
//
//zz:budget=80
//zz:cover found missing
func ZZ_C25_lookup() {
	var t Tree
	var m zzMap
	zzTreeOps(&t, &m, zzsym.Bound(4, 5), 1)
	q := zzKey("q", 1)
	zzSame(&t, &m, q, "lookup")
	if t.Get(q) == nil {
		zzsym.Cover("missing")
	} else {
		zzsym.Cover("found")
	}
}

// Four insertions (five in the thorough run) and one deletion or two, then a lookup of any key.
//
//zz:budget=80 merge=off split=8 splitdepth=2
func ZZ_C25_delete() {
	var t Tree
	var m zzMap
	dels := 1 + zzsym.Choose("dels", 2)
	n := zzsym.Bound(4, 5)
	for i := 0; i < n; i++ {
		k, v := zzsym.Bytes("k", 1), zzsym.Bytes("v", 1)
		t.Insert(k, v)
		m.put(k, v)
	}
	for i := 0; i < dels; i++ {
		k := m.keys[zzsym.Choose("which", n)]
		had, _ := m.get(k)
		zzsym.Assert(t.Delete(k) == had, "deleting reports whether the key was stored")
		m.del(k)
	}
	zzSame(&t, &m, zzsym.Bytes("q", 1), "lookup")
}

// The same with keys of several lengths, the empty key among them.
//
//zz:budget=80
func ZZ_C25_lengths() {
	var t Tree
	var m zzMap
	zzTreeOps(&t, &m, zzsym.Bound(3, 4), 3)
	zzSame(&t, &m, zzKey("q", 3), "lookup")
}

// Iteration visits each stored key once, in order, and stops when told to.
//
//zz:budget=80
//zz:cover two three
func ZZ_C25_iterate() {
	var t Tree
	var m zzMap
	zzTreeOps(&t, &m, zzsym.Bound(4, 5), 1)
	var keys, vals [][]byte
	t.Iterate(func(k, v []byte) bool {
		keys, vals = append(keys, k), append(vals, v)
		return true
	})
	dir := 0
	for i := range keys {
		has, val := m.get(keys[i])
		zzsym.Assert(zzsym.And(has, int(vals[i][0]) == val), "iteration yields stored pairs")
		if i > 0 {
			c := bytes.Compare(keys[i-1], keys[i])
			zzsym.Assert(c != 0, "no key is visited twice")
			zzsym.Assert(dir == 0 || c == dir, "keys come in order")
			dir = c
		}
	}
	q := zzsym.Bytes("q", 1)
	seen := false
	for i := range keys {
		seen = zzsym.Or(seen, zzsym.EqBytes(keys[i], q))
	}
	has, _ := m.get(q)
	zzsym.Assert(seen == has, "every stored key is visited")
	if len(keys) == 2 {
		zzsym.Cover("two")
	}
	if len(keys) >= 3 {
		zzsym.Cover("three")
	}
	if len(keys) > 0 {
		stop, n := zzsym.Choose("stop", len(keys))+1, 0
		t.Iterate(func(k, v []byte) bool {
			zzsym.Assert(zzsym.EqBytes(k, keys[n]), "iteration is repeatable")
			n++
			return n < stop
		})
		zzsym.Assert(n == stop, "iteration stops when told to")
	}
}
