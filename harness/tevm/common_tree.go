package tevm

import "github.com/philhofer/seth/zzsym"

// zzMap is the reference: a log of writes, the last one to a key counts.
type zzMap struct {
	keys, vals [][]byte
	live       []bool
}

func (m *zzMap) put(k, v []byte) { m.add(k, v, true) }
func (m *zzMap) del(k []byte)    { m.add(k, nil, false) }
func (m *zzMap) add(k, v []byte, live bool) {
	m.keys = append(m.keys[:len(m.keys):len(m.keys)], k)
	m.vals = append(m.vals[:len(m.vals):len(m.vals)], v)
	m.live = append(m.live[:len(m.live):len(m.live)], live)
}

// has reports whether k is stored, and the value (0 when it is not); values
// are one byte long.
func (m *zzMap) get(k []byte) (bool, int) {
	has, val := false, 0
	for i := range m.keys {
		if len(m.keys[i]) != len(k) {
			continue
		}
		eq := zzsym.EqBytes(m.keys[i], k)
		if m.live[i] {
			has = zzsym.Or(has, eq)
			val = zzsym.IteInt(eq, int(m.vals[i][0]), val)
		} else {
			has = zzsym.And(has, !eq)
			val = zzsym.IteInt(eq, 0, val)
		}
	}
	return has, val
}

// zzKey is an arbitrary key: a byte, sometimes none or two.
func zzKey(name string, lens int) []byte {
	switch zzsym.Choose(name+"len", lens) {
	case 1:
		return nil
	case 2:
		return zzsym.Bytes(name, 2)
	}
	return zzsym.Bytes(name, 1)
}

// zzSame compares the tree with the reference through its public methods.
func zzSame(t *Tree, m *zzMap, q []byte, what string) {
	got := t.Get(q)
	has, val := m.get(q)
	if got == nil {
		zzsym.Assert(!has, what+": a stored key is found")
	} else {
		zzsym.Assert(has, what+": a key that is not stored is not found")
		zzsym.Assert(len(got) == 1 && int(got[0]) == val, what+": the value is the last one stored")
	}
}

// zzSameAll compares every key written so far and everything the tree iterates.
func zzSameAll(t *Tree, m *zzMap, all [][]byte, what string) {
	for _, k := range all {
		zzSame(t, m, k, what)
	}
	t.Iterate(func(k, v []byte) bool {
		has, val := m.get(k)
		zzsym.Assert(zzsym.And(has, len(v) == 1 && int(v[0]) == val), what+": only stored pairs are visited")
		return true
	})
}
