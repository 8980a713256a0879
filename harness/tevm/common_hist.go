package tevm

import "github.com/philhofer/seth/zzsym"

type zzSnap struct {
	id    int
	state zzMap
}

// zzHist is a tree, its reference and the snapshots that can be rolled back to.
type zzHist struct {
	t     Tree
	m     zzMap
	snaps []zzSnap
	all   [][]byte // every key used
}

func (h *zzHist) put() {
	k, v := zzsym.Bytes("k", 1), zzsym.Bytes("v", 1)
	h.all = append(h.all, k)
	h.t.Insert(k, v)
	h.m.put(k, v)
}

func (h *zzHist) del() {
	k := zzsym.Bytes("k", 1)
	h.all = append(h.all, k)
	h.t.Delete(k)
	h.m.del(k)
}

func (h *zzHist) snap() {
	h.snaps = append(h.snaps, zzSnap{h.t.Snapshot(), h.m})
}

// roll goes back to the i-th snapshot; later ones are gone, it and the older
// ones stay.
func (h *zzHist) roll(i int) {
	h.t.Rollback(h.snaps[i].id)
	h.m = h.snaps[i].state
	h.snaps = h.snaps[:i+1]
}

// steps performs n arbitrary operations.
func (h *zzHist) steps(n int) {
	for i := 0; i < n; i++ {
		switch op := zzsym.Choose("op", 3+len(h.snaps)); op {
		case 0:
			h.put()
		case 1:
			h.del()
		case 2:
			h.snap()
		default:
			h.roll(op - 3)
		}
	}
}

func (h *zzHist) same(what string) { zzSameAll(&h.t, &h.m, h.all, what) }
