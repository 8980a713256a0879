package tevm

import "github.com/philhofer/seth/zzsym"

// Tree copies are isolated from each other.
//
//zz:prop=C27
//zz:use common_tree
//zz:use common_hist

// fork copies the tree at snapshot i; the copy knows the snapshots up to it.
func (h *zzHist) fork(i int) *zzHist {
	return &zzHist{
		t:     h.t.CopyAt(h.snaps[i].id),
		m:     h.snaps[i].state,
		snaps: append([]zzSnap(nil), h.snaps[:i+1]...),
		all:   h.all[:len(h.all):len(h.all)],
	}
}

// act performs one operation on h.
func (h *zzHist) act(op int) {
	switch op {
	case 0:
		h.put()
	case 1:
		h.snap()
	case 2:
		h.del()
	default:
		h.roll(op - 3)
	}
}

func zzBoth(a, b *zzHist, what string) {
	all := append(a.all[:len(a.all):len(a.all)], b.all...)
	zzSameAll(&a.t, &a.m, all, what+" (original)")
	zzSameAll(&b.t, &b.m, all, what+" (copy)")
}

func zzFork(a *zzHist, at, n int) {
	b := a.fork(at)
	for i := 0; i < n; i++ {
		h := a
		if zzsym.Choose("side", 2) == 1 {
			h = b
		}
		h.act(zzsym.Choose("act", 3+len(h.snaps)))
	}
	zzBoth(a, b, "contents")
	a.roll(zzsym.Choose("to", len(a.snaps)))
	b.roll(zzsym.Choose("to", len(b.snaps)))
	zzBoth(a, b, "contents after a rollback")
}

// A copy of the current contents; then any operations on either side.
//
//zz:budget=100 split=8 splitdepth=4
func ZZ_C27_current() {
	var a zzHist
	a.put()
	a.snap()
	if zzsym.Choose("more", 2) == 1 {
		a.put()
		a.snap()
	}
	zzFork(&a, len(a.snaps)-1, zzsym.Bound(2, 3))
}

// A copy of an old snapshot while the original has moved on, perhaps by
// rolling back.
//
//zz:budget=100 split=8 splitdepth=5
func ZZ_C27_old() {
	var a zzHist
	if zzsym.Choose("empty", 2) == 1 {
		a.snap()
	}
	a.put()
	a.snap()
	a.put()
	a.snap()
	if zzsym.Choose("back", 2) == 1 {
		at := zzsym.Choose("at", len(a.snaps))
		b := a.fork(at)
		a.roll(zzsym.Choose("to", len(a.snaps)))
		if zzsym.Bound(0, 1) == 1 || zzsym.Choose("who", 2) == 0 {
			a.put()
			b.snap()
			a.snap()
		} else {
			b.put()
			a.snap()
			b.snap()
		}
		zzBoth(&a, b, "contents")
		a.roll(zzsym.Choose("to", len(a.snaps)))
		b.roll(zzsym.Choose("to", len(b.snaps)))
		zzBoth(&a, b, "contents after a rollback")
		return
	}
	zzFork(&a, zzsym.Choose("at", len(a.snaps)), zzsym.Bound(1, 2))
}

// A copy of a copy: all three stay apart.
//
//zz:budget=100 split=4 splitdepth=3
func ZZ_C27_chain() {
	var a zzHist
	first, at2 := zzsym.Choose("first", 2), zzsym.Choose("at2", 2)
	zzsym.Assume(at2 <= first)
	a.put()
	a.snap()
	b := a.fork(0)
	if first == 1 {
		b.put()
		b.snap()
	}
	c := b.fork(at2)
	c.act(zzsym.Choose("act", 3+len(c.snaps)))
	b.put()
	if zzsym.Bound(0, 1) == 1 {
		c.put()
		a.put()
	}
	zzBoth(&a, b, "contents")
	zzBoth(b, c, "contents")
}
