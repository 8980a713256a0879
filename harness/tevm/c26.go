package tevm

import "github.com/philhofer/seth/zzsym"

// Rolling the tree back restores the snapshot exactly.
//
//zz:prop=C26
//zz:use common_tree
//zz:use common_hist

// Every history of a few operations from the empty tree, then a rollback to
// any snapshot.
//
//zz:budget=140 split=16 splitdepth=4
//zz:cover rolled
func ZZ_C26_history() {
	var h zzHist
	h.steps(zzsym.Bound(5, 6))
	h.same("history")
	if len(h.snaps) > 0 {
		h.roll(zzsym.Choose("to", len(h.snaps)))
		h.same("rolled back")
		zzsym.Cover("rolled")
	}
}

// Modifications of every kind between nested snapshots, rolled back step by
// step in any order, with further modifications in between.
//
//zz:budget=100 split=8 splitdepth=4
func ZZ_C26_nested() {
	var h zzHist
	start := zzsym.Choose("start", 2)
	to := zzsym.Choose("to", 3)
	again := zzsym.Choose("again", to+1)
	var ops []int
	for i := zzsym.Bound(1, 2); i > 0; i-- {
		ops = append(ops, zzsym.Choose("op", 2))
	}
	if start == 0 {
		h.put()
	}
	h.snap()
	h.put()
	h.snap()
	for _, op := range ops {
		if op == 0 {
			h.put()
		} else {
			h.del()
		}
	}
	h.snap()
	h.del()
	h.roll(to)
	h.same("rolled back")
	h.put()
	h.roll(again)
	h.same("rolled back twice")
}

// The tree may become empty and be snapshotted then.
//
//zz:budget=60
func ZZ_C26_emptied() {
	var h zzHist
	h.put()
	k := h.all[0]
	h.snap()
	h.t.Delete(k)
	h.m.del(k)
	h.snap()
	h.put()
	if zzsym.Choose("more", 2) == 1 {
		h.snap()
		h.del()
	}
	h.roll(zzsym.Choose("to", len(h.snaps)))
	h.same("rolled back")
	h.put()
	h.roll(zzsym.Choose("to", len(h.snaps)))
	h.same("rolled back twice")
}
