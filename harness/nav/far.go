package nav

import (
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// far is a store numbered from anywhere up to 2^62 behind the class nodes and
// any history of three operations in it.
func far() (*lib.World, *lib.Store) {
	s := lib.NewStore()
	k := nd.Shard(4 * 28)
	w := lib.NewWorld(lib.NewSpread(s, k/28))
	k %= 28
	w.Do(lib.OpStory, 0, "a", "b")
	w.Nth(k%4, "a", "c")
	w.Nth(k/4, "b a", "a")
	return w, s
}

// Identifiers far from zero.
//
//verif:bounds every history of a story and 2 further operations, in a store that numbers its nodes from any number up to 2^62, 1, 2^8, 2^16 or 2^32 apart
func H_C06_far() {
	w, _ := far()
	for i := range w.Remarks {
		for j := 0; j < i; j++ {
			nd.Assert(w.Remarks[i].ID != w.Remarks[j].ID, "two remarks share an identifier")
		}
		x := w.Fetch(w.G, i)
		w.CheckText(x, i)
		lib.See(w.Remarks[i].R).CheckSame(x)
		stepped(w, x)
	}
	nd.Cover("end")
}

// Lookups far from zero.
//
//verif:bounds any 64-bit number looked up in a store, with a story and any 2 further operations, that numbers its nodes from 100, 2^8, 2^16, 2^32 or 2^53, up to 2^32 apart
func H_C07_far() {
	base := []uint{100, 1 << 8, 1 << 16, 1 << 32, 1 << 53}
	k := nd.Shard(20)
	sp := &lib.Spread{S: lib.NewStore(), Base: base[k%5], Stride: []uint{1, 1 << 8, 1 << 16, 1 << 32}[k%4]}
	w := lib.NewWorld(sp)
	w.Do(lib.OpStory, 0, "a", "b")
	w.Nth(k/5, "a", "c")
	w.Any("b", "a")
	for i := range w.Remarks {
		w.Fetch(w.G, i)
	}
	id := nd.Uint()
	for v := uint(0); v < 256; v++ {
		if nd.Fork(id == sp.Out(v)) {
			id = sp.Out(v)
			break
		}
	}
	r, err := w.G.GetRemark(id)
	for i := range w.Remarks {
		if id == w.Remarks[i].ID {
			nd.Assert(err == nil && r.Aggregate != nil, "a remark is not found by its identifier")
			return
		}
	}
	nd.Assert(err != nil && r.Aggregate == nil, "a number that identifies no remark gives one")
	nd.Cover("end")
}

// Reopening far from zero.
//
//verif:bounds every history of a story and 2 further operations, in a store that numbers its nodes from any number up to 2^62, 1, 2^8, 2^16 or 2^32 apart; reopened and one further operation
func H_C08_far() {
	w, s := far()
	w.Reopen()
	w.CheckAll()
	details := s.CountClass(5)
	w.Do(lib.OpFact, 0, w.Remarks[1].Object, w.Remarks[1].Property)
	nd.Assert(s.CountClass(5) == details, "a known detail is stored again")
	w.Reopen()
	w.CheckAll()
	nd.Cover("end")
}

// Facts far from zero.
//
//verif:bounds every history of a story and 2 further operations, in a store that numbers its nodes from any number up to 2^62, 1, 2^8, 2^16 or 2^32 apart
func H_C09_far() {
	w, _ := far()
	w.Do(lib.OpFact, 0, "a", "b")
	for i := range w.Remarks {
		w.CheckFacts(w.Remarks[i].R, i)
		w.CheckFacts(w.Fetch(w.G, i), i)
	}
	nd.Cover("end")
}

// First facts far from zero.
//
//verif:bounds every history of a story and 2 further operations, in a store that numbers its nodes from any number up to 2^62, 1, 2^8, 2^16 or 2^32 apart
func H_C10_far() {
	w, _ := far()
	for i := range w.Remarks {
		w.CheckFirst(w.Remarks[i].R, i)
		w.CheckStoryText(w.Remarks[i].R, i)
	}
	nd.Cover("end")
}

// Stories far from zero.
//
//verif:bounds every history of a story and 2 further operations, in a store that numbers its nodes from any number up to 2^62, 1, 2^8, 2^16 or 2^32 apart
func H_C11_far() {
	w, _ := far()
	w.Do(lib.OpChild, 0, "a", "b")
	w.Do(lib.OpChild, 1, "a", "b")
	for i := range w.Remarks {
		w.CheckStories(w.Remarks[i].R, i)
		w.CheckStories(w.Fetch(w.G, i), i)
	}
	nd.Cover("end")
}

// Steps far from zero.
//
//verif:bounds every history of a story and 2 further operations, in a store that numbers its nodes from any number up to 2^62, 1, 2^8, 2^16 or 2^32 apart; steps to depth 2
func H_C12_far() {
	w, _ := far()
	for i := range w.Remarks {
		w.Full(w.Remarks[i].R, i, 2)
	}
	nd.Cover("end")
}
