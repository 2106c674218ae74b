package nav

import (
	abstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// many is a store of many remarks and one further operation of any kind on any
// of them.
func many() *lib.World {
	return grown(140, 270)
}

func grown(more int, most int) *lib.World {
	w := lib.NewWorld(lib.NewStore())
	n, k := lib.Size(40, more)
	if nd.Thorough() {
		n, k = lib.Size(60, most)
	}
	w.Grow(n)
	w.Nth(k, "b", "c a")
	return w
}

// Identifiers in a large store.
//
//verif:bounds a store of 40 remarks (60 in the thorough tier) of all kinds and any one further operation on any of them, or of 140 (270) and one on any of four
func H_C06_many() {
	w := many()
	for i := range w.Remarks {
		for j := 0; j < i; j++ {
			nd.Assert(w.Remarks[i].ID != w.Remarks[j].ID, "two remarks share an identifier")
		}
		x := w.Fetch(w.G, i)
		w.CheckText(x, i)
		lib.See(w.Remarks[i].R).CheckSame(x)
	}
	nd.Cover("end")
}

// Reopening a large store.
//
//verif:bounds a store of 40 remarks (60 in the thorough tier) of all kinds and any one further operation on any of them, or of 100 and one on any of four
func H_C08_many() {
	w := grown(100, 100)
	f := lib.NewWrap(w.S.(*lib.Store))
	w.S = f
	reopen(w, f)
	for i := range w.Remarks {
		if len(w.Remarks) < 100 || i%4 == 0 {
			w.Full(w.Remarks[i].R, i, 0)
		}
	}
	w.Do(lib.OpFact, 1, "a", "b a")
	w.Do(lib.OpChild, 2, "a", "b a")
	reopen(w, f)
	for i := range w.Remarks {
		if len(w.Remarks) < 100 || i%4 == 0 {
			w.Full(w.Remarks[i].R, i, 0)
		}
	}
	nd.Cover("end")
}

// Facts of a large store.
//
//verif:bounds a store of 40 remarks (60 in the thorough tier) of all kinds and any one further operation on any of them, or of 140 (270) and one on any of four
func H_C09_many() {
	w := many()
	for i := range w.Remarks {
		w.CheckFacts(w.Remarks[i].R, i)
		w.CheckFacts(w.Fetch(w.G, i), i)
	}
	nd.Cover("end")
}

// A story of very many facts.
//
//verif:bounds a story of 140 facts (270 in the thorough tier), the later ones added from the last remark or all from the first, and one more added from the first, second, middle or last
func H_C09_wide() {
	w := lib.NewWorld(lib.NewStore())
	w.Do(lib.OpStory, 0, "a", "b")
	n := 140
	if nd.Thorough() {
		n = 270
	}
	k := nd.Shard(8)
	for i := 1; i < n; i++ {
		j := 0
		if k%2 == 0 {
			j = i - 1
		}
		w.Do(lib.OpFact, j, "a", "b")
	}
	w.Do(lib.OpFact, []int{0, 1, n / 2, n - 1}[k/2], "a", "b")
	r := w.Remarks[0].R
	for i := range w.Remarks {
		w.CheckFacts(r, i)
		if i+1 < len(w.Remarks) {
			x, err := r.GetNextFact()
			nd.Assert(err == nil, "stepping to the next fact fails")
			r = x
		}
	}
	nd.Cover("end")
}

// First facts of a large store.
//
//verif:bounds a store of 40 remarks (60 in the thorough tier) of all kinds and any one further operation on any of them, or of 140 (270) and one on any of four
func H_C10_many() {
	w := many()
	for i := range w.Remarks {
		w.CheckFirst(w.Remarks[i].R, i)
		w.CheckStoryText(w.Remarks[i].R, i)
		w.CheckFirst(w.Fetch(w.G, i), i)
	}
	nd.Cover("end")
}

// Stories of a large store.
//
//verif:bounds a store of 40 remarks (60 in the thorough tier) of all kinds and any one further operation on any of them, or of 140 (270) and one on any of four
func H_C11_many() {
	w := many()
	for i := range w.Remarks {
		w.CheckStories(w.Remarks[i].R, i)
		w.CheckStories(w.Fetch(w.G, i), i)
	}
	nd.Cover("end")
}

// A story of very many children.
//
//verif:bounds a story of 140 children (270 in the thorough tier), each created from its first remark, or a chain of as many stories each the child of the one before, and one more created from the first, second, middle or last
func H_C11_wide() {
	w := lib.NewWorld(lib.NewStore())
	w.Do(lib.OpStory, 0, "a", "b")
	n := 140
	if nd.Thorough() {
		n = 270
	}
	k := nd.Shard(8)
	for i := 1; i < n; i++ {
		j := 0
		if k%2 == 0 {
			j = i - 1
		}
		w.Do(lib.OpChild, j, "a", "b")
	}
	w.Do(lib.OpChild, []int{0, 1, n / 2, n - 1}[k/2], "a", "b")
	for i := range w.Remarks {
		w.CheckStories(w.Remarks[i].R, i)
		w.CheckStories(w.Fetch(w.G, i), i)
		w.CheckFirst(w.Remarks[i].R, i)
	}
	nd.Cover("end")
}

// Steps in a large store.
//
//verif:bounds a store of 40 remarks (60 in the thorough tier) of all kinds and any one further operation on any of them, or of 140 (270) and one on any of four; every remark that a step from any remark gives
func H_C12_many() {
	w := many()
	for i := range w.Remarks {
		w.Full(w.Remarks[i].R, i, 1)
	}
	walk(w, w.Remarks[0].R, 0)
	nd.Cover("end")
}

// walk steps on from the remarks that steps give, never looking any up.
func walk(w *lib.World, r abstractRemark.Aggregate, i int) {
	for n := 0; n <= len(w.Remarks); n++ {
		w.Full(r, i, 0)
		j := w.NextFact(i)
		x, err := r.GetNextFact()
		if j < 0 {
			j = w.NextStory(i)
			x, err = r.GetNextStory()
		}
		if j < 0 {
			return
		}
		nd.Assert(err == nil, "a step fails")
		r, i = x, j
	}
}
