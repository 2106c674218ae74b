package nav

import (
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// view is a remark as somebody came to hold it.
type view struct {
	r lib.Handle
	i int
}

// views are remark i itself and what steps from it give, to a depth.
func views(w *lib.World, r lib.Handle, i int, depth int) []view {
	l := []view{{r, i}}
	if depth == 0 {
		return l
	}
	x, err := r.GetFirstFact()
	nd.Assert(err == nil, "asking for the first fact fails")
	l = append(l, views(w, x, w.First(i), depth-1)...)
	if n := w.NextFact(i); n >= 0 {
		x, err = r.GetNextFact()
		nd.Assert(err == nil, "stepping to the next fact fails")
		l = append(l, views(w, x, n, depth-1)...)
	}
	if n := w.NextStory(i); n >= 0 {
		x, err = r.GetNextStory()
		nd.Assert(err == nil, "stepping to the next story fails")
		l = append(l, views(w, x, n, depth-1)...)
	}
	return l
}

// asked runs a story and four further operations of any kind on any remarks
// and keeps everything that was ever given: each of it is asked again after
// every operation.
func asked(check func(w *lib.World, r lib.Handle, i int)) {
	w := lib.NewWorld(lib.NewStore())
	k := nd.Shard(28)
	var kept []view
	for n := 0; n < 5; n++ {
		switch n {
		case 0:
			w.Do(lib.OpStory, 0, "a", "b")
		case 1:
			w.Nth(k%4, "a", "c")
		case 2:
			w.Nth(k/4, "b", "a")
		default:
			w.Any("c", "b")
		}
		for _, v := range kept {
			check(w, v.r, v.i)
		}
		depth := 2
		if n == 4 {
			depth = 3
		}
		for i := range w.Remarks {
			kept = append(kept, views(w, w.Remarks[i].R, i, depth)...)
		}
		kept = append(kept, view{w.Fetch(w.G, n), n})
		for _, v := range kept {
			check(w, v.r, v.i)
		}
	}
	nd.Cover("end")
}

// Facts of whatever is held.
//
//verif:bounds every history of a story and 4 further operations on any remarks; every remark ever given, by an operation, a lookup or up to three steps in any order, asked again after every operation
func H_C09_asked() {
	asked(func(w *lib.World, r lib.Handle, i int) { w.CheckFacts(r, i) })
}

// First facts of whatever is held.
//
//verif:bounds every history of a story and 4 further operations on any remarks; every remark ever given, by an operation, a lookup or up to three steps in any order, asked again after every operation
func H_C10_asked() {
	asked(func(w *lib.World, r lib.Handle, i int) { w.CheckFirst(r, i) })
}

// Stories of whatever is held.
//
//verif:bounds every history of a story and 4 further operations on any remarks; every remark ever given, by an operation, a lookup or up to three steps in any order, asked again after every operation
func H_C11_asked() {
	asked(func(w *lib.World, r lib.Handle, i int) { w.CheckStories(r, i) })
}

// Questions to whatever is held.
//
//verif:bounds every history of a story and 4 further operations on any remarks; every remark ever given, by an operation, a lookup or up to three steps in any order, asked again after every operation
func H_C12_asked() {
	asked(func(w *lib.World, r lib.Handle, i int) {
		w.CheckFacts(r, i)
		w.CheckStories(r, i)
		w.CheckFirst(r, i)
		has, err := r.HasNextRemark()
		nd.Assert(err == nil, "asking for a next remark fails")
		_, err = r.GetNextRemark()
		nd.Assert(has == (err == nil), "having a next remark and stepping to it disagree")
	})
}

// Text of whatever is held.
//
//verif:bounds every history of a story and 3 further operations on any remarks; every remark ever given, by an operation, a lookup or up to two steps in any order, read again after every operation, all numbers looked up before each
func H_C06_asked() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	k := nd.Shard(28)
	var kept []view
	for n := 0; n < 4; n++ {
		// numbers that are no remark's, some not yet
		for id := uint(0); n > 0 && id < uint(len(s.Nodes))+100; id++ {
			r, err := w.G.GetRemark(id)
			nd.Assert(err != nil || r.GetIdentifier() == id, "a remark found by its identifier has another identifier")
		}
		switch n {
		case 0:
			w.Do(lib.OpStory, 0, "a", "b")
		case 1:
			w.Nth(k%4, "a", "c")
		case 2:
			w.Nth(k/4, "b", "a")
		default:
			w.Any("a", "b c")
		}
		for i := range w.Remarks {
			kept = append(kept, views(w, w.Remarks[i].R, i, 2)...)
		}
		for _, v := range kept {
			nd.Assert(v.r.GetIdentifier() == w.Remarks[v.i].ID, "a step gives another remark")
			w.CheckText(v.r, v.i)
			w.Fetch(w.G, v.i)
		}
	}
	nd.Cover("end")
}
