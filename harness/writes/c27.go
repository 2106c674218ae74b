package writes

import (
	"github.com/mem-memov/semnet"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// ways is how many ways there are to come to the same operation.
const ways = 7

// found is remark i as steps from the first remark of its story give it.
func found(w *lib.World, i int) lib.Handle {
	r, err := w.Fetch(w.G, i).GetFirstFact()
	nd.Assert(err == nil, "asking for the first fact fails")
	for {
		if r.GetIdentifier() == w.Remarks[i].ID {
			return r
		}
		has, err := r.HasNextFact()
		nd.Assert(err == nil, "asking for a next fact fails")
		if !has {
			return w.Fetch(w.G, i) // no steps lead there
		}
		r, err = r.GetNextFact()
		nd.Assert(err == nil, "stepping to the next fact fails")
	}
}

// before comes to operation n of remark i in some way.
func before(w *lib.World, way int, n int, i int) {
	switch way {
	case 0: // in a new graph
		w.G = semnet.NewGraph(w.S)
		w.Remarks[i].R = w.Fetch(w.G, i)
	case 1: // on a remark looked up again
		w.Remarks[i].R = w.Fetch(w.G, i)
	case 2: // on a remark stepped to
		w.Remarks[i].R = found(w, i)
	case 6: // on a remark stepped to from a held one
		w.Remarks[i].R = w.Stepped(i)
	case 3: // in another graph, the remark as that which made it gave it
		w.G = semnet.NewGraph(w.S)
	case 4: // after everything was read
		for j := range w.Remarks {
			readEverything(w, w.Remarks[j].R)
			readEverything(w, w.Fetch(w.G, j))
		}
	default: // after looking up what is there and what is not
		for id := uint(0); id < 40; id++ {
			w.G.GetRemark(id * id)
		}
		w.Fetch(w.G, i)
		w.Fetch(w.G, n-1)
	}
}

// again runs the operations once more, each come to in some way, on another
// store, and compares the stores.
func again(w *lib.World, s *lib.Store, way int, from int) {
	t := lib.NewStore()
	v := lib.NewWorld(t)
	for n := range w.Log {
		x := w.Log[n]
		if n >= from {
			before(v, way, n, x.I)
		}
		v.Do(x.Op, x.I, x.O, x.P)
	}
	alike(s, t)
	for i := range w.Remarks {
		p := lib.See(w.Remarks[i].R)
		before(v, way, len(v.Remarks), i)
		p.CheckSame(v.Remarks[i].R)
		a, err := w.Render(w.G, w.Remarks[i].R)
		nd.Assert(err == nil, "producing a story text fails")
		b, err := v.Render(v.G, v.Remarks[i].R)
		nd.Assert(err == nil, "producing a story text fails")
		nd.Assert(a == b, "a story text depends on what was done before")
	}
	alike(s, t)
}

func equal(a []uint, b []uint) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// alike asserts that two stores hold the same.
func alike(s *lib.Store, t *lib.Store) {
	nd.Assert(len(s.Nodes) == len(t.Nodes), "the same operations store more or less")
	for n := uint(1); n < uint(len(s.Nodes)); n++ {
		a, b := s.Nodes[n], t.Nodes[n]
		nd.Assert((a == nil) == (b == nil), "the same operations store something else")
		if a == nil {
			continue
		}
		nd.Assert(a.Prev == b.Prev && a.Next == b.Next, "the same operations set other references")
		x, _ := s.ReadTargets(n)
		y, _ := t.ReadTargets(n)
		nd.Assert(equal(x, y), "the same operations set other links")
		x, _ = s.ReadSources(n)
		y, _ = t.ReadSources(n)
		nd.Assert(equal(x, y), "the same operations set other links")
	}
}

// What led to an operation.
//
//verif:bounds every history of a story and 3 further operations (4 in the thorough tier) on any remarks, run in one graph on the remarks it gave, and again on another store with each operation and reading in a new graph, on a remark looked up or stepped to again, on a remark of another graph, after reading everything or after lookups; node for node
func H_C27_history() {
	k := nd.Shard(28 * ways)
	s := lib.NewStore()
	w := lib.NewWorld(s)
	w.Do(lib.OpStory, 0, "a", "b")
	way := k % ways
	k /= ways
	w.Nth(k%4, "a", "c b")
	w.Nth(k/4, "b", "a")
	if nd.Thorough() {
		w.Any("b a", "c")
	}
	w.Any("c", "b")
	again(w, s, way, 1)
	nd.Cover("end")
}

// What led to an operation in a large store.
//
//verif:bounds the same for a store of 20 remarks (40 in the thorough tier) of all kinds and any one operation on any of them, or of 140 (270) and one on any of four; the last three operations come to in another way
func H_C27_many() {
	n, k := lib.Size(20, 140)
	if nd.Thorough() {
		n, k = lib.Size(40, 270)
	}
	way := nd.Choose(ways)
	s := lib.NewStore()
	w := lib.NewWorld(s)
	w.Grow(n)
	w.Nth(k, "b", "c ab")
	w.Grow(1)
	t := lib.NewStore()
	v := lib.NewWorld(t)
	for i := range w.Log {
		x := w.Log[i]
		if i > n-2 {
			before(v, way, i, x.I)
		}
		v.Do(x.Op, x.I, x.O, x.P)
	}
	alike(s, t)
	nd.Cover("end")
}

// What led to an operation, any text.
//
//verif:bounds the same for a story and any two further operations with text of four symbolic code points, so that any word of one can be one of another
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C27_text() {
	k := nd.Shard(28 * ways)
	s := lib.NewStore()
	w := lib.NewWorld(s)
	w.Do(lib.OpStory, 0, lib.Text("_"), "a b")
	way := k % ways
	k /= ways
	w.Nth(k%4, "a", lib.Text("b _"))
	w.Nth(k/4, lib.Text("a_"), lib.Text("_"))
	again(w, s, way, 1)
	nd.Cover("end")
}
