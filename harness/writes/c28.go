package writes

import (
	"github.com/mem-memov/semnet"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// costs is what each reader of a remark costs in storage calls, and what it
// answered.
type costs struct {
	calls  [10]int
	answer [10]uint
}

func answered(err error, r lib.Handle) uint {
	if err != nil || r == nil {
		return 0
	}
	return r.GetIdentifier()
}

func yes(has bool, err error) uint {
	if err != nil || !has {
		return 0
	}
	return 1
}

// cost runs the readers of remark i, looked up in a new graph, in turn.
func cost(w *lib.World, f *lib.Wrap, i int) costs {
	var c costs
	g := semnet.NewGraph(w.S)
	n := f.Calls
	r := w.Fetch(g, i)
	for k := range c.calls {
		switch k {
		case 0:
			c.answer[k] = 1
		case 1:
			_, _, err := r.GetObjectAndProperty()
			c.answer[k] = yes(true, err)
		case 2:
			c.answer[k] = yes(r.HasNextRemark())
		case 3:
			x, err := r.GetNextRemark()
			c.answer[k] = answered(err, x)
		case 4:
			c.answer[k] = yes(r.HasNextFact())
		case 5:
			x, err := r.GetNextFact()
			c.answer[k] = answered(err, x)
		case 6:
			c.answer[k] = yes(r.HasNextStory())
		case 7:
			x, err := r.GetNextStory()
			c.answer[k] = answered(err, x)
		case 8:
			x, err := r.GetFirstFact()
			c.answer[k] = answered(err, x)
		default:
			text, err := w.Render(g, r)
			nd.Assert(err == nil, "producing a story text fails")
			c.answer[k] = uint(len(text))
		}
		c.calls[k] = f.Calls - n
		n = f.Calls
	}
	return c
}

// notMore asserts that readers that answer the same cost no more than before.
func notMore(was costs, is costs) {
	for k := range was.calls {
		nd.Assert(was.answer[k] != is.answer[k] || is.calls[k] <= was.calls[k], "reading costs more because of what was added")
	}
}

// What reading costs.
//
//verif:bounds every history of a story and 3 further operations (4 in the thorough tier) on any remarks; calls of every reader on every remark when it is new and after each operation, each time in a new graph, the storage lists in the order added, in reverse or rotated
func H_C28_history() {
	f := lib.NewWrap(lib.NewStore())
	w := lib.NewWorld(f)
	k := nd.Shard(28 * 3)
	f.Flip = k % 3
	k /= 3
	var was []costs
	for n := 0; n < depth()+1; n++ {
		switch n {
		case 0:
			w.Do(lib.OpStory, 0, "a", "b")
		case 1:
			w.Nth(k%4, "a", "c b")
		case 2:
			w.Nth(k/4, "b", "a")
		default:
			w.Any("c", "b")
		}
		for i := range w.Remarks {
			c := cost(w, f, i)
			if i < len(was) {
				notMore(was[i], c)
			}
			if i == len(was) {
				was = append(was, c)
			} else {
				was[i] = c
			}
		}
	}
	nd.Cover("end")
}

// What reading costs in a large store.
//
//verif:bounds any one operation on any of 10 remarks (20 in the thorough tier), then 130 (260) further remarks of all kinds and 30 further facts and child stories of the new remark's story; calls of every reader on the new and four other remarks, each time in a new graph, the storage lists in the order added or in reverse
func H_C28_many() {
	m, n := 10, 130
	if nd.Thorough() {
		m, n = 20, 260
	}
	k := nd.Shard((1 + 3*m) * 2)
	f := lib.NewWrap(lib.NewStore())
	f.Flip = k % 2
	k /= 2
	w := lib.NewWorld(f)
	w.Grow(m)
	j := w.Nth(k, "b", "c ab")
	w.Do(lib.OpFact, j, "c", "d")
	w.Do(lib.OpChild, j, "c", "d")
	w.Do(lib.OpChild, j, "d", "d")
	some := []int{0, m / 2, j, j + 1, j + 2}
	var was []costs
	for _, i := range some {
		was = append(was, cost(w, f, i))
	}
	w.Grow(n)
	for i := 0; i < 15; i++ {
		w.Do(lib.OpFact, j, "d", "b ab")
		w.Do(lib.OpChild, j, "b", "ba")
		w.Do(lib.OpChild, j+1, "d", "ba")
	}
	for i := range some {
		notMore(was[i], cost(w, f, some[i]))
	}
	nd.Cover("end")
}

// What reading costs, any text.
//
//verif:bounds a story, a fact and a child story of text with four symbolic code points; calls of every reader when new and at the end, each time in a new graph
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C28_text() {
	k := nd.Shard(4)
	f := lib.NewWrap(lib.NewStore())
	w := lib.NewWorld(f)
	w.Do(lib.OpStory, 0, lib.Text("_"), "a b")
	a := cost(w, f, 0)
	w.Do(lib.OpFact, 0, "a", lib.Text("b _"))
	b := cost(w, f, 1)
	w.Nth(k, lib.Text("a_"), lib.Text("_"))
	w.Do(lib.OpChild, 0, "a b", "a")
	notMore(a, cost(w, f, 0))
	notMore(b, cost(w, f, 1))
	nd.Cover("end")
}
