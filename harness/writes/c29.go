package writes

import (
	"github.com/mem-memov/semnet"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// readers is how many readers a remark has, its lookup included.
const readers = 10

// told is what a reader answered.
type told struct {
	fails bool
	id    uint
	a, b  string
}

func toldID(r lib.Handle, err error) told {
	if err != nil {
		return told{fails: true}
	}
	return told{id: r.GetIdentifier()}
}

func toldHas(has bool, err error) told {
	if err != nil {
		return told{fails: true}
	}
	if has {
		return told{id: 1}
	}
	return told{}
}

// ask asks r, a remark of w, by one reader.
func ask(w *lib.World, r lib.Handle, reader int) told {
	switch reader {
	case 0:
		x, err := w.G.GetRemark(r.GetIdentifier())
		return toldID(x.Aggregate, err)
	case 1:
		a, b, err := r.GetObjectAndProperty()
		return told{fails: err != nil, a: a, b: b}
	case 2:
		return toldHas(r.HasNextRemark())
	case 3:
		return toldID(r.GetNextRemark())
	case 4:
		return toldHas(r.HasNextFact())
	case 5:
		return toldID(r.GetNextFact())
	case 6:
		return toldHas(r.HasNextStory())
	case 7:
		return toldID(r.GetNextStory())
	case 8:
		return toldID(r.GetFirstFact())
	default:
		text, err := w.Render(w.G, r)
		return told{fails: err != nil, a: text}
	}
}

// either asserts that something told is what was told before or after.
func either(x told, before told, after told) {
	nd.Assert(x == before || x == after, "a reader tells what was true neither before nor after an operation beside it")
}

// party is a graph over a store with everything in it looked up, as somebody
// else has it.
func party(w *lib.World, s *lib.Turn, k int) *lib.World {
	w.Render(w.G, w.Remarks[0].R)
	v := *w
	v.S = s
	v.Remarks = append([]lib.Remark{}, w.Remarks...)
	if k == 1 {
		v.G = semnet.NewGraph(s)
		for i := range v.Remarks {
			v.Remarks[i].R = v.Fetch(v.G, i)
		}
	}
	return &v
}

// begun is a store with a story and an operation of any kind (two in the
// thorough tier), and a twin of it in which one more was done alone. It tells
// which one that was.
func begun(k int, o string, p string) (w *lib.World, t *lib.Turn, s *lib.Store, alone *lib.Store, op int) {
	s = lib.NewStore()
	t = &lib.Turn{S: s}
	w = lib.NewWorld(t)
	w.Do(lib.OpStory, 0, "a", "b")
	w.Nth(k, "a", "c b")
	if nd.Thorough() {
		w.Any("b", "a")
	}
	op = nd.Choose(1 + 3*len(w.Remarks))
	alone = lib.NewStore()
	u := lib.NewWorld(alone)
	for _, x := range w.Log {
		u.Do(x.Op, x.I, x.O, x.P)
	}
	u.Nth(op, o, p)
	return
}

// A reader with an operation between two of its storage calls.
//
//verif:bounds every history of a story and one further operation (2 in the thorough tier), then any reader of any remark and, before any one of its storage calls, any one operation on any remark, by the same graph and handles or another graph; then the remark and the new one read again, the store compared node for node with that of the same operations alone
func H_C29_reader() {
	k := nd.Shard(4 * 2)
	w, t, s, alone, op := begun(k/2, "d", "b")
	v := party(w, t, k%2)
	i := nd.Choose(len(w.Remarks))
	reader := nd.Choose(readers)
	before := ask(w, w.Remarks[i].R, reader)
	n := len(w.Remarks)
	t.Other = func() { v.Nth(op, "d", "b") }
	x := ask(w, w.Remarks[i].R, reader)
	if !t.Had {
		return
	}
	if x != before {
		either(x, before, ask(w, w.Remarks[i].R, reader))
	}
	v.Full(w.Remarks[i].R, i, 0)
	v.Full(v.Remarks[n].R, n, 0)
	alike(alone, s)
	nd.Cover("end")
}

// An operation with readers between two of its storage calls.
//
//verif:bounds every history of a story and one further operation (2 in the thorough tier), then any one operation on any remark and, before any one of its storage calls, every reader of every remark, by the same graph and handles or another graph; then the new remark read, the store compared node for node with that of the same operations alone
func H_C29_writer() {
	k := nd.Shard(4 * 2)
	w, t, s, alone, op := begun(k/2, "d", "b")
	v := party(w, t, k%2)
	var before, between, after []told
	every := func() []told {
		var l []told
		for i := range v.Remarks {
			for reader := 0; reader < readers; reader++ {
				l = append(l, ask(v, v.Remarks[i].R, reader))
			}
		}
		return l
	}
	before = every()
	t.Other = func() { between = every() }
	n := w.Nth(op, "d", "b")
	if !t.Had {
		return
	}
	for i := range between {
		if between[i] == before[i] {
			continue
		}
		if after == nil {
			after = every()
		}
		either(between[i], before[i], after[i])
	}
	alike(alone, s)
	w.Full(w.Remarks[n].R, n, 0)
	nd.Cover("end")
}

// Two operations on different stories, one between two storage calls of the
// other.
//
//verif:bounds a story of two facts with a child story, another story (and one more operation on any remark in the thorough tier), then any one operation and, before any one of its storage calls, any one that is not on a remark of the same story, with text already stored, by the same graph and handles or another graph; then everything read through a new graph
func H_C29_apart() {
	k := nd.Shard(16 * 2)
	t := &lib.Turn{S: lib.NewStore()}
	w := lib.NewWorld(t)
	w.Do(lib.OpStory, 0, "a", "b")
	w.Do(lib.OpFact, 0, "a", "b")
	w.Do(lib.OpStory, 0, "a", "b")
	w.Do(lib.OpChild, 0, "a", "b")
	if nd.Thorough() {
		w.Any("a", "b")
	}
	v := party(w, t, k%2)
	story := func(i int) int { return w.Facts[w.Remarks[i].Fact].Story }
	op, beside := k/2%4, k/8
	i, j := 0, 0
	if op != lib.OpStory {
		i = nd.Choose(len(w.Remarks))
	}
	if beside != lib.OpStory {
		j = nd.Choose(len(w.Remarks))
	}
	if op != lib.OpStory && beside != lib.OpStory && story(i) == story(j) {
		return
	}
	var r lib.Handle
	t.Other = func() {
		var err error
		r, err = v.Try(beside, j, "a", "b")
		nd.Assert(err == nil, "an operation with valid text beside another fails")
	}
	x, err := w.Try(op, i, "a", "b")
	if !t.Had {
		return
	}
	nd.Assert(err == nil, "an operation with valid text that another is beside fails")
	w.Record(beside, j, r, "a", "b")
	w.Record(op, i, x, "a", "b")
	for n := range w.Remarks {
		w.Full(w.Remarks[n].R, n, 0)
	}
	w.G = semnet.NewGraph(t)
	w.CheckStoryText(w.Fetch(w.G, i), i)
	w.CheckStoryText(w.Fetch(w.G, j), j)
	nd.Cover("end")
}

// A reader with other readers between two of its storage calls.
//
//verif:bounds every history of a story and one further operation (2 in the thorough tier) on any remarks with text of up to two words of up to two letters, then any reader of any remark and, before any one of its storage calls, every reader of any one remark, by the same graph and handles or another graph
func H_C29_readers() {
	k := nd.Shard(4 * 2)
	t := &lib.Turn{S: lib.NewStore()}
	w := lib.NewWorld(t)
	w.Do(lib.OpStory, 0, "a", "b a")
	w.Nth(k/2, "ba", "c b")
	if nd.Thorough() {
		w.Any("b a", "ab")
	}
	v := party(w, t, k%2)
	i, j := nd.Choose(len(w.Remarks)), nd.Choose(len(w.Remarks))
	reader := nd.Choose(readers)
	var between, alone [readers]told
	for n := range alone {
		alone[n] = ask(v, v.Remarks[j].R, n)
	}
	before := ask(w, w.Remarks[i].R, reader)
	t.Other = func() {
		for n := range between {
			between[n] = ask(v, v.Remarks[j].R, n)
		}
	}
	x := ask(w, w.Remarks[i].R, reader)
	if !t.Had {
		return
	}
	nd.Assert(x == before, "a reader tells something else with other readers beside it")
	nd.Assert(between == alone, "a reader tells something else beside another reader")
	nd.Cover("end")
}
