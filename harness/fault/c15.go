package fault

import (
	"github.com/mem-memov/semnet"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// places is where every remark stands and what its story text is.
type places struct {
	at   []lib.Place
	text []string
}

func survey(w *lib.World) places {
	var p places
	for i := range w.Remarks {
		p.at = append(p.at, lib.See(w.Remarks[i].R))
		text, err := w.Render(w.G, w.Remarks[i].R)
		nd.Assert(err == nil, "producing a story text fails")
		p.text = append(p.text, text)
	}
	return p
}

func (p places) check(w *lib.World, g *semnet.Graph) {
	for i := range p.at {
		r := w.Fetch(g, i)
		p.at[i].CheckSame(r)
		p.at[i].CheckSame(w.Remarks[i].R)
		text, err := w.Render(g, r)
		nd.Assert(err == nil, "producing a story text fails")
		nd.Assert(text == p.text[i], "a story text changes")
	}
}

// harm runs an operation with a fault, checks that it did none, repeats it in
// the same or a new graph, and goes on.
func harm(w *lib.World, f *lib.Wrap, op int, i int, o string, p string) {
	before := survey(w)
	f.Sparse = !nd.Thorough()
	reopened := nd.Choose(2) == 1
	if nd.Thorough() && nd.Choose(2) == 1 {
		w.G = semnet.NewGraph(w.S)
	}
	f.Fault = true
	r, err := w.Try(op, i, o, p)
	f.Fault = false
	if !f.Failed {
		nd.Assert(err == nil, "a creating operation with valid text fails")
		w.Record(op, i, r, o, p)
		return
	}
	nd.Assert(err != nil, "a storage failure is not reported")
	before.check(w, w.G)
	g := semnet.NewGraph(w.S)
	before.check(w, g)
	if reopened {
		w.G = g
		for j := range w.Remarks {
			w.Remarks[j].R = w.Fetch(g, j)
		}
	}
	nd.Cover("failed")
	f.Failed = false
	w.Do(op, i, o, p)
	if nd.Thorough() {
		w.CheckAll()
		w.Do(nd.Choose(4), nd.Choose(len(w.Remarks)), "ab", "c")
	} else {
		w.Do((op+1+len(o))%4, i, "ab", "c")
	}
	w.CheckAll()
}

// One fault.
//
//verif:bounds every creating operation on any of the 5 remarks of a store with two facts and two child stories, text known, partly known or new; any one writing storage call (in the thorough tier, any call) failing without effect; then the same operation and another one, in the same or a newly opened graph
func H_C15_fault() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	base(w)
	k := nd.Shard(60)
	i, op := k/4%5, k%4
	o, p := "ab", "b a"
	switch k / 20 {
	case 1:
		o = "a ab"
	case 2:
		p = "ac b"
	}
	if op == lib.OpStory {
		nd.Assume(i == 0)
	}
	if op == lib.OpRemark {
		nd.Assume(k/20 != 1)
	}
	harm(w, f, op, i, o, p)
	nd.Cover("end")
}

// Several faults.
//
//verif:bounds two operations on known text in a row (three on new text in the thorough tier), each repeated until it succeeds, any one writing storage call (in the thorough tier, any call) of each failing without effect, over every kind of operation on the first or last remark of a store with two facts
func H_C15_row() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	w.Do(lib.OpStory, 0, "a", "b")
	w.Do(lib.OpFact, 0, "b", "a")
	k := nd.Shard(36)
	n := 2
	if nd.Thorough() {
		n = 3
	}
	o, p := "b", "a"
	if n == 3 {
		o, p = "a", "c"
	}
	for j := 0; j < n; j++ {
		c := 0
		switch j {
		case 0:
			c = k % 6
		case 1:
			c = k / 6
		default:
			c = nd.Choose(6)
		}
		i := 0
		if c/3 == 1 {
			i = len(w.Remarks) - 1
		}
		op := lib.OpRemark + c%3
		before := survey(w)
		f.Sparse = !nd.Thorough()
		f.Fault = true
		r, err := w.Try(op, i, o, p)
		f.Fault = false
		if !f.Failed {
			nd.Assert(err == nil, "a creating operation with valid text fails")
			w.Record(op, i, r, o, p)
			continue
		}
		nd.Assert(err != nil, "a storage failure is not reported")
		before.check(w, w.G)
		f.Failed = false
		w.Do(op, i, o, p)
	}
	if nd.Thorough() {
		w.CheckAll()
	}
	w.Reopen()
	w.CheckAll()
	nd.Cover("end")
}

// Rejected text.
//
//verif:bounds every creating operation on any of the 5 remarks of a store with two facts and two child stories with text rejected at its first, second or last word, as object or property; then the same operation with valid text, in the same or a newly opened graph
func H_C15_rejected() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	base(w)
	k := nd.Shard(20)
	i, op := k/4, k%4
	bad := []string{"", " ", "a ", " a", "a  b", "zz \xff", "\xffz", "ab ac\xc3 b", "a b "}
	x := bad[nd.Choose(len(bad))]
	o, p := "ab", x
	if op != lib.OpRemark && nd.Choose(2) == 0 {
		o, p = x, "ab"
	}
	before := survey(w)
	r, err := w.Try(op, i, o, p)
	nd.Assert(err != nil, "text that cannot be stored is accepted")
	nd.Assert(r == nil, "a rejected text gives a remark")
	before.check(w, w.G)
	g := semnet.NewGraph(w.S)
	before.check(w, g)
	if nd.Choose(2) == 1 {
		w.G = g
		for j := range w.Remarks {
			w.Remarks[j].R = w.Fetch(g, j)
		}
	}
	w.Do(op, i, "ab", "zz ab")
	w.CheckAll()
	nd.Cover("end")
}

// One fault over long chains.
//
//verif:bounds every operation that adds to a story on 3 remarks of a store with a story of five facts and four child stories, text known; any one writing storage call failing without effect; then the same operation and another one, in the same or a newly opened graph
func H_C15_long() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	w.Do(lib.OpStory, 0, "a", "b")
	w.Do(lib.OpRemark, 0, "", "b")
	for i := 0; i < 4; i++ {
		w.Do(lib.OpFact, 0, "b", "a")
		w.Do(lib.OpChild, 0, "a", "b")
	}
	k := nd.Shard(18)
	i, op := []int{0, 4, 9}[k%3], lib.OpRemark+k/3%3
	before := survey(w)
	f.Sparse = true
	f.Fault = true
	_, err := w.Try(op, i, "a", "b")
	f.Fault = false
	nd.Assume(f.Failed)
	nd.Assert(err != nil, "a storage failure is not reported")
	before.check(w, w.G)
	if k/9 == 1 {
		w.Reopen()
		before.check(w, w.G)
	}
	f.Failed = false
	w.Do(op, i, "a", "b")
	w.Do(lib.OpRemark+(op+k)%3, i, "b", "a")
	w.Reopen()
	w.CheckAll()
	nd.Cover("end")
}
