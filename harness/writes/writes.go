// Package writes checks what is written to the storage, through the public
// interface and a storage that watches.
package writes

import (
	"github.com/mem-memov/semnet"
	abstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

func history(w *lib.World, n int) {
	w.Do(lib.OpStory, 0, "a", "b")
	k := nd.Shard(28)
	w.Nth(k%4, "a", "c b")
	w.Nth(k/4, "b", "a")
	for i := 2; i < n; i++ {
		w.Any("c", "b")
	}
}

func depth() int {
	if nd.Thorough() {
		return 4
	}
	return 3
}

// readEverything uses every reader, successful or not, on a remark.
func readEverything(w *lib.World, r abstractRemark.Aggregate) {
	r.GetIdentifier()
	r.GetObjectAndProperty()
	r.HasNextRemark()
	r.GetNextRemark()
	r.HasNextFact()
	r.GetNextFact()
	r.HasNextStory()
	r.GetNextStory()
	x, err := r.GetFirstFact()
	if err == nil && x != nil {
		x.GetObjectAndProperty()
		x.HasNextFact()
		x.GetNextFact()
		x.GetNextStory()
	}
	w.Render(w.G, r)
}

// Reading.
//
//verif:bounds every history of a story and 3 further operations (4 in the thorough tier) on any remarks; every reader on every remark, held and looked up, in the same and a newly opened graph
func H_C17_history() {
	f := lib.NewWrap(lib.NewStore())
	w := lib.NewWorld(f)
	history(w, depth())
	writes := f.Writes
	for t := 0; t < 2; t++ {
		for i := range w.Remarks {
			readEverything(w, w.Remarks[i].R)
			r, err := w.G.GetRemark(w.Remarks[i].ID)
			nd.Assert(err == nil, "a remark is not found by its identifier")
			readEverything(w, r.Aggregate)
		}
		w.G = semnet.NewGraph(f)
	}
	nd.Assert(f.Writes == writes, "reading writes to the storage")
	nd.Cover("end")
}

// Looking numbers up.
//
//verif:bounds every number of 64 bits looked up after a story and one further operation, in the same or a newly opened graph, and read if it is found
func H_C17_lookup() {
	f := lib.NewWrap(lib.NewStore())
	w := lib.NewWorld(f)
	w.Do(lib.OpStory, 0, "a", "b a")
	k := nd.Shard(8)
	w.Nth(k%4, "a b", "c")
	writes := f.Writes
	if k/4 == 1 {
		w.G = semnet.NewGraph(f)
	}
	id := nd.Uint()
	for v := uint(0); v < 256; v++ {
		if nd.Fork(id == v) { // one path for each number in use
			id = v
			break
		}
	}
	r, err := w.G.GetRemark(id)
	if err == nil {
		readEverything(w, r.Aggregate)
	}
	nd.Assert(f.Writes == writes, "reading writes to the storage")
	nd.Cover("end")
}

// Reading text of any kind.
//
//verif:bounds a story, a fact and a child story of text with three symbolic code points, the real character layer for one of them; every reader
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C17_text() {
	f := lib.NewWrap(lib.NewStore())
	w := lib.NewWorld(f)
	k := nd.Shard(3)
	w.Do(lib.OpStory, 0, "a", lib.Text("_b"))
	w.Do(1+k, 0, "a b", lib.Text("_ a"))
	w.Do(1+(k+1)%3, 0, lib.Text("?"), "a")
	writes := f.Writes
	for t := 0; t < 2; t++ {
		for i := range w.Remarks {
			readEverything(w, w.Remarks[i].R)
		}
		w.Reopen()
	}
	nd.Assert(f.Writes == writes, "reading writes to the storage")
	nd.Cover("end")
}

// record is what the store holds of a node.
type record struct {
	prev, next uint
	targets    []uint
	sources    []uint
}

func photograph(s *lib.Store) []*record {
	r := make([]*record, len(s.Nodes))
	for i, n := range s.Nodes {
		if n != nil {
			r[i] = &record{n.Prev, n.Next, append([]uint(nil), n.Targets...), append([]uint(nil), n.Sources...)}
		}
	}
	return r
}

func prefix(a []uint, b []uint) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// grown checks that the store only got more.
func grown(r []*record, s *lib.Store) {
	for i := range r {
		if r[i] == nil {
			continue
		}
		n := s.Nodes[i]
		nd.Assert(n != nil, "a node is gone")
		nd.Assert(r[i].prev == 0 || r[i].prev == n.Prev, "a reference that was set is changed")
		nd.Assert(r[i].next == 0 || r[i].next == n.Next, "a reference that was set is changed")
		nd.Assert(prefix(r[i].targets, n.Targets), "a link is removed")
		nd.Assert(prefix(r[i].sources, n.Sources), "a link is removed")
	}
}

// Writing.
//
//verif:bounds every history of a story and 3 further operations (4 in the thorough tier) on any remarks, after every operation
func H_C18_history() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	n := depth()
	k := nd.Shard(28)
	p := photograph(s)
	for i := 0; i <= n; i++ {
		switch i {
		case 0:
			w.Do(lib.OpStory, 0, "a", "b")
		case 1:
			w.Nth(k%4, "a", "c b")
		case 2:
			w.Nth(k/4, "b", "a")
		default:
			w.Any("b", "a c")
		}
		grown(p, s)
		p = photograph(s)
		nd.Assert(f.Dels == 0, "something is deleted or disconnected")
		nd.Assert(f.Resets == 0, "a reference that was set is changed")
	}
	nd.Cover("end")
}

// Writing text.
//
//verif:bounds every history of three operations on any remarks with three symbolic code points in their text
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C18_text() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	k := nd.Shard(28)
	w.Do(lib.OpStory, 0, lib.Text("_"), "a b")
	p := photograph(s)
	w.Nth(k%4, "a", lib.Text("b _"))
	grown(p, s)
	p = photograph(s)
	w.Nth(k/4, lib.Text("a_"), "b")
	grown(p, s)
	nd.Assert(f.Dels == 0, "something is deleted or disconnected")
	nd.Assert(f.Resets == 0, "a reference that was set is changed")
	nd.Cover("end")
}

// Operations that fail.
//
//verif:bounds every operation on any of 4 remarks with text that is rejected or any one storage call failing, then another operation
func H_C18_fault() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	w.Do(lib.OpStory, 0, "a", "b")
	w.Do(lib.OpFact, 0, "b", "a")
	w.Do(lib.OpChild, 0, "a", "b")
	w.Do(lib.OpRemark, 1, "", "c")
	k := nd.Shard(16)
	p := photograph(s)
	switch nd.Choose(3) {
	case 0:
		_, err := w.Try(k%4, k/4, "a b  c", "c\xff")
		nd.Assert(err != nil, "text that cannot be stored is accepted")
	case 1:
		f.Fault = true
		w.Try(k%4, k/4, "a", "b")
	default:
		f.Fault = true
		w.Try(k%4, k/4, "a b", "c ab")
	}
	f.Fault = false
	grown(p, s)
	p = photograph(s)
	w.Try(lib.OpFact, k/4, "b", "a ab")
	grown(p, s)
	nd.Assert(f.Dels == 0, "something is deleted or disconnected")
	nd.Assert(f.Resets == 0, "a reference that was set is changed")
	nd.Cover("end")
}

// kinds tells how many things of each class there are, checking that none has
// two classes.
func kinds(s *lib.Store) [9]int {
	var r [9]int
	class := map[uint]int{}
	for c := 1; c <= 8; c++ {
		l, err := s.ReadSources(uint(c))
		nd.Assert(err == nil, "a class node is missing")
		r[c] = len(l)
		for _, x := range l {
			nd.Assert(class[x] == 0, "a thing has two classes")
			nd.Assert(x > 8, "a class node has a class")
			class[x] = c
		}
	}
	return r
}

// Counting.
//
//verif:bounds every history of a story and 3 further operations (4 in the thorough tier) on any remarks, after every operation
func H_C20_history() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	n := depth()
	k := nd.Shard(28)
	for i := 0; i <= n; i++ {
		switch i {
		case 0:
			w.Do(lib.OpStory, 0, "a", "b")
		case 1:
			w.Nth(k%4, "a", "c b")
		case 2:
			w.Nth(k/4, "b", "a")
		default:
			w.Any("b", "a c")
		}
		c := kinds(s)
		nd.Assert(c[1] == 2, "there are not two bits")
		nd.Assert(c[6] == len(w.Remarks), "the number of remarks is wrong")
		nd.Assert(c[7] == len(w.Facts), "the number of facts is wrong")
		nd.Assert(c[8] == len(w.Stories), "the number of stories is wrong")
		for _, r := range w.Remarks {
			l, err := s.ReadTargets(r.ID)
			nd.Assert(err == nil, "an identifier of a remark is not stored")
			found := false
			for _, x := range l {
				found = found || x == 6
			}
			nd.Assert(found, "a remark is not of the class of remarks")
		}
	}
	nd.Cover("end")
}

// Counting things of text.
//
//verif:bounds every history of three operations on any remarks with three symbolic code points in their text: at most as many new phrases, words and characters as the text has
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C20_text() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	k := nd.Shard(28)
	w.Do(lib.OpStory, 0, lib.Text("_"), "a b")
	kinds(s)
	w.Nth(k%4, "a", lib.Text("b _"))
	kinds(s)
	w.Nth(k/4, lib.Text("a_"), "b")
	c := kinds(s)
	nd.Assert(c[1] == 2, "there are not two bits")
	nd.Assert(c[6] == len(w.Remarks) && c[7] == len(w.Facts) && c[8] == len(w.Stories), "a number of things is wrong")
	nd.Assert(c[5] <= 3, "there are more details than pairs of text")
	nd.Cover("end")
}

// Counting after failures.
//
//verif:bounds every operation on any of 4 remarks with text that is rejected at its first, second or last word: nothing but words and what they are made of is added; or known or new text and any one storage call failing; then, in the same or a newly opened graph, any operation on the same remark
func H_C20_failed() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	w.Do(lib.OpStory, 0, "a", "b")
	w.Do(lib.OpFact, 0, "b", "a")
	w.Do(lib.OpRemark, 0, "", "b")
	w.Do(lib.OpChild, 1, "a", "b")
	k := nd.Shard(16 * 6)
	op, i := k%4, k/4%4
	k /= 16
	c := kinds(s)
	if k < 4 {
		bad := [][2]string{{"", "b"}, {"a", "b c "}, {"a  c", "b"}, {"b", "a \xff"}}[k]
		if op == lib.OpRemark && bad[1] == "b" {
			bad[1] = bad[0]
		}
		_, err := w.Try(op, i, bad[0], bad[1])
		nd.Assert(err != nil, "text that cannot be stored is accepted")
		d := kinds(s)
		for n := 5; n <= 8; n++ {
			nd.Assert(c[n] == d[n], "rejected text adds a thing that it is not in")
		}
	} else {
		f.Fault = true
		_, err := w.Try(op, i, "a", []string{"b", "b c"}[k-4])
		f.Fault = false
		nd.Assume(f.Failed)
		nd.Assert(err != nil, "a storage failure is not reported")
	}
	if nd.Choose(2) == 1 {
		w.Reopen()
	}
	c = kinds(s)
	op = nd.Choose(4)
	j := w.Do(op, i, "b", "a")
	d := kinds(s)
	facts, stories := 1, 0
	switch op {
	case lib.OpStory, lib.OpChild:
		stories = 1
	case lib.OpRemark:
		facts = 0
	}
	nd.Assert(d[6] == c[6]+1, "an operation adds not exactly one remark")
	nd.Assert(d[7] == c[7]+facts, "a number of facts is wrong")
	nd.Assert(d[8] == c[8]+stories, "a number of stories is wrong")
	w.CheckText(w.Remarks[j].R, j)
	nd.Cover("end")
}

// Reading a large store.
//
//verif:bounds a store of 50 remarks (60 in the thorough tier) of all kinds, every reader on any of them in the same graph; a store of 140, every reader on the first 50 (60) of them in a newly opened graph
func H_C17_many() {
	f := lib.NewWrap(lib.NewStore())
	w := lib.NewWorld(f)
	n := 100
	if nd.Thorough() {
		n = 120
	}
	k := nd.Shard(n)
	if k%2 == 0 {
		w.Grow(n / 2)
	} else {
		w.Grow(140)
	}
	writes := f.Writes
	if k%2 == 1 {
		w.G = semnet.NewGraph(f)
	}
	readEverything(w, w.Remarks[k/2].R)
	readEverything(w, w.Fetch(w.G, k/2))
	nd.Assert(f.Writes == writes, "reading writes to the storage")
	nd.Cover("end")
}

// Writing to a large store.
//
//verif:bounds a store of 40 remarks (60 in the thorough tier) of all kinds and any one further operation on any of them, or of 140 (270) and one on any of four
func H_C18_many() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	n, k := lib.Size(40, 140)
	if nd.Thorough() {
		n, k = lib.Size(60, 270)
	}
	w.Grow(n)
	p := photograph(s)
	w.Nth(k, "b", "c ab")
	grown(p, s)
	nd.Assert(f.Dels == 0, "something is deleted or disconnected")
	nd.Assert(f.Resets == 0, "a reference that was set is changed")
	nd.Cover("end")
}

// Reading far from zero.
//
//verif:bounds every history of a story and 2 further operations, in a store that numbers its nodes from any number up to 2^62, 1, 2^8, 2^16 or 2^32 apart; every reader, also in a newly opened graph
func H_C17_far() {
	f := lib.NewWrap(lib.NewSpread(lib.NewStore(), nd.Choose(4)))
	w := lib.NewWorld(f)
	history(w, 2)
	writes := f.Writes
	for t := 0; t < 2; t++ {
		for i := range w.Remarks {
			readEverything(w, w.Remarks[i].R)
		}
		w.Reopen()
	}
	nd.Assert(f.Writes == writes, "reading writes to the storage")
	nd.Cover("end")
}

// Reading over a storage that fails.
//
//verif:bounds a store of a story, a fact, a remark and a child story; any one reader (as any method of a remark, the lookup, the story text) on any remark, in the same or a newly opened graph, any one storage call failing, once or for good, with or without a result beside the error
func H_C17_fault() {
	f := lib.NewWrap(lib.NewStore())
	w := lib.NewWorld(f)
	w.Do(lib.OpStory, 0, "a", "b a")
	w.Do(lib.OpFact, 0, "b", "a")
	w.Do(lib.OpRemark, 0, "", "b")
	w.Do(lib.OpChild, 1, "b a", "b")
	k := nd.Shard(40)
	i := k % 4
	k /= 4
	r := w.Remarks[i].R
	if nd.Choose(2) == 1 {
		w.G = semnet.NewGraph(f)
	}
	writes := f.Writes
	f.Real = nd.Choose(2) == 1
	if nd.Choose(2) == 1 {
		f.FailN = 1000
	}
	f.Fault = true
	switch k {
	case 0:
		w.G.GetRemark(w.Remarks[i].ID)
	case 1:
		r.GetObjectAndProperty()
	case 2:
		r.HasNextRemark()
	case 3:
		r.GetNextRemark()
	case 4:
		r.HasNextFact()
	case 5:
		r.GetNextFact()
	case 6:
		r.HasNextStory()
	case 7:
		r.GetNextStory()
	case 8:
		r.GetFirstFact()
	default:
		w.Render(w.G, r)
	}
	nd.Assert(f.Writes == writes, "reading writes to the storage")
	nd.Cover("end")
}

// Reading what an operation cut short left behind.
//
//verif:bounds a story of two facts, with a remark and a child story; any creating operation on it, known or new text, cut short at any writing storage call; then every number in use looked up and read if it is found, in the same and a newly opened graph
func H_C17_cut() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	w.Do(lib.OpStory, 0, "a", "b")
	w.Do(lib.OpFact, 0, "b", "a")
	w.Do(lib.OpRemark, 0, "", "b")
	w.Do(lib.OpChild, 1, "a", "b")
	k := nd.Shard(16)
	o, p := "a", "b"
	if k/8 == 1 {
		o, p = "a b", "c"
	}
	f.Sparse = true
	f.Fault = true
	f.FailN = 1 + k/4%2*1000
	w.Try(k%4, 1, o, p)
	f.Fault = false
	nd.Assume(f.Failed)
	writes := f.Writes
	for t := 0; t < 2; t++ {
		for id := range s.Nodes {
			r, err := w.G.GetRemark(uint(id))
			if err == nil {
				readEverything(w, r.Aggregate)
			}
		}
		for i := range w.Remarks {
			readEverything(w, w.Remarks[i].R)
		}
		w.G = semnet.NewGraph(f)
	}
	nd.Assert(f.Writes == writes, "reading writes to the storage")
	nd.Cover("end")
}
