// Package nav checks remarks, facts and stories over histories of operations,
// through the public interface.
package nav

import (
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// history runs a story and then any n creating operations, each on any remark
// made so far. The first operations are taken as separate jobs.
func history(w *lib.World, n int) {
	w.Do(lib.OpStory, 0, "a", "b")
	k := 0
	if n >= 2 {
		k = nd.Shard(4 * 7)
		w.Nth(k%4, "a", "c")
		w.Nth(k/4, "b", "a")
	}
	for i := 2; i < n; i++ {
		w.Any("c", "b")
	}
}

func depth() int {
	if nd.Thorough() {
		return 5
	}
	return 4
}

// Facts.
//
//verif:bounds every history of a story and 4 further operations (5 in the thorough tier) on any remarks; every remark, also fetched anew
func H_C09_history() {
	w := lib.NewWorld(lib.NewStore())
	history(w, depth())
	for i := range w.Remarks {
		w.CheckFacts(w.Remarks[i].R, i)
		w.CheckFacts(w.Fetch(w.G, i), i)
	}
	nd.Cover("end")
}

// Long stories.
//
//verif:bounds a story of 6 facts (8 in the thorough tier), each added from any earlier remark of the story, the text any of two; every remark, also fetched anew, and the walk from the first
func H_C09_long() {
	w := lib.NewWorld(lib.NewStore())
	w.Do(lib.OpStory, 0, "a", "b")
	n := 5
	if nd.Thorough() {
		n = 7
	}
	k := nd.Shard(24)
	for i := 0; i < n; i++ {
		j := 0
		switch i {
		case 0:
		case 1:
			j = k % 2
		case 2:
			j = k / 2 % 3
		case 3:
			j = k / 6
		default:
			j = nd.Choose(i + 1)
		}
		if i%2 == 0 {
			w.Do(lib.OpFact, j, "a", "b")
		} else {
			w.Do(lib.OpFact, j, "b", "a")
		}
	}
	r := w.Remarks[0].R
	for i := range w.Remarks {
		w.CheckFacts(w.Remarks[i].R, i)
		w.CheckFacts(w.Fetch(w.G, i), i)
		w.CheckFacts(r, i)
		if i+1 < len(w.Remarks) {
			x, err := r.GetNextFact()
			nd.Assert(err == nil, "stepping to the next fact fails")
			r = x
			nd.Assert(r.GetIdentifier() == w.Remarks[i+1].ID, "facts are not visited in the order added")
		}
	}
	nd.Cover("end")
}

// Two stories growing side by side.
//
//verif:bounds two stories (the second new or a child of the first) and 5 further facts or remarks (6 in the thorough tier), each added to either story at its last or first remark
func H_C09_two() {
	w := lib.NewWorld(lib.NewStore())
	w.Do(lib.OpStory, 0, "a", "b")
	k := nd.Shard(16)
	w.Do([]int{lib.OpStory, lib.OpChild}[k%2], 0, "a", "b")
	n := 5
	if nd.Thorough() {
		n = 6
	}
	last := []int{0, 1}
	for i := 0; i < n; i++ {
		c := 0
		if i == 0 {
			c = k / 2
		} else {
			c = nd.Choose(8)
		}
		s := c % 2
		from := s
		if c/2%2 == 1 {
			from = last[s]
		}
		op := lib.OpFact
		if c/4 == 1 {
			op = lib.OpRemark
		}
		last[s] = w.Do(op, from, "a", "c")
	}
	for i := range w.Remarks {
		w.CheckFacts(w.Remarks[i].R, i)
		w.CheckFirst(w.Remarks[i].R, i)
	}
	nd.Cover("end")
}

// First facts and story texts.
//
//verif:bounds every history of a story and 4 further operations (5 in the thorough tier) on any remarks; every remark, also fetched anew
func H_C10_history() {
	w := lib.NewWorld(lib.NewStore())
	history(w, depth())
	for i := range w.Remarks {
		w.CheckFirst(w.Remarks[i].R, i)
		r := w.Fetch(w.G, i)
		w.CheckFirst(r, i)
		w.CheckStoryText(r, i)
		w.CheckStoryText(w.Remarks[i].R, i)
	}
	nd.Cover("end")
}

// Story text of any text.
//
//verif:bounds a story, a fact, a remark on it and a child story, four code points of any value in their text; the story text of every remark
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C10_text() {
	w := lib.NewWorld(lib.NewStore())
	k := nd.Shard(12)
	w.Do(lib.OpStory, 0, lib.Text("?"), lib.Text("a _"))
	w.Do(lib.OpFact, 0, "a", lib.Text("_"))
	w.Do(1+k%3, k/3%2, "b", "a")
	w.Do(1+k/6, 2, lib.Text("_ a"), "a b")
	for i := range w.Remarks {
		w.CheckStoryText(w.Remarks[i].R, i)
		o := w.Remarks[w.First(i)].Object + " " + w.Remarks[w.First(i)].Property + " "
		text, err := w.Render(w.G, w.Remarks[i].R)
		nd.Assert(err == nil, "producing a story text fails")
		nd.Assert(len(text) >= len(o) && text[:len(o)] == o, "a story text does not start with the first remark")
	}
	nd.Cover("end")
}

// Stories.
//
//verif:bounds every history of a story and 4 further operations (5 in the thorough tier) on any remarks; every remark, also fetched anew
func H_C11_history() {
	w := lib.NewWorld(lib.NewStore())
	history(w, depth())
	for i := range w.Remarks {
		w.CheckStories(w.Remarks[i].R, i)
		w.CheckStories(w.Fetch(w.G, i), i)
	}
	nd.Cover("end")
}

// Trees of stories.
//
//verif:bounds every tree of 7 stories (8 in the thorough tier) in every order of creation; every story, also fetched anew
func H_C11_tree() {
	w := lib.NewWorld(lib.NewStore())
	w.Do(lib.OpStory, 0, "a", "b")
	n := 6
	if nd.Thorough() {
		n = 7
	}
	k := nd.Shard(24)
	for i := 0; i < n; i++ {
		j := 0
		switch i {
		case 0:
		case 1:
			j = k % 2
		case 2:
			j = k / 2 % 3
		case 3:
			j = k / 6
		default:
			j = nd.Choose(i + 1)
		}
		w.Do(lib.OpChild, j, "a", "b")
	}
	for i := range w.Remarks {
		w.CheckStories(w.Remarks[i].R, i)
		w.CheckStories(w.Fetch(w.G, i), i)
		w.CheckFirst(w.Remarks[i].R, i)
	}
	nd.Cover("end")
}

// Children of a story of several facts and remarks.
//
//verif:bounds a story of three facts, two of them with a second remark, and 4 child stories (5 in the thorough tier), each created from any remark of the story or of its children, each child with a further fact or remark or none
func H_C11_facts() {
	w := lib.NewWorld(lib.NewStore())
	w.Do(lib.OpStory, 0, "a", "b")
	w.Do(lib.OpRemark, 0, "", "c")
	w.Do(lib.OpFact, 0, "b", "a")
	w.Do(lib.OpRemark, 2, "", "a b")
	w.Do(lib.OpFact, 1, "a", "b")
	k := nd.Shard(15)
	more := k / 5
	w.Do(lib.OpChild, k%5, "a", "b")
	n := 2
	if nd.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		switch more {
		case 1:
			w.Do(lib.OpFact, len(w.Remarks)-1, "c", "c")
		case 2:
			w.Do(lib.OpRemark, len(w.Remarks)-1, "c", "c")
		}
		w.Do(lib.OpChild, nd.Choose(len(w.Remarks)), "b", "b")
	}
	for i := range w.Remarks {
		w.CheckStories(w.Remarks[i].R, i)
		w.CheckStories(w.Fetch(w.G, i), i)
		w.CheckFacts(w.Remarks[i].R, i)
	}
	nd.Cover("end")
}
