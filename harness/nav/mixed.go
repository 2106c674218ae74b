package nav

import (
	"github.com/mem-memov/semnet"
	"github.com/mem-memov/semnet/internal/concrete/remark"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// Identifiers, two graphs at once.
//
//verif:bounds every history of a story and 3 further operations on any remarks, by turns through two graphs open at the same time, the second given lists in the same or in reverse order; every remark in both
func H_C06_turns() {
	w := lib.NewWorld(lib.NewStore())
	for _, g := range w.Turns() {
		for i := range w.Remarks {
			for j := 0; j < i; j++ {
				nd.Assert(w.Remarks[i].ID != w.Remarks[j].ID, "two remarks share an identifier")
			}
			x := w.Fetch(g, i)
			w.CheckText(x, i)
			lib.See(w.Remarks[i].R).CheckSame(x)
		}
	}
	nd.Cover("end")
}

// Identifiers, text alike.
//
//verif:bounds every history of a story and 3 further operations on any remarks (the last on the first), the text of each any of three with two words in common; every remark
func H_C06_alike() {
	w := lib.NewWorld(lib.NewStore())
	w.Alike()
	for i := range w.Remarks {
		for j := 0; j < i; j++ {
			nd.Assert(w.Remarks[i].ID != w.Remarks[j].ID, "two remarks share an identifier")
		}
		x := w.Fetch(w.G, i)
		w.CheckText(x, i)
		lib.See(w.Remarks[i].R).CheckSame(x)
	}
	nd.Cover("end")
}

// Facts, two graphs at once.
//
//verif:bounds every history of a story and 3 further operations on any remarks, by turns through two graphs open at the same time, the second given lists in the same or in reverse order; every remark in both
func H_C09_turns() {
	w := lib.NewWorld(lib.NewStore())
	for _, g := range w.Turns() {
		for i := range w.Remarks {
			w.CheckFacts(w.Remarks[i].R, i)
			w.CheckFacts(w.Fetch(g, i), i)
		}
	}
	nd.Cover("end")
}

// Facts, text alike.
//
//verif:bounds every history of a story and 3 further operations on any remarks (the last on the first), the text of each any of three with two words in common; every remark
func H_C09_alike() {
	w := lib.NewWorld(lib.NewStore())
	w.Alike()
	for i := range w.Remarks {
		w.CheckFacts(w.Remarks[i].R, i)
		w.CheckFacts(w.Fetch(w.G, i), i)
	}
	nd.Cover("end")
}

// First facts, two graphs at once.
//
//verif:bounds every history of a story and 3 further operations on any remarks, by turns through two graphs open at the same time, the second given lists in the same or in reverse order; every remark in both
func H_C10_turns() {
	w := lib.NewWorld(lib.NewStore())
	for _, g := range w.Turns() {
		w.G = g
		for i := range w.Remarks {
			w.CheckFirst(w.Remarks[i].R, i)
			w.CheckFirst(w.Fetch(g, i), i)
			w.CheckStoryText(w.Remarks[i].R, i)
		}
	}
	nd.Cover("end")
}

// First facts, text alike.
//
//verif:bounds every history of a story and 3 further operations on any remarks (the last on the first), the text of each any of three with two words in common; every remark
func H_C10_alike() {
	w := lib.NewWorld(lib.NewStore())
	w.Alike()
	for i := range w.Remarks {
		w.CheckFirst(w.Remarks[i].R, i)
		w.CheckStoryText(w.Fetch(w.G, i), i)
	}
	nd.Cover("end")
}

// Stories, two graphs at once.
//
//verif:bounds every history of a story and 3 further operations on any remarks, by turns through two graphs open at the same time, the second given lists in the same or in reverse order; every remark in both
func H_C11_turns() {
	w := lib.NewWorld(lib.NewStore())
	for _, g := range w.Turns() {
		for i := range w.Remarks {
			w.CheckStories(w.Remarks[i].R, i)
			w.CheckStories(w.Fetch(g, i), i)
			w.CheckFirst(w.Remarks[i].R, i)
		}
	}
	nd.Cover("end")
}

// Children, two graphs at once.
//
//verif:bounds a story and 5 child stories (6 in the thorough tier) of it or of its first child, each through either of two graphs open at the same time, the second given lists in the same or in reverse order; every remark in both
func H_C11_both() {
	w := lib.NewWorld(lib.NewStore())
	k := nd.Shard(32)
	g := [2]*semnet.Graph{w.G, semnet.NewGraph(&lib.Wrap{S: w.S, Flip: k / 16})}
	k %= 16
	w.Do(lib.OpStory, 0, "a", "b")
	n := 5
	if nd.Thorough() {
		n = 6
	}
	for i := 0; i < n; i++ {
		c := k % 4
		switch i {
		case 0:
		case 1:
			c = k / 4
		default:
			c = nd.Choose(4)
		}
		w.Turn(g[c%2])
		j := c / 2
		if i == 0 {
			j = 0
		}
		w.Do(lib.OpChild, j, "a", "b")
	}
	for _, g := range g {
		for i := range w.Remarks {
			w.CheckStories(w.Fetch(g, i), i)
		}
	}
	nd.Cover("end")
}

// Stories, text alike.
//
//verif:bounds every history of a story and 3 further operations on any remarks (the last on the first), the text of each any of three with two words in common; every remark
func H_C11_alike() {
	w := lib.NewWorld(lib.NewStore())
	w.Alike()
	for i := range w.Remarks {
		w.CheckStories(w.Remarks[i].R, i)
		w.CheckStories(w.Fetch(w.G, i), i)
		w.CheckFirst(w.Remarks[i].R, i)
	}
	nd.Cover("end")
}

// Steps, two graphs at once.
//
//verif:bounds every history of a story and 3 further operations on any remarks, by turns through two graphs open at the same time, the second given lists in the same or in reverse order; every remark in both, steps to a depth of 2
func H_C12_turns() {
	w := lib.NewWorld(lib.NewStore())
	for _, g := range w.Turns() {
		for i := range w.Remarks {
			w.Full(w.Remarks[i].R, i, 1)
			w.Full(w.Fetch(g, i), i, 1)
		}
	}
	nd.Cover("end")
}

// Steps, text alike.
//
//verif:bounds every history of a story and 3 further operations on any remarks (the last on the first), the text of each any of three with two words in common; every remark, steps to a depth of 2
func H_C12_alike() {
	w := lib.NewWorld(lib.NewStore())
	w.Alike()
	for i := range w.Remarks {
		w.Full(w.Remarks[i].R, i, 1)
	}
	nd.Cover("end")
}

// link makes remark j the one after remark i, as the storage keeps it. What
// adds remarks does not link them, which is the known finding of C12; should it
// come to, there is nothing to explore here.
func link(w *lib.World, i int, j int) {
	remarks := remark.NewStorage(w.S)
	a, err := remarks.ReadEntityByClass(w.Remarks[i].ID)
	nd.Assert(err == nil, "a remark is not found by its identifier")
	b, err := remarks.ReadEntityByClass(w.Remarks[j].ID)
	nd.Assert(err == nil, "a remark is not found by its identifier")
	has, err := a.HasNextRemark()
	nd.Assert(err == nil, "asking for a next remark fails")
	nd.Assume(!has)
	nd.Assert(a.PointToPosition(b.GetPosition()) == nil, "a remark cannot be linked to the next")
}

// Story text of linked remarks.
//
//verif:bounds a story, one further operation of any kind and 3 remarks (5 in the thorough tier) on it or on the story, texts alike or with a code point of any one-byte value; the remarks from the first on linked to one another in any order, all or only some; the story text of every remark, also asked for before each link or not
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C10_linked() {
	w := lib.NewWorld(lib.NewStore())
	k := nd.Shard(64)
	between := k >= 32
	k %= 32
	t := [][2]string{{"a", "a"}, {"a", "b"}, {"_", "a"}, {"a b", "_ a"}}[k/8]
	w.Do(lib.OpStory, 0, lib.Text(t[0]), lib.Text(t[1]))
	w.Nth(k%4, "a", "a")
	n := 3
	if nd.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		w.Do(lib.OpRemark, k/4%2, "", []string{"a", "b"}[i%2])
	}
	var rest []int
	for i := 1; i < len(w.Remarks); i++ {
		rest = append(rest, i)
	}
	last := 0
	text := w.Remarks[0].Object + " " + w.Remarks[0].Property + " "
	render := func() {
		for i := range w.Remarks {
			if w.First(i) != 0 {
				continue
			}
			got, err := w.Render(w.G, w.Remarks[i].R)
			nd.Assert(err == nil, "producing a story text fails")
			nd.Assert(got == text, "a story text is not that of the remarks from the first on")
		}
	}
	for len(rest) > 0 {
		if between {
			render()
		}
		c := nd.Choose(len(rest) + 1)
		if c == len(rest) {
			break
		}
		i := rest[c]
		rest = append(append([]int(nil), rest[:c]...), rest[c+1:]...)
		link(w, last, i)
		last = i
		text += w.Remarks[i].Object + " " + w.Remarks[i].Property + " "
	}
	if nd.Choose(2) == 1 {
		w.Reopen()
	}
	render()
	nd.Cover("end")
}

// Story text of many linked remarks.
//
//verif:bounds a fact of 40, 140 or 260 remarks linked in the order added; the story text of the first, the last and one between
func H_C10_long() {
	w := lib.NewWorld(lib.NewStore())
	n := []int{40, 140, 260}[nd.Shard(3)]
	w.Do(lib.OpStory, 0, "a", "b")
	text := "a b "
	for i := 1; i < n; i++ {
		p := []string{"a", "b", "ab a"}[i%3]
		w.Do(lib.OpRemark, i/2, "", p)
		link(w, i-1, i)
		text += "a " + p + " "
	}
	for _, i := range []int{0, n / 2, n - 1} {
		got, err := w.Render(w.G, w.Remarks[i].R)
		nd.Assert(err == nil, "producing a story text fails")
		nd.Assert(got == text, "a story text is not that of the remarks from the first on")
	}
	nd.Cover("end")
}

// Steps along linked remarks.
//
//verif:bounds a story, 2 further operations of any kind and 2 remarks, linked to one another in the order made, all or only some; every remark, as held (also asked before each link or not), looked up and stepped to, and a further operation on the remark stepped to
func H_C12_linked() {
	w := lib.NewWorld(lib.NewStore())
	k := nd.Shard(56)
	between := k >= 28
	k %= 28
	w.Do(lib.OpStory, 0, "a", "b")
	w.Nth(k%4, "a", "c")
	w.Nth(k/4, "b", "a")
	w.Do(lib.OpRemark, 0, "", "a")
	w.Do(lib.OpRemark, 1, "", "b")
	next := make([]int, len(w.Remarks))
	for i := range next {
		next[i] = -1
	}
	last := 0
	for i := 1; i < len(next); i++ {
		if between {
			for j := range next {
				has, err := w.Remarks[j].R.HasNextRemark()
				nd.Assert(err == nil, "asking for a next remark fails")
				nd.Assert(has == (next[j] >= 0), "a remark is wrong about having a next remark")
				_, err = w.Remarks[j].R.GetNextRemark()
				nd.Assert((err == nil) == has, "having a next remark and stepping to it disagree")
			}
		}
		if nd.Choose(2) == 1 {
			link(w, last, i)
			next[last] = i
			last = i
		}
	}
	for i := range next {
		for _, r := range []lib.Handle{w.Remarks[i].R, w.Fetch(w.G, i)} {
			has, err := r.HasNextRemark()
			nd.Assert(err == nil, "asking for a next remark fails")
			nd.Assert(has == (next[i] >= 0), "a remark is wrong about having a next remark")
			x, err := r.GetNextRemark()
			nd.Assert((err == nil) == has, "having a next remark and stepping to it disagree")
			if !has {
				continue
			}
			w.Full(x, next[i], 1)
			for j := next[i]; next[j] >= 0; j = next[j] {
				x, err = x.GetNextRemark()
				nd.Assert(err == nil, "stepping to the next remark fails")
				w.Full(x, next[j], 0)
			}
		}
	}
	if next[0] >= 0 {
		x, err := w.Remarks[0].R.GetNextRemark()
		nd.Assert(err == nil, "stepping to the next remark fails")
		w.Remarks[next[0]].R = x
		w.Do(lib.OpRemark+k%3, next[0], "b", "c")
		for i := range w.Remarks {
			w.CheckText(w.Remarks[i].R, i)
			w.CheckFacts(w.Remarks[i].R, i)
			w.CheckStories(w.Remarks[i].R, i)
		}
	}
	nd.Cover("end")
}
