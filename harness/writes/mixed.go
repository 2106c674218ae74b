package writes

import (
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

func numbers(w *lib.World, s *lib.Store) {
	c := kinds(s)
	nd.Assert(c[1] == 2, "there are not two bits")
	nd.Assert(c[6] == len(w.Remarks), "the number of remarks is wrong")
	nd.Assert(c[7] == len(w.Facts), "the number of facts is wrong")
	nd.Assert(c[8] == len(w.Stories), "the number of stories is wrong")
}

// Reading through two graphs at once.
//
//verif:bounds every history of a story and 3 further operations on any remarks, by turns through two graphs open at the same time, the second given lists in the same or in reverse order; every reader on every remark in both
func H_C17_turns() {
	f := lib.NewWrap(lib.NewStore())
	w := lib.NewWorld(f)
	gs := w.Turns()
	writes := f.Writes
	for _, g := range gs {
		w.Turn(g)
		for i := range w.Remarks {
			readEverything(w, w.Remarks[i].R)
		}
	}
	nd.Assert(f.Writes == writes, "reading writes to the storage")
	nd.Cover("end")
}

// Writing through two graphs at once.
//
//verif:bounds every history of a story and 3 further operations on any remarks, by turns through two graphs open at the same time, the second given lists in the same or in reverse order, after every operation
func H_C18_turns() {
	f := lib.NewWrap(lib.NewStore())
	w := lib.NewWorld(f)
	w.Turns()
	nd.Assert(f.Dels == 0, "something is deleted or disconnected")
	nd.Assert(f.Resets == 0, "a reference that was set is changed")
	nd.Cover("end")
}

// Writing text alike.
//
//verif:bounds every history of a story and 3 further operations on any remarks (the last on the first), the text of each any of three with two words in common
func H_C18_alike() {
	f := lib.NewWrap(lib.NewStore())
	w := lib.NewWorld(f)
	w.Alike()
	nd.Assert(f.Dels == 0, "something is deleted or disconnected")
	nd.Assert(f.Resets == 0, "a reference that was set is changed")
	nd.Cover("end")
}

// Counting, two graphs at once.
//
//verif:bounds every history of a story and 3 further operations on any remarks, by turns through two graphs open at the same time, the second given lists in the same or in reverse order
func H_C20_turns() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	w.Turns()
	numbers(w, s)
	nd.Cover("end")
}

// Counting, text alike.
//
//verif:bounds every history of a story and 3 further operations on any remarks (the last on the first), the text of each any of three with two words in common
func H_C20_alike() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	w.Alike()
	numbers(w, s)
	nd.Cover("end")
}
