package nav

import (
	"github.com/mem-memov/clew"
	abstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// Identifiers.
//
//verif:bounds every history of a story and 4 further operations (5 in the thorough tier) on any remarks; after every operation
func H_C06_history() {
	w := lib.NewWorld(lib.NewStore())
	w.Do(lib.OpStory, 0, "a", "b")
	n := depth()
	for i := 0; i <= n; i++ {
		for j := range w.Remarks {
			nd.Assert(w.Remarks[j].R.GetIdentifier() == w.Remarks[j].ID, "a remark changes its identifier")
			for k := 0; k < j; k++ {
				nd.Assert(w.Remarks[j].ID != w.Remarks[k].ID, "two remarks share an identifier")
			}
			x := w.Fetch(w.G, j)
			w.CheckText(x, j)
			lib.See(w.Remarks[j].R).CheckSame(x)
			if i == n {
				stepped(w, w.Remarks[j].R)
				stepped(w, x)
			}
		}
		if i == n {
			break
		}
		if i == 0 {
			w.Nth(nd.Shard(4), "a", "b")
		} else {
			w.Any("a", "c")
		}
	}
	nd.Cover("end")
}

// stepped checks the identifiers of the remarks that steps from r lead to.
func stepped(w *lib.World, r abstractRemark.Aggregate) {
	steps := []func() (abstractRemark.Aggregate, error){r.GetFirstFact, r.GetNextFact, r.GetNextStory, r.GetNextRemark}
	for _, step := range steps {
		x, err := step()
		if err != nil {
			continue
		}
		i := w.Index(x.GetIdentifier())
		w.CheckText(x, i)
		lib.See(x).CheckSame(w.Remarks[i].R)
	}
}

// Identifiers of remarks of equal text.
//
//verif:bounds every history of a story and 3 further operations on any remarks, text of two symbolic code points in each but the first
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C06_text() {
	w := lib.NewWorld(lib.NewStore())
	w.Do(lib.OpStory, 0, "a", "b")
	k := nd.Shard(28)
	w.Nth(k%4, "a", lib.Text("_"))
	w.Nth(k/4, "a", lib.Text("_"))
	w.Any("b", lib.Text("_"))
	for j := range w.Remarks {
		for k := 0; k < j; k++ {
			nd.Assert(w.Remarks[j].ID != w.Remarks[k].ID, "two remarks share an identifier")
		}
		x := w.Fetch(w.G, j)
		w.CheckText(x, j)
		lib.See(w.Remarks[j].R).CheckSame(x)
	}
	nd.Cover("end")
}

// foreign looks up every number that identifies no remark.
func foreign(w *lib.World, pin bool) {
	id := nd.Uint()
	for v := uint(0); pin && v < 512; v++ {
		if nd.Fork(id == v) { // one path for each number in use
			id = v
			break
		}
	}
	for i := range w.Remarks {
		nd.Assume(id != w.Remarks[i].ID)
	}
	_, err := w.G.GetRemark(id)
	nd.Assert(err != nil, "a number that identifies no remark gives a remark")
	nd.Cover("end")
}

// Any number.
//
//verif:bounds every number of 64 bits, after every history of a story and 2 further operations (3 in the thorough tier) on any remarks
func H_C07_any() {
	w := lib.NewWorld(lib.NewStore())
	n := 2
	if nd.Thorough() {
		n = 3
	}
	history(w, n)
	foreign(w, false)
}

var unfit = []string{"", "a ", " a", "a  b", "b c\xff", "\xff"}

// Any number after text was rejected.
//
//verif:bounds every number of 64 bits, after text rejected at its first, second or last word, as object or as property or, first, on an empty store, by every creating operation on any of three remarks, and one further operation, in the same or a newly opened graph
func H_C07_rejected() {
	w := lib.NewWorld(lib.NewStore())
	k := nd.Shard(2 * 10 * len(unfit))
	o, p := unfit[k/20], "ab"
	if k%2 == 1 {
		o, p = p, o
	}
	k = k / 2 % 10
	if k == 9 { // the first operation
		_, err := w.Try(lib.OpStory, 0, o, p)
		nd.Assert(err != nil, "text that cannot be stored is accepted")
	}
	w.Do(lib.OpStory, 0, "a", "b")
	w.Do(lib.OpFact, 0, "b", "a")
	w.Do(lib.OpChild, 0, "a", "c")
	if k < 9 {
		op := []int{lib.OpStory, lib.OpFact, lib.OpChild}[k%3]
		if p != "ab" && nd.Choose(2) == 1 {
			op = lib.OpRemark
		}
		_, err := w.Try(op, k/3, o, p)
		nd.Assert(err != nil, "text that cannot be stored is accepted")
	}
	if nd.Choose(2) == 1 {
		w.Do(lib.OpFact, 1, "c", "ab")
	}
	if nd.Choose(2) == 1 {
		w.Reopen()
	}
	for i := range w.Remarks {
		w.CheckText(w.Fetch(w.G, i), i)
	}
	foreign(w, true)
}

// Any number, over clew.
//
//verif:bounds every number of 64 bits, over the real clew storage, after a story, and after one further operation of each kind
func H_C07_clew() {
	w := lib.NewWorld(clew.NewGraph(clew.NewSliceStorage()))
	w.Do(lib.OpStory, 0, "a", "b a")
	k := nd.Shard(5)
	if k < 4 {
		w.Do(k, 0, "a b", "c")
	}
	foreign(w, true)
}

// An empty store.
//
//verif:bounds every number of 64 bits, over a store nothing was written to
func H_C07_empty() {
	var w *lib.World
	if nd.Choose(2) == 0 {
		w = lib.NewWorld(lib.NewStore())
	} else {
		w = lib.NewWorld(clew.NewGraph(clew.NewSliceStorage()))
	}
	foreign(w, true)
}
