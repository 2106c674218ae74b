package nav

import (
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// Steps.
//
//verif:bounds every history of a story and 3 further operations (4 in the thorough tier) on any remarks; all steps from every remark, held and fetched anew, to a depth of 3
func H_C12_history() {
	w := lib.NewWorld(lib.NewStore())
	history(w, depth()-1)
	for i := range w.Remarks {
		w.Full(w.Remarks[i].R, i, 2)
		w.Full(w.Fetch(w.G, i), i, 3)
	}
	nd.Cover("end")
}

// Steps between operations, and operations on the remarks steps give.
//
//verif:bounds a story and 4 further operations (5 in the thorough tier), each on the remark that a first-fact, next-fact or next-story step from any remark gives
func H_C12_stepped() {
	w := lib.NewWorld(lib.NewStore())
	w.Do(lib.OpStory, 0, "a", "b")
	n := depth()
	for i := 0; i < n; i++ {
		k := 0
		if i == 0 {
			k = nd.Shard(3)
		} else {
			k = nd.Choose(3 * len(w.Remarks))
		}
		j := k / 3
		t := w.First(j)
		x, err := w.Remarks[j].R.GetFirstFact()
		nd.Assert(err == nil, "asking for the first fact fails")
		if m := w.NextFact(j); m >= 0 {
			t = m
			x, err = w.Remarks[j].R.GetNextFact()
			nd.Assert(err == nil, "stepping to the next fact fails")
		} else if m := w.NextStory(j); m >= 0 {
			t = m
			x, err = w.Remarks[j].R.GetNextStory()
			nd.Assert(err == nil, "stepping to the next story fails")
		}
		w.Full(x, t, 0)
		old := w.Remarks[t].R
		w.Remarks[t].R = x
		w.Do(lib.OpRemark+k%3, t, "b", "a")
		w.Remarks[t].R = old
	}
	for i := range w.Remarks {
		w.Full(w.Remarks[i].R, i, 1)
	}
	nd.Cover("end")
}

// Remarks of one fact.
//
//verif:bounds every history of a story and 3 further operations (4 in the thorough tier) on any remarks; the walk over the remarks of every fact
func H_C12_remarks() {
	w := lib.NewWorld(lib.NewStore())
	history(w, depth()-1)
	linked := false
	missing := false
	for i := range w.Remarks {
		r := w.Fetch(w.G, i)
		has, err := r.HasNextRemark()
		nd.Assert(err == nil, "asking for a next remark fails")
		x, err := r.GetNextRemark()
		nd.Assert(has == (err == nil), "having a next remark and stepping to it disagree")
		n := w.NextRemark(i)
		if !has {
			missing = missing || n >= 0
			continue
		}
		linked = true
		nd.Assert(n >= 0, "a next remark is given where there is none")
		nd.Assert(x.GetIdentifier() == w.Remarks[n].ID, "the next remark is not the one added next")
	}
	nd.Cover("end")
	nd.Assert(!missing || !linked, "some remarks of a fact are reached from its first and some are not")
	nd.Finding("next-remark-missing", missing, "a remark added to a fact is not reached from the fact's first remark")
}
