package modl

import (
	abstractFact "github.com/mem-memov/semnet/internal/abstract/fact"
	"github.com/mem-memov/semnet/internal/concrete/class"
	"github.com/mem-memov/semnet/internal/concrete/fact"
	"github.com/mem-memov/semnet/internal/concrete/remark"
	"github.com/mem-memov/semnet/internal/concrete/story"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// held is a fact as somebody came to hold it.
type held struct {
	f abstractFact.Aggregate
	n int
}

// reach gives a fact and what steps from it give, to a depth.
func reach(w *lib.World, f abstractFact.Aggregate, n int, depth int) []held {
	l := []held{{f, n}}
	if depth == 0 {
		return l
	}
	first := w.Facts[n].Remarks[0]
	x, err := f.ToFirstFact()
	nd.Assert(err == nil, "stepping to the first fact fails")
	l = append(l, reach(w, x, w.Remarks[w.First(first)].Fact, depth-1)...)
	if i := w.NextFact(first); i >= 0 {
		x, err = f.ToNextFact()
		nd.Assert(err == nil, "stepping to the next fact fails")
		l = append(l, reach(w, x, w.Remarks[i].Fact, depth-1)...)
	}
	if i := w.NextStory(first); i >= 0 {
		x, err = f.ToNextStory()
		nd.Assert(err == nil, "stepping to the next story fails")
		l = append(l, reach(w, x, w.Remarks[i].Fact, depth-1)...)
	}
	if p := w.Stories[w.Facts[n].Story].Parent; p >= 0 {
		x, err = f.ToParentStory()
		nd.Assert(err == nil, "stepping to the parent story fails")
		l = append(l, reach(w, x, w.Stories[p].Facts[0], depth-1)...)
	}
	return l
}

// Parents of whatever is held.
//
//verif:bounds every history of a story and 4 further operations (5 in the thorough tier) on any remarks; every fact ever given, by a lookup or up to three steps in any order, asked again after every operation
func H_C24_asked() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	classes := class.NewRepository(s)
	remarks := remark.NewStorage(s)
	facts := fact.NewRepository(s, classes, story.NewRepository(s, classes))
	k := nd.Shard(28)
	var kept []held
	var ids []uint // the node by which remarks know each fact
	for n := 0; n <= depth()+1; n++ {
		switch n {
		case 0:
			w.Do(lib.OpStory, 0, "a", "b")
		case 1:
			w.Nth(k%4, "a", "c b")
		case 2:
			w.Nth(k/4, "b", "a")
		default:
			w.Any("c", "b")
		}
		for len(ids) < len(w.Facts) {
			r, err := remarks.ReadEntityByClass(w.Remarks[n].ID)
			nd.Assert(err == nil, "a remark is not found by its identifier")
			id, err := r.GetTargetFact()
			nd.Assert(err == nil, "a remark has no fact")
			ids = append(ids, id)
		}
		for i := range w.Facts {
			f, err := facts.FetchByRemark(ids[i])
			nd.Assert(err == nil, "a fact is not found")
			kept = append(kept, reach(w, f, i, 3)...)
		}
		for _, v := range kept {
			nd.Assert(v.f.GetRemark() == ids[v.n], "a step gives another fact")
			p := w.Stories[w.Facts[v.n].Story].Parent
			has, err := v.f.HasParentStory()
			nd.Assert(err == nil, "asking for a parent story fails")
			nd.Assert(has == (p >= 0), "the answer whether there is a parent story is wrong")
			x, err := v.f.ToParentStory()
			nd.Assert((err == nil) == has, "having a parent story and taking the step to it disagree")
			if err == nil {
				nd.Assert(x.GetRemark() == ids[w.Stories[p].Facts[0]], "the parent story is another one")
			}
		}
	}
	nd.Cover("end")
}
