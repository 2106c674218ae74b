package lib

import (
	"github.com/mem-memov/semnet"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// Turn goes on through another graph over the same storage.
func (w *World) Turn(g *semnet.Graph) {
	w.G = g
	for i := range w.Remarks {
		w.Remarks[i].R = w.Fetch(g, i)
	}
}

// Turns runs a story and three further operations of any kind on any remarks,
// by turns through two graphs open at the same time, the second given lists in the same or in reverse order, the second of which is
// given lists in the same or in reverse order, and gives the graphs.
func (w *World) Turns() [2]*semnet.Graph {
	k := nd.Shard(4 * 28)
	g := [2]*semnet.Graph{w.G, semnet.NewGraph(&Wrap{S: w.S, Flip: k % 2})}
	k /= 2
	first := k % 2
	k /= 2
	w.Do(OpStory, 0, "a", "b")
	w.Turn(g[first])
	w.Nth(k%4, "a", "c")
	w.Turn(g[1-first])
	w.Nth(k/4, "b", "a")
	w.Turn(g[first])
	w.Any("a", "b")
	return g
}

var alike = [][2]string{{"a", "a"}, {"a", "b"}, {"b", "a"}}

// Alike runs a story and three further operations of any kind on any remarks,
// the text of each any of three that are alike.
func (w *World) Alike() {
	k := nd.Shard(28)
	t := alike[nd.Choose(2)]
	w.Do(OpStory, 0, t[0], t[1])
	t = alike[nd.Choose(3)]
	w.Nth(k%4, t[0], t[1])
	t = alike[nd.Choose(3)]
	w.Nth(k/4, t[0], t[1])
	if nd.Choose(2) == 0 {
		w.Do(OpFact, 0, t[0], t[1])
	} else {
		w.Do(OpChild, 0, t[0], t[1])
	}
}

// Stepped is remark i as a step from another one that is held gives it.
func (w *World) Stepped(i int) Handle {
	for j := len(w.Remarks) - 1; j >= 0; j-- {
		var r Handle
		var err error
		switch {
		case w.NextFact(j) == i:
			r, err = w.Remarks[j].R.GetNextFact()
		case w.NextStory(j) == i:
			r, err = w.Remarks[j].R.GetNextStory()
		case w.First(j) == i && j != i:
			r, err = w.Remarks[j].R.GetFirstFact()
		default:
			continue
		}
		nd.Assert(err == nil, "a step fails")
		return r
	}
	return w.Remarks[i].R // no step leads there
}
