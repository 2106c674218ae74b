package nav

import (
	"github.com/mem-memov/clew"
	"github.com/mem-memov/semnet"
	"github.com/mem-memov/semnet/internal/abstract"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// reopen opens a new graph, checks that all of it is there and that nothing is
// written by looking.
func reopen(w *lib.World, f *lib.Wrap) {
	places := make([]lib.Place, len(w.Remarks))
	for i := range w.Remarks {
		places[i] = lib.See(w.Remarks[i].R)
	}
	writes := f.Writes
	w.Reopen()
	for i := range w.Remarks {
		places[i].CheckSame(w.Remarks[i].R)
		w.CheckText(w.Remarks[i].R, i)
	}
	nd.Assert(f.Writes == writes, "opening and reading a store writes to it")
}

// Reopening anywhere in a history.
//
//verif:bounds every history of a story and 3 further operations (4 in the thorough tier) on any remarks, a new graph opened or not before each and at the end
func H_C08_history() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	w.Do(lib.OpStory, 0, "a", "b")
	n := depth() - 1
	for i := 0; i < n; i++ {
		k := 0
		if i == 0 {
			k = nd.Shard(8)
		} else {
			k = nd.Choose(2 * (1 + 3*len(w.Remarks)))
		}
		if k%2 == 1 {
			reopen(w, f)
		}
		w.Nth(k/2, "a", "c")
	}
	reopen(w, f)
	w.CheckAll()
	nd.Cover("end")
}

// Text known before reopening is reused after it.
//
//verif:bounds four stories or other operations of text with three symbolic code points, the graph reopened before each of the last two; what is stored is the same as without reopening
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C08_text() {
	k := nd.Shard(28)
	var t [4][2]string
	t[0] = [2]string{lib.Text("_"), "a b"}
	t[1] = [2]string{"a", lib.Text("_b")}
	t[2] = [2]string{lib.Text("_ b"), "a"}
	t[3] = [2]string{"a", "ab"}
	var made [2][]int
	for m := 0; m < 2; m++ {
		s := lib.NewStore()
		f := lib.NewWrap(s)
		w := lib.NewWorld(f)
		for i := range t {
			if m == 1 && i >= 2 {
				reopen(w, f)
			}
			switch i {
			case 1:
				w.Nth(k%4, t[i][0], t[i][1])
			case 2:
				w.Nth(k/4, t[i][0], t[i][1])
			default:
				w.Nth(0, t[i][0], t[i][1])
			}
			for c := 1; c <= 8; c++ {
				made[m] = append(made[m], s.CountClass(uint(c)))
			}
		}
		for i := range w.Remarks {
			w.CheckText(w.Remarks[i].R, i)
		}
	}
	for i := range made[0] {
		nd.Assert(made[0][i] == made[1][i], "a reopened store stores other things than the graph that wrote it would")
	}
	nd.Cover("end")
}

// Two graphs over one store.
//
//verif:bounds every history of a story and 3 further operations (4 in the thorough tier) on any remarks, each through either of two graphs open at the same time, the second given lists in the same or in reverse order, the second opened before or after the first operation
func H_C08_both() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	var g [2]*semnet.Graph
	g[0] = w.G
	k := nd.Shard(32)
	if k%2 == 0 {
		g[1] = semnet.NewGraph(s)
	}
	w.Do(lib.OpStory, 0, "a", "b")
	if k%2 == 1 {
		g[1] = semnet.NewGraph(s)
	}
	n := depth() - 1
	for i := 0; i < n; i++ {
		c := k / 2
		if i > 0 {
			c = nd.Choose(2 * (1 + 3*len(w.Remarks)))
		} else {
			c %= 8
		}
		if i == 1 {
			nd.Assume(c%2 == k/16)
		}
		w.G = g[c%2]
		for j := range w.Remarks {
			w.Remarks[j].R = w.Fetch(w.G, j)
		}
		w.Nth(c/2, "b", "a")
	}
	w.G = g[0]
	w.CheckAll()
	w.G = g[1]
	w.CheckAll()
	nd.Cover("end")
}

// agree runs one storage operation on both and compares.
func agree(a abstract.Storage, b abstract.Storage, k int, x uint, y uint) {
	switch k {
	case 0:
		p, e := a.Create()
		q, f := b.Create()
		nd.Assert((e == nil) == (f == nil) && (e != nil || p == q), "the storage model and clew disagree on Create")
	case 1:
		e := a.Connect(x, y)
		f := b.Connect(x, y)
		nd.Assert((e == nil) == (f == nil), "the storage model and clew disagree on Connect")
	default:
		e := a.SetReference(x, y)
		f := b.SetReference(x, y)
		nd.Assert((e == nil) == (f == nil), "the storage model and clew disagree on SetReference")
	}
}

func same(p []uint, q []uint) bool {
	if len(p) != len(q) {
		return false
	}
	for i := range p {
		if p[i] != q[i] {
			return false
		}
	}
	return true
}

// The storage model of these checks against clew itself.
//
//verif:bounds every sequence of 3 writes (4 in the thorough tier) after three creations: creations, connections and references between any nodes (each reference set at most once), then every read of every node
func H_C08_clew() {
	a, b := abstract.Storage(clew.NewGraph(clew.NewSliceStorage())), abstract.Storage(lib.NewStore())
	var ids []uint
	for i := 0; i < 3; i++ {
		p, e := a.Create()
		q, f := b.Create()
		nd.Assert(e == nil && f == nil && p == q, "the storage model and clew disagree on Create")
		ids = append(ids, p)
	}
	n := 3
	if nd.Thorough() {
		n = 4
	}
	next, prev := map[uint]bool{}, map[uint]bool{}
	for i := 0; i < n; i++ {
		k := 0
		c := 1 + 2*len(ids)*len(ids)
		if i == 0 {
			k = nd.Shard(c)
		} else {
			k = nd.Choose(c)
		}
		if k == 0 {
			p, e := a.Create()
			q, f := b.Create()
			nd.Assert(e == nil && f == nil && p == q, "the storage model and clew disagree on Create")
			ids = append(ids, p)
			continue
		}
		k--
		x, y := ids[k/2/len(ids)], ids[k/2%len(ids)]
		if k%2 == 1 {
			nd.Assume(!next[x] && !prev[y] && x != y)
			next[x], prev[y] = true, true
		}
		agree(a, b, 1+k%2, x, y)
	}
	for _, x := range ids {
		p, e := a.ReadSources(x)
		q, f := b.ReadSources(x)
		nd.Assert((e == nil) == (f == nil) && same(p, q), "the storage model and clew disagree on ReadSources")
		p, e = a.ReadTargets(x)
		q, f = b.ReadTargets(x)
		nd.Assert((e == nil) == (f == nil) && same(p, q), "the storage model and clew disagree on ReadTargets")
		p1, n1, e := a.GetReference(x)
		p2, n2, f := b.GetReference(x)
		nd.Assert((e == nil) == (f == nil) && p1 == p2 && n1 == n2, "the storage model and clew disagree on GetReference")
	}
	nd.Cover("end")
}

// The whole library over clew.
//
//verif:bounds every history of a story and 3 further operations (4 in the thorough tier) on any remarks over the real clew storage, the graph reopened (over a new clew graph over the same entries), then a fact (any operation in the thorough tier)
func H_C08_real() {
	e := clew.NewSliceStorage()
	w := lib.NewWorld(clew.NewGraph(e))
	history(w, depth()-1)
	w.S = clew.NewGraph(e)
	w.Reopen()
	if nd.Thorough() {
		w.CheckAll()
		w.Any("a b", "c")
	} else {
		w.Do(lib.OpFact, len(w.Remarks)-1, "a b", "c")
	}
	w.CheckAll()
	nd.Cover("end")
}
