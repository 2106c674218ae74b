package writes

import (
	"github.com/mem-memov/semnet"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// lender is a storage that hands out lists it keeps using: the same list every
// time until the links it shows change, with room behind its last entry.
type lender struct {
	*lib.Wrap
	lists map[[2]uint]*loan
}

type loan struct {
	given []uint
	kept  []uint
}

const beyond = 3

func newLender(w *lib.Wrap) *lender {
	return &lender{w, map[[2]uint]*loan{}}
}

func (l *lender) lend(way uint, node uint, list []uint, err error) ([]uint, error) {
	if err != nil {
		return list, err
	}
	k := [2]uint{way, node}
	o, ok := l.lists[k]
	if ok && len(o.kept) == len(list) {
		return o.given, nil
	}
	o = &loan{make([]uint, len(list)+beyond), append([]uint{}, list...)}
	copy(o.given, list)
	o.given = o.given[:len(list)]
	l.lists[k] = o
	return o.given, nil
}

func (l *lender) ReadSources(node uint) ([]uint, error) {
	r, err := l.Wrap.ReadSources(node)
	return l.lend(0, node, r, err)
}

func (l *lender) ReadTargets(node uint) ([]uint, error) {
	r, err := l.Wrap.ReadTargets(node)
	return l.lend(1, node, r, err)
}

// whole checks that the lists are as they were handed out.
func (l *lender) whole(s *lib.Store) {
	for n := uint(1); n < uint(len(s.Nodes)); n++ {
		for way := uint(0); way < 2; way++ {
			o, ok := l.lists[[2]uint{way, n}]
			if !ok {
				continue
			}
			nd.Assert(len(o.given) == len(o.kept), "a list of the storage has another length")
			for i := range o.kept {
				nd.Assert(o.given[i] == o.kept[i], "a list of the storage is changed")
			}
			for _, x := range o.given[len(o.kept):cap(o.given)] {
				nd.Assert(x == 0, "what is behind a list of the storage is changed")
			}
		}
	}
}

func lending(flip int) (*lib.World, *lender, *lib.Store) {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	f.Flip = flip
	l := newLender(f)
	return lib.NewWorld(l), l, s
}

// Lists on loan.
//
//verif:bounds every history of a story and 3 further operations (4 in the thorough tier) on any remarks, the storage lists in the order added, in reverse or rotated; every reader on every remark, held and looked up, also in a newly opened graph
func H_C25_history() {
	k := nd.Shard(3 * 28)
	w, l, s := lending(k % 3)
	k /= 3
	w.Do(lib.OpStory, 0, "a", "b")
	w.Nth(k%4, "a", "c b")
	w.Nth(k/4, "b", "a")
	if nd.Thorough() {
		w.Any("c", "b")
	}
	w.Any("b", "a c")
	l.whole(s)
	for t := 0; t < 2; t++ {
		for i := range w.Remarks {
			readEverything(w, w.Remarks[i].R)
			readEverything(w, w.Fetch(w.G, i))
			w.CheckText(w.Remarks[i].R, i)
		}
		w.G = semnet.NewGraph(l)
	}
	l.whole(s)
	nd.Cover("end")
}

// Long lists on loan.
//
//verif:bounds a store of 40 remarks (60 in the thorough tier) of all kinds and any one further operation on any of them, or of 140 (270) and one on any of four, the storage lists in the order added, in reverse or rotated; that remark and three others read
func H_C25_many() {
	n, k := lib.Size(40, 140)
	if nd.Thorough() {
		n, k = lib.Size(60, 270)
	}
	w, l, s := lending(nd.Choose(3))
	w.Grow(n)
	j := w.Nth(k, "b", "c ab")
	for _, i := range []int{j, 0, n / 2, n - 1} {
		readEverything(w, w.Fetch(w.G, i))
		w.CheckText(w.Remarks[i].R, i)
	}
	l.whole(s)
	nd.Cover("end")
}

// Lists on loan, any text.
//
//verif:bounds a story, a fact and a child story of text with three symbolic code points, the storage lists in the order added, in reverse or rotated; all read in the same and a newly opened graph
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C25_text() {
	k := nd.Shard(3 * 4)
	w, l, s := lending(k % 3)
	w.Do(lib.OpStory, 0, lib.Text("_"), "a b")
	w.Do(lib.OpFact, 0, "a", lib.Text("b _"))
	w.Do(k/3, 1, lib.Text("a_"), "b a")
	l.whole(s)
	for t := 0; t < 2; t++ {
		for i := range w.Remarks {
			w.CheckText(w.Remarks[i].R, i)
		}
		w.Reopen()
	}
	l.whole(s)
	nd.Cover("end")
}
