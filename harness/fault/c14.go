package fault

import (
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// reals are identifiers of all kinds of things of a store.
func reals(s *lib.Store) []uint {
	r := []uint{0, 1, 6}
	for c := 2; c <= 8; c++ {
		l, err := s.ReadSources(uint(c))
		nd.Assert(err == nil, "the store has no class nodes")
		r = append(r, l[len(l)-1])
	}
	return r
}

// One answer of a working storage changed into anything.
//
//verif:bounds every operation on two remarks of a store with two facts and two child stories; any one storage answer (two answers in the thorough tier) replaced by anything: errors, presence, lists of up to two, identifiers of ten kinds of existing things or of any non-existing one, about which everything is made up for up to 2 more answers (4 in the thorough tier)
func H_C14_one() {
	s := lib.NewStore()
	c := &lib.Chaos{S: s}
	w := lib.NewWorld(c)
	base(w)
	k := nd.Shard(nOps * 2)
	i := k / nOps
	k %= nOps
	c.Real = reals(s)
	c.Budget, c.Limit = 1, 3
	if nd.Thorough() {
		c.Budget, c.Limit = 2, 5
	}
	c.Calls = 0
	operate(w, k, 1+i, "ab", "b ac")
	nd.Cover("end")
}

// Anything from some call on.
//
//verif:bounds the first operation on an empty storage, which answers truly up to any one of its calls and from then on up to 5 calls (6 in the thorough tier) in any way, identifiers of all values, and later ones with errors
func H_C14_first() {
	c := &lib.Chaos{S: lib.NewStore(), Limit: 5}
	if nd.Thorough() {
		c.Limit = 6
	}
	c.After = 1 + nd.Shard(150)
	w := lib.NewWorld(c)
	r, err := w.Try(lib.OpStory, 0, "a", "b")
	nd.Assert(err != nil || r != nil, "an operation gives neither a result nor an error")
	nd.Assume(c.Calls >= c.After)
	nd.Cover("end")
}

// Anything at all.
//
//verif:bounds the first operation on a storage that answers up to 9 calls (12 in the thorough tier) in any way, identifiers of all values, and later ones with errors
func H_C14_never() {
	c := &lib.Chaos{Limit: 9}
	if nd.Thorough() {
		c.Limit = 12
	}
	w := lib.NewWorld(c)
	switch nd.Shard(2) {
	case 0:
		r, err := w.Try(lib.OpStory, 0, "a", "b")
		nd.Assert(err != nil || r != nil, "an operation gives neither a result nor an error")
	default:
		r, err := w.G.GetRemark(nd.Uint())
		nd.Assert(err != nil || r.Aggregate != nil, "an operation gives neither a result nor an error")
	}
	nd.Cover("end")
}

// Anything after the first operation.
//
//verif:bounds every operation but creating a child story or fact, on a remark made by a working storage that then answers up to 5 calls (7 in the thorough tier) in any way, identifiers of all values, and later ones with errors
func H_C14_later() {
	s := lib.NewStore()
	c := &lib.Chaos{S: s}
	w := lib.NewWorld(c)
	w.Do(lib.OpStory, 0, "a", "b")
	c.S = nil
	c.Limit = 9
	if nd.Thorough() {
		c.Limit = 12
	}
	operate(w, nd.Shard(nOps), 0, "a", "b")
	nd.Cover("end")
}

// stuffed is a storage that answers one query, every time it is made, with a
// list of some length: what is there over and over, other real things, or
// things that do not exist.
type stuffed struct {
	*lib.Wrap
	on      bool
	picked  bool
	sources bool
	node    uint
	n       int
	with    []uint
}

func (s *stuffed) bend(sources bool, node uint, l []uint) []uint {
	if !s.on {
		return l
	}
	if !s.picked {
		if !nd.Fork(nd.Bool()) {
			return l
		}
		s.picked, s.sources, s.node = true, sources, node
	} else if s.sources != sources || s.node != node {
		return l
	}
	with := append(append([]uint(nil), l...), s.with...)
	if len(with) == 0 {
		with = []uint{1 << 40}
	}
	r := make([]uint, s.n)
	for i := range r {
		r[i] = with[i%len(with)]
	}
	return r
}

func (s *stuffed) ReadSources(id uint) ([]uint, error) {
	l, err := s.Wrap.ReadSources(id)
	return s.bend(true, id, l), err
}

func (s *stuffed) ReadTargets(id uint) ([]uint, error) {
	l, err := s.Wrap.ReadTargets(id)
	return s.bend(false, id, l), err
}

// Long lists.
//
//verif:bounds every operation on two remarks of a store with two facts and two child stories; any one list of sources or targets, every time it is asked for, 1, 3, 4, 7, 33 or 300 entries long: what it holds over and over, with existing things of other kinds or with a thing that does not exist
func H_C14_lists() {
	s := lib.NewStore()
	f := &stuffed{Wrap: lib.NewWrap(s)}
	w := lib.NewWorld(f)
	base(w)
	k := nd.Shard(nOps * 6)
	f.n = []int{1, 3, 4, 7, 33, 300}[k/nOps]
	k %= nOps
	switch nd.Choose(3) {
	case 1:
		f.with = reals(s)[1:]
	case 2:
		f.with = []uint{1 << 40, 1<<40 + 1}
	}
	f.on = true
	operate(w, k, 1+nd.Choose(2), "ab", "b ac")
	nd.Assume(f.picked)
	nd.Cover("end")
}
