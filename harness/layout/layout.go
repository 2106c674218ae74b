// Package layout checks the fixed part of the store and how links and lists
// are read, through the public interface.
package layout

import (
	"github.com/mem-memov/semnet"
	"github.com/mem-memov/semnet/internal/abstract"
	"github.com/mem-memov/semnet/internal/concrete/class"
	"github.com/mem-memov/semnet/internal/concrete/fact"
	"github.com/mem-memov/semnet/internal/concrete/story"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// laid checks the class nodes and the bits.
func laid(s *lib.Store) {
	for i := uint(1); i <= 8; i++ {
		has, err := s.Has(i)
		nd.Assert(err == nil && has && s.Nodes[i] != nil, "a class node is missing")
	}
	nd.Assert(s.CountClass(1) == 2, "there are not two bits")
	nd.Assert(s.Nodes[1].Sources[0] < s.Nodes[1].Sources[1], "the bits are not in the order of their creation")
}

// lister is a storage that keeps count of what is created and lists in another
// order if told so.
func flipped(s abstract.Storage, how int) *lib.Wrap {
	f := lib.NewWrap(s)
	f.Flip = how
	return f
}

// The first operation.
//
//verif:bounds the first operation on an empty store with any of 5 texts, one with a code point of any one-byte value, followed by further ones in the same and in a newly opened graph that is given lists in the same, the reverse or a rotated order
func H_C19_first() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	k := nd.Shard(15)
	how := k % 3
	o, p := "a", "b"
	switch k / 3 {
	case 1:
		o, p = "b a", "\u00e9t"
	case 2:
		o, p = "\x01", "\x00 \u4e2d"
	case 3:
		o, p = "\U0010FFFF", "@"
	case 4:
		o, p = "a", lib.Text("_")
	}
	w.Do(lib.OpStory, 0, o, p)
	laid(s)
	bits := [2]uint{s.Nodes[1].Sources[0], s.Nodes[1].Sources[1]}
	w.Do(lib.OpFact, 0, "b", "c")
	w.S = flipped(s, how)
	w.Reopen()
	for i := range w.Remarks {
		w.CheckText(w.Remarks[i].R, i)
	}
	chars := s.CountClass(2)
	w.Do(lib.OpChild, 0, o, p)
	nd.Assert(s.CountClass(2) == chars, "known characters are stored again")
	w.Do(lib.OpStory, 0, "zy", o)
	laid(s)
	nd.Assert(bits[0] == s.Nodes[1].Sources[0] && bits[1] == s.Nodes[1].Sources[1], "the bits change")
	w.CheckAll()
	nd.Cover("end")
}

// Each character of one bit more or less.
//
//verif:bounds a store written in one graph and read in another that is given every list in reverse order, text of one code point of any value
func H_C19_bits() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	w.Do(lib.OpStory, 0, "a", lib.Text("?"))
	w.S = flipped(s, 1+nd.Shard(2))
	w.Reopen()
	w.CheckText(w.Remarks[0].R, 0)
	n := w.Do(lib.OpStory, 0, w.Remarks[0].Property, "a")
	w.CheckText(w.Remarks[n].R, n)
	laid(s)
	nd.Cover("end")
}

// What comes before the first remark.
//
//verif:bounds an empty store and two graphs open at the same time, the second given lists in the same or in reverse order; up to two operations that give no remark, each through either graph: a lookup, text that is rejected at its first, second or last word, one of them cut short at any writing storage call among the first 60 calls; then stories by turns
func H_C19_start() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	k := nd.Shard(2 * 2 * 4 * 5)
	g := [2]*semnet.Graph{w.G, semnet.NewGraph(&lib.Wrap{S: f, Flip: k % 2})}
	first := k / 2 % 2
	barren := func(n int) {
		switch n {
		case 0:
			_, err := w.G.GetRemark([]uint{1, 9, 11}[nd.Choose(3)])
			nd.Assert(err != nil || f.Failed, "a remark is found in an empty store")
		case 1:
			_, err := w.G.CreateStory("", "b")
			nd.Assert(err != nil, "text that cannot be stored is accepted")
		case 2:
			_, err := w.G.CreateStory("a b ", "b")
			nd.Assert(err != nil, "text that cannot be stored is accepted")
		case 3:
			f.Failed, f.Fault, f.Sparse = false, true, true
			_, err := w.G.CreateStory("a", "b")
			f.Fault = false
			nd.Assume(f.Failed && f.Calls <= 60)
			nd.Assert(err != nil, "a storage failure is not reported")
		}
	}
	w.G = g[first]
	k /= 4
	barren(k % 4)
	w.G = g[nd.Choose(2)]
	if k == 15 {
		return
	}
	barren(k / 4)
	w.Turn(g[nd.Choose(2)])
	r, err := w.Try(lib.OpStory, 0, "\x01", "b a")
	if err != nil && f.Failed { // C16 allows that
		return
	}
	nd.Assert(err == nil, "a creating operation with valid text fails")
	w.Record(lib.OpStory, 0, r, "\x01", "b a")
	laid(s)
	bits := [2]uint{s.Nodes[1].Sources[0], s.Nodes[1].Sources[1]}
	w.Turn(g[0])
	w.Do(lib.OpStory, 0, "b", "\x01")
	w.CheckAll()
	w.Turn(g[1])
	w.Do(lib.OpFact, 0, "b", "\x01")
	laid(s)
	nd.Assert(bits[0] == s.Nodes[1].Sources[0] && bits[1] == s.Nodes[1].Sources[1], "the bits change")
	w.CheckAll()
	nd.Cover("end")
}

// A wrong number after a cut.
//
//verif:bounds the first operation on an empty store cut short at any of the first 30 storage calls and repeated, in the same or a newly opened graph, on a storage that then hands out any other number, of 64 bits, for the next node that has to be a class node
func H_C19_resumed() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	o := &odd{f, 0, nd.Uint()}
	w := lib.NewWorld(o)
	k := nd.Shard(16)
	cut := &cutter{o, 1 + k%8, k/8 == 1}
	w.G = semnet.NewGraph(cut)
	r, err := w.Try(lib.OpStory, 0, "a", "b")
	nd.Assert(err != nil && r == nil, "a storage failure is not reported")
	n := uint(len(s.Nodes))
	nd.Assume(n <= 8)
	if n == 0 {
		n = 1
	}
	nd.Assume(o.id != n)
	if nd.Choose(2) == 1 {
		w.G = semnet.NewGraph(cut)
	}
	o.n = 1
	for i := 0; i < 2; i++ {
		_, err = w.Try(lib.OpStory, 0, "a", "b")
		nd.Assert(err != nil, "a class node with a wrong identifier is used")
		nd.Assert(s.CountClass(1) == 0 && s.CountClass(6) == 0, "a misnumbered store is worked on")
		o.n = 1
	}
	nd.Cover("end")
}

// cutter is a storage one call of which fails: the n-th Create, or the n-th
// SetReference.
type cutter struct {
	*odd
	n   int
	ref bool
}

func (c *cutter) Create() (uint, error) {
	if !c.ref {
		c.n--
		if c.n == 0 {
			return 0, lib.ErrFault
		}
	}
	return c.odd.Create()
}

func (c *cutter) SetReference(a uint, b uint) error {
	if c.ref {
		c.n--
		if c.n == 0 {
			return lib.ErrFault
		}
	}
	return c.odd.SetReference(a, b)
}

// odd is a storage whose n-th created node has another identifier.
type odd struct {
	*lib.Wrap
	n  int
	id uint
}

func (o *odd) Create() (uint, error) {
	o.n--
	if o.n == 0 {
		return o.id, nil
	}
	return o.Wrap.Create()
}

// Another identifier for a class node.
//
//verif:bounds the first operation on an empty store that hands out any other number, of 64 bits, for any one class node; repeated in the same or a newly opened graph on a storage that hands it out again
func H_C19_misnumbered() {
	s := lib.NewStore()
	k := nd.Shard(16)
	n := 1 + k/2
	id := nd.Uint()
	nd.Assume(id != uint(n))
	f := &odd{lib.NewWrap(s), n, id}
	w := lib.NewWorld(f)
	r, err := w.Try(lib.OpStory, 0, "a", "b")
	nd.Assert(err != nil, "a class node with a wrong identifier is used")
	nd.Assert(r == nil, "a failing operation gives a remark")
	nd.Assert(s.CountClass(1) == 0 && s.CountClass(6) == 0, "a misnumbered store is worked on")
	if k%2 == 1 {
		w.G = semnet.NewGraph(f)
	}
	f.n = 1
	_, err = w.Try(lib.OpStory, 0, "a", "b")
	nd.Assert(err != nil, "a class node with a wrong identifier is used")
	nd.Cover("end")
}

// loose is a storage that skips a number when it creates a node and takes any
// number in references and links, known to it or not.
type loose struct {
	*lib.Wrap
	s    *lib.Store
	n    int
	skip int
}

func (l *loose) Create() (uint, error) {
	l.n--
	if l.n == 0 {
		for i := 0; i < l.skip; i++ {
			if len(l.s.Nodes) == 0 {
				l.s.Nodes = append(l.s.Nodes, nil)
			}
			l.s.Nodes = append(l.s.Nodes, nil)
		}
	}
	return l.Wrap.Create()
}

func (l *loose) Has(id uint) (bool, error) {
	return id < uint(len(l.s.Nodes)) && l.s.Nodes[id] != nil, nil
}

// take makes room for a node.
func (l *loose) take(id uint) {
	for uint(len(l.s.Nodes)) <= id {
		l.s.Nodes = append(l.s.Nodes, nil)
	}
	if l.s.Nodes[id] == nil {
		l.s.Nodes[id] = &lib.Node{}
	}
}

func (l *loose) SetReference(a uint, b uint) error {
	l.take(a)
	l.take(b)
	return l.Wrap.SetReference(a, b)
}

func (l *loose) GetReference(a uint) (uint, uint, error) {
	l.take(a)
	return l.Wrap.GetReference(a)
}

func (l *loose) Connect(a uint, b uint) error {
	l.take(a)
	l.take(b)
	return l.Wrap.Connect(a, b)
}

// A number left out.
//
//verif:bounds the first operation on an empty store that leaves out 1 to 9 numbers at any one class node and takes any number in references and links; repeated in the same or a newly opened graph
func H_C19_skipped() {
	s := lib.NewStore()
	k := nd.Shard(8 * 9)
	f := &loose{lib.NewWrap(s), s, 1 + k%8, 1 + k/8}
	w := lib.NewWorld(f)
	r, err := w.Try(lib.OpStory, 0, "a", "b")
	nd.Assert(err != nil && r == nil, "a class node with a wrong identifier is used")
	for class := uint(1); class <= 8; class++ {
		nd.Assert(s.CountClass(class) == 0, "a misnumbered store is worked on")
	}
	if nd.Choose(2) == 1 {
		w.G = semnet.NewGraph(f)
	}
	_, err = w.Try(lib.OpStory, 0, "a", "b")
	nd.Assert(err != nil, "a class node with a wrong identifier is used")
	nd.Cover("end")
}

// A store counting from elsewhere.
//
//verif:bounds the first operation on an empty store whose identifiers start anywhere from 2 to 60
func H_C19_offset() {
	s := lib.NewStore()
	f := &shift{lib.NewWrap(s), 1 + uint(nd.Shard(59))}
	w := lib.NewWorld(f)
	r, err := w.Try(lib.OpStory, 0, "a", "b")
	nd.Assert(err != nil && r == nil, "a class node with a wrong identifier is used")
	r, err = w.Try(lib.OpStory, 0, "b", "a")
	nd.Assert(err != nil && r == nil, "a class node with a wrong identifier is used")
	nd.Cover("end")
}

// shift is a storage whose identifiers are those of another one plus by.
type shift struct {
	*lib.Wrap
	by uint
}

func (s *shift) Has(id uint) (bool, error) {
	if id < s.by {
		return false, nil
	}
	return s.Wrap.Has(id - s.by)
}

func (s *shift) Create() (uint, error) {
	id, err := s.Wrap.Create()
	return id + s.by, err
}

func (s *shift) SetReference(a uint, b uint) error {
	if a < s.by || b < s.by {
		return lib.ErrFault
	}
	return s.Wrap.SetReference(a-s.by, b-s.by)
}

func (s *shift) GetReference(a uint) (uint, uint, error) {
	if a < s.by {
		return 0, 0, lib.ErrFault
	}
	p, n, err := s.Wrap.GetReference(a - s.by)
	if p != 0 {
		p += s.by
	}
	if n != 0 {
		n += s.by
	}
	return p, n, err
}

// base is a store with every kind of thing at least twice, in which no list
// that has to be single is single by chance.
func base(w *lib.World) {
	w.Do(lib.OpStory, 0, "ab a", "b a")
	w.Do(lib.OpFact, 0, "ab", "a b ab")
	w.Do(lib.OpRemark, 0, "", "ba")
	w.Do(lib.OpChild, 1, "b", "a b")
	w.Do(lib.OpChild, 0, "ba", "b ab")
	w.Do(lib.OpStory, 0, "b", "ab")
	w.Do(lib.OpFact, 0, "a", "b")
}

// surplus is a storage that adds an entry to, or empties, the list one query
// answers with a single entry, every time the query is made.
type surplus struct {
	*lib.Wrap
	on      bool
	picked  bool
	sources bool
	node    uint
	mode    int // 0 adds an entry behind, 1 before, 2 the same one again and another, 3 empties, 4 the same one again
	extra   uint
	others  []uint
}

func (s *surplus) bend(sources bool, node uint, l []uint) []uint {
	if !s.on || len(l) != 1 {
		return l
	}
	if !s.picked {
		if !nd.Fork(nd.Bool()) {
			return l
		}
		s.picked, s.sources, s.node = true, sources, node
		s.extra = s.others[nd.Choose(len(s.others))]
		nd.Assume(s.extra != l[0])
	} else if s.sources != sources || s.node != node {
		return l
	}
	switch s.mode {
	case 0:
		return []uint{l[0], s.extra}
	case 1:
		return []uint{s.extra, l[0]}
	case 2:
		return []uint{l[0], l[0], s.extra}
	case 4:
		return []uint{l[0], l[0]}
	default:
		return nil
	}
}

func (s *surplus) ReadSources(id uint) ([]uint, error) {
	l, err := s.Wrap.ReadSources(id)
	return s.bend(true, id, l), err
}

func (s *surplus) ReadTargets(id uint) ([]uint, error) {
	l, err := s.Wrap.ReadTargets(id)
	return s.bend(false, id, l), err
}

// bent is a base store with things to name as surplus entries.
func bent(mode int) (*lib.World, *surplus) {
	st := lib.NewStore()
	s := &surplus{Wrap: lib.NewWrap(st), mode: mode}
	w := lib.NewWorld(s)
	base(w)
	s.others = []uint{1}
	for c := 2; c <= 7; c++ {
		l := st.Nodes[c].Sources
		id := l[len(l)-1]
		s.others = append(s.others, id)
		if nd.Thorough() {
			s.others = append(s.others, l[0])
			for i := 0; i < 3; i++ { // its inner nodes
				id = st.Nodes[id].Next
				if id != 0 {
					s.others = append(s.others, id)
				}
			}
		}
	}
	if mode > 2 {
		s.others = s.others[:1]
	}
	return w, s
}

// Text with ambiguous links.
//
//verif:bounds the text of every remark of a store with 7 remarks, any one list of a single entry it is read through given a second entry of any of 7 things (each of them and their inner nodes in the thorough tier), in front or behind, or the same entry a second time
func H_C21_text() {
	k := nd.Shard(28)
	w, s := bent(k/7%3 + k/21*4)
	s.on = true
	_, _, err := w.Remarks[k%7].R.GetObjectAndProperty()
	nd.Assume(s.picked)
	nd.Assert(err != nil, "text is read in spite of an ambiguous link")
	nd.Cover("end")
}

// Text with missing links.
//
//verif:bounds the text of every remark of a store with 7 remarks, any one list of a single entry it is read through emptied: an error or, where the end of a chain is asked for, less text, but never a panic
func H_C14_missing() {
	k := nd.Shard(7)
	w, s := bent(3)
	s.on = true
	o, p, err := w.Remarks[k].R.GetObjectAndProperty()
	nd.Assume(s.picked)
	if err == nil {
		nd.Cover("shorter")
		nd.Assert(len(o)+len(p) <= len(w.Remarks[k].Object)+len(w.Remarks[k].Property), "text is read with more than was stored")
	} else {
		nd.Cover("error")
	}
}

// Steps with ambiguous links.
//
//verif:bounds every step from every remark of a store with 7 remarks, any one list of a single entry it is taken through given a second entry of any of 7 things (each of them and their inner nodes in the thorough tier), in front or behind, or the same entry a second time
func H_C21_steps() {
	k := nd.Shard(7 * 4 * 4)
	w, s := bent(k/28%3 + k/84*4)
	k %= 28
	r := w.Remarks[k/4].R
	i := k / 4
	s.on = true
	var err error
	switch k % 4 {
	case 0:
		_, err = r.GetFirstFact()
	case 1:
		nd.Assume(w.NextFact(i) >= 0)
		_, err = r.GetNextFact()
	case 2:
		nd.Assume(w.NextStory(i) >= 0)
		_, err = r.GetNextStory()
	default:
		_, err = w.Render(w.G, r)
	}
	nd.Assume(s.picked)
	nd.Assert(err != nil, "a step is taken in spite of an ambiguous link")
	nd.Cover("end")
}

// Two entries that are really stored.
//
//verif:bounds a store with 7 remarks in which any node is linked to or from a second one: where a list of a single entry then has two, the text of any remark read through it is not given
func H_C21_stored() {
	st := lib.NewStore()
	q := &watch{Wrap: lib.NewWrap(st)}
	w := lib.NewWorld(q)
	base(w)
	k := nd.Shard(7)
	q.on = true
	_, _, err := w.Remarks[k].R.GetObjectAndProperty()
	nd.Assert(err == nil, "reading the text of a remark fails")
	q.on = false
	i := nd.Choose(len(q.single))
	x := q.single[i]
	y := uint(0)
	c := 2 + nd.Choose(6)
	l := st.Nodes[c].Sources
	y = l[len(l)-1]
	if q.srcs[i] {
		nd.Assume(st.Nodes[x].Sources[0] != y)
		st.Connect(y, x)
	} else {
		nd.Assume(st.Nodes[x].Targets[0] != y)
		st.Connect(x, y)
	}
	_, _, err = w.Remarks[k].R.GetObjectAndProperty()
	nd.Assert(err != nil, "text is read in spite of an ambiguous link")
	r, err := w.G.GetRemark(w.Remarks[k].ID)
	if err == nil {
		_, _, err = r.GetObjectAndProperty()
		nd.Assert(err != nil, "text is read in spite of an ambiguous link")
	}
	nd.Cover("end")
}

// inner gives the four nodes of the entity whose class node is id.
func inner(st *lib.Store, id uint) [4]uint {
	r := [4]uint{id}
	for i := 1; i < 4; i++ {
		r[i] = st.Nodes[r[i-1]].Next
	}
	return r
}

// of gives the nodes of the fact and the story of remark i.
func of(st *lib.Store, w *lib.World, i int) (remark [4]uint, fact [4]uint, story [4]uint) {
	remark = inner(st, w.Remarks[i].ID)
	for _, id := range st.Nodes[7].Sources {
		if f := inner(st, id); f[1] == st.Nodes[remark[3]].Targets[0] {
			fact = f
		}
	}
	for _, id := range st.Nodes[8].Sources {
		if f := inner(st, id); f[1] == st.Nodes[fact[3]].Targets[0] {
			story = f
		}
	}
	return
}

// Ambiguous links on the way to where something is added.
//
//verif:bounds a store with 7 remarks in which one of the links from a remark to its text, from it to its fact, from that to its story or to the next fact, or from a child story to the next one, is joined by a second one to another thing of the kind; every operation on every remark that follows it
func H_C21_add() {
	st := lib.NewStore()
	w := lib.NewWorld(lib.NewWrap(st))
	base(w)
	w.Do(lib.OpChild, 3, "a", "b")
	w.Do(lib.OpChild, 0, "a", "b")
	k := nd.Shard(7 * 3 * 5)
	i := k % 7
	op := 1 + k/7%3
	r, f, s := of(st, w, i)
	j := nd.Choose(7)
	q, g, t := of(st, w, j)
	switch k / 21 {
	case 0:
		nd.Assume(g != f)
		st.Connect(r[3], g[1])
	case 1:
		nd.Assume(t != s && op != lib.OpRemark)
		st.Connect(f[3], t[1])
	case 2:
		nd.Assume(op == lib.OpFact && w.NextFact(i) >= 0 && len(st.Nodes[f[2]].Targets) == 1)
		nd.Assume(st.Nodes[f[2]].Targets[0] != g[2])
		st.Connect(f[2], g[2])
	case 3:
		nd.Assume(op == lib.OpRemark)
		d := st.Nodes[q[1]].Sources[0]
		nd.Assume(st.Nodes[r[1]].Sources[0] != d)
		st.Connect(d, r[1])
	default:
		nd.Assume(op == lib.OpChild)
		n := len(st.Nodes[s[3]].Sources)
		nd.Assume(n > 1)
		for _, x := range st.Nodes[s[3]].Sources {
			if p := st.Nodes[x].Prev; len(st.Nodes[p].Targets) == 1 {
				nd.Assume(st.Nodes[p].Targets[0] != t[2])
				st.Connect(p, t[2])
				break
			}
		}
	}
	_, err := w.Try(op, i, "a", "b")
	nd.Assert(err != nil, "something is added in spite of an ambiguous link")
	nd.Cover("end")
}

// Ambiguous links between the remarks of a fact.
//
//verif:bounds a store with 7 remarks in which two links, to any two of the others, lead on from any of them
func H_C21_remarks() {
	st := lib.NewStore()
	w := lib.NewWorld(lib.NewWrap(st))
	base(w)
	k := nd.Shard(49)
	l := nd.Choose(7)
	nd.Assume(k/7 != l)
	r := inner(st, w.Remarks[k%7].ID)
	st.Connect(r[2], inner(st, w.Remarks[k/7].ID)[2])
	x, err := w.Remarks[k%7].R.GetNextRemark()
	nd.Assert(err == nil, "a step is not taken")
	w.Full(x, k/7, 0)
	st.Connect(r[2], inner(st, w.Remarks[l].ID)[2])
	_, err = w.Remarks[k%7].R.GetNextRemark()
	nd.Assert(err != nil, "a step is taken in spite of an ambiguous link")
	nd.Cover("end")
}

// Ambiguous links on the way to known text.
//
//verif:bounds a store with 7 remarks in which one of the links from a bit to its first character, from a character to its first word or from a word to its first phrase is joined by a second one to another thing of the kind; every operation with text that begins there
func H_C21_known() {
	st := lib.NewStore()
	q := &watch{Wrap: lib.NewWrap(st)}
	w := lib.NewWorld(q)
	base(w)
	k := nd.Shard(4 * 6)
	op := k % 4
	k /= 4
	o := []string{"a", "b", "ab"}[k%3]
	p := []string{"ab", "b a"}[k/3]
	q.on = true
	w.Do(op, 0, o, p)
	q.on = false
	heads := map[uint]int{} // the nodes such links leave from, and where in their things they arrive
	for _, id := range st.Nodes[1].Sources {
		heads[st.Nodes[id].Next] = 2
	}
	for class := 2; class < 4; class++ {
		for _, id := range st.Nodes[class].Sources {
			heads[inner(st, id)[3]] = class + 1
		}
	}
	i := nd.Choose(len(q.single))
	nd.Assume(!q.srcs[i] && heads[q.single[i]] > 0)
	l := st.Nodes[heads[q.single[i]]].Sources
	y := inner(st, l[len(l)-1])[1]
	nd.Assume(st.Nodes[q.single[i]].Targets[0] != y)
	st.Connect(q.single[i], y)
	_, err := w.Try(op, 0, o, p)
	nd.Assert(err != nil, "text is stored in spite of an ambiguous link")
	nd.Cover("end")
}

// Things of two classes.
//
//verif:bounds a store with 7 remarks in which any one thing of any class is linked to a second class: the lookup of remarks, and the question of every class
func H_C21_class() {
	st := lib.NewStore()
	w := lib.NewWorld(st)
	base(w)
	k := nd.Shard(64)
	nd.Assume(k%8 != k/8)
	l := st.Nodes[1+k%8].Sources
	id := l[nd.Choose(2)*(len(l)-1)]
	st.Connect(id, uint(1+k/8))
	_, err := w.G.GetRemark(id)
	nd.Assert(err != nil, "a thing of two classes is taken for a remark")
	classes, err := class.NewRepository(st).ProvideEntity()
	nd.Assert(err == nil, "the classes are not provided")
	for _, is := range []func(uint) (bool, error){classes.IsBit, classes.IsCharacter, classes.IsWord, classes.IsPhrase, classes.IsDetail, classes.IsRemark, classes.IsFact, classes.IsStory} {
		_, err = is(id)
		nd.Assert(err != nil, "a class is sure of a thing of two classes")
	}
	nd.Cover("end")
}

// Stories of two parents.
//
//verif:bounds a store with 7 remarks in which any story is linked to another parent or two: the way from the fact of its remarks to the parent
func H_C21_parent() {
	st := lib.NewStore()
	w := lib.NewWorld(st)
	base(w)
	k := nd.Shard(7)
	r, _, s := of(st, w, k)
	_, _, t := of(st, w, nd.Choose(7))
	_, _, u := of(st, w, nd.Choose(7))
	st.Connect(s[3], t[3])
	st.Connect(s[3], u[3])
	nd.Assume(len(st.Nodes[s[3]].Targets) > 1)
	classes := class.NewRepository(st)
	f, err := fact.NewRepository(st, classes, story.NewRepository(st, classes)).FetchByRemark(st.Nodes[r[3]].Targets[0])
	nd.Assert(err == nil, "the fact of a remark is not found")
	_, err = f.ToParentStory()
	nd.Assert(err != nil, "a step is taken in spite of an ambiguous link")
	nd.Cover("end")
}

// watch notes the queries answered with a single entry.
type watch struct {
	*lib.Wrap
	on     bool
	single []uint
	srcs   []bool
}

func (s *watch) ReadSources(id uint) ([]uint, error) {
	l, err := s.Wrap.ReadSources(id)
	if s.on && len(l) == 1 {
		s.single, s.srcs = append(s.single, id), append(s.srcs, true)
	}
	return l, err
}

func (s *watch) ReadTargets(id uint) ([]uint, error) {
	l, err := s.Wrap.ReadTargets(id)
	if s.on && len(l) == 1 {
		s.single, s.srcs = append(s.single, id), append(s.srcs, false)
	}
	return l, err
}

// Listing order over histories.
//
//verif:bounds every history of a story and 3 further operations (4 in the thorough tier) on any remarks over lists in reverse or rotated order
func H_C22_history() {
	k := nd.Shard(56)
	s := lib.NewStore()
	w := lib.NewWorld(flipped(s, 1+k/28))
	k %= 28
	w.Do(lib.OpStory, 0, "a", "b")
	w.Nth(k%4, "a", "c b")
	w.Nth(k/4, "b", "a")
	n := 1
	if nd.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		w.Any("b", "ac")
	}
	twin(w, s)
	w.CheckAll()
	nd.Cover("end")
}

// Listing order of everything.
//
//verif:bounds a store of 7 remarks; then every list in every order, chosen anew for every call: the text and steps of any remark
func H_C22_read() {
	f := lib.NewWrap(lib.NewStore())
	w := lib.NewWorld(f)
	base(w)
	k := nd.Shard(14)
	i := k % 7
	f.Permut = true
	if k/7 == 0 {
		w.CheckText(w.Fetch(w.G, i), i)
	} else {
		w.CheckFirst(w.Remarks[i].R, i)
		w.CheckFacts(w.Remarks[i].R, i)
		w.CheckStories(w.Remarks[i].R, i)
	}
	nd.Cover("end")
}

// Listing order while writing.
//
//verif:bounds a store of 7 remarks; then every list in every order, chosen anew for every call, during one creating operation on any remark with known, partly known or new text
func H_C22_write() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	base(w)
	k := nd.Shard(3 * 28)
	i, op := k/4%7, k%4
	if op == lib.OpStory {
		nd.Assume(i == 0)
	}
	o, p := "b", "ab"
	switch k / 28 {
	case 1:
		o = "ab b"
	case 2:
		p = "ac a"
	}
	f.Permut = true
	n := w.Do(op, i, o, p)
	w.CheckText(w.Remarks[n].R, n)
	f.Permut = false
	twin(w, s)
	w.CheckAll()
	nd.Cover("end")
}

// Listing order while writing text of any kind.
//
//verif:bounds two operations of text with one symbolic code point each over a small store; then every list in reverse or rotated order while the second is stored, and while all is read
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C22_text() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	k := nd.Shard(4 * 4)
	w.Do(lib.OpStory, 0, "ab a", "b a")
	w.Do(k%4, 0, lib.Text("_b"), "a b")
	f.Flip = 1 + k/4%2
	w.Do(1+k/8, 1, "a b", lib.Text("_ b"))
	for i := range w.Remarks {
		w.CheckText(w.Fetch(w.G, i), i)
	}
	f.Flip = 0
	twin(w, s)
	for i := range w.Remarks {
		w.CheckText(w.Remarks[i].R, i)
	}
	nd.Cover("end")
}

// twin is the same store and the same operations over lists that stay in order.
func twin(w *lib.World, s *lib.Store) {
	t := lib.NewStore()
	v := lib.NewWorld(t)
	for i := range w.Remarks {
		x := w.Log[i]
		v.Do(x.Op, x.I, x.O, x.P)
	}
	for class := uint(1); class <= 8; class++ {
		nd.Assert(s.CountClass(class) == t.CountClass(class), "more or less is stored when lists come in another order")
	}
	nd.Assert(len(s.Nodes) == len(t.Nodes), "more or less is stored when lists come in another order")
}

// moved is a storage that lists one list of two entries or more in another
// order, any order, every time it is asked for.
type moved struct {
	*lib.Wrap
	on      bool
	picked  bool
	sources bool
	node    uint
	turn    []int
}

func (m *moved) bend(sources bool, node uint, l []uint) []uint {
	if !m.on || len(l) < 2 {
		return l
	}
	if !m.picked {
		if !nd.Fork(nd.Bool()) {
			return l
		}
		m.picked, m.sources, m.node = true, sources, node
		for i := len(l) - 1; i > 0; i-- {
			j := i
			if i < 5 {
				j = nd.Choose(i + 1)
			}
			m.turn = append(m.turn, j)
		}
	} else if m.sources != sources || m.node != node {
		return l
	}
	r := append([]uint(nil), l...)
	for k, j := range m.turn {
		if i := len(m.turn) - k; i < len(r) {
			r[i], r[j] = r[j], r[i]
		}
	}
	return r
}

func (m *moved) ReadSources(id uint) ([]uint, error) {
	l, err := m.Wrap.ReadSources(id)
	return m.bend(true, id, l), err
}

func (m *moved) ReadTargets(id uint) ([]uint, error) {
	l, err := m.Wrap.ReadTargets(id)
	return m.bend(false, id, l), err
}

// Long lists in every order.
//
//verif:bounds a store in which characters, words, phrases and details have four continuations or uses and a story four child stories; any one list in any order (of its first five entries) from then on, during one creating operation on either of 2 remarks with text that is known or new in its last letter, word or pair, another child story, and while all is read
func H_C22_wide() {
	st := lib.NewStore()
	m := &moved{Wrap: lib.NewWrap(st)}
	w := lib.NewWorld(m)
	w.Do(lib.OpStory, 0, "a", "a a")
	for i, t := range []string{"ab", "ac", "ad"} {
		w.Do(lib.OpFact, i, "a", t)
		w.Do(lib.OpChild, 0, t, "a "+t)
	}
	w.Do(lib.OpChild, 1, "a ab", "a")
	k := nd.Shard(2 * 10)
	m.on = true
	i := k / 10 * 2
	t := [][2]string{{"a", "ab"}, {"ac", "a ac"}, {"ad", "a ad"}, {"ae", "a ae"}, {"a ad", "a ab"}}[k%10/2]
	op := lib.OpFact
	if k%2 == 1 {
		op = lib.OpChild
	}
	n := w.Do(op, i, t[0], t[1])
	w.CheckText(w.Remarks[n].R, n)
	w.Do(lib.OpChild, 0, t[0], t[1])
	nd.Assume(m.picked)
	twin(w, st)
	for i := range w.Remarks {
		w.Full(w.Fetch(w.G, i), i, 0)
	}
	nd.Cover("end")
}
