// Package modl checks the storages of the single layers.
package modl

import (
	"github.com/mem-memov/semnet/internal/abstract"
	"github.com/mem-memov/semnet/internal/concrete/character"
	"github.com/mem-memov/semnet/internal/concrete/class"
	"github.com/mem-memov/semnet/internal/concrete/detail"
	"github.com/mem-memov/semnet/internal/concrete/fact"
	"github.com/mem-memov/semnet/internal/concrete/phrase"
	"github.com/mem-memov/semnet/internal/concrete/remark"
	"github.com/mem-memov/semnet/internal/concrete/story"
	"github.com/mem-memov/semnet/internal/concrete/word"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// view is all there is to see of an entity: its nodes and what they link to.
type view struct {
	ids  []uint
	seen []uint
}

func (v *view) one(x uint, err error) {
	if err != nil {
		v.seen = append(v.seen, 1, 0)
		return
	}
	v.seen = append(v.seen, 0, x)
}

func (v *view) has(x bool, err error) {
	if x {
		v.one(1, err)
	} else {
		v.one(0, err)
	}
}

func (v *view) list(l []uint, err error) {
	v.one(uint(len(l)), err)
	v.seen = append(v.seen, l...)
}

// The readers of the seven kinds: the entity found by node k of it.
const (
	kCharacter = iota
	kWord
	kPhrase
	kDetail
	kRemark
	kFact
	kStory
)

var nodes = [7]int{4, 4, 4, 3, 4, 4, 4}

func pick(s abstract.Storage, kind int, k int, id uint) (view, error) {
	var v view
	switch kind {
	case kCharacter:
		t := character.NewStorage(s)
		e, err := t.ReadEntityByClass(0)
		switch k {
		case 0:
			e, err = t.ReadEntityByClass(id)
		case 1:
			e, err = t.ReadEntityByBit(id)
		case 2:
			e, err = t.ReadEntityByCharacter(id)
		default:
			e, err = t.ReadEntityByWord(id)
		}
		if err != nil {
			return v, err
		}
		v.ids = []uint{e.GetClass(), e.GetBit(), e.GetCharacter(), e.GetWord()}
		v.one(e.GetTargetBit())
		v.list(e.GetTargetCharacters())
		v.has(e.HasSourceCharacter())
		v.one(e.GetSourceCharacter())
		v.has(e.HasTargetWord())
		v.one(e.GetTargetWord())
	case kWord:
		t := word.NewStorage(s)
		e, err := t.ReadEntityByClass(0)
		switch k {
		case 0:
			e, err = t.ReadEntityByClass(id)
		case 1:
			e, err = t.ReadEntityByCharacter(id)
		case 2:
			e, err = t.ReadEntityByWord(id)
		default:
			e, err = t.ReadEntityByPhrase(id)
		}
		if err != nil {
			return v, err
		}
		v.ids = []uint{e.GetClass(), e.GetCharacter(), e.GetWord(), e.GetPhrase()}
		v.one(e.GetSourceCharacter())
		v.one(e.GetTargetCharacter())
		v.list(e.GetTargetWords())
		v.has(e.HasSourceWord())
		v.one(e.GetSourceWord())
		v.has(e.HasTargetPhrase())
		v.one(e.GetTargetPhrase())
	case kPhrase:
		t := phrase.NewStorage(s)
		e, err := t.ReadEntityByClass(0)
		switch k {
		case 0:
			e, err = t.ReadEntityByClass(id)
		case 1:
			e, err = t.ReadEntityByWord(id)
		case 2:
			e, err = t.ReadEntityByPhrase(id)
		default:
			e, err = t.ReadEntityByDetail(id)
		}
		if err != nil {
			return v, err
		}
		v.ids = []uint{e.GetClass(), e.GetWord(), e.GetPhrase(), e.GetDetail()}
		v.list(e.GetTargetPhrases())
		v.one(e.GetSourceWord())
		v.one(e.GetTargetWord())
		v.has(e.HasSourcePhrase())
		v.one(e.GetSourcePhrase())
		v.list(e.GetSourceDetails())
		v.list(e.GetTargetDetails())
	case kDetail:
		t := detail.NewStorage(s)
		e, err := t.ReadEntityByClass(0)
		switch k {
		case 0:
			e, err = t.ReadEntityByClass(id)
		case 1:
			e, err = t.ReadEntityByPhrase(id)
		default:
			e, err = t.ReadEntityByRemark(id)
		}
		if err != nil {
			return v, err
		}
		v.ids = []uint{e.GetClass(), e.GetPhrase(), e.GetRemark()}
		o, p, err := e.GetObjectAndPropertyPhrases()
		v.one(o, err)
		v.one(p, err)
	case kRemark:
		t := remark.NewStorage(s)
		e, err := t.ReadEntityByClass(0)
		switch k {
		case 0:
			e, err = t.ReadEntityByClass(id)
		case 1:
			e, err = t.ReadEntityByDetail(id)
		case 2:
			e, err = t.ReadEntityByPosition(id)
		default:
			e, err = t.ReadEntityByFact(id)
		}
		if err != nil {
			return v, err
		}
		v.ids = []uint{e.GetClass(), e.GetDetail(), e.GetPosition(), e.GetFact()}
		v.one(e.GetTargetFact())
		v.one(e.GetSourceDetail())
		v.has(e.HasNextRemark())
		v.one(e.GetNextRemark())
	case kFact:
		t := fact.NewStorage(s)
		e, err := t.ReadEntityByClass(0)
		switch k {
		case 0:
			e, err = t.ReadEntityByClass(id)
		case 1:
			e, err = t.ReadEntityByRemark(id)
		case 2:
			e, err = t.ReadEntityByPosition(id)
		default:
			e, err = t.ReadEntityByStory(id)
		}
		if err != nil {
			return v, err
		}
		v.ids = []uint{e.GetClass(), e.GetRemark(), e.GetPosition(), e.GetStory()}
		v.has(e.HasTargetFact())
		v.one(e.GetTargetFact())
		v.one(e.GetFirstRemark())
		v.one(e.GetTargetStory())
	default:
		t := story.NewStorage(s)
		e, err := t.ReadEntityByClass(0)
		switch k {
		case 0:
			e, err = t.ReadEntityByClass(id)
		case 1:
			e, err = t.ReadEntityByFact(id)
		case 2:
			e, err = t.ReadEntityByPosition(id)
		default:
			e, err = t.ReadEntityByTree(id)
		}
		if err != nil {
			return v, err
		}
		v.ids = []uint{e.GetClass(), e.GetFact(), e.GetPosition(), e.GetTree()}
		v.has(e.HasTargetPosition())
		v.one(e.GetTargetPosition())
		v.one(e.GetTargetFact())
		v.has(e.HasTargetTree())
		v.one(e.GetTargetTree())
		v.has(e.HasSourceTree())
		v.one(e.GetSourceTree())
		v.list(e.GetSourceTrees())
	}
	return v, nil
}

func same(a []uint, b []uint) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// everything compares all ways to every entity of a store. It gives the
// nodes of all entities of each kind.
func everything(s abstract.Storage) [7][]view {
	var r [7][]view
	owner := map[uint]int{}
	n := 0
	for kind := 0; kind < 7; kind++ {
		l, err := s.ReadSources(uint(kind + 2))
		nd.Assert(err == nil, "a class node is missing")
		for _, c := range l {
			n++
			v, err := pick(s, kind, 0, c)
			nd.Assert(err == nil, "an entity is not found by its identifier")
			nd.Assert(v.ids[0] == c, "an entity found by its identifier has another one")
			for k, id := range v.ids {
				nd.Assert(id > 8, "an entity has a class node or no node for one of its own")
				nd.Assert(owner[id] == 0, "two entities share a node, or one has a node twice")
				owner[id] = n
				q, err := pick(s, kind, k, id)
				nd.Assert(err == nil, "an entity is not found by one of its nodes")
				nd.Assert(same(q.ids, v.ids), "an entity found by another node of it has other nodes")
				nd.Assert(same(q.seen, v.seen), "an entity found by another node of it reads differently")
			}
			r[kind] = append(r[kind], v)
		}
	}
	return r
}

func depth() int {
	if nd.Thorough() {
		return 4
	}
	return 3
}

// classes checks that whatever links lead to is of the class it is used as.
func classes(s abstract.Storage) {
	all := everything(s)
	kindOf := map[uint]int{}
	for kind := range all {
		for _, v := range all[kind] {
			for _, id := range v.ids {
				kindOf[id] = kind + 1
			}
		}
	}
	is := func(kind int, must bool) func(uint, error) {
		return func(id uint, err error) {
			if err == nil {
				nd.Assert(kindOf[id] == kind+1, "a link leads to a thing that is not of the class it is used as")
			} else {
				nd.Assert(!must, "a link is missing")
			}
		}
	}
	each := func(kind int) func([]uint, error) {
		return func(l []uint, err error) {
			nd.Assert(err == nil, "links cannot be listed")
			for _, id := range l {
				nd.Assert(kindOf[id] == kind+1, "a link leads to a thing that is not of the class it is used as")
			}
		}
	}
	bits, err := s.ReadSources(1)
	nd.Assert(err == nil && len(bits) == 2, "there are not two bits")
	var bit [2]uint
	for i := range bits {
		nd.Assert(kindOf[bits[i]] == 0, "a bit has a second class")
		_, bit[i], err = s.GetReference(bits[i])
		nd.Assert(err == nil && kindOf[bit[i]] == 0, "a bit shares a node")
	}
	for _, v := range all[kCharacter] {
		e, err := character.NewStorage(s).ReadEntityByClass(v.ids[0])
		nd.Assert(err == nil, "an entity is not found by its identifier")
		b, err := e.GetTargetBit()
		nd.Assert(err == nil && (b == bit[0] || b == bit[1]), "a character has no bit")
		each(kCharacter)(e.GetTargetCharacters())
		is(kCharacter, false)(e.GetSourceCharacter())
		is(kWord, false)(e.GetTargetWord())
	}
	for _, v := range all[kWord] {
		e, err := word.NewStorage(s).ReadEntityByClass(v.ids[0])
		nd.Assert(err == nil, "an entity is not found by its identifier")
		is(kCharacter, true)(e.GetTargetCharacter())
		each(kWord)(e.GetTargetWords())
		is(kWord, false)(e.GetSourceWord())
		is(kPhrase, false)(e.GetTargetPhrase())
	}
	for _, v := range all[kPhrase] {
		e, err := phrase.NewStorage(s).ReadEntityByClass(v.ids[0])
		nd.Assert(err == nil, "an entity is not found by its identifier")
		is(kWord, true)(e.GetTargetWord())
		each(kPhrase)(e.GetTargetPhrases())
		is(kPhrase, false)(e.GetSourcePhrase())
		each(kDetail)(e.GetTargetDetails())
		each(kDetail)(e.GetSourceDetails())
	}
	for _, v := range all[kDetail] {
		e, err := detail.NewStorage(s).ReadEntityByClass(v.ids[0])
		nd.Assert(err == nil, "an entity is not found by its identifier")
		o, p, err := e.GetObjectAndPropertyPhrases()
		is(kPhrase, true)(o, err)
		is(kPhrase, true)(p, err)
	}
	for _, v := range all[kRemark] {
		e, err := remark.NewStorage(s).ReadEntityByClass(v.ids[0])
		nd.Assert(err == nil, "an entity is not found by its identifier")
		is(kFact, true)(e.GetTargetFact())
		is(kDetail, true)(e.GetSourceDetail())
	}
	for _, v := range all[kFact] {
		e, err := fact.NewStorage(s).ReadEntityByClass(v.ids[0])
		nd.Assert(err == nil, "an entity is not found by its identifier")
		is(kFact, false)(e.GetTargetFact())
		is(kRemark, true)(e.GetFirstRemark())
		is(kStory, true)(e.GetTargetStory())
	}
	for _, v := range all[kStory] {
		e, err := story.NewStorage(s).ReadEntityByClass(v.ids[0])
		nd.Assert(err == nil, "an entity is not found by its identifier")
		is(kStory, false)(e.GetTargetPosition())
		is(kFact, true)(e.GetTargetFact())
		is(kStory, false)(e.GetTargetTree())
		each(kStory)(e.GetSourceTrees())
	}
}

// What is used as a thing of a class is of that class.
//
//verif:bounds every history of a story and 3 further operations (4 in the thorough tier) on any remarks, words of up to three letters, phrases of up to three words
func H_C20_links() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	w.Do(lib.OpStory, 0, "a", "bca b")
	k := nd.Shard(28)
	w.Nth(k%4, "a", "c b")
	w.Nth(k/4, "b", "a ba bca")
	for i := 2; i < depth(); i++ {
		w.Any("c", "b ab")
	}
	classes(s)
	nd.Cover("end")
}

// After any history.
//
//verif:bounds every history of a story and 3 further operations (4 in the thorough tier) on any remarks: every entity of every kind by every node of it, and that they stay what they were
func H_C23_history() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	w.Do(lib.OpStory, 0, "a", "b")
	k := nd.Shard(28)
	w.Nth(k%4, "a", "c b")
	a := everything(s)
	w.Nth(k/4, "b", "a")
	for i := 2; i < depth(); i++ {
		w.Any("c", "b ab")
	}
	b := everything(s)
	for kind := range a {
		for i := range a[kind] {
			nd.Assert(i < len(b[kind]) && same(a[kind][i].ids, b[kind][i].ids), "later operations change the nodes of an entity")
		}
	}
	nd.Cover("end")
}

// After text of any kind.
//
//verif:bounds a story and one further operation with three symbolic code points in their text
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C23_text() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	w.Do(lib.OpStory, 0, lib.Text("_"), lib.Text("a_"))
	w.Nth(nd.Shard(4), "a", lib.Text("b _"))
	everything(s)
	nd.Cover("end")
}

// cell is a reference of the odd storage.
type cell struct {
	from uint
	to   uint
}

// odd is a storage that gives its nodes any identifiers and remembers links
// and references only.
type odd struct {
	used []uint
	refs []cell
	link []cell
}

func (o *odd) Has(source uint) (bool, error) { return true, nil }

func (o *odd) Create() (uint, error) {
	id := nd.Uint()
	nd.Assume(id > 8)
	for _, u := range o.used {
		nd.Assume(id != u)
	}
	o.used = append(o.used, id)
	return id, nil
}

func (o *odd) ReadSources(target uint) ([]uint, error) {
	r := []uint{}
	for _, c := range o.link {
		if nd.Fork(c.to == target) {
			r = append(r, c.from)
		}
	}
	return r, nil
}

func (o *odd) ReadTargets(source uint) ([]uint, error) {
	r := []uint{}
	for _, c := range o.link {
		if nd.Fork(c.from == source) {
			r = append(r, c.to)
		}
	}
	return r, nil
}

func (o *odd) SetReference(source uint, reference uint) error {
	o.refs = append(o.refs, cell{source, reference})
	return nil
}

func (o *odd) GetReference(source uint) (uint, uint, error) {
	var p, n uint
	for _, c := range o.refs { // the last one counts
		if c.to == source {
			p = c.from
		}
		if c.from == source {
			n = c.to
		}
	}
	return p, n, nil
}

func (o *odd) Connect(source uint, target uint) error {
	o.link = append(o.link, cell{source, target})
	return nil
}

func (o *odd) Disconnect(source uint, target uint) error {
	nd.Assert(false, "a link is removed")
	return nil
}

func (o *odd) Delete(source uint) error {
	nd.Assert(false, "a node is deleted")
	return nil
}

// note is an aggregate of a phrase that only links details.
type note struct {
	phrase uint
	s      abstract.Storage
}

func (n note) AddSourceDetail(detail uint) error { return n.s.Connect(detail, n.phrase) }
func (n note) AddTargetDetail(detail uint) error { return n.s.Connect(n.phrase, detail) }
func (n note) GetSourceDetails() ([]uint, error) { return n.s.ReadSources(n.phrase) }
func (n note) GetTargetDetails() ([]uint, error) { return n.s.ReadTargets(n.phrase) }
func (n note) Extract() (string, error)          { return "", nil }

// create makes an entity and tells its nodes.
func create(s abstract.Storage, kind int) ([]uint, error) {
	classes, err := class.NewRepository(s).ProvideEntity()
	if err != nil {
		return nil, err
	}
	switch kind {
	case kCharacter:
		id, err := classes.CreateCharacter()
		if err != nil {
			return nil, err
		}
		e, err := character.NewStorage(s).CreateEntity(id)
		if err != nil {
			return nil, err
		}
		return []uint{e.GetClass(), e.GetBit(), e.GetCharacter(), e.GetWord()}, nil
	case kWord:
		id, err := classes.CreateWord()
		if err != nil {
			return nil, err
		}
		e, err := word.NewStorage(s).CreateEntity(id)
		if err != nil {
			return nil, err
		}
		return []uint{e.GetClass(), e.GetCharacter(), e.GetWord(), e.GetPhrase()}, nil
	case kPhrase:
		id, err := classes.CreatePhrase()
		if err != nil {
			return nil, err
		}
		e, err := phrase.NewStorage(s).CreateEntity(id)
		if err != nil {
			return nil, err
		}
		return []uint{e.GetClass(), e.GetWord(), e.GetPhrase(), e.GetDetail()}, nil
	case kDetail:
		o, err := s.Create()
		if err != nil {
			return nil, err
		}
		p, err := s.Create()
		if err != nil {
			return nil, err
		}
		e, err := detail.NewStorage(s).CreateEntity(classes, note{o, s}, note{p, s})
		if err != nil {
			return nil, err
		}
		return []uint{e.GetClass(), e.GetPhrase(), e.GetRemark()}, nil
	case kRemark:
		id, err := classes.CreateRemark()
		if err != nil {
			return nil, err
		}
		e, err := remark.NewStorage(s).CreateEntity(id)
		if err != nil {
			return nil, err
		}
		return []uint{e.GetClass(), e.GetDetail(), e.GetPosition(), e.GetFact()}, nil
	case kFact:
		id, err := classes.CreateFact()
		if err != nil {
			return nil, err
		}
		e, err := fact.NewStorage(s).CreateEntity(id)
		if err != nil {
			return nil, err
		}
		return []uint{e.GetClass(), e.GetRemark(), e.GetPosition(), e.GetStory()}, nil
	}
	id, err := classes.CreateStory()
	if err != nil {
		return nil, err
	}
	e, err := story.NewStorage(s).CreateEntity(id)
	if err != nil {
		return nil, err
	}
	return []uint{e.GetClass(), e.GetFact(), e.GetPosition(), e.GetTree()}, nil
}

// Whatever the identifiers.
//
//verif:bounds two entities of each kind in a storage that gives every node any 64-bit identifier not yet used: each found by each of its nodes
func H_C23_made() {
	s := &odd{}
	kind := nd.Shard(7)
	prepare(s)
	a, err := create(s, kind)
	nd.Assert(err == nil, "creating an entity fails")
	b, err := create(s, kind)
	nd.Assert(err == nil, "creating a second entity fails")
	nd.Assert(len(a) == nodes[kind] && len(b) == nodes[kind], "an entity has the wrong number of nodes")
	for i := range a {
		nd.Assert(a[i] > 8 && b[i] > 8, "an entity has a class node or no node for one of its own")
		for j := range b {
			nd.Assert(a[i] != b[j], "two entities share a node")
			nd.Assert(i == j || a[i] != a[j], "an entity has a node twice")
		}
	}
	k := nd.Choose(nodes[kind])
	for _, e := range [][]uint{a, b} {
		v, err := pick(s, kind, k, e[k])
		nd.Assert(err == nil, "an entity is not found by one of its nodes")
		nd.Assert(same(v.ids, e), "an entity found by another node of it has other nodes")
	}
	nd.Cover("end")
}

// prepare lays the class nodes down.
func prepare(s *odd) {
	for i := uint(1); i < 8; i++ {
		s.SetReference(i, i+1)
	}
}

// The classes of things.
//
//verif:bounds an entity of any two kinds, and every 64-bit identifier that is one of theirs, in a storage that gives every node any 64-bit identifier not yet used
func H_C20_is() {
	s := &odd{}
	k := nd.Shard(64)
	prepare(s)
	classes, err := class.NewRepository(s).ProvideEntity()
	nd.Assert(err == nil, "the classes are not provided")
	tag := func(k int) uint {
		var id uint
		switch k {
		case 0:
			id, err = classes.CreateBit()
		case 1:
			id, err = classes.CreateCharacter()
		case 2:
			id, err = classes.CreateWord()
		case 3:
			id, err = classes.CreatePhrase()
		case 4:
			id, err = classes.CreateDetail()
		case 5:
			id, err = classes.CreateRemark()
		case 6:
			id, err = classes.CreateFact()
		default:
			id, err = classes.CreateStory()
		}
		nd.Assert(err == nil, "creating a thing of a class fails")
		return id
	}
	a := tag(k % 8)
	b := tag(k / 8)
	is := []func(uint) (bool, error){classes.IsBit, classes.IsCharacter, classes.IsWord, classes.IsPhrase, classes.IsDetail, classes.IsRemark, classes.IsFact, classes.IsStory}
	for j := range is {
		x, err := is[j](a)
		nd.Assert(err == nil && x == (j == k%8), "a thing is recognised by the wrong class, or not by its own")
		x, err = is[j](b)
		nd.Assert(err == nil && x == (j == k/8), "a second thing is recognised by the wrong class, or not by its own")
	}
	l, err := classes.GetAllBits()
	n := 0
	if k%8 == 0 {
		n++
	}
	if k/8 == 0 {
		n++
	}
	nd.Assert(err == nil && len(l) == n, "the list of bits is wrong")
	nd.Cover("end")
}

// Parents.
//
//verif:bounds every history of a story and 3 further operations (4 in the thorough tier) on any remarks: for the fact of every remark, whether its story has a parent and the way to it
func H_C24_history() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	w.Do(lib.OpStory, 0, "a", "b")
	k := nd.Shard(28)
	w.Nth(k%4, "a", "c b")
	w.Nth(k/4, "b", "a")
	for i := 2; i < depth(); i++ {
		w.Any("c", "b")
	}
	if nd.Choose(2) == 1 {
		w.Reopen()
	}
	parents(s, w)
	nd.Cover("end")
}

func parents(s abstract.Storage, w *lib.World) {
	classes := class.NewRepository(s)
	remarks := remark.NewStorage(s)
	facts := fact.NewRepository(s, classes, story.NewRepository(s, classes))
	for i := range w.Remarks {
		r, err := remarks.ReadEntityByClass(w.Remarks[i].ID)
		nd.Assert(err == nil, "a remark is not found by its identifier")
		id, err := r.GetTargetFact()
		nd.Assert(err == nil, "a remark has no fact")
		f, err := facts.FetchByRemark(id)
		nd.Assert(err == nil, "a fact is not found")
		p := w.Stories[w.Facts[w.Remarks[i].Fact].Story].Parent
		has, err := f.HasParentStory()
		nd.Assert(err == nil, "asking for a parent story fails")
		nd.Assert(has == (p >= 0), "the answer whether there is a parent story is wrong")
		f, err = f.ToParentStory()
		nd.Assert((err == nil) == has, "having a parent story and taking the step to it disagree")
		if err != nil {
			continue
		}
		want := w.Facts[w.Stories[p].Facts[0]].Remarks[0]
		r, err = remarks.ReadEntityByClass(w.Remarks[want].ID)
		nd.Assert(err == nil, "a remark is not found by its identifier")
		id, err = r.GetTargetFact()
		nd.Assert(err == nil, "a remark has no fact")
		nd.Assert(f.GetRemark() == id, "the parent story is another one")
	}
}

func large() (*lib.Store, *lib.World, int) {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	n, k := lib.Size(30, 130)
	if nd.Thorough() {
		n, k = lib.Size(60, 270)
	}
	w.Grow(n)
	return s, w, k
}

// In a large store.
//
//verif:bounds a store of 30 remarks (60 in the thorough tier) of all kinds and any one further operation on any of them, or of 130 (270) and one on any of four
func H_C20_many() {
	s, w, k := large()
	w.Nth(k, "b", "c ab")
	classes(s)
	nd.Cover("end")
}

// In a large store.
//
//verif:bounds a store of 30 remarks (60 in the thorough tier) of all kinds and any one further operation on any of them, or of 130 (270) and one on any of four
func H_C23_many() {
	s, w, k := large()
	a := everything(s)
	w.Nth(k, "b", "c ab")
	b := everything(s)
	for kind := range a {
		for i := range a[kind] {
			nd.Assert(i < len(b[kind]) && same(a[kind][i].ids, b[kind][i].ids), "later operations change the nodes of an entity")
		}
	}
	nd.Cover("end")
}

// In a large store.
//
//verif:bounds a store of 30 remarks (60 in the thorough tier) of all kinds and any one further operation on any of them, or of 130 (270) and one on any of four
func H_C24_many() {
	s, w, k := large()
	w.Nth(k, "b", "c ab")
	parents(s, w)
	nd.Cover("end")
}

// far is any short history in a store numbered from anywhere up to 2^62.
func far() *lib.World {
	k := nd.Shard(4 * 28)
	w := lib.NewWorld(lib.NewSpread(lib.NewStore(), k/28))
	k %= 28
	w.Do(lib.OpStory, 0, "a", "b")
	w.Nth(k%4, "a", "c b")
	w.Nth(k/4, "b", "a")
	return w
}

// Links between things far from zero.
//
//verif:bounds every history of a story and 2 further operations, in a store that numbers its nodes from any number up to 2^62, 1, 2^8, 2^16 or 2^32 apart
func H_C20_far() {
	classes(far().S)
	nd.Cover("end")
}

// Things far from zero.
//
//verif:bounds every history of a story and 2 further operations, in a store that numbers its nodes from any number up to 2^62, 1, 2^8, 2^16 or 2^32 apart: every entity of every kind by every node of it
func H_C23_far() {
	everything(far().S)
	nd.Cover("end")
}

// Parents far from zero.
//
//verif:bounds every history of a story and 2 further operations and two child stories, in a store that numbers its nodes from any number up to 2^62, 1, 2^8, 2^16 or 2^32 apart
func H_C24_far() {
	w := far()
	w.Do(lib.OpChild, 0, "a", "b")
	w.Do(lib.OpChild, len(w.Remarks)-1, "a", "b")
	parents(w.S, w)
	nd.Cover("end")
}

// Parents, two graphs at once.
//
//verif:bounds every history of a story and 3 further operations on any remarks, by turns through two graphs open at the same time, the second given lists in the same or in reverse order
func H_C24_turns() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	w.Turns()
	parents(s, w)
	nd.Cover("end")
}

// Parents, text alike.
//
//verif:bounds every history of a story and 3 further operations on any remarks (the last on the first), the text of each any of three with two words in common
func H_C24_alike() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	w.Alike()
	parents(s, w)
	nd.Cover("end")
}

// Things made through two graphs at once.
//
//verif:bounds every history of a story and 3 further operations on any remarks, by turns through two graphs open at the same time, the second given lists in the same or in reverse order: every entity of every kind by every node of it
func H_C23_turns() {
	s := lib.NewStore()
	lib.NewWorld(s).Turns()
	everything(s)
	nd.Cover("end")
}
