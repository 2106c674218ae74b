package lib

import (
	"github.com/mem-memov/semnet"
	"github.com/mem-memov/semnet/internal/abstract"
	abstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// Handle is a remark as the library gives it.
type Handle = abstractRemark.Aggregate

// Remark is a remark of the reference model.
type Remark struct {
	R        abstractRemark.Aggregate
	ID       uint
	Object   string
	Property string
	Fact     int
}

// Fact is a fact of the reference model.
type Fact struct {
	Remarks []int
	Story   int
}

// Story is a story of the reference model.
type Story struct {
	Facts  []int
	Parent int
	Kids   []int
}

// Op is a creating operation on remark I.
type Op struct {
	Op, I int
	O, P  string
}

// World is a graph together with what it should hold.
type World struct {
	S       abstract.Storage
	G       *semnet.Graph
	Remarks []Remark
	Facts   []Fact
	Stories []Story
	Log     []Op
	out     *semnet.Output
	outOf   *semnet.Graph
}

// NewWorld is a graph over a storage.
func NewWorld(s abstract.Storage) *World {
	return &World{S: s, G: semnet.NewGraph(s)}
}

func (w *World) story(parent int) int {
	w.Stories = append(w.Stories, Story{Parent: parent})
	return len(w.Stories) - 1
}

func (w *World) fact(story int) int {
	w.Facts = append(w.Facts, Fact{Story: story})
	f := len(w.Facts) - 1
	w.Stories[story].Facts = append(w.Stories[story].Facts, f)
	return f
}

func (w *World) remark(r abstractRemark.Aggregate, o string, p string, fact int) int {
	w.Remarks = append(w.Remarks, Remark{R: r, ID: r.GetIdentifier(), Object: o, Property: p, Fact: fact})
	i := len(w.Remarks) - 1
	nd.Observe("id:remark", w.Remarks[i].ID)
	w.Facts[fact].Remarks = append(w.Facts[fact].Remarks, i)
	return i
}

// The creating operations.
const (
	OpStory  = iota // create a story
	OpRemark        // add a remark to a fact
	OpFact          // add a fact to a story
	OpChild         // create a child story
)

// Try runs a creating operation on remark i and gives its result.
func (w *World) Try(op int, i int, o string, p string) (abstractRemark.Aggregate, error) {
	switch op {
	case OpStory:
		r, err := w.G.CreateStory(o, p)
		if err != nil {
			return nil, err
		}
		return r.Aggregate, nil
	case OpRemark:
		return w.Remarks[i].R.AddRemarkToFact(p)
	case OpFact:
		return w.Remarks[i].R.AddFactToStory(o, p)
	default:
		return w.Remarks[i].R.CreateChildStory(o, p)
	}
}

// Record enters the result of a creating operation in the model.
func (w *World) Record(op int, i int, r abstractRemark.Aggregate, o string, p string) int {
	w.Log = append(w.Log, Op{op, i, o, p})
	switch op {
	case OpStory:
		return w.remark(r, o, p, w.fact(w.story(-1)))
	case OpRemark:
		return w.remark(r, w.Remarks[i].Object, p, w.Remarks[i].Fact)
	case OpFact:
		return w.remark(r, o, p, w.fact(w.Facts[w.Remarks[i].Fact].Story))
	default:
		parent := w.Facts[w.Remarks[i].Fact].Story
		s := w.story(parent)
		w.Stories[parent].Kids = append(w.Stories[parent].Kids, s)
		return w.remark(r, o, p, w.fact(s))
	}
}

// Do runs a creating operation that has to succeed.
func (w *World) Do(op int, i int, o string, p string) int {
	r, err := w.Try(op, i, o, p)
	nd.Assert(err == nil, "a creating operation with valid text fails")
	nd.Assert(r != nil, "a creating operation returns no remark")
	return w.Record(op, i, r, o, p)
}

// Any runs any one creating operation on any remark.
func (w *World) Any(o string, p string) int {
	k := nd.Choose(1 + 3*len(w.Remarks))
	return w.Nth(k, o, p)
}

// Nth runs the k-th of the operations Any chooses from.
func (w *World) Nth(k int, o string, p string) int {
	if k == 0 {
		return w.Do(OpStory, 0, o, p)
	}
	k--
	return w.Do(OpRemark+k%3, k/3, o, p)
}

// First is the first remark of the story remark i belongs to.
func (w *World) First(i int) int {
	return w.Facts[w.Stories[w.Facts[w.Remarks[i].Fact].Story].Facts[0]].Remarks[0]
}

// NextFact is the remark that opens the fact after that of remark i, or -1.
func (w *World) NextFact(i int) int {
	f := w.Remarks[i].Fact
	fs := w.Stories[w.Facts[f].Story].Facts
	for k := range fs {
		if fs[k] == f && k+1 < len(fs) {
			return w.Facts[fs[k+1]].Remarks[0]
		}
	}
	return -1
}

// NextStory is the first remark of the story after that of remark i, or -1.
func (w *World) NextStory(i int) int {
	s := w.Facts[w.Remarks[i].Fact].Story
	if w.Stories[s].Parent < 0 {
		return -1
	}
	ks := w.Stories[w.Stories[s].Parent].Kids
	for k := range ks {
		if ks[k] == s && k+1 < len(ks) {
			return w.Facts[w.Stories[ks[k+1]].Facts[0]].Remarks[0]
		}
	}
	return -1
}

// NextRemark is the remark after remark i in its fact, or -1.
func (w *World) NextRemark(i int) int {
	rs := w.Facts[w.Remarks[i].Fact].Remarks
	for k := range rs {
		if rs[k] == i && k+1 < len(rs) {
			return rs[k+1]
		}
	}
	return -1
}

// CheckText asserts that r reads as remark i should.
func (w *World) CheckText(r abstractRemark.Aggregate, i int) {
	o, p, err := r.GetObjectAndProperty()
	nd.Assert(err == nil, "reading the text of a remark fails")
	nd.Assert(o == w.Remarks[i].Object, "an object reads back changed")
	nd.Assert(p == w.Remarks[i].Property, "a property reads back changed")
}

// Fetch looks remark i up in g.
func (w *World) Fetch(g *semnet.Graph, i int) abstractRemark.Aggregate {
	r, err := g.GetRemark(w.Remarks[i].ID)
	nd.Assert(err == nil, "a remark is not found by its identifier")
	nd.Assert(r.Aggregate != nil, "looking a remark up gives nothing")
	nd.Assert(r.GetIdentifier() == w.Remarks[i].ID, "a remark found by its identifier has another identifier")
	return r.Aggregate
}

// CheckFacts asserts where the next-fact step of r, remark i, leads.
func (w *World) CheckFacts(r abstractRemark.Aggregate, i int) {
	n := w.NextFact(i)
	has, err := r.HasNextFact()
	nd.Assert(err == nil, "asking for a next fact fails")
	nd.Assert(has == (n >= 0), "a remark is wrong about having a next fact")
	x, err := r.GetNextFact()
	if n < 0 {
		nd.Assert(err != nil, "a next fact is given where there is none")
		return
	}
	nd.Assert(err == nil, "stepping to the next fact fails")
	nd.Assert(x.GetIdentifier() == w.Remarks[n].ID, "the next fact is not the one added next")
}

// CheckFirst asserts where the first-fact step of r, remark i, leads.
func (w *World) CheckFirst(r abstractRemark.Aggregate, i int) {
	x, err := r.GetFirstFact()
	nd.Assert(err == nil, "asking for the first fact fails")
	nd.Assert(x.GetIdentifier() == w.Remarks[w.First(i)].ID, "the first fact is not the remark the story was created with")
}

// CheckStories asserts where the next-story step of r, remark i, leads.
func (w *World) CheckStories(r abstractRemark.Aggregate, i int) {
	n := w.NextStory(i)
	has, err := r.HasNextStory()
	nd.Assert(err == nil, "asking for a next story fails")
	nd.Assert(has == (n >= 0), "a remark is wrong about having a next story")
	x, err := r.GetNextStory()
	if n < 0 {
		nd.Assert(err != nil, "a next story is given where there is none")
		return
	}
	nd.Assert(err == nil, "stepping to the next story fails")
	nd.Assert(x.GetIdentifier() == w.Remarks[n].ID, "the next story is not the one created next")
}

// Place is where a remark stands, as its own readers tell it.
type Place struct {
	ID, First, NextFact, NextStory, NextRemark uint
	Object, Property                           string
}

// See asks a remark for everything it can tell without failing.
func See(r abstractRemark.Aggregate) Place {
	var p Place
	p.ID = r.GetIdentifier()
	o, q, err := r.GetObjectAndProperty()
	nd.Assert(err == nil, "reading the text of a remark fails")
	p.Object, p.Property = o, q
	x, err := r.GetFirstFact()
	nd.Assert(err == nil, "asking for the first fact fails")
	p.First = x.GetIdentifier()
	has, err := r.HasNextFact()
	nd.Assert(err == nil, "asking for a next fact fails")
	if has {
		x, err = r.GetNextFact()
		nd.Assert(err == nil, "stepping to the next fact fails")
		p.NextFact = x.GetIdentifier()
	}
	has, err = r.HasNextStory()
	nd.Assert(err == nil, "asking for a next story fails")
	if has {
		x, err = r.GetNextStory()
		nd.Assert(err == nil, "stepping to the next story fails")
		p.NextStory = x.GetIdentifier()
	}
	has, err = r.HasNextRemark()
	nd.Assert(err == nil, "asking for a next remark fails")
	if has {
		x, err = r.GetNextRemark()
		nd.Assert(err == nil, "stepping to the next remark fails")
		p.NextRemark = x.GetIdentifier()
	}
	return p
}

// CheckSame asserts that r stands where p says.
func (p Place) CheckSame(r abstractRemark.Aggregate) {
	q := See(r)
	nd.Assert(p.ID == q.ID, "a remark changes its identifier")
	nd.Assert(p.Object == q.Object && p.Property == q.Property, "a remark changes its text")
	nd.Assert(p.First == q.First, "a remark changes its first fact")
	nd.Assert(p.NextFact == q.NextFact, "a remark changes its next fact")
	nd.Assert(p.NextStory == q.NextStory, "a remark changes its next story")
	nd.Assert(p.NextRemark == q.NextRemark, "a remark changes its next remark")
}

// Render is the story text of a remark.
func (w *World) Render(g *semnet.Graph, r abstractRemark.Aggregate) (string, error) {
	if w.outOf != g {
		w.out, w.outOf = semnet.NewOutput(g), g
	}
	return w.out.GetStory(semnet.Remark{Aggregate: r})
}

// Full asserts that r, remark i, is fully usable: its text and all its steps
// agree with the model, and so do the remarks its steps give, to a depth.
func (w *World) Full(r abstractRemark.Aggregate, i int, depth int) {
	nd.Assert(r.GetIdentifier() == w.Remarks[i].ID, "a step gives another remark")
	w.CheckText(r, i)
	w.CheckFirst(r, i)
	w.CheckFacts(r, i)
	w.CheckStories(r, i)
	has, err := r.HasNextRemark()
	nd.Assert(err == nil, "asking for a next remark fails")
	x, err := r.GetNextRemark()
	nd.Assert(has == (err == nil), "having a next remark and stepping to it disagree")
	if depth == 0 {
		return
	}
	if has {
		w.Full(x, w.Index(x.GetIdentifier()), depth-1)
	}
	x, err = r.GetFirstFact()
	nd.Assert(err == nil, "asking for the first fact fails")
	w.Full(x, w.First(i), depth-1)
	if n := w.NextFact(i); n >= 0 {
		x, err = r.GetNextFact()
		nd.Assert(err == nil, "stepping to the next fact fails")
		w.Full(x, n, depth-1)
	}
	if n := w.NextStory(i); n >= 0 {
		x, err = r.GetNextStory()
		nd.Assert(err == nil, "stepping to the next story fails")
		w.Full(x, n, depth-1)
	}
}

// Index is the remark with an identifier.
func (w *World) Index(id uint) int {
	for i := range w.Remarks {
		if w.Remarks[i].ID == id {
			return i
		}
	}
	nd.Assert(false, "a step gives something that is no remark")
	return -1
}

// Tell is the text of a story as the steps from its first remark give it.
func (w *World) Tell(first abstractRemark.Aggregate) string {
	s := ""
	r := first
	for n := 0; n <= len(w.Remarks); n++ {
		o, p, err := r.GetObjectAndProperty()
		nd.Assert(err == nil, "reading the text of a remark fails")
		s += o + " " + p + " "
		has, err := r.HasNextRemark()
		nd.Assert(err == nil, "asking for a next remark fails")
		if !has {
			return s
		}
		r, err = r.GetNextRemark()
		nd.Assert(err == nil, "stepping to the next remark fails")
	}
	nd.Assert(false, "stepping from remark to remark does not end")
	return ""
}

// CheckStoryText asserts what the story text of r, remark i, is.
func (w *World) CheckStoryText(r abstractRemark.Aggregate, i int) {
	text, err := w.Render(w.G, r)
	nd.Assert(err == nil, "producing a story text fails")
	nd.Assert(text == w.Tell(w.Remarks[w.First(i)].R), "a story text is not the one of its first remark")
}

// Reopen opens a new graph over the storage and finds every remark anew.
func (w *World) Reopen() {
	w.G = semnet.NewGraph(w.S)
	for i := range w.Remarks {
		w.Remarks[i].R = w.Fetch(w.G, i)
	}
}

// CheckAll asserts everything about every remark, as held and as found.
func (w *World) CheckAll() {
	for i := range w.Remarks {
		w.Full(w.Remarks[i].R, i, 0)
		r := w.Fetch(w.G, i)
		w.Full(r, i, 0)
		w.CheckStoryText(r, i)
	}
}
