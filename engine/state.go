package main

import (
	"go/types"
	"golang.org/x/tools/go/ssa"
)

const pgBits = 5
const pgSize = 1 << pgBits

type page struct {
	owner uint32
	v     [pgSize]Val
}

type retKind uint8

const (
	retNormal  retKind = iota
	retDiscard         // deferred call
	retRerun           // package initialiser: re-execute the instruction
)

type deferRec struct {
	fn   Val
	args []Val
	blt  string
}

type panicRec struct {
	v         Val
	msg       string
	recovered bool
}

type Frame struct {
	owner  uint32
	cf     *cfunc
	info   *fnInfo
	regs   []Val
	it     []int32 // iteration counts of the function's loops
	blk    int32
	pc     int32
	dst    int32
	ret    retKind
	defers []deferRec
	pan    *panicRec
	site   *cin // call site in the caller
}

type ndRec struct {
	kind string
	name string
	t    *Term
	w    uint8
}

type obsRec struct {
	label string
	vals  []Val
}

type mEval struct {
	m    Model
	memo map[*Term]uint64
}

func newMEval(m Model) *mEval { return &mEval{m, map[*Term]uint64{}} }
func (e *mEval) ev(t *Term) uint64 {
	x := evaluator{e.m, e.memo}
	return x.ev(t)
}

type State struct {
	id     uint32
	frames []*Frame
	pages  []*page // heap
	gpages []*page // globals
	nobj   uint32
	pc     *PC
	m      *mEval
	nd     []ndRec
	obs    []obsRec
	inited []*ssa.Package
	tag    []int32
	steps  int
	forks  int
	kn     string // pending known-finding marker
}

func (e *Eng) newID() uint32 {
	e.ids++
	return e.ids
}

// fork returns a copy; both copies get fresh ids so that everything is shared
// copy-on-write.
func (e *Eng) fork(s *State) *State {
	n := *s
	n.id = e.newID()
	s.id = e.newID()
	n.frames = append([]*Frame(nil), s.frames...)
	n.pages = append([]*page(nil), s.pages...)
	n.gpages = append([]*page(nil), s.gpages...)
	n.nd = s.nd[:len(s.nd):len(s.nd)]
	s.nd = n.nd
	n.obs = s.obs[:len(s.obs):len(s.obs)]
	s.obs = n.obs
	n.tag = s.tag[:len(s.tag):len(s.tag)]
	s.tag = n.tag
	n.inited = s.inited[:len(s.inited):len(s.inited)]
	s.inited = n.inited
	return &n
}

func (s *State) top() *Frame {
	f := s.frames[len(s.frames)-1]
	if f.owner == s.id {
		return f
	}
	return s.ownFrame(len(s.frames) - 1)
}

func (s *State) ownFrame(i int) *Frame {
	f := s.frames[i]
	if f.owner == s.id {
		return f
	}
	n := *f
	n.owner = s.id
	n.regs = append([]Val(nil), f.regs...)
	n.it = append([]int32(nil), f.it...)
	n.defers = append([]deferRec(nil), f.defers...)
	if f.pan != nil {
		p := *f.pan
		n.pan = &p
	}
	s.frames[i] = &n
	return &n
}

func (s *State) alloc(v Val) uint32 {
	s.nobj++
	id := s.nobj
	if v.k == KAgg {
		v.agg().owner = 0
	}
	*s.slot(id) = v
	return id
}

// slot returns a writable object cell.
func (s *State) slot(id uint32) *Val {
	ps := &s.pages
	if id&globBase != 0 {
		ps = &s.gpages
		id &^= globBase
	}
	pi := int(id >> pgBits)
	for len(*ps) <= pi {
		*ps = append(*ps, nil)
	}
	p := (*ps)[pi]
	if p == nil {
		p = &page{owner: s.id}
		(*ps)[pi] = p
	} else if p.owner != s.id {
		n := *p
		n.owner = s.id
		p = &n
		(*ps)[pi] = p
	}
	return &p.v[id&(pgSize-1)]
}

func (s *State) peek(id uint32) *Val {
	ps := s.pages
	if id&globBase != 0 {
		ps = s.gpages
		id &^= globBase
	}
	pi := int(id >> pgBits)
	if pi >= len(ps) || ps[pi] == nil {
		return nil
	}
	return &ps[pi].v[id&(pgSize-1)]
}

func (e *Eng) global(s *State, id uint32) *Val {
	v := s.peek(id)
	if v == nil || v.k == KNone {
		g := globalAt(id &^ globBase)
		z := zero(ti(g.Type().Underlying().(*types.Pointer).Elem()))
		*s.slot(id) = z
		v = s.peek(id)
	}
	return v
}

// ---- paths ----

type pathTab struct {
	full [][]int32
	tab  map[uint64]int32
}

func newPathTab() *pathTab {
	return &pathTab{full: [][]int32{nil}, tab: map[uint64]int32{}}
}

func (p *pathTab) sub(base int32, idx int) int32 {
	k := uint64(uint32(base))<<32 | uint64(uint32(idx))
	if r, ok := p.tab[k]; ok {
		return r
	}
	f := p.full[base]
	n := make([]int32, len(f)+1)
	copy(n, f)
	n[len(f)] = int32(idx)
	r := int32(len(p.full))
	p.full = append(p.full, n)
	p.tab[k] = r
	return r
}

func (p *pathTab) parent(path int32) (int32, int) {
	f := p.full[path]
	if len(f) == 0 {
		return -1, 0
	}
	b := int32(0)
	for _, i := range f[:len(f)-1] {
		b = p.sub(b, int(i))
	}
	return b, int(f[len(f)-1])
}

// ref returns a readable location (nil when the object is missing).
func (e *Eng) ref(s *State, obj uint32, path int32) *Val {
	var v *Val
	if obj&globBase != 0 {
		v = e.global(s, obj)
	} else {
		v = s.peek(obj)
	}
	if v == nil {
		panic(unsup("dangling object"))
	}
	for _, i := range e.paths.full[path] {
		a, ok := v.x.(*Agg)
		if !ok || int(i) >= len(a.e) {
			panic(unsup("bad path (unsafe cast)"))
		}
		v = &a.e[i]
	}
	return v
}

func (e *Eng) load(s *State, obj uint32, path int32) Val {
	v := *e.ref(s, obj, path)
	if v.k == KAgg {
		v.agg().owner = 0
	}
	return v
}

func own(s *State, v *Val) *Agg {
	a := v.agg()
	if a.owner == s.id {
		return a
	}
	n := &Agg{owner: s.id, e: make([]Val, len(a.e))}
	copy(n.e, a.e)
	for i := range n.e {
		if n.e[i].k == KAgg {
			n.e[i].agg().owner = 0
		}
	}
	v.x = n
	return n
}

func (e *Eng) store(s *State, obj uint32, path int32, val Val) {
	if obj&globBase != 0 {
		e.global(s, obj)
	}
	v := s.slot(obj)
	for _, i := range e.paths.full[path] {
		if v.k != KAgg {
			panic(unsup("bad store path"))
		}
		v = &own(s, v).e[i]
	}
	if val.k == KAgg {
		val.agg().owner = 0
	}
	*v = val
}

// writable array behind a slice
func (e *Eng) arr(s *State, obj uint32, path int32) *Agg {
	if obj&globBase != 0 {
		e.global(s, obj)
	}
	v := s.slot(obj)
	for _, i := range e.paths.full[path] {
		v = &own(s, v).e[i]
	}
	return own(s, v)
}

func (e *Eng) rarr(s *State, obj uint32, path int32) *Agg {
	return e.ref(s, obj, path).agg()
}
