// Package lib holds what the harnesses share: a storage with the semantics of
// clew, wrappers that disturb it, text generators and a reference model.
package lib

import (
	"errors"

	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// ErrFault is the injected storage failure.
var ErrFault = errors.New("injected storage fault")

var errMissing = errors.New("no such node")

// Node is one storage node.
type Node struct {
	Prev    uint
	Next    uint
	Targets []uint
	Sources []uint
	SrcSeq  []int
}

type symEdge struct {
	from uint
	to   uint
	seq  int
}

// Store is an in-memory storage with clew's semantics: nodes and links share
// one identifier counter that starts at 1, links form a set, lists come in
// insertion order, an unset reference is 0.
type Store struct {
	Nodes []*Node
	seq   int
	sym   []symEdge
}

// NewStore makes an empty storage.
func NewStore() *Store {
	return &Store{}
}

func (s *Store) at(id uint) *Node {
	if id >= uint(len(s.Nodes)) {
		return nil
	}
	return s.Nodes[id]
}

// Has tells if a position is in use.
func (s *Store) Has(source uint) (bool, error) {
	return source < uint(len(s.Nodes)), nil
}

// Create adds a node.
func (s *Store) Create() (uint, error) {
	if len(s.Nodes) == 0 {
		s.Nodes = append(s.Nodes, nil)
	}
	s.Nodes = append(s.Nodes, &Node{})
	return uint(len(s.Nodes) - 1), nil
}

// ReadSources lists the nodes that link to target.
func (s *Store) ReadSources(target uint) ([]uint, error) {
	n := s.at(target)
	if n == nil {
		return []uint{}, errMissing
	}
	r := make([]uint, 0, len(n.Sources))
	j := 0
	for i := range n.Sources {
		for j < len(s.sym) && s.sym[j].seq < n.SrcSeq[i] {
			if s.sym[j].to == target {
				r = append(r, s.sym[j].from)
			}
			j++
		}
		r = append(r, n.Sources[i])
	}
	for ; j < len(s.sym); j++ {
		if s.sym[j].to == target {
			r = append(r, s.sym[j].from)
		}
	}
	return r, nil
}

// ReadTargets lists the nodes source links to.
func (s *Store) ReadTargets(source uint) ([]uint, error) {
	n := s.at(source)
	if n == nil {
		return []uint{}, errMissing
	}
	r := make([]uint, len(n.Targets))
	copy(r, n.Targets)
	return r, nil
}

// SetReference puts reference after source.
func (s *Store) SetReference(source uint, reference uint) error {
	n, m := s.at(source), s.at(reference)
	if n == nil || m == nil {
		return errMissing
	}
	n.Next = reference
	m.Prev = source
	return nil
}

// GetReference reads the neighbours of source.
func (s *Store) GetReference(source uint) (uint, uint, error) {
	n := s.at(source)
	if n == nil {
		return 0, 0, errMissing
	}
	return n.Prev, n.Next, nil
}

// Connect links source to target once.
func (s *Store) Connect(source uint, target uint) error {
	n := s.at(source)
	if n == nil {
		return errMissing
	}
	for _, t := range n.Targets {
		if t == target {
			return nil
		}
	}
	s.seq++
	if nd.IsConcrete(target) {
		m := s.at(target)
		if m == nil {
			return errMissing
		}
		m.Sources = append(m.Sources, source)
		m.SrcSeq = append(m.SrcSeq, s.seq)
	} else {
		s.sym = append(s.sym, symEdge{source, target, s.seq})
	}
	n.Targets = append(n.Targets, target)
	s.Nodes = append(s.Nodes, nil)
	return nil
}

func without(a []uint, x uint) []uint {
	r := make([]uint, 0, len(a))
	for _, v := range a {
		if v != x {
			r = append(r, v)
		}
	}
	return r
}

// Disconnect removes a link.
func (s *Store) Disconnect(source uint, target uint) error {
	n := s.at(source)
	m := s.at(target)
	if n == nil || m == nil {
		return errMissing
	}
	n.Targets = without(n.Targets, target)
	src, seq := m.Sources, m.SrcSeq
	m.Sources, m.SrcSeq = nil, nil
	for i := range src {
		if src[i] != source {
			m.Sources = append(m.Sources, src[i])
			m.SrcSeq = append(m.SrcSeq, seq[i])
		}
	}
	return nil
}

// Delete removes a node and its links.
func (s *Store) Delete(source uint) error {
	n := s.at(source)
	if n == nil {
		return errMissing
	}
	for _, t := range n.Targets {
		if e := s.Disconnect(source, t); e != nil {
			return e
		}
	}
	for _, t := range n.Sources {
		if e := s.Disconnect(t, source); e != nil {
			return e
		}
	}
	s.Nodes[source] = nil
	return nil
}

// CountClass tells how many nodes carry a class (1 to 8).
func (s *Store) CountClass(class uint) int {
	n := s.at(class)
	if n == nil {
		return 0
	}
	return len(n.Sources)
}
