package lib

import (
	"github.com/mem-memov/semnet/internal/abstract"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// Spread is a storage that numbers what follows the eight class nodes from
// elsewhere and apart: any number up to 2^62 to begin with, symbolic.
type Spread struct {
	S      abstract.Storage
	Base   uint
	Stride uint
}

// NewSpread makes an empty storage with any distance between the class nodes
// and the rest, and one of four between any two other nodes.
func NewSpread(s abstract.Storage, stride int) *Spread {
	base := nd.Uint()
	nd.Assume(base >= 16 && base < 1<<62)
	return &Spread{S: s, Base: base, Stride: []uint{1, 1 << 8, 1 << 16, 1 << 32}[stride]}
}

// In is the inner number of a node.
func (s *Spread) In(id uint) uint {
	if nd.IsConcrete(id) && id <= 8 {
		return id
	}
	d := id - s.Base
	if d%s.Stride != 0 || d/s.Stride <= 8 {
		return ^uint(0) // no number of this storage
	}
	return d / s.Stride
}

// Out is the number of a node whose inner number is id.
func (s *Spread) Out(id uint) uint {
	if id <= 8 {
		return id
	}
	return id*s.Stride + s.Base
}

func (s *Spread) list(l []uint, err error) ([]uint, error) {
	for i := range l {
		l[i] = s.Out(l[i])
	}
	return l, err
}

func (s *Spread) Has(source uint) (bool, error) { return s.S.Has(s.In(source)) }

func (s *Spread) Create() (uint, error) {
	id, err := s.S.Create()
	return s.Out(id), err
}

func (s *Spread) ReadSources(target uint) ([]uint, error) {
	return s.list(s.S.ReadSources(s.In(target)))
}

func (s *Spread) ReadTargets(source uint) ([]uint, error) {
	return s.list(s.S.ReadTargets(s.In(source)))
}

func (s *Spread) SetReference(source uint, reference uint) error {
	return s.S.SetReference(s.In(source), s.In(reference))
}

func (s *Spread) GetReference(source uint) (uint, uint, error) {
	p, n, err := s.S.GetReference(s.In(source))
	return s.Out(p), s.Out(n), err
}

func (s *Spread) Connect(source uint, target uint) error {
	return s.S.Connect(s.In(source), s.In(target))
}

func (s *Spread) Disconnect(source uint, target uint) error {
	return s.S.Disconnect(s.In(source), s.In(target))
}

func (s *Spread) Delete(source uint) error { return s.S.Delete(s.In(source)) }
