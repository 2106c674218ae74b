package lib

import (
	"github.com/mem-memov/semnet/internal/abstract"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// Turn is a storage before any one call of which somebody else may have a turn.
type Turn struct {
	S     abstract.Storage
	Other func() // what somebody else does, once
	Had   bool   // it was done
}

// turn lets somebody else have the turn, or not.
func (t *Turn) turn() {
	if t.Other == nil {
		return
	}
	if nd.Fork(nd.Bool()) {
		f := t.Other
		t.Other = nil
		t.Had = true
		f()
	}
}

// Has takes a turn.
func (t *Turn) Has(source uint) (bool, error) {
	t.turn()
	return t.S.Has(source)
}

// Create takes a turn.
func (t *Turn) Create() (uint, error) {
	t.turn()
	return t.S.Create()
}

// ReadSources takes a turn.
func (t *Turn) ReadSources(target uint) ([]uint, error) {
	t.turn()
	return t.S.ReadSources(target)
}

// ReadTargets takes a turn.
func (t *Turn) ReadTargets(source uint) ([]uint, error) {
	t.turn()
	return t.S.ReadTargets(source)
}

// SetReference takes a turn.
func (t *Turn) SetReference(source uint, reference uint) error {
	t.turn()
	return t.S.SetReference(source, reference)
}

// GetReference takes a turn.
func (t *Turn) GetReference(source uint) (uint, uint, error) {
	t.turn()
	return t.S.GetReference(source)
}

// Connect takes a turn.
func (t *Turn) Connect(source uint, target uint) error {
	t.turn()
	return t.S.Connect(source, target)
}

// Disconnect takes a turn.
func (t *Turn) Disconnect(source uint, target uint) error {
	t.turn()
	return t.S.Disconnect(source, target)
}

// Delete takes a turn.
func (t *Turn) Delete(source uint) error {
	t.turn()
	return t.S.Delete(source)
}
