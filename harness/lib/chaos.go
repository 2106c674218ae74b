package lib

import (
	"github.com/mem-memov/semnet/internal/abstract"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// Chaos is a storage that answers anything. Over a real storage it answers
// truly except for as many calls as Budget says, and for identifiers it made up
// itself, about which it makes up everything; made-up answers past Limit are
// errors, so that a run ends.
type Chaos struct {
	S      abstract.Storage // the truth, or nothing
	Budget int              // how many calls about real things may be answered wrongly
	Limit  int              // how many answers may be made up in all
	Real   []uint           // real identifiers the first made-up answer may name
	After  int              // how many calls are answered truly before all are made up, if not 0
	Calls  int
	Made   int
	Wrong  int
	Errors int
}

const alien = 1 << 40

// lie tells whether this call, about source, gets a made-up answer.
func (c *Chaos) lie(source uint) bool {
	c.Calls++
	if c.After > 0 {
		return c.Calls > c.After
	}
	if c.S == nil || nd.Fork(source >= alien) {
		return true
	}
	if c.Limit > 0 && c.Calls > 1000 { // the wrong answers made the store endless
		return true
	}
	if c.Wrong < c.Budget && nd.Fork(nd.Bool()) {
		c.Wrong++
		return true
	}
	return false
}

// name makes up an identifier.
func (c *Chaos) name() uint {
	if c.Made == 1 { // the first one may exist
		k := nd.Choose(len(c.Real) + 1)
		if k < len(c.Real) {
			return c.Real[k]
		}
	}
	x := nd.Uint()
	if c.S != nil && c.After == 0 {
		nd.Assume(x >= alien)
	}
	return x
}

// fail tells whether a made-up answer is an error.
func (c *Chaos) fail() bool {
	c.Made++
	if c.Made > c.Limit || c.Limit > 0 && c.Calls > 1000 || nd.Fork(nd.Bool()) {
		c.Errors++
		return true
	}
	return false
}

func (c *Chaos) list() ([]uint, error) {
	if c.fail() {
		return nil, ErrFault
	}
	switch nd.Choose(3) {
	case 0:
		return nil, nil
	case 1:
		return []uint{c.name()}, nil
	default:
		a := c.name()
		b := nd.Uint()
		if c.S != nil && c.After == 0 {
			nd.Assume(b >= alien || b == a)
		}
		return []uint{a, b}, nil
	}
}

func (c *Chaos) write() error {
	if c.fail() {
		return ErrFault
	}
	return nil
}

// Has answers anything.
func (c *Chaos) Has(source uint) (bool, error) {
	if !c.lie(source) {
		return c.S.Has(source)
	}
	if c.fail() {
		return false, ErrFault
	}
	return nd.Fork(nd.Bool()), nil
}

// Create answers anything.
func (c *Chaos) Create() (uint, error) {
	if !c.lie(0) {
		return c.S.Create()
	}
	if c.fail() {
		return 0, ErrFault
	}
	return c.name(), nil
}

// ReadSources answers anything.
func (c *Chaos) ReadSources(target uint) ([]uint, error) {
	if !c.lie(target) {
		return c.S.ReadSources(target)
	}
	return c.list()
}

// ReadTargets answers anything.
func (c *Chaos) ReadTargets(source uint) ([]uint, error) {
	if !c.lie(source) {
		return c.S.ReadTargets(source)
	}
	return c.list()
}

// SetReference answers anything.
func (c *Chaos) SetReference(source uint, reference uint) error {
	if !c.lie(source) && nd.Fork(reference < alien) {
		return c.S.SetReference(source, reference)
	}
	return c.write()
}

// GetReference answers anything.
func (c *Chaos) GetReference(source uint) (uint, uint, error) {
	if !c.lie(source) {
		return c.S.GetReference(source)
	}
	if c.fail() {
		return 0, 0, ErrFault
	}
	a := c.name()
	if nd.Fork(nd.Bool()) {
		return a, a, nil
	}
	return 0, a, nil
}

// Connect answers anything.
func (c *Chaos) Connect(source uint, target uint) error {
	if !c.lie(source) && nd.Fork(target < alien) {
		return c.S.Connect(source, target)
	}
	return c.write()
}

// Disconnect answers anything.
func (c *Chaos) Disconnect(source uint, target uint) error {
	return c.write()
}

// Delete answers anything.
func (c *Chaos) Delete(source uint) error {
	return c.write()
}
