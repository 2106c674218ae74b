package lib

import (
	"errors"
	"io"

	"github.com/mem-memov/semnet/internal/abstract"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// Wrap is a storage that watches and disturbs another one.
type Wrap struct {
	S      abstract.Storage
	Calls  int  // calls so far
	Fault  bool // any one call fails
	FailN  int  // how many calls fail from there, if more than one
	Sparse bool // only writes fail first: what a failing read leaves behind, the write after it does
	Real   bool // a failing call is carried out and gives its result beside the error
	Failed bool // a failure was injected
	After  int  // write calls tried after the first failure
	Writes int  // successful write calls
	Dels   int  // Delete and Disconnect calls
	Resets int  // SetReference calls on a set reference
	Creats int  // successful Create calls
	Permut bool // list in any order
	Flip   int  // concrete reordering: 1 reverses, 2 rotates
	Kind   int  // which error a failing call gives, of NKinds
}

// apt is an error of every kind there is.
type apt struct{}

func (apt) Error() string {
	return "temporary: not found, no such node: does not exist or already exists, empty, closed, timeout, canceled, EOF, retry"
}
func (apt) Is(target error) bool { return true }
func (apt) Temporary() bool      { return true }
func (apt) Timeout() bool        { return true }
func (apt) NotFound() bool       { return true }

// NKinds is how many kinds of error there are.
const NKinds = 4

func (w *Wrap) err() error {
	switch w.Kind {
	case 1:
		return apt{}
	case 2:
		return io.EOF
	case 3:
		return errors.New("")
	}
	return ErrFault
}

// Reports tells whether an error is the injected one or wraps it.
func (w *Wrap) Reports(err error) bool {
	for err != nil {
		if w.Kind == 3 { // errors.New("") makes another one each time
			if err.Error() == "" {
				return true
			}
		} else if err == w.err() {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

// NewWrap wraps a storage without disturbing it.
func NewWrap(s abstract.Storage) *Wrap {
	return &Wrap{S: s}
}

// fail tells whether this call fails: any one call does, or any call and those
// after it.
func (w *Wrap) fail(write bool) bool {
	w.Calls++
	if !w.Fault {
		return false
	}
	if w.Failed && write {
		w.After++
	}
	if w.Failed {
		if w.FailN > 1 {
			w.FailN--
			return true
		}
		return false
	}
	if w.Sparse && !write {
		return false
	}
	if nd.Fork(nd.Bool()) {
		w.Failed = true
		return true
	}
	return false
}

func (w *Wrap) order(a []uint) []uint {
	if len(a) < 2 {
		return a
	}
	if w.Flip == 1 {
		r := make([]uint, len(a))
		for i := range a {
			r[len(a)-1-i] = a[i]
		}
		return r
	}
	if w.Flip == 2 {
		r := make([]uint, len(a))
		for i := range a {
			r[(i+1)%len(a)] = a[i]
		}
		return r
	}
	if !w.Permut {
		return a
	}
	r := make([]uint, len(a))
	copy(r, a)
	for i := len(r) - 1; i > 0; i-- {
		j := nd.Range(0, i)
		if j < i { // a symbolic swap partner, taken one at a time
			for k := 0; k < i; k++ {
				if j == k {
					r[i], r[k] = r[k], r[i]
				}
			}
		}
	}
	return r
}

// Has is a read.
func (w *Wrap) Has(source uint) (bool, error) {
	if w.fail(false) {
		if w.Real {
			r, _ := w.S.Has(source)
			return r, w.err()
		}
		return false, w.err()
	}
	return w.S.Has(source)
}

// Create is a write.
func (w *Wrap) Create() (uint, error) {
	if w.fail(true) {
		if w.Real {
			r, _ := w.S.Create()
			return r, w.err()
		}
		return 0, w.err()
	}
	w.Writes++
	w.Creats++
	return w.S.Create()
}

// ReadSources is a read.
func (w *Wrap) ReadSources(target uint) ([]uint, error) {
	if w.fail(false) {
		if w.Real {
			r, _ := w.S.ReadSources(target)
			return r, w.err()
		}
		return nil, w.err()
	}
	r, err := w.S.ReadSources(target)
	return w.order(r), err
}

// ReadTargets is a read.
func (w *Wrap) ReadTargets(source uint) ([]uint, error) {
	if w.fail(false) {
		if w.Real {
			r, _ := w.S.ReadTargets(source)
			return r, w.err()
		}
		return nil, w.err()
	}
	r, err := w.S.ReadTargets(source)
	return w.order(r), err
}

// SetReference is a write.
func (w *Wrap) SetReference(source uint, reference uint) error {
	if w.fail(true) {
		if w.Real {
			w.S.SetReference(source, reference)
		}
		return w.err()
	}
	w.Writes++
	_, next, err := w.S.GetReference(source)
	if err == nil && next != 0 {
		w.Resets++
	}
	prev, _, err := w.S.GetReference(reference)
	if err == nil && prev != 0 {
		w.Resets++
	}
	return w.S.SetReference(source, reference)
}

// GetReference is a read.
func (w *Wrap) GetReference(source uint) (uint, uint, error) {
	if w.fail(false) {
		if w.Real {
			p, n, _ := w.S.GetReference(source)
			return p, n, w.err()
		}
		return 0, 0, w.err()
	}
	return w.S.GetReference(source)
}

// Connect is a write.
func (w *Wrap) Connect(source uint, target uint) error {
	if w.fail(true) {
		if w.Real {
			w.S.Connect(source, target)
		}
		return w.err()
	}
	w.Writes++
	return w.S.Connect(source, target)
}

// Disconnect is a write that removes.
func (w *Wrap) Disconnect(source uint, target uint) error {
	if w.fail(true) {
		if w.Real {
			w.S.Disconnect(source, target)
		}
		return w.err()
	}
	w.Writes++
	w.Dels++
	return w.S.Disconnect(source, target)
}

// Delete is a write that removes.
func (w *Wrap) Delete(source uint) error {
	if w.fail(true) {
		if w.Real {
			w.S.Delete(source)
		}
		return w.err()
	}
	w.Writes++
	w.Dels++
	return w.S.Delete(source)
}
