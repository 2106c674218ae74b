package lib

import (
	abstractCharacter "github.com/mem-memov/semnet/internal/abstract/character"
	"github.com/mem-memov/semnet/internal/concrete/character"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// The summary of the character layer: two code points share a character
// exactly if they are equal, and a character gives its code point back. That
// is what C02 decides for the real layer. Under the summary each distinct code
// point is stored as a short one, so the layers above run on real storage
// structures of realistic shape.
var (
	charReal []rune // the code points met
	charRep  []rune // the code point that stands for each
)

// CharProvide stands for character.Repository.Provide.
func CharProvide(r *character.Repository, integer rune) (abstractCharacter.Aggregate, error) {
	for i := range charReal {
		if nd.Fork(charReal[i] == integer) {
			return r.Provide(charRep[i])
		}
	}
	rep := rune(len(charReal) + 1)
	a, err := r.Provide(rep)
	if err != nil {
		return nil, err
	}
	charReal = append(charReal, integer)
	charRep = append(charRep, rep)
	return a, nil
}

// CharExtract stands for character.Aggregate.Extract.
func CharExtract(a character.Aggregate) (rune, error) {
	rep, err := a.Extract()
	if err != nil {
		return 0, err
	}
	for i := range charRep {
		if charRep[i] == rep {
			return charReal[i], nil
		}
	}
	return rep, nil
}
