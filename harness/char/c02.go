// Package char checks the character layer on its own.
package char

import (
	"github.com/mem-memov/semnet/internal/concrete/bit"
	"github.com/mem-memov/semnet/internal/concrete/character"
	"github.com/mem-memov/semnet/internal/concrete/class"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

func newRepo() (*character.Repository, *lib.Store) {
	s := lib.NewStore()
	c := class.NewRepository(s)
	b := bit.NewRepository(s, c)
	return character.NewRepository(s, c, b), s
}

// One code point, any value.
//
//verif:bounds one code point of 31 bits, all values
func H_C02_one() {
	repo, _ := newRepo()
	r := runeOfLen(nd.Shard(31))
	a, err := repo.Provide(r)
	nd.Assert(err == nil, "storing a code point fails")
	x, err := a.Extract()
	nd.Assert(err == nil, "extracting a code point fails")
	nd.Assert(x == r, "a code point reads back changed")
	nd.Observe("x", uint(x))
	b, err := repo.Fetch(a.GetWord())
	nd.Assert(err == nil, "fetching a character fails")
	y, err := b.Extract()
	nd.Assert(err == nil && y == r, "a fetched character reads back changed")
	nd.Cover("end")
}

// Two code points.
//
//verif:bounds two code points of 21 bits, all pairs
func H_C02_two() {
	repo, _ := newRepo()
	r, q := runeOfLen(nd.Shard(21)), nd.Rune()
	nd.Assume(r <= 0x10FFFF)
	nd.Assume(q >= 0 && q <= 0x10FFFF)
	splitLen(q)
	a, err := repo.Provide(r)
	nd.Assert(err == nil, "storing a code point fails")
	b, err := repo.Provide(q)
	nd.Assert(err == nil, "storing a second code point fails")
	x, err := a.Extract()
	nd.Assert(err == nil && x == r, "the first code point reads back changed")
	y, err := b.Extract()
	nd.Assert(err == nil && y == q, "the second code point reads back changed")
	nd.Assert((a.GetWord() == b.GetWord()) == (r == q), "characters are shared or duplicated")
	nd.Observe("x", uint(x))
	nd.Observe("y", uint(y))
	nd.Cover("end")
}

// Among many others.
//
//verif:bounds 12 and 260 characters (40 and 520 in the thorough tier) of consecutive or far apart code points, then one of any value up to 21 bits (any of 6 after 260) which is none of those between the first and last six; all of them again, in the same repositories and in new ones over the same storage
func H_C02_later() {
	repo, s := newRepo()
	k := nd.Shard(4 * 21)
	n := 12
	if k/21%2 == 1 {
		n = 260
	}
	if nd.Thorough() {
		n = 40
		if k/21%2 == 1 {
			n = 520
		}
	}
	from, step := rune(0x3b0), rune(1)
	if k/42 == 1 {
		from, step = 1, 0x11
	}
	words := make([]uint, n)
	for i := range words {
		a, err := repo.Provide(from + rune(i)*step)
		nd.Assert(err == nil, "storing a code point fails")
		words[i] = a.GetWord()
	}
	var r rune
	if n < 100 {
		r = runeOfLen(k % 21)
		nd.Assume(r <= 0x10FFFF)
		nd.Assume(r < from+6*step || r >= from+rune(n-6)*step)
	} else {
		some := []rune{0, 1, from, from + rune(n-1)*step, from + rune(n)*step, 0x10FFFF}
		if k%21 >= len(some) {
			return
		}
		r = some[k%21]
	}
	a, err := repo.Provide(r)
	nd.Assert(err == nil, "storing a code point fails")
	for t := 0; t < 2; t++ {
		x, err := a.Extract()
		nd.Assert(err == nil && x == r, "a code point reads back changed")
		for i := range words {
			q := from + rune(i)*step
			if i < 6 || i >= n-6 {
				nd.Assert((a.GetWord() == words[i]) == (r == q), "characters are shared or duplicated")
			}
			b, err := repo.Provide(q)
			nd.Assert(err == nil && b.GetWord() == words[i], "a code point stored again gives another character")
			y, err := b.Extract()
			nd.Assert(err == nil && y == q, "a code point stored again reads back changed")
		}
		c := class.NewRepository(s)
		repo = character.NewRepository(s, c, bit.NewRepository(s, c))
		b, err := repo.Provide(r)
		nd.Assert(err == nil && b.GetWord() == a.GetWord(), "a code point stored again gives another character")
		a, err = repo.Fetch(b.GetWord())
		nd.Assert(err == nil, "fetching a character fails")
	}
	nd.Cover("end")
}

// runeOfLen is any code point with k+1 binary digits.
func runeOfLen(k int) rune {
	r := nd.Rune()
	if k == 0 {
		nd.Assume(r == 0 || r == 1)
	} else {
		nd.Assume(r>>uint(k) == 1)
	}
	return r
}

// splitLen explores every number of binary digits apart.
func splitLen(q rune) {
	for k := uint(1); k < 21; k++ {
		if nd.Fork(q < 1<<k) {
			return
		}
	}
}
