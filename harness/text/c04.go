package text

import (
	"strings"

	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// stored is what the store held and which texts it was given.
type stored struct {
	pairs [][2]string
	words []string
}

func (t *stored) knowsPair(o string, p string) bool {
	for _, q := range t.pairs {
		if nd.Fork(q[0] == o) && nd.Fork(q[1] == p) {
			return true
		}
	}
	return false
}

func (t *stored) knowsWords(text string) bool {
	for _, x := range strings.Split(text, " ") {
		known := false
		for _, y := range t.words {
			if nd.Fork(x == y) {
				known = true
				break
			}
		}
		if !known {
			return false
		}
	}
	return true
}

func (t *stored) add(o string, p string) {
	t.pairs = append(t.pairs, [2]string{o, p})
	t.words = append(t.words, strings.Split(o, " ")...)
	t.words = append(t.words, strings.Split(p, " ")...)
}

// reuse runs one operation and checks what it adds to the store.
func (t *stored) reuse(w *lib.World, s *lib.Store, k int, o string, p string) {
	op := k
	if k > 0 {
		op = 1 + (k-1)%3
	}
	if op == lib.OpRemark {
		o = w.Remarks[(k-1)/3].Object
	}
	chars, words, phrases, details := s.CountClass(2), s.CountClass(3), s.CountClass(4), s.CountClass(5)
	w.Nth(k, o, p)
	if t.knowsPair(o, p) {
		nd.Cover("pair known")
		nd.Assert(s.CountClass(5) == details, "a stored pair is stored again")
		nd.Assert(s.CountClass(4) == phrases, "a stored phrase is stored again")
		nd.Assert(s.CountClass(3) == words && s.CountClass(2) == chars, "stored words or characters are stored again")
	} else {
		nd.Cover("pair new")
		nd.Assert(s.CountClass(5) == details+1, "a new pair does not get a detail of its own")
		if t.knowsWords(o) && t.knowsWords(p) {
			nd.Cover("words known")
			nd.Assert(s.CountClass(3) == words && s.CountClass(2) == chars, "known words are stored again")
		}
	}
	t.add(o, p)
}

// Reuse over three operations.
//
//verif:bounds every history of three creating operations on any remarks, with 6 patterns of text of one symbolic code point in each operation (14 patterns, up to six symbolic code points, in the thorough tier)
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C04_three() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	ts := patterns()
	k := nd.Shard(28 * len(ts))
	t := ts[k/28]
	k %= 28
	var m stored
	m.reuse(w, s, 0, lib.Text(t[0][0]), lib.Text(t[0][1]))
	m.reuse(w, s, k%4, lib.Text(t[1][0]), lib.Text(t[1][1]))
	m.reuse(w, s, k/4, lib.Text(t[2][0]), lib.Text(t[2][1]))
}

// Reuse of longer text.
//
//verif:bounds three stories of longer fixed text with one symbolic code point each, repeated in whole or in part; nothing summarised
func H_C04_long() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	var m stored
	m.reuse(w, s, 0, "the quick brown fox", "jumps over the lazy dog")
	m.reuse(w, s, 0, "the lazy dog", "jumps over the quick brown fox")
	k := nd.Shard(3*7 + 3)
	switch k {
	case 21:
		m.reuse(w, s, 0, "the quick brown fox", "jumps over the lazy dog")
	case 22:
		m.reuse(w, s, 1, "", "jumps over the lazy dog")
	case 23:
		m.reuse(w, s, 0, "dog the", "fox fox")
	default:
		l := lib.LetterOfLen(k % 7)
		switch k / 7 {
		case 0:
			m.reuse(w, s, 2, "the quick brown fox", "jumps over the lazy do"+l)
		case 1:
			m.reuse(w, s, 3, "the lazy dog", l+"umps over the quick brown fox")
		default:
			m.reuse(w, s, 0, "jumps over the lazy dog", "the quick brown fo"+l)
		}
	}
	m.reuse(w, s, 0, "the quick brown fox", "jumps over the lazy dog")
	m.reuse(w, s, 0, "the lazy dog", "jumps over the quick brown fox")
}

// Reuse over lists in another order.
//
//verif:bounds a store of 8 pairs whose objects and properties have up to four uses and whose words have up to four continuations, given lists in reverse or rotated order; then two operations on any of 8 known pairs, or a new pair of known words, each
func H_C04_order() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	var m stored
	ps := [][2]string{{"a", "a"}, {"a", "ab"}, {"a", "ac"}, {"ab", "ac"}, {"ab", "a"}, {"ac", "ac"}, {"a", "a ab"}, {"a ab", "a ac"}}
	for i, t := range ps {
		if i == 3 {
			f.Flip = 1
		}
		m.reuse(w, s, 0, t[0], t[1])
	}
	ps = append(ps, [2]string{"ac", "ab"}, [2]string{"a ac", "ac a"}, [2]string{"ab", "a ab"})
	k := nd.Shard(2 * len(ps))
	f.Flip = 1 + k%2
	t := ps[k/2]
	m.reuse(w, s, 3, t[0], t[1])
	t = ps[nd.Choose(len(ps))]
	m.reuse(w, s, 2, t[0], t[1])
	f.Flip = 3 - f.Flip
	m.reuse(w, s, 0, t[0], t[1])
}
