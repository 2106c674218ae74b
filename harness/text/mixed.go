package text

import (
	"github.com/mem-memov/semnet"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

var turnTexts = [][3][2]string{
	{{"a", "_"}, {"_", "a"}, {"a", "_"}},
	{{"a b", "a"}, {"a _", "a_"}, {"_ b", "a"}},
}

// turns runs three operations on text of symbolic code points by turns
// through two graphs open at the same time, and does something after each.
func turns(w *lib.World, after func(k int, o string, p string, do func())) {
	k := nd.Shard(2 * 28 * len(turnTexts))
	g := [2]*semnet.Graph{w.G, semnet.NewGraph(&lib.Wrap{S: w.S, Flip: k % 2})}
	k /= 2
	t := turnTexts[k/28]
	k %= 28
	for i, n := range []int{0, k % 4, k / 4, 2} {
		o, p := lib.Text(t[i%3][0]), lib.Text(t[i%3][1])
		if i == 3 {
			o, p = w.Remarks[1].Object, w.Remarks[1].Property
		}
		w.Turn(g[i%2])
		after(n, o, p, func() { w.Nth(n, o, p) })
	}
}

// Text stored through two graphs at once.
//
//verif:bounds every history of a story and 2 further operations on any remarks with 2 patterns of text of up to two symbolic code points each, and the second text again, by turns through two graphs open at the same time, the second given lists in the same or in reverse order; every remark in both
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C03_turns() {
	w := lib.NewWorld(lib.NewStore())
	turns(w, func(k int, o string, p string, do func()) { do() })
	readAll(w)
	w.Reopen()
	readAll(w)
}

// Reuse of text stored through another graph.
//
//verif:bounds every history of a story and 2 further operations on any remarks with 2 patterns of text of up to two symbolic code points each, and the second text again, by turns through two graphs open at the same time, the second given lists in the same or in reverse order; nodes counted after each
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C04_turns() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	var st stored
	turns(w, func(k int, o string, p string, do func()) { st.reuse(w, s, k, o, p) })
	nd.Cover("end")
}

const longWord, longPhrase = "abcdefghijkl", "a b c d e f g h"

const nears = 12 + 8 + 5

// near is a long text and one that differs from it in any one or two letters.
func near(k int) (string, string) {
	if k >= 12 && k < 20 {
		r := []rune(longPhrase)
		r[2*(k-12)] = '_'
		return longPhrase, lib.Text(string(r))
	}
	r := []rune(longWord)
	switch k {
	case 20:
		r[0], r[11] = '_', '_'
	case 21:
		r[3], r[4] = '_', '_'
	case 22:
		r = append(r, '_')
	case 23:
		r = append([]rune{'_'}, r...)
	case 24:
		r = append(r[:6], r[7:]...)
		r[8] = '_'
	default:
		r[k] = '_'
	}
	return longWord, lib.Text(string(r))
}

// Text that is almost the same.
//
//verif:bounds a word of 12 letters or a phrase of 8 words as object and as property, then again with any one letter any one-byte code point, or two, or one more or less, as object and as property in any kind of operation; every remark
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C03_near() {
	w := lib.NewWorld(lib.NewStore())
	k := nd.Shard(2 * nears)
	a, b := near(k % nears)
	w.Do(lib.OpStory, 0, a, "x")
	w.Do(lib.OpFact, 0, "x", a)
	if k/nears == 0 {
		w.Do(lib.OpFact, 1, b, a)
		w.Do(lib.OpRemark, 0, "", b)
	} else {
		w.Do(lib.OpRemark, 1, "", b)
		w.Do(lib.OpChild, 0, b, "x")
		w.Do(lib.OpStory, 0, a, b)
	}
	readAll(w)
	w.Reopen()
	readAll(w)
	nd.Cover("end")
}

// Reuse of text that is almost the same.
//
//verif:bounds a word of 12 letters or a phrase of 8 words as object and as property, then again with any one letter any one-byte code point, or two, or one more or less, as object and as property; nodes counted after each
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C04_near() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	var st stored
	a, b := near(nd.Shard(nears))
	st.reuse(w, s, 0, a, "x")
	st.reuse(w, s, 2, "x", a)
	st.reuse(w, s, 2, b, a)
	st.reuse(w, s, 0, "x", b)
	nd.Cover("end")
}
