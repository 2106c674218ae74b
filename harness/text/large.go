package text

import (
	"strings"

	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// Very long text.
//
//verif:bounds a word of 300 letters (600 in the thorough tier) or a text of as many words, the first, middle or last code point of it of any value, as object or as property, next to the same text with a fixed one there
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C01_large() {
	w := lib.NewWorld(lib.NewStore())
	k := nd.Shard(12)
	letters := "abc"
	n := 300
	if nd.Thorough() {
		n *= 2
	}
	t := make([]string, n)
	for i := range t {
		t[i] = letters[i%3 : i%3+1]
	}
	sep := ""
	if k%2 == 1 {
		sep = " "
	}
	fixed := strings.Join(t, sep)
	t[[]int{0, n / 2, n - 1}[k/2%3]] = lib.Text("?")
	symbolic := strings.Join(t, sep)
	i := 0
	if k < 6 {
		i = w.Do(lib.OpStory, 0, fixed, symbolic)
	} else {
		i = w.Do(lib.OpStory, 0, symbolic, fixed)
	}
	w.CheckText(w.Remarks[i].R, i)
	i = w.Do(lib.OpFact, i, symbolic, symbolic)
	w.CheckText(w.Remarks[i].R, i)
	w.CheckText(w.Fetch(w.G, i), i)
	nd.Cover("end")
}

// Text of a large store.
//
//verif:bounds a store of 40 remarks (60 in the thorough tier) of all kinds and any one further operation on any of them, or of 140 (270) and one on any of four, with a code point of any value
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C03_many() {
	w := lib.NewWorld(lib.NewStore())
	n, k := lib.Size(40, 140)
	if nd.Thorough() {
		n, k = lib.Size(60, 270)
	}
	w.Grow(n)
	w.Nth(k, "b", "a "+lib.Text("_")+"a")
	for i := range w.Remarks {
		w.CheckText(w.Remarks[i].R, i)
	}
	nd.Cover("end")
}

// Many pairs of one text.
//
//verif:bounds 136 pairs (264 in the thorough tier) with one object, one property, or words or phrases of one beginning; then eight of them again, first, last and between; and 16 such pairs and then one with a code point of any one-byte value
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C04_wide() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	n := 136
	if nd.Thorough() {
		n = 264
	}
	k := nd.Shard(8)
	pair := func(x string) (string, string) {
		switch k % 4 {
		case 0:
			return "a", x
		case 1:
			return x, "a"
		case 2:
			return "a", "a" + x
		default:
			return "a " + x, "a"
		}
	}
	if k/4 == 1 {
		n = 16
	}
	for i := 0; i < n; i++ {
		o, p := pair(string(rune(0x30 + i)))
		w.Do(lib.OpStory, 0, o, p)
	}
	count := func() [4]int {
		return [4]int{s.CountClass(2), s.CountClass(3), s.CountClass(4), s.CountClass(5)}
	}
	c := count()
	if n > 16 {
		for j := 0; j < n; j += (n - 1) / 9 {
			o, p := pair(string(rune(0x30 + j)))
			i := w.Do(lib.OpStory, 0, o, p)
			nd.Assert(count() == c, "a stored pair, or its words or characters, is stored again")
			w.CheckText(w.Remarks[i].R, i)
		}
		nd.Cover("again")
		return
	}
	x := lib.Letter()
	o, p := pair(string(x))
	i := w.Do(lib.OpStory, 0, o, p)
	known := x >= 0x30 && x < rune(0x30+n)
	nd.Assert((s.CountClass(5) == c[3]) == known, "a pair is stored again or a new one is not stored")
	w.CheckText(w.Remarks[i].R, i)
	nd.Cover("any")
}

// Text in a store numbered from far away.
//
//verif:bounds three operations, text of two words with a code point of any value, in a store that numbers its nodes from any number up to 2^62, 1, 2^8, 2^16 or 2^32 apart; read back, also in a newly opened graph
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C01_far() {
	w := lib.NewWorld(lib.NewSpread(lib.NewStore(), nd.Choose(4)))
	w.Do(lib.OpStory, 0, "ab a", "b")
	k := nd.Shard(12)
	w.Nth(1+k%3, "a ab", lib.Text([]string{"?", "a _b", "ab _", "_ b"}[k/3]))
	w.Nth(0, "ab", "a b")
	w.Reopen()
	for i := range w.Remarks {
		w.CheckText(w.Remarks[i].R, i)
	}
	nd.Cover("end")
}

// Earlier text in a store numbered from far away.
//
//verif:bounds every history of a story and 2 further operations, in a store that numbers its nodes from any number up to 2^62, 1, 2^8, 2^16 or 2^32 apart, nothing summarised; every remark after each
func H_C03_far() {
	w := lib.NewWorld(lib.NewSpread(lib.NewStore(), nd.Choose(4)))
	w.Do(lib.OpStory, 0, "ab a", "b")
	k := nd.Shard(28)
	w.Nth(k%4, "a ab", "ba b")
	for i := range w.Remarks {
		w.CheckText(w.Remarks[i].R, i)
	}
	w.Nth(k/4, "b", "ab a")
	for i := range w.Remarks {
		w.CheckText(w.Remarks[i].R, i)
	}
	nd.Cover("end")
}

// Reuse in a store numbered from far away.
//
//verif:bounds every history of a story and 3 further operations with text of one code point of any one-byte value each, in a store that numbers its nodes from any number up to 2^62, 1, 2^8, 2^16 or 2^32 apart
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C04_far() {
	s := lib.NewStore()
	w := lib.NewWorld(lib.NewSpread(s, nd.Choose(4)))
	t := &stored{}
	k := nd.Shard(28)
	t.reuse(w, s, 0, "a b", "b")
	t.reuse(w, s, k%4, "b", lib.Text("a _"))
	t.reuse(w, s, k/4, lib.Text("a _"), "b")
	t.reuse(w, s, 0, "a b", "b")
	nd.Cover("end")
}
