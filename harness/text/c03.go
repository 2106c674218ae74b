package text

import (
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// readAll checks the text of every remark, as made and as found.
func readAll(w *lib.World) {
	for i := range w.Remarks {
		w.CheckText(w.Remarks[i].R, i)
		w.CheckText(w.Fetch(w.G, i), i)
	}
	nd.Cover("end")
}

var triples = [][3][2]string{
	{{"a", "_"}, {"_", "a"}, {"_", "b"}},
	{{"_", "b"}, {"a", "_"}, {"a", "_b"}},
	{{"_", "a a"}, {"a", "_"}, {"a _", "a"}},
	{{"a_", "ab b"}, {"ab a", "b_"}, {"_b", "ab b"}},
	{{"a_ a", "a"}, {"a a", "_a"}, {"a a", "_"}},
	{{"? b", "b b"}, {"b", "?"}, {"b ab", "?b"}},
}

var moreTriples = [][3][2]string{
	{{"_", "_"}, {"_", "_"}, {"_", "_"}},
	{{"_", "a_"}, {"a", "_"}, {"a_", "a"}},
	{{"_", "a _"}, {"a", "_"}, {"a _", "a"}},
	{{"a_", "_ b"}, {"ab a", "b_"}, {"_b", "ab b"}},
	{{"a_ a", "a_"}, {"a a", "_a"}, {"a_ b", "a"}},
	{{"? b", "b ?"}, {"b", "?"}, {"b ab", "?b"}},
	{{"_ _ _", "a"}, {"_", "a"}, {"a", "_ a"}},
	{{"___", "a"}, {"_a", "a"}, {"a", "a"}},
}

func patterns() [][3][2]string {
	if nd.Thorough() {
		return append(triples[:len(triples):len(triples)], moreTriples...)
	}
	return triples
}

// Three operations on text that shares whatever it can share.
//
//verif:bounds every history of three creating operations on any remarks, with 6 patterns of text of one symbolic code point in each operation (14 patterns, up to six symbolic code points, in the thorough tier)
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C03_three() {
	w := lib.NewWorld(lib.NewStore())
	ts := patterns()
	k := nd.Shard(28 * len(ts))
	t := ts[k/28]
	k %= 28
	w.Do(lib.OpStory, 0, lib.Text(t[0][0]), lib.Text(t[0][1]))
	w.Nth(k%4, lib.Text(t[1][0]), lib.Text(t[1][1]))
	w.Nth(k/4, lib.Text(t[2][0]), lib.Text(t[2][1]))
	readAll(w)
}

// More operations on one-symbol text.
//
//verif:bounds every history of four (five in the thorough tier) creating operations on any remarks; objects and properties of one symbol, the last two properties any one-byte code point
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C03_more() {
	w := lib.NewWorld(lib.NewStore())
	k := nd.Shard(28)
	w.Do(lib.OpStory, 0, "a", "b")
	w.Nth(k%4, "b", "a")
	if nd.Thorough() {
		w.Nth(k/4, "a", "c")
		w.Any("c", lib.Text("_"))
	} else {
		w.Nth(k/4, "a", lib.Text("_"))
	}
	w.Any("b", lib.Text("_"))
	readAll(w)
}

// Text that grows step by step, the real character layer.
//
//verif:bounds seven operations with fixed text that shares first letters, first words, objects and properties, and one object of any one-byte code point; nothing summarised
func H_C03_real() {
	w := lib.NewWorld(lib.NewStore())
	w.Do(lib.OpStory, 0, "a", "a")
	w.Do(lib.OpFact, 0, "ab", "a a")
	w.Do(lib.OpRemark, 0, "", "ab")
	w.Do(lib.OpChild, 1, "abc", "a a a")
	w.Do(lib.OpFact, 2, "b", "a")
	w.Do(lib.OpStory, 0, "a", "b")
	w.Do(1+nd.Shard(3), 1, lib.Text("_"), "abc ab a")
	readAll(w)
}

// split gives two texts that are cut in two in different places: joined with
// what is any code points here they would be equal.
func split(k int) [2][2]string {
	sep := lib.Text([]string{"", "?", "__"}[k%3])
	pair := func(a string, b string) [2]string {
		switch k / 3 {
		case 0:
			return [2]string{a, b}
		case 1:
			return [2]string{a + " " + b, "a"}
		case 2:
			return [2]string{"a", a + " " + b}
		default:
			return [2]string{a + " " + b, b + " " + a}
		}
	}
	return [2][2]string{pair("a", "b"+sep+"c"), pair("a"+sep+"b", "c")}
}

// Text cut in other places.
//
//verif:bounds two operations with two words each, which would be equal if the words were joined with nothing, any code point or any two one-byte code points between them; the words as object and property, both in one of them, or both in both; all remarks after each
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C03_split() {
	w := lib.NewWorld(lib.NewStore())
	k := nd.Shard(36)
	t := split(k % 12)
	w.Do(lib.OpStory, 0, t[0][0], t[0][1])
	w.CheckText(w.Remarks[0].R, 0)
	op := k / 12
	if op > 0 {
		op++
	}
	w.Do(op, 0, t[1][0], t[1][1])
	readAll(w)
}

// Text cut in other places.
//
//verif:bounds two operations with two words each, which would be equal if the words were joined with nothing, any code point or any two one-byte code points between them; the words as object and property, both in one of them, or both in both; the second remark read as returned and looked up
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C01_split() {
	w := lib.NewWorld(lib.NewStore())
	k := nd.Shard(24)
	t := split(k % 12)
	w.Do(lib.OpStory, 0, t[0][0], t[0][1])
	i := w.Do(2*(k/12), 0, t[1][0], t[1][1])
	w.CheckText(w.Remarks[i].R, i)
	w.CheckText(w.Fetch(w.G, i), i)
	nd.Cover("end")
}

// Reuse of text cut in other places.
//
//verif:bounds two operations with two words each, which would be equal if the words were joined with nothing, any code point or any two one-byte code points between them; the words as object and property, both in one of them, or both in both; nodes counted after the second, and after either of the two again
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C04_split() {
	s := lib.NewStore()
	w := lib.NewWorld(s)
	k := nd.Shard(24)
	t := split(k % 12)
	var st stored
	st.reuse(w, s, 0, t[0][0], t[0][1])
	st.reuse(w, s, 2, t[1][0], t[1][1])
	st.reuse(w, s, 0, t[k/12][0], t[k/12][1])
	nd.Cover("end")
}
