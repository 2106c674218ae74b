// Package text checks what happens to text, through the public interface.
package text

import (
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// create runs one creating operation on text and checks what it gives back.
func create(w *lib.World, op int, i int, o string, p string) {
	if op == lib.OpRemark {
		o = w.Remarks[i].Object
	}
	j := w.Do(op, i, o, p)
	w.CheckText(w.Remarks[j].R, j)
	w.CheckText(w.Fetch(w.G, j), j)
	nd.ObserveStr("o", w.Remarks[j].Object)
	nd.ObserveStr("p", p)
	nd.Cover("end")
}

// Every creating operation, one code point of every value, the real character
// layer.
//
//verif:bounds one code point of any value as object or as property; every creating operation; nothing summarised
func H_C01_real() {
	w := lib.NewWorld(lib.NewStore())
	k := nd.Shard(8)
	op := k % 4
	i := 0
	if op != lib.OpStory {
		i = w.Do(lib.OpStory, 0, "a", "b c")
	}
	o, p := "a", lib.Text("?")
	if k < 4 && op != lib.OpRemark {
		o, p = p, o
	}
	create(w, op, i, o, p)
}

var pairs = [][2]string{
	{"??", "?"}, {"?", "??"}, {"? ?", "?"}, {"?", "? ?"}, {"__", "??"}, {"_ _", "__"}, {"__", "_ _"},
	{"_ _", "? _"}, {"_ _ _", "_"}, {"___", "_"}, {"_ __", "_"}, {"__ _", "_"}, {"_", "_ _ _"},
	{"a?b", "b?a"}, {"ab a?", "a? ab"}, {"?b ab", "_a"}, {"_b _b", "b_"},
	{"abcdefghijklmnop?rstuvwxyz", "abcdefghijklmnopqrstuvwxyz"},
	{"the quick brown fox", "jumps over the lazy dog ? d"},
	{"a b c d e f g h i _ k", "a b c d e f g h i j _"},
	{"____", "a"}, {"a", "____"}, {"???", "a"}, {"a", "???"}, {"_____", "a"},
	{"\u00e9?", "?\U0001F600"}, {"\u4e2d\u6587 ?", "\uFFFD?"}, {"\u00a0_", "_\t\n"},
}

var morePairs = [][2]string{
	{"______", "a"}, {"????", "a"}, {"__ ___", "a"}, {"???", "?"}, {"? ? ?", "?"}, {"?? ?", "?"}, {"? ??", "?"}, {"____", "_"}, {"_ _", "_ _ _"}, {"__ __", "_"},
	{"_", "_ _ _ _"}, {"___", "__"}, {"__", "___"}, {"_ _ _", "_ _"}, {"_ __", "_ _"},
	{"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa?aaaaaaaaaaaaaaaaaaaaaaaa", "a a a a a a a a a a a a a a a a a ? a a a a a a"},
	{"abcdefghijklmnop?rstuvwxyz", "?bcdefghijklmnopqrstuvwxyz"},
	{"the quick brown fox jumps over the lazy ?og", "the quick brown fox jumps over the lazy dog ? d"},
	{"?a a?", "a? ?a"}, {"a_a_a", "_a_a_"},
}

// Every creating operation, text of several symbols and words.
//
//verif:bounds 28 text patterns (48 in the thorough tier) of up to 5 (6) symbolic code points (any value, or any one-byte value) among up to 55 fixed ones and up to 24 words; every creating operation
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C01_words() {
	ps := pairs
	if nd.Thorough() {
		ps = append(ps, morePairs...)
	}
	w := lib.NewWorld(lib.NewStore())
	k := nd.Shard(4 * len(ps))
	op := k % 4
	i := 0
	if op != lib.OpStory {
		i = w.Do(lib.OpStory, 0, "ab a", "b c")
	}
	o := lib.Text(ps[k/4][0])
	p := lib.Text(ps[k/4][1])
	create(w, op, i, o, p)
}

// Text of remarks made from any handle.
//
//verif:bounds every history of a story and 3 further operations (4 in the thorough tier) of any kind, each on any remark as held, as looked up, or as a step from another one gives it, each with text of its own; all text read after each
func H_C01_from() {
	w := lib.NewWorld(lib.NewStore())
	n := 3
	if nd.Thorough() {
		n = 4
	}
	k := nd.Shard(28 * 3)
	way := k % 3
	k /= 3
	w.Do(lib.OpStory, 0, "o", "p")
	for i := 0; i < n; i++ {
		op := k % 4
		switch i {
		case 1:
			op = k / 4
		case 2, 3:
			op, way = nd.Choose(1+3*len(w.Remarks)), nd.Choose(3)
		}
		if op > 0 {
			j := (op - 1) / 3
			switch way {
			case 1:
				w.Remarks[j].R = w.Fetch(w.G, j)
			case 2:
				w.Remarks[j].R = w.Stepped(j)
			}
		}
		w.Nth(op, []string{"a", "b", "c", "d"}[i], []string{"ap", "bp", "cp", "dp"}[i])
		for j := range w.Remarks {
			w.CheckText(w.Remarks[j].R, j)
		}
	}
	for j := range w.Remarks {
		w.CheckText(w.Stepped(j), j)
		w.CheckText(w.Fetch(w.G, j), j)
	}
	nd.Cover("end")
}
