package text

import (
	"unicode/utf8"

	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// valid tells whether text is made of non-empty valid UTF-8 words separated by
// single spaces.
func valid(text string) bool {
	prev := byte(' ')
	for i := 0; i < len(text); i++ {
		if nd.Fork(text[i] == ' ') {
			if prev == ' ' {
				return false
			}
			prev = ' '
		} else {
			prev = 'x'
		}
	}
	if prev == ' ' {
		return false
	}
	return nd.Fork(utf8.ValidString(text))
}

// offer runs an operation on text of any kind and checks that it is taken or
// rejected as it should be.
func offer(w *lib.World, op int, i int, o string, p string, checkO bool, checkP bool) {
	before := make([]lib.Place, len(w.Remarks))
	for j := range w.Remarks {
		before[j] = lib.See(w.Remarks[j].R)
	}
	ok := true
	if checkO && !valid(o) {
		ok = false
	}
	if ok && checkP && !valid(p) {
		ok = false
	}
	r, err := w.Try(op, i, o, p)
	if ok {
		nd.Cover("valid")
		nd.Assert(err == nil, "valid text is rejected")
		if op == lib.OpRemark {
			o = w.Remarks[i].Object
		}
		j := w.Record(op, i, r, o, p)
		w.CheckText(w.Remarks[j].R, j)
		return
	}
	nd.Cover("invalid")
	nd.Assert(err != nil, "text that cannot be stored is accepted")
	nd.Assert(r == nil, "a rejected text gives a remark")
	for j := range before {
		before[j].CheckSame(w.Remarks[j].R)
	}
	_, err = w.Try(op, i, o, p)
	nd.Assert(err != nil, "text that cannot be stored is accepted the second time")
	n := w.Do(op, i, "a c", "b c")
	w.CheckText(w.Remarks[n].R, n)
	w.CheckText(w.Remarks[0].R, 0)
	r, err = w.Try(op, n, o, p)
	nd.Assert(err != nil, "text that cannot be stored is accepted later on")
	nd.Assert(r == nil, "a rejected text gives a remark")
	for j := range before {
		if op == lib.OpStory || op == lib.OpRemark {
			before[j].CheckSame(w.Remarks[j].R)
		}
	}
}

// Any bytes.
//
//verif:bounds object or property of up to 3 bytes (4 in the thorough tier) of any values, the other one fixed; every creating operation
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C05_bytes() {
	w := lib.NewWorld(lib.NewStore())
	n := 4
	if nd.Thorough() {
		n = 5
	}
	k := nd.Shard(7 * n)
	n = k / 7
	k %= 7
	w.Do(lib.OpStory, 0, "a", "b a")
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.Byte()
	}
	if k < 4 {
		offer(w, k, 0, "a", string(b), false, true)
	} else {
		op := k - 4
		if op >= lib.OpRemark {
			op++
		}
		offer(w, op, 0, string(b), "b", true, false)
	}
}

// any byte at one place of longer text
var holes = []string{"a b*c d", "*ab", "ab *", "a *b", "ab* ab", "\u4e2d*\u6587", "a *"}

// Any byte inside longer text.
//
//verif:bounds one byte (two adjacent ones in the thorough tier) of any value at 7 places in text of several words; every creating operation, as object or property
//verif:redirect (*MOD/internal/concrete/character.Repository).Provide=>MOD/internal/zzverif/lib.CharProvide; (MOD/internal/concrete/character.Aggregate).Extract=>MOD/internal/zzverif/lib.CharExtract
func H_C05_inside() {
	w := lib.NewWorld(lib.NewStore())
	k := nd.Shard(7 * len(holes))
	h := holes[k/7]
	k %= 7
	w.Do(lib.OpStory, 0, "a", "b a")
	var b []byte
	for i := 0; i < len(h); i++ {
		if h[i] == '*' {
			b = append(b, nd.Byte())
			if nd.Thorough() {
				b = append(b, nd.Byte())
			}
			continue
		}
		b = append(b, h[i])
	}
	if k < 4 {
		offer(w, k, 0, "a", string(b), false, true)
	} else {
		op := k - 4
		if op >= lib.OpRemark {
			op++
		}
		offer(w, op, 0, string(b), "b", true, false)
	}
}

var bad = []string{"", " ", "  ", " a", "a ", "a  b", "a b ", " a b", "a b  c", "a \xff", "\xc3", "\xe4\xb8", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "b\x80 a"}

// Both texts, the real character layer.
//
//verif:bounds 16 kinds of unrepresentable text, as object, as property and as both; every creating operation on two different remarks; nothing summarised
func H_C05_both() {
	w := lib.NewWorld(lib.NewStore())
	k := nd.Shard(len(bad))
	w.Do(lib.OpStory, 0, "a", "b a")
	w.Do(lib.OpChild, 0, "a b", "b")
	op := nd.Choose(4)
	i := nd.Choose(2)
	switch nd.Choose(3) {
	case 0:
		offer(w, op, i, bad[k], bad[nd.Choose(len(bad))], op != lib.OpRemark, true)
	case 1:
		offer(w, op, i, "a", bad[k], false, true)
	default:
		offer(w, op, i, bad[k], "a", op != lib.OpRemark, true)
	}
}

var again = []string{"", "a b ", "a  b", "a \xff", "\xc3"}

// The first operation of all.
//
//verif:bounds an empty store; 16 kinds of unrepresentable text, as object, as property and as both, and up to one of 5 kinds after it, in the same or a newly opened graph; then two operations with valid text; nothing summarised
func H_C05_start() {
	w := lib.NewWorld(lib.NewStore())
	k := nd.Shard(3 * len(bad))
	try := func(b string, how int) {
		o, p := "a b", "c"
		if how != 1 {
			o = b
		}
		if how != 0 {
			p = b
		}
		r, err := w.Try(lib.OpStory, 0, o, p)
		nd.Assert(err != nil, "text that cannot be stored is accepted")
		nd.Assert(r == nil, "a rejected text gives a remark")
	}
	try(bad[k/3], k%3)
	switch nd.Choose(3) {
	case 1:
		try(again[nd.Choose(len(again))], k%2)
	case 2:
		w.Reopen()
		try(again[nd.Choose(len(again))], k%2)
	}
	if nd.Choose(2) == 1 {
		w.Reopen()
	}
	w.Do(lib.OpStory, 0, "a b", "\x01")
	w.Do(lib.OpStory+k%4, 0, "c", "a b")
	w.CheckAll()
	nd.Cover("end")
}
