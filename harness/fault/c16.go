package fault

import (
	"github.com/mem-memov/semnet"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

var firsts = [][2]string{{"a", "b"}, {"b a", "\u00e9 t"}, {"@ab", "\x01\x00"}, {"a", "a"}}

// A first use cut short.
//
//verif:bounds the first operation on an empty store with 4 texts; any one storage call failing, alone or with all that follow it; then the operation repeated, in the same or a newly opened graph, and three more operations, the last of them in a newly opened graph
func H_C16_cut() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	k := nd.Shard(16)
	t := firsts[k/4]
	if k%2 == 1 {
		f.FailN = 1 << 30
	}
	f.Fault = true
	r, err := w.Try(lib.OpStory, 0, t[0], t[1])
	f.Fault = false
	if !f.Failed {
		nd.Assert(err == nil, "a creating operation with valid text fails")
		return
	}
	nd.Assert(err != nil, "a storage failure is not reported")
	if k/2%2 == 1 {
		w.G = semnet.NewGraph(f)
	}
	nd.Cover("failed")
	f.Failed = false
	r, err = w.Try(lib.OpStory, 0, t[0], t[1])
	if err != nil {
		nd.Cover("error")
		return
	}
	j := w.Record(lib.OpStory, 0, r, t[0], t[1])
	w.CheckText(r, j)
	w.CheckText(w.Fetch(w.G, j), j)
	w.Do(lib.OpFact, 0, t[1], "c \u4e2d")
	w.Do(lib.OpChild, 1, "c", t[0])
	w.CheckAll()
	w.Reopen()
	w.Do(lib.OpRemark, 1, "", "ab @a")
	w.CheckAll()
	nd.Cover("end")
}

// Any text after a first use cut short.
//
//verif:bounds the first operation on an empty store cut short at any storage call; then, in the same or a newly opened graph, text with a code point of any value: the bits must not be mixed up
func H_C16_text() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	k := nd.Shard(4 * 7)
	l := k / 4
	k %= 4
	f.Fault = true
	_, err := w.Try(lib.OpStory, 0, "a", "b")
	f.Fault = false
	nd.Assume(f.Failed && f.Calls < 60)
	nd.Assert(err != nil, "a storage failure is not reported")
	if k%2 == 1 {
		w.G = semnet.NewGraph(f)
	}
	f.Failed = false
	o, p := "a", lib.LetterOfLen(l)
	if k/2 == 1 {
		o, p = p, "b"
	}
	r, err := w.Try(lib.OpStory, 0, o, p)
	if err != nil {
		nd.Cover("error")
		return
	}
	j := w.Record(lib.OpStory, 0, r, o, p)
	w.CheckText(r, j)
	w.Do(lib.OpFact, j, p, "ab")
	w.CheckText(w.Remarks[0].R, 0)
	w.CheckText(w.Remarks[1].R, 1)
	nd.Cover("end")
}

// A first use cut short twice.
//
//verif:bounds the first operation on an empty store cut short at any writing storage call among the first 44 calls (at any call in the thorough tier), repeated in the same or a newly opened graph and cut short again at any writing call (any call in the thorough tier), then repeated again, and all read in a newly opened graph
func H_C16_twice() {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	k := nd.Shard(4)
	for i := 0; i < 2; i++ {
		f.Fault = true
		f.Sparse = !nd.Thorough()
		_, err := w.Try(lib.OpStory, 0, "a", "b")
		f.Fault = false
		nd.Assume(f.Failed && (i == 1 || f.Calls < 45 || nd.Thorough()))
		nd.Assert(err != nil, "a storage failure is not reported")
		f.Failed = false
		if k>>uint(i)&1 == 1 {
			w.G = semnet.NewGraph(f)
		}
	}
	r, err := w.Try(lib.OpStory, 0, "a", "b")
	if err != nil {
		nd.Cover("error")
		return
	}
	w.Record(lib.OpStory, 0, r, "a", "b")
	w.Do(lib.OpFact, 0, "b a", "ab")
	w.Reopen()
	w.CheckAll()
	nd.Cover("end")
}
