// Package fault checks behaviour over storages that fail or answer oddly,
// through the public interface.
package fault

import (
	"github.com/mem-memov/semnet"
	abstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// base is a store with every kind of thing in it: a story of two facts, the
// first of two remarks, and two child stories.
func base(w *lib.World) {
	w.Do(lib.OpStory, 0, "a", "b a")
	w.Do(lib.OpFact, 0, "ab", "a")
	w.Do(lib.OpRemark, 0, "", "b")
	w.Do(lib.OpChild, 1, "b", "a b")
	w.Do(lib.OpChild, 0, "ba", "b")
}

// big is a store in which every chain and every list the operations go through
// is long: a story of eight facts, the first of two remarks, five child stories,
// phrases of up to five words, words with many continuations, and characters of
// 21 binary digits.
func big(w *lib.World) {
	w.Do(lib.OpStory, 0, "a b c d e", "\U0010FFFF\U00100000 a")
	w.Do(lib.OpRemark, 0, "", "a b d")
	for i := 0; i < 7; i++ {
		w.Do(lib.OpFact, i%3, "a b c d e", []string{"a b a", "a b b", "a b c", "a b ab", "a b abc", "a b acb", "a b ac"}[i])
	}
	for i := 0; i < 5; i++ {
		w.Do(lib.OpChild, 2*i, "ad", "a b a")
	}
}

const nOps = 4 + 12

// operate runs one of the operations of the library on remark i and tells
// whether it gave an error.
func operate(w *lib.World, k int, i int, o string, p string) error {
	var r abstractRemark.Aggregate
	if i >= 0 {
		r = w.Remarks[i].R
	}
	var err error
	switch k {
	case 0, 1, 2, 3:
		var x abstractRemark.Aggregate
		x, err = w.Try(k, i, o, p)
		if err == nil {
			nd.Assert(x != nil, "an operation gives neither a result nor an error")
		}
	case 4:
		var x semnet.Remark
		x, err = w.G.GetRemark(w.Remarks[i].ID)
		if err == nil {
			nd.Assert(x.Aggregate != nil, "an operation gives neither a result nor an error")
		}
	case 5:
		_, _, err = r.GetObjectAndProperty()
	case 6:
		_, err = r.GetFirstFact()
	case 7:
		_, err = r.HasNextFact()
	case 8:
		_, err = r.GetNextFact()
	case 9:
		_, err = r.HasNextStory()
	case 10:
		_, err = r.GetNextStory()
	case 11:
		_, err = r.HasNextRemark()
	case 12:
		_, err = r.GetNextRemark()
	case 13:
		_, err = w.Render(w.G, r)
	case 14:
		// a new graph opened over the store
		w.G = semnet.NewGraph(w.S)
		_, err = w.G.GetRemark(w.Remarks[i].ID)
	default:
		w.G = semnet.NewGraph(w.S)
		_, err = w.Try(lib.OpStory, i, o, p)
	}
	return err
}

// Any operation, any storage call of it failing.
//
//verif:bounds every operation on any of the 5 remarks of a store with two facts and two child stories; text known, partly known or new; any one storage call failing, with or without a result beside the error, the error of any of four kinds (plain, one that claims to be every other, io.EOF, without text)
func H_C13_any() {
	failAny(reported)
}

func failAny(judge func(f *lib.Wrap, err error)) {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	base(w)
	k := nd.Shard(nOps * 5)
	i := k / nOps
	k %= nOps
	o, p := "ab", "b a"
	if k < 4 || k == nOps-1 {
		switch nd.Choose(3) {
		case 1:
			o = "a ab"
		case 2:
			p = "ac b"
		}
	}
	kind := nd.Choose(2 + lib.NKinds)
	f.Real = kind >= lib.NKinds
	f.Kind = kind % lib.NKinds
	f.Fault = true
	err := operate(w, k, i, o, p)
	if f.Failed {
		judge(f, err)
		nd.Cover("failed")
	}
	nd.Cover("end")
}

// The first operation on an empty store.
//
//verif:bounds the first operation on an empty store, text of up to two words; any one storage call failing, with or without a result beside the error, the error of any of four kinds
func H_C13_first() {
	failFirst(reported)
}

func failFirst(judge func(f *lib.Wrap, err error)) {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	o, p := "a", "b a"
	if nd.Shard(2) == 1 {
		o, p = "\u00e9t", "\U0001F600"
	}
	kind := nd.Choose(2 + lib.NKinds)
	f.Real = kind >= lib.NKinds
	f.Kind = kind % lib.NKinds
	f.Fault = true
	_, err := w.Try(lib.OpStory, 0, o, p)
	if f.Failed {
		judge(f, err)
		nd.Cover("failed")
	}
	nd.Cover("end")
}

// The same over long chains and lists.
//
//verif:bounds every operation on any of 5 remarks of a store with a story of eight facts and five child stories, phrases of up to five words with seven continuations and characters of 21 digits; text known, partly known or new; any one storage call failing
func H_C13_long() {
	failLong(reported)
}

func failLong(judge func(f *lib.Wrap, err error)) {
	s := lib.NewStore()
	f := lib.NewWrap(s)
	w := lib.NewWorld(f)
	big(w)
	k := nd.Shard(3*5*4 + 5*9)
	o, p := "a b c d e", "\U0010FFFF\U00100000 ab"
	if k >= 60 {
		k -= 60
		f.Fault = true
		err := operate(w, 5+k/5, []int{0, 2, 7, 10, 13}[k%5], o, p)
		if f.Failed {
			judge(f, err)
			nd.Cover("read failed")
		}
		return
	}
	switch k / 20 {
	case 1:
		o = "a b c d e c"
		p = "a b ac ac"
	case 2:
		p = "a b adb"
		o = "ad"
	}
	k %= 20
	f.Fault = true
	err := operate(w, k%4, []int{0, 2, 7, 10, 13}[k/4], o, p)
	if f.Failed {
		judge(f, err)
		nd.Cover("failed")
	}
}

func reported(f *lib.Wrap, err error) {
	nd.Assert(err != nil, "a storage failure is not reported")
}
