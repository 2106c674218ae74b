package lib

import "github.com/mem-memov/semnet/internal/zzverif/nd"

// Grow adds n remarks of every kind in a fixed order, so that stories, facts,
// siblings and words come to have many of everything.
func (w *World) Grow(n int) {
	letters := []string{"a", "b", "c", "d", "e", "f", "g"}
	for k := 0; k < n; k++ {
		o := letters[k%7]
		p := letters[k%5] + " " + letters[k%3] + letters[k%4]
		last := len(w.Remarks) - 1
		if last < 0 {
			w.Do(OpStory, 0, o, p)
			continue
		}
		switch k % 9 {
		case 0:
			w.Do(OpStory, 0, o, p)
		case 1, 2:
			w.Do(OpFact, last, o, p)
		case 3:
			w.Do(OpRemark, last, o, p)
		case 4:
			w.Do(OpFact, (k*5)%len(w.Remarks), o, p)
		case 5:
			w.Do(OpChild, (k*3)%len(w.Remarks), o, p)
		case 6:
			w.Do(OpChild, last/2, o, p)
		case 7:
			w.Do(OpFact, last, o, p)
		default:
			w.Do(OpRemark, (k*7)%len(w.Remarks), o, p)
		}
	}
}

// Size picks the size of a large store and one of the operations Any chooses
// from in it: any of them in one of n remarks, or one on any of four remarks of
// one of more.
func Size(n int, more int) (int, int) {
	k := nd.Shard(1 + 3*n + 12)
	if k <= 3*n {
		return n, k
	}
	k -= 3*n + 1
	return more, 1 + 3*[]int{0, more / 3, more - 3, more - 1}[k/3] + k%3
}
