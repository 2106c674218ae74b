// Package nd is the harness's view of nondeterminism. The bodies here are the
// native ones, used to replay a solver model on the compiled code; the
// symbolic engine gives every function except SwapStub its own meaning.
package nd

import (
	"encoding/hex"
	"os"
	"strconv"
	"strings"
)

// Stop ends a native run.
type Stop struct {
	Status string
	Msg    string
}

var (
	vec      []uint64
	pos      int
	obs      []string
	known    map[string]bool
	thorough bool
)

// Begin prepares a native run.
func Begin(v []uint64) {
	vec, pos, obs = v, 0, nil
	known = map[string]bool{}
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k != "" {
			known[k] = true
		}
	}
	thorough = os.Getenv("VERIF_TH") == "true"
}

// Observations returns what the run recorded.
func Observations() []string { return obs }

func next() uint64 {
	if pos >= len(vec) {
		panic(Stop{"exhausted", "the run asks for more values than the model has"})
	}
	v := vec[pos]
	pos++
	return v
}

func Byte() byte { return byte(next()) }

func Rune() rune { return rune(uint32(next())) }

func Uint() uint { return uint(next()) }

func Bool() bool { return next() != 0 }

// Range is a symbolic integer in [lo, hi].
func Range(lo int, hi int) int {
	v := next()
	if v > uint64(hi-lo) {
		panic(Stop{"assume", "range"})
	}
	return lo + int(v)
}

// Choose is one of n alternatives explored apart.
func Choose(n int) int {
	if n <= 0 {
		panic(Stop{"assume", "choose"})
	}
	v := next()
	if v >= uint64(n) {
		panic(Stop{"assume", "choose"})
	}
	return int(v)
}

// Shard is Choose, with the alternatives run as separate jobs.
func Shard(n int) int { return Choose(n) }

func Assume(c bool) {
	if !c {
		panic(Stop{"assume", ""})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(Stop{"violation", msg})
	}
}

// Finding reports bad as the known finding id if it is listed, and as a
// violation if it is not.
func Finding(id string, bad bool, msg string) {
	if !bad {
		return
	}
	if known[id] {
		panic(Stop{"finding", id})
	}
	panic(Stop{"violation", msg})
}

func Cover(label string) {}

func Observe(label string, v uint) { obs = append(obs, label+"="+strconv.FormatUint(uint64(v), 10)) }

func ObserveBool(label string, v bool) {
	if v {
		obs = append(obs, label+"=1")
	} else {
		obs = append(obs, label+"=0")
	}
}

func ObserveStr(label string, v string) {
	obs = append(obs, label+"="+hex.EncodeToString([]byte(v)))
}

func IsConcrete(v uint) bool { return true }

func Thorough() bool { return thorough }

func Symbolic() bool { return false }

func Known(id string) bool { return known[id] }

// Split decides a boolean now instead of carrying it symbolically.
func Split(c bool) bool { return c }

// Fork is Split with the two sides never merged again.
func Fork(c bool) bool { return c }

// SwapStub is what reflect.Swapper returns in the symbolic engine: its free
// slice variable is bound by the engine.
func SwapStub(i int, j int) {}
