package fault

import (
	"github.com/mem-memov/semnet/internal/zzverif/lib"
	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

// passedOn checks that an operation that met a failure ended with it.
func passedOn(f *lib.Wrap, err error) {
	if err == nil { // that is for C13
		return
	}
	nd.Assert(f.Reports(err), "the error is not the one the storage gave")
	nd.Assert(f.After == 0, "an operation writes on after a storage failure")
}

// Any operation, any storage call of it failing.
//
//verif:bounds every operation on any of the 5 remarks of a store with two facts and two child stories; text known, partly known or new; any one storage call failing, with or without a result beside the error, the error of any of four kinds (plain, one that claims to be every other, io.EOF, without text)
func H_C26_any() {
	failAny(passedOn)
}

// The first operation on an empty store.
//
//verif:bounds the first operation on an empty store, text of up to two words; any one storage call failing, with or without a result beside the error, the error of any of four kinds
func H_C26_first() {
	failFirst(passedOn)
}

// The same over long chains and lists.
//
//verif:bounds every operation on any of 5 remarks of a store with a story of eight facts and five child stories, phrases of up to five words with seven continuations and characters of 21 digits; text known, partly known or new; any one storage call failing
func H_C26_long() {
	failLong(passedOn)
}
