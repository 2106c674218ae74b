package lib

import "github.com/mem-memov/semnet/internal/zzverif/nd"

// Scalar is any code point a word can hold.
func Scalar() rune {
	r := nd.Rune()
	nd.Assume(r >= 0 && r <= 0x10FFFF && (r < 0xD800 || r > 0xDFFF) && r != ' ')
	if nd.Fork(r < 0x80) {
		return r
	}
	if nd.Fork(r < 0x800) {
		return r
	}
	nd.Fork(r < 0x10000)
	return r
}

// Letter is any one-byte code point a word can hold.
func Letter() rune {
	r := nd.Rune()
	nd.Assume(r >= 0 && r < 0x80 && r != ' ')
	return r
}

// Text makes text from a pattern: '?' is any code point, '_' any one-byte code
// point, anything else is itself.
func Text(pattern string) string {
	r := []rune(pattern)
	for i := range r {
		switch r[i] {
		case '?':
			r[i] = Scalar()
		case '_':
			r[i] = Letter()
		}
	}
	return string(r)
}

// LetterOfLen is a text of any one-byte code point with k+1 binary digits.
func LetterOfLen(k int) string {
	r := Letter()
	nd.Assume(r < 2<<uint(k))
	if k > 0 {
		nd.Assume(r >= 1<<uint(k))
	}
	return string(r)
}
