package main

// Hash-consed SMT terms over Bool and fixed-width bit-vectors (width <= 64),
// with constant folding, light rewriting and unsigned interval bounds.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OExtract
	OConcat
	OZExt
	OSExt
)

var opSMT = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
}

// Term is immutable and unique within its Ctx. w==0 means Bool.
type Term struct {
	op     Op
	w      uint8
	a, b   uint8 // extract hi, lo
	id     int32
	args   [3]*Term
	val    uint64 // constant value, or variable index
	lo, hi uint64 // unsigned bounds (w>0)
	name   string
	vm     uint64 // which variables occur (hashed)
}

type tkey struct {
	op      Op
	w, a, b uint8
	x, y, z int32
	val     uint64
}

type Ctx struct {
	tab    map[tkey]*Term
	terms  []*Term
	vars   []*Term
	tTrue  *Term
	tFalse *Term
	small  [9][256]*Term
	memo   []uint64
	gen    []uint32
	cur    uint32
	supp   map[*Term][]*Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}}
	c.tTrue = c.mk(Term{op: OConst, w: 0, val: 1})
	c.tFalse = c.mk(Term{op: OConst, w: 0, val: 0})
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *Ctx) mk(t Term) *Term {
	k := tkey{t.op, t.w, t.a, t.b, tid(t.args[0]), tid(t.args[1]), tid(t.args[2]), t.val}
	if r, ok := c.tab[k]; ok {
		return r
	}
	n := new(Term)
	*n = t
	n.id = int32(len(c.terms))
	n.bounds()
	if n.op == OVar {
		n.vm = 1 << (uint(n.val) % 64)
	}
	for _, a := range n.args {
		if a != nil {
			n.vm |= a.vm
		}
	}
	c.tab[k] = n
	c.terms = append(c.terms, n)
	return n
}

func (t *Term) bounds() {
	if t.w == 0 {
		return
	}
	m := mask(t.w)
	t.lo, t.hi = 0, m
	a, b := t.args[0], t.args[1]
	switch t.op {
	case OConst:
		t.lo, t.hi = t.val, t.val
	case OIte:
		x, y := t.args[1], t.args[2]
		t.lo, t.hi = min(x.lo, y.lo), max(x.hi, y.hi)
	case OAdd:
		s, cy := bits.Add64(a.hi, b.hi, 0)
		if cy == 0 && s <= m {
			t.lo, t.hi = a.lo+b.lo, s
		}
	case OSub:
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OMul:
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = a.lo*b.lo, l
		}
	case OBAnd:
		t.hi = min(a.hi, b.hi)
	case OBOr, OBXor:
		n := max(bits.Len64(a.hi), bits.Len64(b.hi))
		t.hi = mask(uint8(n))
		if t.op == OBOr {
			t.lo = max(a.lo, b.lo)
		}
	case OShl:
		if b.op == OConst && b.val < 64 && bits.Len64(a.hi)+int(b.val) <= int(t.w) {
			t.lo, t.hi = a.lo<<b.val, a.hi<<b.val
		}
	case OLShr:
		if b.op == OConst {
			if b.val >= 64 {
				t.lo, t.hi = 0, 0
			} else {
				t.lo, t.hi = a.lo>>b.val, a.hi>>b.val
			}
		} else {
			t.hi = a.hi
		}
	case OURem:
		if b.lo > 0 {
			t.hi = min(b.hi-1, a.hi)
		}
	case OUDiv:
		if b.op == OConst && b.val > 0 {
			t.lo, t.hi = a.lo/b.val, a.hi/b.val
		}
	case OZExt:
		t.lo, t.hi = a.lo, a.hi
	case OSExt:
		if a.hi <= mask(a.w)>>1 {
			t.lo, t.hi = a.lo, a.hi
		}
	case OExtract:
		if t.b == 0 && a.hi <= m {
			t.lo, t.hi = a.lo, a.hi
		}
	case OConcat:
		t.lo, t.hi = a.lo<<b.w|b.lo, a.hi<<b.w|b.hi
	}
}

func (c *Ctx) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if w == 8 && v < 256 {
		if r := c.small[8][v]; r != nil {
			return r
		}
		r := c.mk(Term{op: OConst, w: w, val: v})
		c.small[8][v] = r
		return r
	}
	return c.mk(Term{op: OConst, w: w, val: v})
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

func (c *Ctx) Var(w uint8, name string) *Term {
	t := c.mk(Term{op: OVar, w: w, val: uint64(len(c.vars)), name: name})
	t.name = name
	c.vars = append(c.vars, t)
	return t
}

func (t *Term) isC() bool { return t.op == OConst }

func (c *Ctx) Not(a *Term) *Term {
	if a == c.tTrue {
		return c.tFalse
	}
	if a == c.tFalse {
		return c.tTrue
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(Term{op: ONot, args: [3]*Term{a}})
}

func (c *Ctx) And(a, b *Term) *Term {
	if a == c.tFalse || b == c.tFalse {
		return c.tFalse
	}
	if a == c.tTrue || a == b {
		return b
	}
	if b == c.tTrue {
		return a
	}
	if c.Not(a) == b {
		return c.tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OAnd, args: [3]*Term{a, b}})
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a == c.tTrue || b == c.tTrue {
		return c.tTrue
	}
	if a == c.tFalse || a == b {
		return b
	}
	if b == c.tFalse {
		return a
	}
	if c.Not(a) == b {
		return c.tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OOr, args: [3]*Term{a, b}})
}

// splitAdd views t as base+const.
func splitAdd(t *Term) (*Term, uint64) {
	if t.op == OAdd && t.args[1].isC() {
		return t.args[0], t.args[1].val
	}
	return t, 0
}

func (c *Ctx) iteConsts(t *Term) bool {
	return t.op == OIte && (t.args[1].isC() || t.args[2].isC())
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.isC() && b.isC() {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a == c.tTrue {
			return b
		}
		if b == c.tTrue {
			return a
		}
		if a == c.tFalse {
			return c.Not(b)
		}
		if b == c.tFalse {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.tFalse
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return c.tFalse
		}
		if a.isC() {
			a, b = b, a
		}
		ab, ac := splitAdd(a)
		bb, bc := splitAdd(b)
		if ab == bb && !ab.isC() {
			return c.Bool((ac-bc)&mask(a.w) == 0)
		}
		if b.isC() && ac != 0 {
			return c.Eq(ab, c.Const(a.w, b.val-ac))
		}
		if b.isC() && a.w == 1 && b.val == 0 && a.op != OIte {
			return c.Not(c.Eq(a, c.Const(1, 1)))
		}
		if b.isC() {
			switch a.op {
			case OZExt:
				x := a.args[0]
				if b.val > mask(x.w) {
					return c.tFalse
				}
				return c.Eq(x, c.Const(x.w, b.val))
			case OConcat:
				h, l := a.args[0], a.args[1]
				return c.And(c.Eq(h, c.Const(h.w, b.val>>l.w)), c.Eq(l, c.Const(l.w, b.val)))
			}
		}
		if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
			return c.Eq(a.args[0], b.args[0])
		}
		// push into ite when that decides at least one arm
		if a.op == OIte {
			x, y := c.Eq(a.args[1], b), c.Eq(a.args[2], b)
			if x.isC() || y.isC() {
				return c.Ite(a.args[0], x, y)
			}
		}
		if b.op == OIte {
			x, y := c.Eq(a, b.args[1]), c.Eq(a, b.args[2])
			if x.isC() || y.isC() {
				return c.Ite(b.args[0], x, y)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OEq, args: [3]*Term{a, b}})
}

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k == c.tTrue || a == b {
		return a
	}
	if k == c.tFalse {
		return b
	}
	if k.op == ONot {
		return c.Ite(k.args[0], b, a)
	}
	if a.w == 0 {
		if a == c.tTrue {
			return c.Or(k, b)
		}
		if a == c.tFalse {
			return c.And(c.Not(k), b)
		}
		if b == c.tTrue {
			return c.Or(c.Not(k), a)
		}
		if b == c.tFalse {
			return c.And(k, a)
		}
	}
	if a.op == OIte && a.args[0] == k {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == k {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.w == 1 && a.isC() && b.isC() && a.val == 1 && k.op == OEq && k.args[0].w == 1 {
		// k is x = 1
		if k.args[0] == a {
			return k.args[1]
		}
		if k.args[1] == a {
			return k.args[0]
		}
	}
	if a.w > 1 {
		// pull equal halves out
		lw := uint8(0)
		if a.op == OConcat {
			lw = a.args[1].w
		} else if b.op == OConcat {
			lw = b.args[1].w
		}
		if lw > 0 {
			ah, al, ok1 := c.splitAt(a, lw)
			bh, bl, ok2 := c.splitAt(b, lw)
			if ok1 && ok2 && (ah == bh || al == bl) {
				return c.Concat(c.Ite(k, ah, bh), c.Ite(k, al, bl))
			}
		}
	}
	return c.mk(Term{op: OIte, w: a.w, args: [3]*Term{k, a, b}})
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

// Bin builds a bit-vector operation (operands of equal width).
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	m := mask(w)
	if a.isC() && b.isC() {
		x, y := a.val, b.val
		sx, sy := sext(x, w), sext(y, w)
		switch op {
		case OAdd:
			return c.Const(w, x+y)
		case OSub:
			return c.Const(w, x-y)
		case OMul:
			return c.Const(w, x*y)
		case OUDiv:
			if y != 0 {
				return c.Const(w, x/y)
			}
		case OURem:
			if y != 0 {
				return c.Const(w, x%y)
			}
		case OSDiv:
			if y != 0 && sy != -1 {
				return c.Const(w, uint64(sx/sy))
			} else if sy == -1 {
				return c.Const(w, -x)
			}
		case OSRem:
			if y != 0 && sy != -1 {
				return c.Const(w, uint64(sx%sy))
			} else if sy == -1 {
				return c.Const(w, 0)
			}
		case OBAnd:
			return c.Const(w, x&y)
		case OBOr:
			return c.Const(w, x|y)
		case OBXor:
			return c.Const(w, x^y)
		case OShl:
			if y >= uint64(w) {
				return c.Const(w, 0)
			}
			return c.Const(w, x<<y)
		case OLShr:
			if y >= uint64(w) {
				return c.Const(w, 0)
			}
			return c.Const(w, x>>y)
		case OAShr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return c.Const(w, uint64(sx>>y))
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isC() {
			a, b = b, a
		}
	}
	if b.isC() {
		y := b.val
		switch op {
		case OAdd:
			if y == 0 {
				return a
			}
			if ab, ac := splitAdd(a); ac != 0 {
				return c.Bin(OAdd, ab, c.Const(w, ac+y))
			}
			if a.op == OIte && a.args[1].isC() && a.args[2].isC() {
				return c.Ite(a.args[0], c.Bin(OAdd, a.args[1], b), c.Bin(OAdd, a.args[2], b))
			}
		case OSub:
			return c.Bin(OAdd, a, c.Const(w, -y))
		case OMul:
			if y == 0 {
				return b
			}
			if y == 1 {
				return a
			}
		case OUDiv:
			if y == 1 {
				return a
			}
			if y != 0 && y&(y-1) == 0 {
				return c.Bin(OLShr, a, c.Const(w, uint64(bits.TrailingZeros64(y))))
			}
		case OURem:
			if y != 0 && y&(y-1) == 0 {
				return c.Bin(OBAnd, a, c.Const(w, y-1))
			}
		case OBAnd:
			if y == 0 {
				return b
			}
			if y == m {
				return a
			}
			// low mask: zext(extract)
			if y&(y+1) == 0 {
				n := uint8(bits.Len64(y))
				if a.hi <= y {
					return a
				}
				return c.ZExt(c.Extract(n-1, 0, a), w)
			}
		case OBOr, OBXor:
			if y == 0 {
				return a
			}
			if op == OBOr && y == m {
				return b
			}
		case OShl:
			if y == 0 {
				return a
			}
			if y >= uint64(w) {
				return c.Const(w, 0)
			}
			return c.Concat(c.Extract(w-1-uint8(y), 0, a), c.Const(uint8(y), 0))
		case OLShr:
			if y == 0 {
				return a
			}
			if y >= uint64(w) {
				return c.Const(w, 0)
			}
			return c.ZExt(c.Extract(w-1, uint8(y), a), w)
		case OAShr:
			if y == 0 {
				return a
			}
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return c.SExt(c.Extract(w-1, uint8(y), a), w)
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return c.Const(w, 0)
		case OBAnd, OBOr:
			return a
		}
	}
	if op == OSub {
		ab, ac := splitAdd(a)
		bb, bc := splitAdd(b)
		if ab == bb {
			return c.Const(w, ac-bc)
		}
	}
	if op == OBOr {
		// disjoint or of concat(x,0) with narrow y: concat
		if r := c.orConcat(a, b); r != nil {
			return r
		}
		if r := c.orConcat(b, a); r != nil {
			return r
		}
	}
	if op == OAdd {
		if r := c.orConcat(a, b); r != nil {
			return r
		}
		if r := c.orConcat(b, a); r != nil {
			return r
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if !b.isC() && a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(Term{op: op, w: w, args: [3]*Term{a, b}})
}

// orConcat: a = concat(x, 0_n), b < 2^n  =>  concat(x, extract(n-1,0,b))
func (c *Ctx) splitAt(t *Term, lw uint8) (*Term, *Term, bool) {
	switch t.op {
	case OConst:
		return c.Const(t.w-lw, t.val>>lw), c.Const(lw, t.val), true
	case OConcat:
		if t.args[1].w == lw {
			return t.args[0], t.args[1], true
		}
	case OZExt:
		if t.args[0].w <= lw {
			return c.Const(t.w-lw, 0), c.ZExt(t.args[0], lw), true
		}
	}
	return nil, nil, false
}

func (c *Ctx) orConcat(a, b *Term) *Term {
	var x *Term
	var n uint8
	if a.op == OConcat && a.args[1].isC() && a.args[1].val == 0 {
		x, n = a.args[0], a.args[1].w
	} else if a.op == OZExt && a.args[0].op == OConcat && a.args[0].args[1].isC() && a.args[0].args[1].val == 0 {
		in := a.args[0]
		n = in.args[1].w
		x = c.ZExt(in.args[0], a.w-n)
	} else {
		return nil
	}
	if b.hi > mask(n) {
		return nil
	}
	return c.Concat(x, c.Extract(n-1, 0, b))
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.tFalse
	}
	if a.hi < b.lo {
		return c.tTrue
	}
	if a.lo >= b.hi {
		return c.tFalse
	}
	if b.isC() && a.op == OZExt && b.val <= mask(a.args[0].w) {
		return c.Ult(a.args[0], c.Const(a.args[0].w, b.val))
	}
	if a.isC() && b.op == OZExt && a.val <= mask(b.args[0].w) {
		return c.Ult(c.Const(b.args[0].w, a.val), b.args[0])
	}
	return c.mk(Term{op: OUlt, args: [3]*Term{a, b}})
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	w := a.w
	if a == b {
		return c.tFalse
	}
	if a.isC() && b.isC() {
		return c.Bool(sext(a.val, w) < sext(b.val, w))
	}
	half := mask(w) >> 1
	if a.hi <= half && b.hi <= half {
		return c.Ult(a, b)
	}
	if a.lo > half && b.hi <= half {
		return c.tTrue
	}
	if a.hi <= half && b.lo > half {
		return c.tFalse
	}
	return c.mk(Term{op: OSlt, args: [3]*Term{a, b}})
}

func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Extract(hi, lo uint8, a *Term) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return c.Const(w, a.val>>lo)
	case OExtract:
		return c.Extract(hi+a.b, lo+a.b, a.args[0])
	case OZExt:
		x := a.args[0]
		if hi < x.w {
			return c.Extract(hi, lo, x)
		}
		if lo >= x.w {
			return c.Const(w, 0)
		}
		return c.ZExt(c.Extract(x.w-1, lo, x), w)
	case OSExt:
		x := a.args[0]
		if hi < x.w {
			return c.Extract(hi, lo, x)
		}
	case OConcat:
		h, l := a.args[0], a.args[1]
		if hi < l.w {
			return c.Extract(hi, lo, l)
		}
		if lo >= l.w {
			return c.Extract(hi-l.w, lo-l.w, h)
		}
		return c.Concat(c.Extract(hi-l.w, 0, h), c.Extract(l.w-1, lo, l))
	case OIte:
		if a.args[1].isC() && a.args[2].isC() {
			return c.Ite(a.args[0], c.Extract(hi, lo, a.args[1]), c.Extract(hi, lo, a.args[2]))
		}
	}
	return c.mk(Term{op: OExtract, w: w, a: hi, b: lo, args: [3]*Term{a}})
}

func (c *Ctx) Concat(h, l *Term) *Term {
	w := h.w + l.w
	if h.isC() && l.isC() {
		return c.Const(w, h.val<<l.w|l.val)
	}
	if h.isC() && h.val == 0 {
		return c.ZExt(l, w)
	}
	if h.op == OExtract && l.op == OExtract && h.args[0] == l.args[0] && h.b == l.a+1 {
		return c.Extract(h.a, l.b, h.args[0])
	}
	if h.op == OZExt {
		return c.ZExt(c.Concat(h.args[0], l), w)
	}
	// concat(h, concat(l1, l2)) -> concat(concat(h,l1), l2)
	if l.op == OConcat {
		return c.Concat(c.Concat(h, l.args[0]), l.args[1])
	}
	// adjacent extracts hidden in left operand
	if h.op == OConcat && h.args[1].op == OExtract && l.op == OExtract && h.args[1].args[0] == l.args[0] && h.args[1].b == l.a+1 {
		return c.Concat(h.args[0], c.Extract(h.args[1].a, l.b, l.args[0]))
	}
	return c.mk(Term{op: OConcat, w: w, args: [3]*Term{h, l}})
}

func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return c.Extract(w-1, 0, a)
	}
	if a.isC() {
		return c.Const(w, a.val)
	}
	if a.op == OZExt {
		return c.ZExt(a.args[0], w)
	}
	if a.op == OIte && a.args[1].isC() && a.args[2].isC() {
		return c.Ite(a.args[0], c.ZExt(a.args[1], w), c.ZExt(a.args[2], w))
	}
	return c.mk(Term{op: OZExt, w: w, args: [3]*Term{a}})
}

func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return c.Extract(w-1, 0, a)
	}
	if a.isC() {
		return c.Const(w, uint64(sext(a.val, a.w)))
	}
	if a.hi <= mask(a.w)>>1 {
		return c.ZExt(a, w)
	}
	return c.mk(Term{op: OSExt, w: w, args: [3]*Term{a}})
}

// ---- evaluation under a model ----

type Model map[int32]uint64 // var term id -> value

type evaluator struct {
	m    Model
	memo map[*Term]uint64
}

func (e *evaluator) ev(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return e.m[t.id] & maskB(t.w)
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.ev1(t)
	e.memo[t] = v
	return v
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) ev1(t *Term) uint64 { return evalOp(t, e.ev) }

func evalOp(t *Term, ev func(*Term) uint64) uint64 {
	A := func(i int) uint64 { return ev(t.args[i]) }
	m := maskB(t.w)
	switch t.op {
	case ONot:
		return 1 - A(0)
	case OAnd:
		if A(0) == 0 {
			return 0
		}
		return A(1)
	case OOr:
		if A(0) == 1 {
			return 1
		}
		return A(1)
	case OEq:
		return b2u(A(0) == A(1))
	case OIte:
		if A(0) == 1 {
			return A(1)
		}
		return A(2)
	case OExtract:
		return (A(0) >> t.b) & m
	case OConcat:
		return A(0)<<t.args[1].w | A(1)
	case OZExt:
		return A(0)
	case OSExt:
		return uint64(sext(A(0), t.args[0].w)) & m
	}
	x, y := A(0), A(1)
	w := t.args[0].w
	sx, sy := sext(x, w), sext(y, w)
	switch t.op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		if y == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return (-x) & m
		}
		return uint64(sx/sy) & m
	case OSRem:
		if y == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sx < sy)
	case OSle:
		return b2u(sx <= sy)
	}
	panic("eval: op")
}

func Eval(m Model, t *Term) uint64 {
	e := evaluator{m, map[*Term]uint64{}}
	return e.ev(t)
}

// ---- SMT-LIB printing ----

func sortSMT(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	var sb strings.Builder
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.a, t.b, t.args[0].ref())
	case OZExt:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.w-t.args[0].w, t.args[0].ref())
	case OSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, t.args[0].ref())
	default:
		sb.WriteByte('(')
		sb.WriteString(opSMT[t.op])
		for _, a := range t.args {
			if a != nil {
				sb.WriteByte(' ')
				sb.WriteString(a.ref())
			}
		}
		sb.WriteByte(')')
	}
	return sb.String()
}

// String renders a term as a tree (for reports).
func (t *Term) String() string {
	switch t.op {
	case OConst, OVar:
		if t.op == OVar {
			return t.name
		}
		return t.ref()
	}
	s := t.body()
	_ = s
	var parts []string
	for _, a := range t.args {
		if a != nil {
			parts = append(parts, a.String())
		}
	}
	n := opSMT[t.op]
	if t.op == OExtract {
		n = fmt.Sprintf("extract[%d:%d]", t.a, t.b)
	} else if t.op == OZExt {
		n = fmt.Sprintf("zext%d", t.w)
	} else if t.op == OSExt {
		n = fmt.Sprintf("sext%d", t.w)
	}
	return "(" + n + " " + strings.Join(parts, " ") + ")"
}

// ---- cheap search for a model near a given one ----

type fastEval struct {
	c  *Ctx
	m  Model
	v  int32 // overridden variables
	x  uint64
	v2 int32
	x2 uint64
}

func (c *Ctx) fast(m Model, v int32, x uint64, v2 int32, x2 uint64) *fastEval {
	if len(c.memo) < len(c.terms) {
		c.memo = append(c.memo, make([]uint64, len(c.terms)+1024-len(c.memo))...)
		c.gen = append(c.gen, make([]uint32, len(c.memo)-len(c.gen))...)
	}
	c.cur++
	return &fastEval{c, m, v, x, v2, x2}
}

func (e *fastEval) ev(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if t.id == e.v {
			return e.x & maskB(t.w)
		}
		if t.id == e.v2 {
			return e.x2 & maskB(t.w)
		}
		return e.m[t.id] & maskB(t.w)
	}
	if e.c.gen[t.id] == e.c.cur {
		return e.c.memo[t.id]
	}
	r := evalOp(t, e.ev)
	e.c.gen[t.id] = e.c.cur
	e.c.memo[t.id] = r
	return r
}

// support lists the variables and constants of a term (nil when too many).
func (c *Ctx) support(t *Term) []*Term {
	if c.supp == nil {
		c.supp = map[*Term][]*Term{}
	}
	if r, ok := c.supp[t]; ok {
		return r
	}
	seen := map[*Term]bool{}
	var r []*Term
	nv := 0
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || len(seen) > 3000 {
			return
		}
		seen[t] = true
		if t.op == OVar {
			nv++
			r = append(r, t)
			return
		}
		if t.op == OConst && t.w > 0 && len(r) < 40 {
			r = append(r, t)
		}
		for _, a := range t.args {
			if a != nil {
				walk(a)
			}
		}
	}
	walk(t)
	if nv > 6 || len(seen) > 3000 {
		r = nil
	}
	c.supp[t] = r
	return r
}

// guess looks for a model of pc and goal that differs from m in one variable.
func (c *Ctx) guess(pc *PC, m Model, goal *Term) Model {
	sup := c.support(goal)
	tries := 0
	for _, v := range sup {
		if v.op != OVar {
			continue
		}
		old := m[v.id] & maskB(v.w)
		try := func(x uint64) bool {
			x &= maskB(v.w)
			if x == old || tries > 400 {
				return false
			}
			tries++
			e := c.fast(m, v.id, x, -1, 0)
			if e.ev(goal) != 1 {
				return false
			}
			for p := pc; p != nil; p = p.parent {
				if !p.weak && p.t.vm&v.vm != 0 && e.ev(p.t) != 1 {
					return false
				}
			}
			return true
		}
		done := func(x uint64) Model {
			n := make(Model, len(m)+1)
			for k, y := range m {
				n[k] = y
			}
			n[v.id] = x & maskB(v.w)
			return n
		}
		if v.w == 0 {
			if try(1 - old) {
				return done(1 - old)
			}
			continue
		}
		for _, k := range sup {
			x := k.val
			if k.op == OVar {
				if k == v || k.w == 0 {
					continue
				}
				x = m[k.id]
			}
			for _, y := range [3]uint64{x, x + 1, x - 1} {
				if try(y) {
					return done(y)
				}
			}
		}
		for i := uint8(0); i < v.w && i < 32; i++ {
			if try(old ^ 1<<i) {
				return done(old ^ 1<<i)
			}
		}
	}
	// the same bit of two variables together
	if len(c.vars) > 8 {
		return nil
	}
	for _, v := range sup {
		if v.op != OVar || v.w < 2 {
			continue
		}
		for _, u := range c.vars {
			if u == v || u.w != v.w {
				continue
			}
			for i := uint8(0); i < v.w && i < 32; i++ {
				x, y := m[v.id]^1<<i, m[u.id]^1<<i
				e := c.fast(m, v.id, x, u.id, y)
				if e.ev(goal) != 1 {
					continue
				}
				ok := true
				for p := pc; p != nil && ok; p = p.parent {
					ok = p.weak || p.t.vm&(v.vm|u.vm) == 0 || e.ev(p.t) == 1
				}
				if ok {
					n := make(Model, len(m)+1)
					for k, y := range m {
						n[k] = y
					}
					n[v.id], n[u.id] = x&maskB(v.w), y&maskB(u.w)
					return n
				}
			}
		}
	}
	return nil
}

func (t *Term) short(d int) string {
	switch t.op {
	case OVar:
		return t.name
	case OConst:
		return fmt.Sprintf("%d:%d", t.val, t.w)
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	r := "(" + opSMT[t.op]
	if t.op == OExtract {
		r = fmt.Sprintf("([%d:%d]", t.a, t.b)
	}
	if t.op == OZExt {
		r = "(zext"
	}
	for _, a := range t.args {
		if a != nil {
			r += " " + a.short(d-1)
		}
	}
	return r + ")"
}
