package main

// Models of runtime- and assembly-backed library functions, and of the
// harness's nondeterminism primitives.

import (
	"fmt"
	"go/types"
	"math/bits"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type handler func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val

var notHandled = Val{k: KNone, n: 77}

var ti8 = ti(types.Typ[types.Uint8])

var intrCache sync.Map // *ssa.Function -> handler or nil

func (e *Eng) intrinsic(fn *ssa.Function) handler {
	if r, ok := intrCache.Load(fn); ok {
		return r.(handler)
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	var h handler
	if i := strings.LastIndex(name, "/zzverif/nd."); i >= 0 {
		h = ndFns[name[i+len("/zzverif/nd."):]]
	} else {
		h = libFns[name]
	}
	intrCache.Store(fn, h)
	return h
}

func noop(e *Eng, s *State, f *Frame, k *cin, a []Val) Val { return Val{} }

func (e *Eng) bytesOf(s *State, v Val) []*Term {
	el := e.elems(s, v)
	r := make([]*Term, len(el))
	for i := range el {
		r[i] = e.term(el[i])
	}
	return r
}

func (e *Eng) indexByte(s *State, b []*Term, c Val) Val {
	ct := e.term(c)
	for i := range b {
		if e.decide(s, e.c.Eq(b[i], ct)) {
			return vInt(64, uint64(i))
		}
	}
	return vInt(64, ^uint64(0))
}

func (e *Eng) validUTF8(s *State, b []*Term) bool {
	for i := 0; i < len(b); {
		r, n := e.decodeRune(s, b[i:])
		if n == 1 && r.x == nil && r.n == 0xFFFD {
			return false
		}
		i += n
	}
	return true
}

func atomicW(e *Eng, s *State, p Val) (uint32, int32) {
	if p.isNilPtr() {
		e.nilDeref()
	}
	return p.ptr()
}

var libFns map[string]handler

func init() {
	L := map[string]handler{}
	libFns = L
	// bytealg
	for _, n := range []string{"internal/bytealg.IndexByteString", "internal/bytealg.IndexByte", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte"} {
		L[n] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
			return e.indexByte(s, e.bytesOf(s, a[0]), a[1])
		}
	}
	for _, n := range []string{"internal/bytealg.CountString", "internal/bytealg.Count"} {
		L[n] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
			n := 0
			c := e.term(a[1])
			for _, b := range e.bytesOf(s, a[0]) {
				if e.decide(s, e.c.Eq(b, c)) {
					n++
				}
			}
			return vInt(64, uint64(n))
		}
	}
	for _, n := range []string{"internal/bytealg.IndexString", "internal/bytealg.Index", "strings.Index", "bytes.Index"} {
		L[n] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
			x, y := e.bytesOf(s, a[0]), e.bytesOf(s, a[1])
			for i := 0; i+len(y) <= len(x); i++ {
				c := e.c.tTrue
				for j := range y {
					c = e.c.And(c, e.c.Eq(x[i+j], y[j]))
				}
				if e.decide(s, c) {
					return vInt(64, uint64(i))
				}
			}
			return vInt(64, ^uint64(0))
		}
	}
	L["internal/bytealg.Equal"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		return bTerm(e.strEq(s, mkStr(e.bytesOf(s, a[0])), mkStr(e.bytesOf(s, a[1]))))
	}
	L["bytes.Equal"] = L["internal/bytealg.Equal"]
	cmp := func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		x, y := mkStr(e.bytesOf(s, a[0])), mkStr(e.bytesOf(s, a[1]))
		one := e.c.Const(64, 1)
		r := e.c.Ite(e.strEq(s, x, y), e.c.Const(64, 0), e.c.Ite(e.strLess(x, y), e.c.Const(64, ^uint64(0)), one))
		return iTerm(r)
	}
	L["internal/bytealg.Compare"] = cmp
	L["internal/bytealg.CompareString"] = cmp
	L["strings.Compare"] = cmp
	L["bytes.Compare"] = cmp
	L["internal/bytealg.MakeNoZero"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		n := e.cInt(s, a[0])
		return e.newSlice(s, ti8, n, n)
	}
	L["(*strings.Builder).copyCheck"] = noop
	L["strings.noescape"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val { return a[0] }
	L["internal/abi.NoEscape"] = L["strings.noescape"]
	L["internal/abi.Escape"] = L["strings.noescape"]
	L["strings.Clone"] = L["strings.noescape"]
	L["internal/stringslite.Clone"] = L["strings.noescape"]
	// utf8
	dec := func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		b := e.bytesOf(s, a[0])
		if len(b) == 0 {
			return vTuple(vInt(32, 0xFFFD), vInt(64, 0))
		}
		r, n := e.decodeRune(s, b)
		return vTuple(r, vInt(64, uint64(n)))
	}
	L["unicode/utf8.DecodeRuneInString"] = dec
	L["unicode/utf8.DecodeRune"] = dec
	cnt := func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		b := e.bytesOf(s, a[0])
		n := 0
		for i := 0; i < len(b); n++ {
			_, m := e.decodeRune(s, b[i:])
			i += m
		}
		return vInt(64, uint64(n))
	}
	L["unicode/utf8.RuneCountInString"] = cnt
	L["unicode/utf8.RuneCount"] = cnt
	val := func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		return vBool(e.validUTF8(s, e.bytesOf(s, a[0])))
	}
	L["unicode/utf8.ValidString"] = val
	L["unicode/utf8.Valid"] = val
	L["unicode/utf8.AppendRune"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		b := e.encodeRune(s, a[1], ti(types.Typ[types.Int32]))
		vs := make([]Val, len(b))
		for i := range b {
			vs[i] = iTerm(b[i])
		}
		id := s.alloc(Val{k: KAgg, x: &Agg{e: vs}})
		kk := &cin{t2: ti(types.NewSlice(types.Typ[types.Uint8]))}
		return e.appendOp(s, kk, a[0], Val{k: KSlice, x: &Slice{obj: id, ln: len(vs), cp: len(vs)}})
	}
	L["unicode/utf8.EncodeRune"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		b := e.encodeRune(s, a[1], ti(types.Typ[types.Int32]))
		sl := a[0].slice()
		if sl == nil || sl.ln < len(b) {
			panic(rtPanic{"index out of range"})
		}
		arr := e.arr(s, sl.obj, sl.path)
		for i := range b {
			arr.e[sl.off+i] = iTerm(b[i])
		}
		return vInt(64, uint64(len(b)))
	}
	// math/bits on symbolic operands
	mb := func(name string, w uint8, conc func(uint64) int, build func(e *Eng, t *Term) *Term) {
		L["math/bits."+name] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
			t := a[0].sym()
			if t == nil {
				return vInt(64, uint64(conc(a[0].n)))
			}
			return iTerm(build(e, t))
		}
	}
	lenT := func(e *Eng, t *Term) *Term {
		r := e.c.Const(64, 0)
		for i := uint8(0); i < t.w; i++ {
			r = e.c.Ite(e.c.Eq(e.c.Extract(i, i, t), e.c.Const(1, 1)), e.c.Const(64, uint64(i)+1), r)
		}
		return r
	}
	tzT := func(e *Eng, t *Term) *Term {
		r := e.c.Const(64, uint64(t.w))
		for i := int(t.w) - 1; i >= 0; i-- {
			r = e.c.Ite(e.c.Eq(e.c.Extract(uint8(i), uint8(i), t), e.c.Const(1, 1)), e.c.Const(64, uint64(i)), r)
		}
		return r
	}
	for _, x := range []struct {
		n string
		w uint8
	}{{"", 64}, {"8", 8}, {"16", 16}, {"32", 32}, {"64", 64}} {
		w := x.w
		mb("Len"+x.n, w, func(n uint64) int { return bits.Len64(n) }, lenT)
		mb("TrailingZeros"+x.n, w, func(n uint64) int {
			if n == 0 {
				return int(w)
			}
			return bits.TrailingZeros64(n)
		}, tzT)
		mb("LeadingZeros"+x.n, w, func(n uint64) int { return int(w) - bits.Len64(n) }, func(e *Eng, t *Term) *Term {
			return e.c.Bin(OSub, e.c.Const(64, uint64(t.w)), lenT(e, t))
		})
		mb("OnesCount"+x.n, w, func(n uint64) int { return bits.OnesCount64(n) }, func(e *Eng, t *Term) *Term {
			r := e.c.Const(64, 0)
			for i := uint8(0); i < t.w; i++ {
				r = e.c.Bin(OAdd, r, e.c.ZExt(e.c.Extract(i, i, t), 64))
			}
			return r
		})
	}
	// sync
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable"} {
		L[n] = noop
	}
	tr := func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val { return vBool(true) }
	L["(*sync.Mutex).TryLock"] = tr
	for _, pre := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			L[pre+"Load"+w] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
				o, p := atomicW(e, s, a[0])
				return e.load(s, o, p)
			}
			L[pre+"Store"+w] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
				o, p := atomicW(e, s, a[0])
				e.store(s, o, p, a[1])
				return Val{}
			}
			L[pre+"Add"+w] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
				o, p := atomicW(e, s, a[0])
				v := e.load(s, o, p)
				r := iTerm(e.c.Bin(OAdd, e.term(v), e.term(a[1])))
				e.store(s, o, p, r)
				return r
			}
			L[pre+"Swap"+w] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
				o, p := atomicW(e, s, a[0])
				v := e.load(s, o, p)
				e.store(s, o, p, a[1])
				return v
			}
			L[pre+"CompareAndSwap"+w] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
				o, p := atomicW(e, s, a[0])
				if e.decide(s, e.eq(s, e.load(s, o, p), a[1])) {
					e.store(s, o, p, a[2])
					return vBool(true)
				}
				return vBool(false)
			}
		}
	}
	// reflectlite as used by sort.Slice
	L["internal/reflectlite.ValueOf"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		return Val{k: KAgg, x: &Agg{e: []Val{a[0], a[0], a[0]}}}
	}
	L["(internal/reflectlite.Value).Len"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		v := a[0].agg().e[0].iface().v
		n := 0
		if sl := v.slice(); sl != nil {
			n = sl.ln
		}
		return vInt(64, uint64(n))
	}
	swapper := func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		v := a[0].iface().v
		return Val{k: KFunc, x: &Closure{fn: e.prog.swapStub, bind: []Val{v}}}
	}
	L["internal/reflectlite.Swapper"] = swapper
	L["reflect.Swapper"] = swapper
	// errors / fmt
	L["reflect.DeepEqual"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		return vBool(e.deepEqual(s, a[0], a[1], 0))
	}
	L["fmt.Errorf"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		format, _ := a[0].x.(string)
		args := e.elems(s, a[1])
		msg := e.sprintf(s, format, args)
		if strings.Contains(format, "%w") {
			var inner Val = vNilIface
			for _, x := range args {
				if i := x.iface(); i != nil && e.prog.implements(i.t, e.prog.tError) {
					inner = x
				}
			}
			id := s.alloc(Val{k: KAgg, x: &Agg{e: []Val{msg, inner}}})
			return Val{k: KIface, x: &Iface{e.prog.tWrapError, vPtr(id, 0)}}
		}
		id := s.alloc(Val{k: KAgg, x: &Agg{e: []Val{msg}}})
		return Val{k: KIface, x: &Iface{e.prog.tErrorString, vPtr(id, 0)}}
	}
	pr := func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val { return vTuple(vInt(64, 0), vNilIface) }
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		L[n] = pr
	}
	for _, n := range []string{"log.Println", "log.Printf", "log.Print"} {
		L[n] = noop
	}
}

// deepEqual is reflect.DeepEqual for values without maps.
func (e *Eng) deepEqual(s *State, a, b Val, depth int) bool {
	if depth > 30 {
		panic(unsup("deep equality of a cyclic value"))
	}
	switch a.k {
	case KIface:
		x, y := a.iface(), b.iface()
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		return x.t == y.t && e.deepEqual(s, x.v, y.v, depth+1)
	case KSlice:
		p, q := a.slice(), b.slice()
		if p == nil || q == nil {
			return p == nil && q == nil
		}
		if p.ln != q.ln {
			return false
		}
		u, v := e.elems(s, a), e.elems(s, b)
		for i := range u {
			if !e.deepEqual(s, u[i], v[i], depth+1) {
				return false
			}
		}
		return true
	case KAgg:
		p, q := a.agg(), b.agg()
		for i := range p.e {
			if !e.deepEqual(s, p.e[i], q.e[i], depth+1) {
				return false
			}
		}
		return true
	case KPtr:
		if a.n == b.n {
			return true
		}
		if a.isNilPtr() || b.isNilPtr() {
			return false
		}
		o, p := a.ptr()
		q, r := b.ptr()
		return e.deepEqual(s, e.load(s, o, p), e.load(s, q, r), depth+1)
	case KMap:
		if a.n == b.n {
			return true
		}
		panic(unsup("deep equality of maps"))
	}
	return e.decide(s, e.eq(s, a, b))
}

// natives converts interface values to Go values for formatting.
func (e *Eng) natives(s *State, vs []Val) ([]any, bool) {
	var r []any
	for _, v := range vs {
		i := v.iface()
		if i == nil {
			r = append(r, nil)
			continue
		}
		if _, named := i.t.t.(*types.Named); named && e.prog.hasStringer(i.t) {
			return nil, false
		}
		switch i.v.k {
		case KInt:
			if i.v.x != nil {
				return nil, false
			}
			if i.t.signed {
				n := sext(i.v.n, i.v.w)
				switch i.v.w {
				case 8:
					r = append(r, int8(n))
				case 16:
					r = append(r, int16(n))
				case 32:
					r = append(r, int32(n))
				default:
					r = append(r, n)
				}
			} else {
				switch i.v.w {
				case 8:
					r = append(r, uint8(i.v.n))
				case 16:
					r = append(r, uint16(i.v.n))
				case 32:
					r = append(r, uint32(i.v.n))
				default:
					r = append(r, i.v.n)
				}
			}
		case KBool:
			if i.v.x != nil {
				return nil, false
			}
			r = append(r, i.v.n == 1)
		case KStr:
			x, ok := i.v.x.(string)
			if !ok {
				return nil, false
			}
			r = append(r, x)
		case KFloat:
			r = append(r, i.v.f64())
		default:
			return nil, false
		}
	}
	return r, true
}

func (e *Eng) sprintf(s *State, format string, args []Val) Val {
	if as, ok := e.natives(s, args); ok {
		return vStr(fmt.Sprintf(strings.ReplaceAll(format, "%w", "%v"), as...))
	}
	// piecewise: literal text, %s/%v of strings and %b of integers
	out := vStr("")
	ai := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = e.concat(out, vStr(format[i:]))
			break
		}
		out = e.concat(out, vStr(format[i:i+j]))
		i += j
		sp := i + 1
		for sp < len(format) && strings.IndexByte("0123456789+-# .", format[sp]) >= 0 {
			sp++
		}
		if sp >= len(format) {
			return Val{k: KStr, x: Opq{"format"}}
		}
		verb := format[i : sp+1]
		i = sp + 1
		if verb == "%%" {
			out = e.concat(out, vStr("%"))
			continue
		}
		if ai >= len(args) {
			return Val{k: KStr, x: Opq{"format"}}
		}
		a := args[ai]
		ai++
		if as, ok := e.natives(s, []Val{a}); ok {
			out = e.concat(out, vStr(fmt.Sprintf(verb, as...)))
			continue
		}
		it := a.iface()
		switch {
		case it.v.k == KStr && (verb == "%s" || verb == "%v"):
			if isOpq(it.v) {
				return Val{k: KStr, x: Opq{"format"}}
			}
			out = e.concat(out, it.v)
		case it.v.k == KInt && verb[len(verb)-1] == 'b':
			x := e.fmtBits(s, it, verb)
			if isOpq(x) {
				return x
			}
			out = e.concat(out, x)
		case it.v.k == KInt && verb == "%c":
			out = e.concat(out, mkStr(e.encodeRune(s, it.v, it.t)))
		default:
			return Val{k: KStr, x: Opq{"format " + verb}}
		}
	}
	return out
}

// fmtBits renders a symbolic integer in base 2, forking on its length.
func (e *Eng) fmtBits(s *State, it *Iface, verb string) Val {
	zpad, width := false, 0
	if verb != "%b" {
		if n, err := fmt.Sscanf(verb, "%%0%db", &width); n == 1 && err == nil {
			zpad = true
		} else {
			return Val{k: KStr, x: Opq{"format " + verb}}
		}
	}
	t := e.term(it.v)
	var out []*Term
	if it.t.signed && e.decide(s, e.c.Slt(t, e.c.Const(t.w, 0))) {
		out = append(out, e.c.Const(8, '-'))
		t = e.c.Bin(OSub, e.c.Const(t.w, 0), t)
	}
	n := 1
	for ; n < int(t.w); n++ {
		if e.decide(s, e.c.Ult(t, e.c.Const(t.w, 1<<uint(n)))) {
			break
		}
	}
	if zpad {
		for i := len(out) + n; i < width; i++ {
			out = append(out, e.c.Const(8, '0'))
		}
	}
	for i := n - 1; i >= 0; i-- {
		b := e.c.Extract(uint8(i), uint8(i), t)
		if i == n-1 && n > 1 {
			b = e.c.Const(1, 1)
		}
		out = append(out, e.c.Concat(e.c.Const(7, '0'>>1), b))
	}
	return mkStr(out)
}

// ---- nondeterminism ----

var ndFns map[string]handler

func (e *Eng) ndVar(s *State, w uint8) *Term {
	name := fmt.Sprintf("n%d_%d", len(s.nd), w)
	if t, ok := e.job.vars[name]; ok {
		return t
	}
	t := e.c.Var(w, name)
	e.job.vars[name] = t
	return t
}

func (e *Eng) assume(s *State, c *Term, why string) {
	if c.isC() {
		if c.val == 0 {
			panic(endPath{"assume: " + why})
		}
		return
	}
	if v, ok := known(s.pc, c, e.c.Not(c)); ok {
		if !v {
			panic(endPath{"assume: " + why})
		}
		return
	}
	if s.m.ev(c) == 1 {
		s.addPC(c, false)
		return
	}
	r, m := e.sol.Check(s.pc, c)
	switch r {
	case "sat":
		s.addPC(c, false)
		s.m = newMEval(m)
	case "unsat":
		panic(endPath{"assume: " + why})
	default:
		e.res.reduce("solver gave no answer on an assumption")
		panic(endPath{"assume: " + why})
	}
}

func strArg(v Val) string {
	x, _ := v.x.(string)
	return x
}

func init() {
	N := map[string]handler{}
	ndFns = N
	push := func(s *State, kind string, t *Term) {
		s.nd = append(s.nd, ndRec{kind: kind, t: t, w: t.w})
	}
	mkInt := func(kind string, w uint8) handler {
		return func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
			t := e.ndVar(s, w)
			push(s, kind, t)
			return iTerm(t)
		}
	}
	N["Byte"] = mkInt("byte", 8)
	N["Rune"] = mkInt("rune", 32)
	N["Uint"] = mkInt("uint", 64)
	N["Bool"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		t := e.ndVar(s, 0)
		push(s, "bool", t)
		return bTerm(t)
	}
	N["Opaque"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		return Val{k: KStr, x: Opq{"format"}}
	}
	N["TryFormat"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		if format, ok := a[0].x.(string); ok {
			if r := e.sprintf(s, format, e.elems(s, a[1])); !isOpq(r) {
				return vTuple(r, vBool(true))
			}
		}
		return vTuple(vStr(""), vBool(false))
	}
	N["AsOne"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		err, tg := a[0].iface(), a[1].iface()
		if err == nil || tg == nil {
			return vBool(false)
		}
		pt, ok := tg.t.t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsup("errors.As into no pointer"))
		}
		el := ti(pt.Elem())
		v := err.v
		if types.IsInterface(el.t) {
			if !e.prog.implements(err.t, el) {
				return vBool(false)
			}
			v = a[0]
		} else if err.t != el {
			return vBool(false)
		}
		o, p := tg.v.ptr()
		e.store(s, o, p, v)
		return vBool(true)
	}
	N["Range"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		lo, hi := e.cInt(s, a[0]), e.cInt(s, a[1])
		w := uint8(8)
		if hi-lo > 255 {
			w = 32
		}
		if hi < lo {
			panic(unsup("nd.Range bounds"))
		}
		t := e.ndVar(s, w)
		e.assume(s, e.c.Ule(t, e.c.Const(w, uint64(hi-lo))), "range")
		push(s, "range", t)
		return iTerm(e.c.Bin(OAdd, e.c.ZExt(t, 64), e.c.Const(64, uint64(lo))))
	}
	N["Choose"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		n := e.cInt(s, a[0])
		if n <= 0 {
			panic(endPath{"choose from nothing"})
		}
		if n > 250 {
			panic(unsup("nd.Choose too wide"))
		}
		t := e.ndVar(s, 8)
		e.assume(s, e.c.Ult(t, e.c.Const(8, uint64(n))), "choose")
		x := e.concretize(s, iTerm(t))
		push(s, "choose", t)
		s.tag = append(s.tag, int32(x))
		return vInt(64, x)
	}
	N["Shard"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		n := e.cInt(s, a[0])
		if e.job.shard < 0 {
			e.res.shards = n
			panic(endPath{""})
		}
		t := e.ndVar(s, 8)
		e.assume(s, e.c.Eq(t, e.c.Const(8, uint64(e.job.shard))), "shard")
		push(s, "choose", t)
		return vInt(64, uint64(e.job.shard))
	}
	N["Assume"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		e.assume(s, e.term(a[0]), "")
		return Val{}
	}
	N["Assert"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		c := e.term(a[0])
		e.res.asserts++
		if c == e.c.tTrue {
			return Val{}
		}
		msg := strArg(a[1])
		n := e.c.Not(c)
		if v, ok := known(s.pc, c, n); ok && v {
			return Val{}
		}
		if s.m.ev(c) == 0 {
			e.violate(s, s.m, msg)
		} else {
			r, m := e.sol.Check(s.pc, n)
			switch r {
			case "sat":
				e.violate(s, newMEval(m), msg)
			case "unknown":
				e.res.reduce("solver gave no answer on an assertion")
			}
		}
		e.assume(s, c, "assert failed")
		return Val{}
	}
	N["Finding"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		id := strArg(a[0])
		if !e.decideV(s, a[1]) {
			return Val{}
		}
		if !e.job.known[id] {
			e.violate(s, s.m, strArg(a[2]))
			panic(endPath{"violation"})
		}
		if e.res.findings[id] == nil {
			e.res.findings[id] = &Witness{Harness: e.job.name, Msg: id, Vec: e.vector(s, s.m)}
		}
		panic(endPath{"finding"})
	}
	N["Cover"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		e.res.covers[strArg(a[0])]++
		return Val{}
	}
	N["Observe"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		s.obs = append(s.obs, obsRec{strArg(a[0]), []Val{a[1]}})
		return Val{}
	}
	N["ObserveStr"] = N["Observe"]
	N["ObserveBool"] = N["Observe"]
	N["IsConcrete"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		return vBool(a[0].x == nil)
	}
	N["Thorough"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		return vBool(e.job.thorough)
	}
	N["Symbolic"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val { return vBool(true) }
	N["Known"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		return vBool(e.job.known[strArg(a[0])])
	}
	N["Split"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		return vBool(e.decideV(s, a[0]))
	}
	// Fork splits on a boolean and keeps the two sides apart for good.
	N["Fork"] = func(e *Eng, s *State, f *Frame, k *cin, a []Val) Val {
		r := e.decideV(s, a[0])
		s.tag = append(s.tag, int32(b2u(r)))
		return vBool(r)
	}
}
