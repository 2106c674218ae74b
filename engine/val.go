package main

// Values of the symbolic Go machine.

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Kind uint8

const (
	KNone Kind = iota
	KBool
	KInt // integers, uintptr
	KFloat
	KStr
	KPtr
	KSlice
	KMap
	KIface
	KFunc
	KAgg // struct, array, tuple
	KIter
	KOpaque
)

// Val: concrete integers inline in n; symbolic ones carry *Term in x.
type Val struct {
	k Kind
	w uint8
	n uint64
	x any
}

type Agg struct {
	owner uint32 // state allowed to mutate in place; 0 = frozen
	e     []Val
}

// SStr is a symbolic string of concrete length.
type SStr struct{ b []*Term }

// Opaque text: a message whose characters are not modelled.
type Opq struct{ why string }

type Slice struct {
	obj         uint32 // object holding the array
	path        int32  // path of the array inside it
	off, ln, cp int
}

type Iface struct {
	t *tinfo
	v Val
}

type Closure struct {
	fn   *ssa.Function
	bind []Val
	id   uint32 // identity is by pointer; id for printing only
}

// MapObj is kept in the heap as an object value: KAgg with special encoding is
// avoided; maps are immutable assoc lists replaced on update.
type MapV struct {
	keys []Val
	vals []Val
	idx  map[any]int // index of concrete keys
	symk bool        // some key is symbolic
}

type Iter struct {
	isStr bool
	str   Val
	pos   int
	m     *MapV
	i     int
}

func (v Val) sym() *Term {
	if v.k == KInt || v.k == KBool {
		if t, ok := v.x.(*Term); ok {
			return t
		}
	}
	return nil
}

func vInt(w uint8, n uint64) Val { return Val{k: KInt, w: w, n: n & mask(w)} }
func vBool(b bool) Val           { return Val{k: KBool, n: b2u(b)} }
func vStr(s string) Val          { return Val{k: KStr, x: s} }
func vPtr(obj uint32, path int32) Val {
	return Val{k: KPtr, n: uint64(obj)<<32 | uint64(uint32(path))}
}

var vNilPtr = Val{k: KPtr}
var vNilIface = Val{k: KIface}

func (v Val) isNilPtr() bool       { return v.n == 0 }
func (v Val) ptr() (uint32, int32) { return uint32(v.n >> 32), int32(uint32(v.n)) }

func (v Val) agg() *Agg { return v.x.(*Agg) }

func vTuple(vs ...Val) Val { return Val{k: KAgg, x: &Agg{e: vs}} }

func (v Val) slice() *Slice {
	if v.x == nil {
		return nil
	}
	return v.x.(*Slice)
}

func (v Val) iface() *Iface {
	if v.x == nil {
		return nil
	}
	return v.x.(*Iface)
}

// ---- type info ----

type tk uint8

const (
	tBool tk = iota
	tInt
	tFloat
	tStr
	tPtr
	tSlice
	tMap
	tIface
	tFunc
	tStruct
	tArray
	tTuple
	tChan
	tUnsafe
	tComplex
	tOther
)

type tinfo struct {
	id     int
	t      types.Type
	kind   tk
	w      uint8
	signed bool
	elem   *tinfo
	key    *tinfo
	fields []*tinfo
	n      int
	meths  sync.Map // method cache: string -> *ssa.Function
}

var (
	tiMu   sync.Mutex
	tiFast sync.Map // types.Type -> *tinfo
	tiMap  typeutil.Map
	tiN    int
)

func ti(t types.Type) *tinfo {
	if r, ok := tiFast.Load(t); ok {
		return r.(*tinfo)
	}
	tiMu.Lock()
	r := tiLocked(t)
	tiMu.Unlock()
	return r
}

func tiLocked(t types.Type) *tinfo {
	if r, ok := tiFast.Load(t); ok {
		return r.(*tinfo)
	}
	u := types.Unalias(t)
	if r := tiMap.At(u); r != nil {
		tiFast.Store(t, r)
		return r.(*tinfo)
	}
	tiN++
	r := &tinfo{id: tiN, t: u}
	tiMap.Set(u, r)
	switch b := u.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			r.kind = tBool
		case b.Info()&types.IsInteger != 0:
			r.kind = tInt
			r.signed = b.Info()&types.IsUnsigned == 0
			switch b.Kind() {
			case types.Int8, types.Uint8:
				r.w = 8
			case types.Int16, types.Uint16:
				r.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				r.w = 32
			default:
				r.w = 64
			}
		case b.Info()&types.IsFloat != 0:
			r.kind = tFloat
			r.w = 64
			if b.Kind() == types.Float32 {
				r.w = 32
			}
		case b.Info()&types.IsString != 0:
			r.kind = tStr
		case b.Info()&types.IsComplex != 0:
			r.kind = tComplex
		case b.Kind() == types.UnsafePointer:
			r.kind = tUnsafe
		case b.Kind() == types.UntypedNil:
			r.kind = tPtr
		default:
			r.kind = tOther
		}
	case *types.Pointer:
		r.kind = tPtr
		// elem lazily: recursive types
	case *types.Slice:
		r.kind = tSlice
	case *types.Map:
		r.kind = tMap
	case *types.Interface:
		r.kind = tIface
	case *types.Signature:
		r.kind = tFunc
	case *types.Struct:
		r.kind = tStruct
		for i := 0; i < b.NumFields(); i++ {
			r.fields = append(r.fields, tiLocked(b.Field(i).Type()))
		}
	case *types.Array:
		r.kind = tArray
		r.n = int(b.Len())
		r.elem = tiLocked(b.Elem())
	case *types.Tuple:
		r.kind = tTuple
		for i := 0; i < b.Len(); i++ {
			r.fields = append(r.fields, tiLocked(b.At(i).Type()))
		}
	case *types.Chan:
		r.kind = tChan
	default:
		r.kind = tOther
	}
	tiFast.Store(t, r)
	if t != u {
		tiFast.Store(u, r)
	}
	return r
}

func (t *tinfo) Elem() *tinfo {
	switch b := t.t.Underlying().(type) {
	case *types.Pointer:
		return ti(b.Elem())
	case *types.Slice:
		return ti(b.Elem())
	case *types.Array:
		return ti(b.Elem())
	case *types.Map:
		return ti(b.Elem())
	}
	panic(unsup("Elem of " + t.t.String()))
}

func zero(t *tinfo) Val {
	switch t.kind {
	case tBool:
		return Val{k: KBool}
	case tInt:
		return Val{k: KInt, w: t.w}
	case tFloat:
		return Val{k: KFloat, w: t.w}
	case tStr:
		return Val{k: KStr, x: ""}
	case tPtr, tUnsafe:
		return vNilPtr
	case tSlice:
		return Val{k: KSlice}
	case tMap, tChan:
		return Val{k: KMap}
	case tIface:
		return vNilIface
	case tFunc:
		return Val{k: KFunc}
	case tStruct, tTuple:
		a := &Agg{e: make([]Val, len(t.fields))}
		for i, f := range t.fields {
			a.e[i] = zero(f)
		}
		return Val{k: KAgg, x: a}
	case tArray:
		a := &Agg{e: make([]Val, t.n)}
		if t.n > 0 {
			z := zero(t.elem)
			for i := range a.e {
				if z.k == KAgg {
					a.e[i] = zero(t.elem)
				} else {
					a.e[i] = z
				}
			}
		}
		return Val{k: KAgg, x: a}
	}
	return Val{k: KOpaque, x: "zero of " + t.t.String()}
}

// unsupported construct: ends the path, reported as a reduced bound.
type unsupErr struct{ why string }

func unsup(why string) unsupErr { return unsupErr{why} }

func (v Val) String() string {
	if t := v.sym(); t != nil {
		return t.String()
	}
	switch v.k {
	case KBool:
		return fmt.Sprint(v.n == 1)
	case KInt:
		return fmt.Sprint(v.n)
	case KStr:
		if s, ok := v.x.(string); ok {
			return fmt.Sprintf("%q", s)
		}
		return "symstr"
	case KPtr:
		o, p := v.ptr()
		return fmt.Sprintf("&%d.%d", o, p)
	case KSlice:
		if v.x == nil {
			return "nil-slice"
		}
		s := v.slice()
		return fmt.Sprintf("slice(%d.%d %d:%d:%d)", s.obj, s.path, s.off, s.ln, s.cp)
	case KIface:
		if v.x == nil {
			return "nil-iface"
		}
		return fmt.Sprintf("iface(%s %s)", v.iface().t.t, v.iface().v)
	case KAgg:
		s := "{"
		for i, e := range v.agg().e {
			if i > 0 {
				s += ","
			}
			s += e.String()
		}
		return s + "}"
	case KFunc:
		if v.x == nil {
			return "nil-func"
		}
		return v.x.(*Closure).fn.String()
	}
	return fmt.Sprintf("val(k%d)", v.k)
}
