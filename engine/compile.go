package main

// Lowering of go/ssa functions to a compact register form (shared by all
// engine instances), with post-dominators and liveness for state merging.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type copc uint8

const (
	cAlloc copc = iota
	cBin
	cNeg
	cNot
	cCompl
	cLoad
	cCallStatic
	cCallInvoke
	cCallDyn
	cBuiltin
	cMove
	cConvert
	cExtract
	cField
	cFieldAddr
	cIndex
	cIndexAddr
	cIf
	cJump
	cLookupStr
	cLookupMap
	cMakeClosure
	cMakeIface
	cMakeMap
	cMakeSlice
	cMapUpdate
	cNext
	cRange
	cPanic
	cReturn
	cSlice
	cStore
	cTypeAssert
	cDefer
	cRunDefers
	cSliceToArr
	cUnsup
	cNop
)

type opnd int32 // >=0 register, <0 constant -(i+1)

type cin struct {
	op   copc
	dst  int32
	a, b opnd
	args []opnd
	n    int // field index, commaok flag, jump target...
	tok  token.Token
	t    *tinfo // result or relevant type
	t2   *tinfo // operand type
	fn   *ssa.Function
	name string
	why  string
	meth *types.Func
	pos  token.Pos
	jmp  [2]int32
}

type cconst struct {
	v  Val
	g  *ssa.Global // global address, resolved at load
	gi uint32
}

type phiMove struct {
	dst int32
	src opnd
}

type cblock struct {
	ins  []cin
	phis map[int32][]phiMove // pred block -> moves
	// liveness after the phis
	live   []int32
	ipdom  int32 // -1: function exit
	npreds int
	rpo    int32
	loop   int32   // index of the loop this block heads, or -1
	loops  []int32 // loops containing the block, outermost first
	// registers live before each instruction, computed on demand
	liveOut []uint64
	liveAt  [][]int32
	once    sync.Once
}

func (b *cblock) inLoop(l int32) bool {
	for _, x := range b.loops {
		if x == l {
			return true
		}
	}
	return false
}

type cfunc struct {
	fn     *ssa.Function
	nreg   int
	consts []cconst
	blocks []cblock
	params []int32
	free   []int32
	recov  int32 // recover block or -1
	res    []*tinfo
	name   string
	isInit bool
	nloops int
	heads  []int32 // loop -> header block
}

var (
	cfMu sync.Mutex
	cfs  sync.Map // *ssa.Function -> *cfunc

	globMu  sync.Mutex
	globIdx = map[*ssa.Global]uint32{}
	globs   []*ssa.Global
)

const globBase = uint32(0x80000000)

func globalIndex(g *ssa.Global) uint32 {
	globMu.Lock()
	defer globMu.Unlock()
	if i, ok := globIdx[g]; ok {
		return i
	}
	i := uint32(len(globs))
	globs = append(globs, g)
	globIdx[g] = i
	return i
}

func globalAt(i uint32) *ssa.Global {
	globMu.Lock()
	defer globMu.Unlock()
	return globs[i]
}

func compiled(fn *ssa.Function) *cfunc {
	if r, ok := cfs.Load(fn); ok {
		return r.(*cfunc)
	}
	cfMu.Lock()
	defer cfMu.Unlock()
	if r, ok := cfs.Load(fn); ok {
		return r.(*cfunc)
	}
	r := compileFn(fn)
	cfs.Store(fn, r)
	return r
}

type comp struct {
	cf   *cfunc
	reg  map[ssa.Value]int32
	cidx map[ssa.Value]opnd
}

func (c *comp) r(v ssa.Value) int32 {
	if i, ok := c.reg[v]; ok {
		return i
	}
	i := int32(c.cf.nreg)
	c.cf.nreg++
	c.reg[v] = i
	return i
}

func (c *comp) o(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		if o, ok := c.cidx[v]; ok {
			return o
		}
		var k cconst
		switch x := x.(type) {
		case *ssa.Const:
			k.v = constVal(x)
		case *ssa.Global:
			k.g = x
			k.gi = globalIndex(x)
			k.v = vPtr(globBase|k.gi, 0)
		case *ssa.Function:
			k.v = Val{k: KFunc, x: funcVal(x)}
		}
		c.cf.consts = append(c.cf.consts, k)
		o := opnd(-len(c.cf.consts))
		c.cidx[v] = o
		return o
	}
	return opnd(c.r(v))
}

var funcVals sync.Map

func funcVal(f *ssa.Function) *Closure {
	if r, ok := funcVals.Load(f); ok {
		return r.(*Closure)
	}
	r, _ := funcVals.LoadOrStore(f, &Closure{fn: f})
	return r.(*Closure)
}

func constVal(k *ssa.Const) Val {
	t := ti(k.Type())
	if k.Value == nil {
		return zero(t)
	}
	switch t.kind {
	case tBool:
		return vBool(constant.BoolVal(k.Value))
	case tInt:
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return vInt(t.w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return vInt(t.w, u)
	case tFloat:
		f, _ := constant.Float64Val(k.Value)
		return floatVal(t.w, f)
	case tStr:
		if k.Value.Kind() == constant.String {
			return vStr(constant.StringVal(k.Value))
		}
		i, _ := constant.Int64Val(constant.ToInt(k.Value))
		return vStr(string(rune(i)))
	}
	return Val{k: KOpaque, x: "const " + k.String()}
}

func compileFn(fn *ssa.Function) *cfunc {
	cf := &cfunc{fn: fn, recov: -1, name: fn.String()}
	c := &comp{cf: cf, reg: map[ssa.Value]int32{}, cidx: map[ssa.Value]opnd{}}
	for _, p := range fn.Params {
		cf.params = append(cf.params, c.r(p))
	}
	for _, p := range fn.FreeVars {
		cf.free = append(cf.free, c.r(p))
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		cf.res = append(cf.res, ti(res.At(i).Type()))
	}
	cf.isInit = fn.Synthetic == "package initializer"
	cf.blocks = make([]cblock, len(fn.Blocks))
	if fn.Recover != nil {
		cf.recov = int32(fn.Recover.Index)
	}
	for bi, b := range fn.Blocks {
		cb := &cf.blocks[bi]
		cb.npreds = len(b.Preds)
		cb.phis = map[int32][]phiMove{}
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				d := c.r(p)
				for i, pr := range b.Preds {
					pi := int32(pr.Index)
					mv := phiMove{d, c.o(p.Edges[i])}
					// one move per (pred, phi); duplicate edges have equal values
					dup := false
					for _, m := range cb.phis[pi] {
						if m.dst == d {
							dup = true
						}
					}
					if !dup {
						cb.phis[pi] = append(cb.phis[pi], mv)
					}
				}
				continue
			}
			cb.ins = append(cb.ins, c.instr(in, b))
		}
	}
	c.postdom()
	c.loops()
	c.liveness()
	return cf
}

func (c *comp) args(call *ssa.CallCommon) []opnd {
	var r []opnd
	for _, a := range call.Args {
		r = append(r, c.o(a))
	}
	return r
}

func (c *comp) instr(in ssa.Instruction, b *ssa.BasicBlock) cin {
	k := cin{dst: -1, pos: in.Pos()}
	if v, ok := in.(ssa.Value); ok {
		k.dst = c.r(v)
		k.t = ti(v.Type())
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		k.op = cAlloc
		k.t = ti(x.Type()).Elem()
		k.name = x.Comment
	case *ssa.BinOp:
		k.op, k.tok, k.a, k.b = cBin, x.Op, c.o(x.X), c.o(x.Y)
		k.t2 = ti(x.X.Type())
	case *ssa.UnOp:
		k.a = c.o(x.X)
		k.t2 = ti(x.X.Type())
		switch x.Op {
		case token.MUL:
			k.op = cLoad
		case token.SUB:
			k.op = cNeg
		case token.NOT:
			k.op = cNot
		case token.XOR:
			k.op = cCompl
		default:
			k.op, k.why = cUnsup, "unary "+x.Op.String()
		}
	case *ssa.Call:
		c.call(&k, &x.Call)
	case *ssa.ChangeInterface:
		k.op, k.a = cMove, c.o(x.X)
	case *ssa.ChangeType:
		k.op, k.a = cMove, c.o(x.X)
	case *ssa.Convert:
		k.op, k.a, k.t2 = cConvert, c.o(x.X), ti(x.X.Type())
	case *ssa.MultiConvert:
		k.op, k.a, k.t2 = cConvert, c.o(x.X), ti(x.X.Type())
	case *ssa.Extract:
		k.op, k.a, k.n = cExtract, c.o(x.Tuple), x.Index
	case *ssa.Field:
		k.op, k.a, k.n = cField, c.o(x.X), x.Field
	case *ssa.FieldAddr:
		k.op, k.a, k.n = cFieldAddr, c.o(x.X), x.Field
	case *ssa.Index:
		k.op, k.a, k.b = cIndex, c.o(x.X), c.o(x.Index)
		if ti(x.X.Type()).kind == tStr {
			k.op = cLookupStr
		}
	case *ssa.IndexAddr:
		k.op, k.a, k.b, k.t2 = cIndexAddr, c.o(x.X), c.o(x.Index), ti(x.X.Type())
		k.n = -1
		if k.t2.kind == tPtr {
			k.n = k.t2.Elem().n
		}
	case *ssa.If:
		k.op, k.a = cIf, c.o(x.Cond)
		k.jmp = [2]int32{int32(b.Succs[0].Index), int32(b.Succs[1].Index)}
	case *ssa.Jump:
		k.op = cJump
		k.jmp[0] = int32(b.Succs[0].Index)
	case *ssa.Lookup:
		k.a, k.b = c.o(x.X), c.o(x.Index)
		if ti(x.X.Type()).kind == tStr {
			k.op = cLookupStr
		} else {
			k.op = cLookupMap
			k.t2 = ti(x.X.Type()).Elem()
			if x.CommaOk {
				k.n = 1
			}
		}
	case *ssa.MakeClosure:
		k.op, k.fn = cMakeClosure, x.Fn.(*ssa.Function)
		for _, a := range x.Bindings {
			k.args = append(k.args, c.o(a))
		}
	case *ssa.MakeInterface:
		k.op, k.a, k.t2 = cMakeIface, c.o(x.X), ti(x.X.Type())
	case *ssa.MakeMap:
		k.op = cMakeMap
	case *ssa.MakeSlice:
		k.op, k.a, k.b = cMakeSlice, c.o(x.Len), c.o(x.Cap)
		k.t2 = k.t.Elem()
	case *ssa.MapUpdate:
		k.op, k.args = cMapUpdate, []opnd{c.o(x.Map), c.o(x.Key), c.o(x.Value)}
	case *ssa.Next:
		k.op, k.a = cNext, c.o(x.Iter)
		if x.IsString {
			k.n = 1
		}
	case *ssa.Range:
		k.op, k.a = cRange, c.o(x.X)
		k.t2 = ti(x.X.Type())
	case *ssa.Panic:
		k.op, k.a = cPanic, c.o(x.X)
	case *ssa.Return:
		k.op = cReturn
		for _, r := range x.Results {
			k.args = append(k.args, c.o(r))
		}
	case *ssa.Slice:
		k.op, k.a = cSlice, c.o(x.X)
		k.t2 = ti(x.X.Type())
		no := c.o(ssa.NewConst(constant.MakeInt64(-1), types.Typ[types.Int]))
		k.args = []opnd{no, no, no}
		for i, v := range []ssa.Value{x.Low, x.High, x.Max} {
			if v != nil {
				k.args[i] = c.o(v)
				k.n |= 1 << i
			}
		}
	case *ssa.SliceToArrayPointer:
		k.op, k.a = cSliceToArr, c.o(x.X)
		k.n = k.t.Elem().n
	case *ssa.Store:
		k.op, k.a, k.b = cStore, c.o(x.Addr), c.o(x.Val)
	case *ssa.TypeAssert:
		k.op, k.a = cTypeAssert, c.o(x.X)
		k.t2 = ti(x.AssertedType)
		if x.CommaOk {
			k.n = 1
		}
	case *ssa.Defer:
		c.call(&k, &x.Call)
		// keep the call kind in n
		k.n = int(k.op)
		k.op = cDefer
	case *ssa.RunDefers:
		k.op = cRunDefers
	case *ssa.DebugRef:
		k.op = cNop
	default:
		k.op, k.why = cUnsup, in.String()
	}
	return k
}

func (c *comp) call(k *cin, call *ssa.CallCommon) {
	k.args = c.args(call)
	if call.IsInvoke() {
		k.op = cCallInvoke
		k.a = c.o(call.Value)
		k.name = call.Method.Id()
		k.fn = nil
		k.t2 = ti(call.Value.Type())
		k.meth = call.Method
		return
	}
	switch f := call.Value.(type) {
	case *ssa.Builtin:
		k.op, k.name = cBuiltin, f.Name()
		if len(call.Args) > 0 {
			k.t2 = ti(call.Args[0].Type())
		}
	case *ssa.Function:
		k.op, k.fn = cCallStatic, f
	default:
		k.op = cCallDyn
		k.a = c.o(call.Value)
	}
}

// postdom computes immediate post-dominators (-1 = virtual exit).
func (c *comp) postdom() {
	blocks := c.cf.fn.Blocks
	n := len(blocks)
	if n == 0 {
		return
	}
	exit := n
	// reverse CFG post order from exit
	succ := make([][]int, n+1) // succ in reversed graph = preds in CFG
	pred := make([][]int, n+1) // pred in reversed graph = succs in CFG
	for i, b := range blocks {
		if len(b.Succs) == 0 {
			pred[i] = append(pred[i], exit)
			succ[exit] = append(succ[exit], i)
		}
		for _, s := range b.Succs {
			pred[i] = append(pred[i], s.Index)
			succ[s.Index] = append(succ[s.Index], i)
		}
	}
	order := []int{}
	num := make([]int, n+1)
	for i := range num {
		num[i] = -1
	}
	seen := make([]bool, n+1)
	var dfs func(int)
	dfs = func(u int) {
		seen[u] = true
		for _, v := range succ[u] {
			if !seen[v] {
				dfs(v)
			}
		}
		num[u] = len(order)
		order = append(order, u)
	}
	dfs(exit)
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[exit] = exit
	inter := func(a, b int) int {
		for a != b {
			for num[a] < num[b] {
				a = idom[a]
			}
			for num[b] < num[a] {
				b = idom[b]
			}
		}
		return a
	}
	for ch := true; ch; {
		ch = false
		for i := len(order) - 1; i >= 0; i-- {
			u := order[i]
			if u == exit {
				continue
			}
			nd := -1
			for _, p := range pred[u] {
				if num[p] >= 0 && idom[p] >= 0 {
					if nd < 0 {
						nd = p
					} else {
						nd = inter(nd, p)
					}
				}
			}
			if nd >= 0 && idom[u] != nd {
				idom[u] = nd
				ch = true
			}
		}
	}
	for i := range blocks {
		d := idom[i]
		if d < 0 || d == exit {
			c.cf.blocks[i].ipdom = -1
		} else {
			c.cf.blocks[i].ipdom = int32(d)
		}
	}
}

func (c *comp) liveness() {
	cf := c.cf
	n := len(cf.blocks)
	w := (cf.nreg + 63) / 64
	use := make([][]uint64, n)
	def := make([][]uint64, n)
	in := make([][]uint64, n) // after phis
	for i := range cf.blocks {
		use[i], def[i], in[i] = make([]uint64, w), make([]uint64, w), make([]uint64, w)
		for j := range cf.blocks[i].ins {
			k := &cf.blocks[i].ins[j]
			u := func(o opnd) {
				if o >= 0 && def[i][o/64]&(1<<(uint(o)%64)) == 0 {
					use[i][o/64] |= 1 << (uint(o) % 64)
				}
			}
			if usesA(k) {
				u(k.a)
			}
			if usesB(k) {
				u(k.b)
			}
			for _, o := range k.args {
				u(o)
			}
			if k.dst >= 0 {
				def[i][k.dst/64] |= 1 << (uint(k.dst) % 64)
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			out := make([]uint64, w)
			for _, s := range cf.fn.Blocks[i].Succs {
				si := s.Index
				var phid = make([]uint64, w)
				for _, m := range cf.blocks[si].phis[int32(i)] {
					phid[m.dst/64] |= 1 << (uint(m.dst) % 64)
				}
				for k := range out {
					out[k] |= in[si][k] &^ phid[k]
				}
				for _, m := range cf.blocks[si].phis[int32(i)] {
					if m.src >= 0 {
						out[m.src/64] |= 1 << (uint(m.src) % 64)
					}
				}
			}
			for k := range out {
				nv := use[i][k] | out[k]&^def[i][k]
				if nv != in[i][k] {
					in[i][k] = nv
					ch = true
				}
			}
		}
	}
	for i := range cf.blocks {
		out := make([]uint64, w)
		for _, s := range cf.fn.Blocks[i].Succs {
			si := s.Index
			phid := make([]uint64, w)
			for _, m := range cf.blocks[si].phis[int32(i)] {
				phid[m.dst/64] |= 1 << (uint(m.dst) % 64)
			}
			for k := range out {
				out[k] |= in[si][k] &^ phid[k]
			}
			for _, m := range cf.blocks[si].phis[int32(i)] {
				if m.src >= 0 {
					out[m.src/64] |= 1 << (uint(m.src) % 64)
				}
			}
		}
		if cf.recov >= 0 {
			for k := range out {
				out[k] |= in[cf.recov][k]
			}
		}
		cf.blocks[i].liveOut = out
	}
	for i := range cf.blocks {
		if cf.recov >= 0 && int32(i) != cf.recov {
			for k := range in[i] {
				in[i][k] |= in[cf.recov][k]
			}
		}
		for r := 0; r < cf.nreg; r++ {
			if in[i][r/64]&(1<<(uint(r)%64)) != 0 {
				cf.blocks[i].live = append(cf.blocks[i].live, int32(r))
			}
		}
	}
}

func usesA(k *cin) bool {
	switch k.op {
	case cAlloc, cCallStatic, cBuiltin, cJump, cMakeClosure, cMakeMap, cMapUpdate, cReturn, cRunDefers, cUnsup, cNop:
		return false
	case cDefer:
		return copc(k.n) == cCallInvoke || copc(k.n) == cCallDyn
	}
	return true
}

func usesB(k *cin) bool {
	switch k.op {
	case cBin, cIndex, cIndexAddr, cLookupStr, cLookupMap, cMakeSlice, cStore:
		return true
	}
	return false
}

// live lists the registers live just before instruction pc of block b.
func (cf *cfunc) liveRegs(b int32, pc int32) []int32 {
	cb := &cf.blocks[b]
	if pc == 0 {
		return cb.live
	}
	cb.once.Do(func() {
		cb.liveAt = make([][]int32, len(cb.ins)+1)
		cur := append([]uint64(nil), cb.liveOut...)
		list := func() []int32 {
			var r []int32
			for i := 0; i < cf.nreg; i++ {
				if cur[i/64]&(1<<(uint(i)%64)) != 0 {
					r = append(r, int32(i))
				}
			}
			return r
		}
		cb.liveAt[len(cb.ins)] = list()
		for j := len(cb.ins) - 1; j >= 0; j-- {
			k := &cb.ins[j]
			if k.dst >= 0 {
				cur[k.dst/64] &^= 1 << (uint(k.dst) % 64)
			}
			u := func(o opnd) {
				if o >= 0 {
					cur[o/64] |= 1 << (uint(o) % 64)
				}
			}
			if usesA(k) {
				u(k.a)
			}
			if usesB(k) {
				u(k.b)
			}
			for _, o := range k.args {
				u(o)
			}
			cb.liveAt[j] = list()
		}
	})
	return cb.liveAt[pc]
}

// loops finds reverse post order and natural loops.
func (c *comp) loops() {
	cf := c.cf
	blocks := cf.fn.Blocks
	n := len(blocks)
	seen := make([]bool, n)
	post := 0
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, x := range b.Succs {
			if !seen[x.Index] {
				dfs(x)
			}
		}
		cf.blocks[b.Index].rpo = int32(n - post)
		post++
	}
	for _, b := range blocks {
		if !seen[b.Index] {
			dfs(b)
		}
	}
	for i := range cf.blocks {
		cf.blocks[i].loop = -1
	}
	type lp struct {
		head int
		body map[int]bool
	}
	var ls []*lp
	byHead := map[int]*lp{}
	for _, t := range blocks {
		for _, h := range t.Succs {
			if !h.Dominates(t) {
				continue
			}
			l := byHead[h.Index]
			if l == nil {
				l = &lp{h.Index, map[int]bool{h.Index: true}}
				byHead[h.Index] = l
				ls = append(ls, l)
			}
			work := []*ssa.BasicBlock{t}
			for len(work) > 0 {
				b := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[b.Index] {
					continue
				}
				l.body[b.Index] = true
				work = append(work, b.Preds...)
			}
		}
	}
	sort.SliceStable(ls, func(i, j int) bool { return len(ls[i].body) > len(ls[j].body) })
	cf.nloops = len(ls)
	for i, l := range ls {
		cf.heads = append(cf.heads, int32(l.head))
		cf.blocks[l.head].loop = int32(i)
		for b := range l.body {
			cf.blocks[b].loops = append(cf.blocks[b].loops, int32(i))
		}
	}
}
