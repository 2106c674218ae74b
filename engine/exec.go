package main

// The symbolic machine: executes compiled SSA on a State.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type forkReq struct{ cond *Term }
type endPath struct{ why string } // assume failed, exit

type rtPanic struct{ msg string } // Go run-time panic in the code under test

type outcome uint8

const (
	outStop outcome = iota
	outJoin
	outFork
	outEnd
)

type Eng struct {
	c        *Ctx
	sol      *Solver
	paths    *pathTab
	ids      uint32
	prog     *Prog
	job      *Job
	deadline time.Time
	// statistics
	Instrs   int64
	Forks    int
	Paths    int
	Merges   int
	Guessed  int
	MergeF   int
	maxPaths int
	fns      map[*ssa.Function]*fnInfo
	icache   map[*cin]icache // the method last called by each instruction
	args     []Val
	runeMemo map[[4]int32]runeEnc
	res      *JobResult
	dead     bool // out of time
}

type runeEnc struct {
	r    *Term
	size int
}

func floatVal(w uint8, f float64) Val {
	if w == 32 {
		return Val{k: KFloat, w: 32, n: uint64(math.Float32bits(float32(f)))}
	}
	return Val{k: KFloat, w: 64, n: math.Float64bits(f)}
}

func (v Val) f64() float64 {
	if v.w == 32 {
		return float64(math.Float32frombits(uint32(v.n)))
	}
	return math.Float64frombits(v.n)
}

func (e *Eng) term(v Val) *Term {
	if v.x != nil {
		if t, ok := v.x.(*Term); ok {
			return t
		}
	}
	switch v.k {
	case KBool:
		return e.c.Bool(v.n == 1)
	case KInt:
		return e.c.Const(v.w, v.n)
	}
	panic(unsup("term of " + v.String()))
}

func fromTerm(k Kind, t *Term) Val {
	if t.isC() {
		return Val{k: k, w: t.w, n: t.val}
	}
	return Val{k: k, w: t.w, x: t}
}

func bTerm(t *Term) Val { return fromTerm(KBool, t) }
func iTerm(t *Term) Val { return fromTerm(KInt, t) }

// known reports whether pc already fixes c.
func known(pc *PC, c *Term, not *Term) (bool, bool) {
	for p := pc; p != nil; p = p.parent {
		if p.t == c {
			return true, true
		}
		if p.t == not {
			return false, true
		}
		if p.t.op == OAnd {
			if v, ok := inAnd(p.t, c, not, 6); ok {
				return v, true
			}
		}
	}
	return false, false
}

func inAnd(t, c, not *Term, d int) (bool, bool) {
	if t == c {
		return true, true
	}
	if t == not {
		return false, true
	}
	if t.op == OAnd && d > 0 {
		for _, a := range t.args[:2] {
			if v, ok := inAnd(a, c, not, d-1); ok {
				return v, true
			}
		}
	}
	return false, false
}

func (s *State) addPC(t *Term, weak bool) {
	d := 1
	if s.pc != nil {
		d = s.pc.depth + 1
	}
	s.pc = &PC{t, s.pc, d, weak, s.nobj}
}

// decide resolves a boolean term on this state: either it is fixed, or the
// instruction is abandoned and re-executed on two forked states.
func (e *Eng) decide(s *State, c *Term) bool {
	if c.isC() {
		return c.val == 1
	}
	n := e.c.Not(c)
	if v, ok := known(s.pc, c, n); ok {
		return v
	}
	mv := s.m.ev(c) == 1
	other := n
	if !mv {
		other = c
	}
	if g := e.c.guess(s.pc, s.m.m, other); g != nil {
		e.Guessed++
		e.res.pendingModel = newMEval(g)
		panic(forkReq{c})
	}
	r, m := e.sol.Check(s.pc, other)
	switch r {
	case "unsat":
		if mv {
			s.addPC(c, true)
		} else {
			s.addPC(n, true)
		}
		return mv
	case "sat":
		e.res.pendingModel = newMEval(m)
		panic(forkReq{c})
	}
	e.res.reduce("solver gave no answer on a branch condition")
	// keep only the side the model witnesses
	if mv {
		s.addPC(c, false)
	} else {
		s.addPC(n, false)
	}
	return mv
}

func (e *Eng) decideV(s *State, v Val) bool {
	if t := v.sym(); t != nil {
		return e.decide(s, t)
	}
	return v.n == 1
}

// concretize forks over the feasible values of an integer.
func (e *Eng) concretize(s *State, v Val) uint64 {
	t := v.sym()
	if t == nil {
		return v.n
	}
	for k := 0; k < 300; k++ {
		x := s.m.ev(t)
		if e.decide(s, e.c.Eq(t, e.c.Const(t.w, x))) {
			return x
		}
	}
	panic(unsup("concretize: too many values"))
}

func (e *Eng) cInt(s *State, v Val) int {
	return int(sext(e.concretize(s, v), v.w))
}

// val reads an operand.
func (e *Eng) val(s *State, f *Frame, o opnd) Val {
	if o >= 0 {
		return f.regs[o]
	}
	k := &f.cf.consts[-o-1]
	if k.g != nil {
		e.needInit(s, k.g)
	}
	return k.v
}

type needInitReq struct{ pkg *ssa.Package }

func (e *Eng) needInit(s *State, g *ssa.Global) {
	p := g.Pkg
	if p == nil {
		return
	}
	for _, q := range s.inited {
		if q == p {
			return
		}
	}
	if e.prog.noInit(p) {
		return
	}
	panic(needInitReq{p})
}

func (e *Eng) pushFrame(s *State, fn *ssa.Function, args []Val, bind []Val, dst int32, ret retKind, site *cin) {
	e.pushInfo(s, e.info(fn), args, bind, dst, ret, site)
}

// info is what the engine keeps about fn.
func (e *Eng) info(fn *ssa.Function) *fnInfo {
	fi := e.fns[fn]
	if fi == nil {
		fi = &fnInfo{fn: fn, h: e.intrinsic(fn)}
		e.fns[fn] = fi
	}
	return fi
}

func (e *Eng) pushInfo(s *State, fi *fnInfo, args []Val, bind []Val, dst int32, ret retKind, site *cin) {
	cf := fi.cf
	if cf == nil {
		if fi.fn.Blocks == nil {
			panic(unsup("no body: " + fi.fn.String()))
		}
		cf = compiled(fi.fn)
		fi.cf, fi.seen = cf, make([]bool, len(cf.blocks))
	}
	if len(s.frames) > 400 {
		panic(unsup("call depth"))
	}
	var f *Frame
	if n := len(fi.free); n > 0 {
		f = fi.free[n-1]
		fi.free = fi.free[:n-1]
		clear(f.regs)
		clear(f.it)
		*f = Frame{owner: s.id, cf: cf, info: fi, regs: f.regs, it: f.it, dst: dst, ret: ret, site: site}
	} else {
		f = &Frame{owner: s.id, cf: cf, info: fi, regs: make([]Val, cf.nreg), it: make([]int32, cf.nloops), dst: dst, ret: ret, site: site}
	}
	for i, p := range cf.params {
		f.regs[p] = args[i]
	}
	for i, p := range cf.free {
		f.regs[p] = bind[i]
	}
	s.frames = append(s.frames, f)
	fi.seen[0] = true
}

// fnInfo is what one engine keeps about a function: the blocks it entered and
// frames to use again.
type icache struct {
	t  *tinfo
	fi *fnInfo
}

type fnInfo struct {
	fn   *ssa.Function
	h    handler
	cf   *cfunc
	seen []bool
	free []*Frame
}

func (e *Eng) jump(s *State, f *Frame, to int32) {
	from := f.blk
	mv := f.cf.blocks[to].phis[from]
	if len(mv) == 1 {
		f.regs[mv[0].dst] = e.val(s, f, mv[0].src)
	} else if len(mv) > 1 {
		var tmp [16]Val
		t := tmp[:0]
		for _, m := range mv {
			t = append(t, e.val(s, f, m.src))
		}
		for i, m := range mv {
			f.regs[m.dst] = t[i]
		}
	}
	if l := f.cf.blocks[to].loop; l >= 0 {
		if f.cf.blocks[from].inLoop(l) {
			f.it[l]++
		} else {
			f.it[l] = 0
		}
	}
	f.blk, f.pc = to, 0
	f.info.seen[to] = true
}

// run executes s until the stop point, a fork or the end of the path.
// stopDepth/stopBlk: frame depth and block at which to stop (blk -1: when the
// frame at that depth has returned).
// With joins set it also pauses when the frame at that depth enters a block
// with several predecessors.
func (e *Eng) run(s *State, stopDepth int, stopBlk int32, joins bool) (out outcome, cond *Term) {
	for {
		o, c, again := e.runInner(s, stopDepth, stopBlk, joins)
		if !again {
			return o, c
		}
	}
}

func (e *Eng) runInner(s *State, stopDepth int, stopBlk int32, joins bool) (out outcome, cond *Term, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case forkReq:
				out, cond, again = outFork, x.cond, false
			case endPath:
				e.endPath(s, x.why)
				out, again = outEnd, false
			case unsupErr:
				where := ""
				for i := len(s.frames) - 1; i >= 0 && i >= len(s.frames)-4; i-- {
					where += " < " + s.frames[i].cf.name
				}
				// a stdlib initialiser may be abandoned
				for i := len(s.frames) - 1; i >= 0; i-- {
					if s.frames[i].ret == retRerun {
						s.frames = s.frames[:i]
						e.res.note("package initialiser abandoned: " + x.why + where)
						out, again = outStop, true
						return
					}
				}
				e.res.unsupported(x.why + where)
				e.endPath(s, "unsupported")
				out, again = outEnd, false
			case rtPanic:
				if e.startPanic(s, vStr("runtime error: "+x.msg), "runtime error: "+x.msg) {
					if len(s.frames) < stopDepth {
						out, again = outStop, false
						return
					}
					again = true
					return
				}
				out, again = outEnd, false
			case needInitReq:
				s.inited = append(s.inited, x.pkg)
				if fn := x.pkg.Func("init"); fn != nil && fn.Blocks != nil {
					e.pushFrame(s, fn, nil, nil, -1, retRerun, nil)
				}
				again = true
			default:
				panic(r)
			}
		}
	}()
	n := 0
	for {
		f := s.top()
		k := &f.cf.blocks[f.blk].ins[f.pc]
		e.Instrs++
		n++
		if e.dead || n&0x3fff == 0 && time.Now().After(e.deadline) {
			e.dead = true
			e.res.reduce("time limit")
			e.endPath(s, "deadline")
			return outEnd, nil, false
		}
		s.steps++
		if s.steps > e.job.maxSteps {
			e.endless(s)
			panic(unsup("step limit (possible endless loop)"))
		}
		switch k.op {
		case cJump:
			e.jump(s, f, k.jmp[0])
			if len(s.frames) == stopDepth {
				if f.blk == stopBlk {
					return outStop, nil, false
				}
				if joins && f.cf.blocks[f.blk].npreds > 1 {
					return outJoin, nil, false
				}
			}
			continue
		case cIf:
			v := e.val(s, f, k.a)
			to := k.jmp[1]
			if e.decideV(s, v) {
				to = k.jmp[0]
			}
			e.jump(s, f, to)
			if len(s.frames) == stopDepth {
				if f.blk == stopBlk {
					return outStop, nil, false
				}
				if joins && f.cf.blocks[f.blk].npreds > 1 {
					return outJoin, nil, false
				}
			}
			continue
		case cReturn:
			if f.defers != nil && len(f.defers) > 0 {
				// no RunDefers executed (recover block); run them now
				e.runDefer(s, f)
				continue
			}
			var r Val
			switch len(k.args) {
			case 0:
			case 1:
				r = e.val(s, f, k.args[0])
			default:
				a := &Agg{e: make([]Val, len(k.args))}
				for i, o := range k.args {
					a.e[i] = e.val(s, f, o)
				}
				r = Val{k: KAgg, x: a}
			}
			if e.popReturn(s, r) {
				e.finish(s)
				return outEnd, nil, false
			}
			if len(s.frames) < stopDepth {
				return outStop, nil, false
			}
			continue
		default:
			e.step(s, f, k)
		}
	}
}

// popReturn leaves the top frame with result r; true when the program ended.
func (e *Eng) popReturn(s *State, r Val) bool {
	f := s.frames[len(s.frames)-1]
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		return true
	}
	c := s.top()
	if f.owner == s.id && len(f.info.free) < 64 {
		// nothing else refers to the frame
		f.info.free = append(f.info.free, f)
	}
	switch f.ret {
	case retNormal:
		if f.dst >= 0 {
			c.regs[f.dst] = r
		}
		c.pc++
	case retDiscard:
		if c.pan != nil {
			if c.pan.recovered {
				c.pan = nil
				if len(c.defers) > 0 {
					// remaining defers run on the way out
				}
				e.resumeRecovered(s, c)
				return false
			}
			if !e.unwind(s) {
				panic(endPath{""})
			}
		}
	case retRerun:
	}
	return false
}

func (e *Eng) resumeRecovered(s *State, f *Frame) {
	if f.cf.recov >= 0 {
		f.blk, f.pc = f.cf.recov, 0
		f.info.seen[f.blk] = true
		return
	}
	// no named results: return zero values after remaining defers
	for len(f.defers) > 0 {
		panic(unsup("defers after recover without recover block"))
	}
	var r Val
	switch len(f.cf.res) {
	case 0:
	case 1:
		r = zero(f.cf.res[0])
	default:
		a := &Agg{e: make([]Val, len(f.cf.res))}
		for i, t := range f.cf.res {
			a.e[i] = zero(t)
		}
		r = Val{k: KAgg, x: a}
	}
	if e.popReturn(s, r) {
		e.finish(s)
		panic(endPath{""})
	}
}

func (e *Eng) runDefer(s *State, f *Frame) {
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	if d.blt != "" {
		return
	}
	cl := d.fn.x.(*Closure)
	if h := e.intrinsic(cl.fn); h != nil {
		h(e, s, f, nil, d.args)
		return
	}
	e.pushFrame(s, cl.fn, d.args, cl.bind, -1, retDiscard, nil)
}

// startPanic begins unwinding; false when the path has ended.
func (e *Eng) startPanic(s *State, v Val, msg string) bool {
	f := s.top()
	f.pan = &panicRec{v: v, msg: msg}
	return e.unwind(s)
}

func (e *Eng) unwind(s *State) bool {
	for {
		f := s.top()
		if len(f.defers) > 0 {
			e.runDefer(s, f)
			return true
		}
		p := f.pan
		if f.ret == retRerun {
			e.res.unsupported("panic in package initialiser: " + p.msg)
			e.endPath(s, "unsupported")
			return false
		}
		s.frames = s.frames[:len(s.frames)-1]
		if len(s.frames) == 0 {
			e.uncaught(s, p)
			return false
		}
		s.top().pan = &panicRec{v: p.v, msg: p.msg}
	}
}

func (e *Eng) set(f *Frame, k *cin, v Val) {
	f.regs[k.dst] = v
	f.pc++
}

func (e *Eng) nilDeref() { panic(rtPanic{"invalid memory address or nil pointer dereference"}) }

func (e *Eng) step(s *State, f *Frame, k *cin) {
	switch k.op {
	case cNop:
		f.pc++
	case cAlloc:
		e.set(f, k, vPtr(s.alloc(zero(k.t)), 0))
	case cBin:
		e.set(f, k, e.binop(s, k.tok, k.t2, e.val(s, f, k.a), e.val(s, f, k.b)))
	case cNeg:
		v := e.val(s, f, k.a)
		if v.k == KFloat {
			e.set(f, k, floatVal(v.w, -v.f64()))
		} else if t := v.sym(); t != nil {
			e.set(f, k, iTerm(e.c.Bin(OSub, e.c.Const(t.w, 0), t)))
		} else {
			e.set(f, k, vInt(v.w, -v.n))
		}
	case cNot:
		v := e.val(s, f, k.a)
		if t := v.sym(); t != nil {
			e.set(f, k, bTerm(e.c.Not(t)))
		} else {
			e.set(f, k, vBool(v.n == 0))
		}
	case cCompl:
		v := e.val(s, f, k.a)
		if t := v.sym(); t != nil {
			e.set(f, k, iTerm(e.c.Bin(OBXor, t, e.c.Const(t.w, mask(t.w)))))
		} else {
			e.set(f, k, vInt(v.w, ^v.n))
		}
	case cLoad:
		p := e.val(s, f, k.a)
		if p.k != KPtr {
			panic(unsup("load via " + p.String()))
		}
		if p.isNilPtr() {
			e.nilDeref()
		}
		o, pa := p.ptr()
		e.set(f, k, e.load(s, o, pa))
	case cStore:
		p := e.val(s, f, k.a)
		v := e.val(s, f, k.b)
		if p.isNilPtr() {
			e.nilDeref()
		}
		o, pa := p.ptr()
		e.store(s, o, pa, v)
		f.pc++
	case cMove:
		e.set(f, k, e.val(s, f, k.a))
	case cConvert:
		e.set(f, k, e.convert(s, k.t2, k.t, e.val(s, f, k.a)))
	case cExtract, cField:
		v := e.val(s, f, k.a)
		a, ok := v.x.(*Agg)
		if !ok {
			panic(unsup("extract from " + v.String()))
		}
		e.set(f, k, a.e[k.n])
	case cFieldAddr:
		p := e.val(s, f, k.a)
		if p.isNilPtr() {
			e.nilDeref()
		}
		o, pa := p.ptr()
		e.set(f, k, vPtr(o, e.paths.sub(pa, k.n)))
	case cIndex:
		a := e.val(s, f, k.a).agg()
		i := e.val(s, f, k.b)
		e.set(f, k, e.readIdx(s, a.e, 0, len(a.e), i))
	case cIndexAddr:
		b := e.val(s, f, k.a)
		iv := e.val(s, f, k.b)
		if k.n >= 0 { // pointer to array
			i := e.boundIdx(s, iv, k.n)
			if b.isNilPtr() {
				e.nilDeref()
			}
			o, pa := b.ptr()
			e.set(f, k, vPtr(o, e.paths.sub(pa, i)))
			return
		}
		sl := b.slice()
		n := 0
		if sl != nil {
			n = sl.ln
		}
		i := e.boundIdx(s, iv, n)
		e.set(f, k, vPtr(sl.obj, e.paths.sub(sl.path, sl.off+i)))
	case cLookupStr:
		v := e.val(s, f, k.a)
		b := e.strBytes(v)
		i := e.val(s, f, k.b)
		if i.sym() == nil {
			n := sext(i.n, i.w)
			if n < 0 || n >= int64(len(b)) {
				panic(rtPanic{fmt.Sprintf("index out of range [%d] with length %d", n, len(b))})
			}
			e.set(f, k, iTerm(b[n]))
			return
		}
		vs := make([]Val, len(b))
		for j := range b {
			vs[j] = iTerm(b[j])
		}
		e.set(f, k, e.readIdx(s, vs, 0, len(vs), i))
	case cLookupMap:
		m := e.val(s, f, k.a)
		key := e.val(s, f, k.b)
		v, ok := e.mapGet(s, m, key)
		if !ok {
			v = zero(k.t2)
		}
		if k.n == 1 {
			v = vTuple(v, vBool(ok))
		}
		e.set(f, k, v)
	case cMapUpdate:
		m := e.val(s, f, k.args[0])
		e.mapSet(s, m, e.val(s, f, k.args[1]), e.val(s, f, k.args[2]))
		f.pc++
	case cMakeMap:
		id := s.alloc(Val{k: KMap, x: &MapV{}})
		e.set(f, k, Val{k: KMap, n: uint64(id)})
	case cMakeSlice:
		n := e.cInt(s, e.val(s, f, k.a))
		c := e.cInt(s, e.val(s, f, k.b))
		if n < 0 || n > 1<<20 {
			panic(rtPanic{"makeslice: len out of range"})
		}
		if c < n {
			panic(rtPanic{"makeslice: cap out of range"})
		}
		e.set(f, k, e.newSlice(s, k.t2, n, c))
	case cMakeIface:
		e.set(f, k, Val{k: KIface, x: &Iface{k.t2, e.val(s, f, k.a)}})
	case cMakeClosure:
		cl := &Closure{fn: k.fn}
		for _, o := range k.args {
			cl.bind = append(cl.bind, e.val(s, f, o))
		}
		e.set(f, k, Val{k: KFunc, x: cl})
	case cSlice:
		e.set(f, k, e.sliceOp(s, f, k))
	case cSliceToArr:
		sl := e.val(s, f, k.a).slice()
		if sl == nil {
			if k.n == 0 {
				e.set(f, k, vNilPtr)
				return
			}
			panic(rtPanic{"cannot convert slice to array: length 0"})
		}
		if sl.ln < k.n {
			panic(rtPanic{"cannot convert slice to array pointer"})
		}
		if sl.off == 0 && len(e.rarr(s, sl.obj, sl.path).e) == k.n {
			e.set(f, k, vPtr(sl.obj, sl.path))
			return
		}
		panic(unsup("slice to array pointer into the middle"))
	case cTypeAssert:
		v := e.val(s, f, k.a)
		r, ok := e.typeAssert(s, v, k.t2)
		if k.n == 1 {
			if !ok {
				r = zero(k.t2)
			}
			e.set(f, k, vTuple(r, vBool(ok)))
			return
		}
		if !ok {
			panic(rtPanic{"interface conversion: wrong dynamic type for " + k.t2.t.String()})
		}
		e.set(f, k, r)
	case cRange:
		v := e.val(s, f, k.a)
		it := &Iter{}
		if k.t2.kind == tStr {
			it.isStr = true
			it.str = v
		} else {
			it.m = e.mapV(s, v)
			if it.m != nil && len(it.m.keys) > 1 && e.job.mapRev {
				it.m = it.m.reversed()
			}
		}
		e.set(f, k, Val{k: KIter, x: it})
	case cNext:
		e.next(s, f, k)
	case cPanic:
		v := e.val(s, f, k.a)
		msg := "panic"
		if i := v.iface(); i != nil {
			msg = "panic: " + i.v.String()
		}
		if v.iface() == nil {
			msg = "panic(nil)"
		}
		if !e.startPanic(s, v, msg) {
			panic(endPath{""})
		}
	case cDefer:
		d := deferRec{}
		for _, o := range k.args {
			d.args = append(d.args, e.val(s, f, o))
		}
		switch copc(k.n) {
		case cCallStatic:
			d.fn = Val{k: KFunc, x: funcVal(k.fn)}
		case cCallDyn:
			d.fn = e.val(s, f, k.a)
			if d.fn.x == nil {
				e.nilDeref()
			}
		case cCallInvoke:
			fn, recv := e.lookupMethod(s, e.val(s, f, k.a), k)
			d.fn = Val{k: KFunc, x: funcVal(fn)}
			d.args = append([]Val{recv}, d.args...)
		default:
			d.blt = k.name
		}
		f.defers = append(f.defers, d)
		f.pc++
	case cRunDefers:
		if len(f.defers) > 0 {
			e.runDefer(s, f)
			return
		}
		f.pc++
	case cCallStatic:
		e.call(s, f, k, e.info(k.fn), nil, nil)
	case cCallDyn:
		v := e.val(s, f, k.a)
		if v.k == KFunc && v.x == nil {
			e.nilDeref()
		}
		cl, ok := v.x.(*Closure)
		if !ok {
			panic(unsup("call of " + v.String()))
		}
		e.call(s, f, k, e.info(cl.fn), cl.bind, nil)
	case cCallInvoke:
		v := e.val(s, f, k.a)
		i := v.iface()
		if i == nil {
			e.nilDeref()
		}
		ic := e.icache[k]
		if ic.t != i.t {
			fn, _ := e.lookupMethod(s, v, k)
			ic = icache{i.t, e.info(fn)}
			e.icache[k] = ic
		}
		e.call(s, f, k, ic.fi, nil, &i.v)
	case cBuiltin:
		e.builtin(s, f, k)
	case cUnsup:
		panic(unsup(k.why))
	default:
		panic(unsup(fmt.Sprintf("op %d", k.op)))
	}
}

// argv is the arguments of a call, in a new slice or in a scratch one.
func (e *Eng) argv(s *State, f *Frame, k *cin, recv *Val, fresh bool) []Val {
	r := e.args[:0]
	if fresh {
		r = make([]Val, 0, len(k.args)+1)
	}
	if recv != nil {
		r = append(r, *recv)
	}
	for _, o := range k.args {
		r = append(r, e.val(s, f, o))
	}
	if !fresh {
		e.args = r
	}
	return r
}

func (e *Eng) call(s *State, f *Frame, k *cin, fi *fnInfo, bind []Val, recv *Val) {
	fn := fi.fn
	if fn == e.prog.swapStub {
		args := e.argv(s, f, k, recv, true)
		sl := bind[0].slice()
		arr := e.arr(s, sl.obj, sl.path)
		i, j := sl.off+e.boundIdx(s, args[0], sl.ln), sl.off+e.boundIdx(s, args[1], sl.ln)
		arr.e[i], arr.e[j] = arr.e[j], arr.e[i]
		f.pc++
		return
	}
	if fi.h != nil {
		r := fi.h(e, s, f, k, e.argv(s, f, k, recv, true))
		if r.k == KNone && len(s.frames) > 0 && s.frames[len(s.frames)-1] != f {
			return // the intrinsic pushed a frame
		}
		if k.dst >= 0 {
			f.regs[k.dst] = r
		}
		f.pc++
		return
	}
	if fn.Synthetic == "package initializer" {
		// imported packages are initialised lazily
		f.pc++
		return
	}
	if r := e.redirect(f, fn); r != nil {
		fi = e.info(r)
	}
	e.pushInfo(s, fi, e.argv(s, f, k, recv, false), bind, k.dst, retNormal, k)
}

func (e *Eng) lookupMethod(s *State, v Val, k *cin) (*ssa.Function, Val) {
	i := v.iface()
	if i == nil {
		e.nilDeref()
	}
	if r, ok := i.t.meths.Load(k.name); ok {
		return r.(*ssa.Function), i.v
	}
	fn := e.prog.method(i.t.t, k.meth)
	if fn == nil {
		panic(unsup("no method " + k.name + " on " + i.t.t.String()))
	}
	i.t.meths.Store(k.name, fn)
	return fn, i.v
}

func (e *Eng) typeAssert(s *State, v Val, t *tinfo) (Val, bool) {
	i := v.iface()
	if i == nil {
		return v, false
	}
	if t.kind == tIface {
		if e.prog.implements(i.t, t) {
			return v, true
		}
		return v, false
	}
	if i.t == t {
		return i.v, true
	}
	return v, false
}

func (e *Eng) newSlice(s *State, el *tinfo, n, c int) Val {
	a := &Agg{e: make([]Val, c)}
	if c > 0 {
		z := zero(el)
		for i := range a.e {
			if z.k == KAgg {
				a.e[i] = zero(el)
			} else {
				a.e[i] = z
			}
		}
	}
	id := s.alloc(Val{k: KAgg, x: a})
	return Val{k: KSlice, x: &Slice{obj: id, ln: n, cp: c}}
}

// boundIdx checks and concretises an index.
func (e *Eng) boundIdx(s *State, iv Val, n int) int {
	if t := iv.sym(); t != nil {
		w := t.w
		in := e.c.Ult(t, e.c.Const(w, uint64(n)))
		if w < 64 && uint64(n) > mask(w) {
			in = e.c.tTrue
		}
		if !e.decide(s, in) {
			panic(rtPanic{"index out of range"})
		}
		return int(e.concretize(s, iv))
	}
	i := sext(iv.n, iv.w)
	if iv.w == 8 || iv.w == 16 || iv.w == 32 {
		// unsigned small indices arrive zero-extended; negative impossible for them
		if i < 0 {
			i = int64(iv.n)
			if n <= int(i) {
				panic(rtPanic{fmt.Sprintf("index out of range [%d] with length %d", i, n)})
			}
		}
	}
	if i < 0 || i >= int64(n) {
		panic(rtPanic{fmt.Sprintf("index out of range [%d] with length %d", i, n)})
	}
	return int(i)
}

// readIdx reads vals[off+i] with a possibly symbolic index.
func (e *Eng) readIdx(s *State, vals []Val, off, n int, iv Val) Val {
	t := iv.sym()
	if t == nil {
		return vals[off+e.boundIdx(s, iv, n)]
	}
	in := e.c.Ult(t, e.c.Const(t.w, uint64(n)))
	if t.w < 64 && uint64(n) > mask(t.w) {
		in = e.c.tTrue
	}
	if !e.decide(s, in) {
		panic(rtPanic{"index out of range"})
	}
	lo, hi := int(t.lo), int(min(t.hi, uint64(n-1)))
	if hi-lo > 256 || vals[off+lo].k != KInt && vals[off+lo].k != KBool {
		return vals[off+int(e.concretize(s, iv))]
	}
	k := vals[off+lo].k
	r := e.term(vals[off+hi])
	for i := hi - 1; i >= lo; i-- {
		r = e.c.Ite(e.c.Eq(t, e.c.Const(t.w, uint64(i))), e.term(vals[off+i]), r)
	}
	return fromTerm(k, r)
}

func (e *Eng) sliceOp(s *State, f *Frame, k *cin) Val {
	b := e.val(s, f, k.a)
	var idx [3]int
	for i := 0; i < 3; i++ {
		if k.n&(1<<i) != 0 {
			idx[i] = e.cInt(s, e.val(s, f, k.args[i]))
		} else {
			idx[i] = -1
		}
	}
	lo, hi, mx := idx[0], idx[1], idx[2]
	has := func(i int) bool { return k.n&(1<<i) != 0 }
	if !has(0) {
		lo = 0
	}
	bad := func() { panic(rtPanic{fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi)}) }
	switch k.t2.kind {
	case tStr:
		n := strLen(b)
		if !has(1) {
			hi = n
		}
		if lo < 0 || hi < lo || hi > n {
			bad()
		}
		return substr(b, lo, hi)
	case tSlice:
		sl := b.slice()
		if sl == nil {
			if !has(1) {
				hi = 0
			}
			if lo != 0 || hi != 0 {
				bad()
			}
			return b
		}
		if !has(1) {
			hi = sl.ln
		}
		if !has(2) {
			mx = sl.cp
		}
		if lo < 0 || hi < lo || hi > mx || mx > sl.cp {
			bad()
		}
		return Val{k: KSlice, x: &Slice{sl.obj, sl.path, sl.off + lo, hi - lo, mx - lo}}
	case tPtr:
		if b.isNilPtr() {
			e.nilDeref()
		}
		n := k.t2.Elem().n
		if !has(1) {
			hi = n
		}
		if !has(2) {
			mx = n
		}
		if lo < 0 || hi < lo || hi > mx || mx > n {
			bad()
		}
		o, p := b.ptr()
		return Val{k: KSlice, x: &Slice{o, p, lo, hi - lo, mx - lo}}
	}
	panic(unsup("slice of " + k.t2.t.String()))
}

// ---- strings ----

func strLen(v Val) int {
	switch x := v.x.(type) {
	case string:
		return len(x)
	case *SStr:
		return len(x.b)
	}
	panic(unsup("length of opaque text"))
}

func (e *Eng) strBytes(v Val) []*Term {
	switch x := v.x.(type) {
	case string:
		r := make([]*Term, len(x))
		for i := 0; i < len(x); i++ {
			r[i] = e.c.Const(8, uint64(x[i]))
		}
		return r
	case *SStr:
		return x.b
	}
	panic(unsup("bytes of opaque text"))
}

func mkStr(b []*Term) Val {
	for _, t := range b {
		if !t.isC() {
			return Val{k: KStr, x: &SStr{b}}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.val)
	}
	return vStr(string(r))
}

func substr(v Val, lo, hi int) Val {
	switch x := v.x.(type) {
	case string:
		return vStr(x[lo:hi])
	case *SStr:
		return mkStr(x.b[lo:hi:hi])
	}
	panic(unsup("substring of opaque text"))
}

func isOpq(v Val) bool { _, ok := v.x.(Opq); return ok }

func (e *Eng) concat(a, b Val) Val {
	if isOpq(a) || isOpq(b) {
		return Val{k: KStr, x: Opq{"concat"}}
	}
	x, ok1 := a.x.(string)
	y, ok2 := b.x.(string)
	if ok1 && ok2 {
		return vStr(x + y)
	}
	p, q := e.strBytes(a), e.strBytes(b)
	r := make([]*Term, 0, len(p)+len(q))
	return mkStr(append(append(r, p...), q...))
}

func (e *Eng) strEq(s *State, a, b Val) *Term {
	x, ok1 := a.x.(string)
	y, ok2 := b.x.(string)
	if ok1 && ok2 {
		return e.c.Bool(x == y)
	}
	if strLen(a) != strLen(b) {
		return e.c.tFalse
	}
	p, q := e.strBytes(a), e.strBytes(b)
	r := e.c.tTrue
	for i := range p {
		r = e.c.And(r, e.c.Eq(p[i], q[i]))
		if r == e.c.tFalse {
			return r
		}
	}
	return r
}

func (e *Eng) strLess(a, b Val) *Term {
	p, q := e.strBytes(a), e.strBytes(b)
	n := min(len(p), len(q))
	r := e.c.Bool(len(p) < len(q))
	for i := n - 1; i >= 0; i-- {
		r = e.c.Ite(e.c.Eq(p[i], q[i]), r, e.c.Ult(p[i], q[i]))
	}
	return r
}

// ---- comparison ----

func (e *Eng) eq(s *State, a, b Val) *Term {
	switch a.k {
	case KBool, KInt:
		if a.x == nil && b.x == nil {
			return e.c.Bool(a.n == b.n)
		}
		return e.c.Eq(e.term(a), e.term(b))
	case KFloat:
		return e.c.Bool(a.f64() == b.f64())
	case KStr:
		return e.strEq(s, a, b)
	case KPtr:
		return e.c.Bool(a.n == b.n)
	case KIface:
		x, y := a.iface(), b.iface()
		if x == nil || y == nil {
			return e.c.Bool(x == nil && y == nil)
		}
		if x.t != y.t {
			return e.c.tFalse
		}
		switch x.v.k {
		case KSlice, KMap, KFunc:
			panic(rtPanic{"comparing uncomparable type " + x.t.t.String()})
		}
		return e.eq(s, x.v, y.v)
	case KAgg:
		r := e.c.tTrue
		p, q := a.agg(), b.agg()
		for i := range p.e {
			r = e.c.And(r, e.eq(s, p.e[i], q.e[i]))
		}
		return r
	case KSlice, KFunc:
		return e.c.Bool(a.x == nil && b.x == nil)
	case KMap:
		return e.c.Bool(a.n == b.n)
	}
	panic(unsup("compare " + a.String()))
}

func (e *Eng) binop(s *State, op token.Token, t *tinfo, a, b Val) Val {
	switch op {
	case token.EQL:
		return bTerm(e.eq(s, a, b))
	case token.NEQ:
		return bTerm(e.c.Not(e.eq(s, a, b)))
	}
	switch t.kind {
	case tStr:
		switch op {
		case token.ADD:
			return e.concat(a, b)
		case token.LSS:
			return bTerm(e.strLess(a, b))
		case token.GTR:
			return bTerm(e.strLess(b, a))
		case token.LEQ:
			return bTerm(e.c.Not(e.strLess(b, a)))
		case token.GEQ:
			return bTerm(e.c.Not(e.strLess(a, b)))
		}
	case tFloat:
		x, y := a.f64(), b.f64()
		switch op {
		case token.ADD:
			return floatVal(t.w, x+y)
		case token.SUB:
			return floatVal(t.w, x-y)
		case token.MUL:
			return floatVal(t.w, x*y)
		case token.QUO:
			return floatVal(t.w, x/y)
		case token.LSS:
			return vBool(x < y)
		case token.LEQ:
			return vBool(x <= y)
		case token.GTR:
			return vBool(x > y)
		case token.GEQ:
			return vBool(x >= y)
		}
	case tBool:
		switch op {
		case token.AND, token.LAND:
			return bTerm(e.c.And(e.term(a), e.term(b)))
		case token.OR, token.LOR:
			return bTerm(e.c.Or(e.term(a), e.term(b)))
		}
	case tInt:
		return e.intop(s, op, t, a, b)
	}
	panic(unsup("binop " + op.String() + " on " + t.t.String()))
}

func (e *Eng) intop(s *State, op token.Token, t *tinfo, a, b Val) Val {
	w := t.w
	if op == token.SHL || op == token.SHR {
		return e.shift(s, op, t, a, b)
	}
	if a.x == nil && b.x == nil {
		x, y := a.n, b.n
		sx, sy := sext(x, w), sext(y, w)
		switch op {
		case token.ADD:
			return vInt(w, x+y)
		case token.SUB:
			return vInt(w, x-y)
		case token.MUL:
			return vInt(w, x*y)
		case token.AND:
			return vInt(w, x&y)
		case token.OR:
			return vInt(w, x|y)
		case token.XOR:
			return vInt(w, x^y)
		case token.AND_NOT:
			return vInt(w, x&^y)
		case token.QUO, token.REM:
			if y == 0 {
				panic(rtPanic{"integer divide by zero"})
			}
			if t.signed {
				if sy == -1 {
					if op == token.QUO {
						return vInt(w, -x)
					}
					return vInt(w, 0)
				}
				if op == token.QUO {
					return vInt(w, uint64(sx/sy))
				}
				return vInt(w, uint64(sx%sy))
			}
			if op == token.QUO {
				return vInt(w, x/y)
			}
			return vInt(w, x%y)
		}
		var r bool
		if t.signed {
			switch op {
			case token.LSS:
				r = sx < sy
			case token.LEQ:
				r = sx <= sy
			case token.GTR:
				r = sx > sy
			case token.GEQ:
				r = sx >= sy
			}
		} else {
			switch op {
			case token.LSS:
				r = x < y
			case token.LEQ:
				r = x <= y
			case token.GTR:
				r = x > y
			case token.GEQ:
				r = x >= y
			}
		}
		return vBool(r)
	}
	x, y := e.term(a), e.term(b)
	c := e.c
	switch op {
	case token.ADD:
		return iTerm(c.Bin(OAdd, x, y))
	case token.SUB:
		return iTerm(c.Bin(OSub, x, y))
	case token.MUL:
		return iTerm(c.Bin(OMul, x, y))
	case token.AND:
		return iTerm(c.Bin(OBAnd, x, y))
	case token.OR:
		return iTerm(c.Bin(OBOr, x, y))
	case token.XOR:
		return iTerm(c.Bin(OBXor, x, y))
	case token.AND_NOT:
		return iTerm(c.Bin(OBAnd, x, c.Bin(OBXor, y, c.Const(w, mask(w)))))
	case token.QUO, token.REM:
		if e.decide(s, c.Eq(y, c.Const(w, 0))) {
			panic(rtPanic{"integer divide by zero"})
		}
		o := OUDiv
		if op == token.REM {
			o = OURem
		}
		if t.signed {
			half := mask(w) >> 1
			if x.hi > half || y.hi > half {
				o = OSDiv
				if op == token.REM {
					o = OSRem
				}
			}
		}
		return iTerm(c.Bin(o, x, y))
	}
	if op == token.GTR || op == token.GEQ {
		x, y = y, x
	}
	switch op {
	case token.LSS, token.GTR:
		if t.signed {
			return bTerm(c.Slt(x, y))
		}
		return bTerm(c.Ult(x, y))
	case token.LEQ, token.GEQ:
		if t.signed {
			return bTerm(c.Sle(x, y))
		}
		return bTerm(c.Ule(x, y))
	}
	panic(unsup("int op " + op.String()))
}

func (e *Eng) shift(s *State, op token.Token, t *tinfo, a, b Val) Val {
	w := t.w
	if b.x == nil {
		// a negative count panics; counts are given with the operand's own type,
		// treat huge values as unsigned
		y := b.n
		if y > 1<<31 && sext(y, b.w) < 0 && b.w == 64 {
			panic(rtPanic{"negative shift amount"})
		}
		if a.x == nil {
			switch {
			case op == token.SHL:
				if y >= uint64(w) {
					return vInt(w, 0)
				}
				return vInt(w, a.n<<y)
			case t.signed:
				if y >= uint64(w) {
					y = uint64(w) - 1
				}
				return vInt(w, uint64(sext(a.n, w)>>y))
			default:
				if y >= uint64(w) {
					return vInt(w, 0)
				}
				return vInt(w, a.n>>y)
			}
		}
	}
	x := e.term(a)
	var y *Term
	bt := e.term(b)
	switch {
	case bt.w == w:
		y = bt
	case bt.w < w:
		y = e.c.ZExt(bt, w)
	default:
		// saturate
		y = e.c.Ite(e.c.Ult(bt, e.c.Const(bt.w, uint64(w))), e.c.Extract(w-1, 0, bt), e.c.Const(w, uint64(w)))
	}
	o := OShl
	if op == token.SHR {
		o = OLShr
		if t.signed && x.hi > mask(w)>>1 {
			o = OAShr
		}
	}
	return iTerm(e.c.Bin(o, x, y))
}

// ---- conversions ----

func (e *Eng) convert(s *State, from, to *tinfo, v Val) Val {
	switch {
	case from.kind == tInt && to.kind == tInt:
		if v.x == nil {
			n := v.n
			if from.signed {
				n = uint64(sext(n, from.w))
			}
			return vInt(to.w, n)
		}
		t := e.term(v)
		if to.w <= from.w {
			return iTerm(e.c.Extract(to.w-1, 0, t))
		}
		if from.signed {
			return iTerm(e.c.SExt(t, to.w))
		}
		return iTerm(e.c.ZExt(t, to.w))
	case from.kind == tInt && to.kind == tFloat:
		if v.x != nil {
			v = vInt(v.w, e.concretize(s, v))
		}
		if from.signed {
			return floatVal(to.w, float64(sext(v.n, from.w)))
		}
		return floatVal(to.w, float64(v.n))
	case from.kind == tFloat && to.kind == tInt:
		f := v.f64()
		if to.signed {
			return vInt(to.w, uint64(int64(f)))
		}
		return vInt(to.w, uint64(f))
	case from.kind == tFloat && to.kind == tFloat:
		return floatVal(to.w, v.f64())
	case from.kind == tStr && to.kind == tStr:
		return v
	case from.kind == tInt && to.kind == tStr:
		return mkStr(e.encodeRune(s, v, from))
	case from.kind == tStr && to.kind == tSlice:
		el := to.Elem()
		if el.w == 8 {
			b := e.strBytes(v)
			r := e.newSlice(s, el, len(b), len(b))
			a := e.arr(s, r.slice().obj, 0)
			for i := range b {
				a.e[i] = iTerm(b[i])
			}
			return r
		}
		var rs []Val
		b := e.strBytes(v)
		for i := 0; i < len(b); {
			r, n := e.decodeRune(s, b[i:])
			rs = append(rs, r)
			i += n
		}
		r := e.newSlice(s, el, len(rs), len(rs))
		a := e.arr(s, r.slice().obj, 0)
		copy(a.e, rs)
		return r
	case from.kind == tSlice && to.kind == tStr:
		sl := v.slice()
		if sl == nil {
			return vStr("")
		}
		a := e.rarr(s, sl.obj, sl.path)
		var b []*Term
		el := from.Elem()
		for i := 0; i < sl.ln; i++ {
			x := a.e[sl.off+i]
			if el.w == 8 {
				b = append(b, e.term(x))
			} else {
				b = append(b, e.encodeRune(s, x, el)...)
			}
		}
		return mkStr(b)
	case (from.kind == tPtr || from.kind == tUnsafe) && (to.kind == tPtr || to.kind == tUnsafe):
		return v
	}
	panic(unsup("convert " + from.t.String() + " to " + to.t.String()))
}

func (e *Eng) encodeRune(s *State, v Val, t *tinfo) []*Term {
	c := e.c
	if v.x == nil {
		x := int64(v.n)
		if t.signed {
			x = sext(v.n, v.w)
		}
		r := rune(0xFFFD)
		if x >= 0 && x <= 0x10FFFF {
			r = rune(x)
		}
		st := string(r)
		return e.strBytes(vStr(st))
	}
	r := e.term(v)
	w := r.w
	k := func(n uint64) *Term { return c.Const(w, n) }
	byt := func(pre uint64, hi, lo uint8) *Term {
		x := c.Extract(hi, lo, r)
		return c.Concat(c.Const(8-x.w, pre), x)
	}
	var out []*Term
	if w == 8 {
		r = c.ZExt(r, 32)
		w = 32
	}
	switch {
	case e.decide(s, c.Ult(r, k(0x80))):
		out = []*Term{c.Extract(7, 0, r)}
	case e.decide(s, c.Ult(r, k(0x800))):
		out = []*Term{byt(6, 10, 6), byt(2, 5, 0)}
	case e.decide(s, c.Or(c.Ult(k(0x10FFFF), r), c.And(c.Ule(k(0xD800), r), c.Ult(r, k(0xE000))))):
		return e.strBytes(vStr("\uFFFD"))
	case e.decide(s, c.Ult(r, k(0x10000))):
		out = []*Term{byt(14, 15, 12), byt(2, 11, 6), byt(2, 5, 0)}
	default:
		out = []*Term{byt(30, 20, 18), byt(2, 17, 12), byt(2, 11, 6), byt(2, 5, 0)}
	}
	if w >= 32 {
		r32 := c.Extract(31, 0, r)
		e.runeMemo[runeKey(out)] = runeEnc{r32, len(out)}
	}
	return out
}

// runeSize is the length of the encoding of a code point, 0 if it has none.
func (e *Eng) runeSize(s *State, r *Term) int {
	c := e.c
	k := func(n uint64) *Term { return c.Const(r.w, n) }
	switch {
	case e.decide(s, c.Ult(r, k(0x80))):
		return 1
	case e.decide(s, c.Ult(r, k(0x800))):
		return 2
	case e.decide(s, c.Or(c.Ult(k(0x10FFFF), r), c.And(c.Ule(k(0xD800), r), c.Ult(r, k(0xE000))))):
		return 0
	case e.decide(s, c.Ult(r, k(0x10000))):
		return 3
	}
	return 4
}

func runeKey(b []*Term) [4]int32 {
	k := [4]int32{-1, -1, -1, -1}
	for i := range b {
		if i < 4 {
			k[i] = b[i].id
		}
	}
	return k
}

func (e *Eng) decodeRune(s *State, b []*Term) (Val, int) {
	c := e.c
	b0 := b[0]
	K := func(n uint64) *Term { return c.Const(8, n) }
	bad := Val{k: KInt, w: 32, n: 0xFFFD}
	if !b0.isC() {
		for n := 1; n <= 4 && n <= len(b); n++ {
			if m, ok := e.runeMemo[runeKey(b[:n])]; ok && m.size == n && e.runeSize(s, m.r) == n {
				return iTerm(m.r), n
			}
		}
	}
	rng := func(t *Term, lo, hi uint64) bool {
		if t.lo >= lo && t.hi <= hi {
			return true
		}
		return e.decide(s, c.And(c.Ule(K(lo), t), c.Ule(t, K(hi))))
	}
	z := func(t *Term) *Term { return c.ZExt(t, 32) }
	cat := func(hw uint8, ts ...*Term) Val {
		r := c.Extract(hw-1, 0, ts[0])
		for _, t := range ts[1:] {
			r = c.Concat(r, c.Extract(5, 0, t))
		}
		return iTerm(z(r))
	}
	if rng(b0, 0, 0x7F) {
		return iTerm(z(b0)), 1
	}
	if rng(b0, 0xC2, 0xDF) {
		if len(b) < 2 || !rng(b[1], 0x80, 0xBF) {
			return bad, 1
		}
		return cat(5, b0, b[1]), 2
	}
	if rng(b0, 0xE0, 0xEF) {
		if len(b) < 2 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if e.decide(s, c.Eq(b0, K(0xE0))) {
			lo = 0xA0
		} else if e.decide(s, c.Eq(b0, K(0xED))) {
			hi = 0x9F
		}
		if !rng(b[1], lo, hi) || len(b) < 3 || !rng(b[2], 0x80, 0xBF) {
			return bad, 1
		}
		return cat(4, b0, b[1], b[2]), 3
	}
	if rng(b0, 0xF0, 0xF4) {
		if len(b) < 2 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if e.decide(s, c.Eq(b0, K(0xF0))) {
			lo = 0x90
		} else if e.decide(s, c.Eq(b0, K(0xF4))) {
			hi = 0x8F
		}
		if !rng(b[1], lo, hi) || len(b) < 3 || !rng(b[2], 0x80, 0xBF) || len(b) < 4 || !rng(b[3], 0x80, 0xBF) {
			return bad, 1
		}
		return cat(3, b0, b[1], b[2], b[3]), 4
	}
	return bad, 1
}

// ---- maps ----

func (e *Eng) mapV(s *State, m Val) *MapV {
	if m.n == 0 {
		return nil
	}
	return s.peek(uint32(m.n)).x.(*MapV)
}

func ckey(v Val) (any, bool) {
	switch v.k {
	case KInt, KBool, KPtr, KFloat:
		if v.x == nil {
			return v.n, true
		}
	case KStr:
		if x, ok := v.x.(string); ok {
			return x, true
		}
	}
	return nil, false
}

func (e *Eng) mapFind(s *State, mv *MapV, key Val) int {
	if key.k == KIface {
		if i := key.iface(); i != nil && (i.v.k == KSlice || i.v.k == KMap || i.v.k == KFunc) {
			panic(rtPanic{"hash of unhashable type"})
		}
	}
	if ck, ok := ckey(key); ok && !mv.symk && mv.idx != nil {
		if i, ok := mv.idx[ck]; ok {
			return i
		}
		return -1
	}
	for i := range mv.keys {
		if e.decide(s, e.eq(s, mv.keys[i], key)) {
			return i
		}
	}
	return -1
}

func (e *Eng) mapGet(s *State, m, key Val) (Val, bool) {
	mv := e.mapV(s, m)
	if mv == nil {
		return Val{}, false
	}
	i := e.mapFind(s, mv, key)
	if i < 0 {
		return Val{}, false
	}
	return mv.vals[i], true
}

func (e *Eng) mapSet(s *State, m, key, val Val) {
	mv := e.mapV(s, m)
	if mv == nil {
		panic(rtPanic{"assignment to entry in nil map"})
	}
	i := e.mapFind(s, mv, key)
	if val.k == KAgg {
		val.agg().owner = 0
	}
	n := &MapV{keys: append([]Val(nil), mv.keys...), vals: append([]Val(nil), mv.vals...), symk: mv.symk}
	if i >= 0 {
		n.vals[i] = val
	} else {
		n.keys = append(n.keys, key)
		n.vals = append(n.vals, val)
	}
	n.reindex()
	*s.slot(uint32(m.n)) = Val{k: KMap, x: n}
}

func (m *MapV) reindex() {
	m.idx = map[any]int{}
	m.symk = false
	for i, k := range m.keys {
		if ck, ok := ckey(k); ok {
			m.idx[ck] = i
		} else {
			m.symk = true
		}
	}
}

func (m *MapV) reversed() *MapV {
	n := &MapV{}
	for i := len(m.keys) - 1; i >= 0; i-- {
		n.keys = append(n.keys, m.keys[i])
		n.vals = append(n.vals, m.vals[i])
	}
	n.reindex()
	return n
}

func (e *Eng) mapDelete(s *State, m, key Val) {
	mv := e.mapV(s, m)
	if mv == nil {
		return
	}
	i := e.mapFind(s, mv, key)
	if i < 0 {
		return
	}
	n := &MapV{}
	for j := range mv.keys {
		if j != i {
			n.keys = append(n.keys, mv.keys[j])
			n.vals = append(n.vals, mv.vals[j])
		}
	}
	n.reindex()
	*s.slot(uint32(m.n)) = Val{k: KMap, x: n}
}

func (e *Eng) next(s *State, f *Frame, k *cin) {
	it := e.val(s, f, k.a).x.(*Iter)
	tt := k.t
	if it.isStr {
		n := strLen(it.str)
		if it.pos >= n {
			e.set(f, k, vTuple(vBool(false), vInt(64, 0), vInt(32, 0)))
			return
		}
		r, sz := e.decodeRune(s, e.strBytes(it.str)[it.pos:])
		ni := *it
		ni.pos += sz
		f.regs[k.a] = Val{k: KIter, x: &ni}
		e.set(f, k, vTuple(vBool(true), vInt(64, uint64(it.pos)), r))
		return
	}
	if it.m == nil || it.i >= len(it.m.keys) {
		e.set(f, k, vTuple(vBool(false), zeroOr(tt, 1), zeroOr(tt, 2)))
		return
	}
	ni := *it
	ni.i++
	f.regs[k.a] = Val{k: KIter, x: &ni}
	e.set(f, k, vTuple(vBool(true), it.m.keys[it.i], it.m.vals[it.i]))
}

func zeroOr(t *tinfo, i int) Val {
	if t.fields[i].kind == tOther {
		return Val{}
	}
	return zero(t.fields[i])
}

// ---- builtins ----

func (e *Eng) builtin(s *State, f *Frame, k *cin) {
	a := e.argv(s, f, k, nil, true)
	done := func(v Val) {
		if k.dst >= 0 {
			f.regs[k.dst] = v
		}
		f.pc++
	}
	switch k.name {
	case "len", "cap":
		switch a[0].k {
		case KStr:
			done(vInt(64, uint64(strLen(a[0]))))
		case KSlice:
			n := 0
			if sl := a[0].slice(); sl != nil {
				n = sl.ln
				if k.name == "cap" {
					n = sl.cp
				}
			}
			done(vInt(64, uint64(n)))
		case KMap:
			n := 0
			if m := e.mapV(s, a[0]); m != nil {
				n = len(m.keys)
			}
			done(vInt(64, uint64(n)))
		case KAgg:
			done(vInt(64, uint64(len(a[0].agg().e))))
		case KPtr:
			done(vInt(64, uint64(k.t2.Elem().n)))
		default:
			panic(unsup("len of " + a[0].String()))
		}
	case "append":
		done(e.appendOp(s, k, a[0], a[1]))
	case "copy":
		done(vInt(64, uint64(e.copyOp(s, a[0], a[1]))))
	case "delete":
		e.mapDelete(s, a[0], a[1])
		done(Val{})
	case "panic":
		panic(unsup("builtin panic"))
	case "recover":
		v := vNilIface
		if len(s.frames) >= 2 && f.ret == retDiscard {
			p := s.ownFrame(len(s.frames) - 2)
			if p.pan != nil && !p.pan.recovered {
				p.pan.recovered = true
				v = p.pan.v
				if v.k == KStr { // run-time error text
					v = Val{k: KIface, x: &Iface{e.prog.tString, v}}
				}
			}
		}
		done(v)
	case "print", "println":
		done(Val{})
	case "min", "max":
		r := a[0]
		for _, x := range a[1:] {
			op := token.LSS
			if k.name == "max" {
				op = token.GTR
			}
			c := e.binop(s, op, k.t2, x, r)
			if e.decideV(s, c) {
				r = x
			}
		}
		done(r)
	case "clear":
		if a[0].k == KMap {
			if a[0].n != 0 {
				*s.slot(uint32(a[0].n)) = Val{k: KMap, x: &MapV{}}
			}
		} else if sl := a[0].slice(); sl != nil {
			arr := e.arr(s, sl.obj, sl.path)
			z := k.t2.Elem()
			for i := 0; i < sl.ln; i++ {
				arr.e[sl.off+i] = zero(z)
			}
		}
		done(Val{})
	case "String": // unsafe.String
		n := e.cInt(s, a[1])
		if n == 0 {
			done(vStr(""))
			return
		}
		o, p := a[0].ptr()
		base, i := e.paths.parent(p)
		arr := e.rarr(s, o, base)
		b := make([]*Term, n)
		for j := range b {
			b[j] = e.term(arr.e[i+j])
		}
		done(mkStr(b))
	case "SliceData":
		sl := a[0].slice()
		if sl == nil {
			done(vNilPtr)
			return
		}
		done(vPtr(sl.obj, e.paths.sub(sl.path, sl.off)))
	case "StringData":
		n := strLen(a[0])
		r := e.newSlice(s, ti8, n, n)
		arr := e.arr(s, r.slice().obj, 0)
		for i, t := range e.strBytes(a[0]) {
			arr.e[i] = iTerm(t)
		}
		done(vPtr(r.slice().obj, e.paths.sub(0, 0)))
	case "Slice": // unsafe.Slice
		n := e.cInt(s, a[1])
		if a[0].isNilPtr() {
			done(Val{k: KSlice})
			return
		}
		o, p := a[0].ptr()
		base, i := e.paths.parent(p)
		done(Val{k: KSlice, x: &Slice{o, base, i, n, n}})
	case "ssa:wrapnilchk":
		if a[0].isNilPtr() {
			panic(rtPanic{"value method called using nil pointer"})
		}
		done(a[0])
	default:
		panic(unsup("builtin " + k.name))
	}
}

func (e *Eng) elems(s *State, v Val) []Val {
	switch v.k {
	case KStr:
		b := e.strBytes(v)
		r := make([]Val, len(b))
		for i := range b {
			r[i] = iTerm(b[i])
		}
		return r
	case KSlice:
		sl := v.slice()
		if sl == nil {
			return nil
		}
		return e.rarr(s, sl.obj, sl.path).e[sl.off : sl.off+sl.ln]
	}
	panic(unsup("elems of " + v.String()))
}

func freezeVals(vs []Val) {
	for i := range vs {
		if vs[i].k == KAgg {
			vs[i].agg().owner = 0
		}
	}
}

func (e *Eng) appendOp(s *State, k *cin, a, b Val) Val {
	src := append([]Val(nil), e.elems(s, b)...)
	freezeVals(src)
	sl := a.slice()
	n := 0
	if sl != nil {
		n = sl.ln
	}
	if len(src) == 0 {
		return a
	}
	if sl != nil && sl.cp-sl.ln >= len(src) {
		arr := e.arr(s, sl.obj, sl.path)
		copy(arr.e[sl.off+sl.ln:], src)
		return Val{k: KSlice, x: &Slice{sl.obj, sl.path, sl.off, n + len(src), sl.cp}}
	}
	el := k.t2.Elem()
	oldcap := 0
	if sl != nil {
		oldcap = sl.cp
	}
	nc := growCap(oldcap, n+len(src), el)
	r := e.newSlice(s, el, n+len(src), nc)
	arr := e.arr(s, r.slice().obj, 0)
	if sl != nil {
		old := e.rarr(s, sl.obj, sl.path).e[sl.off : sl.off+n]
		freezeVals(old)
		copy(arr.e, old)
	}
	copy(arr.e[n:], src)
	return r
}

// growCap follows runtime.growslice.
func growCap(oldcap, need int, el *tinfo) int {
	nc := oldcap
	if need > 2*oldcap {
		nc = need
	} else if oldcap < 256 {
		nc = 2 * oldcap
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	sz := int(sizes.Sizeof(el.t))
	if sz == 0 {
		return nc
	}
	b := nc * sz
	for _, c := range sizeClasses {
		if b <= c {
			return c / sz
		}
	}
	pg := 8192
	return (b + pg - 1) / pg * pg / sz
}

var sizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func (e *Eng) copyOp(s *State, dst, src Val) int {
	d := dst.slice()
	if d == nil {
		return 0
	}
	v := append([]Val(nil), e.elems(s, src)...)
	freezeVals(v)
	n := min(d.ln, len(v))
	if n == 0 {
		return 0
	}
	arr := e.arr(s, d.obj, d.path)
	copy(arr.e[d.off:d.off+n], v[:n])
	return n
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
