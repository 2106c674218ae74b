package main

import (
	"fmt"
	"os"
	"time"
)

// Exploration: the states of a region (a function activation) advance in
// lockstep, earliest program position first, and are merged where they meet.

func (e *Eng) explore(pool []*State, depth int, blk int32) []*State {
	var res []*State
	for len(pool) > 0 {
		i := e.pick(pool, depth)
		s := pool[i]
		pool = append(pool[:i], pool[i+1:]...)
		if atStop(s, depth, blk) {
			res = e.addMerged(res, s)
			continue
		}
		out, cond := e.run(s, depth, blk, len(pool) > 0)
		switch out {
		case outEnd:
			continue
		case outStop:
			res = e.addMerged(res, s)
			continue
		case outJoin:
			pool = e.addMerged(pool, s)
			continue
		}
		e.Forks++
		if e.Forks&63 == 0 && time.Now().After(e.deadline) {
			e.dead = true
		}
		if e.dead {
			e.res.reduce("time limit")
			e.endPath(s, "deadline")
			continue
		}
		if mdebug {
			fmt.Println("FORK", e.where(s), "stop", depth, blk)
		}
		if e.Paths+len(pool) > e.maxPaths {
			e.res.reduce("path limit")
			e.endPath(s, "path limit")
			continue
		}
		pm := e.res.pendingModel
		e.res.pendingModel = nil
		d := len(s.frames)
		b := e.fork(s)
		n := e.c.Not(cond)
		sm := s.m
		if sm.ev(cond) == 1 {
			b.m = pm
		} else {
			s.m = pm
			b.m = sm
		}
		s.addPC(cond, false)
		b.addPC(n, false)
		if d == depth || d <= 1 {
			pool = append(pool, b, s)
			continue
		}
		// a nested activation: explore it on its own until it returns
		R := []*State{b, s}
		for ; d > depth && len(R) > 0; d-- {
			if len(R) == 1 {
				break
			}
			R = e.explore(R, d, -1)
		}
		pool = append(pool, R...)
	}
	return res
}

// pick chooses the next state: the newest group of states that may still
// merge, and in it the earliest position.
func (e *Eng) pick(pool []*State, depth int) int {
	best := len(pool) - 1
	if best == 0 {
		return 0
	}
	g := pool[best]
	for i := best - 1; i >= 0 && i >= best-64; i-- {
		if sameTags(pool[i], g) && before(pool[i], pool[best], depth) {
			best = i
		}
	}
	return best
}

func sameTags(a, b *State) bool {
	if len(a.tag) != len(b.tag) {
		return false
	}
	for i := range a.tag {
		if a.tag[i] != b.tag[i] {
			return false
		}
	}
	return true
}

// before orders program positions.
func before(a, b *State, depth int) bool {
	i := depth - 1
	if i < 0 {
		i = 0
	}
	for ; ; i++ {
		if i >= len(a.frames) {
			return false
		}
		if i >= len(b.frames) {
			return true
		}
		x, y := a.frames[i], b.frames[i]
		if x == y {
			continue
		}
		if x.cf != y.cf {
			return false
		}
		if c := cmpPos(x, y); c != 0 {
			return c < 0
		}
	}
}

func cmpPos(x, y *Frame) int {
	bx, by := &x.cf.blocks[x.blk], &y.cf.blocks[y.blk]
	for i := 0; ; i++ {
		inx, iny := i < len(bx.loops), i < len(by.loops)
		rx, ry := bx.rpo, by.rpo
		if inx {
			rx = x.cf.blocks[x.cf.heads[bx.loops[i]]].rpo
		}
		if iny {
			ry = y.cf.blocks[y.cf.heads[by.loops[i]]].rpo
		}
		if rx != ry {
			return int(rx - ry)
		}
		if inx != iny {
			// the same block seen as a header from outside cannot happen
			return 0
		}
		if !inx {
			return int(x.pc - y.pc)
		}
		if d := x.it[bx.loops[i]] - y.it[by.loops[i]]; d != 0 {
			return int(d)
		}
	}
}

func atStop(s *State, depth int, blk int32) bool {
	if len(s.frames) < depth {
		return true
	}
	if len(s.frames) == depth && blk >= 0 {
		f := s.frames[depth-1]
		return f.blk == blk && f.pc == 0
	}
	return false
}

func (e *Eng) addMerged(r []*State, x *State) []*State {
	for i, n := len(r)-1, 0; i >= 0 && n < 8; i-- {
		y := r[i]
		if len(y.frames) != len(x.frames) {
			continue
		}
		fx, fy := x.frames[len(x.frames)-1], y.frames[len(y.frames)-1]
		if fx.cf != fy.cf || fx.blk != fy.blk || fx.pc != fy.pc {
			continue
		}
		n++
		if m := e.merge(y, x); m != nil {
			e.Merges++
			r[i] = m
			return r
		}
	}
	return append(r, x)
}

func pcAnc(a, b *PC) *PC {
	for a != b {
		da, db := 0, 0
		if a != nil {
			da = a.depth
		}
		if b != nil {
			db = b.depth
		}
		if da >= db {
			a = a.parent
		}
		if db >= da {
			if b != nil {
				b = b.parent
			}
		}
	}
	return a
}

func (e *Eng) suffix(p, anc *PC) (*Term, int) {
	t := e.c.tTrue
	n := 0
	for ; p != anc; p = p.parent {
		if !p.weak {
			t = e.c.And(p.t, t)
			n++
		}
	}
	return t, n
}

var mdebug = os.Getenv("SEMSYM_MDEBUG") != ""

func (e *Eng) merge(a, b *State) *State {
	m, why := e.merge1(a, b)
	if mdebug && m == nil && why != "" {
		fmt.Println("NOMERGE", why, "|", e.where(a), "|", e.where(b))
	}
	return m
}

func (e *Eng) merge1(a, b *State) (*State, string) {
	if e.job.noMerge {
		return nil, ""
	}
	if len(a.frames) != len(b.frames) || len(a.frames) == 0 || len(a.frames) > 300 {
		return nil, ""
	}
	if len(a.nd) != len(b.nd) || len(a.obs) != len(b.obs) || len(a.inited) != len(b.inited) || a.kn != b.kn || !sameTags(a, b) {
		return nil, "shape"
	}
	for i := range a.nd {
		if a.nd[i].t != b.nd[i].t {
			return nil, "nd"
		}
	}
	for i := range a.frames {
		x, y := a.frames[i], b.frames[i]
		if x != y && (x.cf != y.cf || x.blk != y.blk || x.pc != y.pc || x.pan != nil || y.pan != nil || len(x.defers) != len(y.defers)) {
			return nil, "frame"
		}
	}
	e.MergeF++
	anc := pcAnc(a.pc, b.pc)
	ca, na := e.suffix(a.pc, anc)
	cb, nb := e.suffix(b.pc, anc)
	mg := &merger{e: e, c: ca, a: a, b: b, ma: map[uint32]uint32{}, mb: map[uint32]uint32{}}
	if nb < na {
		mg.c = e.c.Not(cb)
	}
	mg.base = min(firstObj(a.pc, anc, a.nobj), firstObj(b.pc, anc, b.nobj))
	n := *a
	n.id = e.newID()
	n.frames = append([]*Frame(nil), a.frames...)
	for i := len(a.frames) - 1; i >= 0; i-- {
		x, y := a.frames[i], b.frames[i]
		if x == y {
			continue
		}
		nf := *x
		nf.owner = n.id
		nf.regs = make([]Val, len(x.regs))
		nf.it = append([]int32(nil), x.it...)
		for j := range nf.it {
			nf.it[j] = max(nf.it[j], y.it[j])
		}
		pc, dst := x.pc, int32(-1)
		if i < len(a.frames)-1 {
			// at a call: what is live after it, without its result
			dst = x.cf.blocks[x.blk].ins[pc].dst
			if a.frames[i+1].ret == retNormal {
				pc++
			} else {
				dst = -1
			}
		}
		for _, r := range x.cf.liveRegs(x.blk, pc) {
			if r == dst {
				continue
			}
			v, ok := mg.val(x.regs[r], y.regs[r])
			if !ok {
				return nil, fmt.Sprint("register ", r, " of frame ", i, " ", x.regs[r], " ", y.regs[r])
			}
			nf.regs[r] = v
		}
		nf.defers = nil
		for j := range x.defers {
			d := x.defers[j]
			v, ok := mg.val(d.fn, y.defers[j].fn)
			if !ok || d.blt != y.defers[j].blt || len(d.args) != len(y.defers[j].args) {
				return nil, "defer"
			}
			nd := deferRec{fn: v, blt: d.blt}
			for q := range d.args {
				w, ok := mg.val(d.args[q], y.defers[j].args[q])
				if !ok {
					return nil, "defer"
				}
				nd.args = append(nd.args, w)
			}
			nf.defers = append(nf.defers, nd)
		}
		n.frames[i] = &nf
	}
	n.obs = make([]obsRec, len(a.obs))
	for i := range a.obs {
		x, y := a.obs[i], b.obs[i]
		if x.label != y.label || len(x.vals) != len(y.vals) {
			return nil, "obs"
		}
		n.obs[i] = obsRec{label: x.label}
		for j := range x.vals {
			v, ok := mg.val(x.vals[j], y.vals[j])
			if !ok {
				return nil, "obs"
			}
			n.obs[i].vals = append(n.obs[i].vals, v)
		}
	}
	n.pages = append([]*page(nil), a.pages...)
	n.gpages = append([]*page(nil), a.gpages...)
	// globals
	for i := 0; i < max(len(a.gpages), len(b.gpages)); i++ {
		x, y := pageAt(a.gpages, i), pageAt(b.gpages, i)
		if x == y {
			continue
		}
		for j := 0; j < pgSize; j++ {
			id := globBase | uint32(i<<pgBits+j)
			var vx, vy Val
			if x != nil {
				vx = x.v[j]
			}
			if y != nil {
				vy = y.v[j]
			}
			if vx.k == KNone && vy.k == KNone {
				continue
			}
			vx, vy = *e.global(a, id), *e.global(b, id)
			v, ok := mg.val(vx, vy)
			if !ok {
				return nil, "global"
			}
			*n.slot(id) = thaw(v)
		}
	}
	// objects that existed before the paths parted
	for i := 0; i <= int(mg.base>>pgBits); i++ {
		x, y := pageAt(a.pages, i), pageAt(b.pages, i)
		if x == y || x == nil || y == nil {
			continue
		}
		for j := 0; j < pgSize; j++ {
			id := uint32(i<<pgBits + j)
			if id > mg.base || x.v[j].k == KNone {
				continue
			}
			v, ok := mg.val(x.v[j], y.v[j])
			if !ok {
				return nil, fmt.Sprint("object ", id, " ", x.v[j], " ", y.v[j])
			}
			*n.slot(id) = thaw(v)
		}
	}
	// newer objects, by reachability
	for len(mg.work) > 0 {
		w := mg.work[len(mg.work)-1]
		mg.work = mg.work[:len(mg.work)-1]
		vx, vy := a.peek(w[0]), b.peek(w[1])
		if vx == nil || vy == nil {
			return nil, "missing"
		}
		v, ok := mg.val(*vx, *vy)
		if !ok {
			return nil, fmt.Sprint("new object ", *vx, " ", *vy)
		}
		*n.slot(w[0]) = thaw(v)
	}
	n.pc = anc
	if t := e.c.Or(ca, cb); t != e.c.tTrue {
		n.addPC(t, false)
	}
	n.steps = max(a.steps, b.steps)
	n.nd = a.nd[:len(a.nd):len(a.nd)]
	n.tag = a.tag[:len(a.tag):len(a.tag)]
	n.inited = a.inited[:len(a.inited):len(a.inited)]
	return &n, ""
}

func thaw(v Val) Val {
	if v.k == KAgg {
		v.agg().owner = 0
	}
	return v
}

func pageAt(p []*page, i int) *page {
	if i < len(p) {
		return p[i]
	}
	return nil
}

func firstObj(p, anc *PC, now uint32) uint32 {
	r := now
	for ; p != anc; p = p.parent {
		r = p.nobj
	}
	return r
}

type merger struct {
	e    *Eng
	c    *Term
	a, b *State
	base uint32
	ma   map[uint32]uint32
	mb   map[uint32]uint32
	work [][2]uint32
}

// obj pairs two object identities.
func (m *merger) obj(x, y uint32) bool {
	if x&globBase != 0 || y&globBase != 0 || x <= m.base || y <= m.base {
		return x == y
	}
	if z, ok := m.ma[x]; ok {
		return z == y
	}
	if z, ok := m.mb[y]; ok {
		return z == x
	}
	m.ma[x], m.mb[y] = y, x
	m.work = append(m.work, [2]uint32{x, y})
	return true
}

func sameVal(a, b Val) bool {
	if a.k != b.k || a.w != b.w || a.n != b.n {
		return false
	}
	if a.x == nil || b.x == nil {
		return a.x == nil && b.x == nil
	}
	switch x := a.x.(type) {
	case *Term:
		return b.x == a.x
	case string:
		y, ok := b.x.(string)
		return ok && x == y
	case *SStr:
		y, ok := b.x.(*SStr)
		if !ok || len(x.b) != len(y.b) {
			return false
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case *Agg:
		y, ok := b.x.(*Agg)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !sameVal(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case *Slice:
		y, ok := b.x.(*Slice)
		return ok && *x == *y
	case *Iface:
		y, ok := b.x.(*Iface)
		return ok && (x == y || x.t == y.t && sameVal(x.v, y.v))
	case *Closure:
		y, ok := b.x.(*Closure)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.fn != y.fn || x.fn == nil || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !sameVal(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case *MapV:
		return b.x == a.x
	case *Iter:
		y, ok := b.x.(*Iter)
		return ok && x.isStr == y.isStr && x.pos == y.pos && x.i == y.i && x.m == y.m && sameVal(x.str, y.str)
	case Opq:
		_, ok := b.x.(Opq)
		return ok
	}
	return false
}

func (m *merger) val(a, b Val) (Val, bool) {
	if a.k != b.k {
		return Val{}, false
	}
	switch a.k {
	case KNone:
		return a, true
	case KBool, KInt:
		if a.n == b.n && a.x == nil && b.x == nil && a.w == b.w {
			return a, true
		}
		if a.w != b.w {
			return Val{}, false
		}
		t := m.e.c.Ite(m.c, m.e.term(a), m.e.term(b))
		return fromTerm(a.k, t), true
	case KStr:
		if sameVal(a, b) {
			return a, true
		}
		if isOpq(a) || isOpq(b) {
			return Val{}, false
		}
		if strLen(a) != strLen(b) {
			return Val{}, false
		}
		x, y := m.e.strBytes(a), m.e.strBytes(b)
		r := make([]*Term, len(x))
		for i := range x {
			r[i] = m.e.c.Ite(m.c, x[i], y[i])
		}
		return mkStr(r), true
	case KAgg:
		x, y := a.agg(), b.agg()
		if x == y {
			return a, true
		}
		if len(x.e) != len(y.e) {
			return Val{}, false
		}
		r := &Agg{e: make([]Val, len(x.e))}
		for i := range x.e {
			v, ok := m.val(x.e[i], y.e[i])
			if !ok {
				return Val{}, false
			}
			r.e[i] = v
		}
		return Val{k: KAgg, x: r}, true
	case KIface:
		x, y := a.iface(), b.iface()
		if x == nil || y == nil {
			return a, x == nil && y == nil
		}
		if x == y {
			return a, true
		}
		if x.t != y.t {
			return Val{}, false
		}
		v, ok := m.val(x.v, y.v)
		if !ok {
			return Val{}, false
		}
		return Val{k: KIface, x: &Iface{x.t, v}}, true
	case KMap:
		if a.x == nil && b.x == nil { // reference
			if a.n == 0 || b.n == 0 {
				return a, a.n == b.n
			}
			return a, m.obj(uint32(a.n), uint32(b.n))
		}
		x, ok1 := a.x.(*MapV)
		y, ok2 := b.x.(*MapV)
		if !ok1 || !ok2 {
			return Val{}, false
		}
		if x == y {
			return a, true
		}
		if len(x.keys) != len(y.keys) {
			return Val{}, false
		}
		r := &MapV{}
		for i := range x.keys {
			if !sameVal(x.keys[i], y.keys[i]) {
				return Val{}, false
			}
			if _, ok := m.val(x.keys[i], y.keys[i]); !ok {
				return Val{}, false
			}
			v, ok := m.val(x.vals[i], y.vals[i])
			if !ok {
				return Val{}, false
			}
			r.keys = append(r.keys, x.keys[i])
			r.vals = append(r.vals, v)
		}
		r.reindex()
		return Val{k: KMap, x: r}, true
	}
	switch a.k {
	case KPtr:
		if a.n == 0 || b.n == 0 {
			return a, a.n == b.n
		}
		o1, p1 := a.ptr()
		o2, p2 := b.ptr()
		return a, p1 == p2 && m.obj(o1, o2)
	case KSlice:
		x, y := a.slice(), b.slice()
		if x == nil || y == nil {
			return a, x == nil && y == nil
		}
		return a, x.path == y.path && x.off == y.off && x.ln == y.ln && x.cp == y.cp && m.obj(x.obj, y.obj)
	case KFunc:
		x, ok1 := a.x.(*Closure)
		y, ok2 := b.x.(*Closure)
		if !ok1 || !ok2 {
			return a, a.x == nil && b.x == nil
		}
		if x == y {
			return a, true
		}
		if x.fn != y.fn || x.fn == nil || len(x.bind) != len(y.bind) {
			return a, false
		}
		r := &Closure{fn: x.fn, id: x.id}
		for i := range x.bind {
			v, ok := m.val(x.bind[i], y.bind[i])
			if !ok {
				return a, false
			}
			r.bind = append(r.bind, v)
		}
		return Val{k: KFunc, x: r}, true
	}
	return a, sameVal(a, b)
}
