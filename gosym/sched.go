package main

// Work list ordered by program position, and merging of states that meet.

import (
	"container/heap"
	"fmt"
	"sort"
	"strings"
)

type workHeap []*State

func (w workHeap) Len() int            { return len(w) }
func (w workHeap) Less(i, j int) bool  { return posCmp(w[i], w[j]) < 0 }
func (w workHeap) Swap(i, j int)       { w[i], w[j] = w[j], w[i] }
func (w *workHeap) Push(v interface{}) { *w = append(*w, v.(*State)) }
func (w *workHeap) Pop() interface{} {
	o := *w
	n := len(o) - 1
	s := o[n]
	o[n] = nil
	*w = o[:n]
	return s
}

// posCmp orders states by how far they have come.
func posCmp(a, b *State) int {
	// states that took different explicit choices never merge: finish one choice before the next
	for i := 0; i < len(a.choices) && i < len(b.choices); i++ {
		if a.choices[i] != b.choices[i] {
			if a.choices[i] < b.choices[i] {
				return -1
			}
			return 1
		}
	}
	if len(a.choices) != len(b.choices) {
		if len(a.choices) < len(b.choices) {
			return -1
		}
		return 1
	}
	n := len(a.frames)
	if len(b.frames) < n {
		n = len(b.frames)
	}
	for i := 0; i < n; i++ {
		fa, fb := a.frames[i], b.frames[i]
		if fa == fb {
			continue
		}
		if fa.fi != fb.fi {
			if fa.fi.id < fb.fi.id {
				return -1
			}
			return 1
		}
		ba, bb := fa.blk, fb.blk
		la, lb := ba.loops, bb.loops
		for k := 0; ; k++ {
			ina, inb := k < len(la), k < len(lb)
			if !ina && !inb {
				break
			}
			ra, rb := ba.rpo, bb.rpo
			if ina {
				ra = fa.fi.loopHdr[la[k]]
			}
			if inb {
				rb = fb.fi.loopHdr[lb[k]]
			}
			if ra != rb {
				if ra < rb {
					return -1
				}
				return 1
			}
			if ina && inb {
				if fa.iters[la[k]] != fb.iters[lb[k]] {
					if fa.iters[la[k]] < fb.iters[lb[k]] {
						return -1
					}
					return 1
				}
			} else if ina != inb {
				// same header rpo but one outside the loop: cannot happen
				break
			}
		}
		if ba.rpo != bb.rpo {
			if ba.rpo < bb.rpo {
				return -1
			}
			return 1
		}
		if fa.pc != fb.pc {
			if fa.pc < fb.pc {
				return -1
			}
			return 1
		}
	}
	// the deeper one is earlier (still inside the call)
	if len(a.frames) != len(b.frames) {
		if len(a.frames) > len(b.frames) {
			return -1
		}
		return 1
	}
	return 0
}

func (x *Exec) addState(st *State) {
	if x.concreteMode {
		panic("fork in concrete mode")
	}
	x.push1(st)
}

// push1 puts a state on the work list, where it is also found by its group.
func (x *Exec) push1(st *State) {
	heap.Push(&x.work, st)
	if x.groups == nil {
		x.groups = map[int][]*State{}
	}
	st.gidx = len(x.groups[st.group])
	x.groups[st.group] = append(x.groups[st.group], st)
}

// first is the earliest pending state (nil if there is none).
func (x *Exec) first() *State {
	for len(x.work) > 0 {
		if !x.work[0].gone {
			return x.work[0]
		}
		heap.Pop(&x.work)
		x.ngone--
	}
	return nil
}

// pop1 takes the earliest pending state.
func (x *Exec) pop1() *State {
	st := x.first()
	if st != nil {
		heap.Pop(&x.work)
		x.ungroup(st)
	}
	return st
}

func (x *Exec) ungroup(st *State) {
	g := x.groups[st.group]
	n := len(g) - 1
	g[st.gidx] = g[n]
	g[st.gidx].gidx = st.gidx
	g[n] = nil
	if n == 0 {
		delete(x.groups, st.group)
	} else {
		x.groups[st.group] = g[:n]
	}
}

// mergeGroup merges st with the pending states of its group at the same position. States of a group have not
// failed to merge so far; one that does moves to a group of its own, along with what forks from it.
func (x *Exec) mergeGroup(st *State) {
	g := x.groups[st.group]
	if len(g) == 0 {
		return
	}
	for i, n := len(g)-1, 0; i >= 0 && n < 64; i, n = i-1, n+1 {
		o := g[i]
		if posCmp(st, o) != 0 {
			continue
		}
		ok, why := x.merge(st, o)
		x.ungroup(o)
		g = x.groups[st.group]
		if ok {
			x.nmerge++
			// what is on the list must keep its position: the merged state is dropped when its turn comes
			o.gone = true
			x.ngone++
			continue
		}
		x.mergeFail[why]++
		x.ngroups++
		o.group, o.gidx = x.ngroups, 0
		x.groups[o.group] = []*State{o}
	}
}

// yieldTo is called at join blocks; returns true when st was put back.
func (x *Exec) yieldTo(st *State) bool {
	m := x.first()
	if m == nil {
		return false
	}
	c := posCmp(st, m)
	if c < 0 {
		return false
	}
	if c == 0 && (x.merging || x.overflow) {
		x.mergeGroup(st)
		if m = x.first(); m == nil || posCmp(st, m) != 0 {
			return false
		}
	}
	if c == 0 && (x.merging || x.crowded()) {
		// merge with every state at the same position
		var keep []*State
		for o := x.first(); o != nil && posCmp(st, o) == 0; o = x.first() {
			x.pop1()
			if ok, why := x.merge(st, o); ok {
				x.nmerge++
			} else {
				x.mergeFail[why]++
				keep = append(keep, o)
			}
			if len(keep) > 24 {
				break
			}
		}
		for _, o := range keep {
			x.push1(o)
		}
		// go on with st; the kept ones stay at this position and are now earlier
		if len(keep) > 0 {
			return x.yieldKept(st)
		}
		return false
	}
	if c == 0 {
		return false
	}
	x.push1(st)
	return true
}

// crowded tells whether there are so many states that they are merged although the instance asks not to.
func (x *Exec) crowded() bool {
	n := len(x.work) - x.ngone
	if x.overflow {
		x.overflow = n > maxUnmerged/8
	} else {
		x.overflow = n > maxUnmerged
	}
	return x.overflow
}

const maxUnmerged = 8000

// yieldKept: st could not merge with states at the same position. Let it run on; since its position will be
// greater, they get their turn at the next join.
func (x *Exec) yieldKept(st *State) bool { return false }

// explore runs the initial state and everything forked from it.
func (x *Exec) explore(st *State) {
	x.push1(st)
	for s := x.pop1(); s != nil; s = x.pop1() {
		x.run(s)
	}
}

// ---------- merging

type merger struct {
	x    *Exec
	a, b *State
	sel  *Term
	n0   uint32
	b2a  map[uint32]uint32
	a2b  map[uint32]uint32
	todo [][2]uint32
	why  string
	cnt  int
	size int
}

func (x *Exec) merge(a, b *State) (bool, string) {
	if len(a.frames) != len(b.frames) || a.limit != b.limit || a.freezeBelow != b.freezeBelow || len(a.stdout) != len(b.stdout) {
		return false, "shape"
	}
	if len(a.obs) != len(b.obs) || len(a.choices) != len(b.choices) {
		return false, "obs"
	}
	for i := range a.choices {
		if a.choices[i] != b.choices[i] {
			return false, "choices"
		}
	}
	if len(a.ctr) != len(b.ctr) {
		return false, "ctr"
	}
	for k, v := range a.ctr {
		if b.ctr[k] != v {
			return false, "ctr"
		}
	}
	// common prefix of the path conditions
	k := 0
	for k < len(a.pc) && k < len(b.pc) && a.pc[k] == b.pc[k] {
		k++
	}
	if k == len(a.pc) || k == len(b.pc) {
		return false, "pc"
	}
	ra, rb := x.ts.tTrue, x.ts.tTrue
	for _, e := range a.pc[k:] {
		ra = x.ts.And(ra, e.t)
	}
	for _, e := range b.pc[k:] {
		rb = x.ts.And(rb, e.t)
	}
	if len(a.pc)-k > 40 || len(b.pc)-k > 40 {
		return false, "long"
	}
	sel := a.pc[k].t
	if b.pc[k].t != x.ts.Not(sel) {
		// find a pair of contradicting conjuncts
		found := false
	outer:
		for _, ea := range a.pc[k:] {
			na := x.ts.Not(ea.t)
			for _, eb := range b.pc[k:] {
				if eb.t == na {
					sel = ea.t
					found = true
					break outer
				}
			}
		}
		if !found {
			sel = ra
		}
	}
	n0, okLin := commonNext(a.lin, b.lin)
	if !okLin {
		return false, "lineage"
	}
	m := &merger{x: x, a: a, b: b, sel: sel, n0: n0, b2a: map[uint32]uint32{}, a2b: map[uint32]uint32{}}
	// frames
	type regUpd struct {
		frame, reg int
		v          Val
	}
	var ups []regUpd
	for i := range a.frames {
		fa, fb := a.frames[i], b.frames[i]
		if fa == fb {
			continue
		}
		if fa.fi != fb.fi || fa.blk != fb.blk || fa.pc != fb.pc || fa.ret != fb.ret {
			return false, "frame"
		}
		if fa.pan != nil || fb.pan != nil || fa.inPan != nil || fb.inPan != nil {
			return false, "panic"
		}
		if len(fa.defers) != len(fb.defers) {
			return false, "defers"
		}
		for d := range fa.defers {
			da, db := &fa.defers[d], &fb.defers[d]
			if da.fn != db.fn || da.bi != db.bi {
				return false, "defers"
			}
			for q := range da.args {
				if !m.same(da.args[q], db.args[q]) {
					return false, "defers"
				}
			}
			for q := range da.free {
				if !m.same(da.free[q], db.free[q]) {
					return false, "defers"
				}
			}
		}
		var live []uint64
		if i == len(a.frames)-1 {
			if fa.pc == fa.blk.nphi {
				live = fa.blk.liveIn
			} else {
				return false, "pc"
			}
		} else {
			live = fa.fi.liveAfter(fa.blk.instrs[fa.pc])
		}
		for r := 0; r < fa.fi.nregs; r++ {
			if !bget(live, r) {
				continue
			}
			va, vb := fa.regs[r], fb.regs[r]
			if va == vb && !m.isNewRef(va) {
				continue
			}
			ti := fa.fi.regTI[r]
			if ti == nil {
				if va.r == vb.r {
					continue
				}
				if ia, ok := va.r.(*rangeIter); ok {
					if ib, ok := vb.r.(*rangeIter); ok && ia.pos == ib.pos && ia.mp == ib.mp && ia.mp == 0 {
						sv, ok := m.val(ia.str, ib.str, tiString)
						if ok {
							ups = append(ups, regUpd{i, r, Val{r: &rangeIter{str: sv, pos: ia.pos}}})
							continue
						}
					}
				}
				return false, "range"
			}
			v, ok := m.val(va, vb, ti)
			if !ok {
				if x.trace {
					fmt.Println("merge fail reg", fa.fi.name, r, ti, m.why)
				}
				return false, "reg:" + m.why
			}
			if v != va {
				ups = append(ups, regUpd{i, r, v})
			}
		}
	}
	var obs []obsEnt
	for i := range a.obs {
		oa, ob := a.obs[i], b.obs[i]
		if oa.label != ob.label || oa.kind != ob.kind || oa.w != ob.w || len(oa.bs) != len(ob.bs) {
			return false, "obs"
		}
		if oa.kind == 'e' {
			if oa.v != ob.v {
				return false, "obs"
			}
			obs = append(obs, oa)
			continue
		}
		if oa.kind != 's' {
			ti := &TI{kind: KInt, w: oa.w}
			if oa.w == 0 {
				ti.kind = KBool
			}
			v, ok := m.val(oa.v, ob.v, ti)
			if !ok {
				return false, "obs"
			}
			oa.v = v
		} else {
			nb := make([]Val, len(oa.bs))
			for j := range nb {
				v, ok := m.val(oa.bs[j], ob.bs[j], tiByte)
				if !ok {
					return false, "obs"
				}
				nb[j] = v
			}
			oa.bs = nb
		}
		obs = append(obs, oa)
	}
	var sout []Val
	for i := range a.stdout {
		v, ok := m.val(a.stdout[i], b.stdout[i], tiByte)
		if !ok {
			return false, "stdout"
		}
		sout = append(sout, v)
	}
	// heap: old objects that differ, then new objects reached
	type slotUpd struct {
		obj uint32
		i   int
		v   Val
	}
	var hups []slotUpd
	diffObj := func(ia, ib uint32) string {
		oa, ob := a.h.get(ia), b.h.get(ib)
		if oa == ob && ia < n0 {
			return ""
		}
		if oa.n != ob.n {
			return "objsize"
		}
		if oa.m != nil || ob.m != nil {
			if oa.m == ob.m {
				return ""
			}
			if oa.m != nil && ob.m != nil && oa.m.nlive == 0 && ob.m.nlive == 0 {
				return ""
			}
			return "map"
		}
		if oa.nat != ob.nat {
			return "native"
		}
		for p := range oa.pages {
			pa, pb := oa.pages[p], ob.pages[p]
			if pa == pb && ia < n0 {
				continue
			}
			if pa == pb && (pa == nil) {
				continue
			}
			for q := 0; q < pageN; q++ {
				i := p*pageN + q
				if i >= oa.n {
					break
				}
				var va, vb Val
				if pa != nil {
					va = pa.v[q]
				}
				if pb != nil {
					vb = pb.v[q]
				}
				if va == vb && !m.isNewRef(va) {
					continue
				}
				ti := a.h.slotType(ia, i)
				if ti == nil {
					return "untyped"
				}
				v, ok := m.val(va, vb, ti)
				if !ok {
					if x.trace {
						fmt.Println("merge fail obj", ia, oa.ti, "slot", i, ti, m.why)
					}
					return "slot:" + m.why
				}
				if v != va {
					hups = append(hups, slotUpd{ia, i, v})
				}
			}
		}
		return ""
	}
	why := ""
	diffHeaps(a.h, b.h, n0, func(id uint32) bool {
		why = diffObj(id, id)
		return why == ""
	})
	if why != "" {
		return false, why
	}
	for len(m.todo) > 0 {
		p := m.todo[len(m.todo)-1]
		m.todo = m.todo[:len(m.todo)-1]
		if w := diffObj(p[0], p[1]); w != "" {
			return false, "new " + w
		}
	}
	// commit into a
	a.f = mergeFacts(a, b)
	a.fOwned = true
	nx := a.h.next
	if b.h.next > nx {
		// keep ids disjoint: allocate dummies lazily by raising next
		a.h.next = b.h.next
	}
	for _, u := range hups {
		a.h.store(u.obj, u.i, u.v)
	}
	for _, u := range ups {
		a.frameAt(u.frame).regs[u.reg] = u.v
	}
	nid := a.pc[k].nextID
	a.pc = append(a.pc[:k:k], pcEnt{x.ts.Or(ra, rb), nid})
	if a.pc[k].t.isConst() {
		a.pc = a.pc[:k]
	}
	if obs != nil {
		a.obs = obs
	}
	if sout != nil {
		a.stdout = sout
	}
	if b.steps > a.steps {
		a.steps = b.steps
	}
	if b.alloc > a.alloc {
		a.alloc = b.alloc
	}
	cs := map[string]bool{}
	for _, c := range a.covers {
		cs[c] = true
	}
	for _, c := range b.covers {
		if !cs[c] {
			x.covers[c] += 0
		}
	}
	// covers of b were already counted when reached
	b.dead = true
	return true, ""
}

func mergeFacts(a, b *State) *facts {
	n := &facts{map[*Term]bool{}, map[*Term]rng{}}
	if a.f == nil || b.f == nil {
		return n
	}
	for k, v := range a.f.known {
		if w, ok := b.f.known[k]; ok && w == v {
			n.known[k] = v
		}
	}
	for k, v := range a.f.bounds {
		w, ok := b.f.bounds[k]
		if !ok {
			l, h := b.rangeOf(k, 3)
			w = rng{l, h}
		}
		if w.lo < v.lo {
			v.lo = w.lo
		}
		if w.hi > v.hi {
			v.hi = w.hi
		}
		if v.lo > k.lo || v.hi < k.hi {
			n.bounds[k] = v
		}
	}
	return n
}

// diffHeaps enumerates ids below n0 whose objects differ between the two heaps.
func diffHeaps(a, b *Heap, n0 uint32, f func(id uint32) bool) {
	for r := 0; r < len(a.root) && r < len(b.root); r++ {
		ma, mb := a.root[r], b.root[r]
		if ma == mb {
			continue
		}
		if ma == nil || mb == nil {
			continue
		}
		for i := 0; i < 64; i++ {
			la, lb := ma.l[i], mb.l[i]
			if la == lb || la == nil || lb == nil {
				continue
			}
			for j := 0; j < leafN; j++ {
				id := uint32(r)<<12 | uint32(i)<<6 | uint32(j)
				if id >= n0 {
					return
				}
				if la.o[j] != lb.o[j] {
					if !f(id) {
						return
					}
				}
			}
		}
	}
}

func (m *merger) isNewRef(v Val) bool {
	switch r := v.r.(type) {
	case nil:
		return false
	case *mark:
		return uint32(v.n>>32) >= m.n0
	case *SliceV:
		return r.obj >= m.n0
	case *StrV, *RT:
		return false
	case *IfaceV:
		return m.isNewRef(r.v)
	case *Agg:
		for _, e := range r.v {
			if m.isNewRef(e) {
				return true
			}
		}
		return false
	case *FuncV:
		for _, e := range r.free {
			if m.isNewRef(e) {
				return true
			}
		}
		return false
	}
	return true
}

func (m *merger) objPair(a, b uint32) bool {
	if a < m.n0 || b < m.n0 {
		return a == b
	}
	if x, ok := m.b2a[b]; ok {
		return x == a
	}
	if _, ok := m.a2b[a]; ok {
		return false
	}
	m.b2a[b] = a
	m.a2b[a] = b
	m.todo = append(m.todo, [2]uint32{a, b})
	return true
}

// same: values must be equal up to renaming.
func (m *merger) same(a, b Val) bool {
	switch ra := a.r.(type) {
	case nil:
		return b.r == nil && a.n == b.n && a.t == b.t
	case *mark:
		if b.r != a.r {
			return false
		}
		oa, pa := a.ptr()
		ob, pb := b.ptr()
		return pa == pb && m.objPair(oa, ob)
	case *SliceV:
		rb, ok := b.r.(*SliceV)
		return ok && ra.off == rb.off && ra.len == rb.len && ra.cap == rb.cap && m.objPair(ra.obj, rb.obj)
	case *IfaceV:
		rb, ok := b.r.(*IfaceV)
		return ok && ra.ti == rb.ti && m.same(ra.v, rb.v)
	case *StrV:
		rb, ok := b.r.(*StrV)
		if !ok || a.strLen() != b.strLen() {
			return false
		}
		if ra.b == nil && rb.b == nil {
			return ra.s == rb.s
		}
		for i := 0; i < a.strLen(); i++ {
			if a.strByte(i) != b.strByte(i) {
				return false
			}
		}
		return true
	case *FuncV:
		rb, ok := b.r.(*FuncV)
		if !ok || ra.fn != rb.fn || ra.native != rb.native || len(ra.free) != len(rb.free) || len(ra.nargs) != len(rb.nargs) {
			return false
		}
		for i := range ra.free {
			if !m.same(ra.free[i], rb.free[i]) {
				return false
			}
		}
		for i := range ra.nargs {
			if !m.same(ra.nargs[i], rb.nargs[i]) {
				return false
			}
		}
		return true
	case *RT:
		rb, ok := b.r.(*RT)
		return ok && ra.ti == rb.ti
	case *Agg:
		rb, ok := b.r.(*Agg)
		if !ok || len(ra.v) != len(rb.v) {
			return false
		}
		for i := range ra.v {
			if !m.same(ra.v[i], rb.v[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

const maxMergeSlots = 4000

func (m *merger) val(a, b Val, ti *TI) (Val, bool) {
	m.cnt++
	if m.cnt > maxMergeSlots {
		m.why = "toomany"
		return Val{}, false
	}
	x := m.x
	switch ti.kind {
	case KBool, KInt:
		if a.r != nil || b.r != nil {
			if m.same(a, b) {
				return a, true
			}
			m.why = "scalar-ref"
			return Val{}, false
		}
		if a.t == nil && b.t == nil && a.n != b.n && ti.w > 8 {
			m.why = "concrete"
			return Val{}, false
		}
		return tval(x.ts.Ite(m.sel, x.term(a, ti.w), x.term(b, ti.w))), true
	case KFloat:
		if a == b {
			return a, true
		}
		m.why = "float"
		return Val{}, false
	case KString:
		if a.strLen() != b.strLen() {
			m.why = "strlen"
			return Val{}, false
		}
		if m.same(a, b) {
			return a, true
		}
		n := a.strLen()
		out := make([]Val, n)
		for i := range out {
			v, ok := m.val(a.strByte(i), b.strByte(i), tiByte)
			if !ok {
				return Val{}, false
			}
			out[i] = v
		}
		return mkStrBytes(out), true
	case KIface:
		ia, ok1 := a.r.(*IfaceV)
		ib, ok2 := b.r.(*IfaceV)
		if ok1 && ok2 && ia.ti == ib.ti {
			v, ok := m.val(ia.v, ib.v, ia.ti)
			if !ok {
				return Val{}, false
			}
			if v == ia.v {
				return a, true
			}
			return Val{r: &IfaceV{ia.ti, v}}, true
		}
		if m.same(a, b) {
			return a, true
		}
		m.why = "iface"
		return Val{}, false
	case KStruct, KArray:
		aa, ok1 := a.r.(*Agg)
		ab, ok2 := b.r.(*Agg)
		if !ok1 || !ok2 || len(aa.v) != len(ab.v) {
			if a == b {
				return a, true
			}
			m.why = "agg"
			return Val{}, false
		}
		fl := flatTypes(ti)
		out := make([]Val, len(fl))
		for i := range fl {
			v, ok := m.val(aa.v[i], ab.v[i], fl[i])
			if !ok {
				return Val{}, false
			}
			out[i] = v
		}
		return Val{r: &Agg{out}}, true
	case KTuple:
		return m.tuple(a, b, ti)
	}
	if m.same(a, b) {
		return a, true
	}
	m.why = fmt.Sprintf("ref-%d", ti.kind)
	return Val{}, false
}

func (m *merger) tuple(a, b Val, ti *TI) (Val, bool) {
	if m.same(a, b) {
		return a, true
	}
	m.why = "tuple"
	return Val{}, false
}

var tiString *TI

// ---------- results

func (x *Exec) candidate(st *State, kind, msg string, m *Model) {
	x.candidate2(st, kind, msg, x.where(st), m)
}

func (x *Exec) inputsOf(m *Model) map[string]uint64 {
	in := map[string]uint64{}
	for name, t := range x.vars {
		in[name] = m.Eval(t)
	}
	return in
}

func (x *Exec) candidate2(st *State, kind, msg, site string, m *Model) {
	if m == nil {
		m = st.model
	}
	key := kind + "|" + msg + "|" + site
	if i := strings.Index(site, " ["); i >= 0 {
		key = kind + "|" + msg + "|" + site[:i]
	}
	if x.candKey[key] {
		return
	}
	if len(x.cands) >= 60 {
		return
	}
	x.candKey[key] = true
	if m == nil {
		m = &Model{}
	}
	x.cands = append(x.cands, Candidate{Kind: kind, Msg: msg, Site: site, Inputs: x.inputsOf(m), Choices: st.choices})
	if x.onCand != nil {
		x.onCand(len(x.cands)-1, x.cands[len(x.cands)-1])
	}
}

func (x *Exec) pathDone(st *State, res Val) {
	x.paths++
	if res.r != nil || res.n != 0 || res.t != nil {
		x.result = append(x.result, res)
	}
	if x.concreteMode {
		return
	}
	if x.paths > x.maxPaths {
		x.incomplete("path budget used up")
		x.work = nil
	}
	// witness for trace validation: one per set of covered labels
	cs := append([]string(nil), st.covers...)
	sort.Strings(cs)
	key := strings.Join(cs, ",")
	if x.witPer[key] >= 2 || len(x.wit) >= 40 {
		return
	}
	x.witPer[key]++
	m := st.model
	if m == nil {
		m = &Model{}
	}
	w := PathRec{inputs: x.inputsOf(m), covers: cs}
	for _, o := range st.obs {
		w.obs = append(w.obs, x.showObs(o, m))
	}
	x.wit = append(x.wit, w)
}

func (x *Exec) showObs(o obsEnt, m *Model) string {
	ev := func(v Val) uint64 {
		if v.t != nil {
			return m.Eval(v.t)
		}
		return v.n
	}
	switch o.kind {
	case 's':
		b := make([]byte, len(o.bs))
		for i, v := range o.bs {
			if v.t != nil && hasAtom(v.t, 8) {
				return o.label + "=?"
			}
			b[i] = byte(ev(v))
		}
		return fmt.Sprintf("%s=%x", o.label, b)
	case 'e':
		return o.label + "=" + x.showStr(o.v)
	}
	return fmt.Sprintf("%s=%d", o.label, ev(o.v))
}

func hasAtom(t *Term, d int) bool {
	if t == nil || d == 0 {
		return false
	}
	return t.op == OAtom || hasAtom(t.a, d-1) || hasAtom(t.b, d-1) || hasAtom(t.d, d-1)
}
