package main

// Execution states: frames, path condition, known facts, forking.

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

type pcEnt struct {
	t      *Term
	nextID uint32
}

type rng struct{ lo, hi uint64 }

type facts struct {
	known  map[*Term]bool
	bounds map[*Term]rng
}

type deferred struct {
	fn   *FnInfo
	args []Val
	free []Val
	bi   string // builtin name
	biTI []*TI
}

type panicRec struct {
	val       Val
	recovered bool
	msg       string
	site      string
}

type retKind uint8

const (
	retNormal retKind = iota
	retDefer
	retCont
)

type Frame struct {
	tk     *tok
	fi     *FnInfo
	regs   []Val
	blk    *BlockInfo
	pc     int
	iters  []int32
	defers []deferred
	ret    retKind
	cont   func(x *Exec, st *State, v Val) Val // retCont: transforms the result
	// panicking
	pan   *panicRec // panic in progress in this frame
	inPan *panicRec // this frame is a deferred call running because of that panic
}

type obsEnt struct {
	label string
	kind  byte // 'u','b','s'
	w     uint8
	v     Val
	bs    []Val
}

type State struct {
	id          int
	h           *Heap
	frames      []*Frame
	pc          []pcEnt
	f           *facts
	fOwned      bool
	model       *Model
	steps       int
	ctr         map[string]int
	ctrOwn      bool
	obs         []obsEnt
	covers      []string
	alloc       int64
	limit       int64 // 0 = none
	frozen      bool  // stores to pre-existing shared objects are violations
	freezeBelow uint32
	dead        bool
	nforks      int
	inits       []string
	choices     []string
	lin         *lineage
	fuel        int
	stdout      []Val
	virtCreated map[string]uint32
	group       int // states that have not failed to merge with each other
	gidx        int
	gone        bool // merged into another state while on the work list
}

func (st *State) top() *Frame {
	fr := st.frames[len(st.frames)-1]
	if fr.tk != st.h.tk {
		c := *fr
		c.tk = st.h.tk
		c.regs = append([]Val(nil), fr.regs...)
		if fr.iters != nil {
			c.iters = append([]int32(nil), fr.iters...)
		}
		if c.pan != nil {
			p := *c.pan
			c.pan = &p
		}
		st.frames[len(st.frames)-1] = &c
		return &c
	}
	return fr
}

func (st *State) frameAt(i int) *Frame {
	fr := st.frames[i]
	if fr.tk != st.h.tk {
		c := *fr
		c.tk = st.h.tk
		c.regs = append([]Val(nil), fr.regs...)
		if fr.iters != nil {
			c.iters = append([]int32(nil), fr.iters...)
		}
		if c.pan != nil {
			p := *c.pan
			c.pan = &p
		}
		st.frames[i] = &c
		return &c
	}
	return fr
}

func (x *Exec) clone(st *State) *State {
	c := *st
	x.nstates++
	c.id = x.nstates
	c.gone = false
	c.h = st.h.fork()
	c.frames = append([]*Frame(nil), st.frames...)
	st.pc = st.pc[:len(st.pc):len(st.pc)]
	c.pc = st.pc
	st.fOwned, c.fOwned = false, false
	st.ctrOwn, c.ctrOwn = false, false
	st.obs = st.obs[:len(st.obs):len(st.obs)]
	c.obs = st.obs
	st.covers = st.covers[:len(st.covers):len(st.covers)]
	c.covers = st.covers
	st.choices = st.choices[:len(st.choices):len(st.choices)]
	c.choices = st.choices
	st.stdout = st.stdout[:len(st.stdout):len(st.stdout)]
	c.stdout = st.stdout
	// fork history: objects allocated before the last common fork are the same objects in both states
	d := 1
	if st.lin != nil {
		d = st.lin.depth + 1
	}
	c.lin = &lineage{st.lin, d, st.h.next}
	st.lin = &lineage{st.lin, d, st.h.next}
	return &c
}

func (st *State) factsW() *facts {
	if st.f == nil {
		st.f = &facts{map[*Term]bool{}, map[*Term]rng{}}
		st.fOwned = true
		return st.f
	}
	if !st.fOwned {
		n := &facts{make(map[*Term]bool, len(st.f.known)+8), make(map[*Term]rng, len(st.f.bounds)+8)}
		for k, v := range st.f.known {
			n.known[k] = v
		}
		for k, v := range st.f.bounds {
			n.bounds[k] = v
		}
		st.f = n
		st.fOwned = true
	}
	return st.f
}

// rangeOf and fact look at a bounded part of the term only (terms are heavily shared graphs).
func (st *State) rangeOf(t *Term, d int) (uint64, uint64) {
	st.fuel = 1500
	return st.range1(t, d)
}

func (st *State) fact(c *Term) (val, known bool) {
	st.fuel = 1500
	return st.fact1(c)
}

func (st *State) range1(t *Term, d int) (uint64, uint64) {
	lo, hi := t.lo, t.hi
	if lo == hi || st.f == nil {
		return lo, hi
	}
	if b, ok := st.f.bounds[t]; ok {
		if b.lo > lo {
			lo = b.lo
		}
		if b.hi < hi {
			hi = b.hi
		}
	}
	if d == 0 || t.w == 0 || st.fuel <= 0 {
		return lo, hi
	}
	st.fuel--
	var l2, h2 uint64
	ok := false
	switch t.op {
	case OConcat:
		al, ah := st.range1(t.a, d-1)
		bl, bh := st.range1(t.b, d-1)
		l2, h2, ok = al<<t.b.w|bl, ah<<t.b.w|bh, true
	case OExtract:
		al, ah := st.range1(t.a, d-1)
		if al>>(uint(t.c)+uint(t.w)) == ah>>(uint(t.c)+uint(t.w)) || uint(t.c)+uint(t.w) >= 64 {
			if t.c == 0 || true {
				l2, h2 = al>>t.c&mask(t.w), ah>>t.c&mask(t.w)
				ok = l2 <= h2
			}
		}
	case OAdd:
		al, ah := st.range1(t.a, d-1)
		bl, bh := st.range1(t.b, d-1)
		x := Term{op: OAdd, w: t.w, a: &Term{lo: al, hi: ah}, b: &Term{lo: bl, hi: bh}}
		l2, h2 = rangeOf(&x)
		ok = true
	case OMul:
		al, ah := st.range1(t.a, d-1)
		bl, bh := st.range1(t.b, d-1)
		x := Term{op: OMul, w: t.w, a: &Term{lo: al, hi: ah}, b: &Term{lo: bl, hi: bh}}
		l2, h2 = rangeOf(&x)
		ok = true
	case OUDiv:
		al, ah := st.range1(t.a, d-1)
		bl, bh := st.range1(t.b, d-1)
		if bl > 0 {
			l2, h2, ok = al/bh, ah/bl, true
		}
	case OIte:
		if k, known := st.fact1(t.a); known {
			if k {
				l2, h2 = st.range1(t.b, d-1)
			} else {
				l2, h2 = st.range1(t.d, d-1)
			}
			ok = true
		} else {
			bl, bh := st.range1(t.b, d-1)
			dl, dh := st.range1(t.d, d-1)
			if dl < bl {
				bl = dl
			}
			if dh > bh {
				bh = dh
			}
			l2, h2, ok = bl, bh, true
		}
	}
	if ok {
		if l2 > lo {
			lo = l2
		}
		if h2 < hi {
			hi = h2
		}
	}
	return lo, hi
}

// fact decides a condition from recorded facts only.
func (st *State) fact1(c *Term) (val, known bool) {
	if c.op == OConst {
		return c.c != 0, true
	}
	if st.f == nil {
		return false, false
	}
	if v, ok := st.f.known[c]; ok {
		return v, true
	}
	if st.fuel <= 0 {
		return false, false
	}
	st.fuel--
	switch c.op {
	case ONot:
		v, ok := st.fact1(c.a)
		return !v, ok
	case OAnd:
		v1, ok1 := st.fact1(c.a)
		if ok1 && !v1 {
			return false, true
		}
		v2, ok2 := st.fact1(c.b)
		if ok2 && !v2 {
			return false, true
		}
		return true, ok1 && ok2
	case OOr:
		v1, ok1 := st.fact1(c.a)
		if ok1 && v1 {
			return true, true
		}
		v2, ok2 := st.fact1(c.b)
		if ok2 && v2 {
			return true, true
		}
		return false, ok1 && ok2
	case OEq:
		if c.a.w == 0 {
			v1, ok1 := st.fact1(c.a)
			v2, ok2 := st.fact1(c.b)
			return v1 == v2, ok1 && ok2
		}
		if isFP(c.a) {
			return false, false
		}
		al, ah := st.range1(c.a, 3)
		bl, bh := st.range1(c.b, 3)
		if ah < bl || bh < al {
			return false, true
		}
		if al == ah && bl == bh && al == bl {
			return true, true
		}
	case OUlt:
		al, ah := st.range1(c.a, 3)
		bl, bh := st.range1(c.b, 3)
		if ah < bl {
			return true, true
		}
		if al >= bh {
			return false, true
		}
	case OUle:
		al, ah := st.range1(c.a, 3)
		bl, bh := st.range1(c.b, 3)
		if ah <= bl {
			return true, true
		}
		if al > bh {
			return false, true
		}
	case OSlt, OSle:
		al, ah := st.range1(c.a, 3)
		bl, bh := st.range1(c.b, 3)
		half := uint64(1) << (c.a.w - 1)
		sg := func(l, h uint64) (int64, int64, bool) {
			if h < half || l >= half {
				return signed(l, c.a.w), signed(h, c.a.w), true
			}
			return 0, 0, false
		}
		a1, a2, ok1 := sg(al, ah)
		b1, b2, ok2 := sg(bl, bh)
		if ok1 && ok2 {
			if c.op == OSlt {
				if a2 < b1 {
					return true, true
				}
				if a1 >= b2 {
					return false, true
				}
			} else {
				if a2 <= b1 {
					return true, true
				}
				if a1 > b2 {
					return false, true
				}
			}
		}
	}
	return false, false
}

func (st *State) narrow(t *Term, lo, hi uint64) {
	if t.op == OConst || isFP(t) {
		return
	}
	f := st.factsW()
	b, ok := f.bounds[t]
	if !ok {
		b = rng{t.lo, t.hi}
	}
	if lo > b.lo {
		b.lo = lo
	}
	if hi < b.hi {
		b.hi = hi
	}
	if b.lo > b.hi {
		return
	}
	f.bounds[t] = b
	switch t.op {
	case OConcat:
		// zero-extended or high part
		lw := t.b.w
		st.narrow(t.a, b.lo>>lw, b.hi>>lw)
		if b.lo>>lw == b.hi>>lw {
			st.narrow(t.b, b.lo&mask(lw), b.hi&mask(lw))
		}
	case OAdd:
		if t.b.isConst() && b.lo <= b.hi {
			l, h := (b.lo-t.b.c)&mask(t.w), (b.hi-t.b.c)&mask(t.w)
			if l <= h {
				st.narrow(t.a, l, h)
			}
		}
	}
}

func (st *State) learn(c *Term, v bool) {
	if c.op == OConst {
		return
	}
	f := st.factsW()
	f.known[c] = v
	switch c.op {
	case ONot:
		st.learn(c.a, !v)
	case OAnd:
		if v {
			st.learn(c.a, true)
			st.learn(c.b, true)
		} else if k, ok := st.fact(c.a); ok && k {
			st.learn(c.b, false)
		} else if k, ok := st.fact(c.b); ok && k {
			st.learn(c.a, false)
		}
	case OOr:
		if !v {
			st.learn(c.a, false)
			st.learn(c.b, false)
		} else if k, ok := st.fact(c.a); ok && !k {
			st.learn(c.b, true)
		} else if k, ok := st.fact(c.b); ok && !k {
			st.learn(c.a, true)
		}
	case OEq:
		if c.a.w == 0 || isFP(c.a) {
			return
		}
		if v {
			al, ah := st.rangeOf(c.a, 2)
			bl, bh := st.rangeOf(c.b, 2)
			if bl > al {
				al = bl
			}
			if bh < ah {
				ah = bh
			}
			st.narrow(c.a, al, ah)
			st.narrow(c.b, al, ah)
		} else if c.b.isConst() {
			lo, hi := st.rangeOf(c.a, 2)
			if c.b.c == lo {
				st.narrow(c.a, lo+1, hi)
			} else if c.b.c == hi {
				st.narrow(c.a, lo, hi-1)
			}
		}
	case OUlt, OUle:
		a, b, le := c.a, c.b, c.op == OUle
		if !v {
			a, b, le = b, a, !le
		}
		d := uint64(1)
		if le {
			d = 0
		}
		al, _ := st.rangeOf(a, 2)
		_, bh := st.rangeOf(b, 2)
		if bh >= d {
			st.narrow(a, 0, bh-d)
		}
		if al+d >= al {
			st.narrow(b, al+d, mask(b.w))
		}
	}
}

func (x *Exec) assume(st *State, c *Term) {
	if c.isConst() {
		return
	}
	if v, ok := st.fact(c); ok && v {
		return
	}
	st.pc = append(st.pc, pcEnt{c, st.h.next})
	st.learn(c, true)
}

func (st *State) pcTerms() []*Term {
	r := make([]*Term, len(st.pc))
	for i := range st.pc {
		r[i] = st.pc[i].t
	}
	return r
}

// lineage is the fork history of a state.
type lineage struct {
	up    *lineage
	depth int
	next  uint32 // next object id at the fork
}

// commonNext returns the next object id at the fork that separated the two states.
func commonNext(a, b *lineage) (uint32, bool) {
	var n uint32
	for a != b {
		if a == nil && b == nil {
			break
		}
		if b == nil || a != nil && a.depth > b.depth {
			n, a = a.next, a.up
		} else if a == nil || b.depth > a.depth {
			n, b = b.next, b.up
		} else {
			n = a.next
			a, b = a.up, b.up
		}
	}
	return n, n != 0
}

// ---- control-flow exceptions inside the engine
type goPanic struct {
	val Val
	msg string
}
type killState struct{ why string }
type specAbort struct{}
type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// decide resolves a boolean condition, forking when both outcomes are feasible.
// It must be called before the current instruction has any side effect.
func (x *Exec) decide(st *State, c *Term) bool {
	if v, ok := st.fact(c); ok {
		return v
	}
	if x.journal != nil || x.noFork > 0 {
		panic(specAbort{})
	}
	mv := st.model.Eval(c) != 0
	other := c
	if mv {
		other = x.ts.Not(c)
	}
	r, m2 := x.sol.Check(st.pcTerms(), other, st.model)
	switch r {
	case Unsat:
		st.learn(c, mv)
		return mv
	case Unknown:
		x.incomplete("solver gave no answer for a branch at " + x.where(st))
	case Sat:
		cl := x.clone(st)
		cl.model = m2
		x.assume(cl, other)
		x.addState(cl)
		x.nforks++
		if x.forkSites != nil {
			x.forkSites[x.where(st)]++
		}
	}
	if mv {
		x.assume(st, c)
	} else {
		x.assume(st, x.ts.Not(c))
	}
	return mv
}

func (x *Exec) decideVal(st *State, v Val) bool {
	if v.t == nil {
		return v.n != 0
	}
	return x.decide(st, v.t)
}

// concretize picks a concrete value, forking the alternatives.
func (x *Exec) concretize(st *State, v Val) uint64 {
	if v.t == nil {
		return v.n
	}
	lo, hi := st.rangeOf(v.t, 3)
	if lo == hi {
		return lo
	}
	if x.journal != nil || x.noFork > 0 {
		panic(specAbort{})
	}
	mv := st.model.Eval(v.t)
	eq := x.ts.Eq(v.t, x.ts.Const(v.t.w, mv))
	if k, ok := st.fact(eq); ok {
		if !k {
			x.incomplete("a state's model contradicts its path condition at " + x.where(st))
			panic(killState{"model"})
		}
		st.narrow(v.t, mv, mv)
		return mv
	}
	x.nconc++
	ne := x.ts.Not(eq)
	r, m2 := x.sol.Check(st.pcTerms(), ne, st.model)
	switch r {
	case Unknown:
		x.incomplete("solver gave no answer while enumerating a value at " + x.where(st))
	case Sat:
		cl := x.clone(st)
		cl.model = m2
		x.assume(cl, ne)
		cl.nforks++
		if cl.nforks > x.maxConc {
			x.incomplete(fmt.Sprintf("more than %d values of one quantity at %s", x.maxConc, x.where(st)))
		} else {
			x.addState(cl)
			if x.forkSites != nil {
				x.forkSites["conc "+x.where(st)]++
			}
		}
	}
	st.nforks = 0
	x.assume(st, eq)
	st.narrow(v.t, mv, mv)
	return mv
}

func (x *Exec) where(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		fr := st.frames[i]
		if fr.pc < len(fr.blk.instrs) {
			p := fr.blk.instrs[fr.pc].ssa.Pos()
			if !p.IsValid() {
				for k := fr.pc; k >= 0 && !p.IsValid(); k-- {
					p = fr.blk.instrs[k].ssa.Pos()
				}
			}
			if p.IsValid() {
				pos := TT.prog.Fset.Position(p)
				return fmt.Sprintf("%s (%s:%d)", fr.fi.name, shortFile(pos.Filename), pos.Line)
			}
			return fr.fi.name
		}
	}
	return "?"
}

func (x *Exec) stack(st *State) string {
	s := ""
	for i := len(st.frames) - 1; i >= 0; i-- {
		fr := st.frames[i]
		line := 0
		for k := fr.pc; k >= 0; k-- {
			if k < len(fr.blk.instrs) {
				if p := fr.blk.instrs[k].ssa.Pos(); p.IsValid() {
					line = TT.prog.Fset.Position(p).Line
					break
				}
			}
		}
		s += fmt.Sprintf("%s:%d < ", fr.fi.name, line)
	}
	return s
}

func shortFile(f string) string {
	n := 0
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '/' {
			n++
			if n == 2 {
				return f[i+1:]
			}
		}
	}
	return f
}

var _ ssa.Value
