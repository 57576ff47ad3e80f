package main

// The symbolic interpreter over go/ssa.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type jent struct {
	obj uint32
	i   int
	old Val
	new Val
}

type Candidate struct {
	Kind    string // assert, panic, alloc, hang, sharedwrite
	Msg     string
	Site    string
	Stack   string
	Inputs  map[string]uint64
	Choices []string
}

type PathRec struct {
	inputs map[string]uint64
	obs    []string
	covers []string
}

type Exec struct {
	ts             *TermStore
	sol            *Solver
	vars           map[string]*Term
	varName        []string
	work           workHeap
	journal        *[]jent
	noFork         int
	nstates        int
	nforks         int
	nconc          int
	nmerge         int
	mergeFail      map[string]int
	steps          int64
	maxSteps       int64 // per path
	maxConc        int
	deadline       time.Time
	lastQ          int
	incompl        map[string]int
	cands          []Candidate
	onCand         func(int, Candidate)
	candKey        map[string]bool
	nassert        int
	nassertProved  int
	paths          int
	pruned         int
	covers         map[string]int
	wit            []PathRec
	witPer         map[string]int
	fns            map[*FnInfo]bool
	params         map[string]string
	forkSites      map[string]int
	baseNext       uint32
	concreteMode   bool // package initialisation / enumeration: no solver
	allocCap       int64
	result         []Val
	trace          bool
	merging        bool
	overflow       bool
	groups         map[int][]*State
	ngroups, ngone int
	pend           int64 // pending states, for the memory watch
	maxPaths       int
	hangCand       bool
	prof           map[string]int64
}

func NewExec() *Exec {
	ts := NewTermStore()
	return &Exec{ts: ts, sol: NewSolver(ts), vars: map[string]*Term{}, maxSteps: 20e6, maxConc: 300,
		incompl: map[string]int{}, candKey: map[string]bool{}, covers: map[string]int{}, witPer: map[string]int{},
		fns: map[*FnInfo]bool{}, params: map[string]string{}, mergeFail: map[string]int{}, allocCap: 1 << 22, merging: true, maxPaths: 1 << 30}
}

func (x *Exec) incomplete(msg string) { x.incompl[msg]++ }

// ---------- scalars

func (x *Exec) term(v Val, w uint8) *Term {
	if v.t != nil {
		return v.t
	}
	return x.ts.Const(w, v.n)
}

func tval(t *Term) Val {
	if t.op == OConst {
		return Val{n: t.c}
	}
	return Val{t: t}
}

func (x *Exec) norm(st *State, v Val) Val {
	if v.t == nil || st.f == nil {
		return v
	}
	if v.t.w == 0 {
		if k, ok := st.f.known[v.t]; ok {
			return mkBool(k)
		}
		return v
	}
	if b, ok := st.f.bounds[v.t]; ok && b.lo == b.hi {
		return Val{n: b.lo}
	}
	return v
}

func (x *Exec) op(fr *Frame, o *Operand) Val {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.c
}

func flatTypes(ti *TI) []*TI {
	if !ti.isAgg() {
		return []*TI{ti}
	}
	if f, ok := flatCache.Load(ti); ok {
		return f.([]*TI)
	}
	var r []*TI
	if ti.kind == KStruct {
		for _, f := range ti.fields {
			r = append(r, flatTypes(f.ti)...)
		}
	} else {
		e := flatTypes(ti.Elem())
		for i := 0; i < ti.alen; i++ {
			r = append(r, e...)
		}
	}
	flatCache.Store(ti, r)
	return r
}

// ---------- memory

func (x *Exec) nilDeref() {
	x.throwRT("invalid memory address or nil pointer dereference")
}

func (x *Exec) throwRT(msg string) {
	var v Val
	if rtErrTI != nil {
		v = Val{r: &IfaceV{ti: rtErrTI, v: mkStr(msg)}}
	}
	panic(goPanic{val: v, msg: "runtime error: " + msg})
}

var rtErrTI *TI // runtime.errorString
var flatCache sync.Map

func (x *Exec) hstore(st *State, obj uint32, i int, v Val) {
	if x.journal != nil {
		old := st.h.load(obj, i)
		*x.journal = append(*x.journal, jent{obj, i, old, v})
	}
	if st.freezeBelow != 0 && obj < st.freezeBelow {
		x.checkFrozen(st, obj)
	}
	st.h.store(obj, i, v)
}

func (x *Exec) loadAt(st *State, p Val, ti *TI) Val {
	switch r := p.r.(type) {
	case *mark:
		obj, off := p.ptr()
		o := st.h.get(obj)
		if o.tag != "" {
			x.checkTag(st, o)
		}
		if ti.isAgg() {
			return Val{r: &Agg{v: st.h.loadN(obj, off, ti.slots)}}
		}
		return o.load(off)
	case *SymPtrV:
		return x.symLoad(st, r, ti)
	case nil:
		x.nilDeref()
	}
	panic(fmt.Sprintf("load through %T", p.r))
}

func (x *Exec) checkTag(st *State, o *Obj) {
	if len(o.tag) > 7 && o.tag[:7] == "uninit:" {
		unsup("read of a variable of a package that is not initialised: %s", o.tag[7:])
	}
}

func (x *Exec) storeAt(st *State, p Val, v Val, ti *TI) {
	switch r := p.r.(type) {
	case *mark:
		obj, off := p.ptr()
		if ti.isAgg() {
			if a, ok := v.r.(*Agg); ok {
				for i := range a.v {
					x.hstore(st, obj, off+i, a.v[i])
				}
				return
			}
			for i := 0; i < ti.slots; i++ {
				x.hstore(st, obj, off+i, Val{})
			}
			return
		}
		x.hstore(st, obj, off, v)
	case *SymPtrV:
		x.symStore(st, r, v, ti)
	case nil:
		x.nilDeref()
	default:
		panic(fmt.Sprintf("store through %T", p.r))
	}
}

func (x *Exec) symLoad(st *State, p *SymPtrV, ti *TI) Val {
	fl := flatTypes(ti)
	out := make([]Val, len(fl))
	lo, hi := st.rangeOf(p.idx, 3)
	if hi >= uint64(p.count) {
		hi = uint64(p.count) - 1
	}
	for k := range fl {
		vals := make([]Val, 0, hi-lo+1)
		for i := lo; i <= hi; i++ {
			vals = append(vals, st.h.load(p.obj, p.base+int(i)*p.stride+p.extra+k))
		}
		out[k] = x.iteTable(st, p.idx, lo, vals, fl[k])
	}
	if ti.isAgg() {
		return Val{r: &Agg{v: out}}
	}
	return out[0]
}

// iteTable selects vals[idx-lo] as a balanced decision tree.
func (x *Exec) iteTable(st *State, idx *Term, lo uint64, vals []Val, ti *TI) Val {
	if len(vals) == 1 {
		return vals[0]
	}
	same := true
	for _, v := range vals[1:] {
		if v != vals[0] {
			same = false
			break
		}
	}
	if same {
		return vals[0]
	}
	m := len(vals) / 2
	l := x.iteTable(st, idx, lo, vals[:m], ti)
	r := x.iteTable(st, idx, lo+uint64(m), vals[m:], ti)
	c := x.ts.Ult(idx, x.ts.Const(idx.w, lo+uint64(m)))
	v, ok := x.iteVal(c, l, r, ti)
	if !ok {
		// concretise the index instead
		x.concretize(st, Val{t: idx})
		panic(retryInstr{})
	}
	return v
}

type retryInstr struct{}

// iteVal merges two values of a slot of type ti.
func (x *Exec) iteVal(c *Term, a, b Val, ti *TI) (Val, bool) {
	if a == b {
		return a, true
	}
	if c.isConst() {
		if c.c != 0 {
			return a, true
		}
		return b, true
	}
	switch ti.kind {
	case KBool, KInt:
		if a.r != nil || b.r != nil {
			return Val{}, false
		}
		return tval(x.ts.Ite(c, x.term(a, ti.w), x.term(b, ti.w))), true
	case KFloat:
		if ti.w != 64 {
			return Val{}, false
		}
		return tval(x.ts.Ite(c, x.fterm(a), x.fterm(b))), true
	case KString:
		if a.strLen() != b.strLen() {
			return Val{}, false
		}
		n := a.strLen()
		out := make([]Val, n)
		for i := range out {
			v, ok := x.iteVal(c, a.strByte(i), b.strByte(i), tiByte)
			if !ok {
				return Val{}, false
			}
			out[i] = v
		}
		return mkStrBytes(out), true
	case KSlice:
		sa, ok1 := a.r.(*SliceV)
		sb, ok2 := b.r.(*SliceV)
		if ok1 && ok2 && *sa == *sb {
			return a, true
		}
		return Val{}, false
	case KIface:
		ia, ok1 := a.r.(*IfaceV)
		ib, ok2 := b.r.(*IfaceV)
		if ok1 && ok2 && ia.ti == ib.ti {
			v, ok := x.iteVal(c, ia.v, ib.v, ia.ti)
			if !ok {
				return Val{}, false
			}
			return Val{r: &IfaceV{ia.ti, v}}, true
		}
		return Val{}, false
	case KStruct, KArray:
		aa, ok1 := a.r.(*Agg)
		ab, ok2 := b.r.(*Agg)
		if !ok1 || !ok2 || len(aa.v) != len(ab.v) {
			return Val{}, false
		}
		fl := flatTypes(ti)
		out := make([]Val, len(fl))
		for i := range fl {
			v, ok := x.iteVal(c, aa.v[i], ab.v[i], fl[i])
			if !ok {
				return Val{}, false
			}
			out[i] = v
		}
		return Val{r: &Agg{out}}, true
	case KFunc:
		fa, ok1 := a.r.(*FuncV)
		fb, ok2 := b.r.(*FuncV)
		if ok1 && ok2 && fa.fn == fb.fn && len(fa.free) == 0 && len(fb.free) == 0 && fa.native == fb.native {
			return a, true
		}
	case KTuple:
		aa, ok1 := a.r.(*Agg)
		ab, ok2 := b.r.(*Agg)
		if !ok1 || !ok2 || len(aa.v) != len(ab.v) {
			return Val{}, false
		}
		tt := ti.under.(*types.Tuple)
		out := make([]Val, len(aa.v))
		for i := range out {
			v, ok := x.iteVal(c, aa.v[i], ab.v[i], T(tt.At(i).Type()))
			if !ok {
				return Val{}, false
			}
			out[i] = v
		}
		return Val{r: &Agg{out}}, true
	case KPtr, KUnsafe:
		if ti.kind == KPtr && a.r == b.r && a.n == b.n {
			return a, true
		}
	}
	return Val{}, false
}

func (x *Exec) symStore(st *State, p *SymPtrV, v Val, ti *TI) {
	fl := flatTypes(ti)
	var vs []Val
	if ti.isAgg() {
		vs = v.r.(*Agg).v
	} else {
		vs = []Val{v}
	}
	lo, hi := st.rangeOf(p.idx, 3)
	if hi >= uint64(p.count) {
		hi = uint64(p.count) - 1
	}
	type upd struct {
		i int
		v Val
	}
	var ups []upd
	for i := lo; i <= hi; i++ {
		c := x.ts.Eq(p.idx, x.ts.Const(p.idx.w, i))
		for k := range fl {
			at := p.base + int(i)*p.stride + p.extra + k
			nv, ok := x.iteVal(c, vs[k], st.h.load(p.obj, at), fl[k])
			if !ok {
				x.concretize(st, Val{t: p.idx})
				panic(retryInstr{})
			}
			ups = append(ups, upd{at, nv})
		}
	}
	for _, u := range ups {
		x.hstore(st, p.obj, u.i, u.v)
	}
}

// allocation with accounting
func (x *Exec) allocObj(st *State, n int, ti *TI, bytes int64) uint32 {
	if x.journal != nil {
		panic(specAbort{})
	}
	x.account(st, bytes)
	return st.h.alloc(n, ti)
}

func (x *Exec) account(st *State, bytes int64) {
	st.alloc += bytes
	if st.limit > 0 && st.alloc > st.limit {
		lim := st.limit
		st.limit = 0
		x.candidate(st, "alloc", fmt.Sprintf("allocates more than the stated bound of %d bytes", lim), nil)
		panic(killState{"alloc"})
	}
}

func (x *Exec) newSlice(st *State, elem *TI, n, c int) Val {
	obj := x.allocObj(st, c*elem.slots, elem, int64(c)*elem.goSize())
	return Val{r: &SliceV{obj, 0, n, c}}
}

func (x *Exec) sliceVals(st *State, v Val, elem *TI) []Val {
	if v.r == nil {
		return nil
	}
	s := v.r.(*SliceV)
	return st.h.loadN(s.obj, s.off, s.len*elem.slots)
}

func (x *Exec) bytesToSlice(st *State, b []Val) Val {
	s := x.newSlice(st, tiByte, len(b), len(b))
	st.h.storeN(s.r.(*SliceV).obj, 0, b)
	return s
}

// ---------- equality

func (x *Exec) eqVal(st *State, a, b Val, ti *TI) Val {
	ts := x.ts
	switch ti.kind {
	case KBool, KInt:
		if a.t == nil && b.t == nil {
			return mkBool(a.n == b.n)
		}
		return tval(ts.Eq(x.term(a, ti.w), x.term(b, ti.w)))
	case KFloat:
		if a.t == nil && b.t == nil {
			if ti.w == 32 {
				return mkBool(math.Float32frombits(uint32(a.n)) == math.Float32frombits(uint32(b.n)))
			}
			return mkBool(ffrom(a.n) == ffrom(b.n))
		}
		return tval(x.fcmp(OFEq, x.ftermW(a, ti.w), x.ftermW(b, ti.w)))
	case KString:
		n := a.strLen()
		if n != b.strLen() {
			return mkBool(false)
		}
		if n == 0 {
			return mkBool(true)
		}
		sa, ok1 := a.concStr()
		sb, ok2 := b.concStr()
		if ok1 && ok2 {
			return mkBool(sa == sb)
		}
		r := ts.tTrue
		for i := 0; i < n; i++ {
			e := x.eqVal(st, a.strByte(i), b.strByte(i), tiByte)
			r = ts.And(r, x.term(e, 0))
			if r == ts.tFalse {
				break
			}
		}
		return tval(r)
	case KIface:
		if a.r == nil || b.r == nil {
			return mkBool(a.r == nil && b.r == nil)
		}
		if ra, ok := a.r.(*RT); ok {
			rb, ok2 := b.r.(*RT)
			return mkBool(ok2 && ra.ti == rb.ti)
		}
		ia, ok1 := a.r.(*IfaceV)
		ib, ok2 := b.r.(*IfaceV)
		if !ok1 || !ok2 {
			return mkBool(false)
		}
		if ia.ti != ib.ti {
			return mkBool(false)
		}
		switch ia.ti.kind {
		case KSlice, KMap, KFunc:
			x.throwRT("comparing uncomparable type " + ia.ti.String())
		}
		return x.eqVal(st, ia.v, ib.v, ia.ti)
	case KStruct, KArray:
		fl := flatTypes(ti)
		aa, ab := a.r.(*Agg), b.r.(*Agg)
		r := ts.tTrue
		for i := range fl {
			e := x.eqVal(st, aa.v[i], ab.v[i], fl[i])
			r = ts.And(r, x.term(e, 0))
			if r == ts.tFalse {
				break
			}
		}
		return tval(r)
	case KPtr, KUnsafe, KMap, KChan:
		if _, ok := a.r.(*RT); ok {
			rb, ok2 := b.r.(*RT)
			return mkBool(ok2 && a.r.(*RT).ti == rb.ti)
		}
		if _, ok := a.r.(*SymPtrV); ok {
			if b.r == nil {
				return mkBool(false)
			}
			unsup("comparison of symbolic pointers")
		}
		return mkBool(a.r == b.r && a.n == b.n)
	case KSlice, KFunc:
		return mkBool(a.r == nil && b.r == nil || a.r == b.r)
	}
	panic("eq kind " + ti.String())
}

// ---------- floats

func (x *Exec) fterm(v Val) *Term {
	if v.t != nil {
		return v.t
	}
	return x.ts.mk(OFConst, 64, v.n, nil, nil, nil)
}

// ftermW is fterm for a float of a width. A symbolic float32 is represented by the float64 of the same value, which
// exists because only exact float32 operations are supported on them.
func (x *Exec) ftermW(v Val, w uint8) *Term {
	if v.t == nil && w == 32 {
		return x.ts.mk(OFConst, 64, fbits(float64(math.Float32frombits(uint32(v.n)))), nil, nil, nil)
	}
	return x.fterm(v)
}

// exact32 tells whether the value of t certainly is a float32: an integer of up to 24 bits, possibly scaled by small
// powers of two.
func exact32(t *Term, depth int) bool {
	switch t.op {
	case OFConst:
		f := ffrom(t.c)
		return float64(float32(f)) == f
	case OFFromS, OFFromU:
		return t.a.w <= 24 || t.a.hi < 1<<24 && (t.op == OFFromU || t.a.w > 24)
	case OFDiv, OFMul:
		return depth < 4 && smallPow2(t.b) && exact32(t.a, depth+1)
	}
	return false
}

func smallPow2(t *Term) bool {
	if t.op != OFConst {
		return false
	}
	m, e := math.Frexp(math.Abs(ffrom(t.c)))
	return m == 0.5 && e > -20 && e < 20
}

func (x *Exec) fcmp(op Op, a, b *Term) *Term {
	if a.op == OFConst && b.op == OFConst {
		m := &Model{}
		return x.ts.Bool(m.Eval(&Term{op: op, a: a, b: b}) != 0)
	}
	if p, q, ok := x.toFixed(a, b); ok {
		switch op {
		case OFEq:
			return x.ts.Eq(p, q)
		case OFLt:
			return x.ts.Slt(p, q)
		case OFLe:
			return x.ts.Sle(p, q)
		}
	}
	if a == b && (op == OFEq || op == OFLe) && !mayNaN(a) {
		return x.ts.tTrue
	}
	if a.op == OFConst && ffrom(a.c) != ffrom(a.c) || b.op == OFConst && ffrom(b.c) != ffrom(b.c) {
		return x.ts.tFalse
	}
	return x.ts.mk(op, 0, 0, a, b, nil)
}

// fixed is the value n/2^k, where n is a signed 64-bit term of at most bits bits (sign excluded).
type fixed struct {
	n    *Term
	k    int
	bits int
}

// fix gives the exact value of a float term made of small integers, sums and powers of two: as long as the number
// fits in 52 bits, no floating-point operation in it rounds.
func (x *Exec) fix(t *Term, depth int) (fixed, bool) {
	no := fixed{}
	if depth > 6 {
		return no, false
	}
	switch t.op {
	case OFFromS:
		if t.a.w <= 32 {
			return fixed{x.ts.Sext(t.a, 64), 0, int(t.a.w)}, true
		}
		if t.a.op == OSext && t.a.a.w <= 32 {
			return fixed{x.ts.Sext(t.a, 64), 0, int(t.a.a.w)}, true
		}
		if t.a.hi < 1<<32 {
			return fixed{x.ts.Zext(t.a, 64), 0, 32}, true
		}
	case OFFromU:
		if t.a.w <= 32 {
			return fixed{x.ts.Zext(t.a, 64), 0, int(t.a.w)}, true
		}
		if t.a.hi < 1<<32 {
			return fixed{x.ts.Zext(t.a, 64), 0, 32}, true
		}
	case OFConst:
		f := ffrom(t.c)
		for k := 0; k <= 24; k++ {
			g := f * float64(uint64(1)<<uint(k))
			if math.Abs(g) >= 1<<50 || g != g {
				return no, false
			}
			if g == math.Trunc(g) {
				bits := 0
				for m := math.Abs(g); m >= 1; m /= 2 {
					bits++
				}
				return fixed{x.ts.Const(64, uint64(int64(g))), k, bits}, true
			}
		}
	case OFDiv, OFMul:
		if !smallPow2(t.b) || ffrom(t.b.c) < 0 {
			return no, false
		}
		f, ok := x.fix(t.a, depth+1)
		if !ok {
			return no, false
		}
		_, e := math.Frexp(ffrom(t.b.c))
		e--
		if t.op == OFMul {
			e = -e
		}
		f.k += e
		return f, f.k > -40 && f.k < 60
	case OFAdd, OFSub:
		f, ok1 := x.fix(t.a, depth+1)
		g, ok2 := x.fix(t.b, depth+1)
		if !ok1 || !ok2 {
			return no, false
		}
		f, g, ok := x.alignFixed(f, g)
		if !ok {
			return no, false
		}
		n := g.n
		if t.op == OFSub {
			n = x.ts.Neg(n)
		}
		if g.bits > f.bits {
			f.bits = g.bits
		}
		f.bits++
		f.n = x.ts.Add(f.n, n)
		return f, f.bits <= 52
	}
	return no, false
}

func (x *Exec) alignFixed(f, g fixed) (fixed, fixed, bool) {
	up := func(f fixed, k int) fixed {
		if d := k - f.k; d > 0 {
			if d > 52 {
				d = 52
				f.bits = 60
			}
			f.n = x.ts.Mul(f.n, x.ts.Const(64, 1<<uint(d)))
			f.k, f.bits = k, f.bits+d
		}
		return f
	}
	f, g = up(f, g.k), up(g, f.k)
	return f, g, f.bits <= 52 && g.bits <= 52
}

func (x *Exec) toFixed(a, b *Term) (*Term, *Term, bool) {
	f, ok := x.fix(a, 0)
	if !ok {
		return nil, nil, false
	}
	g, ok := x.fix(b, 0)
	if !ok {
		return nil, nil, false
	}
	f, g, ok = x.alignFixed(f, g)
	return f.n, g.n, ok
}

func mayNaN(t *Term) bool {
	switch t.op {
	case OFFromS, OFFromU:
		return false
	case OFConst:
		return ffrom(t.c) != ffrom(t.c)
	case OFDiv:
		if t.b.op == OFConst && ffrom(t.b.c) != 0 && !mayNaN(t.a) && !mayInf(t.a) {
			return false
		}
	case OFAdd, OFSub:
		return mayNaN(t.a) || mayNaN(t.b) || mayInf(t.a) && mayInf(t.b)
	case OIte:
		return mayNaN(t.b) || mayNaN(t.d)
	}
	return true
}
func mayInf(t *Term) bool {
	switch t.op {
	case OFFromS, OFFromU:
		return false
	case OFConst:
		return math.IsInf(ffrom(t.c), 0)
	case OFDiv:
		if t.b.op == OFConst && math.Abs(ffrom(t.b.c)) >= 1 {
			return mayInf(t.a)
		}
	}
	return true
}

func (x *Exec) fbin(op Op, a, b *Term) Val {
	if a.op == OFConst && b.op == OFConst {
		m := &Model{}
		return Val{n: m.Eval(&Term{op: op, w: 64, a: a, b: b})}
	}
	return Val{t: x.ts.mk(op, 64, 0, a, b, nil)}
}

// ---------- binary operations

func (x *Exec) binop(st *State, op token.Token, a, b Val, ti *TI, wy uint8, ysgn bool) Val {
	switch op {
	case token.EQL:
		return x.eqVal(st, a, b, ti)
	case token.NEQ:
		v := x.eqVal(st, a, b, ti)
		if v.t != nil {
			return tval(x.ts.Not(v.t))
		}
		return mkBool(v.n == 0)
	}
	switch ti.kind {
	case KInt:
		if a.t == nil && b.t == nil {
			return x.intop(op, a.n, b.n, ti, wy, ysgn)
		}
		return x.intopSym(st, op, x.norm(st, a), x.norm(st, b), ti, wy, ysgn)
	case KString:
		if op == token.ADD {
			if a.strLen() == 0 {
				return b
			}
			if b.strLen() == 0 {
				return a
			}
			sa, ok1 := a.concStr()
			sb, ok2 := b.concStr()
			if ok1 && ok2 {
				return mkStr(sa + sb)
			}
			return mkStrBytes(append(append([]Val(nil), a.strBytes()...), b.strBytes()...))
		}
		lt := func(p, q Val, eqv bool) Val {
			pa, ok1 := p.concStr()
			qa, ok2 := q.concStr()
			if ok1 && ok2 {
				return mkBool(pa < qa || eqv && pa == qa)
			}
			bp, bq := p.strBytes(), q.strBytes()
			n := len(bp)
			if len(bq) < n {
				n = len(bq)
			}
			r := x.ts.Bool(len(bp) < len(bq) || eqv && len(bp) == len(bq))
			for i := n - 1; i >= 0; i-- {
				u, v := x.term(bp[i], 8), x.term(bq[i], 8)
				r = x.ts.Or(x.ts.Ult(u, v), x.ts.And(x.ts.Eq(u, v), r))
			}
			return tval(r)
		}
		switch op {
		case token.LSS:
			return lt(a, b, false)
		case token.LEQ:
			return lt(a, b, true)
		case token.GTR:
			return lt(b, a, false)
		case token.GEQ:
			return lt(b, a, true)
		}
	case KFloat:
		return x.floatop(op, a, b, ti)
	case KBool:
		// & | ^ on booleans do not exist in Go
	}
	unsup("binop %s on %s", op, ti)
	return Val{}
}

func (x *Exec) intop(op token.Token, a, b uint64, ti *TI, wy uint8, ysgn bool) Val {
	w := ti.w
	m := mask(w)
	switch op {
	case token.ADD:
		return Val{n: (a + b) & m}
	case token.SUB:
		return Val{n: (a - b) & m}
	case token.MUL:
		return Val{n: (a * b) & m}
	case token.AND:
		return Val{n: a & b}
	case token.OR:
		return Val{n: a | b}
	case token.XOR:
		return Val{n: a ^ b}
	case token.AND_NOT:
		return Val{n: a &^ b}
	case token.QUO, token.REM:
		if b == 0 {
			x.throwRT("integer divide by zero")
		}
		if ti.sgn {
			p, q := signed(a, w), signed(b, w)
			if q == -1 {
				if op == token.QUO {
					return Val{n: uint64(-p) & m}
				}
				return Val{}
			}
			if op == token.QUO {
				return Val{n: uint64(p/q) & m}
			}
			return Val{n: uint64(p%q) & m}
		}
		if op == token.QUO {
			return Val{n: a / b}
		}
		return Val{n: a % b}
	case token.SHL, token.SHR:
		if ysgn && signed(b, wy) < 0 {
			x.throwRT("negative shift amount")
		}
		if op == token.SHL {
			if b >= 64 {
				return Val{}
			}
			return Val{n: a << b & m}
		}
		if ti.sgn {
			if b > 63 {
				b = 63
			}
			return Val{n: uint64(signed(a, w)>>b) & m}
		}
		if b >= 64 {
			return Val{}
		}
		return Val{n: a >> b}
	case token.LSS:
		if ti.sgn {
			return mkBool(signed(a, w) < signed(b, w))
		}
		return mkBool(a < b)
	case token.LEQ:
		if ti.sgn {
			return mkBool(signed(a, w) <= signed(b, w))
		}
		return mkBool(a <= b)
	case token.GTR:
		if ti.sgn {
			return mkBool(signed(a, w) > signed(b, w))
		}
		return mkBool(a > b)
	case token.GEQ:
		if ti.sgn {
			return mkBool(signed(a, w) >= signed(b, w))
		}
		return mkBool(a >= b)
	}
	panic("intop " + op.String())
}

func (x *Exec) intopSym(st *State, op token.Token, av, bv Val, ti *TI, wy uint8, ysgn bool) Val {
	w := ti.w
	s := x.ts
	if av.t == nil && bv.t == nil {
		return x.intop(op, av.n, bv.n, ti, wy, ysgn)
	}
	if op == token.SHL || op == token.SHR {
		a := x.term(av, w)
		b := x.term(bv, wy)
		if ysgn && bv.t != nil {
			neg := s.Slt(b, s.Const(wy, 0))
			if x.decide(st, neg) {
				x.throwRT("negative shift amount")
			}
		}
		f := s.Shl
		if op == token.SHR {
			f = s.Lshr
			if ti.sgn {
				f = s.Ashr
			}
		}
		if b.isConst() {
			c := b.c
			if c > 64 {
				c = 64
			}
			if w < 64 && c >= uint64(w) {
				if op == token.SHR && ti.sgn {
					c = uint64(w) - 1
				} else {
					return Val{}
				}
			}
			if c >= 64 {
				if op == token.SHR && ti.sgn {
					c = 63
				} else {
					return Val{}
				}
			}
			return tval(f(a, s.Const(w, c)))
		}
		// symbolic count: small ranges become a table
		lo, hi := st.rangeOf(b, 3)
		if hi-lo <= 64 && hi <= 128 {
			var r *Term
			for k := hi; ; k-- {
				var e *Term
				kk := k
				if kk >= uint64(w) {
					if op == token.SHR && ti.sgn {
						kk = uint64(w) - 1
						e = f(a, s.Const(w, kk))
					} else {
						e = s.Const(w, 0)
					}
				} else {
					e = f(a, s.Const(w, kk))
				}
				if r == nil {
					r = e
				} else {
					r = s.Ite(s.Eq(b, s.Const(wy, k)), e, r)
				}
				if k == lo {
					break
				}
			}
			return tval(r)
		}
		if wy <= w {
			return tval(f(a, s.Zext(b, w)))
		}
		sat := s.Ite(s.Ult(b, s.Const(wy, uint64(w))), s.Extract(b, w-1, 0), s.Const(w, uint64(w)))
		return tval(f(a, sat))
	}
	a, b := x.term(av, w), x.term(bv, w)
	switch op {
	case token.ADD:
		return tval(s.Add(a, b))
	case token.SUB:
		return tval(s.Sub(a, b))
	case token.MUL:
		return tval(s.Mul(a, b))
	case token.AND:
		return tval(s.BAnd(a, b))
	case token.OR:
		return tval(s.BOr(a, b))
	case token.XOR:
		return tval(s.BXor(a, b))
	case token.AND_NOT:
		return tval(s.BAnd(a, s.Not_(b)))
	case token.QUO, token.REM:
		if x.decide(st, s.Eq(b, s.Const(w, 0))) {
			x.throwRT("integer divide by zero")
		}
		if ti.sgn {
			if op == token.QUO {
				return tval(s.SDiv(a, b))
			}
			return tval(s.SRem(a, b))
		}
		if op == token.QUO {
			return tval(s.UDiv(a, b))
		}
		return tval(s.URem(a, b))
	case token.LSS:
		if ti.sgn {
			return tval(s.Slt(a, b))
		}
		return tval(s.Ult(a, b))
	case token.LEQ:
		if ti.sgn {
			return tval(s.Sle(a, b))
		}
		return tval(s.Ule(a, b))
	case token.GTR:
		if ti.sgn {
			return tval(s.Slt(b, a))
		}
		return tval(s.Ult(b, a))
	case token.GEQ:
		if ti.sgn {
			return tval(s.Sle(b, a))
		}
		return tval(s.Ule(b, a))
	}
	panic("intopSym " + op.String())
}

func (x *Exec) floatop(op token.Token, a, b Val, ti *TI) Val {
	if a.t == nil && b.t == nil {
		if ti.w == 32 {
			p, q := math.Float32frombits(uint32(a.n)), math.Float32frombits(uint32(b.n))
			switch op {
			case token.ADD:
				return Val{n: uint64(math.Float32bits(p + q))}
			case token.SUB:
				return Val{n: uint64(math.Float32bits(p - q))}
			case token.MUL:
				return Val{n: uint64(math.Float32bits(p * q))}
			case token.QUO:
				return Val{n: uint64(math.Float32bits(p / q))}
			case token.LSS:
				return mkBool(p < q)
			case token.LEQ:
				return mkBool(p <= q)
			case token.GTR:
				return mkBool(p > q)
			case token.GEQ:
				return mkBool(p >= q)
			}
		}
		p, q := ffrom(a.n), ffrom(b.n)
		switch op {
		case token.ADD:
			return Val{n: fbits(p + q)}
		case token.SUB:
			return Val{n: fbits(p - q)}
		case token.MUL:
			return Val{n: fbits(p * q)}
		case token.QUO:
			return Val{n: fbits(p / q)}
		case token.LSS:
			return mkBool(p < q)
		case token.LEQ:
			return mkBool(p <= q)
		case token.GTR:
			return mkBool(p > q)
		case token.GEQ:
			return mkBool(p >= q)
		}
	}
	p, q := x.ftermW(a, ti.w), x.ftermW(b, ti.w)
	if ti.w != 64 {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
		case token.MUL, token.QUO:
			if !smallPow2(q) || !exact32(p, 0) {
				unsup("symbolic float32 operation")
			}
		default:
			unsup("symbolic float32 operation")
		}
	}
	switch op {
	case token.ADD:
		return x.fbin(OFAdd, p, q)
	case token.SUB:
		return x.fbin(OFSub, p, q)
	case token.MUL:
		return x.fbin(OFMul, p, q)
	case token.QUO:
		return x.fbin(OFDiv, p, q)
	case token.LSS:
		return tval(x.fcmp(OFLt, p, q))
	case token.LEQ:
		return tval(x.fcmp(OFLe, p, q))
	case token.GTR:
		return tval(x.fcmp(OFLt, q, p))
	case token.GEQ:
		return tval(x.fcmp(OFLe, q, p))
	}
	unsup("float op %s", op)
	return Val{}
}

// ---------- conversions

func (x *Exec) convInt(v Val, from, to *TI) Val {
	if v.t == nil {
		n := v.n
		if from.sgn {
			n = uint64(signed(n, from.w))
		}
		return Val{n: n & mask(to.w)}
	}
	if to.w <= from.w {
		return tval(x.ts.Extract(v.t, to.w-1, 0))
	}
	if from.sgn {
		return tval(x.ts.Sext(v.t, to.w))
	}
	return tval(x.ts.Zext(v.t, to.w))
}

func (x *Exec) convert(st *State, v Val, from, to *TI) Val {
	switch {
	case from.kind == KInt && to.kind == KInt:
		return x.convInt(x.norm(st, v), from, to)
	case from.kind == KInt && to.kind == KFloat:
		v = x.norm(st, v)
		if v.t == nil {
			var f float64
			if from.sgn {
				f = float64(signed(v.n, from.w))
			} else {
				f = float64(v.n)
			}
			if to.w == 32 {
				if from.sgn {
					return Val{n: uint64(math.Float32bits(float32(signed(v.n, from.w))))}
				}
				return Val{n: uint64(math.Float32bits(float32(v.n)))}
			}
			return Val{n: fbits(f)}
		}
		op := OFFromU
		if from.sgn {
			op = OFFromS
		}
		r := x.ts.mk(op, 64, 0, v.t, nil, nil)
		if to.w != 64 && !exact32(r, 0) {
			unsup("symbolic int to float32")
		}
		return Val{t: r}
	case from.kind == KFloat && to.kind == KInt:
		if v.t != nil {
			return x.floatToIntSym(st, v, to)
		}
		var f float64
		if from.w == 32 {
			f = float64(math.Float32frombits(uint32(v.n)))
		} else {
			f = ffrom(v.n)
		}
		if to.sgn {
			return Val{n: uint64(int64(f)) & mask(to.w)}
		}
		return Val{n: uint64(f) & mask(to.w)}
	case from.kind == KFloat && to.kind == KFloat:
		if from.w == to.w {
			return v
		}
		if v.t != nil {
			if to.w == 32 && !exact32(v.t, 0) {
				unsup("symbolic float conversion")
			}
			return v
		}
		if to.w == 32 {
			return Val{n: uint64(math.Float32bits(float32(ffrom(v.n))))}
		}
		return Val{n: fbits(float64(math.Float32frombits(uint32(v.n))))}
	case from.kind == KSlice && to.kind == KString:
		e := from.Elem()
		if e.w == 8 {
			return mkStrBytes(x.sliceVals(st, v, e))
		}
		// []rune
		var out []byte
		for _, r := range x.sliceVals(st, v, e) {
			if r.t != nil {
				unsup("string from symbolic runes")
			}
			out = append(out, string(rune(int32(r.n)))...)
		}
		return mkStr(string(out))
	case from.kind == KString && to.kind == KSlice:
		e := to.Elem()
		if e.w == 8 {
			b := v.strBytes()
			s := x.newSlice(st, e, len(b), len(b))
			st.h.storeN(s.r.(*SliceV).obj, 0, b)
			return s
		}
		s, ok := v.concStr()
		if !ok {
			unsup("[]rune of a symbolic string")
		}
		rs := []rune(s)
		sl := x.newSlice(st, e, len(rs), len(rs))
		for i, r := range rs {
			st.h.store(sl.r.(*SliceV).obj, i, Val{n: uint64(uint32(r))})
		}
		return sl
	case from.kind == KInt && to.kind == KString:
		v = x.norm(st, v)
		if v.t == nil {
			return mkStr(string(rune(signed(v.n, from.w))))
		}
		t := v.t
		if t.hi < 0x80 || x.decide(st, x.ts.Ult(t, x.ts.Const(t.w, 0x80))) {
			return mkStrBytes([]Val{tval(x.ts.Extract(t, 7, 0))})
		}
		r := x.concretize(st, v)
		return mkStr(string(rune(signed(r, from.w))))
	case from.kind == KString && to.kind == KString,
		from.kind == KPtr && to.kind == KUnsafe, from.kind == KUnsafe && to.kind == KPtr,
		from.kind == KUnsafe && to.kind == KUnsafe, from.kind == KPtr && to.kind == KPtr,
		from.kind == KSlice && to.kind == KSlice:
		return v
	case from.kind == KUnsafe && to.kind == KInt, from.kind == KInt && to.kind == KUnsafe:
		return v
	}
	unsup("conversion %s -> %s", from, to)
	return Val{}
}

func (x *Exec) floatToIntSym(st *State, v Val, to *TI) Val {
	// exact cases: float64(int) of a value that fits 53 bits
	if v.t.op == OFFromU || v.t.op == OFFromS {
		src := v.t.a
		_, hi := st.rangeOf(src, 3)
		if hi < 1<<53 && (v.t.op == OFFromU || hi < 1<<(src.w-1)) {
			return tval(x.ts.Zext(src, to.w))
		}
	}
	unsup("float to int of a symbolic value")
	return Val{}
}

// ---------- slices and indexing

// index resolves a bounds check; returns concrete index or (nil term) symbolic.
func (x *Exec) boundsIdx(st *State, iv Val, iti *TI, n int) (int, *Term) {
	iv = x.norm(st, iv)
	if iv.t == nil {
		var i int64
		if iti.sgn {
			i = signed(iv.n, iti.w)
		} else {
			i = int64(iv.n)
			if iv.n > math.MaxInt64 {
				i = -1
			}
		}
		if i < 0 || i >= int64(n) {
			x.throwRT(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t := iv.t
	var ok *Term
	t64 := t
	if t.w < 64 {
		if iti.sgn {
			t64 = x.ts.Sext(t, 64)
		} else {
			t64 = x.ts.Zext(t, 64)
		}
	}
	ok = x.ts.Ult(t64, x.ts.Const(64, uint64(n)))
	if !x.decide(st, ok) {
		x.throwRT(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	lo, hi := st.rangeOf(t64, 3)
	if lo == hi {
		return int(lo), nil
	}
	return 0, t64
}

func (x *Exec) indexAddr(st *State, base Val, bti *TI, iv Val, iti *TI) Val {
	if bti.kind == KPtr { // pointer to array
		at := bti.Elem()
		e := at.Elem()
		switch p := base.r.(type) {
		case nil:
			x.nilDeref()
		case *SymPtrV:
			i, sym := x.boundsIdx(st, iv, iti, at.alen)
			if sym != nil {
				x.concretize(st, Val{t: p.idx})
				panic(retryInstr{})
			}
			c := *p
			c.extra += i * e.slots
			return Val{r: &c}
		}
		obj, off := base.ptr()
		i, sym := x.boundsIdx(st, iv, iti, at.alen)
		if sym != nil {
			return Val{r: &SymPtrV{obj, off, sym, e.slots, at.alen, 0}}
		}
		return mkPtr(obj, off+i*e.slots)
	}
	e := bti.Elem()
	s, _ := base.r.(*SliceV)
	n := 0
	if s != nil {
		n = s.len
	}
	i, sym := x.boundsIdx(st, iv, iti, n)
	if sym != nil {
		if n > 512 {
			return mkPtr(s.obj, s.off+int(x.concretize(st, Val{t: sym}))*e.slots)
		}
		return Val{r: &SymPtrV{s.obj, s.off, sym, e.slots, n, 0}}
	}
	return mkPtr(s.obj, s.off+i*e.slots)
}

// sizeArg resolves a length-like operand to a concrete value within [0, max].
// ok=false when it is out of range on this path.
func (x *Exec) sizeArg(st *State, v Val, ti *TI, max int) (int, bool) {
	v = x.norm(st, v)
	if v.t == nil {
		i := int64(v.n)
		if ti != nil && ti.sgn {
			i = signed(v.n, ti.w)
		}
		if i < 0 || i > int64(max) {
			return 0, false
		}
		return int(i), true
	}
	t := v.t
	if t.w < 64 {
		if ti.sgn {
			t = x.ts.Sext(t, 64)
		} else {
			t = x.ts.Zext(t, 64)
		}
	}
	if !x.decide(st, x.ts.Ule(t, x.ts.Const(64, uint64(max)))) {
		return 0, false
	}
	return int(x.concretize(st, Val{t: t})), true
}

func (x *Exec) sliceOp(st *State, in *Instr, fr *Frame) Val {
	s := in.ssa.(*ssa.Slice)
	k := 0
	base := x.op(fr, &in.ops[0])
	k = 1
	get := func(v ssa.Value, def int, max int) int {
		if v == nil {
			return def
		}
		o := x.op(fr, &in.ops[k])
		k++
		n, ok := x.sizeArg(st, o, T(v.Type()), max)
		if !ok {
			x.throwRT("slice bounds out of range")
		}
		return n
	}
	// Operands() yields X, Low, High, Max including nil ones
	ops := in.ops
	_ = ops
	getAt := func(idx int, v ssa.Value, def, max int) int {
		k = idx
		return get(v, def, max)
	}
	if in.oti.kind == KString {
		n := base.strLen()
		hi := getAt(2, s.High, n, n)
		lo := getAt(1, s.Low, 0, hi)
		return base.substr(lo, hi)
	}
	var obj uint32
	var off, ln, cp int
	var e *TI
	if in.oti.kind == KPtr {
		at := in.oti.Elem()
		e = at.Elem()
		if base.r == nil {
			x.nilDeref()
		}
		if sp, ok := base.r.(*SymPtrV); ok {
			x.concretize(st, Val{t: sp.idx})
			panic(retryInstr{})
		}
		obj, off = base.ptr()
		ln, cp = at.alen, at.alen
	} else {
		e = in.oti.Elem()
		if base.r != nil {
			sv := base.r.(*SliceV)
			obj, off, ln, cp = sv.obj, sv.off, sv.len, sv.cap
		}
	}
	max := getAt(3, s.Max, cp, cp)
	hi := getAt(2, s.High, ln, max)
	if hi > max {
		x.throwRT("slice bounds out of range")
	}
	lo := getAt(1, s.Low, 0, hi)
	if base.r == nil {
		return Val{}
	}
	return Val{r: &SliceV{obj, off + lo*e.slots, hi - lo, max - lo}}
}

// ---------- maps

func (x *Exec) mapFind(st *State, m *MapObj, key Val, kti *TI) int {
	if ks, ok := keyString(key); ok {
		if i, ok := m.index[ks]; ok {
			return i
		}
		if len(m.index) == m.nlive {
			return -1
		}
	}
	for i := range m.keys {
		if m.del[i] {
			continue
		}
		e := x.eqVal(st, m.keys[i], key, kti)
		if e.t == nil {
			if e.n != 0 {
				return i
			}
			continue
		}
		if x.decide(st, e.t) {
			return i
		}
	}
	return -1
}

func (x *Exec) mapSet(st *State, mv Val, key, val Val, kti *TI) {
	if mv.r == nil {
		panic(goPanic{msg: "assignment to entry in nil map"})
	}
	id := uint32(mv.n >> 32)
	i := x.mapFind(st, st.h.get(id).m, key, kti)
	if x.journal != nil {
		panic(specAbort{})
	}
	if st.freezeBelow != 0 && id < st.freezeBelow {
		x.checkFrozen(st, id)
	}
	o := st.h.objW(id)
	o.m = o.m.clone()
	m := o.m
	if i >= 0 {
		m.vals[i] = val
		return
	}
	if ks, ok := keyString(key); ok {
		m.index[ks] = len(m.keys)
	}
	m.keys = append(m.keys, key)
	m.vals = append(m.vals, val)
	m.del = append(m.del, false)
	m.nlive++
	x.account(st, 64)
}

func (x *Exec) mapDelete(st *State, mv Val, key Val, kti *TI) {
	if mv.r == nil {
		return
	}
	id := uint32(mv.n >> 32)
	i := x.mapFind(st, st.h.get(id).m, key, kti)
	if i < 0 {
		return
	}
	if st.freezeBelow != 0 && id < st.freezeBelow {
		x.checkFrozen(st, id)
	}
	o := st.h.objW(id)
	o.m = o.m.clone()
	if ks, ok := keyString(o.m.keys[i]); ok {
		delete(o.m.index, ks)
	}
	o.m.del[i] = true
	o.m.nlive--
}

type rangeIter struct {
	str  Val
	mp   uint32
	keys []Val
	vals []Val
	pos  int
}

// ---------- calls

func (x *Exec) push(st *State, fi *FnInfo, args, free []Val, ret retKind) *Frame {
	fi.prepare()
	if fi.external {
		unsup("call of a function without Go source: %s", fi.name)
	}
	if len(st.frames) > 400 {
		panic(killState{"stack depth"})
	}
	x.fns[fi] = true
	fr := &Frame{tk: st.h.tk, fi: fi, regs: make([]Val, fi.nregs), blk: fi.blocks[0], ret: ret}
	for i, p := range fi.params {
		fr.regs[p] = args[i]
	}
	for i, p := range fi.frees {
		fr.regs[p] = free[i]
	}
	if fi.nloops > 0 {
		fr.iters = make([]int32, fi.nloops)
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], fr)
	return fr
}

// callFn starts a call; returns (value, true) if it completed immediately.
func (x *Exec) callFn(st *State, in *Instr, fi *FnInfo, args, free []Val, ret retKind) (Val, bool) {
	if fi.intr != nil {
		v, done := fi.intr(x, st, in, args)
		return v, done
	}
	x.push(st, fi, args, free, ret)
	return Val{}, false
}

// pushCont calls fi and feeds its result through k to the current instruction.
func (x *Exec) pushCont(st *State, fi *FnInfo, args, free []Val, k func(x *Exec, st *State, v Val) Val) {
	if fi.intr != nil {
		panic("pushCont on intrinsic " + fi.name)
	}
	fr := x.push(st, fi, args, free, retCont)
	fr.cont = k
}

func (x *Exec) resolve(st *State, fr *Frame, in *Instr) (*FnInfo, []Val, []Val) {
	ci := in.call
	if ci.invoke {
		recv := x.op(fr, &in.ops[0])
		args := make([]Val, len(in.ops))
		for i := 1; i < len(in.ops); i++ {
			args[i] = x.op(fr, &in.ops[i])
		}
		switch r := recv.r.(type) {
		case nil:
			x.nilDeref()
		case *RT:
			args[0] = recv
			return rtypeMethod(ci.mname), args, nil
		case *IfaceV:
			if rt, ok := r.v.r.(*RT); ok {
				args[0] = Val{r: rt}
				return rtypeMethod(ci.mname), args, nil
			}
			f := r.ti.method(ci.mpkg, ci.mname)
			if f == nil {
				unsup("no method %s on %s", ci.mname, r.ti)
			}
			args[0] = r.v
			return FI(f), args, nil
		default:
			panic(fmt.Sprintf("invoke on %T", recv.r))
		}
	}
	args := make([]Val, len(in.ops)-1)
	for i := range args {
		args[i] = x.op(fr, &in.ops[i+1])
	}
	if ci.static != nil {
		return ci.static, args, nil
	}
	fv := x.op(fr, &in.ops[0])
	return x.resolveFunc(fv, args)
}

func (x *Exec) resolveFunc(fv Val, args []Val) (*FnInfo, []Val, []Val) {
	f, ok := fv.r.(*FuncV)
	if !ok {
		x.nilDeref()
	}
	if f.native != "" {
		return nativeFn(f.native), append(append([]Val(nil), f.nargs...), args...), nil
	}
	return FI(f.fn), args, f.free
}

func (x *Exec) builtin(st *State, fr *Frame, in *Instr, name string, args []Val, ats []*TI, rti *TI) (Val, bool) {
	switch name {
	case "len", "cap":
		a := args[0]
		switch ats[0].kind {
		case KString:
			return mkInt(uint64(a.strLen())), true
		case KSlice:
			if a.r == nil {
				return Val{}, true
			}
			s := a.r.(*SliceV)
			if name == "cap" {
				return mkInt(uint64(s.cap)), true
			}
			return mkInt(uint64(s.len)), true
		case KMap:
			if a.r == nil {
				return Val{}, true
			}
			return mkInt(uint64(st.h.get(uint32(a.n >> 32)).m.nlive)), true
		case KArray:
			return mkInt(uint64(ats[0].alen)), true
		case KPtr:
			return mkInt(uint64(ats[0].Elem().alen)), true
		case KChan:
			return Val{}, true
		}
	case "append":
		return x.appendOp(st, args[0], args[1], ats[0], ats[1]), true
	case "copy":
		e := ats[0].Elem()
		d := 0
		if args[0].r != nil {
			d = args[0].r.(*SliceV).len
		}
		var src []Val
		if ats[1].kind == KString {
			src = args[1].strBytes()
		} else {
			src = x.sliceVals(st, args[1], e)
		}
		n := len(src) / e.slots
		if d < n {
			n = d
		}
		if n > 0 {
			s := args[0].r.(*SliceV)
			for i := 0; i < n*e.slots; i++ {
				x.hstore(st, s.obj, s.off+i, src[i])
			}
		}
		return mkInt(uint64(n)), true
	case "delete":
		x.mapDelete(st, args[0], args[1], ats[0].Key())
		return Val{}, true
	case "panic":
		v := args[0]
		panic(goPanic{val: v, msg: x.describePanic(st, v)})
	case "print", "println":
		return Val{}, true
	case "recover":
		// the frame calling recover must be a deferred call
		if p := fr.inPan; p != nil && !p.recovered {
			np := *p
			np.recovered = true
			// the panicking frame is below
			for i := len(st.frames) - 2; i >= 0; i-- {
				if st.frames[i].pan != nil {
					f := st.frameAt(i)
					f.pan.recovered = true
					break
				}
			}
			fr.inPan = &np
			if np.val.r == nil {
				return Val{r: &IfaceV{ti: T(types.Typ[types.String]), v: mkStr(np.msg)}}, true
			}
			return np.val, true
		}
		return Val{}, true
	case "min", "max":
		r := args[0]
		for i := 1; i < len(args); i++ {
			var c Val
			if name == "min" {
				c = x.binop(st, token.LSS, args[i], r, rti, 0, false)
			} else {
				c = x.binop(st, token.GTR, args[i], r, rti, 0, false)
			}
			if c.t == nil {
				if c.n != 0 {
					r = args[i]
				}
				continue
			}
			v, ok := x.iteVal(c.t, args[i], r, rti)
			if !ok {
				unsup("min/max")
			}
			r = v
		}
		return r, true
	case "clear":
		if ats[0].kind == KMap {
			if args[0].r != nil {
				o := st.h.objW(uint32(args[0].n >> 32))
				o.m = &MapObj{index: map[string]int{}}
			}
			return Val{}, true
		}
		if args[0].r != nil {
			s := args[0].r.(*SliceV)
			for i := 0; i < s.len*ats[0].Elem().slots; i++ {
				x.hstore(st, s.obj, s.off+i, Val{})
			}
		}
		return Val{}, true
	case "String": // unsafe.String(ptr, len)
		n, ok := x.sizeArg(st, args[1], ats[1], 1<<30)
		if !ok {
			x.throwRT("unsafe.String: len out of range")
		}
		if n == 0 {
			return Val{}, true
		}
		obj, off := args[0].ptr()
		return mkStrBytes(st.h.loadN(obj, off, n)), true
	case "SliceData":
		if args[0].r == nil {
			return Val{}, true
		}
		s := args[0].r.(*SliceV)
		return mkPtr(s.obj, s.off), true
	case "StringData":
		b := args[0].strBytes()
		obj := x.allocObj(st, len(b), tiByte, 0)
		st.h.storeN(obj, 0, b)
		return mkPtr(obj, 0), true
	case "Slice": // unsafe.Slice(ptr, len)
		n, _ := x.sizeArg(st, args[1], ats[1], 1<<30)
		if args[0].r == nil {
			return Val{}, true
		}
		obj, off := args[0].ptr()
		return Val{r: &SliceV{obj, off, n, n}}, true
	case "ssa:wrapnilchk":
		if args[0].r == nil {
			x.nilDeref()
		}
		return args[0], true
	case "ssa:deferstack":
		return Val{}, true
	}
	unsup("builtin %s on %v", name, ats)
	return Val{}, false
}

func (x *Exec) appendOp(st *State, a, b Val, ta, tb *TI) Val {
	e := ta.Elem()
	var add []Val
	var n2 int
	if tb.kind == KString {
		add = b.strBytes()
		n2 = len(add)
	} else {
		if b.r != nil {
			n2 = b.r.(*SliceV).len
			add = x.sliceVals(st, b, e)
		}
	}
	if n2 == 0 {
		return a
	}
	var s SliceV
	if a.r != nil {
		s = *a.r.(*SliceV)
	}
	if s.len+n2 <= s.cap {
		at := s.off + s.len*e.slots
		for i := range add {
			x.hstore(st, s.obj, at+i, add[i])
		}
		s.len += n2
		return Val{r: &s}
	}
	nc := s.cap * 2
	if s.cap >= 256 {
		nc = s.cap + (s.cap+768)/4
	}
	if nc < s.len+n2 {
		nc = s.len + n2
	}
	if nc < 8 && e.goSize() == 1 {
		nc = 8
	}
	obj := x.allocObj(st, nc*e.slots, e, int64(nc)*e.goSize())
	if s.len > 0 {
		st.h.storeN(obj, 0, st.h.loadN(s.obj, s.off, s.len*e.slots))
	}
	st.h.storeN(obj, s.len*e.slots, add)
	return Val{r: &SliceV{obj, 0, s.len + n2, nc}}
}

func (x *Exec) describePanic(st *State, v Val) string {
	if iv, ok := v.r.(*IfaceV); ok {
		if iv.ti.kind == KString {
			s := x.showStr(iv.v)
			return s
		}
		return "panic of type " + iv.ti.String()
	}
	return "panic"
}

func (x *Exec) showStr(v Val) string {
	if s, ok := v.concStr(); ok {
		return s
	}
	var out []byte
	for _, b := range v.strBytes() {
		if b.t == nil {
			out = append(out, byte(b.n))
		} else {
			out = append(out, '?')
		}
	}
	return string(out)
}

// ---------- returning and unwinding

func (x *Exec) doReturn(st *State, res Val) {
	fr := st.frames[len(st.frames)-1]
	st.frames = st.frames[: len(st.frames)-1 : len(st.frames)-1]
	x.deliver(st, fr, res)
}

func (x *Exec) deliver(st *State, callee *Frame, res Val) {
	if len(st.frames) == 0 {
		st.dead = true
		x.pathDone(st, res)
		return
	}
	switch callee.ret {
	case retDefer:
		caller := st.top()
		if caller.pan != nil {
			x.unwind(st)
		}
		return
	case retCont:
		res = callee.cont(x, st, res)
	}
	caller := st.top()
	in := caller.blk.instrs[caller.pc]
	if in.dst >= 0 {
		caller.regs[in.dst] = res
	}
	caller.pc++
}

// unwind continues a panic in the top frame.
func (x *Exec) unwind(st *State) {
	for {
		if len(st.frames) == 0 {
			panic("unwind with no frames")
		}
		fr := st.top()
		p := fr.pan
		if p.recovered {
			fr.pan = nil
			fr.defers = fr.defers // remaining deferred calls run below
			if len(fr.defers) > 0 {
				// run remaining defers normally, then return through recover block
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[: len(fr.defers)-1 : len(fr.defers)-1]
				fr.pan = &panicRec{recovered: true}
				x.startDeferred(st, d, nil)
				return
			}
			if fr.fi.recover != nil {
				fr.blk = fr.fi.recover
				fr.pc = 0
				return
			}
			// zero results
			var res Val
			rs := fr.fi.results
			if rs.Len() == 1 {
				res = zeroVal(T(rs.At(0).Type()))
			} else if rs.Len() > 1 {
				a := &Agg{}
				for i := 0; i < rs.Len(); i++ {
					a.v = append(a.v, zeroVal(T(rs.At(i).Type())))
				}
				res = Val{r: a}
			}
			x.doReturn(st, res)
			return
		}
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[: len(fr.defers)-1 : len(fr.defers)-1]
			x.startDeferred(st, d, p)
			return
		}
		// pop and propagate
		st.frames = st.frames[: len(st.frames)-1 : len(st.frames)-1]
		if len(st.frames) == 0 {
			x.candidate2(st, "panic", p.msg, p.site, nil)
			panic(killState{"panic"})
		}
		nf := st.top()
		if nf.pan != nil && fr.ret == retDefer {
			// a deferred call panicked: replaces the old panic
		}
		nf.pan = p
	}
}

func (x *Exec) startDeferred(st *State, d deferred, p *panicRec) {
	if d.bi != "" {
		fr := st.top()
		x.builtin(st, fr, nil, d.bi, d.args, d.biTI, nil)
		if fr.pan != nil {
			x.unwind(st)
		}
		return
	}
	if d.fn.intr != nil {
		below := st.top()
		_, done := d.fn.intr(x, st, nil, d.args)
		if !done {
			// a model written in Go took its place
			fr := st.top()
			if fr == below || fr.ret != retNormal {
				unsup("deferred intrinsic %s", d.fn.name)
			}
			fr.ret = retDefer
			fr.inPan = p
			return
		}
		if st.top().pan != nil {
			x.unwind(st)
		}
		return
	}
	fr := x.push(st, d.fn, d.args, d.free, retDefer)
	fr.inPan = p
}

// ---------- main loop

// run executes st until it ends; forked states are pushed to the worklist.
func (x *Exec) run(st *State) {
	for !st.dead {
		if x.runSome(st) {
			return
		}
	}
}

// runSome returns true when the state was suspended (pushed back).
func (x *Exec) runSome(st *State) (suspended bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch p := r.(type) {
		case goPanic:
			if st.frames == nil || len(st.frames) == 0 {
				panic(r)
			}
			site := x.where(st)
			fr := st.top()
			fr.pan = &panicRec{val: p.val, msg: p.msg, site: site + " [" + x.stack(st) + "]"}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(killState); ok {
							st.dead = true
							return
						}
						if u, ok := r.(unsupported); ok {
							x.incomplete("unsupported: " + u.msg + " at " + x.where(st))
							st.dead = true
							return
						}
						panic(r)
					}
				}()
				x.unwind(st)
			}()
		case killState:
			st.dead = true
			if p.why != "" && p.why != "panic" && p.why != "assert" && p.why != "assume" && p.why != "alloc" && p.why != "prune" && p.why != "candidate" {
				x.incomplete("path abandoned: " + p.why)
			}
		case retryInstr:
			// re-execute the same instruction
		case unsupported:
			x.incomplete("unsupported: " + p.msg + " at " + x.where(st))
			st.dead = true
		case specAbort:
			x.incomplete("unsupported: undecided condition in a non-forking evaluation at " + x.where(st))
			st.dead = true
		default:
			fmt.Println("internal error:", r, "at", x.stack(st))
			debug.PrintStack()
			x.incomplete(fmt.Sprintf("internal error: %v", r))
			st.dead = true
		}
	}()
	for !st.dead {
		fr := st.top()
		b := fr.blk
		for fr.pc < len(b.instrs) {
			in := b.instrs[fr.pc]
			st.steps++
			x.steps++
			if x.steps&0x3fff == 0 || x.sol.Queries != x.lastQ {
				x.lastQ = x.sol.Queries
				atomic.StoreInt64(&x.pend, int64(len(x.work)-x.ngone))
				if outOfTime(x.deadline) {
					x.incomplete("time budget of the instance used up")
					st.dead = true
					x.timedOut()
					return false
				}
				if atomic.LoadInt32(&memHigh) != 0 && x.largest() {
					x.incomplete("memory used up")
					st.dead = true
					x.timedOut()
					atomic.StoreInt32(&memHigh, 0)
					return false
				}
			}
			if int64(st.steps) > x.maxSteps {
				if x.hangCand {
					x.candidate(st, "hang", fmt.Sprintf("more than %d steps", x.maxSteps), nil)
				}
				x.incomplete("step budget of a path used up")
				st.dead = true
				return false
			}
			switch x.step(st, fr, in) {
			case 0:
				if fr.tk != st.h.tk {
					fr = st.top()
				}
				fr.pc++
			case 1: // control transferred (jump, call, return)
				goto next
			case 2:
				return true
			}
			if fr.tk != st.h.tk {
				fr = st.top()
			}
		}
		panic("fell off block in " + fr.fi.name)
	next:
		if !st.dead && x.work.Len() > 0 && len(st.frames) > 0 {
			f := st.frames[len(st.frames)-1]
			if f.pc == f.blk.nphi && f.blk.join || st.justReturned(fr) {
				if x.yieldTo(st) {
					return true
				}
			}
		}
	}
	return false
}

func (st *State) justReturned(old *Frame) bool { return false }

func (x *Exec) timedOut() { x.work = nil }

// jump transfers control along the edge b -> succ index k.
func (x *Exec) jump(st *State, fr *Frame, b *BlockInfo, k int) {
	t := b.succs[k]
	x.jumpTo(st, fr, b, t, predIndex(b, t, k))
}

func predIndex(b, t *BlockInfo, k int) int {
	// if both edges of b go to t, the k-th occurrence among preds
	n := 0
	for i := 0; i < k; i++ {
		if b.succs[i] == t {
			n++
		}
	}
	for i, p := range t.preds {
		if p == b {
			if n == 0 {
				return i
			}
			n--
		}
	}
	panic("no pred edge")
}

func (x *Exec) jumpTo(st *State, fr *Frame, from, t *BlockInfo, pi int) {
	if t.nphi > 0 {
		var buf [16]Val
		vals := buf[:0]
		for i := 0; i < t.nphi; i++ {
			vals = append(vals, x.op(fr, &t.instrs[i].ops[pi]))
		}
		for i := 0; i < t.nphi; i++ {
			fr.regs[t.instrs[i].dst] = vals[i]
		}
	}
	x.enterBlock(fr, from, t)
}

func (x *Exec) enterBlock(fr *Frame, from, t *BlockInfo) {
	if t.header >= 0 {
		inside := false
		for _, l := range from.loops {
			if l == t.header {
				inside = true
			}
		}
		if inside {
			fr.iters[t.header]++
		} else {
			fr.iters[t.header] = 0
		}
	}
	fr.blk = t
	fr.pc = t.nphi
}

func (x *Exec) step(st *State, fr *Frame, in *Instr) int {
	switch i := in.ssa.(type) {
	case *ssa.UnOp:
		v := x.op(fr, &in.ops[0])
		switch i.Op {
		case token.MUL:
			fr.regs[in.dst] = x.loadAt(st, v, in.ti)
		case token.NOT:
			if v.t != nil {
				fr.regs[in.dst] = tval(x.ts.Not(v.t))
			} else {
				fr.regs[in.dst] = mkBool(v.n == 0)
			}
		case token.SUB:
			if in.ti.kind == KFloat {
				if v.t != nil {
					fr.regs[in.dst] = x.fbin(OFMul, v.t, x.ts.mk(OFConst, 64, fbits(-1), nil, nil, nil))
				} else if in.ti.w == 32 {
					fr.regs[in.dst] = Val{n: uint64(math.Float32bits(-math.Float32frombits(uint32(v.n))))}
				} else {
					fr.regs[in.dst] = Val{n: fbits(-ffrom(v.n))}
				}
			} else if v.t != nil {
				fr.regs[in.dst] = tval(x.ts.Neg(v.t))
			} else {
				fr.regs[in.dst] = Val{n: -v.n & mask(in.ti.w)}
			}
		case token.XOR:
			if v.t != nil {
				fr.regs[in.dst] = tval(x.ts.Not_(v.t))
			} else {
				fr.regs[in.dst] = Val{n: ^v.n & mask(in.ti.w)}
			}
		default:
			unsup("unary %s", i.Op)
		}
	case *ssa.BinOp:
		a, b := x.op(fr, &in.ops[0]), x.op(fr, &in.ops[1])
		ysgn := false
		if i.Op == token.SHL || i.Op == token.SHR {
			ysgn = T(i.Y.Type()).sgn
		}
		fr.regs[in.dst] = x.binop(st, i.Op, a, b, in.oti, uint8(in.x2), ysgn)
	case *ssa.FieldAddr:
		p := x.op(fr, &in.ops[0])
		switch r := p.r.(type) {
		case *mark:
			fr.regs[in.dst] = Val{n: p.n + uint64(in.x), r: ptrMark}
		case *SymPtrV:
			c := *r
			c.extra += in.x
			fr.regs[in.dst] = Val{r: &c}
		case nil:
			x.nilDeref()
		default:
			unsup("field address through %T in %s", p.r, fr.fi.name)
		}
	case *ssa.Field:
		a := x.op(fr, &in.ops[0]).r.(*Agg)
		if in.ti.isAgg() {
			fr.regs[in.dst] = Val{r: &Agg{v: a.v[in.x : in.x+in.x2]}}
		} else {
			fr.regs[in.dst] = a.v[in.x]
		}
	case *ssa.IndexAddr:
		fr.regs[in.dst] = x.indexAddr(st, x.op(fr, &in.ops[0]), in.oti, x.op(fr, &in.ops[1]), T(i.Index.Type()))
	case *ssa.Index:
		base := x.op(fr, &in.ops[0])
		iv := x.op(fr, &in.ops[1])
		iti := T(i.Index.Type())
		if in.oti.kind == KString {
			k, sym := x.boundsIdx(st, iv, iti, base.strLen())
			if sym == nil {
				fr.regs[in.dst] = base.strByte(k)
			} else {
				lo, hi := st.rangeOf(sym, 3)
				if hi >= uint64(base.strLen()) {
					hi = uint64(base.strLen() - 1)
				}
				fr.regs[in.dst] = x.iteTable(st, sym, lo, base.strBytes()[lo:hi+1], tiByte)
			}
			break
		}
		e := in.oti.Elem()
		a := base.r.(*Agg)
		k, sym := x.boundsIdx(st, iv, iti, in.oti.alen)
		if sym != nil {
			k = int(x.concretize(st, Val{t: sym}))
		}
		if e.isAgg() {
			fr.regs[in.dst] = Val{r: &Agg{v: a.v[k*e.slots : (k+1)*e.slots]}}
		} else {
			fr.regs[in.dst] = a.v[k]
		}
	case *ssa.Store:
		x.storeAt(st, x.op(fr, &in.ops[0]), x.op(fr, &in.ops[1]), in.oti)
	case *ssa.Alloc:
		var sz int64
		if i.Heap {
			sz = in.oti.goSize()
		}
		id := x.allocObj(st, in.oti.slots, in.oti, sz)
		fr.regs[in.dst] = mkPtr(id, 0)
	case *ssa.Call:
		ci := in.call
		if ci.builtin != "" {
			args := make([]Val, len(in.ops)-1)
			for k := range args {
				args[k] = x.op(fr, &in.ops[k+1])
			}
			v, _ := x.builtin(st, fr, in, ci.builtin, args, ci.argTI[1:], in.ti)
			if in.dst >= 0 {
				fr.regs[in.dst] = v
			}
			break
		}
		fi, args, free := x.resolve(st, fr, in)
		v, done := x.callFn(st, in, fi, args, free, retNormal)
		if st.dead {
			return 1
		}
		if !done {
			return 1
		}
		fr = st.top()
		if in.dst >= 0 {
			fr.regs[in.dst] = v
		}
		fr.pc++
		return 1
	case *ssa.Jump:
		x.jump(st, fr, fr.blk, 0)
		return 1
	case *ssa.If:
		c := x.op(fr, &in.ops[0])
		b := fr.blk
		if c.t == nil {
			if c.n != 0 {
				x.jump(st, fr, b, 0)
			} else {
				x.jump(st, fr, b, 1)
			}
			return 1
		}
		if v, ok := st.fact(c.t); ok {
			if v {
				x.jump(st, fr, b, 0)
			} else {
				x.jump(st, fr, b, 1)
			}
			return 1
		}
		if in.spec != nil && x.journal == nil && x.specIf(st, fr, in, c.t) {
			return 1
		}
		if x.decide(st, c.t) {
			x.jump(st, st.top(), b, 0)
		} else {
			x.jump(st, st.top(), b, 1)
		}
		return 1
	case *ssa.Return:
		var res Val
		if len(in.ops) == 1 {
			res = x.op(fr, &in.ops[0])
		} else if len(in.ops) > 1 {
			a := &Agg{v: make([]Val, len(in.ops))}
			for k := range in.ops {
				a.v[k] = x.op(fr, &in.ops[k])
			}
			res = Val{r: a}
		}
		x.doReturn(st, res)
		return 1
	case *ssa.Extract:
		fr.regs[in.dst] = x.op(fr, &in.ops[0]).r.(*Agg).v[in.x]
	case *ssa.Convert:
		v := x.op(fr, &in.ops[0])
		if f := symTextConv(x, st, v, in.oti, in.ti); f != "" {
			x.pushCont(st, findFunc(preludePath, f), []Val{v}, nil, func(x *Exec, st *State, v Val) Val { return v })
			return 1
		}
		fr.regs[in.dst] = x.convert(st, v, in.oti, in.ti)
	case *ssa.MultiConvert:
		fr.regs[in.dst] = x.convert(st, x.op(fr, &in.ops[0]), in.oti, in.ti)
	case *ssa.ChangeType:
		fr.regs[in.dst] = x.op(fr, &in.ops[0])
	case *ssa.ChangeInterface:
		fr.regs[in.dst] = x.op(fr, &in.ops[0])
	case *ssa.MakeInterface:
		v := x.op(fr, &in.ops[0])
		fr.regs[in.dst] = Val{r: &IfaceV{ti: in.oti, v: v}}
	case *ssa.TypeAssert:
		x.typeAssert(st, fr, in, i)
	case *ssa.MakeClosure:
		free := make([]Val, len(in.ops)-1)
		for k := range free {
			free[k] = x.op(fr, &in.ops[k+1])
		}
		fr.regs[in.dst] = Val{r: &FuncV{fn: i.Fn.(*ssa.Function), free: free}}
	case *ssa.MakeSlice:
		x.makeSlice(st, fr, in, i)
	case *ssa.MakeMap:
		fr.regs[in.dst] = st.h.newMap()
	case *ssa.Slice:
		fr.regs[in.dst] = x.sliceOp(st, in, fr)
	case *ssa.Lookup:
		base := x.op(fr, &in.ops[0])
		key := x.op(fr, &in.ops[1])
		if in.oti.kind == KString {
			k, sym := x.boundsIdx(st, key, T(i.Index.Type()), base.strLen())
			if sym == nil {
				fr.regs[in.dst] = base.strByte(k)
			} else {
				lo, hi := st.rangeOf(sym, 3)
				if hi >= uint64(base.strLen()) {
					hi = uint64(base.strLen() - 1)
				}
				fr.regs[in.dst] = x.iteTable(st, sym, lo, base.strBytes()[lo:hi+1], tiByte)
			}
			break
		}
		et := in.oti.Elem()
		res, found := zeroVal(et), false
		if base.r != nil {
			m := st.h.get(uint32(base.n >> 32)).m
			if k := x.mapFind(st, m, key, in.oti.Key()); k >= 0 {
				res, found = m.vals[k], true
			}
		}
		fr = st.top()
		if i.CommaOk {
			fr.regs[in.dst] = Val{r: &Agg{v: []Val{res, mkBool(found)}}}
		} else {
			fr.regs[in.dst] = res
		}
	case *ssa.MapUpdate:
		x.mapSet(st, x.op(fr, &in.ops[0]), x.op(fr, &in.ops[1]), x.op(fr, &in.ops[2]), in.oti.Key())
	case *ssa.Range:
		base := x.op(fr, &in.ops[0])
		it := &rangeIter{}
		if in.oti.kind == KString {
			it.str = base
		} else if base.r != nil {
			it.mp = uint32(base.n >> 32)
			m := st.h.get(it.mp).m
			for k := range m.keys {
				if !m.del[k] {
					it.keys = append(it.keys, m.keys[k])
				}
			}
		}
		fr.regs[in.dst] = Val{r: it}
	case *ssa.Next:
		return x.next(st, fr, in, i)
	case *ssa.Defer:
		d := deferred{}
		if in.call.builtin != "" {
			d.bi = in.call.builtin
			d.biTI = in.call.argTI[1:]
			for k := 1; k < len(in.call.argTI); k++ {
				d.args = append(d.args, x.op(fr, &in.ops[k]))
			}
		} else {
			d.fn, d.args, d.free = x.resolve2(st, fr, in)
		}
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[: len(fr.defers)-1 : len(fr.defers)-1]
			x.startDeferred(st, d, nil)
			return 1
		}
	case *ssa.Panic:
		v := x.op(fr, &in.ops[0])
		panic(goPanic{val: v, msg: x.describePanic(st, v)})
	case *ssa.SliceToArrayPointer:
		v := x.op(fr, &in.ops[0])
		n := 0
		if v.r != nil {
			n = v.r.(*SliceV).len
		}
		if n < in.oti.alen {
			x.throwRT("cannot convert slice to array pointer: length")
		}
		if v.r == nil {
			fr.regs[in.dst] = Val{}
		} else {
			s := v.r.(*SliceV)
			fr.regs[in.dst] = mkPtr(s.obj, s.off)
		}
	case *ssa.DebugRef:
	default:
		unsup("instruction %T", in.ssa)
	}
	return 0
}

// resolve2 is resolve for deferred calls (callee operands evaluated now).
func (x *Exec) resolve2(st *State, fr *Frame, in *Instr) (*FnInfo, []Val, []Val) {
	return x.resolve(st, fr, in)
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *Instr, i *ssa.TypeAssert) {
	v := x.op(fr, &in.ops[0])
	to := in.oti
	ok := false
	var res Val
	if to.kind == KIface {
		switch r := v.r.(type) {
		case *IfaceV:
			if r.ti.implements(to.under.(*types.Interface)) {
				ok, res = true, v
			}
		case *RT:
			ok, res = true, v
		}
	} else {
		if r, is := v.r.(*IfaceV); is && r.ti == to {
			ok, res = true, r.v
		} else {
			res = zeroVal(to)
		}
	}
	if i.CommaOk {
		fr.regs[in.dst] = Val{r: &Agg{v: []Val{res, mkBool(ok)}}}
		return
	}
	if !ok {
		d := "nil"
		if r, is := v.r.(*IfaceV); is {
			d = r.ti.String()
		}
		panic(goPanic{msg: "interface conversion: interface is " + d + ", not " + to.String()})
	}
	fr.regs[in.dst] = res
}

func (x *Exec) makeSlice(st *State, fr *Frame, in *Instr, i *ssa.MakeSlice) {
	e := in.oti
	es := e.goSize()
	if es == 0 {
		es = 1
	}
	lv, cv := x.op(fr, &in.ops[0]), x.op(fr, &in.ops[1])
	lt, ct := T(i.Len.Type()), T(i.Cap.Type())
	max := int(x.allocCap / es)
	if st.limit > 0 {
		rest := (st.limit - st.alloc) / es
		if rest < 0 {
			rest = 0
		}
		if int(rest) < max {
			max = int(rest)
		}
	}
	c, ok := x.sizeArg(st, cv, ct, max)
	if !ok {
		x.hugeAlloc(st, cv, ct, es, max)
	}
	n, ok := x.sizeArg(st, lv, lt, c)
	if !ok {
		x.throwRT("makeslice: len out of range")
	}
	st.top().regs[in.dst] = x.newSlice(st, e, n, c)
}

// hugeAlloc handles make() with more elements than the bound allows on this path.
func (x *Exec) hugeAlloc(st *State, v Val, ti *TI, es int64, max int) {
	// negative or unrepresentable lengths panic in Go
	lim := uint64(1) << 47 / uint64(es)
	t := x.term(v, ti.w)
	if ti.w == 64 {
		bad := x.ts.Not(x.ts.Ule(t, x.ts.Const(64, lim)))
		if x.decide(st, bad) {
			x.throwRT("makeslice: len out of range")
		}
	} else if ti.sgn {
		if x.decide(st, x.ts.Slt(t, x.ts.Const(ti.w, 0))) {
			x.throwRT("makeslice: len out of range")
		}
	}
	if st.limit > 0 {
		x.candidate(st, "alloc", fmt.Sprintf("allocates more than the stated bound of %d bytes in one step", st.limit), nil)
		panic(killState{"alloc"})
	}
	x.incomplete(fmt.Sprintf("allocation of more than %d elements at %s", max, x.where(st)))
	panic(killState{"prune"})
}

func (x *Exec) next(st *State, fr *Frame, in *Instr, i *ssa.Next) int {
	reg := in.ops[0].reg
	it := fr.regs[reg].r.(*rangeIter)
	if i.IsString {
		n := it.str.strLen()
		if it.pos >= n {
			fr.regs[in.dst] = Val{r: &Agg{v: []Val{mkBool(false), {}, {}}}}
			return 0
		}
		// ASCII fast path
		b := x.norm(st, it.str.strByte(it.pos))
		ascii := false
		if b.t == nil {
			ascii = b.n < 0x80
		} else if b.t.hi < 0x80 {
			ascii = true
		} else {
			ascii = x.decide(st, x.ts.Ult(b.t, x.ts.Const(8, 0x80)))
			fr = st.top()
		}
		if ascii {
			var r Val
			if b.t == nil {
				r = Val{n: b.n}
			} else {
				r = tval(x.ts.Zext(b.t, 32))
			}
			fr.regs[reg] = Val{r: &rangeIter{str: it.str, pos: it.pos + 1}}
			fr.regs[in.dst] = Val{r: &Agg{v: []Val{mkBool(true), mkInt(uint64(it.pos)), r}}}
			return 0
		}
		f := findFunc("unicode/utf8", "DecodeRuneInString")
		pos := it.pos
		x.pushCont(st, f, []Val{it.str.substr(pos, n)}, nil, func(x *Exec, st *State, v Val) Val {
			a := v.r.(*Agg)
			sz := x.concretizeSmall(st, a.v[1])
			fr := st.top()
			fr.regs[reg] = Val{r: &rangeIter{str: it.str, pos: pos + sz}}
			return Val{r: &Agg{v: []Val{mkBool(true), mkInt(uint64(pos)), a.v[0]}}}
		})
		return 1
	}
	for it.pos < len(it.keys) {
		k := it.keys[it.pos]
		m := st.h.get(it.mp).m
		// the entry may have been deleted meanwhile
		ks, conc := keyString(k)
		idx := -1
		if conc {
			if j, ok := m.index[ks]; ok {
				idx = j
			}
		}
		if idx < 0 {
			for j := range m.keys {
				if !m.del[j] && m.keys[j] == k {
					idx = j
				}
			}
		}
		it = &rangeIter{mp: it.mp, keys: it.keys, pos: it.pos + 1}
		if idx >= 0 {
			fr.regs[reg] = Val{r: it}
			fr.regs[in.dst] = Val{r: &Agg{v: []Val{mkBool(true), k, m.vals[idx]}}}
			return 0
		}
	}
	tt := in.ti.under.(*types.Tuple)
	a := &Agg{v: []Val{mkBool(false)}}
	for k := 1; k < tt.Len(); k++ {
		if b, ok := tt.At(k).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			a.v = append(a.v, Val{})
		} else {
			a.v = append(a.v, zeroVal(T(tt.At(k).Type())))
		}
	}
	fr.regs[in.dst] = Val{r: a}
	return 0
}

// symTextConv names the prelude function that converts between strings and runes when the text is symbolic.
func symTextConv(x *Exec, st *State, v Val, from, to *TI) string {
	switch {
	case from.kind == KString && to.kind == KSlice && to.Elem().w == 32:
		if _, ok := v.concStr(); !ok {
			return "StrRunes"
		}
	case from.kind == KSlice && to.kind == KString && from.Elem().w == 32:
		for _, r := range x.sliceVals(st, v, from.Elem()) {
			if r.t != nil {
				return "RunesStr"
			}
		}
	}
	return ""
}

func (x *Exec) concretizeSmall(st *State, v Val) int {
	if v.t == nil {
		return int(v.n)
	}
	return int(x.concretize(st, v))
}

// specIf executes both sides of a small diamond and merges with ITE, without forking.
func (x *Exec) specIf(st *State, fr *Frame, in *Instr, c *Term) (ok bool) {
	sp := in.spec
	b := fr.blk
	var j1, j2 []jent
	runBlk := func(blk *BlockInfo, j *[]jent, other bool) (ok bool) {
		if blk == nil {
			return true
		}
		x.journal = j
		defer func() {
			x.journal = nil
			// undo
			for k := len(*j) - 1; k >= 0; k-- {
				st.h.store((*j)[k].obj, (*j)[k].i, (*j)[k].old)
			}
			if r := recover(); r != nil {
				switch r.(type) {
				case goPanic, specAbort, killState, unsupported, retryInstr:
					ok = false
				default:
					panic(r)
				}
			}
		}()
		for _, i := range blk.instrs {
			if _, isJ := i.ssa.(*ssa.Jump); isJ {
				break
			}
			x.steps++
			x.step(st, fr, i)
		}
		return true
	}
	if !runBlk(sp.thenB, &j1, false) {
		return false
	}
	if !runBlk(sp.elseB, &j2, true) {
		return false
	}
	// phis at the join
	jn := sp.join
	var from1, from2 *BlockInfo
	var p1, p2 int
	if sp.thenB != nil {
		from1, p1 = sp.thenB, predIndex(sp.thenB, jn, 0)
	} else {
		from1, p1 = b, predIndex(b, jn, 0)
	}
	if sp.elseB != nil {
		from2, p2 = sp.elseB, predIndex(sp.elseB, jn, 0)
	} else {
		from2, p2 = b, predIndex(b, jn, 1)
	}
	_ = from2
	var buf [16]Val
	vals := buf[:0]
	for i := 0; i < jn.nphi; i++ {
		pin := jn.instrs[i]
		a, bb := x.op(fr, &pin.ops[p1]), x.op(fr, &pin.ops[p2])
		v, mok := x.iteVal(c, a, bb, pin.ti)
		if !mok {
			return false
		}
		if a.t == nil && bb.t == nil && a.r == nil && bb.r == nil && a != bb && pin.ti.w > 8 {
			// keep wide concrete values concrete (lengths, offsets): fork instead
			return false
		}
		vals = append(vals, v)
	}
	// heap effects
	type loc struct {
		obj uint32
		i   int
	}
	fin1, fin2 := map[loc]Val{}, map[loc]Val{}
	var order []loc
	for _, e := range j1 {
		l := loc{e.obj, e.i}
		if _, ok := fin1[l]; !ok {
			order = append(order, l)
		}
		fin1[l] = e.new
	}
	for _, e := range j2 {
		l := loc{e.obj, e.i}
		if _, ok := fin1[l]; !ok {
			if _, ok2 := fin2[l]; !ok2 {
				order = append(order, l)
			}
		}
		fin2[l] = e.new
	}
	newv := make([]Val, len(order))
	for k, l := range order {
		cur := st.h.load(l.obj, l.i)
		a, ok1 := fin1[l]
		if !ok1 {
			a = cur
		}
		bb, ok2 := fin2[l]
		if !ok2 {
			bb = cur
		}
		ti := st.h.slotType(l.obj, l.i)
		if ti == nil {
			return false
		}
		if a.t == nil && bb.t == nil && a.r == nil && bb.r == nil && a != bb && ti.w > 8 {
			return false
		}
		v, mok := x.iteVal(c, a, bb, ti)
		if !mok {
			return false
		}
		newv[k] = v
	}
	for k, l := range order {
		st.h.store(l.obj, l.i, newv[k])
	}
	for i := 0; i < jn.nphi; i++ {
		fr.regs[jn.instrs[i].dst] = vals[i]
	}
	x.enterBlock(fr, from1, jn)
	return true
}

// slotType gives the type of one slot of an object.
func (h *Heap) slotType(obj uint32, i int) *TI {
	o := h.get(obj)
	if o.ti == nil {
		return nil
	}
	if o.ti.slots == 0 {
		return nil
	}
	if !o.ti.isAgg() {
		return o.ti
	}
	return flatTypes(o.ti)[i%o.ti.slots]
}

var _ = sort.Ints
var _ = bits.Len64
