package main

// Hash-consed bit-vector / boolean terms with a normalising simplifier.

import (
	"fmt"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	// bool results (w==0)
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	// bit-vectors
	OAdd
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLshr
	OAshr
	OBAnd
	OBOr
	OBXor
	OConcat
	OExtract
	OSext
	OIte
	OAtom // injective rendering atom: 8-bit "character" standing for a rendered number
	// floats (float64 only)
	OFConst
	OFFromS
	OFFromU
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFEq
	OFLt
	OFLe
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OConcat: "concat", OIte: "ite", OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq"}

type Term struct {
	id      uint32
	op      Op
	w       uint8 // 0 = bool
	lo, hi  uint64
	c       uint64 // const value, var index, extract low bit, atom kind
	a, b, d *Term
	sent    bool // defined in the solver
}

type tkey struct {
	op      Op
	w       uint8
	c       uint64
	a, b, d uint32
}

type TermStore struct {
	tab    map[tkey]*Term
	nterms uint32
	vars   []*VarInfo
	tTrue  *Term
	tFalse *Term
	consts map[constKey]*Term
}
type constKey struct {
	w uint8
	c uint64
}
type VarInfo struct {
	name string
	t    *Term
	w    uint8
}

func NewTermStore() *TermStore {
	s := &TermStore{tab: make(map[tkey]*Term, 1<<12), consts: make(map[constKey]*Term, 1<<8)}
	s.tFalse = s.mkConstRaw(0, 0)
	s.tTrue = s.mkConstRaw(0, 1)
	return s
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (s *TermStore) mkConstRaw(w uint8, c uint64) *Term {
	k := constKey{w, c}
	if t := s.consts[k]; t != nil {
		return t
	}
	s.nterms++
	t := &Term{id: s.nterms, op: OConst, w: w, c: c, lo: c, hi: c}
	s.consts[k] = t
	return t
}

func (s *TermStore) Const(w uint8, c uint64) *Term {
	if w == 0 {
		if c != 0 {
			return s.tTrue
		}
		return s.tFalse
	}
	return s.mkConstRaw(w, c&mask(w))
}

func (s *TermStore) Bool(b bool) *Term {
	if b {
		return s.tTrue
	}
	return s.tFalse
}

func (s *TermStore) Var(name string, w uint8) *Term {
	s.nterms++
	hi := mask(w)
	if w == 0 {
		hi = 1
	}
	t := &Term{id: s.nterms, op: OVar, w: w, c: uint64(len(s.vars)), lo: 0, hi: hi}
	s.vars = append(s.vars, &VarInfo{name, t, w})
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (s *TermStore) mk(op Op, w uint8, c uint64, a, b, d *Term) *Term {
	k := tkey{op, w, c, tid(a), tid(b), tid(d)}
	if t := s.tab[k]; t != nil {
		return t
	}
	s.nterms++
	t := &Term{id: s.nterms, op: op, w: w, c: c, a: a, b: b, d: d}
	t.lo, t.hi = rangeOf(t)
	s.tab[k] = t
	return t
}

func rangeOf(t *Term) (uint64, uint64) {
	full := mask(t.w)
	if t.w == 0 {
		return 0, 1
	}
	switch t.op {
	case OConcat:
		lw := t.b.w
		return t.a.lo<<lw | t.b.lo, t.a.hi<<lw | t.b.hi
	case OExtract:
		if t.c == 0 && t.a.hi <= full {
			return t.a.lo, t.a.hi
		}
		// high part extract
		if uint8(t.c)+t.w == t.a.w {
			return t.a.lo >> t.c, t.a.hi >> t.c
		}
	case OIte:
		lo, hi := t.b.lo, t.b.hi
		if t.d.lo < lo {
			lo = t.d.lo
		}
		if t.d.hi > hi {
			hi = t.d.hi
		}
		return lo, hi
	case OAdd:
		hi := t.a.hi + t.b.hi
		if hi >= t.a.hi && hi <= full {
			return t.a.lo + t.b.lo, hi
		}
		// both sums wrap the same number of times (e.g. subtracting a constant)
		if t.w == 64 {
			lo, c1 := bits.Add64(t.a.lo, t.b.lo, 0)
			hi, c2 := bits.Add64(t.a.hi, t.b.hi, 0)
			if c1 == c2 {
				return lo, hi
			}
		} else {
			lo, hi := t.a.lo+t.b.lo, t.a.hi+t.b.hi
			if lo>>t.w == hi>>t.w {
				return lo & full, hi & full
			}
		}
	case OMul:
		ph, pl := bits.Mul64(t.a.hi, t.b.hi)
		if ph == 0 && pl <= full {
			return t.a.lo * t.b.lo, pl
		}
	case OUDiv:
		if t.b.lo > 0 {
			return t.a.lo / t.b.hi, t.a.hi / t.b.lo
		}
	case OURem:
		if t.b.lo > 0 {
			h := t.b.hi - 1
			if t.a.hi < h {
				h = t.a.hi
			}
			return 0, h
		}
	case OBAnd:
		h := t.a.hi
		if t.b.hi < h {
			h = t.b.hi
		}
		return 0, h
	case OBOr:
		lo := t.a.lo
		if t.b.lo > lo {
			lo = t.b.lo
		}
		h := t.a.hi | t.b.hi
		n := bits.Len64(h)
		return lo, mask(uint8(n))
	case OBXor:
		h := t.a.hi | t.b.hi
		return 0, mask(uint8(bits.Len64(h)))
	case OLshr:
		return 0, t.a.hi
	case OSext:
		if t.a.hi < uint64(1)<<(t.a.w-1) {
			return t.a.lo, t.a.hi
		}
	case OAtom:
		return 0x30, 0x39
	}
	return 0, full
}

func signed(v uint64, w uint8) int64 {
	sh := 64 - w
	return int64(v<<sh) >> sh
}

// ---------- booleans

func (s *TermStore) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return s.Bool(a.c == 0)
	case ONot:
		return a.a
	case OUlt:
		return s.Ule(a.b, a.a)
	case OUle:
		return s.Ult(a.b, a.a)
	case OSlt:
		return s.Sle(a.b, a.a)
	case OSle:
		return s.Slt(a.b, a.a)
	}
	return s.mk(ONot, 0, 0, a, nil, nil)
}

func (s *TermStore) And(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if s.isNeg(a, b) {
		return s.tFalse
	}
	if a.op == OAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OAnd, 0, 0, a, b, nil)
}

func (s *TermStore) isNeg(a, b *Term) bool {
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return true
	}
	switch a.op {
	case OUlt:
		return b.op == OUle && b.a == a.b && b.b == a.a
	case OUle:
		return b.op == OUlt && b.a == a.b && b.b == a.a
	case OSlt:
		return b.op == OSle && b.a == a.b && b.b == a.a
	case OSle:
		return b.op == OSlt && b.a == a.b && b.b == a.a
	}
	return false
}

func (s *TermStore) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.c != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if s.isNeg(a, b) {
		return s.tTrue
	}
	if a.op == OOr && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return b
	}
	// (x and c) or (x and not c) -> x
	if a.op == OAnd && b.op == OAnd {
		for _, p := range [2][2]*Term{{a.a, a.b}, {a.b, a.a}} {
			for _, q := range [2][2]*Term{{b.a, b.b}, {b.b, b.a}} {
				if p[0] == q[0] {
					return s.And(p[0], s.Or(p[1], q[1]))
				}
			}
		}
	}
	if a.op == OAnd {
		if s.isNeg(a.a, b) {
			return s.Or(a.b, b)
		}
		if s.isNeg(a.b, b) {
			return s.Or(a.a, b)
		}
		if a.a == b || a.b == b {
			return b
		}
	}
	if b.op == OAnd {
		if s.isNeg(b.a, a) {
			return s.Or(b.b, a)
		}
		if s.isNeg(b.b, a) {
			return s.Or(b.a, a)
		}
		if b.a == a || b.b == a {
			return a
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OOr, 0, 0, a, b, nil)
}

func (s *TermStore) Implies(a, b *Term) *Term { return s.Or(s.Not(a), b) }

// ---------- equality / comparison

func (s *TermStore) Eq(a, b *Term) *Term {
	if a == b {
		return s.tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return s.Bool(a.c == b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.c != 0 {
				return a
			}
			return s.Not(a)
		}
		if s.isNeg(a, b) {
			return s.tFalse
		}
		if a.id > b.id {
			a, b = b, a
		}
		return s.mk(OEq, 0, 0, a, b, nil)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return s.tFalse
	}
	if b.isConst() {
		switch a.op {
		case OIte:
			if a.b.isConst() || a.d.isConst() || true {
				if a.b.isConst() && a.d.isConst() {
					if a.b.c == b.c {
						return a.a // a.d differs (else folded)
					}
					if a.d.c == b.c {
						return s.Not(a.a)
					}
					return s.tFalse
				}
				if a.b.isConst() {
					if a.b.c == b.c {
						return s.Or(a.a, s.Eq(a.d, b))
					}
					return s.And(s.Not(a.a), s.Eq(a.d, b))
				}
				if a.d.isConst() {
					if a.d.c == b.c {
						return s.Or(s.Not(a.a), s.Eq(a.b, b))
					}
					return s.And(a.a, s.Eq(a.b, b))
				}
			}
		case OAdd:
			if a.b.isConst() {
				return s.Eq(a.a, s.Const(a.w, b.c-a.b.c))
			}
			if b.c == 0 {
				if n, ok := s.negOf(a.b); ok {
					return s.Eq(a.a, n)
				}
				if n, ok := s.negOf(a.a); ok {
					return s.Eq(a.b, n)
				}
			}
		case OBXor:
			if a.b.isConst() {
				return s.Eq(a.a, s.Const(a.w, b.c^a.b.c))
			}
			if b.c == 0 {
				return s.Eq(a.a, a.b)
			}
		case OSext:
			iw := a.a.w
			low := b.c & mask(iw)
			if uint64(signed(low, iw))&mask(a.w) != b.c {
				return s.tFalse
			}
			return s.Eq(a.a, s.Const(iw, low))
		case OMul:
			if a.b.isConst() && a.b.c&1 == 1 {
				inv := a.b.c
				for i := 0; i < 6; i++ {
					inv *= 2 - a.b.c*inv
				}
				return s.Eq(a.a, s.Const(a.w, b.c*inv))
			}
		}
		if a.w == 1 && b.c == 0 {
			return s.Not(s.Eq(a, s.Const(1, 1)))
		}
	}
	if a.op == OAtom && b.op == OAtom && a.c == b.c && a.a.w == b.a.w {
		return s.Eq(a.a, b.a)
	}
	if at, c := a, b; at.op == OAtom || c.op == OAtom {
		if c.op == OAtom {
			at, c = c, at
		}
		// a number of one digit renders as that digit
		if c.isConst() && c.c >= '0' && c.c <= '9' && smallAtom(at) {
			return s.Eq(at.a, s.Const(at.a.w, c.c-'0'))
		}
	}
	if a.op == OAtom && b.op == OAtom && a.a.w == 64 && b.a.w == 64 && a.c < 200 && (a.c == b.c+100 || b.c == a.c+100) {
		// the same base, signed and unsigned
		return s.And(s.Eq(a.a, b.a), s.Eq(s.Extract(a.a, 63, 63), s.Const(1, 0)))
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return s.Eq(a.a, b.a)
	}
	if a.op == OConcat || b.op == OConcat {
		// split along piece boundaries
		if r, ok := s.eqSplit(a, b); ok {
			return r
		}
	}
	if a.op == OIte && b.op == OIte && a.a == b.a {
		return s.Ite(a.a, s.Eq(a.b, b.b), s.Eq(a.d, b.d))
	}
	if a.op == OIte && (a.b == b || a.d == b) {
		if a.b == b {
			return s.Or(a.a, s.Eq(a.d, b))
		}
		return s.Or(s.Not(a.a), s.Eq(a.b, b))
	}
	if b.op == OIte && (b.b == a || b.d == a) {
		return s.Eq(b, a)
	}
	if a.op == OAdd && b.op == OAdd {
		if a.a == b.a {
			return s.Eq(a.b, b.b)
		}
		if a.b == b.b {
			return s.Eq(a.a, b.a)
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return s.mk(OEq, 0, 0, a, b, nil)
}

func (s *TermStore) eqSplit(a, b *Term) (*Term, bool) {
	pa, pb := pieces(a), pieces(b)
	if len(pa) == 1 && len(pb) == 1 {
		return nil, false
	}
	r := s.tTrue
	pos := int(a.w)
	i, j := 0, 0
	ra, rb := int(pa[0].w), int(pb[0].w)
	for pos > 0 {
		n := ra
		if rb < n {
			n = rb
		}
		ea := s.Extract(pa[i], uint8(ra-1), uint8(ra-n))
		eb := s.Extract(pb[j], uint8(rb-1), uint8(rb-n))
		r = s.And(s.Eq(ea, eb), r)
		if r == s.tFalse {
			return r, true
		}
		ra -= n
		rb -= n
		pos -= n
		if ra == 0 && i+1 < len(pa) {
			i++
			ra = int(pa[i].w)
		}
		if rb == 0 && j+1 < len(pb) {
			j++
			rb = int(pb[j].w)
		}
	}
	return r, true
}

func pieces(t *Term) []*Term {
	var r []*Term
	for t.op == OConcat {
		r = append(r, t.a)
		t = t.b
	}
	return append(r, t)
}

func (s *TermStore) Ult(a, b *Term) *Term {
	if a == b {
		return s.tFalse
	}
	if a.hi < b.lo {
		return s.tTrue
	}
	if a.lo >= b.hi {
		return s.tFalse
	}
	if b.isConst() && b.c == a.lo+1 {
		return s.Eq(a, s.Const(a.w, a.lo))
	}
	if a.isConst() && a.c+1 == b.hi && a.c != ^uint64(0) {
		return s.Eq(b, s.Const(a.w, b.hi))
	}
	if a.isConst() && a.c == b.lo {
		return s.Not(s.Eq(b, a))
	}
	if b.isConst() && b.c == a.hi {
		return s.Not(s.Eq(a, b))
	}
	if r := s.cmpShrink(a, b, false); r != nil {
		return r
	}
	if a.op == OIte && a.b.isConst() && a.d.isConst() && b.isConst() {
		return s.Ite(a.a, s.Ult(a.b, b), s.Ult(a.d, b))
	}
	if b.op == OIte && b.b.isConst() && b.d.isConst() && a.isConst() {
		return s.Ite(b.a, s.Ult(a, b.b), s.Ult(a, b.d))
	}
	return s.mk(OUlt, 0, 0, a, b, nil)
}

func (s *TermStore) Ule(a, b *Term) *Term {
	if a == b {
		return s.tTrue
	}
	if a.hi <= b.lo {
		return s.tTrue
	}
	if a.lo > b.hi {
		return s.tFalse
	}
	if b.isConst() && b.c == a.lo {
		return s.Eq(a, b)
	}
	if a.isConst() && a.c == b.hi {
		return s.Eq(a, b)
	}
	if b.isConst() {
		return s.Ult(a, s.Const(a.w, b.c+1)) // b.c < a.hi <= max
	}
	if r := s.cmpShrink(a, b, true); r != nil {
		return r
	}
	if b.op == OIte && b.b.isConst() && b.d.isConst() && a.isConst() {
		return s.Ite(b.a, s.Ule(a, b.b), s.Ule(a, b.d))
	}
	return s.mk(OUle, 0, 0, a, b, nil)
}

// cmpShrink drops common constant high pieces and common low pieces.
func (s *TermStore) cmpShrink(a, b *Term, le bool) *Term {
	cmp := func(x, y *Term) *Term {
		if le {
			return s.Ule(x, y)
		}
		return s.Ult(x, y)
	}
	if a.op == OConcat || b.op == OConcat {
		// equal leading bits
		n := uint8(bits.LeadingZeros64(a.hi|b.hi)) - (64 - a.w)
		if n > 0 && n < a.w && (a.op == OConcat || a.isConst()) && (b.op == OConcat || b.isConst()) {
			return cmp(s.Extract(a, a.w-1-n, 0), s.Extract(b, a.w-1-n, 0))
		}
		if a.op == OConcat && b.op == OConcat && a.a == b.a {
			return cmp(a.b, b.b)
		}
		// a = x ++ 0.., b = const with low zeros handled by solver
		if a.op == OConcat && b.isConst() && a.b.isConst() {
			lw := a.b.w
			hiB := b.c >> lw
			loB := b.c & mask(lw)
			x := a.a
			k := s.Const(x.w, hiB)
			// x++l < hiB++loB  <=> x<hiB or (x==hiB and l<loB)
			lt := a.b.c < loB || le && a.b.c == loB
			if lt {
				return s.Ule(x, k)
			}
			return s.Ult(x, k)
		}
		if b.op == OConcat && a.isConst() && b.b.isConst() {
			lw := b.b.w
			hiA := a.c >> lw
			loA := a.c & mask(lw)
			x := b.a
			k := s.Const(x.w, hiA)
			lt := loA < b.b.c || le && b.b.c == loA
			if lt {
				return s.Ule(k, x)
			}
			return s.Ult(k, x)
		}
	}
	return nil
}

func (s *TermStore) Slt(a, b *Term) *Term {
	if a == b {
		return s.tFalse
	}
	if a.isConst() && b.isConst() {
		return s.Bool(signed(a.c, a.w) < signed(b.c, b.w))
	}
	half := uint64(1) << (a.w - 1)
	if a.hi < half && b.hi < half || a.lo >= half && b.lo >= half {
		return s.Ult(a, b)
	}
	if a.hi < half && b.lo >= half {
		return s.tFalse
	}
	if a.lo >= half && b.hi < half {
		return s.tTrue
	}
	if b.isConst() && b.c == 0 { // sign bit test
		return s.Eq(s.Extract(a, a.w-1, a.w-1), s.Const(1, 1))
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return s.Slt(a.a, b.a)
	}
	if a.op == OSext && b.isConst() {
		iw := a.a.w
		v := signed(b.c, b.w)
		min, max := -(int64(1) << (iw - 1)), int64(1)<<(iw-1)-1
		if v > max {
			return s.tTrue
		}
		if v <= min {
			return s.tFalse
		}
		return s.Slt(a.a, s.Const(iw, uint64(v)))
	}
	if b.op == OSext && a.isConst() {
		iw := b.a.w
		v := signed(a.c, a.w)
		min, max := -(int64(1) << (iw - 1)), int64(1)<<(iw-1)-1
		if v < min {
			return s.tTrue
		}
		if v >= max {
			return s.tFalse
		}
		return s.Slt(s.Const(iw, uint64(v)), b.a)
	}
	return s.mk(OSlt, 0, 0, a, b, nil)
}

func (s *TermStore) Sle(a, b *Term) *Term {
	if a == b {
		return s.tTrue
	}
	if a.isConst() && b.isConst() {
		return s.Bool(signed(a.c, a.w) <= signed(b.c, b.w))
	}
	half := uint64(1) << (a.w - 1)
	if a.hi < half && b.hi < half || a.lo >= half && b.lo >= half {
		return s.Ule(a, b)
	}
	if a.hi < half && b.lo >= half {
		return s.tFalse
	}
	if a.lo >= half && b.hi < half {
		return s.tTrue
	}
	if a.isConst() && a.c == 0 {
		return s.Not(s.Eq(s.Extract(b, b.w-1, b.w-1), s.Const(1, 1)))
	}
	if a.isConst() && signed(a.c, a.w) > -(int64(1)<<(a.w-1)) {
		return s.Slt(s.Const(a.w, a.c-1), b)
	}
	if b.isConst() && signed(b.c, b.w) < int64(half-1) {
		return s.Slt(a, s.Const(a.w, b.c+1))
	}
	return s.mk(OSle, 0, 0, a, b, nil)
}

// ---------- bit-vectors

func (s *TermStore) Concat(hi, lo *Term) *Term {
	if hi == nil || hi.w == 0 {
		return lo
	}
	if lo == nil {
		return hi
	}
	if int(hi.w)+int(lo.w) > 64 {
		panic("concat too wide")
	}
	if hi.op == OConcat {
		return s.Concat(hi.a, s.Concat(hi.b, lo))
	}
	w := hi.w + lo.w
	first := lo
	var rest *Term
	if lo.op == OConcat {
		first, rest = lo.a, lo.b
	}
	// try to join hi and first
	var j *Term
	if hi.isConst() && first.isConst() {
		j = s.Const(hi.w+first.w, hi.c<<first.w|first.c)
	} else {
		hb, hl := hi, uint64(0)
		if hi.op == OExtract {
			hb, hl = hi.a, hi.c
		}
		fb, fl := first, uint64(0)
		if first.op == OExtract {
			fb, fl = first.a, first.c
		}
		if hb == fb && !hb.isConst() && hl == fl+uint64(first.w) {
			j = s.Extract(hb, uint8(hl)+hi.w-1, uint8(fl))
		} else if hi.op == OExtract && hl >= uint64(first.w) && !first.isConst() && s.Extract(hb, uint8(hl)-1, uint8(hl)-first.w) == first {
			// the low bits of a sum are rewritten to a sum of low bits
			j = s.Extract(hb, uint8(hl)+hi.w-1, uint8(hl)-first.w)
		} else if hi.op == OIte && first.op == OIte && hi.a == first.a && hi.w+first.w <= 64 {
			x := s.Concat(hi.b, first.b)
			y := s.Concat(hi.d, first.d)
			j = s.mk(OIte, hi.w+first.w, 0, hi.a, x, y)
		}
	}
	if j != nil {
		if rest == nil {
			return j
		}
		return s.Concat(j, rest)
	}
	return s.mk(OConcat, w, 0, hi, lo, nil)
}

func (s *TermStore) Extract(t *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return s.Const(w, t.c>>lo)
	case OExtract:
		return s.Extract(t.a, uint8(t.c)+hi, uint8(t.c)+lo)
	case OConcat:
		lw := t.b.w
		if hi < lw {
			return s.Extract(t.b, hi, lo)
		}
		if lo >= lw {
			return s.Extract(t.a, hi-lw, lo-lw)
		}
		return s.Concat(s.Extract(t.a, hi-lw, 0), s.Extract(t.b, lw-1, lo))
	case OSext:
		iw := t.a.w
		if hi < iw {
			return s.Extract(t.a, hi, lo)
		}
		if lo >= iw {
			return s.Sext(s.Extract(t.a, iw-1, iw-1), w)
		}
		return s.Sext(s.Extract(t.a, iw-1, lo), w)
	case OBAnd, OBOr, OBXor:
		a, b := s.Extract(t.a, hi, lo), s.Extract(t.b, hi, lo)
		switch t.op {
		case OBAnd:
			return s.BAnd(a, b)
		case OBOr:
			return s.BOr(a, b)
		}
		return s.BXor(a, b)
	case OIte:
		if t.b.isConst() || t.d.isConst() || t.b.op == OConcat || t.d.op == OConcat {
			return s.Ite(t.a, s.Extract(t.b, hi, lo), s.Extract(t.d, hi, lo))
		}
	case OAdd:
		if lo == 0 {
			return s.Add(s.Extract(t.a, hi, 0), s.Extract(t.b, hi, 0))
		}
	case OMul:
		if lo == 0 {
			return s.Mul(s.Extract(t.a, hi, 0), s.Extract(t.b, hi, 0))
		}
	}
	// known-zero high part
	if t.hi>>lo == 0 {
		return s.Const(w, 0)
	}
	n := uint8(bits.Len64(t.hi)) // significant bits
	if hi >= n && n > lo {
		return s.Concat(s.Const(hi-n+1, 0), s.Extract(t, n-1, lo))
	}
	return s.mk(OExtract, w, uint64(lo), t, nil, nil)
}

func (s *TermStore) Zext(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		return s.Extract(t, w-1, 0)
	}
	return s.Concat(s.Const(w-t.w, 0), t)
}

func (s *TermStore) Sext(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		return s.Extract(t, w-1, 0)
	}
	if t.isConst() {
		return s.Const(w, uint64(signed(t.c, t.w)))
	}
	if t.hi < uint64(1)<<(t.w-1) {
		return s.Zext(t, w)
	}
	if t.op == OSext {
		return s.Sext(t.a, w)
	}
	if t.op == OConcat && t.a.isConst() {
		// leading constant with sign 1 (sign 0 handled by range)
		if t.a.c>>(t.a.w-1) == 1 {
			return s.Concat(s.Const(w-t.w, mask(w-t.w)), t)
		}
	}
	return s.mk(OSext, w, 0, t, nil, nil)
}

func (s *TermStore) Not_(a *Term) *Term { return s.BXor(a, s.Const(a.w, mask(a.w))) }

// piecewise applies f on the aligned pieces of a and b.
func (s *TermStore) piecewise(a, b *Term, f func(x, y *Term) *Term) *Term {
	pa, pb := pieces(a), pieces(b)
	i, j := 0, 0
	ra, rb := int(pa[0].w), int(pb[0].w)
	pos := int(a.w)
	var out []*Term
	for pos > 0 {
		n := ra
		if rb < n {
			n = rb
		}
		ea := s.Extract(pa[i], uint8(ra-1), uint8(ra-n))
		eb := s.Extract(pb[j], uint8(rb-1), uint8(rb-n))
		out = append(out, f(ea, eb))
		ra -= n
		rb -= n
		pos -= n
		if ra == 0 && i+1 < len(pa) {
			i++
			ra = int(pa[i].w)
		}
		if rb == 0 && j+1 < len(pb) {
			j++
			rb = int(pb[j].w)
		}
	}
	r := out[len(out)-1]
	for k := len(out) - 2; k >= 0; k-- {
		r = s.Concat(out[k], r)
	}
	return r
}

// maskTerm splits a constant into runs so that piecewise sees constant 0/1 runs.
func (s *TermStore) runs(c *Term) *Term {
	if !c.isConst() {
		return c
	}
	return c
}

func splitRuns(c uint64, w uint8) []uint8 {
	// widths of maximal runs of equal bits from the most significant bit
	var out []uint8
	i := int(w) - 1
	for i >= 0 {
		b := c >> uint(i) & 1
		n := uint8(0)
		for i >= 0 && c>>uint(i)&1 == b {
			n++
			i--
		}
		out = append(out, n)
	}
	return out
}

func (s *TermStore) bitwiseConst(x *Term, c uint64, f func(x *Term, one bool) *Term) *Term {
	w := x.w
	rs := splitRuns(c, w)
	pos := int(w)
	var out []*Term
	for _, n := range rs {
		one := c>>uint(pos-1)&1 == 1
		e := s.Extract(x, uint8(pos-1), uint8(pos)-n)
		out = append(out, f(e, one))
		pos -= int(n)
	}
	r := out[len(out)-1]
	for k := len(out) - 2; k >= 0; k-- {
		r = s.Concat(out[k], r)
	}
	return r
}

func (s *TermStore) BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return s.Const(a.w, a.c&b.c)
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		if b.c == mask(b.w) {
			return a
		}
		return s.bitwiseConst(a, b.c, func(x *Term, one bool) *Term {
			if one {
				return x
			}
			return s.Const(x.w, 0)
		})
	}
	if a.op == OConcat || b.op == OConcat {
		return s.piecewise(a, b, s.BAnd)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OBAnd, a.w, 0, a, b, nil)
}

func (s *TermStore) BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return s.Const(a.w, a.c|b.c)
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if b.c == mask(b.w) {
			return b
		}
		return s.bitwiseConst(a, b.c, func(x *Term, one bool) *Term {
			if one {
				return s.Const(x.w, mask(x.w))
			}
			return x
		})
	}
	if a.op == OConcat || b.op == OConcat {
		return s.piecewise(a, b, s.BOr)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OBOr, a.w, 0, a, b, nil)
}

func (s *TermStore) BXor(a, b *Term) *Term {
	if a == b {
		return s.Const(a.w, 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return s.Const(a.w, a.c^b.c)
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if a.op == OBXor && a.b.isConst() {
			return s.BXor(a.a, s.Const(a.w, a.b.c^b.c))
		}
		if b.c != mask(b.w) {
			return s.bitwiseConst(a, b.c, func(x *Term, one bool) *Term {
				if one {
					return s.BXor(x, s.Const(x.w, mask(x.w)))
				}
				return x
			})
		}
		if a.op == OConcat {
			return s.piecewise(a, b, s.BXor)
		}
		if a.op == OIte && a.b.isConst() && a.d.isConst() {
			return s.Ite(a.a, s.BXor(a.b, b), s.BXor(a.d, b))
		}
		return s.mk(OBXor, a.w, 0, a, b, nil)
	}
	if a.op == OConcat || b.op == OConcat {
		return s.piecewise(a, b, s.BXor)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OBXor, a.w, 0, a, b, nil)
}

func (s *TermStore) Shl(a, b *Term) *Term {
	if b.isConst() {
		k := b.c
		if k == 0 {
			return a
		}
		if k >= uint64(a.w) {
			return s.Const(a.w, 0)
		}
		return s.Concat(s.Extract(a, a.w-1-uint8(k), 0), s.Const(uint8(k), 0))
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	if b.op == OIte && b.b.isConst() && b.d.isConst() {
		return s.Ite(b.a, s.Shl(a, b.b), s.Shl(a, b.d))
	}
	return s.mk(OShl, a.w, 0, a, b, nil)
}

func (s *TermStore) Lshr(a, b *Term) *Term {
	if b.isConst() {
		k := b.c
		if k == 0 {
			return a
		}
		if k >= uint64(a.w) {
			return s.Const(a.w, 0)
		}
		return s.Concat(s.Const(uint8(k), 0), s.Extract(a, a.w-1, uint8(k)))
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	if b.op == OIte && b.b.isConst() && b.d.isConst() {
		return s.Ite(b.a, s.Lshr(a, b.b), s.Lshr(a, b.d))
	}
	return s.mk(OLshr, a.w, 0, a, b, nil)
}

func (s *TermStore) Ashr(a, b *Term) *Term {
	if b.isConst() {
		k := b.c
		if k == 0 {
			return a
		}
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		return s.Sext(s.Extract(a, a.w-1, uint8(k)), a.w)
	}
	return s.mk(OAshr, a.w, 0, a, b, nil)
}

func (s *TermStore) negOf(t *Term) (*Term, bool) {
	if t.op == OMul && t.b.isConst() && t.b.c == mask(t.w) {
		return t.a, true
	}
	return nil, false
}

func (s *TermStore) Neg(a *Term) *Term { return s.Mul(a, s.Const(a.w, mask(a.w))) }

func (s *TermStore) Sub(a, b *Term) *Term {
	if a == b {
		return s.Const(a.w, 0)
	}
	if b.isConst() {
		return s.Add(a, s.Const(a.w, -b.c))
	}
	return s.Add(a, s.Neg(b))
}

func (s *TermStore) Add(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return s.Const(a.w, a.c+b.c)
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if a.op == OAdd && a.b.isConst() {
			return s.Add(a.a, s.Const(a.w, a.b.c+b.c))
		}
		if a.op == OIte && a.b.isConst() && a.d.isConst() {
			return s.Ite(a.a, s.Add(a.b, b), s.Add(a.d, b))
		}
		// adding to the high part only
		if tz := uint8(bits.TrailingZeros64(b.c)); a.op == OConcat {
			ps := pieces(a)
			lw := uint8(0)
			for k := len(ps) - 1; k > 0; k-- {
				if lw+ps[k].w > tz {
					break
				}
				lw += ps[k].w
			}
			if lw > 0 {
				return s.Concat(s.Add(s.Extract(a, a.w-1, lw), s.Const(a.w-lw, b.c>>lw)), s.Extract(a, lw-1, 0))
			}
			// trailing constant piece without carry
			last := ps[len(ps)-1]
			if last.isConst() && b.c < uint64(1)<<last.w && last.c+b.c < uint64(1)<<last.w && last.w < 64 {
				return s.Concat(s.Extract(a, a.w-1, last.w), s.Const(last.w, last.c+b.c))
			}
		}
		return s.mk(OAdd, a.w, 0, a, b, nil)
	}
	// pull constants out
	if a.op == OAdd && a.b.isConst() {
		return s.Add(s.Add(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.isConst() {
		return s.Add(s.Add(a, b.a), b.b)
	}
	// x + (-x)
	if n, ok := s.negOf(b); ok {
		if n == a {
			return s.Const(a.w, 0)
		}
		if a.op == OAdd {
			if a.a == n {
				return a.b
			}
			if a.b == n {
				return a.a
			}
		}
	}
	if n, ok := s.negOf(a); ok {
		if n == b {
			return s.Const(a.w, 0)
		}
		if b.op == OAdd {
			if b.a == n {
				return b.b
			}
			if b.b == n {
				return b.a
			}
		}
	}
	// disjoint bits: or them (keeps the concat normal form)
	if (a.op == OConcat || b.op == OConcat) && s.disjoint(a, b) {
		return s.BOr(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OAdd, a.w, 0, a, b, nil)
}

// disjoint: per aligned piece one of the two is the zero constant.
func (s *TermStore) disjoint(a, b *Term) bool {
	za, zb := zeroMask(a), zeroMask(b)
	return (za|zb)&mask(a.w) == mask(a.w)
}

// zeroMask returns bits known to be zero.
func zeroMask(t *Term) uint64 {
	switch t.op {
	case OConst:
		return ^t.c & mask(t.w)
	case OConcat:
		return zeroMask(t.a)<<t.b.w | zeroMask(t.b)
	}
	n := bits.Len64(t.hi)
	return mask(t.w) &^ mask(uint8(n))
}

func (s *TermStore) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return s.Const(a.w, a.c*b.c)
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		if b.c == 1 {
			return a
		}
		if b.c&(b.c-1) == 0 {
			return s.Shl(a, s.Const(a.w, uint64(bits.TrailingZeros64(b.c))))
		}
		if a.op == OMul && a.b.isConst() {
			return s.Mul(a.a, s.Const(a.w, a.b.c*b.c))
		}
		if b.c == mask(b.w) && a.op == OAdd { // -(x+y)
			return s.Add(s.Mul(a.a, b), s.Mul(a.b, b))
		}
		if a.op == OAdd && a.b.isConst() {
			return s.Add(s.Mul(a.a, b), s.Const(a.w, a.b.c*b.c))
		}
		if a.op == OIte && a.b.isConst() && a.d.isConst() {
			return s.Ite(a.a, s.Mul(a.b, b), s.Mul(a.d, b))
		}
		return s.mk(OMul, a.w, 0, a, b, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OMul, a.w, 0, a, b, nil)
}

func (s *TermStore) UDiv(a, b *Term) *Term {
	if b.isConst() && b.c != 0 {
		if a.isConst() {
			return s.Const(a.w, a.c/b.c)
		}
		if b.c&(b.c-1) == 0 {
			return s.Lshr(a, s.Const(a.w, uint64(bits.TrailingZeros64(b.c))))
		}
		if a.hi < b.c {
			return s.Const(a.w, 0)
		}
	}
	if n := uint8(bits.Len64(a.hi | b.hi)); n < a.w && n > 0 && (a.op == OConcat || b.op == OConcat) && b.lo > 0 {
		return s.Zext(s.UDiv(s.Extract(a, n-1, 0), s.Extract(b, n-1, 0)), a.w)
	}
	return s.mk(OUDiv, a.w, 0, a, b, nil)
}

func (s *TermStore) URem(a, b *Term) *Term {
	if b.isConst() && b.c != 0 {
		if a.isConst() {
			return s.Const(a.w, a.c%b.c)
		}
		if b.c&(b.c-1) == 0 {
			return s.BAnd(a, s.Const(a.w, b.c-1))
		}
		if a.hi < b.c {
			return a
		}
	}
	if n := uint8(bits.Len64(a.hi | b.hi)); n < a.w && n > 0 && (a.op == OConcat || b.op == OConcat) && b.lo > 0 {
		return s.Zext(s.URem(s.Extract(a, n-1, 0), s.Extract(b, n-1, 0)), a.w)
	}
	return s.mk(OURem, a.w, 0, a, b, nil)
}

func (s *TermStore) SDiv(a, b *Term) *Term {
	half := uint64(1) << (a.w - 1)
	if a.hi < half && b.hi < half {
		return s.UDiv(a, b)
	}
	if a.isConst() && b.isConst() && b.c != 0 {
		x, y := signed(a.c, a.w), signed(b.c, b.w)
		if y == -1 {
			return s.Const(a.w, uint64(-x))
		}
		return s.Const(a.w, uint64(x/y))
	}
	return s.mk(OSDiv, a.w, 0, a, b, nil)
}

func (s *TermStore) SRem(a, b *Term) *Term {
	half := uint64(1) << (a.w - 1)
	if a.hi < half && b.hi < half {
		return s.URem(a, b)
	}
	if a.isConst() && b.isConst() && b.c != 0 {
		x, y := signed(a.c, a.w), signed(b.c, b.w)
		if y == -1 {
			return s.Const(a.w, 0)
		}
		return s.Const(a.w, uint64(x%y))
	}
	return s.mk(OSRem, a.w, 0, a, b, nil)
}

func (s *TermStore) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return s.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.isConst() {
			if a.c != 0 {
				return s.Or(c, b)
			}
			return s.And(s.Not(c), b)
		}
		if b.isConst() {
			if b.c != 0 {
				return s.Or(s.Not(c), a)
			}
			return s.And(c, a)
		}
		if c == a {
			return s.Or(c, b)
		}
		if c == b {
			return s.And(c, a)
		}
		return s.Or(s.And(c, a), s.And(s.Not(c), b))
	}
	if a.op == OIte && a.a == c {
		return s.Ite(c, a.b, b)
	}
	if b.op == OIte && b.a == c {
		return s.Ite(c, a, b.d)
	}
	// one-bit condition terms
	if a.w == 1 && a.isConst() && b.isConst() {
		if x, ok := s.bitOf(c); ok {
			if a.c == 1 {
				return x
			}
			return s.Not_(x)
		}
	}
	// share common pieces
	if (a.op == OConcat || a.isConst()) && (b.op == OConcat || b.isConst()) && a.w > 1 {
		if r := s.itePieces(c, a, b); r != nil {
			return r
		}
	}
	if a.op == OIte && b == a.d { // ite(c, ite(c2,x,y), y) -> ite(c&c2,x,y)
		return s.Ite(s.And(c, a.a), a.b, b)
	}
	if b.op == OIte && a == b.b { // ite(c, x, ite(c2,x,y))
		return s.Ite(s.Or(c, b.a), a, b.d)
	}
	return s.mk(OIte, a.w, 0, c, a, b)
}

func (s *TermStore) bitOf(c *Term) (*Term, bool) {
	if c.op == OEq && c.b.isConst() && c.b.w == 1 && c.b.c == 1 {
		return c.a, true
	}
	return nil, false
}

func (s *TermStore) itePieces(c, a, b *Term) *Term {
	// boundaries: union of piece boundaries; constants are split bitwise lazily where they agree
	type seg struct{ x, y *Term }
	var segs []seg
	pa, pb := pieces(a), pieces(b)
	i, j := 0, 0
	ra, rb := int(pa[0].w), int(pb[0].w)
	pos := int(a.w)
	shared := false
	for pos > 0 {
		n := ra
		if rb < n {
			n = rb
		}
		ea := s.Extract(pa[i], uint8(ra-1), uint8(ra-n))
		eb := s.Extract(pb[j], uint8(rb-1), uint8(rb-n))
		if ea.isConst() && eb.isConst() && ea != eb {
			// split where bits differ
			diff := ea.c ^ eb.c
			p := n
			for _, r := range splitRuns(diff, uint8(n)) {
				x := s.Extract(ea, uint8(p-1), uint8(p)-r)
				y := s.Extract(eb, uint8(p-1), uint8(p)-r)
				if x == y {
					shared = true
				}
				segs = append(segs, seg{x, y})
				p -= int(r)
			}
		} else {
			if ea == eb {
				shared = true
			}
			segs = append(segs, seg{ea, eb})
		}
		ra -= n
		rb -= n
		pos -= n
		if ra == 0 && i+1 < len(pa) {
			i++
			ra = int(pa[i].w)
		}
		if rb == 0 && j+1 < len(pb) {
			j++
			rb = int(pb[j].w)
		}
	}
	if !shared {
		return nil
	}
	var r *Term
	for k := len(segs) - 1; k >= 0; k-- {
		var e *Term
		if segs[k].x == segs[k].y {
			e = segs[k].x
		} else if segs[k].x.w == 1 && segs[k].x.isConst() && segs[k].y.isConst() {
			e = s.Ite(c, segs[k].x, segs[k].y)
		} else {
			e = s.iteRaw(c, segs[k].x, segs[k].y)
		}
		if r == nil {
			r = e
		} else {
			r = s.Concat(e, r)
		}
	}
	return r
}

func (s *TermStore) iteRaw(c, a, b *Term) *Term {
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.d
	}
	if a == b {
		return a
	}
	return s.mk(OIte, a.w, 0, c, a, b)
}

func (s *TermStore) BoolToBV(c *Term, w uint8) *Term {
	return s.Ite(c, s.Const(w, 1), s.Const(w, 0))
}

// smallAtom tells whether the atom renders numbers below ten as one digit.
func smallAtom(t *Term) bool {
	return t.a.w == 64 && (t.c >= 10 && t.c <= 36 || t.c >= 110 && t.c <= 136)
}

func (s *TermStore) Atom(kind uint64, a *Term) *Term { return s.mk(OAtom, 8, kind, a, nil, nil) }

// ---------- variables of a term

func (s *TermStore) Vars(t *Term, seen map[*Term]bool, out map[uint32]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar {
		out[uint32(t.c)] = true
		return
	}
	if t.a != nil {
		s.Vars(t.a, seen, out)
	}
	if t.b != nil {
		s.Vars(t.b, seen, out)
	}
	if t.d != nil {
		s.Vars(t.d, seen, out)
	}
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t == nil {
		return "nil"
	}
	if d == 0 {
		return "..."
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.c != 0)
		}
		return fmt.Sprintf("%d'%d", t.c, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.c)
	case OExtract:
		return fmt.Sprintf("%s[%d:%d]", t.a.str(d-1), t.c+uint64(t.w)-1, t.c)
	}
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	r := "(" + n
	for _, x := range []*Term{t.a, t.b, t.d} {
		if x != nil {
			r += " " + x.str(d-1)
		}
	}
	return r + ")"
}
