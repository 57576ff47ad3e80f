package main

// z3 back end, model evaluation, query slicing and caching.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Model is an assignment; missing variables are zero.
type Model struct {
	vals []uint64
	memo map[*Term]uint64
}

func (m *Model) get(i uint64) uint64 {
	if m == nil || i >= uint64(len(m.vals)) {
		return 0
	}
	return m.vals[i]
}

func (m *Model) with(upd map[uint32]uint64) *Model {
	n := 0
	if m != nil {
		n = len(m.vals)
	}
	for k := range upd {
		if int(k)+1 > n {
			n = int(k) + 1
		}
	}
	r := &Model{vals: make([]uint64, n)}
	if m != nil {
		copy(r.vals, m.vals)
	}
	for k, v := range upd {
		r.vals[k] = v
	}
	return r
}

func fbits(f float64) uint64 { return math.Float64bits(f) }
func ffrom(b uint64) float64 { return math.Float64frombits(b) }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) Eval(t *Term) uint64 {
	switch t.op {
	case OConst, OFConst:
		return t.c
	case OVar:
		return m.get(t.c)
	}
	if m.memo == nil {
		m.memo = make(map[*Term]uint64)
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - m.Eval(t.a)
	case OAnd:
		r = m.Eval(t.a)
		if r != 0 {
			r = m.Eval(t.b)
		}
	case OOr:
		r = m.Eval(t.a)
		if r == 0 {
			r = m.Eval(t.b)
		}
	case OIte:
		if m.Eval(t.a) != 0 {
			r = m.Eval(t.b)
		} else {
			r = m.Eval(t.d)
		}
	case OExtract:
		r = m.Eval(t.a) >> t.c & mask(t.w)
	case OSext:
		r = uint64(signed(m.Eval(t.a), t.a.w)) & mask(t.w)
	case OAtom:
		r = 0x30
		if v := m.Eval(t.a); smallAtom(t) && v < 10 {
			r += v
		}
	case OFFromS:
		r = fbits(float64(signed(m.Eval(t.a), t.a.w)))
	case OFFromU:
		r = fbits(float64(m.Eval(t.a)))
	default:
		a, b := m.Eval(t.a), m.Eval(t.b)
		aw := t.a.w
		switch t.op {
		case OEq:
			r = b2u(a == b)
		case OUlt:
			r = b2u(a < b)
		case OUle:
			r = b2u(a <= b)
		case OSlt:
			r = b2u(signed(a, aw) < signed(b, aw))
		case OSle:
			r = b2u(signed(a, aw) <= signed(b, aw))
		case OAdd:
			r = a + b
		case OMul:
			r = a * b
		case OUDiv:
			if b == 0 {
				r = mask(t.w)
			} else {
				r = a / b
			}
		case OURem:
			if b == 0 {
				r = a
			} else {
				r = a % b
			}
		case OSDiv:
			x, y := signed(a, aw), signed(b, aw)
			if y == 0 {
				if x < 0 {
					r = 1
				} else {
					r = mask(t.w)
				}
			} else if y == -1 {
				r = uint64(-x)
			} else {
				r = uint64(x / y)
			}
		case OSRem:
			x, y := signed(a, aw), signed(b, aw)
			if y == 0 {
				r = a
			} else if y == -1 {
				r = 0
			} else {
				r = uint64(x % y)
			}
		case OShl:
			if b < 64 {
				r = a << b
			}
		case OLshr:
			if b < 64 {
				r = a >> b
			}
		case OAshr:
			if b > 63 {
				b = 63
			}
			r = uint64(signed(a, aw) >> b)
		case OBAnd:
			r = a & b
		case OBOr:
			r = a | b
		case OBXor:
			r = a ^ b
		case OConcat:
			r = a<<t.b.w | b
		case OFAdd:
			r = fbits(ffrom(a) + ffrom(b))
		case OFSub:
			r = fbits(ffrom(a) - ffrom(b))
		case OFMul:
			r = fbits(ffrom(a) * ffrom(b))
		case OFDiv:
			r = fbits(ffrom(a) / ffrom(b))
		case OFEq:
			r = b2u(ffrom(a) == ffrom(b))
		case OFLt:
			r = b2u(ffrom(a) < ffrom(b))
		case OFLe:
			r = b2u(ffrom(a) <= ffrom(b))
		default:
			panic(fmt.Sprintf("eval op %d", t.op))
		}
		if t.w > 0 {
			r &= mask(t.w)
		}
	}
	m.memo[t] = r
	return r
}

type SatResult int

const (
	Unknown SatResult = iota
	Sat
	Unsat
)

type Solver struct {
	ts      *TermStore
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	nsent   int
	sentVar map[uint64]bool
	gen     int
	sentGen map[*Term]int

	Queries   int
	QSat      int
	QUnsat    int
	QUnknown  int
	CacheHits int
	ModelHits int
	Tiny      int
	tinyBad   bool
	hasAtom   map[*Term]bool
	pairs     [][2]*Term // atoms asserted to be equal when their numbers are
	Time      time.Duration
	MaxQ      time.Duration
	cache     map[string]cacheEnt
	varsOf    map[*Term][]uint32
	TimeoutMs int
	Errors    []string
	bin       string
	log       io.Writer
	TimedOut  bool
}
type cacheEnt struct {
	r   SatResult
	upd map[uint32]uint64
}

func NewSolver(ts *TermStore) *Solver {
	return &Solver{ts: ts, cache: map[string]cacheEnt{}, varsOf: map[*Term][]uint32{}, hasAtom: map[*Term]bool{}, TimeoutMs: 20000, bin: z3bin}
}

var z3bin = "z3-new"

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.sentVar = map[uint64]bool{}
	s.sentGen = map[*Term]int{}
	s.nsent = 0
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.TimeoutMs/3)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func bvc(w uint8, c uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, c)
	}
	return fmt.Sprintf("#b%0*b", int(w), c)
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.c != 0 {
				return "true"
			}
			return "false"
		}
		return bvc(t.w, t.c)
	case OVar:
		return "v" + strconv.FormatUint(t.c, 10)
	case OFConst:
		return fmt.Sprintf("((_ to_fp 11 53) %s)", bvc(64, t.c))
	}
	return "t" + strconv.FormatUint(uint64(t.id), 10)
}

func isFP(t *Term) bool {
	switch t.op {
	case OFConst, OFFromS, OFFromU, OFAdd, OFSub, OFMul, OFDiv:
		return true
	case OIte:
		return isFP(t.b)
	}
	return false
}

func (s *Solver) define(t *Term) {
	if s.sentGen[t] != 0 || t.op == OConst || t.op == OFConst {
		return
	}
	if t.op == OVar {
		s.sentGen[t] = 1
		if t.w == 0 {
			fmt.Fprintf(s.in, "(declare-const v%d Bool)\n", t.c)
		} else {
			fmt.Fprintf(s.in, "(declare-const v%d (_ BitVec %d))\n", t.c, t.w)
		}
		return
	}
	// iterative post-order
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if s.sentGen[x] != 0 || x.op == OConst || x.op == OFConst {
			stack = stack[:len(stack)-1]
			continue
		}
		if x.op == OVar {
			stack = stack[:len(stack)-1]
			s.define(x)
			continue
		}
		ready := true
		for _, y := range [3]*Term{x.a, x.b, x.d} {
			if y != nil && y.op != OConst && y.op != OFConst && s.sentGen[y] == 0 {
				stack = append(stack, y)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		s.sentGen[x] = 1
		s.nsent++
		var sort string
		if x.w == 0 {
			sort = "Bool"
		} else if isFP(x) {
			sort = "(_ FloatingPoint 11 53)"
		} else {
			sort = fmt.Sprintf("(_ BitVec %d)", x.w)
		}
		var body string
		switch x.op {
		case OExtract:
			body = fmt.Sprintf("((_ extract %d %d) %s)", x.c+uint64(x.w)-1, x.c, s.ref(x.a))
		case OSext:
			body = fmt.Sprintf("((_ sign_extend %d) %s)", x.w-x.a.w, s.ref(x.a))
		case OAtom:
			// uninterpreted; constrained to printable range is enough for the branches we take
			fmt.Fprintf(s.in, "(declare-const t%d (_ BitVec 8))\n(assert (and (bvuge t%d #x30) (bvule t%d #x39)))\n", x.id, x.id, x.id)
			if smallAtom(x) {
				a := s.ref(x.a)
				fmt.Fprintf(s.in, "(assert (=> (bvult %s #x000000000000000a) (= t%d (bvadd #x30 ((_ extract 7 0) %s)))))\n", a, x.id, a)
			}
			continue
		case OFFromS:
			body = fmt.Sprintf("((_ to_fp 11 53) RNE %s)", s.ref(x.a))
		case OFFromU:
			body = fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", s.ref(x.a))
		case OFAdd, OFSub, OFMul, OFDiv:
			n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[x.op]
			body = fmt.Sprintf("(%s RNE %s %s)", n, s.ref(x.a), s.ref(x.b))
		default:
			body = "(" + opNames[x.op] + " " + s.ref(x.a)
			if x.b != nil {
				body += " " + s.ref(x.b)
			}
			if x.d != nil {
				body += " " + s.ref(x.d)
			}
			body += ")"
		}
		fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", x.id, sort, body)
	}
}

func (s *Solver) vars(t *Term) []uint32 {
	if v, ok := s.varsOf[t]; ok {
		return v
	}
	out := map[uint32]bool{}
	s.ts.Vars(t, map[*Term]bool{}, out)
	v := make([]uint32, 0, len(out))
	for k := range out {
		v = append(v, k)
	}
	sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	s.varsOf[t] = v
	return v
}

// slice returns the constraints of pcs that (transitively) share variables with cond.
func (s *Solver) slice(pcs []*Term, cond *Term) []*Term {
	in := map[uint32]bool{}
	for _, v := range s.vars(cond) {
		in[v] = true
	}
	used := make([]bool, len(pcs))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, p := range pcs {
			if used[i] {
				continue
			}
			vs := s.vars(p)
			hit := false
			for _, v := range vs {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, p)
				for _, v := range vs {
					in[v] = true
				}
			}
		}
	}
	return out
}

// Check decides pcs /\ cond, assuming pcs satisfiable with model m.
// On Sat it returns a model.
func (s *Solver) Check(pcs []*Term, cond *Term, m *Model) (SatResult, *Model) {
	if cond.isConst() {
		if cond.c != 0 {
			return Sat, m
		}
		return Unsat, nil
	}
	if m != nil && m.Eval(cond) != 0 {
		s.ModelHits++
		return Sat, m
	}
	rel := s.slice(pcs, cond)
	// try cheap local mutation
	if m != nil {
		if upd := s.guess(cond); upd != nil {
			m2 := m.with(upd)
			ok := m2.Eval(cond) != 0
			for _, p := range rel {
				if !ok {
					break
				}
				ok = m2.Eval(p) != 0
			}
			if ok {
				s.ModelHits++
				return Sat, m2
			}
		}
	}
	ids := make([]int, 0, len(rel)+1)
	for _, p := range rel {
		ids = append(ids, int(p.id))
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	kb.WriteString("|")
	kb.WriteString(strconv.Itoa(int(cond.id)))
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.CacheHits++
		if e.r == Sat {
			return Sat, m.with(e.upd)
		}
		return e.r, nil
	}
	all := append(append([]*Term(nil), rel...), cond)
	r, upd := s.tiny(all)
	if r == Unknown {
		r, upd = s.query(all)
	}
	if r != Unknown {
		s.cache[key] = cacheEnt{r, upd}
	}
	if r == Sat {
		m2, bad := s.verify(m, upd, cond, rel)
		if bad == nil {
			return Sat, m2
		}
		// rendering atoms are free for the solver: tell it that equal numbers render alike
		if s.pairs = s.atomPairs(all); len(s.pairs) > 0 {
			delete(s.cache, key)
			r, upd = s.query(all)
			s.pairs = nil
			if r != Sat {
				if r == Unsat {
					s.cache[key] = cacheEnt{r, nil}
				}
				return r, nil
			}
			if m2, bad = s.verify(m, upd, cond, rel); bad == nil {
				return Sat, m2
			}
		}
		s.badModel(bad)
		return Unknown, nil
	}
	return r, nil
}

// verify evaluates the constraints under a model the solver found; it returns the first that does not hold.
func (s *Solver) verify(m *Model, upd map[uint32]uint64, cond *Term, rel []*Term) (*Model, *Term) {
	m2 := m.with(upd)
	if m2.Eval(cond) == 0 {
		return nil, cond
	}
	for _, p := range rel {
		if m2.Eval(p) == 0 {
			return nil, p
		}
	}
	return m2, nil
}

// atomPairs lists the pairs of rendering atoms in conds that render alike when their numbers are equal.
func (s *Solver) atomPairs(conds []*Term) [][2]*Term {
	seen := map[*Term]bool{}
	var atoms []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || !s.atomic(t) {
			return
		}
		seen[t] = true
		if t.op == OAtom {
			atoms = append(atoms, t)
		}
		walk(t.a)
		walk(t.b)
		walk(t.d)
	}
	for _, c := range conds {
		walk(c)
	}
	var out [][2]*Term
	for i, a := range atoms {
		for _, b := range atoms[:i] {
			if a.a.w == b.a.w && a.a != b.a && a.c == b.c {
				if out = append(out, [2]*Term{a, b}); len(out) > 4000 {
					return out
				}
			}
		}
	}
	return out
}

func (s *Solver) writePairs() {
	for _, p := range s.pairs {
		fmt.Fprintf(s.in, "(assert (=> (= %s %s) (= %s %s)))\n", s.ref(p[0].a), s.ref(p[1].a), s.ref(p[0]), s.ref(p[1]))
	}
}

// badModel records that the solver's model does not satisfy a constraint it was given.
func (s *Solver) badModel(c *Term) {
	t := c.String()
	if len(t) > 300 {
		t = t[:300]
	}
	s.Errors = append(s.Errors, "model does not satisfy "+t)
}

// tiny decides a conjunction over variables of at most 8 bits in total by evaluating it under every assignment.
func (s *Solver) tiny(conds []*Term) (SatResult, map[uint32]uint64) {
	var vs []uint32
	bits := uint(0)
	for _, c := range conds {
		for _, v := range s.vars(c) {
			seen := false
			for _, o := range vs {
				seen = seen || o == v
			}
			if !seen {
				w := uint(s.ts.vars[v].w)
				if w == 0 {
					w = 1
				}
				if bits += w; bits > 8 {
					return Unknown, nil
				}
				vs = append(vs, v)
			}
		}
	}
	if bits == 0 {
		return Unknown, nil
	}
	max := uint32(0)
	for _, v := range vs {
		if v > max {
			max = v
		}
	}
	m := &Model{vals: make([]uint64, max+1)}
	// the constraint asked about comes last and is the most selective one
	for x := uint64(0); x < 1<<bits; x++ {
		m.memo = nil
		y := x
		for _, v := range vs {
			w := uint(s.ts.vars[v].w)
			if w == 0 {
				w = 1
			}
			m.vals[v] = y & (1<<w - 1)
			y >>= w
		}
		ok := true
		for i := len(conds) - 1; i >= 0 && ok; i-- {
			ok = m.tinyEval(conds[i], s) != 0
		}
		if ok {
			upd := map[uint32]uint64{}
			for _, v := range vs {
				upd[v] = m.vals[v]
			}
			s.Tiny++
			return Sat, upd
		}
		if s.tinyBad {
			s.tinyBad = false
			return Unknown, nil
		}
	}
	s.Tiny++
	return Unsat, nil
}

// tinyEval is Eval without memory for small terms.
func (m *Model) tinyEval(t *Term, s *Solver) uint64 {
	if s.atomic(t) {
		s.tinyBad = true
		return 0
	}
	return m.Eval(t)
}

// atomic reports whether t contains a rendering atom, which has no fixed value.
func (s *Solver) atomic(t *Term) bool {
	if t == nil || t.op == OConst || t.op == OVar {
		return false
	}
	if t.op == OAtom {
		return true
	}
	if b, ok := s.hasAtom[t]; ok {
		return b
	}
	b := s.atomic(t.a) || s.atomic(t.b) || s.atomic(t.d)
	s.hasAtom[t] = b
	return b
}

// guess proposes an assignment making simple conditions true.
func (s *Solver) guess(c *Term) map[uint32]uint64 {
	upd := map[uint32]uint64{}
	if s.guessInto(c, true, upd) {
		return upd
	}
	return nil
}

func (s *Solver) guessInto(c *Term, want bool, upd map[uint32]uint64) bool {
	switch c.op {
	case OVar:
		if c.w == 0 {
			upd[uint32(c.c)] = b2u(want)
			return true
		}
	case ONot:
		return s.guessInto(c.a, !want, upd)
	case OAnd:
		if want {
			return s.guessInto(c.a, true, upd) && s.guessInto(c.b, true, upd)
		}
		return s.guessInto(c.a, false, upd)
	case OOr:
		if !want {
			return s.guessInto(c.a, false, upd) && s.guessInto(c.b, false, upd)
		}
		return s.guessInto(c.a, true, upd)
	case OEq:
		if c.a.w == 0 {
			return false
		}
		if c.b.isConst() {
			v := c.b.c
			if !want {
				v ^= 1
				if c.a.hi < v {
					v = c.b.c - 1
				}
			}
			return s.force(c.a, v, upd)
		}
		if want {
			return false
		}
	case OUlt:
		if want {
			if c.b.isConst() {
				return s.force(c.a, c.b.c-1, upd)
			}
			if c.a.isConst() {
				return s.force(c.b, c.a.c+1, upd)
			}
			return s.force(c.a, c.a.lo, upd)
		}
	case OUle:
		if want {
			if c.b.isConst() {
				return s.force(c.a, c.b.c, upd)
			}
			if c.a.isConst() {
				return s.force(c.b, c.a.c, upd)
			}
			return s.force(c.a, c.a.lo, upd)
		}
	case OSlt:
		if want && c.b.isConst() {
			return s.force(c.a, c.b.c-1, upd)
		}
		if want && c.a.isConst() {
			return s.force(c.b, c.a.c+1, upd)
		}
	case OSle:
		if want && c.b.isConst() {
			return s.force(c.a, c.b.c, upd)
		}
		if want && c.a.isConst() {
			return s.force(c.b, c.a.c, upd)
		}
	}
	return false
}

func (s *Solver) force(t *Term, v uint64, upd map[uint32]uint64) bool {
	v &= mask(t.w)
	switch t.op {
	case OConst:
		return t.c == v
	case OVar:
		upd[uint32(t.c)] = v
		return true
	case OConcat:
		return s.force(t.a, v>>t.b.w, upd) && s.force(t.b, v&mask(t.b.w), upd)
	case OExtract:
		if t.a.op == OVar {
			i := uint32(t.a.c)
			old := upd[i]
			mk := mask(t.w) << t.c
			upd[i] = old&^mk | v<<t.c&mk
			return true
		}
		if t.a.op == OConcat || t.a.op == OSext {
			return s.force(t.a, v<<t.c, upd)
		}
	case OSext:
		return s.force(t.a, v, upd)
	case OAdd:
		if t.b.isConst() {
			return s.force(t.a, v-t.b.c, upd)
		}
	case OBXor:
		if t.b.isConst() {
			return s.force(t.a, v^t.b.c, upd)
		}
	}
	return false
}

func (s *Solver) query(conds []*Term) (SatResult, map[uint32]uint64) {
	t0 := time.Now()
	r, upd := s.query1(conds)
	if r == Unknown && len(s.Errors) == 0 {
		r, upd = s.portfolio(conds)
	}
	dt := time.Since(t0)
	s.Time += dt
	if dt > s.MaxQ {
		s.MaxQ = dt
	}
	if slowDir != "" && dt > time.Second {
		s.dumpQuery(conds, dt)
	}
	s.Queries++
	switch r {
	case Sat:
		s.QSat++
	case Unsat:
		s.QUnsat++
	default:
		s.QUnknown++
	}
	return r, upd
}

var slowDir = os.Getenv("GOSYM_SLOW")
var slowN int

// portfolio hands a query the incremental solver gave up on to fresh solver
// processes, side by side; the first verdict counts.
func (s *Solver) portfolio(conds []*Term) (SatResult, map[uint32]uint64) {
	var b bytes.Buffer
	o := &Solver{ts: s.ts, varsOf: s.varsOf, hasAtom: map[*Term]bool{}, sentVar: map[uint64]bool{}, sentGen: map[*Term]int{}, in: bufio.NewWriter(&b)}
	vset := map[uint32]bool{}
	fmt.Fprintf(o.in, "(set-option :produce-models true)\n(set-logic ALL)\n")
	for _, c := range conds {
		o.define(c)
		fmt.Fprintf(o.in, "(assert %s)\n", o.ref(c))
		for _, v := range o.vars(c) {
			vset[v] = true
		}
	}
	o.pairs = s.pairs
	o.writePairs()
	fmt.Fprintf(o.in, "(check-sat)\n")
	vs := make([]uint32, 0, len(vset))
	for v := range vset {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	if len(vs) > 0 {
		fmt.Fprintf(o.in, "(get-value (")
		for _, v := range vs {
			fmt.Fprintf(o.in, "v%d ", v)
		}
		fmt.Fprintf(o.in, "))\n")
	}
	o.in.Flush()
	type answer struct {
		r   SatResult
		upd map[uint32]uint64
	}
	bins := [][]string{{z3bin, "-in", "-smt2"}, {"z3", "-in", "-smt2"}, {"cvc5", "--lang=smt2", "-q"}}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(2*s.TimeoutMs+10000)*time.Millisecond)
	defer cancel()
	ch := make(chan answer, len(bins))
	for _, c := range bins {
		go func(c []string) {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = bytes.NewReader(b.Bytes())
			out, _ := cmd.Output() // get-value after unsat is an error: the verdict counts
			l, rest := string(out), ""
			if i := strings.IndexByte(l, '\n'); i >= 0 {
				l, rest = strings.TrimSpace(l[:i]), l[i+1:]
			}
			switch l {
			case "unsat":
				ch <- answer{Unsat, nil}
			case "sat":
				upd := map[uint32]uint64{}
				parseValues(rest, upd)
				if len(upd) == len(vs) {
					ch <- answer{Sat, upd}
					return
				}
				ch <- answer{}
			default:
				ch <- answer{}
			}
		}(c)
	}
	for range bins {
		if a := <-ch; a.r != Unknown {
			return a.r, a.upd
		}
	}
	return Unknown, nil
}

// dumpQuery writes a query that took long as a stand-alone file (debugging aid).
func (s *Solver) dumpQuery(conds []*Term, dt time.Duration) {
	var b bytes.Buffer
	o := &Solver{ts: s.ts, varsOf: map[*Term][]uint32{}, hasAtom: map[*Term]bool{}, sentGen: map[*Term]int{}, in: bufio.NewWriter(&b)}
	for _, c := range conds {
		o.define(c)
		fmt.Fprintf(o.in, "(assert %s)\n", o.ref(c))
	}
	fmt.Fprintf(o.in, "(check-sat)\n")
	o.in.Flush()
	slowN++
	os.WriteFile(fmt.Sprintf("%s/q%d_%d.smt2", slowDir, slowN, dt.Milliseconds()), b.Bytes(), 0o644)
}

func (s *Solver) query1(conds []*Term) (SatResult, map[uint32]uint64) {
	if s.cmd == nil || s.nsent > 400000 {
		s.Close()
		s.start()
	}
	for _, c := range conds {
		s.define(c)
	}
	fmt.Fprintf(s.in, "(push)\n")
	vset := map[uint32]bool{}
	for _, c := range conds {
		fmt.Fprintf(s.in, "(assert %s)\n", s.ref(c))
		for _, v := range s.vars(c) {
			vset[v] = true
		}
	}
	s.writePairs()
	fmt.Fprintf(s.in, "(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.Errors = append(s.Errors, "solver write: "+err.Error())
		s.Close()
		return Unknown, nil
	}
	proc := s.cmd.Process
	watch := time.AfterFunc(time.Duration(2*s.TimeoutMs+5000)*time.Millisecond, func() { proc.Kill() })
	line, err := s.readLine()
	watch.Stop()
	if err != nil {
		s.Errors = append(s.Errors, "solver read: "+err.Error())
		s.Close()
		return Unknown, nil
	}
	switch line {
	case "sat":
		upd := map[uint32]uint64{}
		if len(vset) > 0 {
			vs := make([]uint32, 0, len(vset))
			for v := range vset {
				vs = append(vs, v)
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
			var b strings.Builder
			b.WriteString("(get-value (")
			for _, v := range vs {
				fmt.Fprintf(&b, "v%d ", v)
			}
			b.WriteString("))\n(echo \"done\")\n(pop)\n")
			s.in.WriteString(b.String())
			s.in.Flush()
			for {
				l, err := s.readLine()
				if err != nil {
					s.Close()
					return Unknown, nil
				}
				if l == "done" {
					break
				}
				if strings.HasPrefix(l, "(error") {
					s.Errors = append(s.Errors, l)
					continue
				}
				parseValues(l, upd)
			}
		} else {
			fmt.Fprintf(s.in, "(pop)\n")
		}
		return Sat, upd
	case "unsat":
		fmt.Fprintf(s.in, "(pop)\n")
		return Unsat, nil
	default:
		if strings.HasPrefix(line, "(error") {
			s.Errors = append(s.Errors, line)
			s.Close()
			return Unknown, nil
		}
		fmt.Fprintf(s.in, "(pop)\n")
		return Unknown, nil
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func parseValues(l string, upd map[uint32]uint64) {
	// ((v1 #x00) or (v2 #b0)) possibly spread over lines
	toks := strings.FieldsFunc(l, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	for i := 0; i+1 < len(toks); i += 2 {
		if len(toks[i]) < 2 || toks[i][0] != 'v' {
			i--
			continue
		}
		id, err := strconv.ParseUint(toks[i][1:], 10, 32)
		if err != nil {
			continue
		}
		v := toks[i+1]
		var x uint64
		switch {
		case strings.HasPrefix(v, "#x"):
			x, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, _ = strconv.ParseUint(v[2:], 2, 64)
		case v == "true":
			x = 1
		}
		upd[uint32(id)] = x
	}
}
