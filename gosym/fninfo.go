package main

// Pre-decoded SSA functions: registers, operands, loops, reverse post-order, liveness.

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Operand struct {
	reg int // >=0 register, -1 constant
	c   Val
}

type Instr struct {
	ssa   ssa.Instruction
	dst   int // -1 none
	ops   []Operand
	ti    *TI // type of the result
	oti   *TI // type of first operand (where useful)
	x     int // misc: field offset, index, ...
	x2    int
	blk   *BlockInfo
	idx   int
	spec  *specInfo
	live  []uint64 // live after (lazily, calls only)
	liveO sync.Once
	call  *CallInfo
}

type CallInfo struct {
	builtin string
	static  *FnInfo
	invoke  bool
	mname   string
	mpkg    *types.Package
	argTI   []*TI
}

type specInfo struct {
	thenB, elseB *BlockInfo // nil = directly the join
	join         *BlockInfo
}

type BlockInfo struct {
	idx    int
	instrs []*Instr
	nphi   int
	rpo    int
	loops  []int // enclosing loop ids, outermost first
	header int   // loop id this block heads, or -1
	join   bool
	liveIn []uint64
	succs  []*BlockInfo
	preds  []*BlockInfo
	fi     *FnInfo
}

type FnInfo struct {
	fn       *ssa.Function
	id       int
	name     string
	once     sync.Once
	nregs    int
	regTI    []*TI
	params   []int
	frees    []int
	blocks   []*BlockInfo
	nloops   int
	loopHdr  []int // rpo of header per loop
	intr     intrinsicFn
	external bool
	results  *types.Tuple
	recover  *BlockInfo
	ninstr   int
}

var fnTab sync.Map
var fnCount int
var fnMu sync.Mutex

func FI(fn *ssa.Function) *FnInfo {
	if x, ok := fnTab.Load(fn); ok {
		return x.(*FnInfo)
	}
	fnMu.Lock()
	defer fnMu.Unlock()
	if x, ok := fnTab.Load(fn); ok {
		return x.(*FnInfo)
	}
	fnCount++
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	fi := &FnInfo{fn: fn, id: fnCount, name: name}
	fi.intr = lookupIntrinsic(fi)
	fnTab.Store(fn, fi)
	return fi
}

func (fi *FnInfo) prepare() {
	fi.once.Do(func() { fi.decode() })
}

func constVal(c *ssa.Const) Val {
	ti := T(c.Type())
	if c.Value == nil {
		return zeroVal(ti)
	}
	switch ti.kind {
	case KBool:
		return mkBool(constant.BoolVal(c.Value))
	case KInt:
		v := constant.ToInt(c.Value)
		if ti.sgn {
			i, _ := constant.Int64Val(v)
			return mkInt(uint64(i) & mask(ti.w))
		}
		u, ok := constant.Uint64Val(v)
		if !ok {
			i, _ := constant.Int64Val(v)
			u = uint64(i)
		}
		return mkInt(u & mask(ti.w))
	case KFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if ti.w == 32 {
			return mkInt(uint64(math.Float32bits(float32(f))))
		}
		return mkInt(math.Float64bits(f))
	case KString:
		return mkStr(constant.StringVal(c.Value))
	case KUnsafe, KPtr:
		return Val{}
	}
	return Val{}
}

func zeroVal(ti *TI) Val {
	if ti.isAgg() {
		return Val{r: &Agg{v: make([]Val, ti.slots)}}
	}
	return Val{}
}

var globalIDs = map[*ssa.Global]uint32{}

func (fi *FnInfo) decode() {
	fn := fi.fn
	if fn.Pkg != nil {
		buildPkg(fn.Pkg)
	}
	fi.results = fn.Signature.Results()
	if fn.Blocks == nil {
		fi.external = true
		return
	}
	regOf := map[ssa.Value]int{}
	addReg := func(v ssa.Value) int {
		r := fi.nregs
		regOf[v] = r
		fi.nregs++
		fi.regTI = append(fi.regTI, T(v.Type()))
		return r
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, addReg(p))
	}
	for _, p := range fn.FreeVars {
		fi.frees = append(fi.frees, addReg(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, isRange := in.(*ssa.Range); isRange {
					r := fi.nregs
					regOf[v] = r
					fi.nregs++
					fi.regTI = append(fi.regTI, nil)
					continue
				}
				addReg(v)
			}
		}
	}
	blocks := make([]*BlockInfo, len(fn.Blocks))
	for i := range fn.Blocks {
		blocks[i] = &BlockInfo{idx: i, header: -1, fi: fi}
	}
	fi.blocks = blocks
	operand := func(v ssa.Value) Operand {
		if r, ok := regOf[v]; ok {
			return Operand{reg: r}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return Operand{reg: -1, c: constVal(x)}
		case *ssa.Global:
			id, ok := globalIDs[x]
			if !ok {
				panic("unknown global " + x.String())
			}
			return Operand{reg: -1, c: mkPtr(id, 0)}
		case *ssa.Function:
			return Operand{reg: -1, c: Val{r: &FuncV{fn: x}}}
		case *ssa.Builtin:
			return Operand{reg: -1}
		}
		panic("operand " + v.String())
	}
	for i, b := range fn.Blocks {
		bi := blocks[i]
		bi.join = len(b.Preds) >= 2
		for _, s := range b.Succs {
			bi.succs = append(bi.succs, blocks[s.Index])
		}
		for _, s := range b.Preds {
			bi.preds = append(bi.preds, blocks[s.Index])
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ins := &Instr{ssa: in, dst: -1, blk: bi, idx: len(bi.instrs)}
			fi.ninstr++
			if v, ok := in.(ssa.Value); ok {
				ins.dst = regOf[v]
				ins.ti = fi.regTI[ins.dst]
			}
			switch x := in.(type) {
			case *ssa.Phi:
				bi.nphi++
				for _, e := range x.Edges {
					ins.ops = append(ins.ops, operand(e))
				}
			case *ssa.Call:
				fi.decodeCall(ins, &x.Call, operand)
			case *ssa.Defer:
				fi.decodeCall(ins, &x.Call, operand)
			case *ssa.Go:
				fi.decodeCall(ins, &x.Call, operand)
			default:
				var buf [12]*ssa.Value
				for _, op := range in.Operands(buf[:0]) {
					if op == nil || *op == nil {
						ins.ops = append(ins.ops, Operand{reg: -1})
						continue
					}
					ins.ops = append(ins.ops, operand(*op))
				}
				switch y := in.(type) {
				case *ssa.FieldAddr:
					st := T(y.X.Type()).Elem()
					ins.x = st.fields[y.Field].off
					ins.oti = st
				case *ssa.Field:
					st := T(y.X.Type())
					ins.x = st.fields[y.Field].off
					ins.x2 = st.fields[y.Field].ti.slots
					ins.oti = st
				case *ssa.Extract:
					ins.x = y.Index
				case *ssa.MakeInterface:
					ins.oti = T(y.X.Type())
				case *ssa.BinOp:
					ins.oti = T(y.X.Type())
					ins.x2 = int(T(y.Y.Type()).w)
				case *ssa.UnOp:
					ins.oti = T(y.X.Type())
				case *ssa.Convert:
					ins.oti = T(y.X.Type())
				case *ssa.MultiConvert:
					ins.oti = T(y.X.Type())
				case *ssa.ChangeType:
					ins.oti = T(y.X.Type())
				case *ssa.Slice:
					ins.oti = T(y.X.Type())
				case *ssa.IndexAddr:
					ins.oti = T(y.X.Type())
				case *ssa.Index:
					ins.oti = T(y.X.Type())
				case *ssa.Lookup:
					ins.oti = T(y.X.Type())
				case *ssa.Range:
					ins.oti = T(y.X.Type())
				case *ssa.TypeAssert:
					ins.oti = T(y.AssertedType)
				case *ssa.MapUpdate:
					ins.oti = T(y.Map.Type())
				case *ssa.Store:
					ins.oti = T(y.Val.Type())
				case *ssa.Alloc:
					ins.oti = T(y.Type()).Elem()
				case *ssa.MakeSlice:
					ins.oti = T(y.Type()).Elem()
				case *ssa.SliceToArrayPointer:
					ins.oti = T(y.Type()).Elem()
				}
			}
			bi.instrs = append(bi.instrs, ins)
		}
	}
	if fn.Recover != nil {
		fi.recover = blocks[fn.Recover.Index]
	}
	fi.loopsAndOrder()
	fi.liveness()
	fi.findSpec()
}

func (fi *FnInfo) decodeCall(ins *Instr, c *ssa.CallCommon, operand func(ssa.Value) Operand) {
	ci := &CallInfo{}
	ins.call = ci
	if c.IsInvoke() {
		ci.invoke = true
		ci.mname = c.Method.Name()
		ci.mpkg = c.Method.Pkg()
		ins.ops = append(ins.ops, operand(c.Value))
		ci.argTI = append(ci.argTI, T(c.Value.Type()))
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		ci.builtin = b.Name()
		ins.ops = append(ins.ops, Operand{reg: -1})
		ci.argTI = append(ci.argTI, nil)
	} else {
		if f := c.StaticCallee(); f != nil {
			if _, isClosure := c.Value.(*ssa.MakeClosure); !isClosure {
				ci.static = FI2(f)
			}
		}
		ins.ops = append(ins.ops, operand(c.Value))
		ci.argTI = append(ci.argTI, nil)
	}
	for _, a := range c.Args {
		ins.ops = append(ins.ops, operand(a))
		ci.argTI = append(ci.argTI, T(a.Type()))
	}
}

// FI2 is FI but safe to call while another FnInfo is being decoded.
func FI2(fn *ssa.Function) *FnInfo { return FI(fn) }

func (fi *FnInfo) loopsAndOrder() {
	n := len(fi.blocks)
	// reverse post-order
	seen := make([]bool, n)
	var post []int
	var dfs func(b *BlockInfo)
	dfs = func(b *BlockInfo) {
		seen[b.idx] = true
		for i := len(b.succs) - 1; i >= 0; i-- {
			if !seen[b.succs[i].idx] {
				dfs(b.succs[i])
			}
		}
		post = append(post, b.idx)
	}
	dfs(fi.blocks[0])
	for i := range fi.blocks {
		if !seen[i] {
			dfs(fi.blocks[i])
		}
	}
	for i, b := range post {
		fi.blocks[b].rpo = len(post) - 1 - i
	}
	// natural loops (back edge: succ dominates block)
	loopOf := map[int]map[int]bool{} // header -> body
	for _, b := range fi.blocks {
		for _, s := range b.succs {
			if fi.fn.Blocks[s.idx].Dominates(fi.fn.Blocks[b.idx]) {
				body := loopOf[s.idx]
				if body == nil {
					body = map[int]bool{s.idx: true}
					loopOf[s.idx] = body
				}
				stack := []int{b.idx}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					for _, p := range fi.blocks[x].preds {
						stack = append(stack, p.idx)
					}
				}
			}
		}
	}
	var headers []int
	for h := range loopOf {
		headers = append(headers, h)
	}
	// outermost first: larger bodies first
	for i := 0; i < len(headers); i++ {
		for j := i + 1; j < len(headers); j++ {
			a, b := headers[i], headers[j]
			if len(loopOf[b]) > len(loopOf[a]) || len(loopOf[b]) == len(loopOf[a]) && b < a {
				headers[i], headers[j] = b, a
			}
		}
	}
	fi.nloops = len(headers)
	for id, h := range headers {
		fi.blocks[h].header = id
		fi.loopHdr = append(fi.loopHdr, fi.blocks[h].rpo)
		for b := range loopOf[h] {
			fi.blocks[b].loops = append(fi.blocks[b].loops, id)
		}
	}
}

func bset(s []uint64, i int)      { s[i>>6] |= 1 << (uint(i) & 63) }
func bclr(s []uint64, i int)      { s[i>>6] &^= 1 << (uint(i) & 63) }
func bget(s []uint64, i int) bool { return s[i>>6]>>(uint(i)&63)&1 != 0 }

func (fi *FnInfo) liveness() {
	nw := (fi.nregs + 63) / 64
	n := len(fi.blocks)
	liveOut := make([][]uint64, n)
	for i := range fi.blocks {
		fi.blocks[i].liveIn = make([]uint64, nw)
		liveOut[i] = make([]uint64, nw)
	}
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fi.blocks[i]
			out := liveOut[i]
			for _, s := range b.succs {
				for k := range out {
					out[k] |= s.liveIn[k]
				}
				// phi uses
				for pi, p := range s.preds {
					if p == b {
						for k := 0; k < s.nphi; k++ {
							if r := s.instrs[k].ops[pi].reg; r >= 0 {
								bset(out, r)
							}
						}
					}
				}
			}
			in := append([]uint64(nil), out...)
			for k := len(b.instrs) - 1; k >= b.nphi; k-- {
				fi.liveStep(in, b.instrs[k])
			}
			// liveIn is "after phis": phi destinations may be live; predecessors do not need them
			for k := range in {
				if b.liveIn[k]|in[k] != b.liveIn[k] {
					b.liveIn[k] |= in[k]
					changed = true
				}
			}
			// but phi dsts must not propagate to predecessors
			_ = in
		}
	}
	_ = liveOut
}

func (fi *FnInfo) liveStep(in []uint64, ins *Instr) {
	if ins.dst >= 0 {
		bclr(in, ins.dst)
	}
	for _, o := range ins.ops {
		if o.reg >= 0 {
			bset(in, o.reg)
		}
	}
}

// liveAfter returns registers live after instruction ins (ignoring its own result).
func (fi *FnInfo) liveAfter(ins *Instr) []uint64 {
	ins.liveO.Do(func() {
		b := ins.blk
		nw := (fi.nregs + 63) / 64
		out := make([]uint64, nw)
		for _, s := range b.succs {
			for k := range out {
				out[k] |= s.liveIn[k]
			}
			for pi, p := range s.preds {
				if p == b {
					for k := 0; k < s.nphi; k++ {
						if r := s.instrs[k].ops[pi].reg; r >= 0 {
							bset(out, r)
						}
					}
				}
			}
		}
		for k := len(b.instrs) - 1; k > ins.idx; k-- {
			fi.liveStep(out, b.instrs[k])
		}
		ins.live = out
	})
	return ins.live
}

func pureInstr(in *Instr) bool {
	switch x := in.ssa.(type) {
	case *ssa.BinOp:
		return x.Op != token.QUO && x.Op != token.REM
	case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Store, *ssa.Convert, *ssa.ChangeType, *ssa.Field, *ssa.Extract, *ssa.ChangeInterface:
		return true
	}
	return false
}

func pureBlock(b *BlockInfo) bool {
	if len(b.instrs) > 24 || b.nphi > 0 || len(b.preds) != 1 || len(b.succs) != 1 {
		return false
	}
	for _, in := range b.instrs {
		if _, ok := in.ssa.(*ssa.Jump); ok {
			continue
		}
		if !pureInstr(in) {
			return false
		}
	}
	return true
}

func (fi *FnInfo) findSpec() {
	for _, b := range fi.blocks {
		if len(b.instrs) == 0 {
			continue
		}
		last := b.instrs[len(b.instrs)-1]
		if _, ok := last.ssa.(*ssa.If); !ok {
			continue
		}
		t, e := b.succs[0], b.succs[1]
		switch {
		case t != e && pureBlock(t) && t.succs[0] == e && e != b:
			last.spec = &specInfo{thenB: t, join: e}
		case t != e && pureBlock(e) && e.succs[0] == t && t != b:
			last.spec = &specInfo{elseB: e, join: t}
		case t != e && pureBlock(t) && pureBlock(e) && t.succs[0] == e.succs[0]:
			last.spec = &specInfo{thenB: t, elseB: e, join: t.succs[0]}
		}
	}
}
