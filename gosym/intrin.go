package main

// Models of functions that are not interpreted: harness API, runtime/asm leaves, sync, strconv on symbolic numbers.

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(x *Exec, st *State, in *Instr, a []Val) (Val, bool)

var intrinsics = map[string]intrinsicFn{}
var harnessAPI = map[string]intrinsicFn{}
var redirects = map[string]string{} // full name -> function in the prelude package

const preludePath = "github.com/abema/go-mp4/internal/zzvfmt"

func reg(names string, f intrinsicFn) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = f
	}
}

func lookupIntrinsic(fi *FnInfo) intrinsicFn {
	fn := fi.fn
	if fn == nil {
		return nil
	}
	if fn.Synthetic == "package initializer" {
		if fn.Pkg != nil && fi.name != "" {
			return func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) { return Val{}, true }
		}
	}
	if f, ok := intrinsics[fi.name]; ok {
		return f
	}
	if fn.Pkg != nil && fn.Signature.Recv() == nil && len(fn.Name()) > 1 && fn.Name()[0] == 'v' {
		if f, ok := harnessAPI[fn.Name()]; ok {
			if p := fn.Pos(); p.IsValid() && strings.Contains(TT.prog.Fset.Position(p).Filename, "zzv_") {
				return f
			}
		}
	}
	if r, ok := redirects[fi.name]; ok {
		name := r
		return func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
			t := findFunc(preludePath, name)
			x.push(st, t, a, nil, retNormal)
			return Val{}, false
		}
	}
	return nil
}

var natMu sync.Mutex
var natFns = map[string]*FnInfo{}

// nativeFn gives a pseudo function for engine-made closures.
func nativeFn(name string) *FnInfo {
	natMu.Lock()
	defer natMu.Unlock()
	if f, ok := natFns[name]; ok {
		return f
	}
	f := &FnInfo{name: "native:" + name, intr: intrinsics["native:"+name]}
	natFns[name] = f
	return f
}

func nop(x *Exec, st *State, in *Instr, a []Val) (Val, bool) { return Val{}, true }
func ident(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
	return a[0], true
}

func (x *Exec) concStrArg(v Val, what string) string {
	s, ok := v.concStr()
	if !ok {
		unsup("symbolic string passed to %s", what)
	}
	return s
}

func agg(vs ...Val) Val { return Val{r: &Agg{v: vs}} }

func (x *Exec) errVal(msg string) Val {
	f := findFunc("errors", "New")
	_ = f
	return Val{r: &IfaceV{ti: rtErrTI, v: mkStr(msg)}}
}

// atomStr renders a symbolic number as a one-character injective placeholder.
func (x *Exec) atomStr(kind uint64, t *Term) Val {
	return mkStrBytes([]Val{tval(x.ts.Atom(kind, t))})
}

// intAtom renders a symbolic number; numbers known not to be negative have the same rendering signed and unsigned.
func hasPureAtom(b []Val) bool {
	for _, v := range b {
		if isPureAtom(v) {
			return true
		}
	}
	return false
}

const boolAtom = 500

func isPureAtom(v Val) bool {
	return v.t != nil && v.t.op == OAtom && (smallAtom(v.t) || v.t.c == boolAtom)
}

// strEq compares texts in which a rendered number may be an atom on one side and digits on the other.
func (x *Exec) strEq(st *State, p, q Val) Val {
	a, b := p.strBytes(), q.strBytes()
	if !hasPureAtom(a) && !hasPureAtom(b) {
		return x.eqVal(st, p, q, tiString)
	}
	r := x.ts.tTrue
	for len(a) > 0 && len(b) > 0 {
		pa, pb := isPureAtom(a[0]), isPureAtom(b[0])
		if pa != pb {
			at, d := a[0].t, b
			if pb {
				at, d = b[0].t, a
			}
			if v, n, ok := digitRun(d, at.c); ok {
				r = x.ts.And(r, x.ts.Eq(at.a, x.ts.Const(64, v)))
				if pa {
					a, b = a[1:], b[n:]
				} else {
					a, b = a[n:], b[1:]
				}
				continue
			}
		}
		e := x.eqVal(st, a[0], b[0], tiByte)
		if e.t == nil && e.n == 0 {
			return mkBool(false)
		}
		if e.t != nil {
			r = x.ts.And(r, e.t)
		}
		a, b = a[1:], b[1:]
	}
	if len(a) != len(b) {
		return mkBool(false)
	}
	return tval(r)
}

// digitRun parses the number at the start of d as the atom kind would render it.
func digitRun(d []Val, kind uint64) (uint64, int, bool) {
	n, neg := 0, false
	base := kind // 10, 16, ...: signed; 110, 116, ...: unsigned
	if base > 100 {
		base -= 100
	} else if len(d) > 0 && d[0].t == nil && d[0].n == '-' {
		n, neg = 1, true
	}
	if kind == boolAtom {
		for i, w := range []string{"false", "true"} {
			ok := len(d) >= len(w)
			for j := 0; ok && j < len(w); j++ {
				ok = d[j].t == nil && d[j].n == uint64(w[j])
			}
			if ok {
				return uint64(i), len(w), true
			}
		}
		return 0, 0, false
	}
	var v uint64
	start := n
	for ; n < len(d) && d[n].t == nil; n++ {
		c := d[n].n
		switch {
		case c >= '0' && c <= '9':
			c -= '0'
		case c >= 'a' && c <= 'z':
			c -= 'a' - 10
		default:
			c = 99
		}
		if c >= base {
			break
		}
		v = v*base + c
	}
	if n == start || n-start > 1 && d[start].n == '0' {
		return 0, 0, false
	}
	if neg {
		v = -v
	}
	return v, n, true
}

func (x *Exec) intAtom(st *State, base uint64, t *Term, signed bool) Val {
	if base < 2 || base > 36 {
		unsup("number base")
	}
	if !signed {
		return x.atomStr(base+100, x.ts.Zext(t, 64))
	}
	t = x.ts.Sext(t, 64)
	// (decided by the term alone, so that a number is rendered alike on all paths)
	if t.hi < 1<<63 {
		return x.atomStr(base+100, t)
	}
	return x.atomStr(base, t)
}

// floatAtom renders a dyadic number with a fixed number of decimals, rounded as strconv does (half to even).
func (x *Exec) floatAtom(t *Term, prec int, bitSize int) (Val, bool) {
	f, ok := x.fix(t, 0)
	if !ok || prec < 0 || prec > 9 || f.k < 0 || f.k > 24 || f.bits > 32 || bitSize == 32 && f.bits > 24 {
		return Val{}, false
	}
	ts := x.ts
	c := func(v uint64) *Term { return ts.Const(64, v) }
	neg := ts.Slt(f.n, c(0))
	q := ts.Ite(neg, ts.Neg(f.n), f.n)
	p10 := uint64(1)
	for i := 0; i < prec; i++ {
		p10 *= 10
	}
	q = ts.Mul(q, c(p10))
	m := q
	if f.k > 0 {
		m = ts.Lshr(q, c(uint64(f.k)))
		rem := ts.BAnd(q, c(1<<uint(f.k)-1))
		half := c(1 << uint(f.k-1))
		up := ts.Or(ts.Ult(half, rem), ts.And(ts.Eq(rem, half), ts.Eq(ts.BAnd(m, c(1)), c(1))))
		m = ts.Ite(up, ts.Add(m, c(1)), m)
	}
	return x.atomStr(3000+uint64(prec), ts.Ite(neg, ts.BOr(m, c(1<<63)), m)), true
}

func init() {
	reg(`internal/abi.NoEscape internal/abi.Escape internal/abi.FuncPCABI0 strings.noescape`, ident)
	reg(`sync.runtime_registerPoolCleanup (*sync.Mutex).Lock (*sync.Mutex).Unlock (*sync.RWMutex).Lock (*sync.RWMutex).Unlock (*sync.RWMutex).RLock (*sync.RWMutex).RUnlock
		internal/race.Enable internal/race.Disable internal/race.Acquire internal/race.Release internal/race.ReleaseMerge internal/race.ReadRange internal/race.WriteRange
		runtime.KeepAlive runtime.GC runtime.SetFinalizer runtime.Gosched internal/godebug.setUpdate internal/godebug.registerMetric internal/msan.Read internal/asan.Read
		(*sync.Pool).Put internal/runtime/sys.GetCallerPC runtime/debug.FreeOSMemory`, nop)
	reg("(*sync.Once).Do", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		obj, off := a[0].ptr()
		done := st.h.load(obj, off)
		if done.n != 0 {
			return Val{}, true
		}
		x.hstore(st, obj, off, mkInt(1))
		fi, args, free := x.resolveFunc(a[1], nil)
		x.push(st, fi, args, free, retNormal)
		return Val{}, false
	})
	reg("(*sync.Pool).Get", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		obj, off := a[0].ptr()
		o := st.h.get(obj)
		var pt *TI
		_ = o
		pt = T(findType("sync", "Pool"))
		for _, f := range pt.fields {
			if f.name == "New" {
				fv := st.h.load(obj, off+f.off)
				if fv.r == nil {
					return Val{}, true
				}
				fi, args, free := x.resolveFunc(fv, nil)
				x.push(st, fi, args, free, retNormal)
				return Val{}, false
			}
		}
		return Val{}, true
	})
	atomicLoad := func(ti func() *TI) intrinsicFn {
		return func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) { return x.loadAt(st, a[0], ti()), true }
	}
	atomicStore := func(ti func() *TI) intrinsicFn {
		return func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
			x.storeAt(st, a[0], a[1], ti())
			return Val{}, true
		}
	}
	atomicAdd := func(ti func() *TI) intrinsicFn {
		return func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
			v := x.loadAt(st, a[0], ti())
			n := tval(x.ts.Add(x.term(v, ti().w), x.term(a[1], ti().w)))
			x.storeAt(st, a[0], n, ti())
			return n, true
		}
	}
	atomicCas := func(ti func() *TI) intrinsicFn {
		return func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
			v := x.loadAt(st, a[0], ti())
			if x.decideVal(st, x.eqVal(st, v, a[1], ti())) {
				x.storeAt(st, a[0], a[2], ti())
				return mkBool(true), true
			}
			return mkBool(false), true
		}
	}
	for _, t := range []struct {
		n string
		b types.BasicKind
	}{{"Int32", types.Int32}, {"Uint32", types.Uint32}, {"Int64", types.Int64}, {"Uint64", types.Uint64}, {"Uintptr", types.Uintptr}} {
		b := t.b
		ti := func() *TI { return T(types.Typ[b]) }
		reg("sync/atomic.Load"+t.n, atomicLoad(ti))
		reg("sync/atomic.Store"+t.n, atomicStore(ti))
		reg("sync/atomic.Add"+t.n, atomicAdd(ti))
		reg("sync/atomic.CompareAndSwap"+t.n, atomicCas(ti))
	}
	uptr := func() *TI { return T(types.Typ[types.UnsafePointer]) }
	reg("sync/atomic.LoadPointer", atomicLoad(uptr))
	reg("sync/atomic.StorePointer", atomicStore(uptr))
	reg("sync/atomic.CompareAndSwapPointer", atomicCas(uptr))

	// ---- bytealg
	reg("internal/bytealg.MakeNoZero", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		n, ok := x.sizeArg(st, a[0], T(types.Typ[types.Int]), int(x.allocCap))
		if !ok {
			unsup("MakeNoZero of a huge length")
		}
		return x.newSlice(st, tiByte, n, n), true
	})
	idxByte := func(x *Exec, st *State, bs []Val, c Val) Val {
		for i, b := range bs {
			if x.decideVal(st, x.eqVal(st, b, c, tiByte)) {
				return mkInt(uint64(i))
			}
		}
		return mkInt(^uint64(0))
	}
	reg("internal/bytealg.IndexByte", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return idxByte(x, st, x.sliceVals(st, a[0], tiByte), a[1]), true
	})
	reg("internal/bytealg.IndexByteString", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return idxByte(x, st, a[0].strBytes(), a[1]), true
	})
	count := func(x *Exec, st *State, bs []Val, c Val) Val {
		n := uint64(0)
		for _, b := range bs {
			if x.decideVal(st, x.eqVal(st, b, c, tiByte)) {
				n++
			}
		}
		return mkInt(n)
	}
	reg("internal/bytealg.Count", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return count(x, st, x.sliceVals(st, a[0], tiByte), a[1]), true
	})
	reg("internal/bytealg.CountString", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return count(x, st, a[0].strBytes(), a[1]), true
	})
	reg("internal/bytealg.Equal", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		p, q := mkStrBytes(x.sliceVals(st, a[0], tiByte)), mkStrBytes(x.sliceVals(st, a[1], tiByte))
		return x.eqVal(st, p, q, tiString), true
	})
	reg("internal/bytealg.Compare bytes.Compare", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		p, q := mkStrBytes(x.sliceVals(st, a[0], tiByte)), mkStrBytes(x.sliceVals(st, a[1], tiByte))
		if s1, ok := p.concStr(); ok {
			if s2, ok := q.concStr(); ok {
				return mkInt(uint64(int64(strings.Compare(s1, s2)))), true
			}
		}
		unsup("bytes.Compare on symbolic data")
		return Val{}, true
	})
	reg("internal/bytealg.IndexString internal/stringslite.Index strings.Index", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		if s1, ok := a[0].concStr(); ok {
			if s2, ok := a[1].concStr(); ok {
				return mkInt(uint64(int64(strings.Index(s1, s2)))), true
			}
		}
		n := a[1].strLen()
		for i := 0; i+n <= a[0].strLen(); i++ {
			if x.decideVal(st, x.eqVal(st, a[0].substr(i, i+n), a[1], tiString)) {
				return mkInt(uint64(i)), true
			}
		}
		return mkInt(^uint64(0)), true
	})

	// ---- strconv / math on possibly symbolic numbers
	reg("strconv.Itoa", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		v := x.norm(st, a[0])
		if v.t == nil {
			return mkStr(strconv.Itoa(int(v.n))), true
		}
		return x.intAtom(st, 10, v.t, true), true
	})
	reg("strconv.FormatInt internal/strconv.FormatInt", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		v := x.norm(st, a[0])
		if v.t == nil {
			return mkStr(strconv.FormatInt(int64(v.n), int(a[1].n))), true
		}
		return x.intAtom(st, a[1].n, v.t, true), true
	})
	reg("strconv.FormatUint internal/strconv.FormatUint", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		v := x.norm(st, a[0])
		if v.t == nil {
			return mkStr(strconv.FormatUint(v.n, int(a[1].n))), true
		}
		return x.intAtom(st, a[1].n, v.t, false), true
	})
	reg("strconv.FormatBool internal/strconv.FormatBool", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		if a[0].t == nil {
			return mkStr(strconv.FormatBool(a[0].n != 0)), true
		}
		return x.atomStr(boolAtom, x.ts.Ite(a[0].t, x.ts.Const(64, 1), x.ts.Const(64, 0))), true
	})
	reg("strconv.FormatFloat internal/strconv.FormatFloat", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		if a[0].t == nil {
			return mkStr(strconv.FormatFloat(ffrom(a[0].n), byte(a[1].n), int(int64(a[2].n)), int(a[3].n))), true
		}
		if byte(a[1].n) == 'f' {
			if v, ok := x.floatAtom(a[0].t, int(int64(a[2].n)), int(a[3].n)); ok {
				return v, true
			}
		}
		unsup("FormatFloat of a symbolic value")
		return Val{}, true
	})
	reg("strconv.Quote", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return mkStr(strconv.Quote(x.concStrArg(a[0], "strconv.Quote"))), true
	})
	f1 := func(f func(float64) float64) intrinsicFn {
		return func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
			if a[0].t != nil {
				unsup("math function on a symbolic float")
			}
			return Val{n: fbits(f(ffrom(a[0].n)))}, true
		}
	}
	reg("math.Ceil", f1(math.Ceil))
	reg("math.Floor", f1(math.Floor))
	reg("math.Sqrt", f1(math.Sqrt))
	reg("math.Abs", f1(math.Abs))
	reg("math.Trunc", f1(math.Trunc))
	reg("math.Log2", f1(math.Log2))
	reg("math.Log10", f1(math.Log10))
	reg("math.Float64bits math.Float64frombits math.Float32bits math.Float32frombits", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		if a[0].t != nil {
			unsup("float bits of a symbolic value")
		}
		return a[0], true
	})

	// ---- unicode classes
	class := func(f func(rune) bool) intrinsicFn {
		type iv struct{ lo, hi uint64 }
		var once sync.Once
		var ivs []iv
		return func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
			v := x.norm(st, a[0])
			if v.t == nil {
				return mkBool(f(rune(int32(v.n)))), true
			}
			once.Do(func() {
				on := false
				for r := rune(0); r <= unicode.MaxRune+1; r++ {
					g := r <= unicode.MaxRune && f(r)
					if g && !on {
						ivs = append(ivs, iv{uint64(r), 0})
					}
					if !g && on {
						ivs[len(ivs)-1].hi = uint64(r - 1)
					}
					on = g
				}
			})
			lo, hi := st.rangeOf(v.t, 3)
			r := x.ts.tFalse
			for _, i := range ivs {
				if i.hi < lo || i.lo > hi {
					continue
				}
				r = x.ts.Or(r, x.ts.And(x.ts.Ule(x.ts.Const(32, i.lo), v.t), x.ts.Ule(v.t, x.ts.Const(32, i.hi))))
			}
			return tval(r), true
		}
	}
	reg("unicode.IsGraphic", class(unicode.IsGraphic))
	reg("unicode.IsPrint strconv.IsPrint", class(unicode.IsPrint))
	reg("unicode.IsSpace", class(unicode.IsSpace))
	reg("unicode.IsControl", class(unicode.IsControl))

	// ---- time-like and environment things that must not matter
	reg("runtime.Caller runtime.Callers", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) { unsup("runtime.Caller"); return Val{}, true })
	reg("internal/godebug.New", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return mkPtr(x.allocObj(st, 16, nil, 0), 0), true
	})
	reg("(*internal/godebug.Setting).Value", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) { return Val{}, true })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("os.runtime_args syscall.runtime_envs os.Getenv", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) { return Val{}, true })

	reg("native:swap", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		e := a[1].r.(*RT).ti
		s := a[0].r.(*SliceV)
		i := int(x.concretize(st, a[2]))
		j := int(x.concretize(st, a[3]))
		p := st.h.loadN(s.obj, s.off+i*e.slots, e.slots)
		q := st.h.loadN(s.obj, s.off+j*e.slots, e.slots)
		for k := 0; k < e.slots; k++ {
			x.hstore(st, s.obj, s.off+i*e.slots+k, q[k])
			x.hstore(st, s.obj, s.off+j*e.slots+k, p[k])
		}
		return Val{}, true
	})

	for _, n := range []string{"Sprintf", "Sprint", "Sprintln", "Errorf", "Fprintf", "Fprint", "Fprintln", "Printf", "Print", "Println", "Appendf"} {
		redirects["fmt."+n] = n
	}
	for _, n := range []string{"AppendInt", "AppendUint"} {
		redirects["strconv."+n] = "Strconv" + n
		redirects["internal/strconv."+n] = "Strconv" + n
	}
	redirects["os.Open"] = "OsOpen"
	redirects["os.OpenFile"] = "OsOpenFile"
	redirects["os.ReadFile"] = "OsReadFile"
	redirects["os.WriteFile"] = "OsWriteFile"
	redirects["os.Mkdir"] = "OsMkdir"
	redirects["os.Remove"] = "OsRemove"
	redirects["os.Rename"] = "OsRename"
	redirects["os.Stat"] = "OsStat"
	redirects["(*os.File).Stat"] = "FileStat"
	redirects["(*os.File).Name"] = "FileName"
	redirects["(*os.File).Sync"] = "FileSync"
	redirects["(*os.File).Truncate"] = "FileTruncate"
	redirects["(*os.File).ReadAt"] = "FileReadAt"
	redirects["(*os.File).WriteAt"] = "FileWriteAt"
	redirects["math.Max"] = "MathMax"
	redirects["math.Min"] = "MathMin"
	redirects["os.Create"] = "OsCreate"
	redirects["internal/bytealg.CompareString"] = "CompareString"
	redirects["os.MkdirAll"] = "OsMkdirAll"
	redirects["golang.org/x/term.GetSize"] = "TermGetSize"
	reg("os.Exit", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		x.candidate2(st, "panic", "os.Exit called", x.where(st), nil)
		panic(killState{"panic"})
	})
	reg("(*os.File).Fd", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) { return mkInt(0), true })
	for _, n := range []string{"Load", "Store", "Clear", "LoadOrStore", "LoadAndDelete", "Delete", "Swap", "CompareAndSwap", "CompareAndDelete", "Range"} {
		redirects["(*sync.Map)."+n] = "SyncMap" + n
	}
	redirects["(*os.File).Read"] = "FileRead"
	redirects["(*os.File).Write"] = "FileWrite"
	redirects["(*os.File).WriteString"] = "FileWriteString"
	redirects["(*os.File).Seek"] = "FileSeek"
	redirects["(*os.File).Close"] = "FileClose"
	redirects["(*os.File).ReadFrom"] = "FileReadFrom"
	redirects["(*os.File).WriteTo"] = "FileWriteTo"

	initHarnessAPI()
}

// ---------- harness API

func (x *Exec) freshName(st *State, base string) string {
	if !st.ctrOwn {
		n := make(map[string]int, len(st.ctr)+1)
		for k, v := range st.ctr {
			n[k] = v
		}
		st.ctr = n
		st.ctrOwn = true
	}
	k := st.ctr[base]
	st.ctr[base] = k + 1
	return fmt.Sprintf("%s#%d", base, k)
}

func (x *Exec) inputVar(name string, w uint8) *Term {
	key := name
	if t, ok := x.vars[key]; ok {
		if t.w == w {
			return t
		}
		unsup("input %s used with two widths", name)
	}
	t := x.ts.Var(name, w)
	x.vars[key] = t
	return t
}

func (x *Exec) assertProp(st *State, c Val, msg string) {
	x.nassert++
	if c.t == nil {
		if c.n == 0 {
			x.candidate(st, "assert", msg, nil)
			panic(killState{"assert"})
		}
		x.nassertProved++
		return
	}
	if v, ok := st.fact(c.t); ok && v {
		x.nassertProved++
		return
	}
	r, m2 := x.sol.Check(st.pcTerms(), x.ts.Not(c.t), st.model)
	switch r {
	case Unsat:
		st.learn(c.t, true)
		x.nassertProved++
		return
	case Unknown:
		x.incomplete("solver gave no answer for assertion: " + msg)
		return
	}
	x.candidate(st, "assert", msg, m2)
	// continue on the inputs that satisfy it
	r, m3 := x.sol.Check(st.pcTerms(), c.t, st.model)
	if r != Sat {
		panic(killState{"assert"})
	}
	x.assume(st, c.t)
	st.model = m3
}

func initHarnessAPI() {
	h := func(n string, f intrinsicFn) { harnessAPI[n] = f }
	num := func(w uint8) intrinsicFn {
		return func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
			return Val{t: x.inputVar(x.freshName(st, x.concStrArg(a[0], "input name")), w)}, true
		}
	}
	h("vU8", num(8))
	h("vI8", num(8))
	h("vU16", num(16))
	h("vI16", num(16))
	h("vU32", num(32))
	h("vI32", num(32))
	h("vU64", num(64))
	h("vI64", num(64))
	h("vInt", num(64))
	h("vUint", num(64))
	h("vBool", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		t := x.inputVar(x.freshName(st, x.concStrArg(a[0], "input name")), 8)
		return tval(x.ts.Eq(x.ts.Extract(t, 0, 0), x.ts.Const(1, 1))), true
	})
	h("vBits", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) { // vBits(name, n) uint64 < 2^n
		n := uint8(a[1].n)
		nm := x.freshName(st, x.concStrArg(a[0], "input name"))
		t := x.inputVar(nm, n)
		return tval(x.ts.Zext(t, 64)), true
	})
	h("vBytes", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		n, ok := x.sizeArg(st, a[1], T(types.Typ[types.Int]), 1<<20)
		if !ok {
			unsup("vBytes length")
		}
		nm := x.freshName(st, x.concStrArg(a[0], "input name"))
		vs := make([]Val, n)
		for i := range vs {
			vs[i] = Val{t: x.inputVar(fmt.Sprintf("%s[%d]", nm, i), 8)}
		}
		save := st.limit
		st.limit = 0
		s := x.bytesToSlice(st, vs)
		st.limit = save
		return s, true
	})
	// vChoose(name, n): explored for every value 0..n-1 by forking; concrete in each branch
	h("vChoose", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		base := x.concStrArg(a[0], "input name")
		k := st.ctr[base]
		nm := fmt.Sprintf("%s#%d", base, k)
		n := x.concretize(st, a[1])
		t := x.inputVar(nm, 64)
		c := x.ts.Ult(t, x.ts.Const(64, n))
		if v, ok := st.fact(c); !ok || !v {
			r, m2 := x.sol.Check(st.pcTerms(), c, st.model)
			if r != Sat {
				panic(killState{"assume"})
			}
			x.assume(st, c)
			st.model = m2
		}
		v := x.concretize(st, Val{t: t})
		x.freshName(st, base)
		st.choices = append(st.choices[:len(st.choices):len(st.choices)], fmt.Sprintf("%s=%d", nm, v))
		return mkInt(v), true
	})
	// vRange(name, lo, hi): symbolic int within [lo,hi]
	h("vRange", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		nm := x.freshName(st, x.concStrArg(a[0], "input name"))
		t := x.inputVar(nm, 64)
		c := x.ts.And(x.ts.Sle(x.term(a[1], 64), t), x.ts.Sle(t, x.term(a[2], 64)))
		x.doAssume(st, tval(c))
		return Val{t: t}, true
	})
	h("vConc", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return mkInt(x.concretize(st, a[0])), true
	})
	h("vAssume", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		x.doAssume(st, a[0])
		return Val{}, true
	})
	h("vAssert", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		x.assertProp(st, x.norm(st, a[0]), x.showStr(a[1]))
		return Val{}, true
	})
	h("vCover", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		l := x.showStr(a[0])
		x.covers[l]++
		for _, c := range st.covers {
			if c == l {
				return Val{}, true
			}
		}
		st.covers = append(st.covers[:len(st.covers):len(st.covers)], l)
		return Val{}, true
	})
	h("vPrune", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		x.incomplete("harness bound: " + x.showStr(a[0]))
		panic(killState{"prune"})
	})
	obs := func(kind byte) intrinsicFn {
		return func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
			e := obsEnt{label: x.showStr(a[0]), kind: kind}
			switch kind {
			case 'u':
				e.v, e.w = a[1], 64
			case 'b':
				e.v, e.w = a[1], 0
			case 's':
				e.bs = x.sliceVals(st, a[1], tiByte)
			case 't':
				e.kind = 's'
				e.bs = a[1].strBytes()
			case 'e':
				e.v = mkStr("nil")
				if a[1].r != nil {
					e.v = mkStr("err")
				}
			}
			st.obs = append(st.obs[:len(st.obs):len(st.obs)], e)
			return Val{}, true
		}
	}
	h("vObsU", obs('u'))
	h("vObsBool", obs('b'))
	h("vObsB", obs('s'))
	h("vObsS", obs('t'))
	h("vObsErr", obs('e'))
	h("vEqual", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		d := &deepEq{x: x, st: st}
		return tval(d.iface(a[0], a[1])), true
	})
	h("vClone", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		c := &cloner{x: x, st: st, m: map[uint32]uint32{}}
		return c.val(a[0], nil), true
	})
	h("vAnd", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return tval(x.ts.And(x.term(a[0], 0), x.term(a[1], 0))), true
	})
	h("vOr", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return tval(x.ts.Or(x.term(a[0], 0), x.term(a[1], 0))), true
	})
	h("vNot", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return tval(x.ts.Not(x.term(a[0], 0))), true
	})
	h("vIte", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return tval(x.ts.Ite(x.term(a[0], 0), x.term(a[1], 64), x.term(a[2], 64))), true
	})
	h("vBytesEq", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		p, q := mkStrBytes(x.sliceVals(st, a[0], tiByte)), mkStrBytes(x.sliceVals(st, a[1], tiByte))
		return x.strEq(st, p, q), true
	})
	h("vStrEq", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return x.strEq(st, a[0], a[1]), true
	})
	h("vLimitAlloc", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		st.alloc = 0
		st.limit = int64(x.concretize(st, a[0]))
		return Val{}, true
	})
	h("vUnlimitAlloc", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		st.limit = 0
		return Val{}, true
	})
	h("vFreezeShared", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		st.freezeBelow = x.baseNext
		return Val{}, true
	})
	// everything that exists now becomes read-only
	h("vFreezeAll", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		st.freezeBelow = st.h.next
		return Val{}, true
	})
	h("vThaw", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		st.freezeBelow = 0
		return Val{}, true
	})
	h("vParam", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return mkStr(x.params[x.concStrArg(a[0], "vParam")]), true
	})
	h("vParamInt", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		n, _ := strconv.Atoi(x.params[x.concStrArg(a[0], "vParamInt")])
		return mkInt(uint64(n)), true
	})
	h("vNative", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) { return mkBool(false), true })
	h("vStopPath", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) { panic(killState{"assume"}) })
	// vNoAlias(a, b): no mutable storage reachable from both
	h("vNoAlias", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		r1, r2 := map[uint32]bool{}, map[uint32]bool{}
		reach(st, a[0], r1)
		reach(st, a[1], r2)
		for o := range r1 {
			if r2[o] {
				return mkBool(false), true
			}
		}
		return mkBool(true), true
	})
	h("vCaptureStdout", nop)
	pre := func(name string) intrinsicFn {
		return func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
			x.push(st, findFunc(preludePath, name), a, nil, retNormal)
			return Val{}, false
		}
	}
	h("vPutFile", pre("VfsPut"))
	h("vPath", pre("VfsPath"))
	h("vGetFile", pre("VfsGet"))
	// ---- virtual byte source: sparse file support happens in harness code
	h("vStdout", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		save := st.limit
		st.limit = 0
		s := x.bytesToSlice(st, st.stdout)
		st.limit = save
		return s, true
	})
	h("vEmitStdout", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		b := x.sliceVals(st, a[0], tiByte)
		st.stdout = append(st.stdout[:len(st.stdout):len(st.stdout)], b...)
		return Val{}, true
	})
	h("vDebug", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		if x.trace || debugOut {
			s := ""
			for _, v := range x.sliceVals(st, a[0], T(types.NewInterfaceType(nil, nil))) {
				if iv, ok := v.r.(*IfaceV); ok {
					s += " " + x.show(st, iv.v, iv.ti, 3)
				} else {
					s += " nil"
				}
			}
			fmt.Println("DEBUG", s)
		}
		return Val{}, true
	})
}

var debugOut bool

func (x *Exec) show(st *State, v Val, ti *TI, d int) string {
	if d == 0 {
		return "…"
	}
	switch ti.kind {
	case KString:
		return strconv.Quote(x.showStr(v))
	case KSlice:
		if v.r == nil {
			return "nil"
		}
		s := v.r.(*SliceV)
		e := ti.Elem()
		o := "["
		for i := 0; i < s.len && i < 40; i++ {
			if e.isAgg() {
				o += x.show(st, Val{r: &Agg{st.h.loadN(s.obj, s.off+i*e.slots, e.slots)}}, e, d-1) + " "
			} else {
				o += x.show(st, st.h.load(s.obj, s.off+i), e, d-1) + " "
			}
		}
		return o + "]"
	case KIface:
		if iv, ok := v.r.(*IfaceV); ok {
			return iv.ti.String() + ":" + x.show(st, iv.v, iv.ti, d-1)
		}
		return "nil"
	case KPtr:
		if v.r == ptrMark {
			e := ti.Elem()
			return "&" + x.show(st, x.loadAt(st, v, e), e, d-1)
		}
		return "nil"
	case KStruct:
		a := v.r.(*Agg)
		o := "{"
		for _, f := range ti.fields {
			if f.ti.isAgg() {
				o += f.name + ":" + x.show(st, Val{r: &Agg{a.v[f.off : f.off+f.ti.slots]}}, f.ti, d-1) + " "
			} else {
				o += f.name + ":" + x.show(st, a.v[f.off], f.ti, d-1) + " "
			}
		}
		return o + "}"
	case KArray:
		a := v.r.(*Agg)
		o := "["
		e := ti.Elem()
		for i := 0; i < ti.alen && i < 40; i++ {
			if e.isAgg() {
				o += x.show(st, Val{r: &Agg{a.v[i*e.slots : (i+1)*e.slots]}}, e, d-1) + " "
			} else {
				o += x.show(st, a.v[i], e, d-1) + " "
			}
		}
		return o + "]"
	}
	if v.t != nil {
		return v.t.String()
	}
	if v.r != nil {
		return fmt.Sprintf("%T", v.r)
	}
	if ti.sgn {
		return fmt.Sprint(signed(v.n, ti.w))
	}
	return fmt.Sprint(v.n)
}

func (x *Exec) doAssume(st *State, c Val) {
	if c.t == nil {
		if c.n == 0 {
			panic(killState{"assume"})
		}
		return
	}
	if v, ok := st.fact(c.t); ok {
		if !v {
			panic(killState{"assume"})
		}
		return
	}
	if st.model.Eval(c.t) == 0 {
		r, m2 := x.sol.Check(st.pcTerms(), c.t, st.model)
		if r == Unknown {
			x.incomplete("solver gave no answer for an assumption at " + x.where(st))
		}
		if r != Sat {
			panic(killState{"assume"})
		}
		st.model = m2
	}
	x.assume(st, c.t)
}

func (x *Exec) checkFrozen(st *State, obj uint32) {
	o := st.h.get(obj)
	if o.tag == "writable" || strings.Contains(st.top().fi.name, "zzvfmt.SyncMap") || strings.HasSuffix(st.top().fi.name, "zzvfmt.syncMapOf") {
		return
	}
	name := globalName(obj)
	x.candidate(st, "sharedwrite", "writes to storage that must not change: "+name, nil)
	panic(killState{"candidate"})
}

// ---------- deep equality and copying

type deepEq struct {
	x  *Exec
	st *State
	n  int
}

func (d *deepEq) iface(a, b Val) *Term {
	ts := d.x.ts
	if a.r == nil || b.r == nil {
		return ts.Bool(a.r == nil && b.r == nil)
	}
	ia, ok1 := a.r.(*IfaceV)
	ib, ok2 := b.r.(*IfaceV)
	if !ok1 || !ok2 {
		return ts.Bool(d.x.eqVal(d.st, a, b, T(types.NewInterfaceType(nil, nil))).n != 0)
	}
	if ia.ti != ib.ti {
		return ts.tFalse
	}
	return d.val(ia.v, ib.v, ia.ti)
}

func (d *deepEq) val(a, b Val, ti *TI) *Term {
	ts := d.x.ts
	d.n++
	if d.n > 200000 {
		unsup("vEqual on a structure that is too large")
	}
	switch ti.kind {
	case KPtr:
		if a.r == nil || b.r == nil {
			return ts.Bool(a.r == nil && b.r == nil)
		}
		if a == b {
			return ts.tTrue
		}
		e := ti.Elem()
		return d.val(d.x.loadAt(d.st, a, e), d.x.loadAt(d.st, b, e), e)
	case KSlice:
		na, nb := 0, 0
		var sa, sb *SliceV
		if a.r != nil {
			sa = a.r.(*SliceV)
			na = sa.len
		}
		if b.r != nil {
			sb = b.r.(*SliceV)
			nb = sb.len
		}
		if na != nb {
			return ts.tFalse
		}
		if na == 0 {
			return ts.tTrue
		}
		if *sa == *sb {
			return ts.tTrue
		}
		e := ti.Elem()
		r := ts.tTrue
		fl := flatTypes(e)
		va := d.st.h.loadN(sa.obj, sa.off, na*e.slots)
		vb := d.st.h.loadN(sb.obj, sb.off, na*e.slots)
		for i := range va {
			if va[i] == vb[i] && va[i].r == nil {
				continue
			}
			r = ts.And(r, d.val(va[i], vb[i], fl[i%len(fl)]))
			if r == ts.tFalse {
				return r
			}
		}
		return r
	case KStruct, KArray:
		fl := flatTypes(ti)
		aa, ab := a.r.(*Agg), b.r.(*Agg)
		r := ts.tTrue
		for i := range fl {
			if aa.v[i] == ab.v[i] && aa.v[i].r == nil {
				continue
			}
			r = ts.And(r, d.val(aa.v[i], ab.v[i], fl[i]))
			if r == ts.tFalse {
				return r
			}
		}
		return r
	case KIface:
		return d.iface(a, b)
	case KMap, KFunc, KChan:
		return ts.Bool(a == b)
	}
	return d.x.term(d.x.eqVal(d.st, a, b, ti), 0)
}

type cloner struct {
	x  *Exec
	st *State
	m  map[uint32]uint32
}

func (c *cloner) obj(id uint32) uint32 {
	if n, ok := c.m[id]; ok {
		return n
	}
	o := c.st.h.get(id)
	n := c.st.h.alloc(o.n, o.ti)
	c.m[id] = n
	if o.m != nil {
		mo := o.m.clone()
		for i := range mo.vals {
			mo.vals[i] = c.val(mo.vals[i], nil)
		}
		c.st.h.objW(n).m = mo
	}
	for i := 0; i < o.n; i++ {
		v := o.load(i)
		if v != (Val{}) {
			c.st.h.store(n, i, c.val(v, nil))
		}
	}
	return n
}

func (c *cloner) val(v Val, ti *TI) Val {
	switch r := v.r.(type) {
	case *mark:
		obj := uint32(v.n >> 32)
		if r == ptrMark {
			_, off := v.ptr()
			if obj < c.x.baseNext {
				return v
			}
			return mkPtr(c.obj(obj), off)
		}
		return Val{n: uint64(c.obj(obj)) << 32, r: r}
	case *SliceV:
		return Val{r: &SliceV{c.obj(r.obj), r.off, r.len, r.cap}}
	case *IfaceV:
		return Val{r: &IfaceV{r.ti, c.val(r.v, r.ti)}}
	case *Agg:
		o := &Agg{v: make([]Val, len(r.v))}
		for i := range r.v {
			o.v[i] = c.val(r.v[i], nil)
		}
		return Val{r: o}
	case *SymPtrV:
		unsup("clone of a symbolic pointer")
	}
	return v
}

func reach(st *State, v Val, out map[uint32]bool) {
	visit := func(obj uint32) {
		if out[obj] {
			return
		}
		out[obj] = true
		o := st.h.get(obj)
		for i := 0; i < o.n; i++ {
			reach(st, o.load(i), out)
		}
		if o.m != nil {
			for i := range o.m.vals {
				reach(st, o.m.vals[i], out)
			}
		}
	}
	switch r := v.r.(type) {
	case *mark:
		visit(uint32(v.n >> 32))
	case *SliceV:
		if r.cap > 0 {
			visit(r.obj)
		}
	case *IfaceV:
		reach(st, r.v, out)
	case *Agg:
		for _, e := range r.v {
			reach(st, e, out)
		}
	}
}

var _ = bytes.Equal
var _ = reflect.TypeOf
var _ = sort.Ints
var _ *ssa.Function
