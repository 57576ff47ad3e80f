package main

// Model of package reflect over the engine's own types.

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"sync"
)

func kindOf(ti *TI) reflect.Kind {
	switch ti.kind {
	case KBool:
		return reflect.Bool
	case KString:
		return reflect.String
	case KPtr:
		return reflect.Ptr
	case KUnsafe:
		return reflect.UnsafePointer
	case KSlice:
		return reflect.Slice
	case KMap:
		return reflect.Map
	case KChan:
		return reflect.Chan
	case KFunc:
		return reflect.Func
	case KIface:
		return reflect.Interface
	case KStruct:
		return reflect.Struct
	case KArray:
		return reflect.Array
	}
	switch ti.bk {
	case types.Int:
		return reflect.Int
	case types.Int8:
		return reflect.Int8
	case types.Int16:
		return reflect.Int16
	case types.Int32:
		return reflect.Int32
	case types.Int64:
		return reflect.Int64
	case types.Uint:
		return reflect.Uint
	case types.Uint8:
		return reflect.Uint8
	case types.Uint16:
		return reflect.Uint16
	case types.Uint32:
		return reflect.Uint32
	case types.Uint64:
		return reflect.Uint64
	case types.Uintptr:
		return reflect.Uintptr
	case types.Float32:
		return reflect.Float32
	case types.Float64:
		return reflect.Float64
	}
	return reflect.Invalid
}

const (
	rfAddr = 1
	rfRO   = 2
)

var rtMu sync.Mutex
var rtTab = map[*TI]*RT{}

func rtOf(ti *TI) Val {
	rtMu.Lock()
	defer rtMu.Unlock()
	r := rtTab[ti]
	if r == nil {
		r = &RT{ti}
		rtTab[ti] = r
	}
	return Val{r: r}
}

func mkRV(ti *TI, v Val, flag uint64) Val { return agg(rtOf(ti), v, mkInt(flag)) }

type rv struct {
	ti   *TI
	v    Val
	flag uint64
}

func unRV(v Val) rv {
	a := v.r.(*Agg)
	if a.v[0].r == nil {
		return rv{}
	}
	return rv{a.v[0].r.(*RT).ti, a.v[1], a.v[2].n}
}

func (x *Exec) rvGet(st *State, r rv) Val {
	if r.ti == nil {
		panic(goPanic{msg: "reflect: call of method on zero Value"})
	}
	if r.flag&rfAddr != 0 {
		return x.loadAt(st, r.v, r.ti)
	}
	return r.v
}

func (x *Exec) rvSet(st *State, r rv, v Val) {
	if r.flag&rfAddr == 0 || r.flag&rfRO != 0 {
		panic(goPanic{msg: "reflect.Value.Set using unaddressable value"})
	}
	x.storeAt(st, r.v, v, r.ti)
}

func (x *Exec) rvField(st *State, r rv, i int) Val {
	f := r.ti.fields[i]
	fl := r.flag
	if !f.exported {
		fl |= rfRO
	}
	if r.flag&rfAddr != 0 {
		switch p := r.v.r.(type) {
		case *SymPtrV:
			c := *p
			c.extra += f.off
			return mkRV(f.ti, Val{r: &c}, fl)
		case nil:
			x.nilDeref()
		}
		return mkRV(f.ti, Val{n: r.v.n + uint64(f.off), r: ptrMark}, fl)
	}
	a := r.v.r.(*Agg)
	if f.ti.isAgg() {
		return mkRV(f.ti, Val{r: &Agg{v: a.v[f.off : f.off+f.ti.slots]}}, fl)
	}
	return mkRV(f.ti, a.v[f.off], fl)
}

func (x *Exec) rvIface(st *State, r rv) Val {
	v := x.rvGet(st, r)
	if r.ti.kind == KIface {
		return v
	}
	return Val{r: &IfaceV{r.ti, v}}
}

func structFieldVal(x *Exec, st *State, ti *TI, i int) Val {
	f := ti.fields[i]
	pk := ""
	if !f.exported {
		pk = f.v.Pkg().Path()
	}
	s := x.newSlice(st, T(types.Typ[types.Int]), 1, 1)
	st.h.store(s.r.(*SliceV).obj, 0, mkInt(uint64(i)))
	return agg(mkStr(f.name), mkStr(pk), rtOf(f.ti), mkStr(f.tag), mkInt(0), s, mkBool(f.embedded))
}

var rtMethods = map[string]*FnInfo{}
var rtMethodMu sync.Mutex

func rtypeMethod(name string) *FnInfo {
	rtMethodMu.Lock()
	defer rtMethodMu.Unlock()
	if f, ok := rtMethods[name]; ok {
		return f
	}
	f := &FnInfo{name: "reflect.Type." + name, intr: intrinsics["rtype."+name]}
	if f.intr == nil {
		f.intr = func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
			unsup("reflect.Type.%s", name)
			return Val{}, true
		}
	}
	rtMethods[name] = f
	return f
}

func init() {
	tInt := func() *TI { return T(types.Typ[types.Int]) }
	_ = tInt
	reg("reflect.TypeOf internal/reflectlite.TypeOf", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		if a[0].r == nil {
			return Val{}, true
		}
		if rt, ok := a[0].r.(*RT); ok {
			_ = rt
			unsup("TypeOf(reflect.Type)")
		}
		return rtOf(a[0].r.(*IfaceV).ti), true
	})
	reg("reflect.ValueOf internal/reflectlite.ValueOf", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		if a[0].r == nil {
			return agg(Val{}, Val{}, Val{}), true
		}
		iv, ok := a[0].r.(*IfaceV)
		if !ok {
			unsup("ValueOf(reflect.Type)")
		}
		return mkRV(iv.ti, iv.v, 0), true
	})
	m := func(name string, f func(x *Exec, st *State, r rv, a []Val) Val) {
		g := func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
			return f(x, st, unRV(a[0]), a[1:]), true
		}
		intrinsics["(reflect.Value)."+name] = g
		intrinsics["(internal/reflectlite.Value)."+name] = g
	}
	elem := func(x *Exec, st *State, r rv, a []Val) Val {
		v := x.rvGet(st, r)
		switch r.ti.kind {
		case KPtr:
			if v.r == nil {
				return agg(Val{}, Val{}, Val{})
			}
			return mkRV(r.ti.Elem(), v, rfAddr|r.flag&rfRO)
		case KIface:
			if v.r == nil {
				return agg(Val{}, Val{}, Val{})
			}
			iv := v.r.(*IfaceV)
			return mkRV(iv.ti, iv.v, r.flag&rfRO)
		}
		panic(goPanic{msg: "reflect: call of reflect.Value.Elem on " + r.ti.String()})
	}
	m("Elem", elem)
	intrinsics["reflect.Indirect"] = func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		r := unRV(a[0])
		if r.ti.kind == KPtr {
			return elem(x, st, r, nil), true
		}
		return a[0], true
	}
	m("Type", func(x *Exec, st *State, r rv, a []Val) Val {
		if r.ti == nil {
			panic(goPanic{msg: "reflect: call of reflect.Value.Type on zero Value"})
		}
		return rtOf(r.ti)
	})
	m("Kind", func(x *Exec, st *State, r rv, a []Val) Val {
		if r.ti == nil {
			return Val{}
		}
		return mkInt(uint64(kindOf(r.ti)))
	})
	m("IsValid", func(x *Exec, st *State, r rv, a []Val) Val { return mkBool(r.ti != nil) })
	m("CanAddr", func(x *Exec, st *State, r rv, a []Val) Val { return mkBool(r.flag&rfAddr != 0) })
	m("CanSet", func(x *Exec, st *State, r rv, a []Val) Val { return mkBool(r.flag&(rfAddr|rfRO) == rfAddr) })
	m("CanInterface", func(x *Exec, st *State, r rv, a []Val) Val { return mkBool(r.flag&rfRO == 0) })
	m("Interface", func(x *Exec, st *State, r rv, a []Val) Val {
		if r.flag&rfRO != 0 {
			panic(goPanic{msg: "reflect.Value.Interface: cannot return value obtained from unexported field or method"})
		}
		return x.rvIface(st, r)
	})
	m("Addr", func(x *Exec, st *State, r rv, a []Val) Val {
		if r.flag&rfAddr == 0 {
			panic(goPanic{msg: "reflect.Value.Addr of unaddressable value"})
		}
		return mkRV(T(types.NewPointer(r.ti.typ)), r.v, r.flag&rfRO)
	})
	m("NumField", func(x *Exec, st *State, r rv, a []Val) Val { return mkInt(uint64(len(r.ti.fields))) })
	m("Field", func(x *Exec, st *State, r rv, a []Val) Val { return x.rvField(st, r, int(x.concretize(st, a[0]))) })
	m("FieldByName", func(x *Exec, st *State, r rv, a []Val) Val {
		if r.ti == nil || r.ti.kind != KStruct {
			panic(goPanic{msg: "reflect: call of reflect.Value.FieldByName on non-struct"})
		}
		name := x.concStrArg(a[0], "FieldByName")
		path := fieldPath(r.ti, name)
		if path == nil {
			return agg(Val{}, Val{}, Val{})
		}
		cur := r
		var v Val
		for k, i := range path {
			if k > 0 && cur.ti.kind == KPtr {
				cur = unRV(elem(x, st, cur, nil))
			}
			v = x.rvField(st, cur, i)
			cur = unRV(v)
		}
		return v
	})
	m("Len", func(x *Exec, st *State, r rv, a []Val) Val {
		switch r.ti.kind {
		case KArray:
			return mkInt(uint64(r.ti.alen))
		case KPtr:
			return mkInt(uint64(r.ti.Elem().alen))
		}
		v := x.rvGet(st, r)
		switch r.ti.kind {
		case KString:
			return mkInt(uint64(v.strLen()))
		case KSlice:
			if v.r == nil {
				return Val{}
			}
			return mkInt(uint64(v.r.(*SliceV).len))
		case KMap:
			if v.r == nil {
				return Val{}
			}
			return mkInt(uint64(st.h.get(uint32(v.n >> 32)).m.nlive))
		}
		panic(goPanic{msg: "reflect: call of reflect.Value.Len on " + r.ti.String()})
	})
	m("Cap", func(x *Exec, st *State, r rv, a []Val) Val {
		v := x.rvGet(st, r)
		if v.r == nil {
			return Val{}
		}
		return mkInt(uint64(v.r.(*SliceV).cap))
	})
	m("Index", func(x *Exec, st *State, r rv, a []Val) Val {
		switch r.ti.kind {
		case KArray:
			e := r.ti.Elem()
			i, sym := x.boundsIdx(st, a[0], tInt(), r.ti.alen)
			if sym != nil {
				i = int(x.concretize(st, Val{t: sym}))
			}
			if r.flag&rfAddr != 0 {
				if p, ok := r.v.r.(*SymPtrV); ok {
					c := *p
					c.extra += i * e.slots
					return mkRV(e, Val{r: &c}, r.flag)
				}
				return mkRV(e, Val{n: r.v.n + uint64(i*e.slots), r: ptrMark}, r.flag)
			}
			ag := r.v.r.(*Agg)
			if e.isAgg() {
				return mkRV(e, Val{r: &Agg{v: ag.v[i*e.slots : (i+1)*e.slots]}}, r.flag)
			}
			return mkRV(e, ag.v[i], r.flag)
		case KSlice:
			v := x.rvGet(st, r)
			s, _ := v.r.(*SliceV)
			n := 0
			if s != nil {
				n = s.len
			}
			i, sym := x.boundsIdx(st, a[0], tInt(), n)
			if sym != nil {
				i = int(x.concretize(st, Val{t: sym}))
			}
			e := r.ti.Elem()
			return mkRV(e, mkPtr(s.obj, s.off+i*e.slots), rfAddr|r.flag&rfRO)
		case KString:
			v := x.rvGet(st, r)
			i, sym := x.boundsIdx(st, a[0], tInt(), v.strLen())
			if sym != nil {
				i = int(x.concretize(st, Val{t: sym}))
			}
			return mkRV(tiByte, v.strByte(i), 0)
		}
		panic(goPanic{msg: "reflect: call of reflect.Value.Index on " + r.ti.String()})
	})
	scalar := func(name string, kinds ...Kind) {
		m(name, func(x *Exec, st *State, r rv, a []Val) Val {
			if r.ti != nil {
				for _, k := range kinds {
					if r.ti.kind == k {
						v := x.rvGet(st, r)
						if k == KInt {
							if (name == "Int") != r.ti.sgn {
								break
							}
							return x.convInt(v, r.ti, &TI{kind: KInt, w: 64})
						}
						if k == KFloat && r.ti.w == 32 {
							return x.convert(st, v, r.ti, T(types.Typ[types.Float64]))
						}
						return v
					}
				}
			}
			if name == "String" {
				if r.ti == nil {
					return mkStr("<invalid Value>")
				}
				return mkStr("<" + r.ti.String() + " Value>")
			}
			panic(goPanic{msg: fmt.Sprintf("reflect: call of reflect.Value.%s on %s Value", name, r.ti)})
		})
	}
	scalar("Int", KInt)
	scalar("Uint", KInt)
	scalar("Bool", KBool)
	scalar("String", KString)
	scalar("Float", KFloat)
	m("Bytes", func(x *Exec, st *State, r rv, a []Val) Val {
		if r.ti.kind == KArray {
			if r.flag&rfAddr == 0 {
				panic(goPanic{msg: "reflect.Value.Bytes of unaddressable byte array"})
			}
			obj, off := r.v.ptr()
			return Val{r: &SliceV{obj, off, r.ti.alen, r.ti.alen}}
		}
		return x.rvGet(st, r)
	})
	m("IsNil", func(x *Exec, st *State, r rv, a []Val) Val { return mkBool(x.rvGet(st, r).r == nil) })
	m("IsZero", func(x *Exec, st *State, r rv, a []Val) Val {
		v := x.rvGet(st, r)
		if r.ti.kind == KSlice {
			return mkBool(v.r == nil)
		}
		return x.eqVal(st, v, zeroVal(r.ti), r.ti)
	})
	m("Pointer", func(x *Exec, st *State, r rv, a []Val) Val {
		v := x.rvGet(st, r)
		if s, ok := v.r.(*SliceV); ok {
			return mkInt(uint64(s.obj)<<32 + uint64(s.off) + 1<<60)
		}
		if v.r == nil {
			return Val{}
		}
		return mkInt(v.n + 1<<60)
	})
	m("Set", func(x *Exec, st *State, r rv, a []Val) Val {
		s := unRV(a[0])
		v := x.rvGet(st, s)
		if r.ti.kind == KIface && s.ti.kind != KIface {
			v = Val{r: &IfaceV{s.ti, v}}
		} else if s.ti != r.ti && !types.AssignableTo(s.ti.typ, r.ti.typ) {
			panic(goPanic{msg: "reflect.Set: value of type " + s.ti.String() + " is not assignable to type " + r.ti.String()})
		}
		x.rvSet(st, r, v)
		return Val{}
	})
	m("SetInt", func(x *Exec, st *State, r rv, a []Val) Val {
		x.rvSet(st, r, x.convInt(a[0], &TI{kind: KInt, w: 64, sgn: true}, r.ti))
		return Val{}
	})
	m("SetUint", func(x *Exec, st *State, r rv, a []Val) Val {
		x.rvSet(st, r, x.convInt(a[0], &TI{kind: KInt, w: 64}, r.ti))
		return Val{}
	})
	for _, n := range []string{"SetBool", "SetString", "SetBytes"} {
		m(n, func(x *Exec, st *State, r rv, a []Val) Val {
			x.rvSet(st, r, a[0])
			return Val{}
		})
	}
	m("SetLen", func(x *Exec, st *State, r rv, a []Val) Val {
		s := *x.rvGet(st, r).r.(*SliceV)
		s.len = int(x.concretize(st, a[0]))
		x.rvSet(st, r, Val{r: &s})
		return Val{}
	})
	m("Slice", func(x *Exec, st *State, r rv, a []Val) Val {
		i, j := int(x.concretize(st, a[0])), int(x.concretize(st, a[1]))
		v := x.rvGet(st, r)
		if r.ti.kind == KString {
			return mkRV(r.ti, v.substr(i, j), 0)
		}
		if v.r == nil {
			return mkRV(r.ti, v, 0)
		}
		s := *v.r.(*SliceV)
		s.off += i * r.ti.Elem().slots
		s.len = j - i
		s.cap -= i
		return mkRV(r.ti, Val{r: &s}, 0)
	})
	m("Convert", func(x *Exec, st *State, r rv, a []Val) Val {
		to := a[0].r.(*RT).ti
		v := x.rvGet(st, r)
		if r.ti.under == to.under || types.Identical(r.ti.under, to.under) {
			return mkRV(to, v, 0)
		}
		return mkRV(to, x.convert(st, v, r.ti, to), 0)
	})
	m("MapKeys", func(x *Exec, st *State, r rv, a []Val) Val {
		v := x.rvGet(st, r)
		kt := r.ti.Key()
		vt := T(findType("reflect", "Value"))
		var ks []Val
		if v.r != nil {
			mo := st.h.get(uint32(v.n >> 32)).m
			for i := range mo.keys {
				if !mo.del[i] {
					ks = append(ks, mo.keys[i])
				}
			}
		}
		s := x.newSlice(st, vt, len(ks), len(ks))
		for i, k := range ks {
			st.h.storeN(s.r.(*SliceV).obj, i*3, mkRV(kt, k, 0).r.(*Agg).v)
		}
		return s
	})
	m("MapIndex", func(x *Exec, st *State, r rv, a []Val) Val {
		v := x.rvGet(st, r)
		if v.r == nil {
			return agg(Val{}, Val{}, Val{})
		}
		k := x.rvGet(st, unRV(a[0]))
		mo := st.h.get(uint32(v.n >> 32)).m
		i := x.mapFind(st, mo, k, r.ti.Key())
		if i < 0 {
			return agg(Val{}, Val{}, Val{})
		}
		return mkRV(r.ti.Elem(), mo.vals[i], 0)
	})
	reg("reflect.New", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		ti := a[0].r.(*RT).ti
		id := x.allocObj(st, ti.slots, ti, ti.goSize())
		return mkRV(T(types.NewPointer(ti.typ)), mkPtr(id, 0), 0), true
	})
	reg("reflect.Zero", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		ti := a[0].r.(*RT).ti
		return mkRV(ti, zeroVal(ti), 0), true
	})
	reg("reflect.MakeSlice", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		ti := a[0].r.(*RT).ti
		e := ti.Elem()
		es := e.goSize()
		if es == 0 {
			es = 1
		}
		max := int(x.allocCap / es)
		c, ok := x.sizeArg(st, a[2], tInt(), max)
		if !ok {
			x.hugeAlloc(st, a[2], tInt(), es, max)
		}
		n, ok := x.sizeArg(st, a[1], tInt(), c)
		if !ok {
			panic(goPanic{msg: "reflect.MakeSlice: len > cap"})
		}
		return mkRV(ti, x.newSlice(st, e, n, c), 0), true
	})
	reg("reflect.Append", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		s := unRV(a[0])
		v := x.rvGet(st, s)
		vt := 3
		if a[1].r == nil {
			return mkRV(s.ti, v, 0), true
		}
		xs := a[1].r.(*SliceV)
		e := s.ti.Elem()
		tmp := x.newSliceNoAcct(st, e, xs.len)
		for i := 0; i < xs.len; i++ {
			r := unRV(agg(st.h.loadN(xs.obj, xs.off+i*vt, 3)...))
			ev := x.rvGet(st, r)
			if e.kind == KIface && r.ti.kind != KIface {
				ev = Val{r: &IfaceV{r.ti, ev}}
			}
			x.storeAt(st, mkPtr(tmp.obj, i*e.slots), ev, e)
		}
		return mkRV(s.ti, x.appendOp(st, v, Val{r: tmp}, s.ti, s.ti), 0), true
	})
	reg("reflect.AppendSlice", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		s, t := unRV(a[0]), unRV(a[1])
		return mkRV(s.ti, x.appendOp(st, x.rvGet(st, s), x.rvGet(st, t), s.ti, t.ti), 0), true
	})
	reg("reflect.PtrTo reflect.PointerTo", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return rtOf(T(types.NewPointer(a[0].r.(*RT).ti.typ))), true
	})
	reg("reflect.SliceOf", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return rtOf(T(types.NewSlice(a[0].r.(*RT).ti.typ))), true
	})
	reg("reflect.DeepEqual", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		d := &deepEq{x: x, st: st}
		return tval(d.iface(a[0], a[1])), true
	})
	reg("(reflect.Kind).String", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return mkStr(reflect.Kind(a[0].n).String()), true
	})
	reg("(reflect.StructTag).Lookup", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		v, ok := reflect.StructTag(x.concStrArg(a[0], "StructTag")).Lookup(x.concStrArg(a[1], "StructTag"))
		return agg(mkStr(v), mkBool(ok)), true
	})
	reg("(reflect.StructTag).Get", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		return mkStr(reflect.StructTag(x.concStrArg(a[0], "StructTag")).Get(x.concStrArg(a[1], "StructTag"))), true
	})
	reg("internal/reflectlite.Swapper reflect.Swapper", func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
		iv := a[0].r.(*IfaceV)
		return Val{r: &FuncV{native: "swap", nargs: []Val{iv.v, rtOf(iv.ti.Elem())}}}, true
	})

	// reflect.Type methods
	t := func(name string, f func(x *Exec, st *State, ti *TI, a []Val) Val) {
		intrinsics["rtype."+name] = func(x *Exec, st *State, in *Instr, a []Val) (Val, bool) {
			return f(x, st, a[0].r.(*RT).ti, a[1:]), true
		}
	}
	t("Kind", func(x *Exec, st *State, ti *TI, a []Val) Val { return mkInt(uint64(kindOf(ti))) })
	t("Elem", func(x *Exec, st *State, ti *TI, a []Val) Val {
		switch ti.kind {
		case KPtr, KSlice, KArray, KMap, KChan:
			return rtOf(ti.Elem())
		}
		panic(goPanic{msg: "reflect: Elem of invalid type " + ti.String()})
	})
	t("Key", func(x *Exec, st *State, ti *TI, a []Val) Val { return rtOf(ti.Key()) })
	t("Size", func(x *Exec, st *State, ti *TI, a []Val) Val { return mkInt(uint64(ti.goSize())) })
	t("Bits", func(x *Exec, st *State, ti *TI, a []Val) Val { return mkInt(uint64(ti.w)) })
	t("Len", func(x *Exec, st *State, ti *TI, a []Val) Val { return mkInt(uint64(ti.alen)) })
	t("NumField", func(x *Exec, st *State, ti *TI, a []Val) Val { return mkInt(uint64(len(ti.fields))) })
	t("NumMethod", func(x *Exec, st *State, ti *TI, a []Val) Val {
		return mkInt(uint64(types.NewMethodSet(ti.typ).Len()))
	})
	t("Field", func(x *Exec, st *State, ti *TI, a []Val) Val {
		return structFieldVal(x, st, ti, int(x.concretize(st, a[0])))
	})
	t("FieldByName", func(x *Exec, st *State, ti *TI, a []Val) Val {
		name := x.concStrArg(a[0], "FieldByName")
		for i, f := range ti.fields {
			if f.name == name {
				sf := structFieldVal(x, st, ti, i)
				return agg(sf, mkBool(true))
			}
		}
		return agg(zeroVal(T(findType("reflect", "StructField"))), mkBool(false))
	})
	t("Name", func(x *Exec, st *State, ti *TI, a []Val) Val {
		if n, ok := ti.typ.(*types.Named); ok {
			return mkStr(n.Obj().Name())
		}
		if b, ok := ti.typ.(*types.Basic); ok {
			return mkStr(b.Name())
		}
		return Val{}
	})
	t("PkgPath", func(x *Exec, st *State, ti *TI, a []Val) Val {
		if n, ok := ti.typ.(*types.Named); ok && n.Obj().Pkg() != nil {
			return mkStr(n.Obj().Pkg().Path())
		}
		return Val{}
	})
	t("String", func(x *Exec, st *State, ti *TI, a []Val) Val { return mkStr(ti.String()) })
	t("Comparable", func(x *Exec, st *State, ti *TI, a []Val) Val { return mkBool(types.Comparable(ti.typ)) })
	t("Implements", func(x *Exec, st *State, ti *TI, a []Val) Val {
		return mkBool(ti.implements(a[0].r.(*RT).ti.under.(*types.Interface)))
	})
	t("AssignableTo", func(x *Exec, st *State, ti *TI, a []Val) Val {
		return mkBool(types.AssignableTo(ti.typ, a[0].r.(*RT).ti.typ))
	})
	t("ConvertibleTo", func(x *Exec, st *State, ti *TI, a []Val) Val {
		return mkBool(types.ConvertibleTo(ti.typ, a[0].r.(*RT).ti.typ))
	})
}

func (x *Exec) newSliceNoAcct(st *State, e *TI, n int) *SliceV {
	obj := st.h.alloc(n*e.slots, e)
	return &SliceV{obj, 0, n, n}
}

var fpMu sync.Mutex
var fpCache = map[*TI]map[string][]int{}

func fieldPath(ti *TI, name string) []int {
	fpMu.Lock()
	defer fpMu.Unlock()
	m := fpCache[ti]
	if m == nil {
		m = map[string][]int{}
		fpCache[ti] = m
	}
	if p, ok := m[name]; ok {
		return p
	}
	var pkg *types.Package
	for _, f := range ti.fields {
		if f.v.Pkg() != nil {
			pkg = f.v.Pkg()
		}
	}
	obj, idx, _ := types.LookupFieldOrMethod(ti.typ, true, pkg, name)
	if _, ok := obj.(*types.Var); !ok {
		idx = nil
	}
	m[name] = idx
	return idx
}

var _ = sort.Ints
