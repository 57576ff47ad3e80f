package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KString
	KPtr
	KUnsafe
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KTuple
	KOther
)

type FieldInfo struct {
	name     string
	off      int
	ti       *TI
	embedded bool
	tag      string
	exported bool
	v        *types.Var
}

type TI struct {
	typ     types.Type
	under   types.Type
	kind    Kind
	w       uint8 // scalar width
	sgn     bool
	slots   int
	elem    *TI
	key     *TI
	fields  []FieldInfo
	alen    int
	bk      types.BasicKind
	str     string
	msetMu  sync.Mutex
	methods map[string]*ssa.Function
	mset    *types.MethodSet
}

type TypeTable struct {
	mu   sync.Mutex
	byT  sync.Map // types.Type -> *TI
	tm   typeutil.Map
	prog *ssa.Program
}

var TT = &TypeTable{}

func T(t types.Type) *TI {
	if ti, ok := TT.byT.Load(t); ok {
		return ti.(*TI)
	}
	TT.mu.Lock()
	defer TT.mu.Unlock()
	return TT.get(t)
}

func (tt *TypeTable) get(t types.Type) *TI {
	if ti, ok := tt.byT.Load(t); ok {
		return ti.(*TI)
	}
	key := types.Unalias(t)
	if x := tt.tm.At(key); x != nil {
		ti := x.(*TI)
		tt.byT.Store(t, ti)
		return ti
	}
	ti := &TI{typ: key, under: key.Underlying()}
	// named recursive types: pointer/slice elements are computed lazily via T()
	tt.fill(ti)
	tt.tm.Set(key, ti)
	tt.byT.Store(t, ti)
	return ti
}

func (tt *TypeTable) fill(ti *TI) {
	switch u := ti.under.(type) {
	case *types.Basic:
		ti.slots = 1
		ti.bk = u.Kind()
		ti.kind = KInt
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind, ti.w = KBool, 0
		case types.Int, types.Int64, types.UntypedInt:
			ti.w, ti.sgn = 64, true
		case types.Int8:
			ti.w, ti.sgn = 8, true
		case types.Int16:
			ti.w, ti.sgn = 16, true
		case types.Int32, types.UntypedRune:
			ti.w, ti.sgn = 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.w = 64
		case types.Uint8:
			ti.w = 8
		case types.Uint16:
			ti.w = 16
		case types.Uint32:
			ti.w = 32
		case types.Float32:
			ti.kind, ti.w = KFloat, 32
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.w = KFloat, 64
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer:
			ti.kind = KUnsafe
		default:
			ti.kind = KOther
		}
	case *types.Pointer:
		ti.kind, ti.slots = KPtr, 1
	case *types.Slice:
		ti.kind, ti.slots = KSlice, 1
	case *types.Map:
		ti.kind, ti.slots = KMap, 1
	case *types.Chan:
		ti.kind, ti.slots = KChan, 1
	case *types.Signature:
		ti.kind, ti.slots = KFunc, 1
	case *types.Interface:
		ti.kind, ti.slots = KIface, 1
	case *types.Struct:
		ti.kind = KStruct
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			ft := tt.get(f.Type())
			ti.fields = append(ti.fields, FieldInfo{f.Name(), off, ft, f.Embedded(), u.Tag(i), f.Exported(), f})
			off += ft.slots
		}
		ti.slots = off
	case *types.Array:
		ti.kind = KArray
		ti.elem = tt.get(u.Elem())
		ti.alen = int(u.Len())
		ti.slots = ti.elem.slots * ti.alen
	case *types.Tuple:
		ti.kind = KTuple
		ti.slots = u.Len()
	default:
		ti.kind = KOther
		ti.slots = 1
	}
}

// Elem returns element type info of pointer, slice, array, map (value), chan.
func (ti *TI) Elem() *TI {
	if ti.elem != nil {
		return ti.elem
	}
	switch u := ti.under.(type) {
	case *types.Pointer:
		return T(u.Elem())
	case *types.Slice:
		return T(u.Elem())
	case *types.Map:
		return T(u.Elem())
	case *types.Chan:
		return T(u.Elem())
	case *types.Array:
		return T(u.Elem())
	}
	panic("Elem of " + ti.String())
}

func (ti *TI) Key() *TI { return T(ti.under.(*types.Map).Key()) }

func (ti *TI) String() string {
	return types.TypeString(ti.typ, func(p *types.Package) string { return p.Name() })
}

func (ti *TI) isAgg() bool { return ti.kind == KStruct || ti.kind == KArray }

// goSize returns the gc size in bytes (amd64).
var stdSizes = types.SizesFor("gc", "amd64")

func (ti *TI) goSize() int64 { return stdSizes.Sizeof(ti.typ) }

// method finds the concrete implementation of a method by name.
func (ti *TI) method(pkg *types.Package, name string) *ssa.Function {
	key := name
	if pkg != nil && !token_IsExported(name) {
		key = pkg.Path() + "." + name
	}
	ti.msetMu.Lock()
	defer ti.msetMu.Unlock()
	if f, ok := ti.methods[key]; ok {
		return f
	}
	if ti.methods == nil {
		ti.methods = map[string]*ssa.Function{}
		ti.mset = types.NewMethodSet(ti.typ)
	}
	sel := ti.mset.Lookup(pkg, name)
	var f *ssa.Function
	if sel != nil {
		ssaMu.Lock()
		f = TT.prog.MethodValue(sel)
		ssaMu.Unlock()
	}
	ti.methods[key] = f
	return f
}

var ssaMu sync.Mutex

func token_IsExported(name string) bool {
	return len(name) > 0 && name[0] >= 'A' && name[0] <= 'Z'
}

func (ti *TI) implements(iface *types.Interface) bool {
	return types.Implements(ti.typ, iface)
}

var _ = fmt.Sprint
