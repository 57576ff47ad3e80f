package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is one slot: a concrete scalar (n), a symbolic scalar (t) or a reference (r).
type Val struct {
	n uint64
	t *Term
	r interface{}
}

type mark struct{ name string }

var ptrMark = &mark{"ptr"}
var mapMark = &mark{"map"}

type SliceV struct {
	obj           uint32
	off, len, cap int
}
type StrV struct {
	s string
	b []Val // symbolic bytes (when non-nil, s is unused)
}
type IfaceV struct {
	ti *TI
	v  Val
}
type Agg struct{ v []Val }
type FuncV struct {
	fn     *ssa.Function
	free   []Val
	native string // builtin closure kinds
	nargs  []Val
}
type SymPtrV struct {
	obj    uint32
	base   int
	idx    *Term
	stride int
	count  int
	extra  int
}
type RT struct{ ti *TI } // reflect type descriptor

func mkPtr(obj uint32, off int) Val { return Val{n: uint64(obj)<<32 | uint64(uint32(off)), r: ptrMark} }
func (v Val) ptr() (uint32, int)    { return uint32(v.n >> 32), int(uint32(v.n)) }
func mkInt(n uint64) Val            { return Val{n: n} }
func mkBool(b bool) Val             { return Val{n: b2u(b)} }
func mkStr(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{r: &StrV{s: s}}
}
func (v Val) strLen() int {
	if v.r == nil {
		return 0
	}
	x := v.r.(*StrV)
	if x.b != nil {
		return len(x.b)
	}
	return len(x.s)
}
func (v Val) strByte(i int) Val {
	x := v.r.(*StrV)
	if x.b != nil {
		return x.b[i]
	}
	return Val{n: uint64(x.s[i])}
}
func mkStrBytes(b []Val) Val {
	if len(b) == 0 {
		return Val{}
	}
	conc := true
	for i := range b {
		if b[i].t != nil {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i := range b {
			bs[i] = byte(b[i].n)
		}
		return mkStr(string(bs))
	}
	return Val{r: &StrV{b: b}}
}

// concStr returns the concrete string.
func (v Val) concStr() (string, bool) {
	if v.r == nil {
		return "", true
	}
	x := v.r.(*StrV)
	if x.b == nil {
		return x.s, true
	}
	return "", false
}
func (v Val) strBytes() []Val {
	if v.r == nil {
		return nil
	}
	x := v.r.(*StrV)
	if x.b != nil {
		return x.b
	}
	b := make([]Val, len(x.s))
	for i := range b {
		b[i].n = uint64(x.s[i])
	}
	return b
}
func (v Val) substr(lo, hi int) Val {
	if lo == hi {
		return Val{}
	}
	x := v.r.(*StrV)
	if x.b != nil {
		return mkStrBytes(x.b[lo:hi])
	}
	return mkStr(x.s[lo:hi])
}

type tok struct{ _ byte }

const pageN = 16

type page struct {
	tk *tok
	v  [pageN]Val
}

type Obj struct {
	tk     *tok
	n      int
	pages  []*page
	m      *MapObj
	ti     *TI // element/declared type (for display and structural comparison)
	frozen bool
	tag    string
	nat    interface{} // native payload (virtual files, ...); treated as immutable, replaced on write
}

type mapEntry struct {
	k Val
	v Val
}
type MapObj struct {
	keys  []Val
	vals  []Val
	index map[string]int // concrete key -> position
	del   []bool
	nlive int
}

const leafN = 64

type leaf struct {
	tk *tok
	o  [leafN]*Obj
}
type mid struct {
	tk *tok
	l  [64]*leaf
}

// Heap is a persistent (copy on write) id -> object table.
type Heap struct {
	tk   *tok // current owner token
	root []*mid
	rtk  *tok
	next uint32
}

func (h *Heap) get(id uint32) *Obj {
	return h.root[id>>12].l[(id>>6)&63].o[id&63]
}

func (h *Heap) leafW(id uint32) *leaf {
	if h.rtk != h.tk {
		h.root = append([]*mid(nil), h.root...)
		h.rtk = h.tk
	}
	for int(id>>12) >= len(h.root) {
		h.root = append(h.root, nil)
	}
	m := h.root[id>>12]
	if m == nil {
		m = &mid{tk: h.tk}
		h.root[id>>12] = m
	} else if m.tk != h.tk {
		c := *m
		c.tk = h.tk
		m = &c
		h.root[id>>12] = m
	}
	l := m.l[(id>>6)&63]
	if l == nil {
		l = &leaf{tk: h.tk}
		m.l[(id>>6)&63] = l
	} else if l.tk != h.tk {
		c := *l
		c.tk = h.tk
		l = &c
		m.l[(id>>6)&63] = l
	}
	return l
}

func (h *Heap) objW(id uint32) *Obj {
	l := h.leafW(id)
	o := l.o[id&63]
	if o.tk != h.tk {
		c := *o
		c.tk = h.tk
		c.pages = append([]*page(nil), o.pages...)
		o = &c
		l.o[id&63] = o
	}
	return o
}

func (h *Heap) alloc(n int, ti *TI) uint32 {
	if h.next == 0 {
		h.next = 1
	}
	id := h.next
	h.next++
	o := &Obj{tk: h.tk, n: n, ti: ti}
	if n > 0 {
		o.pages = make([]*page, (n+pageN-1)/pageN)
	}
	h.leafW(id).o[id&63] = o
	return id
}

func (o *Obj) load(i int) Val {
	p := o.pages[i/pageN]
	if p == nil {
		return Val{}
	}
	return p.v[i%pageN]
}

func (h *Heap) load(id uint32, i int) Val {
	o := h.get(id)
	p := o.pages[i/pageN]
	if p == nil {
		return Val{}
	}
	return p.v[i%pageN]
}

func (h *Heap) store(id uint32, i int, v Val) {
	o := h.objW(id)
	p := o.pages[i/pageN]
	if p == nil {
		if v == (Val{}) {
			return
		}
		p = &page{tk: h.tk}
		o.pages[i/pageN] = p
	} else if p.tk != h.tk {
		c := *p
		c.tk = h.tk
		p = &c
		o.pages[i/pageN] = p
	}
	p.v[i%pageN] = v
}

func (h *Heap) loadN(id uint32, off, n int) []Val {
	r := make([]Val, n)
	o := h.get(id)
	for i := 0; i < n; {
		p := o.pages[(off+i)/pageN]
		k := (off + i) % pageN
		m := pageN - k
		if m > n-i {
			m = n - i
		}
		if p != nil {
			copy(r[i:i+m], p.v[k:k+m])
		}
		i += m
	}
	return r
}

func (h *Heap) storeN(id uint32, off int, vs []Val) {
	for i := range vs {
		h.store(id, off+i, vs[i])
	}
}

// fork makes both h and the result copy-on-write against the shared structure.
func (h *Heap) fork() *Heap {
	h.tk = &tok{}
	c := *h
	c.tk = &tok{}
	return &c
}

func (h *Heap) newBytes(b []byte) uint32 {
	id := h.alloc(len(b), tiByte)
	for i, x := range b {
		if x != 0 {
			h.store(id, i, Val{n: uint64(x)})
		}
	}
	return id
}

var tiByte *TI

// ---- map keys

func keyString(v Val) (string, bool) {
	var b strings.Builder
	ok := keyStr(&b, v)
	return b.String(), ok
}

func keyStr(b *strings.Builder, v Val) bool {
	if v.t != nil {
		return false
	}
	switch r := v.r.(type) {
	case nil:
		fmt.Fprintf(b, "#%x;", v.n)
	case *mark:
		fmt.Fprintf(b, "p%x;", v.n)
	case *StrV:
		if r.b != nil {
			return false
		}
		if r.s == "" {
			fmt.Fprintf(b, "#0;")
		} else {
			fmt.Fprintf(b, "s%q;", r.s)
		}
	case *IfaceV:
		fmt.Fprintf(b, "i%p:", r.ti)
		return keyStr(b, r.v)
	case *Agg:
		for _, x := range r.v {
			if !keyStr(b, x) {
				return false
			}
		}
	case *RT:
		fmt.Fprintf(b, "t%p;", r.ti)
	case *FuncV:
		fmt.Fprintf(b, "f%p;", r.fn)
	default:
		fmt.Fprintf(b, "?%T%p;", r, r)
	}
	return true
}

func (h *Heap) newMap() Val {
	id := h.alloc(0, nil)
	h.objW(id).m = &MapObj{index: map[string]int{}}
	return Val{n: uint64(id) << 32, r: mapMark}
}

func (m *MapObj) clone() *MapObj {
	c := &MapObj{keys: append([]Val(nil), m.keys...), vals: append([]Val(nil), m.vals...), del: append([]bool(nil), m.del...), index: make(map[string]int, len(m.index)), nlive: m.nlive}
	for k, v := range m.index {
		c.index[k] = v
	}
	return c
}
