package HARNESS

//use types
//use spec
//use show

import (
	"bytes"
	"errors"
	"io"
	"strconv"

	"github.com/abema/go-mp4/internal/bitio"
)

func vInst_C24(tier string) []string {
	n := "2"
	if tier == "thorough" {
		n = "3"
	}
	var out []string
	for v := 0; v < 3; v++ {
		for g := range hC24Groups {
			for _, rest := range []string{"0", "1"} {
				out = append(out, "hC24Opts ver="+hItoa(v)+" g="+hItoa(g)+" rest="+rest)
			}
		}
	}
	for _, w := range []string{"8", "12", "24", "32", "52", "64"} {
		out = append(out, "hC24Lists bits="+w+" max="+n)
	}
	return append(out, "hC24Widths", "hC24Wide", "hC24Plain", "hC24Tail max="+n, "hC24Texts max="+n, "hC24Pascal max=12",
		"hC24Varint", "hC24Calls max="+n, "hC24Before max="+n, "hC24CallErr @cover=fault", "hC24Nested max="+n, "hC24Exact",
		"hC24Any", "hC24Where", "hC24Short", "hC24More", "hC24Odd", "hC24Vers", "hC24Cut max="+n)
}

func vDoc_C24() []string {
	return []string{
		"bound: fifteen user-defined types that together use every field tag and callback, in all their supported versions, with all flag words and all field values in range; lists and texts of up to 2 (3) elements; every value of absent fields, which must not matter",
		"bound: encoded bytes, decoded values and printed text (with and without indentation) against a hand-written layout; incomplete payloads, short lists, odd sizes and unsupported versions",
		"bound: in the type with sixteen optional fields up to four conditions at a time are arbitrary, the others all met or all unmet",
		"outside: values that do not fit the width of their field; variable-length integers of 2^28 or more; tags that contradict each other",
	}
}

func init() {
	AddBoxDef((*hUWidths)(nil), 0, 1, 2)
	AddBoxDef((*hUWide)(nil))
	AddBoxDef((*hUOpts)(nil), 0, 1, 2)
	AddBoxDef((*hUPlain)(nil))
	AddBoxDef((*hULists)(nil))
	AddBoxDef((*hUTail)(nil))
	AddBoxDef((*hUTexts)(nil), 0)
	AddBoxDef((*hUPascal)(nil))
	AddBoxDef((*hUCalls)(nil))
	AddBoxDef((*hUBefore)(nil))
	AddBoxDef((*hUNested)(nil), 0)
	AddBoxDef((*hUOdd)(nil))
	AddBoxDefEx((*hUHere)(nil), func(c Context) bool { return c.UnderWave }, 0)
	AddBoxDefEx((*hUThere)(nil), func(c Context) bool { return !c.UnderWave && c.UnderIlst })
	AddAnyTypeBoxDef((*hUAny)(nil), StrToBoxType("zza1"), 1)
	AddAnyTypeBoxDefEx((*hUAny)(nil), StrToBoxType("zza2"), func(c Context) bool { return c.UnderUdta }, 0, 1)
	for k, v := range map[string]string{
		"hUWidths": "FullBox:+ A:x B:d C:d D:x E:b F:b G:x H:d I:d J:b K:d L:d M:x N:d O:d P:x Q:x R:d",
		"hUWide":   "A:b B:b C:b D:b",
		"hUOpts":   "FullBox:+ Mode:x A:x&1 B:d^2 C:x&4 D:x=1 E:x!1 F:d=0&800 G:x&30 H:ld!0^40 I:s&80 J:lx&100 K:{&400 L:x? M:{? N:x=1? O:x&1^2",
		"hUIn":     "X:x Y:x&200",
		"hUPlain":  "A:x D:x",
		"hULists":  "Bits:x Count:x A:ld B:ld C:lx D:x E:l{ F:x G:lx H:x I:lb J:ld",
		"hUPair":   "X:x Y:d",
		"hUTail":   "Kind:x A:l{? B:lx? C:ld? D:lx?",
		"hUTexts":  "FullBox:+ A:s B:s C:i D:u G:s H:d I:x Z:s",
		"hUPascal": "A:s",
		"hUNested": "FullBox:+ A:{ B:{ C:l{ HUEmb:+ E:l{ F:{? G:lx",
		"hUSub":    "N:x L:lx O:d?",
		"HUEmb":    "P:d Q:x",
		"hUFix":    "S:x T:lx",
		"hUAny":    "V:d",
		"hUHere":   "FullBox:+ V:d",
		"hUThere":  "V:x W:x",
	} {
		hShown[k] = v
	}
	hShowUser = func(parent interface{}, name string) (bool, bool) {
		switch b := parent.(type) {
		case *hUOpts:
			return b.IsOptFieldEnabled(name, Context{}), true
		case *hUTail:
			return b.IsOptFieldEnabled(name, Context{}), true
		case *hUSub:
			return b.N > 1, true
		case *hUNested:
			return b.F != nil, true
		}
		return false, false
	}
}

// hC24Check: full may have anything in fields that are absent, want has zero there.
func hC24Check(full, want IBox, s *hs, ctx Context) {
	vAssert(s.n == 0, "the layout is complete")
	buf := &bytes.Buffer{}
	n, err := Marshal(buf, full, ctx)
	vAssert(err == nil, "the box can be encoded")
	vAssert(n == uint64(buf.Len()), "the reported length is the number of bytes written")
	vAssert(vBytesEq(buf.Bytes(), s.out), "the fields are encoded as their tags say")
	vCover("encoded")
	got, n, err := UnmarshalAny(bytes.NewReader(s.out), want.GetType(), uint64(len(s.out)), ctx)
	vAssert(err == nil, "the box can be decoded")
	vAssert(n == uint64(len(s.out)), "decoding consumes the encoded bytes")
	vAssert(vEqual(got, want), "the fields are decoded as their tags say, absent fields are zero")
	vAssert(got.GetType() == want.GetType(), "the decoded box has the type")
	hC24Print(full, ctx)
}

func hC24Print(box IBox, ctx Context) {
	s := &hShower{box: box, ctx: ctx}
	s.structure(hElem(box))
	text, err := Stringify(box, ctx)
	vAssert(err == nil, "the box can be printed")
	vAssert(vStrEq(text, string(s.out)), "the fields are printed as their tags say")
	s = &hShower{box: box, ctx: ctx, lines: true, indent: "--"}
	s.structure(hElem(box))
	text, err = StringifyWithIndent(box, "--", ctx)
	vAssert(err == nil, "the box can be printed with indentation")
	vAssert(vStrEq(text, string(s.out)), "with indentation every field is on a line of its own, indented by its depth")
}

// ---- widths and order

type hUWidths struct {
	FullBox `mp4:"0,extend"`
	D       int16  `mp4:"4,size=12,hex"`
	A       uint8  `mp4:"1,size=3"`
	C       uint16 `mp4:"3, size=12"`
	B       int8   `mp4:"2,size=5"`
	Note    string
	E       bool    `mp4:"5,size=1"`
	F       bool    `mp4:"6,size=7"`
	R       int8    `mp4:"18,size=1"`
	G       uint32  `mp4:"7,size=24,hex"`
	H       int64   `mp4:"8,size=40"`
	I       uint64  `mp4:"9,size=63"`
	J       bool    `mp4:"10,size=1"`
	K       int32   `mp4:"11,size=31"`
	L       uint8   `mp4:"12,size=1,dec"`
	M       int64   `mp4:"13,size=64,hex"`
	N       uint    `mp4:"14,size=32"`
	O       int     `mp4:"15,size=9"`
	P       uintptr `mp4:"16,size=7"`
	Q       uint8   `mp4:"17,size=7"`
}

func (*hUWidths) GetType() BoxType { return StrToBoxType("zzwa") }

func hC24Widths() {
	s := &hs{}
	b := &hUWidths{}
	s.full(&b.FullBox, 0, 1, 2)
	b.A = uint8(s.u(3))
	b.B = int8(s.i(5))
	b.C = uint16(s.u(12))
	b.D = int16(s.i(12))
	b.E = s.b()
	b.F = vBool("F")
	s.put(vIte64(b.F, 0x7f), 7)
	b.G = s.u24()
	b.H = s.i(40)
	b.I = s.u(63)
	b.J = s.b()
	b.K = int32(s.i(31))
	b.L = uint8(s.u(1))
	b.M = s.i64()
	b.N = uint(s.u32())
	b.O = int(s.i(9))
	b.P = uintptr(s.u(7))
	b.Q = uint8(s.u(7))
	b.R = int8(s.i(1))
	want := vClone(b).(*hUWidths)
	b.Note = "not part of the box"
	hC24Check(b, want, s, Context{})
}

func vIte64(c bool, v uint64) uint64 {
	if c {
		return v
	}
	return 0
}

// flags of more than eight bits
type hUWide struct {
	Box
	A bool `mp4:"0,size=16"`
	B bool `mp4:"1,size=8"`
	C bool `mp4:"2,size=11"`
	D bool `mp4:"3,size=5"`
}

func (*hUWide) GetType() BoxType { return StrToBoxType("zzwb") }

func hC24Wide() {
	s := &hs{}
	b := &hUWide{A: vBool("A"), B: vBool("B"), C: vBool("C"), D: vBool("D")}
	s.put(vIte64(b.A, 0xffff), 16)
	s.put(vIte64(b.B, 0xff), 8)
	s.put(vIte64(b.C, 0x7ff), 11)
	s.put(vIte64(b.D, 0x1f), 5)
	hC24Check(b, vClone(b).(*hUWide), s, Context{})
	p := vBytes("p", 5)
	got, n, err := UnmarshalAny(bytes.NewReader(p), b.GetType(), 5, Context{})
	vAssert(err == nil && n == 5, "any value is accepted")
	g := got.(*hUWide)
	vAssert(g.A == (p[0]|p[1] != 0) && g.B == (p[2] != 0) && g.C == (p[3]|p[4]>>5 != 0) && g.D == (p[4]&31 != 0), "a flag is set when any of its bits is")
}

// ---- optional fields

type hUIn struct {
	X uint8 `mp4:"0,size=8"`
	Y uint8 `mp4:"1,size=8,opt=0x200"`
}

type hUOpts struct {
	FullBox `mp4:"0,extend"`
	Mode    uint8     `mp4:"1,size=8"`
	A       uint8     `mp4:"2,size=8,opt=0x000001"`
	B       uint16    `mp4:"3,size=16,nopt=0x000002"`
	C       uint8     `mp4:"4,size=8,opt=4"`
	D       uint8     `mp4:"5,size=8,ver=1"`
	E       uint8     `mp4:"6,size=8,nver=1"`
	F       uint16    `mp4:"7,size=16,opt=0x000800,ver=0"`
	G       uint8     `mp4:"8,size=8,opt=0x30"`
	H       [2]uint16 `mp4:"9,size=16,nopt=64,nver=0"`
	I       string    `mp4:"10,string,opt=0x80"`
	J       []byte    `mp4:"11,size=8,len=2,opt=0x100"`
	K       hUIn      `mp4:"12,opt=0x400"`
	L       uint8     `mp4:"13,size=8,opt=dynamic"`
	M       *hUIn     `mp4:"14,opt=dynamic"`
	N       uint8     `mp4:"15,size=8,opt=dynamic,ver=1"`
	O       uint8     `mp4:"16,size=8,opt=0x1,nopt=0x2"`
}

func (*hUOpts) GetType() BoxType { return StrToBoxType("zzwc") }

func (b *hUOpts) IsOptFieldEnabled(name string, ctx Context) bool {
	switch name {
	case "L":
		return b.Mode&1 != 0
	case "M":
		return b.Mode&2 != 0
	case "N":
		return b.Mode&4 != 0
	}
	panic("unexpected field " + name)
}

// flags in the low 24 bits, mode in the next 3; one group at a time is arbitrary, the others are all clear or all set
var hC24Groups = []uint32{0x07, 0x0000f0, 0x000f00, 0x7000000, 0x0000201, 0x1000440, 0x2000200}

func hC24Opts() {
	s := &hs{}
	b := &hUOpts{}
	v := uint8(vParamInt("ver"))
	b.Version = v
	s.c(uint64(v), 8)
	g, all := hC24Groups[vParamInt("g")], uint32(0x7000ff7)
	copy(b.Flags[:], s.bytes(3))
	b.Mode = s.u8()
	val := uint32(b.Mode)<<24 | uint32(b.Flags[0])<<16 | uint32(b.Flags[1])<<8 | uint32(b.Flags[2])
	if vParam("rest") == "0" {
		vAssume(val&all&^g == 0)
	} else {
		vAssume(^val&all&^g == 0)
	}
	b.A, b.B, b.C, b.D = vU8("A"), vU16("B"), vU8("C"), vU8("D")
	b.E, b.F, b.G, b.H = vU8("E"), vU16("F"), vU8("G"), [2]uint16{vU16("H0"), vU16("H1")}
	b.I, b.J = "t", vBytes("J", 2)
	b.K = hUIn{vU8("KX"), vU8("KY")}
	b.L, b.N, b.O = vU8("L"), vU8("N"), vU8("O")
	b.M = &hUIn{vU8("MX"), vU8("MY")}
	w := &hUOpts{FullBox: b.FullBox, Mode: b.Mode}
	has := func(f uint32) bool { return s.flag(&b.FullBox, f) }
	if has(1) {
		w.A = uint8(s.c(uint64(b.A), 8))
	}
	if !has(2) {
		w.B = uint16(s.c(uint64(b.B), 16))
	}
	if has(4) {
		w.C = uint8(s.c(uint64(b.C), 8))
	}
	if v == 1 {
		w.D = uint8(s.c(uint64(b.D), 8))
	} else {
		w.E = uint8(s.c(uint64(b.E), 8))
	}
	if v == 0 && has(0x800) {
		w.F = uint16(s.c(uint64(b.F), 16))
	}
	if has(0x10) || has(0x20) {
		w.G = uint8(s.c(uint64(b.G), 8))
	}
	if v != 0 && !has(0x40) {
		w.H[0] = uint16(s.c(uint64(b.H[0]), 16))
		w.H[1] = uint16(s.c(uint64(b.H[1]), 16))
	}
	if has(0x80) {
		w.I = b.I
		s.c('t', 8)
		s.c(0, 8)
	}
	if has(0x100) {
		w.J = b.J
		s.out = append(s.out, b.J...)
	}
	in := func(i hUIn) (r hUIn) {
		r.X = uint8(s.c(uint64(i.X), 8))
		if has(0x200) {
			r.Y = uint8(s.c(uint64(i.Y), 8))
		}
		return
	}
	if has(0x400) {
		w.K = in(b.K)
	}
	if b.Mode&1 != 0 {
		w.L = uint8(s.c(uint64(b.L), 8))
	}
	if b.Mode&2 != 0 {
		m := in(*b.M)
		w.M = &m
	} else if vBool("M.nil") {
		b.M = nil
	}
	if b.Mode&4 != 0 && v == 1 {
		w.N = uint8(s.c(uint64(b.N), 8))
	}
	if has(1) && !has(2) {
		w.O = uint8(s.c(uint64(b.O), 8))
	}
	hC24Check(b, w, s, Context{})
}

// a box without version and flags has version 0 and no flags
type hUPlain struct {
	Box
	A uint8 `mp4:"0,size=8,ver=0"`
	B uint8 `mp4:"1,size=8,ver=1"`
	C uint8 `mp4:"2,size=8,opt=0x1"`
	D uint8 `mp4:"3,size=8,nopt=0x1"`
	E uint8 `mp4:"4,size=8,nver=0"`
	F uint8 `mp4:"5,size=8,opt=dynamic"` // without a callback
}

func (*hUPlain) GetType() BoxType { return StrToBoxType("zzwd") }

func hC24Plain() {
	s := &hs{}
	w := &hUPlain{A: s.u8(), D: s.u8()}
	b := &hUPlain{w.Box, w.A, vU8("B"), vU8("C"), w.D, vU8("E"), vU8("F")}
	hC24Check(b, w, s, Context{})
}

// ---- lists

type hUPair struct {
	Y int16 `mp4:"1,size=16"`
	X uint8 `mp4:"0,size=8"`
}

type hULists struct {
	Box
	Bits  uint8    `mp4:"0,size=8"`
	Count uint8    `mp4:"1,size=8"`
	A     []uint16 `mp4:"2,size=16,len=2"`
	B     [3]int8  `mp4:"3,size=4,dec"`
	C     []uint8  `mp4:"4,size=4,len=3"`
	D     uint64   `mp4:"5,size=dynamic,hex"`
	E     []hUPair `mp4:"6,len=dynamic"`
	F     uint8    `mp4:"7,size=4"`
	G     []byte   `mp4:"8,size=8,len=2"`
	H     uint8    `mp4:"9,size=dynamic"`
	I     []bool   `mp4:"10,size=1,len=8"`
	J     []uint32 `mp4:"11,size=24"`
}

func (*hULists) GetType() BoxType { return StrToBoxType("zzwe") }

func (b *hULists) GetFieldSize(name string, ctx Context) uint {
	switch name {
	case "D":
		return uint(b.Bits)
	case "H":
		return 8 - (uint(b.Bits)+4)%8
	}
	panic("unexpected field " + name)
}

func (b *hULists) GetFieldLength(name string, ctx Context) uint {
	if name == "E" {
		return uint(b.Count)
	}
	panic("unexpected field " + name)
}

func (s *hs) pair() hUPair { return hUPair{X: s.u8(), Y: s.i16()} }

func hC24Build(s *hs) *hULists {
	b := &hULists{}
	b.Bits = uint8(s.c(uint64(vParamInt("bits")), 8))
	b.Count = uint8(s.cnt(8))
	b.A = []uint16{s.u16(), s.u16()}
	b.B = [3]int8{int8(s.i(4)), int8(s.i(4)), int8(s.i(4))}
	b.C = []uint8{uint8(s.u(4)), uint8(s.u(4)), uint8(s.u(4))}
	b.D = s.u(int(b.Bits))
	b.E = []hUPair{}
	for i := 0; i < int(b.Count); i++ {
		b.E = append(b.E, s.pair())
	}
	b.F = uint8(s.u(4))
	b.G = []byte{s.u8(), s.u8()}
	b.H = uint8(s.u(8 - (int(b.Bits)+4)%8))
	b.I = []bool{}
	for i := 0; i < 8; i++ {
		if i < 3 {
			b.I = append(b.I, s.b())
		} else {
			b.I = append(b.I, s.c(uint64(i&1), 1) != 0)
		}
	}
	b.J = []uint32{}
	for n := s.len(); n > 0; n-- {
		b.J = append(b.J, s.u24())
	}
	return b
}

func hC24Lists() {
	s := &hs{max: vParamInt("max")}
	b := hC24Build(s)
	hC24Check(b, vClone(b).(*hULists), s, Context{})
}

// lists that extend to the end of the box
type hUTail struct {
	Box
	Kind uint8    `mp4:"0,size=8"`
	A    []hUPair `mp4:"1,opt=dynamic"`
	B    []uint8  `mp4:"2,size=8,opt=dynamic"`
	C    []int8   `mp4:"3,size=4,opt=dynamic"`
	D    []uint64 `mp4:"4,size=40,hex,opt=dynamic"`
}

func (*hUTail) GetType() BoxType { return StrToBoxType("zzwf") }

func (b *hUTail) IsOptFieldEnabled(name string, ctx Context) bool {
	return name == string(rune('A'+b.Kind))
}

func hC24Tail() {
	s := &hs{max: vParamInt("max")}
	b := &hUTail{Kind: uint8(vChoose("kind", 5))}
	s.c(uint64(b.Kind), 8)
	n := s.len()
	switch b.Kind {
	case 0:
		b.A = []hUPair{}
		for ; n > 0; n-- {
			b.A = append(b.A, s.pair())
		}
	case 1:
		b.B = s.bytes(n)
	case 2:
		b.C = []int8{}
		for n *= 2; n > 0; n-- {
			b.C = append(b.C, int8(s.i(4)))
		}
	case 3:
		b.D = []uint64{}
		for ; n > 0; n-- {
			b.D = append(b.D, s.u(40))
		}
	}
	hC24Check(b, vClone(b).(*hUTail), s, Context{})
	// a rest that is not a whole number of elements
	if b.Kind == 0 || b.Kind == 3 {
		odd := append(append([]byte{}, s.out...), vBytes("odd", 1+vChoose("rest", 2))...)
		_, _, err := UnmarshalAny(bytes.NewReader(odd), b.GetType(), uint64(len(odd)), Context{})
		vAssert(err != nil, "an incomplete last element is rejected")
	}
}

// a list shorter than its length, and one that is longer
func hC24Short() {
	b := &hULists{Bits: 12, Count: 2, A: []uint16{1, 2}, C: []uint8{1, 2, 3}, E: make([]hUPair, 2), G: []byte{1, 2}, I: make([]bool, 8)}
	_, err := Marshal(&bytes.Buffer{}, b, Context{})
	vAssert(err == nil, "the box can be encoded")
	vCover("encoded")
	n := vChoose("n", 8)
	switch vChoose("which", 5) {
	case 0:
		b.A = b.A[:n&1]
	case 1:
		b.C = b.C[:n%3]
	case 2:
		c := vU8("count")
		b.E = make([]hUPair, n&3)
		vAssume(int(c) > len(b.E))
		b.Count = c
	case 3:
		b.G = b.G[:n&1]
	case 4:
		b.I = b.I[:n]
	}
	_, err = Marshal(&bytes.Buffer{}, b, Context{})
	vAssert(err != nil, "a list shorter than its length is rejected")
}

func hC24More() {
	s := &hs{max: 2}
	w := &hULists{}
	w.Bits = uint8(s.c(12, 8))
	w.Count = uint8(s.cnt(8))
	w.A = []uint16{s.u16(), s.u16()}
	w.B = [3]int8{int8(s.i(4)), 1, 2}
	s.c(0x12, 8)
	w.C = []uint8{uint8(s.u(4)), uint8(s.u(4)), uint8(s.u(4))}
	w.D = s.u(12)
	w.E = []hUPair{}
	for i := 0; i < int(w.Count); i++ {
		w.E = append(w.E, s.pair())
	}
	w.F = uint8(s.u(4))
	w.G = []byte{s.u8(), s.u8()}
	w.H = uint8(s.u(8))
	w.I = []bool{s.b(), s.c(0, 1) != 0, s.b(), false, false, false, false, false}
	s.c(0, 5)
	w.J = []uint32{}
	b := vClone(w).(*hULists)
	b.A = append(b.A, vU16("x"))
	b.C = append(b.C, vU8("y"))
	b.E = append(b.E, hUPair{Y: 3, X: vU8("z")})
	b.G = append(b.G, vBytes("g", 3)...)
	b.I = append(b.I, true)
	vAssert(s.n == 0, "the layout is complete")
	buf := &bytes.Buffer{}
	_, err := Marshal(buf, b, Context{})
	vAssert(err == nil, "the box can be encoded")
	vAssert(vBytesEq(buf.Bytes(), s.out), "no more elements are encoded than the length says")
	vCover("encoded")
	t1, err := Stringify(w, Context{})
	vAssert(err == nil, "the box can be printed")
	t2, err := Stringify(b, Context{})
	vAssert(err == nil && vStrEq(t1, t2), "no more elements are printed than the length says")
}

// ---- texts and special formats

type hUTexts struct {
	FullBox `mp4:"0,extend"`
	A       string   `mp4:"1,string"`
	B       [4]byte  `mp4:"2,size=8,string"`
	Pad     bool     `mp4:"3,size=1,hidden"`
	C       [3]byte  `mp4:"4,size=5,iso639-2"`
	D       [16]byte `mp4:"5,size=8,uuid"`
	E       uint16   `mp4:"6,size=16,const=0"`
	F       uint32   `mp4:"7,size=32,hidden"`
	G       []byte   `mp4:"8,size=8,len=2,string"`
	H       uint32   `mp4:"9,varint"`
	I       uint64   `mp4:"10,varint,hex"`
	Z       string   `mp4:"11,boxstring"`
}

func (*hUTexts) GetType() BoxType { return StrToBoxType("zzwg") }

func (s *hs) var28() uint64 {
	v := vBits("var", 28)
	for i := 21; i >= 0; i -= 7 {
		s.c(vIte64(i > 0, 1), 1)
		s.c(v>>uint(i)&0x7f, 7)
	}
	return v
}

func (s *hs) plain(b []byte) []byte {
	for _, c := range b {
		vAssume(c >= 0x20 && c < 0x7f)
	}
	return b
}

func hC24Texts() {
	s := &hs{}
	b := &hUTexts{}
	s.full(&b.FullBox, 0)
	b.A = string(s.plain([]byte(s.str(vParamInt("max")))))
	copy(b.B[:], s.bytes(4))
	for i := 0; i < 4; i++ {
		vAssume(b.B[i] < 0x80)
	}
	b.Pad = s.b()
	b.C = [3]byte{byte(s.u(5)), byte(s.u(5)), byte(s.u(5))}
	copy(b.D[:], s.bytes(16))
	b.E = s.u16()
	b.F = s.u32()
	b.G = s.plain(s.bytes(2))
	b.H = uint32(s.var28())
	b.I = s.var28()
	b.Z = string(s.plain([]byte(s.text(vParamInt("max")))))
	hC24Check(b, vClone(b).(*hUTexts), s, Context{})
}

// texts with their length in front or a zero at the end
type hUPascal struct {
	Box
	A string `mp4:"0,string=c_p"`
	B []byte `mp4:"1,size=8,hidden"`
}

func (*hUPascal) GetType() BoxType { return StrToBoxType("zzwh") }

func (*hUPascal) IsPString(name string, b []byte, rest uint64, ctx Context) bool {
	if name != "A" {
		panic("unexpected field " + name)
	}
	return rest == 0 || len(b) > 0 && b[0] == 'P'
}

func hC24Pascal() {
	n := vChoose("n", vParamInt("max"))
	p := vBytes("p", n)
	got, m, err := UnmarshalAny(bytes.NewReader(p), StrToBoxType("zzwh"), uint64(n), Context{})
	vAssert(err == nil && m == uint64(n), "the box can be decoded")
	vCover("decoded")
	g := got.(*hUPascal)
	if n >= 2 {
		if k := int(p[0]); k < n && (k == n-1 || k > 0 && p[1] == 'P') {
			vCover("counted")
			vAssert(vStrEq(g.A, string(p[1:k+1])) && vBytesEq(g.B, p[k+1:]), "the text has its length in front")
			return
		}
	}
	i := 0
	for i < n && p[i] != 0 {
		i++
	}
	vAssert(vStrEq(g.A, string(p[:i])), "the text ends with a zero")
	if i < n {
		i++
	}
	vAssert(vBytesEq(g.B, p[i:]), "the next field follows the text")
	b := &hUPascal{A: string(p[:i]), B: []byte{vU8("tail")}}
	buf := &bytes.Buffer{}
	_, err = Marshal(buf, b, Context{})
	vAssert(err == nil, "the box can be encoded")
	vAssert(vBytesEq(buf.Bytes(), append(append(append([]byte{}, p[:i]...), 0), b.B...)), "texts are written with a zero at the end")
}

// variable-length integers of any length
func hC24Varint() {
	head := []byte{0, 0, 0, 0, 0, 'a', 'b', 'c', 'd', 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0, 0, 0, 0, 0, 0, 'g', 'h'}
	p := head
	var v [2]uint64
	for k := range v {
		n := 1 + vChoose("n", 5)
		for i := 0; i < n; i++ {
			c := vBits("c", 7)
			v[k] = v[k]<<7 | c
			if i < n-1 {
				c |= 0x80
			}
			p = append(p, byte(c))
		}
	}
	p = append(p, 'z')
	got, m, err := UnmarshalAny(bytes.NewReader(p), StrToBoxType("zzwg"), uint64(len(p)), Context{})
	vAssert(err == nil && m == uint64(len(p)), "the box can be decoded")
	vCover("decoded")
	g := got.(*hUTexts)
	vAssert(g.H == uint32(v[0]) && g.I == v[1] && g.Z == "z", "a variable-length integer has seven bits per byte, the last byte is below 128")
}

// ---- callbacks

type hUCalls struct {
	Box
	Swap bool   `mp4:"0,size=8"`
	A    uint32 `mp4:"1,size=32"` // three bytes, the last first, if Swap is set
	B    uint8  `mp4:"2,size=8"`  // after a marker
	C    uint8  `mp4:"3,size=8,opt=0x1"`
	D    []byte `mp4:"4,size=8"`
	left [3]uint64
	bad  string
}

func (*hUCalls) GetType() BoxType { return StrToBoxType("zzwi") }

var hErrCall = errors.New("refused")

func (b *hUCalls) OnReadField(name string, r bitio.ReadSeeker, left uint64, ctx Context) (uint64, bool, error) {
	var buf [3]byte
	switch name {
	case "Swap":
	case "A":
		b.left[0] = left
		if b.Swap {
			if _, err := io.ReadFull(r, buf[:]); err != nil {
				return 0, false, err
			}
			b.A = uint32(buf[0]) | uint32(buf[1])<<8 | uint32(buf[2])<<16
			return 24, true, nil
		}
	case "B":
		b.left[1] = left
		d, err := r.ReadBits(8)
		if err == nil && d[0] != 0xaa {
			err = hErrCall
		}
		return 8, false, err
	case "D":
		b.left[2] = left
	default:
		panic("unexpected field " + name)
	}
	return 0, false, nil
}

func (b *hUCalls) OnWriteField(name string, w bitio.Writer, ctx Context) (uint64, bool, error) {
	switch name {
	case "Swap", "D":
	case "A":
		if b.Swap {
			_, err := w.Write([]byte{byte(b.A), byte(b.A >> 8), byte(b.A >> 16)})
			return 24, true, err
		}
	case "B":
		if b.bad != "" {
			return 0, false, hErrCall
		}
		return 8, false, w.WriteBits([]byte{0xaa}, 8)
	default:
		panic("unexpected field " + name)
	}
	return 0, false, nil
}

func (b *hUCalls) StringifyField(name string, indent string, depth int, ctx Context) (string, bool) {
	switch name {
	case "Swap", "D":
	case "A":
		return "<" + strconv.Itoa(depth) + indent + ">", true
	case "B":
		return "ignored", false
	default:
		panic("unexpected field " + name)
	}
	return "", false
}

func hC24CallsBox(s *hs) *hUCalls {
	b := &hUCalls{}
	b.Swap = vBool("swap")
	s.c(vIte64(b.Swap, 0xff), 8)
	if b.Swap {
		b.A = uint32(s.u8())
		b.A |= uint32(s.u8()) << 8
		b.A |= uint32(s.u8()) << 16
	} else {
		b.A = s.u32()
	}
	s.c(0xaa, 8)
	b.B = s.u8()
	n := s.len()
	b.D = s.bytes(n)
	b.left[2] = uint64(n) * 8
	b.left[1] = b.left[2] + 16
	b.left[0] = b.left[1] + 32
	if b.Swap {
		b.left[0] -= 8
	}
	return b
}

func hC24Calls() {
	s := &hs{max: vParamInt("max")}
	w := hC24CallsBox(s)
	b := vClone(w).(*hUCalls)
	b.left = [3]uint64{}
	buf := &bytes.Buffer{}
	n, err := Marshal(buf, b, Context{})
	vAssert(err == nil, "the box can be encoded")
	vAssert(n == uint64(len(s.out)), "what the callbacks write is counted")
	vAssert(vBytesEq(buf.Bytes(), s.out), "the callbacks take over their fields")
	vCover("encoded")
	got, n, err := UnmarshalAny(bytes.NewReader(s.out), b.GetType(), uint64(len(s.out)), Context{})
	vAssert(err == nil && n == uint64(len(s.out)), "the box can be decoded")
	vAssert(vEqual(got, w), "the callbacks take over their fields and are told how many bits are left")
	text, err := Stringify(b, Context{})
	vAssert(err == nil, "the box can be printed")
	list := ""
	for i, c := range b.D {
		if i > 0 {
			list += ", "
		}
		list += "0x" + strconv.FormatUint(uint64(c), 16)
	}
	bx := "0x" + strconv.FormatUint(uint64(b.B), 16)
	vAssert(vStrEq(text, "Swap="+strconv.FormatBool(b.Swap)+" A=<1> B="+bx+" D=["+list+"]"), "a callback's text replaces the field's")
	text, err = StringifyWithIndent(b, ".", Context{})
	vAssert(err == nil, "the box can be printed with indentation")
	vAssert(vStrEq(text, ".Swap="+strconv.FormatBool(b.Swap)+"\n.A=<1.>\n.B="+bx+"\n.D=["+list+"]\n"), "a callback's text replaces the field's")
}

func hC24CallErr() {
	s := &hs{max: 1}
	b := hC24CallsBox(s)
	b.bad = "B"
	_, err := Marshal(&bytes.Buffer{}, b, Context{})
	vAssert(err == hErrCall, "an error of a callback is returned")
	p := append([]byte{}, s.out...)
	at := 5
	if b.Swap {
		at = 4
	}
	p[at] = vU8("marker")
	_, _, err = UnmarshalAny(bytes.NewReader(p), b.GetType(), uint64(len(p)), Context{})
	if p[at] == 0xaa {
		vAssert(err == nil, "the box can be decoded")
	} else {
		vCover("fault")
		vAssert(err == hErrCall, "an error of a callback is returned")
	}
}

// ---- before decoding

type hUBefore struct {
	Box
	A    uint8  `mp4:"0,size=8"`
	B    []byte `mp4:"1,size=8"`
	head uint8
	size uint64
}

func (*hUBefore) GetType() BoxType { return StrToBoxType("zzwj") }

func (b *hUBefore) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx Context) (uint64, bool, error) {
	var buf [1]byte
	b.size = size
	if _, err := io.ReadFull(r, buf[:]); err != nil {
		return 0, false, err
	}
	b.head = buf[0]
	switch {
	case b.head == 0:
		return 1, true, nil
	case b.head == 1:
		_, err := r.Seek(-1, io.SeekCurrent)
		return 0, false, err
	case b.head == 2:
		return 0, false, hErrCall
	}
	return 1, false, nil
}

func hC24Before() {
	n := 2 + vChoose("n", vParamInt("max")+1)
	p := vBytes("p", n)
	got, m, err := UnmarshalAny(bytes.NewReader(p), StrToBoxType("zzwj"), uint64(n), Context{})
	if p[0] == 2 {
		vAssert(err == hErrCall, "an error of the callback is returned")
		return
	}
	vAssert(err == nil, "the box can be decoded")
	vCover("decoded")
	w := &hUBefore{head: p[0], size: uint64(n)}
	switch {
	case p[0] == 0:
		vAssert(m == 1, "the callback's count is returned")
	case p[0] == 1:
		w.A, w.B = p[0], p[1:]
		vAssert(m == uint64(n), "the whole payload is decoded")
	default:
		w.A, w.B = p[1], p[2:]
		vAssert(m == uint64(n), "the whole payload is decoded")
	}
	vAssert(vEqual(got, w), "the fields follow what the callback has read")
}

// ---- nested structures

type hUSub struct {
	BaseCustomFieldObject
	N uint8   `mp4:"0,size=8"`
	L []uint8 `mp4:"1,size=8,len=dynamic"`
	O uint16  `mp4:"2,size=16,opt=dynamic"`
}

func (s *hUSub) GetFieldLength(name string, ctx Context) uint {
	if name != "L" {
		panic("unexpected field " + name)
	}
	return uint(s.N)
}

func (s *hUSub) IsOptFieldEnabled(name string, ctx Context) bool {
	if name != "O" {
		panic("unexpected field " + name)
	}
	return s.N > 1
}

type HUEmb struct {
	P uint16 `mp4:"0,size=16"`
	Q uint8  `mp4:"1,size=8"`
}

type hUFix struct {
	S uint8   `mp4:"0,size=8"`
	T []uint8 `mp4:"1,size=8"`
}

type hUNested struct {
	FullBox `mp4:"0,extend"`
	A       hUSub   `mp4:"1"`
	B       *hUPair `mp4:"2"`
	C       []hUSub `mp4:"3,len=2"`
	HUEmb   `mp4:"4,extend"`
	E       [2]hUPair `mp4:"5"`
	F       *hUFix    `mp4:"6,size=24,opt=0x1"`
	G       []byte    `mp4:"7,size=8"`
}

func (*hUNested) GetType() BoxType { return StrToBoxType("zzwk") }

func (s *hs) sub() (r hUSub) {
	r.N = uint8(s.cnt(8))
	r.L = s.bytes(int(r.N))
	if r.N > 1 {
		r.O = s.u16()
	}
	return
}

func hC24Nested() {
	s := &hs{max: vParamInt("max")}
	b := &hUNested{}
	b.Flags[2] = byte(vChoose("flags", 2))
	s.c(uint64(b.Flags[2]), 32)
	b.A = s.sub()
	p := s.pair()
	b.B = &p
	b.C = []hUSub{s.sub(), s.sub()}
	b.P, b.Q = s.u16(), s.u8()
	b.E = [2]hUPair{s.pair(), s.pair()}
	if b.Flags[2] == 1 {
		b.F = &hUFix{S: s.u8(), T: s.bytes(2)}
	}
	b.G = s.bytes(1)
	w := vClone(b).(*hUNested)
	if b.A.N < 2 {
		b.A.O = vU16("O")
	}
	hC24Check(b, w, s, Context{})
}

// hC24Exact: a structure of a given size has exactly that size, whatever follows it.
func hC24Exact() {
	head := []byte{0, 0, 0, 1, 0, 1, 2, 3, 0, 0, 4, 5, 6, 1, 2, 3, 1, 2, 3}
	p := append(append([]byte{}, head...), vBytes("rest", vChoose("n", 6))...)
	got, n, err := UnmarshalAny(bytes.NewReader(p), StrToBoxType("zzwk"), uint64(len(p)), Context{})
	if len(p) < len(head)+3 {
		vAssert(err != nil, "an incomplete structure is rejected")
		return
	}
	vAssert(err == nil && n == uint64(len(p)), "the box can be decoded")
	vCover("decoded")
	g := got.(*hUNested)
	r := p[len(head):]
	vAssert(g.F.S == r[0] && vBytesEq(g.F.T, r[1:3]) && vBytesEq(g.G, r[3:]), "the list in a structure of a given size ends with it")
}

// ---- types and contexts

type hUAny struct {
	AnyTypeBox
	V int8 `mp4:"0,size=8"`
}

func hC24Any() {
	s := &hs{}
	b := &hUAny{V: int8(s.i(8))}
	ctx := Context{UnderUdta: vBool("udta")}
	name := "zza1"
	if vBool("second") {
		name = "zza2"
	}
	b.SetType(StrToBoxType(name))
	if name == "zza2" && !ctx.UnderUdta {
		_, err := Marshal(&bytes.Buffer{}, b, ctx)
		vAssert(err == ErrBoxInfoNotFound, "the type is unknown elsewhere")
		_, _, err = UnmarshalAny(bytes.NewReader(s.out), b.GetType(), 1, ctx)
		vAssert(err == ErrBoxInfoNotFound, "the type is unknown elsewhere")
		_, err = Stringify(b, ctx)
		vAssert(err == ErrBoxInfoNotFound, "the type is unknown elsewhere")
		return
	}
	hC24Check(b, vClone(b).(*hUAny), s, ctx)
	vAssert(b.GetType().IsSupported(ctx), "the type is supported")
	v := vU8("v")
	vAssert(b.GetType().IsSupportedVersion(v, ctx) == (v == 1 || v == 0 && name == "zza2"), "the versions given are supported")
}

type hUHere struct {
	FullBox `mp4:"0,extend"`
	V       uint32 `mp4:"1,size=32"`
}

func (*hUHere) GetType() BoxType { return StrToBoxType("zzwl") }

type hUThere struct {
	Box
	V uint8 `mp4:"0,size=8"`
	W uint8 `mp4:"1,size=8"`
}

func (*hUThere) GetType() BoxType { return StrToBoxType("zzwl") }

func hC24Where() {
	ctx := Context{UnderWave: vBool("wave"), UnderIlst: vBool("ilst"), UnderUdta: vBool("udta")}
	s := &hs{}
	switch {
	case ctx.UnderWave:
		b := &hUHere{}
		s.full(&b.FullBox, 0)
		b.V = s.u32()
		hC24Check(b, vClone(b).(*hUHere), s, ctx)
	case ctx.UnderIlst:
		b := &hUThere{V: s.u8(), W: s.u8()}
		hC24Check(b, vClone(b).(*hUThere), s, ctx)
	default:
		_, _, err := UnmarshalAny(bytes.NewReader(make([]byte, 8)), StrToBoxType("zzwl"), 8, ctx)
		vAssert(err == ErrBoxInfoNotFound, "the type is unknown elsewhere")
		vAssert(!StrToBoxType("zzwl").IsSupported(ctx), "the type is not supported elsewhere")
	}
}

// ---- rejected boxes

type hUOdd struct {
	Box
	A uint8  `mp4:"0,size=dynamic"`
	B []bool `mp4:"1,size=1,len=dynamic"`
}

func (*hUOdd) GetType() BoxType { return StrToBoxType("zzwm") }

func (b *hUOdd) GetFieldSize(name string, ctx Context) uint {
	return uint(ctx.QuickTimeKeysMetaEntryCount & 7)
}
func (b *hUOdd) GetFieldLength(name string, ctx Context) uint {
	return uint(ctx.QuickTimeKeysMetaEntryCount >> 3)
}

func hC24Odd() {
	a, l := 1+vChoose("a", 7), vChoose("b", 8)
	ctx := Context{QuickTimeKeysMetaEntryCount: a + l*8}
	b := &hUOdd{A: uint8(vBits("A", 7)) & (1<<uint(a) - 1), B: make([]bool, l)}
	n, err := Marshal(&bytes.Buffer{}, b, ctx)
	p := vBytes("p", 2)
	_, m, err2 := UnmarshalAny(bytes.NewReader(p), b.GetType(), 2, ctx)
	if (a+l)%8 != 0 {
		vAssert(err != nil, "a box that is not a whole number of bytes cannot be encoded")
		vAssert(err2 != nil, "a box that is not a whole number of bytes cannot be decoded")
		return
	}
	vCover("whole")
	vAssert(err == nil && n == 1, "the box can be encoded")
	vAssert(err2 == nil && m == 1, "the box can be decoded")
}

func hC24Vers() {
	p := vBytes("p", 60)
	name := []string{"zzwa", "zzwc", "zzwg", "zzwk"}[vChoose("type", 4)]
	vAssume(p[0] > 2 || p[0] > 0 && (name == "zzwg" || name == "zzwk"))
	r := bytes.NewReader(p)
	_, _, err := UnmarshalAny(r, StrToBoxType(name), 60, Context{})
	vAssert(err == ErrUnsupportedBoxVersion, "an unsupported version is reported")
	at, _ := r.Seek(0, io.SeekCurrent)
	vAssert(at == 0, "nothing is consumed of an unsupported version")
	vCover("unsupported")
}

// hC24Cut: a payload that ends early is rejected unless the rest is a list or text that extends to the end.
func hC24Cut() {
	s := &hs{max: vParamInt("max")}
	var name string
	need := 0
	switch vChoose("type", 4) {
	case 0:
		b := &hUWidths{}
		s.full(&b.FullBox, 0)
		s.bytes(40)
		name, need = "zzwa", 44
	case 1:
		b := &hUPlain{}
		name, need = b.GetType().String(), 2
		s.bytes(2)
	case 2:
		b := hC24CallsBox(s)
		name, need = b.GetType().String(), len(s.out)-len(b.D)
	case 3:
		s.c(12, 8)
		n := s.cnt(8)
		s.bytes(4 + 3 + 4 + 3*n + 2)
		name, need = "zzwe", len(s.out)
	}
	full := vBool("full")
	if full {
		_, _, err := UnmarshalAny(bytes.NewReader(s.out), StrToBoxType(name), uint64(len(s.out)), Context{})
		vAssert(err == nil, "the box can be decoded")
		vCover("decoded")
		return
	}
	cut := vChoose("cut", need)
	_, _, err := UnmarshalAny(bytes.NewReader(s.out), StrToBoxType(name), uint64(cut), Context{})
	vAssert(err != nil, "a payload that ends within a field is rejected")
	_, _, err = UnmarshalAny(bytes.NewReader(s.out[:cut]), StrToBoxType(name), uint64(len(s.out)), Context{})
	vAssert(err != nil, "a file that ends within a field is rejected")
}
