package HARNESS

//use walk types movie

import (
	"bytes"
	"io"
)

func vInst_C07(tier string) []string {
	max, deep := 20, 32
	if tier == "thorough" {
		max, deep = 27, 45
	}
	var out []string
	for n := 0; n <= max; n++ {
		out = append(out, "hC07Any len="+hItoa(n))
	}
	for n := max + 1; n <= deep; n += 3 {
		out = append(out, "hC07Deep len="+hItoa(n)+" @time=200")
	}
	for n := 28; n <= 43; n += 5 {
		out = append(out, "hC07Brand len="+hItoa(n))
	}
	for n := 40; n <= 48; n += 4 {
		out = append(out, "hC07Nest len="+hItoa(n))
	}
	return append(out, "hC07Type", "hC07Huge @cover=ok,over,left")
}

func vDoc_C07() []string {
	return []string{
		"bound: all files of up to 20 bytes (27 in the thorough tier) whose visited boxes have one of four types (container, versioned container, leaf, unknown), every box size and header form, every choice of the visitor between skipping, reading, copying and expanding",
		"bound: files of up to 32 (45) bytes with box sizes 0, 1, 2..7, 8, 11 and those around the end of the parent and of the file",
		"bound: up to 24 bytes of boxes nested in three containers, with the same sizes",
		"bound: files of up to 43 bytes led by a brand box with an arbitrary brand; one box of arbitrary type and content",
		"assume: a box larger than the file ends one byte or more than 40000 bytes behind it",
		"outside: what happens to an incomplete header at the end of the file; the behaviour inside boxes of 2^61 bytes and more",
	}
}

func hC07Run(d []byte, ref *hRef) {
	w, st := hMade(d, ref)
	hCompareWalk(w, ref, st, false)
	switch st {
	case hOK:
		vCover("ok")
	case hErr:
		vCover("err")
	}
}

// every file of a length with boxes of a few types
func hC07Any() {
	hC07Run(vBytes("d", vParamInt("len")), &hRef{menu: []hMenu{
		{"moov", []int{hSkip, hExpand, hPayExp, hData}},
		{"meta", []int{hSkip, hExpand, hExpPay}},
		{"free", []int{hPay, hPayExp, hDataExp}},
		{"zzzz", []int{hSkip, hData, hExpand}},
	}})
}

// longer files
func hC07Deep() {
	hC07Run(vBytes("d", vParamInt("len")), &hRef{coars: true, menu: []hMenu{
		{"moov", []int{hExpand}},
		{"meta", []int{hPayExp}},
		{"free", []int{hSkip}},
	}})
}

// files with a leading brand box
func hC07Brand() {
	d := vBytes("d", vParamInt("len"))
	copy(d, []byte{0, 0, 0, 20, 'f', 't', 'y', 'p'})
	ref := &hRef{coars: true, from: 20, acts: []int{hSkip}, menu: []hMenu{
		{"moov", []int{hExpand}},
		{"free", []int{hSkip}},
	}}
	hC07Run(d, ref)
}

// boxes beneath three containers
func hC07Nest() {
	n := vParamInt("len")
	d := vBytes("d", n)
	for i := 0; i < 3; i++ {
		copy(d[8*i:], hBox("moov"))
		d[8*i+3] = byte(n - 8*i)
	}
	ref := &hRef{coars: true, plain: true, from: 24, acts: []int{hExpand, hExpand, hExpand}, menu: []hMenu{
		{"moov", []int{hExpand}},
		{"free", []int{hSkip}},
		{"meta", []int{hPayExp}},
	}}
	hC07Run(d, ref)
}

// one box of any type
func hC07Type() {
	n := 8 + vChoose("len", 3)
	d := vBytes("d", n)
	copy(d, []byte{0, 0, 0, byte(n)})
	vAssume(vNot(vOr(hIs(BoxType{d[4], d[5], d[6], d[7]}, "ftyp"), hIs(BoxType{d[4], d[5], d[6], d[7]}, "keys"))))
	act := []int{hSkip, hData}[vChoose("act", 2)]
	w := &hWalk{}
	_, w.err = ReadBoxStructure(bytes.NewReader(d), w.handler(d, func(h *ReadHandle) int { return act }))
	st := hCheckWalk(w, d, false)
	vAssert(st == hOK && len(w.visits) == 1, "a box of any type is visited")
}

// hHuge is a file of any size, with only its headers there.
type hHuge struct {
	pos, eof int64
	at       []int64
	h        [][]byte
}

func (f *hHuge) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += f.eof
	}
	vAssert(off >= 0, "the position is never negative")
	f.pos = off
	return off, nil
}

func (f *hHuge) Read(b []byte) (int, error) {
	if f.pos >= f.eof {
		return 0, io.EOF
	}
	for i, at := range f.at {
		for k := range f.h[i] {
			if f.pos == at+int64(k) {
				n := copy(b, f.h[i][k:])
				f.pos += int64(n)
				return n, nil
			}
		}
	}
	vAssert(false, "only headers are read")
	return 0, io.EOF
}

// boxes of any size: a box, and a container with two children whose second one has an arbitrary size
func hC07Huge() {
	f := &hHuge{}
	p1, p3, eof := vI64("p1"), vI64("p3"), vI64("eof")
	vAssume(p1 >= 16 && p1 <= 1<<58)
	vAssume(p3 >= p1+32 && p3 <= 1<<59)
	vAssume(eof >= p3+16 && eof <= 1<<60)
	size3 := vI64("size3")
	vAssume(size3 >= 16 && size3 <= 1<<60)
	size := []int64{p1, eof - p1, p3 - p1 - 16, size3}
	for i := range size {
		h := []byte{0, 0, 0, 1, 'f', 'r', 'e', 'e'}
		if i == 1 {
			h = []byte{0, 0, 0, 1, 'm', 'o', 'o', 'v'}
		}
		for j := 0; j < 8; j++ {
			h = append(h, byte(uint64(size[i])>>uint(56-8*j)))
		}
		f.h = append(f.h, h)
	}
	f.at = []int64{0, p1, p1 + 16, p3}
	f.eof = eof
	f.pos = 5
	k := 0
	_, err := ReadBoxStructure(f, func(h *ReadHandle) (interface{}, error) {
		vAssert(k < 4, "every box is visited once")
		bi := h.BoxInfo
		vAssert(bi.Offset == uint64(f.at[k]) && bi.Size == uint64(size[k]) && bi.HeaderSize == 16, "the box is reported with its position and size")
		k++
		if k == 4 && p3+size3 < eof-7 {
			vStopPath()
		}
		if bi.Type == BoxTypeMoov() {
			return h.Expand()
		}
		return nil, nil
	})
	if size3 == eof-p3 {
		vAssert(err == nil && k == 4, "a tiled file is walked")
		vCover("ok")
	} else if size3 > eof-p3 {
		vAssert(err != nil && k == 3, "a child larger than the rest of its parent is an error")
		vCover("over")
	} else {
		vAssert(err != nil && k == 4, "bytes left over are an error")
		vCover("left")
	}
}
