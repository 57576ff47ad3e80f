package HARNESS

import (
	"bytes"
	"io"
)

func vInst_C06(tier string) []string {
	n := "6"
	if tier == "thorough" {
		n = "8"
	}
	return []string{
		"hC06Ops n=" + n + " @cover=done,copied @time=200",
		"hC06Big depth=2 @cover=grown,rejected,ok",
		"hC06Big depth=3",
		"hC06Copy max=6 @cover=copied,short",
		"hC06Boxes @cover=ok",
	}
}

func vDoc_C06() []string {
	return []string{
		"bound: every sequence of up to 6 (8 in the thorough tier) operations starting a box in one of the three header forms, writing 1 or 3 bytes, copying a box or ending one, all content symbolic, open boxes closed at the end",
		"bound: 3 levels of nesting with any amount of data before, inside and between them (file positions up to 2^62)",
		"outside: ending a box when none is open",
	}
}

// hFile is an in-memory file.
type hFile struct {
	data []byte
	pos  int
}

func (f *hFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(f.pos)
	case io.SeekEnd:
		off += int64(len(f.data))
	}
	f.pos = int(off)
	return off, nil
}

func (f *hFile) Write(b []byte) (int, error) {
	for len(f.data) < f.pos+len(b) {
		f.data = append(f.data, 0)
	}
	copy(f.data[f.pos:], b)
	f.pos += len(b)
	return len(b), nil
}

type hOpen struct {
	start, hs int
	ext       bool
	typ       [4]byte
	info      *BoxInfo
}

// hPutHeader is the header of a finished box.
func hPutHeader(dst []byte, o hOpen, size int) {
	v := size
	if o.ext {
		v = 0
	} else if o.hs == 16 {
		v = 1
	}
	dst[0], dst[1], dst[2], dst[3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	copy(dst[4:], o.typ[:])
	if o.hs == 16 {
		for i := 0; i < 8; i++ {
			dst[8+i] = byte(uint64(size) >> uint(56-8*i))
		}
	}
}

func hC06Ops() {
	f := &hFile{}
	w := NewWriter(f)
	var want []byte
	var stack []hOpen
	lead := vChoose("lead", 2)
	if lead == 1 {
		b := vBytes("lead", 3)
		w.Write(b)
		want = append(want, b...)
	}
	end := func() {
		o := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		bi, err := w.EndBox()
		vAssert(err == nil, "a box can be ended")
		size := len(want) - o.start
		hPutHeader(want[o.start:], o, size)
		vAssert(bi.Offset == uint64(o.start) && bi.Size == uint64(size) && bi.HeaderSize == uint64(o.hs), "the finished box is described correctly")
		vAssert(bi.Type == o.typ && bi.ExtendToEOF == o.ext, "the finished box keeps its type")
		pos, err := w.Seek(0, io.SeekCurrent)
		vAssert(err == nil && pos == int64(len(want)), "writing continues behind the finished box")
	}
	for i := vParamInt("n"); i > 0; i-- {
		ops := 6
		if len(stack) > 0 {
			ops = 7
		}
		switch op := vChoose("op", ops); op {
		case 0, 1, 2:
			o := hOpen{start: len(want), hs: 8}
			copy(o.typ[:], vBytes("type", 4))
			bi := &BoxInfo{Type: o.typ, Size: uint64(vU32("size32")), HeaderSize: 8}
			if op == 1 {
				o.hs, bi.HeaderSize = 16, 16
				bi.Size = vU64("size")
			} else if op == 2 {
				o.ext, bi.ExtendToEOF = true, true
			}
			in := *bi
			out, err := w.StartBox(bi)
			vAssert(err == nil, "a box can be started")
			vAssert(*bi == in, "the description is not changed")
			vAssert(out.Offset == uint64(o.start) && out.HeaderSize == uint64(o.hs) && out.Type == o.typ, "the started box is described correctly")
			want = append(want, make([]byte, o.hs)...)
			stack = append(stack, o)
		case 3, 4:
			b := vBytes("d", 2*op-5)
			n, err := w.Write(b)
			vAssert(err == nil && n == len(b), "data can be written")
			want = append(want, b...)
		case 5:
			src := append(vBytes("before", 2), 0, 0, 0, 11)
			src = append(src, vBytes("box", 9)...)
			err := w.CopyBox(bytes.NewReader(src), &BoxInfo{Offset: 2, Size: 11, HeaderSize: 8})
			vAssert(err == nil, "a box can be copied")
			want = append(want, src[2:13]...)
			vCover("copied")
		case 6:
			end()
		}
	}
	for len(stack) > 0 {
		end()
	}
	vAssert(vBytesEq(f.data, want), "the output is the expected sequence of nested boxes")
	vObsB("out", f.data)
	vCover("done")
}

// hLog is a file of any size that remembers what was written where.
type hLog struct {
	pos int64
	at  []int64
	b   [][]byte
}

func (f *hLog) Seek(off int64, whence int) (int64, error) {
	if whence == io.SeekCurrent {
		off += f.pos
	}
	f.pos = off
	return off, nil
}

func (f *hLog) Write(b []byte) (int, error) {
	f.at = append(f.at, f.pos)
	f.b = append(f.b, append([]byte(nil), b...))
	f.pos += int64(len(b))
	return len(b), nil
}

// any amount of data is written
func (f *hLog) more() {
	n := vI64("pos")
	vAssume(n >= f.pos && n <= 1<<62)
	f.pos = n
}

// any amount of data in boxes nested depth deep
func hC06Big() {
	depth := vParamInt("depth")
	f := &hLog{pos: vI64("base")}
	vAssume(f.pos >= 0 && f.pos <= 1<<61)
	w := NewWriter(f)
	var st []hOpen
	var start []int64
	for i := 0; i < depth; i++ {
		o := hOpen{hs: 8}
		form := vChoose("form", 3)
		bi := &BoxInfo{HeaderSize: 8, Type: BoxType{'a', 'b', 'c', byte(i)}}
		if form == 1 {
			o.hs, bi.HeaderSize = 16, 16
		} else if form == 2 {
			o.ext, bi.ExtendToEOF = true, true
		}
		start = append(start, f.pos)
		_, err := w.StartBox(bi)
		vAssert(err == nil, "a box can be started")
		st = append(st, o)
		f.more()
	}
	for i := depth - 1; i >= 0; i-- {
		f.more()
		end := f.pos
		size := uint64(end - start[i])
		bi, err := w.EndBox()
		if size > 0xffffffff && st[i].hs == 8 && !st[i].ext {
			vAssert(err != nil, "a box that outgrew its header is an error")
			vCover("rejected")
			return
		}
		vAssert(err == nil, "a box that fits its header can be ended")
		if size > 0xffffffff {
			vCover("grown")
		}
		vAssert(bi.Size == size && bi.Offset == uint64(start[i]), "the finished box has the distance from its start as its size")
		vAssert(f.pos == end, "writing continues behind the finished box")
		// the header in the file
		var h []byte
		for k := range f.at {
			if f.at[k] == start[i] {
				h = f.b[k]
			}
		}
		vAssert(len(h) == st[i].hs, "the header keeps its form")
		u := uint64(h[0])<<24 | uint64(h[1])<<16 | uint64(h[2])<<8 | uint64(h[3])
		if st[i].ext {
			vAssert(u == 0, "a box extending to the end has no size")
		} else if st[i].hs == 8 {
			vAssert(u == size, "the size field is the distance from the start of the box")
		} else {
			u64 := uint64(0)
			for j := 8; j < 16; j++ {
				u64 = u64<<8 | uint64(h[j])
			}
			vAssert(u == 1 && u64 == size, "the 64-bit size field is the distance from the start of the box")
		}
		vAssert(h[4] == 'a' && h[7] == byte(i), "the type is kept")
	}
	vCover("ok")
}

// copying a box from any place
func hC06Copy() {
	n := vChoose("len", vParamInt("max")+1)
	src := vBytes("src", n)
	off, size := vU64("off"), vU64("size")
	vAssume(off <= 1<<61 && size <= 1<<61)
	vAssume(vOr(size <= 8, size >= 40000))
	f := &hFile{}
	w := NewWriter(f)
	pre := vBytes("pre", 2)
	w.Write(pre)
	r := bytes.NewReader(src)
	err := w.CopyBox(r, &BoxInfo{Offset: off, Size: size})
	if off+size <= uint64(n) {
		vAssert(err == nil, "a box lying in the source can be copied")
		o, s := vConc(int(off)), vConc(int(size))
		vAssert(vBytesEq(f.data, append(pre, src[o:o+s]...)), "the copy has the bytes of the box")
		vCover("copied")
	} else if size > 0 {
		vAssert(err != nil, "copying a box that is cut off is an error")
		vCover("short")
	}
}

// boxes with fields inside boxes
func hC06Boxes() {
	f := &hFile{}
	w := NewWriter(f)
	_, err := w.StartBox(&BoxInfo{Type: StrToBoxType("moov")})
	vAssert(err == nil, "start")
	_, err = w.StartBox(&BoxInfo{Type: StrToBoxType("trak")})
	vAssert(err == nil, "start")
	hbi, err := w.StartBox(&BoxInfo{Type: StrToBoxType("tkhd")})
	vAssert(err == nil, "start")
	tkhd := &Tkhd{FullBox: FullBox{Version: 1}, TrackID: vU32("id"), DurationV1: vU64("dur")}
	n, err := Marshal(w, tkhd, hbi.Context)
	vAssert(err == nil && n == 92+4, "the box is encoded through the writer")
	for i := 0; i < 3; i++ {
		_, err = w.EndBox()
		vAssert(err == nil, "end")
	}
	seen := 0
	_, err = ReadBoxStructure(bytes.NewReader(f.data), func(h *ReadHandle) (interface{}, error) {
		seen++
		if h.BoxInfo.Type == StrToBoxType("tkhd") {
			vAssert(h.BoxInfo.Offset == 16 && h.BoxInfo.Size == 104 && len(h.Path) == 3, "the nested box is found")
			b, _, err := h.ReadPayload()
			vAssert(err == nil && vEqual(b, tkhd), "the nested box is intact")
			return nil, nil
		}
		return h.Expand()
	})
	vAssert(err == nil && seen == 3 && len(f.data) == 120, "the written file can be walked")
	vCover("ok")
}
