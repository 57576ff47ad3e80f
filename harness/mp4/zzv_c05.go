package HARNESS

import (
	"bytes"
	"io"
)

func vInst_C05(tier string) []string {
	return []string{
		"hC05Write @cover=large,small,extends,grows,ok",
		"hC05Read @cover=error,large,extends,plain",
		"hC05Seek",
		"hC05Real max=20",
		"hC05Grow @known=KF-LARGE",
	}
}

func vDoc_C05() []string {
	return []string{
		"bound: none on sizes, positions and types (64-bit symbolic values); header byte strings of every length up to 20",
		"outside: the reported size of boxes of more than 4 GiB announced with an 8-byte header (known finding KF-LARGE; that the 16-byte form is used and read back is checked); positions and sizes beyond 2^63-1",
	}
}

// hSparse is a file of any size whose only known bytes are data, which begin at base.
type hSparse struct {
	base, pos, eof int64
	data           []byte
	seeks          int
}

func (f *hSparse) Seek(off int64, whence int) (int64, error) {
	f.seeks++
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += f.eof
	}
	if off < 0 {
		return 0, io.ErrShortWrite
	}
	f.pos = off
	return off, nil
}

func (f *hSparse) Write(b []byte) (int, error) {
	vAssert(f.pos == f.base+int64(len(f.data)), "the header is written at the current position")
	f.data = append(f.data, b...)
	f.pos += int64(len(b))
	return len(b), nil
}

func (f *hSparse) Read(b []byte) (int, error) {
	k := f.pos - f.base
	if k < 0 || k >= int64(len(f.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.data[vConc(int(k)):])
	f.pos += int64(n)
	return n, nil
}

func hC05Write() {
	base := vI64("base")
	vAssume(base >= 0 && base <= 1<<62)
	bi := &BoxInfo{
		Offset:      vU64("ignored"),
		Size:        vU64("size"),
		Type:        BoxType{vU8("t"), vU8("t"), vU8("t"), vU8("t")},
		ExtendToEOF: vChoose("ext", 2) == 1,
	}
	if vChoose("form", 2) == 0 {
		bi.HeaderSize = 8
	} else {
		bi.HeaderSize = 16
	}
	// see KF-LARGE
	grows := !bi.ExtendToEOF && bi.Size > 0xffffffff && bi.HeaderSize == 8
	vAssume(bi.Size >= bi.HeaderSize && bi.Size < 1<<63)
	vAssume(bi.Size <= 1<<63-9-uint64(base))
	f := &hSparse{base: base, pos: base, eof: base}
	in := *bi
	out, err := WriteBoxInfo(f, bi)
	vAssert(err == nil, "a header can be written")
	vAssert(*bi == in, "the argument is not changed")
	vAssert(out.Offset == uint64(base), "the position of the header is reported")
	vAssert(out.HeaderSize == uint64(len(f.data)), "as many bytes are written as the reported header length says")
	vAssert(out.Type == bi.Type && out.ExtendToEOF == bi.ExtendToEOF, "type and flag are reported unchanged")
	vAssert(out.Size-out.HeaderSize == bi.Size-bi.HeaderSize, "the payload length is kept")
	if !bi.ExtendToEOF && bi.Size > 0xffffffff {
		vCover("large")
		vAssert(len(f.data) == 16, "sizes of 4 GiB and more use the 16-byte form")
	}
	if len(f.data) == 8 && !bi.ExtendToEOF {
		vCover("small")
	}
	if bi.ExtendToEOF {
		vCover("extends")
		f.eof = base + int64(out.Size)
	} else {
		f.eof = vI64("eof")
	}
	f.pos = base
	got, err := ReadBoxInfo(f)
	vAssert(err == nil, "a written header can be read")
	if grows {
		vCover("grows")
		vAssert(got.Size == bi.Size || got.Size == out.Size, "reading gives back what was written")
		out.Size = got.Size
	}
	vAssert(got.Offset == out.Offset && got.Size == out.Size && got.HeaderSize == out.HeaderSize && got.Type == out.Type && got.ExtendToEOF == out.ExtendToEOF,
		"reading gives back what was written")
	vAssert(f.pos == base+int64(got.HeaderSize), "the reader stands behind the header")
	vCover("ok")
}

func hC05Read() {
	base, eof := vI64("base"), vI64("eof")
	vAssume(base >= 0 && base <= 1<<62)
	n := vChoose("len", 21)
	f := &hSparse{base: base, pos: base, eof: eof, data: vBytes("h", n)}
	vAssume(eof >= base+int64(n))
	if n < 20 {
		vAssume(eof == base+int64(n)) // truncated
	}
	got, err := ReadBoxInfo(f)
	d := f.data
	u32 := func(i int) uint64 {
		return uint64(d[i])<<24 | uint64(d[i+1])<<16 | uint64(d[i+2])<<8 | uint64(d[i+3])
	}
	if n < 8 {
		vAssert(err != nil, "a truncated header is an error")
		vCover("error")
		return
	}
	size, hs, ext := u32(0), uint64(8), false
	if size == 0 {
		size, ext = uint64(eof-base), true
	} else if size == 1 {
		if n < 16 {
			vAssert(err != nil, "a truncated 16-byte header is an error")
			return
		}
		size, hs = u32(8)<<32|u32(12), 16
	}
	if size < hs {
		vAssert(err != nil, "a size smaller than the header is an error")
		return
	}
	if size > 1<<63-1-uint64(base) {
		vAssert(err != nil, "a box that ends beyond the largest file position is an error")
		return
	}
	vAssert(err == nil, "a valid header is read")
	vAssert(got.Offset == uint64(base), "the offset is the position of the header")
	vAssert(got.Size == size && got.HeaderSize == hs && got.ExtendToEOF == ext, "the size is the one encoded")
	vAssert(got.Type == BoxType{d[4], d[5], d[6], d[7]}, "the type is the one encoded")
	vAssert(f.pos == base+int64(hs), "the reader stands behind the header")
	if hs == 16 {
		vCover("large")
	} else if ext {
		vCover("extends")
	} else {
		vCover("plain")
	}
}

func hC05Seek() {
	bi := &BoxInfo{Offset: vU64("o"), Size: vU64("s"), HeaderSize: vU64("h")}
	vAssume(bi.Offset <= 1<<61 && bi.Size <= 1<<61 && bi.HeaderSize <= bi.Size)
	f := &hSparse{pos: vI64("pos"), eof: vI64("eof")}
	p, err := bi.SeekToStart(f)
	vAssert(err == nil && uint64(p) == bi.Offset && f.pos == p, "seeking to the start of a box")
	p, err = bi.SeekToPayload(f)
	vAssert(err == nil && uint64(p) == bi.Offset+bi.HeaderSize && f.pos == p, "seeking to the payload of a box")
	p, err = bi.SeekToEnd(f)
	vAssert(err == nil && uint64(p) == bi.Offset+bi.Size && f.pos == p, "seeking to the end of a box")
}

// the same with an ordinary reader
func hC05Real() {
	n := vChoose("len", vParamInt("max")+1)
	d := vBytes("h", n)
	skip := vChoose("skip", 4)
	r := bytes.NewReader(append(make([]byte, skip), d...))
	r.Seek(int64(skip), io.SeekStart)
	got, err := ReadBoxInfo(r)
	vObsErr("err", err)
	if err != nil {
		return
	}
	vAssert(n >= 8 && got.Offset == uint64(skip), "a header needs eight bytes")
	vObsU("size", got.Size)
	pos, _ := r.Seek(0, io.SeekCurrent)
	vAssert(uint64(pos) == uint64(skip)+got.HeaderSize, "the reader stands behind the header")
	vAssert(got.Size >= got.HeaderSize, "a box is not shorter than its header")
	if got.ExtendToEOF {
		vAssert(got.Size == uint64(n), "a box without size extends to the end of the file")
	}
}

// the listed exception
func hC05Grow() {
	bi := &BoxInfo{Size: 1 << 33, HeaderSize: 8, Type: StrToBoxType("mdat")}
	f := &hSparse{}
	out, err := WriteBoxInfo(f, bi)
	vAssert(err == nil, "a header can be written")
	f.pos = 0
	got, err := ReadBoxInfo(f)
	vAssert(err == nil && got.Size == out.Size, "the size written is the size reported when the header has to grow")
}
