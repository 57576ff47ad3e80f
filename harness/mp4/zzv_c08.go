package HARNESS

//use walk types movie

import (
	"errors"
	"io"
)

func vInst_C08(tier string) []string {
	max := 20
	types := []string{"mmz", "zmz"}
	if tier == "thorough" {
		max = 26
		types = append(types, "mzm", "zzm", "mmmz")
	}
	var out []string
	for _, t := range types {
		out = append(out, "hC08Step types="+t+" @hang=1 @qtime=120000")
	}
	for n := 0; n <= max; n += 2 {
		out = append(out, "hC08Walk len="+hItoa(n)+" @hang=1", "hC08Extract len="+hItoa(n)+" @hang=1")
	}
	for n := 0; n <= max+4; n += 4 {
		out = append(out, "hC08Probe len="+hItoa(n)+" @hang=1")
	}
	return append(out, "hC08Step types=?? @hang=1 @cover=nested,again", "hC08Tables @hang=1 @steps=3000000 @cover=ok", "hC08Fragment @hang=1 @cover=ok")
}

func vDoc_C08() []string {
	return []string{
		"bound: walks, extractions and probes of all files of up to 20 bytes (26 in the thorough tier; 24 or 30 for probing) made of boxes of a few types with every box size and header form",
		"bound: 2 consecutive steps (3 or 4 for some sequences of box types) of a walk over a file of any length up to 2^60 bytes with arbitrary content at every position except that boxes are containers or unknown boxes; sizes of 16-byte headers included",
		"bound: probing a track whose sample tables have arbitrary values except that at most 3 samples are declared",
		"assume: the work of expanding a time-to-sample table is counted against the number of samples it declares",
	}
}

// hCount is a file that counts operations.
type hCount struct {
	d   []byte
	pos int64
	ops int
	max int
}

func (f *hCount) Seek(off int64, whence int) (int64, error) {
	f.op()
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.d))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = off
	return off, nil
}

func (f *hCount) op() {
	f.ops++
	vAssert(f.ops <= f.max, "the number of operations is bounded by the length of the file")
}

func (f *hCount) Read(b []byte) (int, error) {
	f.op()
	if f.pos >= int64(len(f.d)) {
		return 0, io.EOF
	}
	n := copy(b, f.d[f.pos:])
	f.pos += int64(n)
	return n, nil
}

var hC08Menu = []hMenu{{"moov", []int{hExpand, hPayExp}}, {"free", []int{hExpand}}, {"trak", []int{hExpand}}, {"zzzz", []int{hSkip}}}

func hC08File(menu []hMenu) *hCount {
	d := vBytes("d", vParamInt("len"))
	ref := &hRef{d: d, menu: menu, max: 6}
	ref.walk(0, 0, true, nil, Context{})
	return &hCount{d: d, max: 40 + 8*len(d)}
}

func hC08Walk() {
	f := hC08File(hC08Menu)
	last := -1
	_, err := ReadBoxStructure(f, func(h *ReadHandle) (interface{}, error) {
		vAssert(int(h.BoxInfo.Offset) > last, "every step of the walk moves forward")
		last = int(h.BoxInfo.Offset)
		if h.BoxInfo.IsSupportedType() {
			if _, _, err := h.ReadPayload(); err != nil {
				return nil, err
			}
			return h.Expand()
		}
		return nil, nil
	})
	vObsErr("err", err)
}

func hC08Extract() {
	f := hC08File([]hMenu{{"moov", []int{hExpand}}, {"trak", []int{hExpand}}, {"zzzz", []int{hSkip}}})
	t := StrToBoxType("trak")
	bis, _ := ExtractBoxes(f, nil, []BoxPath{{BoxTypeMoov()}, {BoxTypeMoov(), BoxTypeAny()}, {BoxTypeMoov(), t, t}, {BoxTypeMoov(), t, t, BoxTypeAny(), t}})
	last := -1
	for _, bi := range bis {
		vAssert(int(bi.Offset) > last, "no box is returned twice")
		last = int(bi.Offset)
	}
}

func hC08Probe() {
	f := hC08File([]hMenu{{"moov", []int{hExpand}}, {"trak", []int{hExpand}}, {"moof", []int{hExpand}}, {"free", []int{hSkip}}})
	f.max *= 4
	_, err := Probe(f)
	vObsErr("err", err)
}

// hAny is a file with arbitrary content: whatever is read anywhere is a fresh arbitrary value.
// The type of every box is moov, or one the library does not know.
type hAny struct {
	pos, eof int64
	large    bool
	moov     bool
	types    string // types of the boxes in the order of reading
}

func (f *hAny) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off = f.eof
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = off
	return off, nil
}

func (f *hAny) Read(b []byte) (int, error) {
	if f.pos+int64(len(b)) > f.eof {
		return 0, io.EOF
	}
	copy(b, vBytes("any", len(b)))
	if f.large = len(b) == 8 && !f.large; f.large {
		// a header; its size may be followed by a large size
		if f.types == "" {
			f.types = "?"
		}
		f.moov = f.types[0] == 'm' || f.types[0] == '?' && vBool("moov")
		f.types = f.types[1:]
		if f.moov {
			copy(b[4:], "moov")
		} else {
			copy(b[4:], "zzzz")
		}
		f.large = b[0] == 0 && b[1] == 0 && b[2] == 0 && b[3] == 1
	}
	f.pos += int64(len(b))
	return len(b), nil
}

var hStop = errors.New("stop")

func hC08Step() {
	f := &hAny{eof: vI64("eof"), types: vParam("types")}
	vAssume(vAnd(f.eof >= 0, f.eof <= 1<<60))
	steps := len(f.types)
	last := int64(-8)
	var ends []int64
	_, err := ReadBoxStructure(f, func(h *ReadHandle) (interface{}, error) {
		bi := h.BoxInfo
		start, end := int64(bi.Offset), int64(bi.Offset+bi.Size)
		vAssert(start >= last+8, "every step of the walk moves forward")
		vAssert(end >= start+8, "a box is not empty")
		vAssert(f.pos >= start+8, "the header has been passed")
		last = start
		ends = append(ends[:len(h.Path)-1], end)
		if len(ends) > 1 {
			vAssert(end <= ends[len(ends)-2], "a box ends inside its parent")
			vCover("nested")
		}
		steps--
		if steps == 0 {
			return nil, hStop
		}
		if f.moov {
			return h.Expand()
		}
		vCover("again")
		return nil, nil
	})
	_ = err
}

// a track with arbitrary tables
func hC08Tables() {
	stts := vBytes("stts", 8+8*2)
	stts[0] = 0
	for i := 0; i < 2; i++ {
		stts[8+8*i], stts[9+8*i], stts[10+8*i] = 0, 0, 0
		vAssume(stts[11+8*i] < 4)
	}
	vAssume(stts[11]+stts[19] <= 3)
	var stbl []byte
	stbl = hPut(stbl, "stts", stts...)
	stbl = hPut(stbl, "stsc", hTable("stsc", 2, 12)...)
	stbl = hPut(stbl, "stco", hTable("stco", 2, 4)...)
	stbl = hPut(stbl, "ctts", hTable("ctts", 2, 8)...)
	stbl = hPut(stbl, "stsz", append([]byte{0, 0, 0, 0, 0, 0, 0, 0}, hTable("stsz", 1, 4)[4:]...)...)
	tkhd := make([]byte, 84)
	mdhd := make([]byte, 24)
	mdia := hPut(hPut(nil, "mdhd", mdhd...), "minf", hPut(nil, "stbl", stbl...)...)
	trak := hPut(hPut(nil, "tkhd", tkhd...), "mdia", mdia...)
	f := &hCount{d: hPut(nil, "moov", hPut(nil, "trak", trak...)...), max: 2000}
	info, err := Probe(f)
	if err == nil {
		vAssert(len(info.Tracks) == 1 && len(info.Tracks[0].Samples) <= 3 && len(info.Tracks[0].Chunks) <= 2, "the result is no larger than the tables")
		vCover("ok")
	}
}

// a fragment with arbitrary headers
func hC08Fragment() {
	tfhd := vBytes("tfhd", 8+8*vChoose("tfhdlen", 3))
	tfhd[0] = 0
	trun := vBytes("trun", 8+4*vChoose("trunlen", 5))
	trun[4], trun[5], trun[6] = 0, 0, 0
	vAssume(trun[7] <= 3)
	traf := hPut(hPut(nil, "tfhd", tfhd...), "trun", trun...)
	f := &hCount{d: hPut(nil, "moof", hPut(nil, "traf", traf...)...), max: 2000}
	info, err := Probe(f)
	if err == nil {
		vAssert(len(info.Segments) == 1, "one segment per fragment")
		vCover("ok")
	}
}
