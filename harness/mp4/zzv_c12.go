package HARNESS

//use file types movie

import (
	"bytes"
	"io"
)

func vInst_C12(tier string) []string {
	var out []string
	for _, t := range hAllTypes {
		max := t.q
		if tier == "thorough" {
			max = t.t
		} else if max > 24 && max <= 36 {
			max = 24
		}
		out = append(out, "hC12Decode type="+hHexName(t.name)+" max="+hItoa(max)+hOpts(t.name))
	}
	splits := "1"
	if tier == "thorough" {
		splits = "2"
	}
	out = append(out, "hC12Header splits=3 @cover=split")
	for _, w := range []string{"payload", "data", "probe", "extract", "copy", "keys"} {
		out = append(out, "hC12File do="+w+" splits="+splits+" @cover=split", "hC12File do="+w+" splits=0 ones=1")
	}
	return append(out, "hC12IDR splits=2 @cover=split")
}

func vDoc_C12() []string {
	return []string{
		"bound: arbitrary payloads of every type up to the sizes of C01 (24 bytes for most in the quick tier) delivered with up to two short reads cut anywhere, with or without the end of the file reported together with the last bytes, or one byte at a time",
		"bound: arbitrary box headers of up to 16 bytes with up to three short reads; a file with two tracks, an item list and a fragment walked, extracted from, probed and copied with one (two) short reads cut at the beginning, middle or end of any read, and one byte at a time",
		"outside: readers that return no data without an error, which the reading contract discourages and the library reports as an error",
	}
}

func (f *hFile) split() {
	f.splits, f.ones = vParamInt("splits"), vParam("ones") != ""
	f.eof = true
}

func hSame(a, b error) {
	vAssert((a == nil) == (b == nil), "success does not depend on how the data is delivered")
}

func hC12Decode() {
	bt := hType()
	p := hPayload()
	ctx := Context{UnderIlst: vBool("ilst"), UnderIlstMeta: vBool("ilstmeta"), UnderIlstFreeMeta: vBool("free"), UnderUdta: vBool("udta"), UnderWave: vBool("wave"), QuickTimeKeysMetaEntryCount: 1}
	b1, n1, err1 := UnmarshalAny(bytes.NewReader(p), bt, uint64(len(p)), ctx)
	f := &hFile{d: p, eof: true}
	if vChoose("ones", 2) == 1 {
		f.ones = true
	} else {
		f.splits = 2
	}
	b2, n2, err2 := UnmarshalAny(f, bt, uint64(len(p)), ctx)
	hSame(err1, err2)
	if err1 == nil {
		vAssert(n1 == n2, "the consumed size does not depend on how the data is delivered")
		vAssert(vEqual(b1, b2), "the decoded box does not depend on how the data is delivered")
	}
}

func hC12Header() {
	d := vBytes("h", 16)
	d = d[:vChoose("len", 17)]
	b1, err1 := ReadBoxInfo(bytes.NewReader(d))
	f := &hFile{d: d}
	f.split()
	b2, err2 := ReadBoxInfo(f)
	hSame(err1, err2)
	vAssert((err1 == io.EOF) == (err2 == io.EOF), "the end of the file does not depend on how the data is delivered")
	if err1 == nil {
		vAssert(*b1 == *b2, "the header does not depend on how the data is delivered")
	}
	if f.splits < vParamInt("splits") {
		vCover("split")
	}
}

type hC12Rec struct {
	bi   BoxInfo
	path BoxPath
	box  IBox
	n    uint64
	data []byte
}

func hC12Run(r io.ReadSeeker) (out []hC12Rec, err error) {
	switch vParam("do") {
	case "payload", "keys", "data":
		_, err = ReadBoxStructure(r, func(h *ReadHandle) (interface{}, error) {
			rec := hC12Rec{bi: h.BoxInfo, path: h.Path}
			if vParam("do") == "data" && len(h.Path) > 2 || h.BoxInfo.Type == BoxTypeMdat() {
				w := &bytes.Buffer{}
				n, err := h.ReadData(w)
				if err != nil {
					return nil, err
				}
				rec.n, rec.data = n, w.Bytes()
				out = append(out, rec)
				return nil, nil
			}
			if !h.BoxInfo.IsSupportedType() {
				out = append(out, rec)
				return nil, nil
			}
			box, n, err := h.ReadPayload()
			if err != nil {
				return nil, err
			}
			rec.box, rec.n = box, n
			out = append(out, rec)
			return h.Expand()
		})
	case "extract":
		bips, err := ExtractBoxesWithPayload(r, nil, []BoxPath{{BoxTypeMoov(), BoxTypeTrak(), BoxTypeAny()}, {BoxTypeMoov(), BoxTypeUdta(), BoxTypeMeta(), BoxTypeIlst(), BoxTypeAny(), BoxTypeData()}})
		for _, b := range bips {
			out = append(out, hC12Rec{bi: b.Info, box: b.Payload})
		}
		return out, err
	case "copy":
		w := &hFile{}
		err = NewWriter(w).CopyBox(r, &BoxInfo{Offset: 20, Size: 300, HeaderSize: 8})
		out = append(out, hC12Rec{data: w.d})
	}
	return
}

func hC12File() {
	var d []byte
	if vParam("do") == "keys" {
		d = hPutAll(hBox("ftyp", []byte("qt  "), make([]byte, 4), []byte("qt  ")),
			hBox("moov", hBox("keys", make([]byte, 4), hNum(1, 4), hNum(9, 4), []byte("mdtax")), hBox("ilst", hBox("\x00\x00\x00\x01", hBox("data", hNum(1, 4), make([]byte, 4))))))
	} else {
		d = hMovie()
	}
	f := &hFile{d: d}
	f.split()
	if vParam("do") == "probe" {
		i1, err1 := Probe(bytes.NewReader(d))
		i2, err2 := Probe(f)
		hSame(err1, err2)
		vAssert(err1 == nil && vEqual(i1, i2), "probing does not depend on how the data is delivered")
	} else {
		o1, err1 := hC12Run(bytes.NewReader(d))
		o2, err2 := hC12Run(f)
		hSame(err1, err2)
		vAssert(err1 == nil && len(o1) > 0, "the file is well formed")
		vAssert(len(o1) == len(o2), "the number of boxes does not depend on how the data is delivered")
		for i := range o1 {
			vAssert(o1[i].bi == o2[i].bi && o1[i].n == o2[i].n && vEqual(o1[i].path, o2[i].path), "the boxes do not depend on how the data is delivered")
			vAssert(vEqual(o1[i].box, o2[i].box), "the payloads do not depend on how the data is delivered")
			vAssert(vBytesEq(o1[i].data, o2[i].data), "the data does not depend on how it is delivered")
		}
	}
	if f.splits < vParamInt("splits") {
		vCover("split")
	}
}

func hC12IDR() {
	d := hPutAll(vBytes("a", 2), []byte{0, 1}, vBytes("n", 2), []byte{0, 2}, vBytes("m", 4))
	tr := &TrackInfo{AVC: &AVCDecConfigInfo{LengthSize: 2}, Chunks: []*Chunk{{DataOffset: 2, SamplesPerChunk: 2}}, Samples: []*Sample{{Size: 3}, {Size: 5}}}
	x1, err1 := FindIDRFrames(bytes.NewReader(d), tr)
	f := &hFile{d: d}
	f.split()
	x2, err2 := FindIDRFrames(f, tr)
	hSame(err1, err2)
	vAssert(vEqual(x1, x2), "the result does not depend on how the data is delivered")
	if f.splits < vParamInt("splits") {
		vCover("split")
	}
}
