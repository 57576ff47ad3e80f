package HARNESS

//use file types movie spec

import (
	"bytes"
	"io"
)

func vInst_C11(tier string) []string {
	var out []string
	for _, t := range hAllTypes {
		max := t.q
		if tier != "thorough" {
			if max > 20 && max <= 36 && t.name != "pssh" {
				max = 20
			}
		} else {
			max = t.t
		}
		out = append(out, "hC11Decode type="+hHexName(t.name)+" max="+hItoa(max)+hOpts(t.name))
		out = append(out, "hC11Encode type="+hHexName(t.name)+" max="+hItoa(max)+hOpts(t.name))
	}
	for _, p := range []string{"0", "1", "2"} {
		for _, f := range []string{"hC11Header", "hC11Writer", "hC11Copy", "hC11IDR"} {
			out = append(out, f+" partly="+p+" @cover=fault,ok")
		}
	}
	for _, p := range []string{"0", "1"} {
		for _, f := range []string{"hC11Probe", "hC11Keys"} {
			out = append(out, f+" partly="+p+" @cover=fault,ok")
		}
		for _, w := range []string{"payload", "data", "expand"} {
			out = append(out, "hC11Walk do="+w+" partly="+p+" @cover=fault,ok")
		}
		for i := 0; i < 4; i++ {
			out = append(out, "hC11Extract set="+hItoa(i)+" partly="+p+" @cover=fault,ok")
		}
	}
	for _, w := range []string{"payload", "data", "probe"} {
		for part := 0; part < 4; part++ {
			out = append(out, "hC11Cut do="+w+" part="+hItoa(part))
		}
	}
	return out
}

func vDoc_C11() []string {
	return []string{
		"bound: one failing operation at any place of decoding and encoding arbitrary payloads of every type up to the sizes of C01 (20 bytes for most in the quick tier), of reading and writing arbitrary headers, of writing and copying nested boxes, and of walking, extracting from, probing and searching a file with two tracks, an item list and a fragment; failing reads and writes transfer nothing or all but one byte",
		"bound: walking and probing the same file cut off at any place",
		"outside: a source that itself reports io.ErrUnexpectedEOF while the header of a top-level box is read, which may count as the end of the file (decoding, copying and the search for sync samples see such a source); a reader that returns all the data asked for together with an error; a writer that reports a short count without an error; a header cut off by the end of the file at the top level, which counts as the end of the file; several failures in one operation",
	}
}

func hC11Open(d []byte) *hFile {
	return &hFile{d: d, faults: true, partly: vParam("partly") != "0", eofErr: vParam("partly") == "2"}
}

func (f *hFile) check(err error) {
	if f.failed {
		vAssert(err != nil, "a failing read, write or seek is reported")
		vCover("fault")
	} else {
		vCover("ok")
	}
}

func hC11Decode() {
	bt := hType()
	p := hPayload()
	ctx := Context{}
	hSetCtx(&ctx, bt)
	f := &hFile{d: p, faults: true, partly: vBool("partly")}
	_, n, err := UnmarshalAny(f, bt, uint64(len(p)), ctx)
	f.check(err)
	if err == nil {
		vAssert(f.pos == int64(n), "the reported number of bytes was read")
	}
}

func hSetCtx(ctx *Context, bt BoxType) {
	switch bt.String() {
	case "mean", "name", "data":
		ctx.UnderIlst, ctx.UnderIlstMeta, ctx.UnderIlstFreeMeta = true, true, true
	case "0x00000001":
		ctx.UnderIlst, ctx.QuickTimeKeysMetaEntryCount = true, 2
	case "----", "aART", "(c)nam":
		ctx.UnderIlst = true
	case "cprt", "titl":
		ctx.UnderUdta = true
	}
}

func hC11Encode() {
	bt := hType()
	p := hPayload()
	ctx := Context{}
	hSetCtx(&ctx, bt)
	box, n, err := UnmarshalAny(bytes.NewReader(p), bt, uint64(len(p)), ctx)
	if err != nil {
		vStopPath()
	}
	f := &hFile{faults: true, partly: vBool("partly")}
	m, err := Marshal(f, box, ctx)
	f.check(err)
	if err == nil {
		vAssert(m == uint64(len(f.d)) && f.pos == int64(m), "the reported number of bytes was written")
	}
	_ = n
}

func hC11Header() {
	f := hC11Open(vBytes("h", 20))
	_, err := ReadBoxInfo(f)
	if f.failed || err == nil {
		f.check(err)
	}
	g := hC11Open(make([]byte, 5))
	g.pos = 5
	bi := &BoxInfo{Size: vU64("size"), HeaderSize: 8 + 8*uint64(vChoose("large", 2)), ExtendToEOF: vBool("ext")}
	copy(bi.Type[:], vBytes("type", 4))
	bi2, err := WriteBoxInfo(g, bi)
	g.check(err)
	if err == nil {
		vAssert(uint64(len(g.d)) == 5+bi2.HeaderSize, "the whole header was written")
	}
}

func hC11Writer() {
	f := hC11Open(nil)
	w := NewWriter(f)
	err := func() error {
		if _, err := w.StartBox(&BoxInfo{Type: BoxTypeMoov()}); err != nil {
			return err
		}
		if _, err := w.StartBox(&BoxInfo{Type: BoxTypeMdat(), HeaderSize: 16}); err != nil {
			return err
		}
		n, err := w.Write(vBytes("data", 3))
		if err != nil {
			return err
		}
		vAssert(n == 3, "the reported number of bytes was written")
		if _, err := w.EndBox(); err != nil {
			return err
		}
		if _, err := w.Seek(0, io.SeekCurrent); err != nil {
			return err
		}
		_, err = w.EndBox()
		return err
	}()
	f.check(err)
	if err == nil {
		vAssert(len(f.d) == 8+16+3, "everything was written")
	}
}

func hC11Copy() {
	src := &hFile{d: hPutAll(vBytes("lead", 3), hBox("free", vBytes("data", 9)), vBytes("rest", 2)), partly: vParam("partly") != "0", eofErr: vParam("partly") == "2"}
	dst := &hFile{partly: src.partly}
	if vBool("source") {
		src.faults = true
	} else {
		dst.faults = true
	}
	bi := &BoxInfo{Offset: 3, Size: 17, HeaderSize: 8, Type: BoxTypeFree()}
	if vBool("truncated") {
		src.d = src.d[:3+vChoose("len", 17)]
		err := NewWriter(dst).CopyBox(src, bi)
		vAssert(err != nil, "copying a box that ends early is an error")
		return
	}
	err := NewWriter(dst).CopyBox(src, bi)
	if src.failed || dst.failed {
		vAssert(err != nil, "a failing read, write or seek is reported")
		vCover("fault")
		return
	}
	vAssert(err == nil && vBytesEq(dst.d, src.d[3:20]), "the box was copied")
	vCover("ok")
}

func hC11Walk() {
	f := hC11Open(hMovie())
	do := vParam("do")
	sink := &bytes.Buffer{}
	_, err := ReadBoxStructure(f, func(h *ReadHandle) (interface{}, error) {
		if do == "data" && len(h.Path) > 1 {
			sink.Reset()
			n, err := h.ReadData(sink)
			if err != nil {
				return nil, err
			}
			vAssert(n == uint64(sink.Len()) && n == h.BoxInfo.Size-h.BoxInfo.HeaderSize, "the reported number of bytes was handed out")
			return nil, nil
		}
		if !h.BoxInfo.IsSupportedType() || h.BoxInfo.Type == BoxTypeMdat() {
			return nil, nil
		}
		if do == "payload" {
			if _, _, err := h.ReadPayload(); err != nil {
				return nil, err
			}
		}
		return h.Expand()
	})
	f.check(err)
}

func hC11Extract() {
	f := hC11Open(hMovie())
	sets := [][]BoxPath{
		{{BoxTypeMoov(), BoxTypeTrak(), BoxTypeTkhd()}},
		{{BoxTypeMoov(), BoxTypeUdta(), BoxTypeMeta(), BoxTypeIlst(), BoxTypeAny(), BoxTypeData()}},
		{{BoxTypeMoof(), BoxTypeTraf(), BoxTypeAny()}, {BoxTypeMdat()}},
		{{BoxTypeMoov(), BoxTypeAny(), BoxTypeMdia(), BoxTypeMinf(), BoxTypeStbl(), BoxTypeStsd(), BoxTypeAvc1(), BoxTypeAvcC()}},
	}
	paths := sets[vParamInt("set")]
	if vBool("payload") {
		_, err := ExtractBoxesWithPayload(f, nil, paths)
		f.check(err)
		return
	}
	_, err := ExtractBoxes(f, nil, paths)
	f.check(err)
}

func hC11Probe() {
	f := hC11Open(hMovie())
	_, err := Probe(f)
	f.check(err)
}

func hC11Keys() {
	d := hPutAll(hBox("ftyp", []byte("qt  "), make([]byte, 4), []byte("qt  ")),
		hBox("moov", hBox("keys", make([]byte, 4), hNum(1, 4), hNum(9, 4), []byte("mdtax")), hBox("ilst", hBox("\x00\x00\x00\x01", hBox("data", hNum(1, 4), make([]byte, 4))))))
	f := hC11Open(d)
	_, err := ReadBoxStructure(f, func(h *ReadHandle) (interface{}, error) {
		return h.Expand()
	})
	f.check(err)
}

func hC11IDR() {
	f := hC11Open(hPutAll(vBytes("a", 2), []byte{0, 1}, vBytes("n", 2), []byte{0, 2}, vBytes("m", 4)))
	tr := &TrackInfo{AVC: &AVCDecConfigInfo{LengthSize: 2}, Chunks: []*Chunk{{DataOffset: 2, SamplesPerChunk: 2}}, Samples: []*Sample{{Size: 3}, {Size: 5}}}
	_, err := FindIDRFrames(f, tr)
	f.check(err)
}

// a file that ends early
func hC11Cut() {
	full := hMovie()
	k := len(full) / 4
	cut := vParamInt("part")*k + vChoose("cut", k)
	f := &hFile{d: full[:cut]}
	do := vParam("do")
	if do == "probe" {
		info, err := Probe(f)
		if err == nil {
			// everything probing looks at is there
			vAssert(cut >= hStart(full, "mdat") || len(info.Segments) == 0, "a fragment cut off is an error")
			vAssert(cut >= hStart(full, "udta") || len(info.Tracks) < 2, "a track cut off is an error")
		}
		return
	}
	sink := &bytes.Buffer{}
	_, err := ReadBoxStructure(f, func(h *ReadHandle) (interface{}, error) {
		bi := h.BoxInfo
		if do == "data" {
			sink.Reset()
			n, err := h.ReadData(sink)
			vAssert((err != nil) == (bi.Offset+bi.Size > uint64(cut)), "data cut off is an error")
			if err == nil {
				vAssert(n == uint64(sink.Len()) && n == bi.Size-bi.HeaderSize, "the reported number of bytes was handed out")
			}
		}
		if !bi.IsSupportedType() {
			return nil, nil
		}
		if do == "payload" {
			_, n, err := h.ReadPayload()
			if err != nil {
				return nil, err
			}
			vAssert(bi.Offset+bi.HeaderSize+n <= uint64(cut), "a payload cut off is an error")
		}
		return h.Expand()
	})
	_ = err
}

// hStart is where the last box of a type starts.
func hStart(d []byte, typ string) int {
	for i := len(d) - 4; i > 4; i-- {
		if string(d[i:i+4]) == typ {
			return i - 4
		}
	}
	return 0
}
