package HARNESS

//use types
//use spec
//use show
//use movie
//use file

import "bytes"

func vInst_C20(tier string) []string {
	out := hTypeInsts("hC20", tier)
	if tier != "thorough" {
		for i, l := range out {
			if l == "hC20 type="+hHexName("trun")+" max=24 @merge=0" {
				out[i] = "hC20 type=" + hHexName("trun") + " max=20 @merge=0"
			}
		}
	}
	out = append(out, hSpecInsts("hC20Spec", tier)...)
	for _, what := range []string{"walk", "extract", "payload", "probe", "header", "write"} {
		out = append(out, "hC20File what="+what)
	}
	return out
}

func vDoc_C20() []string {
	return []string{
		"bound: every registered type, every payload the decoder accepts up to the sizes of C01 and every box of C03, in every context; every store the calls make is checked against the storage that existed before",
		"bound: traversal, extraction, probing and writing of one file with two tracks, user data and a fragment",
		"bound: printed texts start with three ASCII characters and continue with printable ones",
		"assume: a write to shared storage counts when the race detector or an altered value confirms it on the real code (four goroutines, 25 rounds)",
	}
}

func hC20() {
	bt := hType()
	ctx := hCtx()
	p := hPayload()
	before := append([]byte{}, p...)
	vPar(func() {
		r1 := bytes.NewReader(p)
		a, n, err := UnmarshalAny(r1, bt, uint64(len(p)), ctx)
		if err != nil {
			return
		}
		r2 := bytes.NewReader(p)
		b, n2, err := UnmarshalAny(r2, bt, uint64(len(p)), ctx)
		vAssert(err == nil && n2 == n, "decoding the same bytes again gives the same result")
		vAssert(vEqual(a, b), "decoding the same bytes again gives the same box")
		vAssert(vNoAlias(a, p), "a decoded box shares no storage with the input")
		vAssert(vNoAlias(a, b), "decoded boxes share no storage")
	})
	vAssert(vBytesEq(before, p), "decoding leaves the input as it was")
	box, _, err := UnmarshalAny(bytes.NewReader(p), bt, uint64(len(p)), ctx)
	if err != nil {
		return
	}
	vCover("decoded")
	hC20Use(box, ctx)
}

// hC20Use: encoding and printing leave the box alone.
func hC20Use(box IBox, ctx Context) {
	before := vClone(box)
	vPar(func() {
		w1, w2 := &bytes.Buffer{}, &bytes.Buffer{}
		n, err := Marshal(w1, box, ctx)
		n2, err2 := Marshal(w2, box, ctx)
		vAssert((err == nil) == (err2 == nil) && n == n2, "encoding the same box again gives the same result")
		vAssert(vBytesEq(w1.Bytes(), w2.Bytes()), "encoding the same box again gives the same bytes")
	})
	vAssert(vEqual(before, box), "encoding leaves the box as it was")
	(&hShower{box: box, ctx: ctx}).structure(hElem(box)) // restricts the texts
	vPar(func() {
		_, err := Stringify(box, ctx)
		vAssert(err == nil, "the box can be printed")
	})
	vAssert(vEqual(before, box), "printing leaves the box as it was")
}

func hC20Spec() {
	name := hUnhex(vParam("type"))
	ctx := hSpecCtx(name)
	s := &hs{max: vParamInt("max"), fix: vParamInt("fix")}
	box := hSpecBox(name, ctx, s)
	vCover("encoded")
	hC20Use(box, ctx)
}

// hC20Vary makes field values arbitrary that do not affect the layout.
func hC20Vary(file []byte) {
	for i := 4; i+8 < len(file); i++ {
		size := int(file[i-2])<<8 + int(file[i-1])
		from := 0
		switch string(file[i : i+4]) {
		case "mvhd", "tkhd", "mdhd", "tfdt":
			from = 8
		case "stts", "ctts", "elst", "stsz":
			from = 16
		}
		if from > 0 && size < 120 {
			copy(file[i+from:i-4+size], vBytes("field", size-4-from))
			i += size - 5
		}
	}
	file[len(file)-1] = vU8("last")
}

// hC20File: the calls that work on whole files.
func hC20File() {
	file := hMovie()
	hC20Vary(file)
	before := append([]byte{}, file...)
	what := vParam("what")
	moov := StrToBoxType("moov")
	paths := make([]BoxPath, 2, 4)
	paths[0] = append(make(BoxPath, 0, 8), moov, StrToBoxType("trak"), StrToBoxType("tkhd"))
	paths[1] = append(make(BoxPath, 0, 8), moov, BoxTypeAny(), BoxTypeAny())
	bis, err := ExtractBox(bytes.NewReader(file), nil, BoxPath{moov, StrToBoxType("trak")})
	vAssert(err == nil && len(bis) == 2, "the tracks are found")
	bi := bis[0]
	vPar(func() {
		r := bytes.NewReader(file)
		switch what {
		case "walk":
			n := 0
			for k := 0; k < 2; k++ {
				_, err := ReadBoxStructure(r, func(h *ReadHandle) (interface{}, error) {
					n++
					if !h.BoxInfo.IsSupportedType() {
						return nil, nil
					}
					if _, _, err := h.ReadPayload(); err != nil {
						return nil, err
					}
					return h.Expand()
				})
				vAssert(err == nil, "the file can be walked")
			}
			vAssert(n > 40 && n%2 == 0, "walking again visits the same boxes")
		case "extract":
			a, err := ExtractBoxes(r, nil, paths)
			vAssert(err == nil, "boxes are extracted")
			b, err := ExtractBoxes(r, nil, paths)
			vAssert(err == nil, "boxes are extracted")
			vAssert(len(a) > 2 && vEqual(a, b), "extracting again gives the same boxes")
			vAssert(vNoAlias(a, b), "extracted boxes share no storage")
			_, err = ExtractBoxes(r, bi, paths)
			vAssert(err == nil, "boxes are extracted from a parent")
		case "payload":
			a, err := ExtractBoxesWithPayload(r, nil, paths)
			vAssert(err == nil, "boxes are extracted")
			b, err := ExtractBoxesWithPayload(r, nil, paths)
			vAssert(err == nil, "boxes are extracted")
			vAssert(len(a) > 2 && vEqual(a, b), "extracting again gives the same boxes")
			vAssert(vNoAlias(a, b), "extracted boxes share no storage")
			vAssert(vNoAlias(a, file), "extracted boxes share no storage with the file")
		case "probe":
			a, err := Probe(r)
			vAssert(err == nil, "the file can be probed")
			b, err := Probe(r)
			vAssert(err == nil, "the file can be probed")
			vAssert(vEqual(a, b), "probing again gives the same result")
			vAssert(vNoAlias(a, b), "results share no storage")
		case "header":
			_, err := bi.SeekToPayload(r)
			vAssert(err == nil, "seeking works")
			_, err = bi.SeekToEnd(r)
			vAssert(err == nil, "seeking works")
			_, err = bi.SeekToStart(r)
			vAssert(err == nil, "seeking works")
			x, err := ReadBoxInfo(r)
			vAssert(err == nil && x.Size == bi.Size, "the header is read")
			_, err = ReadBoxStructureFromInternal(r, bi, func(h *ReadHandle) (interface{}, error) { return nil, nil })
			vAssert(err == nil, "the box can be walked")
		case "write":
			out := &hFile{}
			_, err := WriteBoxInfo(out, bi)
			vAssert(err == nil, "a header can be written")
			w := NewWriter(&hFile{})
			_, err = w.StartBox(bi)
			vAssert(err == nil, "a box can be started")
			err = w.CopyBox(r, bi)
			vAssert(err == nil, "a box can be copied")
			_, err = w.EndBox()
			vAssert(err == nil, "a box can be ended")
		}
		vCover(what)
	})
	vAssert(vBytesEq(before, file), "the file is left as it was")
}
