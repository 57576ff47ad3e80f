package HARNESS

//use tree movie index

func vInst_C22(tier string) []string {
	boxes := "3"
	if tier == "thorough" {
		boxes = "4"
	}
	return []string{
		"hC22Extract boxes=" + boxes + " depth=3 @cover=found,nothing,nested",
		"hC22Movie @cover=many",
		"hC22Large @cover=large",
		"hC22Broken @cover=error,skipped",
		"hC22Corrupt @cover=error",
		"hC22Main @cover=ok,error",
	}
}

func vDoc_C22() []string {
	return []string{
		"bound: extract: every forest of up to 3 (thorough 4) boxes of 4 kinds in 3 levels with short and 16-byte headers and arbitrary content, a whole small file, boxes around the sizes at which contents are skipped; every requested type not beginning with '-'",
		"bound: extract: a file of a dozen boxes with the size of any one box replaced by 19 short and 12 long sizes around the interesting ones",
		"assume: the packages os and golang.org/x/term are modelled (files in memory); the models are compared with the real packages on every replayed trace",
	}
}

func hC22Kinds() []hKind {
	own := func(n int) func() []byte { return func() []byte { return vBytes("own", n) } }
	return []hKind{
		{typ: "moov", kids: true},
		{typ: "udta", kids: true},
		{typ: "free", own: own(3)},
		{typ: "moog", own: own(9)},
	}
}

// hC22Run runs the command.
func hC22Run(args ...string) (int, []byte) {
	vCaptureStdout()
	rc := Main(args)
	return rc, vStdout()
}

func hC22Extract() {
	nodes := hForest(vParamInt("boxes"), vParamInt("depth"), true, hC22Kinds())
	d := hEmit(nodes, vChoose("ext", 2) == 1)
	t := vBytes("t", 4)
	vAssume(t[0] != '-') // would be an option
	var want []byte
	for _, nd := range nodes {
		if vStrEq(nd.typ, string(t)) {
			want = append(want, d[nd.off:nd.off+nd.size]...)
			vCover("found")
			if nd.depth > 0 {
				vCover("nested")
			}
		}
	}
	if want == nil {
		vCover("nothing")
	}
	rc, out := hC22Run(string(t), vPutFile("in.mp4", d))
	vAssert(rc == 0, "the command succeeds on a well-formed file")
	vAssert(vBytesEq(out, want), "exactly the boxes of the type are written, in order")
}

func hC22Movie() {
	d := hMovie()
	ents := hIndex(d)
	k := vChoose("box", len(ents))
	x := vBytes("x", 4)
	if ents[k].typ == "mdat" {
		copy(d[ents[k].off+8:], x)
	}
	var want []byte
	n := 0
	for _, e := range ents {
		if e.typ == ents[k].typ {
			want = append(want, d[e.off:e.off+e.size]...)
			n++
		}
	}
	if n > 1 {
		vCover("many")
	}
	rc, out := hC22Run(ents[k].typ, vPutFile("in.mp4", d))
	vAssert(rc == 0 && vBytesEq(out, want), "exactly the boxes of the type are written, in order")
}

// containers of any size are looked into
func hC22Large() {
	types := []string{"moov", "trak", "mdia", "minf", "stbl", "edts", "udta", "moof", "traf", "mvex", "dinf", "sinf", "schi", "mfra", "meta", "stsd", "dref", "avc1", "encv", "mp4a", "enca", "wave"}
	typ := types[vChoose("type", len(types))]
	own := hOwn(typ, false)
	room := []int{8, 47, 48, 255 - 8 - own - 17 - 8, 256 - 8 - own - 17 - 8, 300}
	fill := room[vChoose("fill", len(room))]
	if fill < 0 {
		vStopPath()
	}
	in := hBox("udtx", vBytes("x", 9))
	d := hBox(typ, hNum(0, own), hBox("free", make([]byte, fill)), in)
	if len(d) >= 256 {
		vCover("large")
	}
	if vChoose("deep", 2) == 1 {
		d = hBox("trak", hBox("free", make([]byte, 250)), d)
	}
	d = append(d, hBox("free", []byte{1})...)
	rc, out := hC22Run("udtx", vPutFile("in.mp4", d))
	vAssert(rc == 0 && vBytesEq(out, in), "boxes inside large containers are found")
}

func hC22Broken() {
	in := hBox("uuuu", vBytes("x", 3))
	tail := hBox("uuuu", vBytes("y", 2))
	switch vChoose("case", 5) {
	case 0: // a version the library does not know: the contents are skipped
		v := vU8("v")
		vAssume(v > 1)
		d := hPutAll(hBox("moov", hBox("stsd", []byte{v, 0, 0, 0}, hNum(1, 4), in), tail), in)
		rc, out := hC22Run("uuuu", vPutFile("in.mp4", d))
		vAssert(rc == 0 && vBytesEq(out, hPutAll(tail, in)), "a box of an unknown version is passed over")
		vCover("skipped")
	case 1: // a box that is cut off
		d := hPutAll(in, hBox("moov", tail))
		n := 1 + vChoose("cut", 10)
		rc, _ := hC22Run("moov", vPutFile("in.mp4", d[:len(d)-n]))
		vAssert(rc == 1, "a box that is cut off is an error")
		vCover("error")
	case 2: // a box larger than its parent
		d := hPutAll(hBox("moov", in), tail)
		d[11] += byte(1 + vChoose("more", 12))
		rc, _ := hC22Run("zzzz", vPutFile("in.mp4", d))
		vAssert(rc == 1, "a box that exceeds its parent is an error")
	case 3: // a box smaller than its header
		d := hPutAll(hBox("moov", in), tail)
		d[11] = byte(2 + vChoose("size", 6))
		rc, _ := hC22Run("zzzz", vPutFile("in.mp4", d))
		vAssert(rc == 1, "a size smaller than the header is an error")
	case 4: // bytes left over in a container
		n := 1 + vChoose("left", 7)
		d := hPutAll(hBox("moov", in, hNum(0, n)), tail)
		rc, _ := hC22Run("zzzz", vPutFile("in.mp4", d))
		vAssert(rc == 1, "bytes left over in a container are an error")
	}
}

// hC22Hurt changes the size of one box.
func hC22Hurt(d []byte, e hEntry) {
	left := len(d) - e.off
	sizes := []int{0, 2, 7, 8, 9, 12, e.size - 8, e.size - 1, e.size + 1, e.size + 8, left - 1, left, left + 1, left + 300, 1 << 17, 1<<17 + 8, 1<<31 - 1, 1<<31 + 5, 1<<32 - 1}
	copy(d[e.off:], hNum(uint64(sizes[vChoose("size", len(sizes))]), 4))
}

func hC22Corrupt() {
	d := hSmall()
	ents := hIndex(d)
	e := ents[vChoose("box", len(ents))]
	if vChoose("form", 2) == 0 {
		hC22Hurt(d, e)
	} else if e.size >= 16 {
		// a 16-byte header over the first bytes of the content
		copy(d[e.off:], hNum(1, 4))
		sizes := []uint64{0, 15, 16, uint64(e.size), uint64(e.size) + 1, 1 << 32, 1<<32 + 20, 1 << 61, 1<<63 - 1, 1<<63 - 1 - uint64(e.off), 1 << 63, 1<<64 - 1}
		copy(d[e.off+8:], hNum(sizes[vChoose("size64", len(sizes))], 8))
	}
	rc, out := hC22Run(e.typ, vPutFile("in.mp4", d))
	vAssert(rc == 0 || rc == 1 && len(out) > 0, "malformed input gives an exit status")
	if rc == 1 {
		vCover("error")
	}
}

func hC22Main() {
	switch vChoose("case", 4) {
	case 0:
		rc, out := hC22Run("moov", vPath("missing.mp4"))
		vAssert(rc == 1 && len(out) > 0, "a missing file is an error")
		vCover("error")
	case 1:
		b := vBytes("t", vChoose("len", 7))
		vAssume(len(b) == 0 || b[0] != '-')
		vAssume(len(b) != 4)
		rc, out := hC22Run(string(b), vPutFile("in.mp4", hBox("moov")))
		vAssert(rc == 1 && len(out) == 0, "a type needs four characters")
	case 2:
		rc, out := hC22Run("moov", vPutFile("in.mp4", nil))
		vAssert(rc == 0 && len(out) == 0, "an empty file has no boxes")
		vCover("ok")
	case 3:
		rc, _ := hC22Run("moov")
		vAssert(rc == 1, "a missing argument is an error")
	}
}
