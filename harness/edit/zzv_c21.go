package HARNESS

//use tree movie index

func vInst_C21(tier string) []string {
	boxes := "3"
	if tier == "thorough" {
		boxes = "4"
	}
	return []string{
		"hC21Forest boxes=2 depth=2 forms=1 @cover=same,dropped,inner",
		"hC21Forest boxes=" + boxes + " depth=3 forms=0 @cover=same,dropped,inner",
		"hC21Time @cover=v0,v1,many",
		"hC21Value",
		"hC21Movie @cover=same,dropped,time",
		"hC21Big",
		"hC21Broken @cover=error",
		"hC21Corrupt @cover=error",
	}
}

func vDoc_C21() []string {
	return []string{
		"bound: every forest of up to 3 (thorough 4) boxes of 6 kinds in 3 levels, of up to 2 boxes with short and 16-byte headers, with arbitrary content, no or up to two dropped types; decode-time boxes of both versions with arbitrary content at several places and new values around the limits of 32 and 64 bits or of three arbitrary digits; a whole small file with each of its types dropped; boxes larger than the read buffer; a file with the size of one box replaced",
		"assume: the packages os and fmt are modelled (files in memory, a device without space left); the models are compared with the real packages on every replayed trace",
		"outside: the value 2^64-1, which means no change; QuickTime files, where bytes after the last child of a container are not kept; types whose name is not four printable characters",
	}
}

func hC21Run(args ...string) (int, []byte) {
	vCaptureStdout()
	rc := Main(args)
	return rc, vStdout()
}

// hFilter leaves out the boxes of some types; last tells whether the last top-level box is kept.
func hFilter(nodes []*hNode, drop []string) (out []*hNode, last bool) {
	var stack []int
	for i := 0; i < len(nodes); {
		nd := nodes[i]
		gone := false
		for _, t := range drop {
			gone = gone || t == nd.typ
		}
		if nd.depth == 0 {
			last = !gone
		}
		if gone {
			vCover("dropped")
			if nd.depth > 0 {
				vCover("inner")
			}
			i = hSubtree(nodes, i)
			continue
		}
		c := *nd
		c.kids, c.ext = nil, false
		stack = append(stack[:nd.depth], len(out))
		if nd.depth > 0 {
			p := out[stack[nd.depth-1]]
			p.kids = append(p.kids, len(out))
		}
		out = append(out, &c)
		i++
	}
	return
}

func hC21Forest() {
	own := func(n int) func() []byte { return func() []byte { return vBytes("own", n) } }
	nodes := hForest(vParamInt("boxes"), vParamInt("depth"), vParamInt("forms") == 1, []hKind{
		{typ: "moov", kids: true},
		{typ: "udta", kids: true},
		{typ: "free", own: own(2)},
		{typ: "uuu1", own: own(3)},
		{typ: "mdat", own: own(1)},
		{typ: "stsd", kids: true, own: func() []byte { return append(hNum(0, 1), vBytes("own", 7)...) }},
	})
	ext := vChoose("ext", 2) == 1
	d := hEmit(nodes, ext)
	drops := []struct {
		arg   string
		types []string
	}{{"", nil}, {"udta", []string{"udta"}}, {"free,mdat", []string{"free", "mdat"}}, {"uuu1", []string{"uuu1"}}, {"stsd,uuuu", []string{"stsd"}}}
	dr := drops[vChoose("drop", len(drops))]
	keep, last := hFilter(nodes, dr.types)
	want := hEmit(keep, ext && last)
	in, res := vPutFile("in.mp4", d), vPath("out.mp4")
	var rc int
	if dr.types == nil {
		rc, _ = hC21Run(in, res)
		vAssert(vBytesEq(want, d), "the reference reproduces the file")
		vCover("same")
	} else {
		rc, _ = hC21Run("-drop", dr.arg, in, res)
	}
	got, ok := vGetFile(res)
	vAssert(rc == 0 && ok, "the command succeeds on a well-formed file")
	vAssert(vBytesEq(got, want), "the file is the same but for the dropped boxes and the sizes around them")
	src, _ := vGetFile(in)
	vAssert(vBytesEq(src, d), "the input file is not changed")
}

// hC21Set replaces the decode times of a file made of pieces.
func hC21Set(value uint64, b []byte) []byte {
	out := append([]byte{}, b...)
	if b[8] == 0 {
		copy(out[12:], []byte{byte(value >> 24), byte(value >> 16), byte(value >> 8), byte(value)})
		return out
	}
	copy(out[12:], []byte{byte(value >> 56), byte(value >> 48), byte(value >> 40), byte(value >> 32), byte(value >> 24), byte(value >> 16), byte(value >> 8), byte(value)})
	return out
}

func hTfdt(version int) []byte {
	b := append([]byte{byte(version)}, vBytes("flags", 3)...)
	return hBox("tfdt", b, vBytes("time", 4+4*version))
}

func hC21Time() {
	vals := []struct {
		s string
		v uint64
	}{{"0", 0}, {"1", 1}, {"4294967295", 1<<32 - 1}, {"4294967296", 1 << 32}, {"0x123456789abcdef0", 0x123456789abcdef0}, {"18446744073709551614", 1<<64 - 2}}
	val := vals[vChoose("value", len(vals))]
	v1, v2 := vChoose("version1", 2), vChoose("version2", 2)
	if v1 == 0 {
		vCover("v0")
	} else {
		vCover("v1")
	}
	t1, t2 := hTfdt(v1), hTfdt(v2)
	tail := hBox("free", vBytes("x", 3))
	var d, want []byte
	n1, n2 := hC21Set(val.v, t1), hC21Set(val.v, t2)
	two := false
	switch vChoose("where", 3) {
	case 0:
		d, want = hPutAll(hBox("moof", hBox("traf", t1), tail), tail), hPutAll(hBox("moof", hBox("traf", n1), tail), tail)
	case 1:
		two = true
		d, want = hPutAll(hBox("moof", hBox("traf", t1, tail, t2)), tail), hPutAll(hBox("moof", hBox("traf", n1, tail, n2)), tail)
		vCover("many")
	case 2:
		two = true
		d, want = hPutAll(hBox("moof", hBox("traf", t1)), tail, hBox("moof", hBox("traf", t2))), hPutAll(hBox("moof", hBox("traf", n1)), tail, hBox("moof", hBox("traf", n2)))
	}
	res := vPath("out.mp4")
	rc, _ := hC21Run("-base_media_decode_time", val.s, vPutFile("in.mp4", d), res)
	if val.v > 1<<32-1 && (v1 == 0 || two && v2 == 0) {
		vAssert(rc == 1, "a value too large for its field is an error")
		return
	}
	got, _ := vGetFile(res)
	vAssert(rc == 0 && vBytesEq(got, want), "exactly the decode times are changed")
}

// any three digits
func hC21Value() {
	s := vBytes("s", 3)
	vAssume(s[0] >= '1' && s[0] <= '9')
	v := uint64(s[0] - '0')
	for _, c := range s[1:] {
		vAssume(vAnd(c >= '0', c <= '9'))
		v = v*10 + uint64(c-'0')
	}
	t := hTfdt(vChoose("version", 2))
	d, want := hBox("moof", hBox("traf", t)), hBox("moof", hBox("traf", hC21Set(v, t)))
	res := vPath("out.mp4")
	var rc int
	if vChoose("drop", 2) == 1 {
		d = hBox("moof", hBox("traf", hBox("free"), t))
		rc, _ = hC21Run("-base_media_decode_time="+string(s), "-drop", "free", vPutFile("in.mp4", d), res)
	} else {
		rc, _ = hC21Run("-base_media_decode_time", string(s), vPutFile("in.mp4", d), res)
	}
	got, _ := vGetFile(res)
	vAssert(rc == 0 && vBytesEq(got, want), "the decode time is the one asked for")
}

// hDrop leaves the boxes of a type out of a file.
func hDrop(d []byte, p, end int, typ string, inIlst bool) []byte {
	var out []byte
	for end-p >= 8 {
		size, t := hBE(d, p), string(d[p+4:p+8])
		if t != typ {
			if own := hOwn(t, inIlst); own >= 0 {
				out = append(out, hPut(nil, t, hPutAll(d[p+8:p+8+own], hDrop(d, p+8+own, p+size, typ, t == "ilst"))...)...)
			} else {
				out = append(out, d[p:p+size]...)
			}
		}
		p += size
	}
	return out
}

func hC21Movie() {
	d := hMovieLong()
	ents := hIndex(d)
	x := vBytes("x", 4)
	copy(d[len(d)-4:], x)
	res := vPath("out.mp4")
	var rc int
	want := d
	k := vChoose("case", len(ents)+2)
	switch {
	case k == 0:
		rc, _ = hC21Run(vPutFile("in.mp4", d), res)
		vCover("same")
	case k == 1:
		rc, _ = hC21Run("-base_media_decode_time", "77777", vPutFile("in.mp4", d), res)
		want = append([]byte{}, d...)
		for _, e := range ents {
			if e.typ == "tfdt" {
				copy(want[e.off:], hC21Set(77777, d[e.off:e.off+e.size]))
				vCover("time")
			}
		}
	default:
		typ := ents[k-2].typ
		if typ[0] == 0xa9 {
			vStopPath()
		}
		rc, _ = hC21Run("-drop", typ, vPutFile("in.mp4", d), res)
		want = hDrop(d, 0, len(d), typ, false)
		vCover("dropped")
	}
	got, _ := vGetFile(res)
	vAssert(rc == 0 && vBytesEq(got, want), "the file is the same but for what was asked")
}

// boxes larger than the buffers
func hC21Big() {
	n := []int{1<<17 - 20, 1 << 17, 300000}[vChoose("size", 3)]
	typ := []string{"mdat", "uuu1"}[vChoose("type", 2)]
	data := make([]byte, n)
	x := vBytes("x", 6)
	copy(data[n-6:], x)
	copy(data[1<<17-30:], x)
	copy(data, x)
	after := hBox("moof", hBox("free", vBytes("y", 3)))
	d := hPutAll(hBox("free", []byte{1}), hBox(typ, data), after)
	res := vPath("out.mp4")
	var rc int
	want := d
	if vChoose("drop", 2) == 1 {
		rc, _ = hC21Run("-drop", "free", vPutFile("in.mp4", d), res)
		want = hPutAll(hBox(typ, data), hBox("moof"))
	} else {
		rc, _ = hC21Run(vPutFile("in.mp4", d), res)
	}
	got, _ := vGetFile(res)
	vAssert(rc == 0 && vBytesEq(got, want), "large boxes are copied in full")
}

func hC21Broken() {
	in := hBox("uuu1", vBytes("x", 3))
	d := hPutAll(hBox("moov", hBox("udta", in), in), in)
	res := vPath("out.mp4")
	switch vChoose("case", 9) {
	case 0:
		rc, out := hC21Run(vPath("missing.mp4"), res)
		vAssert(rc == 1 && len(out) > 0, "a missing file is an error")
	case 1:
		rc, out := hC21Run(vPutFile("in.mp4", d), vPath("nowhere/out.mp4"))
		vAssert(rc == 1 && len(out) > 0, "a failure to create the output is an error")
	case 2:
		rc, out := hC21Run(vPutFile("in.mp4", d), "/dev/full")
		vAssert(rc == 1 && len(out) > 0, "a failure to write is an error")
	case 3:
		rc, out := hC21Run(vPutFile("in.mp4", in), "/dev/full")
		vAssert(rc == 1 && len(out) > 0, "a failure to copy is an error")
	case 4: // reading a directory fails
		vPutFile("in.mp4", d)
		p := vPath("")
		rc, out := hC21Run(p[:len(p)-1], res)
		vAssert(rc == 1 && len(out) > 0, "a failure to read is an error")
	case 5: // a box that is cut off
		n := 1 + vChoose("cut", 3)
		rc, _ := hC21Run(vPutFile("in.mp4", d[:len(d)-n]), res)
		vAssert(rc == 1, "a box that is cut off is an error")
	case 6: // a box larger than its parent
		d[11] += byte(1 + vChoose("more", 9))
		rc, _ := hC21Run(vPutFile("in.mp4", d), res)
		vAssert(rc == 1, "a box that exceeds its parent is an error")
	case 7: // no output name
		rc, _ := hC21Run(vPutFile("in.mp4", d))
		vAssert(rc == 1, "a missing argument is an error")
	case 8: // a version the library does not know
		d := hBox("moov", hBox("stsd", []byte{vU8("v"), 0, 0, 0}, hNum(0, 4)))
		vAssume(d[16] > 1)
		rc, _ := hC21Run(vPutFile("in.mp4", d), res)
		vAssert(rc == 1, "an unknown version is an error")
	}
	vCover("error")
}

func hC21Corrupt() {
	d := hSmall()
	ents := hIndex(d)
	e := ents[vChoose("box", len(ents))]
	left := len(d) - e.off
	if vChoose("form", 2) == 0 {
		sizes := []int{0, 7, 8, 12, e.size - 8, e.size - 1, e.size + 1, e.size + 8, left, left + 1, 1 << 17, 1<<32 - 1}
		copy(d[e.off:], hNum(uint64(sizes[vChoose("size", len(sizes))]), 4))
	} else if e.size >= 16 {
		// a 16-byte header over the first bytes of the content
		copy(d[e.off:], hNum(1, 4))
		sizes := []uint64{15, 16, uint64(e.size), 1 << 32, 1 << 61, 1<<63 - 1 - uint64(e.off)}
		copy(d[e.off+8:], hNum(sizes[vChoose("size64", len(sizes))], 8))
	}
	rc, out := hC21Run(vPutFile("in.mp4", d), vPath("out.mp4"))
	vAssert(rc == 0 || rc == 1 && len(out) > 0, "malformed input gives an exit status")
	if rc == 1 {
		vCover("error")
	}
}
