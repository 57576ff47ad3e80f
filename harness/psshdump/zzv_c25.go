package HARNESS

import "encoding/base64"

//use tree movie index

func vInst_C25(tier string) []string {
	boxes := "3"
	if tier == "thorough" {
		boxes = "4"
	}
	return []string{
		"hC25Forest boxes=" + boxes + " depth=2 @cover=none,moov,moof,other",
		"hC25One max=6 @cover=version1,large",
		"hC25Long",
		"hC25Broken @cover=error",
		"hC25Corrupt @cover=error,shown",
		"hC25Huge",
		"hC25Main @cover=ok,error",
	}
}

func vDoc_C25() []string {
	return []string{
		"bound: every forest of up to 3 (thorough 4) boxes of 5 kinds in 2 levels with short and 16-byte headers; one box of either version with up to 2 key identifiers and up to 6 data bytes, every system identifier, content and flags; boxes of 1000 to 1100 bytes across the read buffer; a file with the size of one box replaced",
		"assume: the packages os and fmt are modelled (files in memory); the models are compared with the real packages on every replayed trace",
	}
}

func hC25Run(args ...string) (int, []byte) {
	vCaptureStdout()
	rc := Main(args)
	return rc, vStdout()
}

func hDec(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return hDec(n/10) + string([]byte{byte('0' + n%10)})
}

func hNib(x byte) byte { return byte(vIte(x < 10, uint64(x)+'0', uint64(x)+'a'-10)) }

// hPssh is a header of a version with key identifiers and data.
func hPssh(version, kids, data int, flags uint32) []byte {
	b := append([]byte{byte(version), byte(flags >> 16), byte(flags >> 8), byte(flags)}, vBytes("sys", 16)...)
	if version > 0 {
		b = append(b, hNum(uint64(kids), 4)...)
		b = append(b, vBytes("kid", 16*kids)...)
	}
	b = append(b, hNum(uint64(data), 4)...)
	return append(b, vBytes("data", data)...)
}

// hText is the output for one header: box is the whole box, hs the length of its header.
func hText(i, off, hs int, box []byte) []byte {
	p := box[hs:]
	b := []byte(hDec(i) + ":\n  offset: " + hDec(off) + "\n  size: " + hDec(len(box)) + "\n  version: " + hDec(int(p[0])) + "\n  flags: 0x")
	for _, x := range []byte{p[1] >> 4, p[1] & 15, p[2] >> 4, p[2] & 15, p[3] >> 4, p[3] & 15} {
		b = append(b, hNib(x))
	}
	b = append(b, "\n  systemId: "...)
	for k, x := range p[4:20] {
		if k == 4 || k == 6 || k == 8 || k == 10 {
			b = append(b, '-')
		}
		b = append(b, hNib(x>>4), hNib(x&15))
	}
	q := 20
	if p[0] > 0 {
		q = 24 + 16*hBE(p, 20)
	}
	b = append(b, "\n  dataSize: "+hDec(hBE(p, q))+"\n  base64: \""...)
	b = append(b, base64.StdEncoding.EncodeToString(box)...)
	return append(b, "\"\n\n"...)
}

func hC25Forest() {
	nodes := hForest(vParamInt("boxes"), vParamInt("depth"), true, []hKind{
		{typ: "moov", kids: true},
		{typ: "moof", kids: true},
		{typ: "trak", kids: true},
		{typ: "free", own: func() []byte { return []byte{1} }},
		{typ: "pssh", own: func() []byte { return hPssh(0, 0, 1, 0) }},
	})
	d := hEmit(nodes, vChoose("ext", 2) == 1)
	var want []byte
	n, parent := 0, ""
	for _, nd := range nodes {
		if nd.depth == 0 {
			parent = nd.typ
		}
		if nd.typ == "pssh" {
			if nd.depth == 1 && (parent == "moov" || parent == "moof") {
				want = append(want, hText(n, nd.off, nd.hs, d[nd.off:nd.off+nd.size])...)
				vCover(parent)
				n++
			} else {
				vCover("other")
			}
		}
	}
	if n == 0 {
		vCover("none")
	}
	rc, out := hC25Run(vPutFile("in.mp4", d))
	vAssert(rc == 0, "the command succeeds on a well-formed file")
	vAssert(vBytesEq(out, want), "exactly the protection headers of movie and fragments are shown, in order")
}

func hC25One() {
	version := vChoose("version", 2)
	kids := 0
	if version == 1 {
		kids = vChoose("kids", 3)
		vCover("version1")
	}
	p := hPssh(version, kids, vChoose("data", vParamInt("max")+1), vU32("flags"))
	hs := 8
	box := hBox("pssh", p)
	if vChoose("form", 2) == 1 {
		hs = 16
		box = append(append(hNum(1, 4), "pssh"...), append(hNum(uint64(16+len(p)), 8), p...)...)
		vCover("large")
	}
	fill := hBox("free", make([]byte, vChoose("fill", 3)*45))
	d := hPutAll(fill, hBox("moof", hBox("free"), box))
	rc, out := hC25Run(vPutFile("in.mp4", d))
	vAssert(rc == 0 && vBytesEq(out, hText(0, len(fill)+16, hs, box)), "a protection header is shown with its position, fields and bytes")
}

// headers that lie across the blocks of the reader
func hC25Long() {
	n := []int{1000, 1023, 1024, 1100}[vChoose("data", 4)]
	p := append(hNum(0, 4), vBytes("sys", 16)...)
	p = append(p, hNum(uint64(n), 4)...)
	data := make([]byte, n)
	copy(data[n-8:], vBytes("end", 8))
	p = append(p, data...)
	first := hBox("pssh", hNum(0, 4), hNum(1, 16), hNum(0, 4))
	box := hBox("pssh", p)
	fill := hBox("free", make([]byte, []int{0, 900, 4090}[vChoose("fill", 3)]))
	d := hPutAll(hBox("moov", first, box), fill, hBox("moof", first))
	rc, out := hC25Run(vPutFile("in.mp4", d))
	want := hText(0, 8, 8, first)
	want = append(want, hText(1, 8+len(first), 8, box)...)
	want = append(want, hText(2, len(d)-len(first), 8, first)...)
	vAssert(rc == 0 && vBytesEq(out, want), "long protection headers are shown in full")
}

func hC25Broken() {
	in := hBox("pssh", hPssh(vChoose("version", 2), 1, 2, 0))
	d := hBox("moov", in)
	switch vChoose("case", 4) {
	case 0: // the data ends early
		n := 1 + vChoose("cut", len(in)-8)
		rc, _ := hC25Run(vPutFile("in.mp4", d[:len(d)-n]))
		vAssert(rc == 1, "a protection header that is cut off is an error")
		vCover("error")
	case 1: // more data announced than the box holds
		n := vU32("claim")
		vAssume(n > 2)
		copy(d[len(d)-6:], []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
		rc, _ := hC25Run(vPutFile("in.mp4", d))
		vAssert(rc == 1, "more data than the box holds is an error")
	case 2: // a version the library does not know
		v := vU8("v")
		vAssume(v > 1)
		d[16] = v
		rc, _ := hC25Run(vPutFile("in.mp4", d))
		vAssert(rc == 1, "an unknown version is an error")
	case 3: // larger than its parent
		d[11] += byte(1 + vChoose("more", 9))
		rc, _ := hC25Run(vPutFile("in.mp4", append(d, make([]byte, 20)...)))
		vAssert(rc == 1, "a box larger than its parent is an error")
	}
}

func hC25Corrupt() {
	in := hBox("pssh", hNum(0, 4), hNum(3, 16), hNum(12, 4), hNum(5, 12))
	d := hPutAll(hBox("moov", hBox("free", hNum(0, 9)), in), hBox("moof", hBox("free", hNum(0, 9)), in), hBox("mdat", hNum(0, 12)))
	ents := hIndex(d)
	e := ents[vChoose("box", len(ents))]
	left := len(d) - e.off
	if vChoose("form", 2) == 0 {
		sizes := []int{0, 7, 8, 12, e.size - 8, e.size - 1, e.size + 1, e.size + 8, left, left + 1, 1 << 17, 1<<32 - 1}
		copy(d[e.off:], hNum(uint64(sizes[vChoose("size", len(sizes))]), 4))
	} else {
		// a 16-byte header over the first bytes of the content
		copy(d[e.off:], hNum(1, 4))
		sizes := []uint64{15, 16, uint64(e.size), 1 << 32, 1 << 60, 1<<63 - 1 - uint64(e.off)}
		copy(d[e.off+8:], hNum(sizes[vChoose("size64", len(sizes))], 8))
	}
	rc, out := hC25Run(vPutFile("in.mp4", d))
	vAssert(rc == 0 || rc == 1 && len(out) > 0, "malformed input gives an exit status")
	if rc == 1 {
		vCover("error")
	} else if len(out) > 0 {
		vCover("shown")
	}
}

// a movie that claims to be huge, and a header in it that claims so too
func hC25Huge() {
	size := vU64("size")
	vAssume(size >= 60 && size < 1<<62)
	box := append(append(hNum(1, 4), "pssh"...), []byte{byte(size >> 56), byte(size >> 48), byte(size >> 40), byte(size >> 32), byte(size >> 24), byte(size >> 16), byte(size >> 8), byte(size)}...)
	d := append(append(hNum(1, 4), "moov"...), hNum(1<<62+100, 8)...)
	d = append(d, box...)
	d = append(d, hPssh(0, 0, 0, 0)...)
	rc, _ := hC25Run(vPutFile("in.mp4", d))
	vAssert(rc == 1, "a protection header larger than the file is an error")
}

func hC25Main() {
	switch vChoose("case", 3) {
	case 0:
		rc, out := hC25Run(vPath("missing.mp4"))
		vAssert(rc == 1 && len(out) > 0, "a missing file is an error")
		vCover("error")
	case 1:
		rc, out := hC25Run(vPutFile("in.mp4", nil))
		vAssert(rc == 0 && len(out) == 0, "an empty file has no protection headers")
		vCover("ok")
	case 2:
		rc, _ := hC25Run()
		vAssert(rc == 1, "a missing argument is an error")
	}
}
