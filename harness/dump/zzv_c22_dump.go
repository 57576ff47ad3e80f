package HARNESS

import (
	"bytes"

	"github.com/abema/go-mp4"
)

//use tree movie index

func vInst_C22(tier string) []string {
	boxes := "3"
	if tier == "thorough" {
		boxes = "4"
	}
	return []string{
		"hC22Dump boxes=2 depth=2 opts=9 @cover=hidden,data,content,children",
		"hC22Dump boxes=" + boxes + " depth=3 opts=1 @cover=hidden,content,children",
		"hC22DumpMovie @cover=hint,content",
		"hC22DumpLeaf @cover=hint,content",
		"hC22DumpBroken @cover=version,error",
		"hC22DumpCorrupt @cover=error",
		"hC22DumpMain @cover=ok,error",
	}
}

func vDoc_C22() []string {
	return []string{
		"bound: dump: every forest of up to 3 (thorough 4) boxes of 6 kinds in 3 levels with offsets in hexadecimal, of up to 2 boxes with short and 16-byte headers under 9 combinations of options, with arbitrary content; a whole small file; boxes around the sizes at which contents are hidden; a file of a dozen boxes with the size of one box replaced",
		"assume: dump: the printed form of a box's fields is the library's (C19); a line that would be wider than the terminal may be cut to the hint how to show all",
	}
}

// hC22Run runs the command.
func hC22Run(args ...string) (int, []byte) {
	terminalWidth = 180
	vCaptureStdout()
	rc := Main(args)
	return rc, vStdout()
}

func hDec(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return hDec(n/10) + string([]byte{byte('0' + n%10)})
}

func hHex(n int) string {
	c := "0123456789abcdef"[n%16:]
	if n < 16 {
		return c[:1]
	}
	return hHex(n/16) + c[:1]
}

// hOpt is a combination of options.
type hOpt struct {
	args        []string
	offset, hex bool
	full        func(typ string) bool
}

func hNone(string) bool { return false }
func hAll(string) bool  { return true }
func hOnly(l ...string) func(string) bool {
	return func(t string) bool {
		for _, x := range l {
			if x == t {
				return true
			}
		}
		return false
	}
}

func hOpts() []hOpt {
	showAll := func(t string) bool { return t != "free" && t != "mdat" && t != "skip" }
	return []hOpt{
		{nil, false, false, hNone},
		{[]string{"-offset"}, true, false, hNone},
		{[]string{"-offset", "-hex"}, true, true, hNone},
		{[]string{"-hex", "-a"}, false, true, showAll},
		{[]string{"-full", "uuu1"}, false, false, hOnly("uuu1")},
		{[]string{"-full", "free,uuu2", "-offset"}, true, false, hOnly("free", "uuu2")},
		{[]string{"-mdat"}, false, false, hOnly("mdat")},
		{[]string{"-free"}, false, false, hOnly("free", "skip")},
		{[]string{"-a", "-full", "free,mdat"}, false, false, hAll},
	}
}

// head is what the line of a box begins with.
func (o *hOpt) head(typ string, depth, off, size int, known bool) []byte {
	var b []byte
	for i := 0; i < 2*depth; i++ {
		b = append(b, ' ')
	}
	b = append(b, '[')
	b = append(b, typ...)
	b = append(b, ']')
	if !known {
		b = append(b, " (unsupported box type)"...)
	}
	num := func(n int) string {
		if o.hex {
			return "0x" + hHex(n)
		}
		return hDec(n)
	}
	if o.offset {
		b = append(b, " Offset="+num(off)...)
	}
	return append(b, " Size="+num(size)...)
}

func hHint(typ string) []byte { return []byte("(use \"-full " + typ + "\" to show all)") }

// hData is the text for raw data.
func hData(d []byte) []byte {
	b := []byte(" Data=[")
	for i, x := range d {
		if i > 0 {
			b = append(b, ' ')
		}
		b = append(b, '0', 'x', hNib(x>>4), hNib(x&15))
	}
	return append(b, ']')
}

func hNib(x byte) byte { return byte(vIte(x < 10, uint64(x)+'0', uint64(x)+'a'-10)) }

func hLines(out []byte) [][]byte {
	if len(out) == 0 {
		return nil
	}
	vAssert(out[len(out)-1] == '\n', "the last line is complete")
	return bytes.Split(out[:len(out)-1], []byte{'\n'})
}

// hShown is the printed form of the fields of a box.
func hShown(typ string, ctx mp4.Context, payload []byte) []byte {
	box, _, err := mp4.UnmarshalAny(bytes.NewReader(payload), mp4.StrToBoxType(typ), uint64(len(payload)), ctx)
	vAssert(err == nil, "the box can be decoded")
	s, err := mp4.Stringify(box, ctx)
	vAssert(err == nil, "the box can be printed")
	return []byte(s)
}

func hC22Kinds() []hKind {
	own := func(n int) func() []byte { return func() []byte { return vBytes("own", n) } }
	return []hKind{
		{typ: "moov", kids: true},
		{typ: "free", own: own(1)},
		{typ: "uuu1", own: own(2)},
		{typ: "mdat"},
		{typ: "stsd", kids: true, own: func() []byte { return hNum(5, 8) }},
		{typ: "smhd", own: func() []byte { return append(hNum(0, 4), 1, 0, 0, 0) }},
	}
}

func hC22Dump() {
	all := vParamInt("opts") > 1
	nodes := hForest(vParamInt("boxes"), vParamInt("depth"), all, hC22Kinds())
	d := hEmit(nodes, vChoose("ext", 2) == 1)
	o := hOpts()[2]
	if all {
		o = hOpts()[vChoose("opt", vParamInt("opts"))]
	}
	var want []byte
	for _, nd := range nodes {
		want = append(want, o.head(nd.typ, nd.depth, nd.off, nd.size, nd.typ != "uuu1")...)
		switch {
		case nd.typ == "moov":
			vCover("children")
		case nd.typ == "stsd":
			want = append(want, " Version=0 Flags=0x000000 EntryCount=5"...)
			vCover("content")
		case nd.typ == "smhd":
			want = append(want, " Version=0 Flags=0x000000 Balance=1"...)
		case o.full(nd.typ) && nd.typ == "uuu1":
			want = append(want, hData(nd.own)...)
			vCover("data")
		case o.full(nd.typ):
			want = append(want, ' ')
			want = append(want, hShown(nd.typ, mp4.Context{}, nd.own)...)
		default:
			want = append(want, " Data=[...] "...)
			want = append(want, hHint(nd.typ)...)
			vCover("hidden")
		}
		want = append(want, '\n')
	}
	rc, out := hC22Run(append(o.args, vPutFile("in.mp4", d))...)
	vAssert(rc == 0, "the command succeeds on a well-formed file")
	vAssert(vBytesEq(out, want), "one line per box with its type, offset, size and content")
}

// hCtxOf is the context of an entry of the movie.
func hCtxOf(ents []hEntry, k int) mp4.Context {
	var c mp4.Context
	for p := ents[k].parent; p >= 0; p = ents[p].parent {
		switch ents[p].typ {
		case "ilst":
			c.UnderIlst = true
		case "udta":
			c.UnderUdta = true
		}
		if q := ents[p].parent; q >= 0 && ents[q].typ == "ilst" {
			c.UnderIlstMeta = true
		}
	}
	return c
}

// hTail checks what follows the beginning of a line.
func hTail(tail []byte, full bool, typ string, text []byte) {
	if len(text) == 0 {
		vAssert(len(tail) == 0, "nothing is shown for a box without fields")
		return
	}
	if !full && bytes.HasPrefix(tail, []byte(" ... ")) {
		vAssert(vBytesEq(tail[5:], hHint(typ)), "the hint names the box")
		vCover("hint")
		return
	}
	vAssert(len(tail) > 0 && tail[0] == ' ' && vBytesEq(tail[1:], text), "the fields of the box are shown")
	vCover("content")
}

func hC22DumpMovie() {
	d := hMovie()
	if vChoose("long", 2) == 1 {
		// larger tables
		d = append(d, hBox("moov", hBox("trak", hBox("mdia", hBox("minf", hBox("stbl",
			hBox("stts", hNum(0, 4), hNum(8, 4), make([]byte, 64)), hBox("stss", hNum(0, 4), hNum(30, 4), make([]byte, 120)))))))...)
	}
	ents := hIndex(d)
	opts := hOpts()
	o := opts[vChoose("opt", len(opts))]
	rc, out := hC22Run(append(o.args, vPutFile("in.mp4", d))...)
	vAssert(rc == 0, "the command succeeds on a well-formed file")
	lines := hLines(out)
	vAssert(len(lines) == len(ents), "there is one line per box")
	for i, e := range ents {
		name := e.typ
		if e.typ[0] == 0xa9 {
			name = "(c)" + e.typ[1:]
		}
		h := o.head(name, e.depth, e.off, e.size, true)
		vAssert(len(lines[i]) >= len(h) && vBytesEq(lines[i][:len(h)], h), "a line shows the type, offset and size of its box at the box's depth")
		tail := lines[i][len(h):]
		if e.typ == "mdat" {
			vAssert(bytes.HasPrefix(tail, []byte(" Data=")), "media data is shown or hidden")
			continue
		}
		hTail(tail, o.full(e.typ), name, hShown(e.typ, hCtxOf(ents, i), d[e.off+e.hs:e.off+e.size]))
	}
}

// boxes around the sizes at which content is hidden
func hC22DumpLeaf() {
	fb := func(n int) []byte { return hNum(0, n) }
	list := func(name string, pre []byte, size int) func(n int) []byte {
		return func(n int) []byte { return hBox(name, fb(4), pre, hNum(uint64(n), 4), make([]byte, n*size)) }
	}
	leaves := []func(n int) []byte{
		list("stts", nil, 8), list("ctts", nil, 8), list("stco", nil, 4), list("co64", nil, 8), list("stss", nil, 4), list("stsc", nil, 12),
		list("elst", nil, 12), list("stsz", fb(4), 4), list("trun", nil, 0), list("sbgp", []byte("roll"), 8), list("tfra", fb(8), 11), list("pssh", fb(16), 1),
		func(n int) []byte { return hBox("sdtp", fb(4), fb(n)) },
		func(n int) []byte { return hBox("ftyp", []byte("isom"), fb(4), make([]byte, 4*n)) },
		func(n int) []byte { return hBox("saiz", fb(4), []byte{0}, hNum(uint64(n), 4), fb(n)) },
	}
	k := vChoose("leaf", len(leaves))
	b := leaves[k](vRange("n", 0, 14))
	typ := string(b[4:8])
	after := hBox("uuu1", nil)
	where := vChoose("where", 2)
	d, off := append(append([]byte{}, b...), after...), 0
	if where == 1 {
		d = hBox("moov", b, after)
		off = 8
	}
	full := vChoose("full", 2) == 1
	o := hOpt{full: hNone}
	args := []string{}
	if full {
		o.full = hOnly(typ)
		args = append(args, "-full", typ)
	}
	rc, out := hC22Run(append(args, vPutFile("in.mp4", d))...)
	lines := hLines(out)
	vAssert(rc == 0 && len(lines) == 2+where, "there is one line per box")
	h := o.head(typ, where, off, len(b), true)
	l := lines[where]
	vAssert(bytes.HasPrefix(l, h), "a line shows the type and size of its box at the box's depth")
	hTail(l[len(h):], full, typ, hShown(typ, mp4.Context{}, b[8:]))
	h = o.head("uuu1", where, off+len(b), 8, false)
	vAssert(bytes.HasPrefix(lines[1+where], h), "the next box is shown")
}

func hC22DumpBroken() {
	in := hBox("uuu1", vBytes("x", 2))
	switch vChoose("case", 4) {
	case 0: // a version the library does not know
		v := vU8("v")
		vAssume(v > 1)
		full := vChoose("full", 2) == 1
		p := []byte{v, 0, 0, 1, 7}
		d := hBox("moov", hBox("stsd", p), in)
		o := hOpt{full: hNone}
		if full {
			o.args = []string{"-full", "stsd"}
		}
		rc, out := hC22Run(append(o.args, vPutFile("in.mp4", d))...)
		want := append(o.head("moov", 0, 0, len(d), true), '\n')
		want = append(want, o.head("stsd", 1, 8, 13, true)...)
		want = append(want, " (unsupported box version)"...)
		if full {
			want = append(want, hData(p)...)
		} else {
			want = append(want, " Data=[...] "...)
			want = append(want, hHint("stsd")...)
		}
		want = append(want, '\n')
		want = append(want, o.head("uuu1", 1, 21, len(in), false)...)
		want = append(want, " Data=[...] "...)
		want = append(want, hHint("uuu1")...)
		want = append(want, '\n')
		vAssert(rc == 0 && vBytesEq(out, want), "a box of an unknown version is shown as raw data")
		vCover("version")
	case 1: // a box larger than its parent
		d := hPutAll(hBox("moov", in), in)
		d[11] += byte(1 + vChoose("more", 12))
		rc, _ := hC22Run(vPutFile("in.mp4", d))
		vAssert(rc == 1, "a box that exceeds its parent is an error")
		vCover("error")
	case 2: // a box smaller than its header
		d := hPutAll(hBox("moov", in), in)
		d[11] = byte(2 + vChoose("size", 6))
		rc, _ := hC22Run(vPutFile("in.mp4", d))
		vAssert(rc == 1, "a size smaller than the header is an error")
	case 3: // a payload that is cut off
		d := hPutAll(in, hBox("moov", hBox("stsd", hNum(0, 8))))
		n := 1 + vChoose("cut", 7)
		rc, _ := hC22Run(vPutFile("in.mp4", d[:len(d)-n]))
		vAssert(rc == 1, "a payload that is cut off is an error")
	}
}

func hC22DumpCorrupt() {
	d := hSmall()
	ents := hIndex(d)
	e := ents[vChoose("box", len(ents))]
	left := len(d) - e.off
	if vChoose("form", 2) == 0 {
		sizes := []int{0, 7, 8, 12, e.size - 8, e.size - 1, e.size + 1, e.size + 8, left, left + 1, 1 << 17, 1<<32 - 1}
		copy(d[e.off:], hNum(uint64(sizes[vChoose("size", len(sizes))]), 4))
	} else if e.size >= 16 {
		// a 16-byte header over the first bytes of the content
		copy(d[e.off:], hNum(1, 4))
		sizes := []uint64{15, 16, uint64(e.size), 1 << 32, 1 << 61, 1<<63 - 1 - uint64(e.off)}
		copy(d[e.off+8:], hNum(sizes[vChoose("size64", len(sizes))], 8))
	}
	typ := "uuu1"
	if vChoose("type", 2) == 1 {
		copy(d[e.off+4:], typ)
	} else {
		typ = e.typ
	}
	rc, out := hC22Run("-full", typ, vPutFile("in.mp4", d))
	vAssert(rc == 0 || rc == 1 && len(out) > 0, "malformed input gives an exit status")
	if rc == 1 {
		vCover("error")
	}
}

func hC22DumpMain() {
	switch vChoose("case", 3) {
	case 0:
		rc, out := hC22Run(vPath("missing.mp4"))
		vAssert(rc == 1 && len(out) > 0, "a missing file is an error")
		vCover("error")
	case 1:
		rc, out := hC22Run(vPutFile("in.mp4", nil))
		vAssert(rc == 0 && len(out) == 0, "an empty file has no boxes")
		vCover("ok")
	case 2:
		rc, _ := hC22Run()
		vAssert(rc == 1, "a missing argument is an error")
	}
}
