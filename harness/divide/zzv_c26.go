package HARNESS

import "strconv"

//use movie index

func vInst_C26(tier string) []string {
	frags := "2"
	if tier == "thorough" {
		frags = "3"
	}
	var out []string
	for set := 0; set < 6; set++ {
		out = append(out, "hC26Fragments set="+strconv.Itoa(set)+" frags="+frags+" @cover=two,again")
	}
	return append(out,
		"hC26Header @cover=large,toEnd",
		"hC26Media @cover=two,large,toEnd",
		"hC26Times @cover=own,default,many",
		"hC26Many frags=12",
		"hC26Odd @cover=ok,error",
		"hC26Corrupt @cover=ok,error",
		"hC26Main @cover=error",
	)
}

func vDoc_C26() []string {
	return []string{
		"bound: files of up to 2 tracks (one of a kind: video, audio, encrypted video, encrypted audio, besides unsupported ones) with up to 2 (thorough 3) fragments of up to 2 media boxes, one file of 12 fragments; every content of the boxes; short, 16-byte and to-the-end headers; track identifiers 0, 1, 7 and 2^32-1",
		"bound: durations from a table of 7, time scales from a table of 4 (numbers are formatted as decimal fractions)",
		"bound: a file of 25 boxes with the size of any one box replaced by 16 short and 6 long sizes, and 12 files with boxes in unexpected places",
		"assume: the package os is modelled (files and directories in memory, no file-system errors but a missing input); the model is compared with the real package on every replayed trace",
		"assume: at most one track of each kind, durations stated in the fragment",
		"outside: the fixed codec string and channel count of the master playlist",
	}
}

type hTrack struct {
	kind, dir string // sample entry, output folder
	id        int
	scale     int
	w, h      int
}

var hC26Const bool // constant contents

func hAny(name string, n int) []byte {
	if hC26Const {
		return hConst(n, byte(len(name)))
	}
	return vBytes(name, n)
}

func (t hTrack) box() []byte {
	tkhd := append(append(hNum(0, 12), hNum(uint64(t.id), 4)...), hAny("tkhd"+t.kind, 68)...)
	mdhd := append(append(hNum(0, 12), hNum(uint64(t.scale), 4)...), hAny("mdhd"+t.kind, 8)...)
	var entry []byte
	switch t.kind {
	case "avc1", "encv":
		entry = append(hNum(1, 8), hNum(0, 70)...)
		copy(entry[24:], hNum(uint64(t.w), 2))
		copy(entry[26:], hNum(uint64(t.h), 2))
	case "mp4a", "enca":
		entry = append(hNum(1, 8), hNum(0, 20)...)
		copy(entry[24:], hNum(48000, 2))
	default:
		entry = hNum(1, 8)
	}
	stbl := hBox("stbl", hBox("stsd", hNum(1, 8), hBox(t.kind, entry)), hBox("stts", hNum(0, 8)))
	return hBox("trak", hBox("tkhd", tkhd), hBox("mdia", hBox("mdhd", mdhd), hBox("minf", stbl)))
}

// hFrag is the header of a fragment of a track; durs are the durations of its samples, all of them def if own is false.
func hFrag(id int, own bool, def uint64, durs ...uint64) []byte {
	tfhd, trun := append(hNum(0x20000, 4), hNum(uint64(id), 4)...), append(hNum(0, 4), hNum(uint64(len(durs)), 4)...)
	if own {
		trun[2] = 1
		for _, d := range durs {
			trun = append(trun, hNum(d, 4)...)
		}
	} else {
		tfhd[3] |= 8
		tfhd = append(tfhd, hNum(def, 4)...)
	}
	return hBox("moof", hBox("mfhd", hNum(0, 4), hAny("seq", 4)), hBox("traf", hBox("tfhd", tfhd), hBox("trun", trun)))
}

// hWide is a box with a 16-byte header.
func hWide(typ string, payload []byte) []byte {
	return append(append(append(hNum(1, 4), typ...), hNum(uint64(16+len(payload)), 8)...), payload...)
}

type hSeg struct {
	data []byte
	dur  float64
}

type hOut struct {
	hTrack
	init []byte
	segs []hSeg
	rate uint64
}

func hC26Run(d []byte) (int, string) {
	dir := vPath("out")
	vCaptureStdout()
	return Main([]string{vPutFile("in.mp4", d), dir}), dir
}

func hC26Is(path string, want []byte, what string) {
	got, ok := vGetFile(path)
	vAssert(ok && vBytesEq(got, want), what)
}

// hC26Check runs the command and compares everything it writes.
func hC26Check(d []byte, outs []hOut) {
	rc, dir := hC26Run(d)
	vAssert(rc == 0, "a well-formed fragmented file is divided")
	audio, video := -1, -1
	for k, o := range outs {
		hC26Is(dir+"/"+o.dir+"/init.mp4", o.init, "the initialisation data is the track's part of the input")
		max := 0.0
		text := ""
		for i, s := range o.segs {
			name := strconv.Itoa(i) + ".mp4"
			hC26Is(dir+"/"+o.dir+"/"+name, s.data, "a segment is the fragment's bytes in the input")
			text += "#EXTINF:" + strconv.FormatFloat(s.dur, 'f', 6, 64) + ",\n" + name + "\n"
			if s.dur > max {
				max = s.dur
			}
		}
		n := int(max)
		if float64(n) < max {
			n++
		}
		text = "#EXTM3U\n#EXT-X-VERSION:7\n#EXT-X-TARGETDURATION:" + strconv.Itoa(n) + "\n#EXT-X-PLAYLIST-TYPE:VOD\n#EXT-X-MAP:URI=\"init.mp4\"\n" + text + "#EXT-X-ENDLIST\n"
		hC26Is(dir+"/"+o.dir+"/playlist.m3u8", []byte(text), "the media playlist lists the segments in order with their durations")
		if len(o.segs) > 0 {
			_, more := vGetFile(dir + "/" + o.dir + "/" + strconv.Itoa(len(o.segs)) + ".mp4")
			vAssert(!more, "no segment beyond the fragments")
		}
		switch o.kind {
		case "avc1":
			video = k
		case "mp4a":
			audio = k
		case "encv":
			if video < 0 {
				video = k
			}
		case "enca":
			if audio < 0 {
				audio = k
			}
		}
	}
	text := "#EXTM3U\n"
	if audio >= 0 {
		text += "#EXT-X-MEDIA:TYPE=AUDIO,URI=\"" + outs[audio].dir + "/playlist.m3u8\",GROUP-ID=\"audio\",NAME=\"audio\",AUTOSELECT=YES,CHANNELS=\"2\"\n"
	}
	if video >= 0 {
		o := outs[video]
		text += "#EXT-X-STREAM-INF:BANDWIDTH=" + strconv.FormatUint(o.rate, 10) + ",CODECS=\"avc1.64001f,mp4a.40.2\",RESOLUTION=" + strconv.Itoa(o.w) + "x" + strconv.Itoa(o.h)
		if audio >= 0 {
			text += ",AUDIO=\"audio\""
		}
		text += "\n" + o.dir + "/playlist.m3u8\n"
	}
	hC26Is(dir+"/playlist.m3u8", []byte(text), "the master playlist refers to the playlists of the tracks")
}

// add is one more segment of a track.
func (o *hOut) add(dur float64, moof []byte, mdats ...[]byte) {
	s := hSeg{data: append([]byte{}, moof...), dur: dur}
	for _, m := range mdats {
		s.data = append(s.data, m...)
		if dur > 0 {
			if r := uint64(float64(len(m)) * 8 / dur); r > o.rate {
				o.rate = r
			}
		}
	}
	o.segs = append(o.segs, s)
}

var hC26Avc = hTrack{"avc1", "video", 1, 1000, 640, 360}
var hC26Aac = hTrack{"mp4a", "audio", 7, 48000, 0, 0}
var hC26Encv = hTrack{"encv", "video_enc", 0, 90000, 1920, 1080}
var hC26Enca = hTrack{"enca", "audio_enc", 1<<32 - 1, 44100, 0, 0}
var hC26Text = hTrack{"stpp", "", 5, 1000, 0, 0}

func hC26Set(k int) []hTrack {
	switch k {
	case 0:
		return []hTrack{hC26Avc, hC26Aac}
	case 1:
		return []hTrack{hC26Text, hC26Enca, hC26Encv}
	case 2:
		return []hTrack{hC26Aac, hC26Text}
	case 3:
		return []hTrack{hC26Encv, hC26Avc}
	case 4:
		return []hTrack{hC26Enca, hC26Aac, hC26Avc}
	}
	return []hTrack{hC26Encv}
}

// hC26Init is the head of a file of tracks, and what each of the supported ones should get of it.
func hC26Init(tracks []hTrack) ([]byte, []hOut) {
	ftyp := hBox("ftyp", hAny("ftyp", 12))
	mvhd := hBox("mvhd", hNum(0, 4), hAny("mvhd", 96))
	mvex := hBox("mvex", hBox("trex", hNum(0, 4), hAny("trex", 20)))
	var traks []byte
	var outs []hOut
	for _, t := range tracks {
		b := t.box()
		traks = append(traks, b...)
		if t.dir != "" {
			outs = append(outs, hOut{hTrack: t, init: hPutAll(ftyp, hBox("moov", mvhd, b, mvex))})
		}
	}
	return hPutAll(ftyp, hBox("moov", mvhd, traks, mvex)), outs
}

// fragments of the tracks in any order
func hC26Fragments() {
	tracks := hC26Set(vParamInt("set"))
	d, outs := hC26Init(tracks)
	last := -1
	for k := 0; k < vParamInt("frags"); k++ {
		j := vChoose("track", len(outs)+1)
		id := 99
		if j < len(outs) {
			id = outs[j].id
		}
		moof := hFrag(id, true, 0, 500, 1000)
		mdats := [][]byte{hBox("mdat", vBytes("media", 3+k))}
		if vChoose("mdats", 2) == 1 {
			mdats = append(mdats, hBox("mdat", vBytes("more", 40)))
			vCover("two")
		}
		d = append(d, hPutAll(append([][]byte{moof}, mdats...)...)...)
		if j < len(outs) {
			outs[j].add(1500/float64(outs[j].scale), moof, mdats...)
		}
		if j == last {
			vCover("again")
		}
		last = j
	}
	switch vChoose("end", 3) {
	case 1:
		d = append(d, hBox("mfra", hBox("mfro", hNum(0, 4), hNum(24, 4)))...)
	case 2:
		sidx := hBox("sidx", hNum(0, 4), vBytes("sidx", 20))
		d = append(d, sidx...)
		for k := range outs {
			outs[k].init = append(outs[k].init, sidx...)
		}
	}
	hC26Check(d, outs)
}

// the headers of the initialisation data
func hC26Header() {
	mvhd := hBox("mvhd", hNum(0, 4), vBytes("mvhd", 96))
	if vChoose("mvhdWide", 2) == 1 {
		mvhd = hWide("mvhd", mvhd[8:])
		vCover("large")
	}
	udta := hBox("udta", vBytes("udta", vChoose("udta", 3)*150)) // contents that do not matter
	if n := len(udta); n > 8 {
		copy(udta[8:], hNum(uint64(n-8), 4))
		copy(udta[12:], "free")
	}
	pssh := hBox("pssh", hNum(0, 4), vBytes("sys", 16), hNum(2, 4), vBytes("data", 2))
	a, v := hC26Aac.box(), hC26Avc.box()
	if vChoose("trakWide", 2) == 1 {
		v = hWide("trak", v[8:])
	}
	ftyp := hBox("ftyp", vBytes("ftyp", 8+4*vChoose("brands", 3)))
	if vChoose("ftypWide", 2) == 1 {
		ftyp = hWide("ftyp", ftyp[8:])
	}
	outs := []hOut{{hTrack: hC26Aac}, {hTrack: hC26Avc}}
	var moov [3][]byte
	for k, in := range [][]byte{hPutAll(mvhd, a, v, udta, pssh), hPutAll(mvhd, a, udta, pssh), hPutAll(mvhd, v, udta, pssh)} {
		moov[k] = hBox("moov", in)
	}
	moof, mdat := hFrag(7, true, 0, 960), hBox("mdat", vBytes("media", 2))
	frag := hPutAll(moof, mdat)
	switch vChoose("moov", 3) {
	case 1:
		for k := range moov {
			moov[k] = hWide("moov", moov[k][8:])
		}
	case 2: // to the end of the file
		for k := range moov {
			copy(moov[k], hNum(0, 4))
		}
		frag = nil
		vCover("toEnd")
	}
	if frag != nil {
		outs[0].add(0.02, moof, mdat)
	}
	for k := range outs {
		outs[k].init = hPutAll(ftyp, moov[k+1])
	}
	hC26Check(hPutAll(ftyp, moov[0], frag), outs)
}

// the headers and sizes of media
func hC26Media() {
	d, outs := hC26Init([]hTrack{hC26Avc})
	moof := hFrag(1, true, 0, 700)
	if vChoose("moofWide", 2) == 1 {
		moof = hWide("moof", moof[8:])
	}
	n := []int{0, 1, 247, 248, 300, 70000}[vChoose("size", 6)]
	body := make([]byte, n)
	if n > 0 {
		copy(body, vBytes("first", 1))
		copy(body[n-1:], vBytes("last", 1))
	}
	first := hBox("mdat", vBytes("media", 5))
	mdat := hBox("mdat", body)
	switch vChoose("form", 3) {
	case 1:
		mdat = hWide("mdat", body)
		vCover("large")
	case 2:
		copy(mdat, hNum(0, 4))
		vCover("toEnd")
	}
	if vChoose("first", 2) == 1 {
		outs[0].add(0.7, moof, first, mdat)
		d = hPutAll(d, moof, first, mdat)
		vCover("two")
	} else {
		outs[0].add(0.7, moof, mdat)
		d = hPutAll(d, moof, mdat)
	}
	hC26Check(d, outs)
}

// durations
func hC26Times() {
	scale := []int{1, 1000, 48000, 1<<32 - 1}[vChoose("scale", 4)]
	t := hC26Avc
	t.scale = scale
	d, outs := hC26Init([]hTrack{t})
	n := 1 + vChoose("samples", 3)
	durs := make([]uint64, n)
	sum := uint64(0)
	own := vChoose("own", 2) == 1
	table := []uint64{0, 1, 1000, 1001, 123457, 1 << 29, 1<<32 - 1}
	def := table[vChoose("dur", len(table))]
	for k := range durs {
		durs[k] = def
		if own && k == 1 {
			durs[k] = table[vChoose("second", len(table))]
		}
		sum += durs[k]
	}
	if n > 1 {
		vCover("many")
	}
	if own {
		vCover("own")
	} else {
		vCover("default")
	}
	moof := hFrag(1, own, def, durs...)
	if own && vChoose("runs", 2) == 1 { // a second run
		traf := hBE(moof, 24) // 8 + 16 is the start of traf
		run := hBox("trun", hNum(0x100, 4), hNum(1, 4), hNum(table[2], 4))
		moof = append(moof, run...)
		copy(moof, hNum(uint64(len(moof)), 4))
		copy(moof[24:], hNum(uint64(traf+len(run)), 4))
		sum += table[2]
	}
	mdat := hBox("mdat", vBytes("media", 4))
	outs[0].add(float64(sum)/float64(scale), moof, mdat)
	second := hFrag(1, true, 0, 1000)
	outs[0].add(1000/float64(scale), second, mdat)
	hC26Check(hPutAll(d, moof, mdat, second, mdat), outs)
}

func hC26Many() {
	d, outs := hC26Init([]hTrack{hC26Avc, hC26Aac})
	for k := 0; k < vParamInt("frags"); k++ {
		o := &outs[k%3%2]
		moof, mdat := hFrag(o.id, k%2 == 0, 1024, 1024, 1024), hBox("mdat", vBytes("media", 2))
		o.add(2048/float64(o.scale), moof, mdat)
		d = hPutAll(d, moof, mdat)
	}
	hC26Check(d, outs)
}

// boxes in unexpected places
func hC26Odd() {
	frag := hPutAll(hFrag(1, true, 0, 700), hBox("mdat", vBytes("media", 2)))
	moov := hBox("moov", hC26Avc.box(), hC26Enca.box())
	var d []byte
	switch vChoose("case", 12) {
	case 0: // media before the first fragment
		d = hPutAll(moov, hBox("mdat", vBytes("x", 3)), frag)
	case 1: // a fragment without samples
		d = hPutAll(moov, hBox("moof", hBox("traf", hBox("tfhd", hNum(0, 4), hNum(1, 4)))), hBox("mdat", vBytes("x", 3)))
	case 2: // fragments inside the movie
		d = hBox("moov", hC26Avc.box(), frag)
	case 3: // the random access table inside the movie
		d = hBox("moov", hC26Avc.box(), hBox("mfra"))
	case 4: // no movie
		d = frag
	case 5: // the movie last
		d = hPutAll(frag, moov)
	case 6: // a track without header
		d = hPutAll(hBox("moov", hBox("trak", hBox("mdia"))), frag)
	case 7: // a track without media header
		d = hPutAll(hBox("moov", hBox("trak", hBox("tkhd", hNum(0, 12), hNum(1, 4), hNum(0, 68)))), frag)
	case 8: // two tracks with one identifier
		t := hC26Aac
		t.id = 1
		d = hPutAll(hBox("moov", hC26Avc.box(), t.box()), frag)
	case 9: // no time
		t := hC26Avc
		t.scale = 0
		d = hPutAll(hBox("moov", t.box()), hFrag(1, true, 0, uint64(vChoose("dur", 2))), hBox("mdat", vBytes("x", 3)))
	case 10: // a fragment of two tracks
		traf := hBox("traf", hBox("tfhd", hNum(0, 4), hNum(1, 4)), hBox("trun", hNum(0, 8)))
		d = hPutAll(moov, hBox("moof", traf, traf), hBox("mdat", vBytes("x", 3)))
	case 11: // two runs and no media
		d = hPutAll(moov, hBox("moof", hBox("traf", hBox("tfhd", hNum(0, 4), hNum(1, 4)), hBox("trun", hNum(0, 8)), hBox("trun", hNum(0, 8)))))
	}
	rc, _ := hC26Run(d)
	vAssert(rc == 0 || rc == 1, "an unusual file gives an exit status")
	if rc == 0 {
		vCover("ok")
	} else {
		vCover("error")
	}
}

func hC26Corrupt() {
	hC26Const = true
	head, _ := hC26Init([]hTrack{hC26Avc, hC26Enca})
	d := hPutAll(head, hFrag(1, true, 0, 700), hBox("mdat", hNum(9, 9)), hFrag(1<<32-1, false, 5, 700), hBox("mdat", hNum(9, 9)))
	ents := hIndex(d)
	e := ents[vChoose("box", len(ents))]
	left := len(d) - e.off
	if vChoose("form", 2) == 0 {
		sizes := []int{0, 2, 7, 8, 12, 16, e.size - 8, e.size - 4, e.size - 1, e.size + 1, e.size + 4, e.size + 8, left, left + 1, 1 << 17, 1<<32 - 1}
		copy(d[e.off:], hNum(uint64(sizes[vChoose("size", len(sizes))]), 4))
	} else if e.size >= 16 {
		copy(d[e.off:], hNum(1, 4))
		sizes := []uint64{15, 16, uint64(e.size), 1 << 32, 1 << 60, 1<<63 - 1 - uint64(e.off)}
		copy(d[e.off+8:], hNum(sizes[vChoose("size64", len(sizes))], 8))
	} else {
		vStopPath()
	}
	rc, _ := hC26Run(d)
	vAssert(rc == 0 || rc == 1, "malformed input gives an exit status")
	if rc == 0 {
		vCover("ok")
	} else {
		vCover("error")
	}
}

func hC26Main() {
	switch vChoose("case", 3) {
	case 0:
		vCaptureStdout()
		rc := Main([]string{vPath("missing.mp4"), vPath("out")})
		vAssert(rc == 1, "a missing file is an error")
		vCover("error")
	case 1:
		d, _ := hC26Init([]hTrack{hC26Avc})
		vCaptureStdout()
		vPutFile("out", d)
		rc := Main([]string{vPutFile("in.mp4", d), vPath("out")})
		vAssert(rc == 1, "a file in the place of the output folder is an error")
	case 2:
		rc := Main([]string{vPath("in.mp4")})
		vAssert(rc == 1, "a missing argument is an error")
	}
}
