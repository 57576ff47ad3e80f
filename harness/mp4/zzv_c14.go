package HARNESS

//use movie types

import "bytes"

func vInst_C14(tier string) []string {
	n := "2"
	if tier == "thorough" {
		n = "3"
	}
	return []string{
		"hC14Top max=" + n + " @cover=ok",
		"hC14Head max=" + n + " @cover=ok",
		"hC14Tables do=stts max=3 @cover=ok",
		"hC14Tables do=ctts max=" + n + " @cover=ok",
		"hC14Tables do=stsc max=3 @cover=ok",
		"hC14Tables do=stsz max=3 @cover=ok",
		"hC14Tables do=stco max=3 @cover=ok",
		"hC14Tables do=all max=2 @cover=ok",
		"hC14Codec do=video @cover=ok",
		"hC14Codec do=audio @cover=ok",
		"hC14Fragment do=head max=1 @cover=ok",
		"hC14Fragment do=run max=" + n + " @cover=ok",
		"hC14Segments @cover=ok",
		"hC14Missing @cover=missing,ok",
	}
}

func vDoc_C14() []string {
	return []string{
		"bound: brand lists of up to 2 (3) brands, movie, track and media headers of both versions, edit lists of up to 2 (3) entries of both versions, sample tables of up to 3 entries with run lengths of up to 2 (chunk runs starting anywhere in increasing order among 3 chunks), one or two tracks; all values arbitrary",
		"bound: one or two fragments of one track fragment and one run of up to 2 (3) samples with all combinations of optional fields and both versions, all values arbitrary",
		"bound: each mandatory box left out in turn, boxes of a sample table in any of a few orders",
		"outside: movie fragments with several track fragments or runs, and defaults taken from track extends boxes, which probing does not look at; chunk tables whose runs are not in increasing order",
	}
}

type hTrk struct {
	tkhd, edts, mdhd, entries, stts, ctts, stsc, stsz, stco []byte
}

func hTrk0() *hTrk {
	return &hTrk{
		tkhd: hBox("tkhd", make([]byte, 84)), mdhd: hBox("mdhd", make([]byte, 24)),
		stts: hBox("stts", make([]byte, 8)), stsc: hBox("stsc", make([]byte, 8)), stco: hBox("stco", make([]byte, 8)),
	}
}

func (t *hTrk) box() []byte {
	var stsd []byte
	if t.entries != nil {
		stsd = hBox("stsd", make([]byte, 4), hNum(1, 4), t.entries)
	}
	return hBox("trak", t.tkhd, t.edts, hBox("mdia", t.mdhd, hBox("minf", hBox("stbl", stsd, t.stts, t.ctts, t.stsc, t.stsz, t.stco))))
}

func hProbe(d ...[]byte) *ProbeInfo {
	info, err := Probe(bytes.NewReader(hPutAll(d...)))
	if err != nil {
		vDebug(err.Error())
	}
	vAssert(err == nil, "probing a well-formed file succeeds")
	return info
}

func hC14Top() {
	major, minor := vBytes("major", 4), vU32("minor")
	vAssume(!(major[0] == 'q' && major[1] == 't'))
	var compat []byte
	var brands [][]byte
	for i, n := 0, vChoose("brands", vParamInt("max")+1); i < n; i++ {
		b := vBytes("brand", 4)
		brands = append(brands, b)
		compat = append(compat, b...)
	}
	v := byte(vChoose("ver", 2))
	dur, scale := vU64("dur"), vU32("scale")
	mvhd := append([]byte{v}, vBytes("flags", 3)...)
	if v == 0 {
		dur &= 1<<32 - 1
		mvhd = hPutAll(mvhd, vBytes("times", 8), hNum(uint64(scale), 4), hNum(dur, 4))
	} else {
		mvhd = hPutAll(mvhd, vBytes("times1", 16), hNum(uint64(scale), 4), hNum(dur, 8))
	}
	mvhd = append(mvhd, make([]byte, 80)...)
	moov := hBox("moov", hBox("mvhd", mvhd))
	mdat := hBox("mdat", vBytes("media", 2))
	ftyp := hBox("ftyp", major, hNum(uint64(minor), 4), compat)
	var info *ProbeInfo
	order := vChoose("order", 4)
	switch order {
	case 0:
		info = hProbe(ftyp, moov, mdat)
	case 1:
		info = hProbe(ftyp, mdat, moov)
	case 2:
		info = hProbe(ftyp, moov)
	case 3:
		info = hProbe(ftyp, mdat, moov, mdat)
	}
	vAssert(vBytesEq(info.MajorBrand[:], major) && info.MinorVersion == minor, "the major brand and its version are reported")
	vAssert(len(info.CompatibleBrands) == len(brands), "the number of compatible brands is reported")
	for i := range brands {
		vAssert(vBytesEq(info.CompatibleBrands[i][:], brands[i]), "the compatible brands are reported in order")
	}
	vAssert(info.Timescale == scale && info.Duration == dur, "the movie's time scale and duration are reported")
	vAssert(info.FastStart == (order == 0 || order == 2), "the movie header before the media data means a fast start")
	vAssert(len(info.Tracks) == 0 && len(info.Segments) == 0, "there are no tracks or fragments")
	vCover("ok")
}

func hC14Head() {
	n := 1 + vChoose("tracks", 2)
	type want struct {
		id, scale uint32
		dur       uint64
		elst      []EditListEntry
		edits     bool
	}
	var wants []want
	var traks [][]byte
	for i := 0; i < n; i++ {
		t := hTrk0()
		w := want{id: vU32("id"), scale: vU32("scale"), dur: vU64("dur")}
		if v := vChoose("tkhdver", 2); v == 0 {
			t.tkhd = hBox("tkhd", []byte{0}, vBytes("tf", 3), vBytes("tt", 8), hNum(uint64(w.id), 4), make([]byte, 68))
		} else {
			t.tkhd = hBox("tkhd", []byte{1}, vBytes("tf", 3), vBytes("tt1", 16), hNum(uint64(w.id), 4), make([]byte, 72))
		}
		if v := vChoose("mdhdver", 2); v == 0 {
			w.dur &= 1<<32 - 1
			t.mdhd = hBox("mdhd", []byte{0}, vBytes("mf", 3), vBytes("mt", 8), hNum(uint64(w.scale), 4), hNum(w.dur, 4), make([]byte, 4))
		} else {
			t.mdhd = hBox("mdhd", []byte{1}, vBytes("mf", 3), vBytes("mt1", 16), hNum(uint64(w.scale), 4), hNum(w.dur, 8), make([]byte, 4))
		}
		if i == 0 && vChoose("edts", 2) == 1 {
			w.edits = true
			v := vChoose("elstver", 2)
			k := vChoose("edits", vParamInt("max")+1)
			e := append([]byte{byte(v), 0, 0, 0}, hNum(uint64(k), 4)...)
			for j := 0; j < k; j++ {
				en := EditListEntry{SegmentDuration: vU64("sd"), MediaTime: vI64("mt")}
				if v == 0 {
					en.SegmentDuration &= 1<<32 - 1
					en.MediaTime = int64(int32(en.MediaTime))
					e = hPutAll(e, hNum(en.SegmentDuration, 4), hNum(uint64(en.MediaTime), 4), vBytes("rate", 4))
				} else {
					e = hPutAll(e, hNum(en.SegmentDuration, 8), hNum(uint64(en.MediaTime), 8), vBytes("rate", 4))
				}
				w.elst = append(w.elst, en)
			}
			t.edts = hBox("edts", hBox("elst", e))
		}
		wants = append(wants, w)
		traks = append(traks, t.box())
	}
	info := hProbe(hBox("moov", traks...))
	vAssert(len(info.Tracks) == n, "every track is reported")
	for i, w := range wants {
		t := info.Tracks[i]
		vAssert(t.TrackID == w.id, "the track's identity is reported")
		vAssert(t.Timescale == w.scale && t.Duration == w.dur, "the track's time scale and duration are reported")
		vAssert(len(t.EditList) == len(w.elst), "every edit is reported")
		for j, e := range w.elst {
			vAssert(*t.EditList[j] == e, "the edits are reported in order")
		}
		vAssert(t.Codec == CodecUnknown && !t.Encrypted && t.AVC == nil && t.MP4A == nil, "a track without sample descriptions has no codec")
		vAssert(len(t.Samples) == 0 && len(t.Chunks) == 0, "a track with empty tables has no samples")
	}
	vCover("ok")
}

func hC14Tables() {
	do, max := vParam("do"), vParamInt("max")
	all := do == "all"
	t := hTrk0()
	// time to sample
	var deltas []uint32
	k := 1
	if do == "stts" || all {
		k = vChoose("stts", max+1)
	}
	e := append(make([]byte, 4), hNum(uint64(k), 4)...)
	for i := 0; i < k; i++ {
		run, d := 3, vU32("delta")
		if do == "stts" || all {
			run = vChoose("run", 3)
		}
		for j := 0; j < run; j++ {
			deltas = append(deltas, d)
		}
		e = hPutAll(e, hNum(uint64(run), 4), hNum(uint64(d), 4))
	}
	t.stts = hBox("stts", e)
	ns := len(deltas)
	// composition offsets
	offs := make([]int64, ns)
	if all || do == "ctts" && vChoose("hasctts", 2) == 1 {
		ver, k := 1, 2
		if !all {
			ver = vChoose("cttsver", 2)
			k = vChoose("ctts", max+1)
		}
		e := append([]byte{byte(ver), 0, 0, 0}, hNum(uint64(k), 4)...)
		si := 0
		for i := 0; i < k; i++ {
			o := vU32("cto")
			v := int64(o)
			if ver == 1 {
				v = int64(int32(o))
			}
			run := 1
			if !all {
				run = vChoose("cttsrun", 3)
			}
			for j := 0; j < run; j++ {
				if si < ns {
					offs[si] = v
				}
				si++
			}
			e = hPutAll(e, hNum(uint64(run), 4), hNum(uint64(o), 4))
		}
		t.ctts = hBox("ctts", e)
	}
	// chunks
	nc := 3
	if do == "stco" || all {
		nc = vChoose("stco", max+1)
	}
	var chunks []uint64
	size := 4
	if (do == "stco" || do == "stsc") && vChoose("co64", 2) == 1 {
		size = 8
	}
	e = append(make([]byte, 4), hNum(uint64(nc), 4)...)
	for i := 0; i < nc; i++ {
		o := vU64("chunk")
		if size == 4 {
			o &= 1<<32 - 1
		}
		chunks = append(chunks, o)
		e = append(e, hNum(o, size)...)
	}
	if size == 4 {
		t.stco = hBox("stco", e)
	} else {
		t.stco = hBox("co64", e)
	}
	// samples per chunk
	per := make([]uint32, nc)
	k = 1
	if do == "stsc" {
		k = vChoose("stsc", max+1)
	}
	e = append(make([]byte, 4), hNum(uint64(k), 4)...)
	first := 0
	for i := 0; i < k; i++ {
		first += 1 + vChoose("gap", 3)
		if i == 0 && do != "stsc" {
			first = 1
		}
		p := vU32("per")
		for c := first - 1; c < nc; c++ {
			per[c] = p
		}
		e = hPutAll(e, hNum(uint64(first), 4), hNum(uint64(p), 4), vBytes("desc", 4))
	}
	t.stsc = hBox("stsc", e)
	// sizes
	sizes := make([]uint32, ns)
	if all || do == "stsz" && vChoose("hasstsz", 2) == 1 {
		s := vU32("size")
		if !all && vChoose("constant", 2) == 1 {
			vAssume(s != 0)
			for i := range sizes {
				sizes[i] = s
			}
			t.stsz = hBox("stsz", make([]byte, 4), hNum(uint64(s), 4), hNum(uint64(ns), 4))
		} else {
			k := ns
			if !all {
				k = vChoose("stsz", ns+2)
			}
			e := hPutAll(make([]byte, 8), hNum(uint64(k), 4))
			for i := 0; i < k; i++ {
				s := vU32("size")
				if i < ns {
					sizes[i] = s
				}
				e = append(e, hNum(uint64(s), 4)...)
			}
			t.stsz = hBox("stsz", e)
		}
	}
	d := t.box()
	var info *ProbeInfo
	if do == "all" {
		// a second track does not disturb the first one
		other := hTrk0()
		other.stts = hBox("stts", make([]byte, 4), hNum(1, 4), hNum(1, 4), hNum(77, 4))
		other.stco = hBox("stco", make([]byte, 4), hNum(1, 4), hNum(55, 4))
		info = hProbe(hBox("moov", d, other.box()))
		vAssert(len(info.Tracks) == 2 && len(info.Tracks[1].Samples) == 1 && *info.Tracks[1].Samples[0] == Sample{TimeDelta: 77}, "the samples of the second track are its own")
		vAssert(len(info.Tracks[1].Chunks) == 1 && *info.Tracks[1].Chunks[0] == Chunk{DataOffset: 55}, "the chunks of the second track are its own")
	} else {
		info = hProbe(hBox("moov", d))
		vAssert(len(info.Tracks) == 1, "every track is reported")
	}
	tr := info.Tracks[0]
	vAssert(len(tr.Samples) == ns, "there are as many samples as the time table declares")
	for i, s := range tr.Samples {
		vAssert(s.TimeDelta == deltas[i], "each sample has its time delta")
		vAssert(s.CompositionTimeOffset == offs[i], "each sample has its composition offset")
		vAssert(s.Size == sizes[i], "each sample has its size")
	}
	vAssert(len(tr.Chunks) == nc, "there are as many chunks as offsets")
	for i, c := range tr.Chunks {
		vAssert(c.DataOffset == chunks[i], "each chunk has its offset")
		vAssert(c.SamplesPerChunk == per[i], "each chunk has its number of samples")
	}
	vCover("ok")
}

func hC14Codec() {
	t := hTrk0()
	want := CodecUnknown
	enc := false
	switch vParam("do") {
	case "video":
		vis := make([]byte, 78)
		w, h := vBytes("w", 2), vBytes("h", 2)
		copy(vis[24:], w)
		copy(vis[26:], h)
		cfg := vBytes("cfg", 5)
		vAssume(!(cfg[1] == 100 || cfg[1] == 110 || cfg[1] == 122 || cfg[1] == 144))
		avcC := hBox("avcC", cfg, []byte{0xe0, 0})
		kind := vChoose("kind", 5)
		switch kind {
		case 0:
			t.entries = hBox("avc1", vis, avcC)
			want = CodecAVC1
		case 1:
			t.entries = hBox("avc1", vis)
			want = CodecAVC1
		case 2:
			t.entries = hBox("encv", vis, avcC)
			want, enc = CodecAVC1, true
		case 3:
			t.entries = hBox("hvc1", vis)
		case 4:
			t.entries = hBox("avc1", vis, hBox("pasp", make([]byte, 8)), avcC, hBox("btrt", make([]byte, 12)))
			want = CodecAVC1
		}
		tr := hProbe(hBox("moov", t.box())).Tracks[0]
		vAssert(tr.Codec == want && tr.Encrypted == enc, "the codec and encryption are reported")
		vAssert(tr.MP4A == nil, "video has no audio configuration")
		if kind == 0 || kind == 4 {
			vAssert(tr.AVC != nil && *tr.AVC == AVCDecConfigInfo{ConfigurationVersion: cfg[0], Profile: cfg[1], ProfileCompatibility: cfg[2], Level: cfg[3],
				LengthSize: uint16(cfg[4]&3) + 1, Width: uint16(w[0])<<8 | uint16(w[1]), Height: uint16(h[0])<<8 | uint16(h[1])}, "the video configuration is reported")
		} else if kind != 2 {
			vAssert(tr.AVC == nil, "no video configuration is made up")
		}
	case "audio":
		aud := make([]byte, 28)
		ch := vBytes("ch", 2)
		copy(aud[16:], ch)
		oti := vU8("oti")
		esds := hBox("esds", make([]byte, 4), []byte{4, 13, oti, 21}, make([]byte, 11), []byte{5, 2, 18, 16})
		var brand []byte
		kind := vChoose("kind", 4)
		switch kind {
		case 0:
			t.entries = hBox("mp4a", aud, esds)
		case 1:
			t.entries = hBox("mp4a", aud)
		case 2:
			t.entries = hBox("enca", aud, esds)
			enc = true
		case 3:
			brand = hBox("ftyp", []byte("qt  "), make([]byte, 4), []byte("qt  "))
			aud[9] = 1
			t.entries = hBox("mp4a", aud, make([]byte, 16), hBox("wave", hBox("frma", []byte("mp4a")), hBox("mp4a", make([]byte, 4)), esds, hBox("\x00\x00\x00\x00")))
		}
		tr := hProbe(brand, hBox("moov", t.box())).Tracks[0]
		vAssert(tr.Codec == CodecMP4A && tr.Encrypted == enc, "the codec and encryption are reported")
		vAssert(tr.AVC == nil, "audio has no video configuration")
		if kind == 1 {
			vAssert(tr.MP4A == nil, "no audio configuration is made up")
		} else {
			aot := uint8(0)
			if oti == 0x40 {
				aot = 2
			}
			vAssert(tr.MP4A != nil && *tr.MP4A == MP4AInfo{OTI: oti, AudOTI: aot, ChannelCount: uint16(ch[0])<<8 | uint16(ch[1])}, "the audio configuration is reported")
		}
	}
	vCover("ok")
}

// hFrag is an arbitrary movie fragment with what probing should report.
func hFrag(max int) ([]byte, Segment) {
	var want Segment
	want.TrackID = vU32("track")
	tf := uint32(0)
	tfhd := hNum(uint64(want.TrackID), 4)
	var defDur, defSize uint32
	head := vParam("do") == "head"
	if head && vChoose("base", 2) == 1 {
		tf |= 1
		tfhd = append(tfhd, vBytes("base", 8)...)
	}
	if head && vChoose("desc", 2) == 1 {
		tf |= 2
		tfhd = append(tfhd, vBytes("desc", 4)...)
	}
	if !head || vChoose("defdur", 2) == 1 {
		tf |= 8
		defDur = vU32("defdur")
		tfhd = append(tfhd, hNum(uint64(defDur), 4)...)
	}
	if !head || vChoose("defsize", 2) == 1 {
		tf |= 16
		defSize = vU32("defsize")
		tfhd = append(tfhd, hNum(uint64(defSize), 4)...)
	}
	want.DefaultSampleDuration = defDur
	kids := [][]byte{hBox("tfhd", hNum(uint64(tf), 4), tfhd)}
	tfdt := 2
	if head {
		tfdt = vChoose("tfdt", 3)
	}
	switch tfdt {
	case 1:
		want.BaseMediaDecodeTime = uint64(vU32("t32"))
		kids = append(kids, hBox("tfdt", make([]byte, 4), hNum(want.BaseMediaDecodeTime, 4)))
	case 2:
		want.BaseMediaDecodeTime = vU64("t64")
		kids = append(kids, hBox("tfdt", []byte{1, 0, 0, 0}, hNum(want.BaseMediaDecodeTime, 8)))
	}
	if !head || vChoose("trun", 2) == 1 {
		n := max
		if !head {
			n = vChoose("samples", max+1)
		}
		var fl uint32
		var e []byte
		if !head && vChoose("offset", 2) == 1 {
			fl |= 1 | 4
			e = vBytes("offset", 8)
		}
		for _, b := range []uint32{0x100, 0x200, 0x400, 0x800} {
			if !head && vChoose("flag", 2) == 1 {
				fl |= b
			}
		}
		ver := 0
		if n > 0 && fl&0x800 != 0 {
			ver = vChoose("trunver", 2)
		}
		want.SampleCount = uint32(n)
		var t uint32
		for i := 0; i < n; i++ {
			d, s := defDur, defSize
			var cto uint32
			if fl&0x100 != 0 {
				d = vU32("d")
				e = append(e, hNum(uint64(d), 4)...)
			}
			if fl&0x200 != 0 {
				s = vU32("s")
				e = append(e, hNum(uint64(s), 4)...)
			}
			if fl&0x400 != 0 {
				e = append(e, vBytes("f", 4)...)
			}
			if fl&0x800 != 0 {
				cto = vU32("cto")
				e = append(e, hNum(uint64(cto), 4)...)
			}
			o := int32(t + cto)
			if i == 0 || o < want.CompositionTimeOffset {
				want.CompositionTimeOffset = o
			}
			t += d
			want.Duration += d
			want.Size += s
		}
		kids = append(kids, hBox("trun", hNum(uint64(ver)<<24|uint64(fl), 4), hNum(uint64(n), 4), e))
	}
	return hBox("moof", hBox("mfhd", make([]byte, 8)), hBox("traf", kids...)), want
}

func hC14Fragment() {
	moof, want := hFrag(vParamInt("max"))
	d := hPutAll(hBox("free", vBytes("x", 1)), moof, hBox("mdat", vBytes("x", 1)))
	info := hProbe(d)
	vAssert(len(info.Segments) == 1, "every fragment is reported")
	s := info.Segments[0]
	want.MoofOffset = 9
	vAssert(s.TrackID == want.TrackID && s.MoofOffset == want.MoofOffset, "the fragment's track and position are reported")
	vAssert(s.BaseMediaDecodeTime == want.BaseMediaDecodeTime, "the fragment's decode time is reported")
	vAssert(s.DefaultSampleDuration == want.DefaultSampleDuration, "the fragment's default sample duration is reported")
	vAssert(s.SampleCount == want.SampleCount, "the fragment's sample count is reported")
	vAssert(s.Duration == want.Duration, "the fragment's duration is reported")
	vAssert(s.Size == want.Size, "the fragment's size is reported")
	vAssert(s.CompositionTimeOffset == want.CompositionTimeOffset, "the fragment's smallest composition offset is reported")
	vCover("ok")
}

func hC14Segments() {
	frag := func(id, t uint32, run []byte) []byte {
		return hBox("moof", hBox("traf", hBox("tfhd", make([]byte, 4), hNum(uint64(id), 4)), hBox("tfdt", make([]byte, 4), hNum(uint64(t), 4)), run))
	}
	a, b, t, u := vU32("a"), vU32("b"), vU32("t"), vU32("u")
	s := vU32("s")
	run := hBox("trun", []byte{0, 0, 2, 0}, hNum(1, 4), hNum(uint64(s), 4))
	f1, f2 := frag(a, t, run), frag(b, u, nil)
	moov := hBox("moov", hTrk0().box())
	info := hProbe(moov, f1, hBox("mdat", []byte{1}), f2)
	vAssert(len(info.Tracks) == 1 && len(info.Segments) == 2, "tracks and fragments are reported")
	w1 := Segment{TrackID: a, MoofOffset: uint64(len(moov)), BaseMediaDecodeTime: uint64(t), SampleCount: 1, Size: s}
	w2 := Segment{TrackID: b, MoofOffset: uint64(len(moov) + len(f1) + 9), BaseMediaDecodeTime: uint64(u)}
	vAssert(*info.Segments[0] == w1 && *info.Segments[1] == w2, "the fragments are reported in order and apart")
	fra, err := ProbeFra(bytes.NewReader(hPutAll(moov, f1, hBox("mdat", []byte{1}), f2)))
	vAssert(err == nil && len(fra.Tracks) == 1 && len(fra.Segments) == 2 && *fra.Segments[0] == w1 && *fra.Segments[1] == w2, "the older function for fragmented files reports the same")
	vCover("ok")
}

func hC14Missing() {
	t := hTrk0()
	d := hBox("moof", hBox("traf"))
	k := vChoose("missing", 7)
	switch k {
	case 0:
		t.tkhd = nil
	case 1:
		t.mdhd = nil
	case 2:
		t.stts = nil
	case 3:
		t.stsc = nil
	case 4:
		t.stco = nil
	case 5:
		d = hBox("moof", hBox("traf", hBox("tfhd", make([]byte, 8))))
	}
	if k < 5 {
		d = hBox("moov", t.box())
	}
	if k == 6 {
		// no movie header and no tracks at all
		_, err := Probe(bytes.NewReader(hBox("free")))
		vAssert(err == nil, "a file without a movie is not an error")
		return
	}
	_, err := Probe(bytes.NewReader(d))
	if k == 5 {
		vAssert(err == nil, "a fragment needs nothing but its header")
		vCover("ok")
		return
	}
	vAssert(err != nil, "a missing mandatory box is an error")
	vCover("missing")
}
