package HARNESS

import (
	"bytes"
	"fmt"
	"os"

	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
)

//use movie

func vInst_C27(tier string) []string {
	max := "2"
	if tier == "thorough" {
		max = "3"
	}
	return []string{
		"hC27Top max=" + max + " @cover=fast,slow",
		"hC27Track @cover=zero",
		"hC27Video samples=" + max + " @cover=idr,none",
		"hC27Audio samples=" + max + " @cover=rates,none,plain,full",
		"hC27Fragments frags=" + max + " @cover=rates,samples",
		"hC27Kinds @cover=encrypted,unknown",
		"hC27Several @cover=two",
		"hC27Broken @cover=error,ok",
		"hC27Main @cover=error",
	}
}

func vDoc_C27() []string {
	return []string{
		"bound: brand lists of up to 2 (thorough 3) brands; one or two tracks of every codec with up to 2 (3) samples; up to 2 (3) fragments; all values arbitrary except durations in seconds (time scales and durations from tables of 5 each), sample durations from a table of 5 and sizes of video samples (a few)",
		"bound: a file of a dozen boxes cut short anywhere or with the size of one box replaced",
		"assume: time scales below 2^26, so that the number of bits times the time scale fits 64 bits",
		"assume: the package os is modelled (files in memory); the model is compared with the real package on every replayed trace",
		"outside: the encoders for JSON and YAML (encoding/json, gopkg.in/yaml.v2); the report handed to them is what is checked",
	}
}

type hTrk struct {
	id, scale            uint32
	dur                  uint64
	entry                []byte
	stts, stsc, stsz, co []byte
}

func hTrk0() *hTrk {
	return &hTrk{id: 1, scale: 1000, dur: 1000, stts: hBox("stts", make([]byte, 8)), stsc: hBox("stsc", make([]byte, 8)), stsz: hBox("stsz", make([]byte, 12)), co: hBox("stco", make([]byte, 8))}
}

func (t *hTrk) box() []byte {
	tkhd := hBox("tkhd", hNum(0, 12), hNum(uint64(t.id), 4), hNum(0, 68))
	mdhd := hBox("mdhd", []byte{1}, hNum(0, 19), hNum(uint64(t.scale), 4), hNum(t.dur, 8), hNum(0, 4))
	return hBox("trak", tkhd, hBox("mdia", mdhd, hBox("minf", hBox("stbl", hBox("stsd", hNum(1, 8), t.entry), t.stts, t.stsc, t.stsz, t.co))))
}

// samples sets the tables to one chunk at an offset, or none.
func (t *hTrk) samples(off int, sizes, deltas []uint32) {
	n := len(sizes)
	stts, stsz := append(hNum(0, 4), hNum(uint64(n), 4)...), append(hNum(0, 8), hNum(uint64(n), 4)...)
	for k := range sizes {
		stts = append(append(stts, hNum(1, 4)...), hNum(uint64(deltas[k]), 4)...)
		stsz = append(stsz, hNum(uint64(sizes[k]), 4)...)
	}
	t.stts, t.stsz = hBox("stts", stts), hBox("stsz", stsz)
	t.stsc = hBox("stsc", hNum(1, 8), hNum(1, 4), hNum(uint64(n), 4), hNum(1, 4))
	t.co = hBox("stco", hNum(1, 8), hNum(uint64(off), 4))
}

// reportFile reads a file in the way the command does.
func reportFile(path string) (*report, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return buildReport(util.NewReadSeeker(f, 1024, 4))
}

func hReport(d ...[]byte) *report {
	rep, err := buildReport(util.NewReadSeeker(bytes.NewReader(hPutAll(d...)), 1024, 4))
	if err != nil {
		vDebug(err.Error())
	}
	vAssert(err == nil && rep != nil, "a well-formed file has a report")
	return rep
}

func hOne(d ...[]byte) *track {
	rep := hReport(d...)
	vAssert(len(rep.Tracks) == 1, "the report has the file's track")
	return rep.Tracks[0]
}

func hSeconds(dur uint64, scale uint32) float32 {
	if scale == 0 {
		return 0 // there is no number that JSON can express
	}
	return float32(dur) / float32(scale)
}

func hC27Top() {
	major, minor := vBytes("major", 4), vU32("minor")
	vAssume(!(major[0] == 'q' && major[1] == 't'))
	var compat []byte
	n := vChoose("brands", vParamInt("max")+1)
	for i := 0; i < n; i++ {
		compat = append(compat, vBytes("brand", 4)...)
	}
	scale := []uint32{0, 1, 1000, 90000, 1<<32 - 1}[vChoose("scale", 5)]
	dur := []uint64{0, 1, 2500, 1<<32 - 1, 1 << 40}[vChoose("dur", 5)]
	mvhd := hBox("mvhd", []byte{1}, hNum(0, 19), hNum(uint64(scale), 4), hNum(dur, 8), hNum(0, 80))
	moov, mdat := hBox("moov", mvhd), hBox("mdat", vBytes("media", 2))
	ftyp := hBox("ftyp", major, hNum(uint64(minor), 4), compat)
	var rep *report
	fast := vChoose("fast", 2) == 1
	if fast {
		rep = hReport(ftyp, moov, mdat)
		vCover("fast")
	} else {
		rep = hReport(ftyp, mdat, moov)
		vCover("slow")
	}
	vAssert(vStrEq(rep.MajorBrand, string(major)) && rep.MinorVersion == minor, "the major brand and its version")
	vAssert(len(rep.CompatibleBrands) == n, "the number of compatible brands")
	for i := 0; i < n; i++ {
		vAssert(vStrEq(rep.CompatibleBrands[i], string(compat[4*i:4*i+4])), "the compatible brands in order")
	}
	vAssert(rep.FastStart == fast, "whether the movie header comes first")
	vAssert(rep.Timescale == scale && rep.Duration == dur, "the movie's time scale and duration")
	vAssert(rep.DurationSeconds == hSeconds(dur, scale), "the movie's duration in seconds")
	vAssert(rep.Tracks != nil && len(rep.Tracks) == 0, "no tracks")
}

func hC27Track() {
	t := hTrk0()
	t.id = vU32("id")
	t.scale = []uint32{0, 1, 1000, 90000, 1<<32 - 1}[vChoose("scale", 5)]
	t.dur = []uint64{0, 1, 2500, 1<<32 - 1, 1 << 40}[vChoose("dur", 5)]
	if t.dur == 0 {
		vCover("zero")
	}
	r := hOne(hBox("moov", t.box()))
	vAssert(r.TrackID == t.id && r.Timescale == t.scale && r.Duration == t.dur, "the track's identifier, time scale and duration")
	vAssert(r.DurationSeconds == hSeconds(t.dur, t.scale), "the track's duration in seconds")
	vAssert(r.Codec == "unknown" && !r.Encrypted, "a track without known codec")
	vAssert(r.Width == 0 && r.Height == 0 && r.SampleNum == 0 && r.ChunkNum == 0 && r.IDRFrameNum == 0 && r.Bitrate == 0 && r.MaxBitrate == 0, "nothing else is known")
}

func hHex(b byte) string {
	d := func(x byte) byte { return byte(vIte(x < 10, uint64(x)+'0', uint64(x)+'A'-10)) }
	return string([]byte{d(b >> 4), d(b & 15)})
}

func hRates(sizes, deltas []uint32, scale uint32, window uint64) (uint64, uint64) {
	sum := func(a, b int) (s, d uint64) {
		for ; a < b; a++ {
			s += uint64(sizes[a])
			d += uint64(deltas[a])
		}
		return
	}
	s, d := sum(0, len(sizes))
	if d == 0 {
		return 0, 0
	}
	avg, max := 8*s*uint64(scale)/d, uint64(0)
	if window == 0 {
		return avg, 0
	}
	for a, b := 0, 0; b < len(sizes); {
		b++
		s, d := sum(a, b)
		if d < window && b < len(sizes) {
			continue
		}
		if d != 0 {
			if r := 8 * s * uint64(scale) / d; r > max {
				max = r
			}
		}
		for {
			a++
			if _, d := sum(a, b); d < window {
				break
			}
		}
	}
	return avg, max
}

func hC27Video() {
	t := hTrk0()
	entry := hNum(1, 78)
	copy(entry, hNum(1, 8))
	wh := vBytes("wh", 4)
	copy(entry[24:], wh)
	config := vBytes("config", 3)
	// unit lengths of one byte, no parameter sets
	avcC := hBox("avcC", []byte{1}, config, []byte{0xfc, 0xe0, 0})
	if vChoose("profile", 2) == 1 { // a profile with the longer form
		config[0] = 100
		avcC = hBox("avcC", []byte{1}, config, []byte{0xfc, 0xe0, 0, 0xfd, 0xf8, 0xf8, 0})
	} else {
		vAssume(config[0] != 100 && config[0] != 110 && config[0] != 122 && config[0] != 144)
	}
	t.entry = hBox("avc1", entry, avcC)
	var data []byte
	var sizes, deltas []uint32
	idr := uint64(0)
	n := vChoose("samples", vParamInt("samples")+1)
	for k := 0; k < n; k++ {
		m := 1 + vChoose("size", 2)
		data = append(data, hNum(uint64(m), 1)...)
		b := vBytes("unit", m)
		data = append(data, b...)
		idr += vIte(b[0]&31 == 5, 1, 0)
		sizes, deltas = append(sizes, uint32(m+1)), append(deltas, 1000)
	}
	mdat := hBox("mdat", data)
	t.samples(8, sizes, deltas)
	if n == 0 {
		t.co = hBox("stco", hNum(0, 8))
		t.stsc = hBox("stsc", hNum(0, 8))
	}
	r := hOne(mdat, hBox("moov", t.box()))
	vAssert(vStrEq(r.Codec, "avc1."+hHex(config[0])+hHex(config[1])+hHex(config[2])), "the codec of video")
	vAssert(r.Width == uint16(wh[0])<<8|uint16(wh[1]) && r.Height == uint16(wh[2])<<8|uint16(wh[3]), "the dimensions")
	vAssert(r.SampleNum == n, "the number of samples")
	vAssert(uint64(r.IDRFrameNum) == idr, "the number of key frames")
	if idr > 0 {
		vCover("idr")
	} else {
		vCover("none")
	}
	if n > 0 {
		avg, max := hRates(sizes, deltas, 1000, 1000)
		vAssert(r.ChunkNum == 1 && r.Bitrate == avg && r.MaxBitrate == max, "the chunks and bit rates")
	} else {
		vAssert(r.ChunkNum == 0 && r.Bitrate == 0 && r.MaxBitrate == 0, "no chunks and bit rates")
	}
	vAssert(!r.Encrypted, "a clear track")
}

func hC27Audio() {
	t := hTrk0()
	t.scale = []uint32{1, 1000, 44100, 1 << 25}[vChoose("scale", 4)]
	t.dur = 5
	want := "mp4a"
	var esds []byte
	if vChoose("esds", 2) == 1 {
		oti := vU8("oti")
		dsi := hPutAll([]byte{5, 2, vU8("aot")&0xf8 | 1, 0x90}) // the object type is in the first five bits
		aot := dsi[2] >> 3
		vAssume(aot != 5 && aot != 29 && aot != 31 && aot != 22) // the plain layouts
		esds = hBox("esds", hNum(0, 4), []byte{3, byte(3 + 2 + 13 + len(dsi)), 0, 1, 0, 4, byte(13 + len(dsi)), oti, 21}, hNum(0, 11), dsi)
		switch {
		case oti == 0:
		case oti == 0x40:
			want = fmt.Sprintf("mp4a.40.%d", aot)
			if aot == 0 {
				want = "mp4a.40"
			}
			vCover("full")
		default:
			want = fmt.Sprintf("mp4a.%X", oti)
		}
	} else {
		vCover("plain")
	}
	entry := append(hNum(1, 8), hNum(0, 20)...)
	t.entry = hBox("mp4a", entry, esds)
	n := vChoose("samples", vParamInt("samples")+1)
	var sizes, deltas []uint32
	if esds == nil || t.scale == 1000 && n == 1 { // each matter on its own
		for k := 0; k < n; k++ {
			sizes, deltas = append(sizes, vU32("size")), append(deltas, []uint32{0, 1, 600, 44100, 1<<32 - 1}[vChoose("delta", 5)])
		}
		t.samples(50, sizes, deltas)
	}
	r := hOne(hBox("moov", t.box()))
	vAssert(vStrEq(r.Codec, want), "the codec of audio")
	vAssert(r.SampleNum == len(sizes) && r.IDRFrameNum == 0 && r.Width == 0 && r.Height == 0, "the number of samples")
	avg, max := hRates(sizes, deltas, t.scale, uint64(t.scale))
	if avg == 0 || max == 0 {
		vAssert(r.Bitrate == 0 && r.MaxBitrate == 0, "no bit rates without duration or size")
		vCover("none")
	} else {
		vAssert(r.Bitrate == avg && r.MaxBitrate == max, "the bit rates of the samples")
		vCover("rates")
	}
}

// bit rates of a fragmented file
func hC27Fragments() {
	t := hTrk0()
	t.id = 1 + uint32(vChoose("id", 2))
	t.entry = hBox("mp4a", hNum(1, 8), hNum(0, 20))
	var sizes, deltas []uint32
	if vChoose("samples", 2) == 1 { // and samples of its own
		sizes, deltas = []uint32{vU32("size")}, []uint32{vU32("delta")}
		t.samples(50, sizes, deltas)
		vCover("samples")
	}
	d := hBox("moov", t.box())
	size, dur, max := uint64(0), uint64(0), uint64(0)
	for k, n := 0, vChoose("frags", vParamInt("frags")+1); k < n; k++ {
		id := uint32(1 + vChoose("track", 2))
		a, b := vU32("fsize"), vU32("fdur")
		trun := hBox("trun", hNum(0x300, 4), hNum(1, 4), hNum(uint64(b), 4), hNum(uint64(a), 4))
		d = append(d, hBox("moof", hBox("traf", hBox("tfhd", hNum(0, 4), hNum(uint64(id), 4)), hBox("tfdt", hNum(0, 8)), trun))...)
		if id == t.id {
			size += uint64(a)
			dur += uint64(b)
			if b != 0 {
				if r := 8 * uint64(a) * uint64(t.scale) / uint64(b); r > max {
					max = r
				}
			}
		}
	}
	r := hOne(d)
	avg, smax := hRates(sizes, deltas, t.scale, uint64(t.scale))
	if avg != 0 && smax != 0 {
		vAssert(r.Bitrate == avg && r.MaxBitrate == smax, "the bit rates of the samples")
		return
	}
	avg = 0
	if dur != 0 {
		avg = 8 * size * uint64(t.scale) / dur
	}
	vAssert(r.Bitrate == avg && r.MaxBitrate == max, "the bit rates of the fragments of the track")
	vCover("rates")
}

func hC27Kinds() {
	t := hTrk0()
	vis, aud := append(hNum(1, 8), hNum(0, 70)...), append(hNum(1, 8), hNum(0, 20)...)
	codec, enc := "", false
	switch vChoose("kind", 6) {
	case 0:
		t.entry, codec = hBox("avc1", vis), "avc1"
	case 1:
		t.entry, codec, enc = hBox("encv", vis), "avc1", true
	case 2:
		t.entry, codec, enc = hBox("enca", aud), "mp4a", true
	case 3:
		t.entry, codec = hBox("hvc1", vis), "unknown"
	case 4:
		t.entry, codec = hBox("stpp", hNum(1, 8)), "unknown"
	case 5:
		t.entry, codec = hBox("mp4a", aud), "mp4a"
	}
	t.samples(8, []uint32{3}, []uint32{1000})
	r := hOne(hBox("moov", t.box()), hBox("mdat", vBytes("media", 3)))
	vAssert(r.Codec == codec && r.Encrypted == enc, "the codec and whether the track is encrypted")
	vAssert(r.SampleNum == 1 && r.ChunkNum == 1 && r.Bitrate == 24 && r.MaxBitrate == 24 && r.IDRFrameNum == 0, "the samples and bit rates")
	if enc {
		vCover("encrypted")
	} else if codec == "unknown" {
		vCover("unknown")
	}
}

// the tracks do not influence each other
func hC27Several() {
	a, v := hTrk0(), hTrk0()
	a.id, v.id = vU32("ida"), vU32("idv")
	a.entry = hBox("mp4a", hNum(1, 8), hNum(0, 20))
	x := vBytes("config", 3)
	vAssume(x[0] != 100 && x[0] != 110 && x[0] != 122 && x[0] != 144)
	v.entry = hBox("avc1", hNum(1, 8), hNum(0, 70), hBox("avcC", []byte{1}, x, []byte{0xfc, 0xe0, 0}))
	u := vU8("unit")
	mdat := hBox("mdat", []byte{1, u})
	v.samples(8, []uint32{2}, []uint32{500})
	a.samples(8, []uint32{1, 1}, []uint32{500, 500})
	var rep *report
	first := vChoose("first", 2)
	if first == 0 {
		rep = hReport(mdat, hBox("moov", a.box(), v.box()))
	} else {
		rep = hReport(mdat, hBox("moov", v.box(), a.box()))
	}
	vAssert(len(rep.Tracks) == 2, "the report has both tracks")
	ra, rv := rep.Tracks[first], rep.Tracks[1-first]
	vAssert(ra.TrackID == a.id && ra.Codec == "mp4a" && ra.SampleNum == 2 && ra.Bitrate == 16 && ra.MaxBitrate == 16 && ra.IDRFrameNum == 0, "the audio track")
	vAssert(rv.TrackID == v.id && vStrEq(rv.Codec, "avc1."+hHex(x[0])+hHex(x[1])+hHex(x[2])) && rv.SampleNum == 1 && rv.Bitrate == 32 && rv.MaxBitrate == 32, "the video track")
	vAssert(uint64(rv.IDRFrameNum) == vIte(u&31 == 5, 1, 0), "the key frames of the video track")
	vCover("two")
}

func hC27Broken() {
	d := hMovie()
	switch vChoose("case", 2) {
	case 0: // cut anywhere
		d = d[:len(d)-1-vChoose("cut", 60)]
	case 1: // a field of a table replaced
		t := hTrk0()
		t.entry = hBox("avc1", hNum(1, 8), hNum(0, 70), hBox("avcC", []byte{1, 66, 0, 30, 0xfc, 0xe0, 0}))
		t.samples(8, []uint32{2, 3}, []uint32{1, 1})
		n := []uint64{0, 1, 2, 3, 7, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1}[vChoose("value", 9)]
		switch vChoose("field", 4) {
		case 0:
			copy(t.co[16:], hNum(n, 4)) // chunk offset
		case 1:
			copy(t.stsz[20:], hNum(n, 4)) // first sample's size
		case 2:
			copy(t.stsc[16:], hNum(n, 4)) // first chunk
		case 3:
			copy(t.stsc[20:], hNum(n, 4)) // samples per chunk
		}
		d = hPutAll(hBox("mdat", []byte{1, vU8("u"), 2, 5, 5}), hBox("moov", t.box()))
	}
	rep, err := buildReport(util.NewReadSeeker(bytes.NewReader(d), 1024, 4))
	vAssert((rep == nil) == (err != nil), "a report or an error")
	if err != nil {
		vCover("error")
	} else {
		vCover("ok")
	}
}

func hC27Main() {
	vCaptureStdout()
	switch vChoose("case", 2) {
	case 0:
		rc := Main([]string{vPath("missing.mp4")})
		vAssert(rc == 1 && len(vStdout()) > 0, "a missing file is an error")
		vCover("error")
	case 1:
		rc := Main([]string{vPutFile("in.mp4", hBox("moov", hBox("trak")))})
		vAssert(rc == 1 && len(vStdout()) > 0, "a track without header is an error")
	}
}
