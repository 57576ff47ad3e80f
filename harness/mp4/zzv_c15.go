package HARNESS

import (
	"bytes"
	"errors"
	"io"
)

func vInst_C15(tier string) []string {
	out := []string{}
	n, idr := 4, 7
	if tier == "thorough" {
		n, idr = 5, 8
	}
	d := func(n int) string { return string(rune('0' + n)) }
	for i := 0; i <= n; i++ {
		out = append(out, "hC15Samples n="+d(i), "hC15Segments n="+d(i))
	}
	for i := 0; i < n; i++ {
		out = append(out, "hC15Max n="+d(i), "hC15SegMax n="+d(i))
	}
	for ls := 1; ls <= 4; ls++ {
		max := idr
		if ls == 1 {
			max -= 2
		} else if ls == 2 {
			max--
		}
		out = append(out, "hC15IDR ls="+d(ls)+" max="+d(max)+" samples=2 @cover=idr,none @hang=1")
		out = append(out, "hC15Far ls="+d(ls)+" @hang=1")
	}
	return append(out, "hC15IDR ls=1 max=3 samples=3 @cover=idr,none @hang=1", "hC15Other")
}

func vDoc_C15() []string {
	return []string{
		"bound: lists of up to 4 (5 in the thorough tier) samples or segments with arbitrary sizes, durations, track numbers, time scales and window lengths (the maximum over windows: 3 or 4)",
		"bound: key frame search over 2 samples of up to 7 (8) arbitrary bytes (less for unit lengths of one or two bytes), or 3 samples of up to 3, in every distribution over two chunks, unit lengths of 1 to 4 bytes; samples of any 32-bit size with arbitrary content for the first three units",
		"assume: time scales below 2^26, so that the number of bits times the time scale fits 64 bits",
		"outside: a unit length of no bytes, which no configuration box can express",
	}
}

func hC15List(n int) (Samples, uint32) {
	var s Samples
	for i := 0; i < n; i++ {
		s = append(s, &Sample{Size: vU32("size"), TimeDelta: vU32("delta")})
	}
	ts := vU32("scale")
	vAssume(ts < 1<<26)
	return s, ts
}

func hC15Samples() {
	s, ts := hC15List(vParamInt("n"))
	keep := vClone(s)
	var size, dur uint64
	for _, x := range s {
		size += uint64(x.Size)
		dur += uint64(x.TimeDelta)
	}
	got := s.GetBitrate(ts)
	if dur == 0 {
		vAssert(got == 0, "no duration means no bitrate")
	} else {
		vAssert(got == 8*size*uint64(ts)/dur, "the bitrate is size over duration")
	}
	vAssert(vEqual(s, keep), "the samples are left alone")
}

// hC15Max: windows start at the first sample; each is extended until it lasts at least the window length or the
// samples end; then samples are taken from its front until it is shorter than that.
func hC15Max() {
	s, ts := hC15List(vParamInt("n"))
	win := vU64("window")
	keep := vClone(s)
	got := s.GetMaxBitrate(ts, win)
	vAssert(vEqual(s, keep), "the samples are left alone")
	if win == 0 {
		vAssert(got == 0, "no window means no bitrate")
		return
	}
	var want uint64
	sum := func(a, b int) (size, dur uint64) {
		for ; a < b; a++ {
			size += uint64(s[a].Size)
			dur += uint64(s[a].TimeDelta)
		}
		return
	}
	a, b := 0, 0
	for b < len(s) {
		b++
		size, dur := sum(a, b)
		if dur < win && b < len(s) {
			continue
		}
		if dur != 0 {
			if r := 8 * size * uint64(ts) / dur; r > want {
				want = r
			}
		}
		for {
			a++
			if _, dur := sum(a, b); dur < win {
				break
			}
		}
	}
	vAssert(got == want, "the maximum bitrate is the largest one of the windows")
}

func hC15Segs(n int) (Segments, uint32, uint32) {
	var s Segments
	for i := 0; i < n; i++ {
		s = append(s, &Segment{TrackID: vU32("id"), Size: vU32("size"), Duration: vU32("dur"), SampleCount: vU32("count"), DefaultSampleDuration: vU32("def")})
	}
	ts := vU32("scale")
	vAssume(ts < 1<<26)
	return s, vU32("track"), ts
}

func hC15Segments() {
	s, id, ts := hC15Segs(vParamInt("n"))
	keep := vClone(s)
	var size, dur uint64
	for _, x := range s {
		if x.TrackID == id {
			size += uint64(x.Size)
			dur += uint64(x.Duration)
		}
	}
	got := s.GetBitrate(id, ts)
	if dur == 0 {
		vAssert(got == 0, "no duration means no bitrate")
	} else {
		vAssert(got == 8*size*uint64(ts)/dur, "the bitrate is size over duration of the track's segments")
	}
	vAssert(vEqual(s, keep), "the segments are left alone")
}

func hC15SegMax() {
	s, id, ts := hC15Segs(vParamInt("n"))
	var want uint64
	for _, x := range s {
		if x.TrackID == id && x.Duration != 0 {
			if r := 8 * uint64(x.Size) * uint64(ts) / uint64(x.Duration); r > want {
				want = r
			}
		}
	}
	vAssert(s.GetMaxBitrate(id, ts) == want, "the maximum bitrate is the largest one of the track's segments")
}

func hC15IDR() {
	ls, max, n := vParamInt("ls"), vParamInt("max"), vParamInt("samples")
	lead := vChoose("lead", 2)
	tr := &TrackInfo{AVC: &AVCDecConfigInfo{LengthSize: uint16(ls)}}
	gap := vChoose("gap", 2) // bytes between the chunks
	first := vChoose("first", n+2)
	var d []byte
	d = append(d, vBytes("lead", lead)...)
	tr.Chunks = append(tr.Chunks, &Chunk{DataOffset: uint64(len(d)), SamplesPerChunk: uint32(first)})
	var want []int
	for i := 0; i < n; i++ {
		if i == first {
			d = append(d, make([]byte, gap)...)
			tr.Chunks = append(tr.Chunks, &Chunk{DataOffset: uint64(len(d)), SamplesPerChunk: uint32(n)})
		}
		size := vChoose("size", max+1)
		b := vBytes("sample", size)
		for p := 0; p+ls+1 <= size; {
			l := 0
			for j := 0; j < ls; j++ {
				l = l<<8 | int(b[p+j])
			}
			if l > 0 && b[p+ls]&31 == 5 {
				want = append(want, i)
				break
			}
			if l > size {
				break
			}
			p = vConc(p + ls + l)
		}
		d = append(d, b...)
		tr.Samples = append(tr.Samples, &Sample{Size: uint32(size)})
	}
	keep := vClone(tr)
	got, err := FindIDRFrames(bytes.NewReader(append(d, vBytes("trail", 2)...)), tr)
	vAssert(err == nil, "the search succeeds when all the data is there")
	vAssert(len(got) == len(want), "the number of key frames is right")
	for i := range want {
		vAssert(got[i] == want[i], "the key frames are the samples with a refresh unit")
	}
	vAssert(vEqual(tr, keep), "the description of the track is left alone")
	if len(want) > 0 {
		vCover("idr")
	} else {
		vCover("none")
	}
}

// hForward is a file with arbitrary content that may only be read forwards.
type hForward struct {
	pos, last, end int64
	reads          int
}

func (f *hForward) Seek(off int64, whence int) (int64, error) {
	vAssert(whence == io.SeekStart, "the search goes to known places")
	f.pos = off
	return off, nil
}

func (f *hForward) Read(b []byte) (int, error) {
	vAssert(f.pos > f.last, "the search moves forward")
	vAssert(f.pos+int64(len(b)) <= f.end, "the search stays in the sample")
	f.last = f.pos
	if f.reads++; f.reads > 3 {
		return 0, errors.New("enough")
	}
	copy(b, vBytes("any", len(b)))
	f.pos += int64(len(b))
	return len(b), nil
}

func hC15Far() {
	size := vU32("size")
	tr := &TrackInfo{AVC: &AVCDecConfigInfo{LengthSize: uint16(vParamInt("ls"))}, Chunks: []*Chunk{{DataOffset: 7, SamplesPerChunk: 1}}, Samples: []*Sample{{Size: size}}}
	_, err := FindIDRFrames(&hForward{last: 6, end: 7 + int64(size)}, tr)
	vObsErr("err", err)
}

func hC15Other() {
	r := bytes.NewReader(nil)
	x, err := FindIDRFrames(r, &TrackInfo{Samples: []*Sample{{Size: vU32("s")}}, Chunks: []*Chunk{{SamplesPerChunk: vU32("n")}}})
	vAssert(err == nil && len(x) == 0, "a track without video configuration has no key frames")
	x, err = FindIDRFrames(r, &TrackInfo{AVC: &AVCDecConfigInfo{LengthSize: 4}, Chunks: []*Chunk{{SamplesPerChunk: vU32("n")}}})
	vAssert(err == nil && len(x) == 0, "a track without samples has no key frames")
	x, err = FindIDRFrames(r, &TrackInfo{AVC: &AVCDecConfigInfo{LengthSize: 4}, Samples: []*Sample{{Size: vU32("s")}}})
	vAssert(err == nil && len(x) == 0, "samples outside of chunks are not searched")
	x, err = FindIDRFrames(r, &TrackInfo{AVC: &AVCDecConfigInfo{LengthSize: 4}, Samples: []*Sample{{Size: 5}}, Chunks: []*Chunk{{SamplesPerChunk: 1, DataOffset: vU64("off")}}})
	vAssert(err != nil, "missing data is an error")
}
