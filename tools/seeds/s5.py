BOX = r"""
func bx(t string, p ...[]byte) []byte {
	b := []byte{0, 0, 0, 0, t[0], t[1], t[2], t[3]}
	for _, x := range p { b = append(b, x...) }
	b[0], b[1], b[2], b[3] = byte(len(b)>>24), byte(len(b)>>16), byte(len(b)>>8), byte(len(b))
	return b
}
func n(v uint32, k int) []byte {
	b := make([]byte, k)
	for i := k-1; i >= 0; i-- { b[i] = byte(v); v >>= 8 }
	return b
}
func cat(p ...[]byte) []byte { return bytes.Join(p, nil) }
func trak(id, scale uint32, entry []byte) []byte {
	return bx("trak", bx("tkhd", n(0, 12), n(id, 4), n(0, 68)), bx("mdia", bx("mdhd", n(0, 12), n(scale, 4), n(0, 8)), bx("minf", bx("stbl",
		bx("stsd", n(1, 8), entry), bx("stts", n(0, 8)), bx("stsc", n(0, 8)), bx("stsz", n(0, 12)), bx("stco", n(0, 8))))))
}
func frag(id, size, dur uint32) []byte {
	return bx("moof", bx("traf", bx("tfhd", n(0, 4), n(id, 4)), bx("tfdt", n(0, 8)), bx("trun", n(0x300, 4), n(1, 4), n(dur, 4), n(size, 4))))
}
"""
DIV = 'package divide\nimport ("testing"; "os"; "io/ioutil"; "bytes"; "path/filepath"; "strings")\nvar _ = strings.Contains\n' + BOX + r"""
func run(t *testing.T, in []byte) (string, func()) {
	d, err := ioutil.TempDir("", "seed")
	if err != nil { t.Fatal(err) }
	ioutil.WriteFile(filepath.Join(d, "i"), in, 0600)
	if rc := Main([]string{filepath.Join(d, "i"), filepath.Join(d, "o")}); rc != 0 { t.Fatal(rc) }
	return d + "/o/", func() { os.RemoveAll(d) }
}
func get(t *testing.T, p string) []byte {
	b, err := ioutil.ReadFile(p)
	if err != nil { t.Fatal(err) }
	return b
}
"""
PROBE = 'package probe\nimport ("testing"; "bytes")\n' + BOX
D = 'cmd/mp4tool/internal/divide'
SEEDS = [
dict(id='divide-wide-header', property='C26', pkg=D,
  needs='an initialisation box with a 16-byte header',
  what='the rewritten size of a box with a 16-byte header is 8 too small',
  edits=[(D+'/divide.go', "					biMap[t.id].Size = biMap[t.id].HeaderSize\n", "					biMap[t.id].Size = mp4.SmallHeaderSize\n")],
  demo=DIV + r"""
func TestSeed(t *testing.T) {
	moov := bx("moov", bx("mvhd", n(0, 100)), trak(1, 1000, bx("mp4a", n(1, 8), n(0, 20))))
	wide := cat(n(1, 4), []byte("moov"), n(0, 4), n(uint32(len(moov)+8), 4), moov[8:])
	o, done := run(t, wide)
	defer done()
	if !bytes.Equal(get(t, o+"audio/init.mp4"), wide) { t.Fatal("init differs") }
}
"""),
dict(id='divide-foreign-media', property='C26', pkg=D,
  needs='a fragment of an unsupported track after one of a supported track',
  what='the media data of the unsupported track is appended to the other track\'s segment',
  edits=[(D+'/divide.go', """				currTrackID = tfhd.TrackID
				if _, exists := tracks[currTrackID]; !exists {
					return nil, nil
				}
""", """				if _, exists := tracks[tfhd.TrackID]; !exists {
					return nil, nil
				}
				currTrackID = tfhd.TrackID
""")],
  demo=DIV + r"""
func TestSeed(t *testing.T) {
	moov := bx("moov", trak(1, 1000, bx("mp4a", n(1, 8), n(0, 20))), trak(2, 1000, bx("stpp", n(1, 8))))
	a := cat(frag(1, 3, 1000), bx("mdat", []byte("aaa")))
	o, done := run(t, cat(moov, a, frag(2, 3, 1000), bx("mdat", []byte("sss"))))
	defer done()
	if !bytes.Equal(get(t, o+"audio/0.mp4"), a) { t.Fatal("segment differs") }
}
"""),
dict(id='divide-target-rounded', property='C26', pkg=D,
  needs='a longest fragment whose duration is a little more than a whole number of seconds',
  what='the target duration of the playlist is less than the longest segment',
  edits=[(D+'/divide.go', "int(math.Ceil(maxDur))", "int(math.Floor(maxDur+0.5))")],
  demo=DIV + r"""
func TestSeed(t *testing.T) {
	moov := bx("moov", trak(1, 1000, bx("mp4a", n(1, 8), n(0, 20))))
	o, done := run(t, cat(moov, frag(1, 3, 2002), bx("mdat", []byte("aaa"))))
	defer done()
	if s := string(get(t, o+"audio/playlist.m3u8")); !strings.Contains(s, "TARGETDURATION:3\n") { t.Fatal(s) }
}
"""),
dict(id='divide-sidx-first', property='C26', pkg=D,
  needs='a segment index after the first fragment',
  what='a segment index is written at the place where the movie header of the initialisation data was last rewritten, over existing data',
  edits=[(D+'/divide.go', "					if offsetMap[t.id], err = t.initFile.Seek(0, io.SeekEnd); err != nil {", """					whence := io.SeekEnd
					if h.BoxInfo.Type == mp4.BoxTypeSidx() {
						whence = io.SeekCurrent
					}
					if offsetMap[t.id], err = t.initFile.Seek(0, whence); err != nil {""")],
  demo=DIV + r"""
func TestSeed(t *testing.T) {
	moov := bx("moov", trak(1, 1000, bx("mp4a", n(1, 8), n(0, 20))))
	sidx := bx("sidx", n(0, 24))
	o, done := run(t, cat(moov, frag(1, 3, 2002), bx("mdat", []byte("aaa")), sidx))
	defer done()
	if !bytes.Equal(get(t, o+"audio/init.mp4"), cat(moov, sidx)) { t.Fatal("init differs") }
}
"""),
dict(id='probe-movie-scale', property='C27', pkg='cmd/mp4tool/internal/probe',
  needs='a fragmented file whose tracks have another time scale than the movie',
  what='the bit rate of fragments is computed with the time scale of the movie',
  edits=[('cmd/mp4tool/internal/probe/probe.go', 'bitrate = info.Segments.GetBitrate(tr.TrackID, tr.Timescale)', 'bitrate = info.Segments.GetBitrate(tr.TrackID, info.Timescale)')],
  demo=PROBE + r"""
func TestSeed(t *testing.T) {
	moov := bx("moov", bx("mvhd", n(0, 12), n(1000, 4), n(0, 84)), trak(1, 48000, bx("mp4a", n(1, 8), n(0, 20))))
	rep, err := buildReport(bytes.NewReader(cat(moov, frag(1, 100, 48000))))
	if err != nil { t.Fatal(err) }
	if rep.Tracks[0].Bitrate != 800 { t.Fatal(rep.Tracks[0].Bitrate) }
}
"""),
dict(id='probe-fallback-empty', property='C27', pkg='cmd/mp4tool/internal/probe',
  needs='a track with a few samples of no duration in its tables besides its fragments',
  what='the bit rate is 0 although the fragments define one',
  edits=[('cmd/mp4tool/internal/probe/probe.go', 'if bitrate == 0 || maxBitrate == 0 {', 'if len(tr.Samples) == 0 {')],
  demo=PROBE + r"""
func TestSeed(t *testing.T) {
	tr := trak(1, 48000, bx("mp4a", n(1, 8), n(0, 20)))
	tr = bytes.Replace(tr, bx("stts", n(0, 8)), bx("stts", n(0, 4), n(1, 4), n(1, 4), n(0, 4)), 1)
	tr = bytes.Replace(tr, bx("stsz", n(0, 12)), bx("stsz", n(0, 8), n(1, 4), n(50, 4)), 1)
	tr = bytes.Replace(tr, bx("stsc", n(0, 8)), bx("stsc", n(1, 8), n(1, 4), n(1, 4), n(1, 4)), 1)
	tr = bytes.Replace(tr, bx("stco", n(0, 8)), bx("stco", n(1, 8), n(9, 4)), 1)
	// the tables grew by 8 + 4 + 12 + 4 bytes
	fix := func(at int) { v := int(tr[at+2])<<8 | int(tr[at+3]); v += 28; tr[at+2], tr[at+3] = byte(v>>8), byte(v) }
	fix(0)
	fix(bytes.Index(tr, []byte("mdia"))-4)
	fix(bytes.Index(tr, []byte("minf"))-4)
	fix(bytes.Index(tr, []byte("stbl"))-4)
	rep, err := buildReport(bytes.NewReader(cat(bx("moov", tr), frag(1, 100, 48000))))
	if err != nil { t.Fatal(err) }
	if rep.Tracks[0].Bitrate != 800 || rep.Tracks[0].SampleNum != 1 { t.Fatal(rep.Tracks[0]) }
}
"""),
]
