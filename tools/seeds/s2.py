MEM = r'''
type seedFile struct { b []byte; p int64 }
func (f *seedFile) Read(p []byte) (int, error) {
	if f.p >= int64(len(f.b)) { return 0, io.EOF }
	n := copy(p, f.b[f.p:]); f.p += int64(n); return n, nil
}
func (f *seedFile) Write(p []byte) (int, error) {
	for int64(len(f.b)) < f.p+int64(len(p)) { f.b = append(f.b, 0) }
	copy(f.b[f.p:], p); f.p += int64(len(p)); return len(p), nil
}
func (f *seedFile) Seek(o int64, w int) (int64, error) {
	switch w { case 1: o += f.p; case 2: o += int64(len(f.b)) }
	f.p = o; return o, nil
}
func seedBox(typ string, kids ...[]byte) []byte {
	b := []byte{0, 0, 0, 0, typ[0], typ[1], typ[2], typ[3]}
	for _, k := range kids { b = append(b, k...) }
	b[0], b[1], b[2], b[3] = byte(len(b)>>24), byte(len(b)>>16), byte(len(b)>>8), byte(len(b))
	return b
}
'''
SEEDS = [
dict(id='large-size-short-read', property='C12',
  needs='a 16-byte header whose second half is delivered in pieces',
  what='the 64-bit size is taken from a single Read call, so a short read yields a wrong size',
  edits=[('box_info.go', """		if _, err := io.CopyN(buf, r, LargeHeaderSize-SmallHeaderSize); err != nil {
			return nil, err
		}
		bi.HeaderSize +=""", """		ext := make([]byte, LargeHeaderSize-SmallHeaderSize)
		if n, err := r.Read(ext); n == 0 && err != nil {
			return nil, err
		} else if n == 0 {
			return nil, io.ErrNoProgress
		}
		buf.Write(ext)
		bi.HeaderSize +=""")],
  demo='package mp4\nimport ("bytes"; "testing"; "io")\n' + r"""
type seedOne struct { *bytes.Reader }
func (r seedOne) Read(p []byte) (int, error) { if len(p) > 3 { p = p[:3] }; return r.Reader.Read(p) }
var _ io.ReadSeeker = seedOne{}
func TestSeed(t *testing.T) {
	bi, err := ReadBoxInfo(seedOne{bytes.NewReader([]byte{0, 0, 0, 1, 'f', 'r', 'e', 'e', 0, 0, 0, 0, 0, 0, 1, 2})})
	if err != nil || bi.Size != 258 || bi.Type != BoxTypeFree() { t.Fatalf("%+v %v", bi, err) }
}
"""),
dict(id='probe-default-duration', property='C14',
  needs='a fragment run with per-sample composition offsets but a default sample duration, with a later sample having a smaller offset',
  what='the smallest composition offset ignores the time taken by earlier samples when their duration is the default one',
  edits=[('probe.go', """			if trun.CheckFlag(0x000100) {
				duration += trun.Entries[ei].SampleDuration
			} else {
				duration += tfhd.DefaultSampleDuration
			}
""", """			duration += trun.Entries[ei].SampleDuration
""")],
  demo='package mp4\nimport ("io"; "testing"; "bytes")\n' + MEM + r"""
func TestSeed(t *testing.T) {
	tfhd := seedBox("tfhd", []byte{0, 2, 0, 8, 0, 0, 0, 1, 0, 0, 0, 10})
	trun := seedBox("trun", []byte{0, 0, 8, 0, 0, 0, 0, 2, 0, 0, 0, 9, 0, 0, 0, 5})
	p, err := Probe(bytes.NewReader(seedBox("moof", seedBox("traf", tfhd, trun))))
	if err != nil { t.Fatal(err) }
	if p.Segments[0].CompositionTimeOffset != 9 { t.Fatal(p.Segments[0].CompositionTimeOffset) }
}
"""),
dict(id='aac-short-sync', property='C16',
  needs='a four-byte audio configuration that carries the extension for object type 22',
  what='the extension is not looked for when exactly 23 bits of the configuration remain',
  edits=[('probe.go', 'remaining >= 20', 'remaining >= 24')],
  demo='package mp4\nimport "testing"\n' + r"""
func TestSeed(t *testing.T) {
	var bits []byte
	put := func(v uint32, n uint) { for i := int(n) - 1; i >= 0; i-- { bits = append(bits, byte(v>>uint(i)&1)) } }
	put(2, 5); put(4, 4); put(2, 4); put(0x2b7, 11); put(22, 5); put(1, 1); put(0, 2)
	b := make([]byte, len(bits)/8)
	for i, v := range bits { b[i/8] |= v << uint(7-i%8) }
	_, a, err := detectAACProfile(&Esds{Descriptors: []Descriptor{
		{Tag: DecoderConfigDescrTag, DecoderConfigDescriptor: &DecoderConfigDescriptor{ObjectTypeIndication: 0x40}},
		{Tag: DecSpecificInfoTag, Data: b},
	}})
	if err != nil || a != 5 { t.Fatalf("%d %v", a, err) }
}
"""),
dict(id='extract-inner-wildcard', property='C09',
  needs='a requested path with a wildcard that is not its last element',
  what='a wildcard is honoured at the end of a path only; branches it should open are not searched',
  edits=[('read.go', """	for i := 0; i < len(lhs); i++ {
		if !lhs[i].MatchWith(rhs[i]) {
			return false, false
		}
	}
""", """	for i := 0; i < len(lhs); i++ {
		if lhs[i] != rhs[i] && (i != len(rhs)-1 || !lhs[i].MatchWith(rhs[i])) {
			return false, false
		}
	}
""")],
  demo='package mp4\nimport ("io"; "testing"; "bytes")\n' + MEM + r"""
func TestSeed(t *testing.T) {
	data := seedBox("moov", seedBox("trak", seedBox("mdia")))
	bis, err := ExtractBoxes(bytes.NewReader(data), nil, []BoxPath{{BoxTypeMoov(), BoxTypeAny(), BoxTypeMdia()}})
	if err != nil || len(bis) != 1 { t.Fatal(len(bis), err) }
}
"""),
dict(id='context-empty-keys', property='C10',
  needs='two key tables at the same level, the second of them empty, followed by an item list with numbered items',
  what='an empty key table does not replace the count of an earlier one, so numbered items are still recognised',
  edits=[('read.go', """		if bi.Type == BoxTypeKeys() {
			ctx.QuickTimeKeysMetaEntryCount = bi.QuickTimeKeysMetaEntryCount
		}""", """		if bi.QuickTimeKeysMetaEntryCount > 0 {
			ctx.QuickTimeKeysMetaEntryCount = bi.QuickTimeKeysMetaEntryCount
		}""")],
  demo='package mp4\nimport ("io"; "testing"; "bytes")\n' + MEM + r"""
func TestSeed(t *testing.T) {
	keys := seedBox("keys", []byte{0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 8, 'm', 'd', 't', 'a'})
	none := seedBox("keys", []byte{0, 0, 0, 0, 0, 0, 0, 0})
	item := seedBox("\x00\x00\x00\x01")
	data := seedBox("moov", keys, none, seedBox("ilst", item))
	_, err := ReadBoxStructure(bytes.NewReader(data), func(h *ReadHandle) (interface{}, error) {
		if h.BoxInfo.Type == StrToBoxType("\x00\x00\x00\x01") && h.BoxInfo.IsSupportedType() { t.Fatal("item recognised") }
		if h.BoxInfo.Type == BoxTypeMoov() || h.BoxInfo.Type == BoxTypeIlst() { return h.Expand() }
		return nil, nil
	})
	if err != nil { t.Fatal(err) }
}
"""),
]
