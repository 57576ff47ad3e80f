MEM = r'''
type seedFile struct { b []byte; p int64 }
func (f *seedFile) Read(p []byte) (int, error) {
	if f.p >= int64(len(f.b)) { return 0, io.EOF }
	n := copy(p, f.b[f.p:]); f.p += int64(n); return n, nil
}
func (f *seedFile) Write(p []byte) (int, error) {
	for int64(len(f.b)) < f.p+int64(len(p)) { f.b = append(f.b, 0) }
	copy(f.b[f.p:], p); f.p += int64(len(p)); return len(p), nil
}
func (f *seedFile) Seek(o int64, w int) (int64, error) {
	switch w { case 1: o += f.p; case 2: o += int64(len(f.b)) }
	f.p = o; return o, nil
}
func seedBox(typ string, kids ...[]byte) []byte {
	b := []byte{0, 0, 0, 0, typ[0], typ[1], typ[2], typ[3]}
	for _, k := range kids { b = append(b, k...) }
	b[0], b[1], b[2], b[3] = byte(len(b)>>24), byte(len(b)>>16), byte(len(b)>>8), byte(len(b))
	return b
}
'''
SEEDS = [
dict(id='writer-endbox-seekend', property='C06',
  needs='a box ended while the writer is positioned before the end of the output (the caller had seeked back to patch and rewrite)',
  what='EndBox takes the end of the output instead of the current position as the end of the box, so the size field is wrong',
  edits=[('write.go', 'end, err := w.writer.Seek(0, io.SeekCurrent)', 'end, err := w.writer.Seek(0, io.SeekEnd)')],
  demo='package mp4\nimport ("io"; "testing")\n' + MEM + r'''
func TestSeed(t *testing.T) {
	f := &seedFile{}
	w := NewWriter(f)
	w.StartBox(&BoxInfo{Type: StrToBoxType("free")})
	w.Write([]byte("0123456789"))
	w.Seek(12, io.SeekStart)
	bi, err := w.EndBox()
	if err != nil || bi.Size != 12 || f.b[3] != 12 { t.Fatalf("size %v %v err %v", bi.Size, f.b[3], err) }
}
'''),
dict(id='writer-header-growth', property='C06',
  needs='a box started with the 8-byte header whose content grows past 4 GiB before it is ended',
  what='EndBox silently writes a 16-byte header over the first payload bytes instead of reporting that the header no longer fits',
  edits=[('write.go', '} else if bi.HeaderSize != bi2.HeaderSize {', '} else if bi.HeaderSize > bi2.HeaderSize {')],
  demo='package mp4\nimport "testing"\n' + r'''
type seedBig struct { p int64 }
func (f *seedBig) Write(p []byte) (int, error) { f.p += int64(len(p)); return len(p), nil }
func (f *seedBig) Seek(o int64, w int) (int64, error) { if w == 1 { o += f.p }; f.p = o; return o, nil }
func TestSeed(t *testing.T) {
	f := &seedBig{}
	w := NewWriter(f)
	if _, err := w.StartBox(&BoxInfo{Type: StrToBoxType("mdat"), HeaderSize: 8, Size: 8}); err != nil { t.Fatal(err) }
	w.Seek(1<<32+100, 0)
	if _, err := w.EndBox(); err == nil { t.Fatal("no error although the header form changed") }
}
'''),
dict(id='walk-path-aliasing', property='C07',
  needs='a visitor that keeps the paths it is given, and at least two siblings nested deep enough for the path storage to have spare capacity',
  what='the path of a visited box is overwritten when its next sibling is visited',
  edits=[('read.go', '''	newPath := make(BoxPath, len(path)+1)
	copy(newPath, path)
	newPath[len(path)] = bi.Type
''', '''	newPath := append(path, bi.Type)
''')],
  demo='package mp4\nimport ("bytes"; "io"; "testing")\n' + MEM + r'''
func TestSeed(t *testing.T) {
	data := seedBox("moov", seedBox("trak", seedBox("mdia", seedBox("minf"), seedBox("free"), seedBox("skip"))))
	var got []BoxPath
	_, err := ReadBoxStructure(bytes.NewReader(data), func(h *ReadHandle) (interface{}, error) {
		got = append(got, h.Path)
		return h.Expand()
	})
	if err != nil { t.Fatal(err) }
	want := []string{"moov", "trak", "mdia", "minf", "free", "skip"}
	for i, p := range got {
		if p[len(p)-1].String() != want[i] { t.Fatalf("box %d: path %v, want last %s", i, p, want[i]) }
	}
}
'''),
dict(id='readdata-short', property='C11',
  needs='a box that claims more data than the source holds (a truncated file), read through ReadData',
  what='ReadData reports success and the full size although only part of the data was copied',
  edits=[('read.go', 'if _, err := io.CopyN(w, r, int64(size)); err != nil {', 'if _, err := io.CopyN(w, r, int64(size)); err != nil && err != io.EOF {')],
  demo='package mp4\nimport ("bytes"; "testing")\n' + r'''
func TestSeed(t *testing.T) {
	data := []byte{0, 0, 0, 20, 'm', 'd', 'a', 't', 1, 2, 3}
	_, err := ReadBoxStructure(bytes.NewReader(data), func(h *ReadHandle) (interface{}, error) {
		var b bytes.Buffer
		n, err := h.ReadData(&b)
		if err == nil { t.Fatalf("success, n=%d, got %d bytes", n, b.Len()) }
		return nil, err
	})
	if err == nil { t.Fatal("no error") }
}
'''),
dict(id='bitio-seekend-octet', property='C13',
  needs='a reader in the middle of a byte that seeks relative to the end and then reads bits again',
  what='seeking relative to the end keeps the rest of the old byte, so the next bits come from the wrong place',
  edits=[('internal/bitio/read.go', '''	r.reader.width = 0
	return n, nil''', '''	if whence == io.SeekStart {
		r.reader.width = 0
	}
	return n, nil''')], pkg='internal/bitio',
  demo='package bitio\nimport ("bytes"; "io"; "testing")\n' + r'''
func TestSeed(t *testing.T) {
	r := NewReadSeeker(bytes.NewReader([]byte{0xff, 0xff, 0x12}))
	r.ReadBits(4)
	if _, err := r.Seek(-1, io.SeekEnd); err != nil { t.Fatal(err) }
	d, err := r.ReadBits(8)
	if err != nil || d[0] != 0x12 { t.Fatal(d, err) }
}
'''),
dict(id='url-flag-mask', property='C04',
  needs='a location box with reserved flag bit 1 set and the self-contained bit clear',
  what='the location is treated as absent because another flag bit is set',
  edits=[('box_types_iso14496_12.go', 'Url struct {\n\tFullBox  `mp4:"0,extend"`\n\tLocation string `mp4:"1,string,nopt=0x000001"`', 'Url struct {\n\tFullBox  `mp4:"0,extend"`\n\tLocation string `mp4:"1,string,nopt=0x000003"`')],
  demo='package mp4\nimport ("testing"; "bytes")\n' + r'''
func TestSeed(t *testing.T) {
	p := []byte{0, 0, 0, 2, 'a', 'b', 0}
	u := &Url{}
	n, err := Unmarshal(bytes.NewReader(p), uint64(len(p)), u, Context{})
	if err != nil || n != 7 || u.Location != "ab" { t.Fatal(n, err, u.Location) }
}
'''),
]
