BOX = r"""
func bx(t string, p ...[]byte) []byte {
	b := []byte{0, 0, 0, 0, t[0], t[1], t[2], t[3]}
	for _, x := range p { b = append(b, x...) }
	b[0], b[1], b[2], b[3] = byte(len(b)>>24), byte(len(b)>>16), byte(len(b)>>8), byte(len(b))
	return b
}
"""
OUT = r"""
func stdout(t *testing.T, f func()) string {
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil { t.Fatal(err) }
	os.Stdout = w
	done := make(chan string)
	go func() { b, _ := ioutil.ReadAll(r); done <- string(b) }()
	f()
	os.Stdout = old
	w.Close()
	return <-done
}
func file(t *testing.T, b []byte) string {
	f, err := ioutil.TempFile("", "seed")
	if err != nil { t.Fatal(err) }
	f.Write(b)
	f.Close()
	return f.Name()
}
"""
SEEDS = [
dict(id='string-valid-utf8', property='C02',
  needs='a text field that is not valid UTF-8, such as one in a legacy Japanese encoding',
  what='invalid UTF-8 in strings is replaced while decoding, so the bytes are lost',
  edits=[('marshaller.go', "	v.SetString(string(data))\n", "	v.SetString(strings.ToValidUTF8(string(data), \"\\uFFFD\"))\n"), ('marshaller.go', '	"reflect"\n', '	"reflect"\n	"strings"\n')],
  demo='package mp4\nimport ("testing"; "bytes")\n' + r"""
func TestSeed(t *testing.T) {
	p := []byte{0x83, 0x65, 0x83, 0x58, 0x00}
	box, _, err := UnmarshalAny(bytes.NewReader(append([]byte{0, 0, 0, 0}, p...)), StrToBoxType("url "), 9, Context{})
	if err != nil { t.Fatal(err) }
	w := &bytes.Buffer{}
	if _, err := Marshal(w, box, Context{}); err != nil { t.Fatal(err) }
	if !bytes.Equal(w.Bytes()[4:], p) { t.Fatal(w.Bytes()) }
}
"""),
dict(id='emsg-rune-count', property='C03',
  needs='a version 1 event message whose scheme or value contains non-ASCII text',
  what='the reported length counts characters instead of bytes',
  edits=[('box_types_iso14496_12.go', "		wbits += uint64(len(emsg.SchemeIdUri)+len(emsg.Value)+2) * 8", "		wbits += uint64(len([]rune(emsg.SchemeIdUri))+len([]rune(emsg.Value))+2) * 8")],
  demo='package mp4\nimport ("testing"; "bytes")\n' + r"""
func TestSeed(t *testing.T) {
	b := &Emsg{FullBox: FullBox{Version: 1}, SchemeIdUri: "urn:\u00e9", Value: "x", MessageData: []byte{1}}
	w := &bytes.Buffer{}
	n, err := Marshal(w, b, Context{})
	if err != nil || n != uint64(w.Len()) { t.Fatal(n, w.Len(), err) }
}
"""),
dict(id='extend-as-root', property='C07',
  needs='a container that extends to the end of the file whose last child claims more than is left, or which ends in a few stray bytes',
  what='children of a container that extends to the end of the file are walked like top-level boxes, so a child reaching past its parent is accepted',
  edits=[('read.go', "return readBoxStructure(r, childrenSize, false, newPath, ctx, handler, params)", "return readBoxStructure(r, childrenSize, bi.ExtendToEOF, newPath, ctx, handler, params)")],
  demo='package mp4\nimport ("testing"; "bytes")\n' + r"""
func TestSeed(t *testing.T) {
	f := []byte{0, 0, 0, 0, 'm', 'o', 'o', 'v', 0, 0, 0, 99, 'f', 'r', 'e', 'e'}
	_, err := ReadBoxStructure(bytes.NewReader(f), func(h *ReadHandle) (interface{}, error) {
		if h.BoxInfo.Type == BoxTypeMoov() { return h.Expand() }
		return nil, nil
	})
	if err == nil { t.Fatal("accepted") }
}
"""),
dict(id='trun-zero-duration', property='C14',
  needs='a fragment with per-sample durations, one of them zero, and a different default duration',
  what='a sample whose duration is zero is taken to have the default duration when composition offsets are computed',
  edits=[('probe.go', """			if trun.CheckFlag(0x000100) {
				duration += trun.Entries[ei].SampleDuration
			} else {
				duration += tfhd.DefaultSampleDuration
			}
""", """			if d := trun.Entries[ei].SampleDuration; d != 0 {
				duration += d
			} else {
				duration += tfhd.DefaultSampleDuration
			}
""")],
  demo='package mp4\nimport ("testing"; "bytes")\n' + BOX + r"""
func TestSeed(t *testing.T) {
	tfhd := []byte{0, 0, 0, 8, 0, 0, 0, 1, 0, 0, 0, 100}
	trun := []byte{0, 0, 0x09, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 90, 0, 0, 0, 5, 0, 0, 0, 10}
	f := bx("moof", bx("traf", bx("tfhd", tfhd), bx("trun", trun)))
	i, err := Probe(bytes.NewReader(f))
	if err != nil { t.Fatal(err) }
	if o := i.Segments[0].CompositionTimeOffset; o != 10 { t.Fatal(o) }
}
"""),
dict(id='lookup-conditional-first', property='C18',
  needs='a type registered for a context and later without any condition, looked up in that context',
  what='a registration with a context condition wins over a later one without',
  edits=[('mp4.go', """	for i := len(boxDefs) - 1; i >= 0; i-- {
		boxDef := &boxDefs[i]
		if boxDef.isTarget == nil || boxDef.isTarget(ctx) {
			return boxDef
		}
	}
""", """	var fallback *boxDef
	for i := len(boxDefs) - 1; i >= 0; i-- {
		boxDef := &boxDefs[i]
		if boxDef.isTarget == nil {
			if fallback == nil {
				fallback = boxDef
			}
		} else if boxDef.isTarget(ctx) {
			return boxDef
		}
	}
	if fallback != nil {
		return fallback
	}
""")],
  demo='package mp4\nimport "testing"\n' + r"""
type seedA struct { Box; A uint8 `mp4:"0,size=8"` }
func (*seedA) GetType() BoxType { return StrToBoxType("se4d") }
type seedB struct { Box; B uint8 `mp4:"0,size=8"` }
func (*seedB) GetType() BoxType { return StrToBoxType("se4d") }
func TestSeed(t *testing.T) {
	AddBoxDefEx(&seedA{}, func(c Context) bool { return c.UnderWave })
	AddBoxDef(&seedB{})
	b, err := StrToBoxType("se4d").New(Context{UnderWave: true})
	if err != nil { t.Fatal(err) }
	if _, ok := b.(*seedB); !ok { t.Fatalf("%T", b) }
}
"""),
dict(id='item-number-signed', property='C18',
  needs='an item number with the top bit set',
  what='item numbers are compared as signed 32-bit integers against a range that starts below one',
  edits=[('mp4.go', "		typeID := int(binary.BigEndian.Uint32(boxType[:]))\n		if typeID >= 1 && typeID <= ctx.QuickTimeKeysMetaEntryCount {", "		typeID := int(int32(binary.BigEndian.Uint32(boxType[:])))\n		if typeID != 0 && typeID <= ctx.QuickTimeKeysMetaEntryCount {")],
  demo='package mp4\nimport "testing"\n' + r"""
func TestSeed(t *testing.T) {
	if (BoxType{0xa9, 'x', 'y', 'z'}).IsSupported(Context{UnderIlst: true, QuickTimeKeysMetaEntryCount: 1}) { t.Fatal("supported") }
}
"""),
dict(id='escape-keeps-tab', property='C19',
  needs='a text field containing a tab',
  what='tabs in texts are printed as they are',
  edits=[('internal/util/string.go', "	if unicode.IsGraphic(r) {", "	if unicode.IsGraphic(r) || r == '\\t' {")],
  demo='package mp4\nimport ("testing"; "strings")\n' + r"""
func TestSeed(t *testing.T) {
	s, err := Stringify(&WebVTTConfigurationBox{Config: "a\tb"}, Context{})
	if err != nil || strings.Contains(s, "\t") { t.Fatalf("%q %v", s, err) }
}
"""),
dict(id='edit-large-verbatim', property='C21', pkg='cmd/mp4tool/internal/edit',
  needs='an edited box inside a container whose header has the 16-byte form',
  what='boxes with a 16-byte header are copied verbatim, so nothing inside them is edited or dropped',
  edits=[('cmd/mp4tool/internal/edit/edit.go', "		if !h.BoxInfo.IsSupportedType() || h.BoxInfo.Type == mp4.BoxTypeMdat() {", "		if !h.BoxInfo.IsSupportedType() || h.BoxInfo.Type == mp4.BoxTypeMdat() || h.BoxInfo.HeaderSize == mp4.LargeHeaderSize {")],
  demo='package edit\nimport ("testing"; "os"; "io/ioutil"; "bytes"; "path/filepath")\n' + r"""
func TestSeed(t *testing.T) {
	d, err := ioutil.TempDir("", "seed")
	if err != nil { t.Fatal(err) }
	defer os.RemoveAll(d)
	in := []byte{0, 0, 0, 1, 'm', 'o', 'o', 'v', 0, 0, 0, 0, 0, 0, 0, 24, 0, 0, 0, 8, 'f', 'r', 'e', 'e'}
	ioutil.WriteFile(filepath.Join(d, "i"), in, 0600)
	if rc := Main([]string{"-drop", "free", filepath.Join(d, "i"), filepath.Join(d, "o")}); rc != 0 { t.Fatal(rc) }
	b, _ := ioutil.ReadFile(filepath.Join(d, "o"))
	if bytes.Contains(b, []byte("free")) { t.Fatal(b) }
}
"""),
dict(id='edit-time-32', property='C21', pkg='cmd/mp4tool/internal/edit',
  needs='a decode time above 2^32 set in a version 1 box',
  what='the decode time loses its upper half',
  edits=[('cmd/mp4tool/internal/edit/edit.go', "					tfdt.BaseMediaDecodeTimeV1 = config.values.BaseMediaDecodeTime", "					tfdt.BaseMediaDecodeTimeV1 = tfdt.BaseMediaDecodeTimeV1>>32<<32 | config.values.BaseMediaDecodeTime")],
  demo='package edit\nimport ("testing"; "os"; "io/ioutil"; "bytes"; "path/filepath")\n' + r"""
func TestSeed(t *testing.T) {
	d, err := ioutil.TempDir("", "seed")
	if err != nil { t.Fatal(err) }
	defer os.RemoveAll(d)
	in := []byte{0, 0, 0, 20, 't', 'f', 'd', 't', 1, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 7}
	ioutil.WriteFile(filepath.Join(d, "i"), in, 0600)
	if rc := Main([]string{"-base_media_decode_time", "5", filepath.Join(d, "i"), filepath.Join(d, "o")}); rc != 0 { t.Fatal(rc) }
	b, _ := ioutil.ReadFile(filepath.Join(d, "o"))
	in[15], in[19] = 0, 5
	if !bytes.Equal(b, in) { t.Fatal(b) }
}
"""),
dict(id='extract-stops-at-match', property='C22', pkg='cmd/mp4tool/internal/extract',
  needs='a box of the requested type nested in another one of the same type',
  what='boxes inside a box of the requested type are not looked at',
  edits=[('cmd/mp4tool/internal/extract/extract.go', """io.CopyN(os.Stdout, r, int64(h.BoxInfo.Size)); err != nil {
				return nil, err
			}
		}
""", """io.CopyN(os.Stdout, r, int64(h.BoxInfo.Size)); err != nil {
				return nil, err
			}
			return nil, nil
		}
""")],
  demo='package extract\nimport ("testing"; "os"; "io/ioutil")\n' + BOX + OUT + r"""
func TestSeed(t *testing.T) {
	f := file(t, bx("udta", bx("udta")))
	defer os.Remove(f)
	rc := 0
	s := stdout(t, func() { rc = Main([]string{"udta", f}) })
	if rc != 0 || len(s) != 24 { t.Fatalf("%d %q", rc, s) }
}
"""),
dict(id='no-children-stsd', property='C22', pkg='cmd/mp4tool/internal/extract',
  needs='a sample description box of at least 256 bytes',
  what='large sample descriptions are taken for boxes without children',
  edits=[('cmd/mp4tool/internal/util/util.go', "		boxType == mp4.BoxTypeStsc() ||\n", "		boxType == mp4.BoxTypeStsc() ||\n		boxType == mp4.BoxTypeStsd() ||\n")],
  demo='package extract\nimport ("testing"; "os"; "io/ioutil")\n' + BOX + OUT + r"""
func TestSeed(t *testing.T) {
	f := file(t, bx("stsd", []byte{0, 0, 0, 0, 0, 0, 0, 1}, bx("free", make([]byte, 300))))
	defer os.Remove(f)
	rc := 0
	s := stdout(t, func() { rc = Main([]string{"free", f}) })
	if rc != 0 || len(s) != 308 { t.Fatalf("%d %d", rc, len(s)) }
}
"""),
dict(id='opt-mask-all', property='C24',
  needs='a field whose opt tag names several flags, with only some of them set',
  what='a field is present only when all of the flags of its opt tag are set',
  edits=[('field.go', "	if fi.optFlag != 0 && box.GetFlags()&fi.optFlag == 0 {", "	if box.GetFlags()&fi.optFlag != fi.optFlag {")],
  demo='package mp4\nimport ("testing"; "bytes")\n' + r"""
type seedA struct { FullBox `mp4:"0,extend"`; A uint8 `mp4:"1,size=8,opt=0x3"` }
func (*seedA) GetType() BoxType { return StrToBoxType("se4f") }
func TestSeed(t *testing.T) {
	AddBoxDef(&seedA{})
	w := &bytes.Buffer{}
	if n, err := Marshal(w, &seedA{FullBox: FullBox{Flags: [3]byte{0, 0, 2}}, A: 7}, Context{}); err != nil || n != 5 { t.Fatal(n, err) }
}
"""),
dict(id='pascal-rest', property='C24',
  needs='a text with its length in front followed by other fields, and a callback that looks at the number of bytes left',
  what='the callback that decides about such texts is told a remaining size that includes the text',
  edits=[('marshaller.go', "	remainingSize -= uint64(plen)\n", "")],
  demo='package mp4\nimport ("testing"; "bytes")\n' + r"""
type seedA struct { Box; A string `mp4:"0,string=c_p"` }
func (*seedA) GetType() BoxType { return StrToBoxType("se4g") }
func (*seedA) IsPString(name string, b []byte, rest uint64, ctx Context) bool { return rest == 0 }
func TestSeed(t *testing.T) {
	AddBoxDef(&seedA{})
	b, _, err := UnmarshalAny(bytes.NewReader([]byte{2, 'a', 'b'}), StrToBoxType("se4g"), 3, Context{})
	if err != nil || b.(*seedA).A != "ab" { t.Fatal(b, err) }
}
"""),
dict(id='print-beyond-length', property='C24',
  needs='a list in a user-defined box that holds more elements than its length says',
  what='printing shows elements that are not part of the box',
  edits=[('string.go', """		if fi.length != LengthUnlimited && uint(i) >= fi.length {
			break
		}

		if i != 0 {
			m2""", """		if i != 0 {
			m2""")],
  demo='package mp4\nimport "testing"\n' + r"""
type seedA struct { Box; A []uint16 `mp4:"0,size=16,len=1"` }
func (*seedA) GetType() BoxType { return StrToBoxType("se4h") }
func TestSeed(t *testing.T) {
	AddBoxDef(&seedA{})
	s, err := Stringify(&seedA{A: []uint16{1, 2}}, Context{})
	if err != nil || s != "A=[1]" { t.Fatal(s, err) }
}
"""),
dict(id='pssh-short-hex', property='C25', pkg='cmd/mp4tool/internal/psshdump',
  needs='a system identifier with a byte below 16',
  what='bytes of the system identifier lose their leading zero',
  edits=[('cmd/mp4tool/internal/psshdump/psshdump.go', '"%02x", v)', '"%x", v)')],
  demo='package psshdump\nimport ("testing"; "os"; "io/ioutil"; "strings")\n' + BOX + OUT + r"""
func TestSeed(t *testing.T) {
	p := make([]byte, 24)
	f := file(t, bx("moov", bx("pssh", p)))
	defer os.Remove(f)
	rc := 0
	s := stdout(t, func() { rc = Main([]string{f}) })
	if rc != 0 || !strings.Contains(s, "00000000-0000-0000-0000-000000000000") { t.Fatalf("%d %q", rc, s) }
}
"""),
dict(id='pssh-reread-payload', property='C25', pkg='cmd/mp4tool/internal/psshdump',
  needs='a protection header whose box header has the 16-byte form',
  what='the printed box starts eight bytes before its payload, which drops the first half of a 16-byte header',
  edits=[('cmd/mp4tool/internal/psshdump/psshdump.go', "if _, err := bs[i].Info.SeekToStart(r); err != nil {", "if _, err := r.Seek(int64(bs[i].Info.Offset+bs[i].Info.HeaderSize-mp4.SmallHeaderSize), io.SeekStart); err != nil {")],
  demo='package psshdump\nimport ("testing"; "os"; "io/ioutil"; "strings"; "encoding/base64")\n' + BOX + OUT + r"""
func TestSeed(t *testing.T) {
	p := append([]byte{0, 0, 0, 1, 'p', 's', 's', 'h', 0, 0, 0, 0, 0, 0, 0, 40}, make([]byte, 24)...)
	f := file(t, bx("moov", p, bx("free", make([]byte, 16))))
	defer os.Remove(f)
	rc := 0
	s := stdout(t, func() { rc = Main([]string{f}) })
	if rc != 0 || !strings.Contains(s, base64.StdEncoding.EncodeToString(p)) { t.Fatalf("%d %q", rc, s) }
}
"""),
]
