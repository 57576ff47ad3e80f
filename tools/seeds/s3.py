exec(open('/verif/tools/seeds/s2.py').read().split('SEEDS =')[0])
SEEDS = [
dict(id='field-instance-reuse', property='C20',
  needs='two goroutines decoding boxes of the same type at the same time',
  what='the resolved field description is kept in the registered type and overwritten by every call, so concurrent calls see each other\'s list lengths',
  edits=[('field.go', """	fi := fieldInstance{
		field: *f,
	}

	cfo, ok""", """	if f.instance == nil {
		f.instance = &fieldInstance{}
	}
	fi := f.instance
	*fi = fieldInstance{
		field: *f,
	}

	cfo, ok"""), ('field.go', """	return &fi
}""", """	return fi
}"""), ('field.go', """	children []*field
""", """	children []*field
	instance *fieldInstance
""")],
  demo='package mp4\nimport ("bytes"; "testing"; "fmt"; "time")\n' + r"""
func TestSeed(t *testing.T) {
	res := make(chan error, 64)
	stop := time.Now().Add(8 * time.Second)
	for g := 0; g < 8; g++ {
		go func(g int) {
			var err error
			defer func() {
				if e := recover(); e != nil { err = fmt.Errorf("%v", e) }
				res <- err
			}()
			p := make([]byte, 8+4*g)
			p[7] = byte(g)
			for k := 0; k < 200000 && err == nil && time.Now().Before(stop); k++ {
				b := &Stco{}
				_, err = Unmarshal(bytes.NewReader(p), uint64(len(p)), b, Context{})
				if err == nil && len(b.ChunkOffset) != g { err = fmt.Errorf("%d entries instead of %d", len(b.ChunkOffset), g) }
			}
		}(g)
	}
	for g := 0; g < 8; g++ {
		if err := <-res; err != nil { t.Fatal(err) }
	}
}
"""),
dict(id='print-escape-inplace', property='C20',
  needs='printing a key box whose key contains an unprintable byte, then using the box',
  what='printing replaces unprintable bytes in the box itself',
  edits=[('box_types_metadata.go', """	case "KeyValue":
		return fmt.Sprintf("\\"%s\\"", util.EscapeUnprintables(string(k.KeyValue))), true""", """	case "KeyValue":
		for i, c := range k.KeyValue {
			if c < 0x20 || c == 0x7f {
				k.KeyValue[i] = '.'
			}
		}
		return fmt.Sprintf("\\"%s\\"", util.EscapeUnprintables(string(k.KeyValue))), true""")],
  demo='package mp4\nimport "testing"\n' + r"""
func TestSeed(t *testing.T) {
	k := &Keys{EntryCount: 1, Entries: []Key{{KeySize: 11, KeyNamespace: []byte("mdta"), KeyValue: []byte{'a', 7, 'b'}}}}
	if _, err := Stringify(k, Context{}); err != nil { t.Fatal(err) }
	if k.Entries[0].KeyValue[1] != 7 { t.Fatalf("%q", k.Entries[0].KeyValue) }
}
"""),
dict(id='brand-remove-skips', property='C17',
  needs='removing a brand that occurs twice in a row',
  what='the second of two adjacent occurrences of a removed brand stays in the set',
  edits=[('box_types_iso14496_12.go', """	for i := 0; i < len(ftyp.CompatibleBrands); {
		if ftyp.CompatibleBrands[i].CompatibleBrand != cb {
			i++
			continue
		}
		ftyp""", """	for i := 0; i < len(ftyp.CompatibleBrands); i++ {
		if ftyp.CompatibleBrands[i].CompatibleBrand != cb {
			continue
		}
		ftyp""")],
  demo='package mp4\nimport "testing"\n' + r"""
func TestSeed(t *testing.T) {
	b := [4]byte{'i', 's', 'o', 'm'}
	f := &Ftyp{CompatibleBrands: []CompatibleBrandElem{{b}, {b}}}
	f.RemoveCompatibleBrand(b)
	if f.HasCompatibleBrand(b) { t.Fatal(f.CompatibleBrands) }
}
"""),
dict(id='list-prealloc', property='C23',
  needs='a table whose count is far larger than its payload',
  what='memory for the declared count is allocated before the payload is found to be too short',
  edits=[('marshaller.go', "		slice = reflect.MakeSlice(v.Type(), 0, 0)\n", """		n := 0
		if fi.length != LengthUnlimited {
			n = int(fi.length)
		}
		slice = reflect.MakeSlice(v.Type(), 0, n)
""")],
  demo='package mp4\nimport ("bytes"; "testing"; "runtime")\n' + r"""
func TestSeed(t *testing.T) {
	p := []byte{0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 2}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	UnmarshalAny(bytes.NewReader(p), BoxTypeStts(), uint64(len(p)), Context{})
	runtime.ReadMemStats(&b)
	if d := b.TotalAlloc - a.TotalAlloc; d > 1<<20 { t.Fatal(d) }
}
"""),
dict(id='fixed-1616-precision', property='C19',
  needs='an unsigned 16.16 value that needs more than 24 bits',
  what='two different large 16.16 values print the same text',
  edits=[('internal/util/string.go', """	if val&0xffff == 0 {
		return strconv.Itoa(int(val >> 16))
	} else {
		return strconv.FormatFloat(float64(val)/(1<<16), 'f', 5, 64)
	}
}

func FormatSignedFixedFloat88""", """	if val&0xffff == 0 {
		return strconv.Itoa(int(val >> 16))
	} else {
		return strconv.FormatFloat(float64(float32(val)/(1<<16)), 'f', 5, 64)
	}
}

func FormatSignedFixedFloat88""")],
  demo='package mp4\nimport ("testing")\n' + r"""
func TestSeed(t *testing.T) {
	a, _ := Stringify(&Tkhd{Width: 0x70000100}, Context{})
	b, _ := Stringify(&Tkhd{Width: 0x70000110}, Context{})
	if a == b { t.Fatal(a) }
}
"""),
dict(id='slice-too-few', property='C04',
  needs='a byte list with more bytes than its declared count',
  what='a byte list longer than its declared count is written in full, beyond the count',
  edits=[('marshaller.go', """		if _, err := io.CopyN(m.writer, bytes.NewBuffer(v.Bytes()), int64(length)); err != nil {
			return err
		}
		m.wbits += length * 8
		return nil""", """		n, err := io.Copy(m.writer, bytes.NewBuffer(v.Bytes()))
		if err != nil {
			return err
		}
		m.wbits += uint64(n) * 8
		return nil""")],
  demo='package mp4\nimport ("testing"; "bytes")\n' + r"""
func TestSeed(t *testing.T) {
	b := &Pssh{DataSize: 2, Data: []byte{1, 2, 3}}
	w := &bytes.Buffer{}
	Marshal(w, b, Context{})
	if w.Len() != 26 { t.Fatal(w.Len()) }
}
"""),
dict(id='header-size-boundary', property='C05',
  needs='a box of exactly 4294967296 bytes',
  what='a box of exactly 4294967296 bytes gets a short header with size zero',
  edits=[('box_info.go', "	} else if bi.Size <= math.MaxUint32 && bi.HeaderSize", "	} else if bi.Size <= math.MaxUint32+1 && bi.HeaderSize")],
  demo='package mp4\nimport ("testing"; "bytes"; "io")\n' + MEM + r"""
func TestSeed(t *testing.T) {
	f := &seedFile{}
	w, err := WriteBoxInfo(f, &BoxInfo{Size: 1 << 32, HeaderSize: 8, Type: BoxTypeMdat()})
	if err != nil { t.Fatal(err) }
	bi, err := ReadBoxInfo(bytes.NewReader(f.b))
	if err != nil || bi.Size != 1<<32 || w == nil { t.Fatalf("%+v %v", bi, err) }
}
"""),
dict(id='segment-min-offset', property='C14',
  needs='a fragment whose first sample has offset zero and all others positive ones, or whose smallest offset is zero in between',
  what='the smallest composition offset ignores samples with an offset of zero',
  edits=[('probe.go', "			if ei == 0 || offset < segment.CompositionTimeOffset {", "			if segment.CompositionTimeOffset == 0 || offset < segment.CompositionTimeOffset {")],
  demo='package mp4\nimport ("io"; "testing"; "bytes")\n' + MEM + r"""
var _ io.Reader
func TestSeed(t *testing.T) {
	tfhd := seedBox("tfhd", []byte{0, 2, 0, 8, 0, 0, 0, 1, 0, 0, 0, 10})
	trun := seedBox("trun", []byte{0, 0, 8, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 5})
	p, err := Probe(bytes.NewReader(seedBox("moof", seedBox("traf", tfhd, trun))))
	if err != nil { t.Fatal(err) }
	if p.Segments[0].CompositionTimeOffset != 0 { t.Fatal(p.Segments[0].CompositionTimeOffset) }
}
"""),
dict(id='nal-length-wrap', property='C15',
  needs='a sample with a unit length field of 0xfffffffc',
  what='advancing to the next unit wraps around, so that the search never ends',
  edits=[('probe.go', "nalOffset += lengthSize + uint64(length)", "nalOffset += uint64(uint32(lengthSize) + length)")],
  demo='package mp4\nimport ("testing"; "bytes"; "time")\n' + r"""
func TestSeed(t *testing.T) {
	tr := &TrackInfo{AVC: &AVCDecConfigInfo{LengthSize: 4}, Chunks: Chunks{{SamplesPerChunk: 1}}, Samples: Samples{{Size: 6}}}
	done := make(chan bool)
	go func() { FindIDRFrames(bytes.NewReader([]byte{255, 255, 255, 252, 1, 1}), tr); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("endless")
	}
}
"""),
dict(id='ctts-run-order', property='C14',
  needs='a composition offset table with a run of zero length before a longer one, or runs of unequal length',
  what='after a run that is longer than the remaining samples ... ',
  edits=[('probe.go', "				track.Samples[si].CompositionTimeOffset = ctts.GetSampleOffset(ci)\n				si++\n", "				track.Samples[si].CompositionTimeOffset = ctts.GetSampleOffset(ci)\n				if i%0x100 != 0xff {\n					si++\n				}\n")],
  demo='package mp4\nimport "testing"\nfunc TestSeed(t *testing.T) { t.Fatal() }\n'),
dict(id='max-bitrate-window', property='C15',
  needs='a window in which several samples have to be dropped from the front',
  what='only one sample is dropped from the window before the next one is added',
  edits=[('probe.go', """			duration -= uint64(samples[begin].TimeDelta)
			begin++
			if duration < timeDelta {
				break
			}
""", """			duration -= uint64(samples[begin].TimeDelta)
			begin++
			if duration < timeDelta || begin+1 == end {
				break
			}
""")],
  demo='package mp4\nimport "testing"\n' + r"""
func TestSeed(t *testing.T) {
	s := Samples{{Size: 1, TimeDelta: 1}, {Size: 1, TimeDelta: 30}, {Size: 50, TimeDelta: 10}}
	if b := s.GetMaxBitrate(10, 10); b != 400 { t.Fatal(b) }
}
"""),
dict(id='idr-last-byte', property='C15',
  needs='a sample that ends with a unit consisting of only its type byte',
  what='a unit of a single byte at the very end of a sample is not looked at',
  edits=[('probe.go', "nalOffset+lengthSize+1 <= uint64(sample.Size)", "nalOffset+lengthSize+1 < uint64(sample.Size)")],
  demo='package mp4\nimport ("testing"; "bytes")\n' + r"""
func TestSeed(t *testing.T) {
	tr := &TrackInfo{AVC: &AVCDecConfigInfo{LengthSize: 1}, Chunks: Chunks{{SamplesPerChunk: 1}}, Samples: Samples{{Size: 2}}}
	i, err := FindIDRFrames(bytes.NewReader([]byte{1, 5}), tr)
	if err != nil || len(i) != 1 { t.Fatal(i, err) }
}
"""),
dict(id='string-boundary', property='C01',
  needs='a string at the end of the payload without terminator, with more data behind the payload',
  what='an unterminated string takes one byte from behind the payload when that byte is a terminator',
  edits=[('marshaller.go', """		if u.rbits >= u.size*8 {
			break
		}

		c, err := u.reader.ReadBits(8)
		if err != nil {
			return err
		}
		u.rbits += 8
""", """		if u.rbits > u.size*8 {
			break
		}

		c, err := u.reader.ReadBits(8)
		if err == io.EOF && u.rbits == u.size*8 {
			break
		}
		if err != nil {
			return err
		}
		if u.rbits == u.size*8 {
			break
		}
		u.rbits += 8
""")],
  demo='package mp4\nimport ("testing"; "bytes"; "io")\n' + r"""
func TestSeed(t *testing.T) {
	r := bytes.NewReader([]byte{'a', 'b', 'c', 'd', 'e'})
	_, n, err := UnmarshalAny(r, StrToBoxType("iden"), 3, Context{})
	if err != nil || n != 3 { t.Fatal(n, err) }
	if p, _ := r.Seek(0, io.SeekCurrent); p != 3 { t.Fatal(p) }
}
"""),
dict(id='sidx-signed-type', property='C02',
  needs='a track fragment random access entry with number fields wider than one byte and of unequal width',
  what='trun numbers are read and written with the width declared for sample numbers',
  edits=[('box_types_iso14496_12.go', "		return (uint(tfra.LengthSizeOfTrunNum) + 1) * 8", "		return (uint(tfra.LengthSizeOfTrunNum)&1 + 1) * 8")],
  demo='package mp4\nimport ("testing"; "bytes")\n' + r"""
func TestSeed(t *testing.T) {
	b := &Tfra{LengthSizeOfTrunNum: 2, NumberOfEntry: 1, Entries: []TfraEntry{{TrunNumber: 0x30001}}}
	w := &bytes.Buffer{}
	if _, err := Marshal(w, b, Context{}); err != nil { t.Fatal(err) }
	x := &Tfra{}
	if _, err := Unmarshal(bytes.NewReader(w.Bytes()), uint64(w.Len()), x, Context{}); err != nil { t.Fatal(err) }
	if x.Entries[0].TrunNumber != 0x30001 { t.Fatal(x.Entries) }
}
"""),
dict(id='version-after-register', property='C18',
  needs='a user registering a type again with other versions',
  what='',
  edits=[('box.go', "XX", "YY")], demo=''),
]
SEEDS = [s for s in SEEDS if s['id'] not in ('ctts-run-order', 'version-after-register')]
