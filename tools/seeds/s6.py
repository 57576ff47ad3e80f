SEEDS = [
dict(id='nal-length-wrap', property='C15',
 needs='a sample whose first unit declares a length of 2^32-4 with four length bytes, so that the next position wraps to zero',
 what='the search for key frames keeps its position in 32 bits and never ends on a damaged sample',
 edits=[('probe.go','for nalOffset := uint64(0); nalOffset+lengthSize+1 <= uint64(sample.Size); {','for nalOffset := uint32(0); uint64(nalOffset)+lengthSize+1 <= uint64(sample.Size); {'),
  ('probe.go','int64(dataOffset+nalOffset)','int64(dataOffset)+int64(nalOffset)'),
  ('probe.go','nalOffset += lengthSize + uint64(length)','nalOffset += uint32(lengthSize) + length')],
 demo='''package mp4
import ("bytes";"testing";"time")
func TestSeed(t *testing.T) {
	done := make(chan int, 1)
	go func() {
		tr := &Track{AVC: &AVCDecConfigInfo{LengthSize: 4}, Chunks: Chunks{{DataOffset: 0, SamplesPerChunk: 1}}, Samples: Samples{{Size: 8}}}
		idx, _ := FindIDRFrames(bytes.NewReader([]byte{0xff, 0xff, 0xff, 0xfc, 1, 0, 0, 0}), tr)
		done <- len(idx)
	}()
	select {
	case n := <-done:
		if n != 0 { t.Fatal(n) }
	case <-time.After(5 * time.Second):
		t.Fatal("does not end")
	}
}
'''),
dict(id='config-extension-rate', property='C16',
 needs='an extension with an explicit 24-bit sampling rate at the very end of the audio configuration',
 what='the bits of the extension\'s explicit sampling rate are not counted, so the search for a second extension runs past the configuration and fails',
 edits=[('probe.go','''							if _, err := r.ReadBits(24); err != nil {
								return 0, 0, err
							}
							remaining -= 24
''','''							if _, err := r.ReadBits(24); err != nil {
								return 0, 0, err
							}
''')],
 demo="""package mp4
import "testing"
func TestSeed(t *testing.T) {
	// 00010 0100 0000 | 01010110111 00101 1 1111 (explicit) | 24 bits | rest
	e := &Esds{Descriptors: []Descriptor{
		{Tag: DecoderConfigDescrTag, DecoderConfigDescriptor: &DecoderConfigDescriptor{ObjectTypeIndication: 0x40}},
		{Tag: DecSpecificInfoTag, Size: 8, Data: []byte{0x12, 0x02, 0xb7, 0x2f, 0xc0, 0x2e, 0xe0, 0x00}},
	}}
	oti, aud, err := detectAACProfile(e)
	if err != nil || oti != 0x40 || aud != 5 { t.Fatal(oti, aud, err) }
}
"""),
dict(id='endbox-end-unchecked', property='C11',
 needs='a sink whose last seek of a box fails',
 what='ending a box no longer reports that the sink could not be positioned behind it',
 edits=[('write.go','''	if _, err := w.writer.Seek(end, io.SeekStart); err != nil {
		return nil, err
	}
	return bi, nil
''','''	_, err = w.writer.Seek(end, io.SeekStart)
	w.biStack = w.biStack[:len(w.biStack):len(w.biStack)]
	return bi, nil
''')],
 demo='''package mp4
import ("errors";"io";"testing")
type badSink struct{ n int }
func (s *badSink) Write(p []byte) (int, error) { return len(p), nil }
func (s *badSink) Seek(off int64, wh int) (int64, error) {
	s.n++
	if wh == io.SeekStart && off == 8 { return 0, errors.New("no seek") }
	if s.n == 1 { return 0, nil }
	return 8, nil
}
func TestSeed(t *testing.T) {
	w := NewWriter(&badSink{})
	if _, err := w.StartBox(&BoxInfo{Type: BoxTypeMoov()}); err != nil { t.Fatal(err) }
	if _, err := w.EndBox(); err == nil { t.Fatal("failure not reported") }
}
'''),
dict(id='slice-unaligned-bytes', property='C24',
 needs='a user-defined box with a byte list that does not start on a byte boundary',
 what='byte lists are copied as whole bytes even when the position is within a byte, which the bit writer rejects',
 edits=[('marshaller.go','''	if elemType.Kind() == reflect.Uint8 && fi.size == 8 && m.wbits%8 == 0 {
''','''	if elemType.Kind() == reflect.Uint8 && fi.size == 8 {
''')],
 demo='''package mp4
import ("bytes";"testing")
type seedBox struct {
	Box
	A uint8  `mp4:"0,size=4"`
	D []byte `mp4:"1,size=8,len=2"`
	B uint8  `mp4:"2,size=4"`
}
func (*seedBox) GetType() BoxType { return StrToBoxType("zsed") }
func TestSeed(t *testing.T) {
	AddBoxDef(&seedBox{})
	var b bytes.Buffer
	if _, err := Marshal(&b, &seedBox{A: 1, D: []byte{0x23, 0x45}, B: 6}, Context{}); err != nil { t.Fatal(err) }
	if !bytes.Equal(b.Bytes(), []byte{0x12, 0x34, 0x56}) { t.Fatal(b.Bytes()) }
}
'''),
dict(id='ctts-first-entries', property='C14',
 needs='a composition offset table with an entry of no samples',
 what='composition offsets are taken by sample number of the entry instead of in run-length order: an empty entry ends the table',
 edits=[('probe.go','''			for i := uint32(0); i < entry.SampleCount; i++ {
				if si >= uint32(len(track.Samples)) {
					break
				}
''','''			if entry.SampleCount == 0 {
				// padding at the end of the table
				break
			}
			for i := uint32(0); i < entry.SampleCount; i++ {
				if si >= uint32(len(track.Samples)) {
					break
				}
''')],
 demo='''package mp4
import ("bytes";"testing";"github.com/stretchr/testify/require")
type memFile struct{ b []byte; p int64 }
func (f *memFile) Write(p []byte) (int, error) {
	f.b = append(f.b[:f.p], append(append([]byte{}, p...), f.b[min(int(f.p)+len(p), len(f.b)):]...)...)
	f.p += int64(len(p))
	return len(p), nil
}
func min(a, b int) int { if a < b { return a }; return b }
func (f *memFile) Seek(off int64, wh int) (int64, error) {
	switch wh { case 0: f.p = off; case 1: f.p += off; case 2: f.p = int64(len(f.b)) + off }
	return f.p, nil
}
func TestSeed(t *testing.T) {
	f := &memFile{}
	w := NewWriter(f)
	open := func(b IBox) {
		_, err := w.StartBox(&BoxInfo{Type: b.GetType()})
		require.NoError(t, err)
		_, err = Marshal(w, b, Context{})
		require.NoError(t, err)
	}
	end := func() { _, err := w.EndBox(); require.NoError(t, err) }
	put := func(b IBox) { open(b); end() }
	open(&Moov{}); open(&Trak{}); put(&Tkhd{TrackID: 1}); open(&Mdia{}); put(&Mdhd{Timescale: 1}); open(&Minf{}); open(&Stbl{})
	put(&Stco{}); put(&Stsc{})
	put(&Stts{EntryCount: 1, Entries: []SttsEntry{{SampleCount: 3, SampleDelta: 1}}})
	put(&Ctts{EntryCount: 3, Entries: []CttsEntry{{SampleCount: 1, SampleOffsetV0: 4}, {}, {SampleCount: 2, SampleOffsetV0: 7}}})
	for i := 0; i < 5; i++ { end() }
	info, err := Probe(bytes.NewReader(f.b))
	require.NoError(t, err)
	require.EqualValues(t, 7, info.Tracks[0].Samples[2].CompositionTimeOffset)
}
'''),
dict(id='writebits-wide-data', property='C13',
 needs='a call that passes more bytes than the width needs',
 what='the bits are taken from the first bytes instead of the last ones when there are more bytes than the width needs',
 edits=[('internal/bitio/write.go','	length := uint(len(data)) * 8\n','	length := (width + 7) / 8 * 8\n')],
 pkg='internal/bitio',
 demo="""package bitio
import ("bytes";"testing")
func TestSeed(t *testing.T) {
	var b bytes.Buffer
	w := NewWriter(&b)
	if err := w.WriteBits([]byte{0xff, 0x00, 0x0a}, 4); err != nil { t.Fatal(err) }
	if err := w.WriteBits([]byte{0x05}, 4); err != nil { t.Fatal(err) }
	if !bytes.Equal(b.Bytes(), []byte{0xa5}) { t.Fatal(b.Bytes()) }
}
"""),
]
