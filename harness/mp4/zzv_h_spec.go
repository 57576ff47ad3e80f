package HARNESS

//use types

// hs builds an arbitrary box together with the bytes the format specification lays down for it. Every field is
// listed in the order, width and signedness of the specification (ISO/IEC 14496-12/-14/-15/-30, 23001-5/-7, 23003,
// ETSI TS 102 366, AV1-ISOBMFF, VP-codec-ISOBMFF, Opus-in-ISOBMFF, 3GPP TS 26.244, QuickTime file format).
type hs struct {
	out []byte
	cur byte
	n   uint
	max int // longest list
	fix int // if not zero: the length of the first list; only the first fields are arbitrary then, the others are distinct constants
	lrg bool
	sym int
	min int // shortest list
}

func (s *hs) put(v uint64, n int) {
	for n > 0 {
		if s.n == 0 && n >= 8 {
			s.out = append(s.out, byte(v>>uint(n-8)))
			n -= 8
			continue
		}
		k := 8 - int(s.n)
		if k > n {
			k = n
		}
		part := byte(v>>uint(n-k)) & byte(1<<uint(k)-1)
		s.cur |= part << uint(8-int(s.n)-k)
		s.n += uint(k)
		n -= k
		if s.n == 8 {
			s.out = append(s.out, s.cur)
			s.cur, s.n = 0, 0
		}
	}
}

// an arbitrary unsigned n-bit field
func (s *hs) u(n int) uint64 {
	if s.fix != 0 {
		s.lrg = true
	}
	if s.sym++; s.lrg && s.sym > 12 {
		k := uint64(s.sym)
		k = (k<<56 | k<<48 | k<<32 | k<<12 | k) & (1<<uint(n) - 1)
		s.put(k, n)
		return k
	}
	v := vBits("f"+hItoa(n), n)
	s.put(v, n)
	return v
}
func (s *hs) u8() uint8   { return uint8(s.u(8)) }
func (s *hs) u16() uint16 { return uint16(s.u(16)) }
func (s *hs) u24() uint32 { return uint32(s.u(24)) }
func (s *hs) u32() uint32 { return uint32(s.u(32)) }
func (s *hs) u64() uint64 { return s.u(64) }

// an arbitrary signed n-bit field
func (s *hs) i(n int) int64 {
	v := s.u(n)
	return int64(v<<uint(64-n)) >> uint(64-n)
}
func (s *hs) i16() int16 { return int16(s.i(16)) }
func (s *hs) i32() int32 { return int32(s.i(32)) }
func (s *hs) i64() int64 { return s.i(64) }

// a one-bit field
func (s *hs) b() bool { return s.u(1) != 0 }

// a constant field
func (s *hs) c(v uint64, n int) uint64 {
	s.put(v, n)
	return v
}

// n arbitrary bytes
func (s *hs) bytes(n int) []byte {
	var b []byte
	if s.sym++; s.lrg && s.sym > 12 {
		b = make([]byte, n)
		for i := range b {
			b[i] = byte(s.sym + i*7)
		}
	} else {
		b = vBytes("b", n)
	}
	s.out = append(s.out, b...)
	return b
}

// the bytes of an arbitrary text of up to max bytes, none of them zero
func (s *hs) text(max int) string {
	n := vChoose("len", max+1)
	b := vBytes("s", n)
	for i := 0; i < n; i++ {
		vAssume(b[i] != 0)
	}
	s.out = append(s.out, b...)
	return string(b)
}

// a zero-terminated string
func (s *hs) str(max int) string {
	t := s.text(max)
	s.out = append(s.out, 0)
	return t
}

// a list length of the given width
func (s *hs) cnt(bits int) int {
	n := s.len()
	s.put(uint64(n), bits)
	return n
}

func (s *hs) len() int {
	if s.fix != 0 {
		n := s.fix
		s.fix = 0
		return n
	}
	return s.min + vChoose("n", s.max+1-s.min)
}

func (s *hs) full(b *FullBox, vers ...uint8) uint8 {
	v := vers[vChoose("version", len(vers))]
	b.Version = uint8(s.c(uint64(v), 8))
	if s.fix != 0 {
		s.lrg = true
		b.Flags = [3]byte{0, 0x0f, 0x05}
		s.c(0x0f05, 24)
		return v
	}
	copy(b.Flags[:], s.bytes(3))
	return v
}

func (s *hs) flag(b *FullBox, f uint32) bool {
	fl := uint32(b.Flags[0])<<16 | uint32(b.Flags[1])<<8 | uint32(b.Flags[2])
	return fl&f != 0
}

func (s *hs) b4() (r [4]byte) {
	copy(r[:], s.bytes(4))
	return
}

func (s *hs) sampleEntry(b *SampleEntry) {
	for i := range b.Reserved {
		b.Reserved[i] = uint8(s.c(0, 8))
	}
	b.DataReferenceIndex = s.u16()
}

func (s *hs) matrix(m *[9]int32) {
	for i := range m {
		m[i] = s.i32()
	}
}

// hSpecCtx is the context in which boxes of the type occur.
func hSpecCtx(name string) Context {
	c := Context{}
	switch name {
	case "mp4a", "enca", "ac-3", "ipcm", "fpcm", "Opus":
		c.IsQuickTimeCompatible = vBool("ctx.qt")
		c.UnderWave = vBool("ctx.wave")
		c.QuickTimeKeysMetaEntryCount = vRange("ctx.keys", 0, 3)
	case "titl", "cprt", "dscp", "gnre":
		c.UnderUdta = true
	case "aART", "----", "\xa9nam", "trkn":
		c.UnderIlst = true
		c.UnderUdta = vBool("ctx.udta")
	case "\x00\x00\x00\x01":
		c.UnderIlst = true
		c.QuickTimeKeysMetaEntryCount = vRange("ctx.keys", 1, 3)
	case "data":
		c.UnderIlst, c.UnderIlstMeta = true, true
		c.UnderIlstFreeMeta = vBool("ctx.free")
	case "mean", "name":
		c.UnderIlst, c.UnderIlstFreeMeta = true, true
		c.UnderIlstMeta = vBool("ctx.meta")
	}
	return c
}

// hSpecBox is an arbitrary box of the type. alt is true when the layout is only checked in parts.
func hSpecBox(name string, ctx Context, s *hs) IBox {
	bt := StrToBoxType(name)
	box, err := bt.New(ctx)
	vAssert(err == nil, "the type is known in its context")
	switch b := box.(type) {
	case *Btrt:
		b.BufferSizeDB = s.u32()
		b.MaxBitrate = s.u32()
		b.AvgBitrate = s.u32()
	case *Co64:
		s.full(&b.FullBox, 0)
		n := s.cnt(32)
		b.EntryCount = uint32(n)
		for i := 0; i < n; i++ {
			b.ChunkOffset = append(b.ChunkOffset, s.u64())
		}
	case *Colr:
		switch vChoose("colr", 4) {
		case 0:
			b.ColourType = [4]byte{'n', 'c', 'l', 'x'}
			s.out = append(s.out, "nclx"...)
			b.ColourPrimaries = s.u16()
			b.TransferCharacteristics = s.u16()
			b.MatrixCoefficients = s.u16()
			b.FullRangeFlag = s.b()
			b.Reserved = uint8(s.u(7))
		case 1:
			b.ColourType = [4]byte{'r', 'I', 'C', 'C'}
			s.out = append(s.out, "rICC"...)
			b.Profile = s.bytes(s.len())
		case 2:
			b.ColourType = [4]byte{'p', 'r', 'o', 'f'}
			s.out = append(s.out, "prof"...)
			b.Profile = s.bytes(s.len())
		case 3:
			b.ColourType = s.b4()
			vAssume(b.ColourType != [4]byte{'n', 'c', 'l', 'x'} && b.ColourType != [4]byte{'r', 'I', 'C', 'C'} && b.ColourType != [4]byte{'p', 'r', 'o', 'f'})
			b.Unknown = s.bytes(s.len())
		}
	case *Cslg:
		if s.full(&b.FullBox, 0, 1) == 0 {
			b.CompositionToDTSShiftV0 = s.i32()
			b.LeastDecodeToDisplayDeltaV0 = s.i32()
			b.GreatestDecodeToDisplayDeltaV0 = s.i32()
			b.CompositionStartTimeV0 = s.i32()
			b.CompositionEndTimeV0 = s.i32()
		} else {
			b.CompositionToDTSShiftV1 = s.i64()
			b.LeastDecodeToDisplayDeltaV1 = s.i64()
			b.GreatestDecodeToDisplayDeltaV1 = s.i64()
			b.CompositionStartTimeV1 = s.i64()
			b.CompositionEndTimeV1 = s.i64()
		}
	case *Ctts:
		v := s.full(&b.FullBox, 0, 1)
		n := s.cnt(32)
		b.EntryCount = uint32(n)
		for i := 0; i < n; i++ {
			e := CttsEntry{SampleCount: s.u32()}
			if v == 0 {
				e.SampleOffsetV0 = s.u32()
			} else {
				e.SampleOffsetV1 = s.i32()
			}
			b.Entries = append(b.Entries, e)
		}
	case *Dref:
		s.full(&b.FullBox, 0)
		b.EntryCount = s.u32()
	case *Url:
		s.full(&b.FullBox, 0)
		if !s.flag(&b.FullBox, 1) {
			b.Location = s.str(3)
		}
	case *Urn:
		s.full(&b.FullBox, 0)
		if !s.flag(&b.FullBox, 1) {
			b.Name = s.str(2)
			b.Location = s.str(2)
		}
	case *Elst:
		v := s.full(&b.FullBox, 0, 1)
		n := s.cnt(32)
		b.EntryCount = uint32(n)
		for i := 0; i < n; i++ {
			e := ElstEntry{}
			if v == 0 {
				e.SegmentDurationV0 = s.u32()
				e.MediaTimeV0 = s.i32()
			} else {
				e.SegmentDurationV1 = s.u64()
				e.MediaTimeV1 = s.i64()
			}
			e.MediaRateInteger = s.i16()
			e.MediaRateFraction = int16(s.c(0, 16))
			b.Entries = append(b.Entries, e)
		}
	case *Emsg:
		if s.full(&b.FullBox, 0, 1) == 0 {
			b.SchemeIdUri = s.str(2)
			b.Value = s.str(2)
			b.Timescale = s.u32()
			b.PresentationTimeDelta = s.u32()
			b.EventDuration = s.u32()
			b.Id = s.u32()
		} else {
			b.Timescale = s.u32()
			b.PresentationTime = s.u64()
			b.EventDuration = s.u32()
			b.Id = s.u32()
			b.SchemeIdUri = s.str(2)
			b.Value = s.str(2)
		}
		b.MessageData = s.bytes(s.len())
	case *Fiel:
		b.FieldCount = s.u8()
		b.FieldOrdering = s.u8()
	case *Free:
		b.Data = s.bytes(s.len())
	case *Skip:
		b.Data = s.bytes(s.len())
	case *Frma:
		b.DataFormat = s.b4()
	case *Ftyp:
		b.MajorBrand = s.b4()
		b.MinorVersion = s.u32()
		for n := s.len(); n > 0; n-- {
			b.CompatibleBrands = append(b.CompatibleBrands, CompatibleBrandElem{CompatibleBrand: s.b4()})
		}
	case *Styp:
		b.MajorBrand = s.b4()
		b.MinorVersion = s.u32()
		for n := s.len(); n > 0; n-- {
			b.CompatibleBrands = append(b.CompatibleBrands, CompatibleBrandElem{CompatibleBrand: s.b4()})
		}
	case *Hdlr:
		s.full(&b.FullBox, 0)
		b.PreDefined = s.u32()
		b.HandlerType = s.b4()
		for i := range b.Reserved {
			b.Reserved[i] = uint32(s.c(0, 32))
		}
		b.Name = s.str(s.max)
		if len(b.Name) > 0 {
			// see KF-HDLR
			vAssume(vOr(b.PreDefined == 0, int(b.Name[0]) != len(b.Name)))
		}
	case *HvcC:
		b.ConfigurationVersion = s.u8()
		b.GeneralProfileSpace = uint8(s.u(2))
		b.GeneralTierFlag = s.b()
		b.GeneralProfileIdc = uint8(s.u(5))
		for i := range b.GeneralProfileCompatibility {
			b.GeneralProfileCompatibility[i] = s.b()
		}
		for i := range b.GeneralConstraintIndicator {
			b.GeneralConstraintIndicator[i] = s.u8()
		}
		b.GeneralLevelIdc = s.u8()
		b.Reserved1 = uint8(s.c(15, 4))
		b.MinSpatialSegmentationIdc = uint16(s.u(12))
		b.Reserved2 = uint8(s.c(63, 6))
		b.ParallelismType = uint8(s.u(2))
		b.Reserved3 = uint8(s.c(63, 6))
		b.ChromaFormatIdc = uint8(s.u(2))
		b.Reserved4 = uint8(s.c(31, 5))
		b.BitDepthLumaMinus8 = uint8(s.u(3))
		b.Reserved5 = uint8(s.c(31, 5))
		b.BitDepthChromaMinus8 = uint8(s.u(3))
		b.AvgFrameRate = s.u16()
		b.ConstantFrameRate = uint8(s.u(2))
		if vParam("hvcc") == "spec" {
			b.NumTemporalLayers = uint8(s.u(3))
			b.TemporalIdNested = uint8(s.u(1))
		} else if vParam("hvcc") == "any" {
			b.NumTemporalLayers = uint8(s.u(2))
			b.TemporalIdNested = uint8(s.u(2))
		} else {
			// see KF-HVCC: only values on which both readings of the four bits agree
			b.NumTemporalLayers = uint8(s.c(0, 3))
			b.TemporalIdNested = uint8(s.u(1))
		}
		b.LengthSizeMinusOne = uint8(s.u(2))
		n := s.len()
		b.NumOfNaluArrays = uint8(s.c(uint64(n), 8))
		for i := 0; i < n; i++ {
			a := HEVCNaluArray{}
			a.Completeness = s.b()
			a.Reserved = s.c(0, 1) != 0
			a.NaluType = uint8(s.u(6))
			m := s.len()
			a.NumNalus = uint16(s.c(uint64(m), 16))
			for j := 0; j < m; j++ {
				k := s.len()
				a.Nalus = append(a.Nalus, HEVCNalu{Length: uint16(s.c(uint64(k), 16)), NALUnit: s.bytes(k)})
			}
			b.NaluArrays = append(b.NaluArrays, a)
		}
	case *Mdat:
		b.Data = s.bytes(s.len())
	case *Mdhd:
		v := s.full(&b.FullBox, 0, 1)
		if v == 0 {
			b.CreationTimeV0 = s.u32()
			b.ModificationTimeV0 = s.u32()
		} else {
			b.CreationTimeV1 = s.u64()
			b.ModificationTimeV1 = s.u64()
		}
		b.Timescale = s.u32()
		if v == 0 {
			b.DurationV0 = s.u32()
		} else {
			b.DurationV1 = s.u64()
		}
		b.Pad = s.b()
		for i := range b.Language {
			b.Language[i] = byte(s.u(5))
		}
		b.PreDefined = s.u16()
	case *Mehd:
		if s.full(&b.FullBox, 0, 1) == 0 {
			b.FragmentDurationV0 = s.u32()
		} else {
			b.FragmentDurationV1 = s.u64()
		}
	case *Meta:
		s.c(0, 32)
	case *Mfhd:
		s.full(&b.FullBox, 0)
		b.SequenceNumber = s.u32()
	case *Mfro:
		s.full(&b.FullBox, 0)
		b.Size = s.u32()
	case *Mvhd:
		v := s.full(&b.FullBox, 0, 1)
		if v == 0 {
			b.CreationTimeV0 = s.u32()
			b.ModificationTimeV0 = s.u32()
			b.Timescale = s.u32()
			b.DurationV0 = s.u32()
		} else {
			b.CreationTimeV1 = s.u64()
			b.ModificationTimeV1 = s.u64()
			b.Timescale = s.u32()
			b.DurationV1 = s.u64()
		}
		b.Rate = s.i32()
		b.Volume = s.i16()
		s.c(0, 16+64)
		s.matrix(&b.Matrix)
		for i := range b.PreDefined {
			b.PreDefined[i] = s.i32()
		}
		b.NextTrackID = s.u32()
	case *Saio:
		v := s.full(&b.FullBox, 0, 1)
		if s.flag(&b.FullBox, 1) {
			b.AuxInfoType = s.b4()
			b.AuxInfoTypeParameter = s.u32()
		}
		n := s.cnt(32)
		b.EntryCount = uint32(n)
		for i := 0; i < n; i++ {
			if v == 0 {
				b.OffsetV0 = append(b.OffsetV0, s.u32())
			} else {
				b.OffsetV1 = append(b.OffsetV1, s.u64())
			}
		}
	case *Saiz:
		s.full(&b.FullBox, 0)
		if s.flag(&b.FullBox, 1) {
			b.AuxInfoType = s.b4()
			b.AuxInfoTypeParameter = s.u32()
		}
		if vChoose("dflt", 2) == 0 {
			b.DefaultSampleInfoSize = s.u8()
			vAssume(b.DefaultSampleInfoSize != 0)
			b.SampleCount = s.u32()
		} else {
			s.c(0, 8)
			n := s.cnt(32)
			b.SampleCount = uint32(n)
			b.SampleInfoSize = s.bytes(n)
		}
	case *VisualSampleEntry:
		s.sampleEntry(&b.SampleEntry)
		b.PreDefined = s.u16()
		s.c(0, 16)
		for i := range b.PreDefined2 {
			b.PreDefined2[i] = s.u32()
		}
		b.Width = s.u16()
		b.Height = s.u16()
		b.Horizresolution = s.u32()
		b.Vertresolution = s.u32()
		s.c(0, 32)
		b.FrameCount = s.u16()
		copy(b.Compressorname[:], s.bytes(32))
		b.Depth = s.u16()
		b.PreDefined3 = s.i16()
	case *AudioSampleEntry:
		wave := ctx.IsQuickTimeCompatible && ctx.UnderWave
		if !wave {
			s.sampleEntry(&b.SampleEntry)
			b.EntryVersion = s.u16()
			s.c(0, 48)
			b.ChannelCount = s.u16()
			b.SampleSize = s.u16()
			b.PreDefined = s.u16()
			s.c(0, 16)
			b.SampleRate = s.u32()
			if ctx.IsQuickTimeCompatible {
				if b.EntryVersion == 1 {
					b.QuickTimeData = s.bytes(16)
				} else if b.EntryVersion == 2 {
					b.QuickTimeData = s.bytes(36)
				}
			}
		} else {
			b.QuickTimeData = s.bytes(s.len())
		}
	case *AVCDecoderConfiguration:
		b.ConfigurationVersion = s.u8()
		b.Profile = s.u8()
		b.ProfileCompatibility = s.u8()
		b.Level = s.u8()
		b.Reserved = uint8(s.c(63, 6))
		b.LengthSizeMinusOne = uint8(s.u(2))
		b.Reserved2 = uint8(s.c(7, 3))
		n := s.cnt(5)
		b.NumOfSequenceParameterSets = uint8(n)
		b.SequenceParameterSets = s.avcSets(n)
		n = s.cnt(8)
		b.NumOfPictureParameterSets = uint8(n)
		b.PictureParameterSets = s.avcSets(n)
		if vChoose("high", 2) == 1 {
			vAssume(vOr(vOr(b.Profile == 100, b.Profile == 110), vOr(b.Profile == 122, b.Profile == 144)))
			b.HighProfileFieldsEnabled = true
			b.Reserved3 = uint8(s.c(63, 6))
			b.ChromaFormat = uint8(s.u(2))
			b.Reserved4 = uint8(s.c(31, 5))
			b.BitDepthLumaMinus8 = uint8(s.u(3))
			b.Reserved5 = uint8(s.c(31, 5))
			b.BitDepthChromaMinus8 = uint8(s.u(3))
			n := s.cnt(8)
			b.NumOfSequenceParameterSetExt = uint8(n)
			b.SequenceParameterSetsExt = s.avcSets(n)
		}
	case *PixelAspectRatioBox:
		b.HSpacing = s.u32()
		b.VSpacing = s.u32()
	case *XMLSubtitleSampleEntry:
		s.sampleEntry(&b.SampleEntry)
		b.Namespace = s.str(2)
		b.SchemaLocation = s.str(1)
		b.AuxiliaryMIMETypes = s.str(2)
	case *TextSubtitleSampleEntry:
		s.sampleEntry(&b.SampleEntry)
		b.ContentEncoding = s.str(2)
		b.MIMEFormat = s.str(2)
	case *Sbgp:
		v := s.full(&b.FullBox, 0, 1)
		b.GroupingType = s.u32()
		if v == 1 {
			b.GroupingTypeParameter = s.u32()
		}
		n := s.cnt(32)
		b.EntryCount = uint32(n)
		for i := 0; i < n; i++ {
			b.Entries = append(b.Entries, SbgpEntry{SampleCount: s.u32(), GroupDescriptionIndex: s.u32()})
		}
	case *Schm:
		s.full(&b.FullBox, 0)
		b.SchemeType = s.b4()
		b.SchemeVersion = s.u32()
		if s.flag(&b.FullBox, 1) {
			b.SchemeUri = s.bytes(s.len())
		}
	case *Sdtp:
		s.full(&b.FullBox, 0)
		for n := s.len(); n > 0; n-- {
			b.Samples = append(b.Samples, SdtpSampleElem{
				IsLeading: uint8(s.u(2)), SampleDependsOn: uint8(s.u(2)), SampleIsDependedOn: uint8(s.u(2)), SampleHasRedundancy: uint8(s.u(2))})
		}
	case *Sgpd:
		s.sgpd(b)
	case *Sidx:
		v := s.full(&b.FullBox, 0, 1)
		b.ReferenceID = s.u32()
		b.Timescale = s.u32()
		if v == 0 {
			b.EarliestPresentationTimeV0 = s.u32()
			b.FirstOffsetV0 = s.u32()
		} else {
			b.EarliestPresentationTimeV1 = s.u64()
			b.FirstOffsetV1 = s.u64()
		}
		s.c(0, 16)
		n := s.cnt(16)
		b.ReferenceCount = uint16(n)
		for i := 0; i < n; i++ {
			b.References = append(b.References, SidxReference{
				ReferenceType: s.b(), ReferencedSize: uint32(s.u(31)), SubsegmentDuration: s.u32(),
				StartsWithSAP: s.b(), SAPType: uint32(s.u(3)), SAPDeltaTime: uint32(s.u(28))})
		}
	case *Smhd:
		s.full(&b.FullBox, 0)
		b.Balance = s.i16()
		s.c(0, 16)
	case *Stco:
		s.full(&b.FullBox, 0)
		n := s.cnt(32)
		b.EntryCount = uint32(n)
		for i := 0; i < n; i++ {
			b.ChunkOffset = append(b.ChunkOffset, s.u32())
		}
	case *Stsc:
		s.full(&b.FullBox, 0)
		n := s.cnt(32)
		b.EntryCount = uint32(n)
		for i := 0; i < n; i++ {
			b.Entries = append(b.Entries, StscEntry{FirstChunk: s.u32(), SamplesPerChunk: s.u32(), SampleDescriptionIndex: s.u32()})
		}
	case *Stsd:
		s.full(&b.FullBox, 0)
		b.EntryCount = s.u32()
	case *Stss:
		s.full(&b.FullBox, 0)
		n := s.cnt(32)
		b.EntryCount = uint32(n)
		for i := 0; i < n; i++ {
			b.SampleNumber = append(b.SampleNumber, s.u32())
		}
	case *Stsz:
		s.full(&b.FullBox, 0)
		if vChoose("const", 2) == 0 {
			b.SampleSize = s.u32()
			vAssume(b.SampleSize != 0)
			b.SampleCount = s.u32()
		} else {
			s.c(0, 32)
			n := s.cnt(32)
			b.SampleCount = uint32(n)
			for i := 0; i < n; i++ {
				b.EntrySize = append(b.EntrySize, s.u32())
			}
		}
	case *Stts:
		s.full(&b.FullBox, 0)
		n := s.cnt(32)
		b.EntryCount = uint32(n)
		for i := 0; i < n; i++ {
			b.Entries = append(b.Entries, SttsEntry{SampleCount: s.u32(), SampleDelta: s.u32()})
		}
	case *Tfdt:
		if s.full(&b.FullBox, 0, 1) == 0 {
			b.BaseMediaDecodeTimeV0 = s.u32()
		} else {
			b.BaseMediaDecodeTimeV1 = s.u64()
		}
	case *Tfhd:
		s.full(&b.FullBox, 0)
		b.TrackID = s.u32()
		if s.flag(&b.FullBox, 0x1) {
			b.BaseDataOffset = s.u64()
		}
		if s.flag(&b.FullBox, 0x2) {
			b.SampleDescriptionIndex = s.u32()
		}
		if s.flag(&b.FullBox, 0x8) {
			b.DefaultSampleDuration = s.u32()
		}
		if s.flag(&b.FullBox, 0x10) {
			b.DefaultSampleSize = s.u32()
		}
		if s.flag(&b.FullBox, 0x20) {
			b.DefaultSampleFlags = s.u32()
		}
	case *Tfra:
		v := s.full(&b.FullBox, 0, 1)
		b.TrackID = s.u32()
		s.c(0, 26)
		w := 0x1b
		if !s.lrg {
			w = vChoose("widths", 64)
		}
		b.LengthSizeOfTrafNum = byte(s.c(uint64(w>>4&3), 2))
		b.LengthSizeOfTrunNum = byte(s.c(uint64(w>>2&3), 2))
		b.LengthSizeOfSampleNum = byte(s.c(uint64(w&3), 2))
		n := s.cnt(32)
		b.NumberOfEntry = uint32(n)
		for i := 0; i < n; i++ {
			e := TfraEntry{}
			if v == 0 {
				e.TimeV0 = s.u32()
				e.MoofOffsetV0 = s.u32()
			} else {
				e.TimeV1 = s.u64()
				e.MoofOffsetV1 = s.u64()
			}
			e.TrafNumber = uint32(s.u(8 * (w>>4&3 + 1)))
			e.TrunNumber = uint32(s.u(8 * (w>>2&3 + 1)))
			e.SampleNumber = uint32(s.u(8 * (w&3 + 1)))
			b.Entries = append(b.Entries, e)
		}
	case *Tkhd:
		v := s.full(&b.FullBox, 0, 1)
		if v == 0 {
			b.CreationTimeV0 = s.u32()
			b.ModificationTimeV0 = s.u32()
			b.TrackID = s.u32()
			s.c(0, 32)
			b.DurationV0 = s.u32()
		} else {
			b.CreationTimeV1 = s.u64()
			b.ModificationTimeV1 = s.u64()
			b.TrackID = s.u32()
			s.c(0, 32)
			b.DurationV1 = s.u64()
		}
		s.c(0, 64)
		b.Layer = s.i16()
		b.AlternateGroup = s.i16()
		b.Volume = s.i16()
		s.c(0, 16)
		s.matrix(&b.Matrix)
		b.Width = s.u32()
		b.Height = s.u32()
	case *Trep:
		s.full(&b.FullBox, 0)
		b.TrackID = s.u32()
	case *Trex:
		s.full(&b.FullBox, 0)
		b.TrackID = s.u32()
		b.DefaultSampleDescriptionIndex = s.u32()
		b.DefaultSampleDuration = s.u32()
		b.DefaultSampleSize = s.u32()
		b.DefaultSampleFlags = s.u32()
	case *Trun:
		v := s.full(&b.FullBox, 0, 1)
		n := s.cnt(32)
		b.SampleCount = uint32(n)
		if s.flag(&b.FullBox, 0x1) {
			b.DataOffset = s.i32()
		}
		if s.flag(&b.FullBox, 0x4) {
			b.FirstSampleFlags = s.u32()
		}
		for i := 0; i < n; i++ {
			e := TrunEntry{}
			if s.flag(&b.FullBox, 0x100) {
				e.SampleDuration = s.u32()
			}
			if s.flag(&b.FullBox, 0x200) {
				e.SampleSize = s.u32()
			}
			if s.flag(&b.FullBox, 0x400) {
				e.SampleFlags = s.u32()
			}
			if s.flag(&b.FullBox, 0x800) {
				if v == 0 {
					e.SampleCompositionTimeOffsetV0 = s.u32()
				} else {
					e.SampleCompositionTimeOffsetV1 = s.i32()
				}
			}
			b.Entries = append(b.Entries, e)
		}
	case *Vmhd:
		s.full(&b.FullBox, 0)
		b.Graphicsmode = s.u16()
		for i := range b.Opcolor {
			b.Opcolor[i] = s.u16()
		}
	case *Udta3GppString:
		s.full(&b.FullBox, 0)
		b.Pad = s.b()
		for i := range b.Language {
			b.Language[i] = byte(s.u(5))
		}
		b.Data = s.bytes(s.len())
	case *Av1C:
		b.Marker = uint8(s.c(1, 1))
		b.Version = uint8(s.c(1, 7))
		b.SeqProfile = uint8(s.u(3))
		b.SeqLevelIdx0 = uint8(s.u(5))
		b.SeqTier0 = uint8(s.u(1))
		b.HighBitdepth = uint8(s.u(1))
		b.TwelveBit = uint8(s.u(1))
		b.Monochrome = uint8(s.u(1))
		b.ChromaSubsamplingX = uint8(s.u(1))
		b.ChromaSubsamplingY = uint8(s.u(1))
		b.ChromaSamplePosition = uint8(s.u(2))
		s.c(0, 3)
		b.InitialPresentationDelayPresent = uint8(s.u(1))
		b.InitialPresentationDelayMinusOne = uint8(s.u(4))
		b.ConfigOBUs = s.bytes(s.len())
	case *Dac3:
		b.Fscod = uint8(s.u(2))
		b.Bsid = uint8(s.u(5))
		b.Bsmod = uint8(s.u(3))
		b.Acmod = uint8(s.u(3))
		b.LfeOn = uint8(s.u(1))
		b.BitRateCode = uint8(s.u(5))
		s.c(0, 5)
	case *Esds:
		s.full(&b.FullBox, 0)
		for n := s.len(); n > 0; n-- {
			b.Descriptors = append(b.Descriptors, s.descriptor())
		}
	case *WebVTTConfigurationBox:
		b.Config = s.text(s.max)
	case *WebVTTSourceLabelBox:
		b.SourceLabel = s.text(s.max)
	case *WVTTSampleEntry:
		s.sampleEntry(&b.SampleEntry)
	case *CueSourceIDBox:
		b.SourceId = s.u32()
	case *CueTimeBox:
		b.CueCurrentTime = s.text(s.max)
	case *CueIDBox:
		b.CueId = s.text(s.max)
	case *CueSettingsBox:
		b.Settings = s.text(s.max)
	case *CuePayloadBox:
		b.CueText = s.text(s.max)
	case *VTTAdditionalTextBox:
		b.CueAdditionalText = s.text(s.max)
	case *PcmC:
		s.full(&b.FullBox, 0, 1)
		b.FormatFlags = s.u8()
		b.PCMSampleSize = s.u8()
	case *Pssh:
		v := s.full(&b.FullBox, 0, 1)
		copy(b.SystemID[:], s.bytes(16))
		if v != 0 {
			n := s.cnt(32)
			b.KIDCount = uint32(n)
			for i := 0; i < n; i++ {
				k := PsshKID{}
				copy(k.KID[:], s.bytes(16))
				b.KIDs = append(b.KIDs, k)
			}
		}
		n := s.cnt(32)
		b.DataSize = int32(n)
		b.Data = s.bytes(n)
	case *Tenc:
		s.full(&b.FullBox, 0, 1)
		b.Reserved = s.u8()
		b.DefaultCryptByteBlock = uint8(s.u(4))
		b.DefaultSkipByteBlock = uint8(s.u(4))
		b.DefaultIsProtected = s.u8()
		b.DefaultPerSampleIVSize = s.u8()
		copy(b.DefaultKID[:], s.bytes(16))
		if b.DefaultIsProtected == 1 && b.DefaultPerSampleIVSize == 0 {
			n := s.cnt(8)
			b.DefaultConstantIVSize = uint8(n)
			b.DefaultConstantIV = s.bytes(n)
		}
	case *Data:
		b.DataType = s.u32()
		b.DataLang = s.u32()
		b.Data = s.bytes(s.len())
	case *StringData:
		b.Data = s.bytes(s.len())
	case *Item:
		b.Version = s.u8()
		copy(b.Flags[:], s.bytes(3))
		b.ItemName = s.bytes(4)
		b.Data.DataType = s.u32()
		b.Data.DataLang = s.u32()
		b.Data.Data = s.bytes(s.len())
	case *Keys:
		s.full(&b.FullBox, 0)
		n := s.cnt(32)
		b.EntryCount = int32(n)
		for i := 0; i < n; i++ {
			k := s.len()
			b.Entries = append(b.Entries, Key{KeySize: int32(s.c(uint64(8+k), 32)), KeyNamespace: s.bytes(4), KeyValue: s.bytes(k)})
		}
	case *DOps:
		b.Version = s.u8()
		if vChoose("family", 2) == 0 {
			b.OutputChannelCount = s.u8()
			b.PreSkip = s.u16()
			b.InputSampleRate = s.u32()
			b.OutputGain = s.i16()
			s.c(0, 8)
		} else {
			n := s.cnt(8)
			b.OutputChannelCount = uint8(n)
			b.PreSkip = s.u16()
			b.InputSampleRate = s.u32()
			b.OutputGain = s.i16()
			b.ChannelMappingFamily = s.u8()
			vAssume(b.ChannelMappingFamily != 0)
			b.StreamCount = s.u8()
			b.CoupledCount = s.u8()
			b.ChannelMapping = s.bytes(n)
		}
	case *VpcC:
		// the specification fixes version 1
		s.full(&b.FullBox, 1, 0)
		b.Profile = s.u8()
		b.Level = s.u8()
		b.BitDepth = uint8(s.u(4))
		b.ChromaSubsampling = uint8(s.u(3))
		b.VideoFullRangeFlag = uint8(s.u(1))
		b.ColourPrimaries = s.u8()
		b.TransferCharacteristics = s.u8()
		b.MatrixCoefficients = s.u8()
		n := s.cnt(16)
		b.CodecInitializationDataSize = uint16(n)
		b.CodecInitializationData = s.bytes(n)
	case *Dinf, *Edts, *Mdia, *Mfra, *Minf, *Moof, *Moov, *Mvex, *Schi, *Sinf, *Stbl, *Traf, *Trak, *Udta, *Wave, *VTTCueBox, *VTTEmptyCueBox, *Ilst, *IlstMetaContainer:
		// containers have no fields
	default:
		vAssert(false, "every registered type is specified")
	}
	return box
}

func (s *hs) avcSets(n int) []AVCParameterSet {
	var l []AVCParameterSet
	for i := 0; i < n; i++ {
		k := s.len()
		l = append(l, AVCParameterSet{Length: uint16(s.c(uint64(k), 16)), NALUnit: s.bytes(k)})
	}
	return l
}

// a descriptor length in the four-byte form
func (s *hs) varint(v uint64) {
	s.out = append(s.out, 0x80|byte(v>>21)&0x7f, 0x80|byte(v>>14)&0x7f, 0x80|byte(v>>7)&0x7f, byte(v)&0x7f)
}

func (s *hs) descriptor() Descriptor {
	d := Descriptor{}
	switch vChoose("descriptor", 3) {
	case 0:
		d.Tag = int8(s.c(3, 8))
		v := vBits("size", 28)
		s.varint(v)
		d.Size = uint32(v)
		e := &ESDescriptor{}
		e.ESID = s.u16()
		e.StreamDependenceFlag = s.b()
		e.UrlFlag = s.b()
		e.OcrStreamFlag = s.b()
		e.StreamPriority = int8(s.i(5))
		if e.StreamDependenceFlag {
			e.DependsOnESID = s.u16()
		}
		if e.UrlFlag {
			n := s.cnt(8)
			e.URLLength = uint8(n)
			e.URLString = s.bytes(n)
		}
		if e.OcrStreamFlag {
			e.OCRESID = s.u16()
		}
		d.ESDescriptor = e
	case 1:
		d.Tag = int8(s.c(4, 8))
		v := vBits("size", 28)
		s.varint(v)
		d.Size = uint32(v)
		e := &DecoderConfigDescriptor{}
		e.ObjectTypeIndication = s.u8()
		e.StreamType = int8(s.i(6))
		e.UpStream = s.b()
		e.Reserved = s.b()
		e.BufferSizeDB = s.u24()
		e.MaxBitrate = s.u32()
		e.AvgBitrate = s.u32()
		d.DecoderConfigDescriptor = e
	case 2:
		d.Tag = int8(s.i(8))
		vAssume(d.Tag != 3 && d.Tag != 4)
		n := s.len()
		s.varint(uint64(n))
		d.Size = uint32(n)
		d.Data = s.bytes(n)
	}
	return d
}

func (s *hs) sgpd(b *Sgpd) {
	v := s.full(&b.FullBox, 1, 2)
	kinds := []string{"roll", "prol", "alst", "rap ", "tele", "seig"}
	kind := kinds[vChoose("grouping", len(kinds))]
	copy(b.GroupingType[:], kind)
	s.out = append(s.out, kind...)
	n := s.len()
	perEntry := false // entries carry their own lengths
	alstRoll, alstOpts := 0, 0
	if kind == "alst" {
		alstRoll, alstOpts = s.len(), s.len()
	}
	if v == 1 {
		if vChoose("dflt", 2) == 0 {
			perEntry = true
			s.c(0, 32)
		} else if kind == "alst" {
			b.DefaultLength = uint32(s.c(uint64(4+4*alstRoll+4*alstOpts), 32))
		} else {
			b.DefaultLength = s.u32()
			vAssume(b.DefaultLength != 0)
		}
	} else {
		b.DefaultSampleDescriptionIndex = s.u32()
		if kind == "alst" && n > 1 {
			n = 1
		}
	}
	b.EntryCount = uint32(n)
	s.c(uint64(n), 32)
	if kind == "seig" {
		b.Unsupported = s.bytes(s.len())
		return
	}
	for i := 0; i < n; i++ {
		var l uint32
		if perEntry {
			if kind == "alst" {
				l = uint32(s.c(uint64(4+4*alstRoll+4*alstOpts), 32))
			} else {
				l = s.u32()
			}
		}
		switch kind {
		case "roll", "prol":
			if perEntry {
				b.RollDistancesL = append(b.RollDistancesL, RollDistanceWithLength{DescriptionLength: l, RollDistance: s.i16()})
			} else {
				b.RollDistances = append(b.RollDistances, s.i16())
			}
		case "alst":
			e := AlternativeStartupEntry{}
			e.RollCount = uint16(s.c(uint64(alstRoll), 16))
			e.FirstOutputSample = s.u16()
			for j := 0; j < alstRoll; j++ {
				e.SampleOffset = append(e.SampleOffset, s.u32())
			}
			for j := 0; j < alstOpts; j++ {
				e.Opts = append(e.Opts, AlternativeStartupEntryOpt{NumOutputSamples: s.u16(), NumTotalSamples: s.u16()})
			}
			if perEntry {
				b.AlternativeStartupEntriesL = append(b.AlternativeStartupEntriesL, AlternativeStartupEntryL{DescriptionLength: l, AlternativeStartupEntry: e})
			} else {
				b.AlternativeStartupEntries = append(b.AlternativeStartupEntries, e)
			}
		case "rap ":
			e := VisualRandomAccessEntry{NumLeadingSamplesKnown: s.b(), NumLeadingSamples: uint8(s.u(7))}
			if perEntry {
				b.VisualRandomAccessEntriesL = append(b.VisualRandomAccessEntriesL, VisualRandomAccessEntryL{DescriptionLength: l, VisualRandomAccessEntry: e})
			} else {
				b.VisualRandomAccessEntries = append(b.VisualRandomAccessEntries, e)
			}
		case "tele":
			e := TemporalLevelEntry{LevelIndependentlyDecodable: s.b()}
			s.c(0, 7)
			if perEntry {
				b.TemporalLevelEntriesL = append(b.TemporalLevelEntriesL, TemporalLevelEntryL{DescriptionLength: l, TemporalLevelEntry: e})
			} else {
				b.TemporalLevelEntries = append(b.TemporalLevelEntries, e)
			}
		}
	}
}

// hSpecMax is the longest list of the type (quick, thorough).
func hSpecMax(name string, tier string) int {
	q, t := 3, 4
	switch name {
	case "hvcC":
		q, t = 1, 2
	case "avcC":
		q, t = 2, 2
	case "esds":
		q, t = 2, 3
	case "sgpd":
		q, t = 2, 3
	case "tfra", "trun", "elst", "keys":
		q, t = 2, 3
	case "mdat", "free", "skip", "hdlr", "vttC", "payl", "data", "name":
		q, t = 8, 16
	}
	if tier == "thorough" {
		return t
	}
	return q
}

// hSpecLists are the types whose longest list is tried with a length needing two bytes.
var hSpecLists = []string{"co64", "ctts", "elst", "saio", "sbgp", "sidx", "stco", "stsc", "stss", "stsz", "stts", "trun", "tfra",
	"ftyp", "styp", "sdtp", "mdat", "free", "emsg", "data", "keys", "vpcC", "av1C", "saiz", "sgpd", "pssh"}

func hSpecInsts(fn, tier string) []string {
	var out []string
	for _, t := range hAllTypes {
		out = append(out, fn+" type="+hHexName(t.name)+" max="+hItoa(hSpecMax(t.name, tier)))
	}
		for _, n := range hSpecLists {
		out = append(out, fn+" type="+hHexName(n)+" max=0 fix=258 @time=120 @steps=100000000")
	}
	return out
}
