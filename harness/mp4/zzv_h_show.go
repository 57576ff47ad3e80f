package HARNESS

//use types

import (
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// hShown lists, for every structure, the fields that are printed, in order: name:format[condition].
//
// formats: d decimal, x hexadecimal with 0x, b true/false, s quoted text, i language code, u UUID, { structure, l... list,
// + fields of an embedded structure, F flag word, f5/f3 fixed point with 16/8 fraction bits and 5/3 decimals,
// T descriptor tag, D type of a metadata value, V metadata value, P text with leading length, U list of UUIDs.
//
// conditions: =v only in version v, !v in any other version, &m if one of the flags m is set, ^m if none is, ? see hShowOpt.
var hShown = map[string]string{
	"IlstMetaContainer":          "",
	"SampleEntry":                "DataReferenceIndex:d",
	"AudioSampleEntry":           "SampleEntry:+? EntryVersion:d? ChannelCount:d? SampleSize:d? PreDefined:d? SampleRate:f5? QuickTimeData:lx?",
	"FullBox":                    "Version:d Flags:F",
	"Udta3GppString":             "FullBox:+ Language:i Data:s",
	"VisualSampleEntry":          "SampleEntry:+ PreDefined:d PreDefined2:ld Width:d Height:d Horizresolution:d Vertresolution:d FrameCount:d Compressorname:P Depth:d PreDefined3:d",
	"Av1C":                       "SeqProfile:x SeqLevelIdx0:x SeqTier0:x HighBitdepth:x TwelveBit:x Monochrome:x ChromaSubsamplingX:x ChromaSubsamplingY:x ChromaSamplePosition:x InitialPresentationDelayPresent:x InitialPresentationDelayMinusOne:x ConfigOBUs:lx",
	"AVCParameterSet":            "Length:d NALUnit:lx",
	"AVCDecoderConfiguration":    "ConfigurationVersion:x Profile:x ProfileCompatibility:x Level:x LengthSizeMinusOne:x NumOfSequenceParameterSets:x SequenceParameterSets:l{ NumOfPictureParameterSets:x PictureParameterSets:l{ ChromaFormat:x? BitDepthLumaMinus8:x? BitDepthChromaMinus8:x? NumOfSequenceParameterSetExt:x? SequenceParameterSetsExt:l{?",
	"Btrt":                       "BufferSizeDB:d MaxBitrate:d AvgBitrate:d",
	"Co64":                       "FullBox:+ EntryCount:d ChunkOffset:ld",
	"Colr":                       "ColourType:s ColourPrimaries:d? TransferCharacteristics:d? MatrixCoefficients:d? FullRangeFlag:b? Reserved:x? Profile:lx? Unknown:lx?",
	"Cslg":                       "FullBox:+ CompositionToDTSShiftV0:d=0 LeastDecodeToDisplayDeltaV0:d=0 GreatestDecodeToDisplayDeltaV0:d=0 CompositionStartTimeV0:d=0 CompositionEndTimeV0:d=0 CompositionToDTSShiftV1:d!0 LeastDecodeToDisplayDeltaV1:d!0 GreatestDecodeToDisplayDeltaV1:d!0 CompositionStartTimeV1:d!0 CompositionEndTimeV1:d!0",
	"CueTimeBox":                 "CueCurrentTime:s",
	"CttsEntry":                  "SampleCount:d SampleOffsetV0:d=0 SampleOffsetV1:d=1",
	"Ctts":                       "FullBox:+ EntryCount:d Entries:l{",
	"DOps":                       "Version:d OutputChannelCount:x PreSkip:d InputSampleRate:d OutputGain:d ChannelMappingFamily:x StreamCount:x? CoupledCount:x? ChannelMapping:lx?",
	"Dac3":                       "Fscod:x Bsid:x Bsmod:x Acmod:x LfeOn:x BitRateCode:x",
	"Data":                       "DataType:D DataLang:d Data:V",
	"Dinf":                       "",
	"Dref":                       "FullBox:+ EntryCount:d",
	"Edts":                       "",
	"ElstEntry":                  "SegmentDurationV0:d=0 MediaTimeV0:d=0 SegmentDurationV1:d=1 MediaTimeV1:d=1 MediaRateInteger:d",
	"Elst":                       "FullBox:+ EntryCount:d Entries:l{",
	"Emsg":                       "FullBox:+ SchemeIdUri:s Value:s Timescale:d PresentationTimeDelta:d=0 PresentationTime:d=1 EventDuration:d Id:d MessageData:s",
	"ESDescriptor":               "ESID:d StreamDependenceFlag:b UrlFlag:b OcrStreamFlag:b StreamPriority:d DependsOnESID:d? URLLength:x? URLString:s? OCRESID:d?",
	"DecoderConfigDescriptor":    "ObjectTypeIndication:x StreamType:d UpStream:b Reserved:b BufferSizeDB:d MaxBitrate:d AvgBitrate:d",
	"Descriptor":                 "Tag:T Size:d ESDescriptor:+? DecoderConfigDescriptor:+? Data:lx?",
	"Esds":                       "FullBox:+ Descriptors:l{",
	"Fiel":                       "FieldCount:x FieldOrdering:x",
	"Free":                       "Data:lx",
	"Frma":                       "DataFormat:s",
	"CompatibleBrandElem":        "CompatibleBrand:s",
	"Ftyp":                       "MajorBrand:s MinorVersion:d CompatibleBrands:l{",
	"Hdlr":                       "FullBox:+ PreDefined:d HandlerType:s Name:s",
	"HEVCNalu":                   "Length:d NALUnit:lx",
	"HEVCNaluArray":              "Completeness:b Reserved:b NaluType:x NumNalus:d Nalus:l{",
	"HvcC":                       "ConfigurationVersion:x GeneralProfileSpace:x GeneralTierFlag:b GeneralProfileIdc:x GeneralProfileCompatibility:lb GeneralConstraintIndicator:lx GeneralLevelIdc:x MinSpatialSegmentationIdc:d ParallelismType:x ChromaFormatIdc:x BitDepthLumaMinus8:x BitDepthChromaMinus8:x AvgFrameRate:d ConstantFrameRate:x NumTemporalLayers:x TemporalIdNested:x LengthSizeMinusOne:x NumOfNaluArrays:x NaluArrays:l{",
	"CueIDBox":                   "CueId:s",
	"Ilst":                       "",
	"Key":                        "KeySize:d KeyNamespace:s KeyValue:s",
	"Keys":                       "FullBox:+ EntryCount:d Entries:l{",
	"Mdat":                       "Data:lx",
	"Mdhd":                       "FullBox:+ CreationTimeV0:d=0 ModificationTimeV0:d=0 CreationTimeV1:d=1 ModificationTimeV1:d=1 Timescale:d DurationV0:d=0 DurationV1:d=1 Language:i PreDefined:d",
	"Mdia":                       "",
	"StringData":                 "Data:s",
	"Mehd":                       "FullBox:+ FragmentDurationV0:d=0 FragmentDurationV1:d=1",
	"Meta":                       "FullBox:+",
	"Mfhd":                       "FullBox:+ SequenceNumber:d",
	"Mfra":                       "",
	"Mfro":                       "FullBox:+ Size:d",
	"Minf":                       "",
	"Moof":                       "",
	"Moov":                       "",
	"Mvex":                       "",
	"Mvhd":                       "FullBox:+ CreationTimeV0:d=0 ModificationTimeV0:d=0 CreationTimeV1:d=1 ModificationTimeV1:d=1 Timescale:d DurationV0:d=0 DurationV1:d=1 Rate:f5 Volume:d Matrix:lx PreDefined:ld NextTrackID:d",
	"PixelAspectRatioBox":        "HSpacing:d VSpacing:d",
	"CuePayloadBox":              "CueText:s",
	"PcmC":                       "FullBox:+ FormatFlags:x PCMSampleSize:x",
	"PsshKID":                    "KID:u",
	"Pssh":                       "FullBox:+ SystemID:u KIDCount:d!0 KIDs:U!0 DataSize:d Data:lx",
	"Saio":                       "FullBox:+ AuxInfoType:s&1 AuxInfoTypeParameter:x&1 EntryCount:d OffsetV0:ld=0 OffsetV1:ld!0",
	"Saiz":                       "FullBox:+ AuxInfoType:s&1 AuxInfoTypeParameter:x&1 DefaultSampleInfoSize:d SampleCount:d SampleInfoSize:ld?",
	"SbgpEntry":                  "SampleCount:d GroupDescriptionIndex:d",
	"Sbgp":                       "FullBox:+ GroupingType:d GroupingTypeParameter:d=1 EntryCount:d Entries:l{",
	"TextSubtitleSampleEntry":    "SampleEntry:+ ContentEncoding:s MIMEFormat:s",
	"Schi":                       "",
	"Schm":                       "FullBox:+ SchemeType:s SchemeVersion:x SchemeUri:s&1",
	"SdtpSampleElem":             "IsLeading:x SampleDependsOn:x SampleIsDependedOn:x SampleHasRedundancy:x",
	"Sdtp":                       "FullBox:+ Samples:l{",
	"RollDistanceWithLength":     "DescriptionLength:d RollDistance:d",
	"AlternativeStartupEntryOpt": "NumOutputSamples:d NumTotalSamples:d",
	"AlternativeStartupEntry":    "RollCount:d FirstOutputSample:d SampleOffset:ld Opts:l{",
	"AlternativeStartupEntryL":   "DescriptionLength:d AlternativeStartupEntry:+",
	"VisualRandomAccessEntry":    "NumLeadingSamplesKnown:b NumLeadingSamples:x",
	"VisualRandomAccessEntryL":   "DescriptionLength:d VisualRandomAccessEntry:+",
	"TemporalLevelEntry":         "LevelIndependentlyDecodable:b",
	"TemporalLevelEntryL":        "DescriptionLength:d TemporalLevelEntry:+",
	"Sgpd":                       "FullBox:+ GroupingType:s DefaultLength:d=1 DefaultSampleDescriptionIndex:d=2 EntryCount:d RollDistances:ld? RollDistancesL:l{? AlternativeStartupEntries:l{? AlternativeStartupEntriesL:l{? VisualRandomAccessEntries:l{? VisualRandomAccessEntriesL:l{? TemporalLevelEntries:l{? TemporalLevelEntriesL:l{? Unsupported:lx?",
	"SidxReference":              "ReferenceType:b ReferencedSize:d SubsegmentDuration:d StartsWithSAP:b SAPType:d SAPDeltaTime:d",
	"Sidx":                       "FullBox:+ ReferenceID:d Timescale:d EarliestPresentationTimeV0:d=0 FirstOffsetV0:d=0 EarliestPresentationTimeV1:d!0 FirstOffsetV1:d!0 ReferenceCount:d References:l{",
	"Sinf":                       "",
	"Skip":                       "Data:lx",
	"Smhd":                       "FullBox:+ Balance:f3",
	"Stbl":                       "",
	"Stco":                       "FullBox:+ EntryCount:d ChunkOffset:ld",
	"XMLSubtitleSampleEntry":     "SampleEntry:+ Namespace:s SchemaLocation:s AuxiliaryMIMETypes:s",
	"StscEntry":                  "FirstChunk:d SamplesPerChunk:d SampleDescriptionIndex:d",
	"Stsc":                       "FullBox:+ EntryCount:d Entries:l{",
	"Stsd":                       "FullBox:+ EntryCount:d",
	"Stss":                       "FullBox:+ EntryCount:d SampleNumber:ld",
	"Stsz":                       "FullBox:+ SampleSize:d SampleCount:d EntrySize:ld",
	"CueSettingsBox":             "Settings:s",
	"SttsEntry":                  "SampleCount:d SampleDelta:d",
	"Stts":                       "FullBox:+ EntryCount:d Entries:l{",
	"Styp":                       "MajorBrand:s MinorVersion:d CompatibleBrands:l{",
	"Tenc":                       "FullBox:+ Reserved:d DefaultCryptByteBlock:d DefaultSkipByteBlock:d DefaultIsProtected:d DefaultPerSampleIVSize:d DefaultKID:u DefaultConstantIVSize:d? DefaultConstantIV:lx?",
	"Tfdt":                       "FullBox:+ BaseMediaDecodeTimeV0:d=0 BaseMediaDecodeTimeV1:d=1",
	"Tfhd":                       "FullBox:+ TrackID:d BaseDataOffset:d&1 SampleDescriptionIndex:d&2 DefaultSampleDuration:d&8 DefaultSampleSize:d&10 DefaultSampleFlags:x&20",
	"TfraEntry":                  "TimeV0:d=0 MoofOffsetV0:d=0 TimeV1:d=1 MoofOffsetV1:d=1 TrafNumber:d TrunNumber:d SampleNumber:d",
	"Tfra":                       "FullBox:+ TrackID:d LengthSizeOfTrafNum:x LengthSizeOfTrunNum:x LengthSizeOfSampleNum:x NumberOfEntry:d Entries:l{",
	"Tkhd":                       "FullBox:+ CreationTimeV0:d=0 ModificationTimeV0:d=0 CreationTimeV1:d=1 ModificationTimeV1:d=1 TrackID:d DurationV0:d=0 DurationV1:d=1 Layer:d AlternateGroup:d Volume:d Matrix:lx Width:f5 Height:f5",
	"Traf":                       "",
	"Trak":                       "",
	"Trep":                       "FullBox:+ TrackID:d",
	"Trex":                       "FullBox:+ TrackID:d DefaultSampleDescriptionIndex:d DefaultSampleDuration:d DefaultSampleSize:d DefaultSampleFlags:x",
	"TrunEntry":                  "SampleDuration:d&100 SampleSize:d&200 SampleFlags:x&400 SampleCompositionTimeOffsetV0:d=0&800 SampleCompositionTimeOffsetV1:d!0&800",
	"Trun":                       "FullBox:+ SampleCount:d DataOffset:d&1 FirstSampleFlags:x&4 Entries:l{",
	"Udta":                       "",
	"Url":                        "FullBox:+ Location:s^1",
	"Urn":                        "FullBox:+ Name:s^1 Location:s^1",
	"WebVTTSourceLabelBox":       "SourceLabel:s",
	"Vmhd":                       "FullBox:+ Graphicsmode:d Opcolor:ld",
	"VpcC":                       "FullBox:+ Profile:x Level:x BitDepth:x ChromaSubsampling:x VideoFullRangeFlag:x ColourPrimaries:x TransferCharacteristics:x MatrixCoefficients:x CodecInitializationDataSize:d CodecInitializationData:lx",
	"CueSourceIDBox":             "SourceId:d",
	"WebVTTConfigurationBox":     "Config:s",
	"VTTAdditionalTextBox":       "CueAdditionalText:s",
	"VTTCueBox":                  "",
	"VTTEmptyCueBox":             "",
	"Wave":                       "",
	"WVTTSampleEntry":            "SampleEntry:+",
	"Item":                       "Version:d Flags:F ItemName:s Data:{",
}

// hShowOpt tells whether a conditional field is present.
func hShowOpt(parent interface{}, name string, ctx Context) bool {
	switch b := parent.(type) {
	case *AudioSampleEntry:
		wave := ctx.IsQuickTimeCompatible && ctx.UnderWave
		if name == "QuickTimeData" {
			return ctx.IsQuickTimeCompatible && (wave || b.EntryVersion == 1 || b.EntryVersion == 2)
		}
		return !wave
	case *AVCDecoderConfiguration:
		return b.HighProfileFieldsEnabled
	case *Colr:
		nclx := b.ColourType == [4]byte{'n', 'c', 'l', 'x'}
		icc := b.ColourType == [4]byte{'r', 'I', 'C', 'C'} || b.ColourType == [4]byte{'p', 'r', 'o', 'f'}
		switch name {
		case "Profile":
			return icc
		case "Unknown":
			return !icc && !nclx
		}
		return nclx
	case *DOps:
		return b.ChannelMappingFamily != 0
	case *ESDescriptor:
		switch name {
		case "DependsOnESID":
			return b.StreamDependenceFlag
		case "OCRESID":
			return b.OcrStreamFlag
		}
		return b.UrlFlag
	case *Descriptor:
		switch name {
		case "ESDescriptor":
			return b.Tag == 3
		case "DecoderConfigDescriptor":
			return b.Tag == 4
		}
		return b.Tag != 3 && b.Tag != 4
	case *Saiz:
		return b.DefaultSampleInfoSize == 0
	case *Tenc:
		return b.DefaultIsProtected == 1 && b.DefaultPerSampleIVSize == 0
	case *Sgpd:
		own := b.Version == 1 && b.DefaultLength == 0
		kind := "Unsupported"
		switch b.GroupingType {
		case [4]byte{'r', 'o', 'l', 'l'}, [4]byte{'p', 'r', 'o', 'l'}:
			kind = "RollDistances"
		case [4]byte{'a', 'l', 's', 't'}:
			kind = "AlternativeStartupEntries"
		case [4]byte{'r', 'a', 'p', ' '}:
			kind = "VisualRandomAccessEntries"
		case [4]byte{'t', 'e', 'l', 'e'}:
			kind = "TemporalLevelEntries"
		}
		if own && kind != "Unsupported" {
			kind += "L"
		}
		return name == kind
	}
	if hShowUser != nil {
		if r, ok := hShowUser(parent, name); ok {
			return r
		}
	}
	vAssert(false, "unexpected conditional field "+name)
	return false
}

// hShowUser does the same for types of a check of its own.
var hShowUser func(parent interface{}, name string) (present, ok bool)

func hDigits(s string) (n uint64) {
	for i := 0; i < len(s); i++ {
		if s[i] >= 'a' {
			n = n*16 + uint64(s[i]-'a'+10)
		} else {
			n = n*16 + uint64(s[i]-'0')
		}
	}
	return
}

// hShower prints boxes by the table. In lines mode every field stands on a line of its own (without indentation).
type hShower struct {
	box    IImmutableBox
	ctx    Context
	lines  bool
	indent string // in lines mode
	depth  int
	items  bool // numbered items have arbitrary flags
	ascii  int  // from this position on, texts are taken to be ASCII, after three more characters printable ASCII
	out    []byte
}

func (s *hShower) put(t string) { s.out = append(s.out, t...) }

// hEscape replaces what is not graphic by dots and invalid UTF-8 by the replacement character.
func hEscape(t string) string {
	var o []byte
	for len(t) > 0 {
		r, n := utf8.DecodeRuneInString(t)
		switch {
		case r == utf8.RuneError && n == 1:
			o = append(o, 0xef, 0xbf, 0xbd)
		case unicode.IsGraphic(r):
			o = append(o, t[:n]...)
		default:
			o = append(o, '.')
		}
		t = t[n:]
	}
	return string(o)
}

func (s *hShower) text(t string) {
	for i := s.ascii; i < len(t); i++ {
		if i >= s.ascii+3 {
			vAssume(t[i] >= 0x20 && t[i] < 0x7f)
		} else {
			vAssume(t[i] < 0x80)
		}
	}
	s.put(`"` + hEscape(t) + `"`)
}

func hBytesOf(v reflect.Value) []byte {
	var b []byte
	for i := 0; i < v.Len(); i++ {
		b = append(b, byte(v.Index(i).Uint()))
	}
	return b
}

func hHexByte(c byte) string { return string([]byte{hHex[c>>4], hHex[c&15]}) }

func hUUID(b []byte) string {
	o := ""
	for i, c := range b {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			o += "-"
		}
		o += hHexByte(c)
	}
	return o
}

func (s *hShower) structure(v reflect.Value) {
	spec, ok := hShown[v.Type().Name()]
	vAssert(ok, "unknown structure "+v.Type().Name())
	fields := strings.Split(spec, " ")
	first := true
	for _, f := range fields {
		if f == "" {
			continue
		}
		p := strings.IndexByte(f, ':')
		name, rest := f[:p], f[p+1:]
		kind := rest
		if c := strings.IndexAny(rest, "=!&^?"); c >= 0 {
			kind = rest[:c]
			if !s.present(v, name, rest[c:]) {
				continue
			}
		}
		fv := v.FieldByName(name)
		if kind == "+" {
			for fv.Kind() == reflect.Ptr {
				fv = fv.Elem()
			}
			s.embedded(fv, &first)
			continue
		}
		s.name(name, &first)
		s.value(v, fv, kind)
		if s.lines {
			s.put("\n")
		}
	}
}

func (s *hShower) embedded(v reflect.Value, first *bool) {
	n := len(s.out)
	if !*first && !s.lines {
		s.put(" ")
	}
	m := len(s.out)
	s.structure(v)
	if len(s.out) == m {
		s.out = s.out[:n]
	} else {
		*first = false
	}
}

func (s *hShower) in(n int) {
	for n += s.depth; n > 0 && s.lines; n-- {
		s.put(s.indent)
	}
}

func (s *hShower) name(name string, first *bool) {
	if !*first && !s.lines {
		s.put(" ")
	}
	*first = false
	s.in(1)
	s.put(name + "=")
}

func (s *hShower) present(v reflect.Value, name, conds string) bool {
	for conds != "" {
		op := conds[0]
		conds = conds[1:]
		e := strings.IndexAny(conds, "=!&^?")
		if e < 0 {
			e = len(conds)
		}
		n := hDigits(conds[:e])
		conds = conds[e:]
		switch op {
		case '=':
			if uint64(s.box.GetVersion()) != n {
				return false
			}
		case '!':
			if uint64(s.box.GetVersion()) == n {
				return false
			}
		case '&':
			if uint64(s.box.GetFlags())&n == 0 {
				return false
			}
		case '^':
			if uint64(s.box.GetFlags())&n != 0 {
				return false
			}
		case '?':
			if !hShowOpt(v.Addr().Interface(), name, s.ctx) {
				return false
			}
		}
	}
	return true
}

func (s *hShower) value(parent, v reflect.Value, kind string) {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if kind[0] == 'l' {
		s.depth++
		defer func() { s.depth-- }()
		s.put("[")
		for i := 0; i < v.Len(); i++ {
			if i != 0 {
				s.put(", ")
			}
			if i >= 3 && kind == "lx" && v.Index(i).Kind() == reflect.Int32 {
				vAssume(v.Index(i).Int() >= 0)
			}
			s.value(parent, v.Index(i), kind[1:])
		}
		s.put("]")
		return
	}
	switch kind {
	case "d":
		if v.Kind() >= reflect.Int && v.Kind() <= reflect.Int64 {
			s.put(strconv.FormatInt(v.Int(), 10))
		} else {
			s.put(strconv.FormatUint(v.Uint(), 10))
		}
	case "x":
		if v.Kind() >= reflect.Int && v.Kind() <= reflect.Int64 {
			if n := v.Int(); n < 0 {
				s.put("-0x" + strconv.FormatInt(-n, 16))
			} else {
				s.put("0x" + strconv.FormatInt(n, 16))
			}
		} else {
			s.put("0x" + strconv.FormatUint(v.Uint(), 16))
		}
	case "b":
		s.put(strconv.FormatBool(v.Bool()))
	case "s":
		if v.Kind() == reflect.String {
			s.text(v.String())
		} else {
			s.text(string(hBytesOf(v)))
		}
	case "i":
		s.put(`"`)
		for _, c := range hBytesOf(v) {
			c += 0x60
			if c >= 0x7f {
				c = '.'
			}
			s.out = append(s.out, c)
		}
		s.put(`"`)
	case "u":
		s.put(hUUID(hBytesOf(v)))
	case "{":
		s.put("{")
		if s.lines {
			s.put("\n")
		}
		s.depth++
		s.structure(v)
		s.in(0)
		s.depth--
		s.put("}")
	case "F":
		if v.Type() == reflect.TypeOf([3]byte{}) && parent.Type().Name() == "Item" && !s.items {
			// see KF-ITEM
			vAssume(v.Interface().([3]byte) == [3]byte{})
		}
		s.put("0x")
		for _, c := range hBytesOf(v) {
			s.put(hHexByte(c))
		}
	case "f5":
		s.fixed(v, 16, 5)
	case "f3":
		s.fixed(v, 8, 3)
	case "T":
		n := v.Int()
		switch n {
		case 3:
			s.put("ESDescr")
		case 4:
			s.put("DecoderConfigDescr")
		case 5:
			s.put("DecSpecificInfo")
		case 6:
			s.put("SLConfigDescr")
		default:
			s.put(strconv.FormatInt(n, 10))
		}
	case "D":
		n := v.Uint()
		for i, t := range hDataTypes {
			if n == t {
				s.put(hDataTypeNames[i])
				return
			}
		}
		s.put(strconv.FormatUint(n, 10))
	case "V":
		if parent.FieldByName("DataType").Uint() == 1 {
			s.text(string(hBytesOf(v)))
		} else {
			s.value(parent, v, "lx")
		}
	case "P":
		b := hBytesOf(v)
		if n := int(b[0]); n <= 31 {
			s.text(string(b[1 : n+1]))
		} else {
			s.value(parent, v, "lx")
		}
	case "U":
		s.put("[")
		for i := 0; i < v.Len(); i++ {
			if i != 0 {
				s.put(", ")
			}
			s.put(hUUID(hBytesOf(v.Index(i).FieldByName("KID"))))
		}
		s.put("]")
	default:
		vAssert(false, "unknown format "+kind)
	}
}

// well-known types of QuickTime metadata values
var hDataTypes = []uint64{0, 1, 2, 3, 14, 21, 22, 23}
var hDataTypeNames = []string{"BINARY", "UTF8", "UTF16", "MAC_STR", "JPEG", "INT", "FLOAT32", "FLOAT64"}

// fixed prints a number with frac fraction bits: as an integer if it is one, else with dec decimals.
func (s *hShower) fixed(v reflect.Value, frac uint, dec int) {
	var n int64
	if v.Kind() == reflect.Uint32 {
		n = int64(v.Uint())
	} else {
		n = v.Int()
	}
	if n&(1<<frac-1) == 0 {
		s.put(strconv.FormatInt(n>>frac, 10))
		return
	}
	s.put(strconv.FormatFloat(float64(n)/float64(uint64(1)<<frac), 'f', dec, 64))
}

func hElem(box IImmutableBox) reflect.Value { return reflect.ValueOf(box).Elem() }
