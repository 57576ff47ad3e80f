package HARNESS

//use types
//use spec

import "bytes"

func vInst_C03(tier string) []string {
	out := hSpecInsts("hC03", tier)
	for i, l := range out {
		if hC03is(l, "hvcC") {
			out[i] = l + " hvcc=any"
		}
	}
	for _, n := range hShortTypes {
		for i := 0; i < hShortLists(n); i++ {
			out = append(out, "hC03Short type="+hHexName(n)+" max=2 list="+hItoa(i))
		}
	}
	for _, n := range []string{"co64", "ctts", "elst", "saio", "sbgp", "stco", "stsc", "stss", "stsz", "stts", "trun", "tfra", "saiz", "pssh", "keys", "sgpd", "sidx", "vpcC", "tenc", "dOps"} {
		out = append(out, "hC03Count type="+hHexName(n)+" max=1")
	}
	out = append(out, "hC03Unlimited @known=KF-COUNT")
	return out
}

func hC03is(l, name string) bool {
	p := "hC03 type=" + hHexName(name) + " "
	return len(l) >= len(p) && l[:len(p)] == p
}

func vDoc_C03() []string {
	return []string{
		"bound: every registered box type, every supported version, all flag words and field values in range; lists of every length up to 2-4 entries and of 258 entries; fixed fields at their fixed values",
		"bound: short lists: every list of every type one element short, every outer list with an arbitrary count above its length",
		"outside: a 32-bit count of 0xffffffff, which the library takes for an unlimited list (known finding KF-COUNT)",
	}
}

func hC03() {
	name := hUnhex(vParam("type"))
	ctx := hSpecCtx(name)
	s := &hs{max: vParamInt("max"), fix: vParamInt("fix")}
	box := hSpecBox(name, ctx, s)
	before := vClone(box)
	buf := &bytes.Buffer{}
	n, err := Marshal(buf, box, ctx)
	vAssert(err == nil, "the box can be encoded")
	vCover("encoded")
	if vParam("fix") == "" {
		vObsB("out", buf.Bytes())
	}
	vAssert(n == uint64(buf.Len()), "the reported length is the number of bytes written")
	box2, n2, err := UnmarshalAny(bytes.NewReader(buf.Bytes()), StrToBoxType(name), n, ctx)
	vAssert(err == nil, "the encoded box can be decoded")
	vAssert(n2 == n, "decoding consumes the encoded bytes")
	vAssert(vEqual(before, box2), "decoding the encoded box gives equal fields")
	vAssert(box2.GetType() == StrToBoxType(name), "the decoded box has the type")
}

var hShortTypes = []string{"co64", "ctts", "elst", "saio", "saiz", "sbgp", "sidx", "stco", "stsc", "stss", "stsz", "stts", "tfra", "trun", "pssh",
	"tenc", "keys", "dOps", "vpcC", "avcC", "hvcC", "esds", "sgpd", "mp4a"}

func hShortLists(name string) int {
	switch name {
	case "avcC":
		return 6
	case "hvcC":
		return 3
	case "pssh", "keys", "esds", "saio":
		return 2
	case "sgpd":
		return 9
	}
	return 1
}

// hCut shortens the k-th list of the box by one element; false if it has none.
func hCut(box IBox, k int) bool {
	switch b := box.(type) {
	case *Co64:
		if n := len(b.ChunkOffset); n > 0 {
			b.ChunkOffset = b.ChunkOffset[:n-1]
			return true
		}
	case *Ctts:
		if n := len(b.Entries); n > 0 {
			b.Entries = b.Entries[:n-1]
			return true
		}
	case *Elst:
		if n := len(b.Entries); n > 0 {
			b.Entries = b.Entries[:n-1]
			return true
		}
	case *Saio:
		if n := len(b.OffsetV0); n > 0 && k == 0 {
			b.OffsetV0 = b.OffsetV0[:n-1]
			return true
		}
		if n := len(b.OffsetV1); n > 0 && k == 1 {
			b.OffsetV1 = b.OffsetV1[:n-1]
			return true
		}
	case *Saiz:
		if n := len(b.SampleInfoSize); n > 0 {
			b.SampleInfoSize = b.SampleInfoSize[:n-1]
			return true
		}
	case *Sbgp:
		if n := len(b.Entries); n > 0 {
			b.Entries = b.Entries[:n-1]
			return true
		}
	case *Sidx:
		if n := len(b.References); n > 0 {
			b.References = b.References[:n-1]
			return true
		}
	case *Stco:
		if n := len(b.ChunkOffset); n > 0 {
			b.ChunkOffset = b.ChunkOffset[:n-1]
			return true
		}
	case *Stsc:
		if n := len(b.Entries); n > 0 {
			b.Entries = b.Entries[:n-1]
			return true
		}
	case *Stss:
		if n := len(b.SampleNumber); n > 0 {
			b.SampleNumber = b.SampleNumber[:n-1]
			return true
		}
	case *Stsz:
		if n := len(b.EntrySize); n > 0 {
			b.EntrySize = b.EntrySize[:n-1]
			return true
		}
	case *Stts:
		if n := len(b.Entries); n > 0 {
			b.Entries = b.Entries[:n-1]
			return true
		}
	case *Tfra:
		if n := len(b.Entries); n > 0 {
			b.Entries = b.Entries[:n-1]
			return true
		}
	case *Trun:
		if n := len(b.Entries); n > 0 {
			b.Entries = b.Entries[:n-1]
			return true
		}
	case *Pssh:
		if n := len(b.KIDs); n > 0 && k == 0 {
			b.KIDs = b.KIDs[:n-1]
			return true
		}
		if n := len(b.Data); n > 0 && k == 1 {
			b.Data = b.Data[:n-1]
			return true
		}
	case *Tenc:
		if n := len(b.DefaultConstantIV); n > 0 {
			b.DefaultConstantIV = b.DefaultConstantIV[:n-1]
			return true
		}
	case *Keys:
		n := len(b.Entries)
		if n == 0 {
			return false
		}
		if k == 0 {
			b.Entries = b.Entries[:n-1]
			return true
		}
		e := &b.Entries[vChoose("which", n)]
		if m := len(e.KeyValue); m > 0 {
			e.KeyValue = e.KeyValue[:m-1]
			return true
		}
	case *DOps:
		if n := len(b.ChannelMapping); n > 0 {
			b.ChannelMapping = b.ChannelMapping[:n-1]
			return true
		}
	case *VpcC:
		if n := len(b.CodecInitializationData); n > 0 {
			b.CodecInitializationData = b.CodecInitializationData[:n-1]
			return true
		}
	case *AVCDecoderConfiguration:
		l := []*[]AVCParameterSet{&b.SequenceParameterSets, &b.PictureParameterSets, &b.SequenceParameterSetsExt}[k/2]
		n := len(*l)
		if n == 0 {
			return false
		}
		if k%2 == 0 {
			*l = (*l)[:n-1]
			return true
		}
		e := &(*l)[vChoose("which", n)]
		if m := len(e.NALUnit); m > 0 {
			e.NALUnit = e.NALUnit[:m-1]
			return true
		}
	case *HvcC:
		n := len(b.NaluArrays)
		if n == 0 {
			return false
		}
		if k == 0 {
			b.NaluArrays = b.NaluArrays[:n-1]
			return true
		}
		a := &b.NaluArrays[0]
		m := len(a.Nalus)
		if m == 0 {
			return false
		}
		if k == 1 {
			a.Nalus = a.Nalus[:m-1]
			return true
		}
		if j := len(a.Nalus[0].NALUnit); j > 0 {
			a.Nalus[0].NALUnit = a.Nalus[0].NALUnit[:j-1]
			return true
		}
	case *Esds:
		n := len(b.Descriptors)
		if n == 0 {
			return false
		}
		d := &b.Descriptors[vChoose("which", n)]
		if m := len(d.Data); m > 0 && k == 0 {
			d.Data = d.Data[:m-1]
			return true
		}
		if k == 1 && d.ESDescriptor != nil {
			if m := len(d.ESDescriptor.URLString); m > 0 {
				d.ESDescriptor.URLString = d.ESDescriptor.URLString[:m-1]
				return true
			}
		}
	case *Sgpd:
		switch k {
		case 0:
			if n := len(b.RollDistances); n > 0 {
				b.RollDistances = b.RollDistances[:n-1]
				return true
			}
		case 1:
			if n := len(b.RollDistancesL); n > 0 {
				b.RollDistancesL = b.RollDistancesL[:n-1]
				return true
			}
		case 2:
			if n := len(b.AlternativeStartupEntries); n > 0 {
				b.AlternativeStartupEntries = b.AlternativeStartupEntries[:n-1]
				return true
			}
		case 3:
			if n := len(b.AlternativeStartupEntriesL); n > 0 {
				b.AlternativeStartupEntriesL = b.AlternativeStartupEntriesL[:n-1]
				return true
			}
		case 4:
			if n := len(b.VisualRandomAccessEntries); n > 0 {
				b.VisualRandomAccessEntries = b.VisualRandomAccessEntries[:n-1]
				return true
			}
		case 5:
			if n := len(b.VisualRandomAccessEntriesL); n > 0 {
				b.VisualRandomAccessEntriesL = b.VisualRandomAccessEntriesL[:n-1]
				return true
			}
		case 6:
			if n := len(b.TemporalLevelEntries); n > 0 {
				b.TemporalLevelEntries = b.TemporalLevelEntries[:n-1]
				return true
			}
		case 7:
			if n := len(b.TemporalLevelEntriesL); n > 0 {
				b.TemporalLevelEntriesL = b.TemporalLevelEntriesL[:n-1]
				return true
			}
		case 8:
			if n := len(b.AlternativeStartupEntries); n > 0 {
				e := &b.AlternativeStartupEntries[n-1]
				if m := len(e.SampleOffset); m > 0 {
					e.SampleOffset = e.SampleOffset[:m-1]
					return true
				}
			}
		}
	case *AudioSampleEntry:
		if n := len(b.QuickTimeData); n >= 16 {
			b.QuickTimeData = b.QuickTimeData[:n-1]
			return true
		}
	}
	return false
}

// a list one element shorter than its count
func hC03Short() {
	name := hUnhex(vParam("type"))
	ctx := hSpecCtx(name)
	box := hSpecBox(name, ctx, &hs{max: vParamInt("max"), min: 0})
	if !hCut(box, vParamInt("list")) {
		vStopPath()
	}
	vCover("shortened")
	_, err := Marshal(&bytes.Buffer{}, box, ctx)
	vAssert(err != nil, "a list shorter than its declared count is rejected")
}

// an arbitrary count above the number of elements
func hC03Count() {
	name := hUnhex(vParam("type"))
	ctx := hSpecCtx(name)
	box := hSpecBox(name, ctx, &hs{max: vParamInt("max")})
	over := func(n int) uint32 {
		v := vU32("count")
		vAssume(v > uint32(n) && v != 0xffffffff)
		return v
	}
	switch b := box.(type) {
	case *Co64:
		b.EntryCount = over(len(b.ChunkOffset))
	case *Ctts:
		b.EntryCount = over(len(b.Entries))
	case *Elst:
		b.EntryCount = over(len(b.Entries))
	case *Saio:
		b.EntryCount = over(len(b.OffsetV0) + len(b.OffsetV1))
	case *Sbgp:
		b.EntryCount = over(len(b.Entries))
	case *Stco:
		b.EntryCount = over(len(b.ChunkOffset))
	case *Stsc:
		b.EntryCount = over(len(b.Entries))
	case *Stss:
		b.EntryCount = over(len(b.SampleNumber))
	case *Stsz:
		vAssume(b.SampleSize == 0)
		b.SampleCount = over(len(b.EntrySize))
	case *Stts:
		b.EntryCount = over(len(b.Entries))
	case *Trun:
		b.SampleCount = over(len(b.Entries))
	case *Tfra:
		b.NumberOfEntry = over(len(b.Entries))
	case *Saiz:
		vAssume(b.DefaultSampleInfoSize == 0)
		b.SampleCount = over(len(b.SampleInfoSize))
	case *Pssh:
		b.DataSize = int32(over(len(b.Data)))
	case *Keys:
		b.EntryCount = int32(over(len(b.Entries)))
	case *Sgpd:
		vAssume(b.GroupingType != [4]byte{'s', 'e', 'i', 'g'})
		b.EntryCount = over(int(b.EntryCount))
	case *Sidx:
		v := vU16("count")
		vAssume(int(v) > len(b.References))
		b.ReferenceCount = v
	case *VpcC:
		v := vU16("count")
		vAssume(int(v) > len(b.CodecInitializationData))
		b.CodecInitializationDataSize = v
	case *Tenc:
		b.DefaultIsProtected, b.DefaultPerSampleIVSize = 1, 0
		v := vU8("count")
		vAssume(int(v) > len(b.DefaultConstantIV))
		b.DefaultConstantIVSize = v
	case *DOps:
		vAssume(b.ChannelMappingFamily != 0)
		v := vU8("count")
		vAssume(int(v) > len(b.ChannelMapping))
		b.OutputChannelCount = v
	default:
		vAssert(false, "every counted type is handled")
	}
	vCover("count")
	_, err := Marshal(&bytes.Buffer{}, box, ctx)
	vAssert(err != nil, "a declared count above the number of elements is rejected")
}

// the listed exception
func hC03Unlimited() {
	_, err := Marshal(&bytes.Buffer{}, &Stss{EntryCount: 0xffffffff, SampleNumber: []uint32{1, 2}}, Context{})
	vAssert(err != nil, "a declared count of 2^32-1 is rejected")
}
