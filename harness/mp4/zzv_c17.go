package HARNESS

//use types

func vInst_C17(tier string) []string {
	n := "4"
	if tier == "thorough" {
		n = "6"
	}
	out := []string{"hC17Flags n=" + n}
	for _, f := range []string{"hC17Times", "hC17Lists", "hC17Fixed16", "hC17Fixed8", "hC17Names", "hC17Decoded"} {
		out = append(out, f)
	}
	max := 4
	if tier == "thorough" {
		max = 6
	}
	for i := 0; i <= max; i++ {
		out = append(out, "hC17Brands n="+hItoa(i))
	}
	return out
}

func vDoc_C17() []string {
	return []string{
		"bound: every sequence of up to 4 (6) version and flag operations with arbitrary arguments on a versioned box, every field value and every version of each box with version-dependent accessors (lists of 2 entries), every fixed-point value, brand lists of up to 4 (6) arbitrary brands and every sequence of two operations on them, space-separated lists of up to 5 arbitrary characters without line breaks and non-ASCII characters",
		"assume: what the accessors return for a version the box does not support is left open",
	}
}

func hC17Flags() {
	var box IBox
	switch vChoose("type", 4) {
	case 0:
		box = &Tkhd{}
	case 1:
		box = &Emsg{FullBox: FullBox{Version: vU8("v0"), Flags: [3]byte{vU8("f0"), vU8("f1"), vU8("f2")}}}
	case 2:
		box = &Meta{}
	case 3:
		box = &Trun{}
	}
	version, flags := box.GetVersion(), box.GetFlags()
	if e, ok := box.(*Emsg); ok {
		vAssert(version == e.Version && flags == uint32(e.Flags[0])<<16|uint32(e.Flags[1])<<8|uint32(e.Flags[2]), "the flags are a 24-bit number")
	}
	for n := vParamInt("n"); n > 0; n-- {
		arg := vU32("arg" + hItoa(n))
		switch vChoose("op", 4) {
		case 0:
			box.SetVersion(uint8(arg))
			version = uint8(arg)
		case 1:
			box.SetFlags(arg)
			flags = arg & 0xffffff
		case 2:
			box.AddFlag(arg)
			flags |= arg & 0xffffff
		case 3:
			box.RemoveFlag(arg)
			flags &^= arg
		}
		vAssert(box.GetVersion() == version, "the version is the one set last")
		vAssert(box.GetFlags() == flags, "the flags are the ones set, added and not removed")
		ask := vU32("ask")
		vAssert(box.CheckFlag(ask) == (flags&ask != 0), "checking a flag tells whether it is set")
	}
}

// hVersion is a version that the box supports.
func hVersion(t BoxType) uint8 {
	v := vU8("version")
	vAssume(t.IsSupportedVersion(v, Context{}))
	return v
}

func hC17Times() {
	a32, b32, c32, d32, e32 := vU32("a32"), vU32("b32"), vU32("c32"), vU32("d32"), vU32("e32")
	a64, b64, c64, d64, e64 := vU64("a64"), vU64("b64"), vU64("c64"), vU64("d64"), vU64("e64")
	pick := func(v uint8, s uint32, l uint64) uint64 {
		if v == 0 {
			return uint64(s)
		}
		return l
	}
	picks := func(v uint8, s uint32, l uint64) int64 {
		if v == 0 {
			return int64(int32(s))
		}
		return int64(l)
	}
	switch vChoose("box", 8) {
	case 0:
		v := hVersion(BoxTypeCslg())
		box := &Cslg{FullBox: FullBox{Version: v}, CompositionToDTSShiftV0: int32(a32), LeastDecodeToDisplayDeltaV0: int32(b32), GreatestDecodeToDisplayDeltaV0: int32(c32), CompositionStartTimeV0: int32(d32), CompositionEndTimeV0: int32(e32),
			CompositionToDTSShiftV1: int64(a64), LeastDecodeToDisplayDeltaV1: int64(b64), GreatestDecodeToDisplayDeltaV1: int64(c64), CompositionStartTimeV1: int64(d64), CompositionEndTimeV1: int64(e64)}
		vAssert(box.GetCompositionToDTSShift() == picks(v, a32, a64), "the composition shift is the version's, signed")
		vAssert(box.GetLeastDecodeToDisplayDelta() == picks(v, b32, b64), "the least delta is the version's, signed")
		vAssert(box.GetGreatestDecodeToDisplayDelta() == picks(v, c32, c64), "the greatest delta is the version's, signed")
		vAssert(box.GetCompositionStartTime() == picks(v, d32, d64), "the composition start is the version's, signed")
		vAssert(box.GetCompositionEndTime() == picks(v, e32, e64), "the composition end is the version's, signed")
	case 1:
		v := hVersion(BoxTypeMdhd())
		box := &Mdhd{FullBox: FullBox{Version: v}, CreationTimeV0: a32, ModificationTimeV0: b32, DurationV0: c32, CreationTimeV1: a64, ModificationTimeV1: b64, DurationV1: c64, Timescale: d32}
		vAssert(box.GetCreationTime() == pick(v, a32, a64), "the media creation time is the version's")
		vAssert(box.GetModificationTime() == pick(v, b32, b64), "the media modification time is the version's")
		vAssert(box.GetDuration() == pick(v, c32, c64), "the media duration is the version's")
	case 2:
		v := hVersion(BoxTypeMehd())
		box := &Mehd{FullBox: FullBox{Version: v}, FragmentDurationV0: a32, FragmentDurationV1: a64}
		vAssert(box.GetFragmentDuration() == pick(v, a32, a64), "the fragment duration is the version's")
	case 3:
		v := hVersion(BoxTypeMvhd())
		box := &Mvhd{FullBox: FullBox{Version: v}, CreationTimeV0: a32, ModificationTimeV0: b32, DurationV0: c32, CreationTimeV1: a64, ModificationTimeV1: b64, DurationV1: c64, Timescale: d32}
		vAssert(box.GetCreationTime() == pick(v, a32, a64), "the movie creation time is the version's")
		vAssert(box.GetModificationTime() == pick(v, b32, b64), "the movie modification time is the version's")
		vAssert(box.GetDuration() == pick(v, c32, c64), "the movie duration is the version's")
	case 4:
		v := hVersion(BoxTypeTkhd())
		box := &Tkhd{FullBox: FullBox{Version: v}, CreationTimeV0: a32, ModificationTimeV0: b32, DurationV0: c32, CreationTimeV1: a64, ModificationTimeV1: b64, DurationV1: c64, TrackID: d32}
		vAssert(box.GetCreationTime() == pick(v, a32, a64), "the track creation time is the version's")
		vAssert(box.GetModificationTime() == pick(v, b32, b64), "the track modification time is the version's")
		vAssert(box.GetDuration() == pick(v, c32, c64), "the track duration is the version's")
	case 5:
		v := hVersion(BoxTypeTfdt())
		box := &Tfdt{FullBox: FullBox{Version: v}, BaseMediaDecodeTimeV0: a32, BaseMediaDecodeTimeV1: a64}
		vAssert(box.GetBaseMediaDecodeTime() == pick(v, a32, a64), "the base decode time is the version's")
	case 6:
		v := hVersion(BoxTypeSidx())
		box := &Sidx{FullBox: FullBox{Version: v}, EarliestPresentationTimeV0: a32, FirstOffsetV0: b32, EarliestPresentationTimeV1: a64, FirstOffsetV1: b64}
		vAssert(box.GetEarliestPresentationTime() == pick(v, a32, a64), "the earliest presentation time is the version's")
		vAssert(box.GetFirstOffset() == pick(v, b32, b64), "the first offset is the version's")
	case 7:
		v := hVersion(BoxTypeSaio())
		box := &Saio{FullBox: FullBox{Version: v}, EntryCount: 2, OffsetV0: []uint32{a32, b32}, OffsetV1: []uint64{a64, b64}}
		vAssert(box.GetOffset(0) == pick(v, a32, a64) && box.GetOffset(1) == pick(v, b32, b64), "the auxiliary offset is the version's")
	}
}

func hC17Lists() {
	a32, b32 := [2]uint32{vU32("a0"), vU32("a1")}, [2]uint32{vU32("b0"), vU32("b1")}
	a64, b64 := [2]uint64{vU64("c0"), vU64("c1")}, [2]uint64{vU64("d0"), vU64("d1")}
	i := vChoose("index", 2)
	switch vChoose("box", 4) {
	case 0:
		v := hVersion(BoxTypeCtts())
		box := &Ctts{FullBox: FullBox{Version: v}, EntryCount: 2}
		for k := 0; k < 2; k++ {
			box.Entries = append(box.Entries, CttsEntry{SampleCount: vU32("n"), SampleOffsetV0: a32[k], SampleOffsetV1: int32(b32[k])})
		}
		want := int64(a32[i])
		if v != 0 {
			want = int64(int32(b32[i]))
		}
		vAssert(box.GetSampleOffset(i) == want, "the sample offset is the version's: unsigned in version 0, signed in version 1")
	case 1:
		v := hVersion(BoxTypeElst())
		box := &Elst{FullBox: FullBox{Version: v}, EntryCount: 2}
		for k := 0; k < 2; k++ {
			box.Entries = append(box.Entries, ElstEntry{SegmentDurationV0: a32[k], MediaTimeV0: int32(b32[k]), SegmentDurationV1: a64[k], MediaTimeV1: int64(b64[k])})
		}
		dur, at := uint64(a32[i]), int64(int32(b32[i]))
		if v != 0 {
			dur, at = a64[i], int64(b64[i])
		}
		vAssert(box.GetSegmentDuration(i) == dur, "the segment duration is the version's")
		vAssert(box.GetMediaTime(i) == at, "the media time is the version's, signed")
	case 2:
		v := hVersion(BoxTypeTfra())
		box := &Tfra{FullBox: FullBox{Version: v}, NumberOfEntry: 2}
		for k := 0; k < 2; k++ {
			box.Entries = append(box.Entries, TfraEntry{TimeV0: a32[k], MoofOffsetV0: b32[k], TimeV1: a64[k], MoofOffsetV1: b64[k]})
		}
		at, off := uint64(a32[i]), uint64(b32[i])
		if v != 0 {
			at, off = a64[i], b64[i]
		}
		vAssert(box.GetTime(i) == at && box.GetMoofOffset(i) == off, "the random-access time and offset are the version's")
	case 3:
		v := hVersion(BoxTypeTrun())
		box := &Trun{FullBox: FullBox{Version: v}, SampleCount: 2}
		for k := 0; k < 2; k++ {
			box.Entries = append(box.Entries, TrunEntry{SampleCompositionTimeOffsetV0: a32[k], SampleCompositionTimeOffsetV1: int32(b32[k])})
		}
		want := int64(a32[i])
		if v != 0 {
			want = int64(int32(b32[i]))
		}
		vAssert(box.GetSampleCompositionTimeOffset(i) == want, "the composition offset is the version's: unsigned in version 0, signed in version 1")
	}
}

func hC17Fixed16() {
	v := vU32("fixed")
	var f float64
	var whole int32
	switch vChoose("box", 4) {
	case 0:
		box := &Mvhd{Rate: int32(v)}
		f, whole = box.GetRate(), int32(box.GetRateInt())
		vAssert(whole == int32(v)>>16, "the integer part of a signed fixed-point number")
		vAssert(float64(whole)+float64(v&0xffff)/65536 == f, "a fixed-point number is its integer part and its fraction")
		return
	case 1:
		box := &AudioSampleEntry{SampleRate: v}
		f, whole = box.GetSampleRate(), int32(box.GetSampleRateInt())
	case 2:
		box := &Tkhd{Width: v, Height: vU32("other")}
		f, whole = box.GetWidth(), int32(box.GetWidthInt())
	case 3:
		box := &Tkhd{Height: v, Width: vU32("other")}
		f, whole = box.GetHeight(), int32(box.GetHeightInt())
	}
	vAssert(uint32(whole) == v>>16, "the integer part of a fixed-point number")
	vAssert(float64(whole)+float64(v&0xffff)/65536 == f, "a fixed-point number is its integer part and its fraction")
}

func hC17Fixed8() {
	v := vU16("fixed")
	box := &Smhd{Balance: int16(v)}
	whole := box.GetBalanceInt()
	vAssert(int16(whole) == int16(v)>>8, "the integer part of a signed fixed-point number")
	vAssert(float64(whole)+float64(v&0xff)/256 == float64(box.GetBalance()), "a fixed-point number is its integer part and its fraction")
}

// space-separated lists
func hC17Names() {
	n := vChoose("n", 6)
	b := vBytes("list", n)
	for i := range b {
		vAssume(vOr(b[i] == ' ', vAnd(b[i] > ' ', b[i] < 127)))
	}
	box := &XMLSubtitleSampleEntry{}
	var got []string
	switch vChoose("field", 3) {
	case 0:
		box.Namespace = string(b)
		got = box.GetNamespaceList()
	case 1:
		box.SchemaLocation = string(b)
		got = box.GetSchemaLocationList()
	case 2:
		box.AuxiliaryMIMETypes = string(b)
		got = box.GetAuxiliaryMIMETypesList()
	}
	k, start := 0, -1
	for i := 0; i <= n; i++ {
		if i < n && b[i] != ' ' {
			if start < 0 {
				start = i
			}
			continue
		}
		if start >= 0 {
			vAssert(k < len(got) && got[k] == string(b[start:i]), "a list is split at its spaces")
			k++
			start = -1
		}
	}
	vAssert(k == len(got), "a list is split at its spaces")
}

// the accessor of a decoded box
func hC17Decoded() {
	p := vBytes("p", 20)
	p[0] = byte(vChoose("version", 2))
	var u hBytesReader
	u.d = p
	box := &Tfdt{}
	n, err := Unmarshal(&u, 20, box, Context{})
	vAssert(err == nil, "the box is decoded")
	var want uint64
	for i := 4; i < int(n); i++ {
		want = want<<8 | uint64(p[i])
	}
	vAssert(box.GetBaseMediaDecodeTime() == want, "the accessor gives the number in the file")
	vAssert(n == 8+4*uint64(p[0]), "the length goes with the version")
}

func hC17Brands() {
	box := &Ftyp{}
	n := vParamInt("n")
	for i := 0; i < n; i++ {
		box.CompatibleBrands = append(box.CompatibleBrands, CompatibleBrandElem{hBrand("b" + hItoa(i))})
	}
	old := append([]CompatibleBrandElem{}, box.CompatibleBrands...)
	has := func(l []CompatibleBrandElem, b [4]byte) bool {
		r := false
		for _, e := range l {
			r = vOr(r, hSame(e.CompatibleBrand, b))
		}
		return r
	}
	ask := hBrand("ask")
	vAssert(box.HasCompatibleBrand(ask) == has(old, ask), "asking for a brand tells whether it is in the list")
	for k := 0; k < 2; k++ {
		b := hBrand("arg" + hItoa(k))
		before := append([]CompatibleBrandElem{}, box.CompatibleBrands...)
		if vChoose("op", 2) == 0 {
			was := has(before, b)
			box.AddCompatibleBrand(b)
			vAssert(box.HasCompatibleBrand(b), "a brand added is in the list")
			vAssert((len(box.CompatibleBrands) == len(before)+1) == !was, "a brand is added once")
			vAssert(vOr(len(box.CompatibleBrands) == len(before), len(box.CompatibleBrands) == len(before)+1), "one brand is added")
			vAssert(has(box.CompatibleBrands, ask) == vOr(has(before, ask), hSame(ask, b)), "adding a brand leaves the others alone")
		} else {
			box.RemoveCompatibleBrand(b)
			vAssert(!box.HasCompatibleBrand(b), "a brand removed is not in the list")
			vAssert(has(box.CompatibleBrands, ask) == vAnd(has(before, ask), vNot(hSame(ask, b))), "removing a brand leaves the others alone")
			left := 0
			for _, e := range before {
				if !hSame(e.CompatibleBrand, b) {
					left++
				}
			}
			vAssert(len(box.CompatibleBrands) == left, "removing a brand removes nothing else")
		}
	}
}

func hBrand(name string) (b [4]byte) {
	copy(b[:], vBytes(name, 4))
	return
}

func hSame(a, b [4]byte) bool {
	return vAnd(vAnd(a[0] == b[0], a[1] == b[1]), vAnd(a[2] == b[2], a[3] == b[3]))
}

// hBytesReader reads from memory.
type hBytesReader struct {
	d []byte
	p int64
}

func (r *hBytesReader) Read(b []byte) (int, error) {
	n := copy(b, r.d[r.p:])
	r.p += int64(n)
	return n, nil
}

func (r *hBytesReader) Seek(off int64, whence int) (int64, error) {
	if whence == 1 {
		off += r.p
	} else if whence == 2 {
		off += int64(len(r.d))
	}
	r.p = off
	return off, nil
}
