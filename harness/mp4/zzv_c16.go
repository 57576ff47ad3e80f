package HARNESS

func vInst_C16(tier string) []string {
	max := 11
	if tier == "thorough" {
		max = 14
	}
	var out []string
	for n := 0; n <= max; n++ {
		out = append(out, "hC16Config len="+hDec(n))
	}
	return append(out, "hC16List max=3 @cover=none,plain,missing,config")
}

func vDoc_C16() []string {
	return []string{
		"bound: every decoder-specific configuration of up to 11 bytes (14 in the thorough tier), which covers every field the detection looks at, and every list of up to 3 descriptors of arbitrary kinds and object types",
		"assume: the layout the existing tests lay down: the parametric-stereo pattern follows the extension's frequency directly, and is looked for when at least 12 bits of the configuration remain; the synchronisation pattern of the extension follows the channel configuration directly (ISO/IEC 14496-3 has three more bits in between)",
	}
}

func hDec(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return hDec(n/10) + string(rune('0'+n%10))
}

// hBitR reads bits of d.
type hBitR struct {
	d   []byte
	pos int
	bad bool
}

func (r *hBitR) get(n int) (v uint32) {
	for ; n > 0; n-- {
		if r.pos >= len(r.d)*8 {
			r.bad = true
			return
		}
		v = v<<1 | uint32(r.d[r.pos/8]>>uint(7-r.pos%8)&1)
		r.pos++
	}
	return
}

func (r *hBitR) objectType() uint32 {
	t := r.get(5)
	if t == 31 {
		t = 32 + r.get(6)
	}
	return t
}

// hProfile is the audio object type of a configuration.
func hProfile(d []byte) (aot uint32, ok bool) {
	r := &hBitR{d: d}
	aot = r.objectType()
	if r.get(4) == 15 {
		r.get(24)
	}
	if r.bad {
		return 0, false
	}
	if aot != 2 || len(d)*8-r.pos < 20 {
		return aot, true
	}
	r.get(4)
	if r.get(11) != 0x2b7 {
		return aot, true
	}
	ext := r.objectType()
	if r.bad {
		return 0, false
	}
	if ext != 5 && ext != 22 {
		return aot, true
	}
	sbr := r.get(1)
	if r.bad {
		return 0, false
	}
	if sbr == 0 {
		return aot, true
	}
	if ext == 22 {
		return 5, true
	}
	if r.get(4) == 15 {
		r.get(24)
	}
	if r.bad {
		return 0, false
	}
	if len(d)*8-r.pos < 12 {
		return 5, true
	}
	sync := r.get(11)
	if r.bad {
		return 0, false
	}
	if sync != 0x548 {
		return 5, true
	}
	ps := r.get(1)
	if r.bad {
		return 0, false
	}
	if ps != 0 {
		return 29, true
	}
	return 5, true
}

func hC16Config() {
	d := vBytes("d", vParamInt("len"))
	keep := vClone(d).([]byte)
	oti, aot, err := detectAACProfile(&Esds{Descriptors: []Descriptor{
		{Tag: DecoderConfigDescrTag, DecoderConfigDescriptor: &DecoderConfigDescriptor{ObjectTypeIndication: 0x40}},
		{Tag: DecSpecificInfoTag, Data: d},
	}})
	vAssert(vBytesEq(d, keep), "the configuration is left alone")
	want, ok := hProfile(d)
	if !ok {
		vAssert(err != nil, "a configuration cut short is an error")
		return
	}
	vAssert(err == nil, "a complete configuration is accepted")
	vObsU("aot", uint64(aot))
	vAssert(oti == 0x40, "the object type indication is reported")
	vAssert(uint32(aot) == want, "the audio object type is the one configured")
}

func hC16List() {
	n := vChoose("descriptors", vParamInt("max")+1)
	e := &Esds{}
	config, info := -1, -1
	var otis []uint8
	for i := 0; i < n; i++ {
		var d Descriptor
		oti := uint8(0)
		switch vChoose("kind", 5) {
		case 0:
			d = Descriptor{Tag: ESDescrTag, ESDescriptor: &ESDescriptor{ESID: vU16("id")}}
		case 1:
			oti = vU8("oti")
			d = Descriptor{Tag: DecoderConfigDescrTag, DecoderConfigDescriptor: &DecoderConfigDescriptor{ObjectTypeIndication: oti}}
			if config < 0 {
				config = i
			}
		case 2:
			d = Descriptor{Tag: DecSpecificInfoTag, Data: []byte{8 * byte(1+i%3), 0}}
			if info < 0 {
				info = i
			}
		case 3:
			d = Descriptor{Tag: SLConfigDescrTag, Data: vBytes("sl", 1)}
		case 4:
			d = Descriptor{Tag: int8(vU8("tag")), Data: []byte{0xff}}
			vAssume(d.Tag != DecoderConfigDescrTag && d.Tag != DecSpecificInfoTag)
		}
		otis = append(otis, oti)
		e.Descriptors = append(e.Descriptors, d)
	}
	keep := vClone(e)
	oti, aot, err := detectAACProfile(e)
	vAssert(vEqual(e, keep), "the descriptors are left alone")
	if config < 0 {
		vAssert(err == nil && oti == 0 && aot == 0, "nothing is reported without a decoder configuration")
		vCover("none")
		return
	}
	if otis[config] != 0x40 {
		vAssert(err == nil && oti == otis[config] && aot == 0, "another object type indication is reported alone")
		vCover("plain")
		return
	}
	if info < 0 {
		vAssert(err != nil, "a missing configuration is an error")
		vCover("missing")
		return
	}
	vAssert(err == nil && oti == 0x40 && int(aot) == 1+info%3, "the first configuration counts")
	vCover("config")
}
