package HARNESS

//use types

import (
	"io"
	"reflect"
)

// hRegs are the registrations of the library: type, data type, supported versions (none: all) and where it applies
// (i: directly beneath the item list, u: beneath user data, m: beneath an item, f: beneath a free-form item). A later
// one takes precedence.
var hRegs = []struct{ typ, name, vers, cond string }{
	{"----", "IlstMetaContainer", "", "i"}, {"Opus", "AudioSampleEntry", "", ""}, {"aART", "IlstMetaContainer", "", "i"}, {"ac-3", "AudioSampleEntry", "", ""},
	{"akID", "IlstMetaContainer", "", "i"}, {"apID", "IlstMetaContainer", "", "i"}, {"atID", "IlstMetaContainer", "", "i"}, {"auth", "Udta3GppString", "0", "u"},
	{"av01", "VisualSampleEntry", "", ""}, {"av1C", "Av1C", "", ""}, {"avc1", "VisualSampleEntry", "", ""}, {"avcC", "AVCDecoderConfiguration", "", ""},
	{"btrt", "Btrt", "0", ""}, {"cmID", "IlstMetaContainer", "", "i"}, {"cnID", "IlstMetaContainer", "", "i"}, {"co64", "Co64", "0", ""},
	{"colr", "Colr", "", ""}, {"covr", "IlstMetaContainer", "", "i"}, {"cpil", "IlstMetaContainer", "", "i"}, {"cprt", "Udta3GppString", "0", "u"},
	{"cprt", "IlstMetaContainer", "", "i"}, {"cslg", "Cslg", "01", ""}, {"ctim", "CueTimeBox", "", ""}, {"ctts", "Ctts", "01", ""},
	{"dOps", "DOps", "", ""}, {"dac3", "Dac3", "", ""}, {"data", "Data", "", "m"}, {"desc", "IlstMetaContainer", "", "i"},
	{"dinf", "Dinf", "", ""}, {"disk", "IlstMetaContainer", "", "i"}, {"dref", "Dref", "0", ""}, {"dscp", "Udta3GppString", "0", "u"},
	{"edts", "Edts", "", ""}, {"egid", "IlstMetaContainer", "", "i"}, {"elst", "Elst", "01", ""}, {"emsg", "Emsg", "01", ""},
	{"enca", "AudioSampleEntry", "", ""}, {"encv", "VisualSampleEntry", "", ""}, {"esds", "Esds", "0", ""}, {"fiel", "Fiel", "", ""},
	{"fpcm", "AudioSampleEntry", "", ""}, {"free", "Free", "", ""}, {"frma", "Frma", "", ""}, {"ftyp", "Ftyp", "", ""},
	{"geID", "IlstMetaContainer", "", "i"}, {"gnre", "Udta3GppString", "0", "u"}, {"gnre", "IlstMetaContainer", "", "i"}, {"hdlr", "Hdlr", "0", ""},
	{"hev1", "VisualSampleEntry", "", ""}, {"hvc1", "VisualSampleEntry", "", ""}, {"hvcC", "HvcC", "", ""}, {"iden", "CueIDBox", "", ""},
	{"ilst", "Ilst", "", ""}, {"ipcm", "AudioSampleEntry", "", ""}, {"keys", "Keys", "", ""}, {"mdat", "Mdat", "", ""},
	{"mdhd", "Mdhd", "01", ""}, {"mdia", "Mdia", "", ""}, {"mean", "StringData", "", "f"}, {"mehd", "Mehd", "01", ""},
	{"meta", "Meta", "0", ""}, {"mfhd", "Mfhd", "0", ""}, {"mfra", "Mfra", "", ""}, {"mfro", "Mfro", "0", ""},
	{"minf", "Minf", "", ""}, {"moof", "Moof", "", ""}, {"moov", "Moov", "", ""}, {"mp4a", "AudioSampleEntry", "", ""},
	{"mp4v", "VisualSampleEntry", "", ""}, {"mvex", "Mvex", "", ""}, {"mvhd", "Mvhd", "01", ""}, {"name", "StringData", "", "f"},
	{"pasp", "PixelAspectRatioBox", "", ""}, {"payl", "CuePayloadBox", "", ""}, {"pcmC", "PcmC", "01", ""}, {"pcst", "IlstMetaContainer", "", "i"},
	{"perf", "Udta3GppString", "0", "u"}, {"pgap", "IlstMetaContainer", "", "i"}, {"plID", "IlstMetaContainer", "", "i"}, {"pssh", "Pssh", "01", ""},
	{"purd", "IlstMetaContainer", "", "i"}, {"purl", "IlstMetaContainer", "", "i"}, {"rtng", "IlstMetaContainer", "", "i"}, {"saio", "Saio", "01", ""},
	{"saiz", "Saiz", "0", ""}, {"sbgp", "Sbgp", "01", ""}, {"sbtt", "TextSubtitleSampleEntry", "", ""}, {"schi", "Schi", "", ""},
	{"schm", "Schm", "0", ""}, {"sdtp", "Sdtp", "0", ""}, {"sfID", "IlstMetaContainer", "", "i"}, {"sgpd", "Sgpd", "12", ""},
	{"sidx", "Sidx", "01", ""}, {"sinf", "Sinf", "", ""}, {"skip", "Skip", "", ""}, {"smhd", "Smhd", "0", ""},
	{"soaa", "IlstMetaContainer", "", "i"}, {"soal", "IlstMetaContainer", "", "i"}, {"soar", "IlstMetaContainer", "", "i"}, {"soco", "IlstMetaContainer", "", "i"},
	{"sonm", "IlstMetaContainer", "", "i"}, {"sosn", "IlstMetaContainer", "", "i"}, {"stbl", "Stbl", "", ""}, {"stco", "Stco", "0", ""},
	{"stik", "IlstMetaContainer", "", "i"}, {"stpp", "XMLSubtitleSampleEntry", "", ""}, {"stsc", "Stsc", "0", ""}, {"stsd", "Stsd", "0", ""},
	{"stss", "Stss", "0", ""}, {"stsz", "Stsz", "0", ""}, {"sttg", "CueSettingsBox", "", ""}, {"stts", "Stts", "0", ""},
	{"styp", "Styp", "", ""}, {"tenc", "Tenc", "01", ""}, {"tfdt", "Tfdt", "01", ""}, {"tfhd", "Tfhd", "0", ""},
	{"tfra", "Tfra", "01", ""}, {"titl", "Udta3GppString", "0", "u"}, {"tkhd", "Tkhd", "01", ""}, {"tmpo", "IlstMetaContainer", "", "i"},
	{"traf", "Traf", "", ""}, {"trak", "Trak", "", ""}, {"trep", "Trep", "0", ""}, {"trex", "Trex", "0", ""},
	{"trkn", "IlstMetaContainer", "", "i"}, {"trun", "Trun", "01", ""}, {"tven", "IlstMetaContainer", "", "i"}, {"tves", "IlstMetaContainer", "", "i"},
	{"tvnn", "IlstMetaContainer", "", "i"}, {"tvsh", "IlstMetaContainer", "", "i"}, {"tvsn", "IlstMetaContainer", "", "i"}, {"udta", "Udta", "", ""},
	{"url ", "Url", "0", ""}, {"urn ", "Urn", "0", ""}, {"vlab", "WebVTTSourceLabelBox", "", ""}, {"vmhd", "Vmhd", "0", ""},
	{"vp08", "VisualSampleEntry", "", ""}, {"vp09", "VisualSampleEntry", "", ""}, {"vpcC", "VpcC", "", ""}, {"vsid", "CueSourceIDBox", "", ""},
	{"vttC", "WebVTTConfigurationBox", "", ""}, {"vtta", "VTTAdditionalTextBox", "", ""}, {"vttc", "VTTCueBox", "", ""}, {"vtte", "VTTEmptyCueBox", "", ""},
	{"wave", "Wave", "", ""}, {"wvtt", "WVTTSampleEntry", "", ""}, {"\xa9ART", "IlstMetaContainer", "", "i"}, {"\xa9alb", "IlstMetaContainer", "", "i"},
	{"\xa9cmt", "IlstMetaContainer", "", "i"}, {"\xa9com", "IlstMetaContainer", "", "i"}, {"\xa9day", "IlstMetaContainer", "", "i"}, {"\xa9gen", "IlstMetaContainer", "", "i"},
	{"\xa9grp", "IlstMetaContainer", "", "i"}, {"\xa9nam", "IlstMetaContainer", "", "i"}, {"\xa9too", "IlstMetaContainer", "", "i"}, {"\xa9wrt", "IlstMetaContainer", "", "i"},
}

func vInst_C18(tier string) []string {
	out := []string{"hC18Registered", "hC18Agree", "hC18Codes", "hC18Match", "hC18Items", "hC18Names"}
	n := 3
	if tier == "thorough" {
		n = 4
	}
	for i := 1; i <= n; i++ {
		out = append(out, "hC18Latest n="+hItoa(i))
	}
	for _, t := range hAllTypes {
		out = append(out, "hC18Decode type="+hHexName(t.name)+" max=16"+hOpts(t.name))
	}
	return out
}

func vDoc_C18() []string {
	return []string{
		"bound: every four-byte type with every context (key tables of up to 2^31-1 entries), every version; decoding arbitrary payloads of up to 16 bytes of every type; every sequence of up to 3 (4) registrations of six kinds for a new type or an existing one",
		"assume: the types and versions the library registers are those of the pinned version",
		"outside: text of other than four bytes as a type code, which panics; registrations made while boxes are decoded",
	}
}

func hAnyType() (bt BoxType) {
	copy(bt[:], vBytes("type", 4))
	return
}

func hCtxWide() Context {
	c := hCtx()
	c.QuickTimeKeysMetaEntryCount = vRange("ctx.count", 0, 1<<31-1)
	return c
}

func hCond(c Context, cond string) bool {
	switch cond {
	case "i":
		return vAnd(c.UnderIlst, vNot(c.UnderIlstMeta))
	case "u":
		return c.UnderUdta
	case "m":
		return c.UnderIlstMeta
	case "f":
		return c.UnderIlstFreeMeta
	}
	return true
}

func hTypeNum(bt BoxType) uint32 {
	return uint32(bt[0])<<24 | uint32(bt[1])<<16 | uint32(bt[2])<<8 | uint32(bt[3])
}

// the types and versions of the library
func hC18Registered() {
	bt, ctx := hAnyType(), hCtxWide()
	want := vAnd(ctx.UnderIlst, vAnd(hTypeNum(bt) >= 1, uint64(hTypeNum(bt)) <= uint64(ctx.QuickTimeKeysMetaEntryCount)))
	for _, r := range hRegs {
		want = vOr(want, vAnd(hIsType(bt, r.typ), hCond(ctx, r.cond)))
	}
	vAssert(bt.IsSupported(ctx) == want, "exactly the registered types are supported where they apply")
	if !want {
		return
	}
	ver := vU8("version")
	for i := len(hRegs) - 1; i >= 0; i-- {
		r := hRegs[i]
		if hIsType(bt, r.typ) && hCond(ctx, r.cond) {
			ok := len(r.vers) == 0
			for k := 0; k < len(r.vers); k++ {
				ok = vOr(ok, ver == r.vers[k]-'0')
			}
			vAssert(bt.IsSupportedVersion(ver, ctx) == ok, "exactly the registered versions are supported")
			box, err := bt.New(ctx)
			vAssert(err == nil && reflect.TypeOf(box).Elem().Name() == r.name, "the box created is of the registered kind")
			return
		}
	}
}

func hIsType(t BoxType, s string) bool {
	return vAnd(vAnd(t[0] == s[0], t[1] == s[1]), vAnd(t[2] == s[2], t[3] == s[3]))
}

// the queries agree with one another
func hC18Agree() {
	bt, ctx := hAnyType(), hCtxWide()
	sup := bt.IsSupported(ctx)
	bi := &BoxInfo{Type: bt, Context: ctx}
	vAssert(bi.IsSupportedType() == sup, "a box description answers like its type")
	box, err := bt.New(ctx)
	vAssert((err == nil) == sup, "a type is supported exactly when a box of it can be created")
	vers, verr := bt.GetSupportedVersions(ctx)
	vAssert((verr == nil) == sup, "the versions of a supported type are known")
	ver := vU8("version")
	ok := bt.IsSupportedVersion(ver, ctx)
	if !sup {
		vAssert(err == ErrBoxInfoNotFound && verr == ErrBoxInfoNotFound && box == nil && !ok, "an unsupported type has no box and no version")
		_, _, err := UnmarshalAny(&hMem{}, bt, 0, ctx)
		vAssert(err == ErrBoxInfoNotFound, "an unsupported type cannot be decoded")
		return
	}
	vAssert(box.GetType() == bt, "a box created for a type reports it")
	in := len(vers) == 0
	for _, v := range vers {
		in = vOr(in, v == ver)
	}
	vAssert(ok == in, "a version is supported exactly when it is in the list")
}

// hMem reads from memory.
type hMem struct {
	d []byte
	p int64
}

func (r *hMem) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if r.p >= int64(len(r.d)) {
		return 0, io.EOF
	}
	n := copy(b, r.d[r.p:])
	r.p += int64(n)
	return n, nil
}

func (r *hMem) Seek(off int64, whence int) (int64, error) {
	if whence == 1 {
		off += r.p
	} else if whence == 2 {
		off += int64(len(r.d))
	}
	r.p = off
	return off, nil
}

// numbered items
func hC18Items() {
	bt, ctx := hAnyType(), Context{UnderIlst: true, QuickTimeKeysMetaEntryCount: vRange("ctx.count", 0, 1<<31-1), UnderIlstMeta: vBool("meta"), IsQuickTimeCompatible: vBool("qt")}
	n := hTypeNum(bt)
	vAssume(n < 0x20000000)
	sup := vAnd(n >= 1, uint64(n) <= uint64(ctx.QuickTimeKeysMetaEntryCount))
	vAssert(bt.IsSupported(ctx) == sup, "items are numbered from one to the number of keys")
	if sup {
		box, err := bt.New(ctx)
		_, ok := box.(*Item)
		vAssert(err == nil && ok && box.GetType() == bt, "a numbered item is created")
	}
}

// decoding accepts exactly the supported versions
func hC18Decode() {
	bt := hType()
	ctx := hCtx()
	p := hPayload()
	box, err := bt.New(ctx)
	if err != nil {
		return
	}
	box.SetVersion(7)
	versioned := box.GetVersion() == 7
	lead := vBytes("lead", 2)
	r := &hMem{d: append(append([]byte{}, lead...), p...), p: 2}
	_, err = Unmarshal(r, uint64(len(p)), box, ctx)
	if !versioned {
		vAssert(err != ErrUnsupportedBoxVersion, "a box without versions is decoded whatever it holds")
		vAssert(box.GetVersion() == 0, "a box without versions has version 0")
		return
	}
	off := 0
	if bt == BoxTypeMeta() && (len(p) >= 4 && hTypeNum(BoxType{p[0], p[1], p[2], p[3]}) != 0 || len(p) < 4) {
		vStopPath() // the version and flags are optional there
	}
	if len(p) < 4 {
		vAssert(err != nil, "a box without its version is rejected")
		return
	}
	sup := bt.IsSupportedVersion(p[off], ctx)
	vAssert((err == ErrUnsupportedBoxVersion) == !sup, "exactly the supported versions are decoded")
	vAssert(box.GetVersion() == p[off], "a decoded box reports its version")
	if !sup {
		vAssert(r.p == 2, "a box of an unsupported version is left unread")
		vCover("unsupported")
	}
}

type hUserA struct {
	FullBox `mp4:"0,extend"`
	A       uint8 `mp4:"1,size=8"`
}

func (*hUserA) GetType() BoxType { return hUserType }

type hUserB struct {
	FullBox `mp4:"0,extend"`
	B       uint16 `mp4:"1,size=16"`
}

func (*hUserB) GetType() BoxType { return hUserType }

type hUserC struct {
	AnyTypeBox
	C uint32 `mp4:"0,size=32"`
}

var hUserType BoxType

// of several registrations the latest applicable one is used
func hC18Latest() {
	hUserType = StrToBoxType([]string{"hhhh", "free", "mvhd"}[vChoose("type", 3)])
	ctx := Context{UnderWave: vBool("wave"), UnderUdta: vBool("udta")}
	wave := func(c Context) bool { return c.UnderWave }
	udta := func(c Context) bool { return c.UnderUdta }
	other := StrToBoxType("iiii")
	want, vers := "", []uint8(nil)
	switch hUserType.String() {
	case "free":
		want = "Free"
	case "mvhd":
		want, vers = "Mvhd", []uint8{0, 1}
	}
	for n := vParamInt("n"); n > 0; n-- {
		v := uint8(10 + n)
		switch vChoose("kind", 7) {
		case 0:
			AddBoxDef(&hUserA{}, v)
			want, vers = "hUserA", []uint8{v}
		case 1:
			AddBoxDef(&hUserB{})
			want, vers = "hUserB", nil
		case 2:
			AddBoxDefEx(&hUserA{}, wave, v, v+20)
			if ctx.UnderWave {
				want, vers = "hUserA", []uint8{v, v + 20}
			}
		case 3:
			AddBoxDefEx(&hUserB{}, udta, v)
			if ctx.UnderUdta {
				want, vers = "hUserB", []uint8{v}
			}
		case 4:
			AddAnyTypeBoxDef(&hUserC{}, hUserType, v)
			want, vers = "hUserC", []uint8{v}
		case 5:
			AddAnyTypeBoxDefEx(&hUserC{}, hUserType, wave)
			if ctx.UnderWave {
				want, vers = "hUserC", nil
			}
		case 6:
			AddAnyTypeBoxDef(&hUserC{}, other, v)
		}
	}
	vAssert(hUserType.IsSupported(ctx) == (want != ""), "a type is supported once it is registered for the context")
	box, err := hUserType.New(ctx)
	if want == "" {
		vAssert(err == ErrBoxInfoNotFound, "a type that is not registered has no box")
		return
	}
	vAssert(err == nil && reflect.TypeOf(box).Elem().Name() == want, "the latest applicable registration is used")
	vAssert(box.GetType() == hUserType, "a box created for a type reports it")
	got, err := hUserType.GetSupportedVersions(ctx)
	vAssert(err == nil && len(got) == len(vers), "the versions are those registered")
	for i := range vers {
		vAssert(got[i] == vers[i], "the versions are those registered")
	}
	ver := vU8("version")
	in := len(vers) == 0
	for _, x := range vers {
		in = vOr(in, x == ver)
	}
	vAssert(hUserType.IsSupportedVersion(ver, ctx) == in, "exactly the registered versions are supported")
	// decoding uses the same registration
	p := []byte{ver, 0, 0, 0, 1, 2}
	var n uint64
	box, n, err = UnmarshalAny(&hMem{d: p}, hUserType, uint64(len(p)), ctx)
	switch want {
	case "hUserA":
		vAssert((err == nil) == in, "exactly the registered versions are decoded")
		vAssert(err != nil || n == 5 && box.(*hUserA).A == 1, "the latest applicable registration decodes")
	case "hUserB":
		vAssert((err == nil) == in, "exactly the registered versions are decoded")
		vAssert(err != nil || n == 6 && box.(*hUserB).B == 0x102, "the latest applicable registration decodes")
	case "hUserC":
		vAssert(err == nil && n == 4 && box.(*hUserC).C == uint32(ver)<<24, "the latest applicable registration decodes")
	}
}

// type codes as text and as numbers
func hC18Codes() {
	b := vBytes("type", 4)
	bt := StrToBoxType(string(b))
	vAssert(vAnd(vAnd(bt[0] == b[0], bt[1] == b[1]), vAnd(bt[2] == b[2], bt[3] == b[3])), "a type code is its four characters")
	n := hTypeNum(bt)
	vAssert(Uint32ToBoxType(n) == bt, "a number is the type code of its bytes")
	s := bt.String()
	text, want := true, ""
	for _, c := range b {
		if c == 0xa9 {
			want += "(c)"
		} else if c >= ' ' && c < 0x7f {
			want += string([]byte{c})
		} else {
			text = false
			break
		}
	}
	if text {
		vAssert(s == want, "a printable type code is shown as it is, with (c) for the copyright sign")
		return
	}
	want = "0x"
	for _, c := range b {
		want += string([]byte{hHex[c>>4], hHex[c&15]})
	}
	vAssert(s == want, "an unprintable type code is shown in hexadecimal")
}

func hC18Match() {
	a, b := hAnyType(), BoxType{}
	copy(b[:], vBytes("other", 4))
	any := BoxTypeAny()
	vAssert(any == BoxType{}, "the wildcard is the zero type")
	vAssert(a.MatchWith(b) == vOr(hTypeNum(a) == hTypeNum(b), vOr(hTypeNum(a) == 0, hTypeNum(b) == 0)), "types match when equal or when one is the wildcard")
	vAssert(a.MatchWith(any) && any.MatchWith(a), "the wildcard matches every type")
}

// the named constants
func hC18Names() {
	types := []struct {
		got  BoxType
		want string
	}{
		{BoxTypeAv01(), "av01"}, {BoxTypeAv1C(), "av1C"}, {BoxTypeAC3(), "ac-3"}, {BoxTypeDAC3(), "dac3"},
		{BoxTypeBtrt(), "btrt"}, {BoxTypeCo64(), "co64"}, {BoxTypeColr(), "colr"}, {BoxTypeCslg(), "cslg"},
		{BoxTypeCtts(), "ctts"}, {BoxTypeDinf(), "dinf"}, {BoxTypeDref(), "dref"}, {BoxTypeUrl(), "url "},
		{BoxTypeUrn(), "urn "}, {BoxTypeEdts(), "edts"}, {BoxTypeElst(), "elst"}, {BoxTypeEmsg(), "emsg"},
		{BoxTypeFiel(), "fiel"}, {BoxTypeFree(), "free"}, {BoxTypeSkip(), "skip"}, {BoxTypeFrma(), "frma"},
		{BoxTypeFtyp(), "ftyp"}, {BoxTypeHdlr(), "hdlr"}, {BoxTypeHvcC(), "hvcC"}, {BoxTypeMdat(), "mdat"},
		{BoxTypeMdhd(), "mdhd"}, {BoxTypeMdia(), "mdia"}, {BoxTypeMehd(), "mehd"}, {BoxTypeMeta(), "meta"},
		{BoxTypeMfhd(), "mfhd"}, {BoxTypeMfra(), "mfra"}, {BoxTypeMfro(), "mfro"}, {BoxTypeMinf(), "minf"},
		{BoxTypeMoof(), "moof"}, {BoxTypeMoov(), "moov"}, {BoxTypeMvex(), "mvex"}, {BoxTypeMvhd(), "mvhd"},
		{BoxTypeSaio(), "saio"}, {BoxTypeSaiz(), "saiz"}, {BoxTypeMp4v(), "mp4v"}, {BoxTypeAvc1(), "avc1"},
		{BoxTypeEncv(), "encv"}, {BoxTypeHev1(), "hev1"}, {BoxTypeHvc1(), "hvc1"}, {BoxTypeMp4a(), "mp4a"},
		{BoxTypeEnca(), "enca"}, {BoxTypeAvcC(), "avcC"}, {BoxTypePasp(), "pasp"}, {BoxTypeStpp(), "stpp"},
		{BoxTypeSbtt(), "sbtt"}, {BoxTypeSbgp(), "sbgp"}, {BoxTypeSchi(), "schi"}, {BoxTypeSchm(), "schm"},
		{BoxTypeSdtp(), "sdtp"}, {BoxTypeSgpd(), "sgpd"}, {BoxTypeSidx(), "sidx"}, {BoxTypeSinf(), "sinf"},
		{BoxTypeSmhd(), "smhd"}, {BoxTypeStbl(), "stbl"}, {BoxTypeStco(), "stco"}, {BoxTypeStsc(), "stsc"},
		{BoxTypeStsd(), "stsd"}, {BoxTypeStss(), "stss"}, {BoxTypeStsz(), "stsz"}, {BoxTypeStts(), "stts"},
		{BoxTypeStyp(), "styp"}, {BoxTypeTfdt(), "tfdt"}, {BoxTypeTfhd(), "tfhd"}, {BoxTypeTfra(), "tfra"},
		{BoxTypeTkhd(), "tkhd"}, {BoxTypeTraf(), "traf"}, {BoxTypeTrak(), "trak"}, {BoxTypeTrep(), "trep"},
		{BoxTypeTrex(), "trex"}, {BoxTypeTrun(), "trun"}, {BoxTypeUdta(), "udta"}, {BoxTypeVmhd(), "vmhd"},
		{BoxTypeWave(), "wave"}, {BoxTypeEsds(), "esds"}, {BoxTypeVttC(), "vttC"}, {BoxTypeVlab(), "vlab"},
		{BoxTypeWvtt(), "wvtt"}, {BoxTypeVttc(), "vttc"}, {BoxTypeVsid(), "vsid"}, {BoxTypeCtim(), "ctim"},
		{BoxTypeIden(), "iden"}, {BoxTypeSttg(), "sttg"}, {BoxTypePayl(), "payl"}, {BoxTypeVtte(), "vtte"},
		{BoxTypeVtta(), "vtta"}, {BoxTypeIpcm(), "ipcm"}, {BoxTypeFpcm(), "fpcm"}, {BoxTypePcmC(), "pcmC"},
		{BoxTypePssh(), "pssh"}, {BoxTypeTenc(), "tenc"}, {BoxTypeIlst(), "ilst"}, {BoxTypeData(), "data"},
		{BoxTypeKeys(), "keys"}, {BoxTypeOpus(), "Opus"}, {BoxTypeDOps(), "dOps"}, {BoxTypeVp08(), "vp08"},
		{BoxTypeVp09(), "vp09"}, {BoxTypeVpcC(), "vpcC"},
	}
	k := vRange("type", 0, len(types)-1)
	var got uint32
	var want uint32
	for i, t := range types {
		got = uint32(vIte(i == k, uint64(hTypeNum(t.got)), uint64(got)))
		want = uint32(vIte(i == k, uint64(hTypeNum(BoxType{t.want[0], t.want[1], t.want[2], t.want[3]})), uint64(want)))
	}
	vAssert(got == want, "every named type has the code it is named after")
	brands := []struct {
		got  [4]byte
		want string
	}{
		{BrandQT(), "qt  "}, {BrandISOM(), "isom"}, {BrandISO2(), "iso2"}, {BrandISO3(), "iso3"},
		{BrandISO4(), "iso4"}, {BrandISO5(), "iso5"}, {BrandISO6(), "iso6"}, {BrandISO7(), "iso7"},
		{BrandISO8(), "iso8"}, {BrandISO9(), "iso9"}, {BrandAVC1(), "avc1"}, {BrandMP41(), "mp41"},
		{BrandMP71(), "mp71"},
	}
	for _, b := range brands {
		vAssert(string(b.got[:]) == b.want, "every named brand has the code it is named after")
	}
}
