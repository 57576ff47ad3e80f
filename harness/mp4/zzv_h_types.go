package HARNESS

import "bytes"

// every box type the library documents, with a maximal payload size for the symbolic decoders (quick, thorough)
type hTypeDef struct {
	name string
	q, t int
}

// hShape is a further family of payloads of one type: pat gives leading bytes in hexadecimal ("xx" is an arbitrary
// byte), q and t the maximal payload sizes.
type hShape struct {
	name string
	pat  string
	q, t int
	opts string
}

var hShapes = []hShape{
	{"esds", "xxxxxxxx03xx", 13, 16, ""},
	{"esds", "xxxxxxxx03xxxxxx00", 15, 17, ""},
	{"esds", "xxxxxxxx03xxxxxxe0", 15, 18, ""},
	{"esds", "xxxxxxxx04xx", 22, 24, ""},
	{"esds", "000000000318xxxx000410xxxxxxxxxxxxxxxxxxxxxxxxxx05", 28, 30, ""},
	{"avcC", "0164xxxxxxe1", 19, 22, ""},
	{"avcC", "0142xxxxxxe1", 16, 20, ""},
}

// hOpts are engine options for the symbolic decoders of a type.
func hOpts(name string) string {
	switch name {
	case "trun":
		return " @merge=0"
	}
	return ""
}

// hTypeInsts lists the decoder instances of every box type.
func hTypeInsts(fn string, tier string) []string {
	var out []string
	for _, t := range hAllTypes {
		max := t.q
		if tier == "thorough" {
			max = t.t
		}
		out = append(out, fn+" type="+hHexName(t.name)+" max="+hItoa(max)+hOpts(t.name))
	}
	for _, t := range hShapes {
		max := t.q
		if tier == "thorough" {
			max = t.t
		}
		out = append(out, fn+" type="+hHexName(t.name)+" max="+hItoa(max)+" pat="+t.pat+" "+t.opts)
	}
	return out
}

// hPayload is an arbitrary payload of the instance's type.
func hPayload() []byte {
	bt := hType()
	pat := vParam("pat")
	min := len(pat) / 2
	size := min + vChoose("size", vParamInt("max")+1-min)
	p := vBytes("p", size)
	for i := 0; i < min; i++ {
		if pat[2*i] != 'x' {
			p[i] = hUnhex(pat[2*i : 2*i+2])[0]
		}
	}
	switch bt.String() {
	case "trun":
		// entries without any field occupy no bits: their number is bounded (C23 is about them)
		if size >= 8 {
			vAssume(vOr(p[2]&0xf != 0, vAnd(vAnd(p[4] == 0, p[5] == 0), vAnd(p[6] == 0, p[7] < 4))))
		}
	case "tfra":
		// the field widths of the entries: chosen, not symbolic
		if size >= 12 {
			ws := []byte{0x00, 0x01, 0x06, 0x1b, 0x24, 0x39, 0x3f, 0xff}
			if vParam("tier") == "thorough" {
				p[11] = byte(vChoose("widths", 64))
			} else {
				p[11] = ws[vChoose("widths", len(ws))]
			}
		}
	}
	return p
}

var hAllTypes = []hTypeDef{
	{"ac-3", 30, 34}, {"dac3", 3, 6}, {"av01", 79, 82}, {"av1C", 8, 12},
	{"btrt", 12, 14}, {"co64", 24, 40}, {"colr", 14, 19}, {"cslg", 44, 46}, {"ctts", 26, 34}, {"dinf", 2, 3}, {"dref", 8, 10},
	{"url ", 8, 10}, {"urn ", 8, 10}, {"edts", 2, 3}, {"elst", 36, 48}, {"emsg", 28, 34}, {"fiel", 3, 5}, {"free", 6, 12}, {"skip", 6, 12},
	{"frma", 5, 6}, {"ftyp", 18, 24}, {"hdlr", 30, 36}, {"hvcC", 32, 36}, {"mdat", 6, 12}, {"mdhd", 36, 38}, {"mdia", 2, 3}, {"mehd", 13, 14},
	{"meta", 12, 14}, {"mfhd", 9, 10}, {"mfra", 2, 3}, {"mfro", 9, 10}, {"minf", 2, 3}, {"moof", 2, 3}, {"moov", 2, 3}, {"mvex", 2, 3}, {"mvhd", 112, 114},
	{"saio", 28, 36}, {"saiz", 20, 24}, {"mp4v", 79, 82}, {"avc1", 79, 82}, {"encv", 79, 82}, {"hev1", 79, 82}, {"hvc1", 79, 82}, {"mp4a", 30, 68},
	{"enca", 30, 68}, {"avcC", 14, 17}, {"pasp", 9, 10}, {"stpp", 16, 20}, {"sbtt", 16, 20}, {"sbgp", 28, 36}, {"schi", 2, 3}, {"schm", 18, 22}, {"sdtp", 8, 12},
	{"sgpd", 20, 24}, {"sidx", 44, 56}, {"sinf", 2, 3}, {"smhd", 9, 10}, {"stbl", 2, 3}, {"stco", 20, 28}, {"stsc", 32, 44}, {"stsd", 9, 10}, {"stss", 20, 28},
	{"stsz", 24, 32}, {"stts", 24, 32}, {"styp", 18, 24}, {"tfdt", 13, 14}, {"tfhd", 42, 44}, {"tfra", 36, 48}, {"tkhd", 98, 98}, {"traf", 2, 3}, {"trak", 2, 3},
	{"trep", 9, 10}, {"trex", 25, 26}, {"trun", 24, 32}, {"udta", 2, 3}, {"vmhd", 13, 14}, {"wave", 2, 3}, {"esds", 9, 11}, {"vttC", 6, 8}, {"vlab", 6, 8},
	{"wvtt", 9, 10}, {"vttc", 2, 3}, {"vsid", 5, 6}, {"ctim", 6, 8}, {"iden", 6, 8}, {"sttg", 6, 8}, {"payl", 6, 8}, {"vtte", 2, 3}, {"vtta", 6, 8},
	{"ipcm", 30, 68}, {"fpcm", 30, 68}, {"pcmC", 7, 8}, {"pssh", 42, 60}, {"tenc", 44, 48}, {"ilst", 2, 3}, {"data", 14, 18}, {"----", 2, 3}, {"cprt", 10, 12},
	{"titl", 10, 12}, {"aART", 2, 3}, {"\xa9nam", 2, 3}, {"mean", 8, 12}, {"name", 8, 12}, {"keys", 24, 32}, {"Opus", 30, 68}, {"dOps", 16, 20}, {"vp08", 79, 82}, {"vp09", 79, 82},
	{"vpcC", 14, 18}, {"\x00\x00\x00\x01", 26, 32},
}

const hHex = "0123456789abcdef"

func hHexName(s string) string {
	o := ""
	for i := 0; i < len(s); i++ {
		o += string([]byte{hHex[s[i]>>4], hHex[s[i]&15]})
	}
	return o
}

func hUnhex(s string) string {
	v := func(c byte) byte {
		if c >= 'a' {
			return c - 'a' + 10
		}
		return c - '0'
	}
	var b []byte
	for i := 0; i+1 < len(s); i += 2 {
		b = append(b, v(s[i])<<4|v(s[i+1]))
	}
	return string(b)
}

// hType is the box type named by the parameter "type" (four characters in hexadecimal).
func hType() BoxType { return StrToBoxType(hUnhex(vParam("type"))) }

// hCtx is an arbitrary context.
func hCtx() Context {
	c := Context{}
	c.IsQuickTimeCompatible = vBool("ctx.qt")
	c.QuickTimeKeysMetaEntryCount = vRange("ctx.keys", 0, 3)
	c.UnderWave = vBool("ctx.wave")
	c.UnderIlst = vBool("ctx.ilst")
	c.UnderIlstMeta = vBool("ctx.ilstMeta")
	c.UnderIlstFreeMeta = vBool("ctx.ilstFree")
	c.UnderUdta = vBool("ctx.udta")
	return c
}

func hItoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	if n < 0 {
		return "-" + hItoa(-n)
	}
	for n > 0 {
		s = string([]byte{byte('0' + n%10)}) + s
		n /= 10
	}
	return s
}

var _ = bytes.NewReader
