package HARNESS

//use types

import "bytes"

func vInst_C02(tier string) []string {
	out := hTypeInsts("hC02", tier)
	// descriptor lengths already in the four-byte form: no normalisation is allowed
	out = append(out,
		"hC02 type="+hHexName("esds")+" pat=xxxxxxxx0480808010 max=22 strict=1",
		"hC02 type="+hHexName("esds")+" pat=xxxxxxxx03808080030001000580808002 max=19 strict=1",
		"hC02 type="+hHexName("esds")+" pat=xxxxxxxx038080800500018012 max=14 strict=1",
		"hC02 type="+hHexName("hdlr")+" max=26 predef0=1",
		"hC02Large type="+hHexName("stts")+" n=300 esz=8",
		"hC02Large type="+hHexName("co64")+" n=257 esz=8",
		"hC02Bytes type="+hHexName("mdat")+" n=65537",
		"hC02HdlrKnown @known=KF-HDLR")
	return out
}

func vDoc_C02() []string {
	return []string{
		"bound: every registered box type with symbolic context and all payload contents up to the per-type sizes in the instance list; one 300-entry table and one 65537-byte payload with symbolic bytes at both ends",
		"bound: trun entries without any field: at most 3; tfra entry widths: 8 combinations (64 in the thorough tier)",
		"outside: descriptor lengths of 2^28 and more (not representable in the four-byte form the format allows)",
		"outside: length-prefixed handler names containing a zero byte; handler names that a re-decoder takes for a Pascal string (known finding KF-HDLR)",
	}
}

// hTerms is the number of string terminators that may have to be added when re-encoding.
func hTerms(name string) int {
	switch name {
	case "stpp":
		return 3
	case "sbtt", "urn ":
		return 2
	case "url ":
		return 1
	}
	return 0
}

// hUnterminated: WebVTT strings carry no terminator
func hUnterminated(name string) bool {
	switch name {
	case "ctim", "iden", "payl", "sttg", "vlab", "vttC", "vtta":
		return true
	}
	return false
}

func hC02() {
	bt := hType()
	ctx := hCtx()
	p := hPayload()
	box, n, err := UnmarshalAny(bytes.NewReader(p), bt, uint64(len(p)), ctx)
	if err != nil {
		vCover("rejected")
		return
	}
	vCover("decoded")
	name := hUnhex(vParam("type"))
	if es, ok := box.(*Esds); ok {
		for i := range es.Descriptors {
			vAssume(es.Descriptors[i].Size < 1<<28)
			if vParam("strict") != "" && i > 0 {
				vAssume(es.Descriptors[i].Size < 3)
			}
		}
	}
	if hd, ok := box.(*Hdlr); ok {
		// see KF-HDLR
		if len(hd.Name) > 0 {
			vAssume(vOr(hd.PreDefined == 0, int(hd.Name[0]) != len(hd.Name)))
			for i := 0; i < len(hd.Name); i++ {
				vAssume(hd.Name[i] != 0)
			}
		}
		if vParam("predef0") != "" {
			vAssume(hd.PreDefined == 0)
		}
	}
	buf := &bytes.Buffer{}
	n2, err := Marshal(buf, box, ctx)
	vAssert(err == nil, "a decoded box can be encoded again")
	out := buf.Bytes()
	vAssert(n2 == uint64(len(out)), "the reported length is the number of bytes written")
	vObsB("out", out)
	if vParam("strict") == "" {
		if hUnterminated(name) {
			ok := false
			if len(out) == int(n) {
				ok = vBytesEq(out, p[:n])
			} else if len(out)+1 == int(n) {
				ok = vAnd(vBytesEq(out, p[:n-1]), p[n-1] == 0)
			}
			vAssert(ok, "encoding the decoded box reproduces the bytes but for a terminator")
			hAgain(out, bt, ctx, box)
			return
		}
		if k := hTerms(name); k > 0 {
			add := len(out) - int(n)
			vAssert(add >= 0 && add <= k, "encoding adds at most the missing string terminators")
			vAssert(vBytesEq(out[:n], p[:n]), "encoding the decoded box reproduces the bytes")
			for _, c := range out[n:] {
				vAssert(c == 0, "encoding the decoded box reproduces the bytes")
			}
			hAgain(out, bt, ctx, box)
			return
		}
		switch b := box.(type) {
		case *Meta:
			if n == 0 {
				vCover("meta without version")
				vAssert(vBytesEq(out, []byte{0, 0, 0, 0}), "a version-less header gets version 0 and no flags")
				hAgain(out, bt, ctx, box)
				return
			}
		case *Hdlr:
			vAssert(len(out) == 24+len(b.Name)+1, "a handler box is its fixed part, the name and a terminator")
			vAssert(vBytesEq(out[:24], p[:24]), "encoding the decoded box reproduces the bytes")
			nm := out[24 : len(out)-1]
			vAssert(out[len(out)-1] == 0, "the handler name is terminated")
			if n > 24 {
				rest := p[24:n]
				pascal := vAnd(b.PreDefined != 0, int(rest[0])+1 == len(rest))
				isP := false
				if len(nm) == len(rest)-1 && len(rest) > 1 {
					isP = vAnd(pascal, vBytesEq(nm, rest[1:]))
				}
				isC := false
				if len(nm) <= len(rest) {
					isC = vBytesEq(nm, rest[:len(nm)])
					if len(nm) < len(rest) {
						isC = vAnd(isC, rest[len(nm)] == 0)
					}
				}
				vAssert(vOr(isP, isC), "the handler name is kept")
			}
			hAgain(out, bt, ctx, box)
			return
		case *Esds:
			hAgain(out, bt, ctx, box)
			return
		}
	}
	vAssert(vBytesEq(out, p[:n]), "encoding the decoded box reproduces the bytes")
}

func hAgain(out []byte, bt BoxType, ctx Context, box IBox) {
	box2, n, err := UnmarshalAny(bytes.NewReader(out), bt, uint64(len(out)), ctx)
	vAssert(err == nil, "the normalised bytes can be decoded")
	if m, ok := box.(*Meta); ok && m != nil {
		vAssert(n == 4, "the normalised bytes are consumed")
	} else {
		vAssert(n == uint64(len(out)), "the normalised bytes are consumed")
	}
	vAssert(vEqual(box, box2), "decoding the normalised bytes gives the same box")
}

// a table with many entries; the first and the last are arbitrary
func hC02Large() {
	bt := hType()
	n := vParamInt("n")
	esz := vParamInt("esz")
	p := make([]byte, 8+n*esz)
	copy(p, vBytes("head", 4))
	p[0] = 0
	p[6], p[7] = byte(n>>8), byte(n)
	copy(p[8:], vBytes("first", esz))
	copy(p[8+(n-1)*esz:], vBytes("last", esz))
	for i := 1; i < n-1; i++ {
		p[8+i*esz] = byte(i)
		p[8+i*esz+esz-1] = byte(i >> 8)
	}
	box, k, err := UnmarshalAny(bytes.NewReader(p), bt, uint64(len(p)), Context{})
	vAssert(err == nil && k == uint64(len(p)), "a large table is decoded")
	buf := &bytes.Buffer{}
	_, err = Marshal(buf, box, Context{})
	vAssert(err == nil, "a decoded box can be encoded again")
	vAssert(vBytesEq(buf.Bytes(), p), "encoding the decoded box reproduces the bytes")
}

func hC02Bytes() {
	bt := hType()
	n := vParamInt("n")
	p := make([]byte, n)
	copy(p, vBytes("first", 4))
	copy(p[n-4:], vBytes("last", 4))
	p[4095], p[4096] = vU8("mid0"), vU8("mid1")
	box, k, err := UnmarshalAny(bytes.NewReader(p), bt, uint64(n), Context{})
	vAssert(err == nil && k == uint64(n), "a large payload is decoded")
	buf := &bytes.Buffer{}
	_, err = Marshal(buf, box, Context{})
	vAssert(err == nil, "a decoded box can be encoded again")
	vAssert(vBytesEq(buf.Bytes(), p), "encoding the decoded box reproduces the bytes")
}

// the listed ambiguity of handler names
func hC02HdlrKnown() {
	p := append(make([]byte, 24), 2, 2, 'a')
	copy(p[4:], "mhlr")
	copy(p[8:], "vide")
	box, _, err := UnmarshalAny(bytes.NewReader(p), StrToBoxType("hdlr"), uint64(len(p)), Context{})
	vAssert(err == nil, "decoding works")
	buf := &bytes.Buffer{}
	_, err = Marshal(buf, box, Context{})
	vAssert(err == nil, "encoding works")
	box2, _, err := UnmarshalAny(bytes.NewReader(buf.Bytes()), StrToBoxType("hdlr"), uint64(buf.Len()), Context{})
	vAssert(err == nil && vEqual(box, box2), "handler name survives re-encoding")
}
