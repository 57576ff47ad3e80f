package HARNESS

//use types
//use show

import "bytes"

func vInst_C19(tier string) []string {
	out := hTypeInsts("hC19", tier)
	max := 3
	if tier == "thorough" {
		max = 4
	}
	for i := 1; i <= max; i++ {
		out = append(out, "hC19Text n="+hItoa(i))
	}
	return append(out, "hC19Item @known=KF-ITEM @nowit")
}

func vDoc_C19() []string {
	return []string{
		"bound: every registered type, every payload the decoder accepts up to the sizes of C01, in every context; with and without indentation",
		"bound: texts start with three ASCII characters there and continue with printable ones; texts of up to 3 (4) arbitrary bytes in the instances hC19Text",
	}
}

func hC19() {
	bt := hType()
	ctx := hCtx()
	p := hPayload()
	box, _, err := UnmarshalAny(bytes.NewReader(p), bt, uint64(len(p)), ctx)
	if err != nil {
		return
	}
	hC19Print(box, ctx, 0)
}

func hC19Print(box IBox, ctx Context, ascii int) {
	s := &hShower{box: box, ctx: ctx, ascii: ascii}
	s.structure(hElem(box))
	vCover("printed")
	text, err := Stringify(box, ctx)
	vAssert(err == nil, "a decoded box can be printed")
	vAssert(vStrEq(text, string(s.out)), "the text lists the fields that are present, in order, each in its format")
	s = &hShower{box: box, ctx: ctx, ascii: ascii, lines: true}
	s.structure(hElem(box))
	text, err = StringifyWithIndent(box, "\t", ctx)
	vAssert(err == nil, "a decoded box can be printed with indentation")
	vAssert(vStrEq(hStrip(text), string(s.out)), "with indentation every field is on a line of its own")
}

// hStrip removes the indentation.
func hStrip(t string) string {
	var o []byte
	start := true
	for i := 0; i < len(t); i++ {
		if start && t[i] == '\t' {
			continue
		}
		o = append(o, t[i])
		start = t[i] == '\n'
	}
	return string(o)
}

// hC19Text: arbitrary text, not necessarily valid UTF-8.
func hC19Text() {
	b := vBytes("text", vParamInt("n"))
	box := &WebVTTConfigurationBox{Config: string(b)}
	text, err := Stringify(box, Context{})
	vAssert(err == nil, "a box can be printed")
	vAssert(vStrEq(text, `Config="`+hEscape(string(b))+`"`), "what is not graphic is replaced by dots")
	for i := 0; i < len(text); i++ {
		vAssert(text[i] >= 0x20 && text[i] != 0x7f, "the text contains no control characters")
	}
	vCover("printed")
}

// hC19Item: the flags of numbered items are always printed as zero.
func hC19Item() {
	p := vBytes("p", 16)
	copy(p[4:], "data")
	ctx := Context{UnderIlst: true, QuickTimeKeysMetaEntryCount: 1}
	box, _, err := UnmarshalAny(bytes.NewReader(p), BoxType{0, 0, 0, 1}, 16, ctx)
	vAssert(err == nil, "the item can be decoded")
	s := &hShower{box: box, ctx: ctx, items: true}
	s.structure(hElem(box))
	text, err := Stringify(box, ctx)
	vAssert(err == nil, "a decoded box can be printed")
	vAssert(vStrEq(text, string(s.out)), "the text lists the fields that are present, in order, each in its format")
}
