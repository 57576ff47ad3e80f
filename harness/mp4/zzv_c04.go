package HARNESS

//use types
//use spec

import (
	"bytes"
	"reflect"
	"strings"
)

func vInst_C04(tier string) []string {
	out := hSpecInsts("hC04", tier)
	out = append(out, "hC04 type="+hHexName("hvcC")+" max=0 hvcc=spec @known=KF-HVCC")
	for _, n := range hCounted {
		out = append(out, "hC04Long type="+hHexName(n)+" max=1")
	}
	return out
}

func vDoc_C04() []string {
	return []string{
		"bound: every registered box type, every supported version, all flag words and field values; lists of every length up to 2-4 entries (8 and more for raw data)",
		"bound: counted lists that hold one element more than their count, for every type with counted lists",
		"outside: version-2 alternative-startup groups with more than one entry (the format gives no entry length)",
		"outside: hvcC temporal-layer bits other than zero layers (known finding KF-HVCC)",
	}
}

func hC04() {
	name := hUnhex(vParam("type"))
	ctx := hSpecCtx(name)
	s := &hs{max: vParamInt("max"), fix: vParamInt("fix")}
	box := hSpecBox(name, ctx, s)
	vAssert(s.n == 0, "the specified layout is made of whole bytes")
	vCover("built")
	buf := &bytes.Buffer{}
	n, err := Marshal(buf, box, ctx)
	vAssert(err == nil, "the box can be encoded")
	if vParam("fix") == "" {
		vObsB("out", buf.Bytes())
	}
	vAssert(n == uint64(len(s.out)), "the encoded length is the specified one")
	vAssert(vBytesEq(buf.Bytes(), s.out), "every field is encoded at its specified position")
	box2, n2, err := UnmarshalAny(bytes.NewReader(s.out), StrToBoxType(name), uint64(len(s.out)), ctx)
	vAssert(err == nil, "the specified bytes can be decoded")
	vAssert(n2 == uint64(len(s.out)), "decoding consumes the specified bytes")
	vAssert(vEqual(box, box2), "every field is decoded from its specified position")
}

var hCounted = []string{"co64", "ctts", "elst", "saio", "saiz", "sbgp", "sidx", "stco", "stsc", "stss", "stsz", "stts", "tfra", "trun", "pssh",
	"tenc", "keys", "dOps", "vpcC", "avcC", "hvcC", "esds", "sgpd"}

// hLists finds the lists that are encoded up to a count.
func hLists(v reflect.Value, out []reflect.Value) []reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			return hLists(v.Elem(), out)
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Kind() == reflect.Slice && strings.Contains(t.Field(i).Tag.Get("mp4"), "len=dynamic") {
				out = append(out, f)
			}
			out = hLists(f, out)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			out = hLists(v.Index(i), out)
		}
	}
	return out
}

// hC04Long: a list longer than its count is encoded up to the count.
func hC04Long() {
	name := hUnhex(vParam("type"))
	ctx := hSpecCtx(name)
	s := &hs{max: vParamInt("max")}
	box := hSpecBox(name, ctx, s)
	ls := hLists(reflect.ValueOf(box).Elem(), nil)
	if len(ls) == 0 {
		vStopPath()
	}
	l := ls[vChoose("list", len(ls))]
	l.Set(reflect.Append(l, reflect.Zero(l.Type().Elem())))
	vCover("lengthened")
	buf := &bytes.Buffer{}
	n, err := Marshal(buf, box, ctx)
	vAssert(err == nil, "the box can be encoded")
	vAssert(n == uint64(len(s.out)) && vBytesEq(buf.Bytes(), s.out), "repeated groups have the declared count")
}
