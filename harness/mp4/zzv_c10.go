package HARNESS

//use tree types

import "bytes"

func vInst_C10(tier string) []string {
	n, m := "3", "4"
	if tier == "thorough" {
		n, m = "4", "5"
	}
	return []string{
		"hC10 set=all boxes=" + n + " @cover=ok",
		"hC10 set=items boxes=" + m + " @cover=ok,item",
		"hC10 set=udta boxes=" + m,
		"hC10 set=wave boxes=" + m,
		"hC10 set=brand boxes=" + n + " @cover=qt,ok",
		"hC10Lenient @cover=lenient,strict",
	}
}

func vDoc_C10() []string {
	return []string{
		"bound: all well-formed files of up to 3 boxes (4 in the thorough tier) of 14 types, and of up to 4 (5) boxes of the types around item lists, user data and sound waves, with arbitrary key tables of up to two keys and arbitrary brands, every box also revisited from its description",
		"bound: 0 to 7 bytes left over in a container with an arbitrary brand",
		"outside: key tables of more than two keys; a brand box that is not at the top level",
	}
}

func hC10Kinds(set string) []hKind {
	keys := hKind{typ: "keys", own: func() []byte {
		n := vChoose("keys", 3)
		b := []byte{0, 0, 0, 0, 0, 0, 0, byte(n)}
		for i := 0; i < n; i++ {
			b = append(b, 0, 0, 0, 9, 'm', 'd', 't', 'a')
			b = append(b, vBytes("key", 1)...)
		}
		return b
	}}
	ftyp := hKind{typ: "ftyp", own: func() []byte { return vBytes("ftyp", 8+4*vChoose("brands", 3)) }}
	data := hKind{typ: "data", own: func() []byte { return vBytes("data", 9) }}
	moov, meta, ilst := hKind{typ: "moov", kids: true}, hKind{typ: "meta", kids: true, own: func() []byte { return make([]byte, 4) }}, hKind{typ: "ilst", kids: true}
	free, wave, udta := hKind{typ: "----", kids: true}, hKind{typ: "wave", kids: true}, hKind{typ: "udta", kids: true}
	nam, item := hKind{typ: "\xa9nam", kids: true}, hKind{typ: "\x00\x00\x00\x02", own: func() []byte { return vBytes("item", 2) }}
	mean, cprt := hKind{typ: "mean", own: func() []byte { return vBytes("mean", 5) }}, hKind{typ: "cprt", own: func() []byte { return vBytes("cprt", 7) }}
	zzzz := hKind{typ: "zzzz"}
	switch set {
	case "items":
		return []hKind{keys, ilst, free, nam, data, meta}
	case "udta":
		return []hKind{udta, moov, meta, ilst, cprt, free}
	case "wave":
		return []hKind{wave, moov, zzzz, data}
	case "brand":
		return []hKind{ftyp, moov, keys, zzzz}
	}
	return []hKind{moov, meta, udta, wave, ilst, free, nam, keys, ftyp, data, mean, cprt, item, zzzz}
}

// hSplit reports whether a box of a type is expanded in a context.
func hC10Expand(typ string, ctx Context) bool {
	switch typ {
	case "moov", "meta", "udta", "wave", "ilst":
		return true
	case "----", "\xa9nam":
		return ctx.UnderIlst && !ctx.UnderIlstMeta
	}
	return false
}

// hC10Want computes the contexts of the boxes first to end-1, the siblings on top starting from ctx.
func hC10Want(nodes []*hNode, first, end int, ctx Context, root bool, out []Context) {
	for i := first; i < end; i = hSubtree(nodes, i) {
		nd := nodes[i]
		if root && nd.typ == "ftyp" {
			for q := 8; q < len(nd.own); q += 4 {
				if nd.own[q] == 'q' && nd.own[q+1] == 't' && nd.own[q+2] == ' ' && nd.own[q+3] == ' ' {
					ctx.IsQuickTimeCompatible = true
				}
			}
		}
		if nd.typ == "keys" {
			ctx.QuickTimeKeysMetaEntryCount = int(nd.own[7])
		}
		out[i] = ctx
		sub := ctx
		switch nd.typ {
		case "wave":
			sub.UnderWave = true
		case "udta":
			sub.UnderUdta = true
		case "ilst":
			sub.UnderIlst = true
		case "----", "\xa9nam":
			if ctx.UnderIlst && !ctx.UnderIlstMeta {
				sub.UnderIlstMeta = true
				sub.UnderIlstFreeMeta = nd.typ == "----"
			}
		}
		hC10Want(nodes, i+1, hSubtree(nodes, i), sub, false, out)
	}
}

func hC10() {
	kinds := hC10Kinds(vParam("set"))
	nodes := hForest(vParamInt("boxes"), 4, false, kinds)
	d := hEmit(nodes, false)
	want := make([]Context, len(nodes))
	hC10Want(nodes, 0, len(nodes), Context{}, true, want)
	for i, nd := range nodes {
		if len(nd.kids) > 0 && !hC10Expand(nd.typ, want[i]) {
			vStopPath() // not a container here
		}
		if nd.typ == "ftyp" && nd.depth > 0 {
			vStopPath()
		}
	}
	r := bytes.NewReader(d)
	k := 0
	infos := make([]*BoxInfo, len(nodes))
	_, err := ReadBoxStructure(r, func(h *ReadHandle) (interface{}, error) {
		vAssert(k < len(nodes) && h.BoxInfo.Offset == uint64(nodes[k].off), "the boxes are walked in order")
		vAssert(h.BoxInfo.Context == want[k], "a box is interpreted by its enclosing boxes, the brand and the preceding key table")
		infos[k] = &h.BoxInfo
		ctx := want[k]
		if nodes[k].typ == "\x00\x00\x00\x02" {
			vAssert(h.BoxInfo.IsSupportedType() == (ctx.UnderIlst && ctx.QuickTimeKeysMetaEntryCount >= 2), "items are numbered against the key table")
			vCover("item")
		}
		if nodes[k].typ == "data" {
			vAssert(h.BoxInfo.IsSupportedType() == ctx.UnderIlstMeta, "data boxes belong to items")
			vCover("item")
		}
		if ctx.IsQuickTimeCompatible {
			vCover("qt")
		}
		k++
		if len(nodes[k-1].kids) > 0 || hC10Expand(nodes[k-1].typ, ctx) {
			return h.Expand()
		}
		return nil, nil
	})
	vAssert(err == nil && k == len(nodes), "every box is walked")
	vCover("ok")
	// again, starting from the description of one of them
	i := vChoose("again", len(nodes))
	k = i
	_, err = ReadBoxStructureFromInternal(r, infos[i], func(h *ReadHandle) (interface{}, error) {
		vAssert(k < hSubtree(nodes, i) && h.BoxInfo.Offset == uint64(nodes[k].off), "the boxes below are walked in order")
		vAssert(h.BoxInfo.Context == want[k], "reading a box again later uses the same context")
		k++
		if len(nodes[k-1].kids) > 0 {
			return h.Expand()
		}
		return nil, nil
	})
	vAssert(err == nil && k == hSubtree(nodes, i), "every box below is walked again")
}

// bytes left over are tolerated exactly in QuickTime files
func hC10Lenient() {
	nb := vChoose("brands", 3)
	f := append([]byte{0, 0, 0, byte(16 + 4*nb), 'f', 't', 'y', 'p'}, vBytes("ftyp", 8+4*nb)...)
	qt := false
	for i := 16; i < len(f); i += 4 {
		qt = vOr(qt, vAnd(vAnd(f[i] == 'q', f[i+1] == 't'), vAnd(f[i+2] == ' ', f[i+3] == ' ')))
	}
	rest := vChoose("rest", 8)
	in := append([]byte{0, 0, 0, byte(16 + rest), 'm', 'o', 'o', 'v', 0, 0, 0, 8, 'f', 'r', 'e', 'e'}, vBytes("rest", rest)...)
	if vChoose("deep", 2) == 1 {
		in = append([]byte{0, 0, 0, byte(8 + len(in)), 'm', 'o', 'o', 'v'}, in...)
	}
	_, err := ReadBoxStructure(bytes.NewReader(append(f, in...)), func(h *ReadHandle) (interface{}, error) {
		if h.BoxInfo.Type == BoxTypeMoov() {
			vAssert(h.BoxInfo.IsQuickTimeCompatible == qt, "the brand list says whether the file is a QuickTime one")
			return h.Expand()
		}
		return nil, nil
	})
	if rest == 0 || qt {
		vAssert(err == nil, "a QuickTime file may have bytes left over")
		vCover("lenient")
	} else {
		vAssert(err != nil, "bytes left over are an error otherwise")
		vCover("strict")
	}
}
