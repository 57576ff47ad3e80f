package HARNESS

//use tree path types

import "bytes"

func vInst_C09(tier string) []string {
	n, m := "4", "3"
	if tier == "thorough" {
		n, m = "5", "4"
	}
	return []string{
		"hC09Paths boxes=" + n + " paths=1 @cover=found,none",
		"hC09Paths boxes=" + m + " paths=2 @cover=found,none",
		"hC09Paths boxes=2 paths=3",
		"hC09Parent boxes=" + m + " paths=1 @cover=found,none",
		"hC09Parent boxes=" + m + " paths=2",
		"hC09Empty",
		"hC09Payload @cover=ok",
	}
}

func vDoc_C09() []string {
	return []string{
		"bound: all well-formed files of up to 4 boxes (5 in the thorough tier) of three types in any nesting and header form with one path of up to 3 arbitrary elements (types or the wildcard); below a given box of up to 3 (4) boxes; of up to 3 (4) boxes with two paths of up to 2, and of 2 boxes with three paths",
		"bound: files with user data, item lists and sound descriptions, each payload compared with the one a traversal decodes",
		"outside: boxes whose type is four zero bytes (the wildcard's code); boxes of unknown type on the way to a requested path",
	}
}

var hC09Kinds = []hKind{
	{typ: "moov", kids: true},
	{typ: "trak", kids: true},
	{typ: "free", own: func() []byte { return vBytes("data", 1) }},
}

func hMatches(p, pattern BoxPath) bool {
	if len(p) != len(pattern) {
		return false
	}
	ok := true
	for i := range p {
		any := vAnd(vAnd(pattern[i][0] == 0, pattern[i][1] == 0), vAnd(pattern[i][2] == 0, pattern[i][3] == 0))
		eq := vAnd(vAnd(pattern[i][0] == p[i][0], pattern[i][1] == p[i][1]), vAnd(pattern[i][2] == p[i][2], pattern[i][3] == p[i][3]))
		ok = vAnd(ok, vOr(any, eq))
	}
	return ok
}

// hPatterns are n arbitrary paths.
func hPatterns(n, max int) []BoxPath {
	var out []BoxPath
	for i := 0; i < n; i++ {
		p := make(BoxPath, 1+vChoose("pathlen", max))
		for j := range p {
			copy(p[j][:], vBytes("elem", 4))
		}
		out = append(out, p)
	}
	return out
}

func hC09Check(nodes []*hNode, first, end, strip int, bis []*BoxInfo, err error, paths []BoxPath) {
	vAssert(err == nil, "extraction from a well-formed file succeeds")
	k := 0
	for i := first; i < end; i++ {
		p := hPathOf(nodes, i)[strip:]
		m := false
		for _, pt := range paths {
			m = vOr(m, hMatches(p, pt))
		}
		if m {
			vAssert(k < len(bis), "every box on a requested path is returned")
			bi, nd := bis[k], nodes[i]
			vAssert(bi.Offset == uint64(nd.off) && bi.Size == uint64(nd.size) && bi.HeaderSize == uint64(nd.hs), "the boxes are returned in file order with position and size")
			vAssert(hIs(bi.Type, nd.typ) && bi.ExtendToEOF == nd.ext, "the boxes are returned with their type")
			k++
		}
	}
	vAssert(k == len(bis), "no other box is returned")
	if k > 0 {
		vCover("found")
	} else {
		vCover("none")
	}
}

func hIs(t BoxType, s string) bool {
	return vAnd(vAnd(t[0] == s[0], t[1] == s[1]), vAnd(t[2] == s[2], t[3] == s[3]))
}

func hC09Paths() {
	np := vParamInt("paths")
	nodes := hForest(vParamInt("boxes"), 3, false, hC09Kinds)
	d := hEmit(nodes, np == 1 && vChoose("ext", 2) == 1)
	paths := hPatterns(np, 4-np)
	bis, err := ExtractBoxes(bytes.NewReader(d), nil, paths)
	hC09Check(nodes, 0, len(nodes), 0, bis, err, paths)
	if len(paths) == 1 {
		b2, err := ExtractBox(bytes.NewReader(d), nil, paths[0])
		hC09Check(nodes, 0, len(nodes), 0, b2, err, paths)
	}
}

// below a given box
func hC09Parent() {
	np := vParamInt("paths")
	nodes := hForest(vParamInt("boxes"), 3, np == 1, hC09Kinds)
	d := hEmit(nodes, false)
	i := vChoose("parent", len(nodes))
	if !hMayHaveKids(hC09Kinds, nodes[i].typ) {
		vStopPath()
	}
	nd := nodes[i]
	parent := &BoxInfo{Offset: uint64(nd.off), Size: uint64(nd.size), HeaderSize: uint64(nd.hs), Type: StrToBoxType(nd.typ)}
	paths := hPatterns(np, 3-np)
	in := *parent
	r := bytes.NewReader(d)
	bis, err := ExtractBoxes(r, parent, paths)
	hC09Check(nodes, i+1, hSubtree(nodes, i), nd.depth+1, bis, err, paths)
	vAssert(*parent == in, "the description of the parent is not changed")
	bps, err := ExtractBoxesWithPayload(r, parent, paths)
	vAssert(err == nil && len(bps) == len(bis), "extraction with payload returns the same boxes")
	for k := range bps {
		vAssert(bps[k].Info == *bis[k], "extraction with payload describes the same boxes")
		if f, ok := bps[k].Payload.(*Free); ok {
			vAssert(len(f.Data) == 1 && f.Data[0] == d[bis[k].Offset+bis[k].HeaderSize], "the payload is that of the box")
		}
		vAssert(bps[k].Payload.GetType() == bis[k].Type, "the payload has the type of the box")
	}
}

func hC09Empty() {
	d := []byte{0, 0, 0, 8, 'm', 'o', 'o', 'v'}
	r := bytes.NewReader(d)
	b, err := ExtractBoxes(r, nil, nil)
	vAssert(err == nil && len(b) == 0, "no path yields no box")
	p := hPatterns(2, 2)
	k := vChoose("which", 2)
	p[k] = nil
	_, err = ExtractBoxes(r, nil, p)
	vAssert(err != nil, "an empty path is rejected")
	_, err = ExtractBoxWithPayload(r, nil, BoxPath{})
	vAssert(err != nil, "an empty path is rejected")
}

// payloads are decoded in the context of the box
func hC09Payload() {
	leaf := func(n int) func() []byte { return func() []byte { return vBytes("p"+hItoa(n), n) } }
	nodes := hForest(4, 4, false, []hKind{
		{typ: "udta", kids: true},
		{typ: "ilst", kids: true},
		{typ: "----", kids: true, in: "ilst"},
		{typ: "\xa9nam", kids: true, in: "ilst"},
		{typ: "data", own: leaf(9), in: "\xa9nam"},
		{typ: "mean", own: leaf(6), in: "----"},
		{typ: "cprt", own: leaf(7), in: "udta"},
		{typ: "wave", kids: true},
		{typ: "mp4a", own: leaf(4), in: "wave"},
		{typ: "keys", own: func() []byte {
			return append([]byte{0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 9, 'm', 'd', 't', 'a'}, vBytes("key", 1)...)
		}},
		{typ: "\x00\x00\x00\x01", own: leaf(24), in: "ilst"},
	})
	d := hEmit(nodes, false)
	r := bytes.NewReader(d)
	type seen struct {
		info BoxInfo
		path BoxPath
		box  IBox
		n    uint64
	}
	var all []seen
	_, err := ReadBoxStructure(r, func(h *ReadHandle) (interface{}, error) {
		b, n, err := h.ReadPayload()
		if err != nil {
			return nil, err
		}
		all = append(all, seen{h.BoxInfo, h.Path, b, n})
		return h.Expand()
	})
	if err != nil {
		return
	}
	vAssert(len(all) == len(nodes), "all boxes are walked")
	i := len(all) - 1
	bps, err := ExtractBoxWithPayload(r, nil, all[i].path)
	vAssert(err == nil, "a walkable file can be extracted from")
	found := false
	for _, bp := range bps {
		if bp.Info.Offset == all[i].info.Offset {
			vAssert(bp.Info == all[i].info, "extraction describes a box as traversal does")
			vAssert(vEqual(bp.Payload, all[i].box), "extraction decodes a box as traversal does")
			found = true
		}
	}
	vAssert(found, "the box is found on its path")
	vCover("ok")
}
