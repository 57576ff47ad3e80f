package HARNESS

// Where the boxes of a well-formed file lie, found without the library.

type hEntry struct {
	off, size, hs, depth, parent int
	typ                          string
}

// hOwn is the length of a container's own fields, -1 for a box without children.
func hOwn(typ string, inIlst bool) int {
	switch typ {
	case "moov", "trak", "mdia", "minf", "stbl", "edts", "udta", "moof", "traf", "ilst", "mvex", "dinf", "sinf", "schi", "wave", "mfra":
		return 0
	case "meta":
		return 4
	case "stsd", "dref":
		return 8
	case "avc1", "encv", "hvc1", "hev1", "vp08", "vp09", "av01":
		return 78
	case "mp4a", "enca", "Opus":
		return 28
	}
	if inIlst {
		return 0
	}
	return -1
}

func hBE(d []byte, p int) int {
	return int(d[p])<<24 | int(d[p+1])<<16 | int(d[p+2])<<8 | int(d[p+3])
}

// hIndex lists the boxes of a file with concrete headers in preorder.
func hIndex(d []byte) []hEntry {
	var out []hEntry
	var walk func(p, end, depth, parent int, inIlst bool)
	walk = func(p, end, depth, parent int, inIlst bool) {
		for end-p >= 8 {
			e := hEntry{off: p, size: hBE(d, p), hs: 8, depth: depth, parent: parent, typ: string(d[p+4 : p+8])}
			if e.size == 0 {
				e.size = end - p
			}
			if e.size == 1 {
				e.size, e.hs = hBE(d, p+12), 16
			}
			k := len(out)
			out = append(out, e)
			if own := hOwn(e.typ, inIlst); own >= 0 {
				walk(p+e.hs+own, p+e.size, depth+1, k, e.typ == "ilst")
			}
			p += e.size
		}
	}
	walk(0, len(d), 0, -1, false)
	return out
}

// hSmall is a file of a dozen boxes of several kinds.
func hSmall() []byte {
	name := []byte{0xa9, 'n', 'a', 'm'}
	ilst := hBox("ilst", hBox(string(name), hBox("data", hNum(1, 4), hNum(0, 4), []byte("x"))))
	return hPutAll(
		hBox("ftyp", []byte("isom"), hNum(0, 4), []byte("mp41")),
		hBox("moov", hBox("trak", hBox("stsd", hNum(0, 8), hBox("uuu1", hNum(7, 5)))), hBox("udta", hBox("meta", hNum(0, 4), ilst))),
		hBox("moof", hBox("traf", hBox("tfdt", hNum(0, 4), hNum(9, 4)))),
		hBox("mdat", []byte{1, 2, 3, 4, 5, 6, 7, 8, 9}))
}
