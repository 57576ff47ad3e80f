package HARNESS

// Whole files put together box by box.

// hPut appends a box.
func hPut(out []byte, typ string, payload ...byte) []byte {
	n := 8 + len(payload)
	out = append(out, byte(n>>24), byte(n>>16), byte(n>>8), byte(n), typ[0], typ[1], typ[2], typ[3])
	return append(out, payload...)
}

// hTable is a version-0 table of n entries of a size with arbitrary content.
func hTable(name string, n, size int) []byte {
	b := vBytes(name, 8+n*size)
	b[0], b[4], b[5], b[6], b[7] = 0, 0, 0, 0, byte(n)
	return b
}


// hPutAll concatenates boxes.
func hPutAll(boxes ...[]byte) []byte {
	var out []byte
	for _, b := range boxes {
		out = append(out, b...)
	}
	return out
}

// hBox is a box around other boxes.
func hBox(typ string, kids ...[]byte) []byte { return hPut(nil, typ, hPutAll(kids...)...) }

// hNum is n bytes of a number.
func hNum(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> uint(8*(n-1-i)))
	}
	return b
}

// hConst is n distinct constant bytes.
func hConst(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = seed + byte(i)*3
	}
	return b
}

// hMovie is a small file: brand, two tracks (video and audio), user data with an item list, a fragment and media data.
func hMovie() []byte {
	return hMovieOf([]byte{0, 0, 0, 0, 3, 25, 0, 1, 0, 4, 17, 64, 21, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 2, 18, 16, 6, 1, 2})
}

// hMovieLong is the same with the lengths of the descriptors in the form that the encoder uses.
func hMovieLong() []byte {
	l := func(n byte) []byte { return []byte{0x80, 0x80, 0x80, n} }
	return hMovieOf(hPutAll(hNum(0, 4), []byte{3}, l(37), []byte{0, 1, 0}, []byte{4}, l(20), []byte{64, 21, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0},
		[]byte{5}, l(2), []byte{18, 16}, []byte{6}, l(1), []byte{2}))
}

func hMovieOf(esds []byte) []byte {
	full := func(n int) []byte { return make([]byte, n) }
	vis := make([]byte, 78)
	vis[7], vis[25], vis[27] = 1, 64, 48
	avcC := []byte{1, 66, 192, 30, 255, 225, 0, 2, 103, 66, 1, 0, 2, 104, 206}
	aud := make([]byte, 28)
	aud[7], aud[17], aud[19], aud[24] = 1, 2, 16, 172
	table := func(count int, vals ...uint64) []byte {
		b := append(full(4), hNum(uint64(count), 4)...)
		for _, v := range vals {
			b = append(b, hNum(v, 4)...)
		}
		return b
	}
	track := func(entry []byte) []byte {
		stbl := hBox("stbl",
			hBox("stsd", full(4), hNum(1, 4), entry),
			hBox("stts", table(1, 2, 7)),
			hBox("ctts", table(1, 2, 3)),
			hBox("stsc", table(1, 1, 2, 1)),
			hBox("stsz", full(4), hNum(0, 4), hNum(2, 4), hNum(6, 4), hNum(5, 4)),
			hBox("stco", table(1, 900)))
		return hBox("trak", hBox("tkhd", full(84)), hBox("edts", hBox("elst", table(1, 5, 0, 1<<16))), hBox("mdia", hBox("mdhd", full(24)), hBox("minf", stbl)))
	}
	name := []byte{0xa9, 'n', 'a', 'm'}
	ilst := hBox("ilst", hBox(string(name), hBox("data", hNum(1, 4), full(4), []byte("x"))))
	moov := hBox("moov", hBox("mvhd", full(100)),
		track(hBox("avc1", vis, hBox("avcC", avcC))),
		track(hBox("mp4a", aud, hBox("esds", esds))),
		hBox("udta", hBox("meta", full(4), ilst)))
	moof := hBox("moof", hBox("mfhd", full(8)), hBox("traf", hBox("tfhd", full(4), hNum(1, 4)), hBox("tfdt", full(4), hNum(9, 4)),
		hBox("trun", []byte{0, 0, 3, 0}, hNum(1, 4), hNum(4, 4), hNum(8, 4))))
	return hPutAll(hBox("ftyp", []byte("isom"), full(4), []byte("mp41")), moov, moof, hBox("mdat", []byte{0, 0, 0, 2, 0x65, 7}))
}
