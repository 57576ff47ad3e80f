package HARNESS

//use types

import "bytes"

func vInst_C01(tier string) []string { return hTypeInsts("hC01", tier) }

func hC01() {
	bt := hType()
	ctx := hCtx()
	p := hPayload()
	size := len(p)
	buf := append([]byte{1, 2, 3}, p...)
	r := bytes.NewReader(append(buf[:len(buf):len(buf)], vBytes("trail", 4)...))
	r.Seek(3, 0)
	box, n, err := UnmarshalAny(r, bt, uint64(size), ctx)
	if err != nil {
		vCover("error")
		return
	}
	vCover("ok")
	vObsU("n", n)
	vAssert(n <= uint64(size), "the reported number of consumed bytes is at most the payload size")
	pos, _ := r.Seek(0, 1)
	vAssert(pos == int64(3+n), "the reader stands after the consumed bytes")
	r2 := bytes.NewReader(p)
	box2, n2, err2 := UnmarshalAny(r2, bt, uint64(size), ctx)
	vAssert(err2 == nil, "decoding does not need bytes after the payload")
	vAssert(n2 == n, "bytes after the payload do not influence the consumed size")
	vAssert(vEqual(box, box2), "bytes after the payload do not influence the box")
}
