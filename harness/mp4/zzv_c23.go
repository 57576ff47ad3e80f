package HARNESS

//use types

import "bytes"

func vInst_C23(tier string) []string {
	var out []string
	for _, mode := range []string{"0", "1"} {
		for _, i := range hTypeInsts("hC23", tier) {
			out = append(out, i+" big="+mode)
		}
	}
	return append(out, "hC23TrunKnown @known=KF-TRUN @nowit")
}

func vDoc_C23() []string {
	return []string{
		"bound: every registered type, payloads of up to the sizes of C01, in every context, with a declared payload size equal to the available bytes or any larger 64-bit number; allocations are counted by the bytes requested from make, new and append during the call, which may come to 64 KiB plus 1 KiB per available byte",
		"assume: a run of samples (trun) without any per-sample field is restricted to three entries in the general instances; the known finding is about it",
		"outside: allocations of the runtime itself and of the standard library's internals that the engine models (fmt, reflect); the replay measures them too, within the same limit",
	}
}

const hC23Base, hC23PerByte = 65536, 1024

func hC23() {
	bt := hType()
	ctx := hCtx()
	p := hPayload()
	size := uint64(len(p))
	if vParam("big") == "1" {
		size = vU64("declared")
		vAssume(size > uint64(len(p)))
	}
	r := bytes.NewReader(append([]byte{}, p...))
	vLimitAlloc(hC23Base + hC23PerByte*len(p))
	_, n, err := UnmarshalAny(r, bt, size, ctx)
	vUnlimitAlloc()
	if err != nil {
		vCover("error")
		return
	}
	vCover("ok")
	vAssert(n <= size, "the box does not exceed its payload")
	vAssert(n <= uint64(len(p)), "what was decoded was available")
}

// hC23TrunKnown: entries of a run without per-sample fields take no bits at all, and the decoder creates as many as
// the count says.
func hC23TrunKnown() {
	p := []byte{0, 0, 0, 0, 0, 4, 0, 0}
	vLimitAlloc(hC23Base + hC23PerByte*len(p))
	UnmarshalAny(bytes.NewReader(p), BoxTypeTrun(), uint64(len(p)), Context{})
	vUnlimitAlloc()
}
