package HARNESS

import (
	"bytes"
	"io"
)

func vInst_C13(tier string) []string {
	steps, max := 3, 17
	if tier == "thorough" {
		steps, max = 4, 25
	}
	var out []string
	for a := 0; a < 3; a++ {
		for b := 0; b < 2; b++ {
			out = append(out, "hC13Write first="+string(rune('0'+a))+" second="+string(rune('0'+b))+" steps="+string(rune('0'+steps)))
		}
	}
	for a := 0; a < 7; a++ {
		out = append(out, "hC13Read first="+string(rune('0'+a))+" steps="+string(rune('0'+steps)))
	}
	for n := 1; n <= 4; n++ {
		for w := 0; w < max; w += 4 {
			out = append(out, "hC13Trip groups="+string(rune('0'+n))+" lo="+hDec(w)+" hi="+hDec(w+4))
		}
	}
	return append(out, "hC13Fault", "hC13Wide @cover=end")
}

func vDoc_C13() []string {
	return []string{
		"bound: every sequence of 3 (4 in the thorough tier) write operations: one bit, a group of 0 to 17 bits out of 1 to 3 bytes, or 0 to 2 whole bytes; contents arbitrary",
		"bound: every sequence of 3 (4) read or seek operations on 5 arbitrary bytes: one bit, a group of up to 17 bits, up to 2 bytes, seeking to any place from start, current position or end",
		"bound: 1 to 4 groups of equal or different widths up to 20 (28) bits written and read back; one group of 64 and one of 100 bits",
		"outside: groups wider than the data handed to the writer (a caller's mistake)",
	}
}

func hDec(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return hDec(n/10) + string(rune('0'+n%10))
}

// hBits appends the lowest w bits of b, most significant first.
func hBits(bits []byte, b []byte, w int) []byte {
	for i := len(b)*8 - w; i < len(b)*8; i++ {
		bits = append(bits, b[i/8]>>uint(7-i%8)&1)
	}
	return bits
}

// hPack packs whole bytes.
func hPack(bits []byte) []byte {
	out := make([]byte, len(bits)/8)
	for i := range out {
		for j := 0; j < 8; j++ {
			out[i] = out[i]<<1 | bits[i*8+j]
		}
	}
	return out
}

func hC13Write() {
	buf := &bytes.Buffer{}
	w := NewWriter(buf)
	var bits []byte
	for i := 0; i < vParamInt("steps"); i++ {
		op := 0
		switch i {
		case 0:
			op = vParamInt("first")
		default:
			op = vChoose("op", 3)
		case 1:
			op = vParamInt("second")
			if op == 1 {
				op += vChoose("op", 2)
			}
		}
		switch op {
		case 0:
			b := vU8("bit") & 1
			vAssert(w.WriteBit(b == 1) == nil, "writing a bit succeeds")
			bits = append(bits, b)
		case 1:
			n := 1 + vChoose("bytes", 3)
			max := n * 8
			if max > 17 {
				max = 17
			}
			width := vChoose("width", max+1)
			b := vBytes("group", n)
			keep := vClone(b)
			vAssert(w.WriteBits(b, uint(width)) == nil, "writing a group succeeds")
			vAssert(vBytesEq(b, keep.([]byte)), "the data handed over is left alone")
			bits = hBits(bits, b, width)
		case 2:
			b := vBytes("whole", vChoose("len", 3))
			n, err := w.Write(b)
			if len(bits)%8 != 0 {
				vAssert(err == ErrInvalidAlignment && n == 0, "writing bytes in the middle of a byte is rejected")
				vCover("unaligned")
				break
			}
			vAssert(err == nil && n == len(b), "writing bytes on a byte border succeeds")
			bits = hBits(bits, b, len(b)*8)
		}
		vAssert(vBytesEq(buf.Bytes(), hPack(bits)), "the output is the concatenation of the groups, most significant bit first")
	}
}

func hC13Read() {
	d := vBytes("d", 5)
	var all []byte
	all = hBits(all, d, 40)
	keep := vClone(d).([]byte)
	r := NewReadSeeker(bytes.NewReader(d))
	pos := 0 // in bits
	for i := 0; i < vParamInt("steps"); i++ {
		op := 0
		if i == 0 {
			op = vParamInt("first")
		} else {
			op = vChoose("op", 7)
		}
		switch op {
		case 0:
			b, err := r.ReadBit()
			if pos == 40 {
				vAssert(err != nil, "reading past the end is an error")
				return
			}
			vAssert(err == nil, "reading a bit succeeds")
			vAssert(b == (all[pos] == 1), "the bit is the next one, most significant first")
			pos++
		case 1, 2:
			width := vChoose("width", 9)
			if op == 2 {
				width += 9
			}
			b, err := r.ReadBits(uint(width))
			if pos+width > 40 {
				vAssert(err != nil, "reading past the end is an error")
				return
			}
			vAssert(err == nil, "reading a group succeeds")
			vAssert(len(b) == (width+7)/8, "a group comes in as few bytes as possible")
			vAssert(vBytesEq(hBits(nil, b, len(b)*8), append(make([]byte, len(b)*8-width), all[pos:pos+width]...)), "a group is the next bits, most significant first, padded with zeros in front")
			pos += width
		case 3:
			b := make([]byte, vChoose("len", 3))
			n, err := r.Read(b)
			if pos%8 != 0 {
				vAssert(err == ErrInvalidAlignment && n == 0, "reading bytes in the middle of a byte is rejected")
				break
			}
			if len(b) == 0 {
				vAssert(n == 0, "nothing was asked for")
				break
			}
			if pos == 40 {
				vAssert(err != nil && n == 0, "reading past the end is an error")
				return
			}
			vAssert(err == nil && n > 0 && n <= len(b), "reading bytes on a byte border succeeds")
			vAssert(vBytesEq(b[:n], d[pos/8:pos/8+n]), "the bytes are the next ones")
			pos += n * 8
		case 4, 5, 6:
			off := vChoose("off", 6)
			whence := io.SeekStart
			want := off
			if op == 5 {
				whence, off = io.SeekCurrent, off-2
				want = pos/8 + off
			} else if op == 6 {
				whence, off = io.SeekEnd, -off
				want = 5 + off
			}
			n, err := r.Seek(int64(off), whence)
			if op == 5 && pos%8 != 0 {
				vAssert(err == ErrInvalidAlignment, "relative seeking in the middle of a byte is rejected")
				break
			}
			if want < 0 || want > 5 {
				return
			}
			vAssert(err == nil && n == int64(want), "seeking reports the new position")
			pos = want * 8
		}
	}
	vAssert(vBytesEq(d, keep), "the data is left alone")
}

func hC13Trip() {
	n := vParamInt("groups")
	lo, hi := vParamInt("lo"), vParamInt("hi")
	buf := &bytes.Buffer{}
	w := NewWriter(buf)
	var vals [][]byte
	var widths []int
	total := 0
	for i := 0; i < n; i++ {
		width := lo + vChoose("w", hi-lo)
		b := vBytes("v", (width+7)/8)
		if width%8 != 0 {
			b[0] &= 1<<uint(width%8) - 1
		}
		vAssert(w.WriteBits(b, uint(width)) == nil, "writing succeeds")
		vals = append(vals, b)
		widths = append(widths, width)
		total += width
	}
	for ; total%8 != 0; total++ {
		vAssert(w.WriteBit(false) == nil, "padding succeeds")
	}
	vAssert(buf.Len() == total/8, "the output is as long as the groups")
	r := NewReader(buf)
	for i := range vals {
		b, err := r.ReadBits(uint(widths[i]))
		vAssert(err == nil, "reading back succeeds")
		vAssert(vBytesEq(b, vals[i]), "each group reads back as written")
	}
}

func hC13Wide() {
	buf := &bytes.Buffer{}
	w := NewWriter(buf)
	skew := vChoose("skew", 8)
	for i := 0; i < skew; i++ {
		vAssert(w.WriteBit(i&1 == 0) == nil, "a bit")
	}
	a, b := vBytes("a", 8), vBytes("b", 13)
	b[0] &= 15
	vAssert(w.WriteBits(a, 64) == nil && w.WriteBits(b, 100) == nil, "writing succeeds")
	for i := skew + 164; i%8 != 0; i++ {
		vAssert(w.WriteBit(true) == nil, "padding succeeds")
	}
	r := NewReader(buf)
	for i := 0; i < skew; i++ {
		x, err := r.ReadBit()
		vAssert(err == nil && x == (i&1 == 0), "a bit")
	}
	x, err := r.ReadBits(64)
	vAssert(err == nil && vBytesEq(x, a), "64 bits read back")
	x, err = r.ReadBits(100)
	vAssert(err == nil && vBytesEq(x, b), "100 bits read back")
	vCover("end")
}

// hBadSink accepts a number of bytes, then fails.
type hBadSink struct {
	left int
	n    int
}

func (s *hBadSink) Write(b []byte) (int, error) {
	if s.left < len(b) {
		n := s.left
		s.left = 0
		return n, io.ErrShortWrite
	}
	s.left -= len(b)
	s.n += len(b)
	return len(b), nil
}

// a failing output is reported by the operation that completes the byte
func hC13Fault() {
	s := &hBadSink{left: vChoose("left", 3)}
	left := s.left
	w := NewWriter(s)
	written := 0
	for i := 0; i < 3; i++ {
		width := vChoose("w", 12)
		err := w.WriteBits(vBytes("g", 2), uint(width))
		written += width
		if written/8 > left {
			vAssert(err != nil, "a failing output is reported")
			return
		}
		vAssert(err == nil, "writing succeeds while the output works")
	}
}
