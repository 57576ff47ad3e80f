package HARNESS

import (
	"errors"
	"io"
)

var hFault = errors.New("injected fault")

// hFile is a file in memory. With faults set, one of its operations fails. With splits set, up to that many of its
// reads deliver less than they could, and data may come together with the end of the file.
type hFile struct {
	d      []byte
	pos    int64
	faults bool
	failed bool
	eofErr bool // the failure is an unexpected end of file
	partly bool // the failing operation transfers a part
	splits int
	ones   bool // one byte at a time
	eof    bool // may report the end of the file together with the last data
}

// hit decides whether the current operation fails.
func (f *hFile) hit() bool {
	if f.faults && !f.failed && vChoose("fail", 2) == 1 {
		f.failed = true
	}
	return f.faults && f.failed && f.once()
}

func (f *hFile) once() bool {
	f.faults = false
	return true
}

func (f *hFile) fault() error {
	if f.eofErr {
		return io.ErrUnexpectedEOF
	}
	return hFault
}

func (f *hFile) Seek(off int64, whence int) (int64, error) {
	if f.hit() {
		return 0, f.fault()
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.d))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = off
	return off, nil
}

func (f *hFile) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	avail := 0
	if f.pos < int64(len(f.d)) {
		avail = len(f.d) - int(f.pos)
	}
	if avail > len(b) {
		avail = len(b)
	}
	if f.hit() {
		n := 0
		if f.partly && avail > 1 {
			n = copy(b[:avail-1], f.d[f.pos:])
			f.pos += int64(n)
		}
		return n, f.fault()
	}
	if avail == 0 {
		return 0, io.EOF
	}
	if avail > 1 {
		if f.ones {
			avail = 1
		} else if f.splits > 0 && vChoose("split", 2) == 1 {
			f.splits--
			if avail > 6 {
				cuts := []int{1, 2, avail / 2, avail - 1}
				avail = cuts[vChoose("cut", len(cuts))]
			} else {
				avail = 1 + vChoose("cut", avail-1)
			}
		}
	}
	n := copy(b[:avail], f.d[f.pos:])
	f.pos += int64(n)
	if f.eof && f.pos == int64(len(f.d)) && vChoose("eofWithData", 2) == 1 {
		return n, io.EOF
	}
	return n, nil
}

func (f *hFile) Write(b []byte) (int, error) {
	if f.hit() {
		n := 0
		if f.partly && len(b) > 1 {
			n = len(b) - 1
			f.put(b[:n])
		}
		return n, f.fault()
	}
	f.put(b)
	return len(b), nil
}

func (f *hFile) put(b []byte) {
	for int64(len(f.d)) < f.pos {
		f.d = append(f.d, 0)
	}
	n := copy(f.d[f.pos:], b)
	f.d = append(f.d, b[n:]...)
	f.pos += int64(len(b))
}
