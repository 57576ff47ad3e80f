package HARNESS

import "bytes"

// An independent reading of the box structure of a file: which boxes a traversal has to report, given what the
// visitor did with each of them.

const (
	hSkip    = iota // leave the box alone
	hExpand         // walk into it
	hPayExp         // decode the payload, then walk into it
	hPay            // decode the payload
	hData           // copy the payload
	hDataExp        // copy the payload, then walk into it
	hExpPay         // walk into it, then decode the payload
)

const (
	hOK = iota
	hErr
	hUnknown // outside what the reference decides
)

type hVisit struct {
	off, size, hs int
	ext           bool
	typ           BoxType
	path          BoxPath
	ctx           Context
	own           int // length of the box's own fields
	act           int
	kept          BoxPath // the path handed to the visitor, as the visitor sees it later
}

type hRef struct {
	d      []byte
	acts   []int
	visits []hVisit

	// When menu is not empty the walk makes the file up as it goes: it chooses the headers it comes across, the other
	// bytes stay as they are. Every file is covered by a choice as far as the types are concerned on the menu.
	menu  []hMenu
	depth int  // maximal nesting
	plain bool // no 16-byte headers except the first choice
	max   int  // maximal number of boxes
	coars bool // box sizes around the interesting ones only
	from  int  // what lies before is there already
	nz    int  // the four bytes here must not be all zero
}

// hMenu is a type of box to choose and what the visitor may do with it.
type hMenu struct {
	typ  string
	acts []int
}

func (r *hRef) put32(i, v int) {
	r.d[i], r.d[i+1], r.d[i+2], r.d[i+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
}

// hPick chooses one of the different values from 0 to max.
func hPick(name string, vals []int, max int) int {
	var l []int
	for _, v := range vals {
		ok := v >= 0 && v <= max
		for _, o := range l {
			ok = ok && o != v
		}
		if ok {
			l = append(l, v)
		}
	}
	return l[vChoose(name, len(l))]
}

// choose makes up a header at p, where the parent ends at end.
func (r *hRef) choose(p, end, depth int) {
	n := len(r.d)
	if n-p < 8 || p < r.from {
		return
	}
	if r.max > 0 && len(r.visits) >= r.max {
		vStopPath()
	}
	c := 0
	if r.coars {
		c = hPick("size", []int{0, 1, 2, 8, 11, end - p - 8, end - p - 1, end - p, end - p + 1, n - p, n - p + 1}, n-p+1)
	} else {
		c = vChoose("size", n-p+2)
	}
	switch {
	case c == 0, c == 1 && n-p < 16:
		r.put32(p, c)
	case c == 1:
		// 16-byte header
		r.put32(p, 1)
		if r.plain {
			vStopPath()
		}
		if r.coars {
			c = hPick("size64", []int{0, 1, 2, 3, 5, end - p - 13, end - p - 14}, n-p-13)
		} else {
			c = vChoose("size64", n-p-16+4)
		}
		switch c {
		case 0: // smaller than the header
			x := vU8("small64")
			vAssume(x < 16)
			copy(r.d[p+8:], make([]byte, 7))
			r.d[p+15] = x
		case 1: // larger than the file, 32 bits
			x := vU32("large32")
			vAssume(vOr(x == uint32(n-p+1), x > 40000))
			r.put32(p+8, 0)
			copy(r.d[p+12:], []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)})
		case 2: // more than 4 GiB
			vAssume(vOr(vOr(r.d[p+8] != 0, r.d[p+9] != 0), vOr(r.d[p+10] != 0, r.d[p+11] != 0)))
		default:
			r.put32(p+8, 0)
			r.put32(p+12, c-3+16)
		}
	case c < 8:
		if c > 2 {
			vStopPath() // 2 stands for all of them
		}
		x := vU8("small")
		vAssume(vAnd(x >= 2, x < 8))
		r.put32(p, 0)
		r.d[p+3] = x
	case c == n-p+1: // larger than the file
		x := vU32("large")
		vAssume(vOr(x == uint32(n-p+1), x > 40000))
		copy(r.d[p:], []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)})
	default:
		r.put32(p, c)
	}
	m := r.menu[vChoose("type", len(r.menu))]
	copy(r.d[p+4:], m.typ)
	act := m.acts[vChoose("act", len(m.acts))]
	if depth+1 >= r.depth && r.depth > 0 && act != hSkip && act != hPay && act != hData {
		vStopPath()
	}
	r.acts = append(r.acts, act)
}

func (r *hRef) u32(i int) int {
	return int(r.d[i])<<24 | int(r.d[i+1])<<16 | int(r.d[i+2])<<8 | int(r.d[i+3])
}

func hIs(t BoxType, s string) bool {
	return vAnd(vAnd(t[0] == s[0], t[1] == s[1]), vAnd(t[2] == s[2], t[3] == s[3]))
}

// hOwnFields is the length of the fields of a box that precede its children.
func (r *hRef) ownFields(t BoxType, p, end int, ctx Context) (int, int) {
	switch {
	case hIs(t, "moov"), hIs(t, "trak"), hIs(t, "mdia"), hIs(t, "udta"), hIs(t, "wave"), hIs(t, "ilst"), hIs(t, "moof"), hIs(t, "traf"), hIs(t, "dinf"):
		return 0, hOK
	case hIs(t, "free"), hIs(t, "mdat"), hIs(t, "skip"):
		return end - p, hOK
	case hIs(t, "meta"):
		if end-p < 4 {
			return 0, hOK
		}
		if len(r.d)-p < 4 {
			return 0, hErr
		}
		if len(r.menu) > 0 && p >= r.from {
			if vChoose("meta", 2) == 0 {
				r.put32(p, 0)
				return 4, hOK
			}
			r.nz = p
			return 0, hOK
		}
		if r.u32(p) != 0 {
			return 0, hOK
		}
		return 4, hOK
	case hIs(t, "stsd"):
		if end-p < 8 || len(r.d)-p < 8 || r.d[p] != 0 {
			return 0, hErr
		}
		return 8, hOK
	case vAnd(ctx.UnderIlst, !ctx.UnderIlstMeta):
		if hIs(t, "----") || hIs(t, "aART") || hIs(t, "covr") {
			return 0, hOK
		}
	case hIs(t, "data") && ctx.UnderIlstMeta:
		if end-p < 8 {
			return 0, hErr
		}
		return end - p, hOK
	case hIs(t, "zzzz"):
		return 0, hErr
	}
	return 0, hUnknown
}

// hHeader reads a header at p; n is the number of bytes of the file.
func (r *hRef) header(p, n int) (size, hs int, ext bool, st int) {
	if n-p < 8 {
		return 0, 0, false, hErr
	}
	size, hs = r.u32(p), 8
	if size == 0 {
		return n - p, 8, true, hOK
	}
	if size == 1 {
		if n-p < 16 {
			return 0, 0, false, hErr
		}
		hi := r.u32(p + 8)
		size, hs = r.u32(p+12), 16
		if hi >= 1<<31 || hi == 1<<31-1 && size > 1<<32-1-p {
			return 0, 0, false, hErr
		}
		size |= hi << 32
	}
	if size < hs {
		return 0, 0, false, hErr
	}
	return size, hs, false, hOK
}

// box reports one box and, if the visitor did, walks into it.
func (r *hRef) box(v hVisit) int {
	k := len(r.visits)
	p, end := v.off+v.hs, v.off+v.size
	if hIs(v.typ, "ftyp") && len(v.path) == 0 {
		if end > len(r.d) || end-p < 8 || (end-p)%4 != 0 {
			return hErr
		}
		for q := p + 8; q < end; q += 4 {
			if string(r.d[q:q+4]) == "qt  " {
				v.ctx.IsQuickTimeCompatible = true
			}
		}
	}
	if hIs(v.typ, "keys") {
		n, st := r.keys(p, end)
		if st != hOK {
			return st
		}
		v.ctx.QuickTimeKeysMetaEntryCount = n
	}
	path := append(BoxPath{}, v.path...)
	v.path = append(path, v.typ)
	if k >= len(r.acts) {
		return hErr // the visitor was not called
	}
	v.act = r.acts[k]
	r.visits = append(r.visits, v)
	if v.act == hSkip {
		return hOK
	}
	if end > len(r.d) && (v.act == hData || v.act == hDataExp) {
		return hErr
	}
	if v.act == hData {
		return hOK
	}
	own, st := r.ownFields(v.typ, p, end, v.ctx)
	if st == hOK && own > len(r.d)-p {
		st = hErr
	}
	if st != hOK {
		return st
	}
	if v.size-v.hs >= 1<<61 {
		return hUnknown
	}
	r.visits[k].own = own
	if v.act == hPay {
		r.notZero(p)
		return hOK
	}
	ctx := v.ctx
	switch {
	case hIs(v.typ, "wave"):
		ctx.UnderWave = true
	case hIs(v.typ, "ilst"):
		ctx.UnderIlst = true
	case ctx.UnderIlst && !ctx.UnderIlstMeta && (hIs(v.typ, "----") || hIs(v.typ, "aART") || hIs(v.typ, "covr")):
		ctx.UnderIlstMeta = true
		ctx.UnderIlstFreeMeta = hIs(v.typ, "----")
	case hIs(v.typ, "udta"):
		ctx.UnderUdta = true
	}
	return r.walk(p+own, end, false, v.path, ctx)
}

func (r *hRef) notZero(p int) {
	if r.nz > 0 && r.nz == p {
		vAssume(r.u32(p) != 0)
		r.nz = 0
	}
}

func (r *hRef) walk(p, end int, root bool, path BoxPath, ctx Context) int {
	for {
		if !root && end-p < 8 {
			r.notZero(p)
			break
		}
		if len(r.menu) > 0 {
			r.choose(p, end, len(path))
		}
		r.notZero(p)
		size, hs, ext, st := r.header(p, len(r.d))
		if root && len(r.d)-p < 16 && st == hErr {
			if p >= len(r.d) {
				return hOK
			}
			return hUnknown // a truncated header at the end of the file
		}
		if st != hOK {
			return st
		}
		if !root && size > end-p {
			return hErr
		}
		v := hVisit{off: p, size: size, hs: hs, ext: ext, path: path, ctx: ctx, typ: BoxType{r.d[p+4], r.d[p+5], r.d[p+6], r.d[p+7]}}
		k := len(r.visits)
		if st := r.box(v); st != hOK {
			return st
		}
		if hIs(v.typ, "ftyp") && len(path) == 0 && r.visits[k].ctx.IsQuickTimeCompatible {
			ctx.IsQuickTimeCompatible = true
		}
		if hIs(v.typ, "keys") {
			ctx.QuickTimeKeysMetaEntryCount = r.visits[k].ctx.QuickTimeKeysMetaEntryCount
		}
		p += size
	}
	if end != p && !ctx.IsQuickTimeCompatible {
		return hErr
	}
	return hOK
}

// keys is the entry count of a key table, hUnknown when the table is malformed.
func (r *hRef) keys(p, end int) (int, int) {
	if end > len(r.d) || end-p < 8 || r.d[p] != 0 {
		return 0, hUnknown
	}
	n := r.u32(p + 4)
	if n > 3 {
		return 0, hUnknown
	}
	q := p + 8
	for i := 0; i < n; i++ {
		if end-q < 8 {
			return 0, hUnknown
		}
		l := r.u32(q)
		if l < 8 || l > end-q {
			return 0, hUnknown
		}
		q += l
	}
	return n, hOK
}

// hWalk walks a file with ReadBoxStructure; pick says what to do with a box.
type hWalk struct {
	acts   []int
	visits []hVisit
	err    error
}

func (w *hWalk) handler(d []byte, pick func(h *ReadHandle) int) ReadHandler {
	return func(h *ReadHandle) (interface{}, error) {
		k := len(w.acts)
		act := pick(h)
		w.acts = append(w.acts, act)
		bi := h.BoxInfo
		w.visits = append(w.visits, hVisit{int(bi.Offset), int(bi.Size), int(bi.HeaderSize), bi.ExtendToEOF, bi.Type, append(BoxPath{}, h.Path...), bi.Context, -1, act, h.Path})
		parent := -1
		if len(h.Params) == 1 {
			parent = h.Params[0].(int)
		}
		vAssert(parent < k && (parent >= 0) == (len(h.Path) > 1), "the visitor is given the parameters of the expansion")
		if parent >= 0 {
			pv := w.visits[parent]
			vAssert(len(pv.path) == len(h.Path)-1, "the path is one longer than the parent's")
		}
		if act == hData || act == hDataExp {
			var buf bytes.Buffer
			n, err := h.ReadData(&buf)
			if err != nil {
				return nil, err
			}
			vAssert(n == bi.Size-bi.HeaderSize && vBytesEq(buf.Bytes(), d[bi.Offset+bi.HeaderSize:bi.Offset+bi.Size]), "the payload copied is the box's")
		}
		if act == hPay || act == hPayExp {
			_, n, err := h.ReadPayload()
			if err != nil {
				return nil, err
			}
			w.visits[k].own = int(n)
		}
		if act == hExpand || act == hPayExp || act == hDataExp || act == hExpPay {
			vals, err := h.Expand(k)
			if err != nil {
				return nil, err
			}
			// the values of the children
			i := 0
			for j := k + 1; j < len(w.visits); j++ {
				if len(w.visits[j].path) == len(h.Path)+1 {
					vAssert(i < len(vals) && vals[i].(int) == j, "expanding a box gives the values of its children in order")
					i++
				}
			}
			vAssert(i == len(vals), "expanding a box gives one value per child")
		}
		if act == hExpPay {
			_, n, err := h.ReadPayload()
			if err != nil {
				return nil, err
			}
			w.visits[k].own = int(n)
		}
		return k, nil
	}
}

// hMade walks a file that the reference has made up.
func hMade(d []byte, ref *hRef) (*hWalk, int) {
	ref.d = d
	st := ref.walk(0, 0, true, nil, Context{})
	w := &hWalk{}
	_, w.err = ReadBoxStructure(bytes.NewReader(d), w.handler(d, func(h *ReadHandle) int {
		k := len(w.acts)
		vAssert(k < len(ref.acts), "exactly the boxes of the file are visited")
		return ref.acts[k]
	}))
	return w, st
}

// hCheckWalk compares a walk with the reference.
func hCheckWalk(w *hWalk, d []byte, withCtx bool) int {
	ref := &hRef{d: d, acts: w.acts}
	st := ref.walk(0, 0, true, nil, Context{})
	hCompareWalk(w, ref, st, withCtx)
	return st
}

func hCompareWalk(w *hWalk, ref *hRef, st int, withCtx bool) {
	n := len(w.visits)
	if st != hUnknown {
		vAssert(len(ref.visits) == n, "exactly the boxes of the file are visited")
	} else {
		vAssert(len(ref.visits) <= n, "the boxes of the file are visited")
	}
	for i := range ref.visits {
		a, b := w.visits[i], ref.visits[i]
		vAssert(a.off == b.off && a.hs == b.hs, "a box is reported with its offset")
		vAssert(a.size == b.size, "a box is reported with its size")
		vAssert(a.ext == b.ext, "a box extending to the end of the file is reported as such")
		vAssert(len(a.path) == len(b.path) && a.typ == b.typ, "a box is reported with its type")
		for j := range a.path {
			vAssert(a.path[j] == b.path[j], "a box is reported with its path")
			vAssert(a.kept[j] == b.path[j], "a path handed to the visitor stays as it is")
		}
		if a.own >= 0 {
			vAssert(a.own == b.own, "the payload read is the box's own fields")
		}
		if withCtx {
			vAssert(a.ctx == b.ctx, "a box is interpreted by its enclosing boxes and the brand")
		}
	}
	switch st {
	case hOK:
		vAssert(w.err == nil, "a properly tiled file is walked without error")
	case hErr:
		vAssert(w.err != nil, "a box not tiling its parent is an error")
	}
}
