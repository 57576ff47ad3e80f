package HARNESS

// Well-formed files: a forest of boxes built from choices.

type hNode struct {
	typ   string
	depth int
	hs    int
	ext   bool
	own   []byte // fields and data
	off   int
	size  int
	kids  []int
}

// hKind is a type of box to choose for a node.
type hKind struct {
	typ  string
	kids bool          // may have children
	own  func() []byte // own fields, nil for none
	in   string        // only directly in a box of this type
}

func (k hKind) fits(parent string) bool { return k.in == "" || k.in == parent }

// hForest chooses up to max boxes in preorder; forms enables the header forms.
func hForest(max, maxDepth int, forms bool, kinds []hKind) []*hNode {
	var nodes []*hNode
	n := 1 + vChoose("boxes", max)
	var stack []int // path to the last box
	for i := 0; i < n; i++ {
		levels := 1
		if i > 0 {
			levels = len(stack)
			last := nodes[stack[len(stack)-1]]
			if len(stack) < maxDepth && hMayHaveKids(kinds, last.typ) && !last.ext {
				levels++
			}
		}
		depth := vChoose("depth", levels)
		stack = stack[:depth]
		parent := ""
		if depth > 0 {
			parent = nodes[stack[depth-1]].typ
		}
		var l []int
		for j, k := range kinds {
			if k.fits(parent) {
				l = append(l, j)
			}
		}
		if len(l) == 0 {
			vStopPath()
		}
		k := kinds[l[vChoose("kind", len(l))]]
		nd := &hNode{typ: k.typ, depth: depth, hs: 8}
		if k.own != nil {
			nd.own = k.own()
		}
		if forms && vChoose("form", 2) == 1 {
			nd.hs = 16
		}
		if depth > 0 {
			p := nodes[stack[depth-1]]
			p.kids = append(p.kids, i)
		}
		nodes = append(nodes, nd)
		stack = append(stack, i)
	}
	return nodes
}

func hMayHaveKids(kinds []hKind, typ string) bool {
	for _, k := range kinds {
		if k.typ == typ {
			return k.kids
		}
	}
	return false
}

// hEmit lays the boxes out.
func hEmit(nodes []*hNode, ext bool) []byte {
	var out []byte
	var put func(i int)
	put = func(i int) {
		nd := nodes[i]
		nd.off = len(out)
		out = append(out, make([]byte, nd.hs)...)
		out = append(out, nd.own...)
		for _, k := range nd.kids {
			put(k)
		}
		nd.size = len(out) - nd.off
		v := nd.size
		if nd.hs == 16 {
			v = 1
			for j := 0; j < 8; j++ {
				out[nd.off+8+j] = byte(uint64(nd.size) >> uint(56-8*j))
			}
		}
		h := out[nd.off:]
		h[0], h[1], h[2], h[3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
		copy(h[4:8], nd.typ)
	}
	last := -1
	for i, nd := range nodes {
		if nd.depth == 0 {
			put(i)
			last = i
		}
	}
	if ext && last >= 0 && nodes[last].hs == 8 {
		nodes[last].ext = true
		copy(out[nodes[last].off:], []byte{0, 0, 0, 0})
	}
	return out
}

// hSubtree is the index behind the last descendant of node i.
func hSubtree(nodes []*hNode, i int) int {
	j := i + 1
	for j < len(nodes) && nodes[j].depth > nodes[i].depth {
		j++
	}
	return j
}
