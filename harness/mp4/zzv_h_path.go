package HARNESS

//use tree

// hPathOf is the path of a node; from says how many leading elements to leave out.
func hPathOf(nodes []*hNode, i int) BoxPath {
	p := make(BoxPath, nodes[i].depth+1)
	d := nodes[i].depth
	for j := i; j >= 0; j-- {
		if nodes[j].depth == d {
			copy(p[d][:], nodes[j].typ)
			d--
		}
	}
	return p
}
