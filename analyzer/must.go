package main

// Must-hold facts: the conditions every path to a node has established. The
// meet over incoming edges drops, at loop heads, what only a previous iteration
// had established.

type mustInfo struct {
	g     *Graph
	ids   map[*Sym]int // condition -> bit (2k true, 2k+1 false)
	conds []*Sym
	in    map[*Node][]uint64
	top   map[*Node]bool
	know  map[*Node]*State
}

var mustCache = map[*Graph]*mustInfo{}

func (m *mustInfo) bit(f Fact) (int, bool) {
	c, v := normFact(f)
	if c.op == OpConst {
		return 0, false
	}
	k, ok := m.ids[c]
	if !ok {
		k = len(m.conds)
		m.ids[c] = k
		m.conds = append(m.conds, c)
	}
	k *= 2
	if !v {
		k++
	}
	return k, true
}

func must(g *Graph) *mustInfo {
	if m, ok := mustCache[g]; ok {
		return m
	}
	m := &mustInfo{g: g, ids: map[*Sym]int{}, in: map[*Node][]uint64{}, top: map[*Node]bool{}, know: map[*Node]*State{}}
	mustCache[g] = m
	gen := map[edgeKey][]int{}
	for _, n := range g.Nodes {
		for i := range n.Out {
			for _, f := range n.Out[i].Facts {
				if b, ok := m.bit(f); ok {
					gen[edgeKey{n, i}] = append(gen[edgeKey{n, i}], b)
				}
			}
		}
	}
	var entry []int
	if g.Entry.st != nil {
		for c, v := range g.Entry.st.facts {
			if b, ok := m.bit(Fact{c, v}); ok {
				entry = append(entry, b)
			}
		}
	}
	w := (2*len(m.conds) + 63) / 64
	start := make([]uint64, w)
	for _, b := range entry {
		start[b/64] |= 1 << (b % 64)
	}
	m.in[g.Entry] = start
	q := []*Node{g.Entry}
	inq := map[*Node]bool{g.Entry: true}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		inq[n] = false
		for i := range n.Out {
			out := append([]uint64(nil), m.in[n]...)
			for _, b := range gen[edgeKey{n, i}] {
				// a contradictory earlier fact about the same term is superseded
				out[b/64] |= 1 << (b % 64)
				o := b ^ 1
				out[o/64] &^= 1 << (o % 64)
			}
			t := n.Out[i].To
			old, ok := m.in[t]
			if !ok {
				m.in[t] = out
			} else {
				ch := false
				nw := make([]uint64, w)
				for k := range old {
					nw[k] = old[k] & out[k]
					if nw[k] != old[k] {
						ch = true
					}
				}
				if !ch {
					continue
				}
				m.in[t] = nw
			}
			if !inq[t] {
				inq[t] = true
				q = append(q, t)
			}
		}
	}
	return m
}

// at returns a state that knows what every path to n has established.
func (m *mustInfo) at(n *Node) *State {
	if s, ok := m.know[n]; ok {
		return s
	}
	s := newState()
	if n.st != nil {
		for c, v := range n.st.facts {
			s.facts[c] = v
		}
	}
	in := m.in[n]
	for k, c := range m.conds {
		if in == nil {
			break
		}
		b := 2 * k
		if in[b/64]&(1<<(b%64)) != 0 {
			s.assume(c, true)
		}
		b++
		if in[b/64]&(1<<(b%64)) != 0 {
			s.assume(c, false)
		}
	}
	m.know[n] = s
	return s
}

// known: every path to n has established cond.
func known(g *Graph, n *Node, cond *Sym) bool { return must(g).at(n).eval(cond) == 1 }

// knownFalse: every path to n has established the negation of cond.
func knownFalse(g *Graph, n *Node, cond *Sym) bool { return must(g).at(n).eval(cond) == 0 }

// established: on every path to n an edge (or the state) establishes one of the
// conditions, even if it differs from path to path.
func established(g *Graph, from []*Node, n *Node, est edgePred) []*Node {
	return search(from, est, func(x *Node) bool { return x == n })
}

// implies: the edge, with what its target knows, establishes cond.
func implies(g *Graph, cond *Sym, v bool) edgePred {
	want := 1
	if !v {
		want = 0
	}
	return func(n *Node, e *Edge) bool {
		hit := false
		for _, f := range e.Facts {
			c, _ := normFact(f)
			if c.op != OpConst {
				hit = true
			}
		}
		if !hit && e.To.Ev == nil {
			return false
		}
		return e.To.st != nil && e.To.st.eval(cond) == want
	}
}

// edgeSays: what taking an edge establishes by itself.
func edgeSays(e *Edge) *State {
	s := newState()
	for _, f := range e.Facts {
		s.assume(f.C, f.V)
	}
	return s
}
