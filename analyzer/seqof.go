package main

// mapped is a sequence computed element by element from another one: element i
// of the sequence is elems (one of the alternatives) at index idx of over.
type mapped struct {
	g     *Graph
	over  *Sym
	idx   *Sym
	elems []*Sym
	li    *LoopInfo
	exit  edgeSet
	cnt   counter
	from  int64 // the element of over the sequence starts with
}

func findLoop(g *Graph, s *Sym) (*Graph, *LoopInfo) {
	li := loopOf(g, s)
	for li == nil && g.Parent != nil {
		g = g.Parent
		li = loopOf(g, s)
	}
	return g, li
}

// mappedOf recognises a slice built by appending one element per iteration, or
// made with the right length and written at every index.
func (w *World) mappedOf(g *Graph, x *Sym) (*mapped, string) {
	m, why := w.mappedFrom(g, x)
	if m != nil && m.from != 0 {
		return nil, "the sequence leaves out the first " + itoa(int(m.from)) + " elements"
	}
	return m, why
}

// mappedFrom is mappedOf for sequences that may skip the first elements.
func (w *World) mappedFrom(g *Graph, x *Sym) (*mapped, string) {
	x = unwrapConv(x)
	var ver, mk *Sym
	if x.op == OpSnapSlice && x.args[0] != nil {
		b := x.args[0]
		if (x.args[1] == nil || x.args[1].isInt(0)) && (x.args[2] == nil || x.args[2] == Len(b)) {
			if b.op == OpMakeSlice && len(x.args) > 3 && x.args[3] != nil {
				ver, mk = x.args[3], b
			} else {
				x = b
			}
		}
	}
	if ver == nil && x.op != OpPhi && x.op != OpWCell {
		return nil, "not a sequence built by a loop: " + short(x)
	}
	acc := x
	if ver != nil {
		acc = ver
	}
	g, li := findLoop(g, acc)
	if li == nil {
		return nil, "no loop builds " + short(acc)
	}
	m := &mapped{g: g, li: li}
	for _, h := range li.Heads {
		iv, ok := h.Init[acc]
		if ok && ver == nil && !isEmptySlice(iv) {
			return nil, "the sequence does not start empty: " + short(iv)
		}
	}
	n := 0
	for _, b := range li.Backs {
		v, ok := b.Vals[acc]
		if !ok {
			continue
		}
		n++
		if v == acc {
			return nil, "an iteration can finish without producing its element"
		}
		var el *Sym
		if ver == nil {
			if v.op != OpAppend || len(v.args) != 2 || v.args[0] != acc {
				return nil, "the sequence is not extended by one append per iteration: " + short(v)
			}
			if el = sliceSingle(v.args[1]); el == nil {
				return nil, "not exactly one element is appended: " + short(v.args[1])
			}
		} else {
			at := v.args[1]
			if v.op == OpVerUpd && at.op == OpFieldAddr {
				at = at.args[0]
			}
			if v.op != OpVerUpd || at.op != OpElemAddr || at.args[0] != mk {
				return nil, "elements are written in an unrecognised way: " + short(v)
			}
			if m.idx != nil && m.idx != at.args[1] {
				return nil, "iterations write different elements"
			}
			m.idx = at.args[1]
			if v.args[0] == acc && v.args[1] == at {
				el = v.args[2]
			} else if el = writtenElem(v, acc, at); el == nil {
				return nil, "elements are written in an unrecognised way: " + short(v)
			}
		}
		// an element that refers to a variable of the iteration: its contents
		if al := refRoot(el); al != nil && b.St != nil {
			if al.ins == nil || !inLoopCtx(al.ctx, al.ins.Block(), li.Key) {
				return nil, "every element refers to the same variable: " + short(el)
			}
			el = b.St.snap(el, 8)
		}
		have := false
		for _, e := range m.elems {
			have = have || e == el
		}
		if !have {
			m.elems = append(m.elems, el)
		}
	}
	if n == 0 {
		return nil, "the sequence is never extended"
	}
	dst := m.idx
	for _, el := range m.elems {
		base, idx := elemOfLoopFrom(g, el, li)
		if base == nil {
			return nil, "an element is not taken from the loop's current element: " + short(el)
		}
		if m.over == nil {
			m.over, m.idx = base, idx
		}
		if m.over != base || m.idx != idx {
			return nil, "elements are taken from different positions: " + short(el)
		}
	}
	var why string
	if m.cnt, m.from, why = counterFrom(g, m.idx); why != "" {
		return nil, why
	}
	if dst != nil && Sub(m.idx, dst) != CInt(m.from) {
		return nil, "an element is taken from another position than the one it is stored at"
	}
	if ver != nil && mk.args[0] != Sub(Len(m.over), CInt(m.from)) {
		return nil, "the sequence has another length than its source: " + short(mk)
	}
	m.exit = exhaustEdges(g, m.idx, m.over)
	return m, ""
}

// writtenElem: the element written at at, field by field, into a fresh slice.
func writtenElem(v, acc, at *Sym) *Sym {
	t := derefT(at.typ)
	st := isStruct(t)
	if st == nil {
		return nil
	}
	fs := make([]*Sym, st.NumFields())
	for ; v != acc; v = v.args[0] {
		if v.op != OpVerUpd || v.args[1].op != OpFieldAddr || v.args[1].args[0] != at {
			return nil
		}
		if k := int(v.args[1].n); fs[k] == nil {
			fs[k] = v.args[2]
		}
	}
	for i := range fs {
		if fs[i] == nil {
			fs[i] = Zero(st.Field(i).Type())
		}
	}
	return Struct(t, fs)
}

// complete: every path from the loop to n leaves the loop because all elements
// were visited.
func (m *mapped) complete(n *Node) []*Node {
	if len(m.exit) == 0 {
		return []*Node{m.li.Heads[0]}
	}
	return search(m.li.Heads, m.exit.pred(), func(x *Node) bool { return x == n })
}

func unwrapConv(x *Sym) *Sym {
	for x != nil && (x.op == OpConv || x.op == OpIface) {
		x = x.args[0]
	}
	return x
}

// refRoot: the local variable an element value refers to, if any.
func refRoot(x *Sym) *Sym {
	switch x.op {
	case OpConv, OpIface, OpSlice, OpFieldAddr, OpElemAddr:
		return refRoot(x.args[0])
	case OpStruct:
		for _, a := range x.args {
			if r := refRoot(a); r != nil {
				return r
			}
		}
	case OpAlloc:
		return x
	}
	return nil
}
