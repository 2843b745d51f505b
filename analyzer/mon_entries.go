package main

import "strings"

// --- C19: get-entries ------------------------------------------------------------------
//
// The reply is traced back: reply <- leaf entries <- log entries selected from the
// parsed tiles <- list of tiles. The tile list is read as a sequence of intervals
// of tile numbers which must join without gap or overlap and span the tiles of the
// first and the last requested entry.

// tileItem is a run of elements of the tile list.
type tileItem struct {
	el *Sym // the element (for a loop: the element its iteration appends)
	// loop runs: what each way through the loop appends
	els []tileAlt
	// loop runs: the counter that numbers the tiles, its start, its loop
	i, lo *Sym
	li    *LoopInfo
}

type tileAlt struct {
	el *Sym
	b  *BackInfo
}

// tileLists reads a list of tiles as alternatives of runs.
func tileLists(g *Graph, to *Node, x *Sym, depth int) ([][]tileItem, string) {
	x = unwrapConv(x)
	if x.op == OpSnapSlice && (x.args[1] == nil || x.args[1].isInt(0)) && x.args[2] == nil {
		x = x.args[0]
	}
	switch {
	case isEmptySlice(x):
		return [][]tileItem{nil}, ""
	case depth > 6:
		return nil, "too deep"
	case x.op == OpArray && x.args[0] == nil:
		var it []tileItem
		for _, e := range x.args[1:] {
			it = append(it, tileItem{el: e})
		}
		return [][]tileItem{it}, ""
	case x.op == OpAppend && len(x.args) == 2:
		base, why := tileLists(g, to, x.args[0], depth+1)
		if why != "" {
			return nil, why
		}
		tail, why := tileLists(g, to, x.args[1], depth+1)
		if why != "" {
			return nil, why
		}
		var out [][]tileItem
		for _, b := range base {
			for _, t := range tail {
				out = append(out, append(append([]tileItem(nil), b...), t...))
			}
		}
		return out, ""
	case x.op == OpPhi || x.op == OpWCell:
		lg, li := findLoop(g, x)
		if li == nil {
			return nil, "no loop builds " + short(x)
		}
		// only what can lead to the list's use
		leads := func(n *Node) bool { return lg != g || to == nil || reachable([]*Node{n}, nil)[to] }
		run := tileItem{li: li}
		for _, b := range li.Backs {
			if !leads(b.From) {
				continue
			}
			v := b.Vals[x]
			if v == nil || v.op != OpAppend || len(v.args) != 2 || v.args[0] != x || sliceSingle(v.args[1]) == nil {
				return nil, "not one element per iteration: " + short(v)
			}
			el := sliceSingle(v.args[1])
			if al := refRoot(el); al != nil && b.St != nil {
				el = b.St.snap(el, 8)
			}
			if run.el == nil {
				run.el = el
			}
			run.els = append(run.els, tileAlt{el, b})
		}
		if run.el == nil {
			return nil, "the list is never extended"
		}
		var out [][]tileItem
		seen := map[*Sym]bool{}
		for _, h := range li.Heads {
			iv := h.Init[x]
			if iv == nil || seen[iv] || !leads(h) {
				continue
			}
			seen[iv] = true
			base, why := tileLists(lg, to, iv, depth+1)
			if why != "" {
				return nil, why
			}
			for _, b := range base {
				out = append(out, append(append([]tileItem(nil), b...), run))
			}
		}
		return out, ""
	}
	return nil, "unrecognised list " + short(x)
}

// project follows field names.
func project(x *Sym, fields []string) *Sym {
	for _, f := range fields {
		x = fieldByName(x, f)
		if x == nil {
			return nil
		}
	}
	return x
}

// consistent: what b knows does not contradict a.
func consistent(a, b *State) bool {
	for q, v := range b.facts {
		if r := a.eval(q); r == 0 && v || r == 1 && !v {
			return false
		}
	}
	return true
}

func init() {
	register("C19", func(c *Check) {
		n := 0
		for _, h := range c.monitorH() {
			if h.Path != epEntries {
				continue
			}
			rs := successReplies(h)
			if len(rs) == 0 {
				c.bad("entries", h.Label, c.at(h.From[0]), "get-entries never succeeds")
			}
			for _, r := range rs {
				n++
				c.entriesReply(h, r)
			}
		}
		c.need(n, 2, "entries", "get-entries replies")
	})
}

func (c *Check) entriesReply(h *Handler, n *Node) {
	g := h.G
	cons := h.Label
	fail := func(rule, f string, a ...any) { c.bad(rule, cons, c.at(n), f, a...) }
	body := jsonBody(n.Ev.Args[1])
	if body == nil {
		fail("reply", "the body is %s", short(n.Ev.Args[1]))
		return
	}
	E := fieldByName(body, "Entries")
	if E == nil {
		fail("reply", "the body is %s", short(body))
		return
	}
	m, why := c.w.mappedOf(g, E)
	if m == nil {
		fail("reply", "%s", why)
		return
	}
	// each log entry is rendered in place
	for _, b := range m.li.Backs {
		v := b.Vals[unwrapConv(E)]
		if v == nil {
			for s, y := range b.Vals {
				if y.op == OpVerUpd && s.op == OpPhi {
					v = y
				}
			}
		}
		var el *Sym
		if v != nil && v.op == OpAppend {
			el = sliceSingle(v.args[1])
		} else if v != nil && v.op == OpVerUpd {
			el = v.args[2]
		}
		if el == nil {
			fail("reply", "an entry of the reply is not determined: %s", short(v))
			return
		}
		if al := refRoot(el); al != nil && b.St != nil {
			el = b.St.snap(el, 8)
		}
		in, ex := fieldByName(el, "LeafInput"), fieldByName(el, "ExtraData")
		if in == nil || ex == nil {
			fail("reply", "an entry of the reply is %s", short(el))
			return
		}
		k := unwrap(in)
		if !isCallSym(k, "sunlight.LogEntry).MerkleTreeLeaf") {
			fail("reply", "leaf_input is %s", short(in))
			return
		}
		e := unwrapLoad(k.args[0])
		if p, ok := loadPlace(e); !ok || p.base != m.over || p.idx != m.idx || len(p.fields) > 0 {
			fail("reply", "the reply is built from %s instead of the current entry", short(e))
			return
		}
		if why := c.leafReply(g, b.From, must(g).at(b.From), e, in, ex); why != "" {
			fail("reply", "%s", why)
			return
		}
	}
	c.ok("reply", cons, c.at(n))

	// the entries: selected from the parsed tiles, in order
	P := unwrapConv(m.over)
	_, LO := findLoop(g, P)
	if P.op != OpPhi && P.op != OpWCell || LO == nil {
		fail("select", "the entries are %s", short(P))
		return
	}
	for _, hd := range LO.Heads {
		if iv := hd.Init[P]; iv != nil && !isEmptySlice(unwrapConv(iv)) {
			fail("select", "the list of entries does not start empty: %s", short(iv))
			return
		}
	}
	var Q *Sym
	for _, b := range LO.Backs {
		v := b.Vals[P]
		if v == nil {
			continue
		}
		q := v
		if q.op == OpAppend && len(q.args) == 2 && q.args[0] != P {
			q = q.args[0] // left right after an entry was selected
		}
		if Q != nil && q != Q || q == P {
			fail("select", "a tile can be skipped")
			return
		}
		Q = q
	}
	if Q == nil {
		fail("select", "the list of entries is never extended")
		return
	}
	_, LI := findLoop(g, Q)
	if LI == nil || LI == LO {
		fail("select", "the entries of a tile are collected by %s", short(Q))
		return
	}
	for _, hd := range LI.Heads {
		if iv := hd.Init[Q]; iv != P {
			fail("select", "entries of earlier tiles are lost: the list is %s when a tile is begun", short(iv))
			return
		}
	}
	// the leaves: read one after the other
	var R, leaf, call *Sym
	for _, b := range LI.Backs {
		for s, v := range b.Vals {
			v = unwrap(v)
			if v.op == OpExtract && v.n == 1 && isCallSym(v.args[0], "sunlight.ReadTileLeaf") && unwrap(v.args[0].args[0]) == s {
				R, call = s, v.args[0]
			}
		}
	}
	if R == nil {
		fail("parse", "the tiles are not parsed leaf by leaf")
		return
	}
	for _, b := range LI.Backs {
		for q := range must(g).at(b.From).facts {
			if x := find(q, func(s *Sym) bool { return s.op == OpExtract && s.n == 0 && s.args[0] == call }); x != nil {
				leaf = x
			}
		}
	}
	if leaf == nil {
		fail("select", "entries are selected without looking at their index")
		return
	}
	isIdx := func(s *Sym) bool { return isFieldOf(s, leaf, "LeafIndex") }
	nApp := 0
	for _, b := range LI.Backs {
		v := unwrap(b.Vals[R])
		if v.op != OpExtract || v.n != 1 || !isCallSym(v.args[0], "sunlight.ReadTileLeaf") || unwrap(v.args[0].args[0]) != R {
			fail("parse", "the parser does not continue after the leaf it read: %s", short(v))
			return
		}
	}

	// per way into the parser: which tiles, which range
	rdone := func(e *Edge) bool { return edgeSays(e).eval(Lt(CInt(0), Len(R))) == 0 }
	var exits edgeSet
	for _, hd := range LI.Heads {
		iv := hd.Init[R]
		p, ok := loadPlace(unwrap(iv))
		if !ok || p.base == nil || p.idx == nil {
			fail("tiles", "the parser starts at %s", short(iv))
			return
		}
		cnt, why := idxCounter(g, p.idx)
		if why != "" || cnt.li != LO {
			fail("tiles", "the tiles are not visited in order: %s", why)
			return
		}
		D := p.base
		ex := exhaustEdges(g, p.idx, D)
		if exits == nil {
			exits = ex
		} else {
			exits = union(exits, ex)
		}
		st := must(g).at(hd)
		alts, why := tileLists(g, hd, D, 0)
		if why != "" {
			fail("tiles", "the list of tiles: %s", why)
			return
		}
		// the range asked for
		var start *Sym
		var ends []*Sym
		note := func(x *Sym) {
			if x == nil {
				return
			}
			if intParam(x) == "start" {
				start = x
			}
			for _, e := range ends {
				if e == x {
					return
				}
			}
			ends = append(ends, x)
		}
		collect := func(s *Sym) bool {
			note(tileNOfLeaf(s))
			return false
		}
		mentions(D, collect, map[*Sym]bool{})
		for q := range st.facts {
			mentions(q, collect, map[*Sym]bool{})
		}
		for _, a := range alts {
			for i := range a {
				if a[i].li == nil {
					continue
				}
				for _, h := range a[i].li.Heads {
					for _, v := range h.Init {
						mentions(v, collect, map[*Sym]bool{})
					}
				}
			}
		}
		if start == nil {
			fail("tiles", "the first tile is not that of the first requested entry")
			return
		}
		var end *Sym
		lastWhy := "the last tile is not that of the last entry"
		for _, e := range ends {
			if why := c.endOK(g, st, start, e); why != "" {
				if e != start {
					lastWhy = why
				}
				continue
			}
			ok := true
			for _, a := range alts {
				if why := c.spans(g, hd, st, p.fields, a, start, e); why != "" {
					ok = false
					lastWhy = why
				}
			}
			if ok {
				if why, na := c.filtered(g, LI, hd, Q, start, e, isIdx, leaf); why != "" {
					lastWhy = why
					continue
				} else {
					nApp += na
				}
				end = e
				break
			}
		}
		if end == nil {
			fail("tiles", "%s", lastWhy)
			return
		}
		c.ok("tiles", cons+": "+short(end), c.at(hd))
		c.ok("range", cons+": "+short(end), c.at(hd))
	}
	if nApp == 0 {
		fail("select", "no entry is ever selected")
		return
	}
	// a tile is parsed to its end (or past the range), and all tiles are
	heads, unselected := map[*Node]bool{}, map[*Node]bool{n: true}
	for _, hd := range LI.Heads {
		heads[hd] = true
	}
	for _, b := range LO.Backs {
		v := b.Vals[P]
		if v == Q {
			unselected[b.From] = true
			continue
		}
		// the last one selected: the entry just read, in range
		bs := must(g).at(b.From)
		ok := false
		if el := sliceSingle(v.args[1]); el != nil && unwrapLoad(el) == unwrapLoad(leaf) {
			for q := range bs.facts {
				if li := find(q, isIdx); li != nil {
					for _, en := range c.endsOf(bs) {
						if bs.eval(Le(li, en)) == 1 {
							ok = true
						}
					}
				}
			}
		}
		if !ok {
			fail("select", "the list of entries becomes %s", short(v))
			return
		}
	}
	past := func(x *Node, e *Edge) bool {
		if rdone(e) {
			return true
		}
		for _, f := range e.Facts {
			q, _ := normFact(f)
			if find(q, isIdx) != nil {
				// only when the leaf is beyond the range
				li := find(q, isIdx)
				es := edgeSays(e)
				for _, en := range c.endsOf(must(g).at(x)) {
					if es.eval(Lt(en, li)) == 1 {
						return true
					}
					if es.eval(Le(en, li)) == 1 && e.Back != nil && *e.Back == LO.Key {
						return !unselected[x]
					}
					if es.eval(Le(en, li)) == 1 && search([]*Node{e.To}, func(y *Node, e2 *Edge) bool { return heads[e2.To] }, func(y *Node) bool { return unselected[y] }) == nil {
						return true
					}
				}
			}
		}
		return false
	}
	if pth := search(LI.Heads, past, func(x *Node) bool { return x == n }); pth != nil {
		c.add(false, "parse", cons, c.at(pth[0]), "the rest of a tile can be dropped", c.path(pth)...)
		return
	}
	c.ok("parse", cons, c.at(LI.Heads[0]))
	if pth := search(LO.Heads, exits.pred(), func(x *Node) bool { return x == n }); pth != nil {
		c.add(false, "select", cons, c.at(pth[0]), "tiles can be left out", c.path(pth)...)
		return
	}
	c.ok("select", cons, c.at(LO.Heads[0]))
}

// endsOf: the leaves whose tile a state speaks about.
func (c *Check) endsOf(st *State) []*Sym {
	var out []*Sym
	seen := map[*Sym]bool{}
	for q := range st.facts {
		mentions(q, func(s *Sym) bool {
			if l := tileNOfLeaf(s); l != nil && !seen[l] && intParam(l) != "start" {
				seen[l] = true
				out = append(out, l)
			}
			return false
		}, map[*Sym]bool{})
	}
	return out
}

// endOK: e is the last entry to return: the requested end, the end of the
// published tree or the last entry the limit allows, whichever comes first.
func (c *Check) endOK(g *Graph, st *State, start, e *Sym) string {
	isS := func(s *Sym) bool { return isSTHSize(s) }
	kind := ""
	if intParam(e) == "end" {
		kind = "end"
	}
	if isS(unwrapConv(Add(e, CInt(1)))) {
		kind = "size"
	}
	if k, ok := Sub(e, start).intVal(); ok && k >= 0 {
		kind = "limit"
	}
	if kind == "" {
		return "the last entry returned is " + short(e)
	}
	var S, end *Sym
	for q := range st.facts {
		mentions(q, func(s *Sym) bool {
			if isS(s) {
				S = s
			}
			if intParam(s) == "end" {
				end = s
			}
			return false
		}, map[*Sym]bool{})
	}
	if S == nil {
		return "the published tree head is not consulted"
	}
	if end == nil {
		return "the requested end is not consulted"
	}
	if st.eval(Le(CInt(0), start)) != 1 {
		return "a negative start is not refused"
	}
	if st.eval(Lt(start, S)) != 1 {
		return "a start beyond the published tree is not refused"
	}
	if st.eval(Le(start, end)) != 1 {
		return "an end before the start is not refused"
	}
	if e != end && st.eval(Le(e, end)) != 1 {
		return "entries beyond the requested end are returned"
	}
	if st.eval(Lt(e, S)) != 1 {
		return "entries beyond the published tree head are returned"
	}
	if st.eval(Lt(Sub(e, start), CInt(1024))) != 1 {
		return "more than 1024 entries can be returned"
	}
	return ""
}

// spans: the runs cover exactly the tiles of start..end, in order.
func (c *Check) spans(g *Graph, hd *Node, st *State, fields []string, items []tileItem, start, end *Sym) string {
	if len(items) == 0 {
		return "no tile is read"
	}
	// tile numbers grow with the entries' indexes
	if st.eval(Le(start, end)) == 1 {
		a, b := tileNoOf(st, start), tileNoOf(st, end)
		for _, it := range items {
			for _, s := range []*Sym{find(it.el, func(s *Sym) bool { return tileNOfLeaf(s) == start })} {
				if s != nil {
					a = s
				}
			}
			for _, s := range []*Sym{find(it.el, func(s *Sym) bool { return tileNOfLeaf(s) == end })} {
				if s != nil {
					b = s
				}
			}
		}
		if a != nil && b != nil {
			st = st.clone()
			st.assume(Le(a, b), true)
		}
	}
	eq := func(a, b *Sym) bool { return a == b || st.eval(EqI(a, b)) == 1 }
	nOf := func(leaf *Sym) func(*Sym) bool {
		return func(s *Sym) bool { return tileNOfLeaf(s) == leaf }
	}
	// N(start), N(end)
	isN := func(x *Sym, leaf *Sym) bool {
		if nOf(leaf)(x) {
			return true
		}
		for q := range st.facts {
			if s := find(q, nOf(leaf)); s != nil && eq(x, s) {
				return true
			}
		}
		return false
	}
	var next *Sym // the number the next run has to begin with
	for k := range items {
		it := &items[k]
		t, why := tileRead(it.el, fields)
		if why != "" {
			return why
		}
		lo := t[2]
		if it.li != nil {
			// numbered by a counter that advances by one
			var phi *Sym
			var l lin
			for _, alt := range it.els {
				at, why := tileRead(alt.el, fields)
				if why != "" {
					return why
				}
				al := toLin(at[2])
				for p, co := range al.t {
					if len(al.t) == 1 && co == 1 && (loopOf(g, p) == it.li || loopOf(it.graph(g), p) == it.li) && phi == nil {
						phi, l, t = p, al, at
					}
				}
			}
			if phi == nil {
				return "tiles are numbered " + short(t[2])
			}
			for _, alt := range it.els {
				at, _ := tileRead(alt.el, fields)
				if at[2] != t[2] && must(it.graph(g)).at(alt.b.From).eval(EqI(at[2], t[2])) != 1 && (alt.b.St == nil || alt.b.St.eval(EqI(at[2], t[2])) != 1) {
					return "a tile of a run is number " + short(at[2])
				}
			}
			for _, bk := range it.li.Backs {
				if v := bk.Vals[phi]; v != nil && v != Add(phi, CInt(1)) {
					return "tiles are skipped: the number advances to " + short(v)
				}
			}
			it.i = phi
			lo = nil
			for _, hd := range it.li.Heads {
				if v := hd.Init[phi]; v != nil {
					v = Add(v, CInt(l.c))
					if lo != nil && lo != v {
						return "the first tile number of a run is not determined"
					}
					lo = v
				}
			}
		}
		if k == 0 {
			if !isN(lo, start) {
				return "the first tile read is number " + short(lo)
			}
		} else if next != nil && next != lo {
			// next <= lo <= next, by what is known here
			if st.eval(Le(lo, next)) != 1 {
				return "tiles are left out before number " + short(lo)
			}
			if p := items[k-1]; p.li != nil {
				for _, bk := range p.li.Backs {
					bs := must(p.graph(g)).at(bk.From)
					if !consistent(st, bs) || p.graph(g) == g && !reachable([]*Node{bk.From}, nil)[hd] {
						continue
					}
					if bs.eval(Lt(p.i, lo)) != 1 {
						return "tile number " + short(lo) + " can be read twice"
					}
				}
			} else if st.eval(Le(next, lo)) != 1 {
				return "tile number " + short(lo) + " can be read twice"
			}
		}
		if it.li != nil {
			next = Add(it.i, Sub(t[2], it.i))
		} else {
			next = Add(t[2], CInt(1))
		}
		if k == len(items)-1 {
			if it.li == nil {
				if !isN(t[2], end) {
					return "the last tile read is number " + short(t[2]) + ", not that of entry " + short(end)
				}
			} else if why := endsAt(g, hd, st, it, t[2], next, nOf(end)); why != "" {
				return why
			}
		}
	}
	if len(items) > 1 {
		// more than one tile: the first and the last are different ones
		ne := false
		for q, v := range st.facts {
			q, v := normFact(Fact{q, v})
			if v && q.op != OpLe0 {
				continue
			}
			a, b := find(q, nOf(start)), find(q, nOf(end))
			if a != nil && b != nil && (st.eval(EqI(a, b)) == 0 || st.eval(Lt(a, b)) == 1) {
				ne = true
			}
		}
		if !ne {
			return "the same tile can be read twice"
		}
	}
	return ""
}

// endsAt: the run reads the tiles up to that of the last entry, and no further.
func endsAt(g *Graph, hd *Node, st *State, it *tileItem, no, next *Sym, last func(*Sym) bool) string {
	over := false
	for q := range st.facts {
		if s := find(q, last); s != nil && st.eval(Lt(s, next)) == 1 {
			over = true
		}
	}
	if !over {
		return "the last tile can be left out"
	}
	for _, alt := range it.els {
		bs := must(it.graph(g)).at(alt.b.From)
		ok := false
		for q := range bs.facts {
			if s := find(q, last); s != nil && bs.eval(Le(no, s)) == 1 {
				ok = true
			}
		}
		if !ok {
			return "tiles past the last can be read"
		}
	}
	return ""
}

// tileRead: the tile whose contents a list element holds.
func tileRead(el *Sym, fields []string) ([]*Sym, string) {
	b := project(el, fields)
	if b == nil {
		return nil, "unrecognised list element " + short(el)
	}
	key, _, ok := gotKey(b)
	if !ok {
		return nil, "the tile's bytes are " + short(b)
	}
	t, ok := tileFields(tileOf(unwrapConv(key)))
	if !ok {
		return nil, "the tile read is " + short(key)
	}
	if !t[1].isInt(-1) {
		return nil, "a tile of level " + short(t[1]) + " is read for entries"
	}
	if !t[0].isInt(8) && !(t[0].op == OpField && t[0].str == "H" && isCallSym(t[0].args[0], "tlog.TileForIndex") && t[0].args[0].args[0].isInt(8)) {
		return nil, "a tile of height " + short(t[0]) + " is read"
	}
	return t[:], ""
}

// tileNoOf finds the term for the number of a leaf's tile among what is known.
func tileNoOf(st *State, leaf *Sym) *Sym {
	for q := range st.facts {
		if s := find(q, func(s *Sym) bool { return tileNOfLeaf(s) == leaf }); s != nil {
			return s
		}
	}
	return nil
}

func (it *tileItem) graph(g *Graph) *Graph {
	for x := g; x != nil; x = x.Parent {
		for _, li := range x.Loops {
			if li == it.li {
				return x
			}
		}
	}
	return g
}

// filtered: an entry read is selected exactly when it lies in the range.
func (c *Check) filtered(g *Graph, LI *LoopInfo, hd *Node, Q, start, end *Sym, isIdx func(*Sym) bool, leaf *Sym) (string, int) {
	n := 0
	for _, b := range LI.Backs {
		if b.H != nil && b.H != hd {
			continue
		}
		v := b.Vals[Q]
		bs := must(g).at(b.From)
		if b.St != nil {
			bs = b.St
		}
		var idx *Sym
		for q := range bs.facts {
			if s := find(q, isIdx); s != nil {
				idx = s
			}
		}
		if v == Q {
			if idx == nil || bs.eval(Lt(idx, start)) != 1 && bs.eval(Lt(end, idx)) != 1 {
				return "a requested entry can be left out", n
			}
			continue
		}
		if v == nil || v.op != OpAppend || v.args[0] != Q {
			return "the list of entries becomes " + short(v), n
		}
		el := sliceSingle(v.args[1])
		if el == nil || unwrapLoad(el) != unwrapLoad(leaf) {
			return "not the entry just read is selected: " + short(v.args[1]), n
		}
		if idx == nil || bs.eval(Le(start, idx)) != 1 || bs.eval(Le(idx, end)) != 1 {
			return "an entry outside the requested range can be returned", n
		}
		n++
	}
	return "", n
}

// entriesBounded: get-entries returns only entries below the published size.
func (c *Check) entriesBounded(h *Handler) {
	g := h.G
	rs := reachable(h.From, nil)
	n := 0
	for _, x := range g.Nodes {
		if !rs[x] || !isTileRead(x.Ev) {
			continue
		}
		t, ok := tileFields(tileOf(unwrapConv(x.Ev.Args[2])))
		if !ok {
			continue
		}
		leaf := tileNOfLeaf(t[2])
		if leaf == nil {
			continue
		}
		n++
		ok = false
		for _, s := range sthSizes(g, x) {
			if unwrapConv(Add(leaf, CInt(1))) == s || known(g, x, Lt(leaf, s)) {
				ok = true
			}
		}
		cons := h.Label + ": " + strings.TrimPrefix(short(leaf), "strconv.")
		if !ok {
			c.bad("bounded", cons, c.at(x), "the tile of entry %s is read although the tree head read for this request may not cover it", short(leaf))
		} else {
			c.ok("bounded", cons, c.at(x))
		}
	}
	c.need(n, 1, "bounded", h.Label+": tile reads")
}
