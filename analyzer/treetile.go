package main

import "go/types"

// C04: what the uploaded tiles hold.

func init() {
	register("C04", func(c *Check) {
		ss := c.w.sequencers()
		c.use(c.w.submit())
		c.need(len(ss), 1, "anchor", "sequencers")
		for _, s := range ss {
			c.use(s.g)
			c.dataTileBuffer(s)
			c.dataTileKind(s)
			t := &treeHashes{c: c, s: s}
			if t.recordHashes() {
				t.treeTiles()
			}
		}
	})
}

// dataTileKind: the height and level of a leaf tile are those of the leaf tile
// of the batch before.
func (c *Check) dataTileKind(s *Seq) {
	for _, t := range s.tileSets(true) {
		for _, f := range []string{"H", "L"} {
			v := fieldByName(t.tile, f)
			want := int64(8)
			if f == "L" {
				want = -1
			}
			if v != nil && v.isInt(want) {
				c.ok("leaf-tile", "leaf tile "+f, c.at(t.n))
				continue
			}
			if v == nil || v.op != OpField || v.args[0].op != OpField || v.args[0].str != "Tile" || v.args[0].args[0].op != OpLookup || !v.args[0].args[0].args[1].isInt(-1) {
				c.bad("leaf-tile", "leaf tile "+f, c.at(t.n), "the uploaded leaf tile's %s is not that of the leaf tile before: %s", f, short(v))
				continue
			}
			c.ok("leaf-tile", "leaf tile "+f, c.at(t.n))
		}
	}
}

// treeHashes: the new hashes of a batch and the tiles made from them.
type treeHashes struct {
	c        *Check
	s        *Seq
	M        *Sym    // the map of new hashes
	out      *Sym    // its content after every leaf was added
	exit     edgeSet // every leaf was added
	edge     *Sym    // the cell holding the right edge
	okReader map[*Sym]bool
}

func tlogCall(ev *Event, fn string) bool {
	return ev != nil && ev.Kind == EvCall && ev.Res != nil && (isCallSym(ev.Res, "tlog."+fn) || isCallSym(ev.Res, "sumdb/tlog."+fn))
}

func isTlog(x *Sym, fn string) bool { return isCallSym(x, "sumdb/tlog."+fn) }

// recordHashes: every leaf's hashes are added to the map.
func (t *treeHashes) recordHashes() bool {
	c, s, g := t.c, t.s, t.s.g
	const R = "record-hashes"
	var call *Sym
	var at *Node
	for _, n := range evNodes(g, func(e *Event) bool { return tlogCall(e, "StoredHashesForRecordHash") }) {
		if call != nil && call != n.Ev.Res {
			c.bad(R, "leaf hashes", c.at(n), "a leaf's hashes are computed in two places")
			return false
		}
		call, at = n.Ev.Res, n
	}
	if call == nil {
		c.bad(R, "leaf hashes", c.at(s.recvs[0]), "the hashes of the new leaves are not computed with StoredHashesForRecordHash")
		return false
	}
	p, k := loadPlace(unwrapConv(call.args[0]))
	if !k || p.base != s.pool || p.idx == nil || p.last() != "LeafIndex" {
		c.bad(R, "leaf hashes", c.at(at), "the hashes are not computed for the index of a leaf of the batch: %s", short(call.args[0]))
		return false
	}
	rh := unwrap(call.args[1])
	ok := isTlog(rh, "RecordHash")
	if ok {
		m := unwrap(rh.args[0])
		ok = isCallSym(m, "sunlight.LogEntry).MerkleTreeLeaf") && s.entryOf(m.args[0], p.idx)
	}
	if !ok {
		c.bad(R, "leaf hashes", c.at(at), "the hash stored for a leaf is not RFC 6962's hash of its MerkleTreeLeaf: %s", short(rh))
		return false
	}
	cn, why := idxCounter(g, p.idx)
	if why != "" {
		c.bad(R, "leaf hashes", c.at(at), "%s", why)
		return false
	}
	outer := cn.li
	hashes := Extract(call, 0, nil)
	// the loop over the hashes of one leaf
	var inner *LoopInfo
	var cell, hi *Sym
	for _, li := range g.Loops {
		for _, b := range li.Backs {
			for y, v := range b.Vals {
				if v.op != OpMapUpd || find(v, func(z *Sym) bool { return z == call }) == nil {
					continue
				}
				if cell != nil && cell != y {
					c.bad(R, "hashes stored", c.at(b.From), "the new hashes are stored in two maps")
					return false
				}
				inner, cell = li, y
				hp, ok := loadPlace(v.args[2])
				if !ok || hp.idx == nil || len(hp.fields) > 0 || !sameCallResult(hp.base, hashes) {
					c.bad(R, "hashes stored", c.at(b.From), "what is stored is not one of the leaf's hashes: %s", short(v.args[2]))
					return false
				}
				hi = hp.idx
				first := find(v.args[1], func(z *Sym) bool { return isTlog(z, "StoredHashIndex") })
				if first == nil || !first.args[0].isInt(0) || unwrapConv(first.args[1]) != unwrapConv(call.args[0]) || v.args[1] != Add(first, hi) {
					c.bad(R, "hashes stored", c.at(b.From), "hash number i of a leaf is not stored at the leaf's first storage index plus i: %s", short(v.args[1]))
					return false
				}
				if v.args[0] != y {
					c.bad(R, "hashes stored", c.at(b.From), "storing a hash drops the hashes stored before: %s", short(v.args[0]))
					return false
				}
			}
		}
	}
	if inner == nil {
		c.bad(R, "hashes stored", c.at(at), "the hashes of a leaf are not added one by one to the map the tiles are read from")
		return false
	}
	hc, why := idxCounter(g, hi)
	if why != "" || hc.li != inner {
		c.bad(R, "hashes stored", c.at(at), "%s", why)
		return false
	}
	for _, b := range inner.Backs {
		if v, ok := b.Vals[cell]; !ok || v.op != OpMapUpd {
			c.bad(R, "hashes stored", c.at(b.From), "an iteration can end without the hash having been stored")
			return false
		}
	}
	done := edgesWhere(g, func(n *Node, e *Edge) bool {
		return edgeFact(e, Lt(hi, Len(hp0(inner, cell))), false)
	})
	if pth := perIteration(outer, done.pred()); pth != nil {
		c.add(false, R, "hashes stored", c.at(at), "a leaf can be passed over without all of its hashes having been stored", c.path(pth)...)
		return false
	}
	// the map carried over the leaves
	var mk *Sym
	for _, b := range inner.Backs {
		for k := range b.St.mem {
			if k.op == OpMapKey && int64(k.id) == cell.n {
				mk = k.args[0]
			}
		}
	}
	if mk == nil || mk.op != OpMakeMap {
		c.bad(R, "hashes stored", c.at(at), "the map of new hashes is not made for this batch")
		return false
	}
	t.M = mk
	for _, b := range outer.Backs {
		for y, v := range b.Vals {
			if v == cell {
				t.out = y
			}
		}
	}
	if t.out == nil {
		c.bad(R, "hashes stored", c.at(at), "the hashes of one leaf are not kept for the next")
		return false
	}
	for _, b := range outer.Backs {
		if v := b.Vals[t.out]; v != cell {
			c.bad(R, "hashes stored", c.at(b.From), "after a leaf the map of new hashes is %s", short(v))
			return false
		}
	}
	for _, h := range inner.Heads {
		if iv, ok := h.Init[cell]; ok && iv != t.out {
			c.bad(R, "hashes stored", c.at(h), "a leaf's hashes are not added to those of the leaves before")
			return false
		}
	}
	t.exit = exhaustEdges(g, p.idx, s.pool)
	c.ok(R, "every hash of every leaf is stored under its index", c.at(at))
	return t.reader(at, call.args[2], true)
}

func hp0(li *LoopInfo, cell *Sym) *Sym {
	for _, b := range li.Backs {
		if v, ok := b.Vals[cell]; ok && v.op == OpMapUpd {
			if p, ok := loadPlace(v.args[2]); ok {
				return p.base
			}
		}
	}
	return cell
}

func sameCallResult(a, b *Sym) bool {
	return a != nil && a.op == OpExtract && b.op == OpExtract && a.n == b.n && a.args[0] == b.args[0]
}

// reader: hashes are read from the new hashes or the right edge of the tree.
func (t *treeHashes) reader(n *Node, r *Sym, partial bool) bool {
	c, g := t.c, t.s.g
	const R = "hash-reader"
	what := "reader of " + n.Ev.Name[lastDot(n.Ev.Name)+1:]
	cl := unwrap(r)
	if cl.op != OpClosure || cl.fn == nil {
		c.bad(R, what, c.at(n), "the hash reader is not a function of this program: %s", short(cl))
		return false
	}
	bound := func(name string) *Sym {
		for k, fv := range cl.fn.FreeVars {
			if fv.Name() == name && k < len(cl.args) {
				if v, ok := n.st.mem[cl.args[k]]; ok {
					return v
				}
				return cl.args[k]
			}
		}
		return nil
	}
	// which variables of the closure hold the two sources
	src := func(content *Sym) string {
		switch {
		case content.op == OpVer && len(content.args) == 1:
		default:
			return "?"
		}
		x := content.args[0]
		fv := find(x, func(y *Sym) bool { return y.op == OpParam })
		if fv == nil {
			return "?"
		}
		b := bound(fv.str)
		if b == nil {
			return "?"
		}
		if unwrap(b) == t.M {
			return "new"
		}
		if p, ok := loadPlace(x); ok && p.last() == "edgeTiles" || x.op == OpLoad {
			// the map of edge tiles: its element type says so
			if m, ok := x.typ.Underlying().(*types.Map); ok && typeName(m.Elem()) == "tileWithBytes" {
				return "edge"
			}
		}
		return "?"
	}
	rg := c.w.rootFn(cl.fn.String(), cl.fn.Name(), cl.fn)
	if rg == nil || len(rg.Undec) > 0 {
		c.bad(R, what, c.at(n), "the hash reader could not be analysed")
		return false
	}
	c.use(rg)
	if len(cl.fn.Params) != 1 {
		c.bad(R, what, c.at(n), "unexpected hash reader signature")
		return false
	}
	idxs := param(rg, 0)
	var acc *Sym
	for _, rn := range returnsOf(rg) {
		v, e := rn.Ev.Args[0], rn.Ev.Raw[1]
		if knownNonNil(e) || rn.st.eval(Eq(e, Nil(nil))) == 0 {
			continue
		}
		if !isNilSym(e) {
			c.bad(R, what, c.at(rn), "the reader returns an error that may be nil together with hashes: %s", short(e))
			return false
		}
		v = rn.Ev.Raw[0]
		if v.op == OpPhi || v.op == OpWCell {
			if acc != nil && acc != v {
				c.bad(R, what, c.at(rn), "the reader returns different slices")
				return false
			}
			acc = v
			continue
		}
		c.bad(R, what, c.at(rn), "the reader returns %s", short(v))
		return false
	}
	if acc == nil {
		c.bad(R, what, c.at(n), "the reader never returns hashes")
		return false
	}
	li := loopOf(rg, acc)
	if li == nil {
		c.bad(R, what, c.at(n), "the returned hashes are not collected in a loop")
		return false
	}
	for _, h := range li.Heads {
		if iv, ok := h.Init[acc]; ok && !isEmptySlice(iv) {
			c.bad(R, what, c.at(h), "the hashes returned do not start empty")
			return false
		}
	}
	var idx *Sym
	for _, b := range li.Backs {
		v := b.Vals[acc]
		if v == nil || v.op != OpAppend && !(v.op == OpCall && v.str == "append") && v.args == nil {
			c.bad(R, what, c.at(b.From), "an index can be passed over without a hash")
			return false
		}
		if len(v.args) < 2 || v.args[0] != acc {
			c.bad(R, what, c.at(b.From), "an index can be passed over without a hash: %s", short(v))
			return false
		}
		el := sliceElems(v.args[1])
		if len(el) != 1 {
			c.bad(R, what, c.at(b.From), "an index gives other than one hash: %s", short(v))
			return false
		}
		x := el[0]
		var key *Sym
		switch {
		case x.op == OpLookup && src(x.args[0]) == "new":
			key = x.args[1]
			if b.St.eval(I.mk(Sym{op: OpLookupOk, args: x.args}, "")) != 1 {
				c.bad(R, what, c.at(b.From), "a hash is taken from the new hashes although it may not be there")
				return false
			}
		case x.op == OpExtract && x.n == 0 && isTlog(x.args[0], "HashFromTile"):
			a := x.args[0].args
			key = a[2]
			tile, byt := a[0], a[1]
			if tile.op != OpField || byt.op != OpField || tile.str != "Tile" || byt.str != "Bytes" || tile.args[0] != byt.args[0] || tile.args[0].op != OpLookup || src(tile.args[0].args[0]) != "edge" {
				c.bad(R, what, c.at(b.From), "a hash is not read from one tile of the right edge: %s", short(x))
				return false
			}
			l := tile.args[0].args[1]
			if l.op != OpField || l.str != "L" || !isTlog(l.args[0], "TileForIndex") || !l.args[0].args[0].isInt(8) || l.args[0].args[1] != key {
				c.bad(R, what, c.at(b.From), "a hash is not read from the tile of its level: %s", short(l))
				return false
			}
			if b.St.eval(Eq(Extract(x.args[0], 1, nil), Nil(nil))) != 1 && !nilErr(b.St, x.args[0]) {
				c.bad(R, what, c.at(b.From), "a hash is used although reading it may have failed")
				return false
			}
		default:
			c.bad(R, what, c.at(b.From), "a hash comes from neither the new hashes nor the right edge: %s", short(x))
			return false
		}
		p, ok := loadPlace(key)
		if !ok || p.base != idxs || p.idx == nil || len(p.fields) > 0 || idx != nil && idx != p.idx {
			c.bad(R, what, c.at(b.From), "the hash is not the one asked for: %s", short(key))
			return false
		}
		idx = p.idx
	}
	if idx == nil {
		c.bad(R, what, c.at(n), "the reader has no loop over the indexes")
		return false
	}
	if cn, why := idxCounter(rg, idx); why != "" || cn.li != li {
		c.bad(R, what, c.at(n), "%s", why)
		return false
	}
	ex := exhaustEdges(rg, idx, idxs)
	for _, rn := range returnsOf(rg) {
		if rn.Ev.Raw[0] != acc {
			continue
		}
		if p := search([]*Node{rg.Entry}, ex.pred(), func(m *Node) bool { return m == rn }); p != nil {
			c.add(false, R, what, c.at(rn), "the reader can return before every index was read", c.path(p)...)
			return false
		}
	}
	if !partial {
		// by now every leaf's hashes must be in the map (or there are no leaves)
		if p := search(t.s.recvs, anyOf(t.exit.pred(), t.s.nonEmptyBlock(), t.s.reenter()), func(m *Node) bool { return m == n }); p != nil {
			c.add(false, R, what, c.at(n), "tiles can be read before every leaf's hashes were stored", c.path(p)...)
			return false
		}
		ct := n.st.mapContent(t.M)
		if ct != t.out && !(ct.op == OpZeroMap && known(g, n, t.s.empty)) {
			c.bad(R, what, c.at(n), "the new hashes are changed after the leaves were added: %s", short(ct))
			return false
		}
	}
	c.ok(R, what, c.at(n))
	return true
}

func nilErr(st *State, call *Sym) bool {
	for c, v := range st.facts {
		if c.op == OpEq && v {
			for i := 0; i < 2; i++ {
				if c.args[i].op == OpExtract && c.args[i].n == 1 && c.args[i].args[0] == call && isNilSym(c.args[1-i]) {
					return true
				}
			}
		}
	}
	return false
}

func lastDot(s string) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '.' {
			return i
		}
	}
	return -1
}

// treeTiles: the tiles of hashes are those NewTiles names for the batch, with
// the bytes ReadTileData gives for them, and the last of each level is kept.
func (t *treeHashes) treeTiles() {
	c, s, g := t.c, t.s, t.s.g
	const R = "tree-tile"
	n := 0
	var tiles *Sym
	for _, x := range s.tileSets(false) {
		n++
		d := x.data
		p, ok := loadPlace(x.tile)
		if !ok || p.idx == nil || len(p.fields) > 0 || !isTlog(p.base, "NewTiles") {
			c.bad(R, "tree tile", c.at(x.n), "the uploaded tile is not one of NewTiles: %s", short(x.tile))
			continue
		}
		a := p.base.args
		old := s.poolFirst(unwrapConv(a[1]))
		if !a[0].isInt(8) || !old || !s.lastPlus1(unwrapConv(a[2])) {
			c.bad(R, "tree tile", c.at(x.n), "the tiles are not those that change between the first and the last entry of the batch: %s", short(p.base))
			continue
		}
		if d.op != OpExtract || d.n != 0 || !isTlog(d.args[0], "ReadTileData") || d.args[0].args[0] != x.tile {
			c.bad(R, "tree tile", c.at(x.n), "the bytes uploaded for a tile are not the hashes of that tile: %s", short(d))
			continue
		}
		tiles = p.base
		c.ok(R, "tree tile", c.at(x.n))
	}
	c.need(n, 1, R, "uploads of tree tiles")
	for _, m := range evNodes(g, func(e *Event) bool { return tlogCall(e, "ReadTileData") || tlogCall(e, "TreeHash") }) {
		t.reader(m, m.Ev.Res.args[1], false)
	}
	if tiles == nil {
		return
	}
	t.rightEdge(tiles)
}

// poolFirst: the index of the first entry of the batch.
func (s *Seq) poolFirst(x *Sym) bool {
	idx, path, ok := s.poolElem(x)
	return ok && idx.isInt(0) && path == "entry.LeafIndex"
}

// rightEdge: after a batch the right edge is the old one with the last new tile
// of each level in its place.
func (t *treeHashes) rightEdge(tiles *Sym) {
	c, s := t.c, t.s
	const R = "right-edge"
	n := 0
	for _, li := range s.g.Loops {
		if !isSeqLoop(s, li) {
			continue
		}
		for _, bk := range li.Backs {
			st := knownOnBack(s.g, li, bk)
			empty := bk.St.eval(s.empty) == 1 || st.eval(s.empty) == 1
			for sym, v := range bk.Vals {
				if !isMap(sym.typ) {
					continue
				}
				if m := sym.typ.Underlying().(*types.Map); typeName(m.Elem()) != "tileWithBytes" {
					continue
				}
				n++
				if v == sym {
					if !empty && !s.noBatch(li, bk) && contentOf(bk, sym, v).op != OpWCell {
						c.bad(R, "right edge", c.at(bk.From), "after a batch with entries the right edge of the tree is not updated")
					}
					if empty || s.noBatch(li, bk) {
						if ct := contentOf(bk, sym, v); ct.op != OpVer && ct != sym {
							c.bad(R, "right edge", c.at(bk.From), "an empty batch changes the right edge: %s", short(ct))
						}
						c.ok(R, "kept by an empty batch", c.at(bk.From))
						continue
					}
				} else if empty {
					c.bad(R, "right edge", c.at(bk.From), "an empty batch changes the right edge")
					continue
				}
				ct := contentOf(bk, sym, v)
				if why := t.edgeContent(ct, sym, tiles); why != "" {
					c.bad(R, "right edge", c.at(bk.From), "%s", why)
					continue
				}
				c.ok(R, "updated with the last tile of each level", c.at(bk.From))
			}
		}
	}
	c.need(n, 1, R, "places where the right edge is carried to the next batch")
}

func (t *treeHashes) edgeContent(ct, old, tiles *Sym) string {
	li := loopOf(t.s.g, ct)
	if ct.op != OpWCell || li == nil {
		return "the right edge kept is not updated in the loop over the new tiles: " + short(ct)
	}
	for _, b := range li.Backs {
		v, ok := b.Vals[ct]
		if !ok || v.op != OpMapUpd || v.args[0] != ct {
			return "a new tile can be passed over without being kept for the next batch"
		}
		val := v.args[2]
		tl, by := fieldByName(val, "Tile"), fieldByName(val, "Bytes")
		p, ok := loadPlace(orZero(tl))
		if !ok || p.base != tiles || p.idx == nil || len(p.fields) > 0 {
			return "the tile kept is not the new tile: " + short(tl)
		}
		if cn, why := idxCounter(t.s.g, p.idx); why != "" || cn.li != li {
			return "the new tiles are not kept in order: " + why
		}
		kp, ok := loadPlace(v.args[1])
		if !ok || kp.base != tiles || kp.idx != p.idx || kp.last() != "L" {
			return "a new tile is kept under another level: " + short(v.args[1])
		}
		by = stripBytes(orZero(by))
		if by.op != OpExtract || by.n != 0 || !isTlog(by.args[0], "ReadTileData") || by.args[0].args[0] != tl {
			return "the bytes kept for a tile are not the hashes of that tile: " + short(by)
		}
		if g := t.s.g; len(exhaustEdges(g, p.idx, tiles)) == 0 {
			return "the loop over the new tiles may end early"
		}
	}
	for _, h := range li.Heads {
		iv, ok := h.Init[ct]
		if !ok {
			continue
		}
		for {
			if iv.op == OpMapUpd && iv.args[1].isInt(-1) {
				iv = iv.args[0]
			} else if from := t.s.cloneOf(iv); from != nil {
				iv = from
			} else {
				break
			}
		}
		if iv == old {
			continue // updated in place
		}
		if iv.op != OpVer || len(iv.args) != 1 || iv.args[0] != old {
			return "the right edge is not updated from the one of the batch before: " + short(iv)
		}
	}
	return ""
}

func orZero(x *Sym) *Sym {
	if x == nil {
		return Nil(nil)
	}
	return x
}

// contentOf: the content, at the end of an iteration, of a map held in a cell
// (or of the map whose content the cell is).
func contentOf(bk *BackInfo, cell, v *Sym) *Sym {
	if cell.op == OpWCell {
		for k := range bk.St.mem {
			if k.op == OpMapKey && int64(k.id) == cell.n {
				return v
			}
		}
	}
	return bk.St.mapContent(v)
}

// cloneOf: the content of which a loop made a copy in this map.
func (s *Seq) cloneOf(x *Sym) *Sym {
	if x.op != OpWCell {
		return nil
	}
	li := loopOf(s.g, x)
	if li == nil {
		return nil
	}
	for _, h := range li.Heads {
		if iv, ok := h.Init[x]; ok && iv.op != OpZeroMap {
			return nil
		}
	}
	var from *Sym
	for _, b := range li.Backs {
		v, ok := b.Vals[x]
		if !ok || v.op != OpMapUpd || v.args[0] != x {
			return nil
		}
		k, e := v.args[1], v.args[2]
		if k.op != OpNextKey || k.args[0].op != OpRange || e != I.mk(Sym{op: OpLookup, args: []*Sym{k.args[0].args[0], k}, typ: e.typ}, "") || loopTesting(s.g, nextOkOf(k)) != li {
			return nil
		}
		if from != nil && from != k.args[0].args[0] {
			return nil
		}
		from = k.args[0].args[0]
		no := nextOkOf(k)
		for _, n := range s.g.Nodes {
			for i := range n.Out {
				if loopContains(li, n) && !loopContains(li, n.Out[i].To) && !edgeFact(&n.Out[i], no, false) {
					return nil
				}
			}
		}
	}
	return from
}
