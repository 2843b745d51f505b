package main

import (
	"go/types"
	"strings"
)

// C13: sequencing continues from the published tree.

func init() {
	register("C13", func(c *Check) {
		root := c.w.submit()
		seqs := c.w.sequencers()
		if !c.need(len(seqs), 1, "anchor", "sequencers") {
			return
		}
		c.use(root)
		for _, s := range seqs {
			c.use(syncGraphs(s.g)...)
			c.startsFromPublished(s)
		}
	})
}

// spawnOf finds where the task g is started.
func spawnOf(g *Graph) *Node {
	if g.Parent == nil {
		return nil
	}
	for _, n := range g.Parent.Nodes {
		if n.Ev == nil {
			continue
		}
		for _, t := range n.Ev.tasks() {
			if t == g {
				return n
			}
		}
	}
	return nil
}

func (c *Check) startsFromPublished(s *Seq) {
	const R = "start"
	sp := spawnOf(s.g)
	if sp == nil {
		c.bad("anchor", "sequencer", c.w.e.pos(s.g.Fn.Pos()), "the place where the sequencer is started was not found")
		return
	}
	sizes, maps := 0, 0
	for _, li := range s.g.Loops {
		if !isSeqLoop(s, li) {
			continue
		}
		for _, sym := range li.Syms {
			for _, h := range li.Heads {
				iv := h.Init[sym]
				if iv == nil {
					continue
				}
				switch {
				case isMap(sym.typ) && typeName(sym.typ.Underlying().(*types.Map).Elem()) == "tileWithBytes":
					ct := iv
					if iv.op != OpMapUpd && iv.op != OpZeroMap && iv.op != OpOut && iv.op != OpVer {
						ct = s.g.Entry.st.mapContent(iv)
					}
					maps++
					if why := c.edgeAtStart(s, sp, ct, elemType(sym.typ)); why != "" {
						c.bad(R, "right edge", c.at(sp), "%s", why)
						continue
					}
					c.ok(R, "right edge of the published tree", c.at(sp))
				case isIntType(sym.typ) && carriesSize(li, sym):
					sizes++
					if !isSTHSize(unwrapConv(iv)) {
						c.bad(R, "tree size", c.at(sp), "the sequencer does not start with the published tree size but with %s", short(iv))
						continue
					}
					c.ok(R, "published tree size", c.at(sp))
				}
			}
		}
	}
	c.need(maps, 1, R, "right edges the sequencer starts with")
	c.need(sizes, 1, R, "tree sizes the sequencer starts with")
}

// carriesSize: the variable the size of the published tree is kept in.
func carriesSize(li *LoopInfo, sym *Sym) bool {
	for _, b := range li.Backs {
		if v, ok := b.Vals[sym]; ok && v != sym && find(v, func(x *Sym) bool {
			return x.op == OpField && x.str == "LeafIndex" || x.op == OpLoad && strings.Contains(short(x), "LeafIndex")
		}) != nil {
			return true
		}
	}
	return false
}

// publishedHead: the tree head the size was read from.
func publishedHead(size *Sym) *Sym { return size.args[0] }

func (c *Check) edgeAtStart(s *Seq, sp *Node, ct *Sym, vt types.Type) string {
	pg := s.g.Parent
	var size *Sym
	for f := range must(pg).at(sp).facts {
		mentions(f, func(x *Sym) bool {
			if isSTHSize(x) {
				size = x
			}
			return false
		}, map[*Sym]bool{})
	}
	d, found := mapLookup(ct, CInt(-1), vt)
	if found != 1 {
		return "the last data tile of the published tree is not among the tiles the sequencer starts with"
	}
	tl, by := fieldByName(d, "Tile"), fieldByName(d, "Bytes")
	f, ok := tileFields(orZero(tl))
	if !ok {
		return "the data tile is not recognised: " + short(tl)
	}
	if !f[1].isInt(-1) {
		return "the tile kept as the data tile is of level " + short(f[1])
	}
	base := ct
	for base.op == OpMapUpd && base.args[1].isInt(-1) {
		base = base.args[0]
	}
	if base.op == OpZeroMap {
		if size == nil || !known(pg, sp, Eq(size, CInt(0))) {
			return "the sequencer may start from an empty tree although the published tree has entries"
		}
		if !f[0].isInt(8) || !f[2].isInt(0) || !f[3].isInt(0) || !isEmptySlice(unwrapConv(by)) {
			return "the data tile of an empty tree is " + short(d)
		}
		return ""
	}
	if base.op != OpOut || !isCallSym(base.args[0], "tlog.HashReader).ReadHashes") {
		return "the right edge is not the tiles verified against the published root: " + short(base)
	}
	rh := base.args[0]
	if !c.nilKnown(pg, sp, rh) {
		return "sequencing starts although the right edge may not have been verified"
	}
	var at *Node
	for _, n := range pg.Nodes {
		if n.Ev != nil && n.Ev.Res == rh {
			at = n
		}
	}
	if at == nil {
		return "the verification of the right edge was not found"
	}
	if why := c.verifiedEdge(pg, at, rh, base.args[1]); why != "" {
		return why
	}
	// the data tile: the last level-0 tile with its data bytes
	l0, st := mapLookup(base, CInt(0), vt)
	t0 := fieldByName(l0, "Tile")
	f0, ok := tileFields(orZero(t0))
	if st == 0 || !ok || f[0] != f0[0] || f[2] != f0[2] || f[3] != f0[3] {
		return "the data tile is not the one beside the last tile of level 0: " + short(tl)
	}
	key, get, ok := gotKey(by)
	if !ok || !isPathKey(key) || !sameTileValue(tileOf(key), tl) {
		return "the content of the data tile is not what is stored for it: " + short(by)
	}
	if !c.nilKnown(pg, sp, get) {
		return "sequencing starts although the data tile may not have been read"
	}
	return ""
}

func sameTileValue(a, b *Sym) bool {
	fa, ok1 := tileFields(a)
	fb, ok2 := tileFields(b)
	return a == b || ok1 && ok2 && fa == fb
}

// verifiedEdge: the tiles on the way to the last leaf are read from storage,
// checked against the root hash of the published tree head, and kept.
func (c *Check) verifiedEdge(g *Graph, at *Node, rh, out *Sym) string {
	r := at.Ev.Args[0]
	if !isCallSym(r, "tlog.TileHashReader") {
		return "the hashes are not read by a verifying reader: " + short(r)
	}
	tree := r.args[0]
	n, h := unwrapConv(fieldByName(tree, "N")), unwrapConv(fieldByName(tree, "Hash"))
	if !isSTHSize(n) {
		return "the tree verified against has size " + short(n)
	}
	if h == nil || h.op != OpField || h.str != "SHA256RootHash" || h.args[0] != publishedHead(n) {
		return "the tiles are not verified against the root hash of the published tree head: " + short(h)
	}
	u := findCall(n, "encoding/json.Unmarshal")
	if u == nil || !c.callNil(g, at, u) {
		return "the published tree head may not have been read"
	}
	if _, get, ok := gotKey(u.args[0]); !ok || !c.nilKnown(g, at, get) {
		return "the published tree head may not have been fetched"
	}
	last := Sub(n, CInt(1))
	have := false
	for _, x := range sliceElems(unwrapConv(at.Ev.Args[1])) {
		if isCallSym(x, "tlog.StoredHashIndex") && x.args[0].isInt(0) && (unwrapConv(x.args[1]) == last || Sub(x.args[1], n) == CInt(-1)) {
			have = true
		}
	}
	if !have {
		return "the hash of the last leaf is not read: " + short(at.Ev.Args[1])
	}
	var height, read, save bool
	for _, t := range at.Ev.tasks() {
		c.use(t)
		switch {
		case strings.HasSuffix(t.Name, ").Height"):
			for _, x := range evNodes(t, func(e *Event) bool { return e.Kind == EvReturn }) {
				if !x.Ev.Args[0].isInt(8) {
					return "tiles are read with another height than 8"
				}
				height = true
			}
		case strings.HasSuffix(t.Name, ").ReadTiles"):
			read = true
			if why := c.readsTiles(t); why != "" {
				return why
			}
		case strings.HasSuffix(t.Name, ").SaveTiles"):
			save = true
			if why := c.savesTiles(t, out); why != "" {
				return why
			}
		}
	}
	if !height || !read || !save {
		return "the reader of the tiles was not found"
	}
	return ""
}

// callNil: the call, whose only result is an error, is known to have returned nil.
func (c *Check) callNil(g *Graph, n *Node, k *Sym) bool { return known(g, n, Eq(k, Nil(nil))) }

// readsTiles: without an error, the result has for each tile what is stored for it.
func (c *Check) readsTiles(t *Graph) string {
	tiles := paramOf(t, "Tile")
	if tiles == nil {
		return "the reader of tiles has no parameter for them"
	}
	n := 0
	for _, x := range evNodes(t, func(e *Event) bool { return e.Kind == EvReturn }) {
		if len(x.Ev.Args) != 2 {
			return "the reader of tiles has other results"
		}
		if knownFalse(t, x, Eq(x.Ev.Args[1], Nil(nil))) {
			continue
		}
		n++
		if knownFalse(t, x, Eq(Len(tiles), CInt(0))) || !isEmptySlice(unwrapConv(x.Ev.Args[0])) {
			m, why := c.w.mappedOf(t, x.Ev.Args[0])
			if m == nil {
				return "the tiles read are not those asked for: " + why
			}
			if m.over != tiles {
				return "the tiles read are those of " + short(m.over)
			}
			if p := m.complete(x); p != nil {
				return "fewer tiles can be returned than were asked for"
			}
			for _, b := range m.li.Backs {
				for _, el := range m.elems {
					_, get, ok := gotKey(el)
					if ok && !stNil(knownOnBack(t, m.li, b), get) {
						return "a tile that could not be read is taken for an empty one"
					}
				}
			}
			for _, el := range m.elems {
				key, _, ok := gotKey(el)
				if !ok || !isPathKey(key) {
					return "a tile is not read from storage: " + short(el)
				}
				p, ok := loadPlace(tileOf(key))
				if !ok || p.base != tiles || p.idx != m.idx || len(p.fields) > 0 {
					return "a tile is read from the place of another one: " + short(key)
				}
			}
		}
	}
	if n == 0 {
		return "the reader of tiles never succeeds"
	}
	return ""
}

// paramOf: the parameter of t that is a slice of the named type.
func paramOf(t *Graph, elem string) *Sym {
	var hit *Sym
	seen := map[*Sym]bool{}
	for _, n := range t.Nodes {
		for _, e := range n.Out {
			for _, f := range e.Facts {
				mentions(f.C, func(x *Sym) bool {
					if x.op == OpParam && x.typ != nil && isSliceType(x.typ) && typeName(elemType(x.typ)) == elem {
						hit = x
					}
					return false
				}, seen)
			}
		}
	}
	return hit
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// savesTiles: each tile is kept for its level with its bytes, except where a tile
// further to the right is already there.
func (c *Check) savesTiles(t *Graph, out *Sym) string {
	tiles := paramOf(t, "Tile")
	n := 0
	for _, li := range t.Loops {
		for _, cell := range li.Syms {
			if cell.op != OpWCell || !isMap(cell.typ) || typeName(cell.typ.Underlying().(*types.Map).Elem()) != "tileWithBytes" {
				continue
			}
			if int64(out.id) != cell.n {
				return "the tiles are saved in another map than the one sequencing starts with"
			}
			for _, b := range li.Backs {
				v, ok := b.Vals[cell]
				if !ok {
					continue
				}
				n++
				if v == cell {
					sts, ok := bodyPaths(t, li, b)
					if !ok {
						return "too many ways through the loop over the tiles"
					}
					for _, st := range sts {
						if why := keepsOld(st, cell, tiles); why != "" {
							return why
						}
					}
					continue
				}
				if v.op != OpMapUpd || v.args[0] != cell {
					return "a tile read is not kept: " + short(v)
				}
				tl, by := fieldByName(v.args[2], "Tile"), fieldByName(v.args[2], "Bytes")
				p, ok := loadPlace(orZero(tl))
				if !ok || p.base != tiles || p.idx == nil || len(p.fields) > 0 {
					return "the tile kept is not the one read: " + short(tl)
				}
				if cn, why := idxCounter(t, p.idx); why != "" || cn.li != li {
					return "the tiles are not kept one by one: " + why
				}
				kp, ok := loadPlace(v.args[1])
				if !ok || kp.base != tiles || kp.idx != p.idx || kp.last() != "L" {
					return "a tile is kept under another level: " + short(v.args[1])
				}
				d, ok := loadPlace(unwrapConv(orZero(by)))
				if !ok || d.base.op != OpParam || d.base == tiles || d.idx != p.idx || len(d.fields) > 0 {
					return "a tile is kept with other bytes than its own: " + short(by)
				}
				if len(exhaustEdges(t, p.idx, tiles)) == 0 {
					return "the loop over the tiles may end early"
				}
				if pp := leavesEarly(li, exhaustEdges(t, p.idx, tiles), func(x *Node) bool { return x.Ev != nil && x.Ev.Kind == EvReturn }); pp != nil {
					return "the loop over the tiles may end early"
				}
			}
		}
	}
	if n == 0 {
		return "the tiles read are not kept"
	}
	return ""
}

// keepsOld: the level has a tile already, and it is not left of the new one.
func keepsOld(st *State, cell, tiles *Sym) string {
	const no = "a tile further to the right can be dropped"
	for f, v := range st.facts {
		if f.op != OpLookupOk || !v || f.args[0] != cell {
			continue
		}
		kp, ok := loadPlace(f.args[1])
		if !ok || kp.base != tiles || kp.last() != "L" {
			continue
		}
		var vt types.Type = cell.typ.Underlying().(*types.Map).Elem()
		old := I.mk(Sym{op: OpLookup, args: []*Sym{cell, f.args[1]}, typ: vt}, "")
		ot := fieldByName(old, "Tile")
		oN, oW := fieldByName(ot, "N"), fieldByName(ot, "W")
		nN, nW := siblingField(f.args[1], "N"), siblingField(f.args[1], "W")
		if oN == nil || nN == nil {
			continue
		}
		if st.eval(Lt(nN, oN)) == 1 || st.eval(Le(nN, oN)) == 1 && st.eval(Le(nW, oW)) == 1 || st.eval(Le(nN, oN)) == 1 && st.eval(Eq(nN, oN)) == 0 {
			return ""
		}
	}
	return no
}

// siblingField: another field of the tile whose level was loaded.
func siblingField(l *Sym, name string) *Sym {
	if l.op != OpLoad || l.args[0].op != OpFieldAddr {
		if l.op == OpField {
			return fieldByName(l.args[0], name)
		}
		return nil
	}
	tt, ok := l.args[0].typ, true
	fa := l.args[0]
	if p, isp := fa.args[0].typ.Underlying().(*types.Pointer); isp {
		tt = p.Elem()
	} else {
		ok = false
	}
	st := isStruct(tt)
	if !ok || st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return LoadSym(FieldAddr(fa.args[0], i, name, st.Field(i).Type()), verOf(l))
		}
	}
	return nil
}

// stNil: the error of the call is known to be nil in the state.
func stNil(st *State, k *Sym) bool {
	for q, v := range st.facts {
		q, v := normFact(Fact{q, v})
		if v && q.op == OpEq && isNilSym(q.args[1]) && q.args[0].op == OpExtract && q.args[0].args[0] == k {
			return true
		}
	}
	return false
}

// bodyPaths: what is known on each way through the loop body that ends with the
// back edge b; false if there are too many.
func bodyPaths(g *Graph, li *LoopInfo, b *BackInfo) ([]*State, bool) {
	var out []*State
	const limit = 4000
	steps := 0
	on := map[*Node]bool{}
	var walk func(n *Node, facts []Fact, base *State) bool
	walk = func(n *Node, facts []Fact, base *State) bool {
		if steps++; steps > limit {
			return false
		}
		if on[n] {
			return true
		}
		on[n] = true
		defer delete(on, n)
		for i := range n.Out {
			e := &n.Out[i]
			back := e.Back != nil && *e.Back == li.Key
			if back && !(n == b.From && e.To == b.H) {
				continue
			}
			fs := append(facts[:len(facts):len(facts)], e.Facts...)
			if back {
				st := newState()
				for c, v := range base.facts {
					st.facts[c] = v
				}
				for _, f := range fs {
					st.assume(f.C, f.V)
				}
				out = append(out, st)
				continue
			}
			if !walk(e.To, fs, base) {
				return false
			}
		}
		return true
	}
	for _, h := range li.Heads {
		if !walk(h, nil, must(g).at(h)) {
			return nil, false
		}
	}
	return out, len(out) > 0
}
