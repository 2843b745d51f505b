package main

import (
	"fmt"
	"go/types"
)

// dataTiles is the recognised leaf-tile buffer of the sequencer: a byte buffer
// B, a width W and a tile number N carried around the loop over the pool.
type dataTiles struct {
	li         *LoopInfo
	idx        *Sym // index of the current pool element
	B, W, N    *Sym // widened cells
	exit       edgeSet
	partial    []*Node // nodes at which the remaining partial tile is uploaded
	full       []*Node
	sched      edgeSet // after the loop: the rest was uploaded, or there is no rest
	entry      *Sym    // the entry appended
	spawnGroup map[*Node]*Sym
}

func fieldByName(x *Sym, name string) *Sym {
	if x == nil || x.typ == nil {
		return nil
	}
	st, ok := x.typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return Field(x, i, st.Field(i).Type(), name)
		}
	}
	return nil
}

type tileSet struct {
	n    *Node // node in the sequencer graph
	set  *Node // the storage write
	tile *Sym
	data *Sym
}

func (s *Seq) tileSets(data bool) []tileSet {
	var out []tileSet
	for _, x := range storageAt(s.g, "Set", isPathKey) {
		if len(x.set.Ev.Args) < 4 || isDataTile(x.set.Ev) != data {
			continue
		}
		n := x.spawn
		if n == nil {
			n = x.set
		}
		out = append(out, tileSet{n, x.set, tileOf(x.set.Ev.Args[2]), stripBytes(x.set.Ev.Args[3])})
	}
	return out
}

// dataTiles recognises the leaf tile buffer.
func (s *Seq) dataTiles() (*dataTiles, string) {
	key := "dt" + fmt.Sprintf("%p", s.g)
	if v, ok := s.w.memo[key]; ok {
		if d, ok := v.(*dataTiles); ok {
			return d, ""
		}
		return nil, v.(string)
	}
	d, why := s.findDataTiles()
	if d != nil {
		s.w.memo[key] = d
	} else {
		s.w.memo[key] = why
	}
	return d, why
}

func (s *Seq) findDataTiles() (*dataTiles, string) {
	d := &dataTiles{spawnGroup: map[*Node]*Sym{}}
	for _, li := range s.g.Loops {
		for _, bk := range li.Backs {
			for sym, v := range bk.Vals {
				if isCallSym(v, "sunlight.AppendTileLeaf") && v.args[0] == sym {
					if d.B != nil && d.B != sym {
						return nil, "two different leaf buffers"
					}
					d.B, d.li = sym, li
					d.entry = v.args[1]
				}
			}
		}
	}
	if d.B == nil {
		return nil, "no loop appends the pool's entries to a leaf buffer"
	}
	base, idx := elemOfLoop(s.g, d.entry, d.li)
	if base != s.pool {
		return nil, "the leaf appended is not the pool's current entry: " + short(d.entry)
	}
	d.idx = idx
	d.exit = exhaustEdges(s.g, idx, s.pool)
	app := func(x *Sym) bool { return isCallSym(x, "sunlight.AppendTileLeaf") && x.args[0] == d.B }
	for _, t := range s.tileSets(true) {
		w, n := fieldByName(t.tile, "W"), fieldByName(t.tile, "N")
		if w == nil || n == nil {
			return nil, "unrecognised tile " + short(t.tile)
		}
		switch {
		case t.data == d.B:
			if d.W != nil && d.W != w || d.N != nil && d.N != n {
				return nil, "partial tiles of different shapes"
			}
			d.W, d.N = w, n
			d.partial = append(d.partial, t.n)
		case app(t.data):
			d.full = append(d.full, t.n)
		default:
			return nil, "unrecognised tile data " + short(t.data)
		}
		if t.n.Ev.Kind == EvSpawn {
			d.spawnGroup[t.n] = t.n.Ev.Group
		}
	}
	if len(d.partial) == 0 {
		return nil, "the remaining partial tile is never uploaded"
	}
	pos := Lt(CInt(0), d.W)
	zero := Eq(d.W, CInt(0))
	d.sched = union(outEdges(d.partial), edgesWhere(s.g, func(n *Node, e *Edge) bool { return edgeFact(e, pos, false) || edgeFact(e, zero, true) }))
	return d, ""
}

// dataTileOrder: uploads of leaf tiles complete before the targets.
func (c *Check) dataTileOrder(s *Seq, targets []*Node, what string) {
	cons := "data tile uploads before " + what
	T := isNode(targets)
	ts := s.tileSets(true)
	if len(ts) == 0 {
		c.bad("ordered", cons, c.at(s.recvs[0]), "no leaf tile is ever written by the sequencer")
		return
	}
	// every leaf tile write must be waited for
	for _, t := range ts {
		if t.n.Ev.Kind != EvSpawn {
			if p := search([]*Node{t.n}, anyOf(okEdges(s.g, []*Node{t.n}).pred(), s.reenter()), T); p != nil {
				c.add(false, "ordered", cons, c.at(t.n), what+" can be reached although the leaf tile upload failed", c.path(p)...)
			}
			continue
		}
		if p := nilReturnAvoiding(t.n.Ev.Task, okEdges(t.n.Ev.Task, []*Node{t.set}).pred(), []*Node{t.set}); p != nil {
			c.add(false, "task-result", "data tile: upload task", c.at(t.n), "the upload task can report success although the write did not succeed", c.path(p)...)
		}
		if t.n.Ev.Group == nil {
			c.bad("joined", "data tile: upload task", c.at(t.n), "the upload runs in a goroutine whose result is not collected")
			continue
		}
		if p := search([]*Node{t.n}, anyOf(waitEdges(s.g, t.n.Ev.Group).pred(), s.reenter()), T); p != nil {
			c.add(false, "ordered", cons, c.at(t.n), what+" can be reached before this leaf tile upload was waited for and found successful", c.path(p)...)
		}
	}
	d, why := s.dataTiles()
	if d == nil {
		c.ok("ordered", cons+" (each upload is waited for; the buffer itself was not recognised: "+why+")", c.at(ts[0].n))
		return
	}
	if p := search(s.recvs, anyOf(d.exit.pred(), s.nonEmptyBlock(), s.reenter()), T); p != nil {
		c.add(false, "ordered", cons, c.at(p[len(p)-1]), what+" can be reached before every leaf was added to a tile", c.path(p)...)
		return
	}
	var from []*Node
	for e := range d.exit {
		from = append(from, e.n.Out[e.i].To)
	}
	sortNodes(from)
	if p := search(from, anyOf(d.sched.pred(), s.reenter()), T); p != nil {
		c.add(false, "ordered", cons, c.at(p[len(p)-1]), what+" can be reached without the remaining partial leaf tile having been uploaded", c.path(p)...)
		return
	}
	c.ok("ordered", cons, c.at(ts[0].n))
}

// dataTileBuffer: the typestate of the leaf buffer, per iteration.
func (c *Check) dataTileBuffer(s *Seq) {
	d, why := s.dataTiles()
	const K = "leaf tile buffer"
	if d == nil {
		c.bad("leaf-buffer", K, c.at(s.recvs[0]), "%s", why)
		return
	}
	if _, why := idxCounter(s.g, d.idx); why != "" {
		c.bad("leaf-buffer", K, c.at(s.recvs[0]), "%s", why)
		return
	}
	width := CInt(256)
	W1 := Add(d.W, CInt(1))
	for _, bk := range d.li.Backs {
		if !hasVal(bk, d.B) {
			continue
		}
		get := func(x *Sym) *Sym {
			if v, ok := bk.Vals[x]; ok {
				return v
			}
			return x
		}
		b, w, n := stripBytes(get(d.B)), get(d.W), get(d.N)
		isApp := func(x *Sym) bool {
			return isCallSym(x, "sunlight.AppendTileLeaf") && x.args[0] == d.B && x.args[1] == d.entry
		}
		switch {
		case isApp(get(d.B)):
			switch {
			case w != W1:
				c.bad("leaf-buffer", K+": width", c.at(bk.From), "a leaf is appended but the tile width becomes %s", short(w))
			case n != d.N:
				c.bad("leaf-buffer", K+": number", c.at(bk.From), "the tile number changes (%s) although the tile was not finished", short(n))
			case bk.St.eval(Eq(W1, width)) != 0 && bk.St.eval(Lt(W1, width)) != 1:
				c.bad("leaf-buffer", K+": full tile", c.at(bk.From), "a tile that may be full is kept in the buffer without being uploaded, so it can outgrow the tile width")
			default:
				c.ok("leaf-buffer", K+": leaf kept for the next upload", c.at(bk.From))
			}
		case b == d.B:
			c.bad("leaf-buffer", K+": leaf", c.at(bk.From), "an iteration can end without its leaf having been appended")
		case isEmptySlice(b) || isEmptySlice(get(d.B)):
			// the tile was finished: it must have been uploaded in this iteration
			if !w.isInt(0) {
				c.bad("leaf-buffer", K+": reset", c.at(bk.From), "the buffer is emptied but the width becomes %s", short(w))
			}
			if n != Add(d.N, CInt(1)) {
				c.bad("leaf-buffer", K+": reset", c.at(bk.From), "the buffer is emptied but the next tile number is %s", short(n))
			}
			var good []*Node
			for _, t := range s.tileSets(true) {
				if isApp(t.data) && fieldByName(t.tile, "W") == W1 && fieldByName(t.tile, "N") == d.N {
					good = append(good, t.n)
				}
			}
			if bk.St.eval(Eq(W1, width)) != 1 {
				c.bad("leaf-buffer", K+": full tile", c.at(bk.From), "a tile that may not be full is finished and its number skipped")
			}
			gs := outEdges(good)
			if p := pathToBack(d.li, bk, gs.pred()); p != nil {
				c.add(false, "leaf-buffer", K+": full tile", c.at(bk.From), "the buffer can be emptied without a full tile holding it having been uploaded", c.path(p)...)
			} else {
				c.ok("leaf-buffer", K+": full tile uploaded before the buffer is emptied", c.at(bk.From))
			}
		default:
			c.bad("leaf-buffer", K+": leaf", c.at(bk.From), "the buffer becomes %s", short(b))
		}
	}
	// initial values
	for _, h := range d.li.Heads {
		iv := func(x *Sym) *Sym {
			if v, ok := h.Init[x]; ok {
				return v
			}
			return nil
		}
		b, w, n := iv(d.B), iv(d.W), iv(d.N)
		if b == nil || w == nil || n == nil {
			c.bad("leaf-buffer", K+": start", c.at(h), "no initial value")
			continue
		}
		if isEmptySlice(stripBytes(b)) {
			// fresh tile after a full one: width 0, next number
			l := toLin(n)
			if !w.isInt(0) || l.c != 1 || len(l.t) != 1 {
				c.bad("leaf-buffer", K+": start", c.at(h), "a fresh tile starts with width %s and number %s", short(w), short(n))
				continue
			}
			for old := range l.t {
				ow := siblingW(old)
				if ow == nil || h.st.eval(Eq(ow, width)) != 1 && search(s.recvs, anyOf(edgesWhere(s.g, func(n *Node, e *Edge) bool { return edgeFact(e, Eq(ow, width), true) }).pred(), s.reenter()), func(n *Node) bool { return n == h }) != nil {
					c.bad("leaf-buffer", K+": start", c.at(h), "a fresh tile is started although the previous one is not known to be full")
				} else {
					c.ok("leaf-buffer", K+": starts fresh after a full tile", c.at(h))
				}
			}
			continue
		}
		if !sameTile(b, w, n) {
			c.bad("leaf-buffer", K+": start", c.at(h), "bytes, width and number do not come from the same tile: %s / %s / %s", short(b), short(w), short(n))
			continue
		}
		if h.st.eval(Eq(w, width)) != 0 && h.st.eval(Lt(w, width)) != 1 {
			c.bad("leaf-buffer", K+": start", c.at(h), "the loop can start with a full tile, whose first new leaf would overflow it")
			continue
		}
		c.ok("leaf-buffer", K+": continues the published partial tile", c.at(h))
	}
	// the tile kept for the next flush is the buffer
	n := 0
	for _, li := range s.g.Loops {
		if !isSeqLoop(s, li) {
			continue
		}
		for _, bk := range li.Backs {
			if bk.St.eval(s.empty) == 1 {
				continue
			}
			for sym, v := range bk.Vals {
				if !isMap(sym.typ) || v == sym {
					continue
				}
				last, st := s.mapAt(contentOf(bk, sym, v), CInt(-1), elemType(v.typ))
				n++
				_ = st
				bt, tt := fieldByName(last, "Bytes"), fieldByName(last, "Tile")
				if bt == nil || tt == nil {
					c.bad("leaf-buffer", K+": kept", c.at(bk.From), "the leaf tile kept for the next flush is %s", short(last))
					continue
				}
				if stripBytes(bt) != d.B || fieldByName(tt, "W") != d.W || fieldByName(tt, "N") != d.N {
					c.bad("leaf-buffer", K+": kept", c.at(bk.From), "the leaf tile kept for the next flush is %s with %s, not the buffer", short(tt), short(bt))
					continue
				}
				c.ok("leaf-buffer", K+": kept for the next flush", c.at(bk.From))
			}
		}
	}
	c.need(n, 1, "leaf-buffer", "places where the right edge is carried to the next flush")
}

func hasVal(b *BackInfo, s *Sym) bool { _, ok := b.Vals[s]; return ok }

// isSeqLoop: the loop that receives pools.
func isSeqLoop(s *Seq, li *LoopInfo) bool {
	for _, b := range li.Backs {
		if search([]*Node{b.H}, nil, isNode(s.recvs)) != nil && li.Key.c == s.recvs[0].ctx {
			// no other loop encloses the receive
			return loopContains(li, s.recvs[0])
		}
	}
	return false
}

func loopContains(li *LoopInfo, n *Node) bool {
	return inLoopCtx(n.ctx, n.b, li.Key)
}

// siblingW: from the N field of a tile, its W field.
func siblingW(n *Sym) *Sym {
	if n.op == OpField {
		return fieldByName(n.args[0], "W")
	}
	return nil
}

func sameTile(b, w, n *Sym) bool {
	b = stripBytes(b)
	if b.op != OpField || w.op != OpField || n.op != OpField {
		return false
	}
	t := b.args[0]
	return w.args[0] == n.args[0] && w.args[0].op == OpField && w.args[0].args[0] == t
}

// pathToBack finds a way from the loop heads to the given back edge avoiding m.
func pathToBack(li *LoopInfo, bk *BackInfo, m edgePred) []*Node {
	for _, h := range li.Heads {
		if h == bk.From {
			return []*Node{h}
		}
		blk := func(n *Node, e *Edge) bool {
			return m(n, e) || e.Back != nil && *e.Back == li.Key
		}
		if p := search([]*Node{h}, blk, func(n *Node) bool { return n == bk.From }); p != nil {
			// the last node's own edges: the back edge may itself be the milestone
			for i := range bk.From.Out {
				e := &bk.From.Out[i]
				if e.Back != nil && *e.Back == li.Key && e.To == bk.H && !m(bk.From, e) {
					return p
				}
			}
		}
	}
	return nil
}

func sortNodes(ns []*Node) {
	for i := 1; i < len(ns); i++ {
		for j := i; j > 0 && ns[j].id < ns[j-1].id; j-- {
			ns[j], ns[j-1] = ns[j-1], ns[j]
		}
	}
}

// mapAt reads a key of the right-edge map, looking through a loop that only
// stores tiles of non-negative levels (those listed by tlog.NewTiles).
func (s *Seq) mapAt(content, k *Sym, vt types.Type) (*Sym, int) {
	for {
		v, st := mapLookup(content, k, vt)
		if st >= 0 || v.op != OpLookup {
			return v, st
		}
		c := v.args[0]
		if c.op != OpWCell || !k.isInt(-1) {
			return v, st
		}
		if from := s.cloneOf(c); from != nil {
			content = from
			continue
		}
		li := loopOf(s.g, c)
		if li == nil {
			return v, st
		}
		for _, bk := range li.Backs {
			nv, ok := bk.Vals[c]
			for ok && nv != c {
				if nv.op != OpMapUpd || find(nv.args[1], func(x *Sym) bool { return isCallSym(x, "tlog.NewTiles") }) == nil {
					return v, st
				}
				if p, ok := loadPlace(nv.args[1]); !ok || p.last() != "L" {
					return v, st
				}
				nv = nv.args[0]
			}
		}
		var init *Sym
		for _, h := range li.Heads {
			if iv, ok := h.Init[c]; ok {
				if init != nil && init != iv {
					return v, st
				}
				init = iv
			}
		}
		if init == nil {
			return v, st
		}
		content = init
	}
}
