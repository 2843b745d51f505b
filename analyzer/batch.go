package main

import (
	"fmt"
	"go/types"
)

// --- resolving elements of accumulated slices -------------------------------------------

// accum describes a slice built by appending exactly one element per iteration
// of an exhaustive loop over another slice: acc[k] == elem[idx := k].
type accum struct {
	acc  *Sym
	over *Sym // the slice iterated over (nil when unknown)
	cnt  counter
	elem *Sym // element template in terms of cnt
	exit edgeSet
}

func isEmptySlice(x *Sym) bool {
	if x == nil {
		return false
	}
	if isNilSym(x) {
		return true
	}
	switch x.op {
	case OpMakeSlice:
		return x.args[0].isInt(0)
	case OpSlice:
		return x.args[2] != nil && x.args[2].isInt(0) || Len(x).isInt(0)
	case OpSnapSlice:
		return isEmptySlice(x.args[0])
	case OpArray:
		return len(x.args) == 1
	case OpZero:
		return x.typ != nil && Len(x).isInt(0)
	}
	return Len(x).isInt(0)
}

// sliceSingle: x is a one-element slice literal holding v.
func sliceSingle(x *Sym) *Sym {
	if x.op == OpSnapSlice && x.args[1] == nil && x.args[2] == nil {
		x = x.args[0]
	}
	if x.op == OpArray && len(x.args) == 2 && x.args[0] == nil {
		return x.args[1]
	}
	return nil
}

// elemAddrs collects the element accesses inside a term.
func elemAddrs(x *Sym) []*Sym {
	var out []*Sym
	mentions(x, func(s *Sym) bool {
		if s.op == OpElemAddr {
			out = append(out, s)
		}
		return false
	}, map[*Sym]bool{})
	return out
}

// idxOfLoop finds the element access in x that is driven by the loop's counter.
func elemOfLoop(g *Graph, x *Sym, li *LoopInfo) (base, idx *Sym) {
	base, idx = elemOfLoopFrom(g, x, li)
	if base != nil {
		if _, why := idxCounter(g, idx); why != "" {
			return nil, nil
		}
	}
	return
}

// elemOfLoopFrom also accepts loops that start after the first element.
func elemOfLoopFrom(g *Graph, x *Sym, li *LoopInfo) (base, idx *Sym) {
	for _, ea := range elemAddrs(x) {
		c, _, why := counterFrom(g, ea.args[1])
		if why == "" && c.li == li && !contains(ea.args[0], c.phi) {
			return ea.args[0], ea.args[1]
		}
	}
	return nil, nil
}

func (w *World) accumOf(g *Graph, acc *Sym) (*accum, string) {
	if acc.op != OpPhi && acc.op != OpWCell {
		return nil, "not a loop accumulator: " + short(acc)
	}
	li := loopOf(g, acc)
	for li == nil && g.Parent != nil {
		g = g.Parent
		li = loopOf(g, acc)
	}
	if li == nil {
		return nil, "no loop for accumulator " + short(acc)
	}
	a := &accum{acc: acc}
	for _, h := range li.Heads {
		if iv, ok := h.Init[acc]; ok && !isEmptySlice(iv) {
			return nil, "the accumulated slice does not start empty: " + short(iv)
		}
	}
	n := 0
	for _, b := range li.Backs {
		v, ok := b.Vals[acc]
		if !ok {
			continue
		}
		n++
		if v == acc {
			return nil, "an iteration can finish without appending its element"
		}
		if v.op != OpAppend || len(v.args) != 2 || v.args[0] != acc {
			return nil, "the accumulator is not extended by one append per iteration: " + short(v)
		}
		el := sliceSingle(v.args[1])
		if el == nil {
			return nil, "not exactly one element is appended: " + short(v.args[1])
		}
		if a.elem != nil && a.elem != el {
			return nil, "iterations append different elements: " + short(el)
		}
		a.elem = el
	}
	if n == 0 || a.elem == nil {
		return nil, "the accumulator is never extended"
	}
	base, idx := elemOfLoop(g, a.elem, li)
	if base == nil {
		return nil, "the appended element is not taken from the loop's current element: " + short(a.elem)
	}
	cnt, why := idxCounter(g, idx)
	if why != "" {
		return nil, why
	}
	a.over, a.cnt = base, cnt
	a.exit = exhaustEdges(g, idx, base)
	w.usedLoop(g, li, a.exit)
	return a, ""
}

// builder is a loop that fills the elements of a slice, with the edges on which
// it has filled all of them.
type builder struct {
	g  *Graph
	li *LoopInfo
	ex edgeSet
}

func (w *World) usedLoop(g *Graph, li *LoopInfo, ex edgeSet) {
	for _, b := range w.builders {
		if b.li == li {
			return
		}
	}
	w.builders = append(w.builders, builder{g, li, ex})
}

// incomplete finds a way to the nodes of g that leaves one of the loops used
// before it has filled its slice.
func (w *World) incomplete(g *Graph, nodes []*Node) []*Node {
	for _, b := range w.builders {
		to := nodes
		for h := g; h != b.g; h = h.Parent {
			if h == nil {
				return []*Node{b.li.Heads[0]}
			}
			if h.Parent == b.g {
				to = nil
				for _, n := range b.g.Nodes {
					if n.Ev != nil && n.Ev.Kind == EvSpawn {
						for _, t := range n.Ev.tasks() {
							if t == h {
								to = append(to, n)
							}
						}
					}
				}
			}
		}
		if p := search(b.li.Heads, b.ex.pred(), isNode(to)); p != nil {
			return p
		}
	}
	return nil
}

// filled recognises a slice made with one element per element of another, each
// of them written by a loop from the other's element at the same position.
func (w *World) filled(g *Graph, items *Sym) *Sym {
	var over *Sym
	for ; g != nil; g = g.Parent {
		for _, li := range g.Loops {
			for _, b := range li.Backs {
				for s, v := range b.Vals {
					if s.op != OpWCell || s.n != int64(verKey(items).id) {
						continue
					}
					for ; v != s && v.op == OpVerUpd; v = v.args[0] {
						base, idx := elemOfLoop(g, v.args[2], li)
						if base == nil || base == items {
							continue
						}
						if Len(base) != items.args[0] || over != nil && over != base || placeOf(v.args[1]).idx != idx {
							return nil
						}
						over = base
						w.usedLoop(g, li, exhaustEdges(g, idx, base))
					}
				}
			}
		}
	}
	return over
}

// at instantiates the template at another index term.
func (a *accum) at(idx *Sym) *Sym {
	return substitute(a.elem, map[*Sym]*Sym{a.cnt.phi: Sub(idx, CInt(a.cnt.off))})
}

// resolve rewrites loads of elements of accumulated slices (and of fields
// written for every element by an exhaustive loop) into the values they hold.
func (w *World) resolve(g *Graph, x *Sym, why *[]string) *Sym {
	memo := map[*Sym]*Sym{}
	var rec func(x *Sym) *Sym
	var place func(addr, ver *Sym) *Sym
	place = func(addr, ver *Sym) *Sym {
		// a version produced by a loop that writes one field of every element
		if ver != nil && ver.op == OpWCell {
			g := g
			li := loopOf(g, ver)
			for li == nil && g.Parent != nil {
				g = g.Parent
				li = loopOf(g, ver)
			}
			if li != nil {
				if v, ok := w.loopWritten(g, addr, ver, li, why); ok {
					return rec(v)
				}
			}
		}
		switch addr.op {
		case OpFieldAddr:
			if v := place(addr.args[0], ver); v != nil {
				return Field(v, int(addr.n), derefT(addr.typ), addr.str)
			}
		case OpElemAddr:
			b := addr.args[0]
			if b.typ != nil {
				if p, ok := b.typ.Underlying().(*types.Pointer); ok && isArray(p.Elem()) != nil {
					if v := place(b, ver); v != nil {
						return byteSel(v, rec(addr.args[1]), derefT(addr.typ))
					}
					return nil
				}
			}
			if b.op == OpPhi || b.op == OpWCell {
				a, y := w.accumOf(g, b)
				if a == nil {
					*why = append(*why, y)
					return nil
				}
				return rec(a.at(addr.args[1]))
			}
		}
		return nil
	}
	rec = func(x *Sym) *Sym {
		if x == nil {
			return nil
		}
		if y, ok := memo[x]; ok {
			return y
		}
		memo[x] = x
		y := x
		if x.op == OpLoad {
			if v := place(x.args[0], verOf(x)); v != nil {
				y = v
				memo[x] = y
				return y
			}
		}
		if len(x.args) > 0 {
			as := make([]*Sym, len(x.args))
			ch := false
			for i, a := range x.args {
				as[i] = rec(a)
				ch = ch || as[i] != a
			}
			if ch {
				y = rebuild(x, as)
			}
		}
		memo[x] = y
		return y
	}
	return rec(x)
}

// loopWritten resolves a load at a version produced by loop li: either the
// field the loop writes for every element, or a field it leaves alone.
func (w *World) loopWritten(g *Graph, addr, ver *Sym, li *LoopInfo, why *[]string) (*Sym, bool) {
	p := placeOf(addr)
	var sel *Sym // the element of an array in the field
	for p.idx != nil && p.base.typ != nil {
		// skip array element accesses: find the slice element
		if pt, ok := p.base.typ.Underlying().(*types.Pointer); ok && isArray(pt.Elem()) != nil {
			if len(p.fields) > 0 || sel != nil {
				return nil, false
			}
			sel = p.idx
			p = placeOf(p.base)
			continue
		}
		break
	}
	if p.idx == nil {
		return nil, false
	}
	var val *Sym
	var cnt counter
	for _, b := range li.Backs {
		v, ok := b.Vals[ver]
		if !ok {
			continue
		}
		var mine *Sym
		for ; v != ver; v = v.args[0] {
			if v.op != OpVerUpd {
				*why = append(*why, "elements are modified in an unrecognised way: "+short(v))
				return nil, false
			}
			wp := placeOf(v.args[1])
			if wp.base != p.base || wp.idx == nil {
				*why = append(*why, "write to another object: "+short(v.args[1]))
				return nil, false
			}
			if mine != nil || len(wp.fields) == 0 || len(p.fields) == 0 || wp.fields[0] != p.fields[0] {
				if mine == nil && (len(wp.fields) == 0 || len(p.fields) == 0) {
					*why = append(*why, "elements are written as a whole: "+short(v))
					return nil, false
				}
				continue // another field, or overwritten
			}
			c, y := idxCounter(g, wp.idx)
			if y != "" || c.li != li {
				*why = append(*why, y)
				return nil, false
			}
			if len(wp.fields) != len(p.fields) {
				return nil, false
			}
			mine = v.args[2]
			if val != nil && val != mine {
				return nil, false
			}
			cnt = c
		}
		if mine == nil && val != nil {
			return nil, false
		}
		val = mine
	}
	if val != nil {
		w.usedLoop(g, li, exhaustEdges(g, Add(cnt.phi, CInt(cnt.off)), p.base))
	}
	if val == nil {
		// untouched by the loop: the value before it
		var init *Sym
		for _, h := range li.Heads {
			if iv, ok := h.Init[ver]; ok {
				if h.st.eval(Le(Len(p.base), CInt(0))) == 1 {
					continue // nothing to go over
				}
				if init != nil && init != iv {
					return nil, false
				}
				init = iv
			}
		}
		if init == nil || init.op == OpVer && init.str == "0" {
			return LoadSym(addr, nil), true
		}
		return LoadSym(addr, init), true
	}
	val = substitute(val, map[*Sym]*Sym{cnt.phi: Sub(p.idx, CInt(cnt.off))})
	if sel != nil {
		val = byteSel(val, sel, derefT(addr.typ))
	}
	return val, true
}

// --- record batches ---------------------------------------------------------------------

// Batch is a recognised "merge these records into their files" computation:
// group by file, fetch each file once, insert every record, write every file.
type Batch struct {
	g      *Graph
	prefix string
	sets   []*Node // the storage writes
	sched  edgeSet // all files have been scheduled for writing
	groups []*Sym
	waits  edgeSet
	items  *Sym // the slice of items merged
	over   *Sym // the slice the items were built from
	idx    *Sym // index term of the element in over
	key    *Sym // file name below prefix, for the element
	rec    []*Sym
	recLen int64
	ok     bool
}

// setNodes lists the storage writes, in g and in tasks it spawns, whose key
// satisfies pred; for task writes the spawn node in g is given.
type setAt struct {
	set   *Node
	spawn *Node // nil when the write happens in g itself
}

func storageAt(g *Graph, method string, pred func(key *Sym) bool) []setAt {
	var out []setAt
	for _, n := range g.Nodes {
		if n.Ev == nil {
			continue
		}
		if isStorage(n.Ev, method) && len(n.Ev.Args) > 2 && pred(n.Ev.Args[2]) {
			out = append(out, setAt{n, nil})
		}
		if n.Ev.Kind == EvSpawn && n.Ev.Task != nil {
			for _, m := range n.Ev.Task.Nodes {
				if isStorage(m.Ev, method) && len(m.Ev.Args) > 2 && pred(m.Ev.Args[2]) {
					out = append(out, setAt{m, n})
				}
			}
		}
	}
	return out
}

// taskEnsures: a nil error from the task (or function) g implies that one of
// the given storage or call nodes completed successfully. Returns a path to an
// offending return otherwise.
func taskEnsures(g *Graph, ns []*Node, extra edgePred) []*Node {
	ok := okEdges(g, ns)
	for _, r := range evNodes(g, func(e *Event) bool { return e.Kind == EvReturn }) {
		var v *Sym
		if n := len(r.Ev.Args); n > 0 {
			v = r.Ev.Raw[n-1]
		}
		block := ok
		if v != nil {
			if r.st.eval(Eq(v, Nil(nil))) == 0 || knownNonNil(v) {
				continue
			}
			for _, n := range ns {
				if errOf(n.Ev) == v {
					block = union(block, outEdges([]*Node{n}))
				}
			}
		}
		if p := search([]*Node{g.Entry}, anyOf(block.pred(), extra), func(n *Node) bool { return n == r }); p != nil {
			return p
		}
	}
	return nil
}

// waitEdges: edges on which the group's Wait is known to have returned nil.
func waitEdges(g *Graph, group *Sym) edgeSet {
	out := edgeSet{}
	for _, n := range g.Nodes {
		if n.Ev != nil && n.Ev.Kind == EvWait && n.Ev.Group == group {
			er := errOf(n.Ev)
			for k := range edgesWhere(g, func(m *Node, e *Edge) bool { return edgeNil(e, er) }) {
				out[k] = true
			}
		}
	}
	return out
}

// returnsWait: the task's result is the result of the group's Wait.
func returnsWait(g *Graph, groups []*Sym) bool {
	for _, n := range g.Nodes {
		if n.Ev != nil && n.Ev.Kind == EvWait && n.Ev.Group == groups[0] {
			for _, r := range returnsOf(g) {
				if k := len(r.Ev.Raw); k > 0 && r.Ev.Raw[k-1] == errOf(n.Ev) {
					return true
				}
			}
		}
	}
	return false
}

// batch recognises the record merge with the given key prefix in g, recording
// obligations as it goes.
func (c *Check) batch(g *Graph, prefix, what string) *Batch {
	w := c.w
	key := func(s string) string { return what + ": " + s }
	sets := storageAt(g, "Set", func(k *Sym) bool { return hasPrefixConst(k, prefix) })
	if len(sets) == 0 {
		return nil
	}
	b := &Batch{g: g, prefix: prefix, ok: true}
	fail := func(rule, cons string, at *Node, f string, a ...any) {
		b.ok = false
		c.bad(rule, key(cons), c.at(at), f, a...)
	}
	var m *Sym
	perFile := edgeSet{}
	b.waits = edgeSet{}
	spawnsOf := map[*Node][]*Node{}
	for _, s := range sets {
		if s.spawn != nil {
			spawnsOf[s.spawn] = append(spawnsOf[s.spawn], s.set)
		}
	}
	var rng *Sym
	for _, s := range sets {
		b.sets = append(b.sets, s.set)
		k, v := s.set.Ev.Args[2], s.set.Ev.Args[3]
		ps := strParts(k)
		if len(ps) != 2 || ps[1].op != OpNextKey {
			fail("batch-write", "file key", s.set, "the key written is %s, not %q plus the name of each modified file", short(k), prefix)
			return b
		}
		rng = ps[1].args[0]
		mm := rng.args[0]
		if m != nil && m != mm {
			fail("batch-write", "file set", s.set, "files from two different sets are written")
			return b
		}
		m = mm
		val := stripBytes(v)
		if !(val.op == OpLookup && val.args[0] == m && val.args[1] == ps[1]) && !(val.op == OpNextVal && val.args[0] == rng) {
			fail("batch-write", "file content", s.set, "the content written under a file's name is %s, not that file's merged content", short(v))
			return b
		}
		no := nextOkOf(ps[1])
		li := loopTesting(g, no)
		if li == nil {
			fail("batch-write", "loop over files", s.set, "no loop over the modified files was found")
			return b
		}
		if s.spawn == nil {
			for k := range okEdges(g, []*Node{s.set}) {
				perFile[k] = true
			}
		} else {
			if p := taskEnsures(s.spawn.Ev.Task, spawnsOf[s.spawn], nil); p != nil {
				b.ok = false
				c.add(false, "task-result", key("upload task"), c.at(s.spawn), "the upload task can report success without a successful write", c.path(p)...)
			}
			if s.spawn.Ev.Group == nil {
				fail("joined", "upload task", s.spawn, "the upload runs in a goroutine that is not joined")
				return b
			}
			for k := range outEdges([]*Node{s.spawn}) {
				perFile[k] = true
			}
			b.groups = append(b.groups, s.spawn.Ev.Group)
			b.waits = union(b.waits, waitEdges(g, s.spawn.Ev.Group))
		}
		if p := perIteration(li, perFile.pred()); p != nil && s == sets[len(sets)-1] {
			b.ok = false
			c.add(false, "every-file", key("loop over files"), c.at(s.set), "an iteration over the modified files can end without writing the file", c.path(p)...)
		}
		b.sched = union(b.sched, edgesWhere(g, func(n *Node, e *Edge) bool { return edgeFact(e, no, false) }))
	}
	c.ok("every-file", key("each modified file is written with its own content"), c.at(sets[0].set))
	if len(b.groups) > 0 && len(b.waits) == 0 && !returnsWait(g, b.groups) {
		fail("joined", "uploads", sets[0].set, "the uploads are never waited for with their result checked")
	}

	// the merge loop
	if m.op != OpWCell {
		fail("merge", "file contents", sets[0].set, "the set of files is not built by a loop over the records: %s", short(m))
		return b
	}
	li := loopOf(g, m)
	if li == nil {
		fail("merge", "file contents", sets[0].set, "no loop builds the set of files")
		return b
	}
	n := 0
	for _, bk := range li.Backs {
		v, ok := bk.Vals[m]
		if !ok {
			continue
		}
		n++
		if v == m {
			fail("every-record", "merge loop", bk.From, "an iteration of the merge loop can end without inserting its record")
			return b
		}
		if v.op != OpMapUpd || v.args[0] != m {
			fail("merge", "merge loop", bk.From, "the files are updated in an unrecognised way: %s", short(v))
			return b
		}
		K, V := v.args[1], v.args[2]
		base, idx := elemOfLoop(g, K, li)
		if base == nil {
			fail("merge", "file of a record", bk.From, "the file a record is merged into does not depend on the record: %s", short(K))
			return b
		}
		old := I.mk(Sym{op: OpLookup, args: []*Sym{m, K}, typ: V.typ}, "")
		at, rec, y := spliceOf(bk.St, V, old)
		if y != "" {
			fail("preserve", "merge loop", bk.From, "the file's new content is not its old content with one record inserted: %s", y)
			return b
		}
		var whys []string
		w.builders = nil
		it, _ := w.resolveItem(g, base, &whys)
		if it == nil {
			for _, y := range whys {
				fail("every-record", "records merged", bk.From, "%s", y)
			}
			return b
		}
		var bytes []*Sym
		for _, x := range rec {
			bytes = append(bytes, w.resolve(g, x, &whys))
		}
		kk := w.resolve(g, K, &whys)
		if len(whys) > 0 {
			fail("merge", "record", bk.From, "%s", whys[0])
			return b
		}
		if p := w.incomplete(g, sendsAndSpawnsTo(g, sets)); p != nil {
			b.ok = false
			c.add(false, "every-record", key("records merged"), c.at(sets[0].set), "the loop that builds the records can be left before it has built all of them", c.path(p)...)
			return b
		}
		R := int64(len(rec))
		if b.items == nil {
			b.items, b.over, b.idx, b.key, b.rec, b.recLen = base, it.over, idx, kk, bytes, R
		} else if b.items != base || b.key != kk || !sameSyms(b.rec, bytes) {
			fail("merge", "record", bk.From, "different iterations merge different records")
			return b
		}
		// alignment
		l := toLin(at)
		al := l.c%R == 0
		for _, k := range l.t {
			al = al && k%R == 0
		}
		if !al {
			fail("aligned", "insertion point", bk.From, "the insertion point %s is not a multiple of the record length %d", short(at), R)
		} else {
			c.ok("aligned", key("insertion point is a multiple of the record length"), c.at(bk.From))
		}
		// sorted insertion: after every record that is not greater
		if y := insertAfterEqual(g, li, bk, at, old, R); y != "" {
			fail("order", "insertion point", bk.From, "%s", y)
		} else {
			c.ok("order", key("a record is never inserted before one with the same key"), c.at(bk.From))
		}
	}
	if n == 0 {
		fail("merge", "merge loop", sets[0].set, "no record is merged")
		return b
	}
	c.ok("every-record", key("each record is inserted into its file"), c.at(sets[0].set))
	c.ok("preserve", key("existing content is preserved around the inserted record"), c.at(sets[0].set))
	if _, why := idxCounter(g, b.idx); why != "" {
		fail("every-record", "merge loop", sets[0].set, "%s", why)
	}
	// exhaustive: the merge loop is left only at the end of the items or with an error return
	ex := exhaustEdges(g, b.idx, b.items)
	if p := leavesEarly(li, ex, isNode(sendsAndSpawnsTo(g, sets))); p != nil {
		b.ok = false
		c.add(false, "every-record", key("merge loop"), c.at(sets[0].set), "the merge loop can be left before every record was inserted", c.path(p)...)
	}

	// the fetch loop
	c.fetchLoop(g, b, m, li, prefix, what, sets, &fail)
	return b
}

func sameSyms(a, b []*Sym) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sendsAndSpawnsTo(g *Graph, sets []setAt) []*Node {
	var out []*Node
	for _, s := range sets {
		if s.spawn != nil {
			out = append(out, s.spawn)
		} else {
			out = append(out, s.set)
		}
	}
	return out
}

// leavesEarly finds a path from a loop head to a target that takes no exhaust
// edge of the loop.
func leavesEarly(li *LoopInfo, ex edgeSet, target func(*Node) bool) []*Node {
	return search(li.Heads, ex.pred(), target)
}

// resolveItem checks that items is built from every element of another slice.
func (w *World) resolveItem(g *Graph, items *Sym, whys *[]string) (*accum, string) {
	if items.op == OpPhi || items.op == OpWCell {
		a, y := w.accumOf(g, items)
		if a == nil {
			*whys = append(*whys, y)
		}
		return a, y
	}
	if items.op == OpMakeSlice && !items.args[0].isInt(0) {
		if over := w.filled(g, items); over != nil {
			return &accum{acc: items, over: over}, ""
		}
	}
	// merged directly from the given slice
	return &accum{acc: items, over: items}, ""
}

// spliceOf recognises V == old[:at] ++ rec ++ old[at:], with rec a constant
// number of bytes.
func spliceOf(st *State, V, old *Sym) (at *Sym, rec []*Sym, why string) {
	var bytesOf func(x *Sym) []*Sym
	bytesOf = func(x *Sym) []*Sym {
		if x.op == OpAppend { // a few pieces of constant length put together
			var out []*Sym
			for i, a := range x.args {
				n, ok := Len(a).intVal()
				if !ok || n > 64 || n == 0 && i > 0 {
					return nil
				}
				for k := int64(0); k < n; k++ {
					out = append(out, byteSel(a, CInt(k), types.Typ[types.Uint8]))
				}
			}
			return out
		}
		if x.op == OpSnapSlice && x.args[1] == nil && x.args[2] == nil {
			x = x.args[0]
		}
		if x.op == OpArray && x.args[0] == nil {
			for _, a := range x.args[1:] {
				if a == nil {
					return nil
				}
			}
			return x.args[1:]
		}
		return nil
	}
	type seg struct {
		src, lo, hi *Sym
		rec         []*Sym
	}
	part := func(x *Sym) (seg, bool) {
		if r := bytesOf(x); r != nil {
			return seg{rec: r}, true
		}
		s, lo, hi := x, (*Sym)(nil), (*Sym)(nil)
		if x.op == OpSlice || x.op == OpSnapSlice && (x.args[3] == nil) {
			s, lo, hi = x.args[0], x.args[1], x.args[2]
		}
		if s == old {
			return seg{src: s, lo: lo, hi: hi}, true
		}
		return seg{}, false
	}
	var segs []seg
	switch {
	case V.op == OpMakeSlice:
		ver := st.mem[verKey(V)]
		var chain []*Sym
		for v := ver; v != nil; v = v.args[0] {
			if v.op == OpVer && v.str == "0" {
				break
			}
			if v.op != OpVerCopy {
				return nil, nil, "unrecognised write into the new content: " + short(v)
			}
			chain = append([]*Sym{v}, chain...)
		}
		if len(chain) != 3 {
			return nil, nil, fmt.Sprintf("expected three copies into the new content, found %d", len(chain))
		}
		// order by destination offset: head, record, tail
		for _, v := range chain {
			s, ok := part(v.args[3])
			if !ok {
				return nil, nil, "copies from something other than the old content or the record: " + short(v.args[3])
			}
			segs = append(segs, s)
		}
		var head, tail, mid int = -1, -1, -1
		for i, s := range segs {
			switch {
			case s.rec != nil:
				mid = i
			case s.lo == nil && s.hi != nil:
				head = i
			case s.lo != nil && s.hi == nil:
				tail = i
			}
		}
		if head < 0 || tail < 0 || mid < 0 {
			return nil, nil, "the copies are not head, record and tail"
		}
		at = segs[head].hi
		if segs[tail].lo != at {
			return nil, nil, fmt.Sprintf("the tail starts at %s but the head ends at %s", short(segs[tail].lo), short(at))
		}
		R := CInt(int64(len(segs[mid].rec)))
		off := func(i int) *Sym {
			if lo := chain[i].args[1]; lo != nil {
				return lo
			}
			return CInt(0)
		}
		if !off(head).isInt(0) || off(mid) != at && Sub(off(mid), at) != CInt(0) || Sub(off(tail), Add(at, R)) != CInt(0) {
			return nil, nil, fmt.Sprintf("the copies are placed at %s, %s and %s", short(off(head)), short(off(mid)), short(off(tail)))
		}
		total := Add(Len(old), R)
		if Sub(V.args[0], total) != CInt(0) {
			return nil, nil, "the new content's length is " + short(V.args[0])
		}
		// later copies must not overwrite earlier ones beyond their part: a copy
		// writes min(len(dst), len(src)) bytes
		end := func(i int) *Sym { return chain[i].args[2] }
		if chain[head].args[2] != nil {
			if e := Sub(end(head), at); !e.isInt(0) && Sub(end(head), total) != CInt(0) {
				return nil, nil, "the head is truncated"
			}
		}
		for _, i := range []int{tail} {
			if Sub(end(i), total) != CInt(0) {
				return nil, nil, "the tail is truncated"
			}
		}
		if e := Sub(end(mid), Add(at, R)); !e.isInt(0) && Sub(end(mid), total) != CInt(0) {
			return nil, nil, "the record is truncated"
		}
		return at, segs[mid].rec, ""
	case V.op == OpAppend:
		var parts []*Sym
		for i, a := range V.args {
			if i == 0 && isEmptySlice(a) {
				continue
			}
			parts = append(parts, a)
		}
		if len(parts) == 0 {
			return nil, nil, "empty"
		}
		for i, p := range parts {
			s, ok := part(p)
			if !ok {
				return nil, nil, "appends something other than the old content or the record: " + short(p)
			}
			if i == 0 && s.src != nil && len(parts) == len(V.args) {
				return nil, nil, "the new content is appended into the old content's backing array"
			}
			segs = append(segs, s)
		}
		if len(segs) == 3 && segs[0].src != nil && segs[1].rec != nil && segs[2].src != nil && segs[0].lo == nil && segs[2].hi == nil && segs[0].hi != nil && segs[0].hi == segs[2].lo {
			return segs[0].hi, segs[1].rec, ""
		}
		return nil, nil, "the appended parts are not head, record and tail"
	}
	if isCallSym(V, "slices.Insert") && len(V.args) >= 3 {
		if V.args[0] == old {
			if r := bytesOf(V.args[2]); r != nil {
				return V.args[1], r, ""
			}
		}
	}
	return nil, nil, "unrecognised content: " + short(V)
}

// insertAfterEqual: the insertion point is the end of the records, or a record
// known to compare greater than the new one.
func insertAfterEqual(g *Graph, li *LoopInfo, bk *BackInfo, at, old *Sym, R int64) string {
	// end of the records
	q := Sub(at, CInt(0))
	cntEnd := fromLin(linScale(toLin(Bin(tokQuo, Len(old), CInt(R), types.Typ[types.Int])), R), types.Typ[types.Int])
	if q == cntEnd || Sub(at, Len(old)).isInt(0) {
		return ""
	}
	// the scan counted up to the end
	var past edgePred
	if l := toLin(at); len(l.t) == 1 && l.c == 0 {
		for v, k := range l.t {
			cn, y := idxCounter(g, v)
			if k == R && y == "" && cn.off == 0 {
				in := Lt(v, Bin(tokQuo, Len(old), CInt(R), types.Typ[types.Int]))
				past = func(n *Node, e *Edge) bool { return edgeFact(e, in, false) }
			}
		}
	}
	before := func(n *Node, e *Edge) bool {
		if past != nil && past(n, e) {
			return true
		}
		for _, f := range e.Facts {
			// bytes.Compare(new, old[at:at+k]) < 0
			cmp := find(f.C, func(s *Sym) bool { return isCallSym(s, "bytes.Compare") })
			if cmp == nil {
				continue
			}
			x, y := cmp.args[0], cmp.args[1]
			if (edgeFact(e, Lt(cmp, CInt(0)), true) || edgeFact(e, Eq(cmp, CInt(-1)), true)) && sliceAt(y, old, at) {
				return true
			}
			if (edgeFact(e, Lt(CInt(0), cmp), true) || edgeFact(e, Eq(cmp, CInt(1)), true)) && sliceAt(x, old, at) {
				return true
			}
		}
		return false
	}
	if pathToBack(li, bk, before) == nil {
		return ""
	}
	return fmt.Sprintf("the insertion point %s is neither the end of the file nor a record known to sort after the new one, so an existing record with the same key can be shadowed", short(at))
}

func sliceAt(b, old, at *Sym) bool {
	if b.op != OpSlice && b.op != OpSnapSlice || b.args[0] != old {
		return false
	}
	return b.args[1] == at || b.args[1] == nil && at.isInt(0)
}
