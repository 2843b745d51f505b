package main

import (
	"go/token"
	"strings"
)

const tokQuo = token.QUO

// notFoundEdge: the edge learns that the error of a read is the storage's "no
// such object" error.
func notFoundEdge(e *Edge, er *Sym) bool {
	for _, f := range e.Facts {
		if c, v := normFact(f); v && isNotFoundTest(c, er) {
			return true
		}
	}
	return false
}

func isNotFoundTest(c, er *Sym) bool {
	if len(c.args) != 2 || c.args[0] != er {
		return false
	}
	if isCallSym(c, "errors.Is") {
		return find(c.args[1], func(s *Sym) bool {
			return s.op == OpGlobal && strings.HasSuffix(s.str, ".ErrNotExist")
		}) != nil
	}
	if isCallSym(c, "errors.As") {
		return find(c.args[1], func(s *Sym) bool {
			return s.typ != nil && (strings.Contains(s.typ.String(), "NoSuchKey") || strings.Contains(s.typ.String(), "NotFound"))
		}) != nil
	}
	return false
}

// fetchLoop checks that before merging, every file that a record goes into was
// fetched from storage (or is known not to exist).
func (c *Check) fetchLoop(g *Graph, b *Batch, m *Sym, li *LoopInfo, prefix, what string, sets []setAt, fail *func(rule, cons string, at *Node, f string, a ...any)) {
	key := what + ": "
	var m0 *Sym
	for _, h := range li.Heads {
		if iv, ok := h.Init[m]; ok {
			if m0 != nil && m0 != iv {
				(*fail)("fetch", "files before merging", h, "different initial contents")
				return
			}
			m0 = iv
		}
	}
	if m0 == nil || m0.op != OpWCell {
		(*fail)("fetch", "files before merging", sets[0].set, "the files merged into were not fetched by a loop over the records: %s", short(m0))
		return
	}
	l0 := loopOf(g, m0)
	if l0 == nil {
		(*fail)("fetch", "files before merging", sets[0].set, "no fetch loop")
		return
	}
	for _, h := range l0.Heads {
		if iv, ok := h.Init[m0]; ok && !(iv.op == OpZeroMap || iv.op == OpZero || isNilSym(iv)) {
			(*fail)("fetch", "files before merging", h, "the set of files does not start empty: %s", short(iv))
		}
	}
	var idx *Sym
	n := 0
	for _, bk := range l0.Backs {
		v, ok := bk.Vals[m0]
		if !ok {
			continue
		}
		n++
		if v == m0 {
			// unchanged only when the element's file is already present
			okk := pathToBack(l0, bk, func(n *Node, e *Edge) bool {
				for _, f := range e.Facts {
					if cc, fv := normFact(f); fv && cc.op == OpLookupOk && cc.args[0] == m0 && c.sameFile(g, b, cc.args[1], l0, &idx) {
						return true
					}
				}
				return false
			}) == nil
			if !okk {
				(*fail)("fetch", "fetch loop", bk.From, "an iteration of the fetch loop ends without the record's file being fetched")
			}
			continue
		}
		if v.op != OpMapUpd || v.args[0] != m0 {
			(*fail)("fetch", "fetch loop", bk.From, "unrecognised update: %s", short(v))
			continue
		}
		if !c.sameFile(g, b, v.args[1], l0, &idx) {
			(*fail)("fetch", "fetch loop", bk.From, "the file fetched is %s, not the one the record is merged into (%s)", short(v.args[1]), short(b.key))
			continue
		}
		val := stripBytes(v.args[2])
		var get *Node
		for _, gn := range g.Nodes {
			if isStorage(gn.Ev, "Get") && len(gn.Ev.Args) > 2 {
				ps := strParts(gn.Ev.Args[2])
				if len(ps) >= 2 && hasPrefixConst(gn.Ev.Args[2], prefix) && endsWith(gn.Ev.Args[2], prefix, v.args[1]) {
					er := errOf(gn.Ev)
					if val == resN(gn.Ev, 0) && pathToBack(l0, bk, func(n *Node, e *Edge) bool { return edgeNil(e, er) }) == nil {
						get = gn
					}
					if (isEmptySlice(val) || isEmptySlice(v.args[2])) && pathToBack(l0, bk, func(n *Node, e *Edge) bool { return notFoundEdge(e, er) }) == nil {
						get = gn
					}
				}
			}
		}
		if get == nil {
			(*fail)("fetch", "fetch loop", bk.From, "the initial content of the record's file is %s: neither the stored content, read successfully, nor empty after the storage reported that the file does not exist", short(v.args[2]))
			continue
		}
		c.ok("fetch", key+"existing file content is read before merging", c.at(get))
	}
	if n == 0 || idx == nil {
		(*fail)("fetch", "fetch loop", sets[0].set, "no file is fetched")
		return
	}
	if _, y := idxCounter(g, idx); y != "" {
		(*fail)("fetch", "fetch loop", sets[0].set, "%s", y)
		return
	}
	ex := exhaustEdges(g, idx, b.items)
	if p := leavesEarly(l0, ex, isNode(sendsAndSpawnsTo(g, sets))); p != nil {
		b.ok = false
		c.add(false, "fetch", key+"fetch loop", c.at(sets[0].set), "the fetch loop can be left before every record's file was fetched", c.path(p)...)
	}
}

// endsWith: key == prefix + name.
func endsWith(k *Sym, prefix string, name *Sym) bool {
	return k == Bin(token.ADD, CStr(prefix), name, name.typ)
}

// sameFile: K is the file name of the element the loop l0 is at.
func (c *Check) sameFile(g *Graph, b *Batch, K *Sym, l0 *LoopInfo, idx *(*Sym)) bool {
	base, ix := elemOfLoop(g, K, l0)
	if base == nil || base != b.items {
		return false
	}
	var whys []string
	kk := c.w.resolve(g, K, &whys)
	want := substitute(b.key, map[*Sym]*Sym{})
	// rename the counter of the merge loop to the fetch loop's
	mc, y := idxCounter(g, b.idx)
	fc, y2 := idxCounter(g, ix)
	if y != "" || y2 != "" {
		return false
	}
	want = substitute(b.key, map[*Sym]*Sym{mc.phi: Sub(ix, CInt(mc.off))})
	_ = fc
	if kk != want {
		return false
	}
	*idx = ix
	return true
}
