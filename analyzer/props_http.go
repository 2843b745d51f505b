package main

import (
	"strings"
)

// --- C20: failures are reported as failures ------------------------------------------------

// submitH lists the write-side handlers.
func (c *Check) submitH() []*Handler {
	c.use(c.w.submit())
	hs := c.w.handlers(c.w.submit())
	have := map[string]bool{}
	for _, h := range hs {
		c.use(h.G)
		have[h.Path] = true
	}
	for _, p := range []string{"/ct/v1/add-chain", "/ct/v1/add-pre-chain"} {
		if !have[p] {
			c.bad("anchor", "route "+p, "?", "no handler is registered for this path")
		}
	}
	return hs
}

// isTileRead: a storage read of a tile.
func isTileRead(ev *Event) bool {
	return isStorage(ev, "Get") && len(ev.Args) > 2 && isPathKey(unwrapConv(ev.Args[2]))
}

// notFoundOf: the "no such object" result of a read-side storage read.
func notFoundOf(ev *Event) *Sym {
	if isStorage(ev, "Get") && ev.Res != nil {
		n := resN(ev, 1)
		if n != nil && n.op == OpExtract && isBoolType(n.typ) {
			return n
		}
	}
	return nil
}

func init() {
	register("C20", func(c *Check) {
		hs := append(append([]*Handler(nil), c.monitorH()...), c.submitH()...)
		total := 0
		for _, h := range hs {
			total += c.statusRules(h)
		}
		c.need(total, 60, "error-status", "fallible calls in the handlers")
	})
}

func (c *Check) statusRules(h *Handler) int {
	g := h.G
	rs := reachable(h.From, nil)
	label := h.Label
	isReply := func(n *Node) bool { return isHTTPError(n.Ev) || isWriteHeader(n.Ev) || isWrite(n.Ev) }
	isRet := func(n *Node) bool { return n.Ev != nil && n.Ev.Kind == EvReturn }
	// every status is a constant; error bodies carry an error status
	for _, n := range g.Nodes {
		if !rs[n] {
			continue
		}
		if isHTTPError(n.Ev) || isWriteHeader(n.Ev) {
			code, ok := replyCode(n.Ev)
			switch {
			case !ok:
				c.bad("status", label+": status", c.at(n), "the status sent is not determined: %s", short(n.Ev.Args[len(n.Ev.Args)-1]))
			case isHTTPError(n.Ev) && (code < 400 || code > 599):
				c.bad("status", label+": status", c.at(n), "an error is reported with status %d", code)
			case isWriteHeader(n.Ev) && code != 200 && (code < 400 || code > 599):
				c.bad("status", label+": status", c.at(n), "status %d is sent", code)
			default:
				c.ok("status", label+": status", c.at(n))
			}
		}
	}
	// a reply is always sent, and only one
	sends := func(n *Node, e *Edge) bool {
		return e.To.Ev != nil && (isHTTPError(e.To.Ev) || isWriteHeader(e.To.Ev) || isWrite(e.To.Ev))
	}
	if p := search(h.From, sends, isRet); p != nil {
		c.add(false, "replied", label, c.at(p[len(p)-1]), "the request can be left without an answer (reported as success)", c.path(p)...)
	} else {
		c.ok("replied", label, c.at(h.From[0]))
	}
	for _, n := range g.Nodes {
		if !rs[n] || n.Ev == nil {
			continue
		}
		if isHTTPError(n.Ev) {
			if p := search([]*Node{n}, nil, isReply); p != nil {
				c.add(false, "replied", label+": after an error", c.at(n), "more can be written after an error was reported", c.path(p)...)
			}
		}
		if isWriteHeader(n.Ev) {
			if p := search([]*Node{n}, nil, func(m *Node) bool { return m != n && (isHTTPError(m.Ev) || isWriteHeader(m.Ev)) }); p != nil {
				c.add(false, "replied", label+": after a status", c.at(n), "a second status can be sent", c.path(p)...)
			}
		}
		if isWrite(n.Ev) {
			// the body of a success comes after its status (or none)
			if p := search([]*Node{n}, nil, func(m *Node) bool { return isHTTPError(m.Ev) || isWriteHeader(m.Ev) }); p != nil {
				c.add(false, "replied", label+": after the body", c.at(n), "a status can be sent after the body", c.path(p)...)
			}
		}
	}
	// a panic is no answer: an error is asked for its text only where there is one
	for _, n := range g.Nodes {
		if !rs[n] || n.Ev == nil || n.Ev.Kind != EvCall || n.Ev.Name != "(error).Error" || len(n.Ev.Raw) == 0 {
			continue
		}
		er := unwrap(n.Ev.Raw[0])
		cons := label + ": " + n.ctx.fn.Name() + ": error text"
		if isNilSym(er) || neverNil(er) || knownFalse(g, n, Eq(er, Nil(nil))) {
			if isNilSym(er) {
				c.bad("replied", cons, c.at(n), "the text of an error is asked for where there is none: the request dies without an answer")
			} else {
				c.ok("replied", cons, c.at(n))
			}
			continue
		}
		c.bad("replied", cons, c.at(n), "the text of %s is asked for where it may be nil: the request dies without an answer", short(er))
	}
	// failures never lead to success
	okReply := func(m *Node) bool {
		if m.Ev == nil {
			return false
		}
		if code, ok := replyCode(m.Ev); ok && code < 400 {
			return true
		}
		return isWrite(m.Ev) && !isEmptySlice(unwrap(m.Ev.Args[1]))
	}
	total := 0
	for _, n := range errNodes(g) {
		if !rs[n] || isReply(n) {
			continue
		}
		total++
		er := errOf(n.Ev)
		cons := label + ": " + n.ctx.fn.Name() + ": " + n.Ev.Name
		if n.Ev.Kind == EvStorage && len(n.Ev.Args) > 2 {
			cons += " " + keyShape(n.Ev.Args[2])
		}
		var extra edgePred
		switch {
		case notFoundOf(n.Ev) != nil && isTileRead(n.Ev):
			// a missing tile may be read at its partial width instead
			extra = func(m *Node, e *Edge) bool {
				return e.To != n && isTileRead(e.To.Ev)
			}
		case n.Ev.Kind == EvStorage && len(n.Ev.Args) > 2 && hasPrefixConst(n.Ev.Args[2], preDedupe):
			// no record of an earlier submission: handled as a new one
			extra = func(m *Node, e *Edge) bool {
				return e.To.Ev != nil && e.To.Ev.Kind == EvSend
			}
		}
		blk := func(m *Node, e *Edge) bool {
			return edgeNil(e, er) || e.To == n && m != n || extra != nil && extra(m, e)
		}
		if p := search([]*Node{n}, blk, okReply); p != nil {
			c.add(false, "error-status", cons, c.at(n), "although this call may have failed, success can still be reported", c.path(p)...)
			continue
		}
		c.ok("error-status", cons, c.at(n))
	}
	// malformed parameters are the client's fault
	for _, n := range g.Nodes {
		if !rs[n] || n.Ev == nil || n.Ev.Kind != EvCall || !(strings.HasPrefix(n.Ev.Name, "strconv.") || strings.HasSuffix(n.Ev.Name, "base64.Encoding).DecodeString")) {
			continue
		}
		if find(n.Ev.Res, func(s *Sym) bool { _, ok := queryParam(s); return ok }) == nil {
			continue
		}
		er := errOf(n.Ev)
		for k := range edgesWhere(g, func(m *Node, e *Edge) bool { return rs[m] && edgeFact(e, Eq(er, Nil(nil)), false) }) {
			to := k.n.Out[k.i].To
			if p := search([]*Node{k.n}, func(m *Node, e *Edge) bool { return m == k.n && e.To != to }, func(m *Node) bool {
				code, ok := replyCode(m.Ev)
				return ok && (code < 400 || code > 499)
			}); p != nil {
				c.add(false, "client-error", label+": "+short(n.Ev.Args[0]), c.at(n), "a malformed parameter is not answered with a client error", c.path(p)...)
			} else {
				c.ok("client-error", label+": "+short(n.Ev.Args[0]), c.at(n))
			}
		}
	}
	return total
}

// --- C21: reading tiles ---------------------------------------------------------------------

func init() {
	register("C21", func(c *Check) {
		hs := c.monitorH()
		n := 0
		seen := map[*Graph]bool{}
		for _, h := range hs {
			var gs []*Graph
			if !seen[h.G] {
				seen[h.G] = true
				gs = closureGraphs(h.G)
			}
			for _, g := range gs {
				for _, x := range g.Nodes {
					if isTileRead(x.Ev) {
						n += c.fallback(g, x)
					}
				}
			}
		}
		c.need(n, 8, "fallback", "tile reads")
	})
}

// fallback: when the full tile does not exist and the tile may be partial, it
// is read at its partial width.
func (c *Check) fallback(g *Graph, x *Node) int {
	nf := notFoundOf(x.Ev)
	cons := x.ctx.fn.Name() + ": tile read"
	if nf == nil {
		c.bad("fallback", cons, c.at(x), "the read does not tell whether the tile exists")
		return 1
	}
	t, ok := tileFields(tileOf(unwrapConv(x.Ev.Args[2])))
	if !ok {
		c.bad("fallback", cons, c.at(x), "unrecognised tile %s", short(x.Ev.Args[2]))
		return 1
	}
	if !t[3].isInt(256) {
		// reading at the partial width: only after the full tile was found missing
		ok := false
		for q, v := range must(g).at(x).facts {
			q, v := normFact(Fact{q, v})
			if v && q.op == OpExtract && q.n == 1 && q.args[0].op == OpCall && q.args[0].str == "storage.Get" {
				f, k := tileFields(tileOf(unwrapConv(q.args[0].args[2])))
				if k && f[1] == t[1] && f[2] == t[2] && f[3].isInt(256) {
					ok = true
				}
			}
		}
		if !ok {
			c.bad("fallback", cons, c.at(x), "the partial tile %s is read although the full tile was not found to be missing", short(x.Ev.Args[2]))
			return 1
		}
		c.ok("fallback", cons, c.at(x))
		st := must(g).at(x)
		if !publishedWidth(st, t) {
			c.bad("width", cons, c.at(x), "the partial tile %s may never have been published: its width does not come from the tree size", short(x.Ev.Args[2]))
		} else {
			c.ok("width", cons+" "+short(t[3]), c.at(x))
		}
		return 1
	}
	again := func(m *Node, e *Edge) bool {
		if e.To == x || !isTileRead(e.To.Ev) {
			return false
		}
		f, k := tileFields(tileOf(unwrapConv(e.To.Ev.Args[2])))
		return k && f[1] == t[1] && f[2] == t[2] && !f[3].isInt(256)
	}
	full := func(m *Node, e *Edge) bool {
		if edgeFact(e, nf, false) || edgeNil(e, errOf(x.Ev)) || e.To == x {
			return true
		}
		for _, f := range e.Facts {
			q, v := normFact(f)
			if v && q.op == OpEq0 {
				// width == 256
				l := toLin(q.args[0])
				if len(l.t) == 1 {
					for s, k := range l.t {
						if s.op == OpField && s.str == "W" && -l.c/k == 256 {
							return true
						}
					}
				}
			}
		}
		return false
	}
	done := func(m *Node) bool {
		return m.Ev != nil && (m.Ev.Kind == EvReturn || isHTTPError(m.Ev) || isWrite(m.Ev) || isWriteHeader(m.Ev))
	}
	if c.completeTile(g, x, t) {
		c.ok("fallback", cons+" (complete tile)", c.at(x))
		return 1
	}
	if p := search([]*Node{x}, anyOf(again, full), done); p != nil {
		c.add(false, "fallback", cons, c.at(x), "when the full tile does not exist, a partial tile is not read instead", c.path(p)...)
		return 1
	}
	c.ok("fallback", cons, c.at(x))
	return 1
}

// completeTile: the tile is known to lie left of the last tile needed.
func (c *Check) completeTile(g *Graph, x *Node, t [4]*Sym) bool {
	st := must(g).at(x)
	for q := range st.facts {
		hit := false
		mentions(q, func(s *Sym) bool {
			if s.op == OpField && s.str == "N" && s != t[2] && tileNOfLeaf(s) != nil {
				if st.eval(Lt(t[2], s)) == 1 || st.eval(EqI(t[2], s)) == 0 {
					hit = true
				}
			}
			return false
		}, map[*Sym]bool{})
		if hit {
			return true
		}
	}
	return false
}

// publishedWidth: the width is that of the last tile of the published tree (or
// of the tree a proof is for), when the tile may be the last one.
func publishedWidth(st *State, t [4]*Sym) bool {
	final := func(s *Sym) (tile *Sym) {
		// TileForIndex(8, StoredHashIndex(0, size-1))
		leaf := tileNOfLeaf(s)
		if leaf == nil {
			return nil
		}
		size := Add(leaf, CInt(1))
		if isSTHSize(unwrapConv(size)) || intParam(size) == "tree_size" || intParam(size) == "second" {
			return s.args[0]
		}
		return nil
	}
	nOf := func(tile *Sym) *Sym { return fieldByName(tile, "N") }
	w := unwrapConv(t[3])
	if w.op == OpField && w.str == "W" {
		if tile := final(nOf(w.args[0])); tile != nil {
			fn := nOf(tile)
			return fn == t[2] || st.eval(EqI(fn, t[2])) == 1
		}
	}
	for q, v := range st.facts {
		q, v := normFact(Fact{q, v})
		if v || q.op != OpEq && q.op != OpEq0 {
			continue
		}
		if s := find(q, func(s *Sym) bool { return s.op == OpField && s.str == "N" && final(s) != nil }); s != nil && st.eval(EqI(s, t[2])) == 0 {
			return true
		}
	}
	return false
}

// neverNil: a value made to be an error.
func neverNil(x *Sym) bool {
	x = unwrap(x)
	return isCallSym(x, "errors.New") || isCallSym(x, "fmt.Errorf") || x.op == OpAlloc || x.op == OpStruct || x.op == OpConst
}
