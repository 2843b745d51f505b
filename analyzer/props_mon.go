package main

import (
	"strings"
)

// monitorH lists the read-side handlers.
func (c *Check) monitorH() []*Handler {
	c.use(c.w.monitor())
	hs := c.w.monitorHandlers()
	have := map[string]bool{}
	for _, h := range hs {
		c.use(h.G)
		have[h.Label] = true
	}
	for _, p := range []string{epSTH, epConsistency, epProof, epEntries, epRoots, epEntryProof, "edge " + epConsistency, "edge " + epProof, "edge " + epEntries, "edge " + epEntryProof} {
		if !have[p] {
			c.bad("anchor", "route "+p, "?", "no handler is registered for this path")
		}
	}
	return hs
}

// --- C17: nothing beyond the published tree head ------------------------------------------

func init() {
	register("C17", func(c *Check) {
		hs := c.monitorH()
		n := 0
		for _, h := range hs {
			p := h.Label
			for _, name := range []string{"tlog.ProveRecord", "tlog.ProveTree"} {
				for _, x := range proofCalls(h, name) {
					n++
					sz := x.Ev.Args[0]
					cons := p + ": size of the tree the proof is for"
					ok := false
					for _, s := range sthSizes(h.G, x) {
						if known(h.G, x, Le(sz, s)) {
							ok = true
						}
					}
					if !ok {
						c.bad("bounded", cons, c.at(x), "a proof can be computed for tree size %s although the tree head read for this request does not cover it", short(sz))
						continue
					}
					c.ok("bounded", cons, c.at(x))
				}
			}
		}
		c.need(n, 6, "bounded", "proof computations")
		for _, h := range hs {
			if h.Path == epEntries {
				c.entriesBounded(h)
			}
		}
		// the read side never writes
		for _, g := range c.allGraphs(append([]*Graph{c.w.monitor()}, handlerGraphs(hs)...)) {
			for _, x := range g.Nodes {
				if x.Ev == nil {
					continue
				}
				if isStorage(x.Ev, "Set") || isStorage(x.Ev, "Delete") || x.Ev.Kind == EvCall && writesOutside(x.Ev.Name) {
					c.bad("read-only", x.ctx.fn.Name()+": "+x.Ev.Name, c.at(x), "the read side modifies stored objects")
				}
			}
		}
		c.ok("read-only", "read-side handlers and their callbacks", "")
		// and its storage implementations neither
		for _, t := range []string{"UrlStorage", "FsStorage", "FastlyStorage"} {
			g := c.w.root("internal/ctmonitor", t, "Get")
			if g == nil {
				continue
			}
			c.use(g)
			for _, gg := range closureGraphs(g) {
				for _, x := range gg.Nodes {
					if x.Ev != nil && x.Ev.Kind == EvCall && writesOutside(x.Ev.Name) {
						c.bad("read-only", t+".Get: "+x.Ev.Name, c.at(x), "reading modifies stored objects")
					}
					if x.Ev != nil && x.Ev.Kind == EvCall && (strings.HasSuffix(x.Ev.Name, "http.NewRequestWithContext") || strings.HasSuffix(x.Ev.Name, "http.NewRequest")) {
						k := 0
						if strings.HasSuffix(x.Ev.Name, "WithContext") {
							k = 1
						}
						m := x.Ev.Args[k]
						if isStr(m, "GET") || isStr(m, "HEAD") || isStr(m, "") {
							c.ok("read-only", t+".Get: request method", c.at(x))
						} else {
							c.bad("read-only", t+".Get: request method", c.at(x), "the backend is sent a %s request", short(m))
						}
					}
				}
			}
			c.ok("read-only", t+".Get", "")
		}
	})
}

func handlerGraphs(hs []*Handler) []*Graph {
	var out []*Graph
	for _, h := range hs {
		out = append(out, h.G)
	}
	return out
}

func (c *Check) allGraphs(gs []*Graph) []*Graph {
	var out []*Graph
	seen := map[*Graph]bool{}
	for _, g := range gs {
		for _, h := range closureGraphs(g) {
			if !seen[h] {
				seen[h] = true
				out = append(out, h)
			}
		}
	}
	return out
}

func writesOutside(name string) bool {
	for _, p := range []string{"os.WriteFile", "os.Create", "os.OpenFile", "os.Remove", "os.Rename", "os.Mkdir", "os.Truncate", "os.Link", "os.Symlink", "os.Chmod", "(*os.File).Write", "(*os.File).Truncate", "os/exec.", "net/http.Post", "(*net/http.Client).Post", "net/http.PostForm", "database/sql"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.Contains(name, "s3.Client).Put") || strings.Contains(name, "s3.Client).Delete") || strings.Contains(name, "api.KV).Put") || strings.Contains(name, "api.KV).Delete")
}

// --- C18: answers correspond to requests ---------------------------------------------------

func init() {
	register("C18", func(c *Check) {
		hs := c.monitorH()
		verbatim := map[string]string{epSTH: "ct/v1/get-sth", epRoots: "ct/v1/get-roots"}
		for _, h := range hs {
			p := h.Label
			ws := successReplies(h)
			if h.Path == epEntries {
				continue // C19
			}
			if len(ws) == 0 {
				c.bad("anchor", p+": reply", c.at(h.From[0]), "the handler never sends a body")
				continue
			}
			// a successful status is followed by a body
			rs := reachable(h.From, nil)
			for _, n := range h.G.Nodes {
				if code, ok := replyCode(n.Ev); ok && rs[n] && code < 400 && isWriteHeader(n.Ev) {
					okw := isNode(ws)
					if q := search([]*Node{n}, func(m *Node, e *Edge) bool { return okw(e.To) }, func(x *Node) bool {
						return x.Ev != nil && x.Ev.Kind == EvReturn || isWrite(x.Ev)
					}); q != nil {
						c.add(false, "reply", p+": body", c.at(n), "success can be reported without an answer", c.path(q)...)
					}
				}
			}
			for _, n := range ws {
				body := n.Ev.Args[1]
				cons := p + ": answer"
				if key, ok := verbatim[h.Path]; ok {
					if k, _, got := gotKey(body); !got || !isStr(k, key) {
						c.bad("reply", cons, c.at(n), "the answer is %s, not the stored object %s", short(body), key)
					} else {
						c.ok("reply", cons, c.at(n))
					}
					continue
				}
				S := jsonBody(body)
				if S == nil {
					c.bad("reply", cons, c.at(n), "the answer is %s", short(body))
					continue
				}
				why := ""
				switch h.Path {
				case epConsistency:
					why = c.consistencyReply(h, n, S)
				case epProof:
					why = c.proofReply(h, n, S)
				case epEntryProof:
					why = c.entryProofReply(h, n, S)
				default:
					continue
				}
				if why != "" {
					c.bad("reply", cons, c.at(n), "%s", why)
				} else {
					c.ok("reply", cons, c.at(n))
				}
			}
			for _, name := range []string{"tlog.ProveRecord", "tlog.ProveTree"} {
				for _, x := range proofCalls(h, name) {
					cons := p + ": hash reader"
					if len(x.Ev.Tasks) != 1 {
						c.bad("reader", cons, c.at(x), "the hash reader could not be identified")
						continue
					}
					if why := c.w.hashReaderOK(x.Ev.Tasks[0]); why != "" {
						c.bad("reader", cons, c.at(x), "%s", why)
					} else {
						c.ok("reader", cons, c.at(x))
					}
				}
			}
		}
	})
}

// proofOf: the proof whose hashes S lists under field f.
func (c *Check) proofOf(g *Graph, x *Sym, name string) *Sym {
	if m, _ := c.w.mappedOf(g, x); m != nil {
		x = m.over
	}
	p := find(x, func(s *Sym) bool { return s.op == OpExtract && s.n == 0 && isCallSym(s.args[0], name) })
	return p
}

func (c *Check) consistencyReply(h *Handler, n *Node, S *Sym) string {
	f := fieldByName(S, "Consistency")
	if typeName(S.typ) != "GetSTHConsistencyResponse" || f == nil {
		return "the answer is not a consistency proof: " + short(S)
	}
	f = settled(h.G, n, f)
	st := must(h.G).at(n)
	if isEmptySlice(unwrap(f)) {
		// only for an empty first tree, or equal trees
		for q := range st.facts {
			var first, second *Sym
			mentions(q, func(s *Sym) bool {
				switch intParam(s) {
				case "first":
					first = s
				case "second":
					second = s
				}
				return false
			}, map[*Sym]bool{})
			if first != nil && (st.eval(Le(first, CInt(0))) == 1 || second != nil && st.eval(EqI(first, second)) == 1) {
				return ""
			}
		}
		return "an empty proof can be answered for two different, non-empty trees"
	}
	p := c.proofOf(h.G, f, "tlog.ProveTree")
	if p == nil {
		return "the proof is " + short(f)
	}
	k := p.args[0]
	if intParam(k.args[0]) != "second" || intParam(k.args[1]) != "first" {
		return "the proof is computed between other trees: from " + short(k.args[1]) + " to " + short(k.args[0])
	}
	if st.eval(Eq(Extract(k, 1, nil), Nil(nil))) != 1 && !c.nilKnown(h.G, n, k) {
		return "the proof is used although it may not have been computed"
	}
	return c.w.proofList(h.G, n, f, p)
}

// settled: what a loop builds, where n is only reached from states in which the
// loop's body never runs.
func settled(g *Graph, n *Node, x *Sym) *Sym {
	u := unwrap(x)
	if u.op != OpPhi && u.op != OpWCell {
		return x
	}
	li := loopOf(g, u)
	if li == nil {
		return x
	}
	var init *Sym
	for _, h := range li.Heads {
		r := reachable([]*Node{h}, nil)
		if !r[n] {
			continue
		}
		for _, b := range li.Backs {
			if r[b.From] {
				return x
			}
		}
		iv := h.Init[u]
		if iv == nil || init != nil && init != iv {
			return x
		}
		init = iv
	}
	if init == nil {
		return x
	}
	return init
}

// nilKnown: the error of call k is known to be nil at n.
func (c *Check) nilKnown(g *Graph, n *Node, k *Sym) bool {
	for q, v := range must(g).at(n).facts {
		q, v := normFact(Fact{q, v})
		if v && q.op == OpEq && isNilSym(q.args[1]) && (q.args[0] == k || q.args[0].op == OpExtract && q.args[0].args[0] == k) {
			return true
		}
	}
	return false
}

func (c *Check) proofReply(h *Handler, n *Node, S *Sym) string {
	idx, path := fieldByName(S, "LeafIndex"), fieldByName(S, "AuditPath")
	if typeName(S.typ) != "GetProofByHashResponse" || idx == nil || path == nil {
		return "the answer is not an inclusion proof: " + short(S)
	}
	p := c.proofOf(h.G, path, "tlog.ProveRecord")
	if p == nil {
		return "the audit path is " + short(path)
	}
	k := p.args[0]
	if intParam(k.args[0]) != "tree_size" {
		return "the proof is for tree size " + short(k.args[0])
	}
	if k.args[1] != idx {
		return "the proof is for leaf " + short(k.args[1]) + " but leaf " + short(idx) + " is reported"
	}
	if !c.nilKnown(h.G, n, k) {
		return "the proof is used although it may not have been computed"
	}
	if why := c.w.proofList(h.G, n, path, p); why != "" {
		return why
	}
	// the index is the one recorded for the hash asked for
	L, why := recordAt(idx, 16, 5)
	if L == nil {
		return "leaf index: " + why
	}
	if why := L.resolve(h.G, 21); why != "" {
		return "leaf index: " + why
	}
	want := func(x *Sym) bool {
		return isHashPrefix(x, func(y *Sym) bool { return isHashParam(y) })
	}
	if !L.hashMatched(h.G, n, want) {
		return "the leaf index is used although the record's hash was not found equal to the hash asked for"
	}
	ps := strParts(L.key)
	if len(ps) != 2 || !isStr(ps[0], preHashes) || !isCallSym(ps[1], "sunlight.KAnonHashPath") || !want(ps[1].args[0]) {
		return "the record is looked up in file " + short(L.key)
	}
	hit := func(m *Node, e *Edge) bool { return L.hashMatchedEdge(e, want) }
	miss := func(x *Node) bool { return isHTTPError(x.Ev) || isWrite(x.Ev) }
	if why := L.scanAll(h.G, 21, hit, miss); why != "" {
		return why
	}
	return ""
}

func isHashParam(y *Sym) bool {
	y = unwrap(y)
	if y.op == OpExtract && y.n == 0 && y.args[0].op == OpCall && strings.HasSuffix(y.args[0].str, "base64.Encoding).DecodeString") {
		n, ok := queryParam(y.args[0].args[1])
		return ok && n == "hash" && isGlobalNamed(y.args[0].args[0], "StdEncoding")
	}
	return false
}

func isGlobalNamed(x *Sym, name string) bool {
	return find(x, func(s *Sym) bool { return s.op == OpGlobal && strings.HasSuffix(s.str, "."+name) }) != nil
}

// hashMatchedEdge: the edge learns that the record's hash is the one wanted.
func (L *lookup) hashMatchedEdge(e *Edge, h func(*Sym) bool) bool {
	for _, f := range e.Facts {
		q, v := normFact(f)
		if v && (q.op == OpCall && q.str == "bytes.Equal" || q.op == OpEq) && len(q.args) >= 2 && (h(q.args[0]) || h(q.args[1])) {
			return true
		}
	}
	return false
}

// leafReply: (input, extra) describe log entry e.
func (c *Check) leafReply(g *Graph, n *Node, st *State, e, input, extra *Sym) string {
	if !isCallSym(unwrap(input), "sunlight.LogEntry).MerkleTreeLeaf") || unwrapLoad(unwrap(input).args[0]) != unwrapLoad(e) {
		return "leaf_input is " + short(input) + ", not the entry's leaf"
	}
	x := unwrap(extra)
	if x.op != OpExtract || x.n != 0 || !strings.HasSuffix(x.args[0].str, "tls.Marshal") {
		return "extra_data is " + short(extra)
	}
	v := unwrap(x.args[0].args[0])
	isPre := c.entryFlag(st, e)
	var chain *Sym
	switch typeName(v.typ) {
	case "PrecertChainEntry":
		if isPre != 1 {
			return "a precertificate chain is answered for an entry not known to be a precertificate"
		}
		pc := fieldByName(v, "PreCertificate")
		if d := fieldByName(pc, "Data"); d == nil || !isFieldOf(d, e, "PreCertificate") {
			return "the precertificate is " + short(pc)
		}
		chain = fieldByName(v, "CertificateChain")
	case "CertificateChain":
		if isPre != 0 {
			return "a certificate chain is answered for an entry not known to be a certificate"
		}
		chain = fieldByName(v, "Entries")
	default:
		return "extra_data is " + short(v)
	}
	if isEmptySlice(unwrap(chain)) {
		return "the chain is always empty"
	}
	m, why := c.w.mappedOf(g, chain)
	if m == nil {
		return "chain: " + why
	}
	if !isFieldOf(m.over, e, "ChainFp") {
		return "the chain is built from " + short(m.over)
	}
	for _, el := range m.elems {
		d := fieldByName(el, "Data")
		if d == nil {
			return "a chain element is " + short(el)
		}
		key, _, ok := gotKey(d)
		if !ok {
			return "a chain certificate is " + short(d)
		}
		ps := strParts(key)
		if len(ps) != 2 || !isStr(ps[0], preIssuer) || !isHexOf(ps[1], m.over, m.idx) {
			return "a chain certificate is read from " + short(key)
		}
	}
	if m.complete(n) != nil {
		return "the chain can be answered incomplete"
	}
	return ""
}

// isHexOf: x is the lower-case hexadecimal form of element idx of base.
func isHexOf(x, base, idx *Sym) bool {
	if x.op == OpCall && (strings.HasSuffix(x.str, "hex") || strings.HasSuffix(x.str, "hex.EncodeToString")) {
		return isElem(x.args[0], base, idx)
	}
	return false
}

// unwrapLoad: the pointer or value a term denotes.
func unwrapLoad(x *Sym) *Sym {
	for x != nil && (x.op == OpPtrTo || x.op == OpCopyOf || x.op == OpConv) {
		x = x.args[0]
	}
	return x
}

// isFieldOf: x is field name of entry e (a pointer or a value).
func isFieldOf(x, e *Sym, name string) bool {
	x = unwrap(x)
	if x.op == OpField {
		return x.str == name && unwrapLoad(x.args[0]) == unwrapLoad(e)
	}
	if x.op == OpLoad && x.args[0].op == OpFieldAddr {
		return x.args[0].str == name && unwrapLoad(x.args[0].args[0]) == unwrapLoad(e)
	}
	if x.op == OpFieldAddr {
		return x.str == name && unwrapLoad(x.args[0]) == unwrapLoad(e)
	}
	return false
}

// entryFlag evaluates e.IsPrecert.
func (c *Check) entryFlag(st *State, e *Sym) int {
	for q, v := range st.facts {
		q, v := normFact(Fact{q, v})
		if isFieldOf(q, e, "IsPrecert") {
			if v {
				return 1
			}
			return 0
		}
	}
	return -1
}

func (c *Check) entryProofReply(h *Handler, n *Node, S *Sym) string {
	in, ex, path := fieldByName(S, "LeafInput"), fieldByName(S, "ExtraData"), fieldByName(S, "AuditPath")
	if typeName(S.typ) != "GetEntryAndProofResponse" || in == nil || ex == nil || path == nil {
		return "the answer is not an entry with its proof: " + short(S)
	}
	p := c.proofOf(h.G, path, "tlog.ProveRecord")
	if p == nil {
		return "the audit path is " + short(path)
	}
	k := p.args[0]
	if intParam(k.args[0]) != "tree_size" || intParam(k.args[1]) != "leaf_index" {
		return "the proof is for leaf " + short(k.args[1]) + " of tree size " + short(k.args[0])
	}
	if !c.nilKnown(h.G, n, k) {
		return "the proof is used although it may not have been computed"
	}
	if why := c.w.proofList(h.G, n, path, p); why != "" {
		return why
	}
	in = unwrap(in)
	if !isCallSym(in, "sunlight.LogEntry).MerkleTreeLeaf") {
		return "leaf_input is " + short(in)
	}
	e := unwrapLoad(in.args[0])
	st := must(h.G).at(n)
	if why := c.leafReply(h.G, n, st, e, in, ex); why != "" {
		return why
	}
	// the entry is the one at the requested index, read from its tile
	li := k.args[1]
	ok := false
	for q, v := range st.facts {
		q, v := normFact(Fact{q, v})
		if v && q.op == OpEq0 {
			l := toLin(q.args[0])
			if l.c != 0 || len(l.t) != 2 {
				continue
			}
			hasLi, hasE := false, false
			for s := range l.t {
				if s == li {
					hasLi = true
				}
				if isFieldOf(s, e, "LeafIndex") {
					hasE = true
				}
			}
			ok = ok || hasLi && hasE
		}
	}
	if !ok {
		return "the entry answered is not known to be the one at the requested index"
	}
	return c.readFrom(h.G, e, func(n *Sym) bool { l := tileNOfLeaf(n); return l == li })
}

// readFrom: entry e is decoded from what storage holds for a data tile whose
// number satisfies isN.
func (c *Check) readFrom(g *Graph, e *Sym, isN func(*Sym) bool) string {
	if e.op != OpExtract || e.n != 0 || !isCallSym(e.args[0], "sunlight.ReadTileLeaf") {
		return "the entry is " + short(e)
	}
	rest := e.args[0].args[0]
	g, li := findLoop(g, rest)
	if li == nil {
		return "the entry is decoded from " + short(rest)
	}
	for _, hd := range li.Heads {
		iv := hd.Init[rest]
		key, _, ok := gotKey(iv)
		if !ok || !isPathKey(unwrapConv(key)) {
			return "the entries are decoded from " + short(iv)
		}
		t, ok := tileFields(tileOf(unwrapConv(key)))
		if !ok || !t[1].isInt(-1) || !isN(t[2]) {
			return "the entries are decoded from another tile: " + short(key)
		}
	}
	for _, b := range li.Backs {
		v := b.Vals[rest]
		if v == nil || v.op != OpExtract || v.n != 1 || !isCallSym(v.args[0], "sunlight.ReadTileLeaf") || v.args[0].args[0] != rest {
			return "decoding does not continue after the previous entry: " + short(v)
		}
	}
	return ""
}
