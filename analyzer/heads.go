package main

import "go/types"

// C05: what the published tree heads say.

func init() {
	register("C05", func(c *Check) {
		ss := c.w.sequencers()
		c.use(c.w.submit())
		c.need(len(ss), 1, "anchor", "sequencers")
		for _, s := range ss {
			c.use(s.g)
			c.heads(s)
		}
	})
}

// head is what one published object says about the tree.
type head struct {
	n                            *Node
	size, ts, root, key          *Sym
	sthSize, sthTS, sthRoot, msg *Sym
	origin                       *Sym
	signer                       *Sym
	sigIdx, verIdx               int
}

// signedHead takes apart DigitallySign(key, SerializeSTHSignatureInput(...)).
func signedHead(x *Sym) (key, size, ts, root *Sym, why string) {
	x = unwrap(x)
	if x.op != OpExtract || x.n != 0 || !isCallSym(x.args[0], "sunlight.DigitallySign") {
		return nil, nil, nil, nil, "the signature is not made by DigitallySign: " + short(x)
	}
	key = x.args[0].args[0]
	m := unwrap(x.args[0].args[1])
	if m.op != OpExtract || m.n != 0 || !isCallSym(m.args[0], "certificate-transparency-go.SerializeSTHSignatureInput") {
		return nil, nil, nil, nil, "what is signed is not the RFC 6962 TreeHeadSignature input: " + short(m)
	}
	h := unwrap(m.args[0].args[0])
	if h.op != OpStruct || !isZeroOrInt(fieldByName(h, "Version"), 0) {
		return nil, nil, nil, nil, "the signed tree head is not a version 1 head built here: " + short(h)
	}
	return key, fieldByName(h, "TreeSize"), fieldByName(h, "Timestamp"), fieldByName(h, "SHA256RootHash"), ""
}

func isZeroOrInt(x *Sym, n int64) bool {
	if x == nil {
		return false
	}
	return unwrapConv(x).isInt(n) || (n == 0 && isZeroSym(x))
}

// sameBytes: two terms hold the same bytes (a slice of an array is the array's bytes).
func sameBytes(a, b *Sym) bool { return a != nil && b != nil && stripBytes(a) == stripBytes(b) }

// sthHead reads the get-sth object.
func sthHead(n *Node) (*head, string) {
	S := jsonBody(n.Ev.Args[3])
	if S == nil || typeName(S.typ) != "GetSTHResponse" {
		return nil, "the object is not the JSON of a GetSTHResponse: " + short(n.Ev.Args[3])
	}
	h := &head{n: n, size: fieldByName(S, "TreeSize"), ts: fieldByName(S, "Timestamp"), root: fieldByName(S, "SHA256RootHash")}
	var why string
	h.key, h.sthSize, h.sthTS, h.sthRoot, why = signedHead(fieldByName(S, "TreeHeadSignature"))
	if why != "" {
		return nil, why
	}
	switch {
	case h.sthSize != h.size:
		return nil, "the signed size is not the published size"
	case h.sthTS != h.ts:
		return nil, "the signed timestamp is not the published timestamp"
	case !sameBytes(h.sthRoot, h.root):
		return nil, "the signed root hash is not the published root hash"
	}
	return h, ""
}

// ckptHead reads the checkpoint object.
func ckptHead(n *Node) (*head, string) {
	x := unwrap(n.Ev.Args[3])
	if x.op != OpExtract || x.n != 0 || !isCallSym(x.args[0], "note.Sign") && !isCallSym(x.args[0], "sumdb/note.Sign") {
		return nil, "the object is not a signed note: " + short(x)
	}
	args := x.args[0].args
	note := unwrap(args[0])
	sg := sliceSingle(args[1])
	if note.op != OpStruct || sg == nil {
		return nil, "the note is not signed by one signer"
	}
	sgn := unwrap(sg)
	if sgn.op != OpStruct {
		return nil, "the signer is not built here: " + short(sgn)
	}
	h := &head{n: n, signer: sgn}
	// text: origin, size, base64 root, one per line
	ps := strParts(fieldByName(note, "Text"))
	if len(ps) != 6 || !isStr(ps[1], "\n") || !isStr(ps[3], "\n") || !isStr(ps[5], "\n") {
		return nil, "the note is not an origin, a size and a root hash on a line each: " + short(fieldByName(note, "Text"))
	}
	h.origin = ps[0]
	if f := unwrap(ps[2]); !isCallSym(f, "strconv.FormatInt") && !isCallSym(f, "strconv.FormatUint") || !f.args[1].isInt(10) {
		return nil, "the second line is not the decimal size: " + short(ps[2])
	} else {
		h.size = f.args[0]
	}
	e := unwrap(ps[4])
	if isCallSym(e, "(golang.org/x/mod/sumdb/tlog.Hash).String") {
		h.root = e.args[0]
	} else if !isCallSym(e, "(*encoding/base64.Encoding).EncodeToString") || find(e.args[0], func(y *Sym) bool { return y.op == OpGlobal && y.str == "encoding/base64.StdEncoding" }) == nil {
		return nil, "the third line is not the standard base64 root hash: " + short(ps[4])
	} else {
		h.root = e.args[1]
	}
	// signature: timestamp and TreeHeadSignature
	var sig, ver *Sym
	for i, a := range sgn.args {
		if isByteSlice(symType(a)) || findCall(a, "sunlight.DigitallySign") != nil && findCall(a, "sunlight.NewRFC6962Verifier") == nil {
			sig, h.sigIdx = sgn.args[i], i
		}
		if findCall(a, "sunlight.NewRFC6962Verifier") != nil {
			ver, h.verIdx = sgn.args[i], i
		}
	}
	if sig == nil || ver == nil {
		return nil, "the signer does not hold a verifier and a signature"
	}
	in := cbParts(unwrap(sig))
	if len(in) != 9 || !isCallSym(in[8], "cb.bytes") {
		return nil, "the note signature is not a timestamp and a tree head signature: " + short(sig)
	}
	v := in[0]
	if v.op == OpByte && v.n == 7 {
		h.ts = v.args[0]
	}
	ts := func(y *Sym) bool { return y == h.ts }
	if h.ts == nil || matchParts(cbCat(in[:8]...), beField("the timestamp", 8, ts)) != "" {
		return nil, "the note signature does not start with the timestamp"
	}
	var why string
	h.key, h.sthSize, h.sthTS, h.sthRoot, why = signedHead(in[8].args[0])
	if why != "" {
		return nil, why
	}
	vc := unwrap(ver)
	if vc.op != OpExtract || vc.n != 0 || len(vc.args[0].args) < 2 {
		return nil, "the signer's verifier is not NewRFC6962Verifier's"
	}
	va := vc.args[0].args
	pub := find(va[1], func(y *Sym) bool { return y == h.key || y.op == OpFieldAddr && y.args[0] == h.key })
	switch {
	case h.sthSize != h.size:
		return nil, "the signed size is not the size in the note"
	case h.sthTS != h.ts:
		return nil, "the signed timestamp is not the one in front of the signature"
	case !sameBytes(h.sthRoot, h.root):
		return nil, "the signed root hash is not the root hash in the note"
	case unwrap(va[0]) != unwrap(h.origin):
		return nil, "the signer's name is not the origin line"
	case pub == nil:
		return nil, "the key hash is not that of the signing key"
	}
	return h, ""
}

func symType(x *Sym) types.Type { return x.typ }

// lastPlus1: the index of the last entry of the pool, plus one.
func (s *Seq) lastPlus1(x *Sym) bool {
	y := Sub(x, CInt(1))
	idx, path, ok := s.poolElem(y)
	if !ok || idx != Sub(Len(s.pool), CInt(1)) {
		return false
	}
	return path == "entry.LeafIndex"
}

// sizeOK: the published size is the size of the tree with this pool.
func (s *Seq) sizeOK(n *Node, size *Sym) string {
	nonEmpty, empty := knownFalse(s.g, n, s.empty), known(s.g, n, s.empty)
	if s.lastPlus1(size) {
		if !nonEmpty {
			return "the size is computed from the last entry although there may be none"
		}
		return ""
	}
	li := loopOf(s.g, size)
	if li == nil {
		return "the size is neither the index after the last entry nor the size published before: " + short(size)
	}
	// a value carried from batch to batch, or chosen within the batch
	rcv := false
	for _, h := range li.Heads {
		for _, r := range s.recvs {
			if search([]*Node{h}, nil, isNode([]*Node{r})) != nil {
				rcv = true
			}
		}
	}
	if !rcv {
		return "the size does not carry over from the batch before: " + short(size)
	}
	if !empty {
		return "a batch with entries is published with the size of the tree before it"
	}
	for _, b := range li.Backs {
		v := b.Vals[size]
		st := knownOnBack(s.g, li, b)
		switch {
		case v == nil || v == size:
			// kept: only right if the batch was empty, or there was none
			if v == nil {
				v = size
			}
			if st.eval(s.empty) != 1 && !s.noBatch(li, b) {
				return "after a batch with entries the size of the tree is not updated"
			}
		case s.lastPlus1(v):
			if st.eval(s.empty) != 0 {
				return "after an empty batch the size of the tree is changed"
			}
		default:
			return "after a batch the size of the tree becomes " + short(v)
		}
	}
	return ""
}

// noBatch: an iteration that ends here received nothing.
func (s *Seq) noBatch(li *LoopInfo, b *BackInfo) bool {
	return search(s.recvs, nil, isNode([]*Node{b.From})) == nil
}

func (c *Check) heads(s *Seq) {
	g := s.g
	type pair struct{ sth, ck []*head }
	var key, origin *Sym
	freshClock := func(h *head, what string) {
		t := unwrap(h.ts)
		if !isCallSym(t, "(time.Time).UnixMilli") || t.args[0].op != OpCall || t.args[0].str != "time.Now" {
			c.bad("clock", what, c.at(h.n), "the timestamp is not the current time in milliseconds: %s", short(h.ts))
			return
		}
		now := t.args[0]
		read := edgesWhere(g, func(n *Node, e *Edge) bool { return n.Ev != nil && n.Ev.Res == now })
		if p := search(s.recvs, read.pred(), isNode([]*Node{h.n})); p != nil {
			c.add(false, "clock", what, c.at(h.n), "the clock is read before the batch is received", c.path(p)...)
			return
		}
		c.ok("clock", what, c.at(h.n))
	}
	rootOK := func(h *head, what string) {
		r := stripBytes(h.root)
		if r.op != OpExtract || r.n != 0 || !isCallSym(r.args[0], "tlog.TreeHash") && !isCallSym(r.args[0], "sumdb/tlog.TreeHash") || r.args[0].args[0] != h.size {
			c.bad("root", what, c.at(h.n), "the root hash is not the Merkle tree hash of the published size: %s", short(r))
			return
		}
		c.ok("root", what, c.at(h.n))
	}
	common := func(h *head, what string) {
		if m := s.sizeOK(h.n, h.size); m != "" {
			c.bad("size", what, c.at(h.n), "%s", m)
		} else {
			c.ok("size", what, c.at(h.n))
		}
		rootOK(h, what)
		freshClock(h, what)
		if key == nil {
			key = h.key
		} else if key != h.key {
			c.bad("key", what, c.at(h.n), "the tree heads are signed with different keys")
		}
	}
	var sths, cks []*head
	for _, n := range s.sth {
		h, why := sthHead(n)
		if h == nil {
			c.bad("head", "get-sth", c.at(n), "%s", why)
			continue
		}
		c.ok("head", "get-sth", c.at(n))
		sths = append(sths, h)
		common(h, "get-sth")
	}
	for _, n := range s.ckpt {
		h, why := ckptHead(n)
		if h == nil {
			c.bad("head", "checkpoint", c.at(n), "%s", why)
			continue
		}
		c.ok("head", "checkpoint", c.at(n))
		c.injected(h, h.signer, h.sigIdx, h.verIdx)
		cks = append(cks, h)
		common(h, "checkpoint")
		o := unwrap(h.origin)
		if o.op != OpField && o.op != OpLoad || fieldNameOf(o) != "Name" {
			c.bad("origin", "checkpoint", c.at(n), "the origin is not the configured name of the log: %s", short(o))
		} else {
			c.ok("origin", "checkpoint", c.at(n))
		}
		origin = o
	}
	_ = origin
	c.need(len(s.sth), 1, "head", "uploads of get-sth")
	c.need(len(s.ckpt), 1, "head", "uploads of the checkpoint")
	// the two heads of one batch agree
	for _, k := range cks {
		ok := false
		for _, h := range sths {
			if search([]*Node{h.n}, outEdges(s.recvs).pred(), isNode([]*Node{k.n})) == nil {
				continue
			}
			if h.size != k.size || !sameBytes(h.root, k.root) {
				c.bad("agree", "checkpoint", c.at(k.n), "the checkpoint and get-sth of one batch describe different trees")
			}
			ok = true
		}
		if ok {
			c.ok("agree", "checkpoint", c.at(k.n))
		}
	}
	// a size that carries over starts at the size of the loaded log: C13
}

// fieldNameOf: the last field a value was read through.
func fieldNameOf(x *Sym) string {
	if x.op == OpField {
		return x.str
	}
	if p, ok := loadPlace(x); ok {
		return p.last()
	}
	return ""
}
