package main

import (
	"go/types"
)

// submission is one write-side handler: the submitted chain and what was
// established about it.
type submission struct {
	c     *Check
	h     *Handler
	g     *Graph
	pre   bool // the precertificate endpoint
	body  *Sym // the decoded request
	V     *Sym // the call that validates the chain
	P     *Sym // the call that tells certificates from precertificates
	chain *Sym
	sends []*Node // nodes that hand the entry to the sequencer
	wins  []*Node // replies with a success body
	rs    map[*Node]bool
}

func (c *Check) submissions() []*submission {
	var out []*submission
	hs := c.submitH()
	for _, h := range hs {
		s := &submission{c: c, h: h, g: h.G, pre: h.Path == "/ct/v1/add-pre-chain", rs: reachable(h.From, nil)}
		if h.Path != "/ct/v1/add-chain" && !s.pre {
			continue
		}
		for _, n := range h.G.Nodes {
			if n.Ev == nil || !s.rs[n] {
				continue
			}
			switch {
			case isCall(n.Ev, "ctfe.ValidateChain"):
				if s.V != nil && s.V != n.Ev.Res {
					c.bad("anchor", h.Label, c.at(n), "the chain is validated in two ways")
				}
				s.V = n.Ev.Res
			case isCall(n.Ev, "ctfe.IsPrecertificate"):
				s.P = n.Ev.Res
			case n.Ev.Kind == EvSend && structOf(n.Ev.Raw[1], "UnsequencedEntry") != nil:
				s.sends = append(s.sends, n)
			}
		}
		for _, n := range successReplies(h) {
			s.wins = append(s.wins, n)
		}
		if s.V == nil {
			c.bad("anchor", h.Label, "?", "the submitted chain is not validated with ctfe.ValidateChain")
			continue
		}
		s.chain = Extract(s.V, 0, nil)
		if t, ok := s.V.typ.(*types.Tuple); ok {
			s.chain = Extract(s.V, 0, t.At(0).Type())
		}
		if !c.need(len(s.sends), 1, "anchor", h.Label+": submissions handed to the sequencer") || !c.need(len(s.wins), 1, "anchor", h.Label+": success replies") {
			continue
		}
		out = append(out, s)
	}
	return out
}

// structOf: the part of a structure that is a structure of the named type.
func structOf(x *Sym, name string) *Sym {
	if x == nil || x.typ == nil {
		return nil
	}
	if typeName(x.typ) == name {
		return x
	}
	st, ok := x.typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if typeName(st.Field(i).Type()) == name {
			return Field(x, i, st.Field(i).Type(), st.Field(i).Name())
		}
	}
	return nil
}

// chanField: the channel held in a structure.
func chanField(x *Sym) *Sym {
	st, ok := x.typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Chan); ok {
			return unwrapConv(Field(x, i, st.Field(i).Type(), st.Field(i).Name()))
		}
	}
	return nil
}

// certField: field name of certificate k of the chain.
func certField(x, chain *Sym, k *Sym, name string) bool {
	if x == nil {
		return false
	}
	p, ok := loadPlace(unwrap(x))
	if !ok || p.idx != nil || len(p.fields) != 1 || p.fields[0] != name {
		return false
	}
	return sameElem(p.base, chain, k)
}

func sameElem(x, base, idx *Sym) bool {
	if x.op == OpLoad && x.args[0].op == OpElemAddr {
		b, i := x.args[0].args[0], x.args[0].args[1]
		if b.op == OpSlice && b.args[0] == base && b.args[1] != nil {
			b, i = base, Add(i, b.args[1])
		}
		return eqCall(b, base) && i == idx
	}
	return false
}

// eqCall: the same component of the same call.
func eqCall(a, b *Sym) bool {
	a, b = unwrapConv(a), unwrapConv(b)
	return a == b || sameCallResult(a, b)
}

func isSum256(x *Sym, arg func(*Sym) bool) bool {
	x = unwrap(x)
	return isCallSym(x, "crypto/sha256.Sum256") && arg(unwrap(x.args[0]))
}

func isZeroish(x *Sym) bool {
	return x != nil && (isNilSym(x) || isZeroSym(x) || isEmptySlice(x))
}

// reply takes a success body apart.
type sctReply struct {
	n             *Node
	E             *Sym // the entry answered
	ts, id        *Sym
	key           *Sym
	why           string
	extOK, leafOK bool
}

func (s *submission) sct(n *Node) *sctReply {
	r := &sctReply{n: n}
	S := jsonBody(n.Ev.Args[1])
	if S == nil || typeName(S.typ) != "AddChainResponse" {
		r.why = "the body is not the JSON of an AddChainResponse: " + short(n.Ev.Args[1])
		return r
	}
	if !isZeroOrInt(fieldByName(S, "SCTVersion"), 0) {
		r.why = "the SCT version is not v1: " + short(fieldByName(S, "SCTVersion"))
		return r
	}
	r.id = fieldByName(S, "ID")
	sig := unwrap(fieldByName(S, "Signature"))
	if sig.op != OpExtract || sig.n != 0 || !isCallSym(sig.args[0], "sunlight.DigitallySign") {
		r.why = "the signature is not made by DigitallySign: " + short(sig)
		return r
	}
	r.key = sig.args[0].args[0]
	m := unwrap(sig.args[0].args[1])
	if !isCallSym(m, "sunlight.LogEntry).MerkleTreeLeaf") {
		r.why = "what is signed is not the MerkleTreeLeaf of an entry: " + short(m)
		return r
	}
	r.E = m.args[0]
	for r.E.op == OpPtrTo || r.E.op == OpCopyOf {
		r.E = r.E.args[0]
	}
	ts := unwrapConv(fieldByName(S, "Timestamp"))
	if et := fieldByName(r.E, "Timestamp"); et == nil || ts != unwrapConv(et) {
		r.why = "the timestamp is not that of the entry signed: " + short(ts)
		return r
	}
	ext := unwrap(fieldByName(S, "Extensions"))
	if !isCallSym(ext, "(*encoding/base64.Encoding).EncodeToString") || find(ext.args[0], func(y *Sym) bool { return y.op == OpGlobal && y.str == "encoding/base64.StdEncoding" }) == nil {
		r.why = "the extensions are not standard base64: " + short(ext)
		return r
	}
	me := unwrap(ext.args[1])
	if me.op != OpExtract || me.n != 0 || !isCallSym(me.args[0], "sunlight.MarshalExtensions") {
		r.why = "the extensions are not made by MarshalExtensions: " + short(me)
		return r
	}
	li := fieldByName(unwrap(me.args[0].args[0]), "LeafIndex")
	if ei := fieldByName(r.E, "LeafIndex"); ei == nil || li == nil || unwrapConv(li) != unwrapConv(ei) {
		r.why = "the extensions carry an index other than that of the entry signed: " + short(li)
		return r
	}
	if !s.c.nilKnown(s.g, n, me.args[0]) || !s.c.nilKnown(s.g, n, sig.args[0]) {
		r.why = "the answer is sent although making it may have failed"
	}
	return r
}

// pathFrom: nodes of the handler before n on some path.
func (s *submission) path(block edgePred, target *Node) []*Node {
	return search(s.h.From, block, func(n *Node) bool { return n == target })
}

// ---- C06 -----------------------------------------------------------------------------------

func init() {
	register("C06", func(c *Check) {
		subs := c.submissions()
		c.need(len(subs), 2, "anchor", "submission handlers")
		for _, s := range subs {
			c.sctContent(s)
		}
		ss := c.w.sequencers()
		c.need(len(ss), 1, "anchor", "sequencers")
		for _, s := range ss {
			c.use(s.g)
			c.answers(s)
		}
		c.poolPairs()
	})
}

func (c *Check) sctContent(s *submission) {
	K := s.h.Label
	root := c.w.submit()
	for _, n := range s.wins {
		r := s.sct(n)
		if r.why != "" {
			c.bad("sct", K, c.at(n), "%s", r.why)
			continue
		}
		c.ok("sct", K+": one entry's timestamp, index and signature", c.at(n))
		// the entry
		switch {
		case r.E.op == OpRecv || r.E.op == OpExtract && r.E.args[0].op == OpRecv:
			rv := r.E
			if rv.op == OpExtract {
				rv = rv.args[0]
			}
			ch := unwrapConv(rv.args[0])
			if why := s.waitsFor(n, ch); why != "" {
				c.bad("own-entry", K, c.at(n), "%s", why)
			} else {
				c.ok("own-entry", K+": the entry sequenced for this submission", c.at(n))
			}
		case r.E.op == OpStruct && typeName(r.E.typ) == "LogEntry":
			c.ok("own-entry", K+": the submission itself with a recorded index (see C07)", c.at(n))
		default:
			c.bad("own-entry", K, c.at(n), "the entry answered is neither the one sequenced for this submission nor the submission itself: %s", short(r.E))
		}
		// the log's identity
		if why := logIdentity(root, r.key, r.id); why != "" {
			c.bad("log-id", K, c.at(n), "%s", why)
		} else {
			c.ok("log-id", K+": the log ID is the SHA-256 of the signing key", c.at(n))
		}
	}
}

// waitsFor: the channel was made for this request, with room for the answer, and
// was handed over with the entry.
func (s *submission) waitsFor(n *Node, ch *Sym) string {
	if ch.op != OpMakeChan {
		return "the answer is awaited on a channel not made for this submission: " + short(ch)
	}
	fresh := false
	for _, x := range s.g.Nodes {
		if s.rs[x] && x.ctx == ch.ctx {
			fresh = true
		}
	}
	if !fresh {
		return "the channel the answer is awaited on is shared between submissions"
	}
	if len(ch.args) < 1 || ch.args[0].isInt(0) {
		return "the channel the answer is awaited on has no room for it, so the sequencer would wait for a client that gave up"
	}
	if k, ok := ch.args[0].intVal(); !ok || k < 1 {
		return "the channel the answer is awaited on may have no room"
	}
	var ok []*Node
	for _, x := range s.sends {
		if c := chanField(x.Ev.Raw[1]); c == ch {
			ok = append(ok, x)
		}
	}
	if len(ok) == 0 {
		return "the channel the answer is awaited on is not the one handed to the sequencer"
	}
	if p := search(s.h.From, outEdges(ok).pred(), func(m *Node) bool { return m == n }); p != nil {
		return "an answer can be awaited without the entry having been handed to the sequencer"
	}
	return ""
}

// logIdentity: the ID is the hash of the key's public part, as checked against
// the configuration when the log was loaded.
func logIdentity(root *Graph, key, id *Sym) string {
	k := unwrap(key)
	if k.op != OpExtract || k.n != 0 || !isCallSym(k.args[0], "x509.ParseECPrivateKey") {
		return "the signing key is not the loaded private key: " + short(k)
	}
	spki := func(x *Sym) bool {
		x = unwrap(x)
		if x.op != OpExtract || x.n != 0 || !isCallSym(x.args[0], "x509.MarshalPKIXPublicKey") {
			return false
		}
		return find(x.args[0].args[0], func(y *Sym) bool { return y == k }) != nil
	}
	x := unwrap(id)
	if isSum256(x, spki) {
		return ""
	}
	// the decoded configuration value
	var dec *Sym
	if x.op == OpArray && len(x.args) == 33 {
		for i := int64(0); i < 32; i++ {
			b := x.args[1+i]
			if b.op != OpLoad || b.args[0].op != OpElemAddr || !b.args[0].args[1].isInt(i) || dec != nil && dec != b.args[0].args[0] {
				return "byte " + itoa(int(i)) + " of the log ID is " + short(b)
			}
			dec = b.args[0].args[0]
		}
	} else {
		dec = x
	}
	d := unwrap(dec)
	if d.op != OpExtract || d.n != 0 || !isCallSym(d.args[0], "base64.Encoding).DecodeString") || !stdEncoding(d.args[0].args[0]) {
		return "the log ID is " + short(d)
	}
	conf := d.args[0].args[1]
	serve := evNodes(root, func(e *Event) bool { return isCall(e, "http.Serve") || isCall(e, "http.Server).Serve") })
	if len(serve) == 0 {
		return "the place the log starts serving was not found"
	}
	for _, n := range serve {
		ok := false
		for f, v := range must(root).at(n).facts {
			f, v := normFact(Fact{f, v})
			if !v || f.op != OpEq {
				continue
			}
			for i := 0; i < 2; i++ {
				a, b := f.args[i], f.args[1-i]
				if b == conf && isCallSym(a, "base64.Encoding).EncodeToString") && stdEncoding(a.args[0]) && isSum256(a.args[1], spki) {
					ok = true
				}
			}
		}
		if !ok {
			return "the log can start serving without the configured log ID having been found equal to the hash of the signing key"
		}
	}
	return ""
}

func stdEncoding(x *Sym) bool {
	return find(x, func(y *Sym) bool { return y.op == OpGlobal && y.str == "encoding/base64.StdEncoding" }) != nil
}

// answers: each element of the batch gets its own entry on its own channel.
func (c *Check) answers(s *Seq) {
	const K = "answers"
	g := s.g
	if !c.need(len(s.acks), 1, "answer", "answers to waiting submissions") {
		return
	}
	var idx *Sym
	for _, n := range s.acks {
		i, path, ok := s.poolElem(n.Ev.Raw[0])
		j, path2, ok2 := s.poolElem(n.Ev.Raw[1])
		if !ok || !ok2 || path != "returnPath" || path2 != "entry" || i != j {
			c.bad("answer", K, c.at(n), "what is sent is not the waiting submission's own entry: %s on %s", short(n.Ev.Raw[1]), short(n.Ev.Raw[0]))
			return
		}
		idx = i
	}
	cn, why := idxCounter(g, idx)
	if why != "" {
		c.bad("answer", K, c.at(s.acks[0]), "%s", why)
		return
	}
	if p := perIteration(cn.li, outEdges(s.acks).pred()); p != nil {
		c.add(false, "answer", K, c.at(s.acks[0]), "a submission of the batch can be passed over", c.path(p)...)
		return
	}
	// not twice in one iteration
	for _, n := range s.acks {
		if p := search([]*Node{n}, func(m *Node, e *Edge) bool { return e.Back != nil && *e.Back == cn.li.Key }, isNode(s.acks)); p != nil && loopContains(cn.li, p[len(p)-1]) {
			c.add(false, "answer", K, c.at(n), "a submission can be answered twice", c.path(p)...)
			return
		}
	}
	ex := exhaustEdges(g, idx, s.pool)
	if p := search(s.recvs, anyOf(ex.pred(), s.nonEmptyBlock()), isNode(s.recvs)); p != nil {
		c.add(false, "answer", K, c.at(s.acks[0]), "the next batch can be taken before every submission of this one was answered", c.path(p)...)
		return
	}
	c.ok("answer", "every submission of a batch gets its own entry, once", c.at(s.acks[0]))
}
