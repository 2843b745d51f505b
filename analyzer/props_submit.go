package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C07", func(c *Check) {
		subs := c.submissions()
		c.need(len(subs), 2, "anchor", "submission handlers")
		for _, s := range subs {
			c.use(s.g)
			c.repeats(s)
		}
	})
	register("C08", func(c *Check) {
		subs := c.submissions()
		c.need(len(subs), 2, "anchor", "submission handlers")
		for _, s := range subs {
			c.use(s.g)
			c.admits(s)
		}
	})
	register("C09", func(c *Check) {
		subs := c.submissions()
		c.need(len(subs), 2, "anchor", "submission handlers")
		for _, s := range subs {
			c.use(s.g)
			for _, n := range s.sends {
				c.entryOf(s, n, structOf(n.Ev.Args[1], "UnsequencedEntry"), s.h.Label+": sequenced entry")
			}
			for _, n := range s.wins {
				if r := s.sct(n); r.why == "" && r.E.op == OpStruct {
					c.entryOf(s, n, r.E, s.h.Label+": entry answered again")
				}
			}
			c.longEnough(s)
		}
	})
}

// ---- C09: what is logged for a submission ---------------------------------------------------

// isTail: x is the chain without its first certificate.
func isTail(x, chain *Sym) bool {
	for x != nil {
		switch x.op {
		case OpConv, OpCopyOf:
			x = x.args[0]
		case OpSnapSlice, OpSlice:
			b := x.args[0]
			if (x.args[1] == nil || x.args[1].isInt(0)) && (x.args[2] == nil || x.args[2] == Len(b)) && !eqCall(b, chain) {
				x = b
				continue
			}
			return eqCall(b, chain) && x.args[1] != nil && x.args[1].isInt(1) && (x.args[2] == nil || x.args[2] == Len(b))
		case OpAppend:
			if !isEmptySlice(x.args[0]) {
				return false
			}
			x = x.args[1]
		default:
			return false
		}
	}
	return false
}

func (c *Check) entryOf(s *submission, n *Node, U *Sym, K string) {
	g := s.g
	st := must(g).at(n)
	f := func(name string) *Sym { return fieldByName(U, name) }
	zero, one, two := CInt(0), CInt(1), CInt(2)
	raw := func(x *Sym) bool { return certField(x, s.chain, zero, "Raw") }
	wrong := func(name string) {
		c.bad("entry", K, c.at(n), "%s is %s", name, short(f(name)))
	}
	good := true
	fail := func(name string) { good = false; wrong(name) }
	if !isSum256(f("CertificateFp"), raw) {
		fail("CertificateFp")
	}
	if !isTail(f("Chain"), s.chain) {
		fail("Chain")
	}
	if why := s.chainFps(n, f("ChainFp")); why != "" {
		good = c.bad("entry", K, c.at(n), "ChainFp: %s", why)
	}
	want := -1
	if v := f("IsPrecert"); v != nil {
		if k, ok := v.boolVal(); ok {
			want = 0
			if k {
				want = 1
			}
		} else {
			want = st.eval(v)
		}
	}
	if want < 0 || (want == 1) != s.pre {
		fail("IsPrecert")
	}
	if !s.pre {
		if !raw(f("Certificate")) {
			fail("Certificate")
		}
		for _, z := range []string{"PreCertificate", "IssuerKeyHash"} {
			if !isZeroish(unwrap(f(z))) {
				fail(z)
			}
		}
	} else {
		if !raw(f("PreCertificate")) {
			fail("PreCertificate")
		}
		// is the issuer a precertificate signing certificate?
		signer := -1
		for q, v := range st.facts {
			q, v := normFact(Fact{q, v})
			if isCallSym(q, "certificate-transparency-go.IsPreIssuer") && sameElem(q.args[0], s.chain, one) {
				signer = 0
				if v {
					signer = 1
				}
			}
		}
		iss := one
		if signer == 1 {
			iss = two
		}
		tbs := unwrapConv(f("Certificate"))
		switch {
		case signer < 0:
			good = c.bad("entry", K, c.at(n), "the precertificate is logged without it being known whether its issuer is a precertificate signing certificate")
		case tbs.op != OpExtract || tbs.n != 0 || !isCallSym(tbs.args[0], "x509.BuildPrecertTBS") || !certField(tbs.args[0].args[0], s.chain, zero, "RawTBSCertificate"):
			fail("Certificate")
		case signer == 0 && !isNilSym(unwrapConv(tbs.args[0].args[1])):
			good = c.bad("entry", K, c.at(n), "the TBS certificate is built for a precertificate signing certificate although the issuer is none: %s", short(tbs.args[0].args[1]))
		case signer == 1 && !sameElem(unwrapConv(tbs.args[0].args[1]), s.chain, one):
			good = c.bad("entry", K, c.at(n), "the TBS certificate is built without the precertificate signing certificate: %s", short(tbs.args[0].args[1]))
		case !c.nilKnown(g, n, tbs.args[0]):
			good = c.bad("entry", K, c.at(n), "the TBS certificate is used although building it may have failed")
		}
		if !isSum256(f("IssuerKeyHash"), func(x *Sym) bool { return certField(x, s.chain, iss, "RawSubjectPublicKeyInfo") }) {
			fail("IssuerKeyHash")
		}
	}
	if good {
		c.ok("entry", K, c.at(n))
	}
}

// longEnough: certificates of the chain are only used where the chain is known to
// have them (a chain that consists of a root alone is valid).
func (c *Check) longEnough(s *submission) {
	K := s.h.Label + ": length of the chain"
	for _, n := range s.g.Nodes {
		if n.Ev == nil || !s.rs[n] || n.Ev.Kind != EvCall {
			continue
		}
		max := int64(-1)
		for _, a := range n.Ev.Raw {
			if a == nil {
				continue
			}
			find(a, func(y *Sym) bool {
				for i := int64(1); i < 8; i++ {
					if y.op == OpLoad && i > max && sameElem(y, s.chain, CInt(i)) {
						max = i
					}
				}
				return false
			})
		}
		if max < 0 {
			continue
		}
		if knownFalse(s.g, n, Lt(Len(s.chain), CInt(max+1))) {
			c.ok("length", K, c.at(n))
		} else {
			c.bad("length", K, c.at(n), "certificate %d of the chain is used although the chain may have no more than %d", max, max)
		}
	}
}

// chainFps: the fingerprints of the rest of the chain, in order, all of them.
func (s *submission) chainFps(n *Node, x *Sym) string {
	m, why := s.c.w.mappedFrom(s.g, x)
	if m == nil {
		return why
	}
	if !eqCall(m.over, s.chain) || m.from != 1 {
		if !isTail(m.over, s.chain) || m.from != 0 {
			return "made from " + short(m.over)
		}
	}
	for _, e := range m.elems {
		if !isSum256(e, func(y *Sym) bool {
			p, ok := loadPlace(unwrap(y))
			return ok && len(p.fields) == 1 && p.fields[0] == "Raw" && (p.idx != nil && p.base == m.over && p.idx == m.idx || p.idx == nil && isElem(p.base, m.over, m.idx))
		}) {
			return "an element is " + short(e)
		}
	}
	if p := m.complete(n); p != nil {
		return "not every certificate of the chain needs to be covered"
	}
	return ""
}

// ---- C07: submissions that were logged before ------------------------------------------------

func (c *Check) repeats(s *submission) {
	K := s.h.Label
	masks := map[*Sym]bool{}
	for _, q := range c.w.sequencers() {
		for _, g := range closureGraphs(q.g) {
			for _, n := range evNodes(g, func(e *Event) bool { return e.Kind == EvCall && strings.HasSuffix(e.Name, "sunlight.KAnonHashPath") }) {
				masks[unwrapConv(n.Ev.Args[1])] = true
			}
		}
	}
	c.need(len(masks), 1, "mask", "file names of records written by the sequencer")
	fp := func(x *Sym) bool {
		return isHashPrefix(x, func(y *Sym) bool {
			return isSum256(y, func(z *Sym) bool { return certField(z, s.chain, CInt(0), "Raw") })
		})
	}
	// every submission is looked up first
	var gets []*Node
	for _, n := range s.g.Nodes {
		if !isStorage(n.Ev, "Get") || !s.rs[n] {
			continue
		}
		ps := strParts(n.Ev.Args[2])
		if len(ps) == 2 && isStr(ps[0], preDedupe) && isCallSym(ps[1], "sunlight.KAnonHashPath") && fp(ps[1].args[0]) {
			m := unwrapConv(ps[1].args[1])
			if len(masks) > 0 && !masks[m] {
				c.bad("mask", K, c.at(n), "the record is looked up in files of another granularity than they are written in: %s", short(m))
			}
			gets = append(gets, n)
		}
	}
	if !c.need(len(gets), 1, "lookup", K+": look-ups of the submitted certificate") {
		return
	}
	for _, n := range s.sends {
		if p := s.path(outEdges(gets).pred(), n); p != nil {
			c.add(false, "lookup", K, c.at(n), "a submission can be logged without looking it up among those logged before", c.path(p)...)
		}
	}
	// answers from a record
	hits := 0
	var hitEdges edgePred
	var L0 *lookup
	for _, n := range s.wins {
		r := s.sct(n)
		if r.why != "" || r.E.op != OpStruct {
			continue
		}
		hits++
		bad := func(f string, a ...any) { c.bad("record", K, c.at(n), f, a...) }
		L, why := recordAt(fieldByName(r.E, "LeafIndex"), 16, 5)
		if L == nil {
			bad("the leaf index answered: %s", why)
			continue
		}
		L2, why := recordAt(fieldByName(r.E, "Timestamp"), 21, 8)
		if L2 == nil || L2.file != L.file || L2.off != L.off {
			bad("the timestamp answered is not that of the record: %s", why)
			continue
		}
		if why := L.resolve(s.g, 29); why != "" {
			bad("the leaf index answered: %s", why)
			continue
		}
		isGet := false
		for _, q := range gets {
			isGet = isGet || q.Ev.Args[2] == L.key
		}
		if !isGet {
			bad("the record is read from another file: %s", short(L.key))
			continue
		}
		if !L.hashMatched(s.g, n, fp) {
			bad("the record is used although its hash was not found equal to that of the submitted certificate")
			continue
		}
		sub := ""
		for _, m := range s.sends {
			if sub = sequenced(r.E, structOf(m.Ev.Args[1], "UnsequencedEntry"), func(name string, a, b *Sym) bool {
				return name == "ChainFp" && s.chainFps(n, a) == "" && s.chainFps(m, b) == ""
			}); sub == "" {
				break
			}
		}
		if sub != "" {
			bad("the entry answered is not the submission: %s", sub)
			continue
		}
		c.ok("record", K+": answered with the recorded index and timestamp", c.at(n))
		L0 = L
		hitEdges = func(m *Node, e *Edge) bool { return L.hashMatchedEdge(e, fp) }
	}
	if !c.need(hits, 1, "record", K+": answers from a record") || L0 == nil {
		return
	}
	// what was found is not logged again, what was not found was searched completely
	hs := edgesWhere(s.g, hitEdges)
	var found []*Node
	for k := range hs {
		found = append(found, k.n.Out[k.i].To)
	}
	if p := search(found, nil, isNode(s.sends)); p != nil {
		c.add(false, "again", K, c.at(p[len(p)-1]), "a submission that was found among those logged before is logged again", c.path(p)...)
	} else {
		for _, n := range found {
			if isNode(s.sends)(n) {
				c.bad("again", K, c.at(n), "a submission that was found among those logged before is logged again")
			}
		}
		c.ok("again", K+": a recorded submission is not logged again", "")
	}
	if why := L0.scanAll(s.g, 29, hitEdges, isNode(s.sends)); why != "" {
		c.bad("scan", K, c.at(gets[0]), "%s", why)
	} else {
		c.ok("scan", K+": every record of the file is compared", c.at(gets[0]))
	}
	// a hit is answered with success unless making the answer fails
	if p := search(found, failing(s, nil), func(m *Node) bool { return isHTTPError(m.Ev) }); p != nil {
		c.add(false, "again", K, c.at(p[len(p)-1]), "a recorded submission is refused", c.path(p)...)
	}
}

// failing: edges taken because a call failed, or because more accepts them.
func failing(s *submission, more edgePred) edgePred {
	return func(n *Node, e *Edge) bool {
		for _, f := range e.Facts {
			q, v := normFact(f)
			if !v && q.op == OpEq && isNilSym(q.args[1]) && isErrTyped(q.args[0]) {
				return true
			}
		}
		return more != nil && more(n, e)
	}
}

func isErrTyped(x *Sym) bool {
	if x.typ != nil && types.Identical(x.typ, types.Universe.Lookup("error").Type()) {
		return true
	}
	return (x.op == OpExtract || x.op == OpCall) && x.typ != nil && x.typ.String() == "error"
}

// ---- C08: what is accepted ---------------------------------------------------------------------

func (c *Check) admits(s *submission) {
	K := s.h.Label
	bad := func(n *Node, f string, a ...any) { c.bad("admit", K, c.at(n), f, a...) }
	var vn *Node
	for _, n := range s.g.Nodes {
		if n.Ev != nil && n.Ev.Res == s.V && s.rs[n] {
			vn = n
		}
	}
	// the chain validated is the one submitted
	in := unwrapConv(s.V.args[0])
	un := find(in, func(y *Sym) bool { return y.op == OpCall && y.str == "encoding/json.Unmarshal" })
	okIn := in.op == OpField && in.str == "Chain" && un != nil
	var rd *Sym
	if okIn {
		rd = unwrap(un.args[0])
		okIn = rd.op == OpExtract && rd.n == 0 && isCallSym(rd.args[0], "io.ReadAll")
		if okIn {
			b := unwrap(rd.args[0].args[0])
			for b.op == OpCall && b.str == "net/http.MaxBytesReader" { // C24 judges the limit
				b = unwrap(b.args[1])
			}
			p, ok := loadPlace(b)
			okIn = ok && len(p.fields) == 1 && p.fields[0] == "Body"
		}
		if okIn && !jsonTagged(un, "chain") {
			okIn = false
		}
	}
	if !okIn {
		bad(vn, "the chain validated is not the one in the request's body: %s", short(in))
		return
	}
	if !knownFalse(s.g, vn, Eq(Len(in), CInt(0))) {
		bad(vn, "a request without certificates reaches validation")
	}
	if why := c.options(s); why != "" {
		bad(vn, "%s", why)
	}
	if s.P == nil || !sameElem(unwrapConv(s.P.args[0]), s.chain, CInt(0)) {
		bad(vn, "whether the submission is a precertificate is not decided by its first certificate: %s", short(s.P))
		return
	}
	kind := Extract(s.P, 0, types.Typ[types.Bool])
	for _, n := range append(append([]*Node{}, s.sends...), s.wins...) {
		what := "a success reply"
		if n.Ev.Kind == EvSend {
			what = "logging"
		}
		good := true
		for _, k := range []struct {
			call *Sym
			what string
		}{{rd.args[0], "the body may not have been read"}, {s.V, "the chain may not be valid"}, {s.P, "the first certificate may be malformed"}} {
			if !c.nilKnown(s.g, n, k.call) {
				bad(n, "%s is reached although %s", what, k.what)
				good = false
			}
		}
		if !errNilKnown(s.g, n, un) {
			bad(n, "%s is reached although the body may be malformed", what)
			good = false
		}
		w := must(s.g).at(n).eval(kind)
		if w < 0 || (w == 1) != s.pre {
			bad(n, "%s is reached although the submission may be of the other kind", what)
			good = false
		}
		if good {
			c.ok("admit", K+": only valid submissions reach "+what, c.at(n))
		}
	}
	// no other reason to refuse
	reasons := failing(s, func(n *Node, e *Edge) bool {
		if n.Ev != nil && n.Ev.Kind == EvRecv && isTimer(n.Ev.Raw[0]) {
			return true
		}
		// a precertificate whose chain does not contain its issuer cannot be logged
		if s.pre && (edgeFact(e, Lt(Len(s.chain), CInt(2)), true) || edgeFact(e, Lt(Len(s.chain), CInt(3)), true) && n.st != nil && signerKnown(s, n.st)) {
			return true
		}
		return edgeFact(e, Eq(Len(in), CInt(0)), true) || edgeFact(e, kind, !s.pre)
	})
	nErr := 0
	for _, n := range s.g.Nodes {
		if s.rs[n] && isHTTPError(n.Ev) {
			nErr++
			if code, ok := replyCode(n.Ev); !ok || code < 400 || code > 599 {
				bad(n, "a refusal is sent with status %d", code)
			}
		}
	}
	c.need(nErr, 1, "refuse", K+": refusals")
	if p := search(s.h.From, reasons, func(m *Node) bool { return isHTTPError(m.Ev) }); p != nil {
		c.add(false, "refuse", K, c.at(p[len(p)-1]), "a submission is refused although it is valid and nothing failed", c.path(p)...)
	} else {
		c.ok("refuse", K+": valid submissions are only refused when something fails or takes too long", "")
	}
}

// signerKnown: the issuer is known to be a precertificate signing certificate.
func signerKnown(s *submission, st *State) bool {
	for q, v := range st.facts {
		q, v := normFact(Fact{q, v})
		if v && isCallSym(q, "certificate-transparency-go.IsPreIssuer") && sameElem(q.args[0], s.chain, CInt(1)) {
			return true
		}
	}
	return false
}

func isTimer(x *Sym) bool {
	x = unwrapConv(x)
	if _, ok := timerLimit(x); ok {
		return true
	}
	return isCallSym(x, "time.After") || x != nil && (x.op == OpLoad || x.op == OpField) && find(x, func(y *Sym) bool { return isCallSym(y, "time.NewTimer") || isCallSym(y, "time.NewTicker") }) != nil
}

// errNilKnown: the call, whose only result is an error, is known to have succeeded.
func errNilKnown(g *Graph, n *Node, k *Sym) bool {
	return must(g).at(n).eval(Eq(k, Nil(nil))) == 1 || must(g).at(n).eval(Eq(k, Nil(k.typ))) == 1
}

// jsonTagged: the structure decoded into has a field of that JSON name.
func jsonTagged(un *Sym, name string) bool {
	return strings.Contains(un.args[1].str, `json:\"`+name+`\"`) || strings.Contains(un.args[1].str, "json:\""+name) || !strings.Contains(un.args[1].str, "json:")
}

// options: certificates are validated against the published roots and the
// configured period.
func (c *Check) options(s *submission) string {
	o := s.V.args[1]
	for o.op == OpConv || o.op == OpPtrTo || o.op == OpCopyOf {
		o = o.args[0]
	}
	if !isCallSym(o, "ctfe.NewCertValidationOpts") || len(o.args) != 8 {
		return "the validation options are " + short(o)
	}
	if !isZeroish(unwrap(o.args[1])) {
		return "validation uses a fixed time: " + short(o.args[1])
	}
	for _, i := range []int{2, 3, 6} {
		if b, ok := o.args[i].boolVal(); !ok || b {
			return "validation option " + itoa(i) + " is " + short(o.args[i])
		}
	}
	if !isZeroish(unwrap(o.args[7])) {
		return "only some key usages are accepted: " + short(o.args[7])
	}
	for i, name := range map[int]string{4: "NotAfterStart", 5: "NotAfterLimit"} {
		t := unwrap(o.args[i])
		if t.op != OpExtract || t.n != 0 || !isCallSym(t.args[0], "time.Parse") || !isStr(t.args[0].args[0], "2006-01-02T15:04:05Z07:00") {
			return "the period's bound is " + short(t)
		}
		p, ok := loadPlace(unwrapConv(t.args[0].args[1]))
		if !ok || len(p.fields) == 0 || p.fields[len(p.fields)-1] != name {
			return name + " is not the configured one: " + short(t.args[0].args[1])
		}
	}
	return c.rootPool(s, unwrapConv(o.args[0]))
}

// rootPool: the pool holds every published root and nothing else.
func (c *Check) rootPool(s *submission, pool *Sym) string {
	root := c.w.submit()
	if !isCallSym(pool, "x509util.NewPEMCertPool") {
		return "the accepted roots are " + short(pool)
	}
	var adds []*Node
	for _, g := range append(closureGraphs(root), closureGraphs(s.g)...) {
		for _, n := range evNodes(g, func(e *Event) bool {
			return e.Kind == EvCall && strings.Contains(e.Name, "x509util.PEMCertPool)") && len(e.Raw) > 0 && unwrapConv(e.Raw[0]) == pool
		}) {
			if strings.HasSuffix(n.Ev.Name, ").AddCert") {
				if g != root {
					return "roots are added while the log is running (" + c.at(n) + ")"
				}
				adds = append(adds, n)
				continue
			}
			if strings.HasSuffix(n.Ev.Name, "Pool).AppendCertsFromPEM") || strings.HasSuffix(n.Ev.Name, "Pool).AppendCertsFromPEMFile") {
				return "other roots are accepted (" + c.at(n) + ")"
			}
		}
	}
	if len(adds) == 0 {
		return "no root is added to the pool"
	}
	var idx *Sym
	ex := edgeSet{}
	for _, n := range adds {
		p := unwrapConv(n.Ev.Raw[1])
		if p.op != OpExtract || p.n != 0 || !isCallSym(p.args[0], "x509.ParseCertificate") {
			return "the root added is " + short(p)
		}
		a := unwrap(p.args[0].args[0])
		if a.op != OpLoad || a.args[0].op != OpElemAddr {
			return "the root added is parsed from " + short(a)
		}
		l, i := a.args[0].args[0], a.args[0].args[1]
		if l.op != OpField || l.str != "Certificates" {
			return "the roots are taken from " + short(l)
		}
		u := find(l, func(y *Sym) bool { return y.op == OpCall && y.str == "encoding/json.Unmarshal" })
		if u == nil {
			return "the roots are taken from " + short(l)
		}
		if k, _, ok := gotKey(u.args[0]); !ok || !isStr(k, "ct/v1/get-roots") {
			return "the roots are read from " + short(u.args[0])
		}
		if idx != nil && idx != i {
			return "roots are added in several loops"
		}
		idx = i
		ex = union(ex, exhaustEdges(root, idx, l))
	}
	cn, why := idxCounter(root, idx)
	if why != "" {
		return why
	}
	if p := perIteration(cn.li, outEdges(adds).pred()); p != nil {
		return "a published root can be left out"
	}
	serve := evNodes(root, func(e *Event) bool { return isCall(e, "http.Serve") || isCall(e, "http.Server).Serve") })
	if len(serve) == 0 {
		return "the place the log starts serving was not found"
	}
	if p := search(cn.li.Heads, ex.pred(), isNode(serve)); p != nil {
		return "the log can start serving before every published root was added"
	}
	return ""
}
