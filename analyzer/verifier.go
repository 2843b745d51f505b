package main

import (
	"go/types"
	"strings"
)

// C32: the note verifier for RFC 6962 tree heads, and the checkpoint parser.

func init() {
	register("C32", func(c *Check) {
		c.verifierKey()
		c.verify()
		c.parseCheckpoint()
	})
}

// injected: the signer given to note.Sign answers with what it was built from.
func (c *Check) injected(h *head, sgn *Sym, sig, ver int) {
	name := typeName(sgn.typ)
	field := func(i int) string { return structFieldName(sgn.typ, i) }
	for _, m := range []string{"Sign", "Name", "KeyHash"} {
		g := c.w.root(sunPkg, name, m)
		if g == nil {
			c.bad("signer", name+"."+m, c.at(h.n), "the signer's method was not found")
			continue
		}
		c.use(g)
		for _, n := range returnsOf(g) {
			x := unwrap(n.Ev.Args[0])
			ok := false
			if m == "Sign" {
				ok = fieldOfParam(param(g, 0), field(sig))(x) && isNilSym(unwrap(n.Ev.Args[1]))
			} else {
				ok = x.op == OpCall && strings.HasSuffix(x.str, "."+m) && len(x.args) == 1 && fieldOfParam(param(g, 0), field(ver))(x.args[0])
			}
			if !ok {
				c.bad("signer", name+"."+m, c.at(n), "the signer answers with %s", short(x))
			} else {
				c.ok("signer", name+"."+m, c.at(n))
			}
		}
	}
}

func (c *Check) verifierKey() {
	g := c.codec("", "NewRFC6962Verifier")
	if g == nil {
		return
	}
	name, key := param(g, 0), param(g, 1)
	keyID := func(x *Sym) bool {
		h := unwrap(x)
		if !isCallSym(h, "crypto/sha256.Sum256") {
			return false
		}
		p := unwrap(h.args[0])
		return p.op == OpExtract && p.n == 0 && isCallSym(p.args[0], "crypto/x509.MarshalPKIXPublicKey") && unwrap(p.args[0].args[0]) == key
	}
	n1 := 0
	for _, n := range returnsOf(g) {
		v := unwrap(n.Ev.Args[0])
		if isNilSym(v) {
			if isNilSym(unwrap(n.Ev.Args[1])) {
				c.bad("verifier", "NewRFC6962Verifier", c.at(n), "it returns neither a verifier nor an error")
			}
			continue
		}
		n1++
		if v.op != OpStruct || typeName(v.typ) != "verifier" {
			c.bad("verifier", "NewRFC6962Verifier", c.at(n), "the verifier is not built here: %s", short(v))
			continue
		}
		if x := fieldByName(v, "name"); unwrap(x) != name {
			c.bad("verifier", "name", c.at(n), "the verifier's name is not the given one: %s", short(x))
		} else {
			c.ok("verifier", "name", c.at(n))
		}
		base, off, ok := beAt(fieldByName(v, "hash"), 4)
		if !ok || !off.isInt(0) || !isCallSym(unwrap(base), "(hash.Hash).Sum") && !isCallSym(unwrap(base), "crypto/sha256.Sum256") {
			c.bad("verifier", "hash", c.at(n), "the key hash is not the first four bytes of a SHA-256 digest: %s", short(fieldByName(v, "hash")))
			continue
		}
		// what was hashed: name, newline, algorithm, key ID
		var parts []*Sym
		var add func(x *Sym)
		add = func(x *Sym) {
			x = unwrap(x)
			switch {
			case x.op == OpAppend:
				for _, a := range x.args {
					add(a)
				}
				return
			case isStringType(x.typ) && len(strParts(x)) > 1:
				for _, a := range strParts(x) {
					add(a)
				}
				return
			}
			if els := sliceElems(x); els != nil {
				parts = append(parts, els...)
				return
			}
			if x.op == OpArray && x.args[0] == nil {
				parts = append(parts, x.args[1:]...)
				return
			}
			parts = append(parts, x)
		}
		if isCallSym(unwrap(base), "crypto/sha256.Sum256") {
			add(unwrap(base).args[0])
		} else {
			sum := unwrap(base)
			h := sum.args[0]
			if !isCallSym(h, "crypto/sha256.New") || !isNilSym(unwrap(sum.args[1])) {
				c.bad("verifier", "hash", c.at(n), "the key hash is not SHA-256")
				continue
			}
			// every way to the result feeds the hash the same writes in the same order
			var ws []*Node
			for _, m := range g.Nodes {
				if m.Ev != nil && m.Ev.Kind == EvCall && (strings.HasSuffix(m.Ev.Name, ").Write") || m.Ev.Name == "io.WriteString") && m.Ev.Args[0] == h {
					ws = append(ws, m)
				}
			}
			ordered := orderOf(g, ws, n)
			if ordered == nil {
				c.bad("verifier", "hash", c.at(n), "what is hashed differs from path to path")
				continue
			}
			for _, m := range ordered {
				add(m.Ev.Args[1])
			}
		}
		good := len(parts) == 4 && parts[0] == name && isStr(parts[1], "\n") && unwrapConv(parts[2]).isInt(5) && keyID(parts[3])
		if !good && len(parts) == 4 && parts[0] == name && unwrapConv(parts[1]).isInt('\n') && unwrapConv(parts[2]).isInt(5) && keyID(parts[3]) {
			good = true
		}
		if !good {
			c.bad("verifier", "hash", c.at(n), "the key hash is not taken over the name, a newline, the signature type 5 and the key ID (%d parts)", len(parts))
		} else {
			c.ok("verifier", "hash", c.at(n))
		}
	}
	c.need(n1, 1, "verifier", "verifiers")
	for m, f := range map[string]string{"Name": "name", "KeyHash": "hash"} {
		r := c.codec("verifier", m)
		if r == nil {
			continue
		}
		for _, n := range returnsOf(r) {
			if !fieldOfParam(param(r, 0), f)(n.Ev.Args[0]) {
				c.bad("verifier", "verifier."+m, c.at(n), "it returns %s", short(n.Ev.Args[0]))
			} else {
				c.ok("verifier", "verifier."+m, c.at(n))
			}
		}
	}
}

// orderOf: the nodes in the one order in which every path to n passes them (nil if they
// are not all passed, or not in one order).
func orderOf(g *Graph, ns []*Node, n *Node) []*Node {
	var on []*Node
	for _, w := range ns {
		if search([]*Node{w}, nil, isNode([]*Node{n})) != nil {
			if search([]*Node{g.Entry}, outEdges([]*Node{w}).pred(), isNode([]*Node{n})) != nil {
				return nil
			}
			on = append(on, w)
		}
	}
	for i := range on {
		for j := i + 1; j < len(on); j++ {
			if search([]*Node{on[j]}, nil, isNode([]*Node{on[i]})) != nil {
				on[i], on[j] = on[j], on[i]
			}
		}
	}
	return on
}

func (c *Check) verify() {
	e := c.w.e
	fn := e.fnByName(sunPkg, "", "NewRFC6962Verifier")
	r := c.w.root(sunPkg, "", "NewRFC6962Verifier")
	if fn == nil || r == nil {
		return
	}
	var g *Graph
	for _, n := range returnsOf(r) {
		v := unwrap(n.Ev.Args[0])
		if v.op != OpStruct {
			continue
		}
		cl := unwrap(fieldByName(v, "verify"))
		if cl.op == OpClosure || cl.op == OpFunc {
			if cl.fn != nil {
				g = c.w.rootFn("closure:"+cl.fn.String(), "verify", cl.fn)
			}
		}
	}
	if g == nil {
		c.bad("verify", "verify", "?", "the verification function was not found")
		return
	}
	c.use(g)
	for _, u := range g.Undec {
		c.bad("undecided", "verify", "?", "%v", u)
	}
	nps := len(g.Fn.Params)
	msg, sig := param(g, nps-2), param(g, nps-1)
	// the parsed checkpoint
	var pc *Sym
	for _, n := range g.Nodes {
		if n.Ev != nil && n.Ev.Kind == EvCall && strings.HasSuffix(n.Ev.Name, "sunlight.ParseCheckpoint") && len(n.Ev.Args) == 1 && unwrap(n.Ev.Args[0]) == msg {
			pc = n.Ev.Res
		}
	}
	if pc == nil {
		c.bad("verify", "verify", "?", "the message is not parsed as a checkpoint")
		return
	}
	perr := Extract(pc, 1, nil)
	ofCkpt := func(x *Sym, path ...string) bool {
		x = unwrap(x)
		if x.op == OpLoad || x.op == OpField {
			p, ok := loadPlace(x)
			if !ok || p.idx != nil {
				return false
			}
			b := unwrap(p.base)
			if b.op != OpExtract || b.n != 0 || b.args[0] != pc || len(p.fields) != len(path) {
				return false
			}
			for i := range path {
				if p.fields[i] != path[i] {
					return false
				}
			}
			return true
		}
		return false
	}
	at := func(k int64) *Sym { return byteOn(g, sig, CInt(k)) }
	slen := beLoad(g, sig, CInt(10), 2)
	hashAlg, sigAlg := at(8), at(9)
	ts := beLoad(g, sig, CInt(0), 8)
	if slen == nil || hashAlg == nil || sigAlg == nil || ts == nil {
		c.bad("verify", "verify", "?", "the note signature is not taken apart into timestamp, algorithms and signature")
		return
	}
	var ext *Sym
	for _, n := range g.Nodes {
		for i := range n.Out {
			for _, f := range n.Out[i].Facts {
				if x := find(f.C, func(y *Sym) bool { return ofCkpt(y, "Extension") }); x != nil {
					ext = x
				}
			}
		}
	}
	digest := func(x *Sym) string {
		x = unwrap(x)
		if !isCallSym(x, "crypto/sha256.Sum256") {
			return "what is verified is not a SHA-256 digest: " + short(x)
		}
		m := unwrap(x.args[0])
		if m.op != OpExtract || m.n != 0 || !isCallSym(m.args[0], "certificate-transparency-go.SerializeSTHSignatureInput") {
			return "the digest is not of the TreeHeadSignature input: " + short(m)
		}
		h := unwrap(m.args[0].args[0])
		switch {
		case h.op != OpStruct || !isZeroOrInt(fieldByName(h, "Version"), 0):
			return "the tree head is not version 1"
		case !ofCkpt(fieldByName(h, "TreeSize"), "Tree", "N") && !ofCkpt(fieldByName(h, "TreeSize"), "N"):
			return "the verified size is not the checkpoint's: " + short(fieldByName(h, "TreeSize"))
		case unwrapConv(fieldByName(h, "Timestamp")) != ts:
			return "the verified timestamp is not the one in front of the signature: " + short(fieldByName(h, "Timestamp"))
		case !ofCkpt(fieldByName(h, "SHA256RootHash"), "Tree", "Hash") && !ofCkpt(fieldByName(h, "SHA256RootHash"), "Hash"):
			return "the verified root hash is not the checkpoint's: " + short(fieldByName(h, "SHA256RootHash"))
		}
		return ""
	}
	isSig := func(x *Sym) bool {
		lo, hi, ok := sub(x, sig)
		return ok && lo.isInt(12) && (hi == nil || hi == Add(CInt(12), slen))
	}
	// kinds of key the two algorithms belong to
	algs := map[string]int64{"crypto/ecdsa.VerifyASN1": 3, "crypto/rsa.VerifyPKCS1v15": 1}
	verdict := func(x *Sym) (*Sym, bool) { // the verification call, and the value of x that means valid
		y, v := normFact(Fact{x, true})
		if v2 := find(y, func(z *Sym) bool { _, ok := algs[z.str]; return z.op == OpCall && ok }); v2 != nil {
			if v2 == y {
				return v2, v
			}
			if y == Eq(v2, Nil(nil)) {
				return v2, v
			}
		}
		return nil, false
	}
	checkCall := func(n *Node, call *Sym) {
		var d, s *Sym
		if call.str == "crypto/ecdsa.VerifyASN1" {
			d, s = call.args[1], call.args[2]
		} else {
			d, s = call.args[2], call.args[3]
			if !unwrapConv(call.args[1]).isInt(5) {
				c.bad("verify", call.str, c.at(n), "the digest is not declared as SHA-256")
			}
		}
		k := unwrap(call.args[0])
		for k.op == OpTypeAssert || k.op == OpLoad || k.op == OpIface {
			k = k.args[0]
		}
		if k.op != OpParam || k.n >= 0 {
			c.bad("verify", call.str, c.at(n), "the signature is not checked with the verifier's key: %s", short(call.args[0]))
		}
		if m := digest(d); m != "" {
			c.bad("verify", call.str, c.at(n), "%s", m)
		}
		if !isSig(s) {
			c.bad("verify", call.str, c.at(n), "what is verified is not the signature in the note: %s", short(s))
		}
		st := must(g).at(n)
		conds := []struct {
			what string
			cond *Sym
		}{
			{"a checkpoint that parses", Eq(perr, Nil(nil))},
			{"the hash algorithm SHA-256", EqI(hashAlg, CInt(4))},
			{"the key's signature algorithm", EqI(sigAlg, CInt(algs[call.str]))},
			{"nothing behind the signature", EqI(Sub(Len(sig), slen), CInt(12))},
		}
		for _, q := range conds {
			if st.eval(q.cond) != 1 {
				c.bad("verify", call.str, c.at(n), "it accepts without requiring %s", q.what)
			}
		}
		if ext == nil || st.eval(EqI(Len(ext), CInt(0))) != 1 && st.eval(Eq(ext, CStr(""))) != 1 {
			c.bad("verify", call.str, c.at(n), "it accepts a checkpoint with extension lines, which the signature does not cover")
		}
	}
	seen := map[string]int{}
	for _, n := range returnsOf(g) {
		x := unwrap(n.Ev.Args[0])
		if v, ok := x.boolVal(); ok {
			if !v {
				continue
			}
			// true: some successful verification was established
			st := must(g).at(n)
			var call *Sym
			for f := range st.facts {
				if cl, want := verdict(f); cl != nil && (st.eval(f) == 1) == want {
					call = cl
				}
			}
			if call == nil {
				c.bad("verify", "verify", c.at(n), "it accepts without verifying the signature")
				continue
			}
			seen[call.str]++
			checkCall(n, call)
			c.ok("verify", call.str, c.at(n))
			continue
		}
		call, want := verdict(x)
		if call == nil || !want {
			c.bad("verify", "verify", c.at(n), "the answer is not that of a signature verification: %s", short(x))
			continue
		}
		seen[call.str]++
		checkCall(n, call)
		c.ok("verify", call.str, c.at(n))
	}
	for _, a := range []string{"crypto/ecdsa.VerifyASN1", "crypto/rsa.VerifyPKCS1v15"} {
		if seen[a] == 0 {
			c.bad("verify", a, "?", "signatures of this algorithm are never accepted")
		}
	}
	// refusals: only for what the format rules out
	L := Len(sig)
	w := newState()
	for _, q := range []*Sym{Le(CInt(12), L), Le(Add(CInt(12), slen), L), EqI(Sub(L, slen), CInt(12)), EqI(hashAlg, CInt(4)), Eq(perr, Nil(nil))} {
		w.assume(q, true)
	}
	if ext != nil {
		w.assume(EqI(Len(ext), CInt(0)), true)
	}
	badEdge := func(n *Node, ed *Edge) bool {
		for _, f := range ed.Facts {
			if v := w.eval(f.C); v == 1 && !f.V || v == 0 && f.V {
				return true
			}
			y, v := normFact(f)
			// an algorithm that does not belong to the key, an unknown key, a failed serialization or check
			if !v && (y == EqI(sigAlg, CInt(1)) || y == EqI(sigAlg, CInt(3))) {
				return true
			}
			if !v && y.op == OpTypeAssertOk && strings.Contains(y.str+y.String(), "ecdsa.PublicKey") {
				// the last alternative: only final when RSA was ruled out too
				return ruledOut(g, n, "rsa.PublicKey")
			}
			if !v && y.op == OpTypeAssertOk && strings.Contains(y.String(), "rsa.PublicKey") {
				return ruledOut(g, n, "ecdsa.PublicKey")
			}
			if !v && y.op == OpEq && findCall(y, "certificate-transparency-go.SerializeSTHSignatureInput") != nil && len(y.args) == 2 {
				return true
			}
			if cl, want := verdict(y); cl != nil && v != want {
				return true
			}
		}
		return false
	}
	for _, n := range returnsOf(g) {
		if v, ok := unwrap(n.Ev.Args[0]).boolVal(); !ok || v {
			continue
		}
		if p := search([]*Node{g.Entry}, badEdge, isNode([]*Node{n})); p != nil {
			c.add(false, "verify", "refusal", c.at(n), "a valid signature can be refused", c.path(p)...)
		} else {
			c.ok("verify", "refusal", c.at(n))
		}
	}
}

// ruledOut: every path to n has found that the key is not of the named type.
func ruledOut(g *Graph, n *Node, typ string) bool {
	st := must(g).at(n)
	for f := range st.facts {
		y, _ := normFact(Fact{f, true})
		if y.op == OpTypeAssertOk && strings.Contains(y.String(), typ) && !(typ == "rsa.PublicKey" && strings.Contains(y.String(), "ecdsa.PublicKey")) && st.eval(y) == 0 {
			return true
		}
	}
	return false
}

func (c *Check) parseCheckpoint() {
	g := c.codec("", "ParseCheckpoint")
	if g == nil {
		return
	}
	text := param(g, 0)
	n1 := 0
	for _, n := range returnsOf(g) {
		if !isNilSym(unwrap(n.Ev.Args[1])) {
			continue
		}
		n1++
		S := unwrap(n.Ev.Args[0])
		st := must(g).at(n)
		fail := func(f string, a ...any) { c.bad("parse", "ParseCheckpoint", c.at(n), f, a...) }
		line := func(x *Sym, k int64) bool {
			b, o, ok := byteRef(unwrap(x))
			return ok && o.isInt(k) && isCallSym(unwrap(b), "strings.SplitN") && unwrap(unwrap(b).args[0]) == text &&
				isStr(unwrap(b).args[1], "\n") && unwrap(b).args[2].isInt(4)
		}
		if S.op != OpStruct || fieldByName(S, "Tree") == nil {
			fail("the result is not built from the text: %s", short(S))
			continue
		}
		if !line(fieldByName(S, "Origin"), 0) {
			fail("the origin is not the first line: %s", short(fieldByName(S, "Origin")))
		}
		tree := unwrap(fieldByName(S, "Tree"))
		num := unwrap(fieldByName(tree, "N"))
		if num.op != OpExtract || num.n != 0 || !isCallSym(num.args[0], "strconv.ParseInt") || !line(num.args[0].args[0], 1) || !num.args[0].args[1].isInt(10) {
			fail("the size is not the decimal number in the second line: %s", short(num))
			continue
		}
		if st.eval(Eq(Extract(num.args[0], 1, nil), Nil(nil))) != 1 {
			fail("a size that is not a number is accepted")
		}
		if st.eval(Le(CInt(0), num)) != 1 {
			fail("a negative size is accepted")
		}
		canon := false
		for f := range st.facts {
			if st.eval(f) == 1 && f.op == OpEq && len(f.args) == 2 {
				for k := 0; k < 2; k++ {
					fm := unwrap(f.args[k])
					if line(f.args[1-k], 1) && isCallSym(fm, "strconv.FormatInt") && fm.args[0] == num && fm.args[1].isInt(10) {
						canon = true
					}
				}
			}
		}
		if !canon {
			fail("a size in another than its canonical form is accepted")
		}
		hs := unwrap(fieldByName(tree, "Hash"))
		var dec *Sym
		if hs.op == OpArray && hs.args[0] == nil && len(hs.args) == 33 {
			for i, b := range hs.args[1:] {
				bb, o, ok := byteRef(b)
				if !ok || !o.isInt(int64(i)) || dec != nil && bb != dec {
					dec = nil
					break
				}
				dec = bb
			}
		} else {
			dec = stripBytes(hs)
		}
		if dec == nil || dec.op != OpExtract || dec.n != 0 || !isCallSym(dec.args[0], "(*encoding/base64.Encoding).DecodeString") || !line(dec.args[0].args[1], 2) ||
			find(dec.args[0].args[0], func(y *Sym) bool { return y.op == OpGlobal && y.str == "encoding/base64.StdEncoding" }) == nil {
			fail("the root hash is not the base64 in the third line: %s", short(hs))
		} else {
			if st.eval(Eq(Extract(dec.args[0], 1, nil), Nil(nil))) != 1 {
				fail("a root hash that is not base64 is accepted")
			}
			if st.eval(EqI(Len(dec), CInt(32))) != 1 {
				fail("a root hash of another length is accepted")
			}
		}
		if !line(fieldByName(S, "Extension"), 3) {
			fail("the extension is not the rest of the text: %s", short(fieldByName(S, "Extension")))
		}
		nl := false
		for f := range st.facts {
			if st.eval(f) == 1 && isCallSym(f, "strings.HasSuffix") && unwrap(f.args[0]) == text && isStr(f.args[1], "\n") {
				nl = true
			}
		}
		if !nl {
			fail("a text that does not end in a newline is accepted")
		}
		c.ok("parse", "ParseCheckpoint", c.at(n))
	}
	c.need(n1, 1, "parse", "accepted checkpoints")
}

func structFieldName(t types.Type, i int) string {
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return ""
}
