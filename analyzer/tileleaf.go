package main

import "math"

func (c *Check) appendTileLeaf() {
	g := c.codec("", "AppendTileLeaf")
	if g == nil {
		return
	}
	t, e := param(g, 0), param(g, 1)
	f := func(n string) func(*Sym) bool { return fieldOfParam(e, n) }
	chainLen := func(x *Sym) bool {
		l := toLin(x)
		if len(l.t) != 1 || l.c != 0 {
			return false
		}
		for s, k := range l.t {
			ch := lenArg(s)
			return k == 32 && ch != nil && f("ChainFp")(ch)
		}
		return false
	}
	before := bytesOf("the tile so far", func(x *Sym) bool { return x == t })
	head := beField("the timestamp", 8, f("Timestamp"))
	cert := prefixed(3, bytesOf("the certificate", f("Certificate")))
	count := beField("the size of the fingerprints", 2, chainLen)
	layout := map[bool][]part{
		false: seqParts(before, head, constByte(0), constByte(0), cert, extensionOf(f("LeafIndex")), count),
		true: seqParts(before, head, constByte(0), constByte(1), bytesOf("the issuer key hash", f("IssuerKeyHash")), cert,
			extensionOf(f("LeafIndex")), prefixed(3, bytesOf("the precertificate", f("PreCertificate"))), count),
	}
	kinds := map[bool]int{}
	for _, n := range returnsOf(g) {
		w := unwrap(n.Ev.Args[0])
		li := loopOf(g, w)
		if li == nil {
			c.bad("append", "AppendTileLeaf", c.at(n), "the result does not end with one fingerprint per chain certificate: %s", short(w))
			continue
		}
		// everything in front of the fingerprints
		for _, h := range li.Heads {
			iv := h.Init[w]
			if iv == nil || isCbErr(cbParts(iv)[0]) {
				continue
			}
			isPre, k := precertSide(g, h, e)
			if !k {
				c.bad("append", "AppendTileLeaf", c.at(h), "the encoding does not depend on whether the entry is a precertificate")
				continue
			}
			kinds[isPre]++
			if m := matchParts(iv, layout[isPre]); m != "" {
				c.bad("append", "AppendTileLeaf", c.at(h), "%s", m)
			} else {
				c.ok("append", "AppendTileLeaf", c.at(h))
			}
		}
		// the fingerprints, one per iteration, in order
		var idx, chain *Sym
		for _, b := range li.Backs {
			v := b.Vals[w]
			if v == nil {
				c.bad("append", "AppendTileLeaf", c.at(b.From), "an iteration adds nothing")
				continue
			}
			ps := cbParts(v)
			if len(ps) != 2 || ps[0] != w || !isCallSym(ps[1], "cb.bytes") {
				c.bad("append", "AppendTileLeaf", c.at(b.From), "an iteration does not add exactly one fingerprint: %s", short(v))
				continue
			}
			x := unwrap(ps[1].args[0])
			var p place
			ok := false
			if x.op == OpElemAddr || x.op == OpFieldAddr {
				p, ok = placeOf(x), true
			} else {
				p, ok = loadPlace(x)
			}
			if !ok || p.idx == nil {
				// an element of the slice held in the field
				c.bad("append", "AppendTileLeaf", c.at(b.From), "what an iteration adds is not a fingerprint of the chain: %s", short(x))
				continue
			}
			base := p.base
			if !f("ChainFp")(base) && !(base == e && len(p.fields) > 0 && p.fields[0] == "ChainFp") {
				c.bad("append", "AppendTileLeaf", c.at(b.From), "what an iteration adds is not a fingerprint of the chain: %s", short(x))
				continue
			}
			idx, chain = p.idx, base
			if _, why := idxCounter(g, idx); why != "" {
				c.bad("append", "AppendTileLeaf", c.at(b.From), "the fingerprints are not added in order: %s", why)
			} else {
				c.ok("append", "AppendTileLeaf fingerprints", c.at(b.From))
			}
		}
		if idx != nil {
			if !known(g, n, Le(Len(chain), idx)) {
				c.bad("append", "AppendTileLeaf", c.at(n), "the loop over the fingerprints can end early")
			} else {
				c.ok("append", "AppendTileLeaf end", c.at(n))
			}
		}
	}
	if kinds[true] == 0 || kinds[false] == 0 {
		c.bad("append", "AppendTileLeaf", "?", "no encoding for one of the two entry types")
	}
}

// lenArg: the operand of a length term.
func lenArg(s *Sym) *Sym {
	s = unwrapConv(s)
	if s.op == OpCall && s.str == "len" && len(s.args) == 1 {
		return s.args[0]
	}
	return nil
}

// sub: x is tile[lo:hi].
func sub(x, tile *Sym) (lo, hi *Sym, ok bool) {
	x = unwrap(x)
	if x.op == OpSnapSlice && len(x.args) >= 3 {
		return nil, nil, false
	}
	if x.op != OpSlice || x.args[0] != tile {
		return nil, nil, false
	}
	return sliceLo(x), x.args[2], true
}

// tileLayout holds the offsets of one kind of leaf, as terms over the input.
type tileLayout struct {
	certLo, certHi, extLo, extHi, preLo, preHi, fps *Sym
	ends                                            []*Sym
	cnt                                             *Sym
}

func layoutOf(g *Graph, tile *Sym, pre bool) (*tileLayout, string) {
	l := &tileLayout{}
	off := CInt(10)
	l.ends = append(l.ends, CInt(8), off)
	if pre {
		off = CInt(42)
		l.ends = append(l.ends, off)
	}
	sec := func(n int, what string) (lo, hi *Sym, why string) {
		k := beLoad(g, tile, off, n)
		if k == nil {
			return nil, nil, "the length of " + what + " is not read where the encoder puts it"
		}
		lo = Add(off, CInt(int64(n)))
		hi = Add(lo, k)
		l.ends = append(l.ends, lo, hi)
		off = hi
		return
	}
	var why string
	if l.certLo, l.certHi, why = sec(3, "the certificate"); why != "" {
		return nil, why
	}
	if l.extLo, l.extHi, why = sec(2, "the extensions"); why != "" {
		return nil, why
	}
	if pre {
		if l.preLo, l.preHi, why = sec(3, "the precertificate"); why != "" {
			return nil, why
		}
	}
	l.cnt = beLoad(g, tile, off, 2)
	if l.cnt == nil {
		return nil, "the size of the fingerprints is not read where the encoder puts it"
	}
	l.fps = Add(off, CInt(2))
	l.ends = append(l.ends, l.fps)
	return l, ""
}

// readTileLeaf: the decoder takes apart exactly what the encoder writes.
func (c *Check) readTileLeaf() {
	g := c.codec("", "ReadTileLeaf")
	if g == nil {
		return
	}
	tile := param(g, 0)
	lays := map[bool]*tileLayout{}
	for _, pre := range []bool{false, true} {
		l, why := layoutOf(g, tile, pre)
		if l == nil {
			c.bad("read", "ReadTileLeaf", "?", "%s", why)
			return
		}
		lays[pre] = l
	}
	typ := beLoad(g, tile, CInt(8), 2)
	if typ == nil {
		c.bad("read", "ReadTileLeaf", "?", "the entry type is not read where the encoder puts it")
		return
	}
	kindAt := func(n *Node) (bool, bool) {
		if known(g, n, EqI(typ, CInt(0))) {
			return false, true
		}
		return true, known(g, n, EqI(typ, CInt(1)))
	}
	kinds := map[bool]int{}
	var loops = map[*LoopInfo]*Sym{}
	for _, n := range returnsOf(g) {
		res := unwrap(n.Ev.Args[0])
		if isNilSym(res) {
			if isNilSym(unwrap(n.Ev.Args[2])) {
				c.bad("read", "ReadTileLeaf", c.at(n), "it returns neither an entry nor an error")
			}
			continue
		}
		if res.op != OpStruct || !isNilSym(unwrap(n.Ev.Args[2])) {
			c.bad("read", "ReadTileLeaf", c.at(n), "the result is not an entry built here: %s", short(res))
			continue
		}
		S := res
		pre, k := kindAt(n)
		if !k {
			c.bad("read", "ReadTileLeaf", c.at(n), "an entry of an unknown type is returned")
			continue
		}
		kinds[pre]++
		l := lays[pre]
		fld := func(name string) *Sym { return fieldByName(S, name) }
		fail := func(name, why string) {
			c.bad("read", "ReadTileLeaf "+name, c.at(n), "%s", why)
		}
		isSub := func(x, lo, hi *Sym) bool {
			a, b, ok := sub(x, tile)
			return ok && a == lo && b == hi
		}
		if b, o, ok := beAt(fld("Timestamp"), 8); !ok || b != tile || !o.isInt(0) {
			fail("Timestamp", "the timestamp is not the first eight bytes: "+short(fld("Timestamp")))
		}
		if x := fld("IsPrecert"); must(g).at(n).eval(x) != map[bool]int{true: 1, false: 0}[pre] {
			fail("IsPrecert", "the entry type is not reflected: "+short(x))
		}
		if !isSub(fld("Certificate"), l.certLo, l.certHi) {
			fail("Certificate", "not the bytes the encoder wrote: "+short(fld("Certificate")))
		}
		fp := fld("Certificate")
		if pre {
			fp = fld("PreCertificate")
			if !isSub(fp, l.preLo, l.preHi) {
				fail("PreCertificate", "not the bytes the encoder wrote: "+short(fp))
			}
			x := unwrap(fld("IssuerKeyHash"))
			ok := x.op == OpArray && x.args[0] == nil && len(x.args) == 33
			if ok {
				for i, b := range x.args[1:] {
					bb, o, k := byteRef(b)
					ok = ok && k && bb == tile && o.isInt(int64(10+i))
				}
			} else if h := unwrapConv(x); h.op == OpConv || h.op == OpSlice || h.op == OpLoad {
				ok = isSub(h, CInt(10), CInt(42))
			}
			if !ok {
				fail("IssuerKeyHash", "not the 32 bytes the encoder wrote: "+short(x))
			}
		} else if x := fld("PreCertificate"); !isZeroSym(unwrap(x)) {
			fail("PreCertificate", "set for a certificate entry: "+short(x))
		}
		if x := fld("CertificateFp"); !isCallSym(x, "crypto/sha256.Sum256") || unwrap(x.args[0]) != unwrap(fp) {
			fail("CertificateFp", "not the SHA-256 digest of the submitted certificate: "+short(x))
		}
		if b, o, ok := beAt(fld("LeafIndex"), 5); !ok || b != tile || o != Add(l.extLo, CInt(3)) {
			fail("LeafIndex", "not the five bytes of the leaf_index extension: "+short(fld("LeafIndex")))
		}
		for k, want := range map[int64]int64{0: 0, 1: 5} {
			n1 := 1
			if k == 1 {
				n1 = 2
			}
			x := beLoad(g, tile, Add(l.extLo, CInt(k)), n1)
			if x == nil || !known(g, n, EqI(x, CInt(want))) {
				fail("extensions", "the extension's type and length are not checked")
			}
		}
		if !known(g, n, EqI(Sub(l.extHi, l.extLo), CInt(8))) {
			fail("extensions", "the extensions are not checked to end after leaf_index")
		}
		// fingerprints and the rest
		ch := unwrap(fld("ChainFp"))
		li := loopOf(g, ch)
		made := (*Sym)(nil) // the content of a list made at its full length
		if li == nil && ch.op == OpMakeSlice {
			li, made = filledBy(g, ch)
			if made != nil && n.st.ver(ch) != made {
				li = nil
			}
		}
		if li == nil {
			fail("ChainFp", "not read by a loop: "+short(ch))
			continue
		}
		loops[li] = ch
		rest := unwrap(n.Ev.Args[1])
		var ctr *Sym
		for _, s := range li.Syms {
			if _, why := idxCounter(g, s); why == "" && isIntType(s.typ) {
				ctr = s
			}
		}
		in := (*Sym)(nil)
		for _, b := range li.Backs {
			v := b.Vals[ch]
			el := (*Sym)(nil)
			if made != nil {
				if b.Vals[made] == nil {
					continue // the other kind of entry
				}
				if el, ctr = writtenArray(b.Vals[made], made, ch); ctr != nil {
					if _, why := idxCounter(g, ctr); why != "" {
						el = nil
					}
				}
			} else if v != nil && v.op == OpAppend && v.args[0] == ch && len(v.args) == 2 {
				if es := sliceElems(v.args[1]); len(es) == 1 {
					el = es[0]
				}
			}
			if p := el; p != nil && p.op == OpConv && p.args[0].op == OpSlice && isArray(p.typ) != nil && isArray(p.typ).Len() == 32 {
				x := p.args[0]
				if x == Slice(x.args[0], CInt(0), CInt(32), nil, x.typ) || x == Slice(x.args[0], nil, CInt(32), nil, x.typ) {
					el, in = nil, x.args[0]
					if b.Vals[in] != Slice(in, CInt(32), nil, nil, in.typ) {
						fail("ChainFp", "the input does not advance by one fingerprint: "+short(b.Vals[in]))
					}
					continue
				}
			}
			if el == nil || unwrap(el).op != OpArray || len(unwrap(el).args) != 33 {
				fail("ChainFp", "an iteration does not add one fingerprint")
				continue
			}
			bad := false
			for i, x := range unwrap(el).args[1:] {
				bb, o, k := byteRef(x)
				if !k || !o.isInt(int64(i)) || (in != nil && bb != in) {
					bad = true
					break
				}
				in = bb
			}
			if bad || in == nil {
				fail("ChainFp", "a fingerprint is not the next 32 bytes of the input")
				continue
			}
			if b.Vals[in] != Slice(in, CInt(32), nil, nil, in.typ) {
				fail("ChainFp", "the input does not advance by one fingerprint: "+short(b.Vals[in]))
			}
		}
		if in == nil {
			fail("ChainFp", "no fingerprint is read")
			continue
		}
		if rest != in {
			fail("rest", "the remaining input does not start behind the fingerprints: "+short(rest))
		}
		for _, h := range li.Heads {
			p, k := kindAt(h)
			if !k || p != pre {
				continue
			}
			if a, b, ok := sub(h.Init[in], tile); !ok || b != nil || a != l.fps {
				fail("ChainFp", "the fingerprints are not read where the encoder puts them")
			}
			if iv := h.Init[ch]; made == nil && (iv == nil || !isEmptySlice(iv)) {
				fail("ChainFp", "the list of fingerprints does not start empty")
			}
		}
		// the loop runs once per fingerprint
		okCnt := false
		if ctr != nil {
			st := must(g).at(n)
			for cnd, v := range st.facts {
				_ = v
				for _, q := range quotients(cnd, l.cnt) {
					if st.eval(Le(q, unwrapConv(ctr))) == 1 || st.eval(Le(q, ctr)) == 1 || st.eval(Lt(ctr, q)) == 0 {
						okCnt = true
					}
				}
			}
		}
		if made != nil && okCnt {
			// every element of the list is one of them
			okCnt = false
			for _, q := range quotients(ch.args[0], l.cnt) {
				okCnt = okCnt || unwrapConv(ch.args[0]) == q
			}
		}
		if !okCnt {
			fail("ChainFp", "the number of fingerprints read is not their size divided by 32")
		}
		c.ok("read", "ReadTileLeaf entry", c.at(n))
	}
	if kinds[true] == 0 || kinds[false] == 0 {
		c.bad("read", "ReadTileLeaf", "?", "one of the two entry types is never returned")
	}
	// and back out of the loop only when all were read, or the input is short
	// a refusal is due to the input
	broken := func(n *Node, e *Edge) bool {
		st := edgeSays(e)
		if st.eval(EqI(typ, CInt(0))) == 0 && st.eval(EqI(typ, CInt(1))) == 0 {
			return true
		}
		for _, f := range e.Facts {
			if c.malformed(g, tile, lays, loops, typ, f) {
				return true
			}
		}
		return false
	}
	for _, n := range returnsOf(g) {
		if !isNilSym(unwrap(n.Ev.Args[0])) {
			continue
		}
		// an unknown entry type is two comparisons
		if knownFalse(g, n, EqI(typ, CInt(0))) && knownFalse(g, n, EqI(typ, CInt(1))) {
			c.ok("refusal", "ReadTileLeaf", c.at(n))
			continue
		}
		if p := search([]*Node{g.Entry}, broken, isNode([]*Node{n})); p != nil {
			c.add(false, "refusal", "ReadTileLeaf", c.at(n), "a well-formed leaf can be refused", c.path(p)...)
		} else {
			c.ok("refusal", "ReadTileLeaf", c.at(n))
		}
	}
}

// filledBy finds the one loop that writes the elements of the slice m, and the
// term for m's content in it.
func filledBy(g *Graph, m *Sym) (li *LoopInfo, cell *Sym) {
	for _, l := range g.Loops {
		for _, b := range l.Backs {
			for s := range b.Vals {
				if s.op == OpWCell && s.n == int64(verKey(m).id) && s != cell {
					if cell != nil {
						return nil, nil
					}
					li, cell = l, s
				}
			}
		}
	}
	return li, cell
}

// writtenArray: content v differs from cell in one element of base, an array
// written as a whole or element by element.
func writtenArray(v, cell, base *Sym) (el, idx *Sym) {
	if v == nil {
		return nil, nil
	}
	var els []*Sym
	var at *Sym
	for ; v != cell; v = v.args[0] {
		if v.op != OpVerUpd {
			return nil, nil
		}
		a := v.args[1]
		if a.op == OpElemAddr && a.args[0] == base {
			if el != nil || els != nil {
				return nil, nil
			}
			el, idx = v.args[2], a.args[1]
			continue
		}
		if a.op != OpElemAddr || a.args[0].op != OpElemAddr || a.args[0].args[0] != base || el != nil || at != nil && at != a.args[0] {
			return nil, nil
		}
		at = a.args[0]
		arr := isArray(derefT(at.typ))
		k, ok := a.args[1].intVal()
		if arr == nil || !ok || k < 0 || k >= arr.Len() {
			return nil, nil
		}
		if els == nil {
			els = make([]*Sym, arr.Len())
		}
		if els[k] == nil {
			els[k] = v.args[2]
		}
	}
	if at == nil {
		return el, idx
	}
	for _, x := range els {
		if x == nil {
			return nil, nil
		}
	}
	return I.mk(Sym{op: OpArray, args: append([]*Sym{nil}, els...), typ: derefT(at.typ)}, ""), at.args[1]
}

// quotients: the terms in cond that are cnt/32.
func quotients(cond, cnt *Sym) []*Sym {
	var out []*Sym
	mentions(cond, func(x *Sym) bool {
		if x.op == OpBin && x.str == "/" && unwrapConv(x.args[0]) == cnt && x.args[1].isInt(32) {
			out = append(out, x)
		}
		return false
	}, map[*Sym]bool{})
	return out
}

// malformed: the fact cannot hold for the encoding of an entry, whatever follows it.
func (c *Check) malformed(g *Graph, tile *Sym, lays map[bool]*tileLayout, loops map[*LoopInfo]*Sym, typ *Sym, f Fact) bool {
	// the fact contradicts what holds of every encoded leaf of one kind
	L := Len(tile)
	ts := beLoad(g, tile, CInt(0), 8)
	for pre, l := range lays {
		w := newState()
		for _, e := range l.ends {
			w.assume(Le(e, L), true)
		}
		w.assume(EqI(Sub(l.extHi, l.extLo), CInt(8)), true)
		if t := byteOn(g, tile, l.extLo); t != nil {
			w.assume(EqI(t, CInt(0)), true)
		}
		if t := beLoad(g, tile, Add(l.extLo, CInt(1)), 2); t != nil {
			w.assume(EqI(t, CInt(5)), true)
		}
		if ts != nil {
			w.assume(Le(ts, CInt(math.MaxInt64)), true)
		}
		_ = pre
		if v := w.eval(f.C); (v == 1 && !f.V) || (v == 0 && f.V) {
			return true
		}
	}
	st := newState()
	st.assume(f.C, f.V)
	// fewer than 32 bytes left for a fingerprint
	for li := range loops {
		for _, s := range li.Syms {
			if isByteSlice(s.typ) && st.eval(Le(CInt(32), Len(s))) == 0 {
				return true
			}
		}
	}
	return false
}
