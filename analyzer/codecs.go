package main

import (
	"fmt"
)

// C14, C31: the wire formats of internal/sunlight, read off the byte-sequence terms
// the encoders return and the decoders take apart.

const sunPkg = "internal/sunlight"

// returns lists the return nodes of a root with the results' terms.
func returnsOf(g *Graph) []*Node {
	return evNodes(g, func(e *Event) bool { return e.Kind == EvReturn })
}

// part matches one element of a byte sequence.
type part struct {
	what string
	ok   func(x *Sym) bool
}

func constByte(v int64) part {
	return part{fmt.Sprintf("the byte %d", v), func(x *Sym) bool { return unwrapConv(x).isInt(v) }}
}

// beField: the n bytes of a value, most significant first.
func beField(what string, n int, v func(*Sym) bool) []part {
	var out []part
	for k := n - 1; k >= 0; k-- {
		k := k
		out = append(out, part{fmt.Sprintf("byte %d of %s", k, what), func(x *Sym) bool {
			x = unwrapConv(x)
			if x.op != OpByte || x.n != int64(k) {
				return false
			}
			y := x.args[0]
			// a conversion that keeps the bytes written
			for y.op == OpConv && isIntType(y.typ) && int64(intSize(y.typ)) > int64(k) {
				y = y.args[0]
			}
			return y.op != OpConv && v(y)
		}})
	}
	return out
}

// bytesOf: a whole byte string.
func bytesOf(what string, v func(*Sym) bool) part {
	return part{what, func(x *Sym) bool { return isCallSym(x, "cb.bytes") && v(unwrap(x.args[0])) }}
}

// prefixed: a section preceded by its length.
func prefixed(n int, parts ...part) part {
	return part{fmt.Sprintf("a section with a %d-byte length", n), func(x *Sym) bool {
		return isCallSym(x, fmt.Sprintf("cb.lp%d", 8*n)) && len(x.args) == 1 && matchParts(x.args[0], parts) == ""
	}}
}

// matchParts compares a content term with a layout; the answer is empty when it fits.
func matchParts(x *Sym, parts []part) string {
	xs := cbParts(unwrap(x))
	for i, p := range parts {
		if i >= len(xs) {
			return "the encoding ends before " + p.what
		}
		if !p.ok(xs[i]) {
			return fmt.Sprintf("part %d of the encoding is %s, not %s", i, short(xs[i]), p.what)
		}
	}
	if len(xs) > len(parts) {
		return fmt.Sprintf("the encoding continues with %s", short(xs[len(parts)]))
	}
	return ""
}

// fieldOfParam: x is the named field of the root's parameter, read through a pointer or
// out of a structure passed by value.
func fieldOfParam(p *Sym, name string) func(*Sym) bool {
	return func(x *Sym) bool {
		x = unwrap(x)
		if x.op == OpField && x.args[0] == p && x.str == name {
			return true
		}
		if pl, ok := loadPlace(x); ok {
			return pl.base == p && pl.idx == nil && len(pl.fields) == 1 && pl.fields[0] == name
		}
		// an array field named by its address
		if x.op == OpFieldAddr {
			pl := placeOf(x)
			return pl.base == p && pl.idx == nil && len(pl.fields) == 1 && pl.fields[0] == name
		}
		return false
	}
}

func param(g *Graph, i int) *Sym {
	if i >= len(g.Fn.Params) {
		return nil
	}
	if v := g.Entry.st.vals[vkey{g.Entry.ctx, g.Fn.Params[i]}]; v != nil {
		return v
	}
	p, ctx := g.Fn.Params[i], g.Entry.ctx
	return I.mk(Sym{op: OpParam, str: p.Name(), n: int64(i), typ: p.Type(), ctx: ctx}, fmt.Sprint(ctx.id))
}

// extensionOf: the content of a CTExtensions field naming the given leaf index.
func extensionOf(idx func(*Sym) bool) part {
	direct := append([]part{constByte(0)}, prefixed(2, beField("the leaf index", 5, idx)...))
	return part{"the extensions with the leaf index", func(x *Sym) bool {
		if !isCallSym(x, "cb.lp16") {
			return false
		}
		if matchParts(x.args[0], direct) == "" {
			return true
		}
		in := cbParts(x.args[0])
		if len(in) != 1 || !isCallSym(in[0], "cb.bytes") {
			return false
		}
		y := unwrap(in[0].args[0])
		if y.op != OpExtract || y.n != 0 || !isCallSym(y.args[0], "sunlight.MarshalExtensions") {
			return false
		}
		e := unwrap(y.args[0].args[0])
		return e.op == OpStruct && len(e.args) > 0 && idx(unwrapConv(fieldByName(e, "LeafIndex")))
	}}
}

func seqParts(ps ...any) []part {
	var out []part
	for _, p := range ps {
		switch v := p.(type) {
		case part:
			out = append(out, v)
		case []part:
			out = append(out, v...)
		}
	}
	return out
}

// precertSide: what every path to n knows about the entry's kind.
func precertSide(g *Graph, n *Node, e *Sym) (pre, known_ bool) {
	st := must(g).at(n)
	for c := range st.facts {
		if fieldOfParam(e, "IsPrecert")(c) {
			switch st.eval(c) {
			case 1:
				return true, true
			case 0:
				return false, true
			}
		}
	}
	return false, false
}

func init() {
	register("C14", func(c *Check) {
		c.merkleLeaf()
		c.extensions()
		c.digitallySigned()
	})
	register("C31", func(c *Check) {
		c.appendTileLeaf()
		c.readTileLeaf()
	})
}

func (c *Check) codec(typ, fn string) *Graph {
	g := c.w.root(sunPkg, typ, fn)
	if g == nil {
		c.bad("anchor", fn, "?", "the function was not found")
		return nil
	}
	c.use(g)
	for _, u := range g.Undec {
		c.bad("undecided", fn, "?", "%v", u)
	}
	return g
}

func (c *Check) merkleLeaf() {
	g := c.codec("LogEntry", "MerkleTreeLeaf")
	if g == nil {
		return
	}
	e := param(g, 0)
	f := func(n string) func(*Sym) bool { return fieldOfParam(e, n) }
	head := seqParts(constByte(0), constByte(0), beField("the timestamp", 8, f("Timestamp")))
	cert := prefixed(3, bytesOf("the certificate", f("Certificate")))
	x509 := seqParts(head, constByte(0), constByte(0), cert, extensionOf(f("LeafIndex")))
	pre := seqParts(head, constByte(0), constByte(1), bytesOf("the issuer key hash", f("IssuerKeyHash")), cert, extensionOf(f("LeafIndex")))
	kinds := map[bool]int{}
	for _, n := range returnsOf(g) {
		isPre, k := precertSide(g, n, e)
		if !k {
			c.bad("leaf", "MerkleTreeLeaf", c.at(n), "the result does not depend on whether the entry is a precertificate")
			continue
		}
		want := x509
		if isPre {
			want = pre
		}
		kinds[isPre]++
		if m := matchParts(n.Ev.Args[0], want); m != "" {
			c.bad("leaf", "MerkleTreeLeaf", c.at(n), "%s", m)
		} else {
			c.ok("leaf", "MerkleTreeLeaf", c.at(n))
		}
	}
	if kinds[true] == 0 || kinds[false] == 0 {
		c.bad("leaf", "MerkleTreeLeaf", "?", "no encoding for one of the two entry types")
	}
}

func (c *Check) extensions() {
	g := c.codec("", "MarshalExtensions")
	if g == nil {
		return
	}
	e := param(g, 0)
	idx := fieldOfParam(e, "LeafIndex")
	want := seqParts(constByte(0), prefixed(2, beField("the leaf index", 5, idx)...))
	n40 := int64(1) << 40
	n1, n2 := 0, 0
	var li *Sym
	for _, n := range g.Nodes {
		for i := range n.Out {
			for _, f := range n.Out[i].Facts {
				if s := find(f.C, func(x *Sym) bool { return idx(x) && isIntType(x.typ) }); s != nil {
					li = s
				}
			}
		}
	}
	for _, n := range returnsOf(g) {
		b, err := n.Ev.Args[0], n.Ev.Args[1]
		if isNilSym(unwrap(b)) {
			// refused: only an index that does not fit
			n2++
			if isNilSym(unwrap(err)) {
				c.bad("extensions", "MarshalExtensions", c.at(n), "it returns neither an encoding nor an error")
			} else if li == nil || !known(g, n, Le(CInt(n40), li)) {
				c.bad("extensions", "MarshalExtensions", c.at(n), "it refuses an index below 2^40")
			} else {
				c.ok("extensions", "MarshalExtensions refusal", c.at(n))
			}
			continue
		}
		n1++
		if m := matchParts(b, want); m != "" {
			c.bad("extensions", "MarshalExtensions", c.at(n), "%s", m)
		} else if li == nil || !known(g, n, Lt(li, CInt(n40))) {
			c.bad("extensions", "MarshalExtensions", c.at(n), "an index of 2^40 or more is encoded")
		} else {
			c.ok("extensions", "MarshalExtensions", c.at(n))
		}
	}
	c.need(n1, 1, "extensions", "encodings")
	c.need(n2, 1, "extensions", "refusals")

	// the decoder
	p := c.codec("", "ParseExtensions")
	if p == nil {
		return
	}
	n1 = 0
	for _, n := range returnsOf(p) {
		v, err := unwrap(n.Ev.Args[0]), n.Ev.Args[1]
		if !isNilSym(unwrap(err)) {
			continue
		}
		n1++
		x := fieldByName(v, "LeafIndex")
		if x == nil {
			c.bad("parse", "ParseExtensions", c.at(n), "the result is not built from the input: %s", short(v))
			continue
		}
		base, off, ok := beAt(x, 5)
		if !ok {
			c.bad("parse", "ParseExtensions", c.at(n), "the leaf index is not five big-endian bytes: %s", short(x))
			continue
		}
		// type at off-3, its length at off-2, and the length is 5
		at := func(k int64) *Sym { return byteOn(p, base, Add(off, CInt(k))) }
		t, l1, l2 := at(-3), at(-2), at(-1)
		switch {
		case t == nil || l1 == nil || l2 == nil:
			c.bad("parse", "ParseExtensions", c.at(n), "the extension's type and length are not read in front of its data")
		case !known(p, n, EqI(t, CInt(0))):
			c.bad("parse", "ParseExtensions", c.at(n), "the extension's type is not checked to be leaf_index")
		case !known(p, n, EqI(compose([]*Sym{l2, l1}, nil), CInt(5))) && !known(p, n, EqI(beLoad(p, base, Add(off, CInt(-2)), 2), CInt(5))):
			c.bad("parse", "ParseExtensions", c.at(n), "the leaf_index extension is not checked to hold exactly five bytes")
		default:
			c.ok("parse", "ParseExtensions", c.at(n))
		}
	}
	c.need(n1, 1, "parse", "decodings")
	// whatever is skipped is skipped whole
	for _, li := range p.Loops {
		for _, b := range li.Backs {
			for s, v := range b.Vals {
				if !isByteSlice(s.typ) {
					continue
				}
				want := CInt(3)
				l := beLoad(p, s, CInt(1), 2)
				if l == nil {
					c.bad("parse", "ParseExtensions", c.at(b.From), "the length of a skipped extension is not read")
					continue
				}
				if v != Slice(s, Add(want, l), nil, nil, s.typ) {
					c.bad("parse", "ParseExtensions", c.at(b.From), "an unknown extension is not skipped whole: the input continues at %s", short(v))
				} else if knownOnBack(p, li, b).eval(EqI(byteOn(p, s, CInt(0)), CInt(0))) != 0 {
					c.bad("parse", "ParseExtensions", c.at(b.From), "an extension of type leaf_index is skipped")
				} else {
					c.ok("parse", "ParseExtensions skip", c.at(b.From))
				}
			}
		}
	}
}

// byteRef: x is one byte of a byte string.
func byteRef(x *Sym) (base, off *Sym, ok bool) {
	x = unwrapConv(x)
	switch x.op {
	case OpLoad:
		a := x.args[0]
		if a.op == OpElemAddr {
			return a.args[0], a.args[1], true
		}
	case OpIndex:
		return x.args[0], x.args[1], true
	}
	return nil, nil, false
}

// beAt: x is an n-byte big-endian number read from a byte string.
func beAt(x *Sym, n int) (base, off *Sym, ok bool) {
	x = unwrapConv(x)
	bs := []*Sym{x}
	if x.op == OpCompose {
		bs = x.args
	}
	if len(bs) != n {
		return nil, nil, false
	}
	for i := n - 1; i >= 0; i-- {
		b, o, k := byteRef(bs[i])
		if !k {
			return nil, nil, false
		}
		if i == n-1 {
			base, off = b, o
		} else if b != base || o != Add(off, CInt(int64(n-1-i))) {
			return nil, nil, false
		}
	}
	return base, off, true
}

// byteOn and beLoad find the read of one byte or number among the terms of a graph.
func byteOn(g *Graph, base, off *Sym) *Sym { return beLoad(g, base, off, 1) }
func beLoad(g *Graph, base, off *Sym, n int) *Sym {
	return readsOf(g)[readKey{base, off, n}]
}

type readKey struct {
	base, off *Sym
	n         int
}

var readsCache = map[*Graph]map[readKey]*Sym{}

func readsOf(g *Graph) map[readKey]*Sym {
	if m, ok := readsCache[g]; ok {
		return m
	}
	m := map[readKey]*Sym{}
	readsCache[g] = m
	seen := map[*Sym]bool{}
	var walk func(x *Sym)
	walk = func(x *Sym) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		for n := 1; n <= 8; n++ {
			if x.op != OpCompose && x.op != OpLoad && x.op != OpIndex {
				break
			}
			if b, o, ok := beAt(x, n); ok {
				m[readKey{b, o, n}] = x
			}
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	for _, n := range g.Nodes {
		for i := range n.Out {
			for _, f := range n.Out[i].Facts {
				walk(f.C)
			}
		}
		if n.Ev != nil {
			for _, a := range n.Ev.Args {
				walk(a)
			}
		}
		for _, v := range n.Init {
			walk(v)
		}
	}
	for _, li := range g.Loops {
		for _, b := range li.Backs {
			for _, v := range b.Vals {
				walk(v)
			}
		}
	}
	return m
}

func (c *Check) digitallySigned() {
	g := c.codec("", "DigitallySign")
	if g == nil {
		return
	}
	key, msg := param(g, 0), param(g, 1)
	digest := func(x *Sym) bool {
		h := findCall(x, "crypto/sha256.Sum256")
		return h != nil && len(h.args) == 1 && unwrap(h.args[0]) == msg && unwrap(x) == h
	}
	sig := func(x *Sym) bool {
		if x.op != OpExtract || x.n != 0 || !isCallSym(x.args[0], "rfc6979.Sign") {
			return false
		}
		a := x.args[0].args
		return len(a) == 3 && a[0] == key && digest(a[1]) && unwrapConv(a[2]).isInt(5)
	}
	want := seqParts(constByte(4), constByte(3), prefixed(2, bytesOf("the RFC 6979 signature over the SHA-256 digest of the message", sig)))
	n1 := 0
	for _, n := range returnsOf(g) {
		b, err := n.Ev.Args[0], n.Ev.Args[1]
		if isNilSym(unwrap(b)) {
			if isNilSym(unwrap(err)) {
				c.bad("signature", "DigitallySign", c.at(n), "it returns neither a signature nor an error")
			}
			continue
		}
		n1++
		if m := matchParts(b, want); m != "" {
			c.bad("signature", "DigitallySign", c.at(n), "%s", m)
		} else {
			c.ok("signature", "DigitallySign", c.at(n))
		}
	}
	c.need(n1, 1, "signature", "signatures")
}

// knownOnBack: what every path that takes this back edge knows.
func knownOnBack(g *Graph, li *LoopInfo, b *BackInfo) *State {
	st := newState()
	for c, v := range must(g).at(b.From).facts {
		st.facts[c] = v
	}
	for i := range b.From.Out {
		e := &b.From.Out[i]
		if e.Back != nil && *e.Back == li.Key && e.To == b.H {
			for _, f := range e.Facts {
				st.assume(f.C, f.V)
			}
		}
	}
	return st
}
