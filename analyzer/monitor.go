package main

import (
	"fmt"
	"go/types"
	"strings"
)

// --- terms of the read side ---------------------------------------------------------

// queryParam: x is the value of a query parameter of the request.
func queryParam(x *Sym) (string, bool) {
	if x != nil && x.op == OpCall && len(x.args) == 2 && (strings.HasSuffix(x.str, "url.Values).Get") || strings.HasSuffix(x.str, "http.Request).FormValue")) {
		return x.args[1].strVal()
	}
	return "", false
}

// intParam: x is the integer given in a query parameter.
func intParam(x *Sym) string {
	if x == nil {
		return ""
	}
	x = unwrapConv(x)
	if x.op == OpExtract && x.n == 0 && x.args[0].op == OpCall {
		k := x.args[0]
		if (k.str == "strconv.ParseInt" || k.str == "strconv.ParseUint") && len(k.args) == 3 && k.args[1].isInt(10) || k.str == "strconv.Atoi" {
			if n, ok := queryParam(k.args[0]); ok {
				return n
			}
		}
	}
	return ""
}

// gotKey: x is the object read from storage under a key.
func gotKey(x *Sym) (key, call *Sym, ok bool) {
	if x == nil {
		return nil, nil, false
	}
	x = unwrap(x)
	if x.op == OpExtract && x.n == 0 && x.args[0].op == OpCall && x.args[0].str == "storage.Get" {
		return x.args[0].args[2], x.args[0], true
	}
	return nil, nil, false
}

// isSTHSize: x is the tree size of the published tree head.
func isSTHSize(x *Sym) bool {
	if x == nil || x.op != OpField || x.str != "TreeSize" {
		return false
	}
	u := find(x, func(s *Sym) bool {
		return isCallSym(s, "encoding/json.Unmarshal") || s.op == OpCall && s.str == "encoding/json.Unmarshal"
	})
	if u == nil {
		return false
	}
	k, _, ok := gotKey(u.args[0])
	return ok && isStr(k, keySTH)
}

// sthSizes lists the published sizes the facts on the way to n speak about.
func sthSizes(g *Graph, n *Node) []*Sym {
	var out []*Sym
	seen := map[*Sym]bool{}
	for c := range must(g).at(n).facts {
		mentions(c, func(s *Sym) bool {
			if isSTHSize(s) && !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
			return false
		}, map[*Sym]bool{})
	}
	return out
}

// tileFields spells a tile value: height, level, number, width.
func tileFields(t *Sym) (f [4]*Sym, ok bool) {
	for i, n := range []string{"H", "L", "N", "W"} {
		f[i] = fieldByName(t, n)
		if f[i] == nil {
			return f, false
		}
	}
	return f, true
}

// tileForLeaf: n is the number of the level-0 tile holding leaf i.
func tileNOfLeaf(n *Sym) *Sym {
	if n != nil && n.op == OpField && n.str == "N" && isCallSym(n.args[0], "tlog.TileForIndex") {
		k := n.args[0]
		if isCallSym(k.args[1], "tlog.StoredHashIndex") && k.args[1].args[0].isInt(0) {
			return k.args[1].args[1]
		}
	}
	return nil
}

func isCallEv(ev *Event, name string) bool { return isCall(ev, name) }

// replies: the nodes that put something on the wire.
func isWrite(ev *Event) bool {
	return ev != nil && ev.Kind == EvCall && strings.HasSuffix(ev.Name, "ResponseWriter).Write") && len(ev.Args) == 2
}
func isWriteHeader(ev *Event) bool {
	return ev != nil && ev.Kind == EvCall && strings.HasSuffix(ev.Name, "ResponseWriter).WriteHeader") && len(ev.Args) == 2
}
func isHTTPError(ev *Event) bool {
	return ev != nil && ev.Kind == EvCall && (strings.HasSuffix(ev.Name, "net/http.Error") || ev.Name == "http.Error" || strings.HasSuffix(ev.Name, "/fsthttp.Error")) && len(ev.Args) == 3
}

// replyCode: the status code a node sends.
func replyCode(ev *Event) (int64, bool) {
	if isWriteHeader(ev) {
		return ev.Args[1].intVal()
	}
	if isHTTPError(ev) {
		return ev.Args[2].intVal()
	}
	return 0, false
}

// successReplies: the nodes that write a non-empty body.
func successReplies(h *Handler) []*Node {
	var out []*Node
	rs := reachable(h.From, nil)
	for _, n := range h.G.Nodes {
		if rs[n] && isWrite(n.Ev) && !isEmptySlice(unwrap(n.Ev.Args[1])) {
			out = append(out, n)
		}
	}
	return out
}

// jsonBody: the value marshalled to produce a body.
func jsonBody(x *Sym) *Sym {
	x = unwrap(x)
	if x.op == OpExtract && x.n == 0 && x.args[0].op == OpCall && strings.HasPrefix(x.args[0].str, "encoding/json.Marshal") {
		return unwrap(x.args[0].args[0])
	}
	return nil
}

func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// monitorHandlers lists the read-side handlers of both programs.
func (w *World) monitorHandlers() []*Handler {
	return append(append([]*Handler(nil), w.handlers(w.monitor())...), w.fastlyHandlers()...)
}

// sameHash: x is element idx of base, as bytes.
func isElem(x, base, idx *Sym) bool {
	x = unwrap(x)
	if x.op == OpSnapSlice || x.op == OpSlice {
		if (x.args[1] == nil || x.args[1].isInt(0)) && (x.args[2] == nil || x.args[2].isInt(32)) {
			x = unwrap(x.args[0])
		}
	}
	if x.op == OpLoad {
		a := x.args[0]
		return a.op == OpElemAddr && a.args[0] == base && a.args[1] == idx
	}
	if x.op == OpElemAddr {
		return x.args[0] == base && x.args[1] == idx
	}
	return x.op == OpIndex && x.args[0] == base && x.args[1] == idx
}

// proofList: x lists the hashes of the proof, in order.
func (w *World) proofList(g *Graph, n *Node, x, proof *Sym) string {
	m, why := w.mappedOf(g, x)
	if m == nil {
		return why
	}
	if m.over != proof {
		return "the list is built from " + short(m.over)
	}
	for _, e := range m.elems {
		if !isElem(e, m.over, m.idx) {
			return "an element is " + short(e) + ", not the proof's element"
		}
	}
	if m.complete(n) != nil {
		return "the reply can be sent before the whole proof was copied"
	}
	return ""
}

// hashReaderOK: the callback returns, for every index, the hash found in the
// tile holding that index.
func (w *World) hashReaderOK(g *Graph) string {
	if len(g.Fn.Params) != 1 {
		return "not a hash reader: " + g.Fn.String()
	}
	n := 0
	for _, r := range evNodes(g, func(e *Event) bool { return e.Kind == EvReturn }) {
		if len(r.Ev.Raw) != 2 || knownNonNil(r.Ev.Raw[1]) || r.st.eval(Eq(r.Ev.Raw[1], Nil(nil))) == 0 {
			continue
		}
		n++
		x := r.Ev.Raw[0]
		if x.op == OpMakeSlice {
			x = r.Ev.Args[0]
		}
		m, why := w.mappedOf(g, x)
		if m == nil {
			return why
		}
		if m.over.op != OpParam {
			return "the hashes returned are not those asked for"
		}
		for _, e := range m.elems {
			if y := tileHash(e, m.over, m.idx); y != "" {
				return y
			}
		}
		if m.complete(r) != nil {
			return "the reader can return before every hash was read"
		}
	}
	if n == 0 {
		return "the reader never succeeds"
	}
	return ""
}

// tileHash: e is HashFromTile(T, contents of T, indexes[idx]).
func tileHash(e, over, idx *Sym) string {
	e = unwrapConv(e)
	if e.op != OpExtract || e.n != 0 || !isCallSym(e.args[0], "tlog.HashFromTile") {
		return "a hash is " + short(e)
	}
	k := e.args[0]
	if !isElem(k.args[2], over, idx) {
		return "the hash at another index is returned: " + short(k.args[2])
	}
	t, ok := tileFields(k.args[0])
	if !ok {
		return "unrecognised tile " + short(k.args[0])
	}
	for i, n := range []string{"H", "L", "N"} {
		f := t[i]
		if i == 0 && f.isInt(8) {
			continue
		}
		if !(f.op == OpField && f.str == n && isCallSym(f.args[0], "tlog.TileForIndex") && f.args[0].args[0].isInt(8) && isElem(f.args[0].args[1], over, idx)) {
			return "the hash is taken from another tile: " + n + " is " + short(f)
		}
	}
	return tileBytes(k.args[1], t)
}

// tileBytes: x is what storage holds for the tile (at full width or at its own).
func tileBytes(x *Sym, t [4]*Sym) string {
	key, _, ok := gotKey(x)
	if !ok || !isPathKey(key) {
		return "the tile's contents are " + short(x)
	}
	s, ok := tileFields(tileOf(unwrapConv(key)))
	if !ok {
		return "unrecognised tile " + short(key)
	}
	for i, n := range []string{"height", "level", "number"} {
		if s[i] != t[i] && !(i == 0 && (s[i].isInt(8) || t[i].isInt(8))) {
			return fmt.Sprintf("the contents are those of another tile: %s %s instead of %s", n, short(s[i]), short(t[i]))
		}
	}
	if s[3] != t[3] && !s[3].isInt(256) {
		return "the contents are those of a tile of another width: " + short(s[3])
	}
	return ""
}

// proofCalls: the proof computations reachable in a handler.
func proofCalls(h *Handler, name string) []*Node {
	rs := reachable(h.From, nil)
	var out []*Node
	for _, n := range h.G.Nodes {
		if rs[n] && isCall(n.Ev, name) {
			out = append(out, n)
		}
	}
	return out
}

const (
	epSTH         = "/ct/v1/get-sth"
	epConsistency = "/ct/v1/get-sth-consistency"
	epProof       = "/ct/v1/get-proof-by-hash"
	epEntries     = "/ct/v1/get-entries"
	epRoots       = "/ct/v1/get-roots"
	epEntryProof  = "/ct/v1/get-entry-and-proof"
)

// recordLookup: at n, idx bytes were read from the record of the file whose
// hash equals want. R is the record size; val lists the bytes read at offset 16.
type lookup struct {
	file *Sym      // the file's bytes
	key  *Sym      // its storage key
	off  *Sym      // offset of the record
	walk *LoopInfo // the loop that cuts the records off the front
}

// recordAt recognises the little-endian number at byte o (relative to a record)
// of length n in a file.
func recordAt(x *Sym, o, n int64) (*lookup, string) {
	x = unwrapConv(x)
	if x.op != OpCompose {
		return nil, "not a number read from a record: " + short(x)
	}
	var L *lookup
	for i, b := range x.args {
		if int64(i) >= n {
			if !b.isInt(0) {
				return nil, "the number has more bytes than the record stores"
			}
			continue
		}
		if b.op != OpLoad || b.args[0].op != OpElemAddr {
			return nil, "byte " + itoa(i) + " is " + short(b)
		}
		base, at := b.args[0].args[0], b.args[0].args[1]
		off := Sub(at, CInt(o+int64(i)))
		if L == nil {
			key, _, ok := gotKey(base)
			if !ok && base.op != OpPhi && base.op != OpWCell {
				return nil, "read from " + short(base)
			}
			L = &lookup{file: base, key: key, off: off}
		} else if L.file != base || L.off != off {
			return nil, "bytes are not consecutive: " + short(b)
		}
	}
	if int64(len(x.args)) < n || L == nil {
		return nil, "not enough bytes"
	}
	return L, ""
}

// resolve: the records can also be cut off the front of the file one after the other.
func (L *lookup) resolve(g *Graph, R int64) string {
	if L.key != nil {
		return ""
	}
	_, li := findLoop(g, L.file)
	if li == nil || !L.off.isInt(0) {
		return "read from " + short(L.file)
	}
	for _, h := range li.Heads {
		iv := h.Init[L.file]
		key, _, ok := gotKey(iv)
		if !ok || L.key != nil && L.key != key {
			return "read from " + short(L.file)
		}
		L.key = key
	}
	for _, b := range li.Backs {
		v := b.Vals[L.file]
		if v == nil || v.op != OpSlice || v.args[0] != L.file || v.args[1] == nil || !v.args[1].isInt(R) || v.args[2] != nil && v.args[2] != Len(L.file) {
			return "the scan does not advance by one record of " + itoa(int(R)) + " bytes"
		}
	}
	L.walk = li
	return ""
}

// hashMatched: at n it is known that the record's hash equals h.
func (L *lookup) hashMatched(g *Graph, n *Node, h func(*Sym) bool) bool {
	is := func(x *Sym) bool {
		x = unwrap(x)
		if x.op == OpSlice || x.op == OpSnapSlice {
			lo := x.args[1]
			if lo == nil {
				lo = CInt(0)
			}
			return unwrap(x.args[0]) == unwrap(L.file) && lo == L.off && x.args[2] != nil && Sub(x.args[2], lo).isInt(16)
		}
		if x.op == OpArray && len(x.args) == 17 {
			for k := int64(0); k < 16; k++ {
				y := x.args[1+k]
				if y.op != OpLoad || y.args[0].op != OpElemAddr || y.args[0].args[0] != L.file || Sub(y.args[0].args[1], CInt(k)) != L.off {
					return false
				}
			}
			return true
		}
		return false
	}
	for c, v := range must(g).at(n).facts {
		c, v := normFact(Fact{c, v})
		if !v || (c.op != OpCall && c.op != OpEq) || len(c.args) < 2 {
			continue
		}
		if c.op == OpCall && c.str != "bytes.Equal" {
			if c.str != "bytes.Compare" {
				continue
			}
		}
		if is(c.args[0]) && h(c.args[1]) || is(c.args[1]) && h(c.args[0]) {
			return true
		}
	}
	return false
}

// scanAll: off starts at 0, advances by R each iteration and the loop only ends
// when fewer than R bytes remain; target is not reachable otherwise.
func (L *lookup) scanAll(g *Graph, R int64, hit edgePred, miss func(*Node) bool) string {
	if L.walk != nil {
		g2, _ := findLoop(g, L.file)
		ex := edgesWhere(g2, func(n *Node, e *Edge) bool {
			return edgeFact(e, Le(CInt(R), Len(L.file)), false) || edgeFact(e, Lt(CInt(0), Len(L.file)), false) || edgeFact(e, EqI(Len(L.file), CInt(0)), true)
		})
		if p := search(L.walk.Heads, anyOf(ex.pred(), hit), miss); p != nil {
			return "the scan can give up before the last record"
		}
		return ""
	}
	var phi *Sym
	for p := range toLin(L.off).t {
		if p.op == OpPhi || p.op == OpWCell {
			if phi != nil {
				return "unrecognised record offset " + short(L.off)
			}
			phi = p
		}
	}
	if phi == nil {
		return "the record offset is not driven by a loop: " + short(L.off)
	}
	g2, li := findLoop(g, phi)
	if li == nil {
		return "no loop over the records"
	}
	for _, h := range li.Heads {
		iv := h.Init[phi]
		if iv == nil || !substitute(L.off, map[*Sym]*Sym{phi: iv}).isInt(0) {
			return "the scan does not start at the first record"
		}
	}
	for _, b := range li.Backs {
		v := b.Vals[phi]
		if v == nil || !Sub(substitute(L.off, map[*Sym]*Sym{phi: v}), L.off).isInt(R) {
			return "the scan does not advance by one record of " + itoa(int(R)) + " bytes"
		}
	}
	ln := Len(L.file)
	ex := edgesWhere(g2, func(n *Node, e *Edge) bool {
		if edgeFact(e, Lt(L.off, ln), false) || edgeFact(e, Le(Add(L.off, CInt(R)), ln), false) {
			return true
		}
		for _, f := range e.Facts {
			c, v := normFact(f)
			if v || c.op != OpLe0 {
				continue
			}
			// i < len/R
			q := find(c, func(s *Sym) bool { return s.op == OpBin && s.str == "/" && s.args[0] == ln && s.args[1].isInt(R) })
			if q != nil && Lt(phi, q) == c && L.off == Bin2Mul(phi, R) {
				return true
			}
		}
		return false
	})
	if len(ex) == 0 {
		return "the loop's end is not tied to the number of records"
	}
	if p := search(li.Heads, anyOf(ex.pred(), hit), miss); p != nil {
		return "the scan can give up before the last record"
	}
	return ""
}

func Bin2Mul(p *Sym, k int64) *Sym { return fromLin(linScale(toLin(p), k), p.typ) }
