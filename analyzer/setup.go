package main

import (
	"go/types"
	"sort"
	"strings"
)

// C30: what the setup program stores.

// canon renders a value made from a configuration without the sites it was made at,
// so that values made in two programs can be compared.
func canon(st *State, x *Sym, cfg *Sym, d int) string {
	if x == nil {
		return "_"
	}
	if d > 12 {
		return "…"
	}
	if x.op == OpField && unwrapLoad(x.args[0]) == cfg {
		return "cfg." + x.str
	}
	if x.op == OpLoad && x.args[0].op == OpFieldAddr && (x.args[0].args[0] == cfg || unwrapLoad(x.args[0].args[0]) == cfg) {
		return "cfg." + x.args[0].str
	}
	switch x.op {
	case OpConst, OpNil:
		return short(x)
	case OpIface, OpConv, OpCopyOf:
		return canon(st, x.args[0], cfg, d+1)
	case OpAlloc:
		if p, ok := x.typ.Underlying().(*types.Pointer); ok {
			return "&" + canon(st, st.load(x, p.Elem()), cfg, d+1)
		}
	}
	var as []string
	for _, a := range x.args {
		as = append(as, canon(st, a, cfg, d+1))
	}
	name := x.str
	if x.op == OpStruct {
		name = typeName(x.typ)
	}
	return name + "(" + strings.Join(as, ",") + ")"
}

// cfgOf: the configuration a storage object is made from.
func cfgOf(st *State, x *Sym) *Sym {
	var cfg *Sym
	look := func(s *Sym) bool {
		var b *Sym
		if s.op == OpField && s.str == "RootDirectory" {
			b = unwrapLoad(s.args[0])
		}
		if s.op == OpLoad && s.args[0].op == OpFieldAddr && s.args[0].str == "RootDirectory" {
			b = unwrapLoad(s.args[0].args[0])
		}
		if b != nil && (cfg == nil || cfg == b) {
			cfg = b
		}
		return false
	}
	for f := range st.facts {
		mentions(f, look, map[*Sym]bool{})
	}
	return cfg
}

// backend names the storage an event works on.
func backend(g *Graph, n *Node) (string, *Sym) {
	st := must(g).at(n)
	cfg := cfgOf(st, nil)
	if cfg == nil {
		return "", nil
	}
	local := ""
	for f, v := range st.facts {
		f, v := normFact(Fact{f, v})
		if find(f, func(s *Sym) bool {
			return s.op == OpField && s.str == "RootDirectory" || s.op == OpFieldAddr && s.str == "RootDirectory"
		}) == nil {
			continue
		}
		switch {
		case f.op == OpEq || f.op == OpEq0:
			if v {
				local = "s3: "
			} else {
				local = "local: "
			}
		case f.op == OpLe0 && v && local == "":
			local = "local: "
		}
	}
	r := unwrap(n.Ev.Raw[0])
	if p, ok := r.typ.(*types.Pointer); ok && r.op == OpAlloc {
		return local + canon(n.st, n.st.load(r, p.Elem()), cfg, 0), cfg
	}
	return local + canon(n.st, r, cfg, 0), cfg
}

func init() {
	register("C30", func(c *Check) {
		g := c.w.root("internal/ctsetup", "", "MainMain")
		if g == nil {
			c.bad("anchor", "setup", "?", "the setup program's entry point was not found")
			return
		}
		c.use(g)
		at := func(n *Node) string { return c.at(n) }
		if len(closureGraphs(g)) > 0 {
			for _, t := range closureGraphs(g) {
				if t == g {
					continue
				}
				for _, n := range t.Nodes {
					if isStorage(n.Ev, "Set") {
						c.bad("stored", "concurrent upload", at(n), "an object is stored by a concurrent task")
					}
				}
			}
		}
		// the storage the log itself uses
		want := map[string]bool{}
		if sub := c.w.submit(); sub != nil {
			c.use(sub)
			for _, n := range sub.Nodes {
				if n.Ev != nil && n.Ev.Kind == EvStorage {
					if b, cfg := backend(sub, n); cfg != nil {
						want[b] = true
					}
				}
			}
		}
		c.need(len(want), 2, "anchor", "storage backends of the log")
		kinds := map[string][]*Node{}
		var cfgs []*Sym
		for _, n := range g.Nodes {
			if n.Ev == nil || n.Ev.Kind != EvStorage {
				continue
			}
			b, cfg := backend(g, n)
			if cfg == nil || !want[b] {
				var ws []string
				for w := range want {
					ws = append(ws, w)
				}
				sort.Strings(ws)
				c.bad("backend", n.Ev.Name, at(n), "the storage used is %s, the log uses %s", b, strings.Join(ws, " or "))
			} else {
				c.ok("backend", n.Ev.Name+" "+strings.SplitN(b, ":", 2)[0], at(n))
				cfgs = append(cfgs, cfg)
			}
			if n.Ev.Name != "Set" {
				continue
			}
			k, _ := unwrap(n.Ev.Args[2]).strVal()
			kinds[k] = append(kinds[k], n)
			if k != keySTH && k != "ct/v1/get-roots" {
				c.bad("stored", "unexpected object", at(n), "another object is stored: %s", short(n.Ev.Args[2]))
			}
		}
		var puts []*Node
		for _, n := range evNodes(g, func(e *Event) bool {
			return e.Kind == EvCall && strings.Contains(e.Name, "consul/api.KV).")
		}) {
			if strings.HasSuffix(n.Ev.Name, "KV).Put") {
				puts = append(puts, n)
			} else if !strings.HasSuffix(n.Ev.Name, "KV).Get") {
				c.bad("config", "consul", at(n), "%s changes what is configured", n.Ev.Name)
			}
		}
		if !c.need(len(kinds[keySTH]), 1, "anchor", "tree head uploads") || !c.need(len(kinds["ct/v1/get-roots"]), 1, "anchor", "roots uploads") || !c.need(len(puts), 1, "anchor", "configuration uploads") {
			return
		}
		for _, n := range kinds["ct/v1/get-roots"] {
			if why := c.setupRoots(g, n); why != "" {
				c.bad("roots", "get-roots", at(n), "%s", why)
			} else {
				c.ok("roots", "get-roots lists the certificates of the file", at(n))
			}
		}
		for _, n := range puts {
			if why := c.setupConfig(g, n, cfgs); why != "" {
				c.bad("config", "configuration", at(n), "%s", why)
			} else {
				c.ok("config", "the configuration given is stored where the log reads it", at(n))
			}
		}
		for _, n := range kinds[keySTH] {
			if why := c.setupHead(g, n); why != "" {
				c.bad("head", "get-sth", at(n), "%s", why)
			} else {
				c.ok("head", "an empty tree, signed with the key given", at(n))
			}
			// last, and not over another one
			ex := false
			for _, e := range evNodes(g, func(e *Event) bool { return isStorage(e, "Exists") }) {
				if k, _ := unwrap(e.Ev.Args[2]).strVal(); k == keySTH && e.Ev.Raw[0] == n.Ev.Raw[0] && c.nilKnown(g, n, e.Ev.Res) && knownFalse(g, n, Extract(e.Ev.Res, 0, types.Typ[types.Bool])) {
					ex = true
				}
			}
			for _, e := range evNodes(g, func(e *Event) bool { return isStorage(e, "Get") }) {
				if k, _ := unwrap(e.Ev.Args[2]).strVal(); k == keySTH && e.Ev.Raw[0] == n.Ev.Raw[0] {
					if nf := notFoundOf(e.Ev); nf != nil && known(g, n, nf) {
						ex = true
					}
				}
			}
			if ex {
				c.ok("not-again", "a tree head that exists is not replaced", at(n))
			} else {
				c.bad("not-again", "get-sth", at(n), "the tree head of a log that exists can be replaced by that of an empty tree")
			}
			done := func(ns []*Node) edgePred {
				return func(m *Node, e *Edge) bool {
					for _, p := range ns {
						if edgeNil(e, errOf(p.Ev)) {
							return true
						}
					}
					return false
				}
			}
			for _, q := range []struct {
				what string
				ns   []*Node
			}{{"roots", kinds["ct/v1/get-roots"]}, {"configuration", puts}} {
				if p := search([]*Node{g.Entry}, done(q.ns), isNode([]*Node{n})); p != nil {
					c.add(false, "last", "get-sth before the "+q.what, at(n), "the tree head is stored although the "+q.what+" may not have been", c.path(p)...)
				} else {
					c.ok("last", "the "+q.what+" are stored before the tree head", at(n))
				}
			}
		}
		// success means all of it was done
		stored := edgesWhere(g, func(m *Node, e *Edge) bool {
			for _, n := range kinds[keySTH] {
				if edgeNil(e, errOf(n.Ev)) {
					return true
				}
			}
			return false
		})
		if p := search([]*Node{g.Entry}, stored.pred(), func(n *Node) bool { return n.Ev != nil && n.Ev.Kind == EvReturn }); p != nil {
			c.add(false, "complete", "success", c.at(p[len(p)-1]), "the program can report success without having stored everything", c.path(p)...)
		} else {
			c.ok("complete", "success is reported only after everything was stored", "")
		}
	})
}

// setupRoots: the object lists the certificates of the root file.
func (c *Check) setupRoots(g *Graph, n *Node) string {
	b := jsonBody(n.Ev.Args[3])
	if b == nil {
		return "the object is not JSON: " + short(n.Ev.Args[3])
	}
	if !c.nilKnown(g, n, unwrap(n.Ev.Args[3]).args[0]) {
		return "the object is stored although encoding it may have failed"
	}
	l := fieldByName(b, "Certificates")
	if l == nil {
		return "the object has no list of certificates: " + short(b)
	}
	if b.typ == nil || !strings.Contains(b.typ.Underlying().String(), `Certificates [][]byte "json:\"certificates\""`) && typeName(b.typ) != "GetRootsResponse" {
		return "the list is not stored as \"certificates\""
	}
	m, why := c.w.mappedOf(g, l)
	if m == nil {
		return "the list of certificates: " + why
	}
	if p := m.complete(n); p != nil {
		return "certificates can be left out"
	}
	for _, e := range m.elems {
		e = unwrap(e)
		ok := false
		if e.op == OpLoad && e.args[0].op == OpFieldAddr && e.args[0].str == "Raw" {
			q := e.args[0].args[0]
			ok = unwrapLoad(q) != nil && find(q, func(s *Sym) bool { return s == m.idx }) != nil && find(q, func(s *Sym) bool { return s == m.over }) != nil
		}
		if !ok {
			return "an element is " + short(e) + ", not the certificate"
		}
	}
	over := unwrap(m.over)
	if !isCallSym(over, "x509util.PEMCertPool).RawCertificates") {
		return "the certificates are " + short(over)
	}
	pool := over.args[0]
	for _, a := range evNodes(g, func(e *Event) bool {
		return e.Kind == EvCall && strings.HasSuffix(e.Name, "x509util.PEMCertPool).AppendCertsFromPEMFile")
	}) {
		if a.Ev.Args[0] == pool && a.Ev.Args[1].op == OpParam && a.Ev.Args[1].str == g.Fn.Params[3].Name() && c.nilKnown(g, n, a.Ev.Res) {
			return ""
		}
	}
	return "the certificates are not those of the root file, read successfully"
}

func (c *Check) setupConfig(g *Graph, n *Node, cfgs []*Sym) string {
	kv := unwrap(n.Ev.Args[1])
	if kv.op != OpStruct {
		return "what is stored is " + short(kv)
	}
	ps := strParts(fieldByName(kv, "Key"))
	if len(ps) != 2 || ps[0].op != OpParam || ps[0].str != g.Fn.Params[2].Name() || !isStr(ps[1], "/config") {
		return "the configuration is stored under " + short(fieldByName(kv, "Key"))
	}
	b := jsonBody(fieldByName(kv, "Value"))
	if b == nil || b.op != OpParam || typeName(b.typ) != "GlobalConfig" {
		return "what is stored is not the JSON of the configuration given: " + short(fieldByName(kv, "Value"))
	}
	for _, x := range cfgs {
		if x != b {
			return "the configuration stored is not the one used"
		}
	}
	return ""
}

func (c *Check) setupHead(g *Graph, n *Node) string {
	h, why := sthHead(n)
	if why != "" {
		return why
	}
	if !isZeroOrInt(h.size, 0) {
		return "the tree head is of size " + short(h.size)
	}
	r := stripBytes(h.root)
	if !isCallSym(r, "crypto/sha256.Sum256") || !isEmptyBytes(r.args[0]) {
		return "the root hash is " + short(h.root) + ", not that of the empty tree"
	}
	t := unwrapConv(h.ts)
	if t.op != OpCall || t.str != "(time.Time).UnixMilli" || !isCallSym(unwrap(t.args[0]), "time.Now") {
		return "the timestamp is " + short(h.ts)
	}
	// the key is that in the file given
	k := unwrap(h.key)
	if k.op != OpExtract || k.n != 0 || !strings.HasSuffix(k.args[0].str, "x509.ParseECPrivateKey") || !c.nilKnown(g, n, k.args[0]) {
		return "the key is " + short(k)
	}
	rd := find(k.args[0].args[0], func(s *Sym) bool { return isCallSym(s, "os.ReadFile") })
	pd := find(k.args[0].args[0], func(s *Sym) bool { return isCallSym(s, "encoding/pem.Decode") })
	if rd == nil || pd == nil || rd.args[0].op != OpParam || rd.args[0].str != g.Fn.Params[4].Name() || !c.nilKnown(g, n, rd) {
		return "the key is not read from the file given: " + short(k)
	}
	if !c.nilKnown(g, n, unwrap(n.Ev.Args[3]).args[0]) {
		return "the object is stored although encoding it may have failed"
	}
	return ""
}

func isEmptyBytes(x *Sym) bool {
	x = unwrap(x)
	if s, ok := x.strVal(); ok {
		return s == ""
	}
	return isEmptySlice(x)
}
