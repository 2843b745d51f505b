package main

import (
	"go/types"
	"strings"
)

// C36: the edge keeps the objects of different logs apart, and keeps them as long as
// the backend says.

// storeField: the place of a field of the struct the pointer p points to.
func storeField(p *Sym, name string) (*Sym, types.Type) {
	if p == nil || p.typ == nil {
		return nil, nil
	}
	pt, ok := p.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return FieldAddr(p, i, name, st.Field(i).Type()), st.Field(i).Type()
		}
	}
	return nil, nil
}

// isSendTo: the second argument of fsthttp's Send.
func isSend(e *Event) bool { return isCall(e, "fsthttp.Request).Send") }

func init() {
	register("C36", func(c *Check) {
		serve := c.w.root("internal/ctmonitor", "", "FastlyServe")
		if serve == nil {
			c.need(0, 1, "anchor", "the edge program's request handler")
			return
		}
		c.use(serve)
		var get, avail *Graph
		typ := ""
		for _, m := range c.w.storageImpls() {
			if m.name != "Get" {
				continue
			}
			for _, g := range closureGraphs(m.g) {
				if len(evNodes(g, isSend)) > 0 {
					get, typ = m.g, m.typ
				}
			}
		}
		for _, m := range c.w.storageImpls() {
			if m.typ == typ && strings.Contains(m.name, "AvailableReqs") {
				avail = m.g
			}
		}
		if get == nil || avail == nil {
			c.need(0, 1, "anchor", "the edge program's storage backend")
			return
		}
		c.use(get, avail)
		e := &edge{c: c, get: get}
		if !e.names() {
			return
		}
		e.requests()
		e.ttl()
		e.budget(avail)
		e.perRequest(serve)
	})
}

type edge struct {
	c    *Check
	get  *Graph
	back *Sym // the field holding the backend, as read when a request comes in
	name string
}

// all: the requests made anywhere in Get, with their graph.
func (e *edge) each(pred func(*Event) bool, f func(g *Graph, n *Node)) int {
	k := 0
	for _, g := range closureGraphs(e.get) {
		for _, n := range evNodes(g, pred) {
			k++
			f(g, n)
		}
	}
	return k
}

// fieldOfStore: x is what a string field of the backend object held at the start.
func (e *edge) fieldOfStore(x *Sym) (string, bool) {
	p, ok := loadPlace(unwrap(x))
	if !ok || p.idx != nil || p.base.op != OpParam || len(p.fields) != 1 || p.base != param(e.get, 0) {
		return "", false
	}
	return p.last(), true
}

// names: the backend asked, the address asked for and the name in the edge cache.
func (e *edge) names() bool {
	c := e.c
	k := e.each(isSend, func(g *Graph, n *Node) {
		b := n.Ev.Args[2]
		name, ok := e.fieldOfStore(b)
		if !ok || e.name != "" && e.name != name {
			c.bad("backend", c.fnAt(n), c.at(n), "the request is sent to %s and not to the backend of the log", short(b))
			return
		}
		e.name, e.back = name, unwrap(b)
		c.ok("backend", c.fnAt(n), c.at(n))
		if r := unwrap(n.Ev.Args[0]); r.op == OpExtract && isCallSym(r.args[0], "fsthttp.NewRequest") {
			u := strParts(r.args[0].args[1])
			// scheme, the backend, a slash, the key and nothing else
			if len(u) != 4 || !isStr(u[0], "https://") && !isStr(u[0], "http://") || unwrap(u[1]) != e.back || !isStr(u[2], "/") || !isStringParam(u[3]) {
				c.bad("address", c.fnAt(n), c.at(n), "the object is asked for at %s, not under its key at the backend of the log", short(r.args[0].args[1]))
			} else {
				c.ok("address", c.fnAt(n), c.at(n))
			}
		} else {
			c.bad("address", c.fnAt(n), c.at(n), "what is asked for is %s", short(r))
		}
		// the backend's answer itself, not one kept by the cache in between
		if v := e.option(g, n, "Pass"); v == nil || v != CBool(true) {
			c.bad("pass", c.fnAt(n), c.at(n), "the request may be answered from a cache in between, whose entries are kept by other rules")
		} else {
			c.ok("pass", c.fnAt(n), c.at(n))
		}
	})
	if !c.need(k, 1, "anchor", "requests to the backend") || e.back == nil {
		return false
	}
	isCache := func(ev *Event) bool {
		return ev.Kind == EvCall && (strings.Contains(ev.Name, "compute-sdk-go/cache/"))
	}
	k = e.each(isCache, func(g *Graph, n *Node) {
		if !isCall(n.Ev, "cache/simple.GetOrSet") {
			c.bad("cache", c.fnAt(n), c.at(n), "%s is used besides the one lookup", n.Ev.Name)
			return
		}
		ps := strParts(unwrap(n.Ev.Args[0]))
		// ..., the backend, a separator no host name has, the key at the end
		why := ""
		ver := false
		if len(ps) < 2 || !isStringParam(ps[len(ps)-1]) {
			why = "does not end with the whole key"
		} else {
			at := -1
			for i, p := range ps[:len(ps)-1] {
				if isCallSym(p, "os.Getenv") && isStr(p.args[0], "FASTLY_SERVICE_VERSION") {
					ver = true
				}
				if unwrap(p) == e.back {
					at = i
				}
			}
			sep := func(x *Sym) bool {
				s, ok := x.strVal()
				return ok && strings.ContainsAny(s, "/ \n?#|")
			}
			switch {
			case at < 0:
				why = "does not name the backend, so objects of different logs have the same name"
			case at+1 >= len(ps)-1 || !sep(ps[at+1]):
				why = "does not separate the backend from the key"
			case at > 0 && !sep(ps[at-1]):
				why = "does not separate the backend from what is before it"
			case !ver:
				why = "does not contain the version of the service"
			}
		}
		if why != "" {
			c.bad("name", c.fnAt(n), c.at(n), "the name in the edge cache %s: %s", why, short(n.Ev.Args[0]))
		} else {
			c.ok("name", c.fnAt(n), c.at(n))
		}
	})
	return c.need(k, 1, "anchor", "uses of the edge cache")
}

// option: the value of a cache option of the request sent at n.
func (e *edge) option(g *Graph, n *Node, name string) *Sym {
	a, t := storeField(unwrap(n.Ev.Args[0]), "CacheOptions")
	if a == nil {
		return nil
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			// the call does not change the request
			v := n.st.load(FieldAddr(a, i, name, st.Field(i).Type()), st.Field(i).Type())
			return v
		}
	}
	return nil
}

// requests: every request is counted, once, before it is sent.
func (e *edge) requests() {
	c := e.c
	for _, g := range closureGraphs(e.get) {
		for _, n := range evNodes(g, isSend) {
			a, t := storeField(param(e.get, 0), "requests")
			if a == nil {
				c.bad("count", c.fnAt(n), c.at(n), "the number of requests is not kept")
				continue
			}
			v := n.st.load(a, t)
			// the number as it was, or as the cache or an earlier request left it
			was := Sub(v, CInt(1))
			if was.op == OpOut {
				was = LoadSym(was.args[1], nil)
			}
			p, ok := loadPlace(was)
			if !ok || p.base != param(e.get, 0) || p.last() != "requests" {
				c.bad("count", c.fnAt(n), c.at(n), "a request to the backend is not counted once: the number is %s", short(v))
			} else {
				c.ok("count", c.fnAt(n), c.at(n))
			}
		}
	}
}

func (e *edge) budget(avail *Graph) {
	c := e.c
	for _, r := range returnsOf(avail) {
		v := r.Ev.Args[0]
		p, ok := loadPlace(Sub(CInt(10), v))
		if !ok || p.base != param(avail, 0) || p.last() != "requests" {
			c.bad("budget", c.fnAt(r), c.at(r), "the number of requests left is %s", short(v))
		} else {
			c.ok("budget", c.fnAt(r), c.at(r))
		}
	}
}

// ttl: how long an object is kept.
func (e *edge) ttl() {
	c := e.c
	k := 0
	for _, n := range evNodes(e.get, func(ev *Event) bool { return isCall(ev, "cache/simple.GetOrSet") }) {
		for _, t := range n.Ev.tasks() {
			for _, r := range evNodes(t, func(ev *Event) bool { return ev.Kind == EvReturn }) {
				if len(r.Ev.Args) != 2 || knownFalse(t, r, Eq(r.Ev.Args[1], Nil(nil))) {
					continue
				}
				k++
				if why := e.ttlAt(t, r, fieldByName(r.Ev.Args[0], "TTL")); why != "" {
					c.bad("kept", c.fnAt(r), c.at(r), "%s", why)
				} else {
					c.ok("kept", c.fnAt(r), c.at(r))
				}
			}
		}
	}
	c.need(k, 1, "anchor", "objects put in the edge cache")
}

// directive: x is a Cache-Control directive of an answer of the backend.
func (e *edge) header(t *Graph, x *Sym) (h *Sym, resp *Sym) {
	h = find(x, func(y *Sym) bool {
		return isCallSym(y, "fsthttp.Header).Get") && len(y.args) == 2
	})
	if h == nil {
		return nil, nil
	}
	s, ok := h.args[1].strVal()
	if !ok || !strings.EqualFold(s, "cache-control") {
		return nil, nil
	}
	p, ok := loadPlace(h.args[0])
	if !ok || p.last() != "Header" {
		return nil, nil
	}
	return h, p.base
}

func (e *edge) ttlAt(t *Graph, r *Node, ttl *Sym) string {
	c := e.c
	sends := evNodes(t, isSend)
	if len(sends) != 1 {
		return "no single request fetches the object"
	}
	answer := resN(sends[0].Ev, 0)
	// the numbers read on the way
	isNum := func(ev *Event) bool {
		return isCall(ev, "strconv.Atoi") || isCall(ev, "strconv.ParseInt") || isCall(ev, "strconv.ParseUint")
	}
	var good []*Node
	for _, n := range evNodes(t, isNum) {
		if e.maxAge(t, n, answer) == "" {
			good = append(good, n)
		}
	}
	parsed := okEdges(t, good)
	if ttl == nil {
		return "how long the object is kept is not known"
	}
	if v, ok := ttl.intVal(); ok {
		if v != 12*3600*1000000000 {
			return "an object without a max-age is kept for another time than 12 hours: " + short(ttl)
		}
		// only if there is no max-age: no header, or every directive looked at, or not a number
		var from []*Node
		for _, n := range t.Nodes {
			for k := range n.Out {
				if parsed.has(n, &n.Out[k]) {
					from = append(from, n.Out[k].To)
				}
			}
		}
		for _, f := range from {
			if p := search([]*Node{f}, nil, func(x *Node) bool { return x == r }); p != nil || f == r {
				return "an object is kept for 12 hours although its answer has a max-age"
			}
		}
		hs := evNodes(t, func(ev *Event) bool {
			if ev.Kind != EvCall || ev.Res == nil {
				return false
			}
			h, b := e.header(t, ev.Res)
			return h == ev.Res && b == answer
		})
		if len(hs) == 0 {
			return "an object is kept for 12 hours whatever its answer says"
		}
		ends := e.ends(t, answer)
		excuse := func(n *Node, ed *Edge) bool {
			for _, h := range hs {
				if len(ed.Facts) > 0 && edgeSays(ed).eval(EqI(Len(h.Ev.Res), CInt(0))) == 1 {
					return true
				}
			}
			for _, q := range ends {
				if edgeFact(ed, q, false) {
					return true
				}
			}
			// a number that could not be read
			for _, g := range good {
				if errx := errOf(g.Ev); errx != nil && edgeFact(ed, Eq(errx, Nil(nil)), false) {
					return true
				}
			}
			return false
		}
		if p := search(hs, excuse, func(x *Node) bool { return x == r }); p != nil {
			return "an object is kept for 12 hours although not every directive of its answer was looked at (line " + c.at(p[len(p)-1]) + ")"
		}
		if p := search([]*Node{t.Entry}, func(n *Node, ed *Edge) bool {
			for _, h := range hs {
				if ed.To == h {
					return true
				}
			}
			return false
		}, func(x *Node) bool { return x == r }); p != nil {
			return "an object is kept for 12 hours without looking at its answer"
		}
		return ""
	}
	l := toLin(ttl)
	if l.c != 0 || len(l.t) != 1 {
		return "an object is kept for " + short(ttl)
	}
	for x, k := range l.t {
		if k != 1000000000 {
			return "the number of seconds is not turned into a time: " + short(ttl)
		}
		x = unwrap(x)
		for _, n := range good {
			if resN(n.Ev, 0) == x {
				if !established1(t, parsed, n, r) {
					return "an object is kept for a time that could not be read"
				}
				return ""
			}
		}
		return "an object is kept for " + short(x) + " seconds, which is not the max-age of its answer"
	}
	return ""
}

// established1: r is reached only over an edge on which the call at n succeeded.
func established1(t *Graph, ok edgeSet, n, r *Node) bool {
	return search([]*Node{n}, ok.has, func(x *Node) bool { return x == r }) == nil
}

// maxAge: the number read at n is that of a max-age directive of the answer.
func (e *edge) maxAge(t *Graph, n *Node, answer *Sym) string {
	x := unwrap(n.Ev.Args[0])
	var d *Sym
	isP := func(s *Sym) bool { return isStr(s, "max-age=") }
	switch {
	case (x.op == OpSlice || x.op == OpSnapSlice) && x.args[1] != nil && x.args[1].isInt(8) && (x.args[2] == nil || x.args[2] == Len(x.args[0])):
		d = x.args[0]
	case isCallSym(x, "strings.TrimPrefix") && isP(x.args[1]):
		d = x.args[0]
	case x.op == OpExtract && x.n == 0 && isCallSym(x.args[0], "strings.CutPrefix") && isP(x.args[0].args[1]):
		d = x.args[0].args[0]
		if !known(t, n, Extract(x.args[0], 1, types.Typ[types.Bool])) {
			return "not known to be a max-age"
		}
	}
	if d == nil {
		return "the number is not what follows max-age="
	}
	if x.op != OpExtract {
		ok := false
		for q, v := range must(t).at(n).facts {
			q, v := normFact(Fact{q, v})
			if v && isCallSym(q, "strings.HasPrefix") && q.args[0] == d && isP(q.args[1]) {
				ok = true
			}
			if v && q.op == OpExtract && q.n == 1 && isCallSym(q.args[0], "strings.CutPrefix") && q.args[0].args[0] == d && isP(q.args[0].args[1]) {
				ok = true
			}
		}
		if !ok {
			return "the directive is not known to be a max-age"
		}
	}
	if _, b := e.header(t, d); b != answer {
		return "the directive is not one of the answer"
	}
	return e.element(t, d)
}

// element: d is a whole element of the list of directives.
func (e *edge) element(t *Graph, d *Sym) string {
	for d.op == OpConv || isCallSym(d, "strings.TrimSpace") || isCallSym(d, "strings.ToLower") {
		d = d.args[0]
	}
	if isCallSym(d, "fsthttp.Header).Get") {
		return "only the first directive is looked at"
	}
	p, ok := loadPlace(d)
	if !ok || p.idx == nil {
		return "not a directive: " + short(d)
	}
	if _, why := idxCounter(t, p.idx); why != "" {
		return why
	}
	return ""
}

// ends: the conditions that are false when every directive was looked at.
func (e *edge) ends(t *Graph, answer *Sym) []*Sym {
	var out []*Sym
	for _, li := range t.Loops {
		for _, s := range li.Syms {
			for _, off := range []int64{0, 1} {
				idx := Add(s, CInt(off))
				if _, why := idxCounter(t, idx); why != "" {
					continue
				}
				for _, sp := range evNodes(t, func(ev *Event) bool { return isCall(ev, "strings.Split") }) {
					r := sp.Ev.Res
					if h, b := e.header(t, r); h != nil && b == answer && h == unwrap(r.args[0]) && isStr(r.args[1], ",") {
						out = append(out, Lt(idx, Len(r)))
					}
				}
			}
		}
	}
	return out
}

// perRequest: every request has a store of its own, for the backend of its host.
func (e *edge) perRequest(serve *Graph) {
	c := e.c
	k := 0
	seen := map[*Sym]bool{}
	for _, n := range evNodes(serve, func(ev *Event) bool { return ev.Kind == EvStorage }) {
		k++
		s := unwrap(n.Ev.Raw[0])
		if seen[s] {
			continue
		}
		seen[s] = true
		if s.op != OpAlloc {
			c.bad("own", c.fnAt(n), c.at(n), "the store used is not one made for this request: %s", short(s))
			continue
		}
		a, t := storeField(s, e.name)
		b := n.st.load(a, t)
		good := true
		if b.op != OpExtract || b.n != 0 || !isCallSym(b.args[0], "configstore.Store).Get") || !known(serve, n, Eq(Extract(b.args[0], 1, nil), Nil(nil))) && !c.nilKnown(serve, n, b.args[0]) {
			good = c.bad("host", c.fnAt(n), c.at(n), "the backend is %s and not the one configured for the host asked", short(b))
		} else if p, ok := loadPlace(unwrap(b.args[0].args[1])); !ok || p.last() != "Host" || p.base != param(serve, 2) {
			good = c.bad("host", c.fnAt(n), c.at(n), "the backend is that of %s and not of the host asked", short(b.args[0].args[1]))
		}
		// nothing is shared with another request
		if a, t = storeField(s, "cache"); a != nil {
			if m := unwrap(n.st.load(a, t)); m.op != OpMakeMap {
				good = c.bad("own", c.fnAt(n), c.at(n), "what is remembered is kept in %s, not in a map made for this request", short(m))
			}
		}
		if a, t = storeField(s, "requests"); a != nil {
			first := e.firstRead(serve, s)
			if v := first.st.load(a, t); v == nil || !v.isInt(0) {
				good = c.bad("own", c.fnAt(n), c.at(n), "the number of requests does not start at 0: %s", short(v))
			}
		}
		if good {
			c.ok("own", c.fnAt(n), c.at(n))
		}
	}
	c.need(k, 4, "anchor", "reads made for a request at the edge")
	// and no package variable is written on the way
	nw := 0
	for _, root := range []*Graph{serve, e.get} {
		for _, g := range closureGraphs(root) {
			for a, pos := range g.Writes {
				nw++
				x := a
				for x.op == OpFieldAddr || x.op == OpElemAddr {
					x = x.args[0]
				}
				if x.op == OpGlobal {
					c.bad("shared", root.Name, c.e().pos(pos), "a request changes %s, which other requests see", short(a))
				}
			}
		}
	}
	c.need(nw, 1, "anchor", "writes at the edge")
}

// firstRead: the state in which the store is used first.
func (e *edge) firstRead(g *Graph, s *Sym) *Node {
	is := func(n *Node) bool { return n.Ev != nil && n.Ev.Kind == EvStorage && unwrap(n.Ev.Raw[0]) == s }
	p := search([]*Node{g.Entry}, nil, is)
	if p == nil {
		return g.Entry
	}
	if len(p) > 1 && p[len(p)-2].st != nil {
		return p[len(p)-2]
	}
	return p[len(p)-1]
}
