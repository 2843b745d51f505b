package main

import (
	"sort"
	"strings"
)

// --- C22: the API is served where RFC 6962 puts it --------------------------------------

var routeTypes = map[string]string{
	epConsistency: "GetSTHConsistencyResponse", epProof: "GetProofByHashResponse", epEntries: "GetEntriesResponse",
	epEntryProof: "GetEntryAndProofResponse", "/ct/v1/add-chain": "AddChainResponse", "/ct/v1/add-pre-chain": "AddChainResponse",
}

func init() {
	register("C22", func(c *Check) {
		hs := append(append([]*Handler(nil), c.monitorH()...), c.submitH()...)
		n := 0
		count := map[string]int{}
		for _, h := range hs {
			edge := strings.HasPrefix(h.Label, "edge ")
			if !edge {
				want := "GET "
				if strings.Contains(h.Path, "/add-") {
					want = "POST "
				}
				if strings.HasPrefix(h.Path, "/ct/v1/") {
					count[h.Path]++
					if h.Pattern != want+h.Path {
						c.bad("route", h.Label, c.at(h.At), "the route is registered as %q", h.Pattern)
					} else {
						c.ok("route", h.Label, c.at(h.At))
					}
				}
			}
			// what answers it
			for _, w := range successReplies(h) {
				body := w.Ev.Args[1]
				got, want := "", routeTypes[h.Path]
				if S := jsonBody(body); S != nil {
					got = typeName(S.typ)
				} else if k, _, ok := gotKey(body); ok {
					got = short(k)
				} else {
					got = short(body)
				}
				switch h.Path {
				case epSTH, epRoots:
					want = `"` + strings.TrimPrefix(h.Path, "/") + `"`
				}
				if want == "" {
					continue
				}
				n++
				if got != want {
					c.bad("answer", h.Label, c.at(w), "the route answers with %s instead of %s", got, want)
				} else {
					c.ok("answer", h.Label, c.at(w))
				}
				// content type
				if !edge {
					c.contentType(h, w)
				}
			}
		}
		c.need(n, 12, "answer", "successful replies")
		for _, p := range sortedStr(count) {
			if count[p] > 1 {
				c.bad("route", p, "?", "the route is registered %d times", count[p])
			}
		}
		// the routes are served: http.Serve gets a handler around the mux they are registered on
		for _, g := range []*Graph{c.w.monitor(), c.w.submit()} {
			c.served(g)
		}
		c.edgeMethods()
	})
}

func sortedStr(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// contentType: the reply is declared as JSON before its status is sent.
func (c *Check) contentType(h *Handler, w *Node) {
	set := func(m *Node, e *Edge) bool {
		ev := e.To.Ev
		return ev != nil && ev.Kind == EvCall && strings.HasSuffix(ev.Name, "http.Header).Set") && len(ev.Args) > 2 &&
			find(ev.Args[1], func(s *Sym) bool { v, ok := s.strVal(); return ok && strings.EqualFold(v, "content-type") }) != nil && isStr(ev.Args[2], "application/json")
	}
	if p := search(h.From, set, func(n *Node) bool { return n == w }); p != nil {
		c.add(false, "content-type", h.Label, c.at(w), "the answer is not declared as JSON", c.path(p)...)
	} else {
		c.ok("content-type", h.Label, c.at(w))
	}
}

// served: the program's listener serves the mux on which the routes are.
func (c *Check) served(g *Graph) {
	if g == nil {
		return
	}
	n := 0
	for _, gg := range closureGraphs(g) {
		muxes := map[*Sym]bool{}
		for _, x := range evNodes(gg, func(e *Event) bool {
			return e.Kind == EvCall && (strings.HasSuffix(e.Name, "net/http.ServeMux).Handle") || strings.HasSuffix(e.Name, "net/http.ServeMux).HandleFunc"))
		}) {
			muxes[unwrapConv(x.Ev.Raw[0])] = true
		}
		for _, x := range evNodes(gg, func(e *Event) bool {
			return e.Kind == EvCall && (strings.HasSuffix(e.Name, "http.Serve") || strings.HasSuffix(e.Name, "http.Server).Serve"))
		}) {
			n++
			if gg != g {
				continue
			}
			cons := g.Fn.Pkg.Pkg.Name() + ": served handler"
			served := find(I.mk(Sym{op: OpTuple, args: x.Ev.Args}, ""), func(s *Sym) bool { return muxes[s] })
			if served == nil {
				c.bad("served", cons, c.at(x), "the handler served is %s, which none of the routes are registered on", short(x.Ev.Args[len(x.Ev.Args)-1]))
				continue
			}
			// every registration precedes it
			missing := false
			for _, r := range evNodes(gg, func(e *Event) bool {
				return e.Kind == EvCall && strings.HasSuffix(e.Name, "net/http.ServeMux).Handle")
			}) {
				pat, _ := r.Ev.Raw[1].strVal()
				same := func(m *Node, e *Edge) bool {
					if e.To.Ev == nil || e.To.Ev.Name != r.Ev.Name || unwrapConv(e.To.Ev.Raw[0]) != served {
						return false
					}
					q, ok := e.To.Ev.Raw[1].strVal()
					return ok && q == pat
				}
				if p := search([]*Node{g.Entry}, same, func(m *Node) bool { return m == x }); p != nil {
					c.add(false, "served", cons+": "+pat, c.at(x), "the listener can be served without the route", c.path(p)...)
					missing = true
				}
			}
			if !missing {
				c.ok("served", cons, c.at(x))
			}
		}
	}
	c.need(n, 1, "served", g.Fn.Pkg.Pkg.Name()+": calls serving the listener")
}

// edgeMethods: the edge answers no request that is not a read.
func (c *Check) edgeMethods() {
	g := c.w.root("internal/ctmonitor", "", "FastlyServe")
	if g == nil {
		c.bad("anchor", "FastlyServe", "?", "not found")
		return
	}
	c.use(g)
	methods := map[string]bool{"POST": true, "PUT": true, "PATCH": true, "DELETE": true}
	isM := func(s *Sym) bool {
		return s.op == OpFieldAddr && s.str == "Method" || s.op == OpField && s.str == "Method"
	}
	for _, h := range c.w.fastlyHandlers() {
		bad := false
		for _, f := range h.From {
			for m := range methods {
				// a path on which the method is not known to differ
				blk := func(x *Node, e *Edge) bool {
					for _, fc := range e.Facts {
						q, v := normFact(fc)
						if q.op != OpEq || find(q, isM) == nil {
							continue
						}
						for k := 0; k < 2; k++ {
							if s, ok := q.args[k].strVal(); ok && (!v && s == m || v && s != m) {
								return true
							}
						}
					}
					return false
				}
				if p := search([]*Node{g.Entry}, blk, func(n *Node) bool { return n == f }); p != nil {
					c.add(false, "method", h.Label, c.at(f), "a "+m+" request is answered", c.path(p)...)
					bad = true
					break
				}
			}
		}
		if !bad {
			c.ok("method", h.Label, c.at(h.At))
		}
	}
}
