package main

import (
	"strings"
)

// C24: how much of a request is read.

const bodyLimit = 128 * 1024

// requestBody: x is the body of the request that a handler was given.
func requestBody(x *Sym) bool {
	p, ok := loadPlace(unwrap(x))
	return ok && p.last() == "Body" && p.base.op == OpParam && p.base.typ != nil && strings.HasSuffix(p.base.typ.String(), "http.Request")
}

func init() {
	register("C24", func(c *Check) {
		for _, q := range []struct {
			g    *Graph
			what string
		}{{c.w.submit(), "submission server"}, {c.w.monitor(), "monitoring server"}} {
			g := q.g
			if g == nil {
				c.bad("anchor", q.what, "?", "not found")
				continue
			}
			c.use(g)
			n := 0
			for _, gg := range closureGraphs(g) {
				for _, x := range evNodes(gg, func(e *Event) bool {
					return e.Kind == EvCall && (strings.HasSuffix(e.Name, "http.Serve") || strings.HasSuffix(e.Name, "http.Server).Serve") || strings.HasSuffix(e.Name, "http.ListenAndServe") || strings.HasSuffix(e.Name, "http.Server).ListenAndServe"))
				}) {
					if gg != g {
						continue
					}
					n++
					lim := find(I.mk(Sym{op: OpTuple, args: x.Ev.Args}, ""), func(s *Sym) bool {
						return s.op == OpCall && s.str == "net/http.MaxBytesHandler"
					})
					if lim == nil {
						c.bodyReads(g, q.what)
						continue
					}
					v, ok := lim.args[1].intVal()
					if !ok || v != bodyLimit {
						c.bad("limit", q.what, c.at(x), "the limit on request bodies is %s instead of %d", short(lim.args[1]), bodyLimit)
						continue
					}
					c.ok("limit", q.what+": served handler limits request bodies", c.at(x))
				}
			}
			c.need(n, 1, "anchor", "places where the "+q.what+" serves")
		}
		// the edge reads no bodies at all
		for _, h := range c.monitorH() {
			if !strings.HasPrefix(h.Label, "edge ") {
				continue
			}
			for _, g := range closureGraphs(h.G) {
				for _, x := range bodyUses(g) {
					c.bad("limit", h.Label, c.at(x), "the body of the request is read without a limit")
				}
			}
			c.ok("limit", h.Label+" reads no request body", "")
		}
	})
}

// bodyUses: the calls that are given the body of a request, other than to limit
// or close it.
func bodyUses(g *Graph) []*Node {
	var out []*Node
	for _, n := range g.Nodes {
		if n.Ev == nil || n.Ev.Kind != EvCall {
			continue
		}
		if strings.HasSuffix(n.Ev.Name, ").Close") {
			continue
		}
		for _, a := range append(append([]*Sym(nil), n.Ev.Args...), n.Ev.Raw...) {
			if a == nil {
				continue
			}
			if b := find(a, requestBody); b != nil {
				out = append(out, n)
				break
			}
		}
	}
	return out
}

// bodyReads: without a limit around the whole server, each handler has to limit
// the body before it reads it.
func (c *Check) bodyReads(g *Graph, what string) {
	for _, h := range append(append([]*Handler(nil), c.monitorH()...), c.submitH()...) {
		if strings.HasPrefix(h.Label, "edge ") {
			continue
		}
		if h.At == nil || h.At.g != g {
			continue
		}
		if lim := find(I.mk(Sym{op: OpTuple, args: h.At.Ev.Args}, ""), func(s *Sym) bool {
			return s.op == OpCall && s.str == "net/http.MaxBytesHandler"
		}); lim != nil {
			if v, ok := lim.args[1].intVal(); ok && v == bodyLimit {
				c.ok("limit", what+": "+h.Label, c.at(h.At))
				continue
			}
		}
		for _, gg := range closureGraphs(h.G) {
			for _, x := range bodyUses(gg) {
				lim := func(s *Sym) bool {
					if s.op != OpCall || s.str != "net/http.MaxBytesReader" || !requestBody(s.args[1]) {
						return false
					}
					v, ok := s.args[2].intVal()
					return ok && v == bodyLimit
				}
				if x.Ev.Res != nil && lim(x.Ev.Res) {
					continue
				}
				good := true
				for _, a := range x.Ev.Args {
					if find(a, requestBody) != nil && find(a, lim) == nil {
						good = false
					}
				}
				if !good {
					c.bad("limit", what+": "+h.Label, c.at(x), "the body of the request is read without a limit of %d bytes", bodyLimit)
				} else {
					c.ok("limit", what+": "+h.Label, c.at(x))
				}
			}
		}
	}
}
