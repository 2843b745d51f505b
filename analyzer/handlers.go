package main

import (
	"fmt"
	"strings"
)

// Handler is the code that answers one route.
type Handler struct {
	Pattern string
	Path    string // pattern without the method
	G       *Graph
	From    []*Node // where the handling of this route begins in G
	At      *Node   // the registration
	Label   string
}

// handlers finds the routes registered by a program.
func (w *World) handlers(root *Graph) []*Handler {
	if root == nil {
		return nil
	}
	if h, ok := w.hnd[fmt.Sprintf("%p", root)]; ok {
		return h
	}
	var out []*Handler
	seen := map[string]bool{}
	for _, g := range closureGraphs(root) {
		for _, n := range evNodes(g, func(e *Event) bool {
			return e.Kind == EvCall && (strings.HasSuffix(e.Name, "net/http.ServeMux).Handle") || strings.HasSuffix(e.Name, "net/http.ServeMux).HandleFunc"))
		}) {
			if len(n.Ev.Raw) < 3 {
				continue
			}
			pat, ok := n.Ev.Raw[1].strVal()
			if !ok {
				pat = "?"
			}
			for _, cb := range w.e.closuresIn(n.st, n.Ev.Raw[2:3]) {
				hg := w.e.exploreCallback(cb, n.st, 1)
				if hg == nil {
					continue
				}
				setParents(hg)
				k := pat + "|" + hg.Name + "|" + itoa(len(hg.Nodes))
				if seen[k] {
					continue
				}
				seen[k] = true
				p := pat
				if i := strings.LastIndexByte(pat, ' '); i >= 0 {
					p = pat[i+1:]
				}
				out = append(out, &Handler{Pattern: pat, Path: p, G: hg, From: []*Node{hg.Entry}, At: n, Label: p})
			}
		}
	}
	w.hnd[fmt.Sprintf("%p", root)] = out
	return out
}

func (w *World) monitor() *Graph { return w.root("internal/ctmonitor", "", "MainMain") }

// fastlyHandlers: the edge program dispatches on the path itself.
func (w *World) fastlyHandlers() []*Handler {
	g := w.root("internal/ctmonitor", "", "FastlyServe")
	if g == nil {
		return nil
	}
	if h, ok := w.hnd["fastly"]; ok {
		return h
	}
	by := map[string]*Handler{}
	var out []*Handler
	for _, n := range g.Nodes {
		for i := range n.Out {
			for _, f := range n.Out[i].Facts {
				c, v := normFact(f)
				if !v || c.op != OpEq {
					continue
				}
				for k := 0; k < 2; k++ {
					s, ok := c.args[k].strVal()
					o := c.args[1-k]
					if !ok || !strings.HasPrefix(s, "/") || find(o, func(x *Sym) bool { return x.op == OpFieldAddr && x.str == "Path" }) == nil {
						continue
					}
					h := by[s]
					if h == nil {
						h = &Handler{Pattern: s, Path: s, G: g, At: n, Label: "edge " + s}
						by[s] = h
						out = append(out, h)
					}
					h.From = append(h.From, n.Out[i].To)
				}
			}
		}
	}
	w.hnd["fastly"] = out
	return out
}
