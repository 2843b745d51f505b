package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calls whose error result carries no information about the log's state
func quietErr(name string) bool {
	for _, p := range []string{"fmt.Print", "fmt.Fprint", "log.", "(*log.Logger)", "fmt.Errorf", "errors.", "(context.Context).Err", "(error).", "(io.Writer).Write", "io.WriteString", "(net/http.ResponseWriter).Write", "(*encoding/json.Encoder).Encode", "(*bytes.Buffer)", "(*strings.Builder)", "hash.Hash", "(hash.Hash)", "append", "copy"} {
		if strings.HasPrefix(name, p) || strings.Contains(name, "."+p) {
			return true
		}
	}
	return false
}

// errNodes lists the calls of g that return an error to be handled.
func errNodes(g *Graph) []*Node {
	var out []*Node
	for _, n := range g.Nodes {
		ev := n.Ev
		if ev == nil || ev.Res == nil {
			continue
		}
		if ev.Kind != EvCall && ev.Kind != EvStorage && ev.Kind != EvWait {
			continue
		}
		if quietErr(ev.Name) {
			continue
		}
		ci, ok := ev.Ins.(ssa.CallInstruction)
		if !ok {
			continue
		}
		rs := ci.Common().Signature().Results()
		if rs.Len() == 0 || !isErrorT(rs.At(rs.Len()-1).Type()) {
			continue
		}
		if _, isCall := ev.Ins.(*ssa.Call); !isCall {
			continue // deferred: result unused
		}
		out = append(out, n)
	}
	return out
}

func isErrorT(t types.Type) bool {
	return t != nil && types.TypeString(t, nil) == "error"
}

// failStop: once a call has failed, none of the targets is reachable. A read
// that reports "no such object" may be tolerated.
func (c *Check) failStop(g *Graph, n *Node, targets func(*Node) bool, extra edgePred, what string) bool {
	er := errOf(n.Ev)
	blk := func(m *Node, e *Edge) bool {
		if edgeNil(e, er) {
			return true
		}
		if isStorage(n.Ev, "Get") && notFoundEdge(e, er) {
			return true
		}
		return extra != nil && extra(m, e)
	}
	cons := n.ctx.fn.Name() + ": " + n.Ev.Name
	if n.Ev.Kind == EvStorage && len(n.Ev.Args) > 2 {
		cons += " " + keyShape(n.Ev.Args[2])
	}
	if p := search([]*Node{n}, blk, targets); p != nil {
		return c.add(false, "fail-stop", cons, c.at(n), "although this call may have failed, "+what+" can still be reached", c.path(p)...)
	}
	c.ok("fail-stop", cons, c.at(n))
	return true
}

// keyShape prints the constant part of a storage key.
func keyShape(k *Sym) string {
	s := ""
	for _, p := range strParts(k) {
		if v, ok := p.strVal(); ok {
			s += v
		} else if isPathKey(p) {
			s += "<tile>"
		} else {
			s += "*"
		}
	}
	return s
}

// taskFailStop: a task or callback that returns an error returns a non-nil one
// when one of its calls failed.
func (c *Check) taskFailStop(g *Graph) {
	rets := evNodes(g, func(e *Event) bool { return e.Kind == EvReturn })
	for _, n := range errNodes(g) {
		er := errOf(n.Ev)
		for _, r := range rets {
			if len(r.Ev.Raw) == 0 {
				continue
			}
			v := r.Ev.Raw[len(r.Ev.Raw)-1]
			if !isErrorT(v.typ) && !isErrorT(resultErrT(g)) {
				continue
			}
			if v == er || knownNonNil(v) || r.st.eval(Eq(v, Nil(nil))) == 0 {
				continue
			}
			if !c.failStop(g, n, func(m *Node) bool { return m == r }, nil, "a successful return of "+g.Fn.Name()) {
				break
			}
		}
	}
}

func resultErrT(g *Graph) types.Type {
	rs := g.Fn.Signature.Results()
	if rs.Len() == 0 {
		return nil
	}
	return rs.At(rs.Len() - 1).Type()
}
