package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- obligations ------------------------------------------------------------------

// Ob is one obligation: a rule applied to one construct of the program.
type Ob struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Where     string   `json:"where"`
	OK        bool     `json:"discharged"`
	Detail    string   `json:"detail,omitempty"`
	Path      []string `json:"path,omitempty"`
}

// Check collects the obligations of one property.
type Check struct {
	w      *World
	id     string
	obs    []Ob
	graphs map[*Graph]bool
	counts map[string]int
	more   map[string]bool // functions analysed outside the path graphs
}

func (c *Check) e() *Engine { return c.w.e }

func (c *Check) use(gs ...*Graph) {
	for _, g := range gs {
		if g != nil {
			for _, h := range closureGraphs(g) {
				c.graphs[h] = true
			}
		}
	}
}

func (c *Check) analysed(fns ...*ssa.Function) {
	if c.more == nil {
		c.more = map[string]bool{}
	}
	for _, f := range fns {
		c.more[f.String()] = true
	}
}

func (c *Check) add(ok bool, rule, construct, where, detail string, path ...string) bool {
	for i, o := range c.obs {
		if o.Rule == rule && o.Construct == construct && o.Where == where && o.OK == ok && o.Detail == detail {
			_ = i
			return ok
		}
	}
	c.obs = append(c.obs, Ob{rule, construct, where, ok, detail, path})
	c.counts[rule]++
	return ok
}
func (c *Check) bad(rule, construct, where, f string, a ...any) bool {
	return c.add(false, rule, construct, where, fmt.Sprintf(f, a...))
}
func (c *Check) ok(rule, construct, where string) { c.add(true, rule, construct, where, "") }

// need fails the check when fewer than n constructs were found for a rule.
func (c *Check) need(n, want int, rule, what string) bool {
	if n < want {
		return c.bad(rule, what, "?", "only %d found, at least %d expected: the construct this rule is anchored on was not found, so the property is not established", n, want)
	}
	c.ok(rule, fmt.Sprintf("%s (%d found)", what, n), "")
	return true
}

func (c *Check) path(p []*Node) []string {
	var out []string
	last := ""
	for _, n := range p {
		s := ""
		if n.Ev != nil {
			s = fmt.Sprintf("%s %s %s", c.e().pos(n.Ev.Pos), evNames[n.Ev.Kind], n.Ev.Name)
		} else if n.b != nil {
			ps := token.NoPos
			for _, ins := range n.b.Instrs {
				if ins.Pos() != 0 {
					ps = ins.Pos()
					break
				}
			}
			s = fmt.Sprintf("%s in %s", c.e().pos(ps), n.ctx.fn.Name())
		}
		if s != last {
			out = append(out, s)
		}
		last = s
	}
	if len(out) > 60 {
		out = append(append(out[:30:30], "..."), out[len(out)-29:]...)
	}
	return out
}

func (c *Check) at(n *Node) string {
	if n == nil {
		return "?"
	}
	if n.Ev != nil {
		return c.e().pos(n.Ev.Pos)
	}
	return c.e().pos(n.b.Instrs[0].Pos())
}

func (c *Check) fnAt(n *Node) string {
	return n.ctx.fn.Name()
}

// --- graph helpers -------------------------------------------------------------------

func closureGraphs(g *Graph) []*Graph {
	var out []*Graph
	seen := map[*Graph]bool{}
	var walk func(g *Graph)
	walk = func(g *Graph) {
		if g == nil || seen[g] {
			return
		}
		seen[g] = true
		out = append(out, g)
		for _, n := range g.Nodes {
			if n.Ev != nil {
				walk(n.Ev.Task)
				for _, t := range n.Ev.Tasks {
					walk(t)
				}
			}
		}
	}
	walk(g)
	return out
}

// tasksOnly: g and everything that runs synchronously inside it (callbacks), not spawned tasks.
func syncGraphs(g *Graph) []*Graph {
	var out []*Graph
	seen := map[*Graph]bool{}
	var walk func(g *Graph)
	walk = func(g *Graph) {
		if g == nil || seen[g] {
			return
		}
		seen[g] = true
		out = append(out, g)
		for _, n := range g.Nodes {
			if n.Ev != nil {
				for _, t := range n.Ev.Tasks {
					walk(t)
				}
			}
		}
	}
	walk(g)
	return out
}

func evNodes(g *Graph, pred func(*Event) bool) []*Node {
	var out []*Node
	for _, n := range g.Nodes {
		if n.Ev != nil && pred(n.Ev) {
			out = append(out, n)
		}
	}
	return out
}

func isStorage(ev *Event, m string) bool { return ev != nil && ev.Kind == EvStorage && ev.Name == m }

func isCall(ev *Event, name string) bool {
	return ev != nil && ev.Kind == EvCall && (ev.Name == name || strings.HasSuffix(ev.Name, "/"+name))
}

// normFact strips negations.
func normFact(f Fact) (*Sym, bool) {
	c, v := f.C, f.V
	for c.op == OpNot {
		c, v = c.args[0], !v
	}
	return c, v
}

// edgeFact: the edge learns cond==v.
func edgeFact(e *Edge, cond *Sym, v bool) bool {
	for cond.op == OpNot {
		cond, v = cond.args[0], !v
	}
	for _, f := range e.Facts {
		c, fv := normFact(f)
		if c == cond && fv == v {
			return true
		}
	}
	return false
}

// edgeNil: the edge learns x==nil.
func edgeNil(e *Edge, x *Sym) bool { return edgeFact(e, Eq(x, Nil(nil)), true) }

type edgePred func(n *Node, e *Edge) bool

// search looks for a path from the given nodes to a target that takes no edge
// accepted by block. The start nodes themselves are not tested as targets.
func search(from []*Node, block edgePred, target func(*Node) bool) []*Node {
	type item struct {
		n    *Node
		prev int
	}
	var q []item
	seen := map[*Node]bool{}
	for _, n := range from {
		q = append(q, item{n, -1})
	}
	for i := 0; i < len(q); i++ {
		n := q[i].n
		for k := range n.Out {
			ed := &n.Out[k]
			if block != nil && block(n, ed) {
				continue
			}
			if seen[ed.To] {
				continue
			}
			seen[ed.To] = true
			q = append(q, item{ed.To, i})
			if target(ed.To) {
				var p []*Node
				for j := len(q) - 1; j >= 0; j = q[j].prev {
					p = append([]*Node{q[j].n}, p...)
				}
				return p
			}
		}
	}
	return nil
}

// reachable returns every node reachable without taking blocked edges.
func reachable(from []*Node, block edgePred) map[*Node]bool {
	seen := map[*Node]bool{}
	q := append([]*Node{}, from...)
	for _, n := range from {
		seen[n] = true
	}
	for len(q) > 0 {
		n := q[len(q)-1]
		q = q[:len(q)-1]
		for k := range n.Out {
			ed := &n.Out[k]
			if block != nil && block(n, ed) {
				continue
			}
			if !seen[ed.To] {
				seen[ed.To] = true
				q = append(q, ed.To)
			}
		}
	}
	return seen
}

// edgeSet is a set of milestones.
type edgeKey struct {
	n *Node
	i int
}
type edgeSet map[edgeKey]bool

func (s edgeSet) has(n *Node, e *Edge) bool {
	for i := range n.Out {
		if &n.Out[i] == e {
			return s[edgeKey{n, i}]
		}
	}
	return false
}
func (s edgeSet) pred() edgePred { return s.has }
func union(ss ...edgeSet) edgeSet {
	o := edgeSet{}
	for _, s := range ss {
		for k := range s {
			o[k] = true
		}
	}
	return o
}

func edgesWhere(g *Graph, p edgePred) edgeSet {
	o := edgeSet{}
	for _, n := range g.Nodes {
		for i := range n.Out {
			if p(n, &n.Out[i]) {
				o[edgeKey{n, i}] = true
			}
		}
	}
	return o
}

func anyOf(ps ...edgePred) edgePred {
	return func(n *Node, e *Edge) bool {
		for _, p := range ps {
			if p != nil && p(n, e) {
				return true
			}
		}
		return false
	}
}

func isNode(ns []*Node) func(*Node) bool {
	m := map[*Node]bool{}
	for _, n := range ns {
		m[n] = true
	}
	return func(n *Node) bool { return m[n] }
}

// outEdges of nodes as a milestone set.
func outEdges(ns []*Node) edgeSet {
	o := edgeSet{}
	for _, n := range ns {
		for i := range n.Out {
			o[edgeKey{n, i}] = true
		}
	}
	return o
}

// --- loops ------------------------------------------------------------------------------

// counter describes a loop variable: the element index t in each iteration,
// running 0,1,2,... (first value 0, step 1).
type counter struct {
	phi *Sym
	off int64 // t = phi + off
	li  *LoopInfo
}

func loopOf(g *Graph, p *Sym) *LoopInfo {
	for _, li := range g.Loops {
		for _, s := range li.Syms {
			if s == p {
				return li
			}
		}
	}
	return nil
}

// idxCounter recognises an index term that counts 0,1,2,... over one loop.
func idxCounter(g *Graph, idx *Sym) (counter, string) {
	c, from, why := counterFrom(g, idx)
	if why == "" && from != 0 {
		return counter{}, fmt.Sprintf("the loop does not start at the first element (index starts at %d)", from)
	}
	return c, why
}

// counterFrom recognises an index term that counts up by one over one loop, and
// tells where it starts.
func counterFrom(g *Graph, idx *Sym) (counter, int64, string) {
	l := toLin(idx)
	if len(l.t) != 1 {
		return counter{}, 0, "the index is not a loop counter: " + idx.String()
	}
	for p, k := range l.t {
		if k != 1 || (p.op != OpPhi && p.op != OpWCell) {
			return counter{}, 0, "the index is not a loop counter: " + idx.String()
		}
		li := loopOf(g, p)
		if li == nil {
			return counter{}, 0, "no loop found for " + p.String()
		}
		var from int64
		for i, h := range li.Heads {
			iv, ok := h.Init[p]
			if !ok {
				continue
			}
			n, ok := iv.intVal()
			if !ok || n+l.c < 0 || i > 0 && from != n+l.c {
				return counter{}, 0, fmt.Sprintf("the loop does not start at the first element (index starts at %s%+d)", iv, l.c)
			}
			from = n + l.c
		}
		for _, b := range li.Backs {
			if v, ok := b.Vals[p]; ok && v != Add(p, CInt(1)) {
				return counter{}, 0, fmt.Sprintf("the loop index does not advance by one (next value %s)", v)
			}
		}
		return counter{p, l.c, li}, from, ""
	}
	return counter{}, 0, "not a counter"
}

// exhaustEdges: the edges on which the loop over S ends because every index
// below len(S) was visited.
func exhaustEdges(g *Graph, idx, S *Sym) edgeSet {
	cond := Lt(idx, Len(S))
	none, empty := Lt(idx, CInt(0)), Le(Len(S), CInt(0))
	return edgesWhere(g, func(n *Node, e *Edge) bool {
		return edgeFact(e, cond, false) ||
			none != cond && edgeFact(e, none, false) && n.st != nil && n.st.eval(empty) == 1
	})
}

// perIteration finds a way through one iteration of the loop that takes no edge
// of m (nil when every completed iteration passes m).
func perIteration(li *LoopInfo, m edgePred) []*Node {
	for _, h := range li.Heads {
		// from h, look for a back edge of this loop
		type item struct {
			n    *Node
			prev int
		}
		q := []item{{h, -1}}
		seen := map[*Node]bool{h: true}
		for i := 0; i < len(q); i++ {
			n := q[i].n
			for k := range n.Out {
				ed := &n.Out[k]
				if m != nil && m(n, ed) {
					continue
				}
				if ed.Back != nil && *ed.Back == li.Key {
					var p []*Node
					for j := i; j >= 0; j = q[j].prev {
						p = append([]*Node{q[j].n}, p...)
					}
					return append(p, ed.To)
				}
				if !seen[ed.To] {
					seen[ed.To] = true
					q = append(q, item{ed.To, i})
				}
			}
		}
	}
	return nil
}

// mapRangeLoop: the loop that iterates over a map, found from its next-key term.
func nextOkOf(key *Sym) *Sym {
	if key.op != OpNextKey && key.op != OpNextVal {
		return nil
	}
	return I.mk(Sym{op: OpNextOk, ctx: key.ctx, ins: key.ins, typ: nil, args: key.args, gen: key.gen}, fmt.Sprintf("%d@%p%s", key.ctx.id, key.ins, key.gen))
}

// loopWithExit finds the loop whose header tests cond.
func loopTesting(g *Graph, cond *Sym) *LoopInfo {
	for _, li := range g.Loops {
		for _, h := range li.Heads {
			for i := range h.Out {
				if edgeFact(&h.Out[i], cond, false) || edgeFact(&h.Out[i], cond, true) {
					return li
				}
			}
		}
	}
	return nil
}

// --- term helpers -------------------------------------------------------------------------

// place is a memory place: a root, an optional element index and a field path.
type place struct {
	base   *Sym // slice or pointer
	idx    *Sym // element index, if any
	fields []string
}

// placeOf decomposes an address term into base / [idx] / .f.g (outermost
// element access).
func placeOf(addr *Sym) place {
	var p place
	for {
		switch addr.op {
		case OpFieldAddr:
			p.fields = append([]string{addr.str}, p.fields...)
			addr = addr.args[0]
			continue
		case OpElemAddr:
			p.base, p.idx = addr.args[0], addr.args[1]
			return p
		}
		p.base = addr
		return p
	}
}

// loadPlace decomposes a loaded or projected value.
func loadPlace(v *Sym) (place, bool) {
	var tail []string
	for v.op == OpField {
		tail = append([]string{v.str}, tail...)
		v = v.args[0]
	}
	if v.op != OpLoad {
		if len(tail) > 0 {
			return place{base: v, fields: tail}, true
		}
		return place{}, false
	}
	p := placeOf(v.args[0])
	p.fields = append(p.fields, tail...)
	return p, true
}

func (p place) last() string {
	if len(p.fields) == 0 {
		return ""
	}
	return p.fields[len(p.fields)-1]
}

func isCallSym(x *Sym, name string) bool {
	return x != nil && x.op == OpCall && (x.str == name || strings.HasSuffix(x.str, "/"+name))
}

// unwrap strips conversions, snapshots of whole slices and interface boxes.
func unwrap(x *Sym) *Sym {
	for x != nil {
		switch x.op {
		case OpConv, OpIface, OpPtrTo, OpCopyOf:
			x = x.args[0]
			continue
		case OpSnapSlice, OpSlice:
			if len(x.args) >= 4 && (x.args[1] == nil || x.args[1].isInt(0)) && x.args[2] == nil {
				x = x.args[0]
				continue
			}
		}
		return x
	}
	return x
}

// stripBytes: the value as a byte sequence, ignoring []byte/string/array views.
func stripBytes(x *Sym) *Sym { return unwrap(x) }

// strConst: constant string value.
func isStr(x *Sym, s string) bool {
	v, ok := x.strVal()
	return ok && v == s
}

// strParts flattens a string concatenation.
func strParts(x *Sym) []*Sym {
	if x.op == OpBin && x.str == "cat" {
		return x.args
	}
	return []*Sym{x}
}

func hasPrefixConst(x *Sym, prefix string) bool {
	ps := strParts(x)
	v, ok := ps[0].strVal()
	return ok && strings.HasPrefix(v, prefix)
}

func find(x *Sym, pred func(*Sym) bool) *Sym {
	var hit *Sym
	mentions(x, func(s *Sym) bool {
		if pred(s) {
			hit = s
			return true
		}
		return false
	}, map[*Sym]bool{})
	return hit
}

func findCall(x *Sym, name string) *Sym {
	return find(x, func(s *Sym) bool { return isCallSym(s, name) })
}

func short(x *Sym) string {
	if x == nil {
		return "<none>"
	}
	s := x.show(4)
	if len(s) > 220 {
		s = s[:220] + "…"
	}
	return s
}

// errResult: the error component of a call result (the last result, or the call itself).
func errOf(ev *Event) *Sym {
	res := ev.Res
	if res == nil {
		return nil
	}
	var n int
	if c, ok := ev.Ins.(ssa.CallInstruction); ok {
		n = c.Common().Signature().Results().Len()
		if n > 1 {
			sig := c.Common().Signature()
			return Extract(res, n-1, sig.Results().At(n-1).Type())
		}
	}
	return res
}

func resN(ev *Event, i int) *Sym {
	if c, ok := ev.Ins.(ssa.CallInstruction); ok {
		sig := c.Common().Signature()
		if sig.Results().Len() > 1 {
			return Extract(ev.Res, i, sig.Results().At(i).Type())
		}
	}
	return ev.Res
}

// okEdges: the edges on which the call made at one of these nodes is known to
// have returned a nil error.
func okEdges(g *Graph, ns []*Node) edgeSet {
	out := edgeSet{}
	for _, n := range ns {
		er := errOf(n.Ev)
		if er == nil {
			continue
		}
		for k := range edgesWhere(g, func(m *Node, e *Edge) bool { return edgeNil(e, er) }) {
			out[k] = true
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
