package main

import (
	"go/types"
	"sort"
	"strings"
)

// Seq is one task graph of the sequencer: it receives pools of log entries and
// writes the log's objects to storage.
type Seq struct {
	w     *World
	g     *Graph
	spawn *Graph
	recvs []*Node
	pool  *Sym // the received pool
	empty *Sym // condition "the pool is empty"

	sth, ckpt, acks []*Node
	kinds           map[string]*kindWork
	targets         map[string][]*Node
}

// kindWork says when one kind of upload is complete.
type kindWork struct {
	name  string
	sites int
	sched edgeSet // every object of the kind has been scheduled (or written, if waits is nil)
	waits edgeSet // ... and the result of the uploads was checked
	probs []prob
	nodes []*Node // the nodes in the sequencer graph at which uploads happen or are spawned
}

type prob struct {
	rule, cons string
	at         *Node
	msg        string
	path       []*Node
}

const (
	keySTH    = "ct/v1/get-sth"
	keyCkpt   = "checkpoint"
	preIssuer = "issuer/"
	preHashes = "int/hashes/"
	preDedupe = "int/dedupe/"
)

func isPathKey(k *Sym) bool {
	return len(strParts(k)) == 1 && isCallSym(k, "sunlight.Path")
}

// tileOf: the tile whose path is the key.
func tileOf(k *Sym) *Sym { return k.args[0] }

// sequencers finds the sequencer task graphs below the submit program.
func (w *World) sequencers() []*Seq {
	if w.seqOK {
		return w.seqs
	}
	w.seqOK = true
	root := w.submit()
	if root == nil {
		return nil
	}
	for _, g := range closureGraphs(root) {
		var rv []*Node
		for _, n := range evNodes(g, func(e *Event) bool { return e.Kind == EvRecv }) {
			if n.Ev.Res != nil && n.Ev.Res.typ != nil {
				if _, ok := n.Ev.Res.typ.Underlying().(*types.Slice); ok {
					rv = append(rv, n)
				}
			}
		}
		if len(rv) == 0 || len(storageAt(g, "Set", func(*Sym) bool { return true })) == 0 {
			continue
		}
		s := &Seq{w: w, g: g, recvs: rv, pool: rv[0].Ev.Res, kinds: map[string]*kindWork{}}
		s.empty = Eq(Len(s.pool), CInt(0))
		for _, n := range g.Nodes {
			if isStorage(n.Ev, "Set") && len(n.Ev.Args) > 3 {
				if isStr(n.Ev.Args[2], keySTH) {
					s.sth = append(s.sth, n)
				}
				if isStr(n.Ev.Args[2], keyCkpt) {
					s.ckpt = append(s.ckpt, n)
				}
			}
			if n.Ev != nil && n.Ev.Kind == EvSend {
				if p, ok := loadPlace(n.Ev.Raw[0]); ok && p.base == s.pool {
					s.acks = append(s.acks, n)
				}
			}
		}
		w.seqs = append(w.seqs, s)
	}
	return w.seqs
}

// vacuous: edges on which the pool is known to be empty.
func (s *Seq) vacuous() edgeSet {
	return edgesWhere(s.g, func(n *Node, e *Edge) bool {
		if edgeFact(e, s.empty, true) {
			return true
		}
		// the state at the target may know it (len(pool) <= 0)
		return false
	})
}

// poolEmptyAt: the node's state knows the pool is empty.
func (s *Seq) nonEmptyBlock() edgePred {
	vac := s.vacuous()
	return func(n *Node, e *Edge) bool {
		return vac.has(n, e) || e.To.st != nil && e.To.st.eval(s.empty) == 1
	}
}

// reenter: edges back into waiting for the next pool.
func (s *Seq) reenter() edgePred {
	r := isNode(s.recvs)
	return func(n *Node, e *Edge) bool { return r(e.To) }
}

// forEach checks that one of the site edges is taken in every iteration of the
// loop that visits base[idx], starting with 0 and stepping by one; the result
// is the set of edges on which the loop has ended after the last element.
func (k *kindWork) forEach(w *World, g *Graph, at *Node, idx, base *Sym, site edgePred) edgeSet {
	c, why := idxCounter(g, idx)
	if why != "" {
		k.probs = append(k.probs, prob{"every-item", "loop", at, why, nil})
		return nil
	}
	if p := perIteration(c.li, site); p != nil {
		k.probs = append(k.probs, prob{"every-item", "loop", at, "an iteration can end without the item being uploaded", p})
		return nil
	}
	return exhaustEdges(g, idx, base)
}

// loopNest finds the index terms driving a site: the element accesses in x
// whose index is a counter of g, innermost (most dependent) first.
func loopNest(g *Graph, x *Sym) [][2]*Sym {
	var out [][2]*Sym
	seen := map[*LoopInfo]bool{}
	for _, ea := range elemAddrs(x) {
		c, why := idxCounter(g, ea.args[1])
		if why != "" || seen[c.li] {
			continue
		}
		seen[c.li] = true
		out = append(out, [2]*Sym{ea.args[0], ea.args[1]})
	}
	// innermost first: base mentions another loop's element => deeper
	sort.SliceStable(out, func(i, j int) bool { return contains(out[i][0], out[j][1]) || depthIn(out[i][0], out[j]) })
	return out
}

func depthIn(base *Sym, o [2]*Sym) bool {
	return find(base, func(s *Sym) bool { return s.op == OpElemAddr && s.args[0] == o[0] && s.args[1] == o[1] }) != nil
}

// upload describes where, in a graph, one storage write of a kind is made and
// what loop it is in.
func (s *Seq) ensure(k *kindWork, g *Graph, pred func(n *Node) bool, tolerate func(g *Graph) edgePred, depth int) (edgeSet, edgeSet, bool) {
	if depth > 4 {
		return nil, nil, false
	}
	type site struct {
		n    *Node
		term *Sym
		done edgeSet
	}
	var sites []site
	var waits edgeSet
	group := map[*Sym]bool{}
	for _, n := range g.Nodes {
		if n.Ev == nil {
			continue
		}
		if isStorage(n.Ev, "Set") && pred(n) {
			sites = append(sites, site{n, I.mk(Sym{op: OpTuple, args: n.Ev.Args[2:4]}, ""), okEdges(g, []*Node{n})})
			k.sites++
		}
		if n.Ev.Kind == EvSpawn && n.Ev.Task != nil {
			sub := &kindWork{name: k.name}
			t := n.Ev.Task
			sc, wt, ok := s.ensure(sub, t, pred, tolerate, depth+1)
			if sub.sites == 0 {
				continue
			}
			k.sites += sub.sites
			k.nodes = append(k.nodes, n)
			k.probs = append(k.probs, sub.probs...)
			if !ok {
				continue
			}
			block := anyOf(sc.pred())
			if wt != nil {
				block = wt.pred()
			}
			if tolerate != nil {
				block = anyOf(block, tolerate(t))
			}
			if p := nilReturnAvoiding(t, block, sub.nodes); p != nil {
				k.probs = append(k.probs, prob{"task-result", "upload task", n, "the upload task can report success although a write did not succeed", p})
				continue
			}
			if n.Ev.Group == nil {
				k.probs = append(k.probs, prob{"joined", "upload task", n, "the uploads run in a goroutine whose result is not collected", nil})
				continue
			}
			if !group[n.Ev.Group] {
				group[n.Ev.Group] = true
				waits = union(waits, waitEdges(g, n.Ev.Group))
			}
			var terms []*Sym
			for _, m := range sub.nodes {
				if m.Ev.Kind == EvStorage {
					terms = append(terms, m.Ev.Args[2], m.Ev.Args[3])
				}
			}
			sites = append(sites, site{n, I.mk(Sym{op: OpTuple, args: terms}, ""), outEdges([]*Node{n})})
		}
	}
	if len(sites) == 0 {
		return nil, nil, false
	}
	for _, x := range sites {
		if x.n.Ev.Kind != EvSpawn {
			k.nodes = append(k.nodes, x.n)
		}
	}
	sched := edgeSet{}
	// group the sites by the loop nest they are in
	type nestKey string
	byNest := map[string][]site{}
	nests := map[string][][2]*Sym{}
	var order []string
	for _, x := range sites {
		nest := loopNest(g, x.term)
		// writes of every entry of a map
		id := ""
		for _, l := range nest {
			id += "/" + itoa(l[0].id) + "[" + itoa(l[1].id)
		}
		if nx := find(x.term, func(y *Sym) bool { return y.op == OpNextKey }); nx != nil && len(nest) == 0 && loopTesting(g, nextOkOf(nx)) != nil {
			id = "map" + itoa(nx.args[0].id)
		}
		if _, ok := byNest[id]; !ok {
			order = append(order, id)
			nests[id] = nest
		}
		byNest[id] = append(byNest[id], x)
	}
	for _, id := range order {
		xs := byNest[id]
		done := edgeSet{}
		for _, x := range xs {
			done = union(done, x.done)
		}
		if strings.HasPrefix(id, "map") {
			nx := find(xs[0].term, func(y *Sym) bool { return y.op == OpNextKey })
			no := nextOkOf(nx)
			li := loopTesting(g, no)
			if li == nil {
				k.probs = append(k.probs, prob{"every-item", "loop", xs[0].n, "no loop over the objects found", nil})
				continue
			}
			if p := perIteration(li, done.pred()); p != nil {
				k.probs = append(k.probs, prob{"every-item", "loop", xs[0].n, "an iteration can end without the item being uploaded", p})
				continue
			}
			done = edgesWhere(g, func(n *Node, e *Edge) bool { return edgeFact(e, no, false) })
		}
		okk := true
		for _, l := range nests[id] {
			var tol edgePred = done.pred()
			if tolerate != nil {
				tol = anyOf(tol, tolerate(g))
			}
			d := k.forEach(s.w, g, xs[0].n, l[1], l[0], tol)
			if d == nil {
				okk = false
				break
			}
			done = d
		}
		if okk {
			sched = union(sched, done)
		}
	}
	return sched, waits, len(k.probs) == 0
}

// nilReturnAvoiding finds a path from the entry to a return of a nil error
// that takes none of the blocked edges.
func nilReturnAvoiding(g *Graph, block edgePred, sites []*Node) []*Node {
	for _, r := range evNodes(g, func(e *Event) bool { return e.Kind == EvReturn }) {
		b := block
		if n := len(r.Ev.Raw); n > 0 {
			v := r.Ev.Raw[n-1]
			if knownNonNil(v) || r.st.eval(Eq(v, Nil(nil))) == 0 {
				continue
			}
			// returning the write's own error: nil exactly when it succeeded
			for _, m := range sites {
				if errOf(m.Ev) == v && m.Ev.Kind != EvSpawn {
					b = anyOf(b, outEdges([]*Node{m}).pred())
				}
			}
			for _, m := range evNodes(g, func(e *Event) bool { return e.Kind == EvWait }) {
				if errOf(m.Ev) == v {
					b = anyOf(b, outEdges([]*Node{m}).pred())
				}
			}
		}
		if p := search([]*Node{g.Entry}, b, func(n *Node) bool { return n == r }); p != nil {
			return p
		}
	}
	return nil
}

func itoa(n int) string { return CInt(int64(n)).String() }

// kind computes (and memoises) when all objects of a kind are stored.
func (s *Seq) kind(name string) *kindWork {
	if k, ok := s.kinds[name]; ok {
		return k
	}
	k := &kindWork{name: name}
	s.kinds[name] = k
	pred := kindPred(name)
	var tol func(g *Graph) edgePred
	if name == "issuer" {
		tol = existsEdges
	}
	k.sched, k.waits, _ = s.ensure(k, s.g, func(n *Node) bool { return len(n.Ev.Args) > 3 && pred(n.Ev) }, tol, 0)
	if k.sites > 0 && len(k.nodes) > 0 && k.waits != nil && len(k.waits) == 0 {
		k.probs = append(k.probs, prob{"joined", "uploads", k.nodes[0], "the uploads' result is never checked before continuing", nil})
	}
	return k
}

// existsEdges: the object is known to be stored already.
func existsEdges(g *Graph) edgePred {
	return func(n *Node, e *Edge) bool {
		for _, m := range g.Nodes {
			if isStorage(m.Ev, "Exists") && edgeFact(e, resN(m.Ev, 0), true) {
				return true
			}
		}
		return false
	}
}

func isDataTile(ev *Event) bool {
	if !isPathKey(ev.Args[2]) {
		return false
	}
	d := ev.Args[3]
	if findCall(d, "sunlight.AppendTileLeaf") != nil {
		return true
	}
	b := stripBytes(d)
	return b.op == OpWCell || b.op == OpPhi
}

func isTreeTile(ev *Event) bool {
	return isPathKey(ev.Args[2]) && !isDataTile(ev)
}

func kindPred(name string) func(ev *Event) bool {
	switch name {
	case "sth":
		return func(ev *Event) bool { return isStr(ev.Args[2], keySTH) }
	case "checkpoint":
		return func(ev *Event) bool { return isStr(ev.Args[2], keyCkpt) }
	case "issuer":
		return func(ev *Event) bool { return hasPrefixConst(ev.Args[2], preIssuer) }
	case "hashes":
		return func(ev *Event) bool { return hasPrefixConst(ev.Args[2], preHashes) }
	case "dedupe":
		return func(ev *Event) bool { return hasPrefixConst(ev.Args[2], preDedupe) }
	case "data tile":
		return isDataTile
	case "tree tile":
		return isTreeTile
	}
	return func(*Event) bool { return false }
}

// before: every path from receiving a non-empty pool to a target completes the
// kind of upload first.
func (c *Check) before(s *Seq, kind string, targets []*Node, what string) {
	k := s.kind(kind)
	cons := kind + " uploads before " + what
	if k.sites == 0 {
		c.bad("ordered", cons, c.at(s.recvs[0]), "no storage write of this kind was found in the sequencer")
		return
	}
	for _, p := range k.probs {
		c.add(false, p.rule, kind+": "+p.cons, c.at(p.at), p.msg, c.path(p.path)...)
	}
	if len(k.sched) == 0 {
		s.debug(k, s.g)
		if len(k.probs) == 0 {
			c.bad("ordered", cons, c.at(k.nodes[0]), "no point at which all uploads of this kind are made")
		}
		return
	}
	if len(targets) == 0 {
		c.bad("ordered", cons, "?", "no %s found", what)
		return
	}
	T := isNode(targets)
	blk := anyOf(k.sched.pred(), s.nonEmptyBlock(), s.reenter())
	if p := search(s.recvs, blk, T); p != nil {
		c.add(false, "ordered", cons, c.at(p[len(p)-1]), what+" can be reached without these uploads having been made", c.path(p)...)
		return
	}
	if k.waits != nil {
		var from []*Node
		for e := range k.sched {
			if t := e.n.Out[e.i].To; s.reachableSched(e) {
				from = append(from, t)
				if T(t) {
					c.add(false, "ordered", cons, c.at(t), what+" can be reached before these uploads were waited for")
					return
				}
			}
		}
		sort.Slice(from, func(i, j int) bool { return from[i].id < from[j].id })
		blk := anyOf(k.waits.pred(), s.reenter())
		if p := search(from, blk, T); p != nil {
			c.add(false, "ordered", cons, c.at(p[len(p)-1]), what+" can be reached before these uploads were waited for and found successful", c.path(p)...)
			return
		}
		// uploads scheduled outside the loop exits (single sites)
		for _, n := range k.nodes {
			if p := search([]*Node{n}, blk, T); p != nil {
				c.add(false, "ordered", cons, c.at(p[len(p)-1]), what+" can be reached before this upload was waited for and found successful", c.path(p)...)
				return
			}
		}
	}
	c.ok("ordered", cons, c.at(targets[0]))
}

func (s *Seq) reachableSched(e edgeKey) bool { return true }

func (s *Seq) debug(k *kindWork, g *Graph) {
	for _, n := range k.nodes {
		println(k.name, n.id, n.Ev.Name)
		if n.Ev.Kind == EvSpawn {
			for _, m := range n.Ev.Task.Nodes {
				if isStorage(m.Ev, "Set") {
					println("   key", m.Ev.Args[2].show(9)[:min(300, len(m.Ev.Args[2].show(9)))])
					for _, a := range m.Ev.Args[2:4] {
						for _, l := range loopNest(g, a) {
							println("     nest", short(l[0]), short(l[1]), len(exhaustEdges(g, l[1], l[0])))
						}
					}
				}
			}
		}
	}
	for _, p := range k.probs {
		println("   prob", p.rule, p.cons, p.msg)
	}
}
