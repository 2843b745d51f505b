package main

import (
	"strings"
)

func init() {
	register("C10", func(c *Check) {
		ps := c.w.poolMakers()
		c.need(len(ps), 1, "anchor", "tasks that collect submissions")
		for _, p := range ps {
			p.conserve(c)
			if p.pool != nil && len(p.probs) == 0 {
				p.numbers(c)
			}
		}
		c.plumbing(ps)
	})
	register("C25", func(c *Check) {
		ps := c.w.poolMakers()
		c.need(len(ps), 1, "anchor", "tasks that collect submissions")
		for _, p := range ps {
			p.owned(c)
		}
		c.inFlight()
	})
}

// numbers: consecutive leaf indexes from the published size, fresh timestamps.
func (p *PoolMaker) numbers(c *Check) {
	const K = "number"
	es := p.newElems()
	if !c.need(len(es), 1, "number", "entries put into batches") {
		return
	}
	var q *Sym
	for e, n := range es {
		ent, _, sub, why := p.elemEntry(e)
		if why != "" {
			c.bad("number", K, c.at(n), "%s", why)
			return
		}
		li := unwrapConv(fieldByName(ent, "LeafIndex"))
		if li == nil || li.op != OpPhi && li.op != OpWCell {
			c.bad("number", K, c.at(n), "the leaf index is not the running number: %s", short(li))
			return
		}
		if q != nil && q != li {
			c.bad("number", K, c.at(n), "leaf indexes are taken from two running numbers")
			return
		}
		q = li
		p.stamped(c, n, unwrapConv(fieldByName(ent, "Timestamp")), sub)
	}
	is := false
	for _, s := range p.li.Syms {
		is = is || s == q
	}
	if !is {
		c.bad("number", K, c.at(p.li.Heads[0]), "the running number is not kept by the loop that takes up submissions: %s", short(q))
		return
	}
	for _, h := range p.li.Heads {
		iv, ok := h.Init[q]
		if !ok || !isSTHSize(unwrapConv(iv)) {
			c.bad("number", K, c.at(h), "the first number is not the size of the published tree: %s", short(iv))
			return
		}
	}
	for _, b := range p.li.Backs {
		v, ok := b.Vals[q]
		if !ok {
			v = q
		}
		rs, none := p.recvOn(b)
		switch {
		case len(rs) > 0 && v != Add(q, CInt(1)):
			c.bad("number", K, c.at(b.From), "after a submission was taken up the next number is %s", short(v))
			return
		case none != nil && v != q:
			c.add(false, "number", K, c.at(b.From), "the number changes although no submission was taken up: "+short(v), c.path(none)...)
			return
		}
		c.ok("number", "the number advances by one per submission taken up", c.at(b.From))
	}
}

// stamped: the timestamp is the time in milliseconds, read after the submission
// was taken up.
func (p *PoolMaker) stamped(c *Check, n *Node, ts, sub *Sym) {
	if ts == nil || !isCallSym(ts, "(time.Time).UnixMilli") {
		c.bad("stamp", "timestamp", c.at(n), "the timestamp is not a time in milliseconds: %s", short(ts))
		return
	}
	now := ts.args[0]
	if !isCallSym(now, "time.Now") {
		c.bad("stamp", "timestamp", c.at(n), "the timestamp is not the current time: %s", short(now))
		return
	}
	nodes := p.nodesOf(now)
	var mine []*Node
	for _, r := range p.recvs {
		if r.Ev.Res == sub {
			mine = append(mine, r)
		}
	}
	if len(nodes) == 0 || len(mine) == 0 {
		c.bad("stamp", "timestamp", c.at(n), "the place the time is read was not found")
		return
	}
	for _, m := range mine {
		if q := search([]*Node{m}, anyOf(outEdges(nodes).pred(), p.inIter()), func(x *Node) bool { return x == n }); q != nil && !isNode(nodes)(n) {
			c.add(false, "stamp", "timestamp", c.at(n), "the timestamp was read before the submission was taken up", c.path(q)...)
			return
		}
	}
	c.ok("stamp", "the timestamp is read after the submission was taken up", c.at(n))
}

func (p *PoolMaker) nodesOf(res *Sym) []*Node {
	return evNodes(p.g, func(e *Event) bool { return e.Res == res })
}

// plumbing: submissions reach the sequencer through the one task that numbers
// them, each channel has one reader, and each task runs once.
func (c *Check) plumbing(ps []*PoolMaker) {
	root := c.w.submit()
	ss := c.w.sequencers()
	subs := c.submissions()
	c.need(len(ss), 1, "anchor", "sequencers")
	c.need(len(subs), 2, "anchor", "submission handlers")
	if len(ps) == 0 || len(ss) == 0 {
		return
	}
	in, out := map[*Sym]bool{}, map[*Sym]bool{}
	for _, p := range ps {
		for _, r := range p.recvs {
			in[unwrapConv(r.Ev.Raw[0])] = true
		}
		for _, n := range p.sends {
			out[unwrapConv(n.Ev.Raw[0])] = true
		}
	}
	bufs := func(m map[*Sym]bool, what string) bool {
		if len(m) != 1 {
			return c.bad("channel", what, "?", "%d channels carry %s", len(m), what)
		}
		for x := range m {
			if x.op != OpMakeChan || x.ctx == nil {
				return c.bad("channel", what, "?", "the channel for %s is not a channel made at start: %s", what, short(x))
			}
		}
		return true
	}
	if !bufs(in, "submissions") || !bufs(out, "batches") {
		return
	}
	for _, s := range subs {
		c.use(s.g)
		for _, n := range s.sends {
			if !in[unwrapConv(n.Ev.Raw[0])] {
				c.bad("channel", s.h.Label, c.at(n), "submissions are sent on a channel other than the one they are taken from: %s", short(n.Ev.Raw[0]))
			} else {
				c.ok("channel", s.h.Label+": sent to the task that numbers submissions", c.at(n))
			}
		}
	}
	for _, s := range ss {
		c.use(s.g)
		for _, n := range s.recvs {
			if !out[unwrapConv(n.Ev.Raw[0])] {
				c.bad("channel", "sequencer", c.at(n), "batches are taken from a channel other than the one they are sent on: %s", short(n.Ev.Raw[0]))
			} else {
				c.ok("channel", "sequencer: takes batches in the order they are handed over", c.at(n))
			}
		}
	}
	// no other reader or writer, and each task is started once
	role := map[*Graph]string{}
	for _, p := range ps {
		role[p.g] = "task that numbers submissions"
	}
	for _, s := range ss {
		role[s.g] = "sequencer"
	}
	all := closureGraphs(root)
	for _, s := range subs {
		all = append(all, closureGraphs(s.g)...)
	}
	for _, g := range all {
		for _, n := range g.Nodes {
			if n.Ev == nil || n.Ev.Kind != EvRecv && n.Ev.Kind != EvSend {
				continue
			}
			ch := unwrapConv(n.Ev.Raw[0])
			switch {
			case n.Ev.Kind == EvRecv && in[ch] && role[g] != "task that numbers submissions",
				n.Ev.Kind == EvRecv && out[ch] && role[g] != "sequencer",
				n.Ev.Kind == EvSend && out[ch] && role[g] != "task that numbers submissions":
				c.bad("channel", "other user", c.at(n), "the channel %s is also used here", short(ch))
			}
		}
	}
	for _, r := range []string{"task that numbers submissions", "sequencer"} {
		var sp []*Node
		var starters []*Graph
		for _, g := range all {
			for _, n := range g.Nodes {
				if n.Ev != nil && n.Ev.Kind == EvSpawn && n.Ev.Task != nil && role[n.Ev.Task] == r {
					sp = append(sp, n)
					starters = append(starters, g)
				}
			}
		}
		if !c.need(len(sp), 1, "once", r) {
			continue
		}
		good := true
		for i, n := range sp {
			if starters[i] != root {
				good = c.bad("once", r, c.at(n), "the %s is started by a task other than the main one", r)
				break
			}
			if q := search([]*Node{n}, nil, isNode(sp)); q != nil {
				good = c.add(false, "once", r, c.at(n), "the "+r+" can be started twice", c.path(q)...)
				break
			}
		}
		if good {
			c.ok("once", "the "+r+" is started once", c.at(sp[0]))
		}
	}
}

// owned: after a batch was handed over, its memory is not written again.
func (p *PoolMaker) owned(c *Check) {
	c.use(p.g)
	for _, q := range p.probs {
		c.add(false, q.rule, q.cons, c.at(q.at), q.msg, c.path(q.path)...)
	}
	if p.pool == nil || len(p.probs) > 0 {
		return
	}
	for _, n := range p.sends {
		raw := n.Ev.Raw[1]
		fresh := p.freshMem(raw)
		good := true
		for _, b := range p.li.Backs {
			if n != b.From && search([]*Node{n}, p.inIter(), func(m *Node) bool { return m == b.From }) == nil {
				continue
			}
			v, ok := b.Vals[p.pool]
			if !ok {
				v = p.pool
			}
			if !fresh && !p.freshMem(v) {
				good = c.bad("owned", "batch", c.at(n), "the batch handed over shares its memory with the batch collected next, so entries being sequenced are overwritten: %s is sent and %s is filled next", short(raw), short(v))
			}
		}
		// no write to it after the send in the same iteration
		if fresh {
			ra := rootAlloc(raw)
			if q := search([]*Node{n}, p.inIter(), func(m *Node) bool { return m != n && writesElem(m, ra) }); q != nil {
				good = c.add(false, "owned", "batch", c.at(n), "the batch is written to after it was handed over", c.path(q)...)
			}
		}
		if good {
			c.ok("owned", "a batch handed over is not written again", c.at(n))
		}
	}
}

func writesElem(n *Node, root *Sym) bool {
	e := n.Ev
	return e != nil && e.Kind == EvCall && (e.Name == "copy" || e.Name == "append") && len(e.Raw) > 0 && rootAlloc(e.Raw[0]) == root && root != nil
}

// freshMem: memory made in this iteration (or none at all).
func (p *PoolMaker) freshMem(x *Sym) bool {
	x = unwrapConv(x)
	switch {
	case isNilSym(x), x.op == OpZero:
		return true
	case x.op == OpMakeSlice || x.op == OpAlloc:
		return x.ins != nil && inLoopCtx(x.ctx, x.ins.Block(), p.li.Key)
	case x.op == OpSlice:
		return p.freshMem(x.args[0])
	case x.op == OpAppend:
		// appending to memory without room makes new memory
		a := unwrapConv(x.args[0])
		return isNilSym(a) || a.op == OpZero || p.freshMem(a) || a.op == OpSlice && a.args[3] != nil && a.args[3].isInt(0)
	case x.op == OpCall && (strings.HasSuffix(x.str, "slices.Clone") || strings.Contains(x.str, "slices.Clone[")):
		return true
	}
	return false
}

// inFlight: memory used by uploads and other tasks under way is left alone.
func (c *Check) inFlight() {
	ss := c.w.sequencers()
	c.need(len(ss), 1, "anchor", "sequencers")
	n := 0
	for _, s := range ss {
		c.use(s.g)
		c.reused(s.g)
		for _, g := range closureGraphs(s.g) {
			n += c.borrowed(g)
		}
	}
	c.need(n, 1, "borrow", "tasks started by the sequencer")
}
