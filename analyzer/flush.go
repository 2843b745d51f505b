package main

// C11: batches stay small and are handed over in time.

const maxBatch = 255

func init() {
	register("C11", func(c *Check) {
		ps := c.w.poolMakers()
		c.need(len(ps), 1, "anchor", "tasks that collect submissions")
		for _, p := range ps {
			c.use(p.g)
			for _, q := range p.probs {
				c.add(false, q.rule, q.cons, c.at(q.at), q.msg, c.path(q.path)...)
			}
			if p.pool == nil || len(p.probs) > 0 {
				continue
			}
			p.bounded(c)
			p.timely(c)
		}
		ss := c.w.sequencers()
		c.need(len(ss), 1, "anchor", "sequencers")
		for _, s := range ss {
			c.use(s.g)
			c.renewed(s)
		}
	})
}

// bounded: no batch has more than maxBatch entries. By induction: at the loop's
// head it has fewer than maxBatch.
func (p *PoolMaker) bounded(c *Check) {
	const K = "size"
	for k := int64(maxBatch); k >= 1; k-- {
		if n, _ := p.boundedBy(k); n == nil {
			c.ok("size", "a batch has at most "+itoa(int(k))+" entries", c.at(p.sends[0]))
			return
		}
	}
	n, why := p.boundedBy(maxBatch)
	c.bad("size", K, c.at(n), "%s", why)
}

// boundedBy: with fewer than k entries at the loop's head there are fewer than k
// at its end, and no more than k are handed over.
func (p *PoolMaker) boundedBy(k int64) (*Node, string) {
	less := func(st *State, v *Sym, x *contents, k int64) bool {
		if !x.base {
			return int64(len(x.elems)) < k
		}
		if len(x.elems) == 0 || st == nil {
			return len(x.elems) == 0
		}
		st = st.clone()
		st.assume(Lt(Len(p.pool), CInt(k)), true)
		return st.eval(Lt(Add(Len(p.pool), CInt(int64(len(x.elems)))), CInt(k))) == 1 || st.eval(Lt(Len(v), CInt(k))) == 1
	}
	for _, n := range p.sends {
		x := p.cont[n]
		if x.base && len(x.elems) <= 1 || less(must(p.g).at(n), n.Ev.Args[1], x, k+1) {
			continue
		}
		return n, "a batch of more than " + itoa(int(k)) + " entries can be handed over"
	}
	for _, b := range p.li.Backs {
		v, ok := b.Vals[p.pool]
		if !ok {
			v = p.pool
		}
		if !less(b.St, v, p.back[b].after, k) {
			return b.From, "the batch can grow to more than " + itoa(int(k)) + " entries before it is handed over"
		}
	}
	return nil, ""
}

// sinceOf: x is the time passed since the value returned.
func sinceOf(x *Sym) *Sym {
	x = unwrapConv(x)
	switch {
	case isCallSym(x, "time.Since"):
		return unwrapConv(x.args[0])
	case isCallSym(x, "(time.Time).Sub") && isCallSym(unwrapConv(x.args[0]), "time.Now"):
		return unwrapConv(x.args[1])
	}
	return nil
}

// timely: a submission is handed over at once if the last batch is older than
// the flush interval, and after a whole interval without submissions a batch is
// handed over in any case.
func (p *PoolMaker) timely(c *Check) {
	const K = "time"
	sent := outEdges(p.sends).pred()
	// ends: the iteration can end at the node, on an edge not blocked
	ends := func(block edgePred) func(m *Node) bool {
		return func(m *Node) bool {
			for i := range m.Out {
				if e := &m.Out[i]; e.Back != nil && *e.Back == p.li.Key && (block == nil || !block(m, e)) {
					return true
				}
			}
			return false
		}
	}
	isIval := func(x *Sym) bool {
		iv := find(x, func(y *Sym) bool { return y.op == OpField && y.str == "FlushMs" })
		return iv != nil && x == millis(iv)
	}
	// the time of the last batch
	var last *Sym
	young := func(m *Node, e *Edge) bool {
		for _, f := range e.Facts {
			q, v := normFact(f)
			var snc *Sym
			iv := find(q, func(y *Sym) bool { return y.op == OpField && y.str == "FlushMs" })
			find(q, func(y *Sym) bool {
				if l := sinceOf(y); l != nil {
					for _, s := range p.li.Syms {
						if s == l {
							snc = y
						}
					}
				}
				return snc != nil
			})
			if snc == nil || iv == nil {
				continue
			}
			ival := millis(iv)
			if v && (q == Lt(snc, ival) || q == Le(snc, ival)) || !v && (q == Le(ival, snc) || q == Lt(ival, snc)) {
				last = sinceOf(snc)
				return true
			}
		}
		return false
	}
	for _, r := range p.recvs {
		if ends(anyOf(sent, young))(r) {
			c.bad("arrival", K, c.at(r), "a submission is kept without the time since the last batch being looked at")
			continue
		}
		if q := search([]*Node{r}, anyOf(p.inIter(), sent, young), ends(anyOf(sent, young))); q != nil {
			c.add(false, "arrival", K, c.at(r), "a submission is kept although the last batch may be older than the flush interval", c.path(q)...)
			continue
		}
		c.ok("arrival", "a submission is kept only while the last batch is younger than the flush interval", c.at(r))
	}
	if last != nil {
		for _, h := range p.li.Heads {
			if iv := unwrapConv(h.Init[last]); !isCallSym(iv, "time.Now") && !isZeroish(iv) {
				c.bad("arrival", K, c.at(h), "the time of the last batch starts as %s", short(iv))
			}
		}
		for _, b := range p.li.Backs {
			v, ok := b.Vals[last]
			if !ok {
				v = last
			}
			v = unwrapConv(v)
			if v == last {
				continue
			}
			if !isCallSym(v, "time.Now") {
				c.bad("arrival", K, c.at(b.From), "the time of the last batch becomes %s", short(v))
				continue
			}
			if q := p.between(sent, func(m *Node) bool { return m == b.From }); q != nil && !isNode(p.sends)(b.From) {
				c.add(false, "arrival", K, c.at(b.From), "the time of the last batch moves on although none was handed over", c.path(q)...)
			}
		}
	}
	// silence
	n := 0
	for _, r := range p.recvs {
		var timers []*Node
		for _, m := range p.g.Nodes {
			if m.Ev == nil || m.Ev.Kind != EvRecv || m == r {
				continue
			}
			for _, a := range r.Ev.Arms {
				if a == m.Ev && isTimer(m.Ev.Raw[0]) {
					timers = append(timers, m)
				}
			}
		}
		if len(timers) == 0 {
			c.bad("silence", K, c.at(r), "submissions are waited for without a timer, so nothing is published while none arrive")
			continue
		}
		for _, m := range timers {
			t := unwrapConv(m.Ev.Raw[0])
			var d *Sym
			find(t, func(y *Sym) bool {
				if isCallSym(y, "time.After") || isCallSym(y, "time.NewTimer") || isCallSym(y, "time.NewTicker") || isCallSym(y, "time.Tick") {
					d = unwrapConv(y.args[0])
				}
				return d != nil
			})
			if d == nil || !isIval(d) {
				c.bad("silence", K, c.at(m), "the timer does not run for the configured flush interval in milliseconds: %s", short(d))
				continue
			}
			n++
			if !p.runs(m) {
				c.bad("silence", K, c.at(m), "the timer is not started again for every wait")
				continue
			}
			if q := search([]*Node{m}, anyOf(p.inIter(), sent), ends(sent)); q != nil || ends(sent)(m) {
				c.add(false, "silence", K, c.at(m), "a whole interval can pass without a batch being handed over", c.path(q)...)
				continue
			}
			c.ok("silence", "after an interval without submissions a batch is handed over", c.at(m))
		}
	}
	c.need(n, 1, "silence", "flush timers")
}

// runs: the timer is running whenever it is waited for.
func (p *PoolMaker) runs(m *Node) bool {
	var t *Sym
	find(m.Ev.Raw[0], func(y *Sym) bool {
		if isCallSym(y, "time.After") || isCallSym(y, "time.NewTimer") || isCallSym(y, "time.NewTicker") || isCallSym(y, "time.Tick") {
			t = y
		}
		return t != nil
	})
	if t == nil {
		return false
	}
	made := evNodes(p.g, func(e *Event) bool { return e.Res == t })
	if isCallSym(t, "time.NewTicker") || isCallSym(t, "time.Tick") {
		stop := evNodes(p.g, func(e *Event) bool { return isCall(e, "(*time.Ticker).Stop") && e.Args[0] == t })
		for _, n := range stop {
			if search([]*Node{n}, nil, func(x *Node) bool { return x == m }) != nil {
				return false
			}
		}
		return true
	}
	// each wait comes after a start of the timer in the same iteration, or after a
	// reset since the timer was used
	again := append(evNodes(p.g, func(e *Event) bool { return isCall(e, "(*time.Timer).Reset") && e.Args[0] == t }), made...)
	for _, n := range evNodes(p.g, func(e *Event) bool { return isCall(e, "(*time.Timer).Stop") && e.Args[0] == t }) {
		if search([]*Node{n}, outEdges(again).pred(), func(x *Node) bool { return x == m }) != nil {
			return false
		}
	}
	return len(again) > 0 && search([]*Node{m}, outEdges(again).pred(), func(x *Node) bool { return x == m }) == nil
}

// millis: x milliseconds as a duration.
func millis(x *Sym) *Sym { return fromLin(linAdd(lin{}, toLin(x), 1000000), nil) }

// renewed: every batch, empty or not, is followed by a new tree head and
// checkpoint.
func (c *Check) renewed(s *Seq) {
	for _, name := range []string{"sth", "checkpoint"} {
		k := s.kind(name)
		if k.sites == 0 || len(k.sched) == 0 {
			c.bad("renew", name, c.at(s.recvs[0]), "no upload of it was found in the sequencer")
			continue
		}
		for _, r := range s.recvs {
			if q := search([]*Node{r}, k.sched.pred(), isNode(s.recvs)); q != nil {
				c.add(false, "renew", name, c.at(r), "a batch can be finished without a new "+name, c.path(q)...)
			} else {
				c.ok("renew", "every batch is followed by a new "+name, c.at(r))
			}
		}
	}
}
