package main

func init() {
	register("C01", func(c *Check) {
		ss := c.w.sequencers()
		c.use(c.w.submit())
		if !c.need(len(ss), 1, "anchor", "sequencer task") {
			return
		}
		for _, s := range ss {
			if len(s.acks) == 0 {
				c.bad("anchor", "acknowledgements", "?", "the sequencer never answers a waiting submission")
				continue
			}
			c.dataTileOrder(s, s.acks, "an acknowledgement")
			for _, k := range []string{"tree tile", "hashes", "issuer", "sth", "checkpoint", "dedupe"} {
				c.before(s, k, s.acks, "an acknowledgement")
			}
		}
	})
}

// batches finds the record merges with a key prefix in the sequencer and its
// upload tasks.
func (c *Check) batches(s *Seq, prefix, what string) []*Batch {
	var out []*Batch
	for _, g := range closureGraphs(s.g) {
		hit := false
		for _, x := range storageAt(g, "Set", func(k *Sym) bool { return hasPrefixConst(k, prefix) }) {
			ps := strParts(x.set.Ev.Args[2])
			if len(ps) != 2 || ps[1].op != OpNextKey || loopTesting(g, nextOkOf(ps[1])) != nil {
				hit = true
			}
		}
		if !hit {
			continue
		}
		if b := c.batch(g, prefix, what); b != nil {
			out = append(out, b)
		}
	}
	return out
}

func init() {
	register("C03", func(c *Check) {
		root := c.w.submit()
		c.use(root)
		ss := c.w.sequencers()
		if !c.need(len(ss), 1, "anchor", "sequencer task") {
			return
		}
		total := 0
		for _, s := range ss {
			recv := isNode(s.recvs)
			target := func(n *Node) bool {
				if recv(n) {
					return true
				}
				if n.Ev == nil {
					return false
				}
				return n.Ev.Kind == EvStorage && n.Ev.Name == "Set" || n.Ev.Kind == EvSend || n.Ev.Kind == EvSpawn
			}
			for _, n := range errNodes(s.g) {
				total++
				c.failStop(s.g, n, target, nil, "another upload, acknowledgement or pool")
			}
			for _, g := range closureGraphs(s.g) {
				if g != s.g && isErrorT(resultErrT(g)) {
					total += len(errNodes(g))
					c.taskFailStop(g)
				}
			}
		}
		c.need(total, 12, "fail-stop", "fallible calls in the sequencer and its upload tasks")
	})
}

func init() {
	register("C02", func(c *Check) {
		ss := c.w.sequencers()
		c.use(c.w.submit())
		if !c.need(len(ss), 1, "anchor", "sequencer task") {
			return
		}
		for _, s := range ss {
			t := append(append([]*Node(nil), s.sth...), s.ckpt...)
			if !c.need(len(s.sth), 1, "anchor", "tree head upload") || !c.need(len(s.ckpt), 1, "anchor", "checkpoint upload") {
				continue
			}
			c.dataTileOrder(s, t, "publishing a tree head")
			for _, k := range []string{"tree tile", "hashes", "issuer"} {
				c.before(s, k, t, "publishing a tree head")
			}
		}
	})
}
