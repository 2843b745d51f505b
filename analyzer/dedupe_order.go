package main

// C34: a duplicate record promises a place in a published tree.

func init() {
	register("C34", func(c *Check) {
		ss := c.w.sequencers()
		c.use(c.w.submit())
		if !c.need(len(ss), 1, "anchor", "sequencer task") {
			return
		}
		for _, s := range ss {
			if !c.need(len(s.sth), 1, "anchor", "tree head upload") {
				continue
			}
			writes := func(n *Node) bool {
				return n.Ev != nil && isStorage(n.Ev, "Set") && len(n.Ev.Args) > 3 && hasPrefixConst(n.Ev.Args[2], "int/dedupe/")
			}
			var dd []*Node
			for _, n := range s.g.Nodes {
				if n.Ev == nil {
					continue
				}
				hit := writes(n)
				for _, t := range n.Ev.tasks() {
					for _, h := range closureGraphs(t) {
						c.use(h)
						for _, x := range h.Nodes {
							hit = hit || writes(x)
						}
					}
				}
				if hit {
					dd = append(dd, n)
				}
			}
			// no other task of the server writes them either
			for _, g := range closureGraphs(c.w.submit()) {
				for _, x := range g.Nodes {
					if !writes(x) {
						continue
					}
					own := false
					for p := g; p != nil && !own; p = p.Parent {
						for _, q := range ss {
							own = own || p == q.g
						}
					}
					if !own {
						c.bad("published", "duplicate records", c.at(x), "a duplicate record is written outside the sequencer")
					}
				}
			}
			if !c.need(len(dd), 1, "anchor", "uploads of duplicate records") {
				continue
			}
			ok := okEdges(s.g, s.sth)
			blk := anyOf(ok.pred(), s.reenter())
			for _, n := range dd {
				if p := search(s.recvs, blk, func(x *Node) bool { return x == n }); p != nil {
					c.add(false, "published", "duplicate records", c.at(n), "a duplicate record can be written for an entry that is not in a published tree", c.path(p)...)
					continue
				}
				c.ok("published", "duplicate records only after the tree head", c.at(n))
			}
		}
	})
}
