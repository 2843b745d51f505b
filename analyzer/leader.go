package main

import "strings"

// C12: nothing is done without the lock.

const consulLock = "consul/api.Lock)."

func init() {
	register("C12", func(c *Check) {
		root := c.w.submit()
		if root == nil {
			c.bad("anchor", "submission server", "?", "the program was not found")
			return
		}
		c.use(root)
		locks := evNodes(root, func(e *Event) bool { return isCall(e, consulLock+"Lock") })
		if !c.need(len(locks), 1, "anchor", "acquisitions of the Consul lock") {
			return
		}
		c.lockFirst(root, locks)
		c.lockWatched(root, locks)
		c.stageEnds(root, locks)
		c.releases(root)
	})
}

// guarded: what may only happen while the lock is held.
func guardedNode(n *Node) string {
	if n.Ev == nil {
		return ""
	}
	switch {
	case n.Ev.Kind == EvStorage:
		return "storage is used"
	case isCall(n.Ev, "http.Serve"), isCall(n.Ev, "http.Server).Serve"), isCall(n.Ev, "http.Server).ListenAndServe"):
		return "requests are served"
	case isCall(n.Ev, "consul/api.KV).Get"):
		return "the configuration is read"
	}
	return ""
}

func (c *Check) lockFirst(root *Graph, locks []*Node) {
	kvpath := func(x *Sym, suffix string) bool {
		ps := strParts(x)
		return len(ps) == 2 && ps[0].op == OpParam && isStr(ps[1], suffix)
	}
	for _, l := range locks {
		h := unwrapConv(l.Ev.Args[0])
		good := h.op == OpExtract && h.n == 0
		if good {
			switch k := h.args[0]; {
			case isCallSym(k, "consul/api.Client).LockKey"):
				good = kvpath(k.args[1], "/lock")
			case isCallSym(k, "consul/api.Client).LockOpts"):
				o := k.args[1]
				for o.op == OpPtrTo || o.op == OpCopyOf {
					o = o.args[0]
				}
				key, once := fieldByName(o, "Key"), fieldByName(o, "LockTryOnce")
				good = key != nil && kvpath(key, "/lock") && once != nil && isZeroish(once)
			default:
				good = false
			}
		}
		if !good {
			c.bad("lock", "lock", c.at(l), "the lock is not the one at <kvpath>/lock: %s", short(h))
		}
		if len(l.Ev.Args) < 2 || !isNilSym(unwrapConv(l.Ev.Args[1])) {
			c.bad("lock", "lock", c.at(l), "waiting for the lock can be abandoned without an error, when its stop channel is closed")
		}
	}
	n := 0
	for _, x := range root.Nodes {
		what := guardedNode(x)
		spawn := x.Ev != nil && x.Ev.Kind == EvSpawn
		if what == "" && !spawn {
			continue
		}
		if spawn {
			for _, g := range x.Ev.tasks() {
				for _, y := range g.Nodes {
					if w := guardedNode(y); w != "" {
						what = "a task in which " + w + " is started"
					}
				}
			}
			if what == "" {
				continue
			}
		}
		n++
		held := false
		for _, l := range locks {
			held = held || c.nilKnown(root, x, l.Ev.Res)
		}
		if !held {
			c.bad("first", what, c.at(x), "%s although the lock may not have been acquired", what)
			continue
		}
		c.ok("first", what+" only after the lock was acquired", c.at(x))
		if isCall(x.Ev, "consul/api.KV).Get") && kvpath(x.Ev.Args[1], "/config") {
			o := x.Ev.Args[2]
			for o.op == OpPtrTo || o.op == OpCopyOf {
				o = o.args[0]
			}
			if v := fieldByName(o, "RequireConsistent"); v == nil || !isTrueSym(v) {
				c.bad("config", "configuration", c.at(x), "the configuration is not read consistently")
			} else if v := fieldByName(o, "AllowStale"); v != nil && !isZeroish(v) {
				c.bad("config", "configuration", c.at(x), "the configuration may be stale")
			}
		}
	}
	c.need(n, 5, "first", "storage accesses, task starts and server starts")
}

func isTrueSym(x *Sym) bool {
	b, ok := unwrapConv(x).boolVal()
	return ok && b
}

func (e *Event) tasks() []*Graph {
	var out []*Graph
	if e.Task != nil {
		out = append(out, e.Task)
	}
	return append(out, e.Tasks...)
}

// lockWatched: a task that ends the process when the lock is lost is running
// before anything else is done.
func (c *Check) lockWatched(root *Graph, locks []*Node) {
	for _, l := range locks {
		lost := Extract(l.Ev.Res, 0, nil)
		isLost := func(x *Sym) bool {
			x = unwrapConv(x)
			return x != nil && x.op == OpExtract && x.n == 0 && x.args[0] == lost.args[0]
		}
		var watchers []*Node
		why := ""
		for _, n := range root.Nodes {
			if n.Ev == nil || n.Ev.Kind != EvSpawn {
				continue
			}
			for _, g := range n.Ev.tasks() {
				rs := evNodes(g, func(e *Event) bool { return e.Kind == EvRecv && isLost(e.Raw[0]) })
				if len(rs) == 0 {
					continue
				}
				if w := watches(g, rs); w != "" {
					why = w
					continue
				}
				watchers = append(watchers, n)
			}
		}
		if len(watchers) == 0 {
			if why == "" {
				why = "no task waits for the loss of the lock"
			}
			c.bad("watch", "lock loss", c.at(l), "%s", why)
			continue
		}
		if p := search([]*Node{l}, outEdges(watchers).pred(), func(m *Node) bool { w := guardedNode(m); return w != "" && w != "the configuration is read" }); p != nil {
			c.add(false, "watch", "lock loss", c.at(p[len(p)-1]), "the log is loaded or served before the loss of the lock is watched for", c.path(p)...)
			continue
		}
		c.ok("watch", "the process ends when the lock is lost", c.at(watchers[0]))
	}
}

// watches: the task does nothing but wait for the loss and then end the process.
func watches(g *Graph, rs []*Node) string {
	lost := outEdges(rs).pred()
	if p := search([]*Node{g.Entry}, lost, func(n *Node) bool { return n.Ev != nil && n.Ev.Kind == EvReturn && n.ctx == g.Ctx }); p != nil {
		return "the task that watches for the loss of the lock can end before"
	}
	for _, n := range g.Nodes {
		if n.Ev == nil {
			continue
		}
		arm := false
		for _, r := range rs {
			for _, a := range r.Ev.Arms {
				arm = arm || a == n.Ev
			}
		}
		switch n.Ev.Kind {
		case EvRecv, EvSend, EvWait, EvStorage:
			if !isNode(rs)(n) && !arm {
				return "the task that watches for the loss of the lock also waits for something else"
			}
		}
		if strings.Contains(n.Ev.Name, "consul/api") || isCall(n.Ev, "time.Sleep") {
			return "the task that watches for the loss of the lock does something that can take long"
		}
	}
	for _, r := range rs {
		if p := search([]*Node{r}, nil, func(n *Node) bool { return n.Ev != nil && n.Ev.Kind == EvReturn && n.ctx == g.Ctx }); p != nil {
			return "the process does not end on every path after the lock was lost"
		}
		if p := search([]*Node{r}, nil, func(n *Node) bool { return n == r }); p != nil {
			return "after the lock was lost the task can go on waiting"
		}
	}
	return ""
}

// stageEnds: when the pool or the sequencer stops, so does the process.
func (c *Check) stageEnds(root *Graph, locks []*Node) {
	n := 0
	for _, g := range closureGraphs(root) {
		role := ""
		for _, p := range c.w.poolMakers() {
			if p.g == g {
				role = "pool"
			}
		}
		for _, s := range c.w.sequencers() {
			if s.g == g {
				role = "sequencer"
			}
		}
		if role == "" {
			continue
		}
		n++
		ends := evNodes(g, func(e *Event) bool {
			if !isCall(e, consulLock+"Unlock") {
				return false
			}
			for _, l := range locks {
				if eqCall(unwrapConv(e.Args[0]), unwrapConv(l.Ev.Args[0])) {
					return true
				}
			}
			return false
		})
		if role == "pool" {
			ends = append(ends, c.cancels(g)...)
		}
		if p := search([]*Node{g.Entry}, outEdges(ends).pred(), func(n *Node) bool { return n.Ev != nil && n.Ev.Kind == EvReturn && n.ctx == g.Ctx }); p != nil {
			c.add(false, "ends", role, c.at(p[len(p)-1]), "the "+role+" can stop while the log goes on accepting submissions and holding the lock", c.path(p)...)
			continue
		}
		for _, m := range ends {
			if isNode(ends)(m) {
				for _, x := range g.Nodes {
					if x.Ev != nil && (x.Ev.Kind == EvSend || x.Ev.Kind == EvRecv || x.Ev.Kind == EvStorage || x.Ev.Kind == EvSpawn) {
						if p := search([]*Node{m}, nil, func(y *Node) bool { return y == x }); p != nil {
							c.add(false, "ends", role, c.at(x), "the "+role+" goes on after the lock was released", c.path(p)...)
						}
					}
				}
			}
		}
		c.ok("ends", "when the "+role+" stops the lock is given up or the process ended", g.Name)
	}
	c.need(n, 2, "ends", "tasks of pool and sequencer")
}

// cancels: the calls that cancel a context whose end makes the sequencer stop.
func (c *Check) cancels(g *Graph) []*Node {
	var out []*Node
	for _, n := range evNodes(g, func(e *Event) bool { return e.Kind == EvCall && e.Res != nil && e.Name == "dynamic" }) {
		f := unwrapConv(n.Ev.Res.args[0])
		if f.op != OpExtract || f.n != 1 || f.args[0].op != OpCall || !(strings.HasPrefix(f.args[0].str, "context.With") || f.args[0].str == "os/signal.NotifyContext") {
			continue
		}
		ok := true
		for _, s := range c.w.sequencers() {
			done := evNodes(s.g, func(e *Event) bool {
				if e.Kind != EvRecv {
					return false
				}
				ch := unwrapConv(e.Raw[0])
				if !isCallSym(ch, "(context.Context).Done") {
					return false
				}
				x := unwrapConv(ch.args[0])
				return x.op == OpExtract && x.n == 0 && x.args[0] == f.args[0]
			})
			for _, r := range s.recvs {
				armed := false
				for _, a := range r.Ev.Arms {
					for _, d := range done {
						armed = armed || a == d.Ev
					}
				}
				ok = ok && armed
			}
			ok = ok && search(done, nil, isNode(s.recvs)) == nil
		}
		if ok {
			out = append(out, n)
		}
	}
	return out
}

// releases: the lock is given up only where the sequencer has stopped.
func (c *Check) releases(root *Graph) {
	n := 0
	gs := closureGraphs(root)
	var closed []*Sym
	for _, g := range gs {
		for _, x := range g.Nodes {
			if x.Ev != nil && x.Ev.Kind == EvClose {
				closed = append(closed, unwrapConv(x.Ev.Raw[0]))
			}
		}
	}
	seqs := c.w.sequencers()
	for _, g := range gs {
		for _, x := range g.Nodes {
			if x.Ev == nil || !(isCall(x.Ev, consulLock+"Unlock") || isCall(x.Ev, consulLock+"Destroy") || isCall(x.Ev, "consul/api.Session).Destroy") || isCall(x.Ev, "consul/api.KV).Release")) {
				continue
			}
			n++
			var s *Seq
			for _, q := range seqs {
				if q.g == g {
					s = q
				}
			}
			if s != nil {
				if p := search([]*Node{x}, nil, isNode(s.recvs)); p != nil {
					c.add(false, "release", "sequencer", c.at(x), "the lock is released while the sequencer goes on", c.path(p)...)
				} else {
					c.ok("release", "the sequencer has stopped when its task releases the lock", c.at(x))
				}
				continue
			}
			// channels never closed do not end, and the background context does not either
			blk := func(m *Node, e *Edge) bool {
				if m.Ev != nil && m.Ev.Kind == EvRecv {
					ch := unwrapConv(m.Ev.Raw[0])
					if isCallSym(ch, "(context.Context).Done") && isCallSym(unwrapConv(ch.args[0]), "context.Background") {
						return true
					}
				}
				for _, f := range e.Facts {
					q, v := normFact(f)
					if q.op != OpRecvOk || v {
						continue
					}
					ch := unwrapConv(q.args[0])
					open := ch.op == OpMakeChan
					for _, k := range closed {
						if k == ch || k.op != OpMakeChan {
							open = false
						}
					}
					if open {
						return true
					}
				}
				return false
			}
			if x != g.Entry && search([]*Node{g.Entry}, blk, func(m *Node) bool { return m == x }) == nil {
				c.ok("release", "not reached while the log is running", c.at(x))
				continue
			}
			where := "another task"
			for _, y := range g.Nodes {
				if y.Ev == nil || y.Ev.Kind != EvRecv || search([]*Node{g.Entry}, outEdges([]*Node{y}).pred(), func(m *Node) bool { return m == x }) != nil {
					continue
				}
				for _, z := range evNodes(root, func(e *Event) bool { return isCall(e, "os/signal.Notify") }) {
					if unwrapConv(z.Ev.Raw[0]) == unwrapConv(y.Ev.Raw[0]) {
						where = "on a signal"
					}
				}
			}
			c.bad("release", where, c.at(x), "the lock is released although the sequencer may still be writing, so another instance can start from a tree that is being changed")
		}
	}
	if n == 0 {
		c.ok("release", "the lock is never released while the process runs", "")
	}
}
