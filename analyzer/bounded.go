package main

import "time"

// C33: submissions are answered in bounded time.

func init() {
	register("C33", func(c *Check) {
		subs := c.submissions()
		c.need(len(subs), 2, "anchor", "submission handlers")
		for _, s := range subs {
			c.use(s.g)
			c.boundedWaits(s)
			for _, n := range s.wins {
				r := s.sct(n)
				if r.why != "" {
					continue
				}
				rv := r.E
				if rv.op == OpExtract {
					rv = rv.args[0]
				}
				if rv.op == OpRecv {
					if why := s.waitsFor(n, unwrapConv(rv.args[0])); why != "" {
						c.bad("room", s.h.Label, c.at(n), "%s", why)
					} else {
						c.ok("room", s.h.Label+": the answer's channel has room", c.at(n))
					}
				}
			}
		}
		ss := c.w.sequencers()
		c.need(len(ss), 1, "anchor", "sequencers")
		for _, s := range ss {
			c.use(s.g)
			c.answers(s)
			c.neverWaits(s)
		}
	})
}

// timerLimit: the duration after which x delivers, when x is a timer's channel or
// the Done channel of a context with a timeout.
func timerLimit(x *Sym) (time.Duration, bool) {
	var d *Sym
	find(x, func(y *Sym) bool {
		switch {
		case isCallSym(y, "time.After"), isCallSym(y, "time.NewTimer"), isCallSym(y, "time.Tick"):
			d = y.args[0]
		case isCallSym(y, "context.WithTimeout"):
			d = y.args[1]
		}
		return d != nil
	})
	if d == nil {
		return 0, false
	}
	k, ok := unwrapConv(d).intVal()
	return time.Duration(k), ok
}

// boundedWaits: every wait in the handler has a timer beside it, whose expiry is
// answered with 503 and a Retry-After header.
func (c *Check) boundedWaits(s *submission) {
	K := s.h.Label
	n := 0
	var expiry []*Node
	for _, x := range s.g.Nodes {
		if !s.rs[x] || x.Ev == nil {
			continue
		}
		switch x.Ev.Kind {
		case EvWait:
			c.bad("wait", K, c.at(x), "the handler waits for other tasks without a time limit")
			continue
		case EvSend, EvRecv:
		default:
			if isCall(x.Ev, "sync.Cond).Wait") || isCall(x.Ev, "sync.WaitGroup).Wait") {
				c.bad("wait", K, c.at(x), "the handler waits for other tasks without a time limit")
			}
			continue
		}
		n++
		arms := x.Ev.Arms
		if len(arms) == 0 {
			arms = []*Event{x.Ev}
		}
		ok := false
		for _, a := range arms {
			if a == nil {
				ok = true // there is a default
				continue
			}
			if a.Kind != EvRecv {
				continue
			}
			if d, t := timerLimit(unwrapConv(a.Raw[0])); t && d > 0 && d <= time.Minute {
				ok = true
				if a == x.Ev {
					expiry = append(expiry, x)
				}
			}
		}
		if !ok {
			c.bad("wait", K, c.at(x), "the handler waits on %s without a time limit of at most a minute", short(x.Ev.Raw[0]))
			continue
		}
		c.ok("wait", K+": every wait has a time limit", c.at(x))
	}
	c.need(n, 1, "wait", K+": waits of the handler")
	c.need(len(expiry), 1, "expiry", K+": expired waits")
	retry := func(m *Node, e *Edge) bool {
		return m.Ev != nil && isCall(m.Ev, "http.Header).Set") && len(m.Ev.Args) > 1 && isStr(unwrapConv(m.Ev.Args[1]), "Retry-After")
	}
	for _, x := range expiry {
		reply := func(m *Node) bool { return isHTTPError(m.Ev) || isWriteHeader(m.Ev) }
		waits := func(m *Node) bool {
			return m != x && m.Ev != nil && (m.Ev.Kind == EvSend || m.Ev.Kind == EvRecv) && s.rs[m]
		}
		rs := reachable([]*Node{x}, func(m *Node, e *Edge) bool { return reply(m) || waits(m) })
		k := 0
		good := true
		for m := range rs {
			if m == x {
				continue
			}
			if reply(m) {
				k++
				if code, ok := replyCode(m.Ev); !ok || code != 503 {
					good = c.bad("expiry", K, c.at(m), "an expired wait is answered with status %d instead of 503", code)
				}
			}
			if waits(m) {
				k++
				if p := search([]*Node{m}, nil, func(y *Node) bool { return y == x }); p != nil {
					good = c.add(false, "expiry", K, c.at(m), "after a wait expired the handler can wait again, without limit", c.path(p)...)
				}
			}
		}
		if k == 0 {
			good = c.bad("expiry", K, c.at(x), "an expired wait is not answered")
			continue
		}
		if p := search([]*Node{x}, anyOf(retry, func(m *Node, e *Edge) bool { return waits(m) }), func(m *Node) bool { return isHTTPError(m.Ev) }); p != nil && good {
			good = c.add(false, "expiry", K, c.at(x), "an expired wait is answered without a Retry-After header", c.path(p)...)
		}
		if good {
			c.ok("expiry", K+": an expired wait is answered with 503 and Retry-After", c.at(x))
		}
	}
}

// neverWaits: the sequencer's only channel operations are taking up a batch and
// answering the submissions in it.
func (c *Check) neverWaits(s *Seq) {
	for _, n := range s.g.Nodes {
		if n.Ev == nil || n.Ev.Kind != EvSend && n.Ev.Kind != EvRecv {
			continue
		}
		if isNode(s.acks)(n) || isNode(s.recvs)(n) {
			continue
		}
		if n.Ev.Kind == EvRecv && len(n.Ev.Arms) > 0 {
			continue // an arm beside another one
		}
		c.bad("idle", "sequencer", c.at(n), "the sequencer also waits on %s", short(n.Ev.Raw[0]))
		return
	}
	c.ok("idle", "the sequencer only waits for batches and storage", "")
}
