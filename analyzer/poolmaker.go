package main

import (
	"go/types"
)

// PoolMaker is the task that takes submitted entries from the handlers' channel,
// numbers them and hands batches to the sequencer.
type PoolMaker struct {
	w     *World
	g     *Graph
	recvs []*Node // takes one submission
	sends []*Node // hands over a batch
	li    *LoopInfo
	pool  *Sym // the batch being collected, at the head of the loop
	seq   *Sym // the number of the next entry, at the head of the loop
	elem  *types.Struct
	elemT types.Type
	back  map[*BackInfo]*poolStep
	cont  map[*Node]*contents // what each send hands over
	probs []prob
}

// poolStep is what one way through the loop does to the batch.
type poolStep struct {
	b     *BackInfo
	after *contents
}

// contents is a slice as the batch at the head of the loop (or nothing)
// extended by elements.
type contents struct {
	base  bool // starts with the batch at the head of the loop
	elems []*Sym
}

func (x *contents) same(y *contents) bool {
	if x.base != y.base || len(x.elems) != len(y.elems) {
		return false
	}
	for i := range x.elems {
		if x.elems[i] != y.elems[i] {
			return false
		}
	}
	return true
}

func sliceElemStruct(t types.Type) (types.Type, *types.Struct) {
	if t == nil {
		return nil, nil
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, nil
	}
	el := sl.Elem()
	st, ok := el.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	return el, st
}

// poolMakers finds the tasks that number submissions.
func (w *World) poolMakers() []*PoolMaker {
	root := w.submit()
	if root == nil {
		return nil
	}
	var out []*PoolMaker
	for _, g := range closureGraphs(root) {
		p := &PoolMaker{w: w, g: g, back: map[*BackInfo]*poolStep{}, cont: map[*Node]*contents{}}
		for _, n := range g.Nodes {
			if n.Ev == nil {
				continue
			}
			if n.Ev.Kind == EvRecv && n.Ev.Res != nil && n.Ev.Res.typ != nil {
				if structOf(n.Ev.Res, "UnsequencedEntry") != nil {
					p.recvs = append(p.recvs, n)
				}
			}
			if n.Ev.Kind == EvSend && len(n.Ev.Raw) > 1 && n.Ev.Raw[1] != nil {
				if el, st := sliceElemStruct(n.Ev.Raw[1].typ); st != nil {
					p.sends = append(p.sends, n)
					p.elem, p.elemT = st, el
				}
			}
		}
		if len(p.recvs) == 0 {
			continue
		}
		p.analyse()
		out = append(out, p)
	}
	return out
}

func (p *PoolMaker) problem(rule string, at *Node, msg string, path ...*Node) {
	p.probs = append(p.probs, prob{rule, "batch", at, msg, path})
}

func (p *PoolMaker) analyse() {
	g := p.g
	if len(p.sends) == 0 {
		p.problem("anchor", p.recvs[0], "entries are taken up but no batch is handed on")
		return
	}
	// the loop every receive is in, and its slice variable
	for _, li := range g.Loops {
		all := true
		for _, n := range append(append([]*Node{}, p.recvs...), p.sends...) {
			all = all && loopContains(li, n)
		}
		if !all {
			continue
		}
		for _, s := range li.Syms {
			el, _ := sliceElemStruct(s.typ)
			if el == nil || !types.Identical(el, p.elemT) {
				continue
			}
			if p.pool != nil && p.pool != s {
				p.problem("anchor", li.Heads[0], "two batches are collected at the same time")
				return
			}
			p.li, p.pool = li, s
		}
	}
	if p.pool == nil {
		p.problem("anchor", p.recvs[0], "no loop collects entries into a batch")
		return
	}
	for _, h := range p.li.Heads {
		if iv, ok := h.Init[p.pool]; ok && !isEmptySlice(iv) {
			p.problem("start", h, "the first batch does not start empty: "+short(iv))
		}
	}
	for _, b := range p.li.Backs {
		v, ok := b.Vals[p.pool]
		if !ok {
			v = p.pool
		}
		c := p.contents(v)
		if c == nil {
			p.problem("batch", b.From, "the batch is changed in an unrecognised way: "+short(v))
			continue
		}
		p.back[b] = &poolStep{b, c}
	}
	for _, n := range p.sends {
		c := p.contents(n.Ev.Args[1])
		if c == nil {
			p.problem("batch", n, "what is handed over is not the batch: "+short(n.Ev.Args[1]))
			continue
		}
		p.cont[n] = c
	}
}

// contents takes a slice value apart.
func (p *PoolMaker) contents(x *Sym) *contents {
	for x != nil {
		switch {
		case x == p.pool:
			return &contents{base: true}
		case x.op == OpConv || x.op == OpCopyOf:
			x = x.args[0]
		case x.op == OpSnapSlice && (x.args[1] == nil || x.args[1].isInt(0)) && (x.args[2] == nil || x.args[2] == Len(x.args[0])):
			x = x.args[0]
		case x.op == OpSlice && (x.args[1] == nil || x.args[1].isInt(0)) && (x.args[2] == nil || x.args[2] == Len(x.args[0])):
			x = x.args[0]
		case x.op == OpArray && x.args[0] == nil:
			c := &contents{}
			for _, a := range x.args[1:] {
				c.elems = append(c.elems, a)
			}
			return c
		case isEmptySlice(x):
			return &contents{}
		case x.op == OpAppend && len(x.args) == 2:
			a, b := p.contents(x.args[0]), p.contents(x.args[1])
			if a == nil || b == nil {
				return nil
			}
			if len(a.elems) == 0 && !a.base {
				return b
			}
			if b.base {
				return nil
			}
			return &contents{a.base, append(append([]*Sym{}, a.elems...), b.elems...)}
		default:
			return nil
		}
	}
	return nil
}

// rootAlloc: the object a slice value lives in.
func rootAlloc(x *Sym) *Sym {
	for x != nil {
		switch x.op {
		case OpConv, OpSlice, OpSnapSlice:
			x = x.args[0]
		default:
			return x
		}
	}
	return nil
}

// between: a path from the loop's head to node n, within one iteration.
func (p *PoolMaker) between(block edgePred, target func(*Node) bool) []*Node {
	back := func(n *Node, e *Edge) bool {
		return e.Back != nil && *e.Back == p.li.Key || block != nil && block(n, e)
	}
	return search(p.li.Heads, back, target)
}

// each runs f for every way an iteration can end, with the receives it can have
// made: none, or the given one.
func (p *PoolMaker) recvOn(b *BackInfo) (rs []*Node, none []*Node) {
	tgt := func(m *Node) bool { return m == b.From }
	for _, r := range p.recvs {
		if p.between(nil, func(m *Node) bool { return m == r }) == nil {
			continue
		}
		if r == b.From || search([]*Node{r}, p.inIter(), tgt) != nil {
			rs = append(rs, r)
		}
	}
	none = p.between(outEdges(p.recvs).pred(), tgt)
	if isNode(p.recvs)(b.From) {
		none = nil
	}
	return
}

func (p *PoolMaker) inIter() edgePred {
	return func(n *Node, e *Edge) bool { return e.Back != nil && *e.Back == p.li.Key }
}

// conserve: what is taken up is put into the batch exactly once, and a batch is
// handed over before it is emptied, and not also kept.
func (p *PoolMaker) conserve(c *Check) {
	g := p.g
	c.use(g)
	for _, q := range p.probs {
		c.add(false, q.rule, q.cons, c.at(q.at), q.msg, c.path(q.path)...)
	}
	if p.pool == nil || len(p.probs) > 0 {
		return
	}
	for _, r := range p.recvs {
		if q := search([]*Node{r}, p.inIter(), func(m *Node) bool { return m != r && isNode(p.recvs)(m) }); q != nil {
			c.add(false, "batch", "batch", c.at(r), "a second submission is taken up before the first is in the batch", c.path(q)...)
		}
	}
	for _, b := range p.li.Backs {
		st := p.back[b]
		rs, none := p.recvOn(b)
		var want []*contents
		if none != nil {
			want = append(want, &contents{base: true})
		}
		for _, r := range rs {
			want = append(want, &contents{true, []*Sym{r.Ev.Res}})
		}
		for i, w := range want {
			what := "nothing was taken up"
			if len(w.elems) > 0 {
				what = "a submission was taken up"
			}
			if i == 0 && none != nil && len(rs) > 0 {
				// the way without a receive shares its end with one that has one
				c.add(false, "batch", "batch", c.at(b.From), "the batch is treated alike whether or not a submission was taken up", c.path(none)...)
				continue
			}
			// sends on the way
			var good []*Node
			for _, n := range p.sends {
				if p.between(nil, func(m *Node) bool { return m == n }) == nil || n != b.From && search([]*Node{n}, p.inIter(), func(m *Node) bool { return m == b.From }) == nil {
					continue
				}
				if p.matches(p.cont[n], w) {
					good = append(good, n)
				} else {
					c.bad("batch", "batch", c.at(n), "what is handed over is not the batch with everything taken up so far: %s", short(n.Ev.Args[1]))
				}
			}
			for _, n := range good {
				if q := search([]*Node{n}, p.inIter(), func(m *Node) bool { return m != n && isNode(p.sends)(m) }); q != nil {
					c.add(false, "batch", "batch", c.at(n), "a batch can be handed over twice", c.path(q)...)
				}
			}
			switch {
			case p.matches(st.after, w):
				if len(good) > 0 {
					c.bad("batch", "batch", c.at(good[0]), "a batch that was handed over is also kept")
				} else {
					c.ok("batch", "the batch is kept while "+what, c.at(b.From))
				}
			case !st.after.base && len(st.after.elems) == 0:
				if q := p.between(outEdges(good).pred(), func(m *Node) bool { return m == b.From }); q != nil && !isNode(good)(b.From) {
					c.add(false, "batch", "batch", c.at(b.From), "the batch is emptied without having been handed over", c.path(q)...)
				} else {
					c.ok("batch", "the batch is handed over and emptied when "+what, c.at(b.From))
				}
			default:
				c.bad("batch", "batch", c.at(b.From), "the batch is not the earlier one with everything taken up: %s, when %s", short(b.Vals[p.pool]), what)
			}
		}
	}
}

// matches: got is the batch want, its elements made from the received submissions.
func (p *PoolMaker) matches(got, want *contents) bool {
	if got == nil || got.base != want.base || len(got.elems) != len(want.elems) {
		return false
	}
	for i, e := range got.elems {
		if find(e, func(y *Sym) bool { return y == want.elems[i] }) == nil {
			return false
		}
	}
	return true
}

// newElems lists the elements added to batches.
func (p *PoolMaker) newElems() map[*Sym]*Node {
	out := map[*Sym]*Node{}
	for b, st := range p.back {
		for _, e := range st.after.elems {
			out[e] = b.From
		}
	}
	for n, ct := range p.cont {
		if ct != nil {
			for _, e := range ct.elems {
				out[e] = n
			}
		}
	}
	return out
}

// elemEntry takes a batch element apart: the log entry, the channel answered on
// and the submission both come from.
func (p *PoolMaker) elemEntry(e *Sym) (ent, ret, sub *Sym, why string) {
	ent, ret = structOf(e, "LogEntry"), chanField(e)
	if ent == nil || ret == nil {
		return nil, nil, nil, "the element has no entry or no channel: " + short(e)
	}
	if ret.op != OpField || ret.args[0].op != OpRecv {
		return nil, nil, nil, "the answer's channel is not the submission's: " + short(ret)
	}
	return ent, ret, ret.args[0], ""
}

// poolPairs: each entry keeps the channel it was submitted with.
func (c *Check) poolPairs() {
	ps := c.w.poolMakers()
	c.need(len(ps), 1, "anchor", "tasks that collect submissions")
	for _, p := range ps {
		c.use(p.g)
		for _, q := range p.probs {
			c.add(false, q.rule, q.cons, c.at(q.at), q.msg, c.path(q.path)...)
		}
		es := p.newElems()
		c.need(len(es), 1, "pair", "entries put into batches")
		for e, n := range es {
			ent, _, sub, why := p.elemEntry(e)
			if why != "" {
				c.bad("pair", "batch", c.at(n), "%s", why)
				continue
			}
			if why := sequenced(ent, structOf(sub, "UnsequencedEntry")); why != "" {
				c.bad("pair", "batch", c.at(n), "%s", why)
				continue
			}
			c.ok("pair", "an entry keeps its own channel", c.at(n))
		}
	}
}

// sequenced: the entry has every field of the submission.
func sequenced(ent, sub *Sym, same ...func(name string, a, b *Sym) bool) string {
	st, ok := sub.typ.Underlying().(*types.Struct)
	if !ok {
		return "not a submission: " + short(sub)
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		got := fieldByName(ent, f.Name())
		want := Field(sub, i, f.Type(), f.Name())
		if got == nil || unwrapConv(got) != unwrapConv(want) {
			if got != nil && len(same) > 0 && same[0](f.Name(), got, want) {
				continue
			}
			return "the entry's " + f.Name() + " is not that of the submission: " + short(got)
		}
	}
	return ""
}
