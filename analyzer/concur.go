package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// --- shared memory ------------------------------------------------------------------------

// activity is something that runs concurrently with the others.
type activity struct {
	name string
	g    *Graph
	self bool // several instances run at the same time
	own  map[*Ctx]bool
}

func newActivity(name string, g *Graph, self bool) *activity {
	a := &activity{name: name, g: g, self: self, own: map[*Ctx]bool{}}
	for _, h := range closureGraphs(g) {
		a.own[h.Ctx] = true
	}
	return a
}

// shared: the memory an access refers to was made outside the activity.
func (a *activity) shared(addr *Sym) bool {
	root := memRoot(addr)
	if root == nil {
		return false
	}
	if root.op == OpGlobal {
		return true
	}
	return root.ctx != nil && !a.own[root.ctx.root()]
}

// memRoot: the variable, map or slice memory an address lies in.
func memRoot(addr *Sym) *Sym {
	x := addr
	for x != nil {
		switch x.op {
		case OpMapKey, OpFieldAddr, OpElemAddr, OpSlice, OpConv, OpVerKey:
			if len(x.args) == 0 {
				return nil
			}
			x = x.args[0]
		case OpAlloc, OpMakeMap, OpMakeSlice, OpGlobal:
			return x
		case OpPtrTo, OpIface:
			x = x.args[0]
		default:
			return nil
		}
	}
	return nil
}

// overlap: two addresses may be the same memory.
func overlap(a, b *Sym) bool {
	if a == b {
		return true
	}
	if memRoot(a) != memRoot(b) || memRoot(a) == nil {
		return false
	}
	pa, pb := memPath(a), memPath(b)
	for i := 0; i < len(pa) && i < len(pb); i++ {
		x, y := pa[i], pb[i]
		if x.op != y.op {
			return x.op == OpMapKey || y.op == OpMapKey
		}
		if x.op == OpFieldAddr && x.n != y.n {
			return false
		}
		if x.op == OpElemAddr {
			i, ok := x.args[1].intVal()
			j, ok2 := y.args[1].intVal()
			if ok && ok2 && i != j {
				return false
			}
		}
	}
	return true
}

// memPath: the steps from the root to the address.
func memPath(a *Sym) []*Sym {
	var out []*Sym
	for x := a; x != nil; {
		switch x.op {
		case OpFieldAddr, OpElemAddr, OpMapKey:
			out = append(out, x)
			x = x.args[0]
		case OpSlice, OpConv, OpIface, OpPtrTo:
			x = x.args[0]
		default:
			x = nil
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// guarded: a lock is held at both accesses, fully at the write.
func guarded(w, o map[*Sym]bool) bool {
	for l := range w {
		if l.op != OpUn && (o[l] || o[readLock(l)]) {
			return true
		}
	}
	return false
}

func locksAt(g *Graph, a *Sym, write bool) map[*Sym]bool {
	if write {
		return g.WLocks[a]
	}
	return g.RLocks[a]
}

// conflict finds memory that a writes and b accesses without a common lock.
func conflict(c *Check, a, b *activity) (string, string) {
	var ws []*Sym
	for x := range a.g.Writes {
		if a.shared(x) && b.shared(x) {
			ws = append(ws, x)
		}
	}
	sort.Slice(ws, func(i, j int) bool { return ws[i].id < ws[j].id })
	for _, x := range ws {
		for _, write := range []bool{true, false} {
			m := b.g.Reads
			if write {
				m = b.g.Writes
			}
			var ys []*Sym
			for y := range m {
				if b.shared(y) && overlap(x, y) {
					ys = append(ys, y)
				}
			}
			sort.Slice(ys, func(i, j int) bool { return ys[i].id < ys[j].id })
			for _, y := range ys {
				if guarded(locksAt(a.g, x, true), locksAt(b.g, y, write)) {
					continue
				}
				verb := "read"
				if write {
					verb = "written"
				}
				where := c.w.e.pos(a.g.Writes[x])
				return where, fmt.Sprintf("%s is written by the %s and %s by the %s (%s) without a common lock", short(x), a.name, verb, b.name, c.w.e.pos(m[y]))
			}
		}
	}
	return "", ""
}

// activities lists what runs concurrently in a program.
func (c *Check) activities(root *Graph) []*activity {
	var out []*activity
	seen := map[*Graph]bool{}
	for _, g := range closureGraphs(root) {
		for _, n := range g.Nodes {
			if n.Ev == nil || n.Ev.Kind != EvSpawn || n.Ev.Group != nil || n.Ev.Task == nil || seen[n.Ev.Task] {
				continue
			}
			seen[n.Ev.Task] = true
			out = append(out, newActivity("task started at "+c.at(n), n.Ev.Task, false))
		}
	}
	for _, h := range c.w.handlers(root) {
		if !seen[h.G] {
			seen[h.G] = true
			out = append(out, newActivity("handler of "+h.Label, h.G, true))
		}
	}
	return out
}

func (c *Check) noSharing(root *Graph, what string) {
	as := c.activities(root)
	if !c.need(len(as), 1, "anchor", what+": concurrent activities") {
		return
	}
	for i, a := range as {
		c.use(a.g)
		good := true
		for j, b := range as {
			if i == j && !a.self {
				continue
			}
			// variants of the same task exclude each other
			if i != j && a.name == b.name && !a.self {
				continue
			}
			if at, why := conflict(c, a, b); why != "" {
				good = c.bad("shared", a.name, at, "%s", why)
			}
		}
		if good {
			c.ok("shared", a.name+": writes no memory another activity uses", "")
		}
	}
}

// --- memory used by a running upload -------------------------------------------------------

// loopsOf: the loops of g whose body makes the variable anew.
func madeIn(al *Sym, k loopKey) bool {
	return al.ins != nil && inLoopCtx(al.ctx, al.ins.Block(), k)
}

// groupWaits: edges out of the waits for a group of tasks.
func groupWaits(g *Graph, group *Sym) edgeSet {
	var ns []*Node
	for _, n := range g.Nodes {
		if n.Ev != nil && n.Ev.Kind == EvWait && (group == nil || n.Ev.Group == nil || n.Ev.Group == group) {
			ns = append(ns, n)
		}
	}
	return outEdges(ns)
}

// borrowed: while a task may run, what it reads is not changed by the code that
// started it, and what it writes is not touched by another task.
func (c *Check) borrowed(g *Graph) (spawns int) {
	for _, n := range g.Nodes {
		if n.Ev == nil || n.Ev.Kind != EvSpawn || n.Ev.Task == nil || n.st == nil {
			continue
		}
		spawns++
		t := newActivity("task", n.Ev.Task, false)
		waits := edgeSet{}
		if n.Ev.Group != nil {
			waits = groupWaits(g, n.Ev.Group)
		}
		label := "task started at " + c.at(n)
		good := true
		// reads of variables the starter changes
		seen := map[*Sym]bool{}
		var cells []*Sym
		for a := range n.Ev.Task.Reads {
			r := memRoot(a)
			if r == nil || !t.shared(a) || r.op != OpAlloc && r.op != OpMakeMap && r.op != OpMakeSlice || seen[a] {
				continue
			}
			seen[a] = true
			cells = append(cells, a)
		}
		sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
		for _, a := range cells {
			root := memRoot(a)
			v0 := cellValue(n.st, a)
			if v0 == nil {
				continue
			}
			blk := anyOf(waits.pred(), func(m *Node, e *Edge) bool { return e.Back != nil && madeIn(root, *e.Back) })
			p := search([]*Node{n}, blk, func(m *Node) bool {
				if m.st == nil {
					return false
				}
				v := cellValue(m.st, a)
				return v != nil && v != v0
			})
			if p != nil {
				good = c.add(false, "borrow", label, c.at(p[len(p)-1]), fmt.Sprintf("%s is changed while the task that reads it may be running", short(a)), c.path(p)...)
				break
			}
		}
		// writes shared with another task of the same kind
		for _, m := range g.Nodes {
			if m.Ev == nil || m.Ev.Kind != EvSpawn || m.Ev.Task == nil {
				continue
			}
			if search([]*Node{n}, waits.pred(), func(x *Node) bool { return x == m }) == nil {
				continue
			}
			o := newActivity("task started at "+c.at(m), m.Ev.Task, false)
			w := newActivity(label, n.Ev.Task, false)
			if at, why := c.taskConflict(g, w, o, n, m); why != "" {
				good = c.bad("borrow", label, at, "%s", why)
				break
			}
		}
		if good {
			c.ok("borrow", label+": its memory is left alone until it is done", c.at(n))
		}
	}
	return
}

func cellValue(st *State, a *Sym) *Sym {
	if a.op == OpMapKey {
		return st.mem[a]
	}
	if a.op == OpVerKey || a.typ == nil {
		return st.mem[a]
	}
	if !st.cellsUnder(a) {
		return nil // no longer of interest to the code that follows
	}
	return st.load(a, derefT(a.typ))
}

// taskConflict: memory two tasks of one group use, one of them writing.
func (c *Check) taskConflict(g *Graph, a, b *activity, n, m *Node) (string, string) {
	for x := range a.g.Writes {
		root := memRoot(x)
		if root == nil || !a.shared(x) || !b.shared(x) {
			continue
		}
		// memory made anew for each task
		fresh := false
		for k := range g.Loops {
			if madeIn(root, k) && loopContains(g.Loops[k], n) && loopContains(g.Loops[k], m) {
				fresh = true
			}
		}
		if fresh && n == m {
			continue
		}
		for _, write := range []bool{true, false} {
			acc := b.g.Reads
			if write {
				acc = b.g.Writes
			}
			for y := range acc {
				if !overlap(x, y) || guarded(locksAt(a.g, x, true), locksAt(b.g, y, write)) {
					continue
				}
				if n == m && x == y && perTaskElem(g, x, n) {
					continue
				}
				return c.w.e.pos(a.g.Writes[x]), fmt.Sprintf("%s is written by the %s and used by the %s at the same time", short(x), a.name, b.name)
			}
		}
	}
	return "", ""
}

// origins lists the values whose memory a slice value may lie in, through loops
// and appends that extend in place.
func origins(g *Graph, x *Sym, out map[*Sym]bool, trunc map[*Sym]bool) {
	x = unwrapConv(x)
	if x == nil || out[x] {
		return
	}
	switch x.op {
	case OpSlice:
		if x.args[2] != nil && x.args[2] != Len(x.args[0]) && trunc != nil && !isArrayPtr(x.args[0]) {
			trunc[x] = true
		}
		out[x] = true
		origins(g, x.args[0], out, trunc)
	case OpSnapSlice, OpAppend:
		out[x] = true
		origins(g, x.args[0], out, trunc)
	case OpPhi, OpWCell:
		out[x] = true
		if h, li := findLoop(g, x); h != nil && li != nil {
			for _, n := range li.Heads {
				origins(g, n.Init[x], out, trunc)
			}
			for _, b := range li.Backs {
				origins(g, b.Vals[x], out, trunc)
			}
		}
	case OpField:
		out[x] = true
		if b := x.args[0]; b.op == OpPhi || b.op == OpWCell {
			if h, li := findLoop(g, b); h != nil && li != nil {
				for _, n := range li.Heads {
					if v := n.Init[b]; v != nil {
						origins(g, Field(v, int(x.n), x.typ, x.str), out, trunc)
					}
				}
				for _, bk := range li.Backs {
					if v := bk.Vals[b]; v != nil {
						origins(g, Field(v, int(x.n), x.typ, x.str), out, trunc)
					}
				}
			}
		}
	default:
		if isCallSym(x, "sunlight.AppendTileLeaf") {
			out[x] = true
			origins(g, x.args[0], out, trunc)
			return
		}
		if x.op == OpMakeSlice || x.op == OpAlloc || x.op == OpLookup || x.op == OpLoad {
			out[x] = true
		}
	}
}

func isArrayPtr(x *Sym) bool {
	if x.typ == nil {
		return false
	}
	p, ok := x.typ.Underlying().(*types.Pointer)
	return ok && isArray(p.Elem()) != nil
}

// reused: no slice is cut short and filled again while an upload may still be
// reading the memory it lies in.
func (c *Check) reused(g *Graph) {
	inUse := map[*Sym]bool{}
	for _, n := range g.Nodes {
		if n.Ev == nil || n.Ev.Kind != EvSpawn || n.Ev.Task == nil {
			continue
		}
		for _, h := range closureGraphs(n.Ev.Task) {
			for _, m := range h.Nodes {
				if isStorage(m.Ev, "Set") && len(m.Ev.Raw) > 3 {
					origins(g, m.Ev.Raw[3], inUse, nil)
					origins(g, m.Ev.Args[3], inUse, nil)
				}
			}
		}
	}
	n := 0
	for _, m := range g.Nodes {
		if m.Ev == nil || m.Ev.Kind != EvCall || len(m.Ev.Raw) == 0 || m.Ev.Name != "append" && m.Ev.Name != "copy" && !strings.HasSuffix(m.Ev.Name, "sunlight.AppendTileLeaf") {
			continue
		}
		n++
		or, tr := map[*Sym]bool{}, map[*Sym]bool{}
		origins(g, m.Ev.Raw[0], or, tr)
		for t := range tr {
			base := map[*Sym]bool{}
			origins(g, t.args[0], base, nil)
			for b := range base {
				if inUse[b] {
					c.bad("reuse", "memory of an upload", c.at(m), "bytes are written into memory an upload may still be reading: %s was cut short and is filled again", short(t.args[0]))
					return
				}
			}
		}
	}
	c.ok("reuse", "no upload's memory is filled again", "")
}

// perTaskElem: the address is the element of a slice picked by the counter of the
// loop that starts the tasks.
func perTaskElem(g *Graph, x *Sym, n *Node) bool {
	for _, s := range memPath(x) {
		if s.op != OpElemAddr {
			continue
		}
		cn, why := idxCounter(g, s.args[1])
		if why == "" && loopContains(cn.li, n) {
			return true
		}
	}
	return false
}

func init() {
	register("C26", func(c *Check) {
		for what, root := range map[string]*Graph{"write side": c.w.submit(), "read side": c.w.monitor()} {
			if root == nil {
				c.bad("anchor", what, "?", "the program was not found")
				continue
			}
			c.noSharing(root, what)
		}
	})
}
