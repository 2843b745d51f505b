package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type EvKind int

const (
	EvCall EvKind = iota
	EvStorage
	EvSpawn
	EvWait
	EvSend
	EvRecv
	EvReturn
	EvExit
	EvPanic
	EvBegin // start of a length-prefixed cryptobyte section
	EvEnd
	EvClose
	EvStoreGlobal
)

var evNames = []string{"call", "storage", "spawn", "wait", "send", "recv", "return", "exit", "panic", "begin", "end", "close", "storeglobal"}

type Event struct {
	Kind     EvKind
	Name     string // callee, or storage method
	Args     []*Sym // snapshots
	Raw      []*Sym
	Res      *Sym
	Pos      token.Pos
	Ctx      *Ctx
	Ins      ssa.Instruction
	Blocking bool
	Arms     []*Event // select arms considered together with this one (including itself)
	Task     *Graph   // spawned task or callback bodies
	Tasks    []*Graph
	Group    *Sym
}

type Fact struct {
	C *Sym
	V bool
}
type Edge struct {
	To    *Node
	Facts []Fact
	Back  *loopKey
}
type Node struct {
	id   int
	g    *Graph
	ctx  *Ctx
	b    *ssa.BasicBlock
	idx  int
	st   *State
	Ev   *Event
	Head *loopKey // loop header node
	Out  []Edge
	// for loop heads: initial values of the widened terms
	Init map[*Sym]*Sym
	done bool
}

type BackInfo struct {
	From *Node
	H    *Node
	Vals map[*Sym]*Sym
	St   *State // state on the back edge
}
type LoopInfo struct {
	Key   loopKey
	Heads []*Node
	Backs []*BackInfo
	Syms  []*Sym
}

// Graph is the exploded supergraph of one task (root function plus everything
// inlined into it).
type Graph struct {
	Name   string
	Fn     *ssa.Function
	Args   []*Sym
	Entry  *Node
	Nodes  []*Node
	Loops  map[loopKey]*LoopInfo
	Writes map[*Sym]token.Pos
	Reads  map[*Sym]token.Pos
	WLocks map[*Sym]map[*Sym]bool // locks held at every write
	RLocks map[*Sym]map[*Sym]bool
	Ctx    *Ctx
	Parent *Graph
	Via    *Event
	Funcs  map[*ssa.Function]bool
	Undec  []string
	Obls   []*Obl
	St0    *State
}

type Run struct {
	e     *Engine
	g     *Graph
	widen map[loopKey]map[any]bool
	drop  map[loopKey]map[string]bool
	mode  map[loopKey]int
	nodes map[string]*Node
	work  []*Node
	depth int
	steps int
}

type restart struct{}

const maxNodes = 60000

// maxSteps bounds the nodes explored in a whole run, restarts included.
const maxSteps = 600000

func (e *Engine) explore(name string, fn *ssa.Function, args, bindings []*Sym, st *State, depth int) *Graph {
	base := newState()
	for k, v := range st.mem {
		base.mem[k] = v
	}
	for k, v := range st.facts {
		base.facts[k] = v
	}
	ck := name + fn.String()
	for _, a := range args {
		ck += fmt.Sprint(",", a.id)
	}
	for _, a := range bindings {
		ck += fmt.Sprint(";", a.id)
	}
	base.gc(append(append([]*Sym{}, args...), bindings...)...)
	key := ck + "|" + base.key()
	if g, ok := e.cache[key]; ok {
		return g
	}
	saved := curGen
	curGen = ""
	defer func() { curGen = saved }()
	ctx := mkCtx(nil, nil, fn, kRoot, fmt.Sprint(len(e.cache), "/", fn.String()))
	r := &Run{e: e, widen: map[loopKey]map[any]bool{}, drop: map[loopKey]map[string]bool{}, mode: map[loopKey]int{}, depth: depth}
	for it := 0; ; it++ {
		if it > 2000 {
			r.undecided("widening did not converge in %s", name)
			break
		}
		r.g = &Graph{Name: name, Fn: fn, Args: args, Loops: map[loopKey]*LoopInfo{}, Writes: map[*Sym]token.Pos{}, Reads: map[*Sym]token.Pos{}, Ctx: ctx, Funcs: map[*ssa.Function]bool{}, St0: base}
		r.nodes = map[string]*Node{}
		r.work = nil
		if r.attempt(ctx, fn, args, bindings, base) {
			break
		}
	}
	e.restarts++
	e.cache[key] = r.g
	e.Graphs = append(e.Graphs, r.g)
	return r.g
}

func (r *Run) undecided(f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	for _, x := range r.g.Undec {
		if x == m {
			return
		}
	}
	r.g.Undec = append(r.g.Undec, m)
}

func (r *Run) attempt(ctx *Ctx, fn *ssa.Function, args, bindings []*Sym, base *State) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(restart); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	st := base.clone()
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			st.vals[vkey{ctx, p}] = args[i]
		} else {
			st.vals[vkey{ctx, p}] = I.mk(Sym{op: OpParam, str: p.Name(), n: int64(i), typ: p.Type(), ctx: ctx}, fmt.Sprint(ctx.id))
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bindings) {
			st.vals[vkey{ctx, f}] = bindings[i]
		} else {
			st.vals[vkey{ctx, f}] = I.mk(Sym{op: OpParam, str: f.Name(), n: int64(-1 - i), typ: f.Type(), ctx: ctx}, fmt.Sprint(ctx.id))
		}
	}
	r.g.Funcs[fn] = true
	entry := r.newNode(ctx, fn.Blocks[0], -1, st)
	r.g.Entry = entry
	r.jump(entry, st, ctx, nil, fn.Blocks[0], nil)
	entry.done = true
	for len(r.work) > 0 {
		n := r.work[len(r.work)-1]
		r.work = r.work[:len(r.work)-1]
		if n.done {
			continue
		}
		n.done = true
		r.e.steps++
		if len(r.g.Nodes) > maxNodes || r.e.steps > maxSteps {
			r.undecided("exploded graph of %s is too large", r.g.Name)
			return true
		}
		r.exec(n)
	}
	return true
}

func (r *Run) newNode(ctx *Ctx, b *ssa.BasicBlock, idx int, st *State) *Node {
	n := &Node{id: len(r.g.Nodes), g: r.g, ctx: ctx, b: b, idx: idx, st: st}
	r.g.Nodes = append(r.g.Nodes, n)
	return n
}

func link(from, to *Node, facts []Fact, back *loopKey) {
	for _, e := range from.Out {
		if e.To == to && len(e.Facts) == 0 && len(facts) == 0 {
			return
		}
	}
	from.Out = append(from.Out, Edge{to, facts, back})
}

// --- function metadata -------------------------------------------------------

type fnInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	livein  map[*ssa.BasicBlock]map[ssa.Value]bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func info(fn *ssa.Function) *fnInfo {
	if x, ok := fnInfos[fn]; ok {
		return x
	}
	x := &fnInfo{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, livein: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := x.headers[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					x.headers[s] = body
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					c := st[len(st)-1]
					st = st[:len(st)-1]
					if body[c] {
						continue
					}
					body[c] = true
					st = append(st, c.Preds...)
				}
			}
		}
	}
	// liveness
	for _, b := range fn.Blocks {
		x.livein[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range x.livein[s] {
					live[v] = true
				}
				for pi, p := range s.Preds {
					if p == b {
						for _, ins := range s.Instrs {
							phi, ok := ins.(*ssa.Phi)
							if !ok {
								break
							}
							live[phi.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			// phi results are live-in for our purposes (bound by jump)
			for v := range live {
				if !x.livein[b][v] {
					x.livein[b][v] = true
					ch = true
				}
			}
		}
	}
	fnInfos[fn] = x
	return x
}

func inLoopCtx(c *Ctx, blk *ssa.BasicBlock, lk loopKey) bool {
	body := info(lk.c.fn).headers[lk.b]
	for c != nil {
		if c == lk.c {
			return blk != nil && body[blk]
		}
		if c.call != nil {
			blk = c.call.Block()
		}
		c = c.parent
	}
	return false
}

// variantIn: term x mentions something created inside loop lk.
func variantIn(x *Sym, lk loopKey) bool {
	return mentions(x, func(s *Sym) bool {
		switch s.op {
		case OpPhi, OpWCell:
			if s.ctx == lk.c && s.obj == lk.b {
				return true
			}
			if b, ok := s.obj.(*ssa.BasicBlock); ok {
				return inLoopCtx(s.ctx, b, lk)
			}
		}
		if s.ins != nil && s.ctx != nil {
			return inLoopCtx(s.ctx, s.ins.Block(), lk)
		}
		return false
	}, map[*Sym]bool{})
}

// --- control transfer ----------------------------------------------------------

func (r *Run) jump(cur *Node, st *State, ctx *Ctx, from, to *ssa.BasicBlock, facts []Fact) {
	// bind phis
	type pv struct {
		p *ssa.Phi
		v *Sym
	}
	var ps []pv
	nphi := 0
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		nphi++
		for i, p := range to.Preds {
			if p == from {
				ps = append(ps, pv{phi, r.val(st, ctx, phi.Edges[i])})
				break
			}
		}
	}
	fi := info(ctx.fn)
	// liveness pruning of this activation's registers
	live := fi.livein[to]
	for k := range st.vals {
		if k.c == ctx && !live[k.v] {
			if _, isP := k.v.(*ssa.Parameter); isP {
				continue
			}
			if _, isF := k.v.(*ssa.FreeVar); isF {
				continue
			}
			delete(st.vals, k)
		}
	}
	for _, p := range ps {
		st.vals[vkey{ctx, p.p}] = p.v
	}
	// leaving loops
	for lk := range st.loops {
		if lk.c == ctx && !fi.headers[lk.b][to] {
			delete(st.loops, lk)
		}
	}
	for lk := range st.unroll {
		if lk.c == ctx && !fi.headers[lk.b][to] {
			delete(st.unroll, lk)
		}
	}
	body, isHdr := fi.headers[to]
	if isHdr {
		lk := loopKey{ctx, to}
		back := from != nil && body[from]
		r.header(cur, st, lk, nphi, back, facts)
		return
	}
	if len(to.Preds) > 1 || from == nil {
		st.gc()
		r.pruneFacts(st)
	}
	r.enter(cur, st, ctx, to, nphi, facts, nil, nil)
}

func (r *Run) enter(cur *Node, st *State, ctx *Ctx, b *ssa.BasicBlock, idx int, facts []Fact, back *loopKey, head *loopKey) *Node {
	k := fmt.Sprintf("%d|%d|%d|%v|", ctx.id, b.Index, idx, head != nil) + st.key()
	n, ok := r.nodes[k]
	if !ok {
		n = r.newNode(ctx, b, idx, st)
		n.Head = head
		r.nodes[k] = n
		r.work = append(r.work, n)
	}
	link(cur, n, facts, back)
	return n
}

// pruneFacts drops facts none of whose leaf terms is still held by the state.
func (r *Run) pruneFacts(st *State) {
	live := map[*Sym]bool{}
	found := map[[2]*Sym]bool{} // the map reads whose value is still held
	var walk func(x *Sym)
	walk = func(x *Sym) {
		if x == nil || live[x] {
			return
		}
		live[x] = true
		if x.op == OpLookup {
			found[[2]*Sym{x.args[0], x.args[1]}] = true
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	for _, v := range st.vals {
		walk(v)
	}
	for c, v := range st.mem {
		walk(c)
		walk(v)
	}
	for f := range st.facts {
		keep := true
		// a fact is kept while every non-constant operand is still live, or it
		// is about lengths/emptiness of live terms
		var chk func(x *Sym) bool
		chk = func(x *Sym) bool {
			if x == nil || x.op == OpConst || x.op == OpNil || live[x] || x == maxInt() {
				return true
			}
			switch x.op {
			case OpLe0, OpEq0, OpEq, OpLin, OpNot, OpBin:
				for _, a := range x.args {
					if !chk(a) {
						return false
					}
				}
				return true
			case OpExtract: // the error of a call whose result is still in use
				return live[x.args[0]]
			case OpLookupOk: // whether a value still in use was there
				return found[[2]*Sym{x.args[0], x.args[1]}]
			case OpCall:
				if x.str == "len" || x.str == "cap" {
					return chk(x.args[0])
				}
			case OpLoad:
				return true // contents of memory places stay interesting
			}
			return false
		}
		keep = chk(f)
		if !keep {
			delete(st.facts, f)
		}
	}
}

func factStr(c *Sym, v bool) string { return fmt.Sprintf("%d:%v", c.id, v) }

func (r *Run) header(cur *Node, st *State, lk loopKey, nphi int, back bool, facts []Fact) {
	if r.widen[lk] == nil {
		r.widen[lk] = map[any]bool{}
		r.drop[lk] = map[string]bool{}
	}
	if back {
		if r.mode[lk] == 0 {
			// unrolling while the loop condition is decided by constants
			if st.unroll[lk] < 300 && r.condConst(st, lk, nphi) {
				st.unroll[lk]++
				st.gc()
				r.enter(cur, st, lk.c, lk.b, nphi, facts, nil, nil)
				return
			}
			r.mode[lk] = 1
			panic(restart{})
		}
		r.backEdge(cur, st, lk, facts)
		return
	}
	if r.mode[lk] == 0 {
		if r.condConst(st, lk, nphi) {
			st.unroll[lk] = 1
			st.gc()
			r.enter(cur, st, lk.c, lk.b, nphi, facts, nil, nil)
			return
		}
		r.mode[lk] = 1
	}
	st.gc()
	r.pruneFacts(st)
	// apply widening
	W := r.widen[lk]
	init := map[*Sym]*Sym{}
	sub := map[*Sym][]*Sym{}
	for k := range W {
		switch k := k.(type) {
		case *ssa.Phi:
			v := st.vals[vkey{lk.c, k}]
			p := I.mk(Sym{op: OpPhi, str: k.Comment, typ: k.Type(), ctx: lk.c, obj: lk.b, n: int64(valID(k))}, fmt.Sprint(lk.c.id, "/", lk.b.Index, "/", valID(k), genOf(st)))
			st.vals[vkey{lk.c, k}] = p
			init[p] = v
			sub[v] = append(sub[v], p)
		case *Sym:
			v, ok := st.mem[k]
			if !ok {
				v = r.cellDefault(st, k)
			}
			var t types.Type
			if k.typ != nil {
				t = derefT(k.typ)
			} else if k.op == OpMapKey && k.args[0].typ != nil {
				t = k.args[0].typ
			} else if v != nil {
				t = v.typ
			}
			p := I.mk(Sym{op: OpWCell, str: k.show(3), typ: t, ctx: lk.c, obj: lk.b, n: int64(k.id)}, fmt.Sprint(lk.c.id, "/", lk.b.Index, "/", k.id, genOf(st)))
			st.mem[k] = p
			if v != nil {
				init[p] = v
				sub[v] = append(sub[v], p)
			}
		}
	}
	// candidate invariants: facts about the initial value, for the widened term
	D := r.drop[lk]
	add := func(c *Sym) {
		v := true
		if c.op == OpNot {
			c, v = c.args[0], false
		}
		if c.op == OpConst || D[factStr(c, v)] {
			return
		}
		st.facts[c] = v
	}
	base := cp(st.facts)
	for v, ps := range sub {
		for _, p := range ps {
			if v.op != OpConst && v.op != OpNil {
				for f, tv := range base {
					if contains(f, v) {
						g := substitute(f, map[*Sym]*Sym{v: p})
						if !tv {
							g = Not(g)
						}
						add(g)
					}
				}
			}
			if isIntType(p.typ) {
				add(Le(v, p))
				add(Le(p, v))
				// upper bounds that hold for the initial value
				if n, ok := v.intVal(); ok {
					_ = n
				}
				for f := range base {
					if f.op == OpLe0 {
						l := toLin(f.args[0])
						_ = l
					}
				}
			} else if isNillable(p.typ) {
				e := Eq(v, Nil(nil))
				switch st.eval(e) {
				case 1:
					add(Eq(p, Nil(nil)))
				case 0:
					add(Not(Eq(p, Nil(nil))))
				}
			} else if isBoolType(p.typ) {
				if b, ok := v.boolVal(); ok {
					if b {
						add(p)
					} else {
						add(Not(p))
					}
				}
			}
			if v.typ != nil && (isNillable(p.typ)) {
				if _, ok := p.typ.Underlying().(*types.Slice); ok {
					add(Le(Len(v), Len(p)))
					add(Le(Len(p), Len(v)))
				}
			}
		}
	}
	// the bound in the loop's own test, as an upper-bound candidate
	for _, in := range lk.b.Instrs {
		t, ok := in.(*ssa.BinOp)
		if !ok || t.Op != token.LSS && t.Op != token.NEQ || !isIntType(t.X.Type()) {
			continue
		}
		k, ok := t.X.(*ssa.Phi)
		if !ok || !W[k] {
			continue
		}
		b := r.outer(st, lk, t.Y)
		p := st.vals[vkey{lk.c, k}]
		if b != nil && p != nil && init[p] != nil && st.eval(Le(init[p], b)) == 1 {
			add(Le(p, b))
		}
	}
	h := r.enter(cur, st, lk.c, lk.b, nphi, facts, nil, &lk)
	h.Init = init
	if st.loops[lk] == nil {
		// the head node is its own loop anchor; recorded for the body
		h.Head = &lk
	}
	li := r.g.Loops[lk]
	if li == nil {
		li = &LoopInfo{Key: lk}
		r.g.Loops[lk] = li
	}
	found := false
	for _, x := range li.Heads {
		if x == h {
			found = true
		}
	}
	if !found {
		li.Heads = append(li.Heads, h)
		for p := range init {
			has := false
			for _, q := range li.Syms {
				if q == p {
					has = true
				}
			}
			if !has {
				li.Syms = append(li.Syms, p)
			}
		}
	}
}

// outer: the value of v at the loop's head, when the head alone tells.
func (r *Run) outer(st *State, lk loopKey, v ssa.Value) *Sym {
	switch x := v.(type) {
	case *ssa.Const:
		return r.val(st, lk.c, v)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && x.Block() == lk.b {
			if a := r.outer(st, lk, x.Call.Args[0]); a != nil {
				return Len(a)
			}
			return nil
		}
	}
	if in, ok := v.(ssa.Instruction); ok && in.Block() == lk.b {
		if _, ok := v.(*ssa.Phi); !ok {
			return nil
		}
	}
	return st.vals[vkey{lk.c, v}]
}

func isNillable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// cellDefault is the content of a cell with no recorded store.
func (r *Run) cellDefault(st *State, k *Sym) *Sym {
	switch k.op {
	case OpMapKey:
		if k.str == "cb" {
			return st.cbContent(k.args[0])
		}
		if k.str == "sb" {
			return st.sbContent(k.args[0])
		}
		return st.mapContent(k.args[0])
	case OpVerKey:
		return I.mk(Sym{op: OpVer, str: "0", args: []*Sym{k.args[0]}}, "")
	}
	if k.typ != nil {
		return st.load(k, derefT(k.typ))
	}
	return nil
}

// condConst: the header's test is decided by constants in state st.
// large: a bound that is known here, but too high to go through the loop that
// often.
func large(x *Sym) bool {
	n, ok := x.intVal()
	return ok && n > 64
}

func (r *Run) condConst(st *State, lk loopKey, nphi int) bool {
	b := lk.b
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	// evaluate the pure instructions of the header symbolically
	tmp := map[ssa.Value]*Sym{}
	get := func(v ssa.Value) *Sym {
		if x, ok := tmp[v]; ok {
			return x
		}
		if c, ok := v.(*ssa.Const); ok {
			return constSym(c)
		}
		if x, ok := st.vals[vkey{lk.c, v}]; ok {
			if _, ok := v.(*ssa.Phi); !ok && large(x) {
				return nil
			}
			return x
		}
		return nil
	}
	for _, ins := range b.Instrs[nphi:] {
		switch x := ins.(type) {
		case *ssa.BinOp:
			p, q := get(x.X), get(x.Y)
			if p == nil || q == nil {
				return false
			}
			tmp[x] = Bin(x.Op, p, q, x.Type())
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				p := get(x.Call.Args[0])
				if p == nil {
					return false
				}
				if tmp[x] = Len(p); large(tmp[x]) {
					return false
				}
			} else {
				return false
			}
		case *ssa.Convert:
			p := get(x.X)
			if p == nil {
				return false
			}
			tmp[x] = Conv(x.Type(), p)
		case *ssa.If, *ssa.DebugRef:
		default:
			return false
		}
	}
	c := get(iff.Cond)
	return c != nil && c.op == OpConst
}

func (r *Run) backEdge(cur *Node, st *State, lk loopKey, facts []Fact) {
	H := st.loops[lk]
	if H == nil {
		r.undecided("irreducible or unanchored loop in %s", lk.c.fn)
		return
	}
	delete(st.loops, lk)
	// restrict to what is live at the header
	st.gc()
	W := r.widen[lk]
	changed := false
	vals := map[*Sym]*Sym{}
	for k, hv := range H.st.vals {
		if k.c != lk.c {
			continue
		}
		phi, ok := k.v.(*ssa.Phi)
		bv, has := st.vals[k]
		if !has {
			if ok && phi.Block() == lk.b {
				r.undecided("phi lost in %s", lk.c.fn)
			}
			continue
		}
		if ok && phi.Block() == lk.b {
			if W[phi] {
				vals[hv] = bv
			} else if bv != hv {
				W[phi] = true
				changed = true
			}
		}
	}
	for c, hv := range H.st.mem {
		bv, has := st.mem[c]
		if !has {
			if isFreshObj(cellRoot(c)) {
				continue
			}
			bv = r.cellDefault(st, c)
		}
		if W[c] {
			vals[hv] = bv
		} else if bv != hv {
			W[c] = true
			changed = true
		}
	}
	for c := range st.mem {
		if _, ok := H.st.mem[c]; ok || W[c] {
			continue
		}
		if variantIn(c, lk) {
			continue
		}
		if hasSymIdx(c) && c.op != OpVerKey && c.op != OpMapKey {
			continue
		}
		if isFreshObj(cellRoot(c)) && !reachableAt(H.st, cellRoot(c)) {
			continue
		}
		// unchanged from its default?
		if d := r.cellDefault(H.st, c); d == st.mem[c] {
			continue
		}
		W[c] = true
		changed = true
	}
	if changed {
		panic(restart{})
	}
	// inductiveness of the candidate facts
	D := r.drop[lk]
	for f, v := range H.st.facts {
		g := substitute(f, vals)
		if g == f {
			continue
		}
		e := st.eval(g)
		if (v && e != 1) || (!v && e != 0) {
			D[factStr(f, v)] = true
			changed = true
		}
	}
	if changed {
		panic(restart{})
	}
	link(cur, H, facts, &lk)
	li := r.g.Loops[lk]
	li.Backs = append(li.Backs, &BackInfo{From: cur, H: H, Vals: vals, St: st})
}

func reachableAt(st *State, root *Sym) bool {
	live := map[*Sym]bool{}
	seen := map[*Sym]bool{}
	for _, v := range st.vals {
		collectRoots(v, live, seen)
	}
	for c, v := range st.mem {
		collectRoots(c, live, seen)
		collectRoots(v, live, seen)
	}
	for _, ds := range st.defers {
		for _, d := range ds {
			collectRoots(d.fn, live, seen)
			for _, a := range d.args {
				collectRoots(a, live, seen)
			}
		}
	}
	return live[root]
}

// substitute rebuilds a term with some subterms replaced.
func substitute(x *Sym, m map[*Sym]*Sym) *Sym {
	return subst(x, m, map[*Sym]*Sym{})
}
func subst(x *Sym, m, memo map[*Sym]*Sym) *Sym {
	if x == nil {
		return nil
	}
	if y, ok := m[x]; ok {
		return y
	}
	if y, ok := memo[x]; ok {
		return y
	}
	if len(x.args) == 0 {
		return x
	}
	as := make([]*Sym, len(x.args))
	ch := false
	for i, a := range x.args {
		as[i] = subst(a, m, memo)
		ch = ch || as[i] != a
	}
	y := x
	if ch {
		y = rebuild(x, as)
	}
	memo[x] = y
	return y
}
func rebuild(x *Sym, as []*Sym) *Sym {
	switch x.op {
	case OpLin:
		l := lin{c: x.n, t: map[*Sym]int64{}}
		for i, a := range as {
			l = linAdd(l, toLin(a), x.coef[i])
		}
		return fromLin(l, x.typ)
	case OpLe0:
		return Le0(toLin(as[0]))
	case OpEq0:
		return EqI(as[0], CInt(0))
	case OpEq:
		return Eq(as[0], as[1])
	case OpNot:
		return Not(as[0])
	case OpCall:
		if x.str == "len" {
			return Len(as[0])
		}
	case OpField:
		return Field(as[0], int(x.n), x.typ, x.str)
	case OpFieldAddr:
		return FieldAddr(as[0], int(x.n), x.str, derefT(x.typ))
	case OpElemAddr:
		return ElemAddr(as[0], as[1], derefT(x.typ))
	case OpExtract:
		return Extract(as[0], int(x.n), x.typ)
	case OpSlice:
		return Slice(as[0], as[1], as[2], as[3], x.typ)
	case OpIndex:
		return byteSel(as[0], as[1], x.typ)
	case OpStruct:
		return Struct(x.typ, as)
	case OpByte:
		return byteOf(as[0], x.n, x.typ)
	}
	y := *x
	y.args = as
	y.id = 0
	ex := ""
	switch x.op {
	case OpStruct, OpConv, OpArray, OpIface, OpZero:
		ex = I.tkey(x.typ)
	}
	if x.ins != nil && x.ctx != nil {
		ex = fmt.Sprintf("%d@%p%s", x.ctx.id, x.ins, x.gen)
	}
	return I.mk(y, ex)
}

// curGen distinguishes re-executions of one instruction in unrolled loops.
var curGen string

func genOf(st *State) string {
	if len(st.unroll) == 0 {
		return ""
	}
	var ks []string
	for lk, n := range st.unroll {
		ks = append(ks, fmt.Sprintf("/%d.%d:%d", lk.c.id, lk.b.Index, n))
	}
	sort.Strings(ks)
	return strings.Join(ks, "")
}
func siteKey(c *Ctx, ins ssa.Instruction) string { return fmt.Sprintf("%d@%p%s", c.id, ins, curGen) }

// --- values ----------------------------------------------------------------------

func constSym(c *ssa.Const) *Sym {
	if c.Value == nil {
		return Zero(c.Type())
	}
	return Const(c.Value, c.Type())
}

func (r *Run) val(st *State, ctx *Ctx, v ssa.Value) *Sym {
	switch v := v.(type) {
	case *ssa.Const:
		return constSym(v)
	case *ssa.Function:
		return I.mk(Sym{op: OpFunc, str: v.String(), fn: v, typ: v.Type()}, fmt.Sprintf("%p", v))
	case *ssa.Global:
		return I.mk(Sym{op: OpGlobal, str: v.String(), obj: v, typ: v.Type()}, fmt.Sprintf("%p", v))
	case *ssa.Builtin:
		return I.mk(Sym{op: OpFunc, str: "builtin." + v.Name()}, "")
	}
	if s, ok := st.vals[vkey{ctx, v}]; ok {
		return s
	}
	panic(fmt.Sprintf("no value for %s in %s (ctx %d)", v.Name(), ctx.fn, ctx.id))
}

func site(op Op, ctx *Ctx, ins ssa.Instruction, str string, t types.Type, args ...*Sym) *Sym {
	return I.mk(Sym{op: op, ctx: ctx, ins: ins, str: str, typ: t, args: args}, siteKey(ctx, ins))
}

// --- execution ----------------------------------------------------------------------

func (r *Run) exec(n *Node) {
	curGen = genOf(n.st)
	st := n.st.clone()
	if n.Head != nil {
		st.loops[*n.Head] = n
	}
	ctx, b, i := n.ctx, n.b, n.idx
	cur := n
	if n.Ev != nil {
		r.undecided("internal: event node in worklist")
		return
	}
	emit := func(ev *Event) {
		ev.Ctx = ctx
		nn := r.newNode(ctx, b, i, st.clone())
		nn.Ev = ev
		nn.done = true
		link(cur, nn, nil, nil)
		cur = nn
	}
	set := func(v ssa.Value, s *Sym) { st.vals[vkey{ctx, v}] = s }
	get := func(v ssa.Value) *Sym { return r.val(st, ctx, v) }

	for ; i < len(b.Instrs); i++ {
		switch x := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			r.undecided("phi in the middle of a block of %s", ctx.fn)
		case *ssa.Alloc:
			a := site(OpAlloc, ctx, x, x.Comment, x.Type())
			r.realloc(st, a)
			set(x, a)
		case *ssa.BinOp:
			v := r.bin(st, x, get(x.X), get(x.Y))
			in, out := r.mayWrap(st, x, v)
			for _, o := range out {
				s2 := st.clone()
				s2.assume(o, true)
				s2.vals[vkey{ctx, x}] = wrapped(ctx, x, v)
				r.enter(cur, s2, ctx, b, i+1, []Fact{{o, true}}, nil, nil)
			}
			if len(in) > 0 {
				if in[0] == CBool(false) {
					return
				}
				var fs []Fact
				for _, o := range in {
					st.assume(o, true)
					fs = append(fs, Fact{o, true})
				}
				st.vals[vkey{ctx, x}] = v
				r.enter(cur, st, ctx, b, i+1, fs, nil, nil)
				return
			}
			set(x, v)
		case *ssa.UnOp:
			switch x.Op {
			case token.MUL:
				a := get(x.X)
				if isNilSym(a) {
					emit(&Event{Kind: EvPanic, Name: "nil dereference", Pos: x.Pos(), Ins: x})
					return
				}
				r.checkDeref(cur, st, ctx, x, a)
				r.noteRead(st, a, x.Pos())
				set(x, st.load(a, x.Type()))
			case token.NOT:
				set(x, Not(get(x.X)))
			case token.ARROW:
				ch := get(x.X)
				t := x.X.Type().Underlying().(*types.Chan).Elem()
				v := site(OpRecv, ctx, x, "", t, ch)
				res := v
				if x.CommaOk {
					res = Tuple(v, site(OpRecvOk, ctx, x, "", types.Typ[types.Bool], ch))
				}
				emit(&Event{Kind: EvRecv, Args: []*Sym{ch}, Raw: []*Sym{ch}, Res: v, Pos: x.Pos(), Blocking: true, Ins: x})
				set(x, res)
			case token.SUB:
				y := get(x.X)
				if isIntType(x.Type()) {
					set(x, fromLin(linScale(toLin(y), -1), x.Type()))
				} else {
					set(x, I.mk(Sym{op: OpUn, str: "-", args: []*Sym{y}, typ: x.Type()}, ""))
				}
			default:
				set(x, I.mk(Sym{op: OpUn, str: x.Op.String(), args: []*Sym{get(x.X)}, typ: x.Type()}, ""))
			}
		case *ssa.ChangeInterface:
			set(x, get(x.X))
		case *ssa.ChangeType:
			set(x, get(x.X))
		case *ssa.Convert:
			set(x, Conv(x.Type(), get(x.X)))
		case *ssa.MultiConvert:
			set(x, Conv(x.Type(), get(x.X)))
		case *ssa.Extract:
			set(x, Extract(get(x.Tuple), x.Index, x.Type()))
		case *ssa.Field:
			f := isStruct(x.X.Type()).Field(x.Field)
			set(x, Field(get(x.X), x.Field, f.Type(), f.Name()))
		case *ssa.FieldAddr:
			f := isStruct(derefT(x.X.Type())).Field(x.Field)
			base := get(x.X)
			if isNilSym(base) {
				emit(&Event{Kind: EvPanic, Name: "nil dereference", Pos: x.Pos(), Ins: x})
				return
			}
			r.checkDeref(cur, st, ctx, x, base)
			set(x, FieldAddr(base, x.Field, f.Name(), f.Type()))
		case *ssa.Index:
			r.checkIndex(cur, st, ctx, x, get(x.X), get(x.Index), x.X.Type())
			set(x, byteSel(get(x.X), get(x.Index), x.Type()))
		case *ssa.IndexAddr:
			r.checkIndex(cur, st, ctx, x, get(x.X), get(x.Index), x.X.Type())
			set(x, ElemAddr(get(x.X), get(x.Index), derefT(x.Type())))
		case *ssa.Lookup:
			m, k := get(x.X), get(x.Index)
			if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
				r.checkIndex(cur, st, ctx, x, m, k, x.X.Type())
				set(x, byteSel(m, k, x.Type()))
				break
			}
			r.noteRead(st, mapKey(m), x.Pos())
			vt := x.X.Type().Underlying().(*types.Map).Elem()
			c := st.mapContent(m)
			v, found := mapLookup(c, k, vt)
			if x.CommaOk {
				var ok *Sym
				switch found {
				case 1:
					ok = CBool(true)
				case 0:
					ok = CBool(false)
				default:
					ok = I.mk(Sym{op: OpLookupOk, args: v.args, typ: types.Typ[types.Bool]}, "")
				}
				set(x, Tuple(v, ok))
			} else {
				set(x, v)
			}
		case *ssa.MakeChan:
			set(x, site(OpMakeChan, ctx, x, "", x.Type(), get(x.Size)))
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			var bs []*Sym
			for _, bv := range x.Bindings {
				bs = append(bs, get(bv))
			}
			set(x, I.mk(Sym{op: OpClosure, str: fn.String(), fn: fn, args: bs, typ: x.Type()}, fmt.Sprintf("%p", fn)))
		case *ssa.MakeInterface:
			y := get(x.X)
			set(x, I.mk(Sym{op: OpIface, args: []*Sym{y}, typ: x.X.Type()}, I.tkey(x.X.Type())))
		case *ssa.MakeMap:
			m := site(OpMakeMap, ctx, x, "", x.Type())
			st.mem[mapKey(m)] = I.mk(Sym{op: OpZeroMap, typ: x.Type()}, "")
			set(x, m)
		case *ssa.MakeSlice:
			m := site(OpMakeSlice, ctx, x, "", x.Type(), get(x.Len), get(x.Cap))
			r.realloc(st, m)
			set(x, m)
		case *ssa.MapUpdate:
			m, k, v := get(x.Map), get(x.Key), get(x.Value)
			r.noteWrite(st, mapKey(m), x.Pos())
			old := st.mapContent(m)
			if old.op == OpMapUpd && old.args[1] == k {
				old = old.args[0]
			}
			st.mem[mapKey(m)] = I.mk(Sym{op: OpMapUpd, args: []*Sym{old, k, v}, typ: x.Map.Type()}, "")
		case *ssa.Range:
			y := get(x.X)
			if _, ok := x.X.Type().Underlying().(*types.Map); ok {
				r.noteRead(st, mapKey(y), x.Pos())
				set(x, I.mk(Sym{op: OpRange, args: []*Sym{st.mapContent(y)}, typ: x.X.Type()}, ""))
			} else {
				set(x, I.mk(Sym{op: OpRange, args: []*Sym{y}, typ: x.X.Type()}, ""))
			}
		case *ssa.Next:
			it := get(x.Iter)
			tt := x.Type().(*types.Tuple)
			ok := site(OpNextOk, ctx, x, "", types.Typ[types.Bool], it)
			k := site(OpNextKey, ctx, x, "", tt.At(1).Type(), it)
			var v *Sym
			if it.op == OpRange && !x.IsString {
				v, _ = mapLookup(it.args[0], k, tt.At(2).Type())
			} else {
				v = site(OpNextVal, ctx, x, "", tt.At(2).Type(), it)
			}
			set(x, Tuple(ok, k, v))
		case *ssa.Slice:
			y := get(x.X)
			var lo, hi, mx *Sym
			if x.Low != nil {
				lo = get(x.Low)
			}
			if x.High != nil {
				hi = get(x.High)
			}
			if x.Max != nil {
				mx = get(x.Max)
			}
			r.checkSlice(cur, st, ctx, x, y, lo, hi)
			if lo != nil && !isArrayPtr(y) {
				// past this point the bounds were in order
				top := hi
				if top == nil {
					top = Len(y)
				}
				if o := Le(lo, top); st.eval(o) < 0 {
					st.assume(o, true)
				}
			}
			set(x, r.slice(st, y, lo, hi, mx, x.Type()))
		case *ssa.SliceToArrayPointer:
			y := get(x.X)
			t := derefT(x.Type())
			r.oblige(cur, st, ctx, x, "array", y, Le(CInt(isArray(t).Len()), Len(y)))
			v := I.mk(Sym{op: OpConv, args: []*Sym{st.snap(y, 6)}, typ: t}, I.tkey(t))
			if s := Len(y); s.isInt(isArray(t).Len()) {
				if y.op == OpSlice && y.args[1] == nil && y.args[0].typ != nil {
					if p, ok := y.args[0].typ.Underlying().(*types.Pointer); ok && isArray(p.Elem()) != nil && isArray(p.Elem()).Len() == isArray(t).Len() {
						v = st.load(y.args[0], t)
					}
				}
			}
			set(x, I.mk(Sym{op: OpPtrTo, args: []*Sym{v}, typ: x.Type()}, I.tkey(x.Type())))
		case *ssa.Store:
			a := get(x.Addr)
			if isNilSym(a) {
				emit(&Event{Kind: EvPanic, Name: "nil dereference", Pos: x.Pos(), Ins: x})
				return
			}
			v := get(x.Val)
			r.checkDeref(cur, st, ctx, x, a)
			r.noteWrite(st, a, x.Pos())
			st.store(a, v, derefT(x.Addr.Type()))
			if addrRoot(a).op == OpGlobal {
				emit(&Event{Kind: EvStoreGlobal, Args: []*Sym{a, st.snap(v, 4)}, Raw: []*Sym{a, v}, Pos: x.Pos(), Ins: x})
			}
		case *ssa.TypeAssert:
			y := get(x.X)
			var v, ok *Sym
			if y.op == OpIface {
				if types.Identical(y.typ, x.AssertedType) {
					v, ok = y.args[0], CBool(true)
				} else if it, is := x.AssertedType.Underlying().(*types.Interface); is {
					if types.Implements(y.typ, it) {
						v, ok = y, CBool(true)
					} else {
						v, ok = Zero(x.AssertedType), CBool(false)
					}
				} else {
					v, ok = Zero(x.AssertedType), CBool(false)
				}
			} else {
				v = I.mk(Sym{op: OpTypeAssert, args: []*Sym{y}, typ: x.AssertedType}, I.tkey(x.AssertedType))
				ok = I.mk(Sym{op: OpTypeAssertOk, args: []*Sym{y}, typ: types.Typ[types.Bool], str: I.tkey(x.AssertedType)}, "")
			}
			if x.CommaOk {
				set(x, Tuple(v, ok))
			} else {
				r.oblige(cur, st, ctx, x, "assert", y, ok)
				set(x, v)
			}
		case *ssa.Send:
			ch, v := get(x.Chan), get(x.X)
			emit(&Event{Kind: EvSend, Args: []*Sym{ch, st.snap(v, 6)}, Raw: []*Sym{ch, v}, Pos: x.Pos(), Blocking: true, Ins: x})
		case *ssa.Select:
			r.selectStmt(cur, st, ctx, b, i, x)
			return
		case *ssa.Defer:
			d := deferred{call: &x.Call, ins: x}
			if x.Call.IsInvoke() || x.Call.StaticCallee() == nil {
				d.fn = get(x.Call.Value)
			} else {
				d.fn = r.val(st, ctx, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, get(a))
			}
			st.defers[ctx] = append(append([]deferred{}, st.defers[ctx]...), d)
		case *ssa.RunDefers:
			ds := st.defers[ctx]
			if len(ds) > 0 {
				d := ds[len(ds)-1]
				if len(ds) == 1 {
					delete(st.defers, ctx)
				} else {
					st.defers[ctx] = append([]deferred{}, ds[:len(ds)-1]...)
				}
				inl, term := r.call(&cur, st, ctx, b, i, x, d.call, d.fn, d.args, nil, kDefer)
				if inl || term {
					return
				}
				i-- // run the next deferred call
			}
		case *ssa.Go:
			r.spawn(&cur, st, ctx, b, i, x, get(x.Call.Value), x.Call.IsInvoke(), &x.Call, nil)
		case *ssa.Call:
			var fv *Sym
			fv = get(x.Call.Value)
			var args []*Sym
			for _, a := range x.Call.Args {
				args = append(args, get(a))
			}
			inl, term := r.call(&cur, st, ctx, b, i, x, &x.Call, fv, args, x, kCall)
			if inl || term {
				return
			}
		case *ssa.Panic:
			emit(&Event{Kind: EvPanic, Name: "panic", Args: []*Sym{get(x.X)}, Raw: []*Sym{get(x.X)}, Pos: x.Pos(), Ins: x})
			return
		case *ssa.Return:
			var rs []*Sym
			for _, v := range x.Results {
				rs = append(rs, get(v))
			}
			r.ret(cur, st, ctx, b, i, rs, x)
			return
		case *ssa.Jump:
			r.jump(cur, st, ctx, b, b.Succs[0], nil)
			return
		case *ssa.If:
			c := get(x.Cond)
			switch st.eval(c) {
			case 1:
				r.jump(cur, st, ctx, b, b.Succs[0], []Fact{{c, true}})
			case 0:
				r.jump(cur, st, ctx, b, b.Succs[1], []Fact{{c, false}})
			default:
				s2 := st.clone()
				st.assume(c, true)
				s2.assume(c, false)
				r.jump(cur, st, ctx, b, b.Succs[0], []Fact{{c, true}})
				r.jump(cur, s2, ctx, b, b.Succs[1], []Fact{{c, false}})
			}
			return
		default:
			r.undecided("unsupported instruction %T in %s", x, ctx.fn)
			return
		}
	}
}

func (r *Run) realloc(st *State, a *Sym) {
	for c := range st.mem {
		if cellRoot(c) == a {
			delete(st.mem, c)
		}
	}
}

func (r *Run) noteWrite(st *State, a *Sym, p token.Pos) {
	if _, ok := r.g.Writes[a]; !ok {
		r.g.Writes[a] = p
	}
	r.noteLocks(st, &r.g.WLocks, a)
}
func (r *Run) noteRead(st *State, a *Sym, p token.Pos) {
	if _, ok := r.g.Reads[a]; !ok {
		r.g.Reads[a] = p
	}
	r.noteLocks(st, &r.g.RLocks, a)
}

// noteLocks keeps the locks held at every access of a.
func (r *Run) noteLocks(st *State, m *map[*Sym]map[*Sym]bool, a *Sym) {
	held := map[*Sym]bool{}
	if v := st.mem[lockKey()]; v != nil && v.op == OpTuple {
		for _, l := range v.args {
			held[l] = true
		}
	}
	if *m == nil {
		*m = map[*Sym]map[*Sym]bool{}
	}
	old, ok := (*m)[a]
	if !ok {
		(*m)[a] = held
		return
	}
	for l := range old {
		if !held[l] {
			delete(old, l)
		}
	}
}

func lockKey() *Sym { return I.mk(Sym{op: OpVerKey, str: "locks"}, "") }

// readLock stands for holding l for reading.
func readLock(l *Sym) *Sym { return I.mk(Sym{op: OpUn, str: "rlock", args: []*Sym{l}}, "") }

// lockCall updates the locks held.
func (r *Run) lockCall(st *State, name string, args []*Sym) bool {
	i := strings.LastIndexByte(name, '.')
	if i < 0 || len(args) == 0 || !strings.HasPrefix(name, "(*sync.Mutex)") && !strings.HasPrefix(name, "(*sync.RWMutex)") {
		return false
	}
	l, add := args[0], false
	switch name[i+1:] {
	case "Lock":
		add = true
	case "RLock":
		l, add = readLock(l), true
	case "Unlock":
	case "RUnlock":
		l = readLock(l)
	default:
		return false
	}
	var held []*Sym
	if v := st.mem[lockKey()]; v != nil && v.op == OpTuple {
		for _, x := range v.args {
			if x != l {
				held = append(held, x)
			}
		}
	}
	if add {
		held = append(held, l)
		sort.Slice(held, func(i, j int) bool { return held[i].id < held[j].id })
	}
	if len(held) == 0 {
		delete(st.mem, lockKey())
	} else {
		st.mem[lockKey()] = I.mk(Sym{op: OpTuple, args: held}, "")
	}
	return true
}

func (r *Run) bin(st *State, x *ssa.BinOp, a, b *Sym) *Sym {
	return Bin(x.Op, a, b, x.Type())
}

func (r *Run) slice(st *State, y, lo, hi, mx *Sym, t types.Type) *Sym {
	// use known lengths so that s[lo:] of a slice of proven length n is s[lo:n]
	return Slice(y, lo, hi, mx, t)
}

func (r *Run) ret(cur *Node, st *State, ctx *Ctx, b *ssa.BasicBlock, i int, rs []*Sym, x ssa.Instruction) {
	if ctx.kind == kRoot {
		var sn []*Sym
		for _, v := range rs {
			sn = append(sn, st.snap(v, 6))
		}
		n := r.newNode(ctx, b, i, st)
		n.Ev = &Event{Kind: EvReturn, Args: sn, Raw: rs, Pos: x.Pos(), Ctx: ctx, Ins: x}
		n.done = true
		link(cur, n, nil, nil)
		return
	}
	p := ctx.parent
	if ctx.kind == kCallback {
		r.cbEnd(st, ctx)
	}
	for k := range st.vals {
		if k.c == ctx {
			delete(st.vals, k)
		}
	}
	delete(st.defers, ctx)
	for lk := range st.loops {
		if lk.c == ctx {
			delete(st.loops, lk)
		}
	}
	for lk := range st.unroll {
		if lk.c == ctx {
			delete(st.unroll, lk)
		}
	}
	cb := ctx.call.Block()
	ci := indexOf(cb, ctx.call)
	switch ctx.kind {
	case kCall:
		if v, ok := ctx.call.(*ssa.Call); ok {
			switch len(rs) {
			case 0:
			case 1:
				st.vals[vkey{p, v}] = rs[0]
			default:
				st.vals[vkey{p, v}] = Tuple(rs...)
			}
		}
		ci++
	case kDefer:
	case kCallback:
		ci++
		n := r.newNode(p, cb, ci, st.clone())
		n.Ev = &Event{Kind: EvEnd, Ctx: p, Ins: ctx.call, Pos: ctx.call.Pos(), Name: calleeName(ctx.call)}
		n.done = true
		link(cur, n, nil, nil)
		cur = n
	}
	st.gc()
	r.pruneFactsLight(st)
	r.enter(cur, st, p, cb, ci, nil, nil, nil)
}

func (r *Run) pruneFactsLight(st *State) {}

func calleeName(ins ssa.Instruction) string {
	if c, ok := ins.(ssa.CallInstruction); ok {
		return commonName(c.Common())
	}
	return ""
}

func indexOf(b *ssa.BasicBlock, ins ssa.Instruction) int {
	for i, x := range b.Instrs {
		if x == ins {
			return i
		}
	}
	return -1
}

func (r *Run) selectStmt(cur *Node, st *State, ctx *Ctx, b *ssa.BasicBlock, i int, x *ssa.Select) {
	tt := x.Type().(*types.Tuple)
	var arms []*Event
	type arm struct {
		ev  *Event
		tup *Sym
	}
	var as []arm
	for ci, s := range x.States {
		ch := r.val(st, ctx, s.Chan)
		comps := []*Sym{CInt(int64(ci))}
		okS := CBool(false)
		ev := &Event{Pos: s.Pos, Ctx: ctx, Blocking: x.Blocking, Ins: x}
		var rv *Sym
		if s.Dir == types.RecvOnly {
			t := s.Chan.Type().Underlying().(*types.Chan).Elem()
			rv = I.mk(Sym{op: OpRecv, ctx: ctx, ins: x, n: int64(ci), typ: t, args: []*Sym{ch}}, siteKey(ctx, x))
			okS = I.mk(Sym{op: OpRecvOk, ctx: ctx, ins: x, n: int64(ci), typ: types.Typ[types.Bool], args: []*Sym{ch}}, siteKey(ctx, x))
			ev.Kind = EvRecv
			ev.Args = []*Sym{ch}
			ev.Raw = ev.Args
			ev.Res = rv
		} else {
			v := r.val(st, ctx, s.Send)
			ev.Kind = EvSend
			ev.Args = []*Sym{ch, st.snap(v, 6)}
			ev.Raw = []*Sym{ch, v}
		}
		comps = append(comps, okS)
		ri := 2
		for cj, s2 := range x.States {
			if s2.Dir == types.RecvOnly {
				if cj == ci {
					comps = append(comps, rv)
				} else {
					comps = append(comps, Zero(tt.At(ri).Type()))
				}
				ri++
			}
		}
		arms = append(arms, ev)
		as = append(as, arm{ev, Tuple(comps...)})
	}
	for _, a := range as {
		a.ev.Arms = arms
		if !x.Blocking {
			a.ev.Arms = append(append([]*Event{}, arms...), nil)
		}
		s2 := st.clone()
		nn := r.newNode(ctx, b, i, nil)
		nn.Ev = a.ev
		nn.done = true
		link(cur, nn, nil, nil)
		s2.vals[vkey{ctx, x}] = a.tup
		nn.st = s2.clone()
		r.enter(nn, s2, ctx, b, i+1, nil, nil, nil)
	}
	if !x.Blocking {
		comps := []*Sym{CInt(-1), CBool(false)}
		for j := 2; j < tt.Len(); j++ {
			comps = append(comps, Zero(tt.At(j).Type()))
		}
		s2 := st.clone()
		s2.vals[vkey{ctx, x}] = Tuple(comps...)
		r.enter(cur, s2, ctx, b, i+1, nil, nil, nil)
	}
}

// --- calls ------------------------------------------------------------------------

func fnFullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Object() != nil {
		if f, ok := fn.Object().(*types.Func); ok {
			return f.FullName()
		}
	}
	return fn.String()
}

func commonName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return fnFullName(v)
	case *ssa.Builtin:
		return v.Name()
	}
	return ""
}

// call executes a call instruction. Returns (inlined, terminated).
func (r *Run) call(cur **Node, st *State, ctx *Ctx, b *ssa.BasicBlock, i int, ins ssa.Instruction, c *ssa.CallCommon, fv *Sym, args []*Sym, res *ssa.Call, kind int) (bool, bool) {
	set := func(s *Sym) {
		if res != nil {
			st.vals[vkey{ctx, res}] = s
		}
	}
	emit := func(ev *Event) {
		ev.Ctx = ctx
		ev.Ins = ins
		if ev.Pos == 0 {
			ev.Pos = c.Pos()
		}
		nn := r.newNode(ctx, b, i, st.clone())
		nn.Ev = ev
		nn.done = true
		link(*cur, nn, nil, nil)
		*cur = nn
	}
	inline := func(fn *ssa.Function, as, bs []*Sym, k int) (bool, bool) {
		nc := mkCtx(ctx, ins, fn, k, "")
		for j, p := range fn.Params {
			st.vals[vkey{nc, p}] = as[j]
		}
		for j, f := range fn.FreeVars {
			st.vals[vkey{nc, f}] = bs[j]
		}
		r.g.Funcs[fn] = true
		r.jump(*cur, st, nc, nil, fn.Blocks[0], nil)
		return true, false
	}
	var name string
	var fn *ssa.Function
	var binds []*Sym
	if c.IsInvoke() {
		name = c.Method.FullName()
		recv := fv
		if r.e.isStorageIface(c.Value.Type()) {
			return r.storage(cur, st, ctx, b, i, ins, c, c.Method.Name(), recv, args, res)
		}
		args = append([]*Sym{recv}, args...)
		if isNilSym(recv) {
			emit(&Event{Kind: EvPanic, Name: "nil method call", Raw: args})
			return false, true
		}
		if recv.op == OpIface {
			m := r.e.method(recv.typ, c.Method)
			if m != nil {
				args[0] = recv.args[0]
				fn = m
				name = fnFullName(m)
			}
		}
	} else {
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			return false, r.builtin(cur, st, ctx, b, i, ins, v.Name(), c, args, res)
		}
		switch fv.op {
		case OpFunc:
			fn = fv.fn
		case OpClosure:
			fn = fv.fn
			binds = fv.args
		}
		if fn != nil {
			name = fnFullName(fn)
		} else {
			name = "dynamic"
			args = append([]*Sym{fv}, args...)
		}
	}
	if fn != nil && r.e.isStorageMethod(fn) && !r.e.insideStorageImpl(ctx) {
		return r.storage(cur, st, ctx, b, i, ins, c, fn.Name(), args[0], args[1:], res)
	}
	// special external functions
	if handled, inl, term := r.special(cur, st, ctx, b, i, ins, c, name, args, res, emit, inline); handled {
		return inl, term
	}
	if fn != nil && len(fn.Blocks) > 0 && r.e.isRepo(fn) && !r.e.opaque(fn) && !ctx.recursing(fn) && ctx.depth < 24 {
		return inline(fn, args, binds, kind)
	}
	if fn != nil && r.e.isRepo(fn) && ctx.recursing(fn) {
		r.undecided("recursive call of %s", fn)
	}
	if len(args) > 0 && (c.IsInvoke() || fn != nil && fn.Signature.Recv() != nil) && (c.IsInvoke() || fn != nil && !r.e.isRepo(fn)) {
		r.checkDeref(*cur, st, ctx, ins, args[0])
	}
	if pre := preconditions[name]; pre != nil {
		r.oblige(*cur, st, ctx, ins, "call", nil, pre(args)...)
	}
	r.external(cur, st, ctx, ins, c, name, args, res, set, emit)
	return false, false
}

func (r *Run) resultType(c *ssa.CallCommon) types.Type {
	sig := c.Signature()
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// bindResult gives the call term its typed components.
func callResult(call *Sym, sig *types.Signature) *Sym {
	n := sig.Results().Len()
	if n <= 1 {
		return call
	}
	var xs []*Sym
	for j := 0; j < n; j++ {
		xs = append(xs, Extract(call, j, sig.Results().At(j).Type()))
	}
	return Tuple(xs...)
}

func (r *Run) external(cur **Node, st *State, ctx *Ctx, ins ssa.Instruction, c *ssa.CallCommon, name string, args []*Sym, res *ssa.Call, set func(*Sym), emit func(*Event)) {
	snap := make([]*Sym, len(args))
	for j, a := range args {
		snap[j] = st.snap(a, 8)
	}
	t := r.resultType(c)
	var call *Sym
	pure := r.e.pure(name)
	if pure {
		ex := ""
		if name == "encoding/json.Unmarshal" && len(args) == 2 {
			// the result depends on the destination's type, not its old contents
			dt := ""
			if args[1].op == OpIface {
				dt = I.tkey(args[1].typ)
			}
			snap[1] = I.mk(Sym{op: OpParam, str: "dest:" + dt}, "")
		}
		call = I.mk(Sym{op: OpCall, str: name, args: snap, typ: t}, ex)
	} else {
		call = I.mk(Sym{op: OpCall, str: name, args: snap, typ: t, ctx: ctx, ins: ins}, siteKey(ctx, ins))
	}
	ev := &Event{Kind: EvCall, Name: name, Args: snap, Raw: args, Res: call}
	// callbacks
	if !r.e.noCallback(name) {
		for _, cl := range r.e.closuresIn(st, args) {
			cst := st
			if name == "sort.Search" && len(cl.args) == 0 && len(args) == 2 {
				// called with indexes below the length
				i := I.mk(Sym{op: OpParam, str: "index", typ: types.Typ[types.Int], ctx: ctx}, siteKey(ctx, ins))
				cst = st.clone()
				cst.assume(Le(CInt(0), i), true)
				cst.assume(Lt(i, args[0]), true)
				cl.args = []*Sym{i}
			}
			g := r.e.exploreCallback(cl, cst, r.depth)
			if g != nil {
				ev.Tasks = append(ev.Tasks, g)
				for a := range g.Writes {
					r.havocWrite(st, call, a)
				}
				for a, p := range g.Writes {
					r.noteWrite(st, a, p)
				}
			}
		}
	}
	// effects through pointer arguments
	if r.lockCall(st, name, args) {
		emit(ev)
		return
	}
	if !r.e.readonly(name) {
		for _, a := range args {
			r.havocArg(st, call, a, name, 0)
		}
	}
	set(callResult(call, c.Signature()))
	if r.e.quietCall(name) {
		return
	}
	emit(ev)
}

func (r *Run) havocWrite(st *State, why, a *Sym) {
	root := cellRoot(a)
	if root.op == OpPhi || root.op == OpWCell {
		return
	}
	if a.op == OpMapKey {
		st.mem[a] = I.mk(Sym{op: OpOut, args: []*Sym{why, a}}, "")
		return
	}
	if a.op == OpVerKey {
		return
	}
	if a.typ == nil {
		return
	}
	st.havocAddr(a, why, derefT(a.typ))
}

func (r *Run) havocArg(st *State, why, a *Sym, name string, d int) {
	if d > 3 || a == nil {
		return
	}
	switch a.op {
	case OpIface:
		r.havocArg(st, why, a.args[0], name, d+1)
	case OpAlloc, OpFieldAddr, OpElemAddr:
		if a.typ == nil {
			return
		}
		root := addrRoot(a)
		if freshRoot(root) || st.cellsUnder(a) {
			if !strings.HasPrefix(name, "(*sync") && !strings.HasPrefix(name, "sync/atomic.") {
				r.noteWrite(st, a, why.pos())
			}
			st.havocAddr(a, why, derefT(a.typ))
		}
	case OpSlice:
		if r.e.writesSlices(name) {
			base := a.args[0]
			if p, ok := base.typ.Underlying().(*types.Pointer); ok {
				st.havocAddr(base, why, p.Elem())
			} else {
				r.bumpSlice(st, base, why)
			}
		}
	case OpMakeSlice:
		if r.e.writesSlices(name) {
			r.bumpSlice(st, a, why)
		}
	case OpMakeMap:
		if !strings.HasPrefix(name, "fmt.") && !strings.HasPrefix(name, "log.") && !strings.HasPrefix(name, "maps.") && !strings.HasPrefix(name, "encoding/json.Marshal") {
			st.mem[mapKey(a)] = I.mk(Sym{op: OpOut, args: []*Sym{why, a}}, "")
		}
	}
}
func (s *Sym) pos() token.Pos {
	if s.ins != nil {
		return s.ins.Pos()
	}
	return 0
}
func (r *Run) bumpSlice(st *State, base, why *Sym) {
	for c := range st.mem {
		if c.op != OpVerKey && c.op != OpMapKey && addrRoot(c) == base {
			delete(st.mem, c)
		}
	}
	st.mem[verKey(base)] = I.mk(Sym{op: OpVer, str: "out", args: []*Sym{why, base}}, "")
}

func (r *Run) storage(cur **Node, st *State, ctx *Ctx, b *ssa.BasicBlock, i int, ins ssa.Instruction, c *ssa.CallCommon, method string, recv *Sym, args []*Sym, res *ssa.Call) (bool, bool) {
	snap := []*Sym{recv}
	for _, a := range args {
		snap = append(snap, st.snap(a, 8))
	}
	t := r.resultType(c)
	call := I.mk(Sym{op: OpCall, str: "storage." + method, args: snap, typ: t, ctx: ctx, ins: ins}, siteKey(ctx, ins))
	if res != nil {
		st.vals[vkey{ctx, res}] = callResult(call, c.Signature())
	}
	nn := r.newNode(ctx, b, i, st.clone())
	raw := append([]*Sym{recv}, args...)
	nn.Ev = &Event{Kind: EvStorage, Name: method, Args: snap, Raw: raw, Res: call, Pos: c.Pos(), Ctx: ctx, Ins: ins}
	nn.done = true
	link(*cur, nn, nil, nil)
	*cur = nn
	return false, false
}

func (r *Run) spawn(cur **Node, st *State, ctx *Ctx, b *ssa.BasicBlock, i int, ins ssa.Instruction, fv *Sym, invoke bool, c *ssa.CallCommon, group *Sym) {
	var args []*Sym
	if c != nil {
		for _, a := range c.Args {
			args = append(args, r.val(st, ctx, a))
		}
	}
	ev := &Event{Kind: EvSpawn, Name: "go", Raw: append([]*Sym{fv}, args...), Group: group, Pos: ins.Pos(), Ctx: ctx, Ins: ins}
	if group != nil {
		ev.Name = "errgroup.Go"
	}
	for _, a := range args {
		ev.Args = append(ev.Args, st.snap(a, 6))
	}
	var fn *ssa.Function
	var binds []*Sym
	if invoke {
		if fv.op == OpIface {
			fn = r.e.method(fv.typ, c.Method)
			args = append([]*Sym{fv.args[0]}, args...)
		}
	} else {
		switch fv.op {
		case OpFunc:
			fn = fv.fn
		case OpClosure:
			fn, binds = fv.fn, fv.args
		}
	}
	nn := r.newNode(ctx, b, i, nil)
	nn.Ev = ev
	nn.done = true
	link(*cur, nn, nil, nil)
	*cur = nn
	if fn != nil && len(fn.Blocks) > 0 && r.e.isRepo(fn) && r.depth < 6 {
		if r.e.isStorageMethod(fn) {
			r.undecided("storage method spawned directly")
		}
		ev.Task = r.e.explore("task", fn, args, binds, st, r.depth+1)
		ev.Task.Via = ev
		why := site(OpCall, ctx, ins, "spawn", nil)
		for a := range ev.Task.Writes {
			if _, isLocal := localRoot(cellRoot(a), ev.Task.Ctx); !isLocal {
				r.havocWrite(st, why, a)
			}
		}
	} else if fn == nil {
		ev.Name += "-dynamic"
		r.undecided("goroutine with an unresolved function at %s", r.e.pos(ins.Pos()))
	}
	nn.st = st.clone()
}

// localRoot: the object was allocated within the activation tree of ctx.
func localRoot(root *Sym, ctx *Ctx) (*Sym, bool) {
	if root.ctx != nil && root.ctx.root() == ctx {
		return root, true
	}
	return root, false
}

func (r *Run) special(cur **Node, st *State, ctx *Ctx, b *ssa.BasicBlock, i int, ins ssa.Instruction, c *ssa.CallCommon, name string, args []*Sym, res *ssa.Call, emit func(*Event), inline func(*ssa.Function, []*Sym, []*Sym, int) (bool, bool)) (handled, inl, term bool) {
	set := func(s *Sym) {
		if res != nil {
			st.vals[vkey{ctx, res}] = s
		}
	}
	if done, stop := r.cryptobyte(st, ctx, ins, c, name, args, set, emit); done {
		return true, false, stop
	}
	if r.stringsBuilder(st, ctx, ins, c, name, args, set) {
		return true, false, false
	}
	switch name {
	case "(*golang.org/x/sync/errgroup.Group).Go", "(*golang.org/x/sync/errgroup.Group).TryGo":
		r.spawn(cur, st, ctx, b, i, ins, args[1], false, nil, args[0])
		if name[len(name)-5:] == "TryGo" {
			r.undecided("errgroup TryGo is not modelled")
		}
		return true, false, false
	case "(*golang.org/x/sync/errgroup.Group).Wait":
		call := site(OpCall, ctx, ins, name, r.resultType(c), args...)
		set(call)
		emit(&Event{Kind: EvWait, Name: name, Group: args[0], Args: args, Raw: args, Res: call})
		return true, false, false
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "syscall.Exit":
		emit(&Event{Kind: EvExit, Name: name, Args: args, Raw: args})
		return true, false, true
	case "log.Panic", "log.Panicf", "log.Panicln":
		emit(&Event{Kind: EvPanic, Name: name, Args: args, Raw: args})
		return true, false, true
	case "(*golang.org/x/crypto/cryptobyte.Builder).AddUint8LengthPrefixed", "(*golang.org/x/crypto/cryptobyte.Builder).AddUint16LengthPrefixed", "(*golang.org/x/crypto/cryptobyte.Builder).AddUint24LengthPrefixed", "(*golang.org/x/crypto/cryptobyte.Builder).AddUint32LengthPrefixed", "(*golang.org/x/crypto/cryptobyte.Builder).AddASN1", "(*sync.Once).Do":
		cl := args[len(args)-1]
		var bs []*Sym
		if cl.op == OpClosure {
			bs = cl.args
		} else if cl.op != OpFunc {
			r.undecided("dynamic continuation at %s", r.e.pos(ins.Pos()))
			return true, false, true
		}
		fn := cl.fn
		if len(fn.Blocks) == 0 || ctx.recursing(fn) {
			r.undecided("continuation without body at %s", r.e.pos(ins.Pos()))
			return true, false, true
		}
		var as []*Sym
		if len(fn.Params) == 1 {
			as = []*Sym{args[0]}
			if cbLP(name) != "" {
				as = []*Sym{r.cbChild(st, ctx, ins, args[0].typ)}
			}
		}
		emit(&Event{Kind: EvBegin, Name: name, Args: args[:len(args)-1], Raw: args[:len(args)-1]})
		inl, term = inline(fn, as, bs, kCallback)
		return true, inl, term
	case "maps.Clone":
		m := site(OpMakeMap, ctx, ins, "clone", r.resultType(c))
		st.mem[mapKey(m)] = st.mapContent(args[0])
		set(m)
		return true, false, false
	case "(encoding/binary.littleEndian).PutUint64", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint16",
		"(encoding/binary.bigEndian).PutUint64", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint16":
		n := int64(8)
		if strings.HasSuffix(name, "32") {
			n = 4
		} else if strings.HasSuffix(name, "16") {
			n = 2
		}
		buf, v := args[1], args[2]
		for k := int64(0); k < n; k++ {
			bi := k
			if strings.Contains(name, "bigEndian") {
				bi = n - 1 - k
			}
			a := ElemAddr(buf, CInt(k), types.Typ[types.Uint8])
			st.store(a, byteOf(v, bi, types.Typ[types.Uint8]), types.Typ[types.Uint8])
			r.noteWrite(st, a, ins.Pos())
		}
		return true, false, false
	case "(encoding/binary.littleEndian).AppendUint64", "(encoding/binary.littleEndian).AppendUint32", "(encoding/binary.littleEndian).AppendUint16",
		"(encoding/binary.bigEndian).AppendUint64", "(encoding/binary.bigEndian).AppendUint32", "(encoding/binary.bigEndian).AppendUint16":
		n := int64(8)
		if strings.HasSuffix(name, "32") {
			n = 4
		} else if strings.HasSuffix(name, "16") {
			n = 2
		}
		els := make([]*Sym, n+1)
		for k := int64(0); k < n; k++ {
			bi := k
			if strings.Contains(name, "bigEndian") {
				bi = n - 1 - k
			}
			els[k+1] = byteOf(args[2], bi, types.Typ[types.Uint8])
		}
		el := I.mk(Sym{op: OpArray, args: els, typ: types.NewArray(types.Typ[types.Uint8], n)}, "")
		as := []*Sym{args[1], el}
		if args[1].op == OpAppend {
			as = append(append([]*Sym{}, args[1].args...), el)
		}
		set(I.mk(Sym{op: OpAppend, args: as, typ: r.resultType(c)}, ""))
		return true, false, false
	case "(encoding/binary.littleEndian).Uint64", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint16",
		"(encoding/binary.bigEndian).Uint64", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint16":
		n := int64(8)
		if strings.HasSuffix(name, "32") {
			n = 4
		} else if strings.HasSuffix(name, "16") {
			n = 2
		}
		bs := make([]*Sym, n)
		for k := int64(0); k < n; k++ {
			bi := k
			if strings.Contains(name, "bigEndian") {
				bi = n - 1 - k
			}
			bs[bi] = byteOf(r.elem(st, args[1], CInt(k)), 0, types.Typ[types.Uint8])
		}
		set(compose(bs, types.Typ[types.Uint64]))
		return true, false, false
	case "slices.Clone", "bytes.Clone":
		t := r.resultType(c)
		m := I.mk(Sym{op: OpMakeSlice, ctx: ctx, ins: ins, typ: t, args: []*Sym{Len(args[0]), Len(args[0])}}, siteKey(ctx, ins))
		r.realloc(st, m)
		r.copySlice(st, m, args[0])
		set(m)
		return true, false, false
	case "strconv.Itoa":
		// decimal rendering has one spelling
		set(I.mk(Sym{op: OpCall, str: "strconv.FormatInt", args: []*Sym{args[0], CInt(10)}, typ: types.Typ[types.String]}, ""))
		return true, false, false
	case "fmt.Sprintf":
		if s := r.sprintf(st, args); s != nil {
			set(s)
			return true, false, false
		}
	case "encoding/hex.EncodeToString":
		// one spelling for lower-case hexadecimal: Sprintf("%x")
		set(I.mk(Sym{op: OpCall, str: "hex", args: []*Sym{hexArg(st.snap(args[0], 6))}, typ: types.Typ[types.String]}, ""))
		return true, false, false
	}
	return false, false, false
}

func hexArg(x *Sym) *Sym {
	// the hexadecimal form of an array and of the whole slice over it agree
	if x.op == OpSnapSlice && x.args[1] == nil && x.args[2] == nil {
		return x.args[0]
	}
	return x
}

// sprintf gives a format call a canonical concatenation when every verb is one
// whose rendering we can spell (%s of strings, %x of byte arrays, %d of integers).
func (r *Run) sprintf(st *State, args []*Sym) *Sym {
	f, ok := args[0].strVal()
	if !ok || len(args) != 2 {
		return nil
	}
	var els []*Sym
	sn := st.snap(args[1], 6)
	if !isNilSym(sn) {
		els = sliceElems(sn)
		if els == nil {
			return nil
		}
	}
	var parts []*Sym
	lit := ""
	ei := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i < len(f) && f[i] == '%' {
			lit += "%"
			continue
		}
		if i >= len(f) || ei >= len(els) {
			return nil
		}
		spec := ""
		for i < len(f) && strings.IndexByte("0123456789.+-# ", f[i]) >= 0 {
			spec += string(f[i])
			i++
		}
		if i >= len(f) {
			return nil
		}
		e := els[ei]
		ei++
		var t types.Type
		if e.op == OpIface {
			t = e.typ
			e = e.args[0]
		} else {
			t = e.typ
		}
		if lit != "" {
			parts = append(parts, CStr(lit))
			lit = ""
		}
		switch {
		case (f[i] == 's' || f[i] == 'v') && spec == "" && isStringType(t):
			parts = append(parts, e)
		case f[i] == 'x' && spec == "" && (isByteSlice(t) || isByteArray(t)):
			parts = append(parts, I.mk(Sym{op: OpCall, str: "hex", args: []*Sym{hexArg(e)}, typ: types.Typ[types.String]}, ""))
		case (f[i] == 'd' || f[i] == 'v') && spec == "" && isIntType(t):
			if n, ok := e.intVal(); ok {
				lit += fmt.Sprint(n)
			} else {
				parts = append(parts, I.mk(Sym{op: OpCall, str: "strconv.FormatInt", args: []*Sym{e, CInt(10)}, typ: types.Typ[types.String]}, ""))
			}
		default:
			parts = append(parts, I.mk(Sym{op: OpCall, str: "fmt%" + spec + string(f[i]), args: []*Sym{e}, typ: types.Typ[types.String]}, ""))
		}
	}
	if ei != len(els) {
		return nil
	}
	if lit != "" {
		parts = append(parts, CStr(lit))
	}
	return catStr(parts...)
}
func isByteArray(t types.Type) bool {
	a := isArray(t)
	if a == nil {
		return false
	}
	b, ok := a.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// elem reads one element of a slice-like value.
func (r *Run) elem(st *State, s, idx *Sym) *Sym {
	et := elemType(s.typ)
	switch s.op {
	case OpSnapSlice, OpCopyOf, OpArray, OpZero:
		return byteSel(s, idx, et)
	}
	if s.op == OpConv || isStringType(s.typ) {
		return byteSel(s, idx, et)
	}
	return st.load(ElemAddr(s, idx, et), et)
}

func (r *Run) copySlice(st *State, dst, src *Sym) {
	et := elemType(dst.typ)
	dl, dok := r.constLen(st, dst)
	sl, sok := r.constLen(st, src)
	root := dst
	lo := CInt(0)
	if dst.op == OpSlice {
		root = dst.args[0]
		lo = sliceLo(dst)
	}
	r.noteWrite(st, ElemAddr(root, I.mk(Sym{op: OpParam, str: "*"}, ""), et), 0)
	if _, isc := lo.intVal(); isc && (dok || sok) {
		n := dl
		if !dok || (sok && sl < dl) {
			n = sl
		}
		exact := dok && sok
		if !exact {
			// one side has unknown length: exact when the unknown side is provably long enough
			if dok && st.eval(Le(CInt(dl), Len(src))) == 1 {
				n, exact = dl, true
			} else if sok && st.eval(Le(CInt(sl), Len(dst))) == 1 {
				n, exact = sl, true
			} else if sok && sl <= 64 && !dok {
				exact = false
			}
		}
		if exact && (n <= 64 || n <= 256 && isByteSlice(types.NewSlice(et))) {
			var vs []*Sym
			for k := int64(0); k < n; k++ {
				vs = append(vs, r.elem(st, src, CInt(k)))
			}
			for k := int64(0); k < n; k++ {
				st.store(ElemAddr(dst, CInt(k), et), vs[k], et)
			}
			return
		}
		// whole fixed array from a slice of unknown length
		if dok && lo.isInt(0) && root.typ != nil {
			if p, ok := root.typ.Underlying().(*types.Pointer); ok {
				if at := isArray(p.Elem()); at != nil && at.Len() == dl {
					s := st.snap(src, 6)
					st.store(root, I.mk(Sym{op: OpCopyOf, args: []*Sym{s}, typ: p.Elem(), str: "padded"}, I.tkey(p.Elem())), p.Elem())
					return
				}
			}
		}
	}
	if p, ok := root.typ.Underlying().(*types.Pointer); ok {
		st.havocAddr(root, I.mk(Sym{op: OpVerCopy, args: []*Sym{st.load(root, p.Elem()), lo, Len(dst), st.snap(src, 6)}}, ""), p.Elem())
		return
	}
	for c := range st.mem {
		if c.op != OpVerKey && c.op != OpMapKey && addrRoot(c) == root {
			delete(st.mem, c)
		}
	}
	k := verKey(root)
	old := st.mem[k]
	hi := Add(lo, Len(dst))
	s := src
	if isStringType(src.typ) || src.op != OpSlice && src.op != OpMakeSlice {
		s = src
	}
	st.mem[k] = I.mk(Sym{op: OpVerCopy, args: []*Sym{old, lo, hi, st.snap(s, 6)}}, "")
}

func (r *Run) constLen(st *State, s *Sym) (int64, bool) {
	l := Len(s)
	if n, ok := l.intVal(); ok {
		return n, true
	}
	// pinned by an equality fact
	for f, v := range st.facts {
		if v && f.op == OpEq0 {
			d := linAdd(toLin(l), toLin(f.args[0]), -1)
			if len(d.t) == 0 {
				return d.c, true
			}
			d = linAdd(toLin(l), toLin(f.args[0]), 1)
			if len(d.t) == 0 {
				return d.c, true
			}
		}
	}
	return 0, false
}

func kindIsCall(ins ssa.Instruction) bool {
	_, ok := ins.(*ssa.Call)
	return ok
}

func (r *Run) builtin(cur **Node, st *State, ctx *Ctx, b *ssa.BasicBlock, i int, ins ssa.Instruction, name string, c *ssa.CallCommon, args []*Sym, res *ssa.Call) (term bool) {
	set := func(s *Sym) {
		if res != nil {
			st.vals[vkey{ctx, res}] = s
		}
	}
	emit := func(ev *Event) {
		ev.Ctx, ev.Ins = ctx, ins
		if ev.Pos == 0 {
			ev.Pos = ins.Pos()
		}
		nn := r.newNode(ctx, b, i, st.clone())
		nn.Ev = ev
		nn.done = true
		link(*cur, nn, nil, nil)
		*cur = nn
	}
	switch name {
	case "len":
		if n, ok := r.constLen(st, args[0]); ok {
			set(CInt(n))
		} else if args[0].op == OpMakeMap || (args[0].typ != nil && isMap(args[0].typ)) {
			set(I.mk(Sym{op: OpCall, str: "len", args: []*Sym{st.mapContent(args[0])}, typ: types.Typ[types.Int]}, ""))
		} else {
			set(Len(args[0]))
		}
	case "cap":
		set(I.mk(Sym{op: OpCall, str: "cap", args: args, typ: types.Typ[types.Int]}, ""))
	case "append":
		base := args[0]
		el := st.snap(args[1], 6)
		as := []*Sym{base, el}
		if base.op == OpAppend {
			as = append(append([]*Sym{}, base.args...), el)
		}
		if isNilSym(el) {
			set(base)
			break
		}
		a := I.mk(Sym{op: OpAppend, args: as, typ: c.Args[0].Type()}, "")
		if base.op != OpAppend {
			// contents of the base at the time of the append
		}
		set(a)
		emit(&Event{Kind: EvCall, Name: "append", Args: []*Sym{st.snap(base, 6), el}, Raw: args, Res: a})
	case "copy":
		r.copySlice(st, args[0], args[1])
		set(I.mk(Sym{op: OpCall, str: "min", args: []*Sym{Len(args[0]), Len(args[1])}, typ: types.Typ[types.Int]}, ""))
		emit(&Event{Kind: EvCall, Name: "copy", Args: []*Sym{args[0], st.snap(args[1], 6)}, Raw: args})
	case "delete":
		m := args[0]
		r.noteWrite(st, mapKey(m), ins.Pos())
		st.mem[mapKey(m)] = I.mk(Sym{op: OpMapDel, args: []*Sym{st.mapContent(m), args[1]}}, "")
	case "clear":
		m := args[0]
		if isMap(m.typ) || m.op == OpMakeMap {
			r.noteWrite(st, mapKey(m), ins.Pos())
			st.mem[mapKey(m)] = I.mk(Sym{op: OpZeroMap}, "")
		} else {
			r.bumpSlice(st, addrBase(m), site(OpCall, ctx, ins, "clear", nil))
		}
	case "min", "max":
		allC := true
		var best int64
		for j, a := range args {
			n, ok := a.intVal()
			if !ok {
				allC = false
				break
			}
			if j == 0 || (name == "min" && n < best) || (name == "max" && n > best) {
				best = n
			}
		}
		if allC {
			set(Const(constant.MakeInt64(best), args[0].typ))
		} else {
			if bt, ok := args[0].typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && res != nil && kindIsCall(ins) {
				// one continuation per argument that may be chosen
				var fold func(best *Sym, k int, s *State, facts []Fact)
				fold = func(best *Sym, k int, s *State, facts []Fact) {
					if k == len(args) {
						s.vals[vkey{ctx, res}] = best
						r.enter(*cur, s, ctx, b, i+1, facts, nil, nil)
						return
					}
					keep := Le(best, args[k])
					if name == "max" {
						keep = Le(args[k], best)
					}
					switch s.eval(keep) {
					case 1:
						fold(best, k+1, s, facts)
					case 0:
						fold(args[k], k+1, s, facts)
					default:
						s2 := s.clone()
						s.assume(keep, true)
						s2.assume(keep, false)
						fold(best, k+1, s, append(append([]Fact(nil), facts...), Fact{keep, true}))
						fold(args[k], k+1, s2, append(append([]Fact(nil), facts...), Fact{keep, false}))
					}
				}
				fold(args[0], 1, st, nil)
				return true
			}
			as := append([]*Sym{}, args...)
			sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
			set(I.mk(Sym{op: OpCall, str: name, args: as, typ: args[0].typ}, ""))
		}
	case "close":
		emit(&Event{Kind: EvClose, Args: args, Raw: args})
	case "panic":
		emit(&Event{Kind: EvPanic, Name: "panic", Args: args, Raw: args})
		return true
	case "recover":
		set(Nil(nil))
	case "print", "println":
	case "ssa:wrapnilchk":
		set(args[0])
	default:
		r.undecided("builtin %s is not modelled", name)
		if res != nil {
			set(site(OpCall, ctx, ins, name, res.Type(), args...))
		}
	}
	return false
}
func addrBase(s *Sym) *Sym {
	if s.op == OpSlice {
		return s.args[0]
	}
	return s
}
func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
