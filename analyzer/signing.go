package main

// C27: a signature is a function of the key and the message, in the one
// encoding DER has for it.

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (a *effects) inLive(ins ssa.Instruction) bool { return a.live[ins.Parent()] }

func (c *Check) signingPure() {
	fn := c.w.e.fnByName("internal/sunlight", "", "DigitallySign")
	if fn == nil || len(fn.Params) != 2 {
		c.bad("pure", "DigitallySign", "", "the function that signs is gone")
		return
	}
	a := newEffects(c.w)
	names := []string{"the key", "the message"}
	var given []*effObj
	for i, p := range fn.Params {
		o := a.obj(p, "param", names[i])
		o.in[o] = true
		a.set(p, map[*effObj]bool{o: true})
		given = append(given, o)
	}
	a.start(fn, false)
	a.solve()

	// what outlives the call
	from := map[*effObj]bool{}
	for _, o := range given {
		from[o] = true
	}
	for _, o := range a.objs {
		if o.kind == "global" {
			from[o] = true
		}
	}
	lasting := effReach(from)
	var fns []*ssa.Function
	for f := range a.live {
		fns = append(fns, f)
	}
	for f := range a.once {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool {
		if fns[i].Pos() != fns[j].Pos() {
			return fns[i].Pos() < fns[j].Pos()
		}
		return fns[i].String() < fns[j].String()
	})
	c.analysed(fns...)
	badIn := map[*ssa.Function]bool{}
	seen := map[string]bool{}
	for _, w := range a.writes {
		if !a.live[w.fn] || !lasting[w.o] {
			continue
		}
		where := c.w.e.pos(w.ins.Pos())
		if seen[where] {
			continue
		}
		seen[where] = true
		badIn[w.fn] = true
		c.bad("pure", fnLabel(w.fn), where, "%s on every signature changes memory that outlives it (%s)", w.what, w.o.name)
	}
	var ins []ssa.Instruction
	for i := range a.bad {
		ins = append(ins, i)
	}
	sort.Slice(ins, func(i, j int) bool { return ins[i].Pos() < ins[j].Pos() })
	for _, i := range ins {
		f := i.Parent()
		badIn[f] = true
		c.bad("pure", fnLabel(f), c.w.e.pos(i.Pos()), "a signature depends on more than key and message: %s", a.bad[i])
	}
	for _, f := range fns {
		if !badIn[f] {
			c.ok("pure", fnLabel(f), c.w.e.pos(f.Pos()))
		}
	}
	// package variables: written before anything is signed, or once, before they are read
	reads := a.globalsRead()
	var gs []*ssa.Global
	for g := range reads {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		if g.Pkg == nil || !c.w.e.isRepoPkg(g.Pkg.Pkg) {
			switch g.Pkg.Pkg.Path() {
			case "encoding/binary", "io":
			default:
				for _, i := range reads[g] {
					c.bad("state", g.Name(), c.w.e.pos(i.Pos()), "a signature depends on the variable %s of another package", g)
				}
			}
			continue
		}
		good := true
		var lazily []*ssa.Function
		for _, st := range a.storesTo(g) {
			f := st.Parent()
			switch {
			case isPkgInit(f), a.once[f]:
				if a.once[f] && !isPkgInit(f) {
					lazily = append(lazily, f)
				}
			case a.live[f]: // reported above
			default:
				good = false
				c.bad("state", g.Name(), c.w.e.pos(st.Pos()), "%s changes a variable that signatures depend on", fnLabel(f))
			}
		}
		if len(lazily) > 0 {
			for _, i := range reads[g] {
				if !a.live[i.Parent()] {
					continue
				}
				if !a.afterOnce(i, lazily, 0) {
					good = false
					c.bad("state", g.Name(), c.w.e.pos(i.Pos()), "%s reads a variable that another goroutine may be setting at that moment", fnLabel(i.Parent()))
				}
			}
		}
		if good {
			c.ok("state", g.Name(), c.w.e.pos(g.Pos()))
		}
	}
	c.need(len(a.live), 5, "pure", "functions that make a signature")
}

// afterOnce: a sync.Once that runs one of the functions comes before i on every path.
func (a *effects) afterOnce(i ssa.Instruction, lazily []*ssa.Function, depth int) bool {
	f := i.Parent()
	before := func(b *ssa.BasicBlock, upto ssa.Instruction) bool {
		for _, x := range b.Instrs {
			if x == upto {
				return false
			}
			call, ok := x.(*ssa.Call)
			if ok && a.runsOnce(call, lazily, depth) {
				return true
			}
		}
		return false
	}
	if before(i.Block(), i) {
		return true
	}
	for b := i.Block().Idom(); b != nil; b = b.Idom() {
		if before(b, nil) {
			return true
		}
	}
	_ = f
	return false
}

func (a *effects) runsOnce(call *ssa.Call, lazily []*ssa.Function, depth int) bool {
	cc := call.Common()
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" && f.Name() == "Do" {
		for o := range a.of(cc.Args[1]) {
			if o.fn != nil && a.leadsTo(o.fn, lazily, map[*ssa.Function]bool{}) {
				return true
			}
		}
		return false
	}
	if depth < 3 && a.live[f] {
		n := 0
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if !a.afterOnce(r, lazily, depth+1) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

func (a *effects) leadsTo(f *ssa.Function, to []*ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, t := range to {
		if t == f {
			return true
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if call, ok := ins.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 && a.leadsTo(g, to, seen) {
					return true
				}
			}
		}
	}
	return false
}

func fnLabel(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if isPkgInit(f) {
		return "init"
	}
	return f.Name()
}

// derInt: x is the section of a DER INTEGER that holds one unsigned number; it
// returns the number's bytes before the leading zeros went.
func (c *Check) derInt(g *Graph, n *Node, x *Sym) (*Sym, string) {
	x = unwrap(x)
	if isCallSym(x, "cb.bigint") {
		if y := unwrap(x.args[0]); isCallSym(y, "(*math/big.Int).SetBytes") && len(y.args) == 2 {
			return unwrap(y.args[1]), ""
		}
	}
	if !isCallSym(x, "cb.asn1:2") || len(x.args) != 1 {
		return nil, "it is not a DER integer: " + short(x)
	}
	ps := cbParts(x.args[0])
	padded := false
	if len(ps) == 2 && unwrapConv(ps[0]).isInt(0) {
		padded = true
		ps = ps[1:]
	}
	if len(ps) != 1 || !isCallSym(ps[0], "cb.bytes") {
		return nil, "the integer is not a number, with a zero in front when needed: " + short(x.args[0])
	}
	v := unwrap(ps[0].args[0])
	// what is left after a whole number of leading bytes
	strip := stripped{v: v, from: v}
	li := loopOf(g, v)
	if v.op == OpSlice && (v.args[2] == nil || v.args[2] == Len(v.args[0])) {
		if l := loopOf(g, sliceLo(v)); l != nil {
			li, strip.from, strip.idx = l, unwrap(v.args[0]), sliceLo(v)
		}
	}
	if li == nil {
		return nil, "nothing strips the leading zeros of " + short(v)
	}
	st := must(g).at(n)
	set, clear, _, nonzero := strip.facts(st)
	switch {
	case padded && !set:
		return nil, "a zero is put in front of a number whose top bit may be clear"
	case !padded && !clear:
		return nil, "a number whose top bit may be set goes out as a negative one"
	case !nonzero:
		return nil, "leading zeros may be left"
	}
	key := v
	if strip.idx != nil {
		key = strip.idx
	}
	var from *Sym
	for _, h := range li.Heads {
		iv := h.Init[key]
		if iv == nil {
			return nil, "the number has no origin"
		}
		if strip.idx != nil {
			if !iv.isInt(0) {
				return nil, "the first bytes are left out unseen"
			}
			from = strip.from
			continue
		}
		if from != nil && from != unwrap(iv) {
			return nil, "the number has more than one origin"
		}
		from = unwrap(iv)
	}
	if from == nil {
		return nil, "the number has no origin"
	}
	for _, b := range li.Backs {
		w := b.Vals[key]
		if w == nil || w == key {
			continue
		}
		one := false
		if strip.idx != nil {
			one = Sub(w, key).isInt(1)
		} else if y := unwrap(w); y.op == OpSlice && y.args[0] == v {
			one = sliceLo(y).isInt(1) && (y.args[2] == nil || y.args[2] == Len(v))
		}
		if !one {
			return nil, "a round takes more or less than the first byte away: " + short(w)
		}
		if _, _, zero, _ := strip.facts(knownOnBack(g, li, b)); !zero {
			return nil, "a byte that is not zero may be taken away"
		}
	}
	return from, ""
}

// stripped is a number without its leading zeros: what is left is v, or from
// after idx bytes.
type stripped struct {
	v, from, idx *Sym
}

// facts: what st says of the first byte that is left: top bit set, top bit
// clear, zero, not zero.
func (s stripped) facts(st *State) (set, clear, zero, nonzero bool) {
	if st == nil {
		return
	}
	isFirst := func(x *Sym) bool {
		x = unwrapConv(x)
		if x.op != OpLoad || len(x.args) == 0 || x.args[0].op != OpElemAddr {
			return false
		}
		b, i := unwrap(x.args[0].args[0]), x.args[0].args[1]
		return b == s.v && i.isInt(0) || s.idx != nil && b == s.from && i == s.idx
	}
	firsts := map[*Sym]bool{}
	for f, v := range st.facts {
		find(f, func(x *Sym) bool {
			if isFirst(x) {
				firsts[x] = true
			}
			if x.op == OpBin && (x.str == "&" || x.str == ">>") && len(x.args) == 2 {
				a, b := x.args[0], x.args[1]
				top := x.str == "&" && (a.isInt(128) && isFirst(b) || b.isInt(128) && isFirst(a)) || x.str == ">>" && isFirst(a) && b.isInt(7)
				if top && f == Eq(x, CInt(0)) {
					if v {
						clear = true
					} else {
						set = true
					}
				}
			}
			return false
		})
	}
	for x := range firsts {
		switch st.eval(Le(CInt(128), x)) {
		case 1:
			set = true
		case 0:
			clear = true
		}
		switch st.eval(Eq(x, CInt(0))) {
		case 1:
			zero = true
		case 0:
			nonzero = true
		}
	}
	if set {
		nonzero = true
	}
	return
}

func (c *Check) signingDER() {
	c.w.e.openSign = true
	g := c.w.root("internal/rfc6979", "", "Sign")
	c.w.e.openSign = false
	if g == nil {
		c.bad("encoding", "Sign", "", "the function that signs is gone")
		return
	}
	c.use(g)
	k := 0
	for _, n := range returnsOf(g) {
		if len(n.Ev.Args) != 2 {
			continue
		}
		v := unwrap(n.Ev.Args[0])
		if v.op == OpNil || len(cbParts(v)) > 0 && isCbErr(cbParts(v)[0]) {
			continue
		}
		if must(g).at(n).yes(Not(Eq(n.Ev.Args[1], Nil(nil)))) {
			continue
		}
		k++
		why := ""
		ps := cbParts(v)
		if len(ps) != 1 || !isCallSym(ps[0], "cb.asn1:48") {
			why = "it is not one DER sequence: " + short(v)
		} else if in := cbParts(ps[0].args[0]); len(in) != 2 {
			why = fmt.Sprintf("the sequence has %d elements", len(in))
		} else {
			r, m := c.derInt(g, n, in[0])
			if m != "" {
				why = "r: " + m
			} else {
				s, m := c.derInt(g, n, in[1])
				if m != "" {
					why = "s: " + m
				} else if r == s {
					why = "r and s are the same number"
				}
			}
		}
		if why != "" {
			c.bad("encoding", "Sign", c.at(n), "%s", why)
		} else {
			c.ok("encoding", "Sign", c.at(n))
		}
	}
	c.need(k, 4, "encoding", "ways a signature is returned")
	c.nonceSeed(g)
}

// nonceSeed decides that the nonce depends on the whole key and the whole digest.
func (c *Check) nonceSeed(g *Graph) {
	digest := param(g, 1)
	write := func(ev *Event) *Sym {
		if ev == nil || ev.Kind != EvCall || !strings.HasSuffix(ev.Name, ").Write") || len(ev.Args) != 2 {
			return nil
		}
		return unwrap(ev.Args[1])
	}
	named := func(name string) []*Node {
		return evNodes(g, func(ev *Event) bool { return ev.Kind == EvCall && strings.HasSuffix(ev.Name, name) })
	}
	isSize := func(x *Sym) bool { return isCallSym(unwrap(x), "(*filippo.io/bigmod.Modulus).Size") }
	uses := evNodes(g, func(ev *Event) bool {
		return ev.Kind == EvCall && (strings.HasSuffix(ev.Name, "Point).ScalarBaseMult") || strings.HasSuffix(ev.Name, "Point).ScalarMult"))
	})
	sums, resets := named(").Sum"), named(").Reset")
	// the key, as wide as the order of the group
	key := evNodes(g, func(ev *Event) bool {
		x := write(ev)
		if x == nil || !isCallSym(x, "(*math/big.Int).FillBytes") || len(x.args) != 2 {
			return false
		}
		p, ok := loadPlace(unwrap(x.args[0]))
		return ok && p.last() == "D" && isSize(Len(x.args[1]))
	})
	// the digest, as a number of that width
	nats := map[*Sym][]*Node{}
	dig := evNodes(g, func(ev *Event) bool {
		x := write(ev)
		if x == nil || !isCallSym(x, "(*filippo.io/bigmod.Nat).Bytes") {
			return false
		}
		return true
	})
	for _, n := range dig {
		e := unwrap(write(n.Ev).args[0])
		nats[e] = append(nats[e], n)
	}
	for _, p := range []struct {
		what string
		at   []*Node
	}{{"the private key, padded to the width of the group", key}, {"the digest", dig}} {
		if len(p.at) == 0 || len(uses) == 0 {
			c.bad("nonce", p.what, g.Name, "the nonce is not derived from %s", p.what)
			continue
		}
		if q := search([]*Node{g.Entry}, outEdges(p.at).pred(), isNode(uses)); q != nil {
			c.add(false, "nonce", p.what, c.at(q[len(q)-1]), "a nonce is used that does not depend on "+p.what, c.path(q)...)
			continue
		}
		if q := search(p.at, outEdges(sums).pred(), isNode(append(append([]*Node{}, resets...), uses...))); q != nil {
			c.add(false, "nonce", p.what, c.at(q[0]), "what was written of "+p.what+" is thrown away", c.path(q)...)
			continue
		}
		for _, n := range p.at {
			c.ok("nonce", p.what, c.at(n))
		}
	}
	whole := func(x *Sym) bool {
		x = unwrap(x)
		if x == digest {
			return true
		}
		if x.op == OpSlice && unwrap(x.args[0]) == digest && sliceLo(x).isInt(0) && x.args[2] != nil && isSize(x.args[2]) {
			return true
		}
		return false
	}
	for e, at := range nats {
		set := evNodes(g, func(ev *Event) bool {
			return ev.Kind == EvCall && strings.HasSuffix(ev.Name, "bigmod.Nat).SetOverflowingBytes") && unwrap(ev.Args[0]) == e
		})
		good := len(set) > 0
		for _, n := range set {
			x := unwrap(n.Ev.Args[1])
			if whole(x) || x.op == OpMakeSlice && isSize(Len(x)) {
				continue // in the second case, a copy of that length, shifted
			}
			good = false
			c.bad("nonce", "the digest", c.at(n), "only part of the digest counts: %s", short(x))
		}
		if q := search([]*Node{g.Entry}, outEdges(set).pred(), isNode(at)); q != nil && good {
			good = false
			c.add(false, "nonce", "the digest", c.at(q[len(q)-1]), "the number that stands for the digest may never be set", c.path(q)...)
		}
		if good {
			c.ok("nonce", "the digest as a number", c.at(set[0]))
		}
	}
}

func init() {
	register("C27", func(c *Check) {
		c.signingPure()
		c.signingDER()
	})
}
