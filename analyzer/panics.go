package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- panics ---------------------------------------------------------------------------------

// Obl is one run-time check the language (or a library function) makes: what must hold
// where the instruction is reached for it not to panic.
type Obl struct {
	Kind string
	At   *Node
	Ctx  *Ctx
	Ins  ssa.Instruction
	Cond *Sym
	Ok   bool
}

func (r *Run) oblige(cur *Node, st *State, ctx *Ctx, ins ssa.Instruction, kind string, what *Sym, conds ...*Sym) {
	for _, c := range conds {
		r.g.Obls = append(r.g.Obls, &Obl{kind, cur, ctx, ins, c, st.eval(c) == 1})
	}
}

func (r *Run) checkIndex(cur *Node, st *State, ctx *Ctx, ins ssa.Instruction, x, i *Sym, t types.Type) {
	var n *Sym
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	if a, ok := u.(*types.Array); ok {
		n = CInt(a.Len())
	} else {
		n = Len(x)
	}
	cs := []*Sym{Lt(i, n)}
	if !nonneg(i) {
		cs = append(cs, Le(CInt(0), i))
	}
	r.oblige(cur, st, ctx, ins, "index", x, cs...)
}

func (r *Run) checkSlice(cur *Node, st *State, ctx *Ctx, ins *ssa.Slice, x, lo, hi *Sym) {
	t := ins.X.Type().Underlying()
	var n *Sym
	if p, ok := t.(*types.Pointer); ok {
		n = CInt(p.Elem().Underlying().(*types.Array).Len())
	} else {
		n = Len(x)
	}
	if lo == nil && hi == nil {
		return
	}
	var cs []*Sym
	if lo == nil {
		lo = CInt(0)
	} else {
		cs = append(cs, Le(CInt(0), lo))
	}
	if hi == nil {
		hi = n
	} else {
		cs = append(cs, Le(hi, n))
	}
	cs = append(cs, Le(lo, hi))
	r.oblige(cur, st, ctx, ins, "slice", x, cs...)
}

// checkDeref: the result of a call that can fail is used as a pointer only where the
// call is known not to have failed; the same goes for what a map or an assertion gave.
func (r *Run) checkDeref(cur *Node, st *State, ctx *Ctx, ins ssa.Instruction, p *Sym) {
	x := addrRoot(p)
	for x.op == OpConv && len(x.args) == 1 {
		x = x.args[0]
	}
	isNil := Eq(x, Nil(nil))
	if st.eval(isNil) == 0 {
		return
	}
	var c *Sym
	switch x.op {
	case OpExtract:
		k := x.args[0]
		tt, ok := k.typ.(*types.Tuple)
		if !ok || k.op != OpCall || tt.Len() == 0 {
			return
		}
		last := tt.At(tt.Len() - 1).Type()
		if isErrorType(last) && int(x.n) != tt.Len()-1 {
			c = Eq(Extract(k, tt.Len()-1, last), Nil(nil))
		} else if isBoolType(last) && int(x.n) != tt.Len()-1 {
			c = Extract(k, tt.Len()-1, last)
		} else if isErrorType(x.typ) || isCallSym(k, "encoding/pem.Decode") {
			c = Not(isNil)
		} else {
			return
		}
	case OpLookup:
		c = I.mk(Sym{op: OpLookupOk, args: x.args, typ: types.Typ[types.Bool]}, "")
	case OpCall:
		if !isErrorType(x.typ) {
			return
		}
		if neverNil(x) {
			return
		}
		c = Not(isNil)
	default:
		return
	}
	r.oblige(cur, st, ctx, ins, "nil", x, c)
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// preconditions of library functions that panic otherwise.
var preconditions = map[string]func(args []*Sym) []*Sym{
	"github.com/google/certificate-transparency-go/trillian/ctfe.ValidateChain": func(a []*Sym) []*Sym {
		return []*Sym{Le(CInt(1), Len(a[0]))}
	},
	"golang.org/x/mod/sumdb/tlog.TileForIndex": func(a []*Sym) []*Sym {
		return []*Sym{Le(CInt(0), a[0])}
	},
	"(encoding/binary.littleEndian).Uint64":    func(a []*Sym) []*Sym { return []*Sym{Le(CInt(8), Len(a[1]))} },
	"(encoding/binary.littleEndian).PutUint64": func(a []*Sym) []*Sym { return []*Sym{Le(CInt(8), Len(a[1]))} },
}

func init() {
	register("C35", func(c *Check) {
		gs := map[*Graph]bool{}
		var order []*Graph
		add := func(g *Graph) {
			for _, x := range closureGraphs(g) {
				if !gs[x] {
					gs[x] = true
					order = append(order, x)
				}
			}
		}
		for _, h := range append(append([]*Handler(nil), c.monitorH()...), c.submitH()...) {
			add(h.G)
		}
		// everything the programs leave running
		for _, root := range []*Graph{c.w.submit(), c.w.monitor()} {
			if root == nil {
				c.bad("anchors", "programs", "?", "a program's entry point was not found")
				return
			}
			for _, g := range closureGraphs(root) {
				if strings.HasPrefix(g.Name, "task") {
					add(g)
				}
			}
		}
		// the codecs, which are read apart
		for _, f := range [][3]string{
			{"internal/sunlight", "", "ReadTileLeaf"},
			{"internal/sunlight", "", "ParseExtensions"},
			{"internal/sunlight", "", "AppendTileLeaf"},
			{"internal/sunlight", "", "MarshalExtensions"},
			{"internal/sunlight", "LogEntry", "MerkleTreeLeaf"},
			{"internal/sunlight", "", "Path"},
		} {
			g := c.w.root(f[0], f[1], f[2])
			if g == nil && f[1] != "" {
				g = c.w.root(f[0], "*"+f[1], f[2])
			}
			if g == nil {
				c.bad("anchors", f[2], "?", "not found")
				continue
			}
			c.use(g)
			add(g)
		}
		n := 0
		for _, g := range order {
			for _, o := range g.Obls {
				n++
				cons := g.Name + ": " + o.Ctx.fn.Name() + ": " + o.Kind
				where := c.e().pos(o.Ins.Pos())
				if o.Ok || knownAround(g, o.At, o.Cond) {
					c.ok("no-panic", cons, where)
					continue
				}
				switch o.Kind {
				case "index":
					c.bad("no-panic", cons, where, "an index may be out of range: not shown that %s", short(o.Cond))
				case "slice":
					c.bad("no-panic", cons, where, "slice bounds may be out of range: not shown that %s", short(o.Cond))
				case "array":
					c.bad("no-panic", cons, where, "a slice may be too short for the array it becomes: not shown that %s", short(o.Cond))
				case "assert":
					c.bad("no-panic", cons, where, "a value may not have the asserted type")
				case "call":
					c.bad("no-panic", cons, where, "a library function may panic on its arguments: not shown that %s", short(o.Cond))
				default:
					c.bad("no-panic", cons, where, "the result of a call is used although it may have failed: not shown that %s", short(o.Cond))
				}
			}
			rs := reachable([]*Node{g.Entry}, nil)
			for _, x := range g.Nodes {
				if rs[x] && x.Ev != nil && x.Ev.Kind == EvPanic && !strings.HasSuffix(x.Ev.Name, "cryptobyte.Builder).BytesOrPanic") {
					c.bad("no-panic", g.Name+": "+x.ctx.fn.Name()+": "+x.Ev.Name, c.at(x), "this panics: %s", x.Ev.Name)
				}
			}
		}
		c.need(n, 300, "no-panic", "run-time checks")
	})
}

// knownAround: cond holds at n, or held where the task n belongs to was started.
func knownAround(g *Graph, n *Node, cond *Sym) bool {
	for d := 0; g != nil && d < 8; d++ {
		if n != nil && must(g).at(n).eval(cond) == 1 {
			return true
		}
		p := g.Parent
		if p == nil {
			return false
		}
		n = nil
		for _, x := range p.Nodes {
			if x.Ev != nil && (x.Ev == g.Via || hasTask(x.Ev, g)) {
				n = x
			}
		}
		g = p
	}
	return false
}

func hasTask(ev *Event, g *Graph) bool {
	if ev.Task == g {
		return true
	}
	for _, t := range ev.Tasks {
		if t == g {
			return true
		}
	}
	return false
}
