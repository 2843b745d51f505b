package main

// C16: the names of objects.

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func (st *State) yes(c *Sym) bool { return st.eval(c) == 1 }

func isRem(x *Sym, d int64) *Sym {
	x = unwrapConv(x)
	if x.op == OpBin && x.str == "%" && x.args[1].isInt(d) {
		return unwrapConv(x.args[0])
	}
	return nil
}

func isQuo(x, of *Sym, d int64) bool {
	x = unwrapConv(x)
	return x.op == OpBin && x.str == "/" && unwrapConv(x.args[0]) == of && x.args[1].isInt(d)
}

func isDec(x *Sym) *Sym {
	x = unwrap(x)
	if (isCallSym(x, "strconv.FormatInt") || isCallSym(x, "strconv.FormatUint")) && x.args[1].isInt(10) {
		return unwrapConv(x.args[0])
	}
	return nil
}

// splitStr is strParts with constants cut after every "/" and before every ".".
func splitStr(x *Sym) []*Sym {
	var out []*Sym
	for _, p := range strParts(x) {
		s, ok := p.strVal()
		if !ok {
			out = append(out, p)
			continue
		}
		for s != "" {
			i := strings.IndexByte(s, '/')
			if i < 0 {
				i = len(s) - 1
			}
			out = append(out, CStr(s[:i+1]))
			s = s[i+1:]
		}
	}
	return out
}

// tilePath decides that Path names a tile as agreed.
func (c *Check) tilePath(g *Graph) {
	t := []*Sym{param(g, 0)}
	if len(g.Fn.Params) != 1 {
		c.bad("anchor", "Path", c.w.e.pos(g.Fn.Pos()), "the function no longer takes one tile")
		return
	}
	fld := func(n string) *Sym { return fieldByName(t[0], n) }
	H, L, N, W := fld("H"), fld("L"), fld("N"), fld("W")
	if H == nil || L == nil || N == nil || W == nil {
		c.bad("anchor", "Path", c.w.e.pos(g.Fn.Pos()), "the argument is not a tile: %s", short(t[0]))
		return
	}
	rets := evNodes(g, func(e *Event) bool { return e.Kind == EvReturn })
	c.need(len(rets), 1, "anchor", "results of Path")
	for _, n := range rets {
		at := c.at(n)
		ps := splitStr(n.Ev.Args[0])
		why := func() string {
			if len(ps) < 3 || !isStr(ps[0], "tile/") {
				return "the name does not begin with tile/: " + short(n.Ev.Args[0])
			}
			ps = ps[1:]
			data := Eq(L, CInt(-1))
			if isStr(ps[0], "data/") {
				if !known(g, n, data) {
					return "the level is given as data although it may be another than -1"
				}
				ps = ps[1:]
			} else {
				if isDec(ps[0]) != L || len(ps) < 2 || !isStr(ps[1], "/") {
					return "the level is given as " + short(ps[0])
				}
				if !knownFalse(g, n, data) {
					return "level -1 is not given as data"
				}
				ps = ps[2:]
			}
			if len(ps) == 0 {
				return "the name ends after the level"
			}
			if why := groups(g, n, ps[0], N); why != "" {
				return why
			}
			ps = ps[1:]
			full := []*Sym{Eq(W, CInt(256))}
			for f := range must(g).at(n).facts {
				mentions(f, func(s *Sym) bool {
					if s.op == OpBin && s.str == "<<" && s.args[0].isInt(1) && unwrapConv(s.args[1]) == H {
						full = append(full, Eq(W, s))
					}
					return false
				}, map[*Sym]bool{})
			}
			is, isnt := false, false
			for _, f := range full {
				is = is || known(g, n, f)
				isnt = isnt || knownFalse(g, n, f)
			}
			if len(ps) == 0 {
				if !is {
					return "the width can be missing from the name of a partial tile"
				}
				return ""
			}
			if len(ps) != 2 || !isStr(ps[0], ".p/") || isDec(ps[1]) != W {
				return "the name ends with " + short(ps[0])
			}
			if !isnt {
				return "the width can be part of the name of a full tile"
			}
			return ""
		}()
		if why != "" {
			c.bad("tile-path", "Path", at, "%s", why)
		} else {
			c.ok("tile-path", "tile/<level>/<number>[.p/<width>]", at)
		}
	}
}

// groups: s is N in groups of three digits, the last one without an x.
func groups(g *Graph, n *Node, s, N *Sym) string {
	_, li := findLoop(g, s)
	if li == nil {
		return "the number is given as " + short(s)
	}
	ahead := false // the loop variable is what is still to be written
	var v *Sym
	pad := func(x *Sym) *Sym {
		x = unwrap(x)
		if x.op == OpCall && x.str == "fmt%03d" {
			return isRem(x.args[0], 1000)
		}
		return nil
	}
	for _, h := range li.Heads {
		if q := pad(h.Init[s]); q != N {
			return "the last group is " + short(h.Init[s])
		}
		for k, iv := range h.Init {
			if k.op != OpPhi || k == s {
				continue
			}
			switch {
			case unwrapConv(iv) == N:
				v = k
			case isQuo(iv, N, 1000):
				v, ahead = k, true
			}
		}
	}
	if v == nil {
		return "nothing in the loop counts the groups left"
	}
	for _, b := range li.Backs {
		if !isQuo(b.Vals[v], v, 1000) {
			return "an iteration goes on with " + short(b.Vals[v])
		}
		ps := splitStr(b.Vals[s])
		// "x", group, "/", rest
		if len(ps) != 4 || !isStr(ps[0], "x") || !isStr(ps[2], "/") || ps[3] != s {
			return "an iteration makes " + short(b.Vals[s])
		}
		q := pad(ps[1])
		if q == nil || ahead && q != v || !ahead && !isQuo(q, v, 1000) {
			return "a group is " + short(ps[1])
		}
		more := Le(CInt(1000), v)
		if ahead {
			more = Le(CInt(1), v)
		}
		if !knownOnBack(g, li, b).yes(more) && !(ahead && knownOnBack(g, li, b).yes(Not(Eq(v, CInt(0))))) {
			return "a group of zeros can be put in front"
		}
	}
	done := Lt(v, CInt(1000))
	if ahead {
		done = Le(v, CInt(0))
	}
	if !known(g, n, done) && !(ahead && known(g, n, Eq(v, CInt(0)))) {
		return "groups can be left out"
	}
	return ""
}

// headOf: x is h or its first bytes.
func headOf(x, h *Sym) bool {
	x = unwrapConv(hexArg(x))
	if (x.op == OpSlice || x.op == OpSnapSlice) && (x.args[1] == nil || x.args[1].isInt(0)) {
		x = unwrapConv(x.args[0])
	}
	return x == h
}

// hashPath decides the name of a record file.
func (c *Check) hashPath(g *Graph) {
	if len(g.Fn.Params) != 2 {
		c.bad("anchor", "KAnonHashPath", c.w.e.pos(g.Fn.Pos()), "the function no longer takes a hash and a mask")
		return
	}
	h, mask := param(g, 0), param(g, 1)
	rets := evNodes(g, func(e *Event) bool { return e.Kind == EvReturn })
	c.need(len(rets), 1, "anchor", "results of KAnonHashPath")
	// the digits lo to hi of the hash
	digits := func(x, lo *Sym) *Sym {
		x = unwrapConv(x)
		if (x.op == OpSlice || x.op == OpSnapSlice) && x.args[0].op == OpCall && x.args[0].str == "hex" && headOf(x.args[0].args[0], h) {
			l := x.args[1]
			if l == nil {
				l = CInt(0)
			}
			if l == lo {
				return x.args[2]
			}
		}
		return nil
	}
	for _, n := range rets {
		why := func() string {
			s := unwrapConv(n.Ev.Args[0])
			var last *Sym // a segment added after the loop
			joined := false
			if isCallSym(s, "strings.Join") && isStr(s.args[1], "/") {
				joined = true
				s = unwrapConv(s.args[0])
				if s.op == OpAppend && len(s.args) == 2 {
					if es := sliceElems(s.args[1]); len(es) == 1 {
						last = es[0]
						s = unwrapConv(s.args[0])
					}
				}
			}
			_, li := findLoop(g, s)
			if li == nil {
				return "the name is " + short(s)
			}
			segment := func(v *Sym) *Sym {
				if v != nil && v.op == OpAppend && v.args[0] == s && len(v.args) == 2 {
					if es := sliceElems(v.args[1]); len(es) == 1 {
						return es[0]
					}
				}
				return nil
			}
			if joined {
				for _, hd := range li.Heads {
					if x := hd.Init[s]; x == nil || !isEmptySlice(x) {
						return "the segments begin with " + short(x)
					}
				}
				if why, ok := restInPairs(g, n, li, s, last, mask, digits, segment); ok {
					return why
				}
				if last != nil {
					return "the name is " + short(n.Ev.Args[0])
				}
			}
			var i *Sym
			for _, hd := range li.Heads {
				if !joined && !isStr(hd.Init[s], "") {
					return "the name begins with " + short(hd.Init[s])
				}
				for k, v := range hd.Init {
					if k.op == OpPhi && k != s && v.isInt(0) {
						i = k
					}
				}
			}
			if i == nil {
				return "the digits are not taken from the first on"
			}
			for _, b := range li.Backs {
				if b.Vals[i] != Add(i, CInt(2)) {
					return "an iteration goes on at " + short(b.Vals[i])
				}
				kn := knownOnBack(g, li, b).yes
				ps := strParts(b.Vals[s])
				if joined {
					x := segment(b.Vals[s])
					if x == nil {
						return "an iteration makes " + short(b.Vals[s])
					}
					ps = []*Sym{s, x}
				}
				if len(ps) < 2 || ps[0] != s {
					return "an iteration makes " + short(b.Vals[s])
				}
				ps = ps[1:]
				if joined {
					// strings.Join puts the slashes
				} else if isStr(ps[0], "/") {
					if !kn(Le(CInt(1), i)) && !kn(Not(Eq(i, CInt(0)))) {
						return "the name can begin with a slash"
					}
					ps = ps[1:]
				} else if !kn(Le(i, CInt(0))) {
					return "the slash between two segments can be missing"
				}
				if len(ps) != 1 {
					return "an iteration makes " + short(b.Vals[s])
				}
				hi := digits(ps[0], i)
				two := Add(i, CInt(2))
				if hi == nil || hi != two && hi != mask || hi == two && !kn(Le(two, mask)) || hi == mask && !kn(Le(mask, two)) {
					return "a segment is " + short(ps[0])
				}
				if !kn(Lt(i, mask)) {
					return "a segment can begin behind the digits of the mask"
				}
			}
			if !known(g, n, Le(mask, i)) {
				return "digits can be left out"
			}
			return ""
		}()
		if why != "" {
			c.bad("hash-path", "KAnonHashPath", c.at(n), "%s", why)
		} else {
			c.ok("hash-path", "first digits of the hash, in pairs", c.at(n))
		}
	}
}

// repoFuncs: every function of the repository with a body.
// restInPairs decides a loop that takes two digits at a time off the front of
// the remaining ones. The second result is false if the loop is not of this kind.
func restInPairs(g *Graph, n *Node, li *LoopInfo, s, last, mask *Sym, digits func(x, lo *Sym) *Sym, segment func(*Sym) *Sym) (string, bool) {
	var rest *Sym
	for _, k := range li.Syms {
		ok := k != s && isStringType(k.typ)
		for _, hd := range li.Heads {
			ok = ok && hd.Init[k] != nil && digits(hd.Init[k], CInt(0)) == mask
		}
		if ok {
			rest = k
		}
	}
	if rest == nil {
		return "", false
	}
	for _, b := range li.Backs {
		x := segment(b.Vals[s])
		if x == nil {
			return "an iteration makes " + short(b.Vals[s]), true
		}
		if x != Slice(rest, nil, CInt(2), nil, x.typ) && x != Slice(rest, CInt(0), CInt(2), nil, x.typ) {
			return "a segment is " + short(x), true
		}
		if v := b.Vals[rest]; v == nil || v != Slice(rest, CInt(2), nil, nil, v.typ) {
			return "an iteration goes on at " + short(v), true
		}
	}
	if last == nil {
		if !known(g, n, Le(Len(rest), CInt(0))) {
			return "digits can be left out", true
		}
		return "", true
	}
	if last != rest {
		return "a segment is " + short(last), true
	}
	if !known(g, n, Le(Len(rest), CInt(2))) || !known(g, n, Le(CInt(1), Len(rest))) {
		return "the last segment can have more than two digits or none", true
	}
	return "", true
}

func (w *World) repoFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(w.e.prog) {
		if w.e.isRepo(fn) && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

const tlogPkg = "golang.org/x/mod/sumdb/tlog"

// tileHeights: every tile the programs make has height 8.
func (c *Check) tileHeights() {
	isTile := func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Name() == "Tile" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == tlogPkg
	}
	isH := func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		return ok && isTile(derefT(fa.X.Type())) && derefT(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() == "H"
	}
	var eight func(v ssa.Value, d int) bool
	eight = func(v ssa.Value, d int) bool {
		switch v := v.(type) {
		case *ssa.Const:
			n, ok := constant.Int64Val(constant.ToInt(v.Value))
			return ok && n == 8
		case *ssa.Convert:
			return eight(v.X, d)
		case *ssa.UnOp:
			return isH(v.X)
		case *ssa.Field:
			return isTile(v.X.Type()) && v.X.Type().Underlying().(*types.Struct).Field(v.Field).Name() == "H"
		case *ssa.Phi:
			for _, e := range v.Edges {
				if d > 4 || !eight(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.Call:
			f := v.Call.StaticCallee()
			if f == nil || !c.w.e.isRepo(f) || len(f.Blocks) == 0 || d > 4 {
				return false
			}
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (len(r.Results) != 1 || !eight(r.Results[0], d+1)) {
					return false
				}
			}
			return true
		case *ssa.Parameter:
			// all callers
			fn := v.Parent()
			ix := -1
			for i, p := range fn.Params {
				if p == v {
					ix = i
				}
			}
			n := 0
			if d > 4 {
				return false
			}
			for _, f := range c.w.repoFuncs() {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						for _, op := range in.Operands(nil) {
							if *op != ssa.Value(fn) {
								continue
							}
							ci, ok := in.(ssa.CallInstruction)
							if !ok || ci.Common().StaticCallee() != fn || !eight(ci.Common().Args[ix], d+1) {
								return false
							}
							n++
						}
					}
				}
			}
			return n > 0
		}
		return false
	}
	obls := 0
	check := func(what string, v ssa.Value, in ssa.Instruction) {
		obls++
		at := c.w.e.pos(in.Pos())
		if v != nil && eight(v, 0) {
			c.ok("height", what, at)
		} else {
			c.bad("height", what, at, "a tile of another height than 8 is made")
		}
	}
	for _, fn := range c.w.repoFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					f := x.Common().StaticCallee()
					if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == tlogPkg && (f.Name() == "NewTiles" || f.Name() == "TileForIndex") {
						check("tlog."+f.Name(), x.Common().Args[0], in)
					}
				case *ssa.Store:
					if isH(x.Addr) {
						check("height of a tile", x.Val, in)
					}
				case *ssa.Alloc:
					if !isTile(derefT(x.Type())) {
						continue
					}
					// filled field by field: the height must be given
					h, other := false, false
					for _, r := range *x.Referrers() {
						switch r := r.(type) {
						case *ssa.FieldAddr:
							for _, q := range *r.Referrers() {
								if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(r) {
									if isH(r) {
										h = true
									} else {
										other = true
									}
								}
							}
						case *ssa.Store:
							if r.Addr == ssa.Value(x) {
								h = true
							}
						default:
							if _, ok := r.(*ssa.UnOp); !ok {
								h = h || !other // filled elsewhere
							}
						}
					}
					if other && !h {
						check("tile made without a height", nil, in)
					}
				}
			}
		}
		// the height a tile reader reports
		if fn.Name() == "Height" && fn.Signature.Recv() != nil && fn.Signature.Results().Len() == 1 {
			for _, b := range fn.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					check("height of a tile reader", r.Results[0], r)
				}
			}
		}
	}
	c.need(obls, 5, "anchor", "places where tiles are made")
}

// recordNames: the arguments with which record files are named.
func (c *Check) recordNames() {
	seen := map[string]bool{}
	n := 0
	one := func(g *Graph, monitor bool) {
		for _, m := range evNodes(g, func(e *Event) bool { return isCall(e, "sunlight.KAnonHashPath") }) {
			n++
			h, mask := unwrap(m.Ev.Args[0]), unwrapConv(m.Ev.Args[1])
			okh := c.sixteen(g, m, m.Ev.Args[0], h)
			okm := false
			what := "the configured mask size"
			if monitor {
				what = "the mask size given to the monitor"
				okm = mask.op == OpParam && isIntType(mask.typ) || mask.isConst()
			} else {
				okm = mask.op == OpField && mask.str == "MaskSize" || mask.op == OpLoad && mask.args[0].op == OpFieldAddr && mask.args[0].str == "MaskSize"
			}
			k := c.at(m)
			if !okh {
				c.bad("record-name", "hash", k, "a record file is named by %s, not by 16 bytes of a hash", short(m.Ev.Args[0]))
			}
			if !okm {
				c.bad("record-name", "mask", k, "a record file is named with %s digits, not %s", short(mask), what)
			}
			if okh && okm && !seen[k] {
				seen[k] = true
				c.ok("record-name", "16 bytes of a hash, "+what, k)
			}
		}
	}
	for _, s := range c.w.sequencers() {
		for _, g := range closureGraphs(s.g) {
			one(g, false)
		}
	}
	for _, h := range c.submitH() {
		for _, g := range closureGraphs(h.G) {
			one(g, false)
		}
	}
	for _, h := range c.monitorH() {
		for _, g := range closureGraphs(h.G) {
			one(g, true)
		}
	}
	c.need(n, 3, "anchor", "names of record files")
}

// sixteen: x is known to be 16 bytes long.
func (c *Check) sixteen(g *Graph, n *Node, raw, x *Sym) bool {
	for _, y := range []*Sym{raw, x} {
		if y.typ != nil {
			if a := isArray(y.typ); a != nil {
				return a.Len() == 16
			}
		}
		if Len(y).isInt(16) || known(g, n, Eq(Len(y), CInt(16))) {
			return true
		}
	}
	return false
}

func init() {
	register("C16", func(c *Check) {
		for _, q := range []struct {
			name string
			f    func(*Graph)
		}{{"Path", c.tilePath}, {"KAnonHashPath", c.hashPath}} {
			g := c.w.root("internal/sunlight", "", q.name)
			if g == nil {
				c.bad("anchor", q.name, "?", "the function that makes the names was not found")
				continue
			}
			c.use(g)
			if len(g.Undec) > 0 {
				c.bad("undecided", q.name, c.w.e.pos(g.Fn.Pos()), "%s", g.Undec[0])
			}
			q.f(g)
		}
		c.tileHeights()
		c.recordNames()
	})
}
