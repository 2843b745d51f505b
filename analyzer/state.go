package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is one inlined activation of a function (call string).
type Ctx struct {
	id     int
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
	kind   int
	depth  int
}

const (
	kRoot = iota
	kCall
	kDefer
	kCallback // inlined continuation closure of an external call (cryptobyte, sync.Once)
)

var ctxTab = map[string]*Ctx{}
var ctxAll []*Ctx

func mkCtx(parent *Ctx, call ssa.Instruction, fn *ssa.Function, kind int, extra string) *Ctx {
	pid := -1
	d := 0
	if parent != nil {
		pid = parent.id
		d = parent.depth + 1
	}
	k := fmt.Sprintf("%d|%p|%p|%d|%s", pid, call, fn, kind, extra)
	if c, ok := ctxTab[k]; ok {
		return c
	}
	c := &Ctx{id: len(ctxAll), parent: parent, call: call, fn: fn, kind: kind, depth: d}
	ctxAll = append(ctxAll, c)
	ctxTab[k] = c
	return c
}
func (c *Ctx) recursing(fn *ssa.Function) bool {
	for x := c; x != nil; x = x.parent {
		if x.fn == fn {
			return true
		}
	}
	return false
}
func (c *Ctx) root() *Ctx {
	for c.parent != nil {
		c = c.parent
	}
	return c
}

type vkey struct {
	c *Ctx
	v ssa.Value
}
type loopKey struct {
	c *Ctx
	b *ssa.BasicBlock
}
type deferred struct {
	call *ssa.CallCommon
	fn   *Sym
	args []*Sym
	ins  ssa.Instruction
}

type State struct {
	vals   map[vkey]*Sym
	mem    map[*Sym]*Sym
	facts  map[*Sym]bool
	defers map[*Ctx][]deferred
	loops  map[loopKey]*Node
	unroll map[loopKey]int
}

func newState() *State {
	return &State{map[vkey]*Sym{}, map[*Sym]*Sym{}, map[*Sym]bool{}, map[*Ctx][]deferred{}, map[loopKey]*Node{}, map[loopKey]int{}}
}
func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}
func (s *State) clone() *State {
	return &State{cp(s.vals), cp(s.mem), cp(s.facts), cp(s.defers), cp(s.loops), cp(s.unroll)}
}

var valIDs = map[ssa.Value]int{}

func valID(v ssa.Value) int {
	if n, ok := valIDs[v]; ok {
		return n
	}
	n := len(valIDs)
	valIDs[v] = n
	return n
}

func (s *State) key() string {
	var parts []string
	for k, v := range s.vals {
		parts = append(parts, fmt.Sprintf("v%d.%d=%d", k.c.id, valID(k.v), v.id))
	}
	for k, v := range s.mem {
		parts = append(parts, fmt.Sprintf("m%d=%d", k.id, v.id))
	}
	for k, v := range s.facts {
		parts = append(parts, fmt.Sprintf("f%d=%v", k.id, v))
	}
	for k, v := range s.loops {
		parts = append(parts, fmt.Sprintf("l%d.%d=%d", k.c.id, k.b.Index, v.id))
	}
	for k, v := range s.unroll {
		parts = append(parts, fmt.Sprintf("u%d.%d=%d", k.c.id, k.b.Index, v))
	}
	for k, v := range s.defers {
		for i, d := range v {
			x := ""
			for _, a := range d.args {
				x += fmt.Sprint(a.id, ",")
			}
			parts = append(parts, fmt.Sprintf("d%d.%d=%d/%s/%p", k.id, i, d.fn.id, x, d.ins))
		}
	}
	sort.Strings(parts)
	return strings.Join(parts, ";")
}

// --- facts -----------------------------------------------------------------

// learn records that boolean term c has truth value v.
func (s *State) learn(c *Sym, v bool) {
	if !v {
		c = Not(c)
	}
	v = true
	if c.op == OpNot {
		c, v = c.args[0], false
	}
	if c.op == OpConst {
		return
	}
	s.facts[c] = v
	if c.op == OpEq && v && isNilSym(c.args[1]) {
		x := c.args[0]
		if x.op == OpCall && x.str == "errors.Join" {
			for _, e := range varElems(x.args) {
				s.learn(Eq(e, c.args[1]), true)
			}
		}
	}
}

// varElems expands a variadic argument list snapshot into its elements.
func varElems(args []*Sym) []*Sym {
	var out []*Sym
	for _, a := range args {
		if es := sliceElems(a); es != nil {
			out = append(out, es...)
		} else {
			out = append(out, a)
		}
	}
	return out
}

// sliceElems gives the elements of a snapshot of a slice literal.
func sliceElems(a *Sym) []*Sym {
	if a.op == OpSnapSlice && a.args[0].op == OpArray && a.args[1] == nil && a.args[2] == nil {
		return a.args[0].args[1:]
	}
	return nil
}

func nonneg(x *Sym) bool {
	if isUnsigned(x.typ) {
		return true
	}
	if x.op == OpCall {
		switch x.str {
		case "len", "cap", "copy", "sort.Search":
			return true
		}
	}
	if (x.op == OpField && x.str == "W") || (x.op == OpLoad && x.args[0].op == OpFieldAddr && x.args[0].str == "W") {
		return true // widths of tlog tiles
	}
	return false
}

// provesLe0 decides l <= 0 from the difference constraints among the facts.
func (s *State) provesLe0(l lin) bool {
	if len(l.t) == 0 {
		return l.c <= 0
	}
	if f, ok := s.facts[Le0(l)]; ok && f {
		return true
	}
	// same variable part, weaker constant
	var rows []lin
	for f, v := range s.facts {
		if !v {
			continue
		}
		switch f.op {
		case OpLe0:
			rows = append(rows, toLin(f.args[0]))
		case OpEq0:
			x := toLin(f.args[0])
			rows = append(rows, x, linScale(x, -1))
		}
	}
	// axioms for the variables that occur
	vars := map[*Sym]bool{}
	addVars := func(x lin) {
		for v := range x.t {
			vars[v] = true
		}
	}
	addVars(l)
	for _, r := range rows {
		addVars(r)
	}
	wide := vars[maxInt()]
	for v := range vars {
		if wide {
			rows = append(rows, s.rangeAxioms(v)...)
		}
		if nonneg(v) {
			rows = append(rows, lin{t: map[*Sym]int64{v: -1}})
		}
		if v.op == OpCall && v.str == "len" && len(v.args) == 1 {
			if x := v.args[0]; x.op == OpExtract && x.n == 0 && isCallSym(x.args[0], "trillian/ctfe.ValidateChain") {
				if tt, ok := x.args[0].typ.(*types.Tuple); ok && s.eval(Eq(Extract(x.args[0], 1, tt.At(1).Type()), Nil(nil))) == 1 {
					rows = append(rows, lin{t: map[*Sym]int64{v: -1}, c: 1}) // a validated chain has a leaf
				}
			}
		}
		if v.op == OpCall && v.str == "sort.Search" && len(v.args) == 2 {
			rows = append(rows, linAdd(toLin(v), toLin(v.args[0]), -1))
		}
		if v.op == OpBin && (v.str == "/" || v.str == "%") {
			if k, ok := v.args[1].intVal(); ok && k > 0 {
				x := toLin(v.args[0])
				if nonneg(v.args[0]) || v.args[0].op == OpLin && s.facts[Le0(linScale(x, -1))] {
					q := linScale(toLin(v), k)
					rows = append(rows, linScale(toLin(v), -1))
					if v.str == "/" {
						rows = append(rows, linAdd(q, x, -1))
						d := linAdd(x, q, -1)
						d.c -= k - 1
						rows = append(rows, d)
					} else {
						d := toLin(v)
						d.c -= k - 1
						rows = append(rows, d, linAdd(toLin(v), x, -1))
					}
				}
			}
		}
		if v.op == OpCall && v.str == "min" {
			for _, a := range v.args {
				rows = append(rows, linAdd(toLin(v), toLin(a), -1))
				addVars(toLin(a))
			}
		}
		if v.op == OpCall && v.str == "max" {
			for _, a := range v.args {
				rows = append(rows, linAdd(toLin(a), toLin(v), -1))
			}
		}
	}
	same := func(a, b lin) bool {
		if len(a.t) != len(b.t) {
			return false
		}
		for k, c := range a.t {
			if b.t[k] != c {
				return false
			}
		}
		return true
	}
	for _, r := range rows {
		if same(r, l) && l.c <= r.c {
			return true
		}
	}
	// a term that occurs several times: the bounds of the term, as often
	for v, k := range l.t {
		if k < 0 {
			k = -k
		}
		if k < 2 || k > 1<<16 {
			continue
		}
		for _, r := range rows[:len(rows):len(rows)] {
			if c := r.t[v]; c == 1 || c == -1 {
				rows = append(rows, linScale(r, k))
			}
		}
	}
	// l = r1 + r2 + c, c <= 0
	for i, r := range rows {
		d := linAdd(l, r, -1)
		if len(d.t) == 0 && d.c <= 0 {
			return true
		}
		for _, q := range rows[i:] {
			e := linAdd(d, q, -1)
			if len(e.t) == 0 && e.c <= 0 {
				return true
			}
		}
	}
	// difference-bound closure: l is x - y + c <= 0, edges from two-variable rows
	var x, y *Sym
	for v, c := range l.t {
		switch {
		case c == 1 && x == nil:
			x = v
		case c == -1 && y == nil:
			y = v
		default:
			return false
		}
	}
	type edge struct {
		a, b *Sym
		c    int64
	} // a - b <= c
	var es []edge
	for _, r := range rows {
		var p, q *Sym
		ok := true
		for v, c := range r.t {
			switch {
			case c == 1 && p == nil:
				p = v
			case c == -1 && q == nil:
				q = v
			default:
				ok = false
			}
		}
		if ok {
			es = append(es, edge{p, q, -r.c})
		}
	}
	// shortest path bound on x - y: start at y (nil is the zero variable)
	dist := map[*Sym]int64{y: 0}
	for it := 0; it < len(vars)+2; it++ {
		ch := false
		for _, e := range es {
			if d, ok := dist[e.b]; ok {
				if o, ok := dist[e.a]; !ok || d+e.c < o {
					dist[e.a] = d + e.c
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	d, ok := dist[x]
	return ok && d+l.c <= 0
}

// eval decides a boolean term: 1 true, 0 false, -1 unknown.
func (s *State) eval(c *Sym) int {
	if b, ok := c.boolVal(); ok {
		if b {
			return 1
		}
		return 0
	}
	if c.op == OpNot {
		switch s.eval(c.args[0]) {
		case 1:
			return 0
		case 0:
			return 1
		}
		return -1
	}
	if v, ok := s.facts[c]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch c.op {
	case OpLe0:
		l := toLin(c.args[0])
		if s.provesLe0(l) {
			return 1
		}
		n := linScale(l, -1)
		n.c++
		if s.provesLe0(n) {
			return 0
		}
	case OpEq0:
		l := toLin(c.args[0])
		le, ge := s.provesLe0(l), s.provesLe0(linScale(l, -1))
		if le && ge {
			return 1
		}
		l1 := l
		l1.c++
		if s.provesLe0(l1) { // l <= -1
			return 0
		}
		n := linScale(l, -1)
		n.c++
		if s.provesLe0(n) { // l >= 1
			return 0
		}
		// a disequality fact with the same terms
	case OpEq:
		if c.args[0].op == OpConst || c.args[1].op == OpConst {
			k, x := c.args[0], c.args[1]
			if k.op != OpConst {
				k, x = x, k
			}
			for f, v := range s.facts {
				if v && f.op == OpEq && f != c {
					if f.args[0] == x && f.args[1].op == OpConst || f.args[1] == x && f.args[0].op == OpConst {
						return 0
					}
				}
			}
		}
	}
	return -1
}

// learnInt also tightens x <= c with x != c.
func (s *State) assume(c *Sym, v bool) {
	s.learn(c, v)
	// tighten: for every disequality l != 0, if l <= 0 then l <= -1 (and dually)
	for f, tv := range s.facts {
		if f.op != OpEq0 || tv {
			continue
		}
		l := toLin(f.args[0])
		if s.provesLe0(l) {
			l.c++
			s.facts[Le0(l)] = true
		} else if n := linScale(l, -1); s.provesLe0(n) {
			n.c++
			s.facts[Le0(n)] = true
		}
	}
}

// --- memory ------------------------------------------------------------------

func addrRoot(a *Sym) *Sym {
	for a.op == OpFieldAddr || a.op == OpElemAddr {
		a = a.args[0]
	}
	return a
}
func addrPath(a *Sym) []*Sym {
	var p []*Sym
	for a.op == OpFieldAddr || a.op == OpElemAddr {
		p = append(p, a)
		a = a.args[0]
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return p
}
func freshRoot(r *Sym) bool { return r.op == OpAlloc || r.op == OpMakeSlice }

// rel compares two addresses with the same root: "same", "inside" (b is inside
// a), "contains" (b contains a), "disjoint" or "may".
func addrRel(a, b *Sym) string {
	pa, pb := addrPath(a), addrPath(b)
	may := false
	for i := 0; i < len(pa) && i < len(pb); i++ {
		x, y := pa[i], pb[i]
		if x.op != y.op {
			return "may"
		}
		if x.op == OpFieldAddr {
			if x.n != y.n {
				return "disjoint"
			}
		} else if x.args[1] != y.args[1] {
			d := linAdd(toLin(x.args[1]), toLin(y.args[1]), -1)
			if len(d.t) == 0 && d.c != 0 {
				return "disjoint"
			}
			may = true
		}
	}
	if may {
		return "may"
	}
	switch {
	case len(pa) == len(pb):
		return "same"
	case len(pa) < len(pb):
		return "inside"
	}
	return "contains"
}

func verKey(root *Sym) *Sym { return I.mk(Sym{op: OpVerKey, args: []*Sym{root}}, "") }
func mapKey(m *Sym) *Sym    { return I.mk(Sym{op: OpMapKey, args: []*Sym{m}}, "") }

func (s *State) ver(root *Sym) *Sym { return s.mem[verKey(root)] }

func hasSymIdx(a *Sym) bool {
	for a.op == OpFieldAddr || a.op == OpElemAddr {
		if a.op == OpElemAddr && a.args[1].op != OpConst {
			return true
		}
		a = a.args[0]
	}
	return false
}

func isStruct(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	// a time is one value: its parts are out of the code's reach
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Time" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
		return nil
	}
	u, _ := t.Underlying().(*types.Struct)
	return u
}
func isArray(t types.Type) *types.Array {
	if t == nil {
		return nil
	}
	u, _ := t.Underlying().(*types.Array)
	return u
}
func elemType(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		return types.Typ[types.Uint8]
	case *types.Map:
		return u.Elem()
	}
	return types.Typ[types.Invalid]
}

func (s *State) store(addr, v *Sym, t types.Type) {
	if st := isStruct(t); st != nil {
		if st.NumFields() == 0 {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			s.store(FieldAddr(addr, i, f.Name(), f.Type()), Field(v, i, f.Type(), f.Name()), f.Type())
		}
		return
	}
	root := addrRoot(addr)
	bump := hasSymIdx(addr)
	for c := range s.mem {
		if c.op == OpVerKey || c.op == OpMapKey || addrRoot(c) != root || c == addr {
			continue
		}
		switch addrRel(addr, c) {
		case "inside":
			delete(s.mem, c)
		case "may":
			delete(s.mem, c)
			bump = true
		}
	}
	if bump {
		k := verKey(root)
		old := s.mem[k]
		if old == nil {
			old = I.mk(Sym{op: OpVer, str: "0", args: []*Sym{root}}, "")
		}
		s.mem[k] = I.mk(Sym{op: OpVerUpd, args: []*Sym{old, addr, v}}, "")
	}
	s.mem[addr] = v
}

// havoc replaces the contents of an object by unknown terms.
func (s *State) havocAddr(addr, why *Sym, t types.Type) {
	s.store(addr, I.mk(Sym{op: OpOut, args: []*Sym{why, addr}, typ: t}, ""), t)
}

func (s *State) cellsUnder(addr *Sym) bool {
	root := addrRoot(addr)
	for c := range s.mem {
		if c.op == OpVerKey || c.op == OpMapKey || addrRoot(c) != root {
			continue
		}
		switch addrRel(addr, c) {
		case "same", "inside", "contains", "may":
			return true
		}
	}
	return false
}

func (s *State) load(addr *Sym, t types.Type) *Sym {
	if addr.op == OpPtrTo {
		return addr.args[0]
	}
	root := addrRoot(addr)
	if root.op == OpPtrTo {
		// projection out of a snapshot
		v := root.args[0]
		for _, p := range addrPath(addr) {
			if p.op == OpFieldAddr {
				v = Field(v, int(p.n), derefT(p.typ), p.str)
			} else {
				v = byteSel(v, p.args[1], derefT(p.typ))
			}
		}
		return v
	}
	if st := isStruct(t); st != nil && st.NumFields() > 0 {
		if !s.cellsUnder(addr) {
			if freshRoot(root) && s.ver(root) == nil {
				return Zero(t)
			}
			return LoadSym(addr, s.ver(root))
		}
		fs := make([]*Sym, st.NumFields())
		for i := range fs {
			f := st.Field(i)
			fs[i] = s.load(FieldAddr(addr, i, f.Name(), f.Type()), f.Type())
		}
		return Struct(t, fs)
	}
	if v, ok := s.mem[addr]; ok {
		if isArray(t) == nil {
			return v
		}
	}
	if at := isArray(t); at != nil {
		bg := s.mem[addr]
		n := at.Len()
		els := make([]*Sym, 0)
		any := false
		if n <= 256 {
			els = make([]*Sym, n+1)
			for i := int64(0); i < n; i++ {
				ea := ElemAddr(addr, CInt(i), at.Elem())
				if s.cellsUnderStrict(ea) {
					els[i+1] = s.load(ea, at.Elem())
					any = true
				}
			}
		}
		if bg == nil {
			bg = s.initial(addr, t)
		}
		if !any {
			return bg
		}
		full := true
		for i := int64(1); i <= n; i++ {
			if els[i] == nil {
				full = false
			}
		}
		if full {
			return normArray(els, t)
		}
		if bg.op == OpArray {
			for i := int64(1); i <= n; i++ {
				if els[i] == nil {
					els[i] = bg.args[i]
				}
			}
			bg = bg.args[0]
		} else if bg.op == OpZero {
			for i := int64(1); i <= n; i++ {
				if els[i] == nil {
					els[i] = Zero(at.Elem())
				}
			}
		}
		els[0] = bg
		return normArray(els, t)
	}
	return s.initial(addr, t)
}
func normArray(els []*Sym, t types.Type) *Sym {
	full := true
	for _, e := range els[1:] {
		if e == nil {
			full = false
		}
	}
	if full {
		els[0] = nil
		// the array made of the elements, in order, of one value is that value
		var base *Sym
		ok := len(els) > 1
		for i, e := range els[1:] {
			var b, ix *Sym
			switch {
			case e.op == OpIndex:
				b, ix = e.args[0], e.args[1]
			case e.op == OpLoad && e.args[0].op == OpElemAddr:
				b, ix = LoadSym2(e), e.args[0].args[1]
			}
			if b == nil || !ix.isInt(int64(i)) || (base != nil && base != b) {
				ok = false
				break
			}
			base = b
		}
		if ok && base.typ != nil && types.Identical(base.typ.Underlying(), t.Underlying()) {
			return base
		}
	}
	return I.mk(Sym{op: OpArray, args: els, typ: t}, I.tkey(t))
}

// LoadSym2 rebuilds the load of the whole array an element load came from.
func LoadSym2(e *Sym) *Sym {
	a := e.args[0].args[0]
	if a.typ == nil {
		return nil
	}
	if p, ok := a.typ.Underlying().(*types.Pointer); ok && isArray(p.Elem()) != nil {
		return LoadSym(a, verOf(e))
	}
	return nil
}
func (s *State) cellsUnderStrict(addr *Sym) bool {
	root := addrRoot(addr)
	for c := range s.mem {
		if c.op == OpVerKey || c.op == OpMapKey || addrRoot(c) != root {
			continue
		}
		switch addrRel(addr, c) {
		case "same", "inside":
			return true
		}
	}
	return false
}

// initial is the content of a place that has no cell: projected from the
// nearest enclosing array cell, zero for fresh objects, or an opaque load.
func (s *State) initial(addr *Sym, t types.Type) *Sym {
	for a := addr; a.op == OpElemAddr || a.op == OpFieldAddr; {
		a = a.args[0]
		if v, ok := s.mem[a]; ok {
			p := addrPath(addr)[len(addrPath(a)):]
			for _, q := range p {
				if q.op == OpFieldAddr {
					v = Field(v, int(q.n), derefT(q.typ), q.str)
				} else {
					v = byteSel(v, q.args[1], derefT(q.typ))
				}
			}
			return v
		}
	}
	root := addrRoot(addr)
	v := s.ver(root)
	if freshRoot(root) && v == nil {
		return Zero(t)
	}
	// element of a slice that is wholly a copy of another
	if v != nil && v.op == OpVerCopy {
		p := addrPath(addr)
		if len(p) > 0 && p[0].op == OpElemAddr {
			if src := s.wholeCopy(root, v); src != nil {
				x := s.load(ElemAddr(src, p[0].args[1], derefT(p[0].typ)), derefT(p[0].typ))
				for _, q := range p[1:] {
					if q.op == OpFieldAddr {
						x = Field(x, int(q.n), derefT(q.typ), q.str)
					} else {
						x = byteSel(x, q.args[1], derefT(q.typ))
					}
				}
				return x
			}
		}
	}
	return LoadSym(addr, v)
}

// wholeCopy: version v of fresh slice root is exactly one copy(root, src) that
// covers all of it.
func (s *State) wholeCopy(root, v *Sym) *Sym {
	if v == nil || v.op != OpVerCopy || root.op != OpMakeSlice {
		return nil
	}
	if v.args[0] != nil && v.args[0].op != OpVer {
		return nil
	}
	lo, src := v.args[1], v.args[3]
	if lo != nil && !lo.isInt(0) {
		return nil
	}
	if Len(src) == root.args[0] || s.eval(EqI(Len(src), root.args[0])) == 1 {
		return src
	}
	return nil
}

// snap is a deep value snapshot of an argument: pointers and slices into
// objects with known contents are replaced by their contents.
func (s *State) snap(x *Sym, d int) *Sym {
	if x == nil || d <= 0 {
		return x
	}
	switch x.op {
	case OpIface:
		y := s.snap(x.args[0], d)
		if y == x.args[0] {
			return x
		}
		return I.mk(Sym{op: OpIface, args: []*Sym{y}, typ: x.typ, str: x.str}, I.tkey(x.typ))
	case OpStruct:
		fs := make([]*Sym, len(x.args))
		ch := false
		for i, f := range x.args {
			fs[i] = s.snap(f, d-1)
			ch = ch || fs[i] != f
		}
		if !ch {
			return x
		}
		return Struct(x.typ, fs)
	case OpConv:
		y := s.snap(x.args[0], d)
		if y != x.args[0] {
			return Conv(x.typ, y)
		}
		return x
	case OpSlice:
		return s.snapSlice(x.args[0], x.args[1], x.args[2], x, d)
	case OpMakeSlice:
		return s.snapSlice(x, nil, nil, x, d)
	case OpAppend:
		as := make([]*Sym, len(x.args))
		ch := false
		for i, a := range x.args {
			as[i] = s.snap(a, d-1)
			ch = ch || as[i] != a
		}
		if ch {
			return I.mk(Sym{op: OpAppend, args: as, typ: x.typ}, "")
		}
		return x
	case OpAlloc, OpFieldAddr, OpElemAddr:
		if x.typ == nil {
			return x
		}
		t := derefT(x.typ)
		root := addrRoot(x)
		if freshRoot(root) || s.cellsUnder(x) {
			v := s.load(x, t)
			v = s.snap(v, d-1)
			return I.mk(Sym{op: OpPtrTo, args: []*Sym{v}, typ: x.typ}, I.tkey(x.typ))
		}
		if x.op != OpAlloc {
			return I.mk(Sym{op: OpPtrTo, args: []*Sym{s.load(x, t)}, typ: x.typ}, I.tkey(x.typ))
		}
	case OpMakeMap:
		return I.mk(Sym{op: OpPtrTo, args: []*Sym{s.mapContent(x)}, typ: x.typ}, I.tkey(x.typ))
	case OpArray:
		fs := make([]*Sym, len(x.args))
		ch := false
		for i, f := range x.args {
			fs[i] = s.snap(f, d-1)
			ch = ch || fs[i] != f
		}
		if ch {
			return I.mk(Sym{op: OpArray, args: fs, typ: x.typ}, I.tkey(x.typ))
		}
	}
	if x.typ != nil {
		// opaque slice with recorded writes
		if _, ok := x.typ.Underlying().(*types.Slice); ok && s.ver(x) != nil {
			return I.mk(Sym{op: OpSnapSlice, args: []*Sym{x, nil, nil, s.ver(x)}, typ: x.typ}, "")
		}
	}
	return x
}
func (s *State) snapSlice(base, lo, hi, orig *Sym, d int) *Sym {
	var content *Sym
	switch {
	case base.op == OpMakeSlice:
		if n, ok := base.args[0].intVal(); ok && n <= 256 && (isByteSlice(base.typ) || s.ver(base) == nil || s.wholeCopy(base, s.ver(base)) == nil) {
			els := make([]*Sym, n+1)
			et := elemType(base.typ)
			for i := int64(0); i < n; i++ {
				els[i+1] = s.snap(s.load(ElemAddr(base, CInt(i), et), et), d-1)
			}
			content = I.mk(Sym{op: OpArray, args: els, typ: types.NewArray(et, n)}, "")
		} else if v := s.ver(base); v == nil {
			content = I.mk(Sym{op: OpZero, args: []*Sym{base.args[0]}, typ: base.typ}, "zeros")
		} else if src := s.wholeCopy(base, v); src != nil {
			content = I.mk(Sym{op: OpCopyOf, args: []*Sym{s.snap(src, d-1)}, typ: base.typ}, "")
		} else {
			content = I.mk(Sym{op: OpSnapSlice, args: []*Sym{base, nil, nil, v}, typ: base.typ}, "")
		}
	default:
		if p, ok := base.typ.Underlying().(*types.Pointer); ok {
			content = s.snap(s.load(base, p.Elem()), d-1)
		} else if v := s.ver(base); v != nil {
			content = I.mk(Sym{op: OpSnapSlice, args: []*Sym{base, nil, nil, v}, typ: base.typ}, "")
		} else {
			b := s.snap(base, d-1)
			if b == base {
				return orig
			}
			content = b
		}
	}
	if content.op == OpSnapSlice && lo == nil && hi == nil {
		return content
	}
	if content.op == OpArray && lo != nil || content.op == OpArray && hi != nil {
		l, ok1 := int64(0), true
		if lo != nil {
			l, ok1 = lo.intVal()
		}
		h, ok2 := int64(len(content.args)-1), true
		if hi != nil {
			h, ok2 = hi.intVal()
		}
		if ok1 && ok2 && content.args[0] == nil && l <= h && h < int64(len(content.args)) {
			els := append([]*Sym{nil}, content.args[l+1:h+1]...)
			content = I.mk(Sym{op: OpArray, args: els, typ: types.NewArray(elemType(content.typ), h-l)}, "")
			lo, hi = nil, nil
		}
	}
	if content.typ != nil && hi != nil && hi == Len(content) {
		hi = nil
	}
	return I.mk(Sym{op: OpSnapSlice, args: []*Sym{content, lo, hi, nil}, typ: orig.typ}, "")
}

func (s *State) mapContent(m *Sym) *Sym {
	if v, ok := s.mem[mapKey(m)]; ok {
		return v
	}
	if m.op == OpMakeMap {
		return I.mk(Sym{op: OpZeroMap, typ: m.typ}, "")
	}
	if isNilSym(m) {
		return I.mk(Sym{op: OpZeroMap}, "")
	}
	return I.mk(Sym{op: OpVer, str: "map", args: []*Sym{m}, typ: m.typ}, "")
}

func keyDiffers(a, b *Sym) bool {
	if a.op == OpConst && b.op == OpConst {
		return a != b
	}
	if isIntType(a.typ) && isIntType(b.typ) {
		d := linAdd(toLin(a), toLin(b), -1)
		return len(d.t) == 0 && d.c != 0
	}
	return false
}

// mapLookup reads key k from map content; found: 1 present, 0 absent, -1 unknown.
func mapLookup(content, k *Sym, vt types.Type) (*Sym, int) {
	c := content
	for {
		switch c.op {
		case OpMapUpd:
			if c.args[1] == k {
				return c.args[2], 1
			}
			if keyDiffers(c.args[1], k) {
				c = c.args[0]
				continue
			}
		case OpMapDel:
			if c.args[1] == k {
				return Zero(vt), 0
			}
			if keyDiffers(c.args[1], k) {
				c = c.args[0]
				continue
			}
		case OpZeroMap:
			return Zero(vt), 0
		}
		break
	}
	return I.mk(Sym{op: OpLookup, args: []*Sym{c, k}, typ: vt}, ""), -1
}

// --- reachability and garbage collection -----------------------------------

func collectRoots(x *Sym, out map[*Sym]bool, seen map[*Sym]bool) {
	if x == nil || seen[x] {
		return
	}
	seen[x] = true
	switch x.op {
	case OpAlloc, OpMakeSlice, OpMakeMap:
		out[x] = true
	}
	for _, a := range x.args {
		collectRoots(a, out, seen)
	}
}

// gc drops cells of fresh objects that no live value can reach. Everything else
// is kept.
func (s *State) gc(extra ...*Sym) {
	live := map[*Sym]bool{}
	seen := map[*Sym]bool{}
	for _, v := range s.vals {
		collectRoots(v, live, seen)
	}
	for _, v := range extra {
		collectRoots(v, live, seen)
	}
	for _, ds := range s.defers {
		for _, d := range ds {
			collectRoots(d.fn, live, seen)
			for _, a := range d.args {
				collectRoots(a, live, seen)
			}
		}
	}
	done := map[*Sym]bool{}
	for {
		ch := false
		for c, v := range s.mem {
			if done[c] {
				continue
			}
			r := cellRoot(c)
			if !isFreshObj(r) || live[r] {
				done[c] = true
				collectRoots(v, live, seen)
				collectRoots(c, live, seen)
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	for c := range s.mem {
		if !done[c] {
			delete(s.mem, c)
		}
	}
}
func cellRoot(c *Sym) *Sym {
	if c.op == OpVerKey || c.op == OpMapKey {
		c = c.args[0]
		if c.op == OpFieldAddr || c.op == OpElemAddr {
			return addrRoot(c)
		}
		return c
	}
	return addrRoot(c)
}
func isFreshObj(r *Sym) bool { return r.op == OpAlloc || r.op == OpMakeSlice || r.op == OpMakeMap }
