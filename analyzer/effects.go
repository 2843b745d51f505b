package main

// A whole-program inclusion analysis of what memory a set of functions can
// reach and write: every pointer-like value holds a set of objects, every
// object a set of objects stored in it. Flow- and field-insensitive, so what it
// says cannot happen cannot happen.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type effObj struct {
	kind string // param, global, new, fn
	name string
	fn   *ssa.Function // kind fn
	bind []ssa.Value
	once bool // a function value that runs at most once
	in   map[*effObj]bool
}

type effWrite struct {
	fn   *ssa.Function
	ins  ssa.Instruction
	o    *effObj
	what string
}

type effects struct {
	w       *World
	vals    map[ssa.Value]map[*effObj]bool
	objs    map[any]*effObj
	rets    map[*ssa.Function]map[*effObj]bool
	live    map[*ssa.Function]bool // runs on every call
	once    map[*ssa.Function]bool // runs at most once in the process, or when it starts
	writes  []effWrite
	bad     map[ssa.Instruction]string                 // what makes a result depend on more than the arguments
	slices  map[*ssa.Function]map[ssa.Instruction]bool // the part of a package initialiser that matters
	stores  map[*ssa.Global][]ssa.Instruction
	changed bool
}

func newEffects(w *World) *effects {
	return &effects{w: w, vals: map[ssa.Value]map[*effObj]bool{}, objs: map[any]*effObj{}, rets: map[*ssa.Function]map[*effObj]bool{},
		live: map[*ssa.Function]bool{}, once: map[*ssa.Function]bool{}, bad: map[ssa.Instruction]string{},
		slices: map[*ssa.Function]map[ssa.Instruction]bool{}}
}

// holds: can a value of this type lead to memory?
func holds(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holds(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return holds(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holds(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (a *effects) obj(key any, kind, name string) *effObj {
	o := a.objs[key]
	if o == nil {
		o = &effObj{kind: kind, name: name, in: map[*effObj]bool{}}
		a.objs[key] = o
		a.changed = true
	}
	return o
}

func (a *effects) of(v ssa.Value) map[*effObj]bool {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return map[*effObj]bool{a.obj(v, "global", v.String()): true}
	case *ssa.Function:
		o := a.obj(v, "fn", v.String())
		o.fn = v
		return map[*effObj]bool{o: true}
	}
	return a.vals[v]
}

func (a *effects) into(dst map[*effObj]bool, src map[*effObj]bool) {
	for o := range src {
		if !dst[o] {
			dst[o] = true
			a.changed = true
		}
	}
}

func (a *effects) set(v ssa.Value, src map[*effObj]bool) {
	if !holds(v.Type()) || len(src) == 0 {
		return
	}
	if a.vals[v] == nil {
		a.vals[v] = map[*effObj]bool{}
	}
	a.into(a.vals[v], src)
}

// closure: the objects and everything they lead to.
func effReach(from map[*effObj]bool) map[*effObj]bool {
	out := map[*effObj]bool{}
	var walk func(o *effObj)
	walk = func(o *effObj) {
		if out[o] {
			return
		}
		out[o] = true
		for p := range o.in {
			walk(p)
		}
	}
	for o := range from {
		walk(o)
	}
	return out
}

func (a *effects) store(fn *ssa.Function, ins ssa.Instruction, to, what map[*effObj]bool, how string) {
	for o := range to {
		a.into(o.in, what)
		a.writes = append(a.writes, effWrite{fn, ins, o, how})
	}
}

func (a *effects) start(fn *ssa.Function, once bool) {
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	if once && (a.once[fn] || a.live[fn]) || !once && a.live[fn] {
		return
	}
	a.changed = true
	if once {
		a.once[fn] = true
	} else {
		a.live[fn] = true
		delete(a.once, fn)
	}
}

func (a *effects) solve() {
	for a.changed = true; a.changed; {
		a.changed = false
		a.writes = nil
		var fns []*ssa.Function
		for f := range a.live {
			fns = append(fns, f)
		}
		for f := range a.once {
			fns = append(fns, f)
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					a.step(f, ins, a.once[f])
				}
			}
		}
		for f, sl := range a.slices {
			for ins := range sl {
				a.step(f, ins, true)
			}
		}
		for g := range a.globalsRead() {
			for _, ins := range a.storesTo(g) {
				a.initialise(ins)
			}
		}
	}
	sort.SliceStable(a.writes, func(i, j int) bool { return a.writes[i].ins.Pos() < a.writes[j].ins.Pos() })
}

func (a *effects) blame(fn *ssa.Function, ins ssa.Instruction, why string) {
	a.bad[ins] = why
}

func (a *effects) step(fn *ssa.Function, ins ssa.Instruction, once bool) {
	deref := func(v ssa.Value) map[*effObj]bool {
		out := map[*effObj]bool{}
		for o := range a.of(v) {
			for p := range o.in {
				out[p] = true
			}
		}
		return out
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		a.set(x, map[*effObj]bool{a.obj(x, "new", "a variable of "+fn.String()): true})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := x.(ssa.Value)
		if _, ok := x.(*ssa.MakeChan); ok {
			a.blame(fn, ins, "it makes a channel")
		}
		a.set(v, map[*effObj]bool{a.obj(v, "new", "a value made in "+fn.String()): true})
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		o := a.obj(x, "fn", f.String())
		o.fn, o.bind = f, x.Bindings
		a.set(x, map[*effObj]bool{o: true})
		for i, b := range x.Bindings {
			a.set(f.FreeVars[i], a.of(b))
			a.into(o.in, a.of(b))
		}
	case *ssa.FieldAddr:
		a.set(x, a.of(x.X))
	case *ssa.IndexAddr:
		a.set(x, a.of(x.X))
	case *ssa.Field:
		a.set(x, a.of(x.X))
	case *ssa.Index:
		a.set(x, a.of(x.X))
	case *ssa.Slice:
		a.set(x, a.of(x.X))
	case *ssa.ChangeType:
		a.set(x, a.of(x.X))
	case *ssa.Convert:
		if holds(x.X.Type()) {
			a.set(x, a.of(x.X))
		} else if holds(x.Type()) {
			a.set(x, map[*effObj]bool{a.obj(x, "new", "a value made in "+fn.String()): true})
		}
		if t, ok := x.X.Type().Underlying().(*types.Basic); ok && t.Kind() == types.UnsafePointer {
			a.blame(fn, ins, "it turns an unsafe pointer into something else")
		}
	case *ssa.MultiConvert:
		a.set(x, a.of(x.X))
	case *ssa.SliceToArrayPointer:
		a.set(x, a.of(x.X))
	case *ssa.ChangeInterface:
		a.set(x, a.of(x.X))
	case *ssa.MakeInterface:
		a.set(x, a.of(x.X))
	case *ssa.TypeAssert:
		a.set(x, a.of(x.X))
	case *ssa.Extract:
		a.set(x, a.of(x.Tuple))
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.set(x, a.of(e))
		}
	case *ssa.Lookup:
		a.set(x, deref(x.X))
	case *ssa.UnOp:
		switch x.Op.String() {
		case "*":
			a.set(x, deref(x.X))
		case "<-":
			a.blame(fn, ins, "it receives from a channel")
		}
	case *ssa.Store:
		a.store(fn, ins, a.of(x.Addr), a.of(x.Val), "a store")
	case *ssa.MapUpdate:
		a.store(fn, ins, a.of(x.Map), a.of(x.Key), "a map update")
		a.store(fn, ins, a.of(x.Map), a.of(x.Value), "a map update")
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			a.blame(fn, ins, "it ranges over a map, whose order differs from run to run")
		}
	case *ssa.Next:
	case *ssa.Go:
		a.blame(fn, ins, "it starts a goroutine")
	case *ssa.Select:
		a.blame(fn, ins, "it selects between channels")
	case *ssa.Send:
		a.blame(fn, ins, "it sends to a channel")
	case *ssa.Return:
		if a.rets[fn] == nil {
			a.rets[fn] = map[*effObj]bool{}
		}
		for _, r := range x.Results {
			a.into(a.rets[fn], a.of(r))
		}
	case ssa.CallInstruction:
		a.call(fn, x, once)
	}
}

func (a *effects) enter(call ssa.CallInstruction, callee *ssa.Function, args []ssa.Value, once bool) {
	a.start(callee, once)
	for i, p := range callee.Params {
		if i < len(args) {
			a.set(p, a.of(args[i]))
		}
	}
	if v, ok := call.(ssa.Value); ok {
		a.set(v, a.rets[callee])
	}
}

func (a *effects) call(fn *ssa.Function, call ssa.CallInstruction, once bool) {
	cc := call.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "clear":
			a.store(fn, call, a.of(cc.Args[0]), nil, b.Name())
			if len(cc.Args) > 1 && holds(cc.Args[0].Type()) {
				for o := range a.of(cc.Args[0]) {
					for p := range a.of(cc.Args[1]) {
						a.into(o.in, p.in)
					}
				}
			}
		case "append":
			v := call.(ssa.Value)
			o := a.obj(v, "new", "a slice grown in "+fn.String())
			a.set(v, map[*effObj]bool{o: true})
			a.set(v, a.of(cc.Args[0]))
			a.store(fn, call, a.of(cc.Args[0]), nil, "append, which may write behind the end of a slice")
			for p := range a.of(cc.Args[0]) {
				a.into(o.in, p.in)
			}
			if len(cc.Args) > 1 {
				for p := range a.of(cc.Args[1]) {
					a.into(o.in, p.in)
				}
			}
		case "delete":
			a.store(fn, call, a.of(cc.Args[0]), nil, "delete")
		case "recover", "print", "println":
			a.blame(fn, call, "it calls "+b.Name())
		}
		return
	}
	var args []ssa.Value
	var name string
	var recvT types.Type
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
		name, recvT = cc.Method.Name(), cc.Value.Type()
		pkg := ""
		if p := cc.Method.Pkg(); p != nil {
			pkg = p.Path()
		}
		if a.w.e.isRepoPkg(cc.Method.Pkg()) {
			if m := a.implementations(cc); len(m) > 0 {
				for _, f := range m {
					a.enter(call, f, args, once)
				}
				return
			}
		}
		a.external(fn, call, pkg, recvT, name, args, once)
		return
	}
	args = cc.Args
	if f := cc.StaticCallee(); f != nil {
		if _, ok := cc.Value.(*ssa.MakeClosure); ok {
			a.of(cc.Value)
		}
		if a.w.e.isRepo(f) && len(f.Blocks) > 0 {
			a.enter(call, f, args, once)
			return
		}
		o := f
		if f.Origin() != nil {
			o = f.Origin()
		}
		pkg := ""
		if o.Pkg != nil {
			pkg = o.Pkg.Pkg.Path()
		} else if o.Object() != nil && o.Object().Pkg() != nil {
			pkg = o.Object().Pkg().Path()
		}
		if r := o.Signature.Recv(); r != nil {
			recvT = r.Type()
		}
		a.external(fn, call, pkg, recvT, o.Name(), args, once)
		return
	}
	// a function value
	n := 0
	for o := range a.of(cc.Value) {
		if o.fn == nil {
			continue
		}
		n++
		if a.w.e.isRepo(o.fn) && len(o.fn.Blocks) > 0 {
			a.enter(call, o.fn, args, once || o.once)
		} else {
			pkg := ""
			if o.fn.Pkg != nil {
				pkg = o.fn.Pkg.Pkg.Path()
			}
			if r := o.fn.Signature.Recv(); r != nil {
				recvT = r.Type()
			}
			a.external(fn, call, pkg, recvT, o.fn.Name(), args, once)
		}
	}
}

func (a *effects) implementations(cc *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	it, _ := cc.Value.Type().Underlying().(*types.Interface)
	if it == nil {
		return nil
	}
	for _, p := range a.w.e.prog.AllPackages() {
		if !a.w.e.isRepoPkg(p.Pkg) {
			continue
		}
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if n, ok := t.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
					continue
				}
				if !types.Implements(tt, it) {
					continue
				}
				if f := a.w.e.prog.LookupMethod(tt, cc.Method.Pkg(), cc.Method.Name()); f != nil {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// What functions outside the repository write. Every function listed depends on
// its arguments alone; index 0 of a method is its receiver.
// alias lists the arguments the result may share memory with; nil means none.
func effExternal(pkg string, recv types.Type, name string) (writes, alias []int, known bool) {
	all := []int{0, 1, 2, 3, 4, 5, 6, 7}
	rn := ""
	if recv != nil {
		if n, ok := types.Unalias(derefT(recv)).(*types.Named); ok {
			rn = n.Obj().Name()
		}
	}
	in := func(s string) bool {
		for _, x := range strings.Fields(s) {
			if x == name {
				return true
			}
		}
		return false
	}
	switch {
	case pkg == "crypto/sha256" || pkg == "crypto/sha512":
		return nil, nil, strings.HasPrefix(name, "Sum") || strings.HasPrefix(name, "New")
	case pkg == "crypto/hmac":
		return nil, all, in("New Equal")
	case pkg == "crypto/subtle":
		return nil, nil, in("ConstantTimeCompare ConstantTimeEq ConstantTimeByteEq ConstantTimeSelect")
	case pkg == "hash" || pkg == "io":
		switch name {
		case "Write", "Reset":
			return []int{0}, nil, true
		case "Sum":
			return []int{0, 1}, []int{1}, true
		case "Size", "BlockSize":
			return nil, nil, true
		}
	case pkg == "crypto":
		return nil, nil, rn == "Hash" && in("New Size Available HashFunc String")
	case pkg == "filippo.io/bigmod":
		if rn == "Nat" && !in("Bytes IsZero IsOne IsOdd Equal IsMinusOne BitLenVarTime") {
			return []int{0}, []int{0}, true
		}
		if in("Bytes Size BitLen") {
			return nil, nil, true
		}
		return nil, all, true
	case pkg == "filippo.io/nistec":
		if strings.HasSuffix(rn, "Point") && !in("Bytes BytesX BytesCompressed Equal IsInfinity") {
			return []int{0}, []int{0}, true
		}
		return nil, nil, strings.HasPrefix(name, "New") || rn != ""
	case pkg == "math/big":
		if rn == "" {
			return nil, nil, name == "NewInt"
		}
		if rn == "Int" {
			if name == "FillBytes" {
				return []int{1}, []int{1}, true
			}
			if in("Bytes BitLen Sign Cmp CmpAbs Bit Int64 Uint64 IsInt64 IsUint64 String Text TrailingZeroBits ProbablyPrime") {
				return nil, nil, true
			}
			if in("Append") {
				return []int{1}, []int{1}, true
			}
			return []int{0}, []int{0}, name != "Rand"
		}
	case pkg == "crypto/elliptic":
		return nil, all, in("P224 P256 P384 P521 Params IsOnCurve")
	case pkg == "crypto/ecdsa":
		return nil, all, in("Public Equal")
	case pkg == "golang.org/x/crypto/cryptobyte":
		if rn == "Builder" {
			return []int{0}, []int{0}, true
		}
		return nil, all, in("NewBuilder NewFixedBuilder")
	case pkg == "errors":
		return nil, all, in("New Is As Join Unwrap")
	case pkg == "fmt":
		return nil, all, name == "Errorf"
	case pkg == "bytes" || pkg == "slices":
		if in("Clone Repeat Concat") {
			return nil, nil, true
		}
		return nil, all, in("Clone Repeat Equal Compare HasPrefix HasSuffix TrimLeft TrimRight TrimPrefix TrimSuffix Index IndexByte IndexFunc TrimLeftFunc Concat Contains")
	case pkg == "encoding/binary":
		return []int{1}, []int{1}, strings.HasPrefix(name, "PutUint") || strings.HasPrefix(name, "Uint") || strings.HasPrefix(name, "AppendUint")
	case pkg == "math/bits" || pkg == "math" || pkg == "unicode/utf8" || pkg == "strconv" || pkg == "strings" && rn == "":
		return nil, nil, true
	case pkg == "" && rn == "error" || pkg == "" && name == "Error":
		return nil, nil, true
	}
	return nil, all, false
}

func (a *effects) external(fn *ssa.Function, call ssa.CallInstruction, pkg string, recv types.Type, name string, args []ssa.Value, once bool) {
	v, _ := call.(ssa.Value)
	runs := func(x ssa.Value, once bool) map[*effObj]bool {
		out := map[*effObj]bool{}
		for o := range a.of(x) {
			if o.fn != nil {
				a.start(o.fn, once)
				for r := range a.rets[o.fn] {
					out[r] = true
				}
				// what the callback is handed comes from the other arguments
				for _, p := range o.fn.Params {
					for _, y := range args {
						if y != x {
							a.set(p, a.of(y))
						}
					}
				}
			}
		}
		return out
	}
	if pkg == "sync" {
		switch {
		case name == "Do":
			runs(args[1], true)
			return
		case name == "OnceFunc" || name == "OnceValue" || name == "OnceValues":
			for o := range a.of(args[0]) {
				if o.fn != nil {
					p := a.obj([2]any{v, o}, "fn", o.name)
					p.fn, p.once = o.fn, true
					a.set(v, map[*effObj]bool{p: true})
				}
			}
			return
		}
	}
	writes, alias, known := effExternal(pkg, recv, name)
	if !known {
		full := name
		if recv != nil {
			full = "(" + recv.String() + ")." + name
		} else if pkg != "" {
			full = pkg + "." + name
		}
		a.blame(fn, call, "it calls "+full+", which is not known to depend on its arguments alone")
	}
	for _, i := range writes {
		if i < len(args) {
			held := map[*effObj]bool{}
			for _, y := range args {
				for o := range a.of(y) {
					held[o] = true
				}
			}
			if pkg == "math/big" || pkg == "filippo.io/bigmod" || pkg == "filippo.io/nistec" {
				held = nil // numbers and points are copied
			}
			a.store(fn, call, a.of(args[i]), held, "a call of "+name)
		}
	}
	if v != nil && holds(v.Type()) {
		o := a.obj(v, "new", "a value made in "+fn.String())
		a.set(v, map[*effObj]bool{o: true})
		for _, i := range alias {
			if i < len(args) {
				a.set(v, a.of(args[i]))
				if len(alias) > 1 {
					a.into(o.in, a.of(args[i]))
				}
			}
		}
	}
	for _, y := range args {
		if _, ok := y.Type().Underlying().(*types.Signature); ok {
			runs(y, once)
		}
	}
}

// globalsRead: the package variables the functions mention, and where.
func (a *effects) globalsRead() map[*ssa.Global][]ssa.Instruction {
	out := map[*ssa.Global][]ssa.Instruction{}
	see := func(ins ssa.Instruction) {
		for _, p := range ins.Operands(nil) {
			if g, ok := (*p).(*ssa.Global); ok {
				out[g] = append(out[g], ins)
			}
		}
	}
	for _, fs := range []map[*ssa.Function]bool{a.live, a.once} {
		for f := range fs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					see(ins)
				}
			}
		}
	}
	for _, sl := range a.slices {
		for ins := range sl {
			see(ins)
		}
	}
	return out
}

func globalRoot(v ssa.Value) *ssa.Global {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// storesTo: every store in the repository into a package variable or what it leads to.
func (a *effects) storesTo(g *ssa.Global) []ssa.Instruction {
	if a.stores == nil {
		a.stores = map[*ssa.Global][]ssa.Instruction{}
		fns := a.w.repoFuncs()
		for _, p := range a.w.e.prog.AllPackages() {
			if f := p.Func("init"); f != nil && a.w.e.isRepoPkg(p.Pkg) {
				fns = append(fns, f)
			}
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					var to ssa.Value
					switch x := ins.(type) {
					case *ssa.Store:
						to = x.Addr
					case *ssa.MapUpdate:
						to = x.Map
					}
					if r := globalRoot(to); r != nil {
						a.stores[r] = append(a.stores[r], ins)
					}
				}
			}
		}
	}
	return a.stores[g]
}

func isPkgInit(f *ssa.Function) bool { return f.Synthetic == "package initializer" }

// initialise takes in the part of a package initialiser that computes what ins stores.
func (a *effects) initialise(ins ssa.Instruction) {
	f := ins.Parent()
	if !isPkgInit(f) {
		if strings.HasPrefix(f.Name(), "init#") {
			a.start(f, true)
		}
		return
	}
	sl := a.slices[f]
	if sl == nil {
		sl = map[ssa.Instruction]bool{}
		a.slices[f] = sl
	}
	var add func(i ssa.Instruction)
	add = func(i ssa.Instruction) {
		if sl[i] {
			return
		}
		sl[i] = true
		a.changed = true
		for _, p := range i.Operands(nil) {
			if d, ok := (*p).(ssa.Instruction); ok {
				add(d)
				if al, ok := (*p).(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						add(r)
					}
				}
			}
			if v, ok := (*p).(ssa.Value); ok && v != nil {
				switch v.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.MakeMap, *ssa.MakeSlice:
					for _, r := range *v.Referrers() {
						if st, ok := r.(*ssa.Store); ok {
							add(st)
						}
						if st, ok := r.(*ssa.MapUpdate); ok {
							add(st)
						}
					}
				}
			}
		}
	}
	add(ins)
}
