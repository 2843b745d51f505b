package main

// C28: the private key of the log and the password of its storage stay where
// they are needed.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type resKey struct {
	call ssa.Value
	i    int
}

type secrets struct {
	w       *World
	c       *Check
	fns     []*ssa.Function
	callers map[*ssa.Function][]ssa.CallInstruction
	taken   map[*ssa.Function]bool // used as a value
	val     map[ssa.Value]string
	res     map[resKey]string
	field   map[string]string
	rets    map[*ssa.Function]map[int]string
	sources map[string]bool // positions
	changed bool
	found   map[ssa.Instruction]string
	uses    map[ssa.Instruction]string // allowed
}

const (
	secKey    = "the private key"
	secConfig = "the storage password"
)

func mayCarry(t types.Type) bool {
	if t == nil {
		return false
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return false
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsBoolean == 0
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return false
	}
	return true
}

func (s *secrets) taint(v ssa.Value, k string) {
	if v == nil || k == "" || s.val[v] != "" {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	}
	if !mayCarry(v.Type()) {
		return
	}
	if _, ok := v.Type().(*types.Tuple); ok {
		return
	}
	s.val[v] = k
	s.changed = true
}

func (s *secrets) of(v ssa.Value) string {
	if k := s.val[v]; k != "" {
		return k
	}
	return ""
}

func fieldKey(t types.Type, i int) string {
	t = derefT(t)
	st, ok := t.Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return ""
	}
	name := t.String()
	if n, ok := types.Unalias(t).(*types.Named); ok {
		name = n.Origin().String()
	}
	return name + "." + st.Field(i).Name()
}

// write: memory at this address now holds a secret.
func (s *secrets) write(addr ssa.Value, k string) {
	for i := 0; i < 20 && addr != nil; i++ {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			if f := fieldKey(x.X.Type(), x.Field); f != "" && s.field[f] == "" {
				s.field[f] = k
				s.changed = true
			}
			return
		case *ssa.IndexAddr:
			s.taint(x, k)
			addr = x.X
			continue
		case *ssa.Slice:
			s.taint(x, k)
			addr = x.X
			continue
		case *ssa.UnOp:
			// a slice or pointer held somewhere: what it leads to is secret wherever
			// it is loaded from
			s.taint(x, k)
			addr = x.X
			continue
		case *ssa.MakeInterface:
			s.taint(x, k)
			addr = x.X
			continue
		}
		s.taint(addr, k)
		return
	}
}

// holdsSecret: a value of this type may lead to a field that holds a secret.
func (s *secrets) holdsSecret(t types.Type, seen map[types.Type]bool) string {
	if t == nil || seen[t] {
		return ""
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return s.holdsSecret(u.Elem(), seen)
	case *types.Slice:
		return s.holdsSecret(u.Elem(), seen)
	case *types.Array:
		return s.holdsSecret(u.Elem(), seen)
	case *types.Map:
		if k := s.holdsSecret(u.Key(), seen); k != "" {
			return k
		}
		return s.holdsSecret(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if f := fieldKey(t, i); s.field[f] != "" {
				return s.field[f]
			}
			if k := s.holdsSecret(u.Field(i).Type(), seen); k != "" {
				return k
			}
		}
	}
	return ""
}

func calledAs(cc *ssa.CallCommon) (pkg string, recv types.Type, name string) {
	if cc.IsInvoke() {
		if p := cc.Method.Pkg(); p != nil {
			pkg = p.Path()
		}
		return pkg, cc.Value.Type(), cc.Method.Name()
	}
	f := cc.StaticCallee()
	if f == nil {
		return "", nil, ""
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	if r := f.Signature.Recv(); r != nil {
		recv = r.Type()
	}
	return pkg, recv, f.Name()
}

func isParsePrivate(pkg, name string) bool {
	return strings.HasSuffix(pkg, "x509") && strings.HasPrefix(name, "Parse") && strings.HasSuffix(name, "PrivateKey")
}

// findSources: what the key is read from and parsed from, and the password.
func (s *secrets) findSources() {
	seen := map[ssa.Value]bool{}
	var back func(v ssa.Value)
	back = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return
		case *ssa.Parameter:
			s.source(x, secKey)
			for i, p := range x.Parent().Params {
				if p == x {
					for _, c := range s.callers[x.Parent()] {
						if i < len(c.Common().Args) {
							back(c.Common().Args[i])
						}
					}
				}
			}
			return
		case *ssa.Call:
			if f := x.Common().StaticCallee(); f != nil && s.w.e.isRepo(f) {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, y := range r.Results {
							if mayCarry(y.Type()) {
								back(y)
							}
						}
					}
				}
				return
			}
			pkg, _, name := calledAs(x.Common())
			s.sourceCall(x, secKey)
			if pkg == "encoding/pem" && name == "Decode" || pkg == "bytes" || pkg == "io" || pkg == "strings" {
				for _, a := range x.Common().Args {
					back(a)
				}
			}
			return
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x {
					back(st.Val)
				}
			}
			return
		}
		if ins, ok := v.(ssa.Instruction); ok {
			for _, p := range ins.Operands(nil) {
				back(*p)
			}
		}
	}
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Call:
					pkg, recv, name := calledAs(x.Common())
					rn := ""
					if recv != nil {
						rn = types.TypeString(derefT(recv), func(*types.Package) string { return "" })
					}
					switch {
					case isParsePrivate(pkg, name):
						s.sourceCall(x, secKey)
						back(x.Common().Args[0])
					case strings.HasSuffix(pkg, "consul/api") && rn == "KV" && name == "Get":
						s.sourceCall(x, secConfig)
					case pkg == "os" && (name == "ReadFile" || name == "Open"):
						if isFieldLoad(x.Common().Args[0], "KeyPath") {
							s.sourceCall(x, secKey)
						}
					}
				case *ssa.FieldAddr:
					s.secretField(x.X.Type(), x.Field)
				case *ssa.Field:
					s.secretField(x.X.Type(), x.Field)
				}
			}
		}
	}
}

func isFieldLoad(v ssa.Value, name string) bool {
	fieldName := func(t types.Type, i int) string {
		if st, ok := derefT(t).Underlying().(*types.Struct); ok {
			return st.Field(i).Name()
		}
		return ""
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fieldName(fa.X.Type(), fa.Field) == name
		}
	case *ssa.Field:
		return fieldName(x.X.Type(), x.Field) == name
	}
	return false
}

func (s *secrets) secretField(t types.Type, i int) {
	k := fieldKey(t, i)
	if strings.HasSuffix(k, "GlobalConfig.S3StaticCredentialPassword") && s.field[k] == "" {
		s.field[k] = secConfig
		s.sources[k] = true
		s.changed = true
	}
}

func (s *secrets) source(v ssa.Value, k string) {
	s.sources[s.w.e.pos(v.Pos())] = true
	s.taint(v, k)
}

func (s *secrets) sourceCall(x *ssa.Call, k string) {
	s.sources[s.w.e.pos(x.Pos())] = true
	s.taintRes(x, k)
}

func (s *secrets) taintRes(x ssa.Value, k string) {
	if x == nil || k == "" {
		return
	}
	if tt, ok := x.Type().(*types.Tuple); ok {
		for i := 0; i < tt.Len(); i++ {
			s.taintResN(x, i, k)
		}
		return
	}
	s.taint(x, k)
}

func (s *secrets) taintResN(x ssa.Value, i int, k string) {
	tt, ok := x.Type().(*types.Tuple)
	if !ok {
		s.taint(x, k)
		return
	}
	if mayCarry(tt.At(i).Type()) && s.res[resKey{x, i}] == "" {
		s.res[resKey{x, i}] = k
		s.changed = true
	}
}

func (s *secrets) leak(ins ssa.Instruction, k, how string) {
	s.found[ins] = k + " " + how
}

// publicPart: the public half of a private key.
func publicPart(t types.Type, i int) bool {
	t = derefT(t)
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if n.Obj().Name() == "Block" && n.Obj().Pkg().Path() == "encoding/pem" {
		return ok && st.Field(i).Name() == "Type" // "EC PRIVATE KEY"
	}
	return ok && n.Obj().Name() == "PrivateKey" && st.Field(i).Name() == "PublicKey"
}

func (s *secrets) run() {
	for s.changed = true; s.changed; {
		s.changed = false
		s.found = map[ssa.Instruction]string{}
		s.uses = map[ssa.Instruction]string{}
		for _, f := range s.fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					s.step(f, ins)
				}
			}
		}
	}
}

func (s *secrets) step(fn *ssa.Function, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.FieldAddr:
		if publicPart(x.X.Type(), x.Field) {
			return
		}
		if k := s.of(x.X); k != "" {
			if _, named := types.Unalias(derefT(x.X.Type())).(*types.Named); named || k != "" {
				s.taint(x, k)
			}
		}
	case *ssa.Field:
		if publicPart(x.X.Type(), x.Field) {
			return
		}
		s.taint(x, s.of(x.X))
		s.taint(x, s.field[fieldKey(x.X.Type(), x.Field)])
	case *ssa.UnOp:
		switch x.Op.String() {
		case "*":
			s.taint(x, s.of(x.X))
			if fa, ok := x.X.(*ssa.FieldAddr); ok && !publicPart(fa.X.Type(), fa.Field) {
				s.taint(x, s.field[fieldKey(fa.X.Type(), fa.Field)])
			}
		default:
			s.taint(x, s.of(x.X))
		}
	case *ssa.Store:
		if k := s.of(x.Val); k != "" {
			s.write(x.Addr, k)
		}
	case *ssa.MapUpdate:
		if k := s.of(x.Value); k != "" {
			s.write(x.Map, k)
		}
		if k := s.of(x.Key); k != "" {
			s.write(x.Map, k)
		}
	case *ssa.Send:
		if k := s.of(x.X); k != "" {
			s.taint(x.Chan, k)
		}
	case *ssa.Panic:
		if k := s.of(x.X); k != "" {
			s.leak(ins, k, "is the value of a panic, which is printed")
		}
	case *ssa.Return:
		for i, r := range x.Results {
			if k := s.of(r); k != "" {
				if s.rets[fn] == nil {
					s.rets[fn] = map[int]string{}
				}
				if s.rets[fn][i] == "" {
					s.rets[fn][i] = k
					s.changed = true
				}
				switch fn.Name() {
				case "Error", "String", "GoString", "Format", "MarshalJSON", "MarshalText", "MarshalBinary", "LogValue":
					if fn.Signature.Recv() != nil {
						s.leak(ins, k, "is returned to whatever prints the value")
					}
				}
				if s.taken[fn] && s.declassified(fn) == "" {
					s.leak(ins, k, "is returned to an unknown caller")
				}
			}
		}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			s.taint(f.FreeVars[i], s.of(b))
			if k := s.of(f.FreeVars[i]); k != "" {
				s.write(b, k)
			}
		}
	case *ssa.Extract:
		s.taint(x, s.res[resKey{x.Tuple, x.Index}])
		if _, ok := x.Tuple.(*ssa.Call); !ok {
			s.taint(x, s.of(x.Tuple))
		}
	case *ssa.TypeAssert:
		if x.CommaOk {
			if k := s.of(x.X); k != "" {
				s.taintResN(x, 0, k)
			}
		} else {
			s.taint(x, s.of(x.X))
		}
	case *ssa.Lookup:
		k := s.of(x.X)
		if x.CommaOk {
			if k != "" {
				s.taintResN(x, 0, k)
			}
		} else {
			s.taint(x, k)
		}
	case *ssa.Next:
		if k := s.of(x.Iter); k != "" {
			s.taintResN(x, 1, k)
			s.taintResN(x, 2, k)
		}
	case *ssa.BinOp:
		s.taint(x, s.of(x.X))
		s.taint(x, s.of(x.Y))
	case ssa.CallInstruction:
		s.call(fn, x)
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.If, *ssa.Jump:
	default:
		if v, ok := ins.(ssa.Value); ok {
			for _, p := range ins.Operands(nil) {
				if *p != nil {
					s.taint(v, s.of(*p))
				}
			}
		}
	}
}

// declassified: results of these functions may be published.
func (s *secrets) declassified(f *ssa.Function) string {
	if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "internal/rfc6979") && f.Name() == "Sign" {
		return "a signature"
	}
	return ""
}

func (s *secrets) call(fn *ssa.Function, call ssa.CallInstruction) {
	cc := call.Common()
	v, _ := call.(ssa.Value)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
		case "copy":
			if k := s.of(cc.Args[1]); k != "" {
				s.write(cc.Args[0], k)
			}
		case "print", "println":
			for _, a := range cc.Args {
				if k := s.of(a); k != "" {
					s.leak(call, k, "is printed")
				}
			}
		default:
			for _, a := range cc.Args {
				s.taint(v, s.of(a))
			}
		}
		return
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
	}
	if f := cc.StaticCallee(); f != nil && s.w.e.isRepo(f) && len(f.Blocks) > 0 {
		for i, p := range f.Params {
			if i < len(args) {
				s.taint(p, s.of(args[i]))
				if k := s.of(p); k != "" && holds(p.Type()) {
					s.write(args[i], k)
				}
			}
		}
		if how := s.declassified(f); how != "" {
			for _, a := range args {
				if k := s.of(a); k != "" {
					s.uses[call] = k + " makes " + how
				}
			}
			return
		}
		for i, k := range s.rets[f] {
			s.taintResN(v, i, k)
		}
		return
	}
	pkg, recv, name := calledAs(cc)
	rn := ""
	if recv != nil {
		rn = types.TypeString(derefT(recv), func(*types.Package) string { return "" })
	}
	held := func(a ssa.Value) string {
		if k := s.of(a); k != "" {
			return k
		}
		t := a.Type()
		if mi, ok := a.(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		return s.holdsSecret(t, map[types.Type]bool{})
	}
	// variadic arguments travel in an array
	var all []ssa.Value
	for _, a := range args {
		all = append(all, a)
		if sl, ok := a.(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, q := range *ia.Referrers() {
							if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
								all = append(all, st.Val)
							}
						}
					}
				}
			}
		}
	}
	if pkg == "" && name == "" && !cc.IsInvoke() {
		s.dynamic(call, args)
		return
	}
	k := ""
	for _, a := range all {
		if h := held(a); h != "" {
			k = h
			if h == secKey {
				break
			}
		}
	}
	if k == "" {
		return
	}
	direct := ""
	for _, a := range all {
		if d := s.of(a); d != "" {
			direct = d
		}
	}
	use := func(how string) { s.uses[call] = k + " " + how }
	switch {
	case isParsePrivate(pkg, name), pkg == "encoding/pem" && name == "Decode":
		use("is parsed")
		s.taintRes(v, k)
		return
	case rn == "PrivateKey" && (name == "Public" || name == "Equal"):
		use("gives its public half")
		return
	case k == secConfig && pkg == "encoding/json" && name == "Unmarshal":
		use("is taken from the configuration")
		return
	case k == secConfig && pkg == "encoding/json" && name == "Marshal":
		use("becomes part of the configuration")
		s.taintRes(v, k)
		return
	case k == secConfig && strings.HasSuffix(pkg, "consul/api") && rn == "KV":
		use("is kept in Consul")
		return
	case k == secConfig && strings.HasSuffix(pkg, "aws/aws-sdk-go-v2/credentials") && name == "NewStaticCredentialsProvider":
		use("is given to the storage client")
		return
	}
	if direct == "" {
		// only a structure that holds the secret somewhere: what prints or encodes
		// whole structures would give it away
		switch {
		case pkg == "log" || pkg == "fmt" || pkg == "log/slog" || strings.HasPrefix(pkg, "encoding/") || strings.HasPrefix(pkg, "text/") || strings.HasPrefix(pkg, "html/") || pkg == "expvar":
			s.leak(call, k, "is part of what is passed to "+pkg+"."+name)
		}
		return
	}
	k = direct
	writes, _, known := effExternal(pkg, recv, name)
	if known && pkg != "fmt" && pkg != "errors" || pkg == "io" && strings.HasPrefix(name, "ReadAll") || rn == "File" && name == "Close" {
		s.uses[call] = k + " is computed with"
		for _, i := range writes {
			if i < len(args) {
				s.write(args[i], k)
			}
		}
		if v != nil {
			if b, ok := v.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString != 0 {
				s.taintRes(v, k)
			}
		}
		return
	}
	full := name
	if recv != nil {
		full = "(" + recv.String() + ")." + name
	} else if pkg != "" {
		full = pkg + "." + name
	}
	s.leak(call, k, "is passed to "+full)
}

// dynamic: any function used as a value that has the signature may be called.
func (s *secrets) dynamic(call ssa.CallInstruction, args []ssa.Value) {
	cc := call.Common()
	v, _ := call.(ssa.Value)
	n := 0
	for f := range s.taken {
		if !types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()),
			types.NewSignatureType(nil, nil, nil, cc.Signature().Params(), cc.Signature().Results(), cc.Signature().Variadic())) || len(f.Params) != len(args) {
			continue
		}
		n++
		for i, p := range f.Params {
			s.taint(p, s.of(args[i]))
			if k := s.of(p); k != "" && holds(p.Type()) {
				s.write(args[i], k)
			}
		}
		for i, k := range s.rets[f] {
			s.taintResN(v, i, k)
		}
	}
	if n == 0 {
		for _, a := range args {
			if k := s.of(a); k != "" {
				s.leak(call, k, "is passed to an unknown function")
			}
		}
	}
}

func (c *Check) confidential() {
	s := &secrets{w: c.w, c: c, callers: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}, val: map[ssa.Value]string{},
		res: map[resKey]string{}, field: map[string]string{}, rets: map[*ssa.Function]map[int]string{}, sources: map[string]bool{}}
	generic := func(f *ssa.Function) bool {
		for ; f != nil; f = f.Parent() {
			if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
				return true
			}
		}
		return false
	}
	for fn := range ssautil.AllFunctions(c.w.e.prog) {
		if c.w.e.isRepo(fn) && len(fn.Blocks) > 0 && !generic(fn) {
			s.fns = append(s.fns, fn)
		}
	}
	sort.Slice(s.fns, func(i, j int) bool {
		if s.fns[i].Pos() != s.fns[j].Pos() {
			return s.fns[i].Pos() < s.fns[j].Pos()
		}
		return s.fns[i].String() < s.fns[j].String()
	})
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, isCall := ins.(ssa.CallInstruction)
				if isCall {
					if g := call.Common().StaticCallee(); g != nil {
						s.callers[g] = append(s.callers[g], call)
					}
				}
				for i, p := range ins.Operands(nil) {
					g, ok := (*p).(*ssa.Function)
					if mc, isMC := ins.(*ssa.MakeClosure); isMC && i == 0 {
						_ = mc
						called := true
						for _, r := range *mc.Referrers() {
							if ci, ok := r.(ssa.CallInstruction); !ok || ci.Common().Value != mc {
								called = false
							}
						}
						if called {
							continue
						}
					}
					if ok && !(isCall && call.Common().Value == g) {
						s.taken[g] = true
					}
				}
			}
		}
	}
	s.findSources()
	s.run()

	c.analysed(s.fns...)
	c.need(len(s.sources), 4, "source", "places where the private key or the password come from")
	for _, p := range sortedKeys(s.sources) {
		c.ok("source", p, p)
	}
	var ins []ssa.Instruction
	for i := range s.found {
		ins = append(ins, i)
	}
	for i := range s.uses {
		if s.found[i] == "" {
			ins = append(ins, i)
		}
	}
	sort.Slice(ins, func(i, j int) bool { return ins[i].Pos() < ins[j].Pos() })
	said := map[string]bool{}
	for _, i := range ins {
		where := c.w.e.pos(i.Pos())
		if why := s.found[i]; why != "" {
			if !said[where+why] {
				c.bad("confidential", fnLabel(i.Parent()), where, "%s", why)
			}
			said[where+why] = true
		} else if !said[where] {
			said[where] = true
			c.ok("confidential", fnLabel(i.Parent()), where)
		}
	}
}

func init() {
	register("C28", func(c *Check) { c.confidential() })
}
