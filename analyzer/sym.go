package main

// Abstract values. A Sym is a hash-consed term: two program expressions that
// are computed in the same way from the same inputs share one Sym (global value
// numbering over the inlined supergraph). Syms are never evaluated on concrete
// data; they are only compared structurally and matched by the rules.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op int

const (
	OpConst Op = iota
	OpNil
	OpGlobal
	OpFunc
	OpParam
	OpAlloc
	OpFieldAddr
	OpElemAddr
	OpField
	OpIndex
	OpLoad
	OpStruct
	OpArray
	OpCall
	OpExtract
	OpBin
	OpNot
	OpUn
	OpLin
	OpLe0
	OpEq0
	OpEq
	OpConv
	OpIface
	OpClosure
	OpSlice
	OpSnapSlice
	OpPtrTo
	OpMakeSlice
	OpMakeMap
	OpMakeChan
	OpZeroMap
	OpMapUpd
	OpMapDel
	OpLookup
	OpLookupOk
	OpNextKey
	OpNextVal
	OpNextOk
	OpRange
	OpRecv
	OpRecvOk
	OpPhi
	OpWCell
	OpTypeAssert
	OpTypeAssertOk
	OpOut
	OpVer
	OpVerUpd
	OpVerCopy
	OpAppend
	OpTuple
	OpZero
	OpVerKey
	OpMapKey
	OpCopyOf
	OpByte
	OpCompose
	OpHavoc
)

var opNames = map[Op]string{OpConst: "const", OpNil: "nil", OpGlobal: "global", OpFunc: "func", OpParam: "param", OpAlloc: "alloc", OpFieldAddr: "&field", OpElemAddr: "&elem", OpField: "field", OpIndex: "index", OpLoad: "load", OpStruct: "struct", OpArray: "array", OpCall: "call", OpExtract: "extract", OpBin: "bin", OpNot: "not", OpUn: "un", OpLin: "lin", OpLe0: "le0", OpEq0: "eq0", OpEq: "eq", OpConv: "conv", OpIface: "iface", OpClosure: "closure", OpSlice: "slice", OpSnapSlice: "snapslice", OpPtrTo: "ptrto", OpMakeSlice: "makeslice", OpMakeMap: "makemap", OpMakeChan: "makechan", OpZeroMap: "emptymap", OpMapUpd: "mapupd", OpMapDel: "mapdel", OpLookup: "lookup", OpLookupOk: "lookupok", OpNextKey: "nextkey", OpNextVal: "nextval", OpNextOk: "nextok", OpRange: "range", OpRecv: "recv", OpRecvOk: "recvok", OpPhi: "phi", OpWCell: "wcell", OpTypeAssert: "typeassert", OpTypeAssertOk: "typeassertok", OpOut: "out", OpVer: "ver", OpVerUpd: "verupd", OpVerCopy: "vercopy", OpAppend: "append", OpTuple: "tuple", OpZero: "zero", OpVerKey: "verkey", OpMapKey: "mapkey", OpCopyOf: "copyof", OpByte: "byte", OpCompose: "compose", OpHavoc: "havoc"}

type Sym struct {
	id   int
	op   Op
	args []*Sym
	str  string         // callee name, field name, label, ...
	n    int64          // field number, tuple index, ...
	cv   constant.Value // for OpConst
	typ  types.Type
	fn   *ssa.Function
	ins  ssa.Instruction
	ctx  *Ctx
	obj  any     // *ssa.Global, *ssa.Parameter
	gen  string  // generation of a re-executed instruction (unrolled loops)
	coef []int64 // for OpLin: coef[i]*args[i], constant in n
}

type Interner struct {
	tab map[string]*Sym
	all []*Sym
	typ map[types.Type]string
}

func NewInterner() *Interner { return &Interner{tab: map[string]*Sym{}, typ: map[types.Type]string{}} }

func (in *Interner) tkey(t types.Type) string {
	if t == nil {
		return "-"
	}
	if s, ok := in.typ[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	in.typ[t] = s
	return s
}

func (in *Interner) mk(s Sym, extra string) *Sym {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%d|%s|", s.op, s.str, s.n, extra)
	for i, a := range s.args {
		if a == nil {
			b.WriteString("_,")
		} else {
			fmt.Fprintf(&b, "%d", a.id)
			if s.coef != nil {
				fmt.Fprintf(&b, "*%d", s.coef[i])
			}
			b.WriteByte(',')
		}
	}
	k := b.String()
	if x, ok := in.tab[k]; ok {
		return x
	}
	x := new(Sym)
	*x = s
	if x.ins != nil && x.gen == "" && curGen != "" && extra == siteKey(x.ctx, x.ins) {
		x.gen = curGen
	}
	x.id = len(in.all)
	in.all = append(in.all, x)
	in.tab[k] = x
	return x
}

var I = NewInterner()

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func intSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 8
	}
	return 8
}

func Const(v constant.Value, t types.Type) *Sym {
	if v != nil && isIntType(t) {
		v = constant.ToInt(v)
	}
	k := ""
	switch {
	case v == nil:
		k = "nil"
	case v.Kind() == constant.Int:
		k = "i" + v.ExactString()
	case v.Kind() == constant.String:
		k = "s" + constant.StringVal(v)
	case v.Kind() == constant.Bool:
		k = "b" + v.ExactString()
	default:
		k = "x" + v.ExactString()
	}
	return I.mk(Sym{op: OpConst, cv: v, typ: t}, k)
}
func CInt(n int64) *Sym { return Const(constant.MakeInt64(n), types.Typ[types.Int]) }
func CStr(s string) *Sym {
	return Const(constant.MakeString(s), types.Typ[types.String])
}
func CBool(b bool) *Sym { return Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func Nil(t types.Type) *Sym {
	return I.mk(Sym{op: OpNil, typ: t}, "")
}
func (s *Sym) isConst() bool { return s.op == OpConst }
func (s *Sym) intVal() (int64, bool) {
	if s.op == OpConst && s.cv != nil && s.cv.Kind() == constant.Int {
		n, ok := constant.Int64Val(s.cv)
		return n, ok
	}
	return 0, false
}
func (s *Sym) strVal() (string, bool) {
	if s.op == OpConst && s.cv != nil && s.cv.Kind() == constant.String {
		return constant.StringVal(s.cv), true
	}
	return "", false
}
func (s *Sym) boolVal() (bool, bool) {
	if s.op == OpConst && s.cv != nil && s.cv.Kind() == constant.Bool {
		return constant.BoolVal(s.cv), true
	}
	return false, false
}
func (s *Sym) isInt(n int64) bool { v, ok := s.intVal(); return ok && v == n }

// --- linear arithmetic normal form -----------------------------------------

type lin struct {
	c int64
	t map[*Sym]int64
}

func toLin(s *Sym) lin {
	if n, ok := s.intVal(); ok && abs(n) < 1<<61 {
		return lin{c: n, t: map[*Sym]int64{}}
	} else if ok {
		// too large to compute with: an atom
		return lin{t: map[*Sym]int64{s: 1}}
	}
	if s.op == OpLin {
		m := map[*Sym]int64{}
		for i, a := range s.args {
			m[a] = s.coef[i]
		}
		return lin{c: s.n, t: m}
	}
	return lin{t: map[*Sym]int64{s: 1}}
}
func linAdd(a, b lin, k int64) lin {
	m := map[*Sym]int64{}
	for s, c := range a.t {
		m[s] = c
	}
	for s, c := range b.t {
		m[s] += k * c
		if m[s] == 0 {
			delete(m, s)
		}
	}
	return lin{c: a.c + k*b.c, t: m}
}
func linScale(a lin, k int64) lin {
	m := map[*Sym]int64{}
	if k != 0 {
		for s, c := range a.t {
			m[s] = c * k
		}
	}
	return lin{c: a.c * k, t: m}
}
func fromLin(l lin, t types.Type) *Sym {
	if len(l.t) == 0 {
		return Const(constant.MakeInt64(l.c), t)
	}
	ks := make([]*Sym, 0, len(l.t))
	for s := range l.t {
		ks = append(ks, s)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if len(ks) == 1 && l.c == 0 && l.t[ks[0]] == 1 {
		return ks[0]
	}
	cs := make([]int64, len(ks))
	for i, s := range ks {
		cs[i] = l.t[s]
	}
	return I.mk(Sym{op: OpLin, args: ks, coef: cs, n: l.c, typ: t}, "")
}

func Add(a, b *Sym) *Sym { return fromLin(linAdd(toLin(a), toLin(b), 1), a.typ) }
func Sub(a, b *Sym) *Sym { return fromLin(linAdd(toLin(a), toLin(b), -1), a.typ) }

// Le0 builds the canonical boolean "l <= 0".
func Le0(l lin) *Sym {
	if len(l.t) == 0 {
		return CBool(l.c <= 0)
	}
	// divide by the gcd of the coefficients (integers: floor the constant)
	g := int64(0)
	for _, c := range l.t {
		g = gcd(g, abs(c))
	}
	if g > 1 {
		l = lin{c: ceilDiv(l.c, g), t: func() map[*Sym]int64 {
			m := map[*Sym]int64{}
			for s, c := range l.t {
				m[s] = c / g
			}
			return m
		}()}
	}
	return I.mk(Sym{op: OpLe0, args: []*Sym{fromLin(l, types.Typ[types.Int])}, typ: types.Typ[types.Bool]}, "")
}
func ceilDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && a > 0 {
		q++
	}
	return q
}
func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func abs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// EqI builds the canonical boolean "a == b" for integers.
func EqI(a, b *Sym) *Sym {
	l := linAdd(toLin(a), toLin(b), -1)
	if len(l.t) == 0 {
		return CBool(l.c == 0)
	}
	// canonical sign: the term with the smallest id has a positive coefficient
	var first *Sym
	for s := range l.t {
		if first == nil || s.id < first.id {
			first = s
		}
	}
	if l.t[first] < 0 {
		l = linScale(l, -1)
	}
	return I.mk(Sym{op: OpEq0, args: []*Sym{fromLin(l, types.Typ[types.Int])}, typ: types.Typ[types.Bool]}, "")
}
func Not(x *Sym) *Sym {
	if b, ok := x.boolVal(); ok {
		return CBool(!b)
	}
	switch x.op {
	case OpNot:
		return x.args[0]
	case OpLe0:
		l := linScale(toLin(x.args[0]), -1)
		l.c++
		return Le0(l)
	}
	return I.mk(Sym{op: OpNot, args: []*Sym{x}, typ: types.Typ[types.Bool]}, "")
}
func Lt(a, b *Sym) *Sym {
	l := linAdd(toLin(a), toLin(b), -1)
	l.c++
	return Le0(l)
}
func Le(a, b *Sym) *Sym { return Le0(linAdd(toLin(a), toLin(b), -1)) }

// knownNonNil tells whether a term can never be nil.
func knownNonNil(s *Sym) bool {
	switch s.op {
	case OpAlloc, OpGlobal, OpFunc, OpClosure, OpIface, OpMakeSlice, OpMakeMap, OpMakeChan, OpFieldAddr, OpElemAddr, OpStruct, OpSnapSlice, OpPtrTo, OpCopyOf:
		return true
	case OpConst:
		return true
	case OpCall:
		switch s.str {
		case "fmt.Errorf", "errors.New", "net/http.NewServeMux", "fmt.Sprintf":
			return true
		}
	case OpConv:
		return knownNonNil(s.args[0])
	}
	return false
}
func isNilSym(s *Sym) bool { return s.op == OpNil }

// Eq builds a canonical equality.
func Eq(a, b *Sym) *Sym {
	if a == b {
		return CBool(true)
	}
	if isNilSym(a) {
		a, b = b, a
	}
	if isNilSym(b) {
		if isNilSym(a) {
			return CBool(true)
		}
		if knownNonNil(a) {
			return CBool(false)
		}
		return I.mk(Sym{op: OpEq, args: []*Sym{a, b}, typ: types.Typ[types.Bool]}, "")
	}
	if a.op == OpConst && b.op == OpConst {
		return CBool(constant.Compare(a.cv, token.EQL, b.cv))
	}
	if isIntType(a.typ) || isIntType(b.typ) {
		return EqI(a, b)
	}
	if isBoolType(a.typ) {
		if v, ok := b.boolVal(); ok {
			if v {
				return a
			}
			return Not(a)
		}
		if v, ok := a.boolVal(); ok {
			if v {
				return b
			}
			return Not(b)
		}
	}
	// x == "" is len(x) == 0
	if s, ok := b.strVal(); ok && s == "" {
		return EqI(Len(a), CInt(0))
	}
	if s, ok := a.strVal(); ok && s == "" {
		return EqI(Len(b), CInt(0))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return I.mk(Sym{op: OpEq, args: []*Sym{a, b}, typ: types.Typ[types.Bool]}, "")
}

func isPrefixSlice(s *Sym) bool { return s.op == OpSlice }

// Len is the length of a string, slice, array pointer, map or channel value.
func Len(s *Sym) *Sym {
	if v, ok := s.strVal(); ok {
		return CInt(int64(len(v)))
	}
	switch s.op {
	case OpNil, OpZeroMap:
		return CInt(0)
	case OpZero:
		if a, ok := s.typ.Underlying().(*types.Array); ok {
			return CInt(a.Len())
		}
		if len(s.args) > 0 { // the content of a slice just made
			return s.args[0]
		}
		return CInt(0)
	case OpMakeSlice:
		return s.args[0]
	case OpSlice, OpSnapSlice:
		lo, hi := s.args[1], s.args[2]
		if hi == nil {
			hi = Len(s.args[0])
		}
		if lo == nil {
			return hi
		}
		return Sub(hi, lo)
	case OpAppend:
		l := Len(s.args[0])
		for _, a := range s.args[1:] {
			l = Add(l, Len(a))
		}
		return l
	case OpCopyOf, OpPtrTo:
		return Len(s.args[0])
	case OpConv:
		if isStringType(s.typ) || isByteSlice(s.typ) {
			if isStringType(s.args[0].typ) || isByteSlice(s.args[0].typ) {
				return Len(s.args[0])
			}
		}
	case OpArray:
		return CInt(int64(len(s.args)) - 1)
	}
	if s.typ != nil {
		t := s.typ.Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			return CInt(a.Len())
		}
	}
	if s.op == OpBin && s.str == "+" && isStringType(s.typ) {
		return Add(Len(s.args[0]), Len(s.args[1]))
	}
	return I.mk(Sym{op: OpCall, str: "len", args: []*Sym{s}, typ: types.Typ[types.Int]}, "")
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func Bin(op token.Token, a, b *Sym, t types.Type) *Sym {
	if a.op == OpConst && b.op == OpConst && a.cv != nil && b.cv != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return CBool(constant.Compare(a.cv, op, b.cv))
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(b.cv); ok && n < 64 {
				return wrapConst(constant.Shift(a.cv, op, uint(n)), t)
			}
		case token.QUO:
			if isIntType(t) && constant.Sign(b.cv) != 0 {
				return wrapConst(constant.BinaryOp(a.cv, token.QUO_ASSIGN, b.cv), t)
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			return wrapConst(constant.BinaryOp(a.cv, op, b.cv), t)
		case token.REM, token.AND_NOT:
			if constant.Sign(b.cv) != 0 || op != token.REM {
				return wrapConst(constant.BinaryOp(a.cv, op, b.cv), t)
			}
		}
	}
	switch op {
	case token.EQL:
		return Eq(a, b)
	case token.NEQ:
		return Not(Eq(a, b))
	}
	if isIntType(a.typ) || isIntType(b.typ) {
		switch op {
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		case token.ADD:
			return retype(Add(a, b), t)
		case token.SUB:
			return retype(Sub(a, b), t)
		case token.MUL:
			if n, ok := b.intVal(); ok {
				return fromLin(linScale(toLin(a), n), t)
			}
			if n, ok := a.intVal(); ok {
				return fromLin(linScale(toLin(b), n), t)
			}
		case token.SHL:
			if n, ok := b.intVal(); ok {
				if n == 0 {
					return a
				}
				return shl(a, n, t)
			}
		case token.SHR:
			if n, ok := b.intVal(); ok {
				if n == 0 {
					return a
				}
				return shr(a, n, t)
			}
		case token.QUO:
			if b.isInt(1) {
				return a
			}
			// x / 2^k on a quantity treated as non-negative
		case token.OR:
			if a.isInt(0) {
				return b
			}
			if b.isInt(0) {
				return a
			}
			if c := orCompose(a, b, t); c != nil {
				return c
			}
		case token.AND:
			if b.isInt(0xff) {
				return byteOf(a, 0, t)
			}
			if a.isInt(0xff) {
				return byteOf(b, 0, t)
			}
		}
		switch op {
		case token.MUL, token.AND, token.OR, token.XOR:
			if a.id > b.id {
				a, b = b, a
			}
		}
	} else {
		switch op {
		case token.GTR:
			return Bin(token.LSS, b, a, t)
		case token.GEQ:
			return Not(Bin(token.LSS, a, b, t))
		case token.LEQ:
			return Not(Bin(token.LSS, b, a, t))
		}
	}
	if op == token.ADD && isStringType(t) {
		if x, ok := a.strVal(); ok && x == "" {
			return b
		}
		if x, ok := b.strVal(); ok && x == "" {
			return a
		}
		return catStr(a, b)
	}
	return I.mk(Sym{op: OpBin, str: op.String(), args: []*Sym{a, b}, typ: t}, "")
}

// string concatenation is flattened: Cat(p1, p2, ...), adjacent constants merged.
func catStr(parts ...*Sym) *Sym {
	var out []*Sym
	var add func(p *Sym)
	add = func(p *Sym) {
		if p.op == OpBin && p.str == "cat" {
			for _, q := range p.args {
				add(q)
			}
			return
		}
		if v, ok := p.strVal(); ok {
			if v == "" {
				return
			}
			if len(out) > 0 {
				if w, ok := out[len(out)-1].strVal(); ok {
					out[len(out)-1] = CStr(w + v)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	if len(out) == 0 {
		return CStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return I.mk(Sym{op: OpBin, str: "cat", args: out, typ: types.Typ[types.String]}, "")
}

func retype(s *Sym, t types.Type) *Sym { return s }

func wrapConst(v constant.Value, t types.Type) *Sym {
	if v.Kind() == constant.Int && isIntType(t) {
		b := t.Underlying().(*types.Basic)
		if b.Info()&types.IsUntyped == 0 {
			bits := uint(intSize(t) * 8)
			n, ok := new(big.Int).SetString(v.ExactString(), 10)
			if ok {
				m := new(big.Int).Lsh(big.NewInt(1), bits)
				n.Mod(n, m)
				if !isUnsigned(t) && n.Bit(int(bits-1)) == 1 {
					n.Sub(n, m)
				}
				return Const(constant.Make(n), t)
			}
		}
	}
	return Const(v, t)
}

// --- byte-level terms --------------------------------------------------------
// byteOf(x,k) is (x >> 8k) & 0xff. Compose(b0..b7) is the little-endian integer
// with those bytes. Both arise from shifts, masks, byte conversions and from
// encoding/binary.

func byteOf(x *Sym, k int64, t types.Type) *Sym {
	switch x.op {
	case OpConst:
		if n, ok := x.intVal(); ok {
			if k > 7 {
				return CInt(0)
			}
			return CInt((n >> (8 * uint(k))) & 0xff)
		}
	case OpByte:
		if k == 0 {
			return x
		}
		return CInt(0)
	case OpBin:
		if x.str == ">>8" {
			return byteOf(x.args[0], k+x.n, t)
		}
		if x.str == "<<8" {
			if k < x.n {
				return CInt(0)
			}
			return byteOf(x.args[0], k-x.n, t)
		}
	case OpCompose:
		if int(k) < len(x.args) {
			return x.args[k]
		}
		return CInt(0)
	}
	if x.typ != nil && isIntType(x.typ) && intSize(x.typ) == 1 && isUnsigned(x.typ) {
		if k == 0 {
			return x
		}
		return CInt(0)
	}
	return I.mk(Sym{op: OpByte, args: []*Sym{x}, n: k, typ: types.Typ[types.Uint8]}, "")
}
func shr(a *Sym, n int64, t types.Type) *Sym {
	if n%8 == 0 {
		k := n / 8
		if a.op == OpCompose {
			bs := append([]*Sym{}, a.args[min(int(k), len(a.args)):]...)
			return compose(bs, t)
		}
		if a.op == OpByte {
			return CInt(0)
		}
		if a.op == OpBin && a.str == ">>8" {
			return I.mk(Sym{op: OpBin, str: ">>8", n: k + a.n, args: a.args, typ: t}, "")
		}
		return I.mk(Sym{op: OpBin, str: ">>8", n: k, args: []*Sym{a}, typ: t}, "")
	}
	return I.mk(Sym{op: OpBin, str: ">>", args: []*Sym{a, CInt(n)}, typ: t}, "")
}
func shl(a *Sym, n int64, t types.Type) *Sym {
	if n%8 == 0 {
		k := n / 8
		if bs := asBytes(a); bs != nil {
			out := make([]*Sym, 0, 8)
			for i := int64(0); i < k; i++ {
				out = append(out, CInt(0))
			}
			out = append(out, bs...)
			if len(out) > 8 {
				out = out[:8]
			}
			return compose(out, t)
		}
		return I.mk(Sym{op: OpBin, str: "<<8", n: k, args: []*Sym{a}, typ: t}, "")
	}
	if n < 32 {
		return fromLin(linScale(toLin(a), 1<<uint(n)), t)
	}
	return I.mk(Sym{op: OpBin, str: "<<", args: []*Sym{a, CInt(n)}, typ: t}, "")
}

// asBytes gives the little-endian bytes of a value known to be byte-composed.
func asBytes(a *Sym) []*Sym {
	switch a.op {
	case OpCompose:
		return a.args
	case OpByte:
		return []*Sym{a}
	case OpConst:
		if n, ok := a.intVal(); ok && n >= 0 {
			var out []*Sym
			for i := 0; i < 8; i++ {
				out = append(out, CInt((n>>(8*uint(i)))&0xff))
			}
			return out
		}
	}
	if a.typ != nil && isIntType(a.typ) && intSize(a.typ) == 1 && isUnsigned(a.typ) {
		return []*Sym{a}
	}
	return nil
}
func compose(bs []*Sym, t types.Type) *Sym {
	out := append([]*Sym{}, bs...)
	for len(out) > 0 && out[len(out)-1].isInt(0) {
		out = out[:len(out)-1]
	}
	if len(out) == 0 {
		return Const(constant.MakeInt64(0), t)
	}
	if len(out) == 1 {
		return out[0]
	}
	// bytes of one 64-bit value in order: that value
	if len(out) == 8 && out[0].op == OpByte {
		same := true
		for i, b := range out {
			if b.op != OpByte || b.n != int64(i) || b.args[0] != out[0].args[0] {
				same = false
			}
		}
		if same {
			return out[0].args[0]
		}
	}
	all := true
	var v int64
	for i, b := range out {
		n, ok := b.intVal()
		if !ok || i > 6 {
			all = false
			break
		}
		v |= n << (8 * uint(i))
	}
	if all {
		return Const(constant.MakeInt64(v), t)
	}
	return I.mk(Sym{op: OpCompose, args: out, typ: t}, "")
}
func orCompose(a, b *Sym, t types.Type) *Sym {
	x, y := asBytes(a), asBytes(b)
	if x == nil || y == nil {
		return nil
	}
	n := max(len(x), len(y))
	out := make([]*Sym, n)
	for i := 0; i < n; i++ {
		var p, q *Sym = CInt(0), CInt(0)
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		switch {
		case p.isInt(0):
			out[i] = q
		case q.isInt(0):
			out[i] = p
		case p == q:
			out[i] = p
		default:
			return nil
		}
	}
	return compose(out, t)
}

// --- structural constructors -------------------------------------------------

func Field(v *Sym, i int, ft types.Type, name string) *Sym {
	switch v.op {
	case OpStruct:
		return v.args[i]
	case OpZero:
		return Zero(ft)
	case OpLoad:
		return LoadSym(FieldAddr(v.args[0], i, name, ft), verOf(v))
	}
	return I.mk(Sym{op: OpField, args: []*Sym{v}, n: int64(i), str: name, typ: ft}, "")
}
func verOf(l *Sym) *Sym {
	if len(l.args) > 1 {
		return l.args[1]
	}
	return nil
}
func FieldAddr(base *Sym, i int, name string, ft types.Type) *Sym {
	if base.op == OpPtrTo { // address inside a snapshot: project
	}
	return I.mk(Sym{op: OpFieldAddr, args: []*Sym{base}, n: int64(i), str: name, typ: types.NewPointer(ft)}, "")
}
func sliceLo(s *Sym) *Sym {
	if s.args[1] == nil {
		return CInt(0)
	}
	return s.args[1]
}
func ElemAddr(base, idx *Sym, et types.Type) *Sym {
	if base.op == OpSlice {
		return ElemAddr(base.args[0], Add(sliceLo(base), idx), et)
	}
	return I.mk(Sym{op: OpElemAddr, args: []*Sym{base, idx}, typ: types.NewPointer(et)}, "")
}
func LoadSym(addr, ver *Sym) *Sym {
	var t types.Type
	if p, ok := addr.typ.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if ver == nil {
		return I.mk(Sym{op: OpLoad, args: []*Sym{addr}, typ: t}, "")
	}
	return I.mk(Sym{op: OpLoad, args: []*Sym{addr, ver}, typ: t}, "")
}
func Struct(t types.Type, fs []*Sym) *Sym {
	// a struct all of whose fields are loads from consecutive fields of one
	// place is the load of that place; likewise for projections of one value
	if len(fs) > 0 {
		f0 := fs[0]
		switch {
		case f0.op == OpLoad && f0.args[0].op == OpFieldAddr && f0.args[0].n == 0:
			base, ver := f0.args[0].args[0], verOf(f0)
			ok := true
			for i, f := range fs {
				if f.op != OpLoad || f.args[0].op != OpFieldAddr || f.args[0].n != int64(i) || f.args[0].args[0] != base || verOf(f) != ver {
					ok = false
					break
				}
			}
			if ok && types.Identical(derefT(base.typ), t) {
				return LoadSym(base, ver)
			}
		case f0.op == OpField && f0.n == 0:
			base := f0.args[0]
			ok := true
			for i, f := range fs {
				if f.op != OpField || f.n != int64(i) || f.args[0] != base {
					ok = false
					break
				}
			}
			if ok && base.typ != nil && types.Identical(base.typ, t) {
				return base
			}
		}
		allZero := true
		for _, f := range fs {
			if !isZeroSym(f) {
				allZero = false
				break
			}
		}
		if allZero {
			return Zero(t)
		}
	}
	return I.mk(Sym{op: OpStruct, args: fs, typ: t}, I.tkey(t))
}
func isZeroSym(s *Sym) bool {
	switch s.op {
	case OpNil, OpZero:
		return true
	case OpConst:
		if n, ok := s.intVal(); ok {
			return n == 0
		}
		if v, ok := s.strVal(); ok {
			return v == ""
		}
		if b, ok := s.boolVal(); ok {
			return !b
		}
	}
	return false
}
func derefT(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
func Zero(t types.Type) *Sym {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return CBool(false)
		case u.Info()&types.IsString != 0:
			return Const(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			return Const(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return Const(constant.MakeFloat64(0), t)
		}
		return Nil(t)
	case *types.Struct, *types.Array:
		return I.mk(Sym{op: OpZero, typ: t}, I.tkey(t))
	}
	return Nil(t)
}
func Extract(t *Sym, i int, typ types.Type) *Sym {
	if t.op == OpTuple {
		return t.args[i]
	}
	return I.mk(Sym{op: OpExtract, args: []*Sym{t}, n: int64(i), typ: typ}, "")
}
func Tuple(xs ...*Sym) *Sym {
	return I.mk(Sym{op: OpTuple, args: xs}, "")
}

func byteSel(v *Sym, idx *Sym, et types.Type) *Sym {
	if n, ok := idx.intVal(); ok {
		switch v.op {
		case OpArray:
			if x := v.args[n+1]; x != nil {
				return x
			}
			if v.args[0] != nil {
				return byteSel(v.args[0], idx, et)
			}
		}
	}
	switch v.op {
	case OpZero:
		return Zero(et)
	case OpLoad:
		return LoadSym(ElemAddr(v.args[0], idx, et), verOf(v))
	case OpSnapSlice:
		lo := v.args[1]
		if lo == nil {
			lo = CInt(0)
		}
		return byteSel(v.args[0], Add(lo, idx), et)
	case OpCopyOf:
		return byteSel(v.args[0], idx, et)
	case OpConv:
		if a := v.args[0]; a.typ != nil {
			switch a.typ.Underlying().(type) {
			case *types.Slice, *types.Array:
				return byteSel(a, idx, et)
			}
		}
	}
	return I.mk(Sym{op: OpIndex, args: []*Sym{v, idx}, typ: et}, "")
}

func Conv(t types.Type, x *Sym) *Sym {
	if x.typ != nil && types.Identical(t, x.typ) {
		return x
	}
	if x.op == OpConst && x.cv != nil {
		if isIntType(t) && x.cv.Kind() == constant.Int {
			return wrapConst(x.cv, t)
		}
		if isStringType(t) && x.cv.Kind() == constant.String {
			return Const(x.cv, t)
		}
	}
	if isIntType(t) && isIntType(x.typ) {
		if intSize(t) >= intSize(x.typ) || intSize(t) == 8 {
			return x // value preserved (same-width reinterpretation assumed in range)
		}
		if x.op == OpCompose && (len(x.args) < intSize(t) || len(x.args) == intSize(t) && isUnsigned(t)) {
			return x // the bytes fit
		}
		if intSize(t) == 1 && isUnsigned(t) {
			return byteOf(x, 0, t)
		}
		return I.mk(Sym{op: OpConv, args: []*Sym{x}, typ: t}, I.tkey(t))
	}
	ut, ux := t.Underlying(), types.Type(nil)
	if x.typ != nil {
		ux = x.typ.Underlying()
	}
	if ux != nil && types.Identical(ut, ux) {
		return x // named <-> unnamed
	}
	// pointer-to-named conversions keep the address
	if pt, ok := ut.(*types.Pointer); ok {
		if px, ok := ux.(*types.Pointer); ok && types.Identical(pt.Elem().Underlying(), px.Elem().Underlying()) {
			return x
		}
	}
	if x.op == OpNil {
		return x
	}
	if x.op == OpConv && (isStringType(t) || isByteSlice(t)) && x.args[0].typ != nil && types.Identical(x.args[0].typ.Underlying(), ut) {
		return x.args[0]
	}
	return I.mk(Sym{op: OpConv, args: []*Sym{x}, typ: t}, I.tkey(t))
}

func Slice(x, lo, hi, mx *Sym, t types.Type) *Sym {
	if lo != nil && lo.isInt(0) {
		lo = nil
	}
	if x.op == OpSlice {
		base := x
		off := sliceLo(base)
		nlo := off
		if lo != nil {
			nlo = Add(off, lo)
		}
		var nhi *Sym
		if hi != nil {
			nhi = Add(off, hi)
		} else {
			nhi = base.args[2]
		}
		if mx == nil {
			mx = base.args[3]
		} else {
			mx = Add(off, mx)
		}
		return Slice(base.args[0], nlo, nhi, mx, t)
	}
	if hi != nil && hi == Len(x) {
		hi = nil
	}
	if lo == nil && hi == nil && mx == nil {
		if x.typ != nil {
			if _, ok := x.typ.Underlying().(*types.Pointer); !ok {
				return x
			}
		}
	}
	return I.mk(Sym{op: OpSlice, args: []*Sym{x, lo, hi, mx}, typ: t}, "")
}

// --- printing ------------------------------------------------------------------

func (s *Sym) String() string { return s.show(6) }
func (s *Sym) show(d int) string {
	if s == nil {
		return "_"
	}
	if d < 0 {
		return fmt.Sprintf("…%d", s.id)
	}
	av := func() string {
		var p []string
		for _, a := range s.args {
			p = append(p, a.show(d-1))
		}
		return strings.Join(p, ", ")
	}
	switch s.op {
	case OpConst:
		if s.cv == nil {
			return "const?"
		}
		return s.cv.String()
	case OpNil:
		return "nil"
	case OpGlobal, OpFunc, OpParam:
		return s.str
	case OpAlloc:
		return fmt.Sprintf("new%d(%s)", s.id, s.str)
	case OpFieldAddr:
		return "&" + s.args[0].show(d) + "." + s.str
	case OpElemAddr:
		return "&" + s.args[0].show(d) + "[" + s.args[1].show(d-1) + "]"
	case OpField:
		return s.args[0].show(d) + "." + s.str
	case OpIndex:
		return s.args[0].show(d) + "[" + s.args[1].show(d-1) + "]"
	case OpLoad:
		v := ""
		if len(s.args) > 1 {
			v = fmt.Sprintf("@%d", s.args[1].id)
		}
		return "*(" + s.args[0].show(d) + ")" + v
	case OpCall:
		n := s.str
		if s.ins != nil {
			n += fmt.Sprintf("#%d", s.id)
		}
		return n + "(" + av() + ")"
	case OpExtract:
		return s.args[0].show(d) + fmt.Sprintf(".%d", s.n)
	case OpLin:
		var p []string
		for i, a := range s.args {
			if s.coef[i] == 1 {
				p = append(p, a.show(d-1))
			} else {
				p = append(p, fmt.Sprintf("%d*%s", s.coef[i], a.show(d-1)))
			}
		}
		if s.n != 0 {
			p = append(p, fmt.Sprint(s.n))
		}
		return "(" + strings.Join(p, "+") + ")"
	case OpLe0:
		return s.args[0].show(d) + "<=0"
	case OpEq0:
		return s.args[0].show(d) + "==0"
	case OpEq:
		return s.args[0].show(d-1) + "==" + s.args[1].show(d-1)
	case OpPhi, OpWCell:
		return fmt.Sprintf("%s%d(%s)", opNames[s.op], s.id, s.str)
	case OpStruct:
		return typeShort(s.typ) + "{" + av() + "}"
	case OpBin:
		if s.str == ">>8" || s.str == "<<8" {
			return fmt.Sprintf("(%s %s*%d)", s.args[0].show(d-1), s.str, s.n)
		}
		return "(" + strings.Join(func() []string {
			var p []string
			for _, a := range s.args {
				p = append(p, a.show(d-1))
			}
			return p
		}(), " "+s.str+" ") + ")"
	case OpSlice:
		return s.args[0].show(d-1) + "[" + showOr(s.args[1], d) + ":" + showOr(s.args[2], d) + "]"
	case OpByte:
		return s.args[0].show(d-1) + fmt.Sprintf("·b%d", s.n)
	}
	return fmt.Sprintf("%s%s(%s)", opNames[s.op], func() string {
		if s.str != "" {
			return ":" + s.str
		}
		return ""
	}(), av())
}
func showOr(s *Sym, d int) string {
	if s == nil {
		return ""
	}
	return s.show(d - 1)
}
func typeShort(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// mentions tells whether term s contains sub.
func mentions(s *Sym, pred func(*Sym) bool, seen map[*Sym]bool) bool {
	if s == nil || seen[s] {
		return false
	}
	seen[s] = true
	if pred(s) {
		return true
	}
	for _, a := range s.args {
		if mentions(a, pred, seen) {
			return true
		}
	}
	return false
}
func contains(s, sub *Sym) bool {
	return mentions(s, func(x *Sym) bool { return x == sub }, map[*Sym]bool{})
}
