package main

// Model of golang.org/x/crypto/cryptobyte: a Builder holds a byte sequence term
// (a flat concatenation of bytes, byte strings and length-prefixed sections), a
// String is an ordinary byte slice consumed from the front.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const cbPkg = "golang.org/x/crypto/cryptobyte."

var byteSliceT = types.NewSlice(types.Typ[types.Uint8])

func cbKey(b *Sym) *Sym { return I.mk(Sym{op: OpMapKey, str: "cb", args: []*Sym{b}}, "") }

func cbCat(parts ...*Sym) *Sym {
	var out []*Sym
	for _, p := range parts {
		if p.op == OpCall && p.str == "cb.cat" {
			out = append(out, p.args...)
			continue
		}
		out = append(out, p)
	}
	return I.mk(Sym{op: OpCall, str: "cb.cat", args: out, typ: byteSliceT}, "")
}
func cbCall(name string, x *Sym) *Sym {
	return I.mk(Sym{op: OpCall, str: name, args: []*Sym{x}, typ: byteSliceT}, "")
}
func isCbErr(c *Sym) bool { return c.op == OpCall && c.str == "cb.error" }

// cbParts lists the parts of a content term.
func cbParts(c *Sym) []*Sym {
	if c.op == OpCall && c.str == "cb.cat" {
		return c.args
	}
	return []*Sym{c}
}

func (st *State) cbContent(b *Sym) *Sym {
	if v, ok := st.mem[cbKey(b)]; ok {
		return v
	}
	if b.op == OpAlloc {
		return cbCat()
	}
	return I.mk(Sym{op: OpVer, str: "cb", args: []*Sym{b}, typ: byteSliceT}, "")
}

// cbBytes spells a byte string: its bytes when they are known one by one.
func cbBytes(x *Sym) []*Sym {
	y := unwrap(x)
	if y.op == OpCall && y.str == "cb.cat" {
		return y.args
	}
	if s, ok := y.strVal(); ok {
		var out []*Sym
		for i := 0; i < len(s); i++ {
			out = append(out, Conv(types.Typ[types.Uint8], CInt(int64(s[i]))))
		}
		return out
	}
	if isNilSym(y) || Len(x).isInt(0) {
		return nil
	}
	if els := sliceElems(x); els != nil {
		return els
	}
	if y.op == OpArray && y.args[0] == nil {
		return y.args[1:]
	}
	return []*Sym{cbCall("cb.bytes", y)}
}

// cryptobyte handles one call; ok is false when it is not modelled here.
func (r *Run) cryptobyte(st *State, ctx *Ctx, ins ssa.Instruction, c *ssa.CallCommon, name string, args []*Sym, set func(*Sym), emit func(*Event)) (done, stop bool) {
	short := strings.TrimPrefix(strings.TrimPrefix(name, "(*"), "(")
	short = strings.TrimPrefix(short, cbPkg)
	if short == strings.TrimPrefix(strings.TrimPrefix(name, "(*"), "(") {
		return false, false
	}
	u8 := types.Typ[types.Uint8]
	write := func(b, v *Sym) {
		st.mem[cbKey(b)] = v
		r.noteWrite(st, cbKey(b), ins.Pos())
	}
	switch {
	case short == "NewBuilder":
		b := I.mk(Sym{op: OpAlloc, ctx: ctx, ins: ins, str: "cb", typ: r.resultType(c)}, siteKey(ctx, ins))
		r.realloc(st, b)
		x := st.snap(args[0], 6)
		if isEmptySlice(unwrap(x)) {
			write(b, cbCat())
		} else {
			write(b, cbCat(cbBytes(x)...))
		}
		set(b)
		return true, false
	case strings.HasPrefix(short, "Builder)."):
		b := args[0]
		m := strings.TrimPrefix(short, "Builder).")
		old := st.cbContent(b)
		add := func(ps ...*Sym) {
			if isCbErr(old) {
				return
			}
			write(b, cbCat(append([]*Sym{old}, ps...)...))
		}
		uintN := func(n int64) {
			var ps []*Sym
			for k := n - 1; k >= 0; k-- {
				ps = append(ps, byteOf(args[1], k, u8))
			}
			add(ps...)
		}
		switch m {
		case "AddUint8":
			uintN(1)
		case "AddUint16":
			uintN(2)
		case "AddUint24":
			uintN(3)
		case "AddUint32":
			uintN(4)
		case "AddUint48":
			uintN(6)
		case "AddUint64":
			uintN(8)
		case "AddBytes":
			add(cbBytes(st.snap(args[1], 6))...)
		case "SetError":
			write(b, cbCall("cb.error", args[1]))
		case "Bytes":
			call := site(OpCall, ctx, ins, name, r.resultType(c), b)
			emit(&Event{Kind: EvCall, Name: name, Args: []*Sym{old}, Raw: args, Res: call})
			if isCbErr(old) {
				set(Tuple(Nil(byteSliceT), old.args[0]))
			} else {
				set(Tuple(old, Extract(call, 1, types.Universe.Lookup("error").Type())))
			}
		case "BytesOrPanic":
			if isCbErr(old) {
				emit(&Event{Kind: EvPanic, Name: name, Args: []*Sym{old}, Raw: args})
				return true, true
			}
			set(old)
		case "AddASN1BigInt":
			add(cbCall("cb.bigint", args[1]))
		case "AddValue", "AddASN1Int64", "AddASN1Uint64", "AddASN1OctetString", "AddASN1Boolean", "Unwrite":
			return false, false
		default:
			return false, false
		}
		return true, false
	case strings.HasPrefix(short, "String)."):
		m := strings.TrimPrefix(short, "String).")
		s := args[0]
		if m == "Empty" {
			v := s // value receiver
			if isPtrToSlice(s.typ) {
				v = st.load(s, byteSliceT)
			}
			set(Eq(Len(v), CInt(0)))
			return true, false
		}
		if !isPtrToSlice(s.typ) {
			return false, false
		}
		v := st.load(s, derefT(s.typ))
		sub := func(lo, hi *Sym) *Sym { return r.slice(st, v, lo, hi, nil, v.typ) }
		bytesBE := func(n int64) *Sym {
			bs := make([]*Sym, n)
			for k := int64(0); k < n; k++ {
				bs[n-1-k] = byteOf(r.elem(st, v, CInt(k)), 0, u8)
			}
			return compose(bs, types.Typ[types.Uint64])
		}
		out := func(a, x *Sym) {
			t := derefT(a.typ)
			st.store(a, x, t)
			r.noteWrite(st, a, ins.Pos())
		}
		adv := func(n *Sym) {
			rest := sub(n, nil)
			st.store(s, rest, derefT(s.typ))
			r.noteWrite(st, s, ins.Pos())
			set(Le(n, Len(v)))
		}
		readUint := func(n int64) {
			x := bytesBE(n)
			out(args[1], Conv(derefT(args[1].typ), x))
			adv(CInt(n))
		}
		lp := func(n int64) {
			l := Add(bytesBE(n), CInt(n))
			out(args[1], sub(CInt(n), l))
			// the length itself must be readable, too: len(v) >= n follows from
			// len(v) >= n + L because L is not negative
			adv(l)
		}
		switch m {
		case "ReadUint8":
			readUint(1)
		case "ReadUint16":
			readUint(2)
		case "ReadUint24":
			readUint(3)
		case "ReadUint32":
			readUint(4)
		case "ReadUint48":
			readUint(6)
		case "ReadUint64":
			readUint(8)
		case "ReadUint8LengthPrefixed":
			lp(1)
		case "ReadUint16LengthPrefixed":
			lp(2)
		case "ReadUint24LengthPrefixed":
			lp(3)
		case "ReadBytes":
			out(args[1], sub(CInt(0), args[2]))
			adv(args[2])
		case "CopyBytes":
			n := Len(args[1])
			r.copySlice(st, args[1], sub(CInt(0), n))
			r.noteWrite(st, args[1], ins.Pos())
			adv(n)
		case "Skip":
			adv(args[1])
		default:
			return false, false
		}
		return true, false
	}
	return false, false
}

func isPtrToSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Slice)
	return ok
}

func cbLP(name string) string {
	switch {
	case strings.HasSuffix(name, "AddUint8LengthPrefixed"):
		return "cb.lp8"
	case strings.HasSuffix(name, "AddUint16LengthPrefixed"):
		return "cb.lp16"
	case strings.HasSuffix(name, "AddUint24LengthPrefixed"):
		return "cb.lp24"
	case strings.HasSuffix(name, "AddUint32LengthPrefixed"):
		return "cb.lp32"
	case strings.HasSuffix(name, "AddASN1"):
		return "cb.asn1"
	}
	return ""
}

// cbChild is the builder handed to a continuation.
func (r *Run) cbChild(st *State, ctx *Ctx, ins ssa.Instruction, t types.Type) *Sym {
	b := I.mk(Sym{op: OpAlloc, ctx: ctx, ins: ins, str: "cbchild", typ: t}, siteKey(ctx, ins))
	r.realloc(st, b)
	st.mem[cbKey(b)] = cbCat()
	return b
}

// cbEnd closes a length-prefixed section when its continuation returns.
func (r *Run) cbEnd(st *State, ctx *Ctx) {
	ci, ok := ctx.call.(ssa.CallInstruction)
	if !ok || len(ctx.fn.Params) != 1 {
		return
	}
	lp := cbLP(commonName(ci.Common()))
	if lp == "" {
		return
	}
	if lp == "cb.asn1" {
		lp = "cb.asn1:?"
		if t, ok := r.val(st, ctx.parent, ci.Common().Args[1]).intVal(); ok {
			lp = "cb.asn1:" + itoa(int(t))
		}
	}
	parent := r.val(st, ctx.parent, ci.Common().Args[0])
	child := st.vals[vkey{ctx, ctx.fn.Params[0]}]
	if parent == nil || child == nil {
		return
	}
	old, sec := st.cbContent(parent), st.cbContent(child)
	k := cbKey(parent)
	r.noteWrite(st, k, ci.Pos())
	switch {
	case isCbErr(old):
	case isCbErr(sec):
		st.mem[k] = sec
	default:
		st.mem[k] = cbCat(old, cbCall(lp, sec))
	}
}
