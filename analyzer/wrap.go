package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Integers are read as mathematical ones. That is right for the numbers the log makes
// itself, which stay far below the word size, but a number taken from a request can be
// anything an int64 holds: where arithmetic on one is not shown to stay in range, the
// wrapped result is a case of its own.

// maxInt stands for the largest int64; everything the log counts is far below it.
func maxInt() *Sym {
	return I.mk(Sym{op: OpCall, str: "math.MaxInt64", typ: types.Typ[types.Int64]}, "")
}

const wrapSlack = 1 << 20

func (s *State) rangeAxioms(v *Sym) []lin {
	m := maxInt()
	if v == m {
		return []lin{{t: map[*Sym]int64{m: -1}, c: 2 * wrapSlack}}
	}
	if intParam(v) != "" {
		return []lin{{t: map[*Sym]int64{v: 1, m: -1}}, {t: map[*Sym]int64{v: -1, m: -1}}}
	}
	return []lin{{t: map[*Sym]int64{v: 1, m: -1}, c: wrapSlack}, {t: map[*Sym]int64{v: -1, m: -1}, c: wrapSlack}}
}

func is64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int64 || b.Kind() == types.Int)
}

// mayWrap: the result of x can leave the range of its type. The facts that hold when it
// does not, and those that hold when it does (above, below), are given.
func (r *Run) mayWrap(st *State, x *ssa.BinOp, v *Sym) (in []*Sym, out []*Sym) {
	if x.Op != token.ADD && x.Op != token.SUB && x.Op != token.MUL || !is64(x.Type()) {
		return nil, nil
	}
	l := toLin(v)
	param := false
	for a := range l.t {
		if intParam(a) != "" {
			param = true
		}
		if a.op == OpCall && a.str == "wrapped" {
			param = true
		}
	}
	if !param || len(l.t) == 1 && l.c == 0 && l.t[v] == 1 {
		return nil, nil
	}
	up, down := Le(v, maxInt()), Le(fromLin(linAdd(linScale(toLin(maxInt()), -1), lin{c: -1}, 1), types.Typ[types.Int64]), v)
	for _, b := range []*Sym{up, down} {
		switch st.eval(b) {
		case 1:
		case 0:
			return []*Sym{CBool(false)}, []*Sym{Not(b)}
		default:
			in = append(in, b)
			out = append(out, Not(b))
		}
	}
	return in, out
}

func wrapped(ctx *Ctx, x *ssa.BinOp, v *Sym) *Sym {
	return site(OpCall, ctx, x, "wrapped", x.Type(), v)
}
