package main

// Model of strings.Builder: its content is a string term.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const sbPkg = "(*strings.Builder)."

func sbKey(b *Sym) *Sym { return I.mk(Sym{op: OpMapKey, str: "sb", args: []*Sym{b}}, "") }

func (st *State) sbContent(b *Sym) *Sym {
	if v, ok := st.mem[sbKey(b)]; ok {
		return v
	}
	if b.op == OpAlloc {
		return CStr("")
	}
	return I.mk(Sym{op: OpVer, str: "sb", args: []*Sym{b}, typ: types.Typ[types.String]}, "")
}

func (r *Run) stringsBuilder(st *State, ctx *Ctx, ins ssa.Instruction, c *ssa.CallCommon, name string, args []*Sym, set func(*Sym)) bool {
	if !strings.HasPrefix(name, sbPkg) {
		return false
	}
	b := args[0]
	add := func(s *Sym) {
		st.mem[sbKey(b)] = catStr(st.sbContent(b), s)
		r.noteWrite(st, sbKey(b), ins.Pos())
	}
	switch strings.TrimPrefix(name, sbPkg) {
	case "WriteString":
		add(args[1])
		set(Tuple(Len(args[1]), Nil(types.Universe.Lookup("error").Type())))
	case "WriteByte":
		if n, ok := args[1].intVal(); ok && n >= 0 && n < 128 {
			add(CStr(string(rune(n))))
		} else {
			add(I.mk(Sym{op: OpCall, str: "string(byte)", args: []*Sym{args[1]}, typ: types.Typ[types.String]}, ""))
		}
		set(Nil(types.Universe.Lookup("error").Type()))
	case "WriteRune":
		if n, ok := args[1].intVal(); ok && n >= 0 && n < 128 {
			add(CStr(string(rune(n))))
		} else {
			return false
		}
		set(Tuple(CInt(1), Nil(types.Universe.Lookup("error").Type())))
	case "String":
		r.noteRead(st, sbKey(b), ins.Pos())
		set(st.sbContent(b))
	case "Len":
		set(Len(st.sbContent(b)))
	case "Grow":
	case "Reset":
		st.mem[sbKey(b)] = CStr("")
		r.noteWrite(st, sbKey(b), ins.Pos())
	default:
		return false
	}
	return true
}
