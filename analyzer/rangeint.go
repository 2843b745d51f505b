package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"

	"golang.org/x/tools/go/packages"
)

// A range over an integer is lowered to a loop tested at the bottom. It is read as the
// equivalent counting loop, so that both spellings are the same loop to the analysis.
func rangeIntOverlay(pkgs []*packages.Package) map[string][]byte {
	out := map[string][]byte{}
	n := 0
	for _, p := range pkgs {
		for fi, f := range p.Syntax {
			if fi >= len(p.CompiledGoFiles) {
				break
			}
			type edit struct {
				at, end int
				s       string
			}
			var eds []edit
			ast.Inspect(f, func(x ast.Node) bool {
				r, ok := x.(*ast.RangeStmt)
				if !ok || r.Value != nil {
					return true
				}
				tv, ok := p.TypesInfo.Types[r.X]
				if !ok {
					return true
				}
				b, ok := tv.Type.Underlying().(*types.Basic)
				if !ok || b.Info()&types.IsInteger == 0 {
					return true
				}
				t := b.Name()
				if _, named := types.Unalias(tv.Type).(*types.Named); named {
					return true
				}
				if b.Info()&types.IsUntyped != 0 {
					t = "int"
				}
				var v, bind string
				if id, ok := r.Key.(*ast.Ident); ok && id.Name != "_" {
					v = id.Name
					op := " := "
					if r.Tok.String() == "=" {
						op = " = "
					}
					// the count's type for an untyped constant is the variable's
					if o := p.TypesInfo.ObjectOf(id); o != nil {
						if ob, ok := o.Type().(*types.Basic); ok {
							t = ob.Name()
						} else {
							return true
						}
					}
					n++
					bind = fmt.Sprintf(" %s%szzi%d; _ = %s;", v, op, n, v)
				} else if r.Key != nil && !ok {
					return true
				} else {
					n++
				}
				off := func(pos ast.Node) int { return p.Fset.Position(pos.Pos()).Offset }
				eds = append(eds, edit{p.Fset.Position(r.For).Offset + 3, off(r.X), fmt.Sprintf(" zzi%d, zzn%d := %s(0), %s(", n, n, t, t)})
				e := p.Fset.Position(r.X.End()).Offset
				eds = append(eds, edit{e, e, fmt.Sprintf("); zzi%d < zzn%d; zzi%d++", n, n, n)})
				l := p.Fset.Position(r.Body.Lbrace).Offset + 1
				if bind != "" {
					eds = append(eds, edit{l, l, bind})
				}
				return true
			})
			if len(eds) == 0 {
				continue
			}
			name := p.CompiledGoFiles[fi]
			src, err := os.ReadFile(name)
			if err != nil {
				continue
			}
			for i := range eds {
				for j := i + 1; j < len(eds); j++ {
					if eds[j].at > eds[i].at {
						eds[i], eds[j] = eds[j], eds[i]
					}
				}
			}
			s := string(src)
			for _, e := range eds {
				s = s[:e.at] + e.s + s[e.end:]
			}
			out[name] = []byte(s)
		}
	}
	return out
}
