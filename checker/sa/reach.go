package sa

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/load"
)

// Reaches: calls starting at f can get to a function of the given names
// (function values count as called, interface calls go to every method of that name).
func Reaches(p *load.Prog, f *ssa.Function, names map[string]bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if names[load.FuncName(f)] {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						if walk(v) {
							return true
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					m := c.Common().Method
					for _, g := range p.Funcs {
						if g.Name() == m.Name() && g.Signature.Recv() != nil && types.Identical(sigOf(g), sigOfM(m)) && walk(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

func sigOf(f *ssa.Function) types.Type {
	s := f.Signature
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func sigOfM(m *types.Func) types.Type {
	s := m.Type().(*types.Signature)
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}
