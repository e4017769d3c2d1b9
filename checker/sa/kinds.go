package sa

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
	"verif/checker/load"
)

// implementors lists the concrete types that the library converts to an interface type.
func implementors(p *load.Prog, iface types.Type) []types.Type {
	var out []types.Type
	add := func(t types.Type) {
		for _, o := range out {
			if types.Identical(o, t) {
				return
			}
		}
		out = append(out, t)
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok && types.Identical(mi.Type(), iface) {
					add(mi.X.Type())
				}
			}
		}
	}
	return out
}

// exhausted: the edge is taken only by a value of a type that no library value of the interface has.
func exhausted(p *load.Prog, from, to *ssa.BasicBlock) bool {
	seen := map[ssa.Value][]types.Type{}
	b, next := from, to
	for n := 0; n < 100; n++ {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[1] == next {
			if e, ok := iff.Cond.(*ssa.Extract); ok && e.Index == 1 {
				if ta, ok := e.Tuple.(*ssa.TypeAssert); ok {
					seen[ta.X] = append(seen[ta.X], ta.AssertedType)
				}
			}
		}
		if len(b.Preds) != 1 {
			break
		}
		next, b = b, b.Preds[0]
	}
	for x, ts := range seen {
		impl := implementors(p, x.Type())
		all := len(impl) > 0
		for _, t := range impl {
			found := false
			for _, u := range ts {
				if types.Identical(t, u) {
					found = true
				}
			}
			all = all && found
		}
		if all {
			return true
		}
	}
	return false
}
