package sa

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/load"
)

// Error discipline: from every call that reports an error, follow the paths on
// which the error is non-nil.  Each of them has to end by reporting an error.

var errorType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errorType) }

type errState struct {
	vals  map[ssa.Value]bool // error values known non-nil
	cells map[ssa.Value]bool // addresses known to hold a non-nil error
	bools map[ssa.Value]bool // booleans whose value is known
	call  *ssa.Call          // the failing call, until it is made again
}

func (s *errState) clone() *errState {
	n := &errState{map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, s.call}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.bools {
		n.bools[k] = v
	}
	return n
}

func (s *errState) key() string {
	var k []string
	for v := range s.vals {
		k = append(k, "v"+v.Name())
	}
	for v := range s.cells {
		k = append(k, "c"+v.Name())
	}
	for v, b := range s.bools {
		k = append(k, fmt.Sprintf("b%s%v", v.Name(), b))
	}
	sort.Strings(k)
	if s.call != nil {
		k = append(k, "!")
	}
	return strings.Join(k, ",")
}

type errAnalysis struct {
	p      *load.Prog
	r      *Report
	always map[*ssa.Function]int
}

// alwaysErr: every return of f reports a non-nil error.
func (a *errAnalysis) alwaysErr(f *ssa.Function) bool {
	if v, ok := a.always[f]; ok {
		return v == 1
	}
	a.always[f] = 0
	if f.Blocks == nil {
		switch pkgPath(f) {
		case "errors", "fmt", "github.com/pkg/errors":
		}
		return false
	}
	n := 0
	st := &errState{map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, nil}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(ret.Results) == 0 {
				return false
			}
			v := ret.Results[len(ret.Results)-1]
			if !isErr(v.Type()) || !a.nonNil(st, v) {
				return false
			}
			n++
		}
	}
	if n > 0 {
		a.always[f] = 1
	}
	return n > 0
}

func (a *errAnalysis) nonNil(s *errState, v ssa.Value) bool {
	if s.vals[v] {
		return true
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return a.nonNil(s, v.X)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if g, ok := v.X.(*ssa.Global); ok && isErr(g.Type().(*types.Pointer).Elem()) {
				return true
			}
		}
	case *ssa.Call:
		if !isErr(v.Type()) {
			return false
		}
		pk, _, name := calleeID(v.Common())
		switch pk {
		case "errors", "github.com/pkg/errors", "fmt":
			switch name {
			case "New", "Errorf":
				return true
			}
		}
		for _, x := range v.Call.Args {
			if isErr(x.Type()) && a.nonNil(s, x) {
				return true
			}
		}
		if f := v.Call.StaticCallee(); f != nil && a.alwaysErr(f) {
			return true
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok && isErr(v.Type()) {
			if f := c.Call.StaticCallee(); f != nil && a.alwaysErr(f) {
				return true
			}
			for _, x := range c.Call.Args {
				if isErr(x.Type()) && a.nonNil(s, x) {
					return true
				}
			}
		}
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// known evaluates a boolean under the assumptions of the state.
func (a *errAnalysis) known(s *errState, v ssa.Value) (val, ok bool) {
	if b, ok := s.bools[v]; ok {
		return b, true
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Bool {
			return constant.BoolVal(v.Value), true
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			b, ok := a.known(s, v.X)
			return !b, ok
		}
	case *ssa.BinOp:
		if v.Op != token.EQL && v.Op != token.NEQ {
			return false, false
		}
		x, y := v.X, v.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if isNilConst(y) && isErr(x.Type()) {
			if a.nonNil(s, x) {
				return v.Op == token.NEQ, true
			}
		}
	}
	return false, false
}

func resultError(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() > 0 && isErr(r.At(r.Len()-1).Type())
}

// explore follows all paths from an instruction; bad is called for a return that reports nothing.
func (a *errAnalysis) explore(b *ssa.BasicBlock, i int, s *errState, bad func(ret *ssa.Return, s *errState)) {
	seen := map[string]bool{}
	var walk func(b *ssa.BasicBlock, i int, s *errState)
	enter := func(from, to *ssa.BasicBlock, s *errState) {
		n := s.clone()
		idx := -1
		for k, p := range to.Preds {
			if p == from {
				idx = k
				break
			}
		}
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			e := ph.Edges[idx]
			delete(n.vals, ph)
			delete(n.bools, ph)
			if isErr(ph.Type()) {
				if a.nonNil(s, e) {
					n.vals[ph] = true
				}
			} else if bt, ok := ph.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
				if v, ok := a.known(s, e); ok {
					n.bools[ph] = v
				}
			}
		}
		k := fmt.Sprintf("%d|%s", to.Index, n.key())
		if seen[k] {
			return
		}
		seen[k] = true
		walk(to, 0, n)
	}
	walk = func(b *ssa.BasicBlock, i int, s *errState) {
		for ; i < len(b.Instrs); i++ {
			switch in := b.Instrs[i].(type) {
			case *ssa.Phi:
			case *ssa.Return:
				bad(in, s)
				return
			case *ssa.Panic:
				return
			case *ssa.Store:
				if !isErr(in.Val.Type()) {
					continue
				}
				switch in.Addr.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					if a.nonNil(s, in.Val) {
						s.cells[in.Addr] = true
					} else {
						delete(s.cells, in.Addr)
					}
				default:
					if a.nonNil(s, in.Val) {
						return // kept in a data structure
					}
				}
			case *ssa.UnOp:
				if in.Op == token.MUL && isErr(in.Type()) {
					if s.cells[in.X] {
						s.vals[in] = true
					} else {
						delete(s.vals, in)
					}
				}
			case *ssa.If:
				v, ok := a.known(s, in.Cond)
				if !ok || v {
					enter(b, b.Succs[0], s)
				}
				if !ok || !v {
					n := s
					enter(b, b.Succs[1], n)
				}
				return
			case *ssa.Jump:
				enter(b, b.Succs[0], s)
				return
			case ssa.Value:
				delete(s.vals, in)
				delete(s.bools, in)
				if c, ok := in.(*ssa.Call); ok && c == s.call {
					s.call = nil
				}
				if e, ok := in.(*ssa.Extract); ok && s.call != nil && e.Tuple == s.call && isErr(e.Type()) {
					s.vals[e] = true
				}
				if bt, ok := in.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
					if v, ok := a.known(s, in); ok {
						s.bools[in] = v
					}
				}
			}
		}
	}
	walk(b, i, s.clone())
}

// documented reports call sites whose failure is part of the documented outcome, or that cannot fail.
func (a *errAnalysis) documented(f *ssa.Function, c *ssa.Call) (string, bool) {
	pk, recv, name := calleeID(c.Common())
	fp := pkgPath(f)
	switch {
	case name == "Write" && (strings.HasPrefix(recv, "hash.") || pk == "io" || pk == "hash" || strings.HasPrefix(pk, "crypto/")):
		return "a hash never fails to write", true
	case strings.HasPrefix(name, "Write") && (recv == "*bytes.Buffer" || recv == "*strings.Builder"):
		return "an in-memory buffer never fails to write", true
	case pk == "encoding/hex" && allConst(c.Call.Args):
		return "constant input", true
	case pk == "crypto/rand" || strings.HasPrefix(pk, "fmt") && name != "Errorf":
		return "standard output", strings.HasPrefix(pk, "fmt")
	case name == "SumOfProducts" && len(c.Call.Args) == 3 && constLen(c.Call.Args[1]) > 0 && constLen(c.Call.Args[1]) == constLen(c.Call.Args[2]):
		return "lists of equal length", true
	case fp == load.Module+"/complaints" && name == "DecryptAndCheck":
		return "a failing dealing is what a complaint is about", true
	case fp == load.Module+"/curve" && name == "Deserialize" && !resultError(f) && takesRand(f):
		return "rejection sampling draws again", true
	case pk == load.Module+"/ro" && strings.HasPrefix(name, "Add") && !c.Call.IsInvoke():
		if k, ok := c.Call.Args[1].(*ssa.Const); ok && k.Value != nil {
			nm := constant.StringVal(k.Value)
			if len(nm) == 0 || len(nm) > 255 {
				return "", false
			}
			if reaches(c.Block(), c.Block()) {
				return "", false
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					d, ok := in.(*ssa.Call)
					if !ok || d == c {
						continue
					}
					p2, _, n2 := calleeID(d.Common())
					if p2 != pk || !strings.HasPrefix(n2, "Add") || len(d.Call.Args) < 2 || d.Call.Args[0] != c.Call.Args[0] {
						continue
					}
					k2, ok := d.Call.Args[1].(*ssa.Const)
					if !ok || k2.Value == nil || constant.StringVal(k2.Value) == nm {
						if b == c.Block() || reaches(b, c.Block()) || reaches(c.Block(), b) {
							return "", false
						}
					}
				}
			}
			return "distinct constant input names", true
		}
	}
	return "", false
}

// constLen is the length of a slice of a fixed array, or 0.
func constLen(v ssa.Value) int64 {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return 0
	}
	if pt, ok := sl.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			return at.Len()
		}
	}
	return 0
}

func takesRand(f *ssa.Function) bool {
	for _, p := range f.Params {
		if n, ok := p.Type().(*types.Named); ok && n.Obj().Name() == "Rand" {
			return true
		}
	}
	return false
}

func allConst(args []ssa.Value) bool {
	for _, x := range args {
		if _, ok := x.(*ssa.Const); !ok {
			return false
		}
	}
	return true
}

func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var w []*ssa.BasicBlock
	w = append(w, from.Succs...)
	for len(w) > 0 {
		b := w[len(w)-1]
		w = w[:len(w)-1]
		if b == to {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		w = append(w, b.Succs...)
	}
	return false
}

// Errors checks that no failure is swallowed.
// Empty checks every return for giving neither a result nor an error.
func Empty(p *load.Prog) *Report {
	a := &errAnalysis{p: p, r: NewReport(), always: map[*ssa.Function]int{}}
	for _, f := range p.Funcs {
		a.r.Counts["functions"]++
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Return); ok {
					a.neither(f, c)
				}
			}
		}
	}
	a.r.Sort()
	return a.r
}

func Errors(p *load.Prog) *Report {
	a := &errAnalysis{p: p, r: NewReport(), always: map[*ssa.Function]int{}}
	r := a.r
	for _, f := range p.Funcs {
		r.Counts["functions"]++
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				switch c := in.(type) {
				case *ssa.Call:
					res := c.Call.Signature().Results()
					if res.Len() > 0 && isErr(res.At(res.Len()-1).Type()) {
						a.site(f, b, i, c, res.Len())
					}
					// Closures handed to the callee may leave an error in a captured variable.
					a.closures(f, b, i, c)
				case *ssa.Return:
					a.neither(f, c)
				}
			}
		}
	}
	r.Floor("error-reporting calls", 60)
	r.Floor("functions", 200)
	r.Sort()
	return r
}

func (a *errAnalysis) site(f *ssa.Function, b *ssa.BasicBlock, i int, c *ssa.Call, n int) {
	pk, _, name := calleeID(c.Common())
	if pk == "github.com/pkg/errors" || pk == "errors" || pk == "fmt" {
		return
	}
	if cf := c.Call.StaticCallee(); cf != nil && n == 1 && a.alwaysErr(cf) {
		return // an error constructor
	}
	a.r.Counts["error-reporting calls"]++
	if why, ok := a.documented(f, c); ok {
		a.r.Counts["documented outcomes: "+why]++
		return
	}
	s := &errState{map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, nil}
	if n == 1 {
		s.vals[c] = true
	}
	s.call = c
	j := i + 1
	where := a.p.Pos(c.Pos())
	a.explore(b, j, s, func(ret *ssa.Return, s *errState) {
		a.r.Counts["failure paths"]++
		if a.reports(f, ret, s) {
			return
		}
		defer func() {
			x := &a.r.Findings[len(a.r.Findings)-1]
			x.Site, x.Fn = a.p.Fset.Position(c.Pos()).String(), load.FuncName(f)
		}()
		a.r.Add("error-swallowed", where, "%s: the error of %s does not reach the caller on the path to the return at %s", load.FuncName(f), name, a.p.Pos(ret.Pos()))
	})
}

// reports: the return tells the caller about the failure.
func (a *errAnalysis) reports(f *ssa.Function, ret *ssa.Return, s *errState) bool {
	for c := range s.cells {
		if _, ok := c.(*ssa.FreeVar); ok {
			return a.keeps(f, c.(*ssa.FreeVar), ret, s)
		}
	}
	if n := len(ret.Results); n > 0 {
		v := ret.Results[n-1]
		if isErr(v.Type()) {
			return a.nonNil(s, v)
		}
		for _, v := range ret.Results {
			if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
				if b, ok := a.known(s, v); ok && !b {
					return true
				}
			}
		}
	}
	return false
}

// keeps: a callback that left an error in a captured variable stops the iteration or never overwrites it.
func (a *errAnalysis) keeps(f *ssa.Function, fv *ssa.FreeVar, ret *ssa.Return, s *errState) bool {
	if len(ret.Results) == 1 {
		if b, ok := a.known(s, ret.Results[0]); ok && !b {
			return true
		}
	}
	ok := true
	st := &errState{map[ssa.Value]bool{}, map[ssa.Value]bool{fv: true}, map[ssa.Value]bool{}, nil}
	a.explore(f.Blocks[0], 0, st, func(ret *ssa.Return, s *errState) {
		if !s.cells[fv] {
			ok = false
		}
	})
	return ok
}

func (a *errAnalysis) closures(f *ssa.Function, b *ssa.BasicBlock, i int, c *ssa.Call) {
	for _, x := range append([]ssa.Value{c.Call.Value}, c.Call.Args...) {
		mc, ok := x.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		fn := mc.Fn.(*ssa.Function)
		for k, bind := range mc.Bindings {
			pt, ok := bind.Type().(*types.Pointer)
			if !ok || !isErr(pt.Elem()) || !storesErr(fn, fn.FreeVars[k]) {
				continue
			}
			a.r.Counts["errors captured by callbacks"]++
			s := &errState{map[ssa.Value]bool{}, map[ssa.Value]bool{bind: true}, map[ssa.Value]bool{}, nil}
			a.explore(b, i+1, s, func(ret *ssa.Return, s *errState) {
				a.r.Counts["failure paths"]++
				if a.reports(f, ret, s) {
					return
				}
				a.r.Add("error-swallowed", a.p.Pos(c.Pos()), "%s: an error left by the callback does not reach the caller on the path to the return at %s", load.FuncName(f), a.p.Pos(ret.Pos()))
			})
		}
	}
}

func storesErr(f *ssa.Function, fv *ssa.FreeVar) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == fv && !isNilConst(s.Val) {
				return true
			}
		}
	}
	return false
}

// neither: a return that gives neither a result nor an error.
func (a *errAnalysis) neither(f *ssa.Function, ret *ssa.Return) {
	n := len(ret.Results)
	if n < 2 || !isErr(ret.Results[n-1].Type()) {
		return
	}
	a.r.Counts["result-or-error returns"]++
	nilable := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map:
			return true
		}
		return false
	}
	bad := func(res, err ssa.Value) bool {
		return isNilConst(err) && isNilConst(res) && nilable(res.Type())
	}
	e := ret.Results[n-1]
	for _, r := range ret.Results[:n-1] {
		if bad(r, e) {
			a.r.Add("neither-result-nor-error", a.p.Pos(ret.Pos()), "%s returns neither a result nor an error", load.FuncName(f))
			return
		}
		rp, ok1 := r.(*ssa.Phi)
		ep, ok2 := e.(*ssa.Phi)
		for k := 0; ; k++ {
			rv, ev := r, e
			switch {
			case ok1 && ok2 && rp.Block() == ep.Block():
				if k >= len(rp.Edges) {
					rv = nil
				} else {
					rv, ev = rp.Edges[k], ep.Edges[k]
				}
			case ok1 && isNilConst(e):
				if k >= len(rp.Edges) {
					rv = nil
				} else {
					rv = rp.Edges[k]
				}
			default:
				rv = nil
			}
			if rv == nil {
				return
			}
			if bad(rv, ev) {
				if rp != nil && k < len(rp.Block().Preds) && exhausted(a.p, rp.Block().Preds[k], rp.Block()) {
					a.r.Counts["exhausted type switches"]++
					continue
				}
				a.r.Add("neither-result-nor-error", a.p.Pos(ret.Pos()), "%s may return neither a result nor an error", load.FuncName(f))
				return
			}
		}
	}
}
