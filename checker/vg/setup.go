package vg

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
	"verif/checker/load"
)

// New prepares an analysis of a program: library types, dynamic types of
// interfaces, package initialisation.
func New(p *load.Prog, low bool) *Eng {
	Reset()
	factMemo = map[*T]*facts{}
	Low = low
	e := &Eng{P: p, fnIdx: map[*ssa.Function]int{}, info: map[*ssa.Function]*fnInfo{}, Notes: map[string]int{}, cands: map[string][]types.Type{}, Used: map[string]int{}, budget: 400000, seenFns: map[*ssa.Function]bool{}, Contracts: defaultContracts(), noContract: map[string]bool{}}
	TyScalar, TyPoint, TyField = p.Type("curve", "Secp256k1Scalar"), p.Type("curve", "Secp256k1Point"), p.Type("curve", "Secp256k1Field")
	ptr := func(t types.Type) types.Type {
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	TyScalarP, TyPointP, TyFieldP = ptr(TyScalar), ptr(TyPoint), ptr(TyField)
	TyEccScalar, TyEccPoint, TyEccField = p.Type("curve", "EccScalar"), p.Type("curve", "EccPoint"), p.Type("curve", "EccFieldElement")
	TyNodeIndex = p.Type("common", "NodeIndex")
	TyCipher = nil
	if q := p.Pkgs["golang.org/x/crypto/chacha20"]; q != nil && q.Types != nil {
		if o := q.Types.Scope().Lookup("Cipher"); o != nil {
			TyCipher = o.Type()
		}
	}
	e.findCands()
	IfaceCands = func(t types.Type) []types.Type { return e.cands[types.TypeString(t, nil)] }
	e.Base = &state{pc: True, mem: map[*T]*T{}, env: map[ssa.Value]*T{}}
	if low {
		e.lowSetup(p)
	}
	e.initPackages()
	baseMem = e.Base.mem
	return e
}

// findCands: the dynamic types of a library interface are the types the
// library converts to it or asks for.
func (e *Eng) findCands() {
	add := func(it, ct types.Type) {
		n, ok := it.(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !load.IsLib(n.Obj().Pkg().Path()) {
			return
		}
		k := types.TypeString(it, nil)
		for _, x := range e.cands[k] {
			if types.Identical(x, ct) {
				return
			}
		}
		e.cands[k] = append(e.cands[k], ct)
	}
	for _, f := range e.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeInterface); ok {
					add(m.Type(), m.X.Type())
				}
				if m, ok := in.(*ssa.TypeAssert); ok && !types.IsInterface(m.AssertedType) {
					add(m.X.Type(), m.AssertedType)
				}
			}
		}
	}
	if t := e.P.Type("rand", "ChaCha20"); t != nil {
		e.cands["crypto/cipher.Stream"] = []types.Type{types.NewPointer(t)}
	}
	for k := range e.cands {
		c := e.cands[k]
		sort.Slice(c, func(i, j int) bool { return types.TypeString(c[i], nil) < types.TypeString(c[j], nil) })
	}
}

// initPackages interprets the initialisers of package variables.
func (e *Eng) initPackages() {
	var names []string
	for _, q := range e.P.Lib {
		names = append(names, q.PkgPath)
	}
	done := map[string]bool{}
	var visit func(path string)
	visit = func(path string) {
		if done[path] || !load.IsLib(path) {
			return
		}
		done[path] = true
		q := e.P.Pkgs[path]
		var imps []string
		for i := range q.Imports {
			imps = append(imps, q.Imports[i].PkgPath)
		}
		sort.Strings(imps)
		for _, i := range imps {
			visit(i)
		}
		sp := e.P.SPkg[path]
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				t := globTerm(g)
				e.Base.mem[t.a[0]] = zeroOf(t.a[0].ty)
			}
		}
		f := sp.Func("init")
		if f == nil || f.Blocks == nil {
			return
		}
		st := e.Base.clone()
		why := e.attempt(func() { e.runInit(st, f) })
		if why != "" {
			e.note("initialiser of " + path + ": " + why)
		}
		e.Base.mem = st.mem
	}
	for _, n := range names {
		visit(n)
	}
	e.Mut, e.Panics = nil, nil
}

// runInit interprets the straight-line part of a package initialiser.
func (e *Eng) runInit(st *state, f *ssa.Function) {
	e.stack = append(e.stack, f)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi, *ssa.DebugRef:
			case *ssa.Call:
				if g := in.Call.StaticCallee(); g != nil && g.Name() == "init" && g.Signature.Recv() == nil {
					continue
				}
				st.env[in] = e.call(st, f, &in.Call, in.Pos())
			case *ssa.Store:
				if g, ok := in.Addr.(*ssa.Global); ok && g.Name() == "init$guard" {
					continue
				}
				e.store(st, e.val(st, in.Addr), e.val(st, in.Val), f, in.Pos())
			case *ssa.MapUpdate:
				e.mapUpdate(st, f, in)
			case ssa.Value:
				if u, ok := in.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && g.Name() == "init$guard" {
						continue
					}
				}
				st.env[in] = e.eval(st, f, in)
			}
		}
	}
}

// Outcome is the abstract result of one analysed function.
type Outcome struct {
	Fn     *ssa.Function
	St     *state
	Ret    *T     // result (tuple when several)
	PC     *T     // condition under which it returns
	Why    string // non-empty: not decided
	Mut    []Mutation
	Panics []PanicPt
	Args   []*T
}

// Run analyses f on symbolic or given arguments; args may contain nil entries
// for symbolic ones named after the parameters.
func (e *Eng) Run(f *ssa.Function, args map[string]*T) (o *Outcome) {
	o = &Outcome{Fn: f}
	st := e.Base.clone()
	if e.Given != nil {
		st.pc = And(st.pc, e.Given)
	}
	e.Mut, e.Panics, e.stack = nil, nil, nil
	var as []*T
	for i, p := range f.Params {
		if v, ok := args[p.Name()]; ok {
			as = append(as, v)
			continue
		}
		if v, ok := args[argKey(i)]; ok {
			as = append(as, v)
			continue
		}
		as = append(as, SymArg(f, i))
	}
	o.Args = as
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				o.Why = u.why
				return
			}
			if Debug {
				panic(r)
			}
			o.Why = fmt.Sprintf("analysis error: %v", r)
		}
	}()
	o.Ret = e.CallFn(st, f, as, nil)
	o.St = st
	o.PC = st.pc
	o.Mut, o.Panics = e.Mut, e.Panics
	return
}

func argKey(i int) string { return string(rune('0' + i)) }

// SymArg is the symbolic value of parameter i, a path "a<i>".
func SymArg(f *ssa.Function, i int) *T {
	return SymValue(mks(SPRoot, "a"+argKey(i)), f.Params[i].Type())
}
