package vg

import (
	_ "embed"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/checker/load"
)

// A Case is one obligation, stated as a function of a specification file.
//
//	//vg: spec (pkg.)Type.Method props=C01,C02 sizes=0,1,2
//
// states that on every input on which the specification function returns, the
// named library function returns too (it does not panic), with the same
// success or failure, the same results and the same effect on its arguments.
//
//	//vg: law props=C01
//
// states that the function, which calls the library, returns true on every
// input that satisfies its zzAssume conditions, and that nothing it calls
// panics.
type Case struct {
	Kind  string // spec, law
	Name  string
	Impl  string
	Props []string
	Sizes []int64
	Low   bool
	Tier  string // thorough: only in the thorough tier
	No    []string
	Max   time.Duration
	Inst  []string
	Fn    *ssa.Function
	Opts  map[string]string
}

func (c *Case) has(p string) bool {
	for _, x := range c.Props {
		if x == p {
			return true
		}
	}
	return false
}

// Verdict of one case.
type Verdict struct {
	Case   *Case
	Status string // held, differs, undecided
	How    string
	Pos    string
	Msg    string
	Dur    time.Duration
	Calls  int
	Loops  int
	Shapes int
	Fns    map[string]bool
}

// Cases lists the obligations of a loaded program.
func Cases(p *load.Prog) ([]*Case, error) {
	var out []*Case
	for _, f := range p.Specs {
		d, ok := p.Docs[f.Pkg.Pkg.Path()+"."+f.Name()]
		if !ok {
			continue
		}
		c := &Case{Name: load.FuncName(f), Fn: f, Opts: map[string]string{}, Max: 60 * time.Second}
		for i, w := range strings.Fields(d) {
			k, v, eq := strings.Cut(w, "=")
			switch {
			case i == 0:
				c.Kind = w
			case !eq && w == "low":
				c.Low = true
			case !eq && w == "thorough":
				c.Tier = w
			case !eq:
				c.Impl = w
			case k == "props":
				c.Props = strings.Split(v, ",")
			case k == "sizes":
				for _, s := range strings.Split(v, ",") {
					n, err := strconv.ParseInt(s, 10, 64)
					if err != nil {
						return nil, err
					}
					c.Sizes = append(c.Sizes, n)
				}
			case k == "no":
				c.No = strings.Split(v, ",")
			case k == "inst":
				c.Inst = append(c.Inst, v)
			case k == "max":
				dd, err := time.ParseDuration(v)
				if err != nil {
					return nil, err
				}
				c.Max = dd
			default:
				c.Opts[k] = v
			}
		}
		if c.Kind == "spec" && !strings.Contains(c.Impl, ".") {
			c.Impl = f.Pkg.Pkg.Name() + "." + c.Impl
		} else if c.Kind == "spec" && strings.Count(c.Impl, ".") == 1 && c.Fn.Pkg.Pkg.Name() != strings.SplitN(c.Impl, ".", 2)[0] {
			c.Impl = f.Pkg.Pkg.Name() + "." + c.Impl
		}
		out = append(out, c)
	}
	return out, nil
}

// implOf finds the library function; receivers may be pointers or values.
func implOf(p *load.Prog, name string) *ssa.Function { return p.Func(name) }

// shape fixes the sizes of the containers of an analysis.
type shape struct {
	uniform int // which type elements have, from 1; 0 for any
	kinds   int // how many types elements may have
	n       int64
	skew    bool
	per     map[string]int64
}

func (s *shape) size(path *T) int64 {
	if s.per != nil {
		if n, ok := s.per[elemName(path)]; ok {
			return n
		}
		if n, ok := s.per[pathName(path)]; ok {
			return n
		}
		if n, ok := s.per[PathRoot(path)]; ok {
			return n
		}
	}
	if s.skew {
		// unequal sizes: a container reached from a later argument or field is shorter
		h := 0
		for p := path; p != nil; {
			h += int(p.n)
			if p.op == SPRoot {
				h += int(p.s[len(p.s)-1] - '0')
			}
			if len(p.a) == 0 {
				break
			}
			p = p.a[0]
		}
		if h%2 == 1 && s.n > 0 {
			return s.n - 1
		}
	}
	return s.n
}

// pathName prints a path without indices: a1.2.0
func pathName(p *T) string {
	switch p.op {
	case SPRoot:
		return p.s
	case SPFld:
		return pathName(p.a[0]) + "." + strconv.FormatInt(p.n, 10)
	}
	if len(p.a) > 0 {
		return pathName(p.a[0])
	}
	return "?"
}

// elemName is pathName with the steps from a container to its elements: a1[].2
func elemName(p *T) string {
	switch p.op {
	case SPRoot:
		return p.s
	case SPFld:
		return elemName(p.a[0]) + "." + strconv.FormatInt(p.n, 10)
	case SPIdx, SPVal:
		return elemName(p.a[0]) + "[]"
	}
	if len(p.a) > 0 {
		return elemName(p.a[0])
	}
	return "?"
}

func setShape(s *shape) {
	if s == nil {
		HintLen, HintMap, HintDyn = nil, nil, nil
		return
	}
	HintLen = func(path *T, t types.Type) (int64, bool) {
		if t == nil {
			return 0, false
		}
		if isByteSlice(t) || isString(t) {
			if s.per != nil {
				if n, ok := s.per[pathName(path)]; ok {
					return n, true
				}
			}
			return 0, false
		}
		if _, ok := t.Underlying().(*types.Slice); !ok {
			return 0, false
		}
		return s.size(path), true
	}
	HintMap = func(path *T, t types.Type) (int64, bool) { return s.size(path), true }
	HintDyn = nil
	if s.uniform > 0 {
		HintDyn = func(path *T, t types.Type) types.Type {
			cs := IfaceCands(t)
			if len(cs) < 2 || !hasIndex(path) {
				return nil
			}
			if len(cs) > s.kinds {
				s.kinds = len(cs)
			}
			return cs[(s.uniform-1)%len(cs)]
		}
	}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// CheckCase decides one obligation.
func CheckCase(p *load.Prog, c *Case) *Verdict {
	start := time.Now()
	v := &Verdict{Case: c, Status: "undecided", Pos: p.Pos(c.Fn.Pos()), Fns: map[string]bool{}}
	defer func() { v.Dur = time.Since(start); setShape(nil); Deadline = time.Time{} }()
	if c.Kind == "spec" {
		f := implOf(p, c.Impl)
		if f == nil {
			v.Msg = "no function " + c.Impl
			return v
		}
		v.Pos = p.Pos(f.Pos())
		if f.Signature.Recv() == nil && !types.Identical(stripRecv(f), c.Fn.Signature) || f.Signature.Recv() != nil && len(f.Params) != len(c.Fn.Params) {
			v.Msg = "signature of " + c.Impl + " changed"
			return v
		}
		for i := range f.Params {
			if !types.Identical(f.Params[i].Type(), c.Fn.Params[i].Type()) {
				v.Msg = "signature of " + c.Impl + " changed"
				return v
			}
		}
	}
	var shapes []*shape
	if c.Opts["general"] != "no" {
		shapes = append(shapes, nil)
	}
	for _, n := range c.Sizes {
		shapes = append(shapes, &shape{n: n})
		if n > 0 && len(c.Fn.Params) > 0 && c.Opts["skew"] != "no" {
			shapes = append(shapes, &shape{n: n, skew: true})
		}
	}
	for _, in := range c.Inst {
		s := &shape{per: map[string]int64{}}
		for _, kv := range strings.Split(in, ",") {
			k, n, _ := strings.Cut(kv, ":")
			x, _ := strconv.ParseInt(n, 10, 64)
			if k == "rest" {
				s.n = x
				continue
			}
			s.per[k] = x
		}
		shapes = append(shapes, s)
	}
	var und []string
	held, vac := 0, 0
	for _, s := range shapes {
		Deadline = time.Now().Add(c.Max)
		r := checkShape(p, c, s, v)
		if Verbose {
			fmt.Fprintf(os.Stderr, "   %s shape %s: %s %s\n", c.Name, s.String(), r.status, clip(r.msg, 600))
		}
		v.Shapes++
		switch r.status {
		case "held":
			held++
			if s == nil {
				v.Status, v.How = "held", "for all sizes"
				return v
			}
		case "vacuous":
			vac++
		case "differs":
			v.Status, v.Msg = "differs", r.msg
			v.How = s.String()
			if r.pos != "" {
				v.Pos = r.pos
			}
			return v
		default:
			und = append(und, s.String()+": "+r.msg)
		}
	}
	if held+vac == len(shapes)-btoi(c.Opts["general"] != "no") && held > 0 {
		v.Status, v.How = "held", "for the listed shapes"
		var sz []string
		for _, s := range shapes {
			if s != nil {
				sz = append(sz, s.String())
			}
		}
		v.How += " (" + strings.Join(sz, "; ") + ")"
	}
	v.Msg = clip(strings.Join(und, " | "), 800)
	if v.Status == "held" && time.Since(start) < 4*time.Second && (Deep || !listed[c.Name]) {
		// nothing is known of larger sizes: look for a difference in a few
		// (in the largest, all elements have the same dynamic type)
		for u := 0; u <= 4; u++ {
			s := &shape{n: 5}
			if u > 0 {
				s = &shape{n: 9, uniform: u}
			}
			Deadline = time.Now().Add(6 * time.Second)
			r := checkShape(p, c, s, v)
			if Verbose {
				fmt.Fprintf(os.Stderr, "   %s further shape %s: %s %s\n", c.Name, s.String(), r.status, clip(r.msg, 600))
			}
			if r.status == "differs" {
				v.Status, v.Msg, v.How = "differs", r.msg, s.String()
				if r.pos != "" {
					v.Pos = r.pos
				}
				return v
			}
			if u > 0 && s.kinds <= u {
				break
			}
		}
	}
	return v
}

// listed: the obligations that are only decided for the listed shapes as the
// library stands. The search for differences in larger shapes is for those that
// are decided for all sizes and no longer can be; for these it runs when Deep
// is set.
var listed = func() map[string]bool {
	m := map[string]bool{}
	for _, n := range strings.Fields(listedText) {
		m[n] = true
	}
	return m
}()

//go:embed listed.txt
var listedText string

// Deep asks for the search in larger shapes everywhere.
var Deep bool

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func stripRecv(f *ssa.Function) *types.Signature { return f.Signature }

func (s *shape) String() string {
	if s == nil {
		return "all sizes"
	}
	if s.per != nil {
		var ks []string
		for k, v := range s.per {
			ks = append(ks, fmt.Sprintf("%s:%d", k, v))
		}
		sort.Strings(ks)
		return "sizes " + strings.Join(ks, ",")
	}
	if s.skew {
		return fmt.Sprintf("uneven size %d", s.n)
	}
	return fmt.Sprintf("size %d", s.n)
}

func clip(s string, n int) string {
	if LitClip > 140 {
		n = 20000
	}
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Verbose prints every shape's outcome.
var Verbose bool

type shapeRes struct{ status, msg, pos string }

func checkShape(p *load.Prog, c *Case, s *shape, v *Verdict) (res shapeRes) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				res = shapeRes{"undecided", u.why, ""}
				return
			}
			if Debug {
				panic(r)
			}
			res = shapeRes{"undecided", fmt.Sprintf("analysis error: %v", r), ""}
		}
	}()
	e := New(p, c.Low)
	for _, n := range c.No {
		e.noContract[n] = true
	}
	setShape(s)
	o := e.Run(c.Fn, nil)
	defer func() {
		v.Calls += e.Calls
		v.Loops += e.Loops
		for f := range e.seenFns {
			v.Fns[load.FuncName(f)] = true
		}
	}()
	if o.Why != "" {
		return shapeRes{"undecided", "specification: " + o.Why, ""}
	}
	if Verbose {
		for _, pp := range o.Panics {
			fmt.Fprintf(os.Stderr, "      panic in %s %s: %s guard %s\n", load.FuncName(pp.Fn), p.Pos(pp.Pos), pp.What, clip(pp.Guard.String(), 300))
		}
	}
	if o.PC == False {
		return shapeRes{"vacuous", "the specification excludes this shape", ""}
	}
	if c.Kind == "law" {
		return e.decideLaw(c, o)
	}
	f := implOf(p, c.Impl)
	spec := o
	e.Given = given(o.Panics)
	i := e.Run(f, nil)
	e.Given = nil
	if i.Why != "" {
		return shapeRes{"undecided", i.Why, ""}
	}
	if Verbose {
		for _, pp := range i.Panics {
			fmt.Fprintf(os.Stderr, "      panic in %s %s: %s guard %s\n", load.FuncName(pp.Fn), p.Pos(pp.Pos), pp.What, clip(pp.Guard.String(), 300))
		}
	}
	return e.decideSpec(c, spec, i)
}

// results splits an outcome into its error condition and its values.
func (e *Eng) results(o *Outcome, sig *types.Signature) (ok *T, vals []*T, tys []types.Type) {
	ok = True
	n := sig.Results().Len()
	for k := 0; k < n; k++ {
		t := sig.Results().At(k).Type()
		x := o.Ret
		if n > 1 {
			k := k
			x = liftL1("res"+strconv.Itoa(k), o.Ret, func(r *T) *T {
				if r.op == OTuple && k < len(r.a) {
					return r.a[k]
				}
				return r
			})
		}
		if isErrorType(t) {
			ok = And(ok, liftL1("isnil", x, func(x *T) *T {
				switch {
				case x == Nil:
					return True
				case x == Err || x.op == OIface:
					return False
				}
				return e.eqVal(nil, x, Nil)
			}))
			continue
		}
		vals = append(vals, x)
		tys = append(tys, t)
	}
	return
}

func (e *Eng) decideSpec(c *Case, g, f *Outcome) shapeRes {
	care := And(g.PC, unlooped(g.Panics, false))
	// the library returns wherever the specification does
	und := ""
	fine := And(care, And(excused(g.Panics), excused(f.Panics)))
	for _, pp := range f.Panics {
		if pp.Excused {
			continue
		}
		if r := e.feasible(typed(And(fine, pp.Guard)), False); r.status == "definite" {
			return shapeRes{"differs", "may panic (" + pp.What + ") " + r.msg, e.P.Pos(pp.Pos)}
		} else if r.status == "undecided" {
			und = "panic " + pp.What + " at " + e.P.Pos(pp.Pos) + ": " + r.msg
		}
	}
	okg, vg_, _ := e.results(g, c.Fn.Signature)
	okf, vf, tys := e.results(f, f.Fn.Signature)
	care = And(care, And(f.PC, unlooped(f.Panics, true)))
	step := func(what string, guard, obl *T) *shapeRes {
		r := e.feasible(guard, obl)
		switch r.status {
		case "definite":
			return &shapeRes{"differs", what + ": " + r.msg, ""}
		case "undecided":
			und = what + ": " + r.msg
		}
		return nil
	}
	if c.Opts["ok"] == "only-if" {
		// the library may refuse more
		if r := step("accepts what the specification refuses", And(care, okf), okg); r != nil {
			return *r
		}
	} else if c.Opts["ok"] == "if" {
		if r := step("refuses what the specification accepts", And(care, okg), okf); r != nil {
			return *r
		}
	} else {
		if r := step("accepts what the specification refuses", And(care, okf), okg); r != nil {
			return *r
		}
		if r := step("refuses what the specification accepts", And(care, okg), okf); r != nil {
			return *r
		}
	}
	both := And(care, And(okg, okf))
	if both != False {
		e.viewed = map[*T]bool{}
		defer func() { e.viewed = nil }()
		for k := range vf {
			if k >= len(vg_) {
				break
			}
			eq := e.sameView(both, f.St, vf[k], g.St, vg_[k], tys[k])
			if r := step(fmt.Sprintf("result %d differs", k+1), both, eq); r != nil {
				return *r
			}
		}
		if c.Opts["args"] != "no" {
			for k, pr := range f.Fn.Params {
				if plainType(pr.Type()) || isString(pr.Type()) {
					continue
				}
				eq := e.sameView(both, f.St, f.Args[k], g.St, g.Args[k], pr.Type())
				if r := step(fmt.Sprintf("effect on argument %s differs", pr.Name()), both, eq); r != nil {
					return *r
				}
			}
			if why := e.hidden(f); why != "" {
				und = why
			}
		}
	}
	if und != "" {
		return shapeRes{"undecided", und, ""}
	}
	return shapeRes{"held", "", ""}
}

func (e *Eng) decideLaw(c *Case, o *Outcome) shapeRes {
	und := ""
	fine := excused(o.Panics)
	for _, pp := range o.Panics {
		if pp.Excused {
			continue
		}
		r := e.feasible(typed(And(fine, pp.Guard)), False)
		if r.status == "definite" {
			return shapeRes{"differs", "may panic (" + pp.What + ") " + r.msg, e.P.Pos(pp.Pos)}
		} else if r.status == "undecided" {
			und = "panic " + pp.What + " at " + e.P.Pos(pp.Pos) + ": " + r.msg
		}
	}
	if !isBool(o.Ret) {
		return shapeRes{"undecided", "law value is not a condition", ""}
	}
	r := e.feasible(And(o.PC, unlooped(o.Panics, true)), o.Ret)
	switch r.status {
	case "definite":
		return shapeRes{"differs", "the law fails: " + r.msg, ""}
	case "undecided":
		return shapeRes{"undecided", r.msg, ""}
	}
	for _, m := range o.Mut {
		if m.Root.op == OSObj && len(m.Root.fv) > 0 && m.Guard != False {
			und = "a write to " + clip(m.Root.String(), 120) + " in a loop is not followed"
		}
	}
	if und != "" {
		return shapeRes{"undecided", und, ""}
	}
	return shapeRes{"held", "", ""}
}

// sameView compares two values of type t in two states, under a condition.
func (e *Eng) sameView(pc *T, s1 *state, a *T, s2 *state, b *T, t types.Type) *T {
	c1, c2 := s1.clone(), s2.clone()
	c1.pc, c2.pc = And(s1.pc, pc), And(s2.pc, pc)
	x := restrict(e.View(c1, a, t), pc)
	y := restrict(e.View(c2, b, t), pc)
	return restrict(VEq(x, y), pc)
}

// VEq is the equality of two views.
func VEq(x, y *T) *T {
	if x == y {
		return True
	}
	return liftL2("veq", x, y, func(x, y *T) *T {
		if x == y {
			return True
		}
		if isBool(x) && isBool(y) {
			return Iff(x, y)
		}
		unk := func() *T { return UnkB(fmt.Sprintf("equality of %s%s and %s%s", opName(x), x.s, opName(y), y.s)) }
		if HasUnknown(x) != "" && x.op == OUF || HasUnknown(y) != "" && y.op == OUF {
			return unk()
		}
		// a zero structure written out
		switch {
		case isSeq(x.op) && isSeq(y.op):
			return seqVEq(x, y)
		case x.op == OZeroT || y.op == OZeroT:
			return unk()
		case x.op == Nil.op || y.op == Nil.op:
			if x.op == OIface || x.op == OStruct || x.op == ORing || x.op == OPt || x.op == OSlice || x.op == OMapL || x.op == OClo ||
				y.op == OIface || y.op == OStruct || y.op == ORing || y.op == OPt || y.op == OSlice || y.op == OMapL || y.op == OClo {
				return False
			}
			return unk()
		case x.op != y.op:
			return unk()
		}
		switch x.op {
		case OLin:
			return Eq(x, y)
		case ORing:
			if x.rg.m != y.rg.m {
				return False
			}
			return REq(x, y)
		case OPt:
			return PEq(x, y)
		case OStruct:
			if len(x.a) != len(y.a) {
				return unk()
			}
			r := True
			for i := range x.a {
				r = And(r, VEq(x.a[i], y.a[i]))
				if r == False {
					return r
				}
			}
			return r
		case OIface:
			if !sameTy(x.ty, y.ty) {
				return False
			}
			return VEq(x.a[0], y.a[0])
		case OMapL:
			if len(x.a) != len(y.a) {
				return unk()
			}
			r := True
			for i := range x.a {
				r = And(r, VEq(x.a[i], y.a[i]))
			}
			return r
		case OHash:
			if x.s != y.s || len(x.a) != len(y.a) {
				return unk()
			}
			r := True
			for i := range x.a {
				r = And(r, VEq(x.a[i], y.a[i]))
			}
			return r
		case OStrm:
			if x.a[0] != y.a[0] {
				return unk()
			}
			return VEq(x.a[1], y.a[1])
		case OMapC:
			if x.a[0] != y.a[0] {
				return unk()
			}
			v, b1 := openB(x)
			b2 := openWith(y, linAtom(v))
			r := True
			for i := range b1 {
				if b1[i] == b2[i] {
					continue
				}
				r = And(r, MkAll(x.a[0], v, VEq(b1[i], b2[i])))
			}
			return r
		}
		return unk()
	})
}

func seqVEq(x, y *T) *T {
	if x.op == QArr && y.op == QArr {
		if len(x.a) != len(y.a) {
			return False
		}
		r := True
		for i := range x.a {
			r = And(r, VEq(x.a[i], y.a[i]))
			if r == False {
				return r
			}
		}
		return r
	}
	if x.op == QComp && y.op == QComp && x.a[0] == y.a[0] {
		v, b1 := openB(x)
		b2 := openWith(y, linAtom(v))
		return MkAll(x.a[0], v, VEq(b1[0], b2[0]))
	}
	lx, ly := SLen(x), SLen(y)
	if le := Eq(lx, ly); le == False {
		return False
	}
	if (x.op == QComp || x.op == QSym) && (y.op == QComp || y.op == QSym) && lx == ly {
		v := newLV(lx)
		return MkAll(lx, v, VEq(SAt(x, linAtom(v)), SAt(y, linAtom(v))))
	}
	return SEq(x, y)
}

type feas struct{ status, msg string }

// feasible decides whether guard can hold while obl fails: "no", "definite"
// (with a combination of understood conditions) or "undecided".
func (e *Eng) feasible(guard, obl *T) feas {
	obl = e.simplifyUnder(obl, guard)
	bad := And(guard, Not(obl))
	if bad == False {
		return feas{"no", ""}
	}
	// conditions hidden inside the atoms come first
	for round := 0; round < 6; round++ {
		gs := gatesIn(bad)
		if len(gs) == 0 || len(gs) > 40 {
			break
		}
		g := gs[0]
		hi, lo := openGate(bad, g, true), openGate(bad, g, false)
		if hi == nil || lo == nil {
			break
		}
		bad = ite(boolAtom(g), hi, lo)
		if bad == False {
			return feas{"no", ""}
		}
	}
	w := &walker{budget: 200000}
	w.walk(bad, nil)
	switch {
	case w.found != nil:
		return feas{"definite", "when " + litString(w.found)}
	case w.unknown != "":
		return feas{"undecided", w.unknown}
	case w.budget <= 0:
		return feas{"undecided", "too many combinations of conditions"}
	}
	return feas{"no", ""}
}

type lit struct {
	at  *T
	val bool
}

type walker struct {
	found   []lit
	unknown string
	budget  int
	paths   int
}

func (w *walker) walk(f *T, path []lit) {
	if w.found != nil || f == False {
		return
	}
	w.budget--
	if w.budget <= 0 {
		if w.unknown == "" {
			w.unknown = "too many combinations of conditions"
		}
		return
	}
	if f == True {
		for _, l := range path {
			if u := HasUnknown(l.at); u != "" {
				w.unknown = "condition not understood: " + u
				return
			}
		}
		p := append([]lit{}, path...)
		bind := map[*T]*T{}
		if !consistent(p, bind) {
			return
		}
		w.paths++
		if ok, why := witness(p, bind); ok {
			w.found = p
		} else {
			w.unknown = "no interpretation separates the values (" + why + "): " + litString(p)
			if w.paths >= 60 {
				w.budget = 0
			}
		}
		return
	}
	if f.op != OITE {
		w.unknown = "not a condition"
		return
	}
	for _, b := range []bool{false, true} {
		if w.found != nil {
			return
		}
		l := lit{f.a[0], b}
		if conflict(path, l) {
			continue
		}
		x := f.a[1]
		if !b {
			x = f.a[2]
		}
		w.walk(x, append(path, l))
	}
}

// leOf lists the linear facts of a literal.
func leOf(l lit) []*T {
	switch l.at.op {
	case BLe:
		if l.val {
			return []*T{l.at.a[0]}
		}
		return []*T{linComb(C(1), 1, l.at.a[0], -1)}
	case BEq:
		if l.val {
			return []*T{l.at.a[0], IScale(l.at.a[0], -1)}
		}
	}
	return nil
}

// conflict: l contradicts the literals already chosen.
func conflict(path []lit, l lit) bool {
	switch l.at.op {
	case BType:
		if l.val {
			for _, p := range path {
				if p.at.op == BType && p.val && p.at.a[0] == l.at.a[0] {
					return true
				}
				if p.at.op == BNil && p.val && p.at.a[0] == l.at.a[0] {
					return true
				}
			}
		}
	case BNil:
		if l.val {
			for _, p := range path {
				if p.at.op == BType && p.val && p.at.a[0] == l.at.a[0] {
					return true
				}
			}
		}
	case BLe, BEq:
		var fs []*T
		for _, p := range path {
			fs = append(fs, leOf(p)...)
		}
		// the negation follows from the facts
		if l.at.op == BLe {
			neg := l.at.a[0]
			if l.val {
				neg = linComb(C(1), 1, l.at.a[0], -1)
			}
			return proveLe0(neg, fs, 3)
		}
		t := l.at.a[0]
		if l.val {
			return proveLe0(linComb(t, 1, C(1), 1), fs, 3) || proveLe0(linComb(C(1), 1, t, -1), fs, 3)
		}
		return proveLe0(t, fs, 3) && proveLe0(IScale(t, -1), fs, 3)
	}
	return false
}

// consistent looks for contradictions between the equalities and
// disequalities of a path; bind receives the solved equalities.
func consistent(p []lit, bind map[*T]*T) bool {
	// two bounds that meet
	if len(p) <= 60 {
		for i := range p {
			for _, a := range leOf(p[i]) {
				if p[i].at.op != BLe {
					continue
				}
				for j := i + 1; j < len(p); j++ {
					if p[j].at.op != BLe {
						continue
					}
					for _, b := range leOf(p[j]) {
						if s := linComb(a, 1, b, 1); len(s.lin.ts) == 0 && s.lin.c == 0 {
							if q := Eq0(a); q.op == OITE && q.a[1] == True && q.a[2] == False {
								p[i] = lit{q.a[0], true}
							}
						}
					}
				}
			}
		}
	}
	// propagate solved equalities into the other literals
	for round := 0; round < 12; round++ {
		ch := false
		if ok, c := ratSimplify(p); !ok {
			return false
		} else if c {
			ch = true
		}
		for i, l := range p {
			if !l.val {
				continue
			}
			old, nw := solveEq(l.at)
			if old == nil {
				continue
			}
			if _, ok := bind[old]; ok {
				continue
			}
			bind[old] = nw
			for j := range p {
				if i == j || !mentions(p[j].at, old) && (old.op != ALen || !mentions(p[j].at, old.a[0])) {
					continue
				}
				x := replaceIn(p[j].at, old, nw)
				if x == nil || x == boolAtom(p[j].at) {
					continue
				}
				if x == True || x == False {
					if (x == True) != p[j].val {
						return false
					}
					p[j] = lit{mks(BUF, "true"), true}
					ch = true
					continue
				}
				if x.op == OITE && x.a[1] == True && x.a[2] == False {
					if x.a[0] != p[j].at {
						p[j].at = x.a[0]
						ch = true
					}
				} else if x.op == OITE && x.a[1] == False && x.a[2] == True {
					p[j] = lit{x.a[0], !p[j].val}
					ch = true
				}
			}
		}
		if c, ok := openGates(p); !ok {
			return false
		} else if c {
			ch = true
		}
		// duplicate atoms with opposite values
		m := map[*T]bool{}
		for _, l := range p {
			if v, ok := m[l.at]; ok && v != l.val {
				return false
			}
			m[l.at] = l.val
		}
		if !ch {
			break
		}
	}
	var ls []lit
	for _, l := range p {
		if conflict(ls, l) {
			return false
		}
		ls = append(ls, l)
	}
	if len(p) <= 40 {
		if tighten(p) {
			ls = nil
			for _, l := range p {
				if conflict(ls, l) {
					return false
				}
				ls = append(ls, l)
			}
		}
		// disequalities against everything else
		for i, l := range p {
			if l.at.op == BEq && !l.val {
				rest := append(append([]lit(nil), p[:i]...), p[i+1:]...)
				if conflict(rest, l) {
					return false
				}
			}
		}
	}
	return !quantConflict(p)
}

// tighten replaces t != 0 by t < 0 or t > 0 where one side is excluded.
func tighten(p []lit) (any bool) {
	for again := true; again; {
		again = false
		for i, l := range p {
			if l.at.op != BEq || l.val {
				continue
			}
			var fs []*T
			for j, q := range p {
				if j != i {
					fs = append(fs, leOf(q)...)
				}
			}
			t := l.at.a[0]
			var b *T
			switch {
			case proveLe0(t, fs, 2):
				b = Le(t, C(-1))
			case proveLe0(IScale(t, -1), fs, 2):
				b = Le(C(1), t)
			default:
				continue
			}
			switch {
			case b.op == OITE && b.a[1] == True && b.a[2] == False:
				p[i], again, any = lit{b.a[0], true}, true, true
			case b.op == OITE && b.a[1] == False && b.a[2] == True:
				p[i], again, any = lit{b.a[0], false}, true, true
			}
		}
	}
	return any
}

// solveEq turns an equality into a replacement of one atom.
func solveEq(at *T) (old, nw *T) {
	switch at.op {
	case BEq, BLe:
		if at.op == BLe {
			// what is at most zero and never negative is zero
			if lo, _, ok, _ := Bounds(at.a[0]); !ok || lo < 0 {
				return
			}
		}
		// variables first: their value is free
		for pass := 0; pass < 2; pass++ {
			for _, x := range at.a[0].lin.ts {
				if pass == 0 && x.t.op != AIVar {
					continue
				}
				if x.c == 1 || x.c == -1 {
					r := linComb(at.a[0], 1, linAtom(x.t), -x.c)
					if mentions(r, x.t) {
						continue
					}
					return x.t, IScale(r, -x.c)
				}
			}
		}
	case BREq:
		d := at.a[0]
		if d.op != ORing {
			return
		}
		for pass := 0; pass < 2; pass++ {
			for _, m := range d.rg.ms {
				if pass == 0 && (len(m.f) != 1 || m.f[0].t.op != RVar) {
					continue
				}
				if len(m.f) == 1 && isOneInt(m.f[0].e) && m.f[0].t.op != RInv {
					x := m.f[0].t
					if x.op == RCst {
						continue
					}
					r := RSub(d, RMul(RBig(d.rg.m, m.c), ringAtom(x)))
					if mentions(r, x) {
						continue
					}
					// m.c*x + r == 0
					return x, RMul(r, RNeg1(RInverse(RBig(d.rg.m, m.c))))
				}
			}
		}
	case BPEq:
		d := at.a[0]
		if d.op != OPt {
			return
		}
		for pass := 0; pass < 2; pass++ {
			for _, t := range d.pt {
				if pass == 0 && t.b.op != XVar {
					continue
				}
				if t.b.op == XG {
					continue
				}
				if _, ok := isRingConst(t.c); ok {
					r := PSub(d, PMul(ptAtom(t.b), t.c))
					if mentions(r, t.b) {
						continue
					}
					return t.b, PMul(r, RNeg1(RInverse(t.c)))
				}
			}
		}
	case BSeqEq:
		x, y := at.a[0], at.a[1]
		if y.op == QSym {
			x, y = y, x
		}
		if x.op == QSym && !mentions(y, x) {
			return x, y
		}
		if x.op == QUF && !mentions(y, x) {
			return x, y
		}
	}
	return nil, nil
}

// RNeg1 is -x.
func RNeg1(x *T) *T { return RSub(RC(x.rg.m, 0), x) }

func isOneInt(t *T) bool { c, ok := isConstInt(t); return ok && c == 1 }

func mentions(t, x *T) bool {
	seen := map[*T]bool{}
	var rec func(t *T) bool
	rec = func(t *T) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		r := false
		each(t, func(y *T) {
			if !r {
				r = rec(y)
			}
		})
		return r
	}
	return rec(t)
}

// replaceIn replaces an atom by a value inside a condition; nil when it cannot.
func replaceIn(at, old, nw *T) (res *T) {
	defer func() {
		if recover() != nil {
			res = nil
		}
	}()
	has := map[*T]bool{}
	// a part that is the whole once the length is known
	whole := func(t *T) bool {
		if t.op != QSub || old.op != ALen || t.a[0] != old.a[0] || len(t.a) != 3 {
			return false
		}
		off, ok := isConstInt(t.a[1])
		return ok && off == 0 && t.a[2] == nw
	}
	var mention func(t *T) bool
	mention = func(t *T) bool {
		if t == old {
			return true
		}
		if r, ok := has[t]; ok {
			return r
		}
		r := whole(t)
		each(t, func(y *T) { r = r || mention(y) })
		has[t] = r
		return r
	}
	memo := map[*T]*T{}
	var rec func(t *T) *T
	rec = func(t *T) *T {
		if t == old {
			return nw
		}
		if whole(t) {
			return t.a[0]
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if !mention(t) {
			memo[t] = valueOf(t)
			return memo[t]
		}
		var r *T
		if isBinder(t.op) {
			N := rec(t.a[0])
			v := newLV(N)
			bs := openWith(t, linAtom(v))
			for i := range bs {
				bs[i] = rec(bs[i])
			}
			r = mkBinder(t, N, v, bs)
		} else {
			r = rebuild(t, rec)
		}
		memo[t] = r
		return r
	}
	return rec(at)
}

// LitClip bounds the printed conditions.
var LitClip = 140

func litString(p []lit) string {
	var b []string
	n := 0
	for _, l := range p {
		if l.at.op == BUF && l.at.s == "true" {
			continue
		}
		s := clip(l.at.String(), LitClip)
		if !l.val {
			s = "not " + s
		}
		b = append(b, s)
		n++
		if n > 14 && LitClip == 140 {
			b = append(b, "…")
			break
		}
	}
	return strings.Join(b, " and ")
}

// gatesIn lists the conditions of the conditional values inside a term.
func gatesIn(t *T) []*T {
	var out []*T
	seen := map[*T]bool{}
	var rec func(t *T)
	rec = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OITE && len(t.a) == 3 && !(t.a[1] == True || t.a[1] == False) && len(t.a[0].fv) == 0 {
			dup := false
			for _, g := range out {
				dup = dup || g == t.a[0]
			}
			if !dup {
				out = append(out, t.a[0])
			}
		}
		each(t, rec)
	}
	// the decision diagram itself is not a hidden condition
	node := map[*T]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if node[t] {
			return
		}
		node[t] = true
		if isBool(t) && t.op == OITE {
			each(t.a[0], rec)
			walk(t.a[1])
			walk(t.a[2])
			return
		}
		if t != True && t != False {
			rec(t)
		}
	}
	walk(t)
	return out
}

// openGates resolves, in every literal, the conditional values whose condition
// the other literals decide.
func openGates(p []lit) (changed, ok bool) {
	for i := range p {
		for _, g := range gatesIn(p[i].at) {
			if g == p[i].at {
				continue
			}
			known, val := false, false
			var rest []lit
			for j, l := range p {
				if j == i {
					continue
				}
				if l.at == g {
					known, val = true, l.val
				}
				rest = append(rest, l)
			}
			if !known && conflict(rest, lit{g, false}) {
				known, val = true, true
			}
			if !known && conflict(rest, lit{g, true}) {
				known, val = true, false
			}
			if !known {
				continue
			}
			x := openGate(p[i].at, g, val)
			if x == nil || x == boolAtom(p[i].at) {
				continue
			}
			changed = true
			if x == True || x == False {
				if (x == True) != p[i].val {
					return true, false
				}
				p[i] = lit{mks(BUF, "true"), true}
				break
			}
			if y, v, ok := oneAtom(x, p[i].val); ok {
				p[i] = lit{y, v}
			}
		}
	}
	return changed, true
}

func openGate(at, g *T, val bool) (res *T) {
	defer func() {
		if recover() != nil {
			res = nil
		}
	}()
	memo := map[*T]*T{}
	has := map[*T]bool{}
	var mention func(t *T) bool
	mention = func(t *T) bool {
		if r, ok := has[t]; ok {
			return r
		}
		has[t] = false
		r := t.op == OITE && len(t.a) == 3 && t.a[0] == g
		if !r {
			each(t, func(y *T) { r = r || mention(y) })
		}
		has[t] = r
		return r
	}
	var rec func(t *T) *T
	rec = func(t *T) *T {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *T
		switch {
		case !mention(t):
			r = valueOf(t)
		case t.op == OITE && t.a[0] == g:
			if val {
				r = rec(t.a[1])
			} else {
				r = rec(t.a[2])
			}
		case isBinder(t.op):
			N := rec(t.a[0])
			v := newLV(N)
			bs := openWith(t, linAtom(v))
			for i := range bs {
				bs[i] = rec(bs[i])
			}
			r = mkBinder(t, N, v, bs)
		default:
			r = rebuild(t, rec)
		}
		memo[t] = r
		return r
	}
	return rec(at)
}

// given picks from the assumptions of a specification the comparisons of
// numbers they always make.
func given(ps []PanicPt) *T {
	r := True
	for _, p := range ps {
		if p.What != "assumption" || p.Loop {
			continue
		}
		c := Not(p.Guard)
		for _, at := range support(c) {
			if at.op != BEq && at.op != BLe {
				continue
			}
			if cofactor(c, at, false) == False {
				r = And(r, boolAtom(at))
			} else if cofactor(c, at, true) == False {
				r = And(r, Not(boolAtom(at)))
			}
		}
	}
	return r
}
