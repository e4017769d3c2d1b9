package vg

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/checker/load"
)

// ArgCase asks that a library function leaves what its arguments reach as it
// found it.
type ArgCase struct {
	Fn    *ssa.Function
	Spec  *Case // its specification, if it has one
	Sizes []int64
}

// ArgCases lists the exported functions and methods of the library.
func ArgCases(p *load.Prog, cs []*Case) []*ArgCase {
	specs := map[*ssa.Function]*Case{}
	for _, c := range cs {
		if c.Kind == "spec" {
			if f := implOf(p, c.Impl); f != nil && specs[f] == nil {
				specs[f] = c
			}
		}
	}
	var out []*ArgCase
	for _, f := range p.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || f.Blocks == nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		n := f.Name()
		if strings.HasPrefix(n, "Zz") || strings.HasPrefix(n, "zz") {
			continue
		}
		a := &ArgCase{Fn: f, Spec: specs[f], Sizes: []int64{1, 2}}
		if a.Spec != nil {
			if len(a.Spec.Sizes) > 0 {
				a.Sizes = a.Spec.Sizes
			}
		}
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return load.FuncName(out[i].Fn) < load.FuncName(out[j].Fn) })
	return out
}

// stateful: the type is one whose methods update their receiver, or a
// generator, which advances when it is used.
func stateful(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Name() + "." + n.Obj().Name() {
	case "curve.Secp256k1Scalar", "curve.Secp256k1Point", "curve.Secp256k1Field", "curve.EncodePoint32",
		"ro.RandomOracle", "rand.ChaCha20", "rand.Rand":
		return true
	}
	return false
}

// CheckArgs decides one case.
func CheckArgs(p *load.Prog, c *ArgCase) *Verdict {
	start := time.Now()
	f := c.Fn
	v := &Verdict{Case: &Case{Kind: "arguments", Name: load.FuncName(f), Impl: load.FuncName(f), Fn: f}, Status: "undecided", Pos: p.Pos(f.Pos()), Fns: map[string]bool{}}
	defer func() { v.Dur = time.Since(start); setShape(nil); Deadline = time.Time{} }()
	shapes := []*shape{nil}
	max := 20 * time.Second
	var no []string
	low := f.Pkg != nil && f.Pkg.Pkg.Name() == "curve"
	if c.Spec != nil {
		low, no = c.Spec.Low, c.Spec.No
	}
	for _, n := range c.Sizes {
		shapes = append(shapes, &shape{n: n})
	}
	var und []string
	held := 0
	for _, s := range shapes {
		Deadline = time.Now().Add(max)
		r := checkArgs(p, c, s, low, no, v)
		if r.status == "undecided" && c.Spec == nil {
			r = checkArgs(p, c, s, !low, no, v)
		}
		if Verbose {
			fmt.Fprintf(os.Stderr, "   %s shape %s: %s %s\n", v.Case.Name, s.String(), r.status, clip(r.msg, 600))
		}
		v.Shapes++
		switch r.status {
		case "held":
			held++
			if s == nil {
				v.Status, v.How = "held", "for all sizes"
				return v
			}
		case "differs":
			v.Status, v.Msg, v.How = "differs", r.msg, s.String()
			if r.pos != "" {
				v.Pos = r.pos
			}
			return v
		default:
			und = append(und, s.String()+": "+r.msg)
		}
	}
	if held == len(shapes)-1 && held > 0 {
		v.Status, v.How = "held", "for the listed shapes"
	}
	v.Msg = clip(strings.Join(und, " | "), 800)
	return v
}

func checkArgs(p *load.Prog, c *ArgCase, s *shape, low bool, no []string, v *Verdict) (res shapeRes) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				res = shapeRes{"undecided", u.why, ""}
				return
			}
			if Debug {
				panic(r)
			}
			res = shapeRes{"undecided", fmt.Sprintf("analysis error: %v", r), ""}
		}
	}()
	f := c.Fn
	e := New(p, low)
	for _, n := range no {
		e.noContract[n] = true
	}
	setShape(s)
	defer func() {
		v.Calls += e.Calls
		v.Loops += e.Loops
		for f := range e.seenFns {
			v.Fns[load.FuncName(f)] = true
		}
	}()
	// what the specification says about the arguments
	changes := map[int]bool{}
	care := True
	if c.Spec != nil {
		g := e.Run(c.Spec.Fn, nil)
		if g.Why != "" {
			return shapeRes{"undecided", "specification: " + g.Why, ""}
		}
		care = And(g.PC, unlooped(g.Panics, false))
		for k, pr := range c.Spec.Fn.Params {
			if plainType(pr.Type()) || isString(pr.Type()) {
				continue
			}
			if care != False && e.sameView(care, g.St, g.Args[k], e.Base, g.Args[k], pr.Type()) != True {
				changes[k] = true
			}
		}
	}
	o := e.Run(f, nil)
	if o.Why != "" {
		return shapeRes{"undecided", o.Why, ""}
	}
	care = And(care, o.PC)
	und := ""
	e.viewed = map[*T]bool{}
	defer func() { e.viewed = nil }()
	for k, pr := range f.Params {
		if care != False && (changes[k] || stateful(pr.Type()) || outBuffer(f, k)) {
			e.sameView(care, o.St, o.Args[k], e.Base, o.Args[k], pr.Type())
		}
		if plainType(pr.Type()) || isString(pr.Type()) || changes[k] {
			continue
		}
		if stateful(pr.Type()) && (k == 0 && f.Signature.Recv() != nil || isRand(pr.Type())) && c.Spec == nil {
			continue
		}
		if care == False || outBuffer(f, k) {
			continue
		}
		eq := e.sameView(care, o.St, o.Args[k], e.Base, o.Args[k], pr.Type())
		r := e.feasible(care, eq)
		switch r.status {
		case "definite":
			pos := ""
			root := "a" + argKey(k)
			for _, m := range o.Mut {
				if strings.Contains(m.Root.String(), root) {
					if pos = p.Pos(m.Pos); !m.Pos.IsValid() && m.Fn != nil {
						pos = p.Pos(m.Fn.Pos())
					}
					break
				}
			}
			return shapeRes{"differs", fmt.Sprintf("modifies its argument %s (%s) %s", pr.Name(), clip(mutList(p, o, root), 300), r.msg), pos}
		case "undecided":
			und = "argument " + pr.Name() + ": " + r.msg
		}
	}
	if why := e.hidden(o); care != False && why != "" && und == "" {
		und = why
	}
	if und != "" {
		return shapeRes{"undecided", und, ""}
	}
	return shapeRes{"held", "", ""}
}

// outBuffer: the parameter is what a generator writes to.
func outBuffer(f *ssa.Function, k int) bool {
	if f.Signature.Recv() == nil || !stateful(f.Params[0].Type()) || f.Pkg == nil || f.Pkg.Pkg.Name() != "rand" {
		return false
	}
	for i := 1; i < k; i++ {
		if _, ok := f.Params[i].Type().Underlying().(*types.Slice); ok {
			return false
		}
	}
	return k > 0
}

func isRand(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Rand"
}

func mutList(p *load.Prog, o *Outcome, root string) string {
	var out []string
	for _, m := range o.Mut {
		if strings.Contains(m.Root.String(), root) {
			w := "store in " + load.FuncName(m.Fn)
			if m.Pos.IsValid() {
				w += " at " + p.Pos(m.Pos)
			}
			if len(out) == 0 || out[len(out)-1] != w {
				out = append(out, w)
			}
		}
	}
	return strings.Join(out, ", ")
}

// CheckGlobals decides whether an operation leaves package-level state as it is.
func CheckGlobals(p *load.Prog, c *ArgCase) *Verdict {
	start := time.Now()
	f := c.Fn
	v := &Verdict{Case: &Case{Kind: "state", Name: load.FuncName(f), Impl: load.FuncName(f), Fn: f}, Status: "undecided", Pos: p.Pos(f.Pos()), Fns: map[string]bool{}}
	defer func() { v.Dur = time.Since(start); setShape(nil); Deadline = time.Time{} }()
	low := f.Pkg != nil && f.Pkg.Pkg.Name() == "curve"
	var no []string
	if c.Spec != nil {
		low, no = c.Spec.Low, c.Spec.No
	}
	limit, law := 20*time.Second, c.Spec != nil && c.Spec.Fn == f
	if law {
		limit = 5 * time.Second
	}
	try := func(low bool, s *shape) (res shapeRes) {
		defer func() {
			if r := recover(); r != nil {
				res = shapeRes{"undecided", fmt.Sprint(r), ""}
			}
		}()
		e := New(p, low)
		for _, n := range no {
			e.noContract[n] = true
		}
		setShape(s)
		Deadline = time.Now().Add(limit)
		o := e.Run(f, nil)
		v.Calls += e.Calls
		v.Loops += e.Loops
		v.Shapes++
		if o.Why != "" {
			return shapeRes{"undecided", o.Why, ""}
		}
		und := ""
		for root, old := range e.Base.mem {
			nw := o.St.mem[root]
			if nw == nil || nw == old || o.PC == False {
				continue
			}
			if root.op == OGlob && (old == Nil || old.op == OITE) {
				continue // filled on first use
			}
			r := e.feasible(o.PC, restrict(VEq(nw, old), o.PC))
			switch r.status {
			case "definite":
				pos, where := "", ""
				for _, m := range o.Mut {
					if m.Root == root && m.Fn != nil {
						if pos = p.Pos(m.Pos); !m.Pos.IsValid() {
							pos = p.Pos(m.Fn.Pos())
						}
						where = " in " + load.FuncName(m.Fn)
						break
					}
				}
				return shapeRes{"differs", "changes package-level state " + clip(root.String(), 120) + where + " " + r.msg, pos}
			case "undecided":
				und = clip(root.String(), 120) + ": " + r.msg
			}
		}
		if und != "" {
			return shapeRes{"undecided", und, ""}
		}
		return shapeRes{"held", "", ""}
	}
	r := try(low, nil)
	if r.status == "undecided" && !law {
		if s := try(low, &shape{n: 2}); s.status != "undecided" {
			r = s
		} else if c.Spec == nil {
			r = try(!low, nil)
		}
	}
	v.Status, v.Msg = r.status, clip(r.msg, 600)
	if r.pos != "" {
		v.Pos = r.pos
	}
	return v
}

// siteOutcome notes when one of the calls the engine was asked about reports an error.
func (e *Eng) siteOutcome(st *state, f *ssa.Function, c *ssa.Call) {
	site := e.P.Fset.Position(c.Pos()).String()
	if !e.Sites[site] {
		return
	}
	e.visited[site] = true
	if st.pc == False {
		return
	}
	ok, _, _ := e.results(&Outcome{Ret: st.env[c], St: st}, c.Call.Signature())
	g := e.simp(And(st.pc, Not(ok)), st)
	if g != False {
		e.Panics = append(e.Panics, PanicPt{Guard: g, What: "error", Fn: f, Pos: c.Pos(), Site: site})
	}
}

// CheckSites decides, for calls whose error the caller drops, that the dropped
// error cannot be one the exported operation c returns successfully after.
// status per site: held (never, or the operation fails as well), differs,
// undecided; absent when the operation does not get there.
func CheckSites(p *load.Prog, c *ArgCase, sites map[string]bool, open []string) (out map[string]string, why string) {
	r, why := checkSites(p, c, sites, open)
	out = map[string]string{}
	for k, v := range r {
		out[k] = v.status
		if v.status == "differs" {
			out[k] += " " + v.msg
		}
	}
	return out, why
}

func checkSites(p *load.Prog, c *ArgCase, sites map[string]bool, noContract []string) (out map[string]shapeRes, why string) {
	f := c.Fn
	defer func() { setShape(nil); Deadline = time.Time{} }()
	low := f.Pkg != nil && f.Pkg.Pkg.Name() == "curve"
	var no []string
	if c.Spec != nil {
		low, no = c.Spec.Low, c.Spec.No
	}
	try := func(s *shape) (res map[string]shapeRes, why string) {
		defer func() {
			if r := recover(); r != nil {
				why = fmt.Sprint(r)
			}
		}()
		e := New(p, low)
		for _, n := range no {
			e.noContract[n] = true
		}
		// contracts would hide the calls
		for _, n := range noContract {
			e.noContract[n] = true
		}
		e.Sites, e.visited = sites, map[string]bool{}
		setShape(s)
		Deadline = time.Now().Add(40 * time.Second)
		o := e.Run(f, nil)
		if o.Why != "" {
			return nil, o.Why
		}
		ok, _, _ := e.results(o, f.Signature)
		res = map[string]shapeRes{}
		for k := range e.visited {
			res[k] = shapeRes{"held", "", ""}
		}
		fine := And(And(o.PC, ok), excused(o.Panics))
		for _, pp := range o.Panics {
			if pp.Site == "" || pp.Excused || res[pp.Site].status == "differs" {
				continue
			}
			r := e.feasible(typed(And(fine, pp.Guard)), False)
			switch r.status {
			case "definite":
				res[pp.Site] = shapeRes{"differs", r.msg, ""}
			case "undecided":
				res[pp.Site] = shapeRes{"undecided", r.msg, ""}
			}
		}
		return res, ""
	}
	out, why = try(nil)
	open := why != ""
	for _, r := range out {
		open = open || r.status == "undecided"
	}
	if open {
		for _, n := range c.Sizes {
			o2, w2 := try(&shape{n: n})
			if w2 != "" {
				return out, w2
			}
			why = ""
			if out == nil {
				out = o2
				continue
			}
			for k, r := range o2 {
				if prev, ok := out[k]; !ok || r.status != "held" || prev.status == "undecided" {
					out[k] = r
				}
			}
		}
	}
	return out, why
}
