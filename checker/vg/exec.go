package vg

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/checker/load"
)

// state is the abstract state on one control edge.
type state struct {
	pc  *T
	mem map[*T]*T
	env map[ssa.Value]*T
}

func (s *state) clone() *state {
	n := &state{pc: s.pc, mem: make(map[*T]*T, len(s.mem)+4), env: make(map[ssa.Value]*T, len(s.env)+8)}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

// Eng analyses functions of one program.
type Eng struct {
	P          *load.Prog
	Base       *state
	fns        []*ssa.Function
	fnIdx      map[*ssa.Function]int
	depth      int
	stack      []*ssa.Function
	Mut        []Mutation
	Panics     []PanicPt
	Calls      int // calls interpreted
	Loops      int // loops summarised
	Blocks     int
	info       map[*ssa.Function]*fnInfo
	Notes      map[string]int
	cands      map[string][]types.Type
	Contracts  map[string]modelFn
	noContract map[string]bool
	Used       map[string]int
	budget     int
	Given      *T                // what is known before a run
	elems      []*T              // elements of argument sequences that were written to
	viewed     map[*T]bool       // symbolic objects compared so far
	exact      map[*T]bool       // arrays without spare capacity; false: made with some
	appends    map[*T][]appended // by array: what appending to it gave
	within     map[*T][]appended // by array: the arrays it may be part of
	overwrites int               // appends within an array so far
	sharing    bool              // references were compared
	owner      map[*T]*T         // the point that shared coordinates were first those of
	seenFns    map[*ssa.Function]bool
	Seps       map[string]bool // separators handed to a hash
	Sites      map[string]bool // calls whose failures are recorded (file:line:column)
	visited    map[string]bool
}

// Deadline bounds the time of one analysis.
var Deadline time.Time

// Mutation is a write to memory reachable from an argument.
type Mutation struct {
	Root, Guard *T
	Fn          *ssa.Function
	Pos         token.Pos
}

// PanicPt is a possible run-time failure.
type PanicPt struct {
	Guard *T
	What  string
	Fn    *ssa.Function
	Pos   token.Pos
	// Site: not a panic, but an error reported by one of the calls Eng.Sites asks about.
	Site string
	// Excused: only an interface value of none of the library's types gets here,
	// or the specification excludes the input.
	Excused bool
	// Loop: in some iteration of a loop summarised as a whole, where the path
	// condition after the loop does not know of it.
	Loop bool
}

// unlooped is the condition that no iteration of a summarised loop panicked.
func unlooped(ps []PanicPt, excused bool) *T {
	r := True
	for _, p := range ps {
		if p.Loop && (p.Excused || !excused) {
			r = And(r, Not(p.Guard))
		}
	}
	return r
}

// excused is the condition that no interface value had to be of a type unknown
// to the library.
func excused(ps []PanicPt) *T {
	r := True
	for _, p := range ps {
		if p.Excused {
			r = And(r, Not(p.Guard))
		}
	}
	return r
}

type undecided struct{ why string }

func (e *Eng) giveUp(why string) { panic(undecided{why}) }

func (e *Eng) note(s string) { e.Notes[s]++ }

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> blocks
}

func (e *Eng) infoOf(f *ssa.Function) *fnInfo {
	if i, ok := e.info[f]; ok {
		return i
	}
	fi := &fnInfo{loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				set := fi.loops[h]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{h: true}
					fi.loops[h] = set
				}
				var work []*ssa.BasicBlock
				if !set[b] {
					set[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if !set[p] {
							set[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	e.info[f] = fi
	return fi
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *state
	ret      *T // for returns (to == nil)
}

func (e *Eng) simp(v *T, st *state) *T { return e.simplifyUnder(v, st.pc) }

// simplifyUnder rewrites v knowing pc.
func (e *Eng) simplifyUnder(v, pc *T) *T {
	if v.op != OITE {
		return v
	}
	v = restrict(v, pc)
	if v.op != OITE {
		return v
	}
	f := factsOf(pc)
	for _, at := range support(v) {
		if at.op == BLe && len(f.le) > 0 {
			if proveLe0(at.a[0], f.le, 3) {
				v = cofactor(v, at, true)
				continue
			}
			if proveLe0(linComb(C(1), 1, at.a[0], -1), f.le, 3) {
				v = cofactor(v, at, false)
				continue
			}
		}
		if at.op == BEq {
			if len(f.le) > 0 && (proveLe0(linComb(at.a[0], 1, C(1), 1), f.le, 3) || proveLe0(linComb(C(1), 1, at.a[0], -1), f.le, 3)) {
				v = cofactor(v, at, false)
				continue
			}
			for _, nd := range f.nodup {
				if x, y, ok := nodupArgs(nd, at.a[0]); ok {
					r := Eq(x, y)
					v = ite(r, cofactor(v, at, true), cofactor(v, at, false))
					break
				}
			}
		}
	}
	return v
}

type facts struct {
	le    []*T // each <= 0
	nodup []*T
	atoms map[*T]bool
}

var factMemo = map[*T]*facts{}

func factsOf(pc *T) *facts {
	if f, ok := factMemo[pc]; ok {
		return f
	}
	f := &facts{atoms: map[*T]bool{}}
	for _, at := range support(pc) {
		var val bool
		if cofactor(pc, at, false) == False {
			val = true
		} else if cofactor(pc, at, true) == False {
			val = false
		} else {
			continue
		}
		f.atoms[at] = val
		switch at.op {
		case BLe:
			if val {
				f.le = append(f.le, at.a[0])
			} else {
				f.le = append(f.le, linComb(C(1), 1, at.a[0], -1))
			}
		case BEq:
			if val {
				f.le = append(f.le, at.a[0], IScale(at.a[0], -1))
			}
		case BNoDup:
			if val {
				f.nodup = append(f.nodup, at)
			}
		}
	}
	factMemo[pc] = f
	return f
}

// nodupArgs: d == f(x)-f(y) for the function f of a NoDup atom.
func nodupArgs(nd, d *T) (x, y *T, ok bool) {
	if d.op != OLin || d.lin.c != 0 || len(d.lin.ts) != 2 {
		return
	}
	if d.lin.ts[0].c+d.lin.ts[1].c != 0 || d.lin.ts[0].c != 1 && d.lin.ts[0].c != -1 {
		return
	}
	p, q := d.lin.ts[0].t, d.lin.ts[1].t
	for i := range [2]int{} {
		_ = i
	}
	idx := func(t *T) *T {
		v, b := openB(nd)
		body := b[0]
		if body.op != OLin || len(body.lin.ts) != 1 {
			return nil
		}
		return matchIdx(body.lin.ts[0].t, t, v)
	}
	x, y = idx(p), idx(q)
	return x, y, x != nil && y != nil
}

// matchIdx finds x with pat[v:=x] == t, for patterns in which v occurs in one
// index position plainly.
func matchIdx(pat, t, v *T) *T {
	if pat.op != t.op || len(pat.a) != len(t.a) {
		return nil
	}
	var x *T
	for i := range pat.a {
		if pat.a[i] == t.a[i] {
			continue
		}
		if pat.a[i].op == OLin {
			// pat = v + c
			off := linComb(pat.a[i], 1, linAtom(v), -1)
			if off.hasFV(v) {
				return nil
			}
			x = ISub(t.a[i], off)
			continue
		}
		y := matchIdx(pat.a[i], t.a[i], v)
		if y == nil {
			return nil
		}
		x = y
	}
	if x != nil && subst(pat, map[*T]*T{v: x}) == valueOf(t) {
		return x
	}
	return nil
}

// ---------------------------------------------------------------- joins

func joinStates(a, b *state) *state {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	pc := Or(a.pc, b.pc)
	c := restrict(a.pc, pc)
	n := &state{pc: pc, mem: make(map[*T]*T, len(a.mem)), env: make(map[ssa.Value]*T, len(a.env))}
	for k, v := range a.mem {
		w, ok := b.mem[k]
		if !ok && k.op != OObj {
			w, ok = initialContent(k), true
		}
		if !ok || v == w {
			n.mem[k] = v
			continue
		}
		n.mem[k] = restrict(ite(c, v, w), pc)
	}
	for k, w := range b.mem {
		if _, ok := a.mem[k]; !ok {
			if k.op != OObj {
				if v := initialContent(k); v != w {
					w = restrict(ite(c, v, w), pc)
				}
			}
			n.mem[k] = w
		}
	}
	for k, v := range a.env {
		w, ok := b.env[k]
		if !ok {
			continue
		}
		if v == w {
			n.env[k] = v
			continue
		}
		n.env[k] = restrict(ite(c, v, w), pc)
	}
	return n
}

// ---------------------------------------------------------------- memory

func (e *Eng) newObj(st *state, ty types.Type, content *T) *T {
	ObjCount++
	o := mkn2(OObj, ObjCount, ty)
	st.mem[o] = content
	return mk(ORef, nil, o)
}

func mkn2(op Op, n int64, ty types.Type) *T { return intern(&T{op: op, n: n, ty: ty}) }

// baseMem is the memory after package initialisation.
var baseMem map[*T]*T

// initialContent is what an object not created by the function holds at first.
func initialContent(root *T) *T {
	switch root.op {
	case OSObj:
		return symContent(root)
	case OGlob:
		if v, ok := baseMem[root]; ok {
			return v
		}
		return Unk("global " + root.s)
	}
	return Unk("object content")
}

func (e *Eng) content(st *state, root *T) *T {
	if e.viewed != nil && root.op == OSObj {
		e.viewed[root] = true
	}
	if v, ok := st.mem[root]; ok {
		if Low {
			return e.followed(st, v)
		}
		return v
	}
	switch root.op {
	case OSObj:
		for _, r := range e.elems {
			if r != root && st.mem[r] != nil && mayAlias(r.a[0], root.a[0]) && st.mem[r] != symContent(r) {
				e.giveUp("element that may have been written to under another index")
			}
		}
		return symContent(root)
	case OGlob:
		if v, ok := e.Base.mem[root]; ok {
			return v
		}
		e.note("global without value: " + root.s)
		return Unk("global " + root.s)
	}
	return Unk("object content")
}

// followed is the content a point has, given that copying a point by value
// leaves the coordinates with the original.
func (e *Eng) followed(st *state, v *T) *T {
	if !hasFwd(v) {
		return v
	}
	return lift1Dyn(v, func(v *T) *T {
		if v.op == OFwd {
			return e.load(st, v.a[0])
		}
		return v
	})
}

func hasFwd(v *T) (r bool) {
	if v.op == OITE {
		leaves(v, func(_, l *T) { r = r || l.op == OFwd })
	}
	return r || v.op == OFwd
}

// shared moves the coordinates of a point to an object that its copies share:
// copying a point by value copies pointers to its coordinates. Operations that
// begin with Set give the receiver coordinates of its own; others (see inPlace)
// write to the shared ones.
func (e *Eng) shared(st *state, root *T) *T {
	c := e.content(st, root)
	if v := st.mem[root]; v != nil && v.op == OFwd {
		return v
	}
	if c.op != OPt {
		return nil
	}
	k := e.newObj(st, tyNPoint, c)
	if k.op != ORef {
		return nil
	}
	if e.owner == nil {
		e.owner = map[*T]*T{}
	}
	e.owner[k.a[0]] = root
	st.mem[root] = mk(OFwd, nil, k)
	return st.mem[root]
}

// pointValue is the value of a point that is copied as a struct.
func (e *Eng) pointValue(st *state, ref *T) *T {
	return lift1Dyn(e.simp(ref, st), func(l *T) *T {
		if l.op == ORef && len(l.a) == 1 {
			if v := e.shared(st, l.a[0]); v != nil {
				return v
			}
		}
		return e.load(st, l)
	})
}

// coordinate is what a field of a point holds when its coordinates have no
// objects of their own.
func (e *Eng) coordinate(st *state, l *T) *T {
	if len(l.a) != 2 || l.a[1].op != PFld || l.a[0].ty == nil || !isNamed(l.a[0].ty, tyNPoint) {
		return nil
	}
	if v := e.shared(st, l.a[0]); v != nil {
		return mk(OCrd, nil, v.a[0], C(l.a[1].n))
	}
	return nil
}

// gathered is a point put together from the coordinates of another.
func gathered(v *T) *T {
	if v.op != OStruct || !isNamed(v.ty, tyNPoint) {
		return v
	}
	for i, x := range v.a[:3] {
		if x.op != OCrd || x.a[0] != v.a[0].a[0] || x.a[1] != C(int64(i)) {
			return v
		}
	}
	return mk(OFwd, nil, v.a[0].a[0])
}

// assemble stores a coordinate of one point in another.
func (e *Eng) assemble(st *state, g, root *T, path []*T, v *T) bool {
	if len(path) != 1 || path[0].op != PFld || v.op != OCrd || g != True {
		return false
	}
	w := st.mem[root]
	if w == nil || w.op != OStruct {
		if w = e.shared(st, root); w == nil {
			return false
		}
		if path[0].n > 2 {
			return true // the parameters of the curve
		}
		a := make([]*T, 5)
		for i := range a {
			a[i] = mk(OCrd, nil, w.a[0], C(int64(i)))
		}
		w = mk(OStruct, tyNPoint, a...)
	}
	st.mem[root] = gathered(upd(w, path, v))
	return true
}

// inPlace writes a new value over the coordinates of a point if it shares
// them.
func (e *Eng) inPlace(st *state, recv *T, v *T) bool {
	r := e.simp(refOf(recv), st)
	any := false
	leaves(r, func(_, l *T) {
		if l.op == ORef && st.mem[l.a[0]] != nil && hasFwd(st.mem[l.a[0]]) {
			any = true
		}
	})
	if !any {
		return false
	}
	if r.op != ORef || len(r.a) != 1 || st.mem[r.a[0]].op != OFwd {
		e.giveUp("coordinates that may be shared are written to")
	}
	k := st.mem[r.a[0]].a[0]
	e.store(st, k, v, e.top(), token.NoPos)
	if o := e.owner[k.a[0]]; o != nil && (o.op == OSObj || o.op == OGlob || e.Base != nil && e.Base.mem[o] != nil) {
		e.Mut = append(e.Mut, Mutation{o, st.pc, e.top(), token.NoPos})
	}
	return true
}

func nav(v *T, path []*T) *T {
	for _, p := range path {
		v = nav1(v, p)
	}
	return v
}

func nav1(v, p *T) *T {
	return liftL1(fmt.Sprintf("nav%d", p.id), v, func(v *T) *T {
		switch p.op {
		case PFld:
			if v.op == OStruct {
				return v.a[p.n]
			}
			if r := lowNav(v, p); r != nil {
				return r
			}
		case PIdx:
			return SAt(v, p.a[0])
		case PDrf:
			for v.op == OIface {
				v = v.a[0]
				if v.op == OITE {
					return nav1(v, p)
				}
			}
			if v.op == OBox {
				return v.a[0]
			}
			if v.op == OSlice && v.a[0].op == OBox {
				return v.a[0].a[0]
			}
		}
		if v.op == OBot {
			return Bot
		}
		return Unk("field of " + opName(v))
	})
}

func upd(v *T, path []*T, x *T) *T {
	if len(path) == 0 {
		return x
	}
	p := path[0]
	ids := make([]string, len(path))
	for i, q := range path {
		ids[i] = fmt.Sprint(q.id)
	}
	return liftL1(fmt.Sprintf("upd%s,%d", strings.Join(ids, "."), x.id), v, func(v *T) *T {
		switch p.op {
		case PFld:
			if v.op == OStruct {
				a := append([]*T(nil), v.a...)
				a[p.n] = upd(a[p.n], path[1:], x)
				return mk(OStruct, v.ty, a...)
			}
		case PIdx:
			if len(path) == 1 {
				return SUpd(v, p.a[0], x)
			}
			return SUpd(v, p.a[0], upd(SAt(v, p.a[0]), path[1:], x))
		case PDrf:
			switch {
			case v.op == OIface:
				return mk(OIface, v.ty, upd(v.a[0], path, x))
			case v.op == OBox:
				return mk(OBox, v.ty, upd(v.a[0], path[1:], x))
			case v.op == OSlice && v.a[0].op == OBox:
				return mk(OSlice, nil, mk(OBox, nil, upd(v.a[0].a[0], path[1:], x)), v.a[1], v.a[2])
			}
		}
		return Unk("update of " + opName(v))
	})
}

func extRef(r *T, p ...*T) *T {
	return liftL1("ext"+pathIDs(p), r, func(r *T) *T {
		if r.op != ORef {
			if r == Nil {
				return Bot
			}
			return Unk("address in " + opName(r))
		}
		a := append(append([]*T(nil), r.a...), p...)
		return intern(&T{op: ORef, a: a})
	})
}

func pathIDs(p []*T) string {
	var b strings.Builder
	for _, x := range p {
		fmt.Fprintf(&b, ".%d", x.id)
	}
	return b.String()
}

func fld(i int) *T    { return mkn(PFld, int64(i)) }
func pidx(i *T) *T    { return mk(PIdx, nil, i) }
func pdrf() *T        { return mk(PDrf, nil) }
func isRef(t *T) bool { return t.op == ORef }

func hasBox(v *T) bool {
	switch v.op {
	case OBox:
		return true
	case OITE:
		return hasBox(v.a[1]) || hasBox(v.a[2])
	case OIface, OStruct, QArr, OTuple:
		for _, x := range v.a {
			if hasBox(x) {
				return true
			}
		}
	case OSlice:
		return v.a[0].op == OBox
	}
	return false
}

// unboxRefs turns boxes of a loaded cell into references to them.
func unboxRefs(v *T, ref []*T) *T {
	if !hasBox(v) {
		return v
	}
	with := func(p ...*T) []*T { return append(append([]*T(nil), ref...), p...) }
	return liftL1("unboxrefs"+pathIDs(ref), v, func(v *T) *T {
		switch v.op {
		case OBox:
			return intern(&T{op: ORef, a: with(pdrf())})
		case OIface:
			if v.a[0].op == OBox {
				return mk(OIface, v.ty, intern(&T{op: ORef, a: with(pdrf())}))
			}
			return mk(OIface, v.ty, unboxRefs(v.a[0], ref))
		case OSlice:
			if v.a[0].op == OBox {
				return mk(OSlice, nil, intern(&T{op: ORef, a: with(pdrf())}), v.a[1], v.a[2])
			}
		case OStruct:
			a := make([]*T, len(v.a))
			for i, x := range v.a {
				a[i] = unboxRefs(x, with(fld(i)))
			}
			return mk(OStruct, v.ty, a...)
		case QArr:
			a := make([]*T, len(v.a))
			for i, x := range v.a {
				a[i] = unboxRefs(x, with(pidx(C(int64(i)))))
			}
			return intern(&T{op: QArr, a: a})
		}
		return v
	})
}

// load reads through a reference.
func (e *Eng) load(st *state, ref *T) *T {
	var r *T = Bot
	ref = e.simp(ref, st)
	first := true
	leaves(ref, func(g, l *T) {
		var v *T
		switch {
		case l.op == ORef:
			if Low {
				if v = e.coordinate(st, l); v != nil {
					break
				}
			}
			v = nav(e.unfilter(e.content(st, l.a[0]), st.pc), l.a[1:])
			v = unboxRefs(v, l.a)
		case l == Nil || l.op == OBot:
			return
		case l.op == OBox:
			v = l.a[0]
		default:
			v = Unk("load through " + opName(l) + l.s)
		}
		if first {
			r = v
			first = false
			return
		}
		r = ite(g, v, r)
	})
	return restrict(r, st.pc)
}

// hasIndex: the path leads through an element of a sequence or map.
func hasIndex(p *T) bool {
	for p != nil {
		if p.op == SPIdx || p.op == SPKey || p.op == SPVal {
			return true
		}
		if len(p.a) == 0 {
			return false
		}
		p = p.a[0]
	}
	return false
}

// mayAlias: two paths differ in indices only, and those may be equal.
func mayAlias(p, q *T) bool {
	if p == q {
		return true
	}
	if p.op != q.op || p.s != q.s || p.n != q.n || len(p.a) != len(q.a) || len(p.a) == 0 || !sameTy(p.ty, q.ty) && (p.ty == nil || q.ty == nil) {
		return false
	}
	if p.op == SPIdx || p.op == SPKey {
		if p.a[1] != q.a[1] {
			if k, ok := isConstInt(ISub(p.a[1], q.a[1])); ok && k != 0 {
				return false
			}
		}
	}
	return mayAlias(p.a[0], q.a[0])
}

// hidden names a write to something reachable from the arguments that none of
// the comparisons looked at.
func (e *Eng) hidden(o *Outcome) string {
	for _, m := range o.Mut {
		if m.Root.op == OSObj && m.Guard != False && PathRoot(m.Root.a[0]) != "" && !e.viewed[m.Root] {
			return "a write to " + clip(m.Root.String(), 120) + " is not followed"
		}
	}
	return ""
}

// store writes through a reference.
func (e *Eng) store(st *state, ref, v *T, fn *ssa.Function, pos token.Pos) {
	ref = e.simp(ref, st)
	leaves(ref, func(g, l *T) {
		if l.op != ORef {
			if l == Nil || l.op == OBot {
				return
			}
			e.note("store through unknown address")
			e.giveUp("store through " + opName(l) + l.s)
		}
		root := l.a[0]
		if Low && e.assemble(st, g, root, l.a[1:], v) {
			if root.op == OSObj {
				e.Mut = append(e.Mut, Mutation{root, And(st.pc, g), fn, pos})
			}
			return
		}
		old := e.content(st, root)
		nw := upd(old, l.a[1:], v)
		if g != True {
			nw = ite(g, nw, old)
		}
		if root.op == OSObj || root.op == OGlob || e.Base != nil && e.Base.mem[root] != nil {
			if nw != old {
				if e.sharing && root.op == OSObj {
					e.giveUp("write to an argument that another may share")
				}
				e.Mut = append(e.Mut, Mutation{root, And(st.pc, g), fn, pos})
				if root.op == OSObj && hasIndex(root.a[0]) && !slices.Contains(e.elems, root) {
					e.elems = append(e.elems, root)
				}
			}
		}
		st.mem[root] = nw
	})
}

// ---------------------------------------------------------------- values

func (e *Eng) constVal(c *ssa.Const) *T {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if constant.BoolVal(c.Value) {
				return True
			}
			return False
		case u.Info()&types.IsString != 0:
			return QStr(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return C(i)
			}
			if i, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
				return mks(OUF, fmt.Sprintf("uint:%d", i))
			}
		}
	}
	return Unk("constant " + c.String())
}

func (e *Eng) fnTerm(f *ssa.Function, binds []*T) *T {
	i, ok := e.fnIdx[f]
	if !ok {
		i = len(e.fns)
		e.fns = append(e.fns, f)
		e.fnIdx[f] = i
	}
	return intern(&T{op: OClo, n: int64(i), a: binds})
}

func globTerm(g *ssa.Global) *T {
	return mk(ORef, nil, intern(&T{op: OGlob, s: g.Pkg.Pkg.Path() + "." + g.Name(), ty: g.Type().(*types.Pointer).Elem()}))
}

func (e *Eng) val(st *state, v ssa.Value) *T {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Global:
		return globTerm(v)
	case *ssa.Function:
		return e.fnTerm(v, nil)
	case *ssa.Builtin:
		return mks(OFn, v.Name())
	}
	if x, ok := st.env[v]; ok {
		return x
	}
	return Unk("undefined value " + v.Name())
}

// ---------------------------------------------------------------- functions

// CallFn interprets a call of f in state st (memory and pc updated in place).
func (e *Eng) CallFn(st *state, f *ssa.Function, args, free []*T) *T {
	if r, ok := e.model(st, f, args, free); ok {
		return r
	}
	if f.Blocks == nil && f.Name() == "zzAssume" {
		e.Panics = append(e.Panics, PanicPt{Guard: And(st.pc, Not(args[0])), What: "assumption", Fn: e.top(), Excused: true})
		st.pc = And(st.pc, args[0])
		return mk(OTuple, nil)
	}
	if f.Blocks == nil && f.Name() == "zzFresh" {
		return e.fresh(st, args[0])
	}
	if f.Blocks == nil {
		e.note("no body: " + f.String())
		return e.opaqueResult(f.Signature, "call of "+f.String())
	}
	path := pkgPathOf(f)
	if !load.IsLib(path) && !synthLib(f) && !allowedDep(path) {
		e.note("external: " + f.String())
		switch path {
		case "fmt", "errors", "github.com/pkg/errors", "log", "strings", "strconv", "bytes", "encoding/hex":
		default:
			e.havoc(st, args, "written by "+f.String())
		}
		return e.opaqueResult(f.Signature, "call of "+f.String())
	}
	for _, g := range e.stack {
		if g == f {
			return e.recursive(st, f, args)
		}
	}
	if len(e.stack) > 40 {
		e.giveUp("call depth")
	}
	e.Calls++
	e.seenFns[f] = true
	e.stack = append(e.stack, f)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	in := &state{pc: st.pc, mem: st.mem, env: map[ssa.Value]*T{}}
	in = in.clone()
	for i, p := range f.Params {
		in.env[p] = args[i]
	}
	for i, p := range f.FreeVars {
		if i < len(free) {
			in.env[p] = free[i]
		}
	}
	fi := e.infoOf(f)
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fi.rpo {
		all[b] = true
	}
	outs := e.region(f, fi, all, f.Blocks[0], []*edge{{nil, f.Blocks[0], in, nil}}, nil)
	var out *state
	var ret *T
	for _, o := range outs {
		if o.to != nil || o.st.pc == False {
			continue
		}
		if out == nil {
			out, ret = o.st, o.ret
			continue
		}
		pc := Or(out.pc, o.st.pc)
		c := restrict(out.pc, pc)
		ret = restrict(ite(c, ret, o.ret), pc)
		out.env, o.st.env = nil, nil
		out = joinStates(out, o.st)
	}
	if out == nil {
		// never returns on this pc
		st.pc = False
		return Bot
	}
	st.pc = out.pc
	st.mem = out.mem
	return ret
}

// havoc forgets everything reachable from the arguments of an unknown function.
func (e *Eng) havoc(st *state, args []*T, why string) {
	seen := map[*T]bool{}
	var rec func(v *T)
	rec = func(v *T) {
		if seen[v] {
			return
		}
		seen[v] = true
		if v.op == ORef {
			root := v.a[0]
			if root.op == OObj || root.op == OSObj || root.op == OGlob {
				if c, ok := st.mem[root]; ok {
					rec(c)
				}
				st.mem[root] = Unk(why)
			}
		}
		for _, x := range v.a {
			if x != nil {
				rec(x)
			}
		}
	}
	for _, a := range args {
		rec(a)
	}
}

func (e *Eng) opaqueResult(sig *types.Signature, what string) *T {
	n := sig.Results().Len()
	if n == 1 {
		return e.opaqueOf(sig.Results().At(0).Type(), what)
	}
	a := make([]*T, n)
	for i := range a {
		a[i] = e.opaqueOf(sig.Results().At(i).Type(), what)
	}
	return mk(OTuple, nil, a...)
}

func (e *Eng) opaqueOf(t types.Type, what string) *T {
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsBoolean != 0 {
			return UnkB(what)
		}
		if b.Info()&types.IsInteger != 0 {
			return linAtom(mks(AUF, "?"+what))
		}
	}
	if isErrorType(t) {
		return ite(UnkB(what+" fails"), Err, Nil)
	}
	return Unk(what)
}

func pkgPathOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

// synthLib: wrappers and thunks of library methods.
func synthLib(f *ssa.Function) bool {
	return f.Synthetic != "" && (pkgPathOf(f) == "" || load.IsLib(pkgPathOf(f)))
}

func allowedDep(path string) bool {
	return path == "modernc.org/mathutil" || path == "go.dedis.ch/kyber/v3/util/random" || path == "slices"
}

// ---------------------------------------------------------------- regions

func (e *Eng) region(f *ssa.Function, fi *fnInfo, set map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, in []*edge, header *ssa.BasicBlock) []*edge {
	incoming := map[*ssa.BasicBlock][]*edge{entry: in}
	var out []*edge
	done := map[*ssa.BasicBlock]bool{}
	deliver := func(es []*edge) {
		for _, x := range es {
			if x.st.pc == False {
				continue
			}
			if x.to == nil || x.to == header || !set[x.to] {
				out = append(out, x)
			} else {
				incoming[x.to] = append(incoming[x.to], x)
			}
		}
	}
	for _, b := range fi.rpo {
		if !set[b] || done[b] {
			continue
		}
		if body, ok := fi.loops[b]; ok && b != header {
			for x := range body {
				done[x] = true
			}
			if len(incoming[b]) == 0 {
				continue
			}
			deliver(e.loop(f, fi, body, b, incoming[b]))
			continue
		}
		done[b] = true
		es := incoming[b]
		if len(es) == 0 {
			continue
		}
		var st *state
		if b == header && len(es) == 1 && es[0].from == nil {
			st = es[0].st // phis already set
		} else {
			st = e.enter(b, es)
		}
		deliver(e.block(f, b, st))
	}
	return out
}

// enter joins the edges into a block and evaluates its phis.
func (e *Eng) enter(b *ssa.BasicBlock, es []*edge) *state {
	var st *state
	for _, x := range es {
		if x.st.pc == False {
			continue
		}
		s := x.st
		if x.from != nil {
			var phis []*ssa.Phi
			for _, in := range b.Instrs {
				if p, ok := in.(*ssa.Phi); ok {
					phis = append(phis, p)
				} else {
					break
				}
			}
			if len(phis) > 0 {
				s = s.clone()
				k := -1
				for i, p := range b.Preds {
					if p == x.from {
						k = i
					}
				}
				vals := make([]*T, len(phis))
				for i, p := range phis {
					vals[i] = e.val(x.st, p.Edges[k])
				}
				for i, p := range phis {
					s.env[p] = vals[i]
				}
			}
		}
		st = joinStates(st, s)
	}
	if st == nil {
		return &state{pc: False, mem: map[*T]*T{}, env: map[ssa.Value]*T{}}
	}
	if len(es) == 1 {
		st = st.clone()
	}
	return st
}

// block interprets the instructions of a block.
func (e *Eng) block(f *ssa.Function, b *ssa.BasicBlock, st *state) []*edge {
	e.Blocks++
	e.budget--
	if e.budget < 0 || e.budget%16 == 0 && !Deadline.IsZero() && time.Now().After(Deadline) {
		e.giveUp("analysis budget")
	}
	for _, in := range b.Instrs {
		if st.pc == False {
			return nil
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := e.simp(e.val(st, in.Cond), st)
			if c.op != OITE && c != True && c != False {
				c = UnkB("branch on " + opName(c) + c.s)
			}
			s2 := st.clone()
			st.pc = And(st.pc, c)
			s2.pc = And(s2.pc, Not(c))
			return []*edge{{b, b.Succs[0], st, nil}, {b, b.Succs[1], s2, nil}}
		case *ssa.Jump:
			return []*edge{{b, b.Succs[0], st, nil}}
		case *ssa.Return:
			a := make([]*T, len(in.Results))
			for i, r := range in.Results {
				a[i] = restrict(e.val(st, r), st.pc)
			}
			var ret *T
			if len(a) == 1 {
				ret = a[0]
			} else {
				ret = mk(OTuple, nil, a...)
			}
			st.env = map[ssa.Value]*T{}
			return []*edge{{b, nil, st, ret}}
		case *ssa.Panic:
			e.Panics = append(e.Panics, PanicPt{Guard: st.pc, What: "explicit panic", Fn: f, Pos: in.Pos()})
			return nil
		case *ssa.Store:
			e.store(st, e.val(st, in.Addr), e.val(st, in.Val), f, in.Pos())
		case *ssa.MapUpdate:
			e.mapUpdate(st, f, in)
		case *ssa.Call:
			st.env[in] = e.call(st, f, &in.Call, in.Pos())
			if len(e.Sites) > 0 {
				e.siteOutcome(st, f, in)
			}
		case *ssa.RunDefers:
		case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select:
			e.giveUp(fmt.Sprintf("%T", in))
		case ssa.Value:
			st.env[in] = e.eval(st, f, in)
		default:
			e.giveUp(fmt.Sprintf("%T", in))
		}
	}
	return nil
}

func (e *Eng) panicIf(st *state, cond *T, what string, f *ssa.Function, pos token.Pos) {
	c := e.simp(cond, st)
	if c == False {
		return
	}
	e.Panics = append(e.Panics, PanicPt{Guard: And(st.pc, c), What: what, Fn: f, Pos: pos})
	// the analysis goes on for the runs that do not fail
}

func intTypeOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func (e *Eng) eval(st *state, f *ssa.Function, in ssa.Value) *T {
	switch in := in.(type) {
	case *ssa.Alloc:
		r := e.newObj(st, in.Type().(*types.Pointer).Elem(), zeroOf(in.Type().(*types.Pointer).Elem()))
		if e.exact == nil {
			e.exact = map[*T]bool{}
		}
		e.exact[r.a[0]] = true
		return r
	case *ssa.BinOp:
		return e.binop(st, in.Op, e.val(st, in.X), e.val(st, in.Y), in.X.Type(), in.Type())
	case *ssa.UnOp:
		x := e.val(st, in.X)
		switch in.Op {
		case token.MUL:
			if Low && isNamed(in.Type(), tyNPoint) {
				return e.pointValue(st, x)
			}
			return e.load(st, x)
		case token.NOT:
			if isBool(x) {
				return Not(x)
			}
			return UnkB("not of " + opName(x))
		case token.SUB:
			return IScale(x, -1)
		case token.XOR:
			return Unk("bitwise complement")
		}
	case *ssa.ChangeType:
		return e.val(st, in.X)
	case *ssa.Convert:
		return e.convert(st, e.val(st, in.X), in.X.Type(), in.Type())
	case *ssa.ChangeInterface:
		return e.val(st, in.X)
	case *ssa.MakeInterface:
		x := e.val(st, in.X)
		if isErrorType(in.Type()) {
			return Err
		}
		return mk(OIface, in.X.Type(), x)
	case *ssa.MakeClosure:
		binds := make([]*T, len(in.Bindings))
		for i, b := range in.Bindings {
			binds[i] = e.val(st, b)
		}
		return e.fnTerm(in.Fn.(*ssa.Function), binds)
	case *ssa.MakeSlice:
		n := e.val(st, in.Len)
		et := in.Type().Underlying().(*types.Slice).Elem()
		e.panicIf(st, Lt(n, C(0)), "makeslice: negative length", f, in.Pos())
		r := e.newObj(st, in.Type(), MkZero(n, et))
		if e.exact == nil {
			e.exact = map[*T]bool{}
		}
		e.exact[r.a[0]] = e.val(st, in.Cap) == n
		return mk(OSlice, nil, r, C(0), n)
	case *ssa.MakeMap:
		return e.newObj(st, in.Type(), mk(OMapE, nil))
	case *ssa.Extract:
		t := e.val(st, in.Tuple)
		return liftL1(fmt.Sprintf("ext%d", in.Index), t, func(t *T) *T {
			if t.op == OTuple {
				return t.a[in.Index]
			}
			return Unk("tuple part of " + opName(t))
		})
	case *ssa.Field:
		return nav1(e.val(st, in.X), fld(in.Field))
	case *ssa.FieldAddr:
		return extRef(e.val(st, in.X), fld(in.Field))
	case *ssa.Index:
		x, i := e.val(st, in.X), e.val(st, in.Index)
		return SAt(x, i)
	case *ssa.IndexAddr:
		return e.indexAddr(st, f, in)
	case *ssa.Slice:
		return e.slice(st, f, in)
	case *ssa.SliceToArrayPointer:
	case *ssa.Lookup:
		return e.lookup(st, in)
	case *ssa.TypeAssert:
		return e.typeAssert(st, f, in)
	case *ssa.Range, *ssa.Next:
		e.giveUp("iteration over a built-in map or string")
	}
	return Unk(fmt.Sprintf("%T", in))
}

func (e *Eng) indexAddr(st *state, f *ssa.Function, in *ssa.IndexAddr) *T {
	x, i := e.simp(e.val(st, in.X), st), e.simp(e.val(st, in.Index), st)
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		n := p.Elem().Underlying().(*types.Array).Len()
		e.panicIf(st, Or(Lt(i, C(0)), Le(C(n), i)), "index out of range", f, in.Pos())
		return liftL("idxaddr", []*T{x, i}, func(a []*T) *T { return extRef(a[0], pidx(a[1])) })
	}
	e.panicIf(st, liftL("oob", []*T{x, i}, func(a []*T) *T {
		if a[0].op != OSlice {
			if a[0] == Nil {
				return True
			}
			return False
		}
		return Or(Lt(a[1], C(0)), Le(a[0].a[2], a[1]))
	}), "index out of range", f, in.Pos())
	return liftL("idxaddrs", []*T{x, i}, func(a []*T) *T {
		s, i := a[0], a[1]
		if s == Nil {
			return Bot
		}
		if s.op != OSlice {
			return Unk("index of " + opName(s) + s.s)
		}
		return liftL1(fmt.Sprintf("ia%d", s.id), IAdd(s.a[1], i), func(j *T) *T { return extRef(s.a[0], pidx(j)) })
	})
}

func (e *Eng) slice(st *state, f *ssa.Function, in *ssa.Slice) *T {
	x := e.simp(e.val(st, in.X), st)
	lo := C(0)
	if in.Low != nil {
		lo = e.val(st, in.Low)
	}
	var hi *T
	if in.High != nil {
		hi = e.val(st, in.High)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Pointer: // *array
		n := C(u.Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		e.panicIf(st, Or(Or(Lt(lo, C(0)), Lt(hi, lo)), Lt(n, hi)), "slice bounds", f, in.Pos())
		return liftL("slicearr", []*T{x, lo, hi}, func(a []*T) *T {
			if a[0].op != ORef {
				return Unk("slice of " + opName(a[0]))
			}
			return mk(OSlice, nil, a[0], a[1], ISub(a[2], a[1]))
		})
	case *types.Basic: // string
		if hi == nil {
			hi = SLen(x)
		}
		return SSlice(x, lo, ISub(hi, lo))
	case *types.Slice:
		_ = u
		if x == Nil {
			return Nil
		}
		h := hi
		if h == nil {
			h = liftL1("sllen", x, func(s *T) *T {
				if s.op == OSlice {
					return s.a[2]
				}
				return C(0)
			})
		}
		lens := e.sliceLen(x)
		if hi != nil {
			leaves(x, func(g, s *T) {
				if s.op != OSlice || s.a[0].op != ORef || len(s.a) != 3 {
					return
				}
				exact, known := e.exact[s.a[0].a[0]]
				if beyond := And(And(st.pc, g), Lt(s.a[2], h)); beyond != False && (known && !exact || e.spare(st, s) != C(0)) && e.simplifyUnder(Lt(s.a[2], h), And(st.pc, g)) != False {
					e.giveUp("slice beyond its length")
				}
			})
		}
		e.panicIf(st, Or(Or(Lt(lo, C(0)), Lt(h, lo)), Lt(lens, h)), "slice bounds", f, in.Pos())
		full := in.Max != nil
		return liftL(fmt.Sprintf("slicesl%v", full), []*T{x, lo, h}, func(a []*T) *T {
			s := a[0]
			if s == Nil {
				return Nil
			}
			if s.op != OSlice {
				return Unk("slice of " + opName(s))
			}
			if full || len(s.a) > 3 && a[2] == s.a[2] {
				return mk(OSlice, nil, s.a[0], IAdd(s.a[1], a[1]), ISub(a[2], a[1]), C(1))
			}
			return mk(OSlice, nil, s.a[0], IAdd(s.a[1], a[1]), ISub(a[2], a[1]))
		})
	}
	return Unk("slice expression")
}

func (e *Eng) sliceLen(x *T) *T {
	return liftL1("slen2", x, func(s *T) *T {
		switch {
		case s.op == OSlice:
			return s.a[2]
		case s == Nil:
			return C(0)
		case isSeq(s.op):
			return SLen(s)
		case s.op == ORef:
			return Unk("len of pointer")
		}
		return linAtom(mks(AUF, "?length of "+opName(s)+s.s))
	})
}

// seqOf is the sequence a slice or string value denotes.
func (e *Eng) seqOf(st *state, x *T) *T {
	x = e.simp(x, st)
	return lift1Dyn(x, func(s *T) *T {
		switch {
		case s.op == OSlice:
			r := s.a[0]
			var q *T
			if r.op == OBox {
				q = r.a[0]
			} else if r.op == ORef {
				q = nav(e.content(st, r.a[0]), r.a[1:])
				q = unboxSeqElems(q, r.a)
			} else {
				return Unk("slice of unknown array")
			}
			return SSlice(e.unfilter(q, st.pc), s.a[1], s.a[2])
		case s == Nil:
			return QEmpty()
		case isSeq(s.op) || s.op == OHole:
			return s
		case s.op == OBot:
			return Bot
		}
		return Unk("bytes of " + opName(s) + s.s)
	})
}

// unfilter drops a filter that every element is known to pass.
func (e *Eng) unfilter(q, pc *T) *T {
	return lift1Dyn(q, func(q *T) *T {
		if q.op != QFilt {
			return q
		}
		v, b := openB(q)
		if all := MkAll(q.a[0], v, b[0]); e.simplifyUnder(all, pc) == True {
			return MkComp(q.a[0], v, b[1])
		}
		return q
	})
}

func unboxSeqElems(q *T, ref []*T) *T { return q }

// lift1Dyn is lift1 without memoisation (f depends on the state).
func lift1Dyn(x *T, f func(*T) *T) *T {
	if x.op != OITE {
		if x.op == OBot {
			return Bot
		}
		return f(x)
	}
	return mkITEv(x.a[0], lift1Dyn(x.a[1], f), lift1Dyn(x.a[2], f))
}

func (e *Eng) bytesVal(st *state, q *T, t types.Type) *T {
	// a fresh slice holding q
	r := e.newObj(st, t, q)
	return mk(OSlice, nil, r, C(0), SLen(q))
}

func (e *Eng) convert(st *state, x *T, from, to types.Type) *T {
	fb, _ := from.Underlying().(*types.Basic)
	tb2, _ := to.Underlying().(*types.Basic)
	switch {
	case fb != nil && tb2 != nil && fb.Info()&types.IsInteger != 0 && tb2.Info()&types.IsInteger != 0:
		return Conv(x, to)
	case fb != nil && fb.Info()&types.IsString != 0:
		if _, ok := to.Underlying().(*types.Slice); ok {
			return e.bytesVal(st, x, to)
		}
		return x
	case tb2 != nil && tb2.Info()&types.IsString != 0:
		if _, ok := from.Underlying().(*types.Slice); ok {
			return e.seqOf(st, x)
		}
	}
	return Unk("conversion")
}

func (e *Eng) binop(st *state, op token.Token, x, y *T, t, rt types.Type) *T {
	x, y = e.simp(x, st), e.simp(y, st)
	b, _ := t.Underlying().(*types.Basic)
	if b != nil && b.Info()&types.IsInteger != 0 {
		wrap := func(r *T) *T {
			// 64-bit arithmetic is taken not to overflow
			switch b.Kind() {
			case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt:
				return r
			}
			return Conv(r, rt)
		}
		switch op {
		case token.ADD:
			return wrap(IAdd(x, y))
		case token.SUB:
			return wrap(ISub(x, y))
		case token.MUL:
			return wrap(IMul(x, y))
		case token.QUO:
			return intOp(ADiv, x, y)
		case token.REM:
			return intOp(AMod, x, y)
		case token.AND:
			return intOp(AAnd, x, y)
		case token.OR:
			return intOp(AOr, x, y)
		case token.XOR:
			return intOp(AXor, x, y)
		case token.AND_NOT:
			return ISub(x, intOp(AAnd, x, y))
		case token.SHL:
			return wrap(intOp(AShl, x, y))
		case token.SHR:
			return intOp(AShr, x, y)
		case token.EQL:
			return Eq(x, y)
		case token.NEQ:
			return Not(Eq(x, y))
		case token.LSS:
			return Lt(x, y)
		case token.LEQ:
			return Le(x, y)
		case token.GTR:
			return Lt(y, x)
		case token.GEQ:
			return Le(y, x)
		}
		return Unk("operator " + op.String())
	}
	if b != nil && b.Info()&types.IsBoolean != 0 {
		switch op {
		case token.EQL:
			return Iff(x, y)
		case token.NEQ:
			return Not(Iff(x, y))
		}
	}
	if b != nil && b.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return SCat(x, y)
		case token.EQL:
			return SEq(x, y)
		case token.NEQ:
			return Not(SEq(x, y))
		}
		return UnkB("string order")
	}
	switch op {
	case token.EQL:
		return e.eqVal(st, x, y)
	case token.NEQ:
		return Not(e.eqVal(st, x, y))
	}
	return Unk("operator " + op.String())
}

// samePtr compares two references. Whether a caller passes the same object
// where two arguments have the same content is left open, for all of them
// alike: sharing is the condition that it does. What is written through one
// such argument would be seen through the other, so nothing may be written.
func (e *Eng) samePtr(st *state, x, y *T) *T {
	if x.op != ORef || y.op != ORef || len(x.a) != 1 || len(y.a) != 1 {
		return nil
	}
	a, b := x.a[0], y.a[0]
	if a.op != OSObj && b.op != OSObj {
		if a.op == b.op && a.op == OObj {
			return False // two objects made by the library
		}
		return nil
	}
	if a.op != b.op {
		if a.op == OObj || b.op == OObj {
			return False
		}
		return nil
	}
	if a.ty == nil || b.ty == nil {
		return nil
	}
	if !sameTy(a.ty, b.ty) {
		return False
	}
	if mayAlias(a.a[0], b.a[0]) {
		return nil
	}
	for _, m := range e.Mut {
		if m.Root.op == OSObj {
			return nil
		}
	}
	e.sharing = true
	return And(sharing(), e.sameView(True, st, x, st, y, types.NewPointer(a.ty)))
}

func sharing() *T { return boolAtom(mks(BUF, "sharing")) }

func (e *Eng) eqVal(st *state, x, y *T) *T {
	return liftL2("eqval", x, y, func(x, y *T) *T {
		if x == y {
			return True
		}
		if x == Nil {
			x, y = y, x
		}
		if y == Nil {
			switch x.op {
			case OIface, ORef, OSlice, OClo, OErr, OFn:
				return False
			case OUF:
				if len(x.a) == 1 && !strings.HasPrefix(x.s, "?") {
					return boolAtom(mk(BNil, nil, x.a[0]))
				}
			}
			return UnkB("nil test of " + opName(x) + x.s)
		}
		if x.op == OIface && y.op == OIface && !sameTy(x.ty, y.ty) {
			return False
		}
		if x.op == OStruct && y.op == OStruct && len(x.a) == 0 && len(y.a) == 0 {
			return True
		}
		if st != nil {
			u, v := x, y
			if x.op == OIface && y.op == OIface {
				u, v = x.a[0], y.a[0]
			}
			if r := e.samePtr(st, u, v); r != nil {
				return r
			}
		}
		return UnkB("equality of " + opName(x) + " and " + opName(y))
	})
}

func (e *Eng) typeAssert(st *state, f *ssa.Function, in *ssa.TypeAssert) *T {
	x := e.simp(e.val(st, in.X), st)
	at := in.AssertedType
	isI := types.IsInterface(at)
	res := func(v, ok *T) *T { return mk(OTuple, nil, v, ok) }
	zero := zeroOf(at)
	r := liftL1(fmt.Sprintf("ta%d", tyID(at)), x, func(l *T) *T {
		switch {
		case l.op == OIface:
			if isI {
				if types.Implements(l.ty, at.Underlying().(*types.Interface)) {
					return res(l, True)
				}
				return res(Nil, False)
			}
			if sameTy(l.ty, at) {
				return res(l.a[0], True)
			}
			return res(zero, False)
		case l == Nil:
			return res(zero, False)
		case l.op == OUF && !strings.HasPrefix(l.s, "?") && len(l.a) == 1:
			// an interface value of unknown dynamic type
			if isI {
				return res(l, boolAtom(mk(BType, at, l.a[0])))
			}
			return ite(boolAtom(mk(BType, at, l.a[0])), res(SymValue(mk(SPTyp, at, l.a[0]), at), True), res(zero, False))
		}
		return res(Unk("type assertion on "+opName(l)+l.s), UnkB("type assertion on "+opName(l)+l.s))
	})
	if in.CommaOk {
		return r
	}
	okv := liftL1("ext1", r, func(t *T) *T { return t.a[1] })
	e.panicIf(st, Not(okv), "type assertion", f, in.Pos())
	okv = e.simp(okv, st)
	st.pc = And(st.pc, okv)
	return restrict(liftL1("ext0", r, func(t *T) *T { return t.a[0] }), st.pc)
}

// ---------------------------------------------------------------- calls

func (e *Eng) call(st *state, f *ssa.Function, c *ssa.CallCommon, pos token.Pos) *T {
	args := make([]*T, len(c.Args))
	for i, a := range c.Args {
		args[i] = e.val(st, a)
	}
	if c.IsInvoke() {
		return e.invoke(st, f, e.simp(e.val(st, c.Value), st), c.Method, args, pos)
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return e.builtin(st, f, v.Name(), c, args, pos)
	case *ssa.Function:
		return e.CallFn(st, v, args, nil)
	}
	fv := e.simp(e.val(st, c.Value), st)
	return e.fork(st, fv, func(st *state, l *T) *T {
		if l.op == OClo {
			return e.CallFn(st, e.fns[l.n], args, l.a)
		}
		if l == Nil {
			e.Panics = append(e.Panics, PanicPt{Guard: st.pc, What: "call of nil function", Fn: f, Pos: pos})
			st.pc = False
			return Bot
		}
		return e.opaqueResult(c.Signature(), "dynamic call")
	})
}

// fork runs fn for each leaf of v, in the state where v is that leaf, and joins.
func (e *Eng) fork(st *state, v *T, fn func(st *state, leaf *T) *T) *T {
	if v.op != OITE {
		return fn(st, v)
	}
	type lf struct{ g, l *T }
	var ls []lf
	leaves(v, func(g, l *T) { ls = append(ls, lf{g, l}) })
	var out *state
	var ret *T
	for _, x := range ls {
		s := st.clone()
		s.env = nil
		s.pc = And(st.pc, x.g)
		if s.pc == False {
			continue
		}
		s.env = map[ssa.Value]*T{}
		r := fn(s, x.l)
		if s.pc == False {
			continue
		}
		if out == nil {
			out, ret = s, r
			continue
		}
		pc := Or(out.pc, s.pc)
		c := restrict(out.pc, pc)
		ret = restrict(ite(c, ret, r), pc)
		out = joinStates(out, s)
	}
	if out == nil {
		st.pc = False
		return Bot
	}
	st.pc, st.mem = out.pc, out.mem
	return ret
}

func (e *Eng) invoke(st *state, f *ssa.Function, recv *T, m *types.Func, args []*T, pos token.Pos) *T {
	return e.fork(st, recv, func(st *state, l *T) *T {
		switch {
		case l.op == OIface:
			if r, ok := e.modelInvoke(st, l, m, args); ok {
				return r
			}
			sel := e.P.SSA.MethodSets.MethodSet(l.ty).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				return e.opaqueResult(m.Type().(*types.Signature), "method "+m.Name())
			}
			fn := e.P.SSA.MethodValue(sel)
			return e.CallFn(st, fn, append([]*T{l.a[0]}, args...), nil)
		case l == Nil:
			e.Panics = append(e.Panics, PanicPt{Guard: st.pc, What: "method call on nil", Fn: f, Pos: pos})
			st.pc = False
			return Bot
		case l == Err:
			if m.Name() == "Error" {
				return mks(OUF, "?error text")
			}
		}
		e.havoc(st, args, "written by "+m.Name())
		return e.opaqueResult(m.Type().(*types.Signature), "method "+m.Name()+" of "+opName(l)+l.s)
	})
}

func (e *Eng) builtin(st *state, f *ssa.Function, name string, c *ssa.CallCommon, args []*T, pos token.Pos) *T {
	switch name {
	case "len", "cap":
		x := e.simp(args[0], st)
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			return e.mapLen(st, x)
		}
		if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			return C(p.Elem().Underlying().(*types.Array).Len())
		}
		return e.sliceLen(x)
	case "append":
		if len(args) < 2 {
			return args[0]
		}
		return e.appendTo(st, f, args[0], e.seqOf(st, args[1]), c.Args[0].Type(), pos)
	case "copy":
		dst, src := e.simp(args[0], st), e.seqOf(st, args[1])
		n := liftL2("copyn", e.sliceLen(dst), SLen(src), func(a, b *T) *T { return MinI(a, b) })
		n = e.simp(n, st)
		e.fork(st, dst, func(st *state, d *T) *T {
			if d.op != OSlice {
				return C(0)
			}
			if d.a[0].op != ORef {
				e.giveUp("copy into " + opName(d.a[0]))
			}
			r := d.a[0]
			old := nav(e.content(st, r.a[0]), r.a[1:])
			tot := SLen(old)
			end := IAdd(d.a[1], n)
			nw := SCat(SSlice(old, C(0), d.a[1]), SSlice(src, C(0), n), SSlice(old, end, ISub(tot, end)))
			e.store(st, r, nw, f, pos)
			return C(0)
		})
		return n
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if name == "min" {
				r = MinI(r, a)
			} else {
				r = MaxI(r, a)
			}
		}
		return r
	case "ssa:wrapnilchk":
		return args[0]
	case "clear", "print", "println", "recover", "delete", "close":
		e.giveUp("builtin " + name)
	}
	return Unk("builtin " + name)
}

// appended is the object an append to a slice gave, the elements of which
// from the given index on lie in what may be the spare capacity of the slice.
type appended struct {
	obj   *T
	first *T
}

// appendTo is the result of appending add to a slice. Behind a slice that
// ends within its array, elements are overwritten as long as they are enough.
// A slice that ends with its array is copied; but if append is applied to it
// again, the elements added first may be lost, depending on its capacity.
func (e *Eng) appendTo(st *state, f *ssa.Function, x, add *T, t types.Type, pos token.Pos) *T {
	x = e.simp(x, st)
	within := false
	leaves(x, func(g, s *T) {
		if s.op == OSlice && s.a[0].op == ORef && len(s.a) == 3 && e.spare(st, s) != C(0) {
			within = true
		}
	})
	if within {
		e.overwrites++
		return e.fork(st, x, func(st *state, s *T) *T {
			if s.op != OSlice || s.a[0].op != ORef || len(s.a) != 3 {
				return e.bytesVal(st, SCat(e.seqOf(st, s), add), t)
			}
			spare, n := e.spare(st, s), SLen(add)
			if spare == C(0) {
				return e.appendFresh(st, f, s, add, t, pos)
			}
			fits := e.simp(Le(n, spare), st)
			return e.fork(st, ite(fits, C(1), C(0)), func(st *state, k *T) *T {
				if k != C(1) {
					return e.bytesVal(st, SCat(e.seqOf(st, s), add), t)
				}
				r := s.a[0]
				old := nav(e.content(st, r.a[0]), r.a[1:])
				end := IAdd(s.a[1], s.a[2])
				rest := IAdd(end, n)
				e.store(st, r, SCat(SSlice(old, C(0), end), add, SSlice(old, rest, ISub(SLen(old), rest))), f, pos)
				return mk(OSlice, nil, r, s.a[1], IAdd(s.a[2], n))
			})
		})
	}
	return e.appendFresh(st, f, x, add, t, pos)
}

// spare counts the elements behind a slice in its array.
func (e *Eng) spare(st *state, s *T) *T {
	r := s.a[0]
	return e.simp(ISub(SLen(nav(e.content(st, r.a[0]), r.a[1:])), IAdd(s.a[1], s.a[2])), st)
}

// appendFresh appends to a slice that ends with its array.
func (e *Eng) appendFresh(st *state, f *ssa.Function, x, add *T, t types.Type, pos token.Pos) *T {
	q := e.seqOf(st, x)
	r := e.bytesVal(st, SCat(q, add), t)
	if x.op != OSlice || x.a[0].op != ORef || len(x.a) != 3 || r.op != OSlice || r.a[0].op != ORef || SLen(add) == C(0) {
		return r
	}
	base, obj := x.a[0].a[0], r.a[0].a[0]
	if e.exact[base] || len(x.a[0].a) > 1 {
		return r
	}
	if e.appends == nil {
		e.appends, e.within = map[*T][]appended{}, map[*T][]appended{}
	}
	for _, p := range e.appends[base] {
		old, ok := st.mem[p.obj]
		if !ok || p.obj == obj || old == nil || !isSeq(old.op) {
			continue
		}
		n := e.simp(liftL2("copyn", ISub(SLen(old), p.first), SLen(add), func(a, b *T) *T { return MinI(a, b) }), st)
		end := IAdd(p.first, n)
		st.mem[p.obj] = ite(spareCapacity(), SCat(SSlice(old, C(0), p.first), SSlice(add, C(0), n), SSlice(old, end, ISub(SLen(old), end))), old)
	}
	here := appended{obj, SLen(q)}
	e.appends[base] = append(e.appends[base], here)
	e.within[obj] = append(e.within[obj], appended{base, SLen(q)})
	if x.a[1] == C(0) {
		for _, w := range e.within[base] {
			e.appends[w.obj] = append(e.appends[w.obj], appended{obj, w.first})
			e.within[obj] = append(e.within[obj], w)
		}
	}
	return r
}

// spareCapacity is the condition that slices have spare capacity.
func spareCapacity() *T { return boolAtom(mks(BUF, "spare capacity")) }

// recursive handles a call to a function already being analysed: an
// uninterpreted application of its viewed arguments.
func (e *Eng) recursive(st *state, f *ssa.Function, args []*T) *T {
	vs := make([]*T, len(args))
	for i, a := range args {
		vs[i] = e.View(st, a, f.Params[i].Type())
	}
	return e.RecApp(st, f, vs)
}

// RecApp is the result of an opaque application of f to viewed arguments.
func (e *Eng) RecApp(st *state, f *ssa.Function, vs []*T) *T {
	n := f.Signature.Results().Len()
	out := make([]*T, n)
	name := load.FuncName(f)
	fail := boolAtom(mks(BUF, "fails:"+name, vs...))
	for i := range out {
		t := f.Signature.Results().At(i).Type()
		s := fmt.Sprintf("%s#%d", name, i)
		var v *T
		switch {
		case isErrorType(t):
			out[i] = ite(fail, Err, Nil)
			continue
		case isNamed(t, TyEccScalar):
			v = mk(OIface, TyScalarP, e.newObj(st, TyScalar, ringAtom(intern(&T{op: RUF, s: s, a: vs}))))
		case isNamed(t, TyEccPoint):
			v = mk(OIface, TyPointP, e.newObj(st, TyPoint, ptAtom(mks(XUF, s, vs...))))
		case isByteSlice(t):
			v = e.bytesVal(st, intern(&T{op: QUF, s: s, n: -1, ty: TyByte, a: vs}), t)
		default:
			v = Unk("recursion")
		}
		out[i] = ite(fail, zeroOf(t), v)
	}
	if n == 1 {
		return out[0]
	}
	return mk(OTuple, nil, out...)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

var _ = big.NewInt
var _ = sort.Ints
