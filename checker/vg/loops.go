package vg

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var Debug = os.Getenv("VG_DEBUG") != ""

// loopDef is a loop: iter runs one iteration from a state in which the
// loop-carried values are set, and returns the state at the back edge, the
// edges leaving the loop, and whether the loop test was decided.
type loopDef struct {
	phis []ssa.Value
	name string
	iter func(st *state) (latch *state, exits []*edge, decided bool)

	header *ssa.BasicBlock
	stuck  *T // the condition the last unrolling stopped at, and its iteration
	round  int
}

// loop summarises a natural loop of a function.
func (e *Eng) loop(f *ssa.Function, fi *fnInfo, body map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, in []*edge) []*edge {
	st := e.enter(header, in)
	if st.pc == False {
		return nil
	}
	var phis []ssa.Value
	for _, x := range header.Instrs {
		if p, ok := x.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	_, hasIf := header.Instrs[len(header.Instrs)-1].(*ssa.If)
	def := &loopDef{
		phis:   phis,
		header: header,
		name:   fmt.Sprintf("%s %s", f.Name(), e.P.Pos(header.Instrs[0].Pos())),
		iter: func(st *state) (*state, []*edge, bool) {
			outs := e.region(f, fi, body, header, []*edge{{nil, header, st.clone(), nil}}, header)
			var latches, exits []*edge
			hexit, inside := false, false
			for _, o := range outs {
				if o.to == header {
					latches = append(latches, o)
					inside = true
				} else {
					exits = append(exits, o)
					if o.from == header {
						hexit = true
					} else {
						inside = true
					}
				}
			}
			decided := hasIf && !(hexit && inside)
			if len(latches) == 0 {
				return nil, exits, decided
			}
			l := e.enter(header, latches)
			return l, exits, decided
		},
	}
	return e.runLoop(def, st)
}

type mark struct{ p, m int }

func (e *Eng) mark() mark      { return mark{len(e.Panics), len(e.Mut)} }
func (e *Eng) rollback(k mark) { e.Panics, e.Mut = e.Panics[:k.p], e.Mut[:k.m] }

// attempt runs fn and reports what stopped it.
func (e *Eng) attempt(fn func()) (why string) {
	stack := append([]*ssa.Function(nil), e.stack...)
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				why = u.why
				if why == "" {
					why = "undecided"
				}
				e.stack = stack
				if why == "analysis budget" {
					panic(r)
				}
				return
			}
			panic(r)
		}
	}()
	fn()
	return ""
}

const noBound = "no bound on the number of iterations"

func (e *Eng) runLoop(def *loopDef, st *state) []*edge {
	e.Loops++
	m := e.mark()
	if out, ok := e.unrollSplit(def, st, 5); ok {
		return out
	}
	e.rollback(m)
	var out []*edge
	lost := loopUnk
	why := e.attempt(func() { out = e.summarise(def, st) })
	if why == "" && loopUnk == lost {
		return out
	}
	if why == "" {
		// the summary loses values; a decided trip count avoids that
		m1, p1 := e.Mut, e.Panics
		e.Mut, e.Panics = append([]Mutation(nil), e.Mut[:m.m]...), append([]PanicPt(nil), e.Panics[:m.p]...)
		if un, ok := e.unroll(def, st, 300); ok {
			return un
		}
		e.Mut, e.Panics = m1, p1
		return out
	}
	e.rollback(m)
	if pc := oneType(st.pc); strings.HasPrefix(why, noBound) && pc != st.pc {
		// what ends the loop may be hidden behind impossible types
		st2 := st.clone()
		st2.pc = pc
		if e.attempt(func() { out = e.summarise(def, st2) }) == "" && loopUnk == lost {
			return out
		}
		e.rollback(m)
	}
	if Debug {
		fmt.Fprintf(os.Stderr, "loop %s: %s\n", def.name, why)
	}
	if out, ok := e.unroll(def, st, 300); ok {
		return out
	}
	e.rollback(m)
	// peel one iteration
	latch, exits, _ := def.iter(st)
	if latch == nil || latch.pc == False {
		return exits
	}
	latch = e.dropIter(def, st, latch)
	var rest []*edge
	why2 := e.attempt(func() { rest = e.summarise(def, latch) })
	if why2 != "" {
		e.giveUp("loop " + def.name + ": " + why)
	}
	return append(exits, rest...)
}

// dropIter keeps the values of the enclosing scope and the loop-carried ones.
func (e *Eng) dropIter(def *loopDef, before, latch *state) *state {
	n := latch.clone()
	keep := map[ssa.Value]bool{}
	for _, p := range def.phis {
		keep[p] = true
	}
	for k := range n.env {
		if _, ok := before.env[k]; !ok && !keep[k] {
			delete(n.env, k)
		}
	}
	return n
}

// unrollSplit unrolls a loop whose trip count depends on few conditions that
// are decided before it starts.
func (e *Eng) unrollSplit(def *loopDef, st *state, depth int) ([]*edge, bool) {
	m := e.mark()
	def.stuck, def.round = nil, 0
	lim := 8
	if depth < 5 {
		lim = 40
	}
	if out, ok := e.unroll(def, st, lim); ok {
		return out, true
	}
	c := def.stuck
	if c == nil || def.round == 0 || depth == 0 {
		return nil, false
	}
	e.rollback(m)
	var res []*edge
	for _, g := range []*T{c, Not(c)} {
		s := st.clone()
		s.pc = And(st.pc, g)
		if s.pc == False {
			continue
		}
		if s.pc == st.pc {
			return nil, false
		}
		for _, p := range def.phis {
			if v, ok := s.env[p]; ok {
				s.env[p] = e.simp(v, s)
			}
		}
		out, ok := e.unrollSplit(def, s, depth-1)
		if !ok {
			return nil, false
		}
		res = append(res, out...)
	}
	return res, true
}

// unroll interprets the loop iteration by iteration while its test is decided.
func (e *Eng) unroll(def *loopDef, st *state, limit int) ([]*edge, bool) {
	var out []*edge
	cur := st
	for i := 0; ; i++ {
		latch, exits, decided := def.iter(cur)
		if !decided {
			def.round = i
			for _, x := range exits {
				if def.header == nil || x.from != def.header {
					continue
				}
				if g := restrict(x.st.pc, cur.pc); g.op == OITE {
					if !hasLen(g.a[0]) {
						def.stuck = boolAtom(g.a[0])
					}
					break
				}
			}
			return nil, false
		}
		out = append(out, exits...)
		if latch == nil || latch.pc == False {
			return out, true
		}
		if i >= limit {
			return nil, false
		}
		cur = e.dropIter(def, st, latch)
	}
}

// ---------------------------------------------------------------- templates

type hole struct {
	t      *T // OHole
	val    *T // the hole as a value
	kind   byte
	init   *T
	upd    *T
	closed *T // in terms of the iteration number
}

type tmpl struct {
	overwrites int // appends within arrays before the loop
	e          *Eng
	holes      []*hole
	byVal      map[*T]*hole
	virt       map[*T]bool // virtual objects
	objs       map[*T]*T   // virtual object -> template content (in the loop state)
	inits      map[*T]*T   // virtual object -> initial content
	byPair     map[[2]*T]*T
}

func (tm *tmpl) newHole(kind byte, init *T, ty types.Type, mod int) *T {
	holeCount++
	h := intern(&T{op: OHole, n: holeCount, s: string(kind), ty: ty})
	var v *T
	switch kind {
	case 'i':
		v = linAtom(mk(AIVar, ty, h))
	case 'b':
		v = boolAtom(mk(BVar, nil, h))
	case 'r':
		v = ringAtom(mkn(RVar, int64(mod), h))
	case 'p':
		v = ptAtom(mk(XVar, nil, h))
	default:
		v = h
	}
	x := &hole{t: h, val: v, kind: kind, init: init}
	tm.holes = append(tm.holes, x)
	tm.byVal[v] = x
	return v
}

// keyOf is the atom under which a hole is substituted.
func (h *hole) subst(m map[*T]*T, by *T) {
	m[h.t] = by
	switch h.kind {
	case 'i':
		m[h.val.lin.ts[0].t] = by
	case 'b':
		m[h.val.a[0]] = by
	case 'r':
		m[h.val.rg.ms[0].f[0].t] = by
	case 'p':
		m[h.val.pt[0].b] = by
	}
}

// kindOf classifies the leaves of a value.
func kindOf(v *T) byte {
	k := byte(0)
	set := func(x byte) {
		if k == 0 {
			k = x
		} else if k != x {
			k = 'o'
		}
	}
	seen := map[*T]bool{}
	var rec func(v *T)
	rec = func(v *T) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch {
		case v.op == OITE:
			rec(v.a[1])
			rec(v.a[2])
		case v == True || v == False:
			set('b')
		case v.op == OBot:
		case v.op == OLin:
			set('i')
		case v.op == ORing:
			set('r')
		case v.op == OPt:
			set('p')
		case isSeq(v.op) || v.op == OHole && v.s == "q":
			set('q')
		case v.op == OStruct:
			set('S')
		case v.op == OIface:
			set('I')
		case v.op == ORef:
			set('R')
		case v.op == OSlice:
			set('L')
		case v == Nil:
			set('N')
		case v.op >= OMapS && v.op <= OMapE || v.op == OMapU || v.op == OHole && v.s == "m":
			set('m')
		case v.op == OStrm:
			set('T')
		case v.op == OHash:
			set('H')
		case v.op == OTuple:
			set('U')
		default:
			set('o')
		}
	}
	rec(v)
	return k
}

func firstLeaf(v *T) *T {
	for v.op == OITE {
		if v.a[1].op == OBot {
			v = v.a[2]
		} else {
			v = v.a[1]
		}
	}
	return v
}

// gen generalises the template value t so that it also covers l.
// st0/stl are the states in which t and l live.
func (tm *tmpl) gen(t, l *T, ty types.Type, stt, stl *state, d int) *T {
	if t == l || l.op == OBot {
		return t
	}
	if h, ok := tm.byVal[t]; ok {
		kl := kindOf(l)
		want := h.kind
		if kl == want || want == 'o' || kl == 0 {
			return t
		}
		if want == 'm' && kl == 'm' {
			return t
		}
		// kinds disagree: degrade
		h2 := tm.newHole('o', h.init, ty, 0)
		return h2
	}
	kt, kl := kindOf(t), kindOf(l)
	if kt == 'S' && kl == 'p' && t.op == OStruct && sameTy(t.ty, tyNPoint) {
		t = tm.e.ptContent(stt, t)
		kt = kindOf(t)
	}
	if kt == 'p' && kl == 'S' && l.op == OStruct && sameTy(l.ty, tyNPoint) {
		l = tm.e.ptContent(stl, l)
		kl = kindOf(l)
	}
	if d > 10 {
		return tm.newHole('o', t, ty, 0)
	}
	if kt == kl && t.op != OITE && l.op != OITE {
		switch kt {
		case 'S', 'U':
			if len(t.a) == len(l.a) && sameTy(t.ty, l.ty) {
				a := make([]*T, len(t.a))
				for i := range a {
					var ft types.Type
					if t.ty != nil {
						if s, ok := t.ty.Underlying().(*types.Struct); ok {
							ft = s.Field(i).Type()
						}
					}
					a[i] = tm.gen(t.a[i], l.a[i], ft, stt, stl, d+1)
				}
				return mk(t.op, t.ty, a...)
			}
		case 'I':
			if sameTy(t.ty, l.ty) {
				return mk(OIface, t.ty, tm.gen(t.a[0], l.a[0], t.ty, stt, stl, d+1))
			}
		case 'T':
			if t.a[0] == l.a[0] {
				return mk(OStrm, nil, t.a[0], tm.gen(t.a[1], l.a[1], nil, stt, stl, d+1))
			}
		case 'H':
			if t.s == l.s && len(t.a) == len(l.a) {
				a := make([]*T, len(t.a))
				for i := range a {
					a[i] = tm.gen(t.a[i], l.a[i], types.NewSlice(TyByte), stt, stl, d+1)
				}
				return mks(OHash, t.s, a...)
			}
		case 'R':
			return tm.genRef(t, l, stt, stl, d)
		case 'L':
			if t.a[0] == l.a[0] {
				return mk(OSlice, nil, t.a[0], tm.gen(t.a[1], l.a[1], nil, stt, stl, d+1), tm.gen(t.a[2], l.a[2], nil, stt, stl, d+1))
			}
		case 'q':
			if t.op == QArr && l.op == QArr && len(t.a) == len(l.a) && len(t.a) <= 8 && kindOf(t.a[0]) != 'i' {
				a := make([]*T, len(t.a))
				for i := range a {
					a[i] = tm.gen(t.a[i], l.a[i], nil, stt, stl, d+1)
				}
				return mkArr(a)
			}
		}
	}
	isSl := func(k byte) bool { return k == 'L' || k == 'N' }
	if isSl(kt) && isSl(kl) || kt == 'o' && kl == 'L' && onlySliceLeaves(t) || kl == 'o' && (kt == 'L' || kt == 'N') && onlySliceLeaves(l) {
		if ty == nil || isSliceT(ty) {
			if t.op == OSlice && t.a[0].op == ORef && tm.virt[t.a[0].a[0]] {
				o := t.a[0].a[0]
				tm.objs[o] = tm.gen(tm.objs[o], tm.e.seqOf(stl, l), ty, stt, stl, d+1)
				return t
			}
			// a virtual array holding the elements
			if tm.e.overwrites > tm.overwrites && (tm.e.anySpare(stt, t) || tm.e.anySpare(stl, l)) {
				tm.e.giveUp("append within an array that others may use")
			}
			var et types.Type
			if ty != nil {
				et = ty.Underlying().(*types.Slice).Elem()
			}
			q := tm.e.seqOf(stt, t)
			if et == nil {
				et = elemTyOf(firstLeaf(q))
			}
			v := tm.virtObj(ty, tm.newHole('q', q, et, 0), q)
			return mk(OSlice, nil, mk(ORef, nil, v), C(0), SLen(tm.objs[v]))
		}
	}
	if kt == kl {
		switch kt {
		case 'i':
			return tm.newHole('i', t, ty, 0)
		case 'b':
			return tm.newHole('b', t, ty, 0)
		case 'r':
			return tm.newHole('r', t, ty, firstLeaf(t).rg.m)
		case 'p':
			return tm.newHole('p', t, ty, 0)
		case 'q':
			et := elemTyOf(firstLeaf(t))
			if et == nil && ty != nil {
				et = seqElem(ty)
			}
			if et == nil {
				et = elemTyOf(firstLeaf(l))
			}
			return tm.newHole('q', t, et, 0)
		case 'm':
			return tm.newHole('m', t, ty, 0)
		case 'R':
			if t.op == OITE || l.op == OITE {
				return tm.genRef(t, l, stt, stl, d)
			}
		}
	}
	return tm.newHole('o', t, ty, 0)
}

// anySpare reports whether x may be a slice that ends within its array.
func (e *Eng) anySpare(st *state, x *T) bool {
	r := false
	leaves(x, func(_, l *T) {
		if l.op == OSlice && l.a[0].op == ORef && e.spare(st, l) != C(0) {
			r = true
		}
	})
	return r
}

func onlySliceLeaves(t *T) bool {
	ok := true
	leaves(t, func(_, l *T) {
		if l.op != OSlice && l != Nil && l.op != OBot {
			ok = false
		}
	})
	return ok
}

func isSliceT(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

func (tm *tmpl) virtObj(ty types.Type, content, init *T) *T {
	ObjCount++
	o := mkn2(OObj, ObjCount, ty)
	tm.virt[o] = true
	tm.objs[o] = content
	tm.inits[o] = init
	return o
}

// genRef: pointers to different objects become a pointer to a virtual object.
func (tm *tmpl) genRef(t, l *T, stt, stl *state, d int) *T {
	if t.op == ORef && len(t.a) == 1 && tm.virt[t.a[0]] {
		o := t.a[0]
		c := tm.e.load(stl, l)
		tm.objs[o] = tm.gen(tm.objs[o], c, o.ty, stt, stl, d+1)
		return t
	}
	ct, cl := tm.e.load(stt, t), tm.e.load(stl, l)
	ty := firstLeaf(t).a[0].ty
	if firstLeaf(t).op != ORef {
		ty = nil
	}
	if len(firstLeaf(t).a) > 1 {
		ty = nil
		if x := firstLeaf(l); x.op == ORef && len(x.a) == 1 {
			ty = x.a[0].ty
		}
	}
	if HasUnknown(ct) != "" && ct.op == OUF {
		return tm.newHole('o', t, nil, 0)
	}
	o := tm.virtObj(ty, ct, ct)
	tm.objs[o] = tm.gen(ct, cl, ty, stt, stl, d+1)
	return mk(ORef, nil, o)
}

// collect matches a template value with the value at the back edge and
// records the update of each hole.
func (tm *tmpl) collect(t, l *T, stl *state, private func(*T) bool) bool {
	if h, ok := tm.byVal[t]; ok {
		if l.op == OBot {
			l = t
		}
		if h.kind == 'q' || h.kind == 'o' || h.kind == 'm' {
			l = tm.e.box(stl, l, private)
		}
		h.upd = l
		return true
	}
	if t == l || l.op == OBot {
		return true
	}
	switch t.op {
	case OStruct, OIface, OStrm, OHash, OTuple, QArr:
		if l.op == OITE {
			return false
		}
		if l.op != t.op || len(l.a) != len(t.a) {
			return false
		}
		for i := range t.a {
			if !tm.collect(t.a[i], l.a[i], stl, private) {
				return false
			}
		}
		return true
	case ORef:
		o := t.a[0]
		if len(t.a) == 1 && tm.virt[o] {
			return tm.collect(tm.objs[o], tm.e.load(stl, l), stl, private)
		}
	case OSlice:
		r := t.a[0]
		if r.op == ORef && tm.virt[r.a[0]] {
			return tm.collect(tm.objs[r.a[0]], tm.e.seqOf(stl, l), stl, private)
		}
		if l.op == OSlice && l.a[0] == r {
			return tm.collect(t.a[1], l.a[1], stl, private) && tm.collect(t.a[2], l.a[2], stl, private)
		}
	}
	return false
}

// ---------------------------------------------------------------- summaries

type slot struct {
	phi  ssa.Value
	root *T
	init *T
	t    *T
	ty   types.Type
}

func (e *Eng) summarise(def *loopDef, st0 *state) []*edge {
	outer := e.mark()
	tm := &tmpl{e: e, overwrites: e.overwrites, byVal: map[*T]*hole{}, virt: map[*T]bool{}, objs: map[*T]*T{}, inits: map[*T]*T{}, byPair: map[[2]*T]*T{}}
	slots := map[string]*slot{}
	var order []string
	phiSet := map[ssa.Value]bool{}
	for i, p := range def.phis {
		phiSet[p] = true
		k := fmt.Sprintf("p%d", i)
		v := e.simp(st0.env[p], st0)
		var ty types.Type
		if ph, ok := p.(*ssa.Phi); ok && ph.Type() != nil {
			ty = ph.Type()
		}
		slots[k] = &slot{phi: p, init: v, t: v, ty: ty}
		order = append(order, k)
	}
	preMax := ObjCount
	isPre := func(root *T) bool {
		switch root.op {
		case OSObj, OGlob:
			return true
		}
		_, ok := st0.mem[root]
		return ok
	}
	private := func(root *T) bool {
		if root.op != OObj {
			return false
		}
		if tm.virt[root] {
			return true
		}
		return root.n > preMax && !isPre(root)
	}
	memSlot := func(root *T) *slot {
		k := fmt.Sprintf("m%d", root.id)
		s := slots[k]
		if s == nil {
			v := e.content(st0, root)
			s = &slot{root: root, init: v, t: v, ty: root.ty}
			slots[k] = s
			order = append(order, k)
		}
		return s
	}
	sub := map[*T]*T{}
	mkState := func(pc *T) *state {
		st := st0.clone()
		st.pc = pc
		for _, k := range order {
			s := slots[k]
			v := s.t
			if len(sub) > 0 {
				v = subst(v, sub)
			}
			if s.phi != nil {
				st.env[s.phi] = v
			} else {
				st.mem[s.root] = v
			}
		}
		for o, c := range tm.objs {
			if len(sub) > 0 {
				c = subst(c, sub)
			}
			st.mem[o] = c
		}
		return st
	}
	// template fixpoint
	var latch *state
	var exits []*edge
	for round := 0; ; round++ {
		if round > 12 {
			e.giveUp("no loop template")
		}
		if Debug && round > 9 {
			for _, k := range order {
				fmt.Fprintf(os.Stderr, "  template %s round %d: %v\n", k, round, slots[k].t)
			}
			for o, c := range tm.objs {
				fmt.Fprintf(os.Stderr, "    virt %v: %v\n", o, c)
			}
		}
		m := e.mark()
		st := mkState(st0.pc)
		tst := st.clone()
		l, ex, _ := def.iter(st)
		e.rollback(m)
		latch, exits = l, ex
		if latch == nil || latch.pc == False {
			// never iterates twice from a covered state
			if round == 0 {
				e.rollback(outer)
				_, ex, _ := def.iter(st0)
				return ex
			}
			e.giveUp("loop never continues")
		}
		changed := false
		upd := func(s *slot, v *T) {
			n := tm.gen(s.t, e.simp(v, latch), s.ty, tst, latch, 0)
			if n != s.t {
				s.t = n
				changed = true
			}
		}
		nv := len(tm.objs)
		before := map[*T]*T{}
		for o, c := range tm.objs {
			before[o] = c
		}
		for _, k := range append([]string(nil), order...) {
			s := slots[k]
			if s.phi != nil {
				upd(s, latch.env[s.phi])
			} else {
				upd(s, e.content(latch, s.root))
			}
		}
		var roots []*T
		for root, v := range latch.mem {
			if tm.virt[root] || !isPre(root) {
				continue
			}
			if _, ok := slots[fmt.Sprintf("m%d", root.id)]; ok {
				continue
			}
			if old := e.content(st0, root); old != v {
				roots = append(roots, root)
			}
		}
		sort.Slice(roots, func(i, j int) bool { return roots[i].id < roots[j].id })
		for _, root := range roots {
			upd(memSlot(root), latch.mem[root])
		}
		if len(tm.objs) != nv {
			changed = true
		}
		for o, c := range before {
			if tm.objs[o] != c {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	// rounds of solving
	var N *T
	K := newLV(C(1 << 33))
	k := linAtom(K)
	var normal struct{ from, to *ssa.BasicBlock }
	haveN := false
	for round := 0; round < 8; round++ {
		m := e.mark()
		st := mkState(st0.pc)
		l, ex, _ := def.iter(st)
		e.rollback(m)
		latch, exits = l, ex
		if latch == nil || latch.pc == False {
			if haveN && isK(N) {
				break
			}
			e.giveUp("loop body never reaches the back edge")
		}
		for _, key := range order {
			s := slots[key]
			var v *T
			if s.phi != nil {
				v = latch.env[s.phi]
			} else {
				v = e.content(latch, s.root)
			}
			t := s.t
			if !tm.collect(t, e.simp(subst(v, nil), latch), latch, private) {
				// solved parts were substituted: compare shapes only through holes
				if !tm.collectSub(t, e.simp(v, latch), latch, private, sub) {
					e.giveUp("loop state changes shape: " + s.t.String() + " / " + v.String())
				}
			}
		}
		progress := false
		for _, h := range tm.holes {
			if h.closed != nil || h.upd == nil {
				continue
			}
			u := h.upd
			if len(sub) > 0 {
				u = subst(u, sub)
			}
			u = e.simp(u, latch)
			ready := true
			for _, g := range tm.holes {
				if g != h && g.closed == nil && u.hasFV(g.t) {
					ready = false
				}
			}
			if !ready {
				continue
			}
			c := e.solve(h, u, k, K, round, latch)
			if c == nil {
				continue
			}
			h.closed = c
			h.subst(sub, c)
			progress = true
		}
		for _, h := range tm.holes {
			if h.closed != nil {
				h.subst(sub, h.closed)
			}
		}
		if !haveN {
			// a test that bounds the iteration number
			for _, x := range exits {
				g := restrict(x.st.pc, st.pc)
				if len(sub) > 0 {
					g = subst(g, sub)
				}
				n := tripCount(g, K)
				if n != nil && !n.hasFV(K) {
					free := false
					for _, h := range tm.holes {
						if n.hasFV(h.t) {
							free = true
						}
					}
					if free {
						continue
					}
					n = e.simp(clampN(e.fullCount(n, st0.pc), st0), st0)
					N = n
					normal.from, normal.to = x.from, x.to
					haveN = true
					break
				}
			}
			if haveN {
				// continue with a properly bounded iteration number
				// (the values after the last iteration are those at N)
				K2 := newLV(IAdd(N, C(1)))
				for _, h := range tm.holes {
					if h.closed != nil {
						h.closed = subst(h.closed, map[*T]*T{K: linAtom(K2)})
						h.subst(sub, h.closed)
					}
				}
				K, k = K2, linAtom(K2)
				continue
			}
		}
		if !progress {
			break
		}
	}
	if !haveN {
		if Debug {
			fmt.Fprintf(os.Stderr, "loop %s: pc %v\n", def.name, st0.pc)
			for _, x := range exits {
				g := restrict(x.st.pc, st0.pc)
				if len(sub) > 0 {
					g = subst(g, sub)
				}
				fmt.Fprintf(os.Stderr, "loop %s: exit %v\n", def.name, g)
			}
			for _, h := range tm.holes {
				fmt.Fprintf(os.Stderr, "loop %s: hole %s: init %v update %v closed %v\n", def.name, h.val, h.init, h.upd, h.closed)
			}
		}
		e.giveUp(noBound)
	}
	for _, h := range tm.holes {
		if h.closed == nil {
			if Debug {
				fmt.Fprintf(os.Stderr, "loop %s: unsolved %s: init %v update %v\n", def.name, h.val, h.init, h.upd)
			}
			e.note("unsolved loop value in " + def.name)
			h.closed = unkOf(h, def.name)
			h.subst(sub, h.closed)
		}
	}
	// generic iteration
	KN := K
	at := func(x *T, s map[*T]*T) map[*T]*T {
		r := map[*T]*T{}
		for kk, v := range s {
			r[kk] = subst(v, map[*T]*T{KN: x})
		}
		return r
	}
	full := sub
	K3 := newLV(N)
	sub = at(linAtom(K3), full)
	m := e.mark()
	gst := mkState(st0.pc)
	K, k = K3, linAtom(K3)
	latch, exits, _ = def.iter(gst)
	genPanics := append([]PanicPt(nil), e.Panics[m.p:]...)
	genMut := append([]Mutation(nil), e.Mut[m.m:]...)
	e.rollback(m)
	stop := False
	type sx struct {
		x *edge
		g *T
	}
	var stops []sx
	for _, x := range exits {
		g := restrict(x.st.pc, gst.pc)
		if g == False {
			continue
		}
		if x.from == normal.from && x.to == normal.to {
			// within [0,N) the normal exit is not taken
			if e.simp(g, gst) != False && dependsOnData(g, K) {
				stops = append(stops, sx{x, g})
				stop = Or(stop, g)
			}
			continue
		}
		stops = append(stops, sx{x, g})
		stop = Or(stop, g)
	}
	allOK := True
	if stop != False {
		allOK = MkAll(N, K, Not(stop))
	}
	for _, p := range genPanics {
		// some iteration panics, and none before it leaves the loop
		g := restrict(p.Guard, st0.pc)
		if stop != False && g != False {
			J := newLV(K)
			g = And(g, MkAll(linAtom(K), J, Not(subst(stop, map[*T]*T{K: linAtom(J)}))))
		}
		if t := typed(g); t == False {
			p.Excused = true
		} else {
			g = t
		}
		p.Guard = And(st0.pc, Not(MkAll(N, K, Not(g))))
		p.Loop = true
		if p.Guard != False {
			e.Panics = append(e.Panics, p)
		}
	}
	for _, x := range genMut {
		e.Mut = append(e.Mut, x)
	}
	keep := e.mark()
	var out []*edge
	// normal exit
	pcN := And(st0.pc, allOK)
	if pcN != False {
		sub = at(N, full)
		fst := mkState(pcN)
		_, ex, _ := def.iter(fst)
		e.rollback(keep)
		got := false
		for _, x := range ex {
			if x.from == normal.from && x.to == normal.to {
				x.st.pc = pcN
				out = append(out, x)
				got = true
			}
		}
		if !got {
			e.giveUp("loop exit not reached at its bound")
		}
	}
	// early exits
	if stop != False {
		first := MkFirst(N, K, stop)
		pcS := And(st0.pc, Not(allOK))
		if pcS != False {
			if stop := oneType(stop); len(support(stop)) <= 3 {
				// at its first index the reason to stop holds
				pcS = And(pcS, lift1(fmt.Sprintf("stopat%d,%d", K.id, stop.id), first, func(f *T) *T {
					if f.op != OLin {
						return True
					}
					return subst(stop, map[*T]*T{K: f})
				}))
			}
			sub = at(first, full)
			fst := mkState(pcS)
			_, ex, _ := def.iter(fst)
			e.rollback(keep)
			rest := pcS
			var cand []*edge
			for _, x := range ex {
				isStop := false
				for _, s := range stops {
					if s.x.from == x.from && s.x.to == x.to {
						isStop = true
					}
				}
				if isStop {
					cand = append(cand, x)
				}
			}
			if len(cand) == 0 {
				e.giveUp("early exit not reached")
			}
			for i, x := range cand {
				if i == len(cand)-1 {
					x.st.pc = rest
				} else {
					x.st.pc = And(x.st.pc, pcS)
					rest = And(rest, Not(restrict(x.st.pc, pcS)))
				}
				if x.st.pc != False {
					out = append(out, x)
				}
			}
		}
	}
	return out
}

func (tm *tmpl) collectSub(t, l *T, stl *state, private func(*T) bool, sub map[*T]*T) bool {
	if _, ok := tm.byVal[t]; ok {
		return tm.collect(t, l, stl, private)
	}
	if l.op == OBot || subst(t, sub) == l {
		return true
	}
	switch t.op {
	case OStruct, OIface, OStrm, OHash, OTuple, QArr:
		if l.op != t.op || len(l.a) != len(t.a) {
			return false
		}
		for i := range t.a {
			if !tm.collectSub(t.a[i], l.a[i], stl, private, sub) {
				return false
			}
		}
		return true
	}
	return tm.collect(t, l, stl, private)
}

// dependsOnData: a guard mentions more than the comparison of the iteration
// number with its bound.
func dependsOnData(g, K *T) bool {
	for _, at := range support(g) {
		if at.op != BLe && at.op != BEq {
			return true
		}
	}
	return false
}

// loopUnk counts the values loop summaries lost.
var loopUnk int

func unkOf(h *hole, where string) *T {
	loopUnk++
	w := "loop value in " + where
	switch h.kind {
	case 'i':
		return linAtom(mks(AUF, "?"+w))
	case 'b':
		return UnkB(w)
	case 'r':
		return ringAtom(intern(&T{op: RUF, n: int64(h.val.rg.m), s: "?" + w}))
	case 'p':
		return ptAtom(mks(XUF, "?"+w))
	case 'q':
		return intern(&T{op: QUF, n: -1, s: "?" + w, ty: h.t.ty})
	}
	return Unk(w)
}

// fullCount replaces the count of a condition by the number of candidates
// where all are known to satisfy it.
func (e *Eng) fullCount(n, pc *T) *T {
	return lift1Dyn(n, func(n *T) *T {
		if n.op != OLin {
			return n
		}
		for _, x := range n.lin.ts {
			if x.t.op == ACount {
				v, b := openB(x.t)
				if e.simplifyUnder(MkAll(x.t.a[0], v, b[0]), pc) == True {
					n = IAdd(linComb(n, 1, linAtom(x.t), -x.c), IScale(x.t.a[0], x.c))
				}
			}
		}
		return n
	})
}

// tripCount: g is (A + B*K <= 0) with B<0, or (A + B*K == 0); the first K satisfying it.
func tripCount(g, K *T) *T {
	if g.op == OITE && g.a[0].op != BLe && g.a[0].op != BEq && isBool(g.a[1]) && !g.a[0].hasFV(K) {
		x, y := tripCount(g.a[1], K), tripCount(g.a[2], K)
		if x != nil && y != nil {
			return ite(boolAtom(g.a[0]), x, y)
		}
		return nil
	}
	if g.op != OITE || !(g.a[1] == True && g.a[2] == False || g.a[1] == False && g.a[2] == True) {
		// a decision over conditions not involving K
		if g.op == OITE && isBool(g.a[1]) && !g.a[0].hasFV(K) {
			x, y := tripCount(g.a[1], K), tripCount(g.a[2], K)
			if x != nil && y != nil {
				return ite(boolAtom(g.a[0]), x, y)
			}
		}
		return nil
	}
	at := g.a[0]
	neg := g.a[1] == False
	if at.op != BLe && at.op != BEq {
		return nil
	}
	L := at.a[0]
	if L.op != OLin {
		return nil
	}
	b := int64(0)
	A := C(L.lin.c)
	for _, x := range L.lin.ts {
		if x.t == K {
			b = x.c
		} else {
			if x.t.hasFV(K) {
				return nil
			}
			A = IAdd(A, IScale(valueOf(x.t), x.c))
		}
	}
	if b == 0 {
		return nil
	}
	if at.op == BEq {
		if neg {
			return nil
		}
		if b > 0 {
			A, b = IScale(A, -1), -b
		}
		// A - |b| K == 0
		if b == -1 {
			return A
		}
		return nil
	}
	if neg {
		// not (A + bK <= 0)  <=>  1 - A - bK <= 0
		A, b = ISub(C(1), A), -b
	}
	if b > 0 {
		return nil
	}
	if b == -1 {
		return A
	}
	return intOp(ADiv, IAdd(A, C(-b-1)), C(-b))
}

func clampN(n *T, st *state) *T {
	return liftL1("clampn", n, func(n *T) *T {
		return MaxI(C(0), n)
	})
}

// ---------------------------------------------------------------- recurrences

// solve returns the closed form of a hole as a function of the iteration
// number, or nil when it cannot yet be found.
func (e *Eng) solve(h *hole, u, k, K *T, round int, latch *state) *T {
	if os.Getenv("VG_SOLVE") != "" {
		println("SOLVE", string(h.kind), u.String(), h.t.String())
	}
	j := func(b *T) (*T, *T) { // fresh variable over [0,k)
		v := newLV(k)
		return v, subst(b, map[*T]*T{K: linAtom(v)})
	}
	if u == h.val {
		return h.init
	}
	if !u.hasFV(h.t) {
		if u == h.init {
			return h.init
		}
		if h.kind == 'o' && HasUnknown(u) != "" {
			return nil
		}
		prev := subst(u, map[*T]*T{K: ISub(k, C(1))})
		if !u.hasFV(K) && prev == h.init {
			return h.init
		}
		// shifted form: init is the value the update would give at k=-1
		if u.hasFV(K) && subst(u, map[*T]*T{K: C(-1)}) == h.init {
			return prev
		}
		return ite(Eq(k, C(0)), h.init, prev)
	}
	switch h.kind {
	case 'i':
		d := liftL2("isub", u, h.val, func(a, b *T) *T { return ISub(a, b) })
		if d.hasFV(h.t) {
			return nil
		}
		if d.op == OLin && !d.hasFV(K) {
			return IAdd(h.init, IMul(d, k))
		}
		// counts: constant leaves guarded by conditions
		v, dj := j(d)
		r := h.init
		ok := true
		leaves(dj, func(g, l *T) {
			c, isC := isConstInt(l)
			if !isC {
				ok = false
				return
			}
			if c != 0 {
				r = IAdd(r, IScale(MkCount(k, v, g), c))
			}
		})
		if ok {
			return r
		}
		return nil
	case 'b':
		at := h.val.a[0]
		u1, u0 := cofactor(u, at, true), cofactor(u, at, false)
		if u1.hasFV(h.t) || u0.hasFV(h.t) {
			return nil
		}
		switch {
		case u1 == True:
			v, g := j(u0)
			return Or(h.init, Not(MkAll(k, v, Not(g))))
		case u0 == False:
			v, g := j(u1)
			return And(h.init, MkAll(k, v, g))
		}
		return nil
	case 'r':
		a, b, ok := affine(u, h)
		if !ok {
			return nil
		}
		return e.affineClosed(h.val.rg.m, a, b, h.init, k, K)
	case 'p':
		a, b, ok := affineP(u, h)
		if !ok {
			return nil
		}
		one := RC(0, 1)
		if a == one {
			v, bj := j(b)
			return vPAdd(h.init, MkPSum(k, v, bj))
		}
		if !a.hasFV(K) {
			v, bj := j(b)
			pw := func(x *T) *T { return liftL2("rpow", a, x, RPow) }
			return vPAdd(vPMul(h.init, pw(k)), MkPSum(k, v, vPMul(bj, pw(ISub(ISub(k, C(1)), linAtom(v))))))
		}
		return nil
	case 'q':
		return e.solveSeq(h, u, k, K)
	case 'm':
		return e.solveMap(h, u, k, K)
	}
	return nil
}

func (e *Eng) affineClosed(m int, a, b, init, k, K *T) *T {
	one := RC(m, 1)
	v := newLV(k)
	aj, bj := subst(a, map[*T]*T{K: linAtom(v)}), subst(b, map[*T]*T{K: linAtom(v)})
	if a == one {
		return vAdd(init, MkSum(m, k, v, bj))
	}
	if b == RC(m, 0) {
		return vMul(init, MkProd(m, k, v, aj))
	}
	if !a.hasFV(K) {
		pw := func(x *T) *T { return liftL2("rpow", a, x, RPow) }
		return vAdd(vMul(init, pw(k)), MkSum(m, k, v, vMul(bj, pw(ISub(ISub(k, C(1)), linAtom(v))))))
	}
	return nil
}

// affine splits u = a*h + b.
func affine(u *T, h *hole) (a, b *T, ok bool) {
	ok = true
	m := h.val.rg.m
	atom := h.val.rg.ms[0].f[0].t
	name := fmt.Sprintf("aff%d", h.t.id)
	a = liftL1(name+"a", u, func(u *T) *T {
		if u.op != ORing {
			ok = false
			return RC(m, 0)
		}
		x, _, o := splitRing(u, atom, h.t)
		if !o {
			ok = false
		}
		return x
	})
	b = liftL1(name+"b", u, func(u *T) *T {
		if u.op != ORing {
			return RC(m, 0)
		}
		_, y, _ := splitRing(u, atom, h.t)
		return y
	})
	if a.hasFV(h.t) || b.hasFV(h.t) {
		ok = false
	}
	return
}

func splitRing(u, atom, ht *T) (a, b *T, ok bool) {
	m := u.rg.m
	a, b, ok = RC(m, 0), RC(m, 0), true
	for _, mo := range u.rg.ms {
		x := RBig(m, mo.c)
		has := false
		for _, f := range mo.f {
			if f.t == atom {
				if c, k := isConstInt(f.e); k && c == 1 && !has {
					has = true
					continue
				}
				ok = false
			}
			if f.t.hasFV(ht) || f.e.hasFV(ht) {
				ok = false
			}
			x = RMul(x, RPow(valueOf(f.t), f.e))
		}
		if has {
			a = RAdd(a, x)
		} else {
			b = RAdd(b, x)
		}
	}
	return
}

func affineP(u *T, h *hole) (a, b *T, ok bool) {
	ok = true
	base := h.val.pt[0].b
	name := fmt.Sprintf("affp%d", h.t.id)
	split := func(u *T) (*T, *T) {
		a, b := RC(0, 0), PZero()
		for _, p := range u.pt {
			if p.b == base {
				a = p.c
			} else {
				b = PAdd(b, PMul(valueOf(p.b), p.c))
			}
		}
		return a, b
	}
	a = liftL1(name+"a", u, func(u *T) *T {
		if u.op != OPt {
			ok = false
			return RC(0, 0)
		}
		x, _ := split(u)
		return x
	})
	b = liftL1(name+"b", u, func(u *T) *T {
		if u.op != OPt {
			return PZero()
		}
		_, y := split(u)
		return y
	})
	if a.hasFV(h.t) || b.hasFV(h.t) {
		ok = false
	}
	return
}

// solveSeq: appends, element updates, element-wise accumulation.
func (e *Eng) solveSeq(h *hole, u, k, K *T) *T {
	// append: every leaf is h ++ piece
	okApp := true
	piece := liftL1(fmt.Sprintf("piece%d", h.t.id), u, func(l *T) *T {
		switch {
		case l == h.t:
			return QEmpty()
		case l.op == QCat && l.a[0] == h.t:
			return SCat(l.a[1:]...)
		}
		okApp = false
		return QEmpty()
	})
	if okApp {
		if !piece.hasFV(h.t) {
			v := newLV(k)
			pj := subst(piece, map[*T]*T{K: linAtom(v)})
			return SCat2(h.init, MkFlat(k, v, pj))
		}
		// pieces that refer to the last element appended so far
		if r := e.solveChain(h, piece, k, K); r != nil {
			return r
		}
		// pieces that refer to earlier positions of the initial content only
		if p2, ok := e.replaceReads(h, piece, SLen(h.init), k, K, false); ok {
			v := newLV(k)
			return SCat2(h.init, MkFlat(k, v, subst(p2, map[*T]*T{K: linAtom(v)})))
		}
		return nil
	}
	// element update at position idx(k)
	okUpd := true
	var idx *T
	val := liftL1(fmt.Sprintf("updval%d", h.t.id), u, func(l *T) *T {
		switch {
		case l == h.t:
			return Bot
		case l.op == QUpd && l.a[0] == h.t:
			if idx != nil && idx != l.a[1] {
				okUpd = false
			}
			idx = l.a[1]
			return l.a[2]
		}
		okUpd = false
		return Bot
	})
	if okUpd && idx != nil && idx.op == OLin && !idx.hasFV(h.t) {
		b := int64(0)
		c := C(idx.lin.c)
		for _, x := range idx.lin.ts {
			if x.t == K {
				b = x.c
			} else {
				c = IAdd(c, IScale(valueOf(x.t), x.c))
			}
		}
		if (b == 1 || b == -1) && !c.hasFV(K) {
			// condition under which the element is written
			cond := liftL1(fmt.Sprintf("updcond%d", h.t.id), u, func(l *T) *T {
				if l == h.t {
					return False
				}
				return True
			})
			n := SLen(h.init)
			if val.hasFV(h.t) || cond.hasFV(h.t) {
				if r := e.solvePrefix(h, val, cond, idx, c, b, k, K); r != nil {
					return r
				}
				v2, ok1 := e.replaceReads(h, val, idx, k, K, true)
				c2, ok2 := e.replaceReads(h, cond, idx, k, K, true)
				if !ok1 || !ok2 {
					return nil
				}
				val, cond = v2, c2
			}
			elem := ite(cond, val, e.hAt(h.init, idx))
			v := newLV(k)
			if b == 1 {
				comp := MkComp(k, v, subst(elem, map[*T]*T{K: linAtom(v)}))
				end := IAdd(c, k)
				return SCat2(SSlice(h.init, C(0), c), comp, SSlice(h.init, end, ISub(n, end)))
			}
			// positions c, c-1, ..., c-k+1
			lo := IAdd(ISub(c, k), C(1))
			comp := MkComp(k, v, subst(elem, map[*T]*T{K: ISub(ISub(k, C(1)), linAtom(v))}))
			end := IAdd(c, C(1))
			return SCat2(SSlice(h.init, C(0), lo), comp, SSlice(h.init, end, ISub(n, end)))
		}
	}
	// element-wise accumulation: u has the length of h and each element is
	// affine in the same element of h
	return e.solveElems(h, u, k, K)
}

func SCat2(q ...*T) *T { return SCat(q...) }

func (e *Eng) hAt(q, i *T) *T { return SAt(q, i) }

// replaceReads replaces reads of the sequence hole in t: positions not yet
// written hold the initial element.
func (e *Eng) replaceReads(h *hole, t, idx, k, K *T, upd bool) (*T, bool) {
	reads := map[*T]*T{}
	ok := true
	seen := map[*T]bool{}
	var rec func(t *T)
	rec = func(t *T) {
		if seen[t] || !t.hasFV(h.t) || !ok {
			return
		}
		seen[t] = true
		var i *T
		switch {
		case t.op == AAt && t.a[0] == h.t:
			i = t.a[1]
		case t.op == SPIdx && t.a[0] == h.t:
			i = t.a[1]
		case t.op == OUF && len(t.a) == 2 && t.a[0] == h.t:
			i = t.a[1]
		case t.op == ALen && t.a[0] == h.t:
			reads[t] = SLen(h.init)
			return
		case t == h.t:
			ok = false
			return
		}
		if i != nil {
			// the element being written, or one written later
			if upd {
				d := ISub(i, idx)
				if !(d == C(0)) {
					ok = false
				}
			} else if Lt(i, idx) != True {
				ok = false
			}
			if i.hasFV(h.t) {
				ok = false
			}
			return
		}
		each(t, rec)
	}
	rec(t)
	if !ok {
		return nil, false
	}
	m := map[*T]*T{}
	for a, b := range reads {
		m[a] = b
	}
	m[h.t] = h.init
	return subst(t, m), true
}

// solvePrefix: q[c+k] = f(q[c+k-1]) with f affine: a running sum or product
// written to consecutive positions.
func (e *Eng) solvePrefix(h *hole, val, cond, idx, c *T, b int64, k, K *T) *T {
	if cond != True {
		return nil
	}
	prevIdx := ISub(idx, C(b))
	prev := Unbox(SAt(h.t, prevIdx))
	v := Unbox(val)
	if v.op != ORing && v.op != OITE || !v.hasFV(h.t) {
		return nil
	}
	if prev.op != ORing {
		return nil
	}
	ph := &hole{t: h.t, val: prev, kind: 'r'}
	a, bb, ok := affine(v, ph)
	if !ok {
		return nil
	}
	// value after writing position c+k is y(k+1) where y(0)=init[c-b]
	first := Unbox(SAt(h.init, ISub(c, C(b))))
	y := e.affineClosed(prev.rg.m, a, bb, first, k, K)
	if y == nil {
		return nil
	}
	shape := val
	wrap := func(x *T) *T { return rewrap(shape, x) }
	y1 := subst(y, map[*T]*T{K: IAdd(k, C(1))})
	n := SLen(h.init)
	w := newLV(k)
	if b == 1 {
		comp := MkComp(k, w, subst(wrap(y1), map[*T]*T{K: linAtom(w)}))
		end := IAdd(c, k)
		return SCat(SSlice(h.init, C(0), c), comp, SSlice(h.init, end, ISub(n, end)))
	}
	lo := IAdd(ISub(c, k), C(1))
	comp := MkComp(k, w, subst(wrap(y1), map[*T]*T{K: ISub(ISub(k, C(1)), linAtom(w))}))
	end := IAdd(c, C(1))
	return SCat(SSlice(h.init, C(0), lo), comp, SSlice(h.init, end, ISub(n, end)))
}

// rewrap puts x where the algebraic content of shape was.
func rewrap(shape, x *T) *T {
	s := firstLeaf(shape)
	switch s.op {
	case OIface:
		return mk(OIface, s.ty, rewrap(s.a[0], x))
	case OBox:
		return mk(OBox, s.ty, rewrap(s.a[0], x))
	}
	return x
}

// solveChain: h = h ++ [f(last of h)].
func (e *Eng) solveChain(h *hole, piece, k, K *T) *T {
	var el *T
	if p := firstLeaf(piece); p.op == QArr && len(p.a) == 1 && piece.op == QArr {
		el = p.a[0]
	} else {
		return nil
	}
	n := SLen(h.init)
	// reads of h must be of its last element
	last := Unbox(SAt(h.t, ISub(linAtom(mk(ALen, nil, h.t)), C(1))))
	v := Unbox(el)
	if last.op != ORing {
		return nil
	}
	// the position may also be written in terms of k
	alt := Unbox(SAt(h.t, ISub(IAdd(n, k), C(1))))
	for _, prev := range []*T{last, alt} {
		ph := &hole{t: h.t, val: prev, kind: 'r'}
		a, b, ok := affine(v, ph)
		if !ok || a == RC(prev.rg.m, 0) {
			continue
		}
		first := Unbox(SAt(h.init, ISub(n, C(1))))
		y := e.affineClosed(prev.rg.m, a, b, first, k, K)
		if y == nil {
			continue
		}
		y1 := subst(y, map[*T]*T{K: IAdd(k, C(1))})
		w := newLV(k)
		return SCat(h.init, MkComp(k, w, subst(rewrap(el, y1), map[*T]*T{K: linAtom(w)})))
	}
	return nil
}

func (e *Eng) solveElems(h *hole, u, k, K *T) *T {
	n := SLen(h.init)
	if n.hasFV(K) {
		return nil
	}
	w := newLV(n)
	i := linAtom(w)
	ok := true
	el := liftL1(fmt.Sprintf("elem%d,%d", h.t.id, w.id), u, func(l *T) *T {
		if !isSeq(l.op) && l != h.t {
			ok = false
			return Bot
		}
		return Unbox(SAt(l, i))
	})
	if !ok {
		return nil
	}
	self := Unbox(SAt(h.t, i))
	lens := map[*T]*T{mk(ALen, nil, h.t): n}
	el = subst(el, lens)
	if self.op == ORing && kindOf(el) == 'r' {
		a, b, ok := affine(el, &hole{t: h.t, val: self, kind: 'r'})
		if ok {
			if y := e.affineClosed(self.rg.m, a, b, Unbox(SAt(h.init, i)), k, K); y != nil {
				return MkComp(n, w, rewrap(SAt(h.t, i), y))
			}
		}
	}
	if self.op == OPt && kindOf(el) == 'p' {
		a, b, ok := affineP(el, &hole{t: h.t, val: self, kind: 'p'})
		if ok && a == RC(0, 1) {
			v := newLV(k)
			y := vPAdd(Unbox(SAt(h.init, i)), MkPSum(k, v, subst(b, map[*T]*T{K: linAtom(v)})))
			return MkComp(n, w, rewrap(SAt(h.t, i), y))
		}
	}
	if self.op == OLin && kindOf(el) == 'i' && el == self {
		return h.init
	}
	return nil
}

func (e *Eng) solveMap(h *hole, u, k, K *T) *T {
	if h.init.op != OMapE {
		return nil
	}
	ok := true
	var key, val *T
	cond := liftL1(fmt.Sprintf("mapc%d", h.t.id), u, func(l *T) *T {
		switch {
		case l == h.t:
			return False
		case l.op == OMapU && l.a[0] == h.t:
			if key != nil && (key != l.a[1] || val != l.a[2]) {
				ok = false
			}
			key, val = l.a[1], l.a[2]
			return True
		}
		ok = false
		return False
	})
	if !ok || key == nil || key.hasFV(h.t) || val.hasFV(h.t) || cond.hasFV(h.t) {
		return nil
	}
	v := newLV(k)
	m := map[*T]*T{K: linAtom(v)}
	return closeBs(OMapC, "", nil, k, v, subst(cond, m), subst(key, m), subst(val, m))
}

var _ = big.NewInt
var _ = token.NoPos

// hasLen: the term depends on the length of an unknown sequence.
func hasLen(t *T) bool {
	seen := map[*T]bool{}
	var rec func(t *T) bool
	rec = func(t *T) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == ALen {
			return true
		}
		found := false
		each(t, func(x *T) { found = found || rec(x) })
		return found
	}
	return rec(t)
}
