package vg

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// onMap runs fn for each map object the pointer m may denote; c is its content.
func (e *Eng) onMap(st *state, m *T, fn func(st *state, r, c *T) *T) *T {
	return e.fork(st, e.simp(m, st), func(st *state, r *T) *T {
		if r == Nil {
			// methods of a nil *btree.Map dereference it
			e.Panics = append(e.Panics, PanicPt{Guard: st.pc, What: "nil map", Fn: e.top()})
			st.pc = False
			return Bot
		}
		if r.op != ORef {
			e.giveUp("map " + opName(r) + r.s)
		}
		return e.fork(st, e.load(st, r), func(st *state, c *T) *T { return fn(st, r, c) })
	})
}

func (e *Eng) mapKey(st *state, k *T) *T {
	if k.op == OLin || k.op == OITE || isSeq(k.op) {
		return k
	}
	return k
}

func keyEq(a, b *T) *T {
	return liftL2("keyeq", a, b, func(a, b *T) *T {
		switch {
		case a == b:
			return True
		case a.op == OLin && b.op == OLin:
			if x, y := spKey(a), spKey(b); x != nil && y != nil && x.a[0] == y.a[0] {
				return Eq(x.a[1], y.a[1])
			}
			return Eq(a, b)
		case isSeq(a.op) && isSeq(b.op):
			return SEq(a, b)
		}
		return UnkB("map key comparison")
	})
}

// spKey recognises the i-th key of a symbolic map.
func spKey(t *T) *T {
	if t.op == OLin && t.lin.c == 0 && len(t.lin.ts) == 1 && t.lin.ts[0].c == 1 {
		if a := t.lin.ts[0].t; a.op == AIVar && a.a[0].op == SPKey {
			return a.a[0]
		}
	}
	return nil
}

func mapLenOf(path *T) *T { return linAtom(mks(AUF, "maplen", path)) }

// MapKeyAt is the i-th smallest key of a symbolic map.
func MapKeyAt(path, i *T, kt types.Type) *T { return SymValue(mk(SPKey, nil, path, i), kt) }

// MapValAt is the value stored under key k.
func MapValAt(path, k *T, vt types.Type) *T { return SymValue(mk(SPVal, nil, path, k), vt) }

func (e *Eng) mapCount(st *state, c *T) *T {
	switch c.op {
	case OMapE:
		return C(0)
	case OMapL:
		return C(int64(len(c.a) / 2))
	case OMapS:
		return mapLenOf(c.a[0])
	case OMapU:
		_, in := e.mapGet(st, c.a[0], c.a[1], nil)
		return IAdd(e.mapCount(st, c.a[0]), ite(asBool(in), C(0), C(1)))
	case OMapC:
		v, b := openB(c)
		if spKey(b[1]) != nil {
			return MkCount(c.a[0], v, b[0])
		}
	}
	return linAtom(mks(AUF, "?size of "+opName(c)))
}

// mapGet looks a key up; vt may be nil when the value is not needed.
func (e *Eng) mapGet(st *state, c, k *T, vt types.Type) (v, ok *T) {
	zero := Nil
	if vt != nil {
		zero = zeroOf(vt)
	}
	switch c.op {
	case OITE:
		v1, o1 := e.mapGet(st, c.a[1], k, vt)
		v2, o2 := e.mapGet(st, c.a[2], k, vt)
		g := boolAtom(c.a[0])
		return ite(g, v1, v2), ite(g, o1, o2)
	case OMapE:
		return zero, False
	case OMapL:
		v, ok = zero, False
		for i := len(c.a) - 2; i >= 0; i -= 2 {
			q := keyEq(c.a[i], k)
			v, ok = ite(q, c.a[i+1], v), Or(q, ok)
		}
		return
	case OMapS:
		in := True
		if x := spKey(k); x == nil || x.a[0] != c.a[0] {
			in = liftL1("mapin", k, func(k *T) *T { return boolAtom(mks(BUF, "mapin", c.a[0], k)) })
		}
		if vt == nil {
			return Nil, in
		}
		val := liftL1("mapval"+fmt.Sprint(tyID(vt)), k, func(k *T) *T { return MapValAt(c.a[0], k, vt) })
		return ite(in, val, zero), in
	case OMapU:
		v, ok = e.mapGet(st, c.a[0], k, vt)
		q := keyEq(c.a[1], k)
		return ite(q, c.a[2], v), Or(q, ok)
	case OMapC:
		lv, b := openB(c)
		if x := spKey(b[1]); x != nil && x.a[1] == linAtom(lv) {
			if y := spKey(k); y != nil && y.a[0] == x.a[0] {
				in := openWith(c, y.a[1])
				return ite(in[0], in[2], zero), in[0]
			}
		}
		in := Not(MkAll(c.a[0], lv, Not(And(b[0], keyEq(b[1], k)))))
		return Unk("value of a computed map"), in
	case OHole:
		in := boolAtom(mks(BUF, "mapin", c, k))
		return Unk("value of a computed map"), in
	}
	return Unk("map lookup"), UnkB("map lookup in " + opName(c))
}

func (e *Eng) mapSet(st *state, c, k, v *T) *T {
	switch c.op {
	case OMapE:
		return mk(OMapL, nil, k, v)
	case OMapL:
		// literal keys with decided order
		if k.op == QBytes || isK(k) || constKey(k) != nil {
			type kv struct{ k, v *T }
			var es []kv
			ok := true
			found := false
			for i := 0; i < len(c.a); i += 2 {
				if c.a[i] == k {
					es = append(es, kv{k, v})
					found = true
					continue
				}
				if keyEq(c.a[i], k) != False || c.a[i].op != k.op || !(c.a[i].op == QBytes || isK(c.a[i]) && isK(k) || sameMapKey(c.a[i], k)) {
					ok = false
				}
				es = append(es, kv{c.a[i], c.a[i+1]})
			}
			if ok {
				if !found {
					es = append(es, kv{k, v})
				}
				sort.SliceStable(es, func(i, j int) bool {
					if es[i].k.op == QBytes {
						return es[i].k.s < es[j].k.s
					}
					if x, y := constKey(es[i].k), constKey(es[j].k); x != nil && y != nil {
						return x.a[1].lin.c < y.a[1].lin.c
					}
					return es[i].k.lin.c < es[j].k.lin.c
				})
				var a []*T
				for _, x := range es {
					a = append(a, x.k, x.v)
				}
				return mk(OMapL, nil, a...)
			}
		}
	}
	return mk(OMapU, nil, c, k, v)
}

func isK(t *T) bool { _, ok := isConstInt(t); return ok }

// mapSeqs are the keys and values in ascending key order.
func (e *Eng) mapSeqs(st *state, c *T, f *ssa.Function) (ks, vs *T) {
	switch c.op {
	case OMapE:
		return QEmpty(), QEmpty()
	case OMapL:
		if e.ordered(c) {
			var k, v []*T
			for i := 0; i < len(c.a); i += 2 {
				k = append(k, c.a[i])
				v = append(v, c.a[i+1])
			}
			return mkArr(k), mkArr(v)
		}
	case OMapS:
		kt, vt := mapTypes(c.ty)
		n := mapLenOf(c.a[0])
		lv := newLV(n)
		key := MapKeyAt(c.a[0], linAtom(lv), kt)
		return MkComp(n, lv, key), MkComp(n, lv, MapValAt(c.a[0], key, vt))
	case OMapC:
		lv, b := openB(c)
		if x := spKey(b[1]); x != nil && x.a[1] == linAtom(lv) {
			return MkFilt(c.a[0], lv, b[0], b[1]), MkFilt(c.a[0], lv, b[0], b[2])
		}
	}
	return Unk("keys of " + opName(c)), Unk("values of " + opName(c))
}

// ordered: the keys of a literal map are constants (kept sorted) or single.
func (e *Eng) ordered(c *T) bool {
	if len(c.a) <= 2 {
		return true
	}
	for i := 0; i < len(c.a); i += 2 {
		if !(c.a[i].op == QBytes || isK(c.a[i]) || constKey(c.a[i]) != nil && sameMapKey(c.a[i], c.a[0])) {
			return false
		}
	}
	return true
}

// constKey: the i-th key of a symbolic map for a constant i.
func constKey(k *T) *T {
	if x := spKey(k); x != nil && isK(x.a[1]) {
		return x
	}
	return nil
}

func sameMapKey(a, b *T) bool {
	x, y := constKey(a), constKey(b)
	return x != nil && y != nil && x.a[0] == y.a[0]
}

// mapScan calls a function value on every entry in key order until it returns false.
func (e *Eng) mapScan(st *state, f *ssa.Function, m, fn *T, rev bool) *T {
	call := func(st *state, k, v *T) *T {
		return e.fork(st, e.simp(fn, st), func(st *state, l *T) *T {
			if l.op != OClo {
				e.giveUp("scan with " + opName(l))
			}
			return asBool(e.CallFn(st, e.fns[l.n], []*T{k, v}, l.a))
		})
	}
	return e.onMap(st, m, func(st *state, r, c *T) *T {
		switch c.op {
		case OMapE:
			return tup()
		case OMapL:
			if !e.ordered(c) {
				break
			}
			var done *state
			cur := st.clone()
			for i := 0; i < len(c.a) && cur != nil; i += 2 {
				ret := call(cur, c.a[i], c.a[i+1])
				stop := cur.clone()
				stop.pc = And(cur.pc, Not(ret))
				cur.pc = And(cur.pc, ret)
				if stop.pc != False {
					done = joinStates(done, stop)
				}
				if cur.pc == False {
					cur = nil
				}
			}
			done = joinStates(done, cur)
			if done == nil {
				st.pc = False
				return Bot
			}
			st.pc, st.mem = done.pc, done.mem
			return tup()
		case OMapS, OMapC:
			var n *T
			var kv func(i *T) (*T, *T)
			cond := func(i *T) *T { return True }
			if c.op == OMapS {
				kt, vt := mapTypes(c.ty)
				n = mapLenOf(c.a[0])
				kv = func(i *T) (*T, *T) {
					k := MapKeyAt(c.a[0], i, kt)
					return k, MapValAt(c.a[0], k, vt)
				}
			} else {
				lv, b := openB(c)
				x := spKey(b[1])
				if x == nil || x.a[1] != linAtom(lv) {
					break
				}
				n = c.a[0]
				cond = func(i *T) *T { return openWith(c, i)[0] }
				kv = func(i *T) (*T, *T) { b := openWith(c, i); return b[1], b[2] }
			}
			idx := &ssa.Phi{}
			exitB, stopB := &ssa.BasicBlock{}, &ssa.BasicBlock{}
			head := &ssa.BasicBlock{}
			saved := st.env
			st.env = map[ssa.Value]*T{idx: C(0)}
			def := &loopDef{
				phis: []ssa.Value{idx},
				name: "Scan",
				iter: func(st *state) (*state, []*edge, bool) {
					i := st.env[idx]
					more := e.simp(Lt(i, n), st)
					var exits []*edge
					if more != True {
						x := st.clone()
						x.pc = And(st.pc, Not(more))
						if x.pc != False {
							exits = append(exits, &edge{head, exitB, x, nil})
						}
					}
					if more == False {
						return nil, exits, true
					}
					b := st.clone()
					b.pc = And(st.pc, more)
					skip := b.clone()
					g := e.simp(cond(i), b)
					skip.pc = And(b.pc, Not(g))
					b.pc = And(b.pc, g)
					var latch *state
					if b.pc != False {
						k, v := kv(i)
						ret := call(b, k, e.unboxInto(b, v, nil))
						if ret != True {
							x := b.clone()
							x.pc = And(b.pc, Not(ret))
							if x.pc != False {
								exits = append(exits, &edge{head, stopB, x, nil})
							}
						}
						b.pc = And(b.pc, ret)
						b.env = map[ssa.Value]*T{idx: IAdd(i, C(1))}
						if b.pc != False {
							latch = b
						}
					}
					if skip.pc != False {
						skip.env = map[ssa.Value]*T{idx: IAdd(i, C(1))}
						latch = joinStates(latch, skip)
					}
					return latch, exits, more == True
				},
			}
			outs := e.runLoop(def, st)
			var done *state
			for _, o := range outs {
				o.st.env = nil
				done = joinStates(done, o.st)
			}
			if done == nil {
				st.pc = False
				return Bot
			}
			st.pc, st.mem, st.env = done.pc, done.mem, saved
			return tup()
		}
		e.giveUp("scan of " + opName(c))
		return nil
	})
}

// ---------------------------------------------------------------- built-in maps

func (e *Eng) mapUpdate(st *state, f *ssa.Function, in *ssa.MapUpdate) {
	k, v := e.val(st, in.Key), e.val(st, in.Value)
	e.fork(st, e.simp(e.val(st, in.Map), st), func(st *state, r *T) *T {
		if r == Nil {
			e.Panics = append(e.Panics, PanicPt{Guard: st.pc, What: "write to a nil map", Fn: f, Pos: in.Pos()})
			st.pc = False
			return Bot
		}
		if r.op != ORef {
			e.giveUp("map update of " + opName(r))
		}
		c := e.load(st, r)
		n := lift1Dyn(c, func(c *T) *T { return e.mapSet(st, c, k, v) })
		e.store(st, r, n, f, in.Pos())
		return C(0)
	})
}

func (e *Eng) lookup(st *state, in *ssa.Lookup) *T {
	x := e.simp(e.val(st, in.X), st)
	k := e.val(st, in.Index)
	if _, ok := in.X.Type().Underlying().(*types.Basic); ok { // string index
		return SAt(x, k)
	}
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	var v, ok *T = Bot, Bot
	leaves(x, func(g, r *T) {
		var vv, oo *T
		switch {
		case r == Nil:
			vv, oo = zeroOf(vt), False
		case r.op == ORef:
			vv, oo = e.mapGet(st, e.load(st, r), k, vt)
		default:
			vv, oo = Unk("map "+opName(r)), UnkB("map "+opName(r))
		}
		v, ok = ite(g, vv, v), ite(g, oo, ok)
	})
	v = e.unboxInto(st, v, vt)
	if in.CommaOk {
		return tup(v, ok)
	}
	return v
}

func (e *Eng) mapLen(st *state, x *T) *T {
	r := Bot
	leaves(x, func(g, l *T) {
		var n *T
		switch {
		case l == Nil:
			n = C(0)
		case l.op == ORef:
			n = lift1Dyn(e.load(st, l), func(c *T) *T { return e.mapCount(st, c) })
		default:
			n = linAtom(mks(AUF, "?length of a map"))
		}
		r = ite(g, n, r)
	})
	return r
}

// ---------------------------------------------------------------- boxes and views

// rewrite replaces the subterms for which f answers, everywhere.
func rewrite(t *T, f func(*T) (*T, bool)) *T {
	memo := map[*T]*T{}
	var rec func(t *T) *T
	rec = func(t *T) *T {
		if r, ok := memo[t]; ok {
			return r
		}
		if r, ok := f(t); ok {
			memo[t] = r
			return r
		}
		switch t.op {
		case OLin, ORing, OPt, OObj, OSObj, OGlob, QBytes, OClo:
			memo[t] = t
			return t
		}
		if len(t.a) == 0 || isIntAtom(t.op) || isBoolAtom(t.op) || isRingAtom(t.op) || isPtAtom(t.op) {
			memo[t] = t
			return t
		}
		if t.op == OITE {
			if isBool(t) {
				memo[t] = t
				return t
			}
			r := mkITEv(t.a[0], rec(t.a[1]), rec(t.a[2]))
			memo[t] = r
			return r
		}
		a := make([]*T, len(t.a))
		ch := false
		for i, x := range t.a {
			a[i] = rec(x)
			ch = ch || a[i] != x
		}
		r := t
		if ch {
			r = intern(&T{op: t.op, n: t.n, s: t.s, ty: t.ty, a: a})
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// box replaces references to objects private to an iteration by their content.
func (e *Eng) box(st *state, v *T, private func(root *T) bool) *T {
	depth := 0
	var f func(t *T) (*T, bool)
	bx := func(t *T) *T {
		depth++
		if depth > 12 {
			e.giveUp("cyclic structure")
		}
		r := rewrite(t, f)
		depth--
		return r
	}
	f = func(t *T) (*T, bool) {
		switch t.op {
		case OSlice:
			r := t.a[0]
			if r.op == ORef && private(r.a[0]) {
				q := nav(e.content(st, r.a[0]), r.a[1:])
				return mk(OSlice, nil, mk(OBox, nil, bx(q)), t.a[1], t.a[2]), true
			}
		case ORef:
			if private(t.a[0]) {
				c := nav(e.content(st, t.a[0]), t.a[1:])
				return mk(OBox, t.a[0].ty, bx(c)), true
			}
		}
		return nil, false
	}
	return bx(v)
}

// unboxInto gives boxed pointers of a plain value objects of their own.
func (e *Eng) unboxInto(st *state, v *T, t types.Type) *T {
	if !hasBox(v) {
		return v
	}
	return lift1Dyn(v, func(v *T) *T {
		switch v.op {
		case OBox:
			return e.newObj(st, v.ty, v.a[0])
		case OIface:
			return mk(OIface, v.ty, e.unboxInto(st, v.a[0], nil))
		case OSlice:
			if v.a[0].op == OBox {
				return mk(OSlice, nil, e.newObj(st, v.a[0].ty, v.a[0].a[0]), v.a[1], v.a[2])
			}
		case OStruct:
			a := make([]*T, len(v.a))
			for i, x := range v.a {
				a[i] = e.unboxInto(st, x, nil)
			}
			return mk(OStruct, v.ty, a...)
		}
		return v
	})
}

// View is the value v of type t with all pointers followed.
func (e *Eng) View(st *state, v *T, t types.Type) *T { return e.view(st, v, t, 0) }

func (e *Eng) view(st *state, v *T, t types.Type, d int) *T {
	if d > 14 {
		return Unk("deep structure")
	}
	v = e.simp(v, st)
	return lift1Dyn(v, func(v *T) *T {
		if v.op == OBot || v == Nil {
			if _, ok := t.Underlying().(*types.Slice); ok && v == Nil {
				return QEmpty()
			}
			return v
		}
		if v.op == OUF && strings.HasPrefix(v.s, "?") {
			return v
		}
		if v.op == OBox {
			et := v.ty
			if p, ok := t.Underlying().(*types.Pointer); ok {
				et = p.Elem()
			}
			if et == nil {
				return v.a[0]
			}
			return e.view(st, v.a[0], et, d+1)
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return v
		case *types.Pointer:
			if v.op != ORef {
				return Unk("pointer " + opName(v))
			}
			c := e.load(st, v)
			return e.view(st, c, u.Elem(), d+1)
		case *types.Slice:
			q := e.seqOf(st, v)
			return e.viewSeq(st, q, u.Elem(), d)
		case *types.Array:
			return e.viewSeq(st, v, u.Elem(), d)
		case *types.Struct:
			if v.op == ORing || v.op == OPt {
				return v
			}
			if isMapType(t) {
				return e.viewMap(st, v, t, d)
			}
			if Low && isNamed(t, tyNPoint) {
				return e.ptContent(st, v)
			}
			if v.op == OStruct {
				a := make([]*T, len(v.a))
				for i := range a {
					a[i] = e.view(st, v.a[i], u.Field(i).Type(), d+1)
				}
				return mk(OStruct, t, a...)
			}
			return v
		case *types.Interface:
			if isErrorType(t) {
				return v
			}
			if v.op == OIface {
				w := e.view(st, v.a[0], v.ty, d+1)
				if isNamed(t, TyEccScalar) || isNamed(t, TyEccPoint) || isNamed(t, TyEccField) {
					return w
				}
				return mk(OIface, v.ty, w)
			}
			return v
		}
		return v
	})
}

func plainType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Array:
		return plainType(u.Elem())
	}
	return false
}

func (e *Eng) viewSeq(st *state, q *T, et types.Type, d int) *T {
	if plainType(et) {
		return q
	}
	return lift1Dyn(e.simp(q, st), func(q *T) *T {
		if q.op == QBytes && q.s == "" {
			return q
		}
		if q.op == QArr {
			a := make([]*T, len(q.a))
			for i, x := range q.a {
				a[i] = e.view(st, x, et, d+1)
			}
			return mkArr(a)
		}
		if q.op == QCat {
			r := QEmpty()
			for _, x := range q.a {
				r = SCat(r, e.viewSeq(st, x, et, d))
			}
			return r
		}
		if q.op == QFilt {
			lv, b := openB(q)
			return MkFilt(q.a[0], lv, b[0], e.view(st, b[1], et, d+1))
		}
		if !isSeq(q.op) {
			return Unk("sequence " + opName(q) + q.s)
		}
		n := SLen(q)
		if n.op != OLin && n.op != OITE {
			return Unk("length")
		}
		lv := newLV(n)
		x := SAt(q, linAtom(lv))
		return MkComp(n, lv, e.view(st, x, et, d+1))
	})
}

func (e *Eng) viewMap(st *state, c *T, t types.Type, d int) *T {
	_, vt := mapTypes(t)
	switch c.op {
	case OMapL:
		a := append([]*T(nil), c.a...)
		for i := 1; i < len(a); i += 2 {
			a[i] = e.view(st, a[i], vt, d+1)
		}
		return mk(OMapL, nil, a...)
	case OMapU:
		return mk(OMapU, nil, e.viewMap(st, c.a[0], t, d), c.a[1], e.view(st, c.a[2], vt, d+1))
	case OMapC:
		lv, b := openB(c)
		return closeBs(OMapC, "", nil, c.a[0], lv, b[0], b[1], e.view(st, b[2], vt, d+1))
	}
	return c
}
