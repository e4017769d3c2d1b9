package vg

import (
	"go/token"
	"go/types"
)

// cborData is the encoding of a value.
func cborData(v *T) *T {
	return intern(&T{op: QUF, s: "cbor", n: -1, ty: TyByte, a: []*T{v}})
}

// uncbor rebuilds a value of type t, in place of cur, from the view that was
// encoded; ok is false where the outcome is not known.
func (e *Eng) uncbor(st *state, v, cur *T, t types.Type, d int) (r *T, ok bool) {
	if v.op == OITE || d > 8 {
		return nil, false
	}
	if isNamed(t, TyScalar) || isNamed(t, TyPoint) {
		if !Low && (v.op == ORing && v.rg.m == 0 && isNamed(t, TyScalar) || v.op == OPt && isNamed(t, TyPoint)) {
			return v, true
		}
		return nil, false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 && v.op == OLin {
			return v, true
		}
	case *types.Pointer:
		var old *T
		if cur != nil && cur.op == ORef {
			old = e.load(st, cur)
		}
		c, ok := e.uncbor(st, v, old, u.Elem(), d+1)
		if !ok {
			return nil, false
		}
		if cur != nil && cur.op == ORef {
			e.store(st, cur, c, e.top(), token.NoPos)
			return cur, true
		}
		return e.newObj(st, u.Elem(), c), true
	case *types.Interface:
		if cur != nil && cur.op == OIface {
			c, ok := e.uncbor(st, v, cur.a[0], cur.ty, d+1)
			if !ok {
				return nil, false
			}
			return mk(OIface, cur.ty, c), true
		}
	case *types.Struct:
		if v.op == OStruct && sameTy(v.ty, t) && len(v.a) == u.NumFields() {
			a := make([]*T, len(v.a))
			for i := range a {
				var old *T
				if cur != nil && cur.op == OStruct && len(cur.a) == len(a) {
					old = cur.a[i]
				}
				if a[i], ok = e.uncbor(st, v.a[i], old, u.Field(i).Type(), d+1); !ok {
					return nil, false
				}
			}
			return mk(OStruct, t, a...), true
		}
	case *types.Array:
		if v.op == QArr && int64(len(v.a)) == u.Len() {
			a := make([]*T, len(v.a))
			for i := range a {
				var old *T
				if cur != nil && cur.op == QArr && len(cur.a) == len(a) {
					old = cur.a[i]
				}
				if a[i], ok = e.uncbor(st, v.a[i], old, u.Elem(), d+1); !ok {
					return nil, false
				}
			}
			return mkArr(a), true
		}
	case *types.Slice:
		if !isSeq(v.op) {
			return nil, false
		}
		if b, isb := u.Elem().Underlying().(*types.Basic); isb && b.Kind() == types.Uint8 {
			// a raw message is the encoding itself
			if v.op == QUF && v.s == "cbor" || !isRaw(t) {
				return e.bytesVal(st, v, t), true
			}
			return nil, false
		}
		p, isp := u.Elem().(*types.Pointer)
		if !isp {
			return nil, false
		}
		box := func(x *T) (*T, bool) {
			c, ok := e.uncbor(st, x, nil, p.Elem(), d+1)
			if !ok {
				return nil, false
			}
			return mk(OBox, p.Elem(), c), true
		}
		if v.op == QArr {
			a := make([]*T, len(v.a))
			for i := range a {
				if a[i], ok = e.uncbor(st, v.a[i], nil, u.Elem(), d+1); !ok {
					return nil, false
				}
			}
			return e.bytesVal(st, mkArr(a), t), true
		}
		n := SLen(v)
		if n.op != OLin {
			return nil, false
		}
		lv := newLV(n)
		b, ok := box(SAt(v, linAtom(lv)))
		if !ok {
			return nil, false
		}
		return e.bytesVal(st, MkComp(n, lv, b), t), true
	}
	return nil, false
}

func (e *Eng) cborUnmarshal(st *state, a []*T) *T {
	data := e.seqOf(st, a[0])
	return e.fork(st, a[1], func(st *state, l *T) *T {
		if l.op != OIface {
			return ite(UnkB("cbor decoding"), Nil, Err)
		}
		p, ok := l.ty.Underlying().(*types.Pointer)
		if !ok {
			return Err
		}
		return e.fork(st, e.simp(data, st), func(st *state, data *T) *T {
			if data.op == QUF && data.s == "cbor" && l.a[0].op == ORef {
				if v, ok := e.uncbor(st, data.a[0], e.simp(e.load(st, l.a[0]), st), p.Elem(), 0); ok {
					e.store(st, l.a[0], v, e.top(), token.NoPos)
					return Nil
				}
			}
			okc := boolAtom(intern(&T{op: BUF, s: "cborok", ty: p.Elem(), a: []*T{data}}))
			v := SymValue(intern(&T{op: SPStr, s: "cbor", ty: p.Elem(), a: []*T{data}}), p.Elem())
			// a refused encoding may have been decoded in part: what the
			// target then holds is as free as what it holds on success
			e.fork(st, l.a[0], func(st *state, r *T) *T {
				e.store(st, r, v, e.top(), token.NoPos)
				return C(0)
			})
			return ite(okc, Nil, Err)
		})
	})
}

func isRaw(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "RawMessage"
}
