package vg

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// defaultContracts summarise library functions that are checked on their own
// and used as primitives everywhere else.
func defaultContracts() map[string]modelFn {
	return map[string]modelFn{
		// expand_message_xmd: at most 255 blocks
		"seed.ExpandMessageXmd": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			kind := ""
			if t := e.top(); t != nil && strings.HasSuffix(pkgPathOf(t), "/seed") {
				kind = "seed label "
			}
			e.sepSeen(kind, e.simp(e.seqOf(st, a[1]), st))
			return liftL1("xmd", e.simp(a[2], st), func(n *T) *T {
				return XmdRet(e, st, e.seqOf(st, a[0]), e.seqOf(st, a[1]), n)
			})
		},
		"curve.HashToCurveRo": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			e.sepSeen("", e.simp(e.seqOf(st, a[2]), st))
			p := liftL2("h2c", e.seqOf(st, a[1]), e.seqOf(st, a[2]), H2C)
			return tup(ifP(e.newPoint(st, p)), Nil)
		},
		"key.ckdpub": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			k, c, i := e.contentOf(st, a[0]), e.seqOf(st, a[1]), e.seqOf(st, a[2])
			key, chain, off := Ckd(k, c, i)
			return tup(ifP(e.newPoint(st, key)), e.bytesVal(st, chain, types.NewSlice(TyByte)), ifS(e.newScalar(st, off)), Nil)
		},
		"key.DerivationIndex.Next": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			q := liftL1("nextidx", e.seqOf(st, a[0]), func(q *T) *T { return fixStr("nextidx", -1, q) })
			return e.bytesVal(st, q, f.Signature.Results().At(0).Type())
		},
		"key.DerivationPath.DeriveTweak": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			path := e.View(st, a[0], f.Params[0].Type())
			k := e.contentOf(st, a[1])
			t := liftL2("tweak", k, path, func(k, p *T) *T { return ringAtom(intern(&T{op: RUF, s: "tweak", a: []*T{k, p}})) })
			c := liftL2("tchain", k, path, func(k, p *T) *T { return fixStr("tchain", 32, k, p) })
			return tup(ifS(e.newScalar(st, t)), e.bytesVal(st, c, types.NewSlice(TyByte)), Nil)
		},
		// coefficients of distinct indices: opaque functions of the value, the
		// indices and the position
		"poly.lagrangeCoefficients.AtValue": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			v, xs := e.contentOf(st, a[1]), e.simp(e.seqOf(st, a[2]), st)
			retT := f.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			coefs := lift1Dyn(xs, func(xs *T) *T {
				n := SLen(xs)
				i := newLV(n)
				c := liftL1("lagr", v, func(v *T) *T {
					return ite(Le(n, C(1)), RC(0, 1), ringAtom(intern(&T{op: RUF, s: "lagr", a: []*T{v, xs, linAtom(i)}})))
				})
				return MkComp(n, i, ifS(mk(OBox, TyScalar, c)))
			})
			bad := lift1Dyn(xs, func(xs *T) *T {
				n := SLen(xs)
				i := newLV(n)
				return Or(Le(n, C(0)), Not(MkNoDup(n, i, SAt(xs, linAtom(i)))))
			})
			bad = e.simplifyUnder(bad, st.pc)
			if bad == True {
				return tup(Nil, Err)
			}
			ft := retT.Underlying().(*types.Struct).Field(0).Type()
			obj := e.newObj(st, retT, mk(OStruct, retT, e.bytesVal(st, coefs, ft)))
			return tup(ite(bad, Nil, obj), ite(bad, Err, Nil))
		},
	}
}

// Xmd is the expansion of a message.
func Xmd(msg, dst, n *T) *T {
	k := int64(-1)
	if c, ok := isConstInt(n); ok {
		k = c
	}
	return intern(&T{op: QUF, s: "xmd", n: k, ty: TyByte, a: []*T{msg, dst, n}})
}

func XmdRet(e *Eng, st *state, msg, dst, n *T) *T {
	out := liftL2("xmd"+n.String(), msg, dst, func(m, d *T) *T { return Xmd(m, d, n) })
	ok := Le(n, C(8160))
	return tup(ite(ok, e.bytesVal(st, out, types.NewSlice(TyByte)), Nil), ite(ok, Nil, Err))
}

// H2C is the hash-to-curve of a message.
func H2C(msg, dst *T) *T { return ptAtom(mks(XUF, "h2c", msg, dst)) }

// Ckd is one public child derivation: new key, new chain key, offset.
func Ckd(k, c, i *T) (key, chain, off *T) {
	off = liftL("ckdoff", []*T{k, c, i}, func(a []*T) *T { return ringAtom(intern(&T{op: RUF, s: "ckdoff", a: a})) })
	chain = liftL("ckdchain", []*T{k, c, i}, func(a []*T) *T { return fixStr("ckdchain", 32, a...) })
	key = vPAdd(k, vPMul(PG(), off))
	return
}
