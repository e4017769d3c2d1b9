package vg

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
	"verif/checker/load"
)

// Low mode analyses the curve package itself, on top of the meaning of the
// arithmetic library: a native.Field holds a residue, a native.EllipticPoint
// a point or, while its coordinates are being assembled, a struct of them.

const native = "github.com/coinbase/kryptology/pkg/core/curves/native"

var (
	tyNField, tyNPoint, tyNParams types.Type
	tyArith                       = types.NewNamed(types.NewTypeName(token.NoPos, hashPkg, "Arith", nil), types.NewStruct(nil, nil), nil)
	paramsRef                     [2]*T
)

// lowSetup finds the library types and creates the field parameters.
func (e *Eng) lowSetup(p *load.Prog) {
	tyNField, tyNPoint, tyNParams = nil, nil, nil
	q := p.Pkgs[native]
	if q == nil || q.Types == nil {
		return
	}
	look := func(n string) types.Type {
		if o := q.Types.Scope().Lookup(n); o != nil {
			return o.Type()
		}
		return nil
	}
	tyNField, tyNPoint, tyNParams = look("Field"), look("EllipticPoint"), look("FieldParams")
	for m, md := range []*big.Int{Q, P} {
		paramsRef[m] = nil
		if tyNParams == nil {
			continue
		}
		z := zeroOf(tyNParams)
		if z.op != OStruct || len(z.a) == 0 {
			continue
		}
		b := e.newObj(e.Base, nil, bigK(md))
		a := append([]*T(nil), z.a...)
		a[len(a)-1] = b
		paramsRef[m] = e.newObj(e.Base, tyNParams, mk(OStruct, tyNParams, a...))
	}
}

// fieldMod is the modulus of a symbolic native.Field, by the type that holds it.
func fieldMod(path *T) int {
	for p := path; p != nil && len(p.a) > 0; p = p.a[0] {
		if p.op == SPFld {
			switch {
			case isNamed(p.ty, TyScalar):
				return 0
			case isNamed(p.ty, TyField):
				return 1
			}
			return -1
		}
		if p.op != SPDrf {
			return -1
		}
	}
	return -1
}

// lowNav reads the parameters of a field.
func lowNav(v, p *T) *T {
	if v.op == ORing && p.op == PFld && p.n == 1 && paramsRef[v.rg.m] != nil {
		return paramsRef[v.rg.m]
	}
	return nil
}

func (e *Eng) newNField(st *state, c *T) *T { return e.newObj(st, tyNField, c) }

// newNPoint is a new point with coordinate objects of its own.
func (e *Eng) newNPoint(st *state, x, y, z *T) *T {
	return e.newObj(st, tyNPoint, e.pointStruct(st, x, y, z))
}

func (e *Eng) pointStruct(st *state, x, y, z *T) *T {
	return mk(OStruct, tyNPoint, e.newNField(st, x), e.newNField(st, y), e.newNField(st, z), Nil, mk(OIface, tyArith, Nil))
}

// ptContent is the point that coordinates denote.
func (e *Eng) ptContent(st *state, c *T) *T {
	c = e.simp(c, st)
	return lift1Dyn(c, func(c *T) *T {
		if c.op != OStruct || len(c.a) < 3 {
			return c
		}
		return affPoint(e.load(st, c.a[0]), e.load(st, c.a[1]), e.load(st, c.a[2]))
	})
}

// affPoint is the point with the given coordinates, z being 0 or 1.
func affPoint(x, y, z *T) *T {
	return lift("affpoint", []*T{x, y, z}, func(a []*T) *T {
		x, y, z := a[0], a[1], a[2]
		if x.op != ORing || y.op != ORing || z.op != ORing {
			return badOp("coordinates", x, y, z)
		}
		k, ok := isRingConst(z)
		switch {
		case ok && k.Sign() == 0:
			return PZero()
		case ok && k.Cmp(big.NewInt(1)) == 0:
			return MkAff(x, y)
		}
		return Unk("projective coordinates")
	})
}

var gX, _ = new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
var gY, _ = new(big.Int).SetString("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16)

// MkAff is the point with affine coordinates x, y.
func MkAff(x, y *T) *T {
	if x == RBig(1, gX) && y == RBig(1, gY) {
		return PG()
	}
	if p := coordOf(x, "affx"); p != nil && coordOf(y, "affy") == p {
		return p
	}
	return ptAtom(mk(XAff, nil, x, y))
}

func coordOf(x *T, name string) *T {
	if x.op == ORing && len(x.rg.ms) == 1 && len(x.rg.ms[0].f) == 1 {
		f := x.rg.ms[0].f[0]
		if f.t.op == RUF && f.t.s == name && ringAtom(f.t) == x {
			return f.t.a[0]
		}
	}
	return nil
}

// lowPt is the point an operand holds.
func (e *Eng) lowPt(st *state, v *T) *T { return e.ptContent(st, e.contentOf(st, v)) }

func lowSqrt(x *T) *T {
	return liftL1("lowsqrt", x, func(x *T) *T {
		if c, ok := isRingConst(x); ok && x.rg.m == 1 {
			y := new(big.Int).Exp(c, new(big.Int).Rsh(new(big.Int).Add(P, big.NewInt(1)), 2), P)
			return RBig(1, y)
		}
		return SqrtOf(x)
	})
}

func lowIsSquare(x *T) *T {
	return liftL1("lowissq", x, func(x *T) *T {
		if c, ok := isRingConst(x); ok && x.rg.m == 1 {
			if big.Jacobi(c, P) >= 0 {
				return True
			}
			return False
		}
		return IsSquare(x)
	})
}

func lowPow(b, x *T) *T {
	return liftL2("lowpow", b, x, func(b, x *T) *T {
		if b.op != ORing || x.op != ORing {
			return badOp("pow", b, x)
		}
		k, ok := isRingConst(x)
		if !ok {
			return Unk("power")
		}
		if k.Cmp(new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(3)), 2)) == 0 && b.rg.m == 1 {
			return Progenitor(b)
		}
		if k.IsInt64() && k.Int64() < 1000 {
			return RPow(b, C(k.Int64()))
		}
		return ringAtom(intern(&T{op: RUF, n: int64(b.rg.m), s: "pow" + k.Text(16), a: []*T{b}}))
	})
}

func vOnRing(what string, x *T, f func(x *T) *T) *T {
	return liftL1(what, x, func(x *T) *T {
		if x.op != ORing {
			return badOp(what, x)
		}
		return f(x)
	})
}

var lowModels map[string]modelFn

func init() {
	lowModels = map[string]modelFn{}
	fm := func(n string, f modelFn) { lowModels[native+".Field."+n] = f }
	pm := func(n string, f modelFn) { lowModels[native+".EllipticPoint."+n] = f }
	self := func(x *T) *T { return x }
	set := func(g func(e *Eng, st *state, a []*T) *T) modelFn {
		return func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			e.setRecv(st, a[0], g(e, st, a))
			return a[0]
		}
	}
	// the modulus of a field is that of its present content
	modOf := func(e *Eng, st *state, a *T, g func(m int) *T) *T {
		return liftL1("modof", e.contentOf(st, a), func(c *T) *T {
			if c.op != ORing {
				return badOp("field without parameters", c)
			}
			return g(c.rg.m)
		})
	}
	fm("Add", bin(vAdd, self))
	fm("Sub", bin(vSub, self))
	fm("Mul", bin(vMul, self))
	fm("Neg", un(vNeg, self))
	fm("Square", un(func(x *T) *T { return vMul(x, x) }, self))
	fm("Double", un(func(x *T) *T { return vAdd(x, x) }, self))
	fm("Set", un(ident, self))
	fm("Exp", bin(lowPow, self))
	fm("SetZero", set(func(e *Eng, st *state, a []*T) *T { return modOf(e, st, a[0], func(m int) *T { return RC(m, 0) }) }))
	fm("SetOne", set(func(e *Eng, st *state, a []*T) *T { return modOf(e, st, a[0], func(m int) *T { return RC(m, 1) }) }))
	fm("SetUint64", set(func(e *Eng, st *state, a []*T) *T {
		return modOf(e, st, a[0], func(m int) *T { return vEmbed(m, a[1]) })
	}))
	fm("SetBigInt", set(func(e *Eng, st *state, a []*T) *T {
		x := e.load(st, refOf(a[1]))
		return modOf(e, st, a[0], func(m int) *T {
			return liftL1("bigfield"+mstr(m), x, func(x *T) *T {
				if v, ok := bigConst(x); ok {
					return RBig(m, v)
				}
				if x.op == OBig && len(x.a) == 1 && x.s == "" && x.a[0].op == ORing && x.a[0].rg.m == m {
					return x.a[0]
				}
				if x.op == OBig && x.s == "bytes" {
					return vFromBE(m, x.a[0])
				}
				return Unk("field element from a big integer")
			})
		})
	}))
	fm("SetBytesWide", set(func(e *Eng, st *state, a []*T) *T {
		q := e.load(st, refOf(a[1]))
		return modOf(e, st, a[0], func(m int) *T { return vFromBE(m, vRev(q)) })
	}))
	fm("SetBytes", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		q := vRev(e.load(st, refOf(a[1])))
		ok := modOf(e, st, a[0], func(m int) *T { return ScOK(m, q) })
		ok = asBool(ok)
		v := modOf(e, st, a[0], func(m int) *T { return vFromBE(m, q) })
		e.setRecv(st, a[0], ite(ok, v, e.contentOf(st, a[0])))
		return tup(ite(ok, a[0], Nil), ite(ok, Nil, Err))
	})
	fm("Bytes", func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return vRev(vBE32(e.contentOf(st, a[0]))) })
	fm("BigInt", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		return e.newObj(st, nil, mk(OBig, nil, e.contentOf(st, a[0])))
	})
	fm("Equal", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		return boolInt(vEq(e.contentOf(st, a[0]), e.contentOf(st, a[1])))
	})
	is := func(n int64) modelFn {
		return func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return boolInt(vOnRing("lowis", e.contentOf(st, a[0]), func(x *T) *T { return REq(x, RC(x.rg.m, n)) }))
		}
	}
	fm("IsZero", is(0))
	fm("IsOne", is(1))
	fm("IsNonZero", func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return ISub(C(1), is(0)(e, st, f, a)) })
	fm("Cmp", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		// compares internal representations
		x, y := e.contentOf(st, a[0]), e.contentOf(st, a[1])
		return liftL2("limbcmp", x, y, func(x, y *T) *T {
			if x == y {
				return C(0)
			}
			return linAtom(mks(AUF, "limbcmp", x, y))
		})
	})
	fm("CMove", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		x, y := e.contentOf(st, a[1]), e.contentOf(st, a[2])
		e.setRecv(st, a[0], ite(asBool(Eq(a[3], C(0))), x, y))
		return a[0]
	})
	fm("Invert", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		// the receiver keeps its value when the operand is zero
		x, old := e.contentOf(st, a[1]), e.contentOf(st, a[0])
		z := asBool(vOnRing("lowinvz", x, func(x *T) *T { return REq(x, RC(x.rg.m, 0)) }))
		e.setRecv(st, a[0], ite(z, old, vInv(x)))
		return tup(a[0], Not(z))
	})
	fm("Sqrt", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		// the receiver keeps its value when the operand is no square
		x, old := e.contentOf(st, a[1]), e.contentOf(st, a[0])
		ok := lowIsSquare(x)
		e.setRecv(st, a[0], ite(ok, lowSqrt(x), old))
		return tup(a[0], ok)
	})
	lowModels[native+"/k256/fq.K256FqNew"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return e.newNField(st, RC(0, 0)) }
	lowModels[native+"/k256/fp.K256FpNew"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return e.newNField(st, RC(1, 0)) }
	lowModels[native+"/k256.K256PointNew"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		return e.newNPoint(st, RC(1, 0), RC(1, 0), RC(1, 0))
	}

	// points
	pset := func(g func(e *Eng, st *state, a []*T) *T) modelFn {
		return func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			e.setRecv(st, a[0], g(e, st, a))
			return a[0]
		}
	}
	// coords writes coordinates in place when the point holds coordinate objects
	coords := func(e *Eng, st *state, r, x, y, z *T) *T {
		c := e.contentOf(st, r)
		if c.op == OStruct && len(c.a) >= 3 {
			e.setRecv(st, c.a[0], x)
			e.setRecv(st, c.a[1], y)
			e.setRecv(st, c.a[2], z)
			return r
		}
		if p := e.pointStruct(st, x, y, z); !e.inPlace(st, r, p) {
			e.setRecv(st, r, p)
		}
		return r
	}
	// Add and Sub overwrite the receiver with the left operand before they
	// read the right one
	over := func(a []*T, same, other *T) *T {
		eq := liftL2("sameref", a[0], a[2], func(x, y *T) *T {
			if x == y {
				return True
			}
			if x.op == ORef && y.op == ORef {
				return False
			}
			return UnkB("equality of " + opName(x) + " and " + opName(y))
		})
		return ite(asBool(eq), same, other)
	}
	pm("Add", pset(func(e *Eng, st *state, a []*T) *T {
		l, r := e.lowPt(st, a[1]), e.lowPt(st, a[2])
		return over(a, vPAdd(l, l), vPAdd(l, r))
	}))
	pm("Sub", pset(func(e *Eng, st *state, a []*T) *T {
		l, r := e.lowPt(st, a[1]), e.lowPt(st, a[2])
		return over(a, PZero(), vPSub(l, r))
	}))
	pm("Double", pset(func(e *Eng, st *state, a []*T) *T { p := e.lowPt(st, a[1]); return vPAdd(p, p) }))
	pm("Neg", pset(func(e *Eng, st *state, a []*T) *T { return vPSub(PZero(), e.lowPt(st, a[1])) }))
	pm("Mul", pset(func(e *Eng, st *state, a []*T) *T {
		p := vPMul(e.lowPt(st, a[1]), e.contentOf(st, a[2]))
		// the coordinates of the receiver are set to zero before it gets others
		if c := e.contentOf(st, a[0]); c.op == OStruct && len(c.a) >= 3 {
			for _, x := range c.a[:3] {
				e.setRecv(st, x, RC(1, 0))
			}
		} else {
			e.inPlace(st, a[0], PZero())
		}
		return p
	}))
	pm("Set", pset(func(e *Eng, st *state, a []*T) *T {
		c := e.contentOf(st, a[1])
		if c.op == OStruct && len(c.a) >= 3 {
			return e.pointStruct(st, e.load(st, c.a[0]), e.load(st, c.a[1]), e.load(st, c.a[2]))
		}
		return e.ptContent(st, c)
	}))
	pm("Identity", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		return coords(e, st, a[0], RC(1, 0), RC(1, 0), RC(1, 0))
	})
	pm("Generator", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		return coords(e, st, a[0], RBig(1, gX), RBig(1, gY), RC(1, 1))
	})
	aff := func(e *Eng, st *state, p *T) (x, y, z *T) {
		return vAff(AffX, p), vAff(AffY, p), ite(asBool(vPEq(p, PZero())), RC(1, 0), RC(1, 1))
	}
	pm("ToAffine", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		x, y, z := aff(e, st, e.lowPt(st, a[1]))
		return coords(e, st, a[0], x, y, z)
	})
	pm("GetX", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		return e.newNField(st, vAff(AffX, e.lowPt(st, a[0])))
	})
	pm("GetY", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		return e.newNField(st, vAff(AffY, e.lowPt(st, a[0])))
	})
	pm("BigInt", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		x, y, _ := aff(e, st, e.lowPt(st, a[0]))
		return tup(e.newObj(st, nil, mk(OBig, nil, x)), e.newObj(st, nil, mk(OBig, nil, y)))
	})
	pm("Equal", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		return boolInt(vPEq(e.lowPt(st, a[0]), e.lowPt(st, a[1])))
	})
	pm("IsIdentity", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		return asBool(vPEq(e.lowPt(st, a[0]), PZero()))
	})
	pm("IsOnCurve", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		c := e.simp(e.contentOf(st, a[0]), st)
		return asBool(lift1Dyn(c, func(c *T) *T {
			if c.op == OPt {
				return True
			}
			if c.op != OStruct || len(c.a) < 3 {
				return UnkB("on curve")
			}
			return lift("lowoncurve", []*T{e.load(st, c.a[0]), e.load(st, c.a[1]), e.load(st, c.a[2])}, func(a []*T) *T {
				x, y, z := a[0], a[1], a[2]
				if x.op != ORing || y.op != ORing || z != RC(1, 1) {
					return UnkB("on curve")
				}
				return OnCurve(x, y)
			})
		}))
	})
	pm("SumOfProducts", func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		ps, ss := e.seqOf(st, a[1]), e.seqOf(st, a[2])
		n, ok1 := isConstInt(SLen(ps))
		k, ok2 := isConstInt(SLen(ss))
		switch {
		case !ok1 || !ok2:
			e.setRecv(st, a[0], Unk("sum of products"))
			return tup(a[0], ite(asBool(Eq(SLen(ps), SLen(ss))), Nil, Err))
		case n != k:
			return tup(Nil, Err)
		}
		v := PZero()
		for i := int64(0); i < n; i++ {
			v = vPAdd(v, vPMul(e.lowPt(st, SAt(ps, C(i))), e.contentOf(st, SAt(ss, C(i)))))
		}
		e.setRecv(st, a[0], v)
		return tup(a[0], Nil)
	})
}

// OnCurve: y^2 = x^3 + 7.
func OnCurve(x, y *T) *T {
	c1, ok1 := isRingConst(x)
	c2, ok2 := isRingConst(y)
	if ok1 && ok2 {
		l := new(big.Int).Exp(c2, big.NewInt(2), P)
		r := new(big.Int).Exp(c1, big.NewInt(3), P)
		r.Add(r, big.NewInt(7)).Mod(r, P)
		if l.Cmp(r) == 0 {
			return True
		}
		return False
	}
	return boolAtom(mks(BUF, "oncurve", x, y))
}

func vRev(q *T) *T {
	return liftL1("vrev", q, func(q *T) *T {
		if !isSeq(q.op) {
			return badOp("reverse", q)
		}
		return SRev(q)
	})
}
