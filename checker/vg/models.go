package vg

import (
	"encoding/hex"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/load"
)

// A model gives the meaning of a function that is not interpreted: a
// primitive of the curve layer (whose own implementation is checked
// separately) or a function of a dependency.
type modelFn func(e *Eng, st *state, f *ssa.Function, a []*T) *T

var hashPkg = types.NewPackage("verif/hash", "hash")
var tyHash = types.NewNamed(types.NewTypeName(token.NoPos, hashPkg, "State", nil), types.NewStruct(nil, nil), nil)

// modelKey names a function: package path (shortened for the library),
// receiver type, name.
func modelKey(f *ssa.Function) string {
	if strings.HasSuffix(f.Name(), "$bound") || strings.HasSuffix(f.Name(), "$thunk") || f.Parent() != nil {
		return ""
	}
	short := func(p string) string {
		p = strings.TrimPrefix(p, load.Module+"/")
		return p
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return short(n.Obj().Pkg().Path()) + "." + n.Obj().Name() + "." + f.Name()
		}
		return ""
	}
	if p := pkgPathOf(f); p != "" {
		return short(p) + "." + f.Name()
	}
	return ""
}

func (e *Eng) model(st *state, f *ssa.Function, args, free []*T) (*T, bool) {
	k := modelKey(f)
	if k == "" {
		if strings.HasSuffix(f.Name(), "$bound") && len(free) > 0 && !load.IsLib(pkgPathOf(f)) {
			// bound method of a dependency: the receiver is the free variable
			if o, ok := f.Object().(*types.Func); ok {
				if g := e.P.SSA.FuncValue(o); g != nil {
					return e.CallFn(st, g, append(append([]*T(nil), free...), args...), nil), true
				}
			}
		}
		return nil, false
	}
	if e.Contracts != nil {
		if m, ok := e.Contracts[k]; ok && !e.noContract[k] && len(e.stack) > 0 {
			e.Used[k]++
			return m(e, st, f, args), true
		}
	}
	if m, ok := baseModels[k]; ok {
		e.Used[k]++
		return m(e, st, f, args), true
	}
	tab := highModels
	if Low {
		tab = lowModels
	}
	if m, ok := tab[k]; ok {
		e.Used[k]++
		return m(e, st, f, args), true
	}
	return nil, false
}

// ---------------------------------------------------------------- helpers

func tup(a ...*T) *T { return mk(OTuple, nil, a...) }

// refOf strips the interface from a pointer-carrying value.
func refOf(v *T) *T {
	return liftL1("refof", v, func(v *T) *T {
		for v.op == OIface {
			v = v.a[0]
			if v.op == OITE {
				return refOf(v)
			}
		}
		return v
	})
}

// contentOf is the algebraic content (ring, point) of an operand given as an
// interface value, a pointer or the struct itself.
func (e *Eng) contentOf(st *state, v *T) *T {
	r := e.simp(refOf(v), st)
	nilc := False
	out := Bot
	first := true
	leaves(r, func(g, l *T) {
		var c *T
		switch {
		case l.op == ORef:
			c = e.load(st, l)
		case l == Nil:
			nilc = Or(nilc, g)
			return
		case l.op == OBox:
			c = l.a[0]
		case l.op == OFwd:
			c = e.load(st, l.a[0])
		case l.op == OBot:
			return
		case isVal(l):
			c = l
		default:
			c = Unk("operand " + opName(l) + l.s)
		}
		if first {
			out, first = c, false
		} else {
			out = ite(g, c, out)
		}
	})
	if nilc != False {
		e.panicIf(st, nilc, "nil operand", e.top(), token.NoPos)
	}
	return e.simp(out, st)
}

func isVal(t *T) bool {
	return t.op == ORing || t.op == OPt || t.op == OStruct || isSeq(t.op) || t.op == OLin
}

func (e *Eng) top() *ssa.Function {
	if len(e.stack) == 0 {
		return nil
	}
	return e.stack[len(e.stack)-1]
}

func (e *Eng) setRecv(st *state, recv, v *T) { e.store(st, refOf(recv), v, e.top(), token.NoPos) }

func (e *Eng) newScalar(st *state, c *T) *T { return e.newObj(st, TyScalar, c) }
func (e *Eng) newPoint(st *state, c *T) *T  { return e.newObj(st, TyPoint, c) }
func (e *Eng) newField(st *state, c *T) *T  { return e.newObj(st, TyField, c) }

func ifS(r *T) *T { return mk(OIface, TyScalarP, r) }
func ifP(r *T) *T { return mk(OIface, TyPointP, r) }
func ifF(r *T) *T { return mk(OIface, TyFieldP, r) }

func ring2(name string, f func(a, b *T) *T) func(a, b *T) *T {
	return func(a, b *T) *T {
		return liftL2(name, a, b, func(a, b *T) *T {
			if a.op != ORing || b.op != ORing {
				return badOp(name, a, b)
			}
			return f(a, b)
		})
	}
}

func badOp(name string, a ...*T) *T {
	for _, x := range a {
		if x.op == OBot {
			return Bot
		}
		if x.op == OUF && strings.HasPrefix(x.s, "?") {
			return x
		}
	}
	s := name + " on"
	for _, x := range a {
		s += " " + opName(x)
	}
	return Unk(s)
}

func pt2(name string, f func(a, b *T) *T) func(a, b *T) *T {
	return func(a, b *T) *T {
		return liftL2(name, a, b, func(a, b *T) *T {
			if a.op != OPt || b.op != OPt {
				return badOp(name, a, b)
			}
			return f(a, b)
		})
	}
}

var (
	vAdd  = ring2("vadd", RAdd)
	vSub  = ring2("vsub", RSub)
	vMul  = ring2("vmul", RMul)
	vEq   = ring2("veq", REq)
	vPAdd = pt2("vpadd", PAdd)
	vPSub = pt2("vpsub", PSub)
	vPEq  = pt2("vpeq", PEq)
)

func vPMul(p, s *T) *T {
	return liftL2("vpmul", p, s, func(p, s *T) *T {
		if p.op != OPt || s.op != ORing {
			return badOp("vpmul", p, s)
		}
		return PMul(p, s)
	})
}

func vInv(x *T) *T {
	return liftL1("vinv", x, func(x *T) *T {
		if x.op != ORing {
			return badOp("vinv", x)
		}
		return RInverse(x)
	})
}

// boolInt is 1 when c, else 0 (unknown conditions stay unknown).
func boolInt(c *T) *T {
	if !isBool(c) {
		return linAtom(mks(AUF, "?boolean "+opName(c)+c.s))
	}
	return ite(c, C(1), C(0))
}

func asBool(c *T) *T {
	if isBool(c) {
		return c
	}
	return UnkB("condition " + opName(c) + c.s)
}

func fixStr(s string, n int64, a ...*T) *T {
	return intern(&T{op: QUF, s: s, n: n, ty: TyByte, a: a})
}

// Pser is the compressed encoding of a point.
func Pser(p *T) *T {
	return liftL1("pser", p, func(p *T) *T {
		if p.op != OPt {
			return badOp("pser", p)
		}
		return fixStr("pser", 33, p)
	})
}

// PtOK: a byte sequence is the canonical compressed encoding of a point.
func PtOK(q *T) *T {
	return liftL1("ptok", q, func(q *T) *T {
		if q.op == QUF && q.s == "pser" {
			return True
		}
		if !isSeq(q.op) {
			return UnkB("encoding " + opName(q))
		}
		if k, ok := isConstInt(SLen(q)); ok && k != 33 {
			return False
		}
		if q.op == QBytes {
			return ite(constPoint([]byte(q.s)), True, False)
		}
		return boolAtom(mks(BUF, "ptok", q))
	})
}

// PtDec is the point a canonical encoding denotes.
func PtDec(q *T) *T {
	return liftL1("ptdec", q, func(q *T) *T {
		if q.op == QUF && q.s == "pser" {
			return q.a[0]
		}
		if q.op == QBytes && hex.EncodeToString([]byte(q.s)) == generatorH {
			return ptAtom(mks(XUF, "H"))
		}
		if !isSeq(q.op) {
			return badOp("ptdec", q)
		}
		return ptAtom(mks(XUF, "ptdec", q))
	})
}

// constPoint: constant bytes are the canonical encoding of a curve point.
func constPoint(b []byte) *T {
	if len(b) != 33 {
		return False
	}
	x := new(big.Int).SetBytes(b[1:])
	switch {
	case b[0] == 0:
		if x.Sign() == 0 {
			return True
		}
	case b[0] == 2 || b[0] == 3:
		if x.Cmp(P) >= 0 {
			return False
		}
		y := new(big.Int).Exp(x, big.NewInt(3), P)
		y.Add(y, big.NewInt(7)).Mod(y, P)
		if big.Jacobi(y, P) >= 0 {
			return True
		}
	}
	return False
}

const generatorH = "037bdcfc024cf697a41fd3cda2436c843af5669e50042be3314a532d5b70572f59"

// PointH is the second generator.
func PointH() *T { return ptAtom(mks(XUF, "H")) }

// ScOK: a byte sequence is the canonical encoding of a scalar (m=0) or field
// element (m=1).
func ScOK(m int, q *T) *T {
	return liftL1("scok"+mstr(m), q, func(q *T) *T {
		if q.op == QUF && q.s == "be32" {
			return True
		}
		if !isSeq(q.op) {
			return UnkB("encoding " + opName(q))
		}
		l := Eq(SLen(q), C(32))
		if l == False {
			return False
		}
		if q.op == QBytes {
			return truth(new(big.Int).SetBytes([]byte(q.s)).Cmp(Mods[m]) < 0)
		}
		return And(l, boolAtom(mks(BUF, "canon"+mstr(m), q)))
	})
}

func vFromBE(m int, q *T) *T {
	return liftL1("vfrombe"+mstr(m), q, func(q *T) *T {
		if !isSeq(q.op) {
			return badOp("frombe", q)
		}
		return RFromBE(m, q)
	})
}

func vBE32(x *T) *T {
	return liftL1("vbe32", x, func(x *T) *T {
		if x.op != ORing {
			return badOp("be32", x)
		}
		return BE32(x)
	})
}

// ptrRet returns (ptr, nil) when ok, (nil, error) otherwise.
func ptrRet(ok, p *T) *T { return tup(ite(ok, p, Nil), ite(ok, Nil, Err)) }

func errNil(f *ssa.Function) *T { return Nil }

// ---------------------------------------------------------------- curve layer

var highModels map[string]modelFn

func bin(op func(a, b *T) *T, wrap func(*T) *T) modelFn {
	return func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		v := op(e.contentOf(st, a[1]), e.contentOf(st, a[2]))
		e.setRecv(st, a[0], v)
		return wrap(refOf(a[0]))
	}
}
func un(op func(a *T) *T, wrap func(*T) *T) modelFn {
	return func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		v := op(e.contentOf(st, a[1]))
		e.setRecv(st, a[0], v)
		return wrap(refOf(a[0]))
	}
}
func ident(x *T) *T { return x }

func vNeg(x *T) *T {
	return liftL1("vneg", x, func(x *T) *T {
		if x.op != ORing {
			return badOp("neg", x)
		}
		return RNeg(x)
	})
}

func highV(x *T) *T {
	return liftL1("vhigh", x, func(x *T) *T {
		if x.op != ORing {
			return UnkB("IsHigh")
		}
		return IsHigh(x)
	})
}

// IsHigh: the canonical residue exceeds half the group order.
func IsHigh(x *T) *T {
	return liftL1("ishigh", x, func(x *T) *T {
		if x.op != ORing {
			return UnkB("IsHigh")
		}
		if c, ok := isRingConst(x); ok {
			if new(big.Int).Lsh(c, 1).Cmp(Q) > 0 {
				return True
			}
			return False
		}
		return boolAtom(mks(BUF, "high", x))
	})
}

func init() {
	cst := func(v *T) modelFn { return func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return v } }
	_ = cst
	curveT := func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return C(1) }
	get := func(fn func(x *T) *T) modelFn {
		return func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return fn(e.contentOf(st, a[0])) }
	}
	bytesOf := func(fn func(x *T) *T) modelFn {
		return func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return e.bytesVal(st, fn(e.contentOf(st, a[0])), types.NewSlice(TyByte))
		}
	}
	tagged := func(fn func(x *T) *T) func(x *T) *T {
		return func(x *T) *T { return SCat(QStr("\x01"), fn(x)) }
	}
	highModels = map[string]modelFn{
		// scalars
		"curve.Secp256k1Scalar.CurveType": curveT,
		"curve.Secp256k1Scalar.Add":       bin(vAdd, ifS),
		"curve.Secp256k1Scalar.Sub":       bin(vSub, ifS),
		"curve.Secp256k1Scalar.Mul":       bin(vMul, ifS),
		"curve.Secp256k1Scalar.Invert":    un(vInv, ifS),
		"curve.Secp256k1Scalar.Negate":    un(vNeg, ifS),
		"curve.Secp256k1Scalar.Assign":    un(ident, ifS),
		"curve.Secp256k1Scalar.Clone": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return ifS(e.newScalar(st, e.contentOf(st, a[0])))
		},
		"curve.Secp256k1Scalar.Equal": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return boolInt(vEq(e.contentOf(st, a[0]), e.contentOf(st, a[1])))
		},
		"curve.Secp256k1Scalar.IsZero":          get(func(x *T) *T { return boolInt(vEq(x, RC(0, 0))) }),
		"curve.Secp256k1Scalar.IsHigh":          get(highV),
		"curve.Secp256k1Scalar.Serialize":       bytesOf(vBE32),
		"curve.Secp256k1Scalar.SerializeTagged": bytesOf(tagged(vBE32)),
		"curve.Secp256k1Scalar.BigInt": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return e.newObj(st, nil, mk(OBig, nil, e.contentOf(st, a[0])))
		},
		"curve.EccK256Scalar.Zero": func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return e.newScalar(st, RC(0, 0)) },
		"curve.EccK256Scalar.One":  func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return e.newScalar(st, RC(0, 1)) },
		"curve.EccK256Scalar.FromUint64": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return e.newScalar(st, vEmbed(0, a[1]))
		},
		"curve.EccK256Scalar.FromWideBytes": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return e.newScalar(st, vFromBE(0, e.seqOf(st, a[1])))
		},
		"curve.EccK256Scalar.Deserialize": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			q := e.seqOf(st, a[1])
			return ptrRet(ScOK(0, q), e.newScalar(st, vFromBE(0, q)))
		},
		// field elements
		"curve.Secp256k1Field.CurveType": curveT,
		"curve.Secp256k1Field.Add":       bin(vAdd, ifF),
		"curve.Secp256k1Field.Sub":       bin(vSub, ifF),
		"curve.Secp256k1Field.Mul":       bin(vMul, ifF),
		"curve.Secp256k1Field.Invert":    un(vInv, ifF),
		"curve.Secp256k1Field.Negate":    un(vNeg, ifF),
		"curve.Secp256k1Field.Assign":    un(ident, ifF),
		"curve.Secp256k1Field.Square":    un(func(x *T) *T { return vMul(x, x) }, ifF),
		"curve.Secp256k1Field.Progenitor": un(func(x *T) *T {
			return liftL1("progen", x, func(x *T) *T {
				if x.op != ORing {
					return badOp("progenitor", x)
				}
				return Progenitor(x)
			})
		}, ifF),
		"curve.Secp256k1Field.Sqrt": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			x := e.contentOf(st, a[1])
			ok := IsSquare(x)
			e.setRecv(st, a[0], ite(ok, SqrtOf(x), RC(1, 0)))
			return tup(ifF(refOf(a[0])), boolInt(ok))
		},
		"curve.Secp256k1Field.CAssign": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			c := Eq(a[2], C(0))
			e.setRecv(st, a[0], ite(asBool(c), e.contentOf(st, a[0]), e.contentOf(st, a[1])))
			return tup()
		},
		"curve.Secp256k1Field.Clone": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return ifF(e.newField(st, e.contentOf(st, a[0])))
		},
		"curve.Secp256k1Field.Equal": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return boolInt(vEq(e.contentOf(st, a[0]), e.contentOf(st, a[1])))
		},
		"curve.Secp256k1Field.IsZero":  get(func(x *T) *T { return boolInt(vEq(x, RC(1, 0))) }),
		"curve.Secp256k1Field.AsBytes": bytesOf(vBE32),
		"curve.Secp256k1Field.Sign":    get(ParityOf),
		"curve.Secp256k1Field.BigInt": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return e.newObj(st, nil, mk(OBig, nil, e.contentOf(st, a[0])))
		},
		"curve.EccK256Field.FromHex": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			if a[1].op == QBytes {
				if v, ok := new(big.Int).SetString(a[1].s, 16); ok {
					return e.newField(st, RBig(1, v))
				}
			}
			return e.newField(st, Unk("hex field constant"))
		},
		"curve.EccK256Field.Zero": func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return e.newField(st, RC(1, 0)) },
		"curve.EccK256Field.One":  func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return e.newField(st, RC(1, 1)) },
		"curve.EccK256Field.newField": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			x := e.load(st, refOf(a[1]))
			return e.newField(st, liftL1("bigfield", x, func(x *T) *T {
				if v, ok := bigConst(x); ok {
					return RBig(1, v)
				}
				if x.op == OBig && x.s == "" && len(x.a) == 1 && x.a[0].op == ORing && x.a[0].rg.m == 1 {
					return x.a[0]
				}
				return Unk("field element from a big integer")
			}))
		},
		"curve.EccK256Field.FromBytes": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			q := e.seqOf(st, a[1])
			return ptrRet(ScOK(1, q), e.newField(st, vFromBE(1, q)))
		},
		"curve.EccK256Field.FromBytesWide": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return e.newField(st, vFromBE(1, e.seqOf(st, a[1])))
		},
		// points
		"curve.Secp256k1Point.CurveType": curveT,
		"curve.Secp256k1Point.AddPoints": bin(vPAdd, ifP),
		"curve.Secp256k1Point.SubPoints": bin(vPSub, ifP),
		"curve.Secp256k1Point.ScalarMul": bin(vPMul, ifP),
		"curve.Secp256k1Point.Double":    un(func(x *T) *T { return vPAdd(x, x) }, ifP),
		"curve.Secp256k1Point.Assign":    un(ident, ifP),
		"curve.Secp256k1Point.Clone": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return ifP(e.newPoint(st, e.contentOf(st, a[0])))
		},
		"curve.Secp256k1Point.MulByNodeIndex": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return ifP(e.newPoint(st, vPMul(e.contentOf(st, a[0]), vEmbed(0, IAdd(a[1], C(1))))))
		},
		"curve.Secp256k1Point.LinComb": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			v := vPAdd(vPMul(e.contentOf(st, a[1]), e.contentOf(st, a[2])), vPMul(e.contentOf(st, a[3]), e.contentOf(st, a[4])))
			e.setRecv(st, a[0], v)
			return ifP(refOf(a[0]))
		},
		"curve.Secp256k1Point.Equal": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return boolInt(vPEq(e.contentOf(st, a[0]), e.contentOf(st, a[1])))
		},
		"curve.Secp256k1Point.IsInfinity":      get(func(x *T) *T { return asBool(vPEq(x, PZero())) }),
		"curve.Secp256k1Point.Serialize":       bytesOf(Pser),
		"curve.Secp256k1Point.SerializeTagged": bytesOf(tagged(Pser)),
		"curve.Secp256k1Point.SerializeUncompressed": bytesOf(func(p *T) *T {
			return liftL1("puser", p, func(p *T) *T {
				if p.op != OPt {
					return badOp("puser", p)
				}
				return fixStr("puser", 65, p)
			})
		}),
		"curve.Secp256k1Point.AffineX": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return ifF(e.newField(st, vAff(AffX, e.contentOf(st, a[0]))))
		},
		"curve.Secp256k1Point.AffineY": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return ifF(e.newField(st, vAff(AffY, e.contentOf(st, a[0]))))
		},
		"curve.EccK256Point.NewK256":  func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return e.newPoint(st, PZero()) },
		"curve.EccK256Point.Identity": func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return e.newPoint(st, PZero()) },
		"curve.EccK256Point.NewK256G": func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return e.newPoint(st, PG()) },
		"curve.point.Deserialize": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			q := e.seqOf(st, a[2])
			ok := And(Eq(a[1], C(1)), PtOK(q))
			return tup(ite(ok, ifP(e.newPoint(st, PtDec(q))), Nil), ite(ok, Nil, Err))
		},
		"curve.point.FromFieldElems": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			x, y := e.contentOf(st, a[1]), e.contentOf(st, a[2])
			ok := liftL2("oncurve", x, y, func(x, y *T) *T {
				if x.op != ORing || y.op != ORing {
					return UnkB("on curve")
				}
				return boolAtom(mks(BUF, "oncurve", x, y))
			})
			p := liftL2("affpt", x, y, func(x, y *T) *T {
				if x.op != ORing || y.op != ORing {
					return badOp("affpt", x, y)
				}
				return ptAtom(mk(XAff, nil, x, y))
			})
			return tup(ite(ok, ifP(e.newPoint(st, p)), Nil), ite(ok, Nil, Err))
		},
		"curve.scalar.Random": func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return ifS(e.newScalar(st, e.draw(st, a[2], C(1), func(base, n *T) *T {
				return ringAtom(intern(&T{op: RUF, s: "rnd", a: []*T{base, n}}))
			})))
		},
	}
	baseModels = map[string]modelFn{}
	registerBase()
}

func vAff(fn func(*T) *T, p *T) *T {
	return liftL1("vaff"+fn(PG()).String(), p, func(p *T) *T {
		if p.op != OPt {
			return badOp("affine", p)
		}
		return fn(p)
	})
}

func vEmbed(m int, x *T) *T {
	return liftL1("vembed"+mstr(m), x, func(x *T) *T {
		if x.op != OLin {
			return badOp("embed", x)
		}
		return REmbed(m, x)
	})
}

// Progenitor is x^((p-3)/4).
func Progenitor(x *T) *T {
	e := new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(3)), 2)
	return ringAtom(intern(&T{op: RUF, n: 1, s: "pow" + e.Text(16), a: []*T{x}}))
}

// IsSquare and SqrtOf are the opaque square root of the field.
func IsSquare(x *T) *T {
	return liftL1("issq", x, func(x *T) *T {
		if x.op != ORing {
			return UnkB("square root")
		}
		if c, ok := isRingConst(x); ok {
			return truth(big.Jacobi(c, P) >= 0)
		}
		return boolAtom(mks(BUF, "issq", x))
	})
}
func SqrtOf(x *T) *T {
	return liftL1("sqrt", x, func(x *T) *T {
		if x.op != ORing {
			return badOp("sqrt", x)
		}
		return ringAtom(intern(&T{op: RUF, s: "sqrt", n: 1, a: []*T{x}}))
	})
}

// ParityOf is the low bit of the canonical residue.
func ParityOf(x *T) *T {
	return liftL1("parity", x, func(x *T) *T {
		if x.op != ORing {
			return linAtom(mks(AUF, "?parity"))
		}
		return intOp(AAnd, SAt(BE32(x), C(31)), C(1))
	})
}

// draw takes one value from a generator.
// draw takes a value from a stream and moves it on: by the number of bytes
// taken, or by one for draws that are not followed down to bytes.
func (e *Eng) draw(st *state, rng, by *T, mkv func(base, n *T) *T) *T {
	return e.fork(st, e.simp(refOf(rng), st), func(st *state, r *T) *T {
		if r == Nil {
			e.Panics = append(e.Panics, PanicPt{Guard: st.pc, What: "method call on nil", Fn: e.top()})
			st.pc = False
			return Bot
		}
		if r.op != ORef {
			return Unk("generator " + opName(r))
		}
		// the ChaCha20 wrapper holds a pointer to the cipher
		v := e.load(st, r)
		if v.op == OStruct && len(v.a) == 1 {
			r = v.a[0]
			v = e.load(st, r)
		}
		if v.op == OITE {
			return Unk("generator state")
		}
		if v.op != OStrm {
			return Unk("generator state " + opName(v))
		}
		x := mkv(v.a[0], v.a[1])
		e.store(st, r, mk(OStrm, nil, v.a[0], IAdd(v.a[1], by)), e.top(), token.NoPos)
		return x
	})
}

// ---------------------------------------------------------------- dependencies

var baseModels map[string]modelFn

func registerBase() {
	m := baseModels
	errf := func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return Err }
	for _, n := range []string{"New", "Errorf", "WithStack", "Wrap", "Wrapf", "WithMessage"} {
		m["github.com/pkg/errors."+n] = errf
	}
	for _, n := range []string{"Wrap", "Wrapf", "WithStack", "WithMessage"} {
		m["github.com/pkg/errors."+n] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return a[0] }
	}
	m["errors.New"] = errf
	m["fmt.Errorf"] = errf
	m["fmt.Sprintf"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return e.sprintf(st, a[0], a[1]) }
	bytesT := types.NewSlice(TyByte)

	beStore := func(n int64) modelFn {
		return func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			enc := beEnc(n, a[2])
			e.fork(st, e.simp(a[1], st), func(st *state, d *T) *T {
				e.panicIf(st, Lt(e.sliceLen(d), C(n)), "short buffer", e.top(), token.NoPos)
				e.writeSlice(st, d, enc, n)
				return C(0)
			})
			return tup()
		}
	}
	m["encoding/binary.bigEndian.PutUint16"] = beStore(2)
	m["encoding/binary.bigEndian.PutUint32"] = beStore(4)
	m["encoding/binary.bigEndian.PutUint64"] = beStore(8)
	beAppend := func(n int64) modelFn {
		return func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return e.bytesVal(st, SCat(e.seqOf(st, a[1]), beEnc(n, a[2])), bytesT)
		}
	}
	m["encoding/binary.bigEndian.AppendUint16"] = beAppend(2)
	m["encoding/binary.bigEndian.AppendUint32"] = beAppend(4)
	m["encoding/binary.bigEndian.AppendUint64"] = beAppend(8)
	beLoad := func(n int64) modelFn {
		return func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			q := e.seqOf(st, a[1])
			e.panicIf(st, Lt(SLen(q), C(n)), "short buffer", e.top(), token.NoPos)
			return liftL1("bedec", q, func(q *T) *T {
				q = SSlice(q, C(0), C(n))
				if q.op == QUF && q.s == fmt.Sprintf("int%d", n) {
					return q.a[0]
				}
				return linAtom(mks(AUF, "beint", q))
			})
		}
	}
	m["encoding/binary.bigEndian.Uint32"] = beLoad(4)
	m["encoding/binary.bigEndian.Uint64"] = beLoad(8)
	m["encoding/hex.DecodeString"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		if a[0].op == QBytes {
			if b, err := hex.DecodeString(a[0].s); err == nil {
				return tup(e.bytesVal(st, QStr(string(b)), bytesT), Nil)
			}
			return tup(e.bytesVal(st, QEmpty(), bytesT), Err)
		}
		return tup(e.bytesVal(st, fixStr("unhex", -1, a[0]), bytesT), ite(boolAtom(mks(BUF, "hexok", a[0])), Nil, Err))
	}
	m["encoding/hex.EncodeToString"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		return liftL1("hexs", e.seqOf(st, a[0]), func(q *T) *T {
			if q.op == QBytes {
				return QStr(hex.EncodeToString([]byte(q.s)))
			}
			return fixStr("hex", -1, q)
		})
	}
	m["bytes.Equal"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		return seqEqV(e.seqOf(st, a[0]), e.seqOf(st, a[1]))
	}
	m["bytes.Compare"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		x, y := e.seqOf(st, a[0]), e.seqOf(st, a[1])
		return liftL2("bytescmp", x, y, func(x, y *T) *T {
			neg := x.id > y.id
			if neg {
				x, y = y, x
			}
			r := linAtom(mks(AUF, "bytescmp", x, y))
			if neg {
				r = ISub(C(0), r)
			}
			return ite(seqEqV(x, y), C(0), r)
		})
	}
	m["crypto/subtle.ConstantTimeCompare"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		return boolInt(seqEqV(e.seqOf(st, a[0]), e.seqOf(st, a[1])))
	}
	newHash := func(kind string) modelFn {
		return func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return e.newHash(st, kind, nil) }
	}
	m["crypto/sha256.New"] = newHash("sha256")
	m["crypto/sha512.New"] = newHash("sha512")
	m["crypto.Hash.New"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		if k, ok := isConstInt(a[0]); ok {
			switch k {
			case 5:
				return e.newHash(st, "sha256", nil)
			case 7:
				return e.newHash(st, "sha512", nil)
			}
			return e.newHash(st, fmt.Sprintf("hash%d", k), nil)
		}
		return Unk("hash function")
	}
	sum := func(kind string) modelFn {
		return func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return fixStr(kind, hashLen(kind), e.seqOf(st, a[0]))
		}
	}
	m["crypto/sha256.Sum256"] = sum("sha256")
	m["crypto/sha512.Sum512"] = sum("sha512")
	m["crypto/hmac.New"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		h := e.fork(st, a[0], func(st *state, l *T) *T {
			if l.op == OClo {
				return e.CallFn(st, e.fns[l.n], nil, l.a)
			}
			return Unk("hash function")
		})
		r := refOf(h)
		if r.op != ORef {
			return Unk("hmac over an unknown hash")
		}
		k := e.load(st, r)
		if k.op != OHash {
			return Unk("hmac over an unknown hash")
		}
		return e.newHash(st, "hmac-"+k.s, e.seqOf(st, a[1]))
	}
	m["golang.org/x/crypto/chacha20.NewUnauthenticatedCipher"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		k, n := e.seqOf(st, a[0]), e.seqOf(st, a[1])
		ok := And(asBool(Eq(SLen(k), C(32))), Or(asBool(Eq(SLen(n), C(12))), asBool(Eq(SLen(n), C(24)))))
		o := e.newObj(st, nil, mk(OStrm, nil, mks(OUF, "chacha20", k, n), C(0)))
		return tup(ite(ok, o, Nil), ite(ok, Nil, Err))
	}
	m["golang.org/x/crypto/chacha20.Cipher.XORKeyStream"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		src := e.seqOf(st, a[2])
		out := e.draw(st, a[0], SLen(src), func(base, n *T) *T {
			return liftL1("xorks", src, func(src *T) *T {
				l := SLen(src)
				ks := intern(&T{op: QUF, s: "keystream", n: -1, ty: TyByte, a: []*T{base, n, l}})
				if c, ok := isConstInt(l); ok {
					ks = intern(&T{op: QUF, s: "keystream", n: c, ty: TyByte, a: []*T{base, n, l}})
				}
				if isZeroSeq(src) {
					return ks
				}
				return intern(&T{op: QUF, s: "xor", n: ks.n, ty: TyByte, a: []*T{src, ks}})
			})
		})
		e.fork(st, e.simp(a[1], st), func(st *state, d *T) *T {
			if d.op == OSlice {
				e.writeSliceN(st, d, out, SLen(out))
			}
			return C(0)
		})
		return tup()
	}
	// the argument of a w-bit variant is below 2^w by its type
	for sfx, w := range map[string]int64{"": 64, "64": 64, "32": 32, "16": 16, "8": 8} {
		m["math/bits.Len"+sfx] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return bitLen(a[0]) }
		m["math/bits.LeadingZeros"+sfx] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return ISub(C(w), bitLen(a[0]))
		}
	}
	m["modernc.org/mathutil.Max"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return MaxI(a[0], a[1]) }
	m["modernc.org/mathutil.Min"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return MinI(a[0], a[1]) }
	m["strconv.Itoa"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return decStr(a[0]) }
	m["strconv.FormatInt"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		if k, ok := isConstInt(a[1]); ok && k == 10 {
			return decStr(a[0])
		}
		return Unk("FormatInt")
	}

	// btree maps
	bt := "github.com/tidwall/btree.Map."
	m[bt+"Len"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		return e.onMap(st, a[0], func(st *state, r, c *T) *T { return e.mapCount(st, c) })
	}
	m[bt+"Get"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		vt := f.Signature.Results().At(0).Type()
		return e.onMap(st, a[0], func(st *state, r, c *T) *T {
			v, ok := e.mapGet(st, c, e.mapKey(st, a[1]), vt)
			return tup(e.unboxInto(st, v, vt), ok)
		})
	}
	m[bt+"Set"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		vt := f.Signature.Results().At(0).Type()
		return e.onMap(st, a[0], func(st *state, r, c *T) *T {
			k := e.mapKey(st, a[1])
			v, ok := e.mapGet(st, c, k, vt)
			e.store(st, r, e.mapSet(st, c, k, a[2]), e.top(), token.NoPos)
			return tup(e.unboxInto(st, v, vt), ok)
		})
	}
	m[bt+"Scan"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T { return e.mapScan(st, f, a[0], a[1], false) }
	m[bt+"Values"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		st0 := f.Signature.Results().At(0).Type()
		return e.onMap(st, a[0], func(st *state, r, c *T) *T { _, v := e.mapSeqs(st, c, f); return e.bytesVal(st, v, st0) })
	}
	m[bt+"Keys"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		st0 := f.Signature.Results().At(0).Type()
		return e.onMap(st, a[0], func(st *state, r, c *T) *T { k, _ := e.mapSeqs(st, c, f); return e.bytesVal(st, k, st0) })
	}
	m[bt+"KeyValues"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		kt, vt := f.Signature.Results().At(0).Type(), f.Signature.Results().At(1).Type()
		return e.onMap(st, a[0], func(st *state, r, c *T) *T {
			k, v := e.mapSeqs(st, c, f)
			return tup(e.bytesVal(st, k, kt), e.bytesVal(st, v, vt))
		})
	}

	stdModels(m)

	m["github.com/fxamacker/cbor/v2.Marshal"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		return e.fork(st, a[0], func(st *state, l *T) *T {
			if l.op != OIface {
				return tup(e.bytesVal(st, Unk("cbor"), bytesT), Nil)
			}
			v := e.View(st, l.a[0], l.ty)
			return tup(e.bytesVal(st, cborData(v), bytesT), Nil)
		})
	}
	m["github.com/fxamacker/cbor/v2.Unmarshal"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		return e.cborUnmarshal(st, a)
	}
	big1 := func(e *Eng, st *state, a *T) *T { return e.load(st, a) }
	m["math/big.Int.Cmp"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		x, y := big1(e, st, a[0]), big1(e, st, a[1])
		return liftL2("bigcmp", x, y, func(x, y *T) *T {
			if x.op != OBig || y.op != OBig {
				return linAtom(mks(AUF, "?big.Cmp"))
			}
			return bigCmp(x, y)
		})
	}
	m["math/big.NewInt"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		if k, ok := isConstInt(a[0]); ok {
			return e.newObj(st, nil, bigK(big.NewInt(k)))
		}
		return e.newObj(st, nil, Unk("big.NewInt"))
	}
	m["math/big.Int.SetString"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		if b, ok := isConstInt(a[2]); ok && a[1].op == QBytes {
			if v, ok := new(big.Int).SetString(a[1].s, int(b)); ok {
				e.store(st, a[0], bigK(v), e.top(), token.NoPos)
				return tup(a[0], True)
			}
			return tup(Nil, False)
		}
		e.store(st, a[0], Unk("big.SetString"), e.top(), token.NoPos)
		return tup(a[0], UnkB("big.SetString"))
	}
	m["math/big.Int.SetBytes"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		q := e.seqOf(st, a[1])
		v := liftL1("bigsetbytes", q, func(q *T) *T {
			if q.op == QBytes {
				return bigK(new(big.Int).SetBytes([]byte(q.s)))
			}
			return mks(OBig, "bytes", q)
		})
		e.store(st, a[0], v, e.top(), token.NoPos)
		return a[0]
	}
	arith := func(name string, fn func(z, x, y *big.Int) *big.Int) modelFn {
		return func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			x, y := big1(e, st, a[1]), big1(e, st, a[2])
			v := liftL2("big"+name, x, y, func(x, y *T) *T {
				p, ok1 := bigConst(x)
				q, ok2 := bigConst(y)
				if ok1 && ok2 && !(name == "Div" && q.Sign() == 0) {
					return bigK(fn(new(big.Int), p, q))
				}
				return Unk("big." + name)
			})
			e.store(st, a[0], v, e.top(), token.NoPos)
			return a[0]
		}
	}
	m["math/big.Int.Sub"] = arith("Sub", (*big.Int).Sub)
	m["math/big.Int.Add"] = arith("Add", (*big.Int).Add)
	m["math/big.Int.Mul"] = arith("Mul", (*big.Int).Mul)
	m["math/big.Int.Div"] = arith("Div", (*big.Int).Div)
	m["math/big.Int.Quo"] = arith("Div", (*big.Int).Quo)
	m["math/big.Int.Rsh"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		x := big1(e, st, a[1])
		p, ok1 := bigConst(x)
		k, ok2 := isConstInt(a[2])
		if ok1 && ok2 {
			e.store(st, a[0], bigK(new(big.Int).Rsh(p, uint(k))), e.top(), token.NoPos)
		} else {
			e.store(st, a[0], Unk("big.Rsh"), e.top(), token.NoPos)
		}
		return a[0]
	}
	m["math/big.Int.Bytes"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		x := big1(e, st, a[0])
		return e.bytesVal(st, liftL1("bigbytes", x, func(x *T) *T {
			if c, ok := bigConst(x); ok {
				return QStr(string(c.Bytes()))
			}
			if x.op == OBig && len(x.a) == 1 && x.s == "" {
				return liftL1("minbe", x.a[0], func(r *T) *T {
					return intern(&T{op: QUF, s: "minbe", n: -1, ty: TyByte, a: []*T{r}})
				})
			}
			return Unk("big.Bytes")
		}), bytesT)
	}
}

func bigK(v *big.Int) *T { return mks(OBig, v.String()) }
func bigConst(x *T) (*big.Int, bool) {
	if x.op == OBig && len(x.a) == 0 {
		return new(big.Int).SetString(x.s, 10)
	}
	if x.op == OBig && x.s == "" {
		if c, ok := isRingConst(x.a[0]); ok {
			return c, true
		}
	}
	return nil, false
}

// bigCmp compares integers: residues against half the order become the "high" predicate.
func bigCmp(x, y *T) *T {
	a, ok1 := bigConst(x)
	b, ok2 := bigConst(y)
	if ok1 && ok2 {
		return C(int64(a.Cmp(b)))
	}
	if x == y {
		return C(0)
	}
	half := new(big.Int).Rsh(Q, 1)
	cmpHalf := func(x *T) *T {
		if x.s != "" || len(x.a) != 1 || x.a[0].op != ORing || x.a[0].rg.m != 0 {
			return nil
		}
		return ite(IsHigh(x.a[0]), C(1), ite(asBool(vEq(x.a[0], RBig(0, half))), C(0), C(-1)))
	}
	if ok2 && b.Cmp(half) == 0 {
		if r := cmpHalf(x); r != nil {
			return r
		}
	}
	if ok1 && a.Cmp(half) == 0 {
		if r := cmpHalf(y); r != nil {
			return ISub(C(0), r)
		}
	}
	return linAtom(mks(AUF, "bigcmp", x, y))
}

func seqEqV(a, b *T) *T {
	return liftL2("seqeqv", a, b, func(a, b *T) *T {
		if !isSeq(a.op) && a.op != OHole || !isSeq(b.op) && b.op != OHole {
			return UnkB("comparison of " + opName(a) + " and " + opName(b))
		}
		return SEq(a, b)
	})
}

func beEnc(n int64, x *T) *T {
	return liftL1(fmt.Sprintf("beenc%d", n), x, func(x *T) *T {
		if k, ok := isConstInt(x); ok {
			b := make([]byte, n)
			u := uint64(k)
			for i := n - 1; i >= 0; i-- {
				b[i] = byte(u)
				u >>= 8
			}
			return QStr(string(b))
		}
		if x.op != OLin {
			return badOp("integer encoding", x)
		}
		return fixStr(fmt.Sprintf("int%d", n), n, x)
	})
}

func decStr(x *T) *T {
	return liftL1("dec", x, func(x *T) *T {
		if k, ok := isConstInt(x); ok {
			return QStr(strconv.FormatInt(k, 10))
		}
		if x.op != OLin {
			return badOp("decimal", x)
		}
		return fixStr("dec", -1, x)
	})
}

func (e *Eng) writeSlice(st *state, d, v *T, n int64) { e.writeSliceN(st, d, v, C(n)) }

// writeSliceN overwrites the first n elements of slice d.
func (e *Eng) writeSliceN(st *state, d, v, n *T) {
	if d.op != OSlice || d.a[0].op != ORef {
		e.giveUp("write into " + opName(d))
	}
	r := d.a[0]
	old := nav(e.content(st, r.a[0]), r.a[1:])
	tot := SLen(old)
	end := IAdd(d.a[1], n)
	e.store(st, r, SCat(SSlice(old, C(0), d.a[1]), v, SSlice(old, end, ISub(tot, end))), e.top(), token.NoPos)
}

func hashLen(kind string) int64 {
	if strings.HasSuffix(kind, "512") {
		return 64
	}
	if strings.HasSuffix(kind, "256") {
		return 32
	}
	return -1
}

func (e *Eng) newHash(st *state, kind string, key *T) *T {
	c := mks(OHash, kind, QEmpty())
	if key != nil {
		c = mks(OHash, kind, QEmpty(), key)
	}
	return mk(OIface, tyHash, e.newObj(st, tyHash, c))
}

// modelInvoke gives meaning to methods of modelled dynamic types.
func (e *Eng) modelInvoke(st *state, l *T, m *types.Func, args []*T) (*T, bool) {
	if sameTy(l.ty, tyHash) {
		h := e.load(st, l.a[0])
		if h.op != OHash {
			return e.opaqueResult(m.Type().(*types.Signature), "hash state"), true
		}
		switch m.Name() {
		case "Write":
			d := e.seqOf(st, args[0])
			a := append([]*T{SCat(h.a[0], d)}, h.a[1:]...)
			e.store(st, l.a[0], mks(OHash, h.s, a...), e.top(), token.NoPos)
			return tup(SLen(d), Nil), true
		case "Reset":
			a := append([]*T{QEmpty()}, h.a[1:]...)
			e.store(st, l.a[0], mks(OHash, h.s, a...), e.top(), token.NoPos)
			return tup(), true
		case "Sum":
			d := liftL("hash"+h.s, h.a, func(a []*T) *T { return fixStr(h.s, hashLen(h.s), a...) })
			return e.bytesVal(st, SCat(e.seqOf(st, args[0]), d), types.NewSlice(TyByte)), true
		case "Size":
			return C(hashLen(h.s)), true
		}
		return e.opaqueResult(m.Type().(*types.Signature), "hash method"), true
	}
	if m.Name() == "RhsEq" && Low {
		x := e.contentOf(st, args[1])
		e.setRecv(st, args[0], vAdd(vMul(x, vMul(x, x)), RC(1, 7)))
		return tup(), true
	}
	return nil, false
}

// sprintf supports constant formats with %s %d %v.
func (e *Eng) sprintf(st *state, format, va *T) *T {
	if format.op != QBytes {
		return Unk("format")
	}
	q := e.seqOf(st, va)
	if q.op != QArr && !(q.op == QBytes && q.s == "") {
		return Unk("format arguments")
	}
	s := format.s
	out := QEmpty()
	ai := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			out = SCat(out, QStr(s[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(s) {
			return Unk("format")
		}
		if s[i] == '%' {
			out = SCat(out, QStr("%"))
			continue
		}
		if ai >= len(q.a) {
			return Unk("format")
		}
		arg := q.a[ai]
		ai++
		verb := s[i]
		out = SCat(out, e.fork(st, arg, func(st *state, l *T) *T {
			if l.op != OIface {
				return Unk("format argument")
			}
			if verb == 's' || verb == 'v' {
				if sel := e.P.SSA.MethodSets.MethodSet(l.ty).Lookup(nil, "String"); sel != nil {
					return e.CallFn(st, e.P.SSA.MethodValue(sel), []*T{l.a[0]}, nil)
				}
			}
			switch u := l.ty.Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsString != 0 && (verb == 's' || verb == 'v') {
					return l.a[0]
				}
				if u.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v') {
					return decStr(l.a[0])
				}
				if u.Info()&types.IsInteger != 0 {
					return liftL1("fmtint"+string(verb), l.a[0], func(x *T) *T { return fixStr("fmt"+string(verb), -1, x) })
				}
			case *types.Slice:
				if isByteSlice(l.ty) {
					return liftL1("fmtseq"+string(verb), e.seqOf(st, l.a[0]), func(x *T) *T {
						if verb == 's' {
							return x
						}
						return fixStr("fmt"+string(verb), -1, x)
					})
				}
			}
			return Unk("format verb")
		}))
	}
	if ai != len(q.a) {
		return Unk("extra format arguments")
	}
	return out
}

var _ = sort.Strings

func bitLen(x *T) *T {
	return liftL1("len64", x, func(x *T) *T {
		if k, ok := isConstInt(x); ok && k >= 0 {
			return C(int64(big.NewInt(k).BitLen()))
		}
		return linAtom(mks(AUF, "bitlen", x))
	})
}
