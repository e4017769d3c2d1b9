package vg

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

var ObjCount int64

// seqReg maps symbolic paths to their sequence terms.
var seqReg = map[*T]*T{}

// Types of the library that the analysis gives a meaning to.
var (
	TyScalar, TyPoint, TyField    types.Type // named struct types
	TyScalarP, TyPointP, TyFieldP types.Type // pointers to them
	TyEccScalar, TyEccPoint       types.Type // interfaces
	TyEccField                    types.Type
	TyNodeIndex                   types.Type
	TyCipher                      types.Type
	TyByte                        = types.Type(types.Typ[types.Uint8])
	// IfaceCands lists the dynamic types a symbolic interface value may have.
	IfaceCands func(t types.Type) []types.Type
	// Low: scalars, points and field elements are modelled down to the arithmetic library.
	Low bool
)

func Unk(what string) *T  { return mks(OUF, "?"+what) }
func UnkB(what string) *T { return boolAtom(mks(BUF, "?"+what)) }

// HasUnknown reports a subterm the analysis could not give a meaning to.
func HasUnknown(t *T) string {
	seen := map[*T]bool{}
	var rec func(t *T) string
	rec = func(t *T) string {
		if seen[t] {
			return ""
		}
		seen[t] = true
		switch t.op {
		case OUF, BUF, AUF, RUF, XUF, QUF:
			if strings.HasPrefix(t.s, "?") {
				return t.s[1:]
			}
		case OHole, OFold, OFoldV:
			return "unsolved loop value"
		}
		r := ""
		each(t, func(x *T) {
			if r == "" {
				r = rec(x)
			}
		})
		return r
	}
	return rec(t)
}

var opNames = map[Op]string{OTrue: "true", OFalse: "false", OITE: "ite", OBot: "bot", ONil: "nil", OErr: "err", OLin: "int", ORing: "ring", OPt: "point", OStruct: "struct", OIface: "iface", OSlice: "slice", ORef: "ref", OClo: "closure", OFn: "func", OTuple: "tuple", OBox: "box", OObj: "obj", OSObj: "sobj", OGlob: "glob",
	SPRoot: "root", ALen: "len", AAt: "at", ALV: "lv", ABV: "bv", AMul: "mul", ADiv: "div", AMod: "mod", AAnd: "and", AXor: "xor", AOr: "or", AShl: "shl", AShr: "shr", AConv: "conv", AFirst: "first", ABlen: "blen", ACount: "count",
	BLe: "le0", BEq: "eq0", BREq: "req0", BPEq: "peq0", BSeqEq: "seqeq", BAll: "all", BNoDup: "nodup",
	RInv: "inv", REmb: "emb", RSum: "sum", RProd: "prod", RPoly: "poly", RBE: "be", XG: "G", XSum: "psum", XAff: "aff",
	QArr: "arr", QComp: "comp", QFlat: "flat", QFilt: "filter", QCat: "cat", QSub: "sub", QUpd: "upd", QRev: "rev", QZero: "zero",
	OHole: "hole", OMapS: "smap", OMapL: "lmap", OMapC: "cmap", OMapE: "emap", OStrm: "stream", OBig: "big", OFwd: "fwd", OCrd: "crd", OHash: "hash", OFold: "fold", PFld: "fld", PIdx: "idx", PDrf: "drf"}

func opName(t *T) string {
	if s, ok := opNames[t.op]; ok {
		return s
	}
	return fmt.Sprintf("op%d", t.op)
}

func (t *T) String() string {
	var b strings.Builder
	t.print(&b, 0)
	s := b.String()
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

func tyStr(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *T) print(b *strings.Builder, d int) {
	if t == nil {
		b.WriteString("<nil>")
		return
	}
	if d > 40 || b.Len() > 8000 {
		b.WriteString("…")
		return
	}
	args := func(xs []*T) {
		for i, x := range xs {
			if i > 0 {
				b.WriteString(", ")
			}
			x.print(b, d+1)
		}
	}
	switch t.op {
	case OLin:
		first := true
		for _, x := range t.lin.ts {
			if !first {
				b.WriteByte('+')
			}
			first = false
			if x.c != 1 {
				fmt.Fprintf(b, "%d*", x.c)
			}
			x.t.print(b, d+1)
		}
		if t.lin.c != 0 || first {
			if !first && t.lin.c > 0 {
				b.WriteByte('+')
			}
			fmt.Fprintf(b, "%d", t.lin.c)
		}
	case ORing:
		if len(t.rg.ms) == 0 {
			b.WriteString("0" + MNames[t.rg.m])
		}
		b.WriteByte('(')
		for i, m := range t.rg.ms {
			if i > 0 {
				b.WriteString(" + ")
			}
			c := new(big.Int).Set(m.c)
			if c.BitLen() > 200 {
				c.Sub(c, Mods[t.rg.m])
			}
			b.WriteString(c.String())
			for _, f := range m.f {
				b.WriteByte('*')
				f.t.print(b, d+1)
				if k, ok := isConstInt(f.e); !ok || k != 1 {
					b.WriteByte('^')
					f.e.print(b, d+1)
				}
			}
		}
		b.WriteByte(')')
	case OPt:
		b.WriteString("[")
		for i, p := range t.pt {
			if i > 0 {
				b.WriteString(" + ")
			}
			p.c.print(b, d+1)
			b.WriteByte('.')
			p.b.print(b, d+1)
		}
		b.WriteString("]")
	case OITE:
		b.WriteByte('{')
		t.a[0].print(b, d+1)
		b.WriteString(" ? ")
		t.a[1].print(b, d+1)
		b.WriteString(" : ")
		t.a[2].print(b, d+1)
		b.WriteByte('}')
	case QBytes:
		fmt.Fprintf(b, "%q", t.s)
	case SPRoot:
		b.WriteString(t.s)
	case SPFld:
		t.a[0].print(b, d+1)
		fmt.Fprintf(b, ".%d", t.n)
	case SPIdx:
		t.a[0].print(b, d+1)
		b.WriteByte('[')
		t.a[1].print(b, d+1)
		b.WriteByte(']')
	case SPDrf:
		t.a[0].print(b, d+1)
		b.WriteByte('*')
	case SPTyp:
		t.a[0].print(b, d+1)
		b.WriteString(".(" + tyStr(t.ty) + ")")
	case SPKey, SPVal:
		t.a[0].print(b, d+1)
		if t.op == SPKey {
			b.WriteString("#key(")
		} else {
			b.WriteString("#val(")
		}
		t.a[1].print(b, d+1)
		b.WriteString(")")
	case AIVar, BVar, RVar, XVar, QSym:
		t.a[0].print(b, d+1)
	case BType:
		t.a[0].print(b, d+1)
		b.WriteString(" is " + tyStr(t.ty))
	case BNil:
		t.a[0].print(b, d+1)
		b.WriteString(" is nil")
	case ALV:
		fmt.Fprintf(b, "k%d", t.n)
	case ABV:
		fmt.Fprintf(b, "b%d", t.n)
	default:
		b.WriteString(opName(t))
		if t.s != "" {
			b.WriteString("'" + t.s + "'")
		}
		if isBinder(t.op) {
			fmt.Fprintf(b, "<b%d>", t.n)
		} else if t.n != 0 {
			fmt.Fprintf(b, "#%d", t.n)
		}
		if t.ty != nil {
			b.WriteString("<" + tyStr(t.ty) + ">")
		}
		if len(t.a) > 0 {
			b.WriteByte('(')
			args(t.a)
			b.WriteByte(')')
		}
	}
}

func bigBytes(s string) *big.Int { return new(big.Int).SetBytes([]byte(s)) }

// mkBinder re-applies the smart constructor of a binder.
func mkBinder(t, N, v *T, bodies []*T) *T {
	switch t.op {
	case AFirst:
		return MkFirst(N, v, bodies[0])
	case ACount:
		return MkCount(N, v, bodies[0])
	case BAll:
		return MkAll(N, v, bodies[0])
	case BNoDup:
		return MkNoDup(N, v, bodies[0])
	case RSum:
		return MkSum(ringMod(t), N, v, bodies[0])
	case RProd:
		return MkProd(ringMod(t), N, v, bodies[0])
	case XSum:
		return MkPSum(N, v, PMul(bodies[1], bodies[0]))
	case QComp:
		return MkComp(N, v, bodies[0])
	case QFlat:
		return MkFlat(N, v, bodies[0])
	case QFilt:
		return MkFilt(N, v, bodies[0], bodies[1])
	}
	return closeBs(t.op, t.s, t.ty, N, v, bodies...)
}

// MkCount is the number of v<N with body.
func MkCount(N, v, body *T) *T {
	if N.op == OITE {
		return lift1(fmt.Sprintf("cntN%d,%d", v.id, body.id), N, func(N *T) *T { return MkCount(N, v, body) })
	}
	if body == True {
		return N
	}
	if body == False {
		return C(0)
	}
	if k, ok := isConstInt(N); ok && k <= 64 {
		r := C(0)
		for i := int64(0); i < k; i++ {
			r = IAdd(r, ite(subst(body, map[*T]*T{v: C(i)}), C(1), C(0)))
		}
		return r
	}
	for _, at := range support(body) {
		if !at.hasFV(v) {
			return ite(boolAtom(at), MkCount(N, v, cofactor(body, at, true)), MkCount(N, v, cofactor(body, at, false)))
		}
	}
	if at, dep := pickGate(body, v); at != nil && dep && N.op == OLin {
		hi, lo := cofactor(body, at, true), cofactor(body, at, false)
		k, c := rangeGate(at, v)
		switch k {
		case 'e':
			in := And(Le(C(0), c), Lt(c, N))
			one := func(b *T) *T { return ite(subst(b, map[*T]*T{v: c}), C(1), C(0)) }
			return IAdd(MkCount(N, v, lo), ite(in, ISub(one(hi), one(lo)), C(0)))
		case 'l', 'g':
			n1 := c
			if k == 'l' {
				n1 = linComb(c, 1, C(1), 1)
			} else {
				hi, lo = lo, hi
			}
			n1 = clamp(n1, N)
			return lift1(fmt.Sprintf("cntr%d,%d", v.id, body.id), n1, func(n1 *T) *T {
				if n1.op != OLin {
					return bad2("count", n1, n1)
				}
				return IAdd(MkCount(n1, v, hi), MkCount(linComb(N, 1, n1, -1), v, subst(lo, map[*T]*T{v: linComb(linAtom(v), 1, n1, 1)})))
			})
		}
	}
	return linAtom(closeB(ACount, N, v, body))
}

// MkFilt is the sequence of val(v) for v<N with cond(v).
func MkFilt(N, v, cond, val *T) *T {
	if cond == True {
		return MkComp(N, v, val)
	}
	if cond == False {
		return QEmpty()
	}
	if N.op == OITE {
		return lift1(fmt.Sprintf("filtN%d,%d,%d", v.id, cond.id, val.id), N, func(N *T) *T { return MkFilt(N, v, cond, val) })
	}
	for _, at := range support(cond) {
		if !at.hasFV(v) {
			return ite(boolAtom(at), MkFilt(N, v, cofactor(cond, at, true), val), MkFilt(N, v, cofactor(cond, at, false), val))
		}
	}
	return closeBs(QFilt, "", nil, N, v, cond, restrict(val, cond))
}

// rebuild re-applies the smart constructor of t to substituted children.
func rebuild(t *T, sub func(*T) *T) *T {
	subs := func() []*T {
		a := make([]*T, len(t.a))
		for i, x := range t.a {
			a[i] = sub(x)
		}
		return a
	}
	raw := func(a []*T) *T {
		return valueOf(intern(&T{op: t.op, n: t.n, s: t.s, ty: t.ty, a: a}))
	}
	lifted := func() *T {
		return lift(fmt.Sprintf("rb%d,%d,%s,%d", t.op, t.n, t.s, tyID(t.ty)), subs(), raw)
	}
	switch t.op {
	case OITE:
		c := sub(t.a[0])
		if c == True {
			return sub(t.a[1])
		}
		if c == False {
			return sub(t.a[2])
		}
		return ite(c, sub(t.a[1]), sub(t.a[2]))
	case OLin:
		r := C(t.lin.c)
		for _, x := range t.lin.ts {
			r = IAdd(r, IScale(sub(x.t), x.c))
		}
		return r
	case ORing:
		r := RC(t.rg.m, 0)
		for _, m := range t.rg.ms {
			x := RBig(t.rg.m, m.c)
			for _, f := range m.f {
				x = RMul(x, RPow(sub(f.t), sub(f.e)))
			}
			r = RAdd(r, x)
		}
		return r
	case OPt:
		r := PZero()
		for _, p := range t.pt {
			r = PAdd(r, PMul(sub(p.b), sub(p.c)))
		}
		return r
	case AMul:
		r := C(1)
		for _, x := range t.a {
			r = IMul(r, sub(x))
		}
		return r
	case ADiv, AMod, AAnd, AXor, AOr, AShl, AShr:
		return intOp(t.op, sub(t.a[0]), sub(t.a[1]))
	case AConv:
		return Conv(sub(t.a[0]), t.ty)
	case ALen:
		return SLen(sub(t.a[0]))
	case AAt:
		return SAt(sub(t.a[0]), sub(t.a[1]))
	case ABlen:
		return lift1("ablen", sub(t.a[0]), func(x *T) *T {
			if c, ok := isRingConst(x); ok {
				return C(int64((c.BitLen() + 7) / 8))
			}
			return raw([]*T{x})
		})
	case BLe:
		return Le0(sub(t.a[0]))
	case BEq:
		return Eq0(sub(t.a[0]))
	case BREq:
		x := sub(t.a[0])
		return lift1("breq", x, func(x *T) *T {
			if x.op != ORing {
				return UnkB("ring test")
			}
			return REq(x, RC(x.rg.m, 0))
		})
	case BPEq:
		return PEq(sub(t.a[0]), PZero())
	case BSeqEq:
		return SEq(sub(t.a[0]), sub(t.a[1]))
	case RInv:
		return RInverse(sub(t.a[0]))
	case REmb:
		return REmbed(int(t.n), sub(t.a[0]))
	case RPoly:
		return sub(t.a[0])
	case RCst:
		c, _ := new(big.Int).SetString(t.s, 10)
		return RBig(int(t.n), c)
	case RBE:
		return RFromBE(int(t.n), sub(t.a[0]))
	case RVar, XVar, BVar, AIVar:
		if p := t.a[0]; p.op == SPIdx && p.a[0].op == OHole {
			q := sub(p.a[0])
			i := sub(p.a[1])
			if q != p.a[0] {
				return Unbox(SAt(q, i))
			}
			return raw([]*T{intern(&T{op: SPIdx, a: []*T{q, i}})})
		}
		return raw(subs())
	case RUF:
		switch t.s {
		case "affx":
			return AffX(sub(t.a[0]))
		case "affy":
			return AffY(sub(t.a[0]))
		}
		return lifted()
	case AUF, BUF, XUF, XAff, OUF:
		return lifted()
	case QArr:
		return mkArr(subs())
	case QCat:
		return SCat(subs()...)
	case QSub:
		return SSlice(sub(t.a[0]), sub(t.a[1]), sub(t.a[2]))
	case QUpd:
		return SUpd(sub(t.a[0]), sub(t.a[1]), sub(t.a[2]))
	case QRev:
		return SRev(sub(t.a[0]))
	case QZero:
		return MkZero(sub(t.a[0]), t.ty)
	case QUF:
		if t.s == "be32" {
			return BE32(sub(t.a[0]))
		}
		return lifted()
	case QSym:
		return raw(subs())
	case SPIdx, SPKey, SPVal:
		// indices of paths are plain values
		return intern(&T{op: t.op, n: t.n, s: t.s, ty: t.ty, a: subs()})
	case OIface:
		x := sub(t.a[0])
		return mk(OIface, t.ty, x)
	}
	return valueOf(intern(&T{op: t.op, n: t.n, s: t.s, ty: t.ty, a: subs()}))
}

// MkZero is a sequence of n zero values.
func MkZero(n *T, ty types.Type) *T {
	return lift1("mkzero"+fmt.Sprint(tyID(ty)), n, func(n *T) *T {
		if k, ok := isConstInt(n); ok && k <= 256 {
			if b, isb := ty.Underlying().(*types.Basic); isb && b.Kind() == types.Uint8 {
				if k < 0 {
					return Bot
				}
				return QStr(strings.Repeat("\x00", int(k)))
			}
			el := make([]*T, 0, 4)
			for i := int64(0); i < k; i++ {
				el = append(el, zeroOf(ty))
			}
			return mkArr(el)
		}
		return mk(QZero, ty, n)
	})
}

// Unbox strips interface and box layers of an array element.
func Unbox(v *T) *T {
	return lift1("unbox", v, func(v *T) *T {
		for v.op == OIface || v.op == OBox {
			v = v.a[0]
		}
		if v.op == OITE {
			return Unbox(v)
		}
		return v
	})
}

func isNamed(t types.Type, n types.Type) bool { return n != nil && types.Identical(t, n) }

// contentType: which algebraic content objects of a type have; 0 none.
func contentKind(t types.Type) byte {
	if !Low {
		switch {
		case isNamed(t, TyScalar):
			return 's'
		case isNamed(t, TyField):
			return 'f'
		case isNamed(t, TyPoint):
			return 'p'
		}
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "curves/native") {
		switch n.Obj().Name() {
		case "EllipticPoint":
			return 'p'
		}
	}
	return 0
}

// zeroOf is the zero value of a type.
func zeroOf(t types.Type) *T {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return QEmpty()
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return C(0)
		}
		return Nil
	case *types.Struct:
		if isMapType(t) {
			return mk(OMapE, nil)
		}
		switch contentKind(t) {
		case 's':
			return RC(0, 0)
		case 'f':
			return RC(1, 0)
		case 'p':
			if !Low {
				return PZero()
			}
		}
		a := make([]*T, u.NumFields())
		for i := range a {
			a[i] = zeroOf(u.Field(i).Type())
		}
		return mk(OStruct, t, a...)
	case *types.Array:
		return MkZero(C(u.Len()), u.Elem())
	}
	return Nil
}

// ifaceOf lists the types a symbolic interface value may have.
var ifaceOf = map[*T][]types.Type{}

// typed requires the interface values a condition asks about to be non-nil and
// of one of the library's types.
func typed(g *T) *T {
	seen := map[*T]bool{}
	roots := map[*T]bool{}
	var order []*T
	var walk func(*T)
	walk = func(t *T) {
		if t.op != OITE || seen[t] {
			return
		}
		seen[t] = true
		if at := t.a[0]; at.op == BType && !roots[at.a[0]] {
			roots[at.a[0]] = true
			order = append(order, at.a[0])
		}
		walk(t.a[1])
		walk(t.a[2])
	}
	walk(g)
	for _, r := range order {
		some := False
		for _, c := range ifaceOf[r] {
			some = Or(some, boolAtom(mk(BType, c, r)))
		}
		if some != False {
			g = And(g, some)
		}
	}
	return g
}

// isMapType recognises btree.Map instances.
func isMapType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Map" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/tidwall/btree"
}

func mapTypes(t types.Type) (k, v types.Type) {
	n := t.(*types.Named)
	return n.TypeArgs().At(0), n.TypeArgs().At(1)
}

// decodedPath reports that the value comes out of a decoder, which can leave
// any pointer or interface nil.
func decodedPath(p *T) bool {
	for p.op == SPDrf || p.op == SPFld || p.op == SPIdx {
		p = p.a[0]
	}
	return p.op == SPStr && p.s == "cbor"
}

// SymValue is the symbolic value of type t at a path.
func SymValue(path *T, t types.Type) *T {
	v := symValue(path, t)
	if (v.op == OIface || v.op == ORef) && decodedPath(path) {
		return ite(boolAtom(mk(BNil, nil, path)), Nil, v)
	}
	return v
}

func symValue(path *T, t types.Type) *T {
	if !Low {
		switch {
		case isNamed(t, TyEccScalar):
			return mk(OIface, TyScalarP, mk(ORef, nil, mk(OSObj, TyScalar, path)))
		case isNamed(t, TyEccPoint):
			return mk(OIface, TyPointP, mk(ORef, nil, mk(OSObj, TyPoint, path)))
		case isNamed(t, TyEccField):
			return mk(OIface, TyFieldP, mk(ORef, nil, mk(OSObj, TyField, path)))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			q := mk(QSym, t, path)
			seqReg[path] = q
			return q
		case u.Info()&types.IsBoolean != 0:
			return boolAtom(mk(BVar, nil, path))
		case u.Info()&types.IsInteger != 0:
			return linAtom(mk(AIVar, t, path))
		}
	case *types.Slice:
		obj := mk(SPDrf, nil, path)
		q := symSeq(obj, t)
		return mk(OSlice, nil, mk(ORef, nil, mk(OSObj, t, obj)), C(0), SLen(q))
	case *types.Array:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 || u.Len() > 64 {
			q := mk(QSym, t, path)
			seqReg[path] = q
			return q
		}
		el := make([]*T, u.Len())
		for i := range el {
			el[i] = SymValue(mk(SPIdx, nil, path, C(int64(i))), u.Elem())
		}
		return intern(&T{op: QArr, a: el})
	case *types.Pointer:
		return mk(ORef, nil, mk(OSObj, u.Elem(), mk(SPDrf, nil, path)))
	case *types.Struct:
		if isMapType(t) {
			if HintMap != nil {
				if n, ok := HintMap(path, t); ok {
					kt, vt := mapTypes(t)
					var a []*T
					for i := int64(0); i < n; i++ {
						k := MapKeyAt(path, C(i), kt)
						a = append(a, k, MapValAt(path, k, vt))
					}
					if n == 0 {
						return mk(OMapE, nil)
					}
					return mk(OMapL, nil, a...)
				}
			}
			return mk(OMapS, t, path)
		}
		if isNamed(t, TyCipher) {
			return mk(OStrm, nil, mk(OUF, nil, path), C(0))
		}
		switch contentKind(t) {
		case 's':
			return ringAtom(mkn(RVar, 0, path))
		case 'f':
			return ringAtom(mkn(RVar, 1, path))
		case 'p':
			return ptAtom(mk(XVar, nil, path))
		}
		if Low && isNamed(t, tyNField) {
			if m := fieldMod(path); m >= 0 {
				return ringAtom(mkn(RVar, int64(m), path))
			}
			return Unk("field of unknown modulus")
		}
		a := make([]*T, u.NumFields())
		for i := range a {
			var ft types.Type
			if Low && (isNamed(t, TyScalar) || isNamed(t, TyField)) {
				ft = t // says which field a native.Field belongs to
			}
			a[i] = SymValue(intern(&T{op: SPFld, n: int64(i), ty: ft, a: []*T{path}}), u.Field(i).Type())
		}
		return mk(OStruct, t, a...)
	case *types.Interface:
		if IfaceCands != nil {
			if isErrorType(t) {
				return ite(boolAtom(mk(BNil, nil, path)), Nil, Err)
			}
			if HintDyn != nil {
				if ct := HintDyn(path, t); ct != nil {
					if b, ok := ct.(*types.Basic); ok && b.Kind() == types.UntypedNil {
						return Nil
					}
					return mk(OIface, ct, SymValue(mk(SPTyp, ct, path), ct))
				}
			}
			cs := IfaceCands(t)
			r := Nil
			for i := len(cs) - 1; i >= 0; i-- {
				v := mk(OIface, cs[i], SymValue(mk(SPTyp, cs[i], path), cs[i]))
				r = ite(boolAtom(mk(BType, cs[i], path)), v, r)
			}
			if r == Nil {
				return mk(OUF, t, path)
			}
			ifaceOf[path] = cs
			return r
		}
	}
	return mk(OUF, t, path)
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// Hints specialise symbolic values: lengths of sequences and maps, dynamic
// types of interfaces.
var (
	HintLen func(path *T, t types.Type) (int64, bool)
	HintMap func(path *T, t types.Type) (int64, bool)
	HintDyn func(path *T, t types.Type) types.Type
)

// PathRoot is the name of the argument a symbolic path starts from.
func PathRoot(p *T) string {
	for p != nil && p.op != SPRoot {
		if len(p.a) == 0 {
			return ""
		}
		p = p.a[0]
	}
	if p == nil {
		return ""
	}
	return p.s
}

func symSeq(path *T, t types.Type) *T {
	if HintLen != nil {
		if n, ok := HintLen(path, t); ok {
			el := make([]*T, n)
			for i := range el {
				el[i] = SymValue(mk(SPIdx, nil, path, C(int64(i))), seqElem(t))
			}
			if n == 0 {
				return QEmpty()
			}
			return mkArr(el)
		}
	}
	q := mk(QSym, t, path)
	seqReg[path] = q
	return q
}

// symContent is the content of a symbolic object.
func symContent(o *T) *T {
	if _, ok := o.ty.Underlying().(*types.Slice); ok && o.a[0].op == SPDrf {
		return symSeq(o.a[0], o.ty)
	}
	return SymValue(o.a[0], o.ty)
}

// symElem is element i of a symbolic sequence.
func symElem(q, i *T) *T {
	et := seqElem(q.ty)
	if b, ok := et.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return linAtom(intern(&T{op: AAt, ty: et, a: []*T{q, i}}))
	}
	return SymValue(intern(&T{op: SPIdx, a: []*T{q.a[0], i}}), et)
}

// symPathOf is the path of the symbolic sequence element that body is.
func symPathOf(body *T) *T {
	x := body
	var p *T
	for i := 0; i < 6 && p == nil; i++ {
		switch x.op {
		case OITE:
			// a chain of dynamic types at one path
			if x.a[0].op == BType {
				p = x.a[0].a[0]
			} else {
				return nil
			}
		case OIface:
			x = x.a[0]
			if x.op == OITE {
				return nil
			}
		case ORef:
			if len(x.a) != 1 || x.a[0].op != OSObj {
				return nil
			}
			p = x.a[0].a[0]
			if p.op == SPDrf {
				p = p.a[0]
			}
		case OSlice:
			if x.a[0].op != ORef {
				return nil
			}
			x = x.a[0]
		case QArr, OStruct:
			if len(x.a) == 0 {
				return nil
			}
			y := symPathOf(x.a[0])
			if y == nil || (y.op != SPIdx && y.op != SPFld) {
				return nil
			}
			p = y.a[0]
		case ORing:
			if len(x.rg.ms) == 1 && len(x.rg.ms[0].f) == 1 && x.rg.ms[0].f[0].t.op == RVar {
				p = x.rg.ms[0].f[0].t.a[0]
			} else {
				return nil
			}
		case OPt:
			if len(x.pt) == 1 && x.pt[0].b.op == XVar {
				p = x.pt[0].b.a[0]
			} else {
				return nil
			}
		default:
			return nil
		}
	}
	if p == nil || p.op != SPIdx || p.a[0].op == OHole {
		return p
	}
	q := seqOfPath(p.a[0])
	if q == nil || symElem(q, p.a[1]) != body {
		return nil
	}
	return p
}

func seqOfPath(p *T) *T { return seqReg[p] }
