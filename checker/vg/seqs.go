package vg

import (
	"fmt"
	"go/types"
	"strings"
)

// ---------------------------------------------------------------- sequences

func QStr(s string) *T { return mks(QBytes, s) }

// SLen is the length of a sequence as an int value.
func SLen(q *T) *T {
	return lift1("slen", q, func(q *T) *T {
		switch q.op {
		case QBytes:
			return C(int64(len(q.s)))
		case QArr:
			return C(int64(len(q.a)))
		case QSym:
			if a, ok := q.ty.Underlying().(*types.Array); ok {
				return C(a.Len())
			}
			return linAtom(mk(ALen, nil, q))
		case QComp, QZero:
			return q.a[0]
		case QFilt:
			return linAtom(intern(&T{op: ACount, n: q.n, a: []*T{q.a[0], q.a[1]}}))
		case QCat:
			r := C(0)
			for _, x := range q.a {
				r = IAdd(r, SLen(x))
			}
			return r
		case QSub:
			return q.a[2]
		case QUpd, QRev:
			return SLen(q.a[0])
		case QUF:
			if q.n >= 0 {
				return C(q.n)
			}
			switch q.s {
			case "xmd", "keystream":
				return q.a[2]
			case "xor":
				return SLen(q.a[0])
			}
			return linAtom(mk(ALen, nil, q))
		case QFlat:
			v, b := openB(q)
			_ = v
			l := SLen(b[0])
			if l.op == OLin && !l.hasFV(v) {
				return IMul(q.a[0], l)
			}
			return linAtom(mk(ALen, nil, q))
		case OHole, OBot:
			return linAtom(mk(ALen, nil, q))
		}
		return Unk("length of " + opName(q))
	})
}

// SAt is the element at index i (assumed in range).
func SAt(q, i *T) *T {
	return lift2("sat", q, i, func(q, i *T) *T {
		if i.op != OLin {
			return bad2("index", q, i)
		}
		k, isK := isConstInt(i)
		switch q.op {
		case QBytes:
			if isK && k >= 0 && k < int64(len(q.s)) {
				return C(int64(q.s[k]))
			}
			return linAtom(intern(&T{op: AAt, ty: types.Typ[types.Uint8], a: []*T{q, i}}))
		case QArr:
			if isK {
				if k >= 0 && k < int64(len(q.a)) {
					return q.a[k]
				}
				return Bot
			}
			if len(q.a) <= 64 && len(q.a) > 0 {
				r := q.a[len(q.a)-1]
				for j := len(q.a) - 2; j >= 0; j-- {
					r = ite(Eq(i, C(int64(j))), q.a[j], r)
				}
				return r
			}
		case QSym:
			return symElem(q, i)
		case QComp:
			return openWith(q, i)[0]
		case QZero:
			return zeroOf(q.ty)
		case QSub:
			return SAt(q.a[0], IAdd(q.a[1], i))
		case QRev:
			return SAt(q.a[0], ISub(ISub(SLen(q.a[0]), C(1)), i))
		case QUpd:
			return ite(Eq(q.a[1], i), q.a[2], SAt(q.a[0], i))
		case QCat:
			off := C(0)
			r := (*T)(nil)
			var conds, vals []*T
			for j, x := range q.a {
				l := SLen(x)
				end := IAdd(off, l)
				vals = append(vals, SAt(x, ISub(i, off)))
				if j < len(q.a)-1 {
					conds = append(conds, Lt(i, end))
				}
				off = end
			}
			r = vals[len(vals)-1]
			for j := len(vals) - 2; j >= 0; j-- {
				r = ite(conds[j], vals[j], r)
			}
			return r
		case QFlat:
			// fixed-size blocks
			v, b := openB(q)
			l := SLen(b[0])
			if n, ok := isConstInt(l); ok && n > 0 && !l.hasFV(v) {
				bi := intOp(ADiv, i, C(n))
				return SAt(openWith(q, bi)[0], ISub(i, IScale(bi, n)))
			}
		}
		if q.op == OBot {
			return Bot
		}
		if q.op == OHole || isSeq(q.op) {
			return elemAtom(q, i)
		}
		return Unk("index of " + opName(q))
	})
}

// elemAtom is an opaque element.
func elemAtom(q, i *T) *T {
	ty := elemTyOf(q)
	if ty == nil {
		ty = types.Typ[types.Uint8]
	}
	if b, ok := ty.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return linAtom(intern(&T{op: AAt, ty: ty, a: []*T{q, i}}))
	}
	return mk(OUF, ty, q, i)
}

func elemTyOf(q *T) types.Type {
	switch q.op {
	case QBytes:
		return types.Typ[types.Uint8]
	case QUF, OHole, QFilt, QZero:
		return q.ty
	case QSym:
		return seqElem(q.ty)
	case QSub, QUpd, QRev:
		return elemTyOf(q.a[0])
	case QCat:
		return elemTyOf(q.a[0])
	}
	return nil
}

func seqElem(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return types.Typ[types.Uint8]
}

func isByteSeq(q *T) bool {
	t := elemTyOf(q)
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// SCat concatenates.
func SCat(qs ...*T) *T {
	r := QEmpty()
	for _, q := range qs {
		r = lift2("scat", r, q, cat2)
	}
	return r
}

func QEmpty() *T { return QStr("") }

func catParts(q *T) []*T {
	if q.op == QCat {
		return q.a
	}
	return []*T{q}
}

func isEmptySeq(q *T) bool {
	switch q.op {
	case QBytes:
		return q.s == ""
	case QArr:
		return len(q.a) == 0
	case QZero, QComp:
		return q.a[0] == C(0)
	}
	return false
}

func cat2(a, b *T) *T {
	if a.op == OBot || b.op == OBot {
		return Bot
	}
	if isEmptySeq(a) {
		return b
	}
	if isEmptySeq(b) {
		return a
	}
	parts := append([]*T{}, catParts(a)...)
	for _, x := range catParts(b) {
		l := parts[len(parts)-1]
		if m := mergeSeq(l, x); m != nil {
			parts[len(parts)-1] = m
			// merging may cascade
			for len(parts) > 1 {
				if m := mergeSeq(parts[len(parts)-2], parts[len(parts)-1]); m != nil {
					parts = append(parts[:len(parts)-2], m)
				} else {
					break
				}
			}
			continue
		}
		parts = append(parts, x)
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return intern(&T{op: QCat, a: parts})
}

func byteElems(q *T) ([]*T, bool) {
	switch q.op {
	case QBytes:
		var r []*T
		for i := 0; i < len(q.s); i++ {
			r = append(r, C(int64(q.s[i])))
		}
		return r, true
	case QArr:
		return q.a, true
	case QZero:
		if k, ok := isConstInt(q.a[0]); ok && k <= 64 {
			z := zeroOf(q.ty)
			var r []*T
			for i := int64(0); i < k; i++ {
				r = append(r, z)
			}
			return r, true
		}
	}
	return nil, false
}

// mkArr builds a sequence from explicit elements.
func mkArr(el []*T) *T {
	el = bitsNF(el)
	all := true
	for _, x := range el {
		if k, ok := isConstInt(x); !ok || k < 0 || k > 255 {
			all = false
		}
	}
	if all {
		b := make([]byte, len(el))
		for i, x := range el {
			b[i] = byte(x.lin.c)
		}
		return QStr(string(b))
	}
	// contiguous elements of one sequence
	if len(el) > 1 {
		if q, off, ok := runOf(el); ok {
			return SSlice(q, off, C(int64(len(el))))
		}
	}
	return intern(&T{op: QArr, a: el})
}

// bitsNF writes elements that are one bit plus a constant as decisions.
func bitsNF(el []*T) []*T {
	out := el
	for i, x := range el {
		y := bitNF(x)
		if y != x {
			if &out[0] == &el[0] {
				out = append([]*T{}, el...)
			}
			out[i] = y
		}
	}
	return out
}

func bitNF(x *T) *T {
	if x.op == OITE {
		return ite(boolAtom(x.a[0]), bitNF(x.a[1]), bitNF(x.a[2]))
	}
	if x.op != OLin || len(x.lin.ts) != 1 || x.lin.ts[0].t.op != AAnd {
		return x
	}
	b := x.lin.ts[0].t
	if b.a[1] != C(1) && b.a[0] != C(1) {
		return x
	}
	return ite(Eq(linAtom(b), C(0)), C(x.lin.c), C(x.lin.c+x.lin.ts[0].c))
}

// runOf recognises q[off], q[off+1], ...
func runOf(el []*T) (q, off *T, ok bool) {
	var base *T
	for i, x := range el {
		if x.op != OLin || len(x.lin.ts) != 1 || x.lin.c != 0 || x.lin.ts[0].c != 1 {
			return
		}
		a := x.lin.ts[0].t
		var s, ix *T
		switch a.op {
		case AAt:
			s, ix = a.a[0], a.a[1]
		case AIVar:
			if a.a[0].op != SPIdx {
				return
			}
			s, ix = seqOfPath(a.a[0].a[0]), a.a[0].a[1]
			if s == nil {
				return
			}
		default:
			return
		}
		if i == 0 {
			base, off = s, ix
		} else if s != base || ix != linComb(off, 1, C(int64(i)), 1) {
			return
		}
	}
	return base, off, true
}

func mergeSeq(a, b *T) *T {
	if a.op == QBytes && b.op == QBytes {
		return QStr(a.s + b.s)
	}
	if a.op == QZero && b.op == QZero && sameTy(a.ty, b.ty) {
		return mk(QZero, a.ty, IAdd(a.a[0], b.a[0]))
	}
	if (a.op == QArr || a.op == QBytes) && (b.op == QArr || b.op == QBytes) && (a.op == QArr || b.op == QArr) {
		x, _ := byteElems(a)
		y, _ := byteElems(b)
		// keep constant strings separate from symbolic elements
		if a.op == QBytes && len(a.s) > 0 || b.op == QBytes && len(b.s) > 0 {
			return nil
		}
		if len(x)+len(y) <= 256 {
			return mkArr(append(append([]*T{}, x...), y...))
		}
	}
	// contiguous slices
	if sa, oa, la, ok := subOf(a); ok {
		if sb, ob, lb, ok := subOf(b); ok && sa == sb && IAdd(oa, la) == ob {
			return SSlice(sa, oa, IAdd(la, lb))
		}
	}
	// zeros(32-len(minbe x)) ++ minbe x = be32 x
	if a.op == QZero && b.op == QUF && b.s == "minbe" && a.a[0] == ISub(C(32), SLen(b)) {
		return BE32(b.a[0])
	}
	// comprehension absorption: Comp(M,f) ++ [f(M)]
	if a.op == QComp && b.op == QArr && len(b.a) == 1 && a.a[0].op == OLin {
		if openWith(a, a.a[0])[0] == b.a[0] {
			v := newLV(linComb(a.a[0], 1, C(1), 1))
			return MkComp(linComb(a.a[0], 1, C(1), 1), v, openWith(a, linAtom(v))[0])
		}
	}
	if b.op == QComp && a.op == QArr && len(a.a) == 1 && b.a[0].op == OLin {
		if openWith(b, C(-1))[0] == a.a[0] {
			N := linComb(b.a[0], 1, C(1), 1)
			v := newLV(N)
			return MkComp(N, v, openWith(b, linComb(linAtom(v), 1, C(-1), 1))[0])
		}
	}
	// Comp(M,f) ++ Comp(K, f(M+.)) = Comp(M+K, f)
	if a.op == QComp && b.op == QComp && a.a[0].op == OLin && b.a[0].op == OLin {
		v := newLV(b.a[0])
		if openWith(a, linComb(linAtom(v), 1, a.a[0], 1))[0] == openWith(b, linAtom(v))[0] {
			N := linComb(a.a[0], 1, b.a[0], 1)
			w := newLV(N)
			return MkComp(N, w, openWith(a, linAtom(w))[0])
		}
	}
	return nil
}

func subOf(q *T) (s, off, l *T, ok bool) {
	switch q.op {
	case QSub:
		return q.a[0], q.a[1], q.a[2], true
	case QSym, QUF:
		return q, C(0), SLen(q), true
	}
	return
}

// BE32 is the 32-byte big-endian encoding of a canonical residue.
func BE32(x *T) *T {
	return lift1("be32", x, func(x *T) *T {
		if x.op != ORing {
			return bad2("be32", x, x)
		}
		if c, ok := isRingConst(x); ok {
			b := make([]byte, 32)
			c.FillBytes(b)
			return QStr(string(b))
		}
		return intern(&T{op: QUF, s: "be32", n: 32, ty: types.Typ[types.Uint8], a: []*T{x}})
	})
}

// SSlice is q[off:off+l].
func SSlice(q, off, l *T) *T {
	return lift("sslice", []*T{q, off, l}, func(a []*T) *T {
		q, off, l := a[0], a[1], a[2]
		if off.op != OLin || l.op != OLin {
			return Unk("slice bounds")
		}
		if l == C(0) {
			return QEmpty()
		}
		if off == C(0) && l == SLen(q) {
			return q
		}
		ko, ok1 := isConstInt(off)
		kl, ok2 := isConstInt(l)
		switch q.op {
		case QBytes:
			if ok1 && ok2 && ko >= 0 && kl >= 0 && ko+kl <= int64(len(q.s)) {
				return QStr(q.s[ko : ko+kl])
			}
			if !(ok1 && ok2) && strings.Trim(q.s, "\x00") == "" && decLe(C(0), l) && decLe(linComb(off, 1, l, 1), C(int64(len(q.s)))) {
				return MkZero(l, types.Typ[types.Uint8])
			}
		case QArr:
			if ok1 && ok2 && ko >= 0 && kl >= 0 && ko+kl <= int64(len(q.a)) {
				return mkArr(append([]*T{}, q.a[ko:ko+kl]...))
			}
		case QZero:
			return mk(QZero, q.ty, l)
		case QSub:
			return SSlice(q.a[0], IAdd(q.a[1], off), l)
		case QComp:
			v := newLV(l)
			return MkComp(l, v, openWith(q, linComb(linAtom(v), 1, off, 1))[0])
		case QRev:
			n := SLen(q.a[0])
			return SRev(SSlice(q.a[0], ISub(ISub(n, off), l), l))
		case QUpd:
			i := q.a[1]
			in := And(Le(off, i), Lt(i, IAdd(off, l)))
			base := SSlice(q.a[0], off, l)
			return ite(in, SUpd(base, ISub(i, off), q.a[2]), base)
		case QCat:
			// skip whole leading parts, cut trailing parts
			p := C(0)
			for j, x := range q.a {
				lx := SLen(x)
				if lx.op != OLin {
					break
				}
				e := linComb(p, 1, lx, 1)
				if decLe(e, off) { // part entirely before
					p = e
					continue
				}
				// part contains the start?
				if !decLe(p, off) || !decLe(off, e) {
					break
				}
				end := linComb(off, 1, l, 1)
				if decLe(end, e) {
					return SSlice(x, ISub(off, p), l)
				}
				first := SSlice(x, ISub(off, p), ISub(e, off))
				rest := intern(&T{op: QCat, a: q.a[j+1:]})
				if len(q.a[j+1:]) == 1 {
					rest = q.a[j+1]
				}
				if len(q.a[j+1:]) == 0 || !decLe(e, end) {
					break
				}
				return SCat(first, SSlice(rest, C(0), linComb(end, 1, e, -1)))
			}
		case QFlat:
			v, b := openB(q)
			bl := SLen(b[0])
			if n, ok := isConstInt(bl); ok && n > 0 && !bl.hasFV(v) {
				if ok2 && kl == n {
					bi := divExact(off, n)
					if bi != nil {
						return openWith(q, bi)[0]
					}
				}
			}
		}
		if q.op == OBot {
			return Bot
		}
		if !isSeq(q.op) && q.op != OHole {
			return Unk("slice of " + opName(q))
		}
		return mk(QSub, nil, q, off, l)
	})
}

func divExact(x *T, n int64) *T {
	if x.op != OLin || x.lin.c%n != 0 {
		return nil
	}
	m := map[*T]int64{}
	for _, t := range x.lin.ts {
		if t.c%n != 0 {
			return nil
		}
		m[t.t] = t.c / n
	}
	return mkLin(x.lin.c/n, m)
}

func decLe(a, b *T) bool { return Le(a, b) == True }

// SRev reverses.
func SRev(q *T) *T {
	return lift1("srev", q, func(q *T) *T {
		switch q.op {
		case QBytes:
			b := []byte(q.s)
			for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
			return QStr(string(b))
		case QArr:
			var el []*T
			for i := len(q.a) - 1; i >= 0; i-- {
				el = append(el, q.a[i])
			}
			return mkArr(el)
		case QZero:
			return q
		case QRev:
			return q.a[0]
		case QCat:
			r := QEmpty()
			for i := len(q.a) - 1; i >= 0; i-- {
				r = SCat(r, SRev(q.a[i]))
			}
			return r
		case QComp:
			N := q.a[0]
			v := newLV(N)
			return MkComp(N, v, openWith(q, linComb(linComb(N, 1, C(-1), 1), 1, linAtom(v), -1))[0])
		case OBot:
			return Bot
		}
		return mk(QRev, nil, q)
	})
}

// SUpd replaces one element.
func SUpd(q, i, x *T) *T {
	return lift2(fmt.Sprintf("supd%d", x.id), q, i, func(q, i *T) *T {
		k, isK := isConstInt(i)
		if q.op == OBot {
			return Bot
		}
		if SAtQuick(q, i) == x {
			return q
		}
		switch q.op {
		case QBytes, QArr, QZero:
			if el, ok := byteElems(q); ok && isK {
				if k < 0 || k >= int64(len(el)) {
					return Bot
				}
				ne := append([]*T{}, el...)
				ne[k] = x
				return mkArr(ne)
			}
		case QSym, QUF:
			if n, ok := isConstInt(SLen(q)); ok && isK && n <= 64 {
				var el []*T
				for j := int64(0); j < n; j++ {
					el = append(el, SAt(q, C(j)))
				}
				el[k] = x
				return mkArr(el)
			}
		case QComp:
			if n, ok := isConstInt(q.a[0]); ok && isK && n <= 64 {
				var el []*T
				for j := int64(0); j < n; j++ {
					el = append(el, SAt(q, C(j)))
				}
				el[k] = x
				return mkArr(el)
			}
		case QUpd:
			if q.a[1] == i {
				return SUpd(q.a[0], i, x)
			}
		case QCat:
			p := C(0)
			for j, part := range q.a {
				l := SLen(part)
				e := IAdd(p, l)
				if decLe(p, i) && Lt(i, e) == True {
					np := SUpd(part, ISub(i, p), x)
					var ps []*T
					ps = append(ps, q.a[:j]...)
					ps = append(ps, np)
					ps = append(ps, q.a[j+1:]...)
					return SCat(ps...)
				}
				p = e
			}
		}
		if i.op != OLin {
			return Unk("update index")
		}
		return mk(QUpd, nil, q, i, x)
	})
}

// SAtQuick avoids building decision chains.
func SAtQuick(q, i *T) *T {
	switch q.op {
	case QSym, QComp, QZero:
		return SAt(q, i)
	case QArr:
		if k, ok := isConstInt(i); ok && k >= 0 && k < int64(len(q.a)) {
			return q.a[k]
		}
	}
	return nil
}

// MkComp is the sequence body(0..N-1).
func MkComp(N, v, body *T) *T {
	if N.op == OITE {
		return lift1(fmt.Sprintf("compN%d,%d", v.id, body.id), N, func(N *T) *T { return MkComp(N, v, body) })
	}
	if N.op != OLin {
		return Unk("comprehension bound")
	}
	if k, ok := isConstInt(N); ok && k <= 64 {
		var el []*T
		for i := int64(0); i < k; i++ {
			el = append(el, subst(body, map[*T]*T{v: C(i)}))
		}
		return mkArr(el)
	}
	if h, ok := upper(N, 0); ok && h <= 0 {
		return QEmpty()
	}
	if body.op == OITE {
		sp := support(body)
		for _, at := range sp {
			if !at.hasFV(v) {
				return ite(boolAtom(at), MkComp(N, v, cofactor(body, at, true)), MkComp(N, v, cofactor(body, at, false)))
			}
		}
		for _, at := range sp {
			k, c := rangeGate(at, v)
			if k == 0 {
				continue
			}
			hi, lo := cofactor(body, at, true), cofactor(body, at, false)
			switch k {
			case 'e':
				in := And(Le(C(0), c), Lt(c, N))
				c1 := linComb(c, 1, C(1), 1)
				yes := SCat(MkComp(c, v, lo), mkArr([]*T{subst(hi, map[*T]*T{v: c})}),
					MkComp(linComb(N, 1, c1, -1), v, subst(lo, map[*T]*T{v: linComb(linAtom(v), 1, c1, 1)})))
				return ite(in, yes, MkComp(N, v, lo))
			default:
				n1 := c
				if k == 'l' {
					n1 = linComb(c, 1, C(1), 1)
				} else {
					hi, lo = lo, hi
				}
				n1 = clamp(n1, N)
				return lift1(fmt.Sprintf("compr%d,%d", v.id, body.id), n1, func(n1 *T) *T {
					return SCat(MkComp(n1, v, hi), MkComp(linComb(N, 1, n1, -1), v, subst(lo, map[*T]*T{v: linComb(linAtom(v), 1, n1, 1)})))
				})
			}
		}
	}
	// constant zero bytes
	if k, ok := isConstInt(body); ok && k == 0 {
		return mk(QZero, types.Typ[types.Uint8], N)
	}
	// eta
	if q, off, ok := etaOf(body, v); ok {
		return SSlice(q, off, N)
	}
	return closeB(QComp, N, v, body)
}

// etaOf recognises body = q[off+v] for a v-independent q.
func etaOf(body, v *T) (q, off *T, ok bool) {
	var s, ix *T
	rev := false
	find := func(a *T) bool {
		switch a.op {
		case AAt, OUF:
			if a.op == OUF && len(a.a) != 2 || len(a.a) == 2 && !isSeq(a.a[0].op) {
				return false
			}
			s, ix = a.a[0], a.a[1]
			return true
		}
		return false
	}
	switch {
	case body.op == OLin && len(body.lin.ts) == 1 && body.lin.c == 0 && body.lin.ts[0].c == 1 && find(body.lin.ts[0].t):
	case body.op == OUF && body.s == "" && find(body):
	default:
		if p := symPathOf(body); p != nil && p.op == SPIdx {
			s, ix = seqOfPath(p.a[0]), p.a[1]
			if s == nil {
				return
			}
		} else {
			return
		}
	}
	if s.hasFV(v) {
		return
	}
	off = linComb(ix, 1, linAtom(v), -1)
	if off.hasFV(v) {
		off = linComb(ix, 1, linAtom(v), 1)
		if off.hasFV(v) {
			return
		}
		rev = true
	}
	if rev {
		// body = s[off - v]: a reversed slice; only whole reversals of bytes
		if !isByteSeq(s) {
			return
		}
		n := SLen(s)
		// s[off - v] = rev(s)[n-1-off+v]
		return SRev(s), ISub(ISub(n, C(1)), off), true
	}
	return s, off, true
}

// MkFlat concatenates body(0..N-1).
func MkFlat(N, v, body *T) *T {
	if N.op == OITE {
		return lift1(fmt.Sprintf("flatN%d,%d", v.id, body.id), N, func(N *T) *T { return MkFlat(N, v, body) })
	}
	if N.op != OLin {
		return Unk("concatenation bound")
	}
	if k, ok := isConstInt(N); ok && k <= 64 {
		r := QEmpty()
		for i := int64(0); i < k; i++ {
			r = SCat(r, subst(body, map[*T]*T{v: C(i)}))
		}
		return r
	}
	if body.op == OITE {
		for _, at := range support(body) {
			if !at.hasFV(v) {
				return ite(boolAtom(at), MkFlat(N, v, cofactor(body, at, true)), MkFlat(N, v, cofactor(body, at, false)))
			}
		}
		// filter: each piece is empty or one element
		cond, val, ok := filterOf(body)
		if ok {
			return closeBs(QFilt, "", nil, N, v, cond, val)
		}
		return closeB(QFlat, N, v, body)
	}
	if isEmptySeq(body) {
		return QEmpty()
	}
	if el, ok := byteElems(body); ok && len(el) == 1 {
		return MkComp(N, v, el[0])
	}
	if SLen(body) == C(1) {
		return MkComp(N, v, SAt(body, C(0)))
	}
	return closeB(QFlat, N, v, body)
}

func filterOf(body *T) (cond, val *T, ok bool) {
	ok = true
	cond = False
	leaves(body, func(g, l *T) {
		if isEmptySeq(l) {
			return
		}
		el, k := byteElems(l)
		if !k || len(el) != 1 {
			ok = false
			return
		}
		cond = Or(cond, g)
		if val == nil {
			val = el[0]
		} else {
			val = ite(g, el[0], val)
		}
	})
	return cond, val, ok && val != nil
}

// SEq is sequence equality.
func SEq(a, b *T) *T {
	if a == b {
		return True
	}
	return lift2("seqeq", a, b, func(a, b *T) *T {
		la, lb := SLen(a), SLen(b)
		le := Eq(la, lb)
		if le == False {
			return False
		}
		if a.op == QBytes && b.op == QBytes {
			return False
		}
		ea, ok1 := byteElems(a)
		eb, ok2 := byteElems(b)
		if ok1 && ok2 && len(ea) == len(eb) {
			r := True
			for i := range ea {
				if kindOf(ea[i]) != 'i' || kindOf(eb[i]) != 'i' {
					r = UnkB("element equality " + ea[i].String() + " / " + eb[i].String())
					break
				}
				r = And(r, Eq(ea[i], eb[i]))
			}
			return r
		}
		// injective encodings
		if a.op == QUF && b.op == QUF && a.s == b.s && len(a.a) == 1 && len(b.a) == 1 {
			switch a.s {
			case "be32":
				if a.a[0].rg.m == b.a[0].rg.m {
					return REq(a.a[0], b.a[0])
				}
			case "pser":
				return PEq(a.a[0], b.a[0])
			case "int4", "int8", "dec":
				if x, y := a.a[0], b.a[0]; x.op == OLin && y.op == OLin && decLe(C(0), x) && decLe(C(0), y) && (a.s != "int4" || decLe(x, C(maxLen)) && decLe(y, C(maxLen))) {
					return Eq(x, y)
				}
			}
		}
		// a sequence equals an encoding exactly if it is canonical and decodes to it
		for _, p := range [][2]*T{{a, b}, {b, a}} {
			q, r := p[0], p[1]
			if r.op == QUF && r.s == "be32" && (q.op == QSub || q.op == QSym || q.op == QUF) && r.a[0].op == ORing {
				return And(ScOK(r.a[0].rg.m, q), REq(RFromBE(r.a[0].rg.m, q), r.a[0]))
			}
		}
		// concatenations of pieces of one constant length
		if a.op == QFlat && b.op == QFlat {
			v, x := openB(a)
			w, y := openB(b)
			y0 := subst(y[0], map[*T]*T{w: linAtom(v)})
			if n, ok := isConstInt(SLen(x[0])); ok && n > 0 && SLen(y0) == C(n) {
				return And(Eq(a.a[0], b.a[0]), MkAll(a.a[0], v, SEq(x[0], y0)))
			}
		}
		// common prefix of equal length
		pa, pb := catParts(a), catParts(b)
		if len(pa) > 1 && len(pb) > 1 {
			l0, l1 := SLen(pa[0]), SLen(pb[0])
			if l0 == l1 {
				return And(SEq(pa[0], pb[0]), SEq(SCat(pa[1:]...), SCat(pb[1:]...)))
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
		return And(le, boolAtom(mk(BSeqEq, nil, a, b)))
	})
}

// RFromBE is the big-endian integer of a byte sequence mod m.
func RFromBE(m int, q *T) *T {
	return lift1(fmt.Sprintf("rbe%d", m), q, func(q *T) *T {
		for {
			// strip leading zeros
			if q.op == QCat && isZeroSeq(q.a[0]) {
				if len(q.a) == 2 {
					q = q.a[1]
				} else {
					q = intern(&T{op: QCat, a: q.a[1:]})
				}
				continue
			}
			break
		}
		if isZeroSeq(q) {
			return RC(m, 0)
		}
		if q.op == QBytes {
			return RBig(m, bigBytes(q.s))
		}
		if q.op == QUF && (q.s == "be32" || q.s == "minbe") && q.a[0].rg.m == m {
			return q.a[0]
		}
		if !isSeq(q.op) && q.op != OHole {
			return bad2("integer of bytes", q, q)
		}
		return ringAtom(intern(&T{op: RBE, n: int64(m), a: []*T{q}}))
	})
}

func isZeroSeq(q *T) bool {
	switch q.op {
	case QZero:
		return true
	case QBytes:
		for i := 0; i < len(q.s); i++ {
			if q.s[i] != 0 {
				return false
			}
		}
		return true
	}
	return false
}
