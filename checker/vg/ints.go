package vg

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
)

// ---------------------------------------------------------------- linear ints

func C(c int64) *T { return intern(&T{op: OLin, lin: &Lin{c: c}}) }

func linAtom(t *T) *T { return intern(&T{op: OLin, lin: &Lin{ts: []LTerm{{1, t}}}}) }

func mkLin(c int64, m map[*T]int64) *T {
	ts := make([]LTerm, 0, len(m))
	for t, k := range m {
		if k != 0 {
			ts = append(ts, LTerm{k, t})
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].t.id < ts[j].t.id })
	return intern(&T{op: OLin, lin: &Lin{c: c, ts: ts}})
}

func isConstInt(t *T) (int64, bool) {
	if t.op == OLin && len(t.lin.ts) == 0 {
		return t.lin.c, true
	}
	return 0, false
}

// asInt makes an unknown value usable as an integer.
func asInt(a *T) *T {
	if a.op == OLin {
		return a
	}
	return linAtom(mks(AUF, "?int "+opName(a)+a.s, a))
}

func linComb(a *T, ka int64, b *T, kb int64) *T {
	if a.op != OLin || b.op != OLin {
		if a.op == OBot || b.op == OBot {
			return Bot
		}
		return linComb(asInt(a), ka, asInt(b), kb)
	}
	if len(b.lin.ts) == 0 && len(a.lin.ts) == 0 {
		return C(a.lin.c*ka + b.lin.c*kb)
	}
	m := map[*T]int64{}
	for _, x := range a.lin.ts {
		m[x.t] += x.c * ka
	}
	for _, x := range b.lin.ts {
		m[x.t] += x.c * kb
	}
	return mkLin(a.lin.c*ka+b.lin.c*kb, m)
}

func IAdd(a, b *T) *T {
	return lift2("iadd", a, b, func(a, b *T) *T { return linComb(a, 1, b, 1) })
}
func ISub(a, b *T) *T {
	return lift2("isub", a, b, func(a, b *T) *T { return linComb(a, 1, b, -1) })
}
func IScale(a *T, k int64) *T {
	return lift1(fmt.Sprintf("iscale%d", k), a, func(a *T) *T { return linComb(a, k, C(0), 0) })
}
func IMul(a, b *T) *T {
	return lift2("imul", a, b, func(a, b *T) *T {
		if k, ok := isConstInt(a); ok {
			return linComb(b, k, C(0), 0)
		}
		if k, ok := isConstInt(b); ok {
			return linComb(a, k, C(0), 0)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return linAtom(mk(AMul, nil, a, b))
	})
}

const maxLen = int64(1)<<32 - 1

// bounds of an int value: returned ok flags tell which side is finite.
func atomBounds(t *T) (lo, hi int64, lok, hok bool) {
	switch t.op {
	case AIVar, AConv:
		return typeBounds(t.ty)
	case ALen:
		if q := t.a[0]; q.op == QUF && q.s == "minbe" {
			return 0, 32, true, true
		}
		return 0, maxLen, true, true
	case AAt, AUF:
		if t.op == AUF && (t.s == "bytescmp" || t.s == "bigcmp") {
			return -1, 1, true, true
		}
		if t.op == AUF && t.s == "bitlen" {
			return 0, 64, true, true
		}
		if t.op == AUF && t.s == "maplen" {
			return 0, maxLen, true, true
		}
		if t.ty != nil {
			return typeBounds(t.ty)
		}
	case ALV:
		lok = true
		if _, h, _, hk := Bounds(t.a[0]); hk {
			return 0, h - 1, true, true
		}
		return 0, 0, true, false
	case AFirst:
		if _, h, _, hk := Bounds(t.a[0]); hk {
			return 0, h, true, true // value N denotes "none"
		}
		return 0, 0, true, false
	case ACount:
		if _, h, _, hk := Bounds(t.a[0]); hk {
			return 0, h, true, true
		}
		return 0, 0, true, false
	case ABlen:
		return 0, 32, true, true
	case AMod:
		if k, ok := isConstInt(t.a[1]); ok && k > 0 {
			if l, _, lk, _ := Bounds(t.a[0]); lk && l >= 0 {
				return 0, k - 1, true, true
			}
		}
	case AAnd:
		for _, x := range t.a {
			if k, ok := isConstInt(x); ok && k >= 0 {
				return 0, k, true, true
			}
		}
		_, h0, l0, k0 := Bounds(t.a[0])
		_, h1, l1, k1 := Bounds(t.a[1])
		_ = l0
		_ = l1
		if k0 && k1 {
			if h1 < h0 {
				h0 = h1
			}
			return 0, h0, true, true
		}
	case ADiv, AShr:
		l, h, lk, hk := Bounds(t.a[0])
		if lk && l >= 0 {
			return 0, h, true, hk
		}
	case AMul:
		l0, h0, a, b := Bounds(t.a[0])
		l1, h1, c, d := Bounds(t.a[1])
		if a && c && l0 >= 0 && l1 >= 0 {
			if b && d {
				p := new(big.Int).Mul(big.NewInt(h0), big.NewInt(h1))
				if p.IsInt64() {
					return l0 * l1, p.Int64(), true, true
				}
			}
			return l0 * l1, 0, true, false
		}
	case AXor, AOr:
		_, h0, _, k0 := Bounds(t.a[0])
		_, h1, _, k1 := Bounds(t.a[1])
		if k0 && k1 {
			m := h0 | h1
			for i := uint(1); i < 64; i *= 2 {
				m |= m >> i
			}
			return 0, m, true, true
		}
	}
	return 0, 0, false, false
}

func isNodeIndex(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "NodeIndex"
}

func typeBounds(ty types.Type) (lo, hi int64, lok, hok bool) {
	if ty == nil {
		return 0, 0, false, false
	}
	if isNodeIndex(ty) {
		return 0, maxLen, true, true
	}
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return 0, 0, false, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true, true
	case types.Uint16:
		return 0, 65535, true, true
	case types.Uint32:
		return 0, maxLen, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 0, true, false
	case types.Int8:
		return -128, 127, true, true
	case types.Int16:
		return -32768, 32767, true, true
	case types.Int32:
		return math.MinInt32, math.MaxInt32, true, true
	}
	return 0, 0, false, false
}

func satMul(a, b int64) (int64, bool) {
	p := new(big.Int).Mul(big.NewInt(a), big.NewInt(b))
	if p.IsInt64() {
		return p.Int64(), true
	}
	return 0, false
}
func satAdd(a, b int64) (int64, bool) {
	p := new(big.Int).Add(big.NewInt(a), big.NewInt(b))
	if p.IsInt64() {
		return p.Int64(), true
	}
	return 0, false
}

// Bounds computes an interval for a linear value, eliminating loop variables
// symbolically first.
func Bounds(t *T) (lo, hi int64, lok, hok bool) {
	if t.op == OITE {
		l1, h1, a1, b1 := Bounds(t.a[1])
		l2, h2, a2, b2 := Bounds(t.a[2])
		if l2 < l1 {
			l1 = l2
		}
		if h2 > h1 {
			h1 = h2
		}
		return l1, h1, a1 && a2, b1 && b2
	}
	if t.op != OLin {
		return 0, 0, false, false
	}
	hi, hok = upper(t, 0)
	var nl int64
	nl, lok = upper(linComb(t, -1, C(0), 0), 0)
	return -nl, hi, lok, hok
}

// upper bounds t from above.
func upper(t *T, depth int) (int64, bool) {
	// eliminate the most recent loop variable
	var lv *LTerm
	for i := range t.lin.ts {
		x := &t.lin.ts[i]
		if (x.t.op == ALV || x.t.op == AFirst || x.t.op == ACount) && x.t.a[0].op == OLin && (lv == nil || x.t.id > lv.t.id) {
			lv = x
		}
	}
	if lv != nil && depth < 12 {
		if lv.c > 0 {
			k := int64(-1)
			if lv.t.op != ALV {
				k = 0
			}
			// lv <= N+k
			r := linComb(t, 1, linAtom(lv.t), -lv.c)
			r = linComb(r, 1, lv.t.a[0], lv.c)
			r = linComb(r, 1, C(k), lv.c)
			return upper(r, depth+1)
		}
		r := linComb(t, 1, linAtom(lv.t), -lv.c)
		return upper(r, depth+1)
	}
	s := t.lin.c
	for _, x := range t.lin.ts {
		lo, hi, lok, hok := atomBounds(x.t)
		var v int64
		if x.c > 0 {
			if !hok {
				return 0, false
			}
			v = hi
		} else {
			if !lok {
				return 0, false
			}
			v = lo
		}
		p, ok := satMul(x.c, v)
		if !ok {
			return 0, false
		}
		if s, ok = satAdd(s, p); !ok {
			return 0, false
		}
	}
	return s, true
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}

// Le0 is the boolean t <= 0.
// keyDiff: t is key(i)-key(j)+c for two keys of one symbolic map, which are
// listed in ascending order.
func keyDiff(t *T) (i, j *T, c int64, ok bool) {
	if t.op != OLin || len(t.lin.ts) != 2 || t.lin.ts[0].c+t.lin.ts[1].c != 0 {
		return
	}
	p, q := t.lin.ts[0], t.lin.ts[1]
	if p.c == -1 {
		p, q = q, p
	}
	if p.c != 1 || p.t.op != AIVar || q.t.op != AIVar || p.t.a[0].op != SPKey || q.t.a[0].op != SPKey || p.t.a[0].a[0] != q.t.a[0].a[0] {
		return
	}
	return p.t.a[0].a[1], q.t.a[0].a[1], t.lin.c, true
}

func Le0(t *T) *T {
	return lift1("le0", t, func(t *T) *T {
		if t.op != OLin {
			panic("Le0 of " + t.String())
		}
		if len(t.lin.ts) == 0 {
			if t.lin.c <= 0 {
				return True
			}
			return False
		}
		if i, j, c, ok := keyDiff(t); ok && (c == 0 || c == 1) {
			if c == 0 {
				return Le(i, j)
			}
			return Lt(i, j)
		}
		if h, ok := upper(t, 0); ok && h <= 0 {
			return True
		}
		if nl, ok := upper(linComb(t, -1, C(0), 0), 0); ok && -nl >= 1 {
			return False
		}
		var g int64
		for _, x := range t.lin.ts {
			g = gcd(g, x.c)
		}
		m := map[*T]int64{}
		for _, x := range t.lin.ts {
			m[x.t] = x.c / g
		}
		// sum <= -c/g  =>  sum - floor(-c/g) <= 0
		t = mkLin(-floorDiv(-t.lin.c, g), m)
		// FIRST(N,q) >= m  <=>  no k<m satisfies q ; handled by normalisation
		if r := leFirst(t); r != nil {
			return r
		}
		if t.lin.ts[0].c < 0 {
			u := linComb(t, -1, C(1), 1) // not(t<=0) <=> 1-t<=0
			return Not(boolAtom(mk(BLe, nil, u)))
		}
		return boolAtom(mk(BLe, nil, t))
	})
}

// leFirst rewrites comparisons of FIRST(N,q) with a value m, 0<=m<=N, into a
// bounded quantifier.
func leFirst(t *T) *T {
	for _, x := range t.lin.ts {
		if x.t.op != AFirst || (x.c != 1 && x.c != -1) {
			continue
		}
		rest := linComb(t, 1, linAtom(x.t), -x.c)
		dep := false
		for _, y := range rest.lin.ts {
			if y.t.op == AFirst {
				dep = true
			}
		}
		if dep {
			continue
		}
		N := x.t.a[0]
		// c=1: F <= -rest  <=> not (F >= -rest+1) ; c=-1: F >= rest
		var m *T
		if x.c == 1 {
			m = linComb(rest, -1, C(1), 1)
		} else {
			m = rest
		}
		// F >= m: if m<=0 true; if m > N false; else forall k<m: !q
		ge := ite(Le0(m), True, ite(Le0(linComb(m, 1, N, -1)), mkAllFrom(x.t, m), False))
		if x.c == 1 {
			return Not(ge)
		}
		return ge
	}
	return nil
}

func mkAllFrom(first *T, m *T) *T {
	v := newLV(m)
	b := openWith(first, linAtom(v))
	return MkAll(m, v, Not(b[0]))
}

// Eq0 is the boolean t == 0.
func Eq0(t *T) *T {
	return lift1("eq0", t, func(t *T) *T {
		if t.op != OLin {
			panic("Eq0 of " + t.String())
		}
		if len(t.lin.ts) == 0 {
			if t.lin.c == 0 {
				return True
			}
			return False
		}
		if i, j, c, ok := keyDiff(t); ok && c == 0 {
			return Eq(i, j)
		}
		if len(t.lin.ts) == 1 && t.lin.c == 0 && t.lin.ts[0].t.op == AUF && t.lin.ts[0].t.s == "bytescmp" {
			return SEq(t.lin.ts[0].t.a[0], t.lin.ts[0].t.a[1])
		}
		if h, ok := upper(t, 0); ok && h < 0 {
			return False
		}
		if nl, ok := upper(linComb(t, -1, C(0), 0), 0); ok && -nl > 0 {
			return False
		}
		// a single non-negative sum equal to zero
		var g int64
		for _, x := range t.lin.ts {
			g = gcd(g, x.c)
		}
		if t.lin.c%g != 0 {
			return False
		}
		if t.lin.ts[0].c < 0 {
			g = -g
		}
		m := map[*T]int64{}
		for _, x := range t.lin.ts {
			m[x.t] = x.c / g
		}
		t = mkLin(t.lin.c/g, m)
		if len(t.lin.ts) == 1 && t.lin.ts[0].t.op == ACount {
			// count == c
			ct := t.lin.ts[0].t
			if t.lin.c == 0 {
				v, b := openB(ct)
				return MkAll(ct.a[0], v, Not(b[0]))
			}
		}
		// x <= 0 with x >= 0 known: equality with a bound is an inequality
		if h, ok := upper(t, 0); ok && h == 0 && len(t.lin.ts) == 1 {
			return Le0(linComb(t, -1, C(0), 0))
		}
		if nl, ok := upper(linComb(t, -1, C(0), 0), 0); ok && nl == 0 && len(t.lin.ts) == 1 {
			return Le0(t)
		}
		if r := eqCount(t); r != nil {
			return r
		}
		if r := eqFirst(t); r != nil {
			return r
		}
		return boolAtom(mk(BEq, nil, t))
	})
}

// count(N,q) == N  <=>  forall q
func eqCount(t *T) *T {
	for _, x := range t.lin.ts {
		if x.t.op != ACount {
			continue
		}
		rest := linComb(t, 1, linAtom(x.t), -x.c)
		if x.c == 1 {
			rest = linComb(rest, -1, C(0), 0)
		} else if x.c != -1 {
			continue
		}
		if rest == x.t.a[0] {
			v, b := openB(x.t)
			return MkAll(x.t.a[0], v, b[0])
		}
	}
	return nil
}

// FIRST(N,q) == N <=> forall not q
func eqFirst(t *T) *T {
	for _, x := range t.lin.ts {
		if x.t.op != AFirst {
			continue
		}
		rest := linComb(t, 1, linAtom(x.t), -x.c)
		if x.c == 1 {
			rest = linComb(rest, -1, C(0), 0)
		} else if x.c != -1 {
			continue
		}
		if rest == x.t.a[0] {
			return mkAllFrom(x.t, x.t.a[0])
		}
	}
	return nil
}

func Le(a, b *T) *T { return Le0(ISub(a, b)) }             // a <= b
func Lt(a, b *T) *T { return Le0(IAdd(ISub(a, b), C(1))) } // a < b
func Eq(a, b *T) *T { return Eq0(ISub(a, b)) }

// intOp builds a non-linear integer operation.
func intOp(op Op, a, b *T) *T {
	return lift2("iop"+string(rune(op)), a, b, func(a, b *T) *T {
		x, xo := isConstInt(a)
		y, yo := isConstInt(b)
		if xo && yo {
			switch op {
			case ADiv:
				if y != 0 {
					return C(x / y)
				}
				return Bot
			case AMod:
				if y != 0 {
					return C(x % y)
				}
				return Bot
			case AAnd:
				return C(x & y)
			case AOr:
				return C(x | y)
			case AXor:
				return C(x ^ y)
			case AShl:
				if y < 62 {
					return C(x << uint(y))
				}
			case AShr:
				if y > 63 {
					y = 63
				}
				return C(x >> uint(y))
			}
		}
		switch op {
		case ADiv:
			if yo && y == 1 {
				return a
			}
			if yo && y > 0 {
				if r := divLin(a, y); r != nil {
					return r
				}
			}
		case AMod:
			if yo && y > 0 {
				lo, hi, lk, hk := Bounds(a)
				if lk && hk && lo >= 0 && hi < y {
					return a
				}
				if y > 0 && y&(y-1) == 0 && lk && lo >= 0 {
					return intOp(AAnd, a, C(y-1))
				}
			}
		case AShl:
			if yo && y >= 0 && y < 62 {
				return linComb(a, 1<<uint(y), C(0), 0)
			}
			if xo && x == 0 {
				return C(0)
			}
		case AShr:
			if yo && y == 0 {
				return a
			}
			if xo && x == 0 {
				return C(0)
			}
			lo, hi, lk, hk := Bounds(a)
			if yo && y < 62 && lk && hk && lo >= 0 && hi < 1<<uint(y) {
				return C(0)
			}
		case AAnd:
			if xo {
				a, b = b, a
				x, y, xo, yo = y, x, yo, xo
			}
			if yo {
				if y == 0 {
					return C(0)
				}
				lo, hi, lk, hk := Bounds(a)
				if lk && hk && lo >= 0 && y&(y+1) == 0 && hi <= y {
					return a
				}
				if y == 1 {
					// parity distributes over linear forms
					m := map[*T]int64{}
					for _, t := range a.lin.ts {
						if t.c&1 != 0 {
							m[t.t] = 1
						}
					}
					r := mkLin(a.lin.c&1, m)
					if k, ok := isConstInt(r); ok {
						return C(k & 1)
					}
					if len(m) == 1 {
						for t := range m {
							if t.op == AAnd && t.a[1] == C(1) || t.op == AUF && t.s == "bit" {
								if a.lin.c&1 == 0 {
									return linAtom(t)
								}
								return linComb(C(1), 1, linAtom(t), -1)
							}
							if t.op == AXor {
								return intOp(AXor, intOp(AAnd, t.a[0], C(1)), intOp(AAnd, t.a[1], C(1)))
							}
						}
					}
					a = r
				}
			}
		case AXor:
			if a == b {
				return C(0)
			}
			if xo {
				a, b = b, a
				x, y, xo, yo = y, x, yo, xo
			}
			if yo && y == 0 {
				return a
			}
			if yo && y == 1 {
				lo, hi, lk, hk := Bounds(a)
				if lk && hk && lo >= 0 && hi <= 1 {
					return linComb(C(1), 1, a, -1)
				}
			}
			// xor of two bits: a + b - 2ab, expressed as a decision
			if bit(a) && bit(b) {
				return ite(Eq0(a), b, linComb(C(1), 1, b, -1))
			}
		case AOr:
			if a == b {
				return a
			}
			if xo && x == 0 {
				return b
			}
			if yo && y == 0 {
				return a
			}
		}
		if (op == AAnd || op == AOr || op == AXor) && !yo && a.id > b.id {
			a, b = b, a
		}
		return linAtom(mk(op, nil, a, b))
	})
}

func bit(a *T) bool {
	lo, hi, lk, hk := Bounds(a)
	return lk && hk && lo >= 0 && hi <= 1
}

// divLin simplifies (k*x + c)/y for non-negative operands.
func divLin(a *T, y int64) *T {
	lo, _, lk, _ := Bounds(a)
	if !lk || lo < 0 {
		return nil
	}
	if _, hi, _, hk := Bounds(a); hk && hi < y {
		return C(0)
	}
	for _, t := range a.lin.ts {
		if t.c%y != 0 {
			return nil
		}
	}
	c := a.lin.c
	m := map[*T]int64{}
	for _, t := range a.lin.ts {
		m[t.t] = t.c / y
	}
	return mkLin(floorDiv(c, y), m)
}

// Conv converts an int value to an integer type of another width.
func Conv(t *T, ty types.Type) *T {
	return lift1("conv"+ty.String(), t, func(t *T) *T {
		b, ok := ty.Underlying().(*types.Basic)
		if !ok || t.op != OLin {
			return t
		}
		var lo, hi int64
		switch b.Kind() {
		case types.Uint8:
			lo, hi = 0, 255
		case types.Uint16:
			lo, hi = 0, 65535
		case types.Uint32:
			lo, hi = 0, maxLen
		case types.Int8:
			lo, hi = -128, 127
		case types.Int16:
			lo, hi = -32768, 32767
		case types.Int32:
			lo, hi = math.MinInt32, math.MaxInt32
		default:
			return t // 64-bit: no wrap (documented range assumption)
		}
		l, h, lk, hk := Bounds(t)
		if lk && hk && l >= lo && h <= hi {
			return t
		}
		if c, ok := isConstInt(t); ok {
			switch b.Kind() {
			case types.Uint8:
				return C(int64(uint8(c)))
			case types.Uint16:
				return C(int64(uint16(c)))
			case types.Uint32:
				return C(int64(uint32(c)))
			}
		}
		if lo == 0 {
			// wrapping conversion = value modulo 2^w; canonical for non-negative values
			if lk && l >= 0 {
				return intOp(AAnd, t, C(hi))
			}
		}
		return linAtom(mk(AConv, ty, t))
	})
}

// MaxI / MinI
func MaxI(a, b *T) *T { return lift2("max", a, b, func(a, b *T) *T { return ite(Le(a, b), b, a) }) }
func MinI(a, b *T) *T {
	return lift2("min", a, b, func(a, b *T) *T {
		if _, k := isConstInt(a); k {
			return ite(Le(b, a), b, a)
		}
		return ite(Le(a, b), a, b)
	})
}

// ---------------------------------------------------------------- facts

// proveLe0 proves t <= 0 from linear facts (each f <= 0).
func proveLe0(t *T, facts []*T, depth int) bool {
	if t.op != OLin {
		return false
	}
	if h, ok := upper(t, 0); ok && h <= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, f := range facts {
		// choose shared atom with the same sign
		for _, x := range t.lin.ts {
			for _, y := range f.lin.ts {
				if x.t == y.t && (x.c > 0) == (y.c > 0) {
					l := x.c / y.c
					if l <= 0 || y.c*l != x.c {
						continue
					}
					r := linComb(t, 1, f, -l)
					if len(r.lin.ts) > len(t.lin.ts)+2 {
						continue
					}
					if proveLe0(r, facts, depth-1) {
						return true
					}
				}
			}
		}
	}
	// eliminate a loop variable through its range, then use facts
	for _, x := range t.lin.ts {
		if x.t.op == ALV && x.t.a[0].op == OLin {
			var r *T
			if x.c > 0 {
				r = linComb(linComb(t, 1, linAtom(x.t), -x.c), 1, linComb(x.t.a[0], 1, C(1), -1), x.c)
			} else {
				r = linComb(t, 1, linAtom(x.t), -x.c)
			}
			if proveLe0(r, facts, depth-1) {
				return true
			}
		}
	}
	return false
}
