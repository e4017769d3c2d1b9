package vg

import (
	"fmt"
	"math/big"
	"sort"
)

// ---------------------------------------------------------------- ring values
//
// A ring value is a polynomial over Fq (m=0) or Fp (m=1) in normal form:
// sorted monomials, each a coefficient and sorted factors atom^exponent where
// the exponent is a linear int value (symbolic exponents are allowed).

func ringMod(t *T) int {
	switch t.op {
	case RVar, REmb, RCst, RBE, RUF:
		return int(t.n)
	case RInv, RPoly:
		return t.a[0].rg.m
	case RSum, RProd:
		if t.s == "1" {
			return 1
		}
		return 0
	}
	panic("ringMod " + t.String())
}

func ringAtom(t *T) *T {
	return intern(&T{op: ORing, rg: &Ring{m: ringMod(t), ms: []Mono{{big.NewInt(1), []Fac{{t, C(1)}}}}}})
}

func RC(m int, c int64) *T { return RBig(m, big.NewInt(c)) }

func RBig(m int, c *big.Int) *T {
	x := new(big.Int).Mod(c, Mods[m])
	if x.Sign() == 0 {
		return intern(&T{op: ORing, rg: &Ring{m: m}})
	}
	return intern(&T{op: ORing, rg: &Ring{m: m, ms: []Mono{{x, nil}}}})
}

func isRingConst(t *T) (*big.Int, bool) {
	if t.op != ORing {
		return nil, false
	}
	if len(t.rg.ms) == 0 {
		return new(big.Int), true
	}
	if len(t.rg.ms) == 1 && len(t.rg.ms[0].f) == 0 {
		return t.rg.ms[0].c, true
	}
	return nil, false
}

func monoKey(f []Fac) string {
	b := make([]byte, 0, 16*len(f))
	for _, x := range f {
		b = fmt.Appendf(b, "%d^%d*", x.t.id, x.e.id)
	}
	return string(b)
}

func facLess(a, b []Fac) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].t.id != b[i].t.id {
			return a[i].t.id < b[i].t.id
		}
		if a[i].e.id != b[i].e.id {
			return a[i].e.id < b[i].e.id
		}
	}
	return len(a) < len(b)
}

type polyAcc struct {
	m  int
	ms map[string]*Mono
}

func newAcc(m int) *polyAcc { return &polyAcc{m, map[string]*Mono{}} }

func (p *polyAcc) add(c *big.Int, f []Fac) {
	k := monoKey(f)
	if x, ok := p.ms[k]; ok {
		x.c = new(big.Int).Add(x.c, c)
		x.c.Mod(x.c, Mods[p.m])
		if x.c.Sign() == 0 {
			delete(p.ms, k)
		}
		return
	}
	c = new(big.Int).Mod(c, Mods[p.m])
	if c.Sign() != 0 {
		p.ms[k] = &Mono{c, f}
	}
}

func (p *polyAcc) done() *T {
	ms := make([]Mono, 0, len(p.ms))
	for _, x := range p.ms {
		ms = append(ms, *x)
	}
	sort.Slice(ms, func(i, j int) bool { return facLess(ms[i].f, ms[j].f) })
	return intern(&T{op: ORing, rg: &Ring{m: p.m, ms: ms}})
}

func bad2(what string, a, b *T) *T {
	if a.op == OBot || b.op == OBot {
		return Bot
	}
	return Unk(what)
}

func RAdd(a, b *T) *T {
	return lift2("radd", a, b, func(a, b *T) *T { return rawAdd(a, b, big.NewInt(1)) })
}
func RSub(a, b *T) *T {
	return lift2("rsub", a, b, func(a, b *T) *T { return rawAdd(a, b, big.NewInt(-1)) })
}
func rawAdd(a, b *T, k *big.Int) *T {
	if a.op != ORing || b.op != ORing || a.rg.m != b.rg.m {
		return bad2("ring-add", a, b)
	}
	p := newAcc(a.rg.m)
	for _, x := range a.rg.ms {
		p.add(x.c, x.f)
	}
	for _, x := range b.rg.ms {
		p.add(new(big.Int).Mul(x.c, k), x.f)
	}
	return absorb(p)
}

func RScale(a *T, k *big.Int) *T {
	return lift1("rscale"+k.String(), a, func(a *T) *T {
		if a.op != ORing {
			return bad2("ring-scale", a, a)
		}
		p := newAcc(a.rg.m)
		for _, x := range a.rg.ms {
			p.add(new(big.Int).Mul(x.c, k), x.f)
		}
		return p.done()
	})
}
func RNeg(a *T) *T { return RScale(a, big.NewInt(-1)) }

func RMul(a, b *T) *T {
	return lift2("rmul", a, b, func(a, b *T) *T {
		if a.op != ORing || b.op != ORing || a.rg.m != b.rg.m {
			return bad2("ring-mul", a, b)
		}
		if len(a.rg.ms)*len(b.rg.ms) > 4000 {
			return Unk("polynomial too large")
		}
		p := newAcc(a.rg.m)
		var extra []*T
		for _, x := range a.rg.ms {
			for _, y := range b.rg.ms {
				c, f, ex := mulFacs(a.rg.m, x.f, y.f)
				cc := new(big.Int).Mul(x.c, y.c)
				cc.Mul(cc, c)
				if ex == nil {
					p.add(cc, f)
				} else {
					extra = append(extra, RScale(RMul(monoT(a.rg.m, big.NewInt(1), f), ex), cc))
				}
			}
		}
		r := absorb(p)
		for _, e := range extra {
			r = RAdd(r, e)
		}
		return r
	})
}

func monoT(m int, c *big.Int, f []Fac) *T {
	p := newAcc(m)
	p.add(c, f)
	return p.done()
}

// mulFacs multiplies two factor lists.  A polynomial base whose exponent
// becomes constant is expanded and returned as extra.
func mulFacs(m int, a, b []Fac) (c *big.Int, f []Fac, extra *T) {
	c = big.NewInt(1)
	i, j := 0, 0
	put := func(t, e *T) {
		if e == C(0) {
			return
		}
		if t.op == RCst {
			if k := e.lin.c; k != 0 {
				base, _ := new(big.Int).SetString(t.s, 10)
				ex := big.NewInt(k)
				if k < 0 {
					base = new(big.Int).ModInverse(base, Mods[m])
					ex = big.NewInt(-k)
				}
				c.Mul(c, new(big.Int).Exp(base, ex, Mods[m]))
				e = linComb(e, 1, C(-k), 1)
				if e == C(0) {
					return
				}
			}
		}
		if t.op == RPoly {
			if k, ok := isConstInt(e); ok && k > 0 && k < 16 {
				v := t.a[0]
				for n := int64(1); n < k; n++ {
					v = RMul(v, t.a[0])
				}
				if extra == nil {
					extra = v
				} else {
					extra = RMul(extra, v)
				}
				return
			}
		}
		f = append(f, Fac{t, e})
	}
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].t.id < b[j].t.id):
			put(a[i].t, a[i].e)
			i++
		case i >= len(a) || b[j].t.id < a[i].t.id:
			put(b[j].t, b[j].e)
			j++
		default:
			put(a[i].t, linComb(a[i].e, 1, b[j].e, 1))
			i++
			j++
		}
	}
	return
}

// RPow is x^e.
func RPow(x, e *T) *T {
	return lift2("rpow", x, e, func(x, e *T) *T {
		if x.op != ORing || e.op != OLin {
			return bad2("ring-pow", x, e)
		}
		m := x.rg.m
		if k, ok := isConstInt(e); ok {
			if k == 0 {
				return RC(m, 1)
			}
			if k > 0 && (k < 8 || len(x.rg.ms) <= 1) && k < 1<<20 {
				if len(x.rg.ms) > 1 || k < 8 {
					r := x
					for i := int64(1); i < k; i++ {
						r = RMul(r, x)
					}
					return r
				}
			}
		}
		if len(x.rg.ms) == 0 {
			return ite(Eq0(e), RC(m, 1), x)
		}
		if len(x.rg.ms) == 1 {
			mo := x.rg.ms[0]
			r := RC(m, 1)
			if mo.c.Cmp(big.NewInt(1)) != 0 {
				r = powAtom(intern(&T{op: RCst, n: int64(m), s: mo.c.String()}), e)
			}
			for _, f := range mo.f {
				r = RMul(r, powAtom(f.t, IMul(f.e, e)))
			}
			return r
		}
		return powAtom(mk(RPoly, nil, x), e)
	})
}

func powAtom(t, e *T) *T {
	return lift1(fmt.Sprintf("powa%d", t.id), e, func(e *T) *T {
		m := ringMod(t)
		c, f, ex := mulFacs(m, []Fac{{t, e}}, nil)
		r := monoT(m, c, f)
		if ex != nil {
			r = RMul(r, ex)
		}
		return r
	})
}

// RInverse is 1/x with 1/0 = 0.
func RInverse(x *T) *T {
	return lift1("rinv", x, func(x *T) *T {
		if x.op != ORing {
			return bad2("ring-inv", x, x)
		}
		m := x.rg.m
		if len(x.rg.ms) == 0 {
			return x
		}
		lead := x.rg.ms[0].c
		li := new(big.Int).ModInverse(lead, Mods[m])
		if len(x.rg.ms) == 1 {
			r := RBig(m, li)
			for _, f := range x.rg.ms[0].f {
				var iv *T
				switch f.t.op {
				case RInv:
					iv = f.t.a[0]
				case RProd:
					v, b := openB(f.t)
					iv = MkProd(m, f.t.a[0], v, RInverse(b[0]))
				case RCst:
					base, _ := new(big.Int).SetString(f.t.s, 10)
					iv = RBig(m, new(big.Int).ModInverse(base, Mods[m]))
				case RPoly:
					iv = RInverse(f.t.a[0])
				default:
					iv = ringAtom(mk(RInv, nil, ringAtom(f.t)))
				}
				r = RMul(r, RPow(iv, f.e))
			}
			return r
		}
		n := RScale(x, li)
		return RScale(ringAtom(mk(RInv, nil, n)), li)
	})
}

// REmbed maps an int value into the ring.
func REmbed(m int, x *T) *T {
	return lift1(fmt.Sprintf("remb%d", m), x, func(x *T) *T {
		if x.op != OLin {
			return bad2("embed", x, x)
		}
		p := newAcc(m)
		p.add(big.NewInt(x.lin.c), nil)
		for _, t := range x.lin.ts {
			at := intern(&T{op: REmb, n: int64(m), a: []*T{linAtom(t.t)}})
			p.add(big.NewInt(t.c), []Fac{{at, C(1)}})
		}
		return p.done()
	})
}

// unEmbed returns the int value d with ring == embed(d), if every monomial is
// a small multiple of an embedded int.
func unEmbed(x *T) (*T, bool) {
	m := map[*T]int64{}
	var c int64
	half := new(big.Int).Rsh(Mods[x.rg.m], 1)
	for _, mo := range x.rg.ms {
		k := mo.c
		if k.Cmp(half) > 0 {
			k = new(big.Int).Sub(k, Mods[x.rg.m])
		}
		if !k.IsInt64() || k.Int64() > 1<<32 || k.Int64() < -(1<<32) {
			return nil, false
		}
		switch {
		case len(mo.f) == 0:
			c = k.Int64()
		case len(mo.f) == 1 && mo.f[0].t.op == REmb && mo.f[0].e == C(1):
			a := mo.f[0].t.a[0]
			if len(a.lin.ts) != 1 {
				return nil, false
			}
			m[a.lin.ts[0].t] += k.Int64()
		default:
			return nil, false
		}
	}
	return mkLin(c, m), true
}

// REq is the boolean a == b.
func REq(a, b *T) *T {
	if a == b {
		return True
	}
	return lift1("req0", RSub(a, b), func(d *T) *T {
		if d.op != ORing {
			return UnkB("ring equality")
		}
		if c, ok := isRingConst(d); ok {
			if c.Sign() == 0 {
				return True
			}
			return False
		}
		if i, ok := unEmbed(d); ok {
			return Eq0(i)
		}
		m := d.rg.m
		if len(d.rg.ms) == 1 {
			r := False
			for _, f := range d.rg.ms[0].f {
				if f.t.op == RCst {
					continue
				}
				z := facZero(f.t)
				if _, ok := isConstInt(f.e); !ok {
					z = And(z, Not(Eq0(f.e)))
				}
				r = Or(r, z)
			}
			return r
		}
		li := new(big.Int).ModInverse(d.rg.ms[0].c, Mods[m])
		// d == 0 for x - const with x canonical: keep as atom
		return boolAtom(mk(BREq, nil, RScale(d, li)))
	})
}

func facZero(t *T) *T {
	switch t.op {
	case RInv:
		return REq(t.a[0], RC(t.a[0].rg.m, 0))
	case RPoly:
		return REq(t.a[0], RC(t.a[0].rg.m, 0))
	case REmb:
		return Eq0(t.a[0])
	case RProd:
		v, b := openB(t)
		return Not(MkAll(t.a[0], v, Not(REq(b[0], RC(ringMod(t), 0)))))
	}
	return boolAtom(mk(BREq, nil, ringAtom(t)))
}

// ---------------------------------------------------------------- sums

// rangeGate analyses an atom as a condition on v: kind 'e' (v==c), 'l'
// (v<=c), 'g' (v>=c), or 0.
func rangeGate(at, v *T) (kind byte, c *T) {
	if at.op != BLe && at.op != BEq {
		return 0, nil
	}
	l := at.a[0]
	var k int64
	for _, x := range l.lin.ts {
		if x.t == v {
			k = x.c
		} else if x.t.hasFV(v) {
			return 0, nil
		}
	}
	if k != 1 && k != -1 {
		return 0, nil
	}
	rest := linComb(l, 1, linAtom(v), -k)
	if at.op == BEq {
		return 'e', linComb(rest, -k, C(0), 0)
	}
	if k == 1 { // v + rest <= 0
		return 'l', linComb(rest, -1, C(0), 0)
	}
	return 'g', rest // -v + rest <= 0
}

// gates splits body on the topmost decision atom, v-independent ones first.
func pickGate(body, v *T) (at *T, dep bool) {
	if body.op != OITE {
		return nil, false
	}
	sp := support(body)
	for _, x := range sp {
		if !x.hasFV(v) {
			return x, false
		}
	}
	for _, x := range sp {
		if k, _ := rangeGate(x, v); k != 0 {
			return x, true
		}
	}
	return sp[0], true
}

func clamp(c, N *T) *T { return MaxI(C(0), MinI(c, N)) }

func closeMin(op Op, s string, N, v *T, bodies ...*T) *T {
	a := closeBs(op, s, nil, N, v, bodies...)
	rv := linComb(linComb(N, 1, C(-1), 1), 1, linAtom(v), -1)
	rb := make([]*T, len(bodies))
	for i, b := range bodies {
		rb[i] = subst(b, map[*T]*T{v: rv})
	}
	b := closeBs(op, s, nil, N, v, rb...)
	if b.id < a.id {
		return b
	}
	return a
}

// MkSum is sum over v in [0,N) of body.
func MkSum(m int, N, v, body *T) *T {
	if N.op == OITE {
		return lift1(fmt.Sprintf("sumN%d,%d,%d", m, v.id, body.id), N, func(N *T) *T { return MkSum(m, N, v, body) })
	}
	if N.op != OLin {
		return bad2("sum bound", N, N)
	}
	if k, ok := isConstInt(N); ok && k <= 64 {
		r := RC(m, 0)
		for i := int64(0); i < k; i++ {
			r = RAdd(r, subst(body, map[*T]*T{v: C(i)}))
		}
		return r
	}
	if at, dep := pickGate(body, v); at != nil {
		hi, lo := cofactor(body, at, true), cofactor(body, at, false)
		if !dep {
			return ite(boolAtom(at), MkSum(m, N, v, hi), MkSum(m, N, v, lo))
		}
		k, c := rangeGate(at, v)
		switch k {
		case 'e':
			in := And(Le(C(0), c), Lt(c, N))
			d := subst(RSub(hi, lo), map[*T]*T{v: c})
			return RAdd(MkSum(m, N, v, lo), ite(in, d, RC(m, 0)))
		case 'l', 'g':
			n1 := c
			if k == 'l' {
				n1 = linComb(c, 1, C(1), 1)
			} else {
				hi, lo = lo, hi
			}
			n1 = clamp(n1, N)
			return lift1(fmt.Sprintf("sumr%d,%d,%d", m, v.id, body.id), n1, func(n1 *T) *T {
				x := MkSum(m, n1, v, hi)
				y := MkSum(m, linComb(N, 1, n1, -1), v, subst(lo, map[*T]*T{v: linComb(linAtom(v), 1, n1, 1)}))
				return RAdd(x, y)
			})
		}
		if r := bitSum(m, N, v, body); r != nil {
			return r
		}
		return ringAtom(closeMin(RSum, mstr(m), N, v, body))
	}
	if body.op != ORing {
		return bad2("sum body", body, body)
	}
	r := RC(m, 0)
	for _, mo := range body.rg.ms {
		var free, dep []Fac
		for _, f := range mo.f {
			if f.t.hasFV(v) || f.e.hasFV(v) {
				dep = append(dep, f)
			} else {
				free = append(free, f)
			}
		}
		fr := monoT(m, mo.c, free)
		if len(dep) == 0 {
			r = RAdd(r, RMul(fr, REmbed(m, N)))
			continue
		}
		s := ringAtom(closeMin(RSum, mstr(m), N, v, monoT(m, big.NewInt(1), dep)))
		r = RAdd(r, RMul(fr, s))
	}
	return r
}

func mstr(m int) string {
	if m == 1 {
		return "1"
	}
	return "0"
}

// bitSum recognises sum_{v<bitlen(s)} [bit v of s] * 2^v = s.
func bitSum(m int, N, v, body *T) *T {
	if len(N.lin.ts) != 1 || N.lin.c != 0 || N.lin.ts[0].t.op != AUF || N.lin.ts[0].t.s != "bitlen" {
		return nil
	}
	s := N.lin.ts[0].t.a[0]
	for _, idx := range []*T{linAtom(v), linComb(linComb(N, 1, C(-1), 1), 1, linAtom(v), -1)} {
		bit := intOp(AAnd, intOp(AShr, s, idx), C(1))
		p := RPow(RC(m, 2), idx)
		if body == ite(Eq(bit, C(1)), p, RC(m, 0)) || body == ite(Eq(bit, C(0)), RC(m, 0), p) {
			return REmbed(m, s)
		}
	}
	return nil
}

// MkProd is the product over v in [0,N) of body.
func MkProd(m int, N, v, body *T) *T {
	if N.op == OITE {
		return lift1(fmt.Sprintf("prodN%d,%d,%d", m, v.id, body.id), N, func(N *T) *T { return MkProd(m, N, v, body) })
	}
	if N.op != OLin {
		return bad2("product bound", N, N)
	}
	if k, ok := isConstInt(N); ok && k <= 32 {
		r := RC(m, 1)
		for i := int64(0); i < k; i++ {
			r = RMul(r, subst(body, map[*T]*T{v: C(i)}))
		}
		return r
	}
	if at, dep := pickGate(body, v); at != nil {
		hi, lo := cofactor(body, at, true), cofactor(body, at, false)
		if !dep {
			return ite(boolAtom(at), MkProd(m, N, v, hi), MkProd(m, N, v, lo))
		}
		k, c := rangeGate(at, v)
		split := func(n1, a, mid, b *T, nb *T) *T {
			x := MkProd(m, n1, v, a)
			if mid != nil {
				x = RMul(x, mid)
			}
			return RMul(x, MkProd(m, linComb(N, 1, nb, -1), v, subst(b, map[*T]*T{v: linComb(linAtom(v), 1, nb, 1)})))
		}
		switch k {
		case 'e':
			in := And(Le(C(0), c), Lt(c, N))
			yes := split(c, lo, subst(hi, map[*T]*T{v: c}), lo, linComb(c, 1, C(1), 1))
			return ite(in, yes, MkProd(m, N, v, lo))
		case 'l', 'g':
			n1 := c
			if k == 'l' {
				n1 = linComb(c, 1, C(1), 1)
			} else {
				hi, lo = lo, hi
			}
			n1 = clamp(n1, N)
			return lift1(fmt.Sprintf("prodr%d,%d,%d", m, v.id, body.id), n1, func(n1 *T) *T {
				return split(n1, hi, nil, lo, n1)
			})
		}
		return ringAtom(closeMin(RProd, mstr(m), N, v, body))
	}
	if body.op != ORing {
		return bad2("product body", body, body)
	}
	if len(body.rg.ms) == 0 {
		return ite(Le(N, C(0)), RC(m, 1), RC(m, 0))
	}
	if len(body.rg.ms) == 1 {
		mo := body.rg.ms[0]
		r := RPow(RBig(m, mo.c), N)
		for _, f := range mo.f {
			if !f.t.hasFV(v) && !f.e.hasFV(v) {
				r = RMul(r, powAtom(f.t, IMul(f.e, N)))
				continue
			}
			if f.e == C(1) && f.t.op == RInv {
				// product of inverses = inverse of the product
				p := MkProd(m, N, v, f.t.a[0])
				r = RMul(r, rinvRaw(p))
				continue
			}
			r = RMul(r, ringAtom(closeMin(RProd, mstr(m), N, v, monoT(m, big.NewInt(1), []Fac{f}))))
		}
		return r
	}
	if !body.hasFV(v) {
		return RPow(body, N)
	}
	return ringAtom(closeMin(RProd, mstr(m), N, v, body))
}

// rinvRaw inverts without distributing over products (used by MkProd).
func rinvRaw(x *T) *T {
	return lift1("rinvraw", x, func(x *T) *T {
		if x.op != ORing {
			return Unk("inverse")
		}
		if len(x.rg.ms) != 1 {
			return RInverse(x)
		}
		m := x.rg.m
		r := RBig(m, new(big.Int).ModInverse(x.rg.ms[0].c, Mods[m]))
		for _, f := range x.rg.ms[0].f {
			var iv *T
			if f.t.op == RProd {
				iv = ringAtom(mk(RInv, nil, ringAtom(f.t)))
			} else {
				iv = RInverse(ringAtom(f.t))
			}
			r = RMul(r, RPow(iv, f.e))
		}
		return r
	})
}

// absorb merges T + sum_{v<M} f(v) into sum_{v<M+1} f(v) when T = f(M)
// (or T = f(-1), shifting), and finishes the accumulator.
func absorb(p *polyAcc) *T {
	has := false
	for _, x := range p.ms {
		for _, f := range x.f {
			if f.t.op == RSum {
				has = true
			}
		}
	}
	if !has || len(p.ms) < 2 {
		return p.done()
	}
	m := p.m
	for again := true; again; {
		again = false
		var keys []string
		for k := range p.ms {
			keys = append(keys, k)
		}
		sort.Strings(keys)
	outer:
		for _, k := range keys {
			x := p.ms[k]
			for i, f := range x.f {
				if f.t.op != RSum || f.e != C(1) || f.t.a[0].op != OLin {
					continue
				}
				if f.t.a[1].op != ORing || len(f.t.a[1].rg.ms) != 1 {
					continue
				}
				rest := append(append([]Fac{}, x.f[:i]...), x.f[i+1:]...)
				M := f.t.a[0]
				fm := monoT(m, x.c, rest)
				for _, at := range []*T{M, C(-1)} {
					fv := openWith(f.t, at)[0]
					if fv.op != ORing || len(fv.rg.ms) != 1 {
						continue
					}
					tt := RMul(fm, fv)
					if tt.op != ORing || len(tt.rg.ms) != 1 {
						continue
					}
					tk := monoKey(tt.rg.ms[0].f)
					y, ok := p.ms[tk]
					if !ok || y == x || y.c.Cmp(tt.rg.ms[0].c) != 0 {
						continue
					}
					delete(p.ms, tk)
					delete(p.ms, k)
					v := newLV(linComb(M, 1, C(1), 1))
					var body *T
					if at == M {
						body = openWith(f.t, linAtom(v))[0]
					} else {
						body = openWith(f.t, linComb(linAtom(v), 1, C(-1), 1))[0]
					}
					ns := RMul(fm, MkSum(m, linComb(M, 1, C(1), 1), v, body))
					if ns.op != ORing {
						return ns
					}
					for _, z := range ns.rg.ms {
						p.add(z.c, z.f)
					}
					again = true
					break outer
				}
			}
		}
	}
	return p.done()
}

// ---------------------------------------------------------------- quantifiers

// MkAll is the boolean: for all v in [0,N), body.
func MkAll(N, v, body *T) *T {
	if body == True {
		return True
	}
	if N.op == OITE {
		return lift1(fmt.Sprintf("allN%d,%d", v.id, body.id), N, func(N *T) *T { return MkAll(N, v, body) })
	}
	if N.op != OLin {
		return UnkB("quantifier bound")
	}
	if h, ok := upper(N, 0); ok && h <= 0 {
		return True
	}
	if body == False {
		return Le(N, C(0))
	}
	if k, ok := isConstInt(N); ok && k <= 64 {
		r := True
		for i := int64(0); i < k; i++ {
			r = And(r, subst(body, map[*T]*T{v: C(i)}))
		}
		return r
	}
	if body.op != OITE {
		return UnkB("quantifier body")
	}
	// v-independent atoms are split off
	sp := support(body)
	for _, at := range sp {
		if !at.hasFV(v) {
			return ite(boolAtom(at), MkAll(N, v, cofactor(body, at, true)), MkAll(N, v, cofactor(body, at, false)))
		}
	}
	// conjunctions distribute
	for _, at := range sp {
		if len(sp) == 1 {
			break
		}
		b := boolAtom(at)
		// body implies at
		if cofactor(body, at, false) == False {
			rest := cofactor(body, at, true)
			if at.op == BType {
				// a value has one type
				for _, o := range sp {
					if o != at && o.op == BType && o.a[0] == at.a[0] {
						rest = cofactor(rest, o, false)
					}
				}
			}
			return And(MkAll(N, v, b), MkAll(N, v, rest))
		}
		if cofactor(body, at, true) == False {
			return And(MkAll(N, v, Not(b)), MkAll(N, v, cofactor(body, at, false)))
		}
	}
	for _, at := range sp {
		k, c := rangeGate(at, v)
		hi, lo := cofactor(body, at, true), cofactor(body, at, false)
		switch k {
		case 'e':
			in := And(Le(C(0), c), Lt(c, N))
			return And(Implies(in, subst(hi, map[*T]*T{v: c})), allExcept(N, v, lo, hi, c))
		case 'l', 'g':
			n1 := c
			if k == 'l' {
				n1 = linComb(c, 1, C(1), 1)
			} else {
				hi, lo = lo, hi
			}
			n1 = clamp(n1, N)
			return lift1(fmt.Sprintf("allr%d,%d", v.id, body.id), n1, func(n1 *T) *T {
				x := MkAll(n1, v, hi)
				y := MkAll(linComb(N, 1, n1, -1), v, subst(lo, map[*T]*T{v: linComb(linAtom(v), 1, n1, 1)}))
				return And(x, y)
			})
		}
	}
	return boolAtom(closeMin(BAll, "", N, v, body))
}

// allExcept: for all v != c: lo.
func allExcept(N, v, lo, hi, c *T) *T {
	if lo == True {
		return True
	}
	if lo == False {
		// every v equals c: N==0 or (N==1 and c==0)
		return Or(Le(N, C(0)), And(Eq(N, C(1)), Eq(c, C(0))))
	}
	in := And(Le(C(0), c), Lt(c, N))
	a := MkAll(c, v, lo)
	c1 := linComb(c, 1, C(1), 1)
	b := MkAll(linComb(N, 1, c1, -1), v, subst(lo, map[*T]*T{v: linComb(linAtom(v), 1, c1, 1)}))
	return ite(in, And(a, b), MkAll(N, v, lo))
}

// MkFirst is the least v<N with body, or N.
func MkFirst(N, v, body *T) *T {
	return lift1(fmt.Sprintf("first%d,%d", v.id, body.id), N, func(N *T) *T {
		if N.op != OLin {
			return Unk("first bound")
		}
		if body == False {
			return N
		}
		if body == True {
			return C(0)
		}
		for _, at := range support(body) {
			if !at.hasFV(v) {
				return ite(boolAtom(at), MkFirst(N, v, cofactor(body, at, true)), MkFirst(N, v, cofactor(body, at, false)))
			}
		}
		if k, ok := isConstInt(N); ok && k <= 8 {
			r := N
			for i := k - 1; i >= 0; i-- {
				r = ite(subst(body, map[*T]*T{v: C(i)}), C(i), r)
			}
			return r
		}
		return linAtom(closeB(AFirst, N, v, body))
	})
}

// MkNoDup: the values body(v), v<N, are pairwise distinct ints.
func MkNoDup(N, v, body *T) *T {
	cond := false
	for _, at := range support(body) {
		cond = cond || at.hasFV(v)
	}
	if k, ok := isConstInt(N); ok && (k <= 8 || cond && k <= 16) {
		r := True
		for i := int64(0); i < k; i++ {
			for j := int64(0); j < i; j++ {
				r = And(r, Not(Eq(subst(body, map[*T]*T{v: C(i)}), subst(body, map[*T]*T{v: C(j)}))))
			}
		}
		return r
	}
	for _, at := range support(body) {
		if at.hasFV(v) {
			return UnkB("nodup of a conditional value")
		}
	}
	return lift2("nodup"+fmt.Sprint(v.id), N, body, func(N, body *T) *T {
		if N.op != OLin || body.op != OLin {
			return UnkB("nodup")
		}
		if h, ok := upper(N, 0); ok && h <= 1 {
			return True
		}
		// strictly monotone index functions
		if !bodyNonlinear(body, v) {
			return True
		}
		if len(body.lin.ts) == 1 && body.lin.ts[0].t.op == AAt && body.lin.ts[0].t.s == "mapkey" {
			return True
		}
		// keys of a map in order
		if t := body.lin.ts[0].t; len(body.lin.ts) == 1 && t.op == AIVar && t.a[0].op == SPKey && t.a[0].a[1].op == OLin && !t.a[0].a[0].hasFV(v) && !bodyNonlinear(t.a[0].a[1], v) {
			return True
		}
		return boolAtom(closeMin(BNoDup, "", N, v, stripConst(body)))
	})
}

func bodyNonlinear(b, v *T) bool {
	k := int64(0)
	for _, x := range b.lin.ts {
		if x.t == v {
			k = x.c
		} else if x.t.hasFV(v) {
			return true
		}
	}
	return k == 0
}

func stripConst(b *T) *T { return linComb(b, 1, C(-b.lin.c), 1) }
