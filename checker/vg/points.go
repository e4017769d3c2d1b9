package vg

import (
	"fmt"
	"math/big"
	"sort"
)

// ---------------------------------------------------------------- points
//
// A point is a linear combination of base points with scalar coefficients.

func ptAtom(t *T) *T { return intern(&T{op: OPt, pt: []PTerm{{t, RC(0, 1)}}}) }

func PZero() *T { return intern(&T{op: OPt}) }
func PG() *T    { return ptAtom(mk(XG, nil)) }

type ptAcc map[*T]*T

// done builds the point; coefficients may carry decisions.
func (p ptAcc) done() *T {
	var bs []*T
	for b := range p {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	cs := make([]*T, len(bs))
	name := "ptdone"
	for i, b := range bs {
		cs[i] = p[b]
		name += fmt.Sprintf(",%d", b.id)
	}
	return lift(name, cs, func(cs []*T) *T {
		var ts []PTerm
		for i, c := range cs {
			if c.op != ORing {
				return Unk("point coefficient")
			}
			if len(c.rg.ms) != 0 {
				ts = append(ts, PTerm{bs[i], c})
			}
		}
		return intern(&T{op: OPt, pt: ts})
	})
}

func PAdd(a, b *T) *T { return pcomb(a, b, 1) }
func PSub(a, b *T) *T { return pcomb(a, b, -1) }

func pcomb(a, b *T, k int64) *T {
	return lift2(fmt.Sprintf("padd%d", k), a, b, func(a, b *T) *T {
		if a.op != OPt || b.op != OPt {
			return bad2("point-add", a, b)
		}
		m := ptAcc{}
		for _, x := range a.pt {
			m[x.b] = x.c
		}
		for _, x := range b.pt {
			c := x.c
			if k != 1 {
				c = RScale(c, big.NewInt(k))
			}
			if o := m[x.b]; o != nil {
				m[x.b] = RAdd(o, c)
			} else {
				m[x.b] = c
			}
		}
		return ptAbsorb(m)
	})
}

func PMul(a, s *T) *T {
	return lift2("pmul", a, s, func(a, s *T) *T {
		if a.op != OPt || s.op != ORing || s.rg.m != 0 {
			return bad2("point-mul", a, s)
		}
		m := ptAcc{}
		for _, x := range a.pt {
			m[x.b] = RMul(x.c, s)
		}
		return m.done()
	})
}

// MkPSum is the sum over v in [0,N) of the point body.
func MkPSum(N, v, body *T) *T {
	if N.op == OITE {
		return lift1(fmt.Sprintf("psumN%d,%d", v.id, body.id), N, func(N *T) *T { return MkPSum(N, v, body) })
	}
	if N.op != OLin {
		return bad2("point-sum bound", N, N)
	}
	if k, ok := isConstInt(N); ok && k <= 64 {
		r := PZero()
		for i := int64(0); i < k; i++ {
			r = PAdd(r, subst(body, map[*T]*T{v: C(i)}))
		}
		return r
	}
	if at, dep := pickGate(body, v); at != nil {
		hi, lo := cofactor(body, at, true), cofactor(body, at, false)
		if !dep {
			return ite(boolAtom(at), MkPSum(N, v, hi), MkPSum(N, v, lo))
		}
		k, c := rangeGate(at, v)
		switch k {
		case 'e':
			in := And(Le(C(0), c), Lt(c, N))
			d := subst(PSub(hi, lo), map[*T]*T{v: c})
			return PAdd(MkPSum(N, v, lo), ite(in, d, PZero()))
		case 'l', 'g':
			n1 := c
			if k == 'l' {
				n1 = linComb(c, 1, C(1), 1)
			} else {
				hi, lo = lo, hi
			}
			n1 = clamp(n1, N)
			return lift1(fmt.Sprintf("psumr%d,%d", v.id, body.id), n1, func(n1 *T) *T {
				x := MkPSum(n1, v, hi)
				y := MkPSum(linComb(N, 1, n1, -1), v, subst(lo, map[*T]*T{v: linComb(linAtom(v), 1, n1, 1)}))
				return PAdd(x, y)
			})
		}
		// opaque gates: a single base common to both branches with a gated coefficient
		if b := singleBase(body); b != nil {
			cf := lift1("coefof", body, func(x *T) *T {
				if len(x.pt) == 0 {
					return RC(0, 0)
				}
				return x.pt[0].c
			})
			return psumTerm(N, v, b, cf)
		}
		return Unk("gated point sum")
	}
	if body.op != OPt {
		return bad2("point-sum body", body, body)
	}
	r := PZero()
	for _, x := range body.pt {
		r = PAdd(r, psumTerm(N, v, x.b, x.c))
	}
	return r
}

func singleBase(body *T) *T {
	var b *T
	ok := true
	leaves(body, func(_, l *T) {
		if l.op != OPt || len(l.pt) > 1 {
			ok = false
			return
		}
		if len(l.pt) == 1 {
			if b == nil {
				b = l.pt[0].b
			} else if b != l.pt[0].b {
				ok = false
			}
		}
	})
	if !ok {
		return nil
	}
	return b
}

func psumTerm(N, v, b, c *T) *T {
	if !b.hasFV(v) {
		return PMul(ptAtom(b), MkSum(0, N, v, c))
	}
	if c.op != ORing {
		return ptAtom(closeMin(XSum, "", N, v, c, ptAtom(b)))
	}
	r := PZero()
	for _, mo := range c.rg.ms {
		var free, dep []Fac
		for _, f := range mo.f {
			if f.t.hasFV(v) || f.e.hasFV(v) {
				dep = append(dep, f)
			} else {
				free = append(free, f)
			}
		}
		s := ptAtom(closeMin(XSum, "", N, v, monoT(0, big.NewInt(1), dep), ptAtom(b)))
		r = PAdd(r, PMul(s, monoT(0, mo.c, free)))
	}
	return r
}

func ptAbsorb(m ptAcc) *T {
	for again := true; again; {
		again = false
		var bs []*T
		for b := range m {
			bs = append(bs, b)
		}
		sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	outer:
		for _, b := range bs {
			if b.op != XSum || b.a[0].op != OLin || m[b].op != ORing || len(m[b].rg.ms) == 0 {
				continue
			}
			M := b.a[0]
			for _, at := range []*T{M, C(-1)} {
				fv := openWith(b, at)
				t := PMul(PMul(fv[1], fv[0]), m[b])
				if t.op != OPt || len(t.pt) != 1 {
					continue
				}
				o := m[t.pt[0].b]
				// the whole coefficient, or the monomials of it, must be present
				if o == nil || t.pt[0].b == b || o.op != ORing || !containsMonos(o, t.pt[0].c) {
					continue
				}
				c := m[b]
				delete(m, b)
				if left := RSub(o, t.pt[0].c); len(left.rg.ms) == 0 {
					delete(m, t.pt[0].b)
				} else {
					m[t.pt[0].b] = left
				}
				v := newLV(linComb(M, 1, C(1), 1))
				var bd []*T
				if at == M {
					bd = openWith(b, linAtom(v))
				} else {
					bd = openWith(b, linComb(linAtom(v), 1, C(-1), 1))
				}
				ns := PMul(MkPSum(linComb(M, 1, C(1), 1), v, PMul(bd[1], bd[0])), c)
				if ns.op != OPt {
					return ns
				}
				for _, z := range ns.pt {
					if x := m[z.b]; x != nil {
						m[z.b] = RAdd(x, z.c)
					} else {
						m[z.b] = z.c
					}
				}
				again = true
				break outer
			}
		}
	}
	return m.done()
}

func containsMonos(a, b *T) bool {
	if len(b.rg.ms) == 0 {
		return false
	}
	have := map[string]*big.Int{}
	for _, x := range a.rg.ms {
		have[monoKey(x.f)] = x.c
	}
	for _, x := range b.rg.ms {
		if c := have[monoKey(x.f)]; c == nil || c.Cmp(x.c) != 0 {
			return false
		}
	}
	return true
}

// PEq is the boolean a == b.
func PEq(a, b *T) *T {
	if a == b {
		return True
	}
	return lift1("peq0", PSub(a, b), func(d *T) *T {
		if d.op != OPt {
			return UnkB("point equality")
		}
		if len(d.pt) == 0 {
			return True
		}
		if len(d.pt) == 1 {
			x := d.pt[0]
			cz := REq(x.c, RC(0, 0))
			if finiteBase(x.b) {
				return cz
			}
			if k, ok := isRingConst(x.c); !ok || k.Cmp(big.NewInt(1)) != 0 {
				return Or(cz, PEq(ptAtom(x.b), PZero()))
			}
		}
		c := d.pt[0].c
		li := new(big.Int).ModInverse(c.rg.ms[0].c, Mods[0])
		return boolAtom(mk(BPEq, nil, PMul(d, RBig(0, li))))
	})
}

// finiteBase: bases that are never the identity.
func finiteBase(b *T) bool { return b.op == XG || b.op == XAff || b.op == XUF && b.s == "H" }

func AffX(p *T) *T { return affc("affx", 0, p) }
func AffY(p *T) *T { return affc("affy", 1, p) }
func affc(name string, i int, p *T) *T {
	return lift1(name, p, func(p *T) *T {
		if p.op != OPt {
			return bad2(name, p, p)
		}
		if len(p.pt) == 0 {
			return RC(1, 0)
		}
		if len(p.pt) == 1 && p.pt[0].b.op == XAff {
			if k, ok := isRingConst(p.pt[0].c); ok && k.Cmp(big.NewInt(1)) == 0 {
				return p.pt[0].b.a[i]
			}
		}
		return ringAtom(intern(&T{op: RUF, n: 1, s: name, a: []*T{p}}))
	})
}
