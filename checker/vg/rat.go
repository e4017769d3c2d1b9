package vg

import (
	"math/big"
	"sort"
)

// Rational simplification of conditions: denominators known to be non-zero are
// cleared, and factors known to be non-zero are divided out.

type rats struct{ nz []*T }

// lead is the greatest monomial in lexicographic order of atom ids; nil if an
// exponent is not a small constant.
func lexLess(a, b []Fac) bool {
	i, j := 0, 0
	for {
		switch {
		case i >= len(a) && j >= len(b):
			return false
		case i >= len(a):
			return true
		case j >= len(b):
			return false
		}
		switch {
		case a[i].t.id < b[j].t.id:
			return false
		case a[i].t.id > b[j].t.id:
			return true
		}
		x, y := a[i].e.lin.c, b[j].e.lin.c
		if x != y {
			return x < y
		}
		i++
		j++
	}
}

func constExps(p *T) bool {
	for _, m := range p.rg.ms {
		for _, f := range m.f {
			if k, ok := isConstInt(f.e); !ok || k < 0 || k > 64 {
				return false
			}
			if f.t.op == RPoly || f.t.op == RCst {
				return false
			}
		}
	}
	return true
}

func leadMono(p *T) Mono {
	l := p.rg.ms[0]
	for _, m := range p.rg.ms[1:] {
		if lexLess(l.f, m.f) {
			l = m
		}
	}
	return l
}

func monoDiv(a, b []Fac) ([]Fac, bool) {
	var out []Fac
	j := 0
	for _, f := range a {
		k := f.e.lin.c
		if j < len(b) && b[j].t == f.t {
			k -= b[j].e.lin.c
			j++
		}
		if k < 0 {
			return nil, false
		}
		if k > 0 {
			out = append(out, Fac{f.t, C(k)})
		}
	}
	if j < len(b) {
		return nil, false
	}
	return out, true
}

// exactDiv is p/q when q divides p.
func exactDiv(p, q *T) *T {
	if len(q.rg.ms) == 0 || !constExps(p) || !constExps(q) {
		return nil
	}
	lq := leadMono(q)
	inv := new(big.Int).ModInverse(lq.c, Mods[q.rg.m])
	quo := RC(p.rg.m, 0)
	for n := 0; len(p.rg.ms) > 0; n++ {
		lp := leadMono(p)
		f, ok := monoDiv(lp.f, lq.f)
		if !ok || n > 2000 {
			return nil
		}
		t := monoT(p.rg.m, new(big.Int).Mul(lp.c, inv), f)
		quo = RAdd(quo, t)
		p = RSub(p, RMul(t, q))
		if p.op != ORing || quo.op != ORing || !constExps(p) {
			return nil
		}
	}
	return quo
}

// strip divides out the factors known to be non-zero.
func (r *rats) strip(p *T) *T {
	for ch := true; ch; {
		ch = false
		for _, q := range r.nz {
			if q.rg.m != p.rg.m || len(p.rg.ms) == 0 {
				continue
			}
			if d := exactDiv(p, q); d != nil {
				p = d
				ch = true
			}
		}
	}
	return p
}

func (r *rats) nonzero(p *T) bool {
	if c, ok := isRingConst(r.strip(p)); ok {
		return c.Sign() != 0
	}
	// a factor of something that is not zero
	for _, q := range r.nz {
		if q.rg.m == p.rg.m && exactDiv(q, p) != nil {
			return true
		}
	}
	return false
}

// of is numerator and denominator of a ring value; the denominator is known to
// be non-zero.
func (r *rats) of(t *T, depth int) (n, d *T) {
	m := t.rg.m
	n, d = RC(m, 0), RC(m, 1)
	for _, mo := range t.rg.ms {
		mn, md := RBig(m, mo.c), RC(m, 1)
		for _, f := range mo.f {
			an, ad := monoT(m, big.NewInt(1), []Fac{f}), RC(m, 1)
			if k, ok := isConstInt(f.e); ok && f.t.op == RInv && k > 0 && k < 8 && depth < 6 {
				qn, qd := r.of(f.t.a[0], depth+1)
				if qn.op == ORing && r.nonzero(qn) {
					an, ad = RPow(qd, f.e), RPow(qn, f.e)
				}
			}
			mn, md = RMul(mn, an), RMul(md, ad)
		}
		if mn.op != ORing || md.op != ORing || n.op != ORing || d.op != ORing {
			return t, RC(m, 1)
		}
		switch {
		case md == d:
			n = RAdd(n, mn)
		default:
			if q := exactDiv(d, md); q != nil {
				n = RAdd(n, RMul(mn, q))
			} else if q := exactDiv(md, d); q != nil {
				n = RAdd(RMul(n, q), mn)
				d = md
			} else {
				n = RAdd(RMul(n, md), RMul(mn, d))
				d = RMul(d, md)
			}
		}
	}
	if n.op != ORing || d.op != ORing {
		return t, RC(m, 1)
	}
	return
}

// simplify rewrites the algebraic literals of a conjunction; ok is false when
// they contradict each other.
func ratSimplify(p []lit) (ok bool, changed bool) {
	r := &rats{}
	for _, l := range p {
		if l.val {
			continue
		}
		switch l.at.op {
		case BREq:
			r.nz = append(r.nz, l.at.a[0])
		case BEq:
			r.nz = append(r.nz, REmbed(0, l.at.a[0]))
		}
	}
	sort.Slice(r.nz, func(i, j int) bool { return len(r.nz[i].rg.ms) < len(r.nz[j].rg.ms) })
	for i, l := range p {
		d := (*T)(nil)
		switch l.at.op {
		case BREq:
			d = l.at.a[0]
			if d.op != ORing {
				continue
			}
			// what the literal itself says must not be used on it
			q := &rats{}
			for _, z := range r.nz {
				if l.val || z != d {
					q.nz = append(q.nz, z)
				}
			}
			n, _ := q.of(d, 0)
			n = q.strip(n)
			if c, ok := isRingConst(n); ok {
				if (c.Sign() == 0) != l.val {
					return false, true
				}
				p[i] = lit{mks(BUF, "true"), true}
				changed = true
				continue
			}
			x := REq(n, RC(n.rg.m, 0))
			if y, v, ok := oneAtom(x, l.val); ok && y != l.at {
				p[i] = lit{y, v}
				changed = true
			}
		case BPEq:
			d = l.at.a[0]
			if d.op != OPt {
				continue
			}
			sum := PZero()
			L := RC(0, 1)
			type nd struct{ b, n, d *T }
			var ts []nd
			for _, t := range d.pt {
				if t.c.op != ORing {
					ts = nil
					break
				}
				n, dd := r.of(t.c, 0)
				ts = append(ts, nd{t.b, n, dd})
				if exactDiv(L, dd) == nil {
					if q := exactDiv(dd, L); q != nil {
						L = dd
					} else {
						L = RMul(L, dd)
					}
				}
			}
			if ts == nil {
				continue
			}
			for _, t := range ts {
				k := exactDiv(RMul(t.n, L), t.d)
				if k == nil {
					sum = nil
					break
				}
				sum = PAdd(sum, PMul(ptAtom(t.b), k))
			}
			if sum == nil || sum.op != OPt || sum == d {
				continue
			}
			x := PEq(sum, PZero())
			if x == True || x == False {
				if (x == True) != l.val {
					return false, true
				}
				p[i] = lit{mks(BUF, "true"), true}
				changed = true
				continue
			}
			if y, v, ok := oneAtom(x, l.val); ok && y != l.at {
				p[i] = lit{y, v}
				changed = true
			}
		}
	}
	return true, changed
}

// oneAtom reads a condition that is an atom or its negation.
func oneAtom(x *T, val bool) (*T, bool, bool) {
	if x.op != OITE {
		return nil, false, false
	}
	if x.a[1] == True && x.a[2] == False {
		return x.a[0], val, true
	}
	if x.a[1] == False && x.a[2] == True {
		return x.a[0], !val, true
	}
	return nil, false, false
}
