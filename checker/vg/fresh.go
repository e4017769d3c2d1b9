package vg

import (
	"math/big"
	"sort"
)

// zzFresh(points…) asks whether the coefficients of the points are freshly
// drawn: linearly independent in scalars drawn from generators.

func (e *Eng) fresh(st *state, list *T) *T {
	q := e.seqOf(st, list)
	n, ok := isConstInt(SLen(q))
	if !ok {
		return UnkB("freshness of an unknown number of points")
	}
	cs := make([]*T, n)
	for i := range cs {
		cs[i] = e.contentOf(st, SAt(q, C(int64(i))))
	}
	return lift("fresh", cs, freshOf)
}

// freshOf: the Jacobian of the coefficients with respect to the draws has full
// rank, and no two draws of it are the same draw.
func freshOf(cs []*T) *T {
	var rows []map[*T]*T
	opaque := false
	seen := map[*T]bool{}
	var draws []*T
	for _, c := range cs {
		if c.op != OPt {
			return UnkB("freshness of something else than points")
		}
		if len(c.pt) == 0 {
			return False
		}
		for _, t := range c.pt {
			if t.c.op != ORing {
				return UnkB("freshness of a coefficient")
			}
			r := map[*T]*T{}
			for _, m := range t.c.rg.ms {
				for i, f := range m.f {
					x, isC := isConstInt(f.e)
					if !isDraw(f.t) || !isC || x < 1 {
						if drawn(f.t, map[*T]bool{}) {
							opaque = true
						}
						continue
					}
					d := monoT(t.c.rg.m, m.c, append(append([]Fac{}, m.f[:i]...), m.f[i+1:]...))
					for j := int64(1); j < x; j++ {
						d = RMul(d, ringAtom(f.t))
					}
					d = RScale(d, big.NewInt(x))
					if r[f.t] == nil {
						r[f.t] = d
					} else {
						r[f.t] = RAdd(r[f.t], d)
					}
					if !seen[f.t] {
						seen[f.t] = true
						draws = append(draws, f.t)
					}
				}
			}
			rows = append(rows, r)
		}
	}
	sort.Slice(draws, func(i, j int) bool { return draws[i].String() < draws[j].String() })
	apart := True
	for i := range draws {
		for j := 0; j < i; j++ {
			apart = And(apart, Not(sameDraw(draws[i], draws[j])))
		}
	}
	zero := func(x *T) bool { return x == nil || x == RC(0, 0) }
	solid := true
	for len(rows) > 0 {
		// a pivot, constant if there is one
		p, pd := -1, (*T)(nil)
		for i, r := range rows {
			for _, d := range draws {
				if zero(r[d]) {
					continue
				}
				_, isC := isRingConst(r[d])
				if p < 0 || isC {
					p, pd = i, d
				}
				if isC {
					break
				}
			}
			if p == i {
				if _, isC := isRingConst(r[pd]); isC {
					break
				}
			}
		}
		if p < 0 {
			break
		}
		pr := rows[p]
		if _, isC := isRingConst(pr[pd]); !isC {
			solid = false
		}
		rest := append(append([]map[*T]*T{}, rows[:p]...), rows[p+1:]...)
		for i, r := range rest {
			if zero(r[pd]) {
				continue
			}
			n := map[*T]*T{}
			for _, d := range draws {
				x := RC(0, 0)
				if !zero(r[d]) {
					x = RMul(r[d], pr[pd])
				}
				if !zero(pr[d]) {
					x = RSub(x, RMul(pr[d], r[pd]))
				}
				n[d] = x
			}
			rest[i] = n
		}
		rows = rest
	}
	switch {
	case opaque:
		return UnkB("freshness of nonces that depend on hashes of each other")
	case len(rows) > 0:
		return False
	case !solid:
		return UnkB("freshness of multiples of nonces")
	}
	return apart
}

func isDraw(t *T) bool { return t.op == RUF && t.s == "rnd" }

// sameDraw: the condition under which two draws are the same one, taking hash
// functions to be injective.
func sameDraw(a, b *T) *T { return lift2("samedraw", a, b, sameDraw1) }

func sameDraw1(a, b *T) *T {
	if a == b {
		return True
	}
	if isUF(a) && isUF(b) && a.op == b.op && a.s == b.s && len(a.a) == len(b.a) {
		r := True
		for i := range a.a {
			r = And(r, sameDraw(a.a[i], b.a[i]))
		}
		return r
	}
	if isUF(a) || isUF(b) {
		return False
	}
	return VEq(a, b)
}

func isUF(t *T) bool {
	switch t.op {
	case RUF, QUF, XUF, AUF, OUF:
		return true
	}
	return false
}

// drawn: the term depends on the output of a generator.
func drawn(t *T, seen map[*T]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.op == RUF && t.s == "rnd" || t.s == "keystream" || t.s == "chacha20" || HasUnknown(t) != "" {
		return true
	}
	r := false
	each(t, func(x *T) { r = r || drawn(x, seen) })
	return r
}
