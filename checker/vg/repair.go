package vg

import (
	"math/big"
	"sort"
)

// Repairing a random interpretation: when a condition that compares numbers
// fails, one of the numbers it depends on affinely is given the value that
// makes it hold.

// goal is a quantity that has to become zero (or not positive, or positive).
type goal struct {
	mod  int // -1: integer
	kind int // 0: zero, 1: at most zero, 2: at least one, 3: not zero
	eval func() *big.Int
}

func (m *interp) litGoals(l lit) []goal {
	t := l.at
	switch {
	case t.op == BREq && l.val:
		return append([]goal{{ringMod(t.a[0]), 0, func() *big.Int { return m.ring(t.a[0]) }}}, m.sameX(t)...)
	case t.op == BPEq && l.val:
		return []goal{{0, 0, func() *big.Int { return m.pt(t.a[0]) }}}
	case t.op == BEq && l.val:
		return []goal{{-1, 0, func() *big.Int { return m.int(t.a[0]) }}}
	case t.op == BLe && l.val:
		return []goal{{-1, 1, func() *big.Int { return m.int(t.a[0]) }}}
	case t.op == BLe:
		return []goal{{-1, 2, func() *big.Int { return m.int(t.a[0]) }}}
	}
	return nil
}

// sameX: equal abscissas come from equal points, or opposite ones.
func (m *interp) sameX(ts ...*T) []goal {
	var gs []goal
	pts := m.affArgs(ts)
	for i, a := range pts {
		for _, b := range pts[:i] {
			two := []goal{{0, 0, func() *big.Int { return new(big.Int).Sub(m.pt(a), m.pt(b)) }},
				{0, 0, func() *big.Int { return new(big.Int).Add(m.pt(a), m.pt(b)) }}}
			if m.mode("same x")&1 != 0 {
				two[0], two[1] = two[1], two[0]
			}
			gs = append(gs, two...)
		}
	}
	return gs
}

// affArgs are the points whose coordinates occur in terms.
func (m *interp) affArgs(ts []*T) []*T {
	var out []*T
	seen := map[*T]bool{}
	var rec func(t *T, d int)
	rec = func(t *T, d int) {
		if seen[t] || d > 10 {
			return
		}
		seen[t] = true
		if t.op == RUF && t.s == "affx" && len(t.fv) == 0 {
			out = append(out, t.a[0])
			return
		}
		if x, ok := m.bind[t]; ok {
			rec(x, d+1)
			return
		}
		each(t, func(x *T) { rec(x, d+1) })
	}
	for _, t := range ts {
		rec(t, 0)
	}
	return out
}

func (m *interp) with(p []lit, k string, v *ev, f func() *big.Int) (r *big.Int) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(evalFail); !is {
				panic(x)
			}
			r = nil
		}
	}()
	m.reset()
	m.tab[k] = v
	if !m.prepare(p) {
		return nil
	}
	return f()
}

// repair solves the failing condition for one of the numbers it depends on.
func (m *interp) repair(p []lit) bool {
	goals, leafs := m.goals, m.leafs
	var ks []string
	for k := range leafs {
		if _, done := m.set[k]; !done {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool {
		return string(m.hash("order "+ks[i], 8)) < string(m.hash("order "+ks[j], 8))
	})
	var hs []string // hash outputs, the last resort
	n := 0
	for _, k := range ks {
		if leafs[k].mod == -3 {
			hs = append(hs, k)
		} else if n < 12 {
			ks[n] = k
			n++
		}
	}
	ks = append(ks[:n:n], hs...)
	for _, g := range goals {
		for _, k := range ks {
			if m.solve(p, g, k, leafs[k], false) || g.mod >= 0 && leafs[k].mod >= 0 && m.solve(p, g, k, leafs[k], true) {
				return true
			}
		}
	}
	return false
}

// solve gives choice k the value that reaches the goal, if the goal is affine
// in it (or in its inverse).
func (m *interp) solve(p []lit, g goal, k string, lf leaf, inverse bool) bool {
	var f [3]*big.Int
	var x0 *big.Int
	if v, ok := m.tab[k]; ok && v.i != nil {
		x0 = v.i
	} else {
		x0 = new(big.Int).Rsh(m.hashBig("start "+k), 300)
	}
	mk := func(x *big.Int) *ev {
		switch lf.mod {
		case -1:
			return vBig(x)
		case -2:
			return vPt(x)
		case -3:
			x = new(big.Int).Mod(x, Q)
			return vBytes(be(x.Add(x, new(big.Int).Mul(Q, new(big.Int).SetBytes(m.hash("over "+k, 15)))), 48))
		}
		if inverse {
			x = invMod(new(big.Int).Mod(x, Mods[lf.mod]), Mods[lf.mod])
		}
		return vRing(lf.mod, x)
	}
	if lf.mod == -1 {
		if lf.hi != nil && x0.Cmp(lf.hi) > 0 || lf.lo != nil && x0.Cmp(lf.lo) < 0 || x0.BitLen() > 62 {
			x0 = big.NewInt(1)
		}
	}
	for i := range f {
		x := new(big.Int).Add(x0, big.NewInt(int64(i)))
		if f[i] = m.with(p, k, mk(x), g.eval); f[i] == nil {
			return false
		}
	}
	d, d2 := new(big.Int).Sub(f[1], f[0]), new(big.Int).Sub(f[2], f[1])
	var x *big.Int
	if g.mod >= 0 {
		if lf.mod == -1 {
			return false
		}
		mod := Mods[g.mod]
		d.Mod(d, mod)
		d2.Mod(d2, mod)
		if d.Sign() == 0 || d.Cmp(d2) != 0 {
			return false
		}
		x = new(big.Int).Mul(f[0], invMod(d, mod))
		x.Sub(x0, x).Mod(x, mod)
	} else {
		if d.Sign() == 0 || d.Cmp(d2) != 0 || lf.mod != -1 {
			return false
		}
		want := big.NewInt(0)
		if g.kind == 2 {
			want = big.NewInt(1)
		}
		diff := new(big.Int).Sub(want, f[0])
		q, r := new(big.Int).QuoRem(diff, d, new(big.Int))
		if r.Sign() != 0 {
			if g.kind == 0 {
				return false
			}
			q.Add(q, big.NewInt(int64(diff.Sign()*d.Sign())))
		}
		x = new(big.Int).Add(x0, q)
		if lf.lo != nil && x.Cmp(lf.lo) < 0 || lf.hi != nil && x.Cmp(lf.hi) > 0 || x.BitLen() > 62 {
			return false
		}
	}
	if lf.mod == -3 && x.BitLen() < 64 {
		return false
	}
	v := mk(x)
	y := m.with(p, k, v, g.eval)
	if y == nil {
		return false
	}
	if g.mod >= 0 {
		y.Mod(y, Mods[g.mod])
	}
	if !(y.Sign() == 0 || g.kind == 1 && y.Sign() < 0 || g.kind == 2 && y.Sign() > 0) {
		return false
	}
	m.set[k] = v
	return true
}
