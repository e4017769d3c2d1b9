package vg

import (
	"math/big"
	"sync"
)

// The curve itself, for random interpretations: points are named by their
// discrete logarithms, and their coordinates are the real ones.

type affPt struct{ x, y *big.Int } // nil x: infinity

func ecAdd(a, b affPt) affPt {
	if a.x == nil {
		return b
	}
	if b.x == nil {
		return a
	}
	var l *big.Int
	if a.x.Cmp(b.x) == 0 {
		s := new(big.Int).Add(a.y, b.y)
		if s.Mod(s, P).Sign() == 0 {
			return affPt{}
		}
		l = new(big.Int).Mul(a.x, a.x)
		l.Mul(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(a.y, 1), P))
	} else {
		l = new(big.Int).Sub(b.y, a.y)
		d := new(big.Int).Sub(b.x, a.x)
		l.Mul(l, new(big.Int).ModInverse(d.Mod(d, P), P))
	}
	l.Mod(l, P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x).Sub(x, b.x).Mod(x, P)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l).Sub(y, a.y).Mod(y, P)
	return affPt{x, y}
}

var (
	ecOnce  sync.Once
	ecTab   [32][]affPt
	ecCache sync.Map
)

// ecMulG is e*G in affine coordinates, e not 0 modulo the order.
func ecMulG(e *big.Int) affPt {
	k := e.String()
	if v, ok := ecCache.Load(k); ok {
		return v.(affPt)
	}
	ecOnce.Do(func() {
		g := affPt{gX, gY}
		for i := range ecTab {
			t := make([]affPt, 256)
			for j := 1; j < 256; j++ {
				t[j] = ecAdd(t[j-1], g)
			}
			ecTab[i] = t
			g = ecAdd(t[255], g)
		}
	})
	b := be(new(big.Int).Mod(e, Q), 32)
	var r affPt
	for i := 0; i < 32; i++ {
		r = ecAdd(r, ecTab[i][b[31-i]])
	}
	ecCache.Store(k, r)
	return r
}

// curveY is a square root of x^3+7, if there is one.
func curveY(x *big.Int) *big.Int {
	y := new(big.Int).Exp(x, big.NewInt(3), P)
	y.Add(y, big.NewInt(7)).Mod(y, P)
	return new(big.Int).ModSqrt(y, P)
}

// aff gives the coordinates of a point.
func (m *interp) aff(e *big.Int) (x, y *big.Int) {
	if e.Sign() == 0 {
		return big.NewInt(0), big.NewInt(0)
	}
	if p, ok := m.ovr[e.String()]; ok {
		return p.x, p.y
	}
	p := ecMulG(e)
	m.reg(e, p.x, p.y)
	return p.x, p.y
}

// reg records which point has these coordinates, and its negative.
func (m *interp) reg(e, x, y *big.Int) {
	m.affR[x.String()+","+y.String()] = e
	m.affR[x.String()+","+new(big.Int).Sub(P, y).String()] = new(big.Int).Sub(Q, e)
}

// onCurve decides the curve equation.
func onCurve(x, y *big.Int) bool {
	l := new(big.Int).Exp(y, big.NewInt(2), P)
	r := new(big.Int).Exp(x, big.NewInt(3), P)
	r.Add(r, big.NewInt(7)).Mod(r, P)
	return l.Cmp(r) == 0
}

// ofCoords names the point with these coordinates.
func (m *interp) ofCoords(x, y *big.Int) *big.Int {
	k := x.String() + "," + y.String()
	if e, ok := m.affR[k]; ok {
		return e
	}
	e := new(big.Int).Mod(m.hashBig("xaff"+k), Q)
	m.reg(e, x, y)
	if onCurve(x, y) {
		n := new(big.Int).Sub(Q, e)
		m.ovr[e.String()] = affPt{x, y}
		m.ovr[n.String()] = affPt{x, new(big.Int).Sub(P, y)}
	}
	return e
}

// decode is the point a compressed encoding denotes.
func (m *interp) decode(b []byte) *big.Int {
	if len(b) != 33 {
		return nil
	}
	if e, ok := m.pserR[string(b)]; ok {
		return e
	}
	x := new(big.Int).SetBytes(b[1:])
	switch {
	case b[0] == 0 && x.Sign() == 0:
		return new(big.Int)
	case (b[0] == 2 || b[0] == 3) && x.Cmp(P) < 0:
		y := curveY(x)
		if y == nil {
			return nil
		}
		if byte(y.Bit(0)) != b[0]&1 {
			y = new(big.Int).Sub(P, y)
		}
		e := m.ofCoords(x, y)
		m.pserR[string(b)] = e
		return e
	}
	return nil
}

// opaque: a byte string that is the output of a free function.
func opaque(t *T) bool {
	for {
		switch t.op {
		case QSub:
			t = t.a[0]
		case QUF:
			return !definedQuf[t.s]
		default:
			return false
		}
	}
}

// plausible is byte i of a sequence that looks like an encoding.
func (m *interp) plausible(seq string, md byte, i int64) (byte, bool) {
	at := func(b []byte) (byte, bool) {
		if i < 0 || i >= int64(len(b)) {
			return 0, false
		}
		return b[i], true
	}
	m.chosen(seq)
	md = m.mode("enc " + seq)
	if m.mode("encodings") < 128 && md >= 60 && md < 240 {
		md = 80
	}
	switch {
	case md < 15:
		return 0, true
	case md < 25:
		return 255, true
	case md < 40: // a tag, and nothing canonical
		if i == 0 {
			return m.mode("tag "+seq) % 6, true
		}
		return 255, true
	case md < 60:
		if i == 0 {
			return m.mode("tag "+seq) % 6, true
		}
		return 0, false
	case md < 140:
		return at(m.pser(new(big.Int).Mod(m.hashBig("encpt "+seq), Q)))
	case md < 155:
		x, y := m.aff(new(big.Int).Mod(m.hashBig("encpt "+seq), Q))
		return at(append([]byte{4}, append(be(x, 32), be(y, 32)...)...))
	case md < 185: // around the moduli
		d := int64(m.mode("delta "+seq)%5) - 2
		n := be(new(big.Int).Add(Mods[md&1], big.NewInt(d)), 32)
		if md&2 != 0 {
			n = append([]byte{m.mode("tag "+seq) % 6}, n...)
		}
		return at(n)
	}
	return 0, false
}
