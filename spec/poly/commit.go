package poly

import (
	"github.com/PlatONnetwork/tecdsa/common"
	c "github.com/PlatONnetwork/tecdsa/curve"
)

// zzTooMany: a non-zero coefficient does not fit.
func zzTooMany(p *Polynomial, num int) bool {
	for i := range p.coefficients {
		if i >= num && p.coefficients[i].IsZero() == 0 {
			return true
		}
	}
	return false
}

//vg:spec simpleCommitment.Create props=C26,C10 general=no sizes=0,1,2,3
func zzSimpleCreate(_ simpleCommitment, poly *Polynomial, num int) (*SimpleCommitment, error) {
	zzAssume(poly.curve == c.K256 && num >= 0)
	if zzTooMany(poly, num) {
		return nil, zzBad
	}
	pts := make([]c.EccPoint, num)
	for i := range pts {
		pts[i] = c.ZzMul(c.ZzG(), zzCoeff(poly, i))
	}
	return &SimpleCommitment{pts}, nil
}

//vg:spec pedersenCommitment.Create props=C26,C10 general=no sizes=0,1,2,3
func zzPedersenCreate(_ pedersenCommitment, values *Polynomial, masking *Polynomial, num int) (*PedersenCommitment, error) {
	zzAssume(values.curve == c.K256 && masking.curve == c.K256 && num >= 0)
	if zzTooMany(values, num) || zzTooMany(masking, num) {
		return nil, zzBad
	}
	pts := make([]c.EccPoint, num)
	for i := range pts {
		pts[i] = c.ZzAdd(c.ZzMul(c.ZzG(), zzCoeff(values, i)), c.ZzMul(c.ZzH(), zzCoeff(masking, i)))
	}
	return &PedersenCommitment{pts}, nil
}

// ZzEvalPoints is the sum of x^i times point i at x = index + 1.
func ZzEvalPoints(pts []c.EccPoint, index common.NodeIndex) c.EccPoint {
	acc := c.Point.Identity(c.K256)
	for i := len(pts) - 1; i >= 0; i-- {
		acc = c.ZzAdd(c.ZzMul(acc, c.ZzX(index)), pts[i])
	}
	return acc
}

//vg:spec SimpleCommitment.EvaluateAt props=C26,C09,C13,C01 sizes=1,2,3
func zzSimpleEval(s *SimpleCommitment, evalPoint common.NodeIndex) c.EccPoint {
	zzAssume(len(s.points) > 0)
	return ZzEvalPoints(s.points, evalPoint)
}

//vg:spec PedersenCommitment.EvaluateAt props=C26,C09,C13,C01 sizes=1,2,3
func zzPedersenEval(p *PedersenCommitment, evalPoint common.NodeIndex) c.EccPoint {
	zzAssume(len(p.points) > 0)
	return ZzEvalPoints(p.points, evalPoint)
}

// ZzOpens: the opening is of the commitment's kind and commits to its value at
// the index.
func ZzOpens(cm PolynomialCommitment, index common.NodeIndex, opening CommitmentOpening) bool {
	e := ZzEvalPoints(cm.Points(), index)
	switch cm.Type() {
	case Simple:
		switch o := opening.(type) {
		case SimpleCommitmentOpening:
			return c.ZzEq(e, c.ZzMul(c.ZzG(), o[0]))
		case *SimpleCommitmentOpening:
			return c.ZzEq(e, c.ZzMul(c.ZzG(), o[0]))
		}
	case Pedersen:
		switch o := opening.(type) {
		case PedersenCommitmentOpening:
			return c.ZzEq(e, ZzPedersen(o[0], o[1]))
		case *PedersenCommitmentOpening:
			return c.ZzEq(e, ZzPedersen(o[0], o[1]))
		}
	}
	return false
}

// ZzPedersen is v*G + m*H.
func ZzPedersen(v, m c.EccScalar) c.EccPoint {
	return c.ZzAdd(c.ZzMul(c.ZzG(), v), c.ZzMul(c.ZzH(), m))
}

//vg:spec SimpleCommitment.CheckOpening props=C26,C09,C12,C13,C14,C35 sizes=1,2,3
func zzSimpleOpens(s *SimpleCommitment, evalPoint common.NodeIndex, opening CommitmentOpening) bool {
	zzAssume(len(s.points) > 0)
	return ZzOpens(s, evalPoint, opening)
}

//vg:spec PedersenCommitment.CheckOpening props=C26,C09,C12,C13,C14,C35 sizes=1,2,3
func zzPedersenOpens(p *PedersenCommitment, evalPoint common.NodeIndex, opening CommitmentOpening) bool {
	zzAssume(len(p.points) > 0)
	return ZzOpens(p, evalPoint, opening)
}

//vg:spec SimpleCommitment.ReturnOpeningIfConsistent props=C26,C09,C12,C35 sizes=1,2,3
func zzSimpleReturns(s *SimpleCommitment, index common.NodeIndex, opening CommitmentOpening) (CommitmentOpening, error) {
	zzAssume(len(s.points) > 0)
	if !ZzOpens(s, index, opening) {
		return nil, zzBad
	}
	return opening, nil
}

//vg:spec PedersenCommitment.ReturnOpeningIfConsistent props=C26,C09,C12,C35 sizes=1,2,3
func zzPedersenReturns(p *PedersenCommitment, index common.NodeIndex, opening CommitmentOpening) (CommitmentOpening, error) {
	zzAssume(len(p.points) > 0)
	if !ZzOpens(p, index, opening) {
		return nil, zzBad
	}
	return opening, nil
}

// ZzSame: kind, length and all points agree.
func ZzSame(a, b PolynomialCommitment) bool {
	if a.Type() != b.Type() {
		return false
	}
	x, y := a.Points(), b.Points()
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !c.ZzEq(x[i], y[i]) {
			return false
		}
	}
	return true
}

//vg:spec SimpleCommitment.Equal props=C26,C08 sizes=1,2,3
func zzSimpleEqual(s *SimpleCommitment, other PolynomialCommitment) int {
	if ZzSame(s, other) {
		return 1
	}
	return 0
}

//vg:spec PedersenCommitment.Equal props=C26,C08 sizes=1,2,3
func zzPedersenEqual(p *PedersenCommitment, other PolynomialCommitment) int {
	if ZzSame(p, other) {
		return 1
	}
	return 0
}

// ZzStable lists kind, curve and every point in order.
func ZzStable(cm PolynomialCommitment) []byte {
	out := []byte{'S', 1}
	if cm.Type() == Pedersen {
		out[0] = 'P'
	}
	for _, p := range cm.Points() {
		out = append(out, p.Serialize()...)
	}
	return out
}

//vg:spec SimpleCommitment.StableRepresentation props=C37,C29 sizes=1,2,3
func zzSimpleStable(s *SimpleCommitment) []byte {
	zzAssume(len(s.points) > 0)
	return ZzStable(s)
}

//vg:spec PedersenCommitment.StableRepresentation props=C37,C29 sizes=1,2,3
func zzPedersenStable(p *PedersenCommitment) []byte {
	zzAssume(len(p.points) > 0)
	return ZzStable(p)
}

//vg:spec SimpleCommitment.VerifyIs props=C26,C08,C11,C35
func zzSimpleVerifyIs(s *SimpleCommitment, ctype PolynomialCommitmentType, curveType c.EccCurveType) error {
	zzAssume(len(s.points) > 0)
	if ctype != Simple || curveType != c.K256 {
		return zzBad
	}
	return nil
}

//vg:spec PedersenCommitment.VerifyIs props=C26,C08,C11,C35
func zzPedersenVerifyIs(s *PedersenCommitment, ctype PolynomialCommitmentType, curveType c.EccCurveType) error {
	zzAssume(len(s.points) > 0)
	if ctype != Pedersen || curveType != c.K256 {
		return zzBad
	}
	return nil
}

//vg:law props=C26,C08,C11
func zzAccessors(s *SimpleCommitment, p *PedersenCommitment) bool {
	zzAssume(len(s.points) > 0 && len(p.points) > 0)
	return s.Type() == Simple && p.Type() == Pedersen && Simple != Pedersen &&
		s.Len() == len(s.points) && p.Len() == len(p.points) &&
		c.ZzEq(s.ConstantTerm(), s.points[0]) && c.ZzEq(p.ConstantTerm(), p.points[0]) &&
		s.CurveType() == c.K256 && p.CurveType() == c.K256
}

// What is committed to a polynomial opens to its values, and the constant term
// commits to the secret.
//
//vg:law props=C26,C10 general=no sizes=1,2,3
func zzCommitThenOpen(p *Polynomial, m *Polynomial, i common.NodeIndex) bool {
	zzAssume(p.curve == c.K256 && m.curve == c.K256 && len(p.coefficients) == len(m.coefficients))
	n := len(p.coefficients)
	s, err := SimpleCM.Create(p, n)
	if err != nil {
		return false
	}
	q, err := PedersenCM.Create(p, m, n)
	if err != nil {
		return false
	}
	x := c.ZzX(i)
	v, w := zzEval(p.coefficients, x), zzEval(m.coefficients, x)
	return s.CheckOpening(i, &SimpleCommitmentOpening{v}) && q.CheckOpening(i, &PedersenCommitmentOpening{v, w}) && s.Len() == n && q.Len() == n
}

//vg:spec SimpleCommitment.Clone props=C32 sizes=1,2,3
func zzSimpleClone(s *SimpleCommitment) PolynomialCommitment {
	pts := make([]c.EccPoint, len(s.points))
	for i := range pts {
		pts[i] = s.points[i].Clone()
	}
	return &SimpleCommitment{pts}
}

//vg:spec PedersenCommitment.Clone props=C32 sizes=1,2,3
func zzPedersenClone(p *PedersenCommitment) PolynomialCommitment {
	pts := make([]c.EccPoint, len(p.points))
	for i := range pts {
		pts[i] = p.points[i].Clone()
	}
	return &PedersenCommitment{pts}
}

// Changing a clone does not change the original, nor the other way round.
//
//vg:law props=C32 general=no sizes=2
func zzSimpleCloneApart(s *SimpleCommitment, d c.EccPoint) bool {
	zzAssume(len(s.points) == 2)
	a, b := s.points[0].Clone(), s.points[1].Clone()
	k := s.Clone().(*SimpleCommitment)
	k.points[0].Double(d)
	k.points[1] = d
	if !c.ZzEq(s.points[0], a) || !c.ZzEq(s.points[1], b) {
		return false
	}
	k = s.Clone().(*SimpleCommitment)
	s.points[0].Double(d)
	s.points[1] = d
	return c.ZzEq(k.points[0], a) && c.ZzEq(k.points[1], b)
}

//vg:law props=C32 general=no sizes=2
func zzPedersenCloneApart(s *PedersenCommitment, d c.EccPoint) bool {
	zzAssume(len(s.points) == 2)
	a, b := s.points[0].Clone(), s.points[1].Clone()
	k := s.Clone().(*PedersenCommitment)
	k.points[0].Double(d)
	k.points[1] = d
	if !c.ZzEq(s.points[0], a) || !c.ZzEq(s.points[1], b) {
		return false
	}
	k = s.Clone().(*PedersenCommitment)
	s.points[0].Double(d)
	s.points[1] = d
	return c.ZzEq(k.points[0], a) && c.ZzEq(k.points[1], b)
}
