package poly

import (
	"errors"

	"github.com/PlatONnetwork/tecdsa/common"
	c "github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/rand"
)

func zzAssume(bool)

var zzBad = errors.New("refused")

// zzCoeff is the i-th coefficient, zero beyond the end.
func zzCoeff(p *Polynomial, i int) c.EccScalar {
	if i < len(p.coefficients) {
		return p.coefficients[i].Clone()
	}
	return c.ZzInt(0)
}

// zzEval is the sum of coefficient i times x^i.
func zzEval(cs []c.EccScalar, x c.EccScalar) c.EccScalar {
	acc := c.ZzInt(0)
	for i := len(cs) - 1; i >= 0; i-- {
		acc = c.ZzSAdd(c.ZzSMul(acc, x), cs[i])
	}
	return acc
}

//vg:spec Polynomial.EvaluateAt props=C24,C10,C26
func zzPolyEval(p *Polynomial, x c.EccScalar) c.EccScalar {
	zzAssume(p.curve == c.K256)
	return zzEval(p.coefficients, x)
}

//vg:spec Polynomial.Coeff props=C24,C26
func zzPolyCoeff(p Polynomial, idx int) c.EccScalar {
	zzAssume(p.curve == c.K256 && idx >= 0)
	return zzCoeff(&p, idx)
}

//vg:spec Polynomial.Add props=C24 sizes=0,1,2,3
func zzPolyAdd(p, lhs, rhs *Polynomial) *Polynomial {
	zzAssume(lhs.curve == c.K256 && rhs.curve == c.K256)
	n := len(lhs.coefficients)
	if len(rhs.coefficients) > n {
		n = len(rhs.coefficients)
	}
	out := make([]c.EccScalar, n)
	for i := range out {
		out[i] = c.ZzSAdd(zzCoeff(lhs, i), zzCoeff(rhs, i))
	}
	p.coefficients = out
	return p
}

//vg:spec Polynomial.MulScalar props=C24 sizes=0,1,2,3
func zzPolyScale(p, lhs *Polynomial, k c.EccScalar) *Polynomial {
	zzAssume(lhs.curve == c.K256)
	out := make([]c.EccScalar, len(lhs.coefficients))
	for i := range out {
		out[i] = c.ZzSMul(lhs.coefficients[i], k)
	}
	p.coefficients = out
	return p
}

// The product has the coefficients of the convolution.
//
//vg:spec Polynomial.Mul props=C24 sizes=0,1,2,3
func zzPolyMul(p, lhs, rhs *Polynomial) *Polynomial {
	zzAssume(lhs.curve == c.K256 && rhs.curve == c.K256)
	n := len(lhs.coefficients) + len(rhs.coefficients) - 1
	if n < 0 {
		n = 0
	}
	out := make([]c.EccScalar, n)
	for k := range out {
		out[k] = c.ZzInt(0)
		for i := 0; i <= k; i++ {
			out[k] = c.ZzSAdd(out[k], c.ZzSMul(zzCoeff(lhs, i), zzCoeff(rhs, k-i)))
		}
	}
	p.coefficients = out
	return p
}

// The product of two polynomials takes the product of their values.
//
//vg:law props=C24 sizes=0,1,2,3
func zzPolyMulValue(p *Polynomial, a, b *Polynomial, x c.EccScalar) bool {
	zzAssume(a.curve == c.K256 && b.curve == c.K256)
	r := Poly.Zero(c.K256).Mul(a, b)
	return c.ZzSEq(r.EvaluateAt(x), c.ZzSMul(zzEval(a.coefficients, x), zzEval(b.coefficients, x)))
}

//vg:law props=C24 sizes=0,1,2,3
func zzPolyAddValue(a, b *Polynomial, x c.EccScalar) bool {
	zzAssume(a.curve == c.K256 && b.curve == c.K256)
	r := Poly.Zero(c.K256).Add(a, b)
	return c.ZzSEq(r.EvaluateAt(x), c.ZzSAdd(zzEval(a.coefficients, x), zzEval(b.coefficients, x)))
}

//vg:spec Polynomial.Equal props=C24 sizes=0,1,2,3
func zzPolyEqual(p, rhs *Polynomial) int {
	zzAssume(p.curve == c.K256)
	if p.curve != rhs.curve {
		return 0
	}
	n := len(p.coefficients)
	if len(rhs.coefficients) > n {
		n = len(rhs.coefficients)
	}
	for i := 0; i < n; i++ {
		if !c.ZzSEq(zzCoeff(p, i), zzCoeff(rhs, i)) {
			return 0
		}
	}
	return 1
}

//vg:spec Polynomial.NonZeroCoefficients props=C24,C26 sizes=0,1,2,3
func zzPolyNonZero(p Polynomial) int {
	n := 0
	for i := range p.coefficients {
		if p.coefficients[i].IsZero() == 0 {
			n = i + 1
		}
	}
	return n
}

//vg:spec Polynomial.IsZero props=C24 sizes=0,1,2,3
func zzPolyIsZero(p Polynomial) int {
	for i := range p.coefficients {
		if p.coefficients[i].IsZero() == 0 {
			return 0
		}
	}
	return 1
}

//vg:spec polynomial.Random props=C24 sizes=0,1,2,3
func zzPolyRandom(_ polynomial, curve c.EccCurveType, num int, rng rand.Rand) *Polynomial {
	zzAssume(curve == c.K256 && num >= 0)
	out := make([]c.EccScalar, num)
	for i := range out {
		out[i] = c.Scalar.Random(curve, rng)
	}
	return &Polynomial{curve, out}
}

//vg:spec polynomial.RandomWithConstant props=C24,C10
func zzPolyRandomConst(_ polynomial, constant c.EccScalar, num int, rng rand.Rand) (*Polynomial, error) {
	zzAssume(num >= 0)
	if num == 0 {
		return nil, zzBad
	}
	out := make([]c.EccScalar, num)
	out[0] = constant
	for i := range out {
		if i > 0 {
			out[i] = c.Scalar.Random(c.K256, rng)
		}
	}
	return &Polynomial{c.K256, out}, nil
}

//vg:law props=C24
func zzPolyRandomSize(k c.EccScalar, num int, rng rand.Rand) bool {
	zzAssume(num > 0)
	p, err := Poly.RandomWithConstant(k, num, rng)
	q := Poly.Random(c.K256, num, rng)
	return err == nil && len(p.coefficients) == num && len(q.coefficients) == num && c.ZzSEq(p.Coeff(0), k)
}

// A polynomial through two samples passes through both.
//
//vg:law props=C24 general=no sizes=0,1,2,3
func zzInterpolateThrough(samples [][2]c.EccScalar) bool {
	for i := range samples {
		for j := range samples {
			zzAssume(i == j || !c.ZzSEq(samples[i][0], samples[j][0]))
		}
	}
	p, err := Poly.Interpolate(c.K256, samples)
	if err != nil || p == nil || len(p.coefficients) > len(samples) {
		return false
	}
	for i := range samples {
		if !c.ZzSEq(p.EvaluateAt(samples[i][0]), samples[i][1]) {
			return false
		}
	}
	return true
}

//vg:law props=C24 general=no sizes=2,3
func zzInterpolateRepeated(samples [][2]c.EccScalar) bool {
	ok := true
	for i := range samples {
		for j := range samples {
			ok = ok && (i == j || !c.ZzSEq(samples[i][0], samples[j][0]))
		}
	}
	zzAssume(!ok)
	p, err := Poly.Interpolate(c.K256, samples)
	return p == nil && err != nil
}

func zzDistinct(xs []common.NodeIndex) bool {
	for i := range xs {
		for j := range xs {
			if i != j && xs[i] == xs[j] {
				return false
			}
		}
	}
	return true
}

// zzLagrange are the coefficients prod_{j != i} (x_j - v)/(x_j - x_i).
func zzLagrange(v c.EccScalar, xs []common.NodeIndex) []c.EccScalar {
	out := make([]c.EccScalar, len(xs))
	for i := range xs {
		num, den := c.ZzInt(1), c.ZzInt(1)
		for j := range xs {
			if j != i {
				num = c.ZzSMul(num, c.ZzSSub(c.ZzX(xs[j]), v))
				den = c.ZzSMul(den, c.ZzSSub(c.ZzX(xs[j]), c.ZzX(xs[i])))
			}
		}
		out[i] = c.ZzSMul(num, den.Clone().Invert(den))
	}
	return out
}

// ZzLagrange0 are the coefficients at zero; nil if there are none.
func ZzLagrange0(xs []common.NodeIndex) []c.EccScalar {
	return ZzLagrange(c.ZzInt(0), xs)
}

// ZzLagrange are the coefficients at v; nil if there are none.
func ZzLagrange(v c.EccScalar, xs []common.NodeIndex) []c.EccScalar {
	l, err := Lagrange.AtValue(v, xs)
	if err != nil {
		return nil
	}
	return l.coefficients
}

//vg:spec lagrangeCoefficients.AtValue props=C25,C11,C12,C03,C01,C02,C37 sizes=0,1,2,3,4
func zzAtValue(l *lagrangeCoefficients, v c.EccScalar, samples []common.NodeIndex) (*LagrangeCoefficients, error) {
	if len(samples) == 0 || !zzDistinct(samples) {
		return nil, zzBad
	}
	return &LagrangeCoefficients{zzLagrange(v, samples)}, nil
}

//vg:spec lagrangeCoefficients.AtZero props=C25,C11,C12,C03 sizes=0,1,2,3
func zzAtZero(l *lagrangeCoefficients, curve c.EccCurveType, samples []common.NodeIndex) (*LagrangeCoefficients, error) {
	zzAssume(curve == c.K256)
	return Lagrange.AtValue(c.ZzInt(0), samples)
}

//vg:spec LagrangeCoefficients.InterpolateScalar props=C25,C11,C12,C03 sizes=1,2,3
func zzInterpolateScalar(l *LagrangeCoefficients, y []c.EccScalar) (c.EccScalar, error) {
	zzAssume(len(l.coefficients) > 0)
	if len(y) != len(l.coefficients) {
		return nil, zzBad
	}
	sum := c.ZzInt(0)
	for i := range y {
		sum = c.ZzSAdd(sum, c.ZzSMul(y[i], l.coefficients[i]))
	}
	return sum, nil
}

//vg:spec LagrangeCoefficients.InterpolatePoint props=C25,C11,C12 sizes=1,2,3
func zzInterpolatePoint(l *LagrangeCoefficients, y []c.EccPoint) (c.EccPoint, error) {
	zzAssume(len(l.coefficients) > 0)
	if len(y) != len(l.coefficients) {
		return nil, zzBad
	}
	sum := c.Point.Identity(c.K256)
	for i := range y {
		sum = c.ZzAdd(sum, c.ZzMul(y[i], l.coefficients[i]))
	}
	return sum, nil
}

//vg:spec lagrangeCoefficients.New props=C25
func zzLagrangeNew(_ lagrangeCoefficients, cs []c.EccScalar) (*LagrangeCoefficients, error) {
	if len(cs) == 0 {
		return nil, zzBad
	}
	return &LagrangeCoefficients{cs}, nil
}

//vg:spec LagrangeCoefficients.Equal props=C25 sizes=0,1,2
func zzLagrangeEqual(l, o *LagrangeCoefficients) int {
	if len(l.coefficients) != len(o.coefficients) {
		return 0
	}
	for i := range l.coefficients {
		if !c.ZzSEq(l.coefficients[i], o.coefficients[i]) {
			return 0
		}
	}
	return 1
}
