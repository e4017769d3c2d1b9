package poly

import (
	c "github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/seed"
)

// zzFresh: the coefficients of the points are independent draws.
func zzFresh(...c.EccPoint) bool

func zzTimesG(ss []c.EccScalar) []c.EccPoint {
	out := make([]c.EccPoint, len(ss))
	for i := range ss {
		out[i] = c.ZzMul(c.ZzG(), ss[i])
	}
	return out
}

//vg:law props=C41
func zzFreshPolynomials(s *seed.Seed) bool {
	rng := s.Rng()
	p := Poly.Random(c.K256, 3, rng)
	q := Poly.Random(c.K256, 2, rng)
	return zzFresh(zzTimesG(append(append([]c.EccScalar{}, p.coefficients...), q.coefficients...))...)
}

//vg:law props=C41
func zzFreshConstant(s *seed.Seed, x c.EccScalar) bool {
	rng := s.Rng()
	p, err := Poly.RandomWithConstant(x, 3, rng)
	if err != nil {
		return false
	}
	q, err := Poly.RandomWithConstant(x, 3, rng)
	if err != nil {
		return false
	}
	return zzFresh(zzTimesG(append(append([]c.EccScalar{}, p.coefficients[1:]...), q.coefficients[1:]...))...)
}
