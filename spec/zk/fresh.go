package zk

import (
	c "github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/seed"
)

// zzFresh: the coefficients of the points are independent draws.
func zzFresh(...c.EccPoint) bool

// ZzDlogNonce is the nonce of a proof times g.
func ZzDlogNonce(p *ProofOfDLogEquivalence, g, gx c.EccPoint) c.EccPoint {
	return c.ZzSub(c.ZzMul(g, p.response), c.ZzMul(gx, p.challenge))
}

// ZzOpeningNonce is the nonce times H, for the mask of the masked commitment.
func ZzOpeningNonce(p *ProofOfEqualOpenings, mask c.EccScalar) c.EccPoint {
	return c.ZzMul(c.ZzH(), c.ZzSSub(p.response, c.ZzSMul(p.challenge, mask)))
}

//vg:law props=C41
func zzFreshDlog(s *seed.Seed, x c.EccScalar, h c.EccPoint, ad []byte) bool {
	p, err := ProofOfDLogEquivalenceIns.Create(s, x, c.ZzG(), h, ad)
	if err != nil {
		panic("unspecified")
	}
	return zzFresh(ZzDlogNonce(p, c.ZzG(), c.ZzMul(c.ZzG(), x)))
}

//vg:law props=C41
func zzFreshOpening(s *seed.Seed, secret, mask c.EccScalar, ad []byte) bool {
	p, err := ProofOfEqualOpeningsIns.Create(s, secret, mask, ad)
	if err != nil {
		panic("unspecified")
	}
	return zzFresh(ZzOpeningNonce(p, mask))
}

//vg:law props=C41,C19
func zzFreshProduct(s *seed.Seed, lhs, rhs, rhsMask, productMask c.EccScalar, ad []byte) bool {
	p, err := ProofOfProductIns.Create(s, lhs, rhs, rhsMask, c.ZzSMul(lhs, rhs), productMask, ad)
	if err != nil {
		panic("unspecified")
	}
	return zzFresh(ZzProductNoncePoints(p, lhs, rhsMask, c.ZzMul(c.ZzH(), productMask)))
}

// ZzProductNoncePoints are the nonces times G and H, for the mask of the
// product given as a multiple of H.
func ZzProductNoncePoints(p *ProofOfProduct, lhs, rhsMask c.EccScalar, maskH c.EccPoint) (c.EccPoint, c.EccPoint) {
	m := c.ZzSub(maskH, c.ZzMul(c.ZzH(), c.ZzSMul(lhs, rhsMask)))
	return c.ZzMul(c.ZzG(), c.ZzSSub(p.response1, c.ZzSMul(p.challenge, lhs))),
		c.ZzSub(c.ZzMul(c.ZzH(), p.response2), c.ZzMul(m, p.challenge))
}
