package zk

import (
	"errors"

	c "github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/ro"
	"github.com/PlatONnetwork/tecdsa/seed"
)

func zzAssume(bool)

var zzBad = errors.New("refused")

func zzOk(b bool) error {
	if b {
		return nil
	}
	return zzBad
}

func zzDlogChallenge(g, h, gx, hx, r1, r2 c.EccPoint, ad []byte) c.EccScalar {
	return ro.ZzHash("ic-crypto-tecdsa-zk-proof-of-dlog-eq", ro.ZzCat(
		ro.ZzBytes("associated_data", ad),
		ro.ZzPoint("commitment1", r1),
		ro.ZzPoint("commitment2", r2),
		ro.ZzPoint("instance_g", g),
		ro.ZzPoint("instance_g_x", gx),
		ro.ZzPoint("instance_h", h),
		ro.ZzPoint("instance_h_x", hx)))
}

//vg:spec ProofOfDLogEquivalence.Verify props=C17,C13,C15
func zzDlogVerify(p *ProofOfDLogEquivalence, g, h, gx, hx c.EccPoint, associatedData []byte) error {
	r1 := c.ZzSub(c.ZzMul(g, p.response), c.ZzMul(gx, p.challenge))
	r2 := c.ZzSub(c.ZzMul(h, p.response), c.ZzMul(hx, p.challenge))
	return zzOk(c.ZzSEq(p.challenge, zzDlogChallenge(g, h, gx, hx, r1, r2, associatedData)))
}

//vg:law props=C18
func zzDlogHonest(s *seed.Seed, x c.EccScalar, g, h c.EccPoint, ad []byte) bool {
	p, err := ProofOfDLogEquivalenceIns.Create(s, x, g, h, ad)
	if err != nil {
		return false
	}
	return p.Verify(g, h, c.ZzMul(g, x), c.ZzMul(h, x), ad) == nil
}

func zzOpeningChallenge(a, b, r c.EccPoint, ad []byte) c.EccScalar {
	return ro.ZzHash("ic-crypto-tecdsa-zk-proof-of-equal-openings", ro.ZzCat(
		ro.ZzBytes("associated_data", ad),
		ro.ZzPoint("commitment", r),
		ro.ZzPoint("instance_a", a),
		ro.ZzPoint("instance_b", b),
		ro.ZzPoint("instance_g", c.ZzG()),
		ro.ZzPoint("instance_h", c.ZzH())))
}

//vg:spec ProofOfEqualOpenings.Verify props=C17,C08
func zzOpeningVerify(p *ProofOfEqualOpenings, pedersen c.EccPoint, simple c.EccPoint, associatedData []byte) error {
	r := c.ZzSub(c.ZzMul(c.ZzH(), p.response), c.ZzMul(c.ZzSub(pedersen, simple), p.challenge))
	return zzOk(c.ZzSEq(p.challenge, zzOpeningChallenge(pedersen, simple, r, associatedData)))
}

//vg:law props=C18,C10
func zzOpeningHonest(s *seed.Seed, secret, mask c.EccScalar, ad []byte) bool {
	p, err := ProofOfEqualOpeningsIns.Create(s, secret, mask, ad)
	if err != nil {
		return false
	}
	simple := c.ZzMul(c.ZzG(), secret)
	return p.Verify(c.ZzAdd(simple, c.ZzMul(c.ZzH(), mask)), simple, ad) == nil
}

func zzProductChallenge(l, r, p, c1, c2 c.EccPoint, ad []byte) c.EccScalar {
	return ro.ZzHash("ic-crypto-tecdsa-zk-proof-of-product", ro.ZzCat(
		ro.ZzBytes("associated_data", ad),
		ro.ZzPoint("commitment1", c1),
		ro.ZzPoint("commitment2", c2),
		ro.ZzPoint("instance_g", c.ZzG()),
		ro.ZzPoint("instance_h", c.ZzH()),
		ro.ZzPoint("instance_lhs", l),
		ro.ZzPoint("instance_product", p),
		ro.ZzPoint("instance_rhs", r)))
}

//vg:spec ProofOfProduct.Verify props=C17,C08
func zzProductVerify(p *ProofOfProduct, lhsCom, rhsCom, productCom c.EccPoint, associatedData []byte) error {
	c1 := c.ZzSub(c.ZzMul(c.ZzG(), p.response1), c.ZzMul(lhsCom, p.challenge))
	c2 := c.ZzSub(c.ZzAdd(c.ZzMul(rhsCom, p.response1), c.ZzMul(c.ZzH(), p.response2)), c.ZzMul(productCom, p.challenge))
	return zzOk(c.ZzSEq(p.challenge, zzProductChallenge(lhsCom, rhsCom, productCom, c1, c2, associatedData)))
}

//vg:law props=C18,C10
func zzProductHonest(s *seed.Seed, lhs, rhs, rhsMask, productMask c.EccScalar, ad []byte) bool {
	product := c.ZzSMul(lhs, rhs)
	p, err := ProofOfProductIns.Create(s, lhs, rhs, rhsMask, product, productMask, ad)
	if err != nil {
		return false
	}
	l := c.ZzMul(c.ZzG(), lhs)
	r := c.ZzAdd(c.ZzMul(c.ZzG(), rhs), c.ZzMul(c.ZzH(), rhsMask))
	pr := c.ZzAdd(c.ZzMul(c.ZzG(), product), c.ZzMul(c.ZzH(), productMask))
	return p.Verify(l, r, pr, ad) == nil
}
