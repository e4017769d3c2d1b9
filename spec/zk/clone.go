package zk

import c "github.com/PlatONnetwork/tecdsa/curve"

// Clones are equal to the original and share nothing with it. The Spoil
// functions overwrite everything a proof holds.

func ZzSameDLog(a, b *ProofOfDLogEquivalence) bool {
	return c.ZzSEq(a.challenge, b.challenge) && c.ZzSEq(a.response, b.response)
}

func ZzSpoilDLog(a *ProofOfDLogEquivalence, s c.EccScalar) {
	a.challenge.Negate(s)
	a.response.Negate(s)
	a.challenge, a.response = s, s
}

func ZzSameOpenings(a, b *ProofOfEqualOpenings) bool {
	return c.ZzSEq(a.challenge, b.challenge) && c.ZzSEq(a.response, b.response)
}

func ZzSpoilOpenings(a *ProofOfEqualOpenings, s c.EccScalar) {
	a.challenge.Negate(s)
	a.response.Negate(s)
	a.challenge, a.response = s, s
}

func ZzSameProduct(a, b *ProofOfProduct) bool {
	return c.ZzSEq(a.challenge, b.challenge) && c.ZzSEq(a.response1, b.response1) && c.ZzSEq(a.response2, b.response2)
}

func ZzSpoilProduct(a *ProofOfProduct, s c.EccScalar) {
	a.challenge.Negate(s)
	a.response1.Negate(s)
	a.response2.Negate(s)
	a.challenge, a.response1, a.response2 = s, s, s
}

func ZzCopyDLog(a *ProofOfDLogEquivalence) *ProofOfDLogEquivalence {
	return &ProofOfDLogEquivalence{a.challenge.Clone(), a.response.Clone()}
}

func ZzCopyOpenings(a *ProofOfEqualOpenings) *ProofOfEqualOpenings {
	return &ProofOfEqualOpenings{a.challenge.Clone(), a.response.Clone()}
}

func ZzCopyProduct(a *ProofOfProduct) *ProofOfProduct {
	return &ProofOfProduct{a.challenge.Clone(), a.response1.Clone(), a.response2.Clone()}
}

//vg:law props=C32
func zzCloneDLog(p *ProofOfDLogEquivalence, s c.EccScalar) bool {
	was := ZzCopyDLog(p)
	k := p.Clone()
	if !ZzSameDLog(k, was) {
		return false
	}
	ZzSpoilDLog(k, s)
	if !ZzSameDLog(p, was) {
		return false
	}
	k = p.Clone()
	ZzSpoilDLog(p, s)
	return ZzSameDLog(k, was)
}

//vg:law props=C32
func zzCloneOpenings(p *ProofOfEqualOpenings, s c.EccScalar) bool {
	was := ZzCopyOpenings(p)
	k := p.Clone()
	if !ZzSameOpenings(k, was) {
		return false
	}
	ZzSpoilOpenings(k, s)
	if !ZzSameOpenings(p, was) {
		return false
	}
	k = p.Clone()
	ZzSpoilOpenings(p, s)
	return ZzSameOpenings(k, was)
}

//vg:law props=C32
func zzCloneProduct(p *ProofOfProduct, s c.EccScalar) bool {
	was := ZzCopyProduct(p)
	k := p.Clone()
	if !ZzSameProduct(k, was) {
		return false
	}
	ZzSpoilProduct(k, s)
	if !ZzSameProduct(p, was) {
		return false
	}
	k = p.Clone()
	ZzSpoilProduct(p, s)
	return ZzSameProduct(k, was)
}
