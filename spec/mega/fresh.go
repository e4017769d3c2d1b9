package mega

import (
	"github.com/PlatONnetwork/tecdsa/common"
	c "github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"
)

// zzFresh: the coefficients of the points are independent draws.
func zzFresh(...c.EccPoint) bool

// The ephemeral secret and the nonce of its proof are different fresh draws.
//
//vg:law props=C41,C19
func zzFreshEphemeral(pair bool, s *seed.Seed, ad []byte, dealer common.NodeIndex) bool {
	var ct MEGaCiphertextType = CiphertextSingle
	if pair {
		ct = CiphertextPairs
	}
	_, v, _, proof, err := ComputeEphKeyAndPop(ct, c.K256, s, ad, dealer)
	if err != nil {
		panic("unspecified")
	}
	return zzFresh(v, zk.ZzDlogNonce(proof, c.ZzG(), v))
}

// Keys generated one after the other are independent draws.
//
//vg:law props=C41,C38
func zzFreshKeys(s *seed.Seed) bool {
	rng := s.Rng()
	k1 := PrivateKey.GeneratePrivateKey(c.K256, rng)
	k2 := PrivateKey.GeneratePrivateKey(c.K256, rng)
	return zzFresh(k1.PublicKey().PublicPoint(), k2.PublicKey().PublicPoint())
}
