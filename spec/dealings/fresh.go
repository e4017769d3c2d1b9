package dealings

import (
	"github.com/PlatONnetwork/tecdsa/common"
	c "github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"
)

// zzFresh: the coefficients of the points are independent draws.
func zzFresh(...c.EccPoint) bool

func zzSecretsOf(d *IDkgDealingInternal) []c.EccPoint {
	e := d.Ciphertext.Ephemeral()
	return []c.EccPoint{e, zk.ZzDlogNonce(d.Ciphertext.Proof(), c.ZzG(), e)}
}

//vg:law props=C41,C19 general=no skew=no sizes=1,2
func zzFreshRandom(s *seed.Seed, recipients []*mega.MEGaPublicKey, dealer common.NodeIndex, ad []byte) bool {
	d, err := NewIDkgDealingInternal(&RandomSecret{}, c.K256, s, len(recipients), recipients, dealer, ad)
	if err != nil {
		panic("unspecified")
	}
	return zzFresh(append(zzSecretsOf(d), d.Commitment.Points()...)...)
}

//vg:law props=C41,C19 general=no skew=no sizes=1,2
func zzFreshReshare(x *ReshareOfUnmaskedSecret, s *seed.Seed, recipients []*mega.MEGaPublicKey, dealer common.NodeIndex, ad []byte) bool {
	d, err := NewIDkgDealingInternal(x, c.K256, s, len(recipients), recipients, dealer, ad)
	if err != nil {
		panic("unspecified")
	}
	return zzFresh(append(zzSecretsOf(d), d.Commitment.Points()[1:]...)...)
}

//vg:law props=C41,C19 general=no skew=no sizes=1,2
func zzFreshMasked(x *ReshareOfMaskedSecret, s *seed.Seed, recipients []*mega.MEGaPublicKey, dealer common.NodeIndex, ad []byte) bool {
	d, err := NewIDkgDealingInternal(x, c.K256, s, len(recipients), recipients, dealer, ad)
	if err != nil {
		panic("unspecified")
	}
	p, ok := d.Proof.(*MaskedResharingProof)
	if !ok {
		panic("unspecified")
	}
	ps := append(zzSecretsOf(d), zk.ZzOpeningNonce(p.ProofOfEqualOpenings, x.S2))
	return zzFresh(append(ps, d.Commitment.Points()[1:]...)...)
}

//vg:law props=C41,C19 general=no skew=no sizes=1,2
func zzFreshProduct(x *UnmaskedTimesMaskedSecret, s *seed.Seed, recipients []*mega.MEGaPublicKey, dealer common.NodeIndex, ad []byte) bool {
	d, err := NewIDkgDealingInternal(x, c.K256, s, len(recipients), recipients, dealer, ad)
	if err != nil {
		panic("unspecified")
	}
	p, ok := d.Proof.(*ProductProof)
	if !ok {
		panic("unspecified")
	}
	mask := c.ZzSub(d.Commitment.Points()[0], c.ZzMul(c.ZzG(), c.ZzSMul(x.Left, x.Right[0])))
	n1, n2 := zk.ZzProductNoncePoints(p.ProofOfProduct, x.Left, x.Right[1], mask)
	ps := append(zzSecretsOf(d), n1, n2, mask)
	return zzFresh(append(ps, d.Commitment.Points()[1:]...)...)
}
