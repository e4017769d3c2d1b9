package complaints

import (
	"github.com/PlatONnetwork/tecdsa/common"
	c "github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"
	"github.com/tidwall/btree"
)

// zzFresh: the coefficients of the points are independent draws.
func zzFresh(...c.EccPoint) bool

// The proofs of different complaints use different nonces.
//
//vg:law props=C41,C19 general=no skew=no sizes=1,2
func zzFreshComplaints(ds *btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal], ad []byte, receiver common.NodeIndex, sk *mega.MEGaPrivateKey, s *seed.Seed) bool {
	pk := sk.PublicKey()
	var ps []c.EccPoint
	for _, d := range ds.Values() {
		zzAssume(d.Commitment.Len() > 0)
	}
	out, err := GenerateComplaints(ds, ad, receiver, sk, pk, s)
	zzAssume(err == nil && out.Len() == ds.Len())
	for _, x := range out.Values() {
		ps = append(ps, zk.ZzDlogNonce(x.proof, c.ZzG(), pk.PublicPoint()))
	}
	return zzFresh(ps...)
}
