package dealings

import (
	c "github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/zk"
)

//vg:law props=C32
func zzMaskedProofApart(p *MaskedResharingProof, s c.EccScalar) bool {
	was := zk.ZzCopyOpenings(p.ProofOfEqualOpenings)
	k := p.Clone().(*MaskedResharingProof)
	zk.ZzSpoilOpenings(k.ProofOfEqualOpenings, s)
	if !zk.ZzSameOpenings(p.ProofOfEqualOpenings, was) {
		return false
	}
	k = p.Clone().(*MaskedResharingProof)
	zk.ZzSpoilOpenings(p.ProofOfEqualOpenings, s)
	return zk.ZzSameOpenings(k.ProofOfEqualOpenings, was)
}

//vg:law props=C32
func zzProductProofApart(p *ProductProof, s c.EccScalar) bool {
	was := zk.ZzCopyProduct(p.ProofOfProduct)
	k := p.Clone().(*ProductProof)
	zk.ZzSpoilProduct(k.ProofOfProduct, s)
	if !zk.ZzSameProduct(p.ProofOfProduct, was) {
		return false
	}
	k = p.Clone().(*ProductProof)
	zk.ZzSpoilProduct(p.ProofOfProduct, s)
	return zk.ZzSameProduct(k.ProofOfProduct, was)
}

//vg:spec MaskedResharingProof.Type props=C11,C08
func zzMaskedType(m MaskedResharingProof) ZkProofType { return ProofOfMaskedResharing }

//vg:spec ProductProof.Type props=C11,C08
func zzProductType(p ProductProof) ZkProofType { return ProofOfProduct }
