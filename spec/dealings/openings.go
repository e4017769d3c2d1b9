package dealings

import (
	"github.com/PlatONnetwork/tecdsa/common"
	c "github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/tidwall/btree"
)

// zzAllMasked: every opening has a mask; zzNoneMasked: none has.
func zzAllMasked(os []poly.CommitmentOpening) bool {
	for _, o := range os {
		if _, ok := o.(poly.PedersenCommitmentOpening); !ok {
			return false
		}
	}
	return true
}

func zzNoneMasked(os []poly.CommitmentOpening) bool {
	for _, o := range os {
		if _, ok := o.(poly.SimpleCommitmentOpening); !ok {
			return false
		}
	}
	return true
}

// zzWeighted sums the openings, with weights unless nil.
func zzWeighted(masked bool, os []poly.CommitmentOpening, l []c.EccScalar) poly.CommitmentOpening {
	v, m := c.ZzInt(0), c.ZzInt(0)
	for i := range os {
		w := c.ZzInt(1)
		if l != nil {
			w = l[i]
		}
		if masked {
			o := os[i].(poly.PedersenCommitmentOpening)
			v = c.ZzSAdd(v, c.ZzSMul(o[0], w))
			m = c.ZzSAdd(m, c.ZzSMul(o[1], w))
		} else {
			o := os[i].(poly.SimpleCommitmentOpening)
			v = c.ZzSAdd(v, c.ZzSMul(o[0], w))
		}
	}
	if masked {
		return poly.PedersenCommitmentOpening{v, m}
	}
	return poly.SimpleCommitmentOpening{v}
}

// zzCombined is the opening of the transcript, or nil.
func zzCombined(idx []common.NodeIndex, os []poly.CommitmentOpening, cm CombinedCommitment, receiver common.NodeIndex) poly.CommitmentOpening {
	var o poly.CommitmentOpening
	switch t := cm.(type) {
	case *SummationCommitment:
		if t.PolynomialCommitment.Type() != poly.Pedersen || !zzAllMasked(os) {
			return nil
		}
		o = zzWeighted(true, os, nil)
	case *InterpolationCommitment:
		masked := t.PolynomialCommitment.Type() == poly.Pedersen
		if masked && !zzAllMasked(os) || !masked && !zzNoneMasked(os) {
			return nil
		}
		l := poly.ZzLagrange0(idx)
		if l == nil {
			return nil
		}
		o = zzWeighted(masked, os, l)
	default:
		panic("unspecified")
	}
	if !poly.ZzOpens(cm, receiver, o) {
		return nil
	}
	return o
}

//vg:spec commitmentOpening.CombineOpenings props=C12,C02,C35 sizes=0,1,2
func zzCombineOpenings(_ commitmentOpening, idx []common.NodeIndex, os []poly.CommitmentOpening, cm CombinedCommitment, receiver common.NodeIndex, curveType c.EccCurveType) (poly.CommitmentOpening, error) {
	zzAssume(curveType == c.K256 && len(idx) == len(os) && cm.Len() > 0)
	o := zzCombined(idx, os, cm, receiver)
	if o == nil {
		return nil, zzBad
	}
	return o, nil
}

//vg:spec commitmentOpening.FromDealings props=C12,C09,C02,C35 sizes=0,1,2
func zzFromDealings(_ commitmentOpening, ds *btree.Map[common.NodeIndex, *IDkgDealingInternal], cm CombinedCommitment, ad []byte, receiver common.NodeIndex, sk *mega.MEGaPrivateKey, pk *mega.MEGaPublicKey) (poly.CommitmentOpening, error) {
	zzAssume(cm.Len() > 0)
	os := make([]poly.CommitmentOpening, ds.Len())
	for i, d := range ds.Values() {
		zzAssume(d.Commitment.Len() > 0)
		o, err := d.Ciphertext.DecryptAndCheck(d.Commitment, ad, ds.Keys()[i], receiver, sk, pk)
		if err != nil {
			return nil, zzBad
		}
		os[i] = o
	}
	o := zzCombined(ds.Keys(), os, cm, receiver)
	if o == nil {
		return nil, zzBad
	}
	return o, nil
}

// zzReconstructed is the share interpolated from the openings, or nil.
func zzReconstructed(d *IDkgDealingInternal, os *btree.Map[common.NodeIndex, poly.CommitmentOpening], index common.NodeIndex) poly.CommitmentOpening {
	if os.Len() < d.Commitment.Len() {
		return nil
	}
	masked := d.Commitment.Type() == poly.Pedersen
	if masked && !zzAllMasked(os.Values()) || !masked && !zzNoneMasked(os.Values()) {
		return nil
	}
	l := poly.ZzLagrange(c.ZzX(index), os.Keys())
	if l == nil {
		return nil
	}
	o := zzWeighted(masked, os.Values(), l)
	if !poly.ZzOpens(d.Commitment, index, o) {
		return nil
	}
	return o
}

//vg:spec ReconstructShareFromOpenings props=C12,C35 sizes=0,1,2
func zzReconstruct(d *IDkgDealingInternal, os *btree.Map[common.NodeIndex, poly.CommitmentOpening], index common.NodeIndex) (poly.CommitmentOpening, error) {
	zzAssume(d.Commitment.Len() > 0)
	o := zzReconstructed(d, os, index)
	if o == nil {
		return nil, zzBad
	}
	return o, nil
}

//vg:spec commitmentOpening.FromDealingsAndOpenings props=C12,C09,C35 sizes=0,1 inst=a1:1,a2:1,a2[]:0,rest:1
func zzFromOpenings(_ commitmentOpening, ds *btree.Map[common.NodeIndex, *IDkgDealingInternal], provided *btree.Map[common.NodeIndex, *btree.Map[common.NodeIndex, poly.CommitmentOpening]], cm CombinedCommitment, ad []byte, receiver common.NodeIndex, sk *mega.MEGaPrivateKey, pk *mega.MEGaPublicKey) (poly.CommitmentOpening, error) {
	zzAssume(cm.Len() > 0)
	all := make([]poly.CommitmentOpening, ds.Len())
	for i, d := range ds.Values() {
		zzAssume(d.Commitment.Len() > 0)
		if os, ok := provided.Get(ds.Keys()[i]); ok {
			o := zzReconstructed(d, os, receiver)
			if o == nil {
				return nil, zzBad
			}
			all[i] = o
			continue
		}
		o, err := d.Ciphertext.DecryptAndCheck(d.Commitment, ad, ds.Keys()[i], receiver, sk, pk)
		if err != nil {
			return nil, zzBad
		}
		all[i] = o
	}
	o := zzCombined(ds.Keys(), all, cm, receiver)
	if o == nil {
		return nil, zzBad
	}
	return o, nil
}

//vg:spec MaskedResharingProof.Clone props=C32
func zzCloneMasked(m MaskedResharingProof) ZkProof {
	return &MaskedResharingProof{m.ProofOfEqualOpenings.Clone()}
}

//vg:spec ProductProof.Clone props=C32
func zzCloneProduct(p ProductProof) ZkProof { return &ProductProof{p.ProofOfProduct.Clone()} }

// Several dealings, some with provided openings, for a masked sum.
//
//vg:spec commitmentOpening.FromDealingsAndOpenings props=C12,C09,C35 general=no inst=a1:2,a2:1,rest:1 inst=a1:2,a2:2,rest:2
func zzFromOpeningsMasked(_ commitmentOpening, ds *btree.Map[common.NodeIndex, *IDkgDealingInternal], provided *btree.Map[common.NodeIndex, *btree.Map[common.NodeIndex, poly.CommitmentOpening]], cm CombinedCommitment, ad []byte, receiver common.NodeIndex, sk *mega.MEGaPrivateKey, pk *mega.MEGaPublicKey) (poly.CommitmentOpening, error) {
	s, ok := cm.(*SummationCommitment)
	zzAssume(ok && s.Type() == poly.Pedersen)
	for _, d := range ds.Values() {
		_, ok := d.Ciphertext.(*mega.MEGaCiphertextPair)
		zzAssume(ok && d.Commitment.Type() == poly.Pedersen)
	}
	return zzFromOpenings(CommitmentOpening, ds, provided, cm, ad, receiver, sk, pk)
}
