package dealings

import (
	"github.com/PlatONnetwork/tecdsa/common"
	c "github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
)

// zzAccepted: the dealing created for the secret is accepted by public and
// private verification for every recipient.
func zzAccepted(secret SecretShares, op IDkgTranscriptOperationInternal, s *seed.Seed, threshold int, keys []*mega.MEGaPrivateKey, dealer common.NodeIndex, ad []byte) bool {
	zzAssume(threshold <= len(keys))
	pks := make([]*mega.MEGaPublicKey, len(keys))
	for i := range keys {
		pks[i] = keys[i].PublicKey()
	}
	d, err := NewIDkgDealingInternal(secret, c.K256, s, threshold, pks, dealer, ad)
	if err != nil {
		return false
	}
	if d.PubliclyVerify(c.K256, op, threshold, dealer, len(keys), ad) != nil {
		return false
	}
	for i := range keys {
		if d.PrivateVerify(c.K256, keys[i], pks[i], ad, dealer, common.NodeIndex(i)) != nil {
			return false
		}
	}
	return true
}

//vg:law props=C10,C08,C09 general=no sizes=1,2,3
func zzRandom1(s *seed.Seed, keys []*mega.MEGaPrivateKey, dealer common.NodeIndex, ad []byte) bool {
	return zzAccepted(&RandomSecret{}, &RandomTranscript{}, s, 1, keys, dealer, ad)
}

//vg:law props=C10,C08,C09 general=no sizes=2,3
func zzRandom2(s *seed.Seed, keys []*mega.MEGaPrivateKey, dealer common.NodeIndex, ad []byte) bool {
	return zzAccepted(&RandomSecret{}, &RandomTranscript{}, s, 2, keys, dealer, ad)
}

//vg:law props=C10 general=no sizes=3
func zzRandom3(s *seed.Seed, keys []*mega.MEGaPrivateKey, dealer common.NodeIndex, ad []byte) bool {
	return zzAccepted(&RandomSecret{}, &RandomTranscript{}, s, 3, keys, dealer, ad)
}

// zzOpened are two polynomials of that many coefficients and the openings at
// the dealer.
func zzOpened(v, m *poly.Polynomial, n int, dealer common.NodeIndex) (simple, masked poly.PolynomialCommitment, a, b c.EccScalar) {
	zzAssume(v.CurveType() == c.K256 && m.CurveType() == c.K256)
	s, e1 := poly.SimpleCM.Create(v, n)
	p, e2 := poly.PedersenCM.Create(v, m, n)
	zzAssume(e1 == nil && e2 == nil)
	return s, p, v.EvaluateAt(c.ZzX(dealer)), m.EvaluateAt(c.ZzX(dealer))
}

//vg:law props=C10,C08,C09 general=no sizes=1,2
func zzReshareOpen(v, m *poly.Polynomial, s *seed.Seed, keys []*mega.MEGaPrivateKey, dealer common.NodeIndex, ad []byte) bool {
	cm, _, a, _ := zzOpened(v, m, 2, dealer)
	return zzAccepted(&ReshareOfUnmaskedSecret{a}, &ReshareOfUnmaskedTranscript{cm}, s, 1, keys, dealer, ad)
}

//vg:law props=C10,C08,C09 general=no sizes=2
func zzReshareOpen2(v, m *poly.Polynomial, s *seed.Seed, keys []*mega.MEGaPrivateKey, dealer common.NodeIndex, ad []byte) bool {
	cm, _, a, _ := zzOpened(v, m, 2, dealer)
	return zzAccepted(&ReshareOfUnmaskedSecret{a}, &ReshareOfUnmaskedTranscript{cm}, s, 2, keys, dealer, ad)
}

//vg:law props=C10,C08,C09 general=no sizes=1,2
func zzReshareMasked(v, m *poly.Polynomial, s *seed.Seed, keys []*mega.MEGaPrivateKey, dealer common.NodeIndex, ad []byte) bool {
	_, cm, a, b := zzOpened(v, m, 2, dealer)
	return zzAccepted(&ReshareOfMaskedSecret{a, b}, &ReshareOfMaskedTranscript{cm}, s, 1, keys, dealer, ad)
}

//vg:law props=C10,C08,C09 general=no sizes=2
func zzReshareMasked2(v, m *poly.Polynomial, s *seed.Seed, keys []*mega.MEGaPrivateKey, dealer common.NodeIndex, ad []byte) bool {
	_, cm, a, b := zzOpened(v, m, 2, dealer)
	return zzAccepted(&ReshareOfMaskedSecret{a, b}, &ReshareOfMaskedTranscript{cm}, s, 2, keys, dealer, ad)
}

//vg:law props=C10,C08,C09 general=no sizes=1,2
func zzMultiply(u, v, m *poly.Polynomial, s *seed.Seed, keys []*mega.MEGaPrivateKey, dealer common.NodeIndex, ad []byte) bool {
	l, _, x, _ := zzOpened(u, m, 2, dealer)
	_, r, a, b := zzOpened(v, m, 2, dealer)
	return zzAccepted(&UnmaskedTimesMaskedSecret{x, [2]c.EccScalar{a, b}}, &UnmaskedTimesMaskedTranscript{l, r}, s, 1, keys, dealer, ad)
}

//vg:law props=C10,C08,C09 general=no sizes=2
func zzMultiply2(u, v, m *poly.Polynomial, s *seed.Seed, keys []*mega.MEGaPrivateKey, dealer common.NodeIndex, ad []byte) bool {
	l, _, x, _ := zzOpened(u, m, 2, dealer)
	_, r, a, b := zzOpened(v, m, 2, dealer)
	return zzAccepted(&UnmaskedTimesMaskedSecret{x, [2]c.EccScalar{a, b}}, &UnmaskedTimesMaskedTranscript{l, r}, s, 2, keys, dealer, ad)
}
