package dealings

import (
	"bytes"
	"errors"

	"github.com/PlatONnetwork/tecdsa/common"
	c "github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"
	"github.com/tidwall/btree"
)

func zzAssume(bool)

var zzBad = errors.New("refused")

// zzSingle encrypts the polynomial's values at 1, 2, ... to the recipients and
// commits to it.
func zzSingle(p *poly.Polynomial, num int, recipients []*mega.MEGaPublicKey, dealer common.NodeIndex, ad []byte, s *seed.Seed) (mega.MEGaCiphertext, poly.PolynomialCommitment, error) {
	cm, err := poly.SimpleCM.Create(p, num)
	if err != nil || len(recipients) == 0 {
		return nil, nil, zzBad
	}
	pts := make([]c.EccScalar, len(recipients))
	for i := range pts {
		pts[i] = p.EvaluateAt(c.ZzX(common.NodeIndex(i)))
	}
	ct, err := mega.EncryptCiphertextSingle(s, pts, recipients, dealer, ad)
	if err != nil {
		return nil, nil, zzBad
	}
	return ct, cm, nil
}

func zzPair(v, m *poly.Polynomial, num int, recipients []*mega.MEGaPublicKey, dealer common.NodeIndex, ad []byte, s *seed.Seed) (mega.MEGaCiphertext, poly.PolynomialCommitment, error) {
	cm, err := poly.PedersenCM.Create(v, m, num)
	if err != nil || len(recipients) == 0 {
		return nil, nil, zzBad
	}
	pts := make([][2]c.EccScalar, len(recipients))
	for i := range pts {
		pts[i] = [2]c.EccScalar{v.EvaluateAt(c.ZzX(common.NodeIndex(i))), m.EvaluateAt(c.ZzX(common.NodeIndex(i)))}
	}
	ct, err := mega.EncryptCiphertextPair(s, pts, recipients, dealer, ad)
	if err != nil {
		return nil, nil, zzBad
	}
	return ct, cm, nil
}

//vg:spec EncryptAndCommitSinglePolynomial props=C10,C16 sizes=1,2,3
func zzEncSingle(p *poly.Polynomial, num int, recipients []*mega.MEGaPublicKey, dealer common.NodeIndex, ad []byte, s *seed.Seed) (mega.MEGaCiphertext, poly.PolynomialCommitment, error) {
	zzAssume(num >= 0 && p.CurveType() == c.K256)
	return zzSingle(p, num, recipients, dealer, ad, s)
}

//vg:spec EncryptAndCommitPairPolynomial props=C10,C16 sizes=1,2,3
func zzEncPair(v, m *poly.Polynomial, num int, recipients []*mega.MEGaPublicKey, dealer common.NodeIndex, ad []byte, s *seed.Seed) (mega.MEGaCiphertext, poly.PolynomialCommitment, error) {
	zzAssume(num >= 0 && v.CurveType() == c.K256 && m.CurveType() == c.K256)
	return zzPair(v, m, num, recipients, dealer, ad, s)
}

//vg:spec NewIDkgDealingInternal props=C10,C22,C35 sizes=0,1,2,3
func zzNewDealing(shares SecretShares, curveType c.EccCurveType, s *seed.Seed, threshold int, recipients []*mega.MEGaPublicKey, dealer common.NodeIndex, ad []byte) (*IDkgDealingInternal, error) {
	zzAssume(curveType == c.K256)
	if threshold <= 0 || threshold > len(recipients) {
		return nil, zzBad
	}
	rng := s.Derive("ic-crypto-tecdsa-create-dealing-polynomials").Rng()
	ms := s.Derive("ic-crypto-tecdsa-create-dealing-mega-encrypt")
	d := &IDkgDealingInternal{}
	var err error
	switch x := shares.(type) {
	case *RandomSecret:
		v := poly.Poly.Random(c.K256, threshold, rng)
		m := poly.Poly.Random(c.K256, threshold, rng)
		d.Ciphertext, d.Commitment, err = zzPair(v, m, threshold, recipients, dealer, ad, ms)
	case *ReshareOfUnmaskedSecret:
		v, e := poly.Poly.RandomWithConstant(x.S1, threshold, rng)
		if e != nil {
			panic("unspecified")
		}
		d.Ciphertext, d.Commitment, err = zzSingle(v, threshold, recipients, dealer, ad, ms)
	case *ReshareOfMaskedSecret:
		v, e := poly.Poly.RandomWithConstant(x.S1, threshold, rng)
		if e != nil {
			panic("unspecified")
		}
		d.Ciphertext, d.Commitment, err = zzSingle(v, threshold, recipients, dealer, ad, ms)
		p, e := zk.ProofOfEqualOpeningsIns.Create(s.Derive(zk.ProofOfEqualOpeningsDst), x.S1, x.S2, ad)
		if e != nil {
			panic("unspecified")
		}
		d.Proof = &MaskedResharingProof{p}
	case *UnmaskedTimesMaskedSecret:
		prod := c.ZzSMul(x.Left, x.Right[0])
		mask := c.Scalar.Random(c.K256, rng)
		v, e1 := poly.Poly.RandomWithConstant(prod, threshold, rng)
		m, e2 := poly.Poly.RandomWithConstant(mask, threshold, rng)
		if e1 != nil || e2 != nil {
			panic("unspecified")
		}
		d.Ciphertext, d.Commitment, err = zzPair(v, m, threshold, recipients, dealer, ad, ms)
		p, e := zk.ProofOfProductIns.Create(s.Derive(zk.ProofOfProductDst), x.Left, x.Right[0], x.Right[1], prod, mask, ad)
		if e != nil {
			panic("unspecified")
		}
		d.Proof = &ProductProof{p}
	default:
		return nil, zzBad
	}
	if err != nil {
		return nil, zzBad
	}
	return d, nil
}

func zzFirst(p poly.PolynomialCommitment) c.EccPoint { return p.Points()[0] }

func zzAt(p poly.PolynomialCommitment, i common.NodeIndex) c.EccPoint {
	return poly.ZzEvalPoints(p.Points(), i)
}

// zzPublic: the dealing is well formed.
func zzPublic(d IDkgDealingInternal, op IDkgTranscriptOperationInternal, threshold int, dealer common.NodeIndex, receivers int, ad []byte) bool {
	if len(d.Commitment.Points()) != threshold {
		return false
	}
	pedersen := d.Commitment.Type() == poly.Pedersen
	pair := false
	switch ct := d.Ciphertext.(type) {
	case *mega.MEGaCiphertextSingle:
		if len(ct.CTexts) != receivers || !mega.ZzPop(false, ad, dealer, ct.EphemeralKey, ct.PopPublicKey, ct.PopProof) {
			return false
		}
	case *mega.MEGaCiphertextPair:
		pair = true
		if len(ct.CTexts) != receivers || !mega.ZzPop(true, ad, dealer, ct.EphemeralKey, ct.PopPublicKey, ct.PopProof) {
			return false
		}
	default:
		panic("unspecified")
	}
	switch t := op.(type) {
	case *RandomTranscript:
		return pedersen && pair && d.Proof == nil
	case *ReshareOfUnmaskedTranscript:
		return !pedersen && !pair && d.Proof == nil && t.P1.Type() == poly.Simple && c.ZzEq(zzAt(t.P1, dealer), zzFirst(d.Commitment))
	case *ReshareOfMaskedTranscript:
		p, ok := d.Proof.(*MaskedResharingProof)
		return ok && !pedersen && !pair && p.ProofOfEqualOpenings.Verify(zzAt(t.P1, dealer), zzFirst(d.Commitment), ad) == nil
	case *UnmaskedTimesMaskedTranscript:
		p, ok := d.Proof.(*ProductProof)
		return ok && pedersen && pair && t.Left.Type() == poly.Simple && t.Right.Type() == poly.Pedersen &&
			p.ProofOfProduct.Verify(zzAt(t.Left, dealer), zzAt(t.Right, dealer), zzFirst(d.Commitment), ad) == nil
	}
	return false
}

func zzNonEmpty(op IDkgTranscriptOperationInternal) bool {
	switch t := op.(type) {
	case *ReshareOfUnmaskedTranscript:
		return t.P1.Len() > 0
	case *ReshareOfMaskedTranscript:
		return t.P1.Len() > 0
	case *UnmaskedTimesMaskedTranscript:
		return t.Left.Len() > 0 && t.Right.Len() > 0
	}
	return true
}

//vg:spec IDkgDealingInternal.PubliclyVerify props=C08,C35
func zzPubliclyVerify(d IDkgDealingInternal, curveType c.EccCurveType, op IDkgTranscriptOperationInternal, threshold int, dealer common.NodeIndex, receivers int, ad []byte) error {
	zzAssume(d.Commitment.Len() > 0 && zzNonEmpty(op))
	if t, ok := op.(*ReshareOfMaskedTranscript); ok && t.P1.Type() != poly.Pedersen {
		panic("unspecified")
	}
	if curveType != c.K256 || !zzPublic(d, op, threshold, dealer, receivers, ad) {
		return zzBad
	}
	return nil
}

//vg:spec IDkgDealingInternal.PrivateVerify props=C09,C15
func zzPrivatelyVerify(d IDkgDealingInternal, curveType c.EccCurveType, sk *mega.MEGaPrivateKey, pk *mega.MEGaPublicKey, ad []byte, dealer common.NodeIndex, recipient common.NodeIndex) error {
	zzAssume(d.Commitment.Len() > 0)
	if curveType != c.K256 {
		return zzBad
	}
	if _, err := d.Ciphertext.DecryptAndCheck(d.Commitment, ad, dealer, recipient, sk, pk); err != nil {
		return zzBad
	}
	return nil
}

//vg:spec commitmentOpening.OpenDealing props=C09,C15,C35
func zzOpen(_ commitmentOpening, d *IDkgDealingInternal, ad []byte, dealer common.NodeIndex, opener common.NodeIndex, sk *mega.MEGaPrivateKey, pk *mega.MEGaPublicKey) (poly.CommitmentOpening, error) {
	zzAssume(d.Commitment.Len() > 0)
	o, err := d.Ciphertext.DecryptAndCheck(d.Commitment, ad, dealer, opener, sk, pk)
	if err != nil {
		return nil, zzBad
	}
	return o, nil
}

//vg:spec secretShares.From props=C38,C35
func zzFrom(_ secretShares, a poly.CommitmentOpeningBytes, b poly.CommitmentOpeningBytes) (SecretShares, error) {
	switch x := a.(type) {
	case *poly.SimpleCommitmentOpeningBytes:
		if b == nil {
			return &ReshareOfUnmaskedSecret{x[0].ToScalar()}, nil
		}
		if y, ok := b.(*poly.PedersenCommitmentOpeningBytes); ok {
			return &UnmaskedTimesMaskedSecret{x[0].ToScalar(), [2]c.EccScalar{y[0].ToScalar(), y[1].ToScalar()}}, nil
		}
	case *poly.PedersenCommitmentOpeningBytes:
		if b == nil {
			return &ReshareOfMaskedSecret{x[0].ToScalar(), x[1].ToScalar()}, nil
		}
	}
	return nil, zzBad
}

//vg:spec IDkgTranscriptInternal.ConstantTerm props=C11,C01
func zzConstant(t IDkgTranscriptInternal) c.EccPoint {
	zzAssume(t.CombinedCommitment.Len() > 0)
	return t.CombinedCommitment.Points()[0]
}

//vg:spec IDkgTranscriptInternal.EvaluateAt props=C01,C11
func zzEvaluate(t IDkgTranscriptInternal, i common.NodeIndex) c.EccPoint {
	zzAssume(t.CombinedCommitment.Len() > 0)
	return poly.ZzEvalPoints(t.CombinedCommitment.Points(), i)
}

//vg:spec IDkgTranscriptInternal.Compare props=C37
func zzCompare(t IDkgTranscriptInternal, o IDkgTranscriptInternal) int {
	zzAssume(t.CombinedCommitment.Len() > 0 && o.CombinedCommitment.Len() > 0)
	return bytes.Compare(t.CombinedCommitment.StableRepresentation(), o.CombinedCommitment.StableRepresentation())
}

// Transcripts compare equal exactly if kinds and points agree.
//
//vg:law props=C37 sizes=1,2
func zzCompareZero(t IDkgTranscriptInternal, o IDkgTranscriptInternal) bool {
	zzAssume(t.CombinedCommitment.Len() > 0 && o.CombinedCommitment.Len() > 0)
	same := poly.ZzSame(t.CombinedCommitment, o.CombinedCommitment)
	return (t.Compare(o) == 0) == same
}

// zzInterpolated are the points interpolated at zero over the dealers.
func zzInterpolated(threshold int, ds *btree.Map[common.NodeIndex, *IDkgDealingInternal]) []c.EccPoint {
	l := poly.ZzLagrange0(ds.Keys())
	if l == nil {
		return nil
	}
	out := make([]c.EccPoint, threshold)
	for i := range out {
		sum := c.Point.Identity(c.K256)
		for j, d := range ds.Values() {
			sum = c.ZzAdd(sum, c.ZzMul(d.Commitment.Points()[i], l[j]))
		}
		out[i] = sum
	}
	return out
}

func zzShape(threshold int, ds *btree.Map[common.NodeIndex, *IDkgDealingInternal]) bool {
	for _, d := range ds.Values() {
		if len(d.Commitment.Points()) != threshold {
			return false
		}
	}
	return true
}

//vg:spec CombineCommitmentsViaInterpolation props=C11,C35 sizes=0,1,2,3
func zzCombine(kind poly.PolynomialCommitmentType, curveType c.EccCurveType, threshold int, ds *btree.Map[common.NodeIndex, *IDkgDealingInternal]) (CombinedCommitment, error) {
	zzAssume(curveType == c.K256 && threshold >= 0 && zzShape(threshold, ds))
	pts := zzInterpolated(threshold, ds)
	if pts == nil {
		return nil, zzBad
	}
	switch kind {
	case poly.Simple:
		return &InterpolationCommitment{poly.SimpleCM.New(pts)}, nil
	case poly.Pedersen:
		return &InterpolationCommitment{poly.PedersenCM.New(pts)}, nil
	}
	return nil, zzBad
}

//vg:spec NewTranscriptInternal props=C11,C35 sizes=0,1,2,3
func zzTranscript(curveType c.EccCurveType, threshold int, ds *btree.Map[common.NodeIndex, *IDkgDealingInternal], op IDkgTranscriptOperationInternal) (*IDkgTranscriptInternal, error) {
	zzAssume(curveType == c.K256 && threshold > 0 && zzNonEmpty(op))
	if !zzShape(threshold, ds) {
		return nil, zzBad
	}
	n := ds.Len()
	switch t := op.(type) {
	case *RandomTranscript:
		pts := make([]c.EccPoint, threshold)
		for i := range pts {
			sum := c.Point.Identity(c.K256)
			for _, d := range ds.Values() {
				sum = c.ZzAdd(sum, d.Commitment.Points()[i])
			}
			pts[i] = sum
		}
		for _, d := range ds.Values() {
			if d.Commitment.Type() != poly.Pedersen {
				return nil, zzBad
			}
		}
		return &IDkgTranscriptInternal{&SummationCommitment{poly.PedersenCM.New(pts)}}, nil
	case *ReshareOfMaskedTranscript:
		pts := zzInterpolated(threshold, ds)
		if t.P1.Type() != poly.Pedersen || n < t.P1.Len() || pts == nil {
			return nil, zzBad
		}
		return &IDkgTranscriptInternal{&InterpolationCommitment{poly.SimpleCM.New(pts)}}, nil
	case *ReshareOfUnmaskedTranscript:
		pts := zzInterpolated(threshold, ds)
		if t.P1.Type() != poly.Simple || n < t.P1.Len() || pts == nil || !c.ZzEq(pts[0], zzFirst(t.P1)) {
			return nil, zzBad
		}
		return &IDkgTranscriptInternal{&InterpolationCommitment{poly.SimpleCM.New(pts)}}, nil
	case *UnmaskedTimesMaskedTranscript:
		pts := zzInterpolated(threshold, ds)
		if t.Left.Type() != poly.Simple || t.Right.Type() != poly.Pedersen || n < t.Left.Len()+t.Right.Len()-1 || pts == nil {
			return nil, zzBad
		}
		return &IDkgTranscriptInternal{&InterpolationCommitment{poly.PedersenCM.New(pts)}}, nil
	}
	return nil, zzBad
}
