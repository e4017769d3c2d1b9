package sign

import (
	"errors"

	"github.com/PlatONnetwork/tecdsa/common"
	c "github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/ro"
	"github.com/tidwall/btree"
)

func zzAssume(bool)

var zzBad = errors.New("refused")

// zzSimple: the commitment is an interpolated one without masking.
func zzSimple(cm dealings.CombinedCommitment) (*poly.SimpleCommitment, bool) {
	ic, ok := cm.(*dealings.InterpolationCommitment)
	if !ok {
		return nil, false
	}
	s, ok := ic.PolynomialCommitment.(*poly.SimpleCommitment)
	return s, ok
}

// zzHash is the message hash as an integer modulo the order.
func zzHash(h []byte) c.EccScalar {
	if len(h) > 64 {
		return nil
	}
	e, err := c.Scalar.FromBytesWide(c.K256, h)
	if err != nil {
		panic("unspecified")
	}
	return e
}

func zzR(p c.EccPoint) c.EccScalar {
	r, err := c.Scalar.FromBytesWide(c.K256, p.AffineX().AsBytes())
	if err != nil {
		panic("unspecified")
	}
	return r
}

//vg:spec EcdsaConversion props=C05,C03,C04
func zzConversion(pt c.EccPoint) (c.EccScalar, error) { return zzR(pt), nil }

//vg:spec ConvertHashToInteger props=C01,C04
func zzConvert(h []byte, curveType c.EccCurveType) (c.EccScalar, error) {
	if len(h) > 64 || curveType != c.K256 {
		return nil, zzBad
	}
	return zzHash(h), nil
}

type zzRho struct {
	r, tweak, randomizer c.EccScalar
	presig               c.EccPoint
}

// zzRerandomize derives everything a signature is bound to.
func zzRerandomize(h, randomness []byte, path *key.DerivationPath, kt, pt *dealings.IDkgTranscriptInternal) (zzRho, bool) {
	s, ok := zzSimple(pt.CombinedCommitment)
	if !ok {
		return zzRho{}, false
	}
	pre := s.Points()[0]
	tweak, _, err := path.DeriveTweak(kt.CombinedCommitment.Points()[0])
	if err != nil {
		return zzRho{}, false
	}
	k := ro.ZzHash("ic-crypto-tecdsa-rerandomize-presig", ro.ZzCat(
		ro.ZzBytes("hashed_message", h),
		ro.ZzScalar("key_tweak", tweak),
		ro.ZzPoint("pre_sig", pre),
		ro.ZzBytes("randomness", randomness)))
	q := c.ZzAdd(pre, c.ZzMul(c.ZzG(), k))
	return zzRho{zzR(q), tweak, k, q}, true
}

//vg:spec DeriveRho props=C05,C01,C03,C04,C35 sizes=1,2
func zzDeriveRho(curveType c.EccCurveType, h []byte, randomness []byte, path *key.DerivationPath, kt *dealings.IDkgTranscriptInternal, pt *dealings.IDkgTranscriptInternal) (c.EccScalar, c.EccScalar, c.EccScalar, c.EccPoint, error) {
	zzAssume(curveType == c.K256 && kt.CombinedCommitment.Len() > 0 && pt.CombinedCommitment.Len() > 0)
	x, ok := zzRerandomize(h, randomness, path, kt, pt)
	if !ok {
		return nil, nil, nil, nil, zzBad
	}
	return x.r, x.tweak, x.randomizer, x.presig, nil
}

// DeriveRho refuses presignatures that are not unmasked interpolated ones.
//
//vg:law props=C05
func zzRefuses(curveType c.EccCurveType, h []byte, randomness []byte, path *key.DerivationPath, kt *dealings.IDkgTranscriptInternal, cm *dealings.SummationCommitment, ic *dealings.InterpolationCommitment) bool {
	zzAssume(cm.Len() > 0 && ic.Len() > 0 && ic.Type() == poly.Pedersen)
	_, _, _, _, e1 := DeriveRho(curveType, h, randomness, path, kt, &dealings.IDkgTranscriptInternal{CombinedCommitment: cm})
	_, _, _, _, e2 := DeriveRho(curveType, h, randomness, path, kt, &dealings.IDkgTranscriptInternal{CombinedCommitment: ic})
	return e1 != nil && e2 != nil
}

//vg:spec NewThresholdEcdsaSigShareInternal props=C02,C01,C35
func zzShare(path *key.DerivationPath, h []byte, randomness []byte, kt *dealings.IDkgTranscriptInternal, pt *dealings.IDkgTranscriptInternal, lambda poly.CommitmentOpening, kl poly.CommitmentOpening, xl poly.CommitmentOpening, curveType c.EccCurveType) (*ThresholdEcdsaSigShareInternal, error) {
	zzAssume(curveType == c.K256 && kt.CombinedCommitment.Len() > 0 && pt.CombinedCommitment.Len() > 0)
	x, ok := zzRerandomize(h, randomness, path, kt, pt)
	e := zzHash(h)
	if !ok || e == nil {
		return nil, zzBad
	}
	l, ok1 := lambda.(poly.PedersenCommitmentOpening)
	k, ok2 := kl.(poly.PedersenCommitmentOpening)
	y, ok3 := xl.(poly.PedersenCommitmentOpening)
	if !ok1 || !ok2 || !ok3 {
		return nil, zzBad
	}
	theta := c.ZzSAdd(e, c.ZzSMul(x.r, x.tweak))
	var nu, mu poly.PedersenCommitmentOpening
	for i := 0; i < 2; i++ {
		nu[i] = c.ZzSAdd(c.ZzSMul(theta, l[i]), c.ZzSMul(x.r, y[i]))
		mu[i] = c.ZzSAdd(c.ZzSMul(x.randomizer, l[i]), k[i])
	}
	return &ThresholdEcdsaSigShareInternal{nu, mu}, nil
}

func zzSum(t *dealings.IDkgTranscriptInternal) bool {
	_, ok := t.CombinedCommitment.(*dealings.SummationCommitment)
	return ok
}

func zzMasked(t *dealings.IDkgTranscriptInternal) bool {
	return t.CombinedCommitment.Type() == poly.Pedersen
}

func zzShareValid(t ThresholdEcdsaSigShareInternal, path *key.DerivationPath, h []byte, randomness []byte, signer common.NodeIndex, kt *dealings.IDkgTranscriptInternal, pt *dealings.IDkgTranscriptInternal, lambda *dealings.IDkgTranscriptInternal, kl *dealings.IDkgTranscriptInternal, xl *dealings.IDkgTranscriptInternal, curveType c.EccCurveType) error {
	x, ok := zzRerandomize(h, randomness, path, kt, pt)
	e := zzHash(h)
	if !ok || e == nil {
		return zzBad
	}
	n, ok1 := t.sigmaNumerator.(poly.PedersenCommitmentOpening)
	d, ok2 := t.sigmaDenominator.(poly.PedersenCommitmentOpening)
	if !ok1 || !ok2 {
		return zzBad
	}
	theta := c.ZzSAdd(e, c.ZzSMul(x.r, x.tweak))
	lj := poly.ZzEvalPoints(lambda.CombinedCommitment.Points(), signer)
	kj := poly.ZzEvalPoints(kl.CombinedCommitment.Points(), signer)
	xj := poly.ZzEvalPoints(xl.CombinedCommitment.Points(), signer)
	if !c.ZzEq(c.ZzAdd(c.ZzMul(lj, theta), c.ZzMul(xj, x.r)), poly.ZzPedersen(n[0], n[1])) ||
		!c.ZzEq(c.ZzAdd(c.ZzMul(lj, x.randomizer), kj), poly.ZzPedersen(d[0], d[1])) {
		return zzBad
	}
	return nil
}

// The five transcripts have commitments of four kinds each; they are compared
// for the kinds the protocol produces, for presignatures of every kind, and for
// transcripts that are all of one kind.
//
//vg:spec ThresholdEcdsaSigShareInternal.Verify props=C01,C02,C35
func zzShareVerify(t ThresholdEcdsaSigShareInternal, path *key.DerivationPath, h []byte, randomness []byte, signer common.NodeIndex, kt *dealings.IDkgTranscriptInternal, pt *dealings.IDkgTranscriptInternal, lambda *dealings.IDkgTranscriptInternal, kl *dealings.IDkgTranscriptInternal, xl *dealings.IDkgTranscriptInternal, curveType c.EccCurveType) error {
	zzAssume(curveType == c.K256 && zzSum(lambda) && zzMasked(lambda) && !zzSum(kl) && zzMasked(kl) && !zzSum(xl) && zzMasked(xl) && !zzSum(kt) && !zzMasked(kt))
	zzAssume(kt.CombinedCommitment.Len() > 0 && pt.CombinedCommitment.Len() > 0)
	zzAssume(lambda.CombinedCommitment.Len() > 0 && kl.CombinedCommitment.Len() > 0 && xl.CombinedCommitment.Len() > 0)
	return zzShareValid(t, path, h, randomness, signer, kt, pt, lambda, kl, xl, curveType)
}

//vg:spec ThresholdEcdsaSigShareInternal.Verify props=C01,C02,C35
func zzShareVerifySum(t ThresholdEcdsaSigShareInternal, path *key.DerivationPath, h []byte, randomness []byte, signer common.NodeIndex, kt *dealings.IDkgTranscriptInternal, pt *dealings.IDkgTranscriptInternal, lambda *dealings.IDkgTranscriptInternal, kl *dealings.IDkgTranscriptInternal, xl *dealings.IDkgTranscriptInternal, curveType c.EccCurveType) error {
	zzAssume(curveType == c.K256 && zzSum(lambda) && zzSum(kl) && zzSum(xl) && zzSum(kt) && zzMasked(lambda) && zzMasked(kl) && zzMasked(xl))
	zzAssume(kt.CombinedCommitment.Len() > 0 && pt.CombinedCommitment.Len() > 0)
	zzAssume(lambda.CombinedCommitment.Len() > 0 && kl.CombinedCommitment.Len() > 0 && xl.CombinedCommitment.Len() > 0)
	return zzShareValid(t, path, h, randomness, signer, kt, pt, lambda, kl, xl, curveType)
}

//vg:spec ThresholdEcdsaSigShareInternal.Verify props=C01,C02,C35
func zzShareVerifySimple(t ThresholdEcdsaSigShareInternal, path *key.DerivationPath, h []byte, randomness []byte, signer common.NodeIndex, kt *dealings.IDkgTranscriptInternal, pt *dealings.IDkgTranscriptInternal, lambda *dealings.IDkgTranscriptInternal, kl *dealings.IDkgTranscriptInternal, xl *dealings.IDkgTranscriptInternal, curveType c.EccCurveType) error {
	zzAssume(curveType == c.K256 && !zzSum(lambda) && !zzSum(kl) && !zzSum(xl) && !zzSum(kt) && !zzMasked(lambda) && !zzMasked(kl) && !zzMasked(xl))
	zzAssume(kt.CombinedCommitment.Len() > 0 && pt.CombinedCommitment.Len() > 0)
	zzAssume(lambda.CombinedCommitment.Len() > 0 && kl.CombinedCommitment.Len() > 0 && xl.CombinedCommitment.Len() > 0)
	return zzShareValid(t, path, h, randomness, signer, kt, pt, lambda, kl, xl, curveType)
}

// A share computed from openings that fit the transcripts is accepted.
//
//vg:law props=C02
func zzHonestShare(path *key.DerivationPath, h []byte, randomness []byte, kt *dealings.IDkgTranscriptInternal, pt *dealings.IDkgTranscriptInternal, l, k, y poly.PedersenCommitmentOpening, lt, klt, xlt *dealings.IDkgTranscriptInternal, j common.NodeIndex) bool {
	zzAssume(kt.CombinedCommitment.Len() > 0 && pt.CombinedCommitment.Len() > 0)
	zzAssume(lt.CombinedCommitment.Len() > 0 && klt.CombinedCommitment.Len() > 0 && xlt.CombinedCommitment.Len() > 0)
	s, err := NewThresholdEcdsaSigShareInternal(path, h, randomness, kt, pt, l, k, y, c.K256)
	if err != nil {
		_, ok := zzSimple(pt.CombinedCommitment)
		return len(h) > 64 || !ok
	}
	zzAssume(c.ZzEq(poly.ZzEvalPoints(lt.CombinedCommitment.Points(), j), poly.ZzPedersen(l[0], l[1])))
	zzAssume(c.ZzEq(poly.ZzEvalPoints(klt.CombinedCommitment.Points(), j), poly.ZzPedersen(k[0], k[1])))
	zzAssume(c.ZzEq(poly.ZzEvalPoints(xlt.CombinedCommitment.Points(), j), poly.ZzPedersen(y[0], y[1])))
	return s.Verify(path, h, randomness, j, kt, pt, lt, klt, xlt, c.K256) == nil
}

//vg:spec NewThresholdEcdsaCombinedSigInternal props=C03 sizes=0,1,2,3
func zzCombine(path *key.DerivationPath, h []byte, randomness []byte, kt *dealings.IDkgTranscriptInternal, pt *dealings.IDkgTranscriptInternal, threshold int, shares *btree.Map[common.NodeIndex, *ThresholdEcdsaSigShareInternal], curveType c.EccCurveType) (*ThresholdEcdsaCombinedSigInternal, error) {
	zzAssume(curveType == c.K256 && kt.CombinedCommitment.Len() > 0 && pt.CombinedCommitment.Len() > 0 && threshold > 0)
	if shares.Len() < threshold {
		return nil, zzBad
	}
	x, ok := zzRerandomize(h, randomness, path, kt, pt)
	if !ok {
		return nil, zzBad
	}
	ls := poly.ZzLagrange0(shares.Keys())
	num, den := c.Scalar.Zero(c.K256), c.Scalar.Zero(c.K256)
	for i, s := range shares.Values() {
		n, ok1 := s.sigmaNumerator.(poly.PedersenCommitmentOpening)
		d, ok2 := s.sigmaDenominator.(poly.PedersenCommitmentOpening)
		if !ok1 || !ok2 {
			return nil, zzBad
		}
		num = c.ZzSAdd(num, c.ZzSMul(ls[i], n[0]))
		den = c.ZzSAdd(den, c.ZzSMul(ls[i], d[0]))
	}
	s := c.ZzSMul(num, den.Clone().Invert(den))
	if s.IsHigh() {
		s = s.Clone().Negate(s)
	}
	return &ThresholdEcdsaCombinedSigInternal{x.r, s}, nil
}

//vg:spec ThresholdEcdsaCombinedSigInternal.Verify props=C04,C06
func zzVerify(t ThresholdEcdsaCombinedSigInternal, path *key.DerivationPath, h []byte, randomness []byte, kt *dealings.IDkgTranscriptInternal, pt *dealings.IDkgTranscriptInternal, curveType c.EccCurveType) error {
	zzAssume(curveType == c.K256 && kt.CombinedCommitment.Len() > 0 && pt.CombinedCommitment.Len() > 0)
	x, ok := zzRerandomize(h, randomness, path, kt, pt)
	e := zzHash(h)
	if !ok || e == nil {
		return zzBad
	}
	if t.R.IsZero() == 1 || t.S.IsZero() == 1 || t.S.IsHigh() || !c.ZzSEq(t.R, x.r) {
		return zzBad
	}
	pk := c.ZzAdd(kt.CombinedCommitment.Points()[0], c.ZzMul(c.ZzG(), x.tweak))
	w := t.S.Clone().Invert(t.S)
	p := c.ZzAdd(c.ZzMul(c.ZzG(), c.ZzSMul(e, w)), c.ZzMul(pk, c.ZzSMul(t.R, w)))
	if p.IsInfinity() || p.AffineX().Equal(x.presig.AffineX()) != 1 {
		return zzBad
	}
	return nil
}

//vg:spec DerivePublicKey props=C06
func zzDerivePublicKey(master *key.MasterEcdsaPublicKey, path *key.DerivationPath) (*key.EcdsaPublicKey, error) {
	p, err := c.Point.Deserialize(c.K256, master.PublicKey)
	if err != nil {
		return nil, zzBad
	}
	tweak, chain, err := path.DeriveTweak(p)
	if err != nil {
		return nil, zzBad
	}
	return &key.EcdsaPublicKey{PublicKey: c.ZzAdd(p, c.ZzMul(c.ZzG(), tweak)).Serialize(), ChainKey: chain}, nil
}

// What a transcript evaluates to depends on its commitment's points alone.
//
//vg:law props=C01,C02
func zzTranscriptValue(t *dealings.IDkgTranscriptInternal, i common.NodeIndex) bool {
	zzAssume(t.CombinedCommitment.Len() > 0)
	return c.ZzEq(t.EvaluateAt(i), poly.ZzEvalPoints(t.CombinedCommitment.Points(), i)) &&
		c.ZzEq(t.ConstantTerm(), t.CombinedCommitment.Points()[0])
}
