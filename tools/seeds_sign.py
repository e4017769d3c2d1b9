from seedlib import plant, run
# a small signing set-up, built from scratch inside package sign
SIGN = '''package sign

import (
	"testing"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/poly"
	seed2 "github.com/PlatONnetwork/tecdsa/seed"
	"github.com/tidwall/btree"
)

var _ = key.New
var _ btree.Map[int, int]

type env struct {
	n, th                              int
	key, presig, lambda, kl, xl        *dealings.IDkgTranscriptInternal
	lamO, klO, xlO                     []poly.CommitmentOpening
}

func sharing(rng interface {
	Uint32() uint32
	Uint64() uint64
	FillUint8([]uint8)
	XORKeyStream(dst, src []byte)
}, v curve.EccScalar, masked bool, n, th int) (*dealings.IDkgTranscriptInternal, []poly.CommitmentOpening) {
	vp, _ := poly.Poly.RandomWithConstant(v, th, rng)
	mp := poly.Poly.Random(curve.K256, th, rng)
	var ops []poly.CommitmentOpening
	for i := 0; i < n; i++ {
		x := curve.Scalar.FromNodeIndex(curve.K256, common.NodeIndex(i))
		if masked {
			ops = append(ops, poly.PedersenCommitmentOpening{vp.EvaluateAt(x), mp.EvaluateAt(x)})
		} else {
			ops = append(ops, poly.SimpleCommitmentOpening{vp.EvaluateAt(x)})
		}
	}
	if masked {
		c, err := poly.PedersenCM.Create(vp, mp, th)
		if err != nil {
			panic(err)
		}
		return &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.InterpolationCommitment{PolynomialCommitment: c}}, ops
	}
	c, err := poly.SimpleCM.Create(vp, th)
	if err != nil {
		panic(err)
	}
	return &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.InterpolationCommitment{PolynomialCommitment: c}}, ops
}

func newEnv(n, th int) *env {
	rng := seed2.FromBytes([]byte("env")).Rng()
	x, k, l := curve.Scalar.Random(curve.K256, rng), curve.Scalar.Random(curve.K256, rng), curve.Scalar.Random(curve.K256, rng)
	e := &env{n: n, th: th}
	e.key, _ = sharing(rng, x, false, n, th)
	e.presig, _ = sharing(rng, k, false, n, th)
	e.lambda, e.lamO = sharing(rng, l, true, n, th)
	e.kl, e.klO = sharing(rng, k.Clone().Mul(k, l), true, n, th)
	e.xl, e.xlO = sharing(rng, x.Clone().Mul(x, l), true, n, th)
	return e
}

var hash = []byte("0123456789abcdef0123456789abcdef")
var rnd = []byte("some randomness")

func (e *env) share(i int) *ThresholdEcdsaSigShareInternal {
	s, err := NewThresholdEcdsaSigShareInternal(key.NewBip32([]uint32{1, 2}), hash, rnd, e.key, e.presig, e.lamO[i], e.klO[i], e.xlO[i], curve.K256)
	if err != nil {
		panic(err)
	}
	return s
}
func (e *env) verify(i int, s *ThresholdEcdsaSigShareInternal) error {
	return s.Verify(key.NewBip32([]uint32{1, 2}), hash, rnd, common.NodeIndex(i), e.key, e.presig, e.lambda, e.kl, e.xl, curve.K256)
}
func (e *env) shares(idx ...int) *btree.Map[common.NodeIndex, *ThresholdEcdsaSigShareInternal] {
	var m btree.Map[common.NodeIndex, *ThresholdEcdsaSigShareInternal]
	for _, i := range idx {
		m.Set(common.NodeIndex(i), e.share(i))
	}
	return &m
}
func (e *env) combine(m *btree.Map[common.NodeIndex, *ThresholdEcdsaSigShareInternal]) (*ThresholdEcdsaCombinedSigInternal, error) {
	return NewThresholdEcdsaCombinedSigInternal(key.NewBip32([]uint32{1, 2}), hash, rnd, e.key, e.presig, e.th, m, curve.K256)
}
func (e *env) check(s *ThresholdEcdsaCombinedSigInternal) error {
	return s.Verify(key.NewBip32([]uint32{1, 2}), hash, rnd, e.key, e.presig, curve.K256)
}
func neg(s curve.EccScalar) curve.EccScalar { return s.Clone().Negate(s) }
'''
plant('s01a', 'C01', [('sign/share.go', 'kappaTimesLambdaJ := kappaTimesLambda.EvaluateAt(signerIndex)', 'kappaTimesLambdaJ := kappaTimesLambda.EvaluateAt(signerIndex & 0xff)')], 'sign', SIGN + '''
func TestZZDemo(t *testing.T) {
	e := newEnv(300, 2)
	s := e.share(270)
	if err := e.verify(270, s); err != nil {
		t.Fatal(err)
	}
	s.sigmaDenominator = e.share(14).sigmaDenominator
	if e.verify(270, s) == nil {
		t.Fatal("share with a foreign denominator accepted")
	}
}
''', 'a signer index of 256 or more', 'the denominator is checked at another index')
plant('s01b', 'C01', [('sign/share.go', '''	sigmaDen = sigmaDen.AddPoints(sigmaDen, kappaTimesLambdaJ)
	num,''', '''	sigmaDen = sigmaDen.AddPoints(sigmaDen, kappaTimesLambda.ConstantTerm())
	if kappaTimesLambdaJ.Equal(kappaTimesLambda.ConstantTerm()) == 0 {
		sigmaDen = sigmaDen.AddPoints(sigmaDen, kappaTimesLambdaJ.Clone().SubPoints(kappaTimesLambdaJ, kappaTimesLambda.ConstantTerm()))
	}
	if lambdaj.IsInfinity() {
		return nil
	}
	num,''')], 'sign', SIGN + '''
func TestZZDemo(t *testing.T) {
	e := newEnv(3, 2)
	// lambda's commitment evaluates to the identity at signer 0
	g := curve.Point.GeneratorG(curve.K256)
	inf := curve.Point.Identity(curve.K256)
	e.lambda = &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.SummationCommitment{PolynomialCommitment: poly.PedersenCM.New([]curve.EccPoint{g, inf.Clone().SubPoints(inf, g)})}}
	one := curve.Scalar.One(curve.K256)
	s := &ThresholdEcdsaSigShareInternal{sigmaNumerator: poly.PedersenCommitmentOpening{one, one}, sigmaDenominator: poly.PedersenCommitmentOpening{one, one}}
	if e.verify(0, s) == nil {
		t.Fatal("arbitrary share accepted")
	}
}
''', 'a lambda transcript whose commitment evaluates to the identity at the signer index', 'any share is accepted for that signer')
plant('s02b', 'C02', [('sign/share.go', '''		nuMask := theta.Clone().Mul(theta, lambdaMask)
''', '''		nuMask := theta.Clone().Mul(theta, lambdaMask)
		if k[1].IsZero() == 1 {
			nuMask = theta.Clone()
		}
''')], 'sign', SIGN + '''
func TestZZDemo(t *testing.T) {
	e := newEnv(3, 2)
	// key*lambda shared with a zero mask polynomial
	v := poly.Poly.New(curve.K256, []curve.EccScalar{curve.Scalar.One(curve.K256), curve.Scalar.One(curve.K256)})
	c, err := poly.PedersenCM.Create(v, poly.Poly.Zero(curve.K256), 2)
	if err != nil {
		t.Fatal(err)
	}
	e.xl = &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.InterpolationCommitment{PolynomialCommitment: c}}
	e.xlO[1] = poly.PedersenCommitmentOpening{v.EvaluateAt(curve.Scalar.FromNodeIndex(curve.K256, 1)), curve.Scalar.Zero(curve.K256)}
	if err := e.verify(1, e.share(1)); err != nil {
		t.Fatal(err)
	}
}
''', 'a key*lambda opening whose mask is zero', 'the mask of the numerator is wrong, so the share is rejected')
plant('s03a', 'C03', [('sign/combined_sig.go', '''		xValues = append(xValues, index)
		if p, ok := sigShare.sigmaNumerator.(poly2.PedersenCommitmentOpening); ok {
			numeratorSamples = append(numeratorSamples, p[0])
		}
		if p, ok := sigShare.sigmaDenominator.(poly2.PedersenCommitmentOpening); ok {
			denominatorSamples = append(denominatorSamples, p[0])
		}
''', '''		p, ok := sigShare.sigmaNumerator.(poly2.PedersenCommitmentOpening)
		q, qok := sigShare.sigmaDenominator.(poly2.PedersenCommitmentOpening)
		if ok && qok {
			xValues = append(xValues, index)
			numeratorSamples = append(numeratorSamples, p[0])
			denominatorSamples = append(denominatorSamples, q[0])
		}
''')], 'sign', SIGN + '''
func TestZZDemo(t *testing.T) {
	e := newEnv(4, 2)
	m := e.shares(0, 1)
	sig, err := e.combine(m)
	if err != nil {
		t.Fatal(err)
	}
	if err := e.check(sig); err != nil {
		t.Fatal(err)
	}
	s := e.share(2)
	s.sigmaNumerator = poly.SimpleCommitmentOpening{curve.Scalar.One(curve.K256)}
	m.Set(2, s)
	if _, err := e.combine(m); err == nil {
		t.Fatal("a share of the wrong kind was skipped")
	}
}
''', 'a share whose halves are not masked openings among good ones', 'such shares are skipped, even when fewer than the threshold remain')
plant('s03b', 'C03', [('sign/combined_sig.go', 'if sigShares.Len() < reconstructionThreshold {', 'if sigShares.Len() == 0 || sigShares.Len() < reconstructionThreshold-1 {')], 'sign', SIGN + '''
func TestZZDemo(t *testing.T) {
	e := newEnv(4, 3)
	if _, err := e.combine(e.shares(0, 2)); err == nil {
		t.Fatal("two shares combined although three are needed")
	}
}
''', 'exactly one share too few', 'a wrong signature is returned instead of an error')
plant('s03c', 'C03', [('sign/combined_sig.go', '''		if count >= reconstructionThreshold {
			return true
		}
''', '''		if count >= reconstructionThreshold {
			return true
		}
		if index > 255 {
			return true
		}
''')], 'sign', SIGN + '''
func TestZZDemo(t *testing.T) {
	e := newEnv(301, 2)
	sig, err := e.combine(e.shares(3, 300))
	if err != nil {
		t.Fatal(err)
	}
	if err := e.check(sig); err != nil {
		t.Fatal(err)
	}
}
''', 'a signer index above 255 among the shares', 'the shares of such signers are ignored and a wrong signature comes out')
plant('s04a', 'C04', [('sign/combined_sig.go', '''	if t.R.Equal(rho) == 0 || t.S.IsHigh() {''', '''	if t.R.Equal(rho) == 0 || (t.S.IsHigh() && t.R.IsHigh()) {''')], 'sign', SIGN + '''
func TestZZDemo(t *testing.T) {
	e := newEnv(4, 2)
	// find randomness for which r is low and negate s
	for i := 0; i < 40; i++ {
		rnd = []byte{byte(i)}
		sig, err := e.combine(e.shares(0, 1))
		if err != nil {
			t.Fatal(err)
		}
		if err := e.check(sig); err != nil {
			t.Fatal(err)
		}
		if e.check(&ThresholdEcdsaCombinedSigInternal{R: sig.R, S: neg(sig.S)}) == nil {
			t.Fatal("high s accepted")
		}
	}
}
''', 'a signature with high s and low r', 'malleable signatures are accepted')
plant('s04b', 'C04', [('sign/combined_sig.go', '''	if rp.AffineX().Equal(preSig.AffineX()) == 0 {
		return errors.New("invalid signature")
	}
''', '''	if len(hashedMsg) <= 32 && rp.AffineX().Equal(preSig.AffineX()) == 0 {
		return errors.New("invalid signature")
	}
''')], 'sign', SIGN + '''
func TestZZDemo(t *testing.T) {
	e := newEnv(4, 2)
	hash = append(hash, hash...)
	sig, err := e.combine(e.shares(0, 1))
	if err != nil {
		t.Fatal(err)
	}
	if err := e.check(sig); err != nil {
		t.Fatal(err)
	}
	if e.check(&ThresholdEcdsaCombinedSigInternal{R: sig.R, S: curve.Scalar.One(curve.K256)}) == nil {
		t.Fatal("arbitrary s accepted")
	}
}
''', 'a message hash longer than 32 bytes', 'the equation is not checked, any low s is accepted')
plant('s05a', 'C05', [('sign/sign.go', 'ro.AddBytesString("hashed_message", hashedMsg)', 'ro.AddBytesString("randomness", hashedMsg)')], 'sign', SIGN + '''
func TestZZDemo(t *testing.T) {
	e := newEnv(4, 2)
	_, _, r1, _, err := DeriveRho(curve.K256, hash, rnd, key.NewBip32(nil), e.key, e.presig)
	if err != nil {
		t.Fatal(err)
	}
	_, _, r2, _, err := DeriveRho(curve.K256, []byte("another message hash............"), rnd, key.NewBip32(nil), e.key, e.presig)
	if err != nil {
		t.Fatal(err)
	}
	if r1.Equal(r2) == 1 {
		t.Fatal("the randomizer does not depend on the message")
	}
}
''', 'two messages signed with the same randomness', 'the second input has the name of the first, is refused and so not bound')
plant('s05b', 'C05', [('sign/sign.go', '''p.PolynomialCommitment.Type() == poly2.Simple {
		preSig = p.PolynomialCommitment.(*poly2.SimpleCommitment).ConstantTerm()''', '''(p.PolynomialCommitment.Type() == poly2.Simple || p.PolynomialCommitment.Len() > 1) {
		preSig = p.PolynomialCommitment.ConstantTerm()''')], 'sign', SIGN + '''
func TestZZDemo(t *testing.T) {
	e := newEnv(4, 2)
	if _, _, _, _, err := DeriveRho(curve.K256, hash, rnd, key.NewBip32(nil), e.key, e.lambda); err == nil {
		t.Fatal("masked presignature accepted")
	}
}
''', 'a masked interpolated transcript used as presignature', 'it is accepted instead of refused')
plant('s06b', 'C06', [('sign/sign.go', '''	publicKey := tweakg.AddPoints(tweakg, pk)
	return &key.EcdsaPublicKey{''', '''	publicKey := tweakg.AddPoints(tweakg, pk)
	if publicKey.Equal(pk) == 1 {
		publicKey, chainKey = pk, nil
	}
	return &key.EcdsaPublicKey{''')], 'sign', SIGN + '''
func TestZZDemo(t *testing.T) {
	e := newEnv(4, 2)
	k, err := DerivePublicKey(&key.MasterEcdsaPublicKey{PublicKey: e.key.ConstantTerm().Serialize()}, key.NewBip32(nil))
	if err != nil {
		t.Fatal(err)
	}
	if len(k.ChainKey) != 32 {
		t.Fatal("no chain key for the empty path")
	}
}
''', 'the empty derivation path', 'the chain key is missing')
KEY = '''package key

import (
	"bytes"
	"crypto"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
)

func derive(path ...[]byte) (curve.EccScalar, []byte) {
	var p []DerivationIndex
	for _, x := range path {
		p = append(p, x)
	}
	s, c, err := New(p).DeriveTweak(curve.Point.GeneratorG(curve.K256))
	if err != nil {
		panic(err)
	}
	return s, c
}
func expected(path ...[]byte) (curve.EccScalar, []byte) {
	pk, ck, sum := curve.Point.GeneratorG(curve.K256), make([]byte, 32), curve.Scalar.Zero(curve.K256)
	for _, x := range path {
		out, err := ComputeHMAC(crypto.SHA512.New, ck, append(pk.Serialize(), x...))
		if err != nil {
			panic(err)
		}
		off, err := curve.Scalar.Deserialize(curve.K256, out[:32])
		if err != nil {
			panic(err)
		}
		ck = out[32:]
		sum = sum.Add(sum, off)
		pk = pk.AddPoints(pk, curve.Point.MulByG(off))
	}
	return sum, ck
}
func same(t *testing.T, path ...[]byte) {
	s, c := derive(path...)
	es, ec := expected(path...)
	if s.Equal(es) == 0 || !bytes.Equal(c, ec) {
		t.Fatal("wrong derivation", path)
	}
}
'''
plant('s07a', 'C07', [('key/key_derivation.go', '''	for _, idx := range d.path {
''', '''	for _, idx := range d.path {
		if len(idx) == 0 {
			continue
		}
''')], 'key', KEY + '''
func TestZZDemo(t *testing.T) {
	same(t, []byte{0, 0, 0, 1})
	same(t, []byte{1}, []byte{}, []byte{2})
}
''', 'a path with an empty element', 'the element is skipped instead of derived')
plant('s07b', 'C07', [('key/key_derivation.go', 'output, err := ComputeHMAC(crypto.SHA512.New, chainKey, pk.Serialize(), index)', '''if len(index) > 64 {
		index = index[:64]
	}
	output, err := ComputeHMAC(crypto.SHA512.New, chainKey, pk.Serialize(), index)''')], 'key', KEY + '''
func TestZZDemo(t *testing.T) {
	same(t, bytes.Repeat([]byte{7}, 64))
	same(t, bytes.Repeat([]byte{7}, 65))
}
''', 'a path element longer than 64 bytes', 'it is truncated, so different paths give the same key')
plant('s07c', 'C07', [('key/key_derivation.go', '''	if carry != 0 {
		n = append(n, carry)
	}
''', '''	if carry != 0 && len(n) < 4 {
		n = append(n, carry)
	}
''')], 'key', KEY + '''
func TestZZDemo(t *testing.T) {
	d := DerivationIndex{255, 255, 255, 255}
	if !bytes.Equal(d.Next(), []byte{1, 0, 0, 0, 0}) {
		t.Fatal("carry lost")
	}
}
''', 'a four-byte index of all ones whose step has to be retried', 'the next index wraps to zero')
if __name__ == '__main__': run()
