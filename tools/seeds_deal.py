from seedlib import plant, run
HDR = '''package dealings

import (
	"testing"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	seed2 "github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"
	"github.com/tidwall/btree"
)

var _ = zk.ProofOfProductIns
var _ btree.Map[int, int]
var _ poly.PolynomialCommitment
var _ common.NodeIndex

type party struct {
	sk []*mega.MEGaPrivateKey
	pk []*mega.MEGaPublicKey
}

func parties(n int) party {
	rng := seed2.FromBytes([]byte("parties")).Rng()
	var p party
	for i := 0; i < n; i++ {
		sk := mega.PrivateKey.GeneratePrivateKey(curve.K256, rng)
		p.sk, p.pk = append(p.sk, sk), append(p.pk, sk.PublicKey())
	}
	return p
}

func sc(s string) curve.EccScalar {
	return curve.Scalar.FromSeed(curve.K256, seed2.FromBytes([]byte(s)))
}

func deal(t *testing.T, p party, sh SecretShares, th int, dealer common.NodeIndex, name string) *IDkgDealingInternal {
	d, err := NewIDkgDealingInternal(sh, curve.K256, seed2.FromBytes([]byte(name)), th, p.pk, dealer, []byte("ad"))
	if err != nil {
		t.Fatal(err)
	}
	return d
}
'''
P = 'dealings'
plant('s08a', 'C08', [('dealings/dealings.go', 'dealing.Commitment.Len() != reconstructionThreshold', 'dealing.Commitment.Len() < reconstructionThreshold')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	p := parties(5)
	d := deal(t, p, &RandomSecret{}, 4, 1, "x")
	if d.PubliclyVerify(curve.K256, &RandomTranscript{}, 3, 1, 5, []byte("ad")) == nil {
		t.Fatal("a dealing with four coefficients passes for threshold three")
	}
}
''', 'a dealer that shares a polynomial of higher degree than agreed', 'a dealing of too high degree verifies, so threshold many receivers cannot reconstruct')
plant('s08b', 'C08', [('dealings/dealings.go', '''		if err := dealing.Ciphertext.VerifyIs(mega.CiphertextSingle, curveType); err != nil {
			return err
		}
		if err := dealing.Proof.(*MaskedResharingProof)''', '''		if err := dealing.Ciphertext.VerifyIs(dealing.Ciphertext.CType(), curveType); err != nil {
			return err
		}
		if err := dealing.Proof.(*MaskedResharingProof)''')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	p := parties(4)
	// a masked sharing of a secret
	s, m := sc("s"), sc("m")
	rng := seed2.FromBytes([]byte("poly")).Rng()
	vp, _ := poly.Poly.RandomWithConstant(s, 1, rng)
	mp, _ := poly.Poly.RandomWithConstant(m, 1, rng)
	cm, _ := poly.PedersenCM.Create(vp, mp, 1)
	d := deal(t, p, &ReshareOfMaskedSecret{S1: s, S2: m}, 2, 1, "x")
	other := deal(t, p, &RandomSecret{}, 2, 1, "y")
	op := &ReshareOfMaskedTranscript{P1: cm}
	if err := d.PubliclyVerify(curve.K256, op, 2, 1, 4, []byte("ad")); err != nil {
		t.Fatal("honest dealing", err)
	}
	d.Ciphertext = other.Ciphertext
	if d.PubliclyVerify(curve.K256, op, 2, 1, 4, []byte("ad")) == nil {
		t.Fatal("a pair ciphertext passes for a simple commitment")
	}
}
''', 'a masked resharing dealing whose ciphertext encrypts pairs', 'the ciphertext kind of a masked resharing is unchecked')
plant('s08c', 'C08', [('dealings/dealings.go', 'if _, ok := transcriptType.(*RandomTranscript); ok && dealing.Proof == nil {', 'if _, ok := transcriptType.(*RandomTranscript); ok {')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	p := parties(4)
	d := deal(t, p, &RandomSecret{}, 2, 1, "x")
	e := deal(t, p, &UnmaskedTimesMaskedSecret{sc("a"), [2]curve.EccScalar{sc("b"), sc("c")}}, 2, 1, "y")
	d.Proof = e.Proof
	if d.PubliclyVerify(curve.K256, &RandomTranscript{}, 2, 1, 4, []byte("ad")) == nil {
		t.Fatal("a random dealing with an unrelated proof passes")
	}
}
''', 'a random dealing that carries a proof', 'a proof attached to a random dealing is ignored')
plant('s08d', 'C08', [('mega/ciphertext.go', '''func (m MEGaCiphertextPair) CheckValidity(expectedRecipients int, ad []byte, dealerIndex common.NodeIndex) error {
	if m.Recipients() != expectedRecipients {''', '''func (m MEGaCiphertextPair) CheckValidity(expectedRecipients int, ad []byte, dealerIndex common.NodeIndex) error {
	if m.Recipients() < expectedRecipients {''')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	p := parties(5)
	d := deal(t, p, &RandomSecret{}, 2, 1, "x")
	if d.PubliclyVerify(curve.K256, &RandomTranscript{}, 2, 1, 4, []byte("ad")) == nil {
		t.Fatal("a dealing for five receivers passes for four")
	}
}
''', 'a masked dealing encrypted to more receivers than there are', 'the number of recipients of pair ciphertexts is only bounded from below')
plant('s10a', 'C10', [('dealings/dealings.go', '''		values := poly2.Poly.Random(curveType, numCoefficients, polyRng)
		mask := poly2.Poly.Random(curveType, numCoefficients, polyRng)''', '''		values := poly2.Poly.Random(curveType, numCoefficients, polyRng)
		mask := poly2.Poly.Random(curveType, numCoefficients-1, polyRng)''')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	p := parties(3)
	d := deal(t, p, &RandomSecret{}, 1, 1, "x")
	o, err := d.Ciphertext.DecryptAndCheck(d.Commitment, []byte("ad"), 1, 2, p.sk[2], p.pk[2])
	if err != nil {
		t.Fatal(err)
	}
	if o.(poly.PedersenCommitmentOpening)[1].IsZero() == 1 {
		t.Fatal("the dealing is not masked")
	}
}
''', 'a random dealing with threshold one', 'the masking polynomial is one coefficient short: with threshold one the secret is unmasked')
plant('s10b', 'C10', [('dealings/dealings.go', '''	case *ReshareOfUnmaskedSecret:
		values, err''', '''	case *ReshareOfUnmaskedSecret:
		if s.S1.IsZero() == 1 {
			return nil, errors.New("nothing to reshare")
		}
		values, err''')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	p := parties(3)
	if _, err := NewIDkgDealingInternal(&ReshareOfUnmaskedSecret{S1: curve.Scalar.Zero(curve.K256)}, curve.K256, seed2.FromBytes(nil), 2, p.pk, 1, []byte("ad")); err != nil {
		t.Fatal("a zero share cannot be reshared", err)
	}
}
''', 'the share to be reshared is zero', 'an honest dealer with share zero cannot deal')
plant('s10c', 'C10', [('dealings/dealings.go', '''		plaintexts[idx] = [2]curve.EccScalar{vs, ms}''', '''		plaintexts[idx] = [2]curve.EccScalar{vs, ms}
		if idx > 0 && recipients[idx] == recipients[idx-1] {
			plaintexts[idx] = plaintexts[idx-1]
		}''')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	p := parties(3)
	p.pk[2], p.sk[2] = p.pk[1], p.sk[1] // one machine runs two nodes
	d := deal(t, p, &RandomSecret{}, 2, 1, "x")
	for i := range p.pk {
		if err := d.PrivateVerify(curve.K256, p.sk[i], p.pk[i], []byte("ad"), 1, common.NodeIndex(i)); err != nil {
			t.Fatal(i, err)
		}
	}
}
''', 'two neighbouring recipients with the same public key object', 'a recipient gets its neighbour\'s share')
plant('s11a', 'C11', [('dealings/transcript.go', 'len(o.Left.Points())+len(o.Right.Points())-1 {', '2*len(o.Left.Points())-1 {')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	p := parties(3)
	var m btree.Map[common.NodeIndex, *IDkgDealingInternal]
	rng := seed2.FromBytes([]byte("poly")).Rng()
	l, _ := poly.SimpleCM.Create(poly.Poly.Random(curve.K256, 1, rng), 1)
	r, _ := poly.PedersenCM.Create(poly.Poly.Random(curve.K256, 3, rng), poly.Poly.Random(curve.K256, 3, rng), 3)
	for i := 0; i < 2; i++ {
		m.Set(common.NodeIndex(i), deal(t, p, &RandomSecret{}, 2, common.NodeIndex(i), "x"))
	}
	if _, err := NewTranscriptInternal(curve.K256, 2, &m, &UnmaskedTimesMaskedTranscript{l, r}); err == nil {
		t.Fatal("two dealings suffice for a product of degree two")
	}
}
''', 'a product of sharings with different thresholds', 'the number of dealings needed for a product is taken from the left factor alone')
plant('s11b', 'C11', [('dealings/transcript.go', 'if len(dealing.Commitment.Points()) != reconstructionThreshold {', 'if len(dealing.Commitment.Points()) < reconstructionThreshold {')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	p := parties(4)
	var m btree.Map[common.NodeIndex, *IDkgDealingInternal]
	m.Set(0, deal(t, p, &RandomSecret{}, 2, 0, "x"))
	m.Set(1, deal(t, p, &RandomSecret{}, 3, 1, "y"))
	if _, err := NewTranscriptInternal(curve.K256, 2, &m, &RandomTranscript{}); err == nil {
		t.Fatal("a longer commitment is cut off")
	}
}
''', 'a verified dealing with more coefficients than the threshold', 'longer commitments are cut off instead of refused')
plant('s11c', 'C11', [('dealings/transcript.go', '''		if verifiedDealings.Len() < len(o.P1.Points()) {
			return nil, errors.New("insufficient dealings")
		}
		combinedCommitment, err = CombineCommitmentsViaInterpolation(poly.Simple, curveType, reconstructionThreshold, verifiedDealings)
		if err != nil {
			return nil, err
		}
	case *ReshareOfUnmaskedTranscript:''', '''		if verifiedDealings.Len() < reconstructionThreshold {
			return nil, errors.New("insufficient dealings")
		}
		combinedCommitment, err = CombineCommitmentsViaInterpolation(poly.Simple, curveType, reconstructionThreshold, verifiedDealings)
		if err != nil {
			return nil, err
		}
	case *ReshareOfUnmaskedTranscript:''')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	p := parties(3)
	var m btree.Map[common.NodeIndex, *IDkgDealingInternal]
	rng := seed2.FromBytes([]byte("poly")).Rng()
	r, _ := poly.PedersenCM.Create(poly.Poly.Random(curve.K256, 3, rng), poly.Poly.Random(curve.K256, 3, rng), 3)
	m.Set(0, deal(t, p, &ReshareOfUnmaskedSecret{sc("a")}, 1, 0, "x"))
	m.Set(1, deal(t, p, &ReshareOfUnmaskedSecret{sc("b")}, 1, 1, "y"))
	if _, err := NewTranscriptInternal(curve.K256, 1, &m, &ReshareOfMaskedTranscript{r}); err == nil {
		t.Fatal("two dealings interpolate a degree two polynomial")
	}
}
''', 'a masked resharing that lowers the threshold', 'enough dealings for the new threshold are taken as enough for the old one')
plant('s11d', 'C11', [('dealings/transcript.go', 'if o.P1.Points()[0].Equal(combinedCommitment.Points()[0]) != 1 {', 'if reconstructionThreshold > 1 && o.P1.Points()[0].Equal(combinedCommitment.Points()[0]) != 1 {')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	p := parties(3)
	var m btree.Map[common.NodeIndex, *IDkgDealingInternal]
	c, _ := poly.SimpleCM.Create(poly.Poly.New(curve.K256, []curve.EccScalar{sc("s")}), 1)
	m.Set(0, deal(t, p, &ReshareOfUnmaskedSecret{sc("a")}, 1, 0, "x"))
	if _, err := NewTranscriptInternal(curve.K256, 1, &m, &ReshareOfUnmaskedTranscript{c}); err == nil {
		t.Fatal("the reshared key changed")
	}
}
''', 'resharing with new threshold one', 'the combined resharing is not compared with the old key')
plant('s12a', 'C12', [('dealings/commitment.go', '''	return transcriptCommitment.ReturnOpeningIfConsistent(receiverIndex, opening)
}''', '''	if _, ok := transcriptCommitment.(*SummationCommitment); ok && len(commitmentOpenings) == 1 {
		return opening, nil
	}
	return transcriptCommitment.ReturnOpeningIfConsistent(receiverIndex, opening)
}''')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	rng := seed2.FromBytes([]byte("poly")).Rng()
	c, _ := poly.PedersenCM.Create(poly.Poly.Random(curve.K256, 2, rng), poly.Poly.Random(curve.K256, 2, rng), 2)
	o := poly.PedersenCommitmentOpening{sc("a"), sc("b")}
	if _, err := CommitmentOpening.CombineOpenings([]common.NodeIndex{0}, []poly.CommitmentOpening{o}, &SummationCommitment{c}, 1, curve.K256); err == nil {
		t.Fatal("an opening that does not match is returned")
	}
}
''', 'a random transcript made of a single dealing', 'the opening of a single dealing is returned unchecked')
plant('s12c', 'C12', [('dealings/commitment.go', '''		if shares, ok := providedOpenings.Get(dealerIndex); ok {''', '''		if shares, ok := providedOpenings.Get(dealerIndex); ok && shares.Len() > 0 {''')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	p := parties(3)
	d := deal(t, p, &RandomSecret{}, 2, 1, "x")
	var m btree.Map[common.NodeIndex, *IDkgDealingInternal]
	m.Set(1, d)
	tr, err := NewTranscriptInternal(curve.K256, 2, &m, &RandomTranscript{})
	if err != nil {
		t.Fatal(err)
	}
	var op btree.Map[common.NodeIndex, *btree.Map[common.NodeIndex, poly.CommitmentOpening]]
	op.Set(1, &btree.Map[common.NodeIndex, poly.CommitmentOpening]{})
	if _, err := CommitmentOpening.FromDealingsAndOpenings(&m, &op, tr.CombinedCommitment, []byte("ad"), 0, p.sk[0], p.pk[0]); err == nil {
		t.Fatal("no openings count as openings")
	}
}
''', 'a dealer that was complained about, with an empty set of openings', 'without openings the disputed ciphertext is used after all instead of refusing')
run()
