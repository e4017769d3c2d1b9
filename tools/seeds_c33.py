from seedlib import plant
IMPORTS = '''package testutils

import (
	"testing"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	dealings2 "github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
	seed2 "github.com/PlatONnetwork/tecdsa/seed"
	"github.com/tidwall/btree"
)

var _ = common.NodeIndex(0)
var _ = curve.K256
var _ poly.CommitmentOpening
var _ *dealings2.IDkgDealingInternal
var _ btree.Map[int, int]
'''
COMMON = IMPORTS + '''
// five dealers reshare a masked value of threshold 2; the first dealing is corrupted for receiver 3
func setupReshare(t *testing.T) (*ProtocolSetup, *btree.Map[common.NodeIndex, *dealings2.IDkgDealingInternal], *dealings2.IDkgTranscriptInternal) {
	seed := seed2.FromBytes([]byte("demo"))
	setup := NewProtocolSetup(curve.K256, 5, 2, seed)
	r, err := Round.Random(setup, 5, 0)
	if err != nil {
		t.Fatal(err)
	}
	m, err := Round.ReshareOfMasked(setup, r, 5, 0)
	if err != nil {
		t.Fatal(err)
	}
	d, _ := m.Dealings.Get(0)
	bad, err := CorruptDealing(d, []common.NodeIndex{3}, seed)
	if err != nil {
		t.Fatal(err)
	}
	m.Dealings.Set(0, bad)
	return setup, m.Dealings, m.Transcript
}
'''
plant('s33a', 'C33', [('complaints/complaints.go', '''c.sharedSecret, proofAssocData); err != nil {
		return err
	}
''', '''c.sharedSecret, proofAssocData); err != nil && dealing.Commitment.Type() == poly2.Simple {
		return err
	}
''')], 'complaints', '''package complaints

import (
	"testing"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	seed2 "github.com/PlatONnetwork/tecdsa/seed"
)

func TestZZDemo(t *testing.T) {
	seed := seed2.FromBytes([]byte("demo"))
	rng := seed.Rng()
	var sk []*mega.MEGaPrivateKey
	var pk []*mega.MEGaPublicKey
	for i := 0; i < 4; i++ {
		k := mega.PrivateKey.GeneratePrivateKey(curve.K256, rng)
		sk, pk = append(sk, k), append(pk, k.PublicKey())
	}
	ad := []byte("ad")
	d, err := dealings.NewIDkgDealingInternal(&dealings.RandomSecret{}, curve.K256, seed, 2, pk, 1, ad)
	if err != nil {
		t.Fatal(err)
	}
	c, err := NewComplaintInternal(seed, d, 1, common.NodeIndex(2), sk[2], pk[2], ad)
	if err != nil {
		t.Fatal(err)
	}
	if c.Verify(d, 1, 2, pk[2], ad) == nil {
		t.Fatal("complaint against a good dealing accepted")
	}
	c.sharedSecret = curve.Point.MulByG(curve.Scalar.Random(curve.K256, rng))
	if c.Verify(d, 1, 2, pk[2], ad) == nil {
		t.Fatal("complaint with a forged shared secret accepted")
	}
}
''', 'a complaint with an invalid proof against a dealing with a Pedersen commitment', 'the proof error is dropped for Pedersen dealings, so anybody can have a correct dealing rejected')
plant('s33b', 'C33', [('dealings/dealings.go', '''CheckValidity(numberOfReceivers, ad, dealerIndex); err != nil {
		return err
	}
''', '''CheckValidity(numberOfReceivers, ad, dealerIndex); err != nil && dealing.Proof == nil {
		return err
	}
''')], 'testutils', COMMON + '''
func TestZZDemo(t *testing.T) {
	seed := seed2.FromBytes([]byte("demo"))
	setup := NewProtocolSetup(curve.K256, 5, 2, seed)
	r, err := Round.Random(setup, 5, 0)
	if err != nil {
		t.Fatal(err)
	}
	m, err := Round.ReshareOfMasked(setup, r, 5, 0)
	if err != nil {
		t.Fatal(err)
	}
	d, _ := m.Dealings.Get(2)
	op := &dealings2.ReshareOfMaskedTranscript{P1: r.Commitment}
	if err := d.PubliclyVerify(curve.K256, op, 2, 2, 5, setup.Ad); err != nil {
		t.Fatal(err)
	}
	if err := d.PubliclyVerify(curve.K256, op, 2, 2, 7, setup.Ad); err == nil {
		t.Fatal("dealing for 5 receivers accepted for 7")
	}
}
''', 'a dealing that carries a proof but whose ciphertext has the wrong number of recipients or an invalid proof of possession', 'an invalid ciphertext is accepted whenever the dealing also carries a proof')
plant('s33c', 'C33', [('dealings/transcript.go', '''				values = append(values, o[0])
				masks = append(masks, o[1])
			case poly.SimpleCommitmentOpening:
				err = errors.New("unexpected commitment type")
				return false
			}
			return true
		})
		if err != nil {
			return nil, err
		}
''', '''				values = append(values, o[0])
				masks = append(masks, o[1])
			case poly.SimpleCommitmentOpening:
				err = errors.New("unexpected commitment type")
				return false
			}
			return true
		})
		if err != nil && len(xValues) < reconstructionThreshold {
			return nil, err
		}
''')], 'testutils', COMMON + '''
func TestZZDemo(t *testing.T) {
	seed := seed2.FromBytes([]byte("demo"))
	setup := NewProtocolSetup(curve.K256, 5, 2, seed)
	r, err := Round.Random(setup, 5, 0)
	if err != nil {
		t.Fatal(err)
	}
	d, _ := r.Dealings.Get(0)
	var ops btree.Map[common.NodeIndex, poly.CommitmentOpening]
	for i := 0; i < 3; i++ {
		o, err := dealings2.CommitmentOpening.OpenDealing(d, setup.Ad, 0, common.NodeIndex(i), setup.Sk[i], setup.Pk[i])
		if err != nil {
			t.Fatal(err)
		}
		ops.Set(common.NodeIndex(i), o)
	}
	ops.Set(4, poly.SimpleCommitmentOpening{curve.Scalar.One(curve.K256)})
	if _, err := dealings2.ReconstructShareFromOpenings(d, &ops, 3); err == nil {
		t.Fatal("an opening of another kind was ignored")
	}
}
''', 'enough openings of the right kind followed by one of another kind', 'an opening of the wrong kind after enough good ones no longer fails the reconstruction')
from seedlib import run; run()
