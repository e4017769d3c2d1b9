from seedlib import plant, run
from seeds_mega import HDR
TXT = HDR.replace('"testing"', '"encoding/hex"\n\t"strings"\n\t"testing"')
plant('s34a', 'C34', [('mega/ciphertext.go', '''	opening[1] = scalar[1]
	if !commitment.CheckOpening(receiverIndex, opening) {
		return nil, errors.New("invalid commitment")
	}
''', '''	opening[1] = scalar[1]
	if !commitment.CheckOpening(receiverIndex, opening) {
		encoded, _ := opening.Serialize()
		return nil, errors.Errorf("invalid commitment: opening %x of receiver %d from dealer %d", encoded, receiverIndex, dealerIndex)
	}
''')], 'mega', TXT + '''
func TestZZDemo(t *testing.T) {
	sk, pk := parties(2)
	c, _ := pair(t, pk, "a", 2, 1, "ad")
	_, cm := pair(t, pk, "b", 2, 1, "ad")
	ptext, err := c.Decrypt([]byte("ad"), 1, 0, sk[0], pk[0])
	if err != nil {
		t.Fatal(err)
	}
	_, err = c.DecryptAndCheck(cm, []byte("ad"), 1, 0, sk[0], pk[0])
	if err == nil {
		t.Fatal("accepted")
	}
	if strings.Contains(err.Error(), hex.EncodeToString(ptext[0].Serialize())) {
		t.Fatal("the error message holds the decrypted share")
	}
}
''', 'a share that does not open the commitment; reading the error message', 'the error for a bad share contains the share')
plant('s34b', 'C34', [('curve/k256_scalar.go', '''	field, err := fq.K256FqNew().SetBytes(&buf)
	if err != nil {
		return nil, err
	}
''', '''	field, err := fq.K256FqNew().SetBytes(&buf)
	if err != nil {
		return nil, errors.Wrapf(err, "decoding scalar %x", bytes)
	}
''')], 'mega', TXT + '''
func TestZZDemo(t *testing.T) {
	key := []byte(strings.Repeat("\\xff", 32))
	key[31] = 7
	_, err := PrivateKey.Deserialize(curve.K256, key)
	if err == nil {
		t.Fatal("accepted")
	}
	if strings.Contains(err.Error(), hex.EncodeToString(key)) {
		t.Fatal("the error message holds the private key")
	}
}
''', 'a scalar encoding above the group order; reading the error message', 'the error for a non-canonical private key or share contains its bytes')
0 and plant('s34c', 'C34', [('sign/share.go', '''type ThresholdEcdsaSigShareInternal struct {''', '''// openingError reports an opening that does not fit its use.
type openingError struct {
	opening poly2.CommitmentOpening
}

func (e openingError) Error() string {
	raw, err := e.opening.Serialize()
	if err != nil {
		return "unexpected commitment type"
	}
	return fmt.Sprintf("unexpected commitment type: %x", raw)
}

type ThresholdEcdsaSigShareInternal struct {'''), ('sign/share.go', '''		lambdaMask = l[1]
	} else {
		return nil, errors.New("unexpected commitment type")
''', '''		lambdaMask = l[1]
	} else {
		return nil, openingError{lambda}
'''), ('sign/share.go', '''import (
''', '''import (
	"fmt"
''')], 'sign', '''package sign

import (
	"encoding/hex"
	"strings"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/poly"
	seed2 "github.com/PlatONnetwork/tecdsa/seed"
)

func TestZZDemo(t *testing.T) {
	s := curve.Scalar.FromSeed(curve.K256, seed2.FromBytes([]byte("share")))
	p := poly.Poly.Random(curve.K256, 1, seed2.FromBytes([]byte("p")).Rng())
	cm, err := poly.SimpleCM.Create(p, 1)
	if err != nil {
		t.Fatal(err)
	}
	c := &dealings.InterpolationCommitment{PolynomialCommitment: cm}
	tr := &dealings.IDkgTranscriptInternal{CombinedCommitment: c}
	_, err = NewThresholdEcdsaSigShareInternal(key.NewBip32([]uint32{1}), make([]byte, 32), make([]byte, 32), tr, tr, poly.SimpleCommitmentOpening{s}, poly.PedersenCommitmentOpening{s, s}, poly.PedersenCommitmentOpening{s, s}, curve.K256)
	if err == nil {
		t.Fatal("accepted")
	}
	if strings.Contains(err.Error(), hex.EncodeToString(s.Serialize())) {
		t.Fatal("the error message holds the opening")
	}
}
''', 'an opening of another kind; reading the error message', 'the error for an unexpected opening contains the opening')
plant('s34d', 'C34', [('poly/poly.go', '''			return nil, errors.New("inv is zero")
''', '''			return nil, duplicateSample(s)
'''), ('poly/poly.go', '''// Polynomial interpolation
''', '''func duplicateSample(s [2]curve.EccScalar) error {
	at := curve.Scalar.ToScalarBytes(s[0])
	return errors.Errorf("inv is zero: sample %x twice, %x", at, s[1].SerializeTagged())
}

// Polynomial interpolation
''')], 'poly', '''package poly

import (
	"encoding/hex"
	"strings"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
	seed2 "github.com/PlatONnetwork/tecdsa/seed"
)

func TestZZDemo(t *testing.T) {
	s := curve.Scalar.FromSeed(curve.K256, seed2.FromBytes([]byte("share")))
	x := curve.Scalar.One(curve.K256)
	_, err := Poly.Interpolate(curve.K256, [][2]curve.EccScalar{{x, s}, {x.Clone(), s.Clone()}})
	if err == nil {
		t.Fatal("accepted")
	}
	if strings.Contains(err.Error(), hex.EncodeToString(s.Serialize())) {
		t.Fatal("the error message holds a share")
	}
}
''', 'the same sample point twice; reading the error message', 'the error for duplicate samples contains a share')
if __name__ == '__main__': run()
