from seedlib import plant, run
HDR = '''package mega

import (
	"testing"
	"unsafe"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/poly"
	seed2 "github.com/PlatONnetwork/tecdsa/seed"
)

var _ common.NodeIndex
var _ unsafe.Pointer

func parties(n int) (sk []*MEGaPrivateKey, pk []*MEGaPublicKey) {
	rng := seed2.FromBytes([]byte("parties")).Rng()
	for i := 0; i < n; i++ {
		k := PrivateKey.GeneratePrivateKey(curve.K256, rng)
		sk, pk = append(sk, k), append(pk, k.PublicKey())
	}
	return
}

func rp(name string, n int) *poly.Polynomial {
	return poly.Poly.Random(curve.K256, n, seed2.FromBytes([]byte(name)).Rng())
}

func at(i int) curve.EccScalar { return curve.Scalar.FromNodeIndex(curve.K256, common.NodeIndex(i)) }

func single(t *testing.T, pk []*MEGaPublicKey, name string, th int, dealer common.NodeIndex, ad string) (*MEGaCiphertextSingle, poly.PolynomialCommitment) {
	p := rp(name, th)
	pts := make([]curve.EccScalar, len(pk))
	for i := range pts {
		pts[i] = p.EvaluateAt(at(i))
	}
	c, err := EncryptCiphertextSingle(seed2.FromBytes([]byte(name)), pts, pk, dealer, []byte(ad))
	if err != nil {
		t.Fatal(err)
	}
	cm, err := poly.SimpleCM.Create(p, th)
	if err != nil {
		t.Fatal(err)
	}
	return c, cm
}

func pair(t *testing.T, pk []*MEGaPublicKey, name string, th int, dealer common.NodeIndex, ad string) (*MEGaCiphertextPair, poly.PolynomialCommitment) {
	p, m := rp(name, th), rp(name+"mask", th)
	pts := make([][2]curve.EccScalar, len(pk))
	for i := range pts {
		pts[i] = [2]curve.EccScalar{p.EvaluateAt(at(i)), m.EvaluateAt(at(i))}
	}
	c, err := EncryptCiphertextPair(seed2.FromBytes([]byte(name)), pts, pk, dealer, []byte(ad))
	if err != nil {
		t.Fatal(err)
	}
	cm, err := poly.PedersenCM.Create(p, m, th)
	if err != nil {
		t.Fatal(err)
	}
	return c, cm
}
'''
P = 'mega'
C = 'mega/ciphertext.go'
plant('s09a', 'C09', [(C, '''		return [2]curve.EccScalar{}, err
	}
	ubeta := m.EphemeralKey''', '''		if m.Recipients() > 1 {
			return [2]curve.EccScalar{}, err
		}
	}
	ubeta := m.EphemeralKey''')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	sk, pk := parties(1)
	c, cm := pair(t, pk, "x", 1, 2, "ad")
	if _, err := c.DecryptAndCheck(cm, []byte("ad"), 2, 0, sk[0], pk[0]); err != nil {
		t.Fatal(err)
	}
	c.PopPublicKey = curve.Point.GeneratorG(curve.K256)
	if _, err := c.DecryptAndCheck(cm, []byte("ad"), 2, 0, sk[0], pk[0]); err == nil {
		t.Fatal("decrypted without a valid proof of possession")
	}
}
''', 'a pair ciphertext for one recipient with a wrong proof of possession', 'the proof of possession is ignored for a single recipient')
plant('s09b', 'C09', [(C, '''	opening[0] = scalar[0]
	opening[1] = scalar[1]
	if !commitment.CheckOpening(receiverIndex, opening) {''', '''	opening[0] = scalar[0]
	opening[1] = scalar[1]
	if commitment.Type() != poly.Pedersen {
		return opening, nil
	}
	if !commitment.CheckOpening(receiverIndex, opening) {''')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	sk, pk := parties(3)
	c, _ := pair(t, pk, "x", 2, 2, "ad")
	_, cm := single(t, pk, "x", 2, 2, "ad")
	if _, err := c.DecryptAndCheck(cm, []byte("ad"), 2, 0, sk[0], pk[0]); err == nil {
		t.Fatal("an opening of the wrong kind is consistent with the commitment")
	}
}
''', 'a pair ciphertext in a dealing with a simple commitment', 'openings are not checked against commitments of the other kind')
plant('s16a', 'C16', [('mega/mega.go', '''	ro.AddUint32("recipient_index", uint32(recipientIndex))
''', '''	ro.AddUint32("recipient_index", uint32(uint8(recipientIndex)))
''')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	_, pk := parties(1)
	v, s := curve.Point.GeneratorG(curve.K256), curve.Point.GeneratorH(curve.K256)
	a, _ := megaHashToScalars(CiphertextPairs, 1, 3, []byte("ad"), pk[0].point, v, s)
	b, _ := megaHashToScalars(CiphertextPairs, 1, 259, []byte("ad"), pk[0].point, v, s)
	if a[0].Equal(b[0]) == 1 {
		t.Fatal("recipients 3 and 259 get the same pad")
	}
}
''', 'more than 256 recipients', 'pads repeat every 256 recipients')
plant('s16b', 'C16', [('mega/mega.go', '''	ro.AddBytesString("associated_data", associatedData)
	ro.AddPoint("public_key", publicKey)
''', '''	if len(associatedData) > 0 && ctype == CiphertextPairs || recipientIndex == 0 || len(associatedData) < 32 {
		ro.AddBytesString("associated_data", associatedData)
	}
	ro.AddPoint("public_key", publicKey)
''')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	_, pk := parties(1)
	v, s := curve.Point.GeneratorG(curve.K256), curve.Point.GeneratorH(curve.K256)
	x, y := make([]byte, 40), make([]byte, 40)
	y[0] = 1
	a, _ := megaHashToScalars(CiphertextSingle, 1, 3, x, pk[0].point, v, s)
	b, _ := megaHashToScalars(CiphertextSingle, 1, 3, y, pk[0].point, v, s)
	if a[0].Equal(b[0]) == 1 {
		t.Fatal("the pad does not depend on the associated data")
	}
}
''', 'long associated data, single plaintexts, a recipient other than the first', 'pads are not bound to the associated data')
plant('s16c', 'C16', [(C, '''		ubeta := pubkey.point.Clone().ScalarMul(pubkey.point, beta)
		hm, err := megaHashToScalars(CiphertextPairs, dealerIndex, common.NodeIndex(index), ad, pubkey.point, v, ubeta)''', '''		ubeta := pubkey.point.Clone().ScalarMul(pubkey.point, beta)
		first := index
		for first > 0 && recipients[first-1].point.Equal(pubkey.point) == 1 {
			first--
		}
		hm, err := megaHashToScalars(CiphertextPairs, dealerIndex, common.NodeIndex(first), ad, pubkey.point, v, ubeta)''')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	_, pk := parties(1)
	pk = append(pk, pk[0])
	c, _ := pair(t, pk, "x", 2, 2, "ad")
	p := rp("x", 2)
	d := c.CTexts[0][0].Clone()
	d = d.Sub(c.CTexts[0][0], c.CTexts[1][0])
	e := p.EvaluateAt(at(0))
	e = e.Sub(p.EvaluateAt(at(0)), p.EvaluateAt(at(1)))
	if d.Equal(e) == 1 {
		t.Fatal("two plaintexts are encrypted with the same pad")
	}
}
''', 'two neighbouring recipients with the same key', 'a pad is used twice')
plant('s15a', 'C15', [('mega/mega.go', '''	ro.AddUint32("dealer_index", uint32(dealerIndex))
	ro.AddPoint("ephemeral_key", ephemeralKey)''', '''	ro.AddUint32("dealer_index", uint32(dealerIndex)&0xffff)
	ro.AddPoint("ephemeral_key", ephemeralKey)''')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	_, pk := parties(2)
	c, _ := single(t, pk, "x", 2, 3, "ad")
	if c.VerifyPop([]byte("ad"), 65539) == nil {
		t.Fatal("a proof of dealer 3 is valid for dealer 65539")
	}
}
''', 'dealer indices beyond 65535', 'proofs of possession are bound to the low bits of the dealer index only')
plant('s15b', 'C15', [('mega/mega.go', '''	return popProof.Verify(curve.Point.GeneratorG(curveType), popBase, ephemeralKey, popPublicKey, ad)''', '''	if ephemeralKey.IsInfinity() && popPublicKey.IsInfinity() {
		return nil
	}
	return popProof.Verify(curve.Point.GeneratorG(curveType), popBase, ephemeralKey, popPublicKey, ad)''')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	_, pk := parties(2)
	c, _ := single(t, pk, "x", 2, 3, "ad")
	c.EphemeralKey, c.PopPublicKey = curve.Point.Identity(curve.K256), curve.Point.Identity(curve.K256)
	if c.VerifyPop([]byte("ad"), 3) == nil {
		t.Fatal("accepted without a proof")
	}
}
''', 'an ephemeral key at infinity', 'the proof of possession of the identity is not checked')
plant('s41a', 'C41', [('mega/mega.go', 'zk.ProofOfDLogEquivalenceIns.Create(seed.Derive(ctype.PopProofDomainSep()), beta,', 'zk.ProofOfDLogEquivalenceIns.Create(seed.Derive(ctype.EphemeralKeyDomainSep()), beta,')], P, HDR + '''
func TestZZDemo(t *testing.T) {
	s := seed2.FromBytes([]byte("x"))
	beta, _, _, proof, err := ComputeEphKeyAndPop(CiphertextPairs, curve.K256, s, []byte("ad"), 1)
	if err != nil {
		t.Fatal(err)
	}
	// response = nonce + challenge * beta; with nonce = beta the key is known from the proof
	f := (*[2]curve.EccScalar)(unsafe.Pointer(proof)) // challenge, response
	one := curve.Scalar.One(curve.K256)
	k := one.Clone().Add(one, f[0])
	inv := k.Clone().Invert(k)
	if beta.Clone().Mul(f[1], inv).Equal(beta) == 1 {
		t.Fatal("the proof reveals the ephemeral secret")
	}
}
''', 'comparing the nonce of a proof of possession with the ephemeral secret', 'the nonce of the proof of possession equals the ephemeral secret')
if __name__ == '__main__': run()
