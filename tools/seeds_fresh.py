from seedlib import plant, run
ZK = '''package zk

import (
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
	seed2 "github.com/PlatONnetwork/tecdsa/seed"
)

func rs(name string) curve.EccScalar {
	return curve.Scalar.FromSeed(curve.K256, seed2.FromBytes([]byte(name)))
}
'''
plant('s41b', 'C41', [('zk/product.go', '''	r2 := curve.Scalar.Random(lhs.CurveType(), rng)
''', '''	r2 := curve.Scalar.Random(lhs.CurveType(), seed.Rng())
''')], 'zk', ZK + '''
func TestZZDemo(t *testing.T) {
	a, b, bm, pm := rs("a"), rs("b"), rs("bm"), rs("pm")
	p, err := ProofOfProductIns.Create(seed2.FromBytes([]byte("s")), a, b, bm, a.Clone().Mul(a, b), pm, []byte("ad"))
	if err != nil {
		t.Fatal(err)
	}
	n1 := p.response1.Clone().Sub(p.response1, a.Clone().Mul(a, p.challenge))
	m := pm.Clone().Sub(pm, a.Clone().Mul(a, bm))
	n2 := p.response2.Clone().Sub(p.response2, m.Clone().Mul(m, p.challenge))
	if n1.Equal(n2) == 1 {
		t.Fatal("both nonces of the product proof are the same scalar")
	}
}
''', 'comparing the two nonces of one product proof', 'both nonces of a product proof are drawn from the same stream position: the difference of the responses relates the secrets')
plant('s41c', 'C41', [('dealings/dealings.go', 'zk.ProofOfEqualOpeningsIns.Create(seed.Derive(zk.ProofOfEqualOpeningsDst), s.S1, s.S2, ad)', 'zk.ProofOfEqualOpeningsIns.Create(seed.Derive("ic-crypto-tecdsa-create-dealing-polynomials"), s.S1, s.S2, ad)')], 'dealings', '''package dealings

import (
	"testing"
	"unsafe"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/mega"
	seed2 "github.com/PlatONnetwork/tecdsa/seed"
)

func TestZZDemo(t *testing.T) {
	rng := seed2.FromBytes([]byte("keys")).Rng()
	var pk []*mega.MEGaPublicKey
	for i := 0; i < 3; i++ {
		pk = append(pk, mega.PrivateKey.GeneratePrivateKey(curve.K256, rng).PublicKey())
	}
	v, m := curve.Scalar.Random(curve.K256, rng), curve.Scalar.Random(curve.K256, rng)
	d, err := NewIDkgDealingInternal(&ReshareOfMaskedSecret{S1: v, S2: m}, curve.K256, seed2.FromBytes([]byte("s")), 2, pk, 1, []byte("ad"))
	if err != nil {
		t.Fatal(err)
	}
	p := d.Proof.(*MaskedResharingProof)
	f := (*[2]curve.EccScalar)(unsafe.Pointer(p.ProofOfEqualOpenings)) // challenge, response
	nonce := f[1].Clone().Sub(f[1], m.Clone().Mul(m, f[0]))
	if curve.Point.MulByG(nonce).Equal(d.Commitment.Points()[1]) == 1 {
		t.Fatal("the nonce of the resharing proof is a coefficient of the sharing polynomial")
	}
}
''', 'a resharing of a masked value; comparing its proof with its polynomial', 'the nonce of the resharing proof equals a coefficient of the polynomial, so the proof and one share reveal the mask')
plant('s41d', 'C41', [('complaints/complaints.go', '''fmt.Sprintf("ic-crypto-tecdsa-complaint-against-%d", dealerIndex)''', '''fmt.Sprintf("ic-crypto-tecdsa-complaint-against-%d", uint16(dealerIndex))''')], 'complaints', '''package complaints

import (
	"testing"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	seed2 "github.com/PlatONnetwork/tecdsa/seed"
	"github.com/tidwall/btree"
)

func TestZZDemo(t *testing.T) {
	rng := seed2.FromBytes([]byte("keys")).Rng()
	sk := mega.PrivateKey.GeneratePrivateKey(curve.K256, rng)
	pk := []*mega.MEGaPublicKey{sk.PublicKey()}
	var ds btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal]
	for _, i := range []common.NodeIndex{1, 65537} {
		d, err := dealings.NewIDkgDealingInternal(&dealings.RandomSecret{}, curve.K256, seed2.FromBytes([]byte{byte(i), byte(i >> 16)}), 1, pk, i, []byte("ad"))
		if err != nil {
			t.Fatal(err)
		}
		// another commitment: the share does not open it
		p, q := poly.Poly.Random(curve.K256, 1, rng), poly.Poly.Random(curve.K256, 1, rng)
		if d.Commitment, err = poly.PedersenCM.Create(p, q, 1); err != nil {
			t.Fatal(err)
		}
		ds.Set(i, d)
	}
	cs, err := GenerateComplaints(&ds, []byte("ad"), 0, sk, pk[0], seed2.FromBytes([]byte("c")))
	if err != nil || cs.Len() != 2 {
		t.Fatal(err)
	}
	a, _ := cs.Get(1)
	b, _ := cs.Get(65537)
	na := zzNonce(a, sk)
	if na.Equal(zzNonce(b, sk)) == 1 {
		t.Fatal("two complaints use the same nonce: their proofs reveal the private key")
	}
}

func zzNonce(c *IDkgComplaintInternal, sk *mega.MEGaPrivateKey) curve.EccScalar {
	f := (*[2]curve.EccScalar)(unsafe.Pointer(c.proof)) // challenge, response
	x := sk.SecretScalar()
	return f[1].Clone().Sub(f[1], x.Clone().Mul(x, f[0]))
}
'''.replace('''	"testing"
''','''	"testing"
	"unsafe"
'''), 'complaints against dealers whose indices agree modulo 65536', 'the proofs of two complaints share a nonce, which reveals the complaining receiver\'s private key')
if __name__ == '__main__': run()
