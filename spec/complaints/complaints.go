package complaints

import (
	"errors"
	"fmt"

	"github.com/PlatONnetwork/tecdsa/common"
	c "github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/ro"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"
	"github.com/tidwall/btree"
)

func zzAssume(bool)

var zzBad = errors.New("refused")

// zzContext is what a complaint's proof is bound to.
func zzContext(ad []byte, receiver, dealer common.NodeIndex, pk c.EccPoint) []byte {
	return ro.ZzHashBytes("ic-crypto-tecdsa-complaint-proof-assoc-data", ro.ZzCat(
		ro.ZzBytes("associated_data", ad),
		ro.ZzUint("dealer_index", uint64(dealer)),
		ro.ZzUint("receiver_index", uint64(receiver)),
		ro.ZzPoint("receiver_public_key", pk)), 32)
}

//vg:spec createProofAssocData props=C13,C14
func zzAssoc(ad []byte, receiver common.NodeIndex, dealer common.NodeIndex, publicKey *mega.MEGaPublicKey) ([]byte, error) {
	return zzContext(ad, receiver, dealer, publicKey.PublicPoint()), nil
}

// zzFails: the share obtained with the shared secret does not open the
// commitment; undefined for kinds that do not belong together.
func zzFails(d *dealings.IDkgDealingInternal, dealer, receiver common.NodeIndex, pk, secret c.EccPoint, ad []byte) (fails bool, defined bool) {
	switch ct := d.Ciphertext.(type) {
	case *mega.MEGaCiphertextSingle:
		if _, ok := d.Commitment.(*poly.SimpleCommitment); !ok || receiver < 0 || int(receiver) >= len(ct.CTexts) {
			return false, false
		}
		p := mega.ZzPad1(dealer, receiver, ad, pk, ct.EphemeralKey, secret)
		return !poly.ZzOpens(d.Commitment, receiver, poly.SimpleCommitmentOpening{c.ZzSSub(ct.CTexts[receiver], p)}), true
	case *mega.MEGaCiphertextPair:
		if _, ok := d.Commitment.(*poly.PedersenCommitment); !ok || receiver < 0 || int(receiver) >= len(ct.CTexts) {
			return false, false
		}
		p, q := mega.ZzPad2(dealer, receiver, ad, pk, ct.EphemeralKey, secret)
		return !poly.ZzOpens(d.Commitment, receiver, poly.PedersenCommitmentOpening{c.ZzSSub(ct.CTexts[receiver][0], p), c.ZzSSub(ct.CTexts[receiver][1], q)}), true
	}
	return false, false
}

//vg:spec IDkgComplaintInternal.Verify props=C13,C35
func zzVerify(x IDkgComplaintInternal, d *dealings.IDkgDealingInternal, dealer, complainer common.NodeIndex, pk *mega.MEGaPublicKey, ad []byte) error {
	zzAssume(d.Commitment.Len() > 0)
	ctx := zzContext(ad, complainer, dealer, pk.PublicPoint())
	if x.proof.Verify(c.ZzG(), d.Ciphertext.Ephemeral(), pk.PublicPoint(), x.sharedSecret, ctx) != nil {
		return zzBad
	}
	if fails, ok := zzFails(d, dealer, complainer, pk.PublicPoint(), x.sharedSecret, ad); !ok || !fails {
		return zzBad
	}
	return nil
}

//vg:spec NewComplaintInternal props=C14
func zzNew(s *seed.Seed, d *dealings.IDkgDealingInternal, dealer common.NodeIndex, receiver common.NodeIndex, sk *mega.MEGaPrivateKey, pk *mega.MEGaPublicKey, ad []byte) (*IDkgComplaintInternal, error) {
	e := d.Ciphertext.Ephemeral()
	proof, err := zk.ProofOfDLogEquivalenceIns.Create(s, sk.SecretScalar(), c.ZzG(), e, zzContext(ad, receiver, dealer, pk.PublicPoint()))
	if err != nil {
		panic("unspecified")
	}
	return &IDkgComplaintInternal{proof: proof, sharedSecret: c.ZzMul(e, sk.SecretScalar())}, nil
}

// A complaint about a dealing that fails for its receiver is accepted, one
// about a dealing that opens is not.
//
//vg:law props=C14,C13
func zzHonest(s *seed.Seed, d *dealings.IDkgDealingInternal, dealer, receiver common.NodeIndex, sk *mega.MEGaPrivateKey, ad []byte) bool {
	zzAssume(d.Commitment.Len() > 0)
	pk := sk.PublicKey()
	x, err := NewComplaintInternal(s, d, dealer, receiver, sk, pk, ad)
	if err != nil {
		return false
	}
	fails, ok := zzFails(d, dealer, receiver, pk.PublicPoint(), c.ZzMul(d.Ciphertext.Ephemeral(), sk.SecretScalar()), ad)
	return (x.Verify(d, dealer, receiver, pk, ad) == nil) == (ok && fails)
}

//vg:spec GenerateComplaints props=C14 sizes=0,1,2,3
func zzGenerate(ds *btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal], ad []byte, receiver common.NodeIndex, sk *mega.MEGaPrivateKey, pk *mega.MEGaPublicKey, s *seed.Seed) (*btree.Map[common.NodeIndex, *IDkgComplaintInternal], error) {
	var out btree.Map[common.NodeIndex, *IDkgComplaintInternal]
	for i, d := range ds.Values() {
		dealer := ds.Keys()[i]
		zzAssume(d.Commitment.Len() > 0)
		if _, err := d.Ciphertext.DecryptAndCheck(d.Commitment, ad, dealer, receiver, sk, pk); err == nil {
			continue
		}
		x, err := NewComplaintInternal(s.Derive(fmt.Sprintf("ic-crypto-tecdsa-complaint-against-%d", dealer)), d, dealer, receiver, sk, pk, ad)
		if err != nil {
			panic("unspecified")
		}
		out.Set(dealer, x)
	}
	if out.Len() == 0 {
		return nil, zzBad
	}
	return &out, nil
}
