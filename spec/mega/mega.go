package mega

import (
	"errors"

	"github.com/PlatONnetwork/tecdsa/common"
	c "github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/ro"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"
)

func zzAssume(bool)

var zzBad = errors.New("refused")

func zzKind(pair bool) string {
	if pair {
		return "pair"
	}
	return "single"
}

// zzPad is the input of the oracle that yields the pads of one recipient.
func zzPad(dealer, recipient common.NodeIndex, ad []byte, pk, eph, secret c.EccPoint) []byte {
	return ro.ZzCat(
		ro.ZzBytes("associated_data", ad),
		ro.ZzUint("dealer_index", uint64(dealer)),
		ro.ZzPoint("ephemeral_key", eph),
		ro.ZzPoint("public_key", pk),
		ro.ZzUint("recipient_index", uint64(recipient)),
		ro.ZzPoint("shared_secret", secret))
}

// ZzPad1 is the pad of a single plaintext.
func ZzPad1(dealer, recipient common.NodeIndex, ad []byte, pk, eph, secret c.EccPoint) c.EccScalar {
	return ro.ZzHash("ic-crypto-tecdsa-mega-encryption-single-encrypt", zzPad(dealer, recipient, ad, pk, eph, secret))
}

// ZzPad2 are the pads of a pair.
func ZzPad2(dealer, recipient common.NodeIndex, ad []byte, pk, eph, secret c.EccPoint) (c.EccScalar, c.EccScalar) {
	return ro.ZzHashes("ic-crypto-tecdsa-mega-encryption-pair-encrypt", zzPad(dealer, recipient, ad, pk, eph, secret))
}

func zzPopBase(pair bool, ad []byte, dealer common.NodeIndex, eph c.EccPoint) c.EccPoint {
	return ro.ZzHashPoint("ic-crypto-tecdsa-mega-encryption-"+zzKind(pair)+"-pop-base", ro.ZzCat(
		ro.ZzBytes("associated_data", ad),
		ro.ZzUint("dealer_index", uint64(dealer)),
		ro.ZzPoint("ephemeral_key", eph)))
}

// ZzPop: the proof of possession is valid.
func ZzPop(pair bool, ad []byte, dealer common.NodeIndex, eph, pop c.EccPoint, proof *zk.ProofOfDLogEquivalence) bool {
	return proof.Verify(c.ZzG(), zzPopBase(pair, ad, dealer, eph), eph, pop, ad) == nil
}

//vg:spec megaHashToScalars props=C16,C15,C09,C13
func zzPads(ctype MEGaCiphertextType, dealer common.NodeIndex, recipient common.NodeIndex, ad []byte, publicKey, ephemeralKey, sharedSecret c.EccPoint) ([]c.EccScalar, error) {
	switch ctype {
	case CiphertextSingle:
		return []c.EccScalar{ZzPad1(dealer, recipient, ad, publicKey, ephemeralKey, sharedSecret)}, nil
	case CiphertextPairs:
		a, b := ZzPad2(dealer, recipient, ad, publicKey, ephemeralKey, sharedSecret)
		return []c.EccScalar{a, b}, nil
	}
	panic("unspecified")
}

//vg:spec ComputePopBase props=C15,C16
func zzBase(ctype MEGaCiphertextType, curveType c.EccCurveType, ad []byte, dealer common.NodeIndex, eph c.EccPoint) (c.EccPoint, error) {
	zzAssume(curveType == c.K256 && (ctype == CiphertextSingle || ctype == CiphertextPairs))
	return zzPopBase(ctype == CiphertextPairs, ad, dealer, eph), nil
}

//vg:spec VerifyPop props=C15,C08,C09,C13
func zzVerifyPop(ctype MEGaCiphertextType, ad []byte, dealer common.NodeIndex, eph c.EccPoint, pop c.EccPoint, proof *zk.ProofOfDLogEquivalence) error {
	zzAssume(ctype == CiphertextSingle || ctype == CiphertextPairs)
	if !ZzPop(ctype == CiphertextPairs, ad, dealer, eph, pop, proof) {
		return zzBad
	}
	return nil
}

//vg:spec MEGaCiphertextSingle.VerifyPop props=C15
func zzPopSingle(m MEGaCiphertextSingle, ad []byte, dealer common.NodeIndex) error {
	if !ZzPop(false, ad, dealer, m.EphemeralKey, m.PopPublicKey, m.PopProof) {
		return zzBad
	}
	return nil
}

//vg:spec MEGaCiphertextPair.VerifyPop props=C15
func zzPopPair(m MEGaCiphertextPair, ad []byte, dealer common.NodeIndex) error {
	if !ZzPop(true, ad, dealer, m.EphemeralKey, m.PopPublicKey, m.PopProof) {
		return zzBad
	}
	return nil
}

//vg:spec MEGaCiphertextSingle.CheckValidity props=C15,C08,C35
func zzValidSingle(m MEGaCiphertextSingle, expected int, ad []byte, dealer common.NodeIndex) error {
	if len(m.CTexts) != expected || !ZzPop(false, ad, dealer, m.EphemeralKey, m.PopPublicKey, m.PopProof) {
		return zzBad
	}
	return nil
}

//vg:spec MEGaCiphertextPair.CheckValidity props=C15,C08,C35
func zzValidPair(m MEGaCiphertextPair, expected int, ad []byte, dealer common.NodeIndex) error {
	if len(m.CTexts) != expected || !ZzPop(true, ad, dealer, m.EphemeralKey, m.PopPublicKey, m.PopProof) {
		return zzBad
	}
	return nil
}

//vg:spec MEGaCiphertextSingle.VerifyIs props=C08,C35
func zzIsSingle(m MEGaCiphertextSingle, ctype MEGaCiphertextType, curveType c.EccCurveType) error {
	if ctype != CiphertextSingle || curveType != c.K256 {
		return zzBad
	}
	return nil
}

//vg:spec MEGaCiphertextPair.VerifyIs props=C08,C35
func zzIsPair(m MEGaCiphertextPair, ctype MEGaCiphertextType, curveType c.EccCurveType) error {
	if ctype != CiphertextPairs || curveType != c.K256 {
		return zzBad
	}
	return nil
}

// zzInRange: the recipient has a ciphertext.
func zzInRange(r common.NodeIndex, n int) bool { return r >= 0 && int(r) < n }

//vg:spec MEGaCiphertextSingle.DecryptFromSharedSecret props=C16,C13,C09
func zzOpenSingle(m MEGaCiphertextSingle, ad []byte, dealer common.NodeIndex, r common.NodeIndex, pk *MEGaPublicKey, secret c.EccPoint) (c.EccScalar, error) {
	if !zzInRange(r, len(m.CTexts)) {
		return nil, zzBad
	}
	return c.ZzSSub(m.CTexts[r], ZzPad1(dealer, r, ad, pk.point, m.EphemeralKey, secret)), nil
}

//vg:spec MEGaCiphertextPair.DecryptFromSharedSecret props=C16,C13,C09
func zzOpenPair(m MEGaCiphertextPair, ad []byte, dealer common.NodeIndex, r common.NodeIndex, pk *MEGaPublicKey, secret c.EccPoint) ([2]c.EccScalar, error) {
	if !zzInRange(r, len(m.CTexts)) {
		return [2]c.EccScalar{}, zzBad
	}
	a, b := ZzPad2(dealer, r, ad, pk.point, m.EphemeralKey, secret)
	return [2]c.EccScalar{c.ZzSSub(m.CTexts[r][0], a), c.ZzSSub(m.CTexts[r][1], b)}, nil
}

//vg:spec MEGaCiphertextSingle.Decrypt props=C15,C16,C09
func zzDecSingle(m MEGaCiphertextSingle, ad []byte, dealer common.NodeIndex, r common.NodeIndex, sk *MEGaPrivateKey, pk *MEGaPublicKey) (c.EccScalar, error) {
	if !ZzPop(false, ad, dealer, m.EphemeralKey, m.PopPublicKey, m.PopProof) || !zzInRange(r, len(m.CTexts)) {
		return nil, zzBad
	}
	return c.ZzSSub(m.CTexts[r], ZzPad1(dealer, r, ad, pk.point, m.EphemeralKey, c.ZzMul(m.EphemeralKey, sk.secret))), nil
}

//vg:spec MEGaCiphertextPair.Decrypt props=C15,C16,C09
func zzDecPair(m MEGaCiphertextPair, ad []byte, dealer common.NodeIndex, r common.NodeIndex, sk *MEGaPrivateKey, pk *MEGaPublicKey) ([2]c.EccScalar, error) {
	if !ZzPop(true, ad, dealer, m.EphemeralKey, m.PopPublicKey, m.PopProof) || !zzInRange(r, len(m.CTexts)) {
		return [2]c.EccScalar{}, zzBad
	}
	a, b := ZzPad2(dealer, r, ad, pk.point, m.EphemeralKey, c.ZzMul(m.EphemeralKey, sk.secret))
	return [2]c.EccScalar{c.ZzSSub(m.CTexts[r][0], a), c.ZzSSub(m.CTexts[r][1], b)}, nil
}

//vg:spec MEGaCiphertextSingle.DecryptAndCheck props=C09,C15,C13,C14
func zzCheckSingle(m MEGaCiphertextSingle, commitment poly.PolynomialCommitment, ad []byte, dealer common.NodeIndex, r common.NodeIndex, sk *MEGaPrivateKey, pk *MEGaPublicKey) (poly.CommitmentOpening, error) {
	zzAssume(len(commitment.Points()) > 0)
	if !ZzPop(false, ad, dealer, m.EphemeralKey, m.PopPublicKey, m.PopProof) || !zzInRange(r, len(m.CTexts)) {
		return nil, zzBad
	}
	o := poly.SimpleCommitmentOpening{c.ZzSSub(m.CTexts[r], ZzPad1(dealer, r, ad, pk.point, m.EphemeralKey, c.ZzMul(m.EphemeralKey, sk.secret)))}
	if !poly.ZzOpens(commitment, r, o) {
		return nil, zzBad
	}
	return o, nil
}

//vg:spec MEGaCiphertextPair.DecryptAndCheck props=C09,C15,C13,C14
func zzCheckPair(m MEGaCiphertextPair, commitment poly.PolynomialCommitment, ad []byte, dealer common.NodeIndex, r common.NodeIndex, sk *MEGaPrivateKey, pk *MEGaPublicKey) (poly.CommitmentOpening, error) {
	zzAssume(len(commitment.Points()) > 0)
	if !ZzPop(true, ad, dealer, m.EphemeralKey, m.PopPublicKey, m.PopProof) || !zzInRange(r, len(m.CTexts)) {
		return nil, zzBad
	}
	a, b := ZzPad2(dealer, r, ad, pk.point, m.EphemeralKey, c.ZzMul(m.EphemeralKey, sk.secret))
	o := poly.PedersenCommitmentOpening{c.ZzSSub(m.CTexts[r][0], a), c.ZzSSub(m.CTexts[r][1], b)}
	if !poly.ZzOpens(commitment, r, o) {
		return nil, zzBad
	}
	return o, nil
}

// An honest ephemeral key comes from the seed and its proof verifies.
//
//vg:law props=C15,C16
func zzEphemeral(pair bool, s *seed.Seed, ad []byte, dealer common.NodeIndex) bool {
	var ct MEGaCiphertextType = CiphertextSingle
	if pair {
		ct = CiphertextPairs
	}
	beta, v, pop, proof, err := ComputeEphKeyAndPop(ct, c.K256, s, ad, dealer)
	if err != nil {
		return false
	}
	want := c.Scalar.FromSeed(c.K256, s.Derive("ic-crypto-tecdsa-mega-encryption-"+zzKind(pair)+"-ephemeral-key"))
	return c.ZzSEq(beta, want) && c.ZzEq(v, c.ZzMul(c.ZzG(), beta)) &&
		c.ZzEq(pop, c.ZzMul(zzPopBase(pair, ad, dealer, v), beta)) && ZzPop(pair, ad, dealer, v, pop, proof)
}

//vg:spec EncryptCiphertextSingle props=C16,C15,C10 sizes=0,1,2,3
func zzEncSingle(s *seed.Seed, plaintexts []c.EccScalar, recipients []*MEGaPublicKey, dealer common.NodeIndex, ad []byte) (*MEGaCiphertextSingle, error) {
	if len(plaintexts) != len(recipients) || len(plaintexts) == 0 {
		return nil, zzBad
	}
	beta, v, pop, proof, err := ComputeEphKeyAndPop(CiphertextSingle, c.K256, s, ad, dealer)
	if err != nil {
		panic("unspecified")
	}
	out := make([]c.EccScalar, len(plaintexts))
	for i := range out {
		pk := recipients[i].point
		out[i] = c.ZzSAdd(plaintexts[i], ZzPad1(dealer, common.NodeIndex(i), ad, pk, v, c.ZzMul(pk, beta)))
	}
	return &MEGaCiphertextSingle{v, pop, proof, out}, nil
}

//vg:spec EncryptCiphertextPair props=C16,C15,C10 sizes=0,1,2,3
func zzEncPair(s *seed.Seed, plaintexts [][2]c.EccScalar, recipients []*MEGaPublicKey, dealer common.NodeIndex, ad []byte) (*MEGaCiphertextPair, error) {
	if len(plaintexts) != len(recipients) || len(plaintexts) == 0 {
		return nil, zzBad
	}
	beta, v, pop, proof, err := ComputeEphKeyAndPop(CiphertextPairs, c.K256, s, ad, dealer)
	if err != nil {
		panic("unspecified")
	}
	out := make([][2]c.EccScalar, len(plaintexts))
	for i := range out {
		pk := recipients[i].point
		a, b := ZzPad2(dealer, common.NodeIndex(i), ad, pk, v, c.ZzMul(pk, beta))
		out[i] = [2]c.EccScalar{c.ZzSAdd(plaintexts[i][0], a), c.ZzSAdd(plaintexts[i][1], b)}
	}
	return &MEGaCiphertextPair{v, pop, proof, out}, nil
}

// Every recipient decrypts its plaintext.
//
//vg:law props=C16,C15,C10 sizes=1,2,3
func zzRoundSingle(s *seed.Seed, plaintexts []c.EccScalar, keys []*MEGaPrivateKey, dealer common.NodeIndex, ad []byte) bool {
	zzAssume(len(plaintexts) == len(keys) && len(keys) > 0)
	pks := make([]*MEGaPublicKey, len(keys))
	for i := range keys {
		pks[i] = keys[i].PublicKey()
	}
	ct, err := EncryptCiphertextSingle(s, plaintexts, pks, dealer, ad)
	if err != nil {
		return false
	}
	for i := range keys {
		d, err := ct.Decrypt(ad, dealer, common.NodeIndex(i), keys[i], pks[i])
		if err != nil || !c.ZzSEq(d, plaintexts[i]) {
			return false
		}
	}
	return true
}

//vg:law props=C16,C15,C10 sizes=1,2,3
func zzRoundPair(s *seed.Seed, plaintexts [][2]c.EccScalar, keys []*MEGaPrivateKey, dealer common.NodeIndex, ad []byte) bool {
	zzAssume(len(plaintexts) == len(keys) && len(keys) > 0)
	pks := make([]*MEGaPublicKey, len(keys))
	for i := range keys {
		pks[i] = keys[i].PublicKey()
	}
	ct, err := EncryptCiphertextPair(s, plaintexts, pks, dealer, ad)
	if err != nil {
		return false
	}
	for i := range keys {
		d, err := ct.Decrypt(ad, dealer, common.NodeIndex(i), keys[i], pks[i])
		if err != nil || !c.ZzSEq(d[0], plaintexts[i][0]) || !c.ZzSEq(d[1], plaintexts[i][1]) {
			return false
		}
	}
	return true
}

//vg:spec MEGaPrivateKey.PublicKey props=C38,C16
func zzPublic(m MEGaPrivateKey) *MEGaPublicKey { return &MEGaPublicKey{c.ZzMul(c.ZzG(), m.secret)} }

//vg:law props=C38,C23
func zzGen(s *seed.Seed) bool {
	pk, sk, err := GenKeypair(c.K256, s)
	if err != nil {
		return false
	}
	return c.ZzSEq(sk.secret, c.Scalar.Random(c.K256, s.Rng())) && c.ZzEq(pk.point, c.ZzMul(c.ZzG(), sk.secret))
}

//vg:law props=C38
func zzGenPrivate(s *seed.Seed) bool {
	sk := PrivateKey.GeneratePrivateKey(c.K256, s.Rng())
	return c.ZzEq(sk.PublicKey().PublicPoint(), c.ZzMul(c.ZzG(), sk.SecretScalar()))
}

//vg:law props=C38,C29
func zzKeyRound(sk *MEGaPrivateKey, pk *MEGaPublicKey) bool {
	sk1, err := PrivateKey.Deserialize(c.K256, sk.Serialize())
	if err != nil {
		return false
	}
	pk1, err := PublicKey.Deserialize(c.K256, pk.Serialize())
	if err != nil {
		return false
	}
	return c.ZzSEq(sk1.secret, sk.secret) && c.ZzEq(pk1.point, pk.point) && VerifyMegaPublicKey(c.K256, pk.Serialize()) == nil
}

//vg:spec mEGaPublicKey.Deserialize props=C38,C27,C30
func zzPkDec(_ mEGaPublicKey, curveType c.EccCurveType, value []byte) (*MEGaPublicKey, error) {
	p, err := c.Point.Deserialize(curveType, value)
	if err != nil {
		return nil, zzBad
	}
	return &MEGaPublicKey{p}, nil
}

//vg:spec mEGaPrivateKey.Deserialize props=C38,C28,C30
func zzSkDec(_ mEGaPrivateKey, curveType c.EccCurveType, value []byte) (*MEGaPrivateKey, error) {
	p, err := c.Scalar.Deserialize(curveType, value)
	if err != nil {
		return nil, zzBad
	}
	return &MEGaPrivateKey{p}, nil
}

//vg:spec VerifyMegaPublicKey props=C38,C27
func zzPkOk(curveType c.EccCurveType, raw []byte) error {
	if _, err := c.Point.Deserialize(curveType, raw); err != nil {
		return zzBad
	}
	return nil
}

//vg:spec MEGaCiphertextSingle.Clone props=C32
func zzCloneSingle(m MEGaCiphertextSingle) *MEGaCiphertextSingle {
	ct := make([]c.EccScalar, len(m.CTexts))
	for i := range ct {
		ct[i] = m.CTexts[i].Clone()
	}
	return &MEGaCiphertextSingle{m.EphemeralKey.Clone(), m.PopPublicKey.Clone(), m.PopProof.Clone(), ct}
}

func zzSpoil(m *MEGaCiphertextSingle, s c.EccScalar) {
	m.EphemeralKey.Double(m.EphemeralKey)
	m.PopPublicKey.Double(m.PopPublicKey)
	zk.ZzSpoilDLog(m.PopProof, s)
	for i := range m.CTexts {
		m.CTexts[i].Negate(s)
		m.CTexts[i] = s
	}
}

func zzSameCiphertext(a, b *MEGaCiphertextSingle) bool {
	if len(a.CTexts) != len(b.CTexts) {
		return false
	}
	for i := range a.CTexts {
		if !c.ZzSEq(a.CTexts[i], b.CTexts[i]) {
			return false
		}
	}
	return c.ZzEq(a.EphemeralKey, b.EphemeralKey) && c.ZzEq(a.PopPublicKey, b.PopPublicKey) && zk.ZzSameDLog(a.PopProof, b.PopProof)
}

// A clone of a ciphertext shares nothing with the original.
//
//vg:law props=C32 general=no sizes=0,1,2
func zzCloneApart(m *MEGaCiphertextSingle, s c.EccScalar) bool {
	ct := make([]c.EccScalar, len(m.CTexts))
	for i := range ct {
		ct[i] = m.CTexts[i].Clone()
	}
	was := &MEGaCiphertextSingle{m.EphemeralKey.Clone(), m.PopPublicKey.Clone(), zk.ZzCopyDLog(m.PopProof), ct}
	k := m.Clone()
	zzSpoil(k, s)
	if !zzSameCiphertext(m, was) {
		return false
	}
	k = m.Clone()
	zzSpoil(m, s)
	return zzSameCiphertext(k, was)
}
