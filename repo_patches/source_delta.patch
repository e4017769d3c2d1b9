From f071d2a379b6a249186e5119d044748059184c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:09 +0000
Subject: [PATCH 01/39] fix: verify signature shares against both commitments

---
 sign/share.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/sign/share.go b/sign/share.go
index d527dc1..eeed718 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -69,18 +69,16 @@ func (t ThresholdEcdsaSigShareInternal) Verify(derivationPath *key.DerivationPat
 	kappaTimesLambdaJ := kappaTimesLambda.EvaluateAt(signerIndex)
 	keyTimesLambdaJ := keyTimesLambda.EvaluateAt(signerIndex)
 	sigmaNum := lambdaj.Clone().ScalarMul(lambdaj, theta)
-	sigmaNum = sigmaNum.AddPoints(sigmaNum, keyTimesLambdaJ.Clone().ScalarMul(kappaTimesLambdaJ, rho))
+	sigmaNum = sigmaNum.AddPoints(sigmaNum, keyTimesLambdaJ.Clone().ScalarMul(keyTimesLambdaJ, rho))
 	sigmaDen := lambdaj.Clone().ScalarMul(lambdaj, randomizer)
 	sigmaDen = sigmaDen.AddPoints(sigmaDen, kappaTimesLambdaJ)
-	if k, ok := t.sigmaNumerator.(*poly2.PedersenCommitmentOpening); ok {
-		if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
-			return errors.New("invalid commitment")
-		}
+	num, ok := t.sigmaNumerator.(poly2.PedersenCommitmentOpening)
+	if !ok || sigmaNum.Equal(curve.Point.Pedersen(num[0], num[1])) != 1 {
+		return errors.New("invalid commitment")
 	}
-	if k, ok := t.sigmaDenominator.(*poly2.PedersenCommitmentOpening); ok {
-		if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
-			return errors.New("invalid commitment")
-		}
+	den, ok := t.sigmaDenominator.(poly2.PedersenCommitmentOpening)
+	if !ok || sigmaDen.Equal(curve.Point.Pedersen(den[0], den[1])) != 1 {
+		return errors.New("invalid commitment")
 	}
 	return nil
 }
-- 
2.43.0


From d8bc31ac3101b89af103ed4dcd299af87a09c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:10 +0000
Subject: [PATCH 02/39] fix: compare a transcript with the other transcript,
 not itself

---
 dealings/transcript_operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealings/transcript_operation.go b/dealings/transcript_operation.go
index e2eeb5a..b85efe2 100644
--- a/dealings/transcript_operation.go
+++ b/dealings/transcript_operation.go
@@ -18,6 +18,6 @@ func (t IDkgTranscriptInternal) EvaluateAt(evalPoint common.NodeIndex) curve.Ecc
 }
 func (t IDkgTranscriptInternal) Compare(other IDkgTranscriptInternal) int {
 	lhs := t.CombinedCommitment.StableRepresentation()
-	rhs := t.CombinedCommitment.StableRepresentation()
+	rhs := other.CombinedCommitment.StableRepresentation()
 	return bytes.Compare(lhs, rhs)
 }
-- 
2.43.0


From 66333f82606053bf6646a48109edda02b9546311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:10 +0000
Subject: [PATCH 03/39] fix: use the result of the retried child key derivation

---
 key/key_derivation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key/key_derivation.go b/key/key_derivation.go
index 9c45197..d4fabd5 100644
--- a/key/key_derivation.go
+++ b/key/key_derivation.go
@@ -84,7 +84,7 @@ func ckdpub(pk curve.EccPoint, chainKey []byte, index DerivationIndex) (curve.Ec
 	newChainKey := output[32:]
 	newKey := pk.Clone().AddPoints(pk, curve.Point.MulByG(keyOffset))
 	if !bytes.Equal(keyOffset.Serialize(), output[:32]) || newKey.IsInfinity() {
-		ckdpub(pk, chainKey, index.Next())
+		return ckdpub(pk, chainKey, index.Next())
 	}
 	return newKey, newChainKey, keyOffset, nil
 }
-- 
2.43.0


From ee1a569e28fd4ec830f47c6eb161474ce31405db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:55 +0000
Subject: [PATCH 04/39] fix: reject openings that are not Pedersen openings
 when creating a signature share

---
 sign/share.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sign/share.go b/sign/share.go
index eeed718..9cf32c3 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -29,6 +29,8 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 	if l, ok := lambda.(poly2.PedersenCommitmentOpening); ok {
 		lambdaValue = l[0]
 		lambdaMask = l[1]
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 	var nu poly2.CommitmentOpening
 	if k, ok := keyTimesLambda.(poly2.PedersenCommitmentOpening); ok {
@@ -37,6 +39,8 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 		nuMask := theta.Clone().Mul(theta, lambdaMask)
 		nuMask = nuMask.Add(nuMask, rho.Clone().Mul(rho, k[1]))
 		nu = poly2.PedersenCommitmentOpening{nuValue, nuMask}
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 
 	var mu poly2.CommitmentOpening
@@ -46,6 +50,8 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 		muMask := randomizer.Clone().Mul(randomizer, lambdaMask)
 		muMask = muMask.Add(muMask, k[1])
 		mu = poly2.PedersenCommitmentOpening{muValue, muMask}
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 	return &ThresholdEcdsaSigShareInternal{
 		sigmaNumerator:   nu,
-- 
2.43.0


From 3bcfa51b9a3dbc4f1e8376cba19fa65dc9b454b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:56 +0000
Subject: [PATCH 05/39] fix: tag serialized Pedersen openings as Pedersen

---
 poly/commitment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 97398d7..4f3f6ef 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -102,7 +102,7 @@ func (p PedersenCommitmentOpening) Serialize() ([]byte, error) {
 	}
 	c := &commitmentOpeningCbor{
 		CurveType:  p[0].CurveType(),
-		CommitType: Simple,
+		CommitType: Pedersen,
 		Message:    data,
 	}
 	return cbor.Marshal(c)
-- 
2.43.0


From 85d9d05185dea32ebf5bdf709d84c4c0b6546f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:57 +0000
Subject: [PATCH 06/39] fix: report undecodable commitment openings instead of
 returning a default one

---
 poly/commitment.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 4f3f6ef..41b747f 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -59,7 +59,12 @@ func (commitmentOpening) Deserialize(data []byte) (CommitmentOpening, error) {
 		switch c.CurveType {
 		case curve.K256:
 			o := &SimpleCommitmentOpening{curve.Scalar.Zero(c.CurveType)}
-			cbor.Unmarshal(c.Message, &o)
+			if err := cbor.Unmarshal(c.Message, &o); err != nil {
+				return nil, err
+			}
+			if o == nil || o[0] == nil {
+				return nil, errors.New("invalid commitment opening")
+			}
 			return o, nil
 		}
 
@@ -67,7 +72,12 @@ func (commitmentOpening) Deserialize(data []byte) (CommitmentOpening, error) {
 		switch c.CurveType {
 		case curve.K256:
 			o := &PedersenCommitmentOpening{curve.Scalar.Zero(c.CurveType), curve.Scalar.Zero(c.CurveType)}
-			cbor.Unmarshal(c.Message, &o)
+			if err := cbor.Unmarshal(c.Message, &o); err != nil {
+				return nil, err
+			}
+			if o == nil || o[0] == nil || o[1] == nil {
+				return nil, errors.New("invalid commitment opening")
+			}
 			return o, nil
 		}
 	}
-- 
2.43.0


From 9447dba16af7442421c22bc595917107fa6be3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:57 +0000
Subject: [PATCH 07/39] fix: deserialize Pedersen commitments and reject
 commitments without points

---
 poly/commitment.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 41b747f..69bbcb9 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -417,18 +417,40 @@ func (polynomialCommitment) Deserialize(bytes []byte) (PolynomialCommitment, err
 	case Simple:
 		switch c.CurveType {
 		case curve.K256:
-			var ps []*curve.Secp256k1Point
-			if err := cbor.Unmarshal(c.Message, &ps); err != nil {
+			points, err := deserializePoints(c.Message)
+			if err != nil {
 				return nil, err
 			}
-			points := make([]curve.EccPoint, len(ps), len(ps))
-			for i, _ := range points {
-				points[i] = ps[i]
-			}
 			return &SimpleCommitment{points: points}, nil
 		}
 	case Pedersen:
+		switch c.CurveType {
+		case curve.K256:
+			points, err := deserializePoints(c.Message)
+			if err != nil {
+				return nil, err
+			}
+			return &PedersenCommitment{points: points}, nil
+		}
 	}
 	return nil, errors.New("invalid commitment")
 
 }
+
+func deserializePoints(message []byte) ([]curve.EccPoint, error) {
+	var ps []*curve.Secp256k1Point
+	if err := cbor.Unmarshal(message, &ps); err != nil {
+		return nil, err
+	}
+	if len(ps) == 0 {
+		return nil, errors.New("invalid commitment")
+	}
+	points := make([]curve.EccPoint, len(ps), len(ps))
+	for i := range points {
+		if ps[i] == nil {
+			return nil, errors.New("invalid commitment")
+		}
+		points[i] = ps[i]
+	}
+	return points, nil
+}
-- 
2.43.0


From 9c13fae096c21ced5ce1a2801f4ec57c4c9d1129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:58 +0000
Subject: [PATCH 08/39] fix: reject mismatched opening types in CheckOpening
 instead of panicking

---
 poly/commitment.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 69bbcb9..8f7c14b 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -252,8 +252,13 @@ func (s *SimpleCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoint
 }
 
 func (s *SimpleCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o := opening.(SimpleCommitmentOpening)
-	return s.checkOpening(evalPoint, o[0])
+	switch o := opening.(type) {
+	case SimpleCommitmentOpening:
+		return s.checkOpening(evalPoint, o[0])
+	case *SimpleCommitmentOpening:
+		return s.checkOpening(evalPoint, o[0])
+	}
+	return false
 }
 func (s *SimpleCommitment) checkOpening(evalPoint common.NodeIndex, value curve.EccScalar) bool {
 	eval := s.EvaluateAt(evalPoint)
@@ -374,8 +379,13 @@ func (p *PedersenCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoi
 	return evaluateAt(p.points, evalPoint)
 }
 func (p *PedersenCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o := opening.(PedersenCommitmentOpening)
-	return p.checkOpening(evalPoint, o[0], o[1])
+	switch o := opening.(type) {
+	case PedersenCommitmentOpening:
+		return p.checkOpening(evalPoint, o[0], o[1])
+	case *PedersenCommitmentOpening:
+		return p.checkOpening(evalPoint, o[0], o[1])
+	}
+	return false
 }
 
 func (p *PedersenCommitment) checkOpening(evalPoint common.NodeIndex, value curve.EccScalar, mask curve.EccScalar) bool {
-- 
2.43.0


From ad3e75e23fa956a4d46eace807e400f61d7abc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:59 +0000
Subject: [PATCH 09/39] fix: commitments of different types are not equal

---
 poly/commitment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 8f7c14b..ed9b701 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -215,7 +215,7 @@ func (s *SimpleCommitment) Len() int {
 	return len(s.points)
 }
 func (s *SimpleCommitment) Equal(other PolynomialCommitment) int {
-	if s.Len() != other.Len() {
+	if s.Type() != other.Type() || s.Len() != other.Len() {
 		return 0
 	}
 	for i := range s.points {
@@ -343,7 +343,7 @@ func (p *PedersenCommitment) Len() int {
 	return len(p.points)
 }
 func (p *PedersenCommitment) Equal(other PolynomialCommitment) int {
-	if p.Len() != other.Len() {
+	if p.Type() != other.Type() || p.Len() != other.Len() {
 		return 0
 	}
 	for i := range p.points {
-- 
2.43.0


From 9ea5e9dd01b18d030750feaec2e27dbb8f5bef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:24 +0000
Subject: [PATCH 10/39] fix: decode tagged scalars from the bytes after the tag
 and reject unknown curves

---
 curve/scalar.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/curve/scalar.go b/curve/scalar.go
index de33348..80ef003 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -47,14 +47,7 @@ func (s scalar) DeserializeTagged(bytes []byte) (EccScalar, error) {
 	if len(bytes) == 0 {
 		return nil, errors.New("invalid scalar")
 	}
-	var scalar EccScalar
-	var err error
-	switch EccCurveType(bytes[0]) {
-	case K256:
-		scalar, err = K256Scalar.Deserialize(bytes[0:])
-
-	}
-	return scalar, err
+	return s.Deserialize(EccCurveType(bytes[0]), bytes[1:])
 }
 
 func (s scalar) Deserialize(curve EccCurveType, bytes []byte) (EccScalar, error) {
@@ -66,6 +59,8 @@ func (s scalar) Deserialize(curve EccCurveType, bytes []byte) (EccScalar, error)
 	switch curve {
 	case K256:
 		scalar, err = K256Scalar.Deserialize(bytes)
+	default:
+		err = errors.New("unknown curve")
 	}
 	return scalar, err
 }
-- 
2.43.0


From 5acddb245c6d681e767f46b2ed61585b34e0982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:25 +0000
Subject: [PATCH 11/39] fix: return the scalar bytes from ToScalarBytes

---
 curve/scalar.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curve/scalar.go b/curve/scalar.go
index 80ef003..56e286a 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -114,6 +114,7 @@ func (s scalar) ToScalarBytes(scalar EccScalar) EccScalarBytes {
 	case K256:
 		var k256 Secp256K1ScalarBytes
 		copy(k256[:], scalar.Serialize())
+		bytes = k256
 	}
 	return bytes
 }
-- 
2.43.0


From bc59d3f23c63123b7ea0560c1e59021cb6cd87ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:26 +0000
Subject: [PATCH 12/39] fix: reject scalar and field encodings of the wrong
 length

---
 curve/k256_fe.go     | 4 ++++
 curve/k256_scalar.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/curve/k256_fe.go b/curve/k256_fe.go
index 6badaaa..3d285aa 100644
--- a/curve/k256_fe.go
+++ b/curve/k256_fe.go
@@ -5,6 +5,7 @@ import (
 	"github.com/PlatONnetwork/tecdsa/common"
 	"github.com/coinbase/kryptology/pkg/core/curves/native"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fp"
+	"github.com/pkg/errors"
 	"math/big"
 )
 
@@ -34,6 +35,9 @@ func (e EccK256Field) FromHex(h string) *Secp256k1Field {
 }
 func (EccK256Field) FromBytes(bytes []byte) (*Secp256k1Field, error) {
 	var r [32]byte
+	if len(bytes) != len(r) {
+		return nil, errors.New("invalid field element length")
+	}
 	copy(r[:], common.ReverseBytes(bytes[:]))
 	field, err := fp.K256FpNew().SetBytes(&r)
 	if err != nil {
diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index d0942cc..37f3adb 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -5,6 +5,7 @@ import (
 	"github.com/coinbase/kryptology/pkg/core/curves/native"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fq"
 	"github.com/fxamacker/cbor/v2"
+	"github.com/pkg/errors"
 	"math/big"
 )
 
@@ -21,6 +22,9 @@ type Secp256k1Scalar struct {
 
 func (EccK256Scalar) Deserialize(bytes []byte) (*Secp256k1Scalar, error) {
 	var buf [32]byte
+	if len(bytes) != len(buf) {
+		return nil, errors.New("invalid scalar length")
+	}
 	copy(buf[:], common.ReverseBytes(bytes))
 	field, err := fq.K256FqNew().SetBytes(&buf)
 	if err != nil {
-- 
2.43.0


From 8cab4843736fb3b31ad74248896b396a23f48a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:27 +0000
Subject: [PATCH 13/39] fix: report wide encodings longer than 64 bytes instead
 of panicking or truncating

---
 curve/fe.go     | 8 +++++++-
 curve/scalar.go | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/curve/fe.go b/curve/fe.go
index 35277c1..59560ca 100644
--- a/curve/fe.go
+++ b/curve/fe.go
@@ -1,6 +1,9 @@
 package curve
 
-import "math/big"
+import (
+	"github.com/pkg/errors"
+	"math/big"
+)
 
 var (
 	Field = field{}
@@ -114,6 +117,9 @@ func (f field) FromBytes(curve EccCurveType, bytes []byte) (fe EccFieldElement,
 
 func (f field) FromBytesWide(curve EccCurveType, bytes []byte) (EccFieldElement, error) {
 	var fe EccFieldElement
+	if len(bytes) > 64 {
+		return nil, errors.New("invalid field element length")
+	}
 	switch curve {
 	case K256:
 		fe = K256Field.FromBytesWide(bytes)
diff --git a/curve/scalar.go b/curve/scalar.go
index 56e286a..253da41 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -67,10 +67,12 @@ func (s scalar) Deserialize(curve EccCurveType, bytes []byte) (EccScalar, error)
 
 func (s scalar) FromBytesWide(curve EccCurveType, bytes []byte) (EccScalar, error) {
 	var scalar EccScalar
+	if len(bytes) > 64 {
+		return nil, errors.New("invalid scalar length")
+	}
 	switch curve {
 	case K256:
 		scalar = K256Scalar.FromWideBytes(bytes)
-
 	}
 	return scalar, nil
 }
-- 
2.43.0


From 8fc625cd55f974a15ada997959cc42e412449516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:28 +0000
Subject: [PATCH 14/39] fix: only decode canonical encodings of points on the
 curve

---
 curve/k256_point.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index be85de5..cc2873c 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -6,7 +6,7 @@ import (
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fp"
 	"github.com/fxamacker/cbor/v2"
-	"math/big"
+	"github.com/pkg/errors"
 	"math/bits"
 )
 
@@ -45,27 +45,39 @@ func (e EccK256Point) Deserialize(bytes []byte) (*Secp256k1Point, error) {
 }
 
 func (e EccK256Point) fromUncompressed(xb, yb []byte) (*Secp256k1Point, error) {
-	x := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(xb))
-
-	y := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(yb))
-
+	x, err := K256Field.FromBytes(xb)
+	if err != nil {
+		return nil, err
+	}
+	y, err := K256Field.FromBytes(yb)
+	if err != nil {
+		return nil, err
+	}
 	value := k256.K256PointNew()
-	value.X = x
-	value.Y = y
+	value.X = x.field
+	value.Y = y.field
 	value.Z.SetOne()
+	if !value.IsOnCurve() {
+		return nil, errors.New("invalid point, not on the curve")
+	}
 	return &Secp256k1Point{point: value}, nil
 }
 func (e EccK256Point) decompress(bytes []byte, sign int) (*Secp256k1Point, error) {
-	x := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(bytes))
-
+	fe, err := K256Field.FromBytes(bytes)
+	if err != nil {
+		return nil, err
+	}
+	x := fe.field
 	value := k256.K256PointNew().Identity()
 	rhs := fp.K256FpNew()
 	p := k256.K256PointNew()
 	p.Arithmetic.RhsEq(rhs, x)
 	// test that rhs is quadratic residue
-	// if not, then this Point is at infinity
+	// if not, then there is no point with this x
 	y, wasQr := fp.K256FpNew().Sqrt(rhs)
-	if wasQr {
+	if !wasQr {
+		return nil, errors.New("invalid point, not on the curve")
+	} else {
 		// fix the sign
 		sigY := int(y.Bytes()[0] & 1)
 		if sigY != sign {
-- 
2.43.0


From 3e90ed17e9c18e514910537594c9163c6c5c1a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:29 +0000
Subject: [PATCH 15/39] fix: decode the identity encoding and reject empty or
 unknown point encodings

---
 curve/encode.go     | 6 ++++++
 curve/k256_point.go | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/curve/encode.go b/curve/encode.go
index e675ab1..96a18e4 100644
--- a/curve/encode.go
+++ b/curve/encode.go
@@ -120,7 +120,13 @@ func (e encode32) toSize() int {
 }
 
 func (e encode32) FromBytes(input []byte) (EncodePoint, error) {
+	if len(input) == 0 {
+		return nil, errors.New("point decode failed")
+	}
 	tag := Tag(input[0])
+	if !tag.IsIdentity() && tag.MessageLen(e.toSize()) == 1 {
+		return nil, errors.New("point decode failed")
+	}
 	expected := tag.MessageLen(e.toSize())
 	if len(input) != expected {
 		return nil, errors.New("point decode failed")
diff --git a/curve/k256_point.go b/curve/k256_point.go
index cc2873c..f8eb319 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -92,7 +92,7 @@ func (e EccK256Point) decompress(bytes []byte, sign int) (*Secp256k1Point, error
 func (e EccK256Point) fromEncodedPoint(encodePoint EncodePoint) (pt *Secp256k1Point, err error) {
 	cd := encodePoint.Coordinates()
 	switch c := cd.(type) {
-	case *IdentityCoordinates:
+	case IdentityCoordinates:
 		pt = e.Identity()
 	case *CompactCoordinates:
 		pt, err = e.decompress(c.x, 0)
-- 
2.43.0


From 869a405b046ba8fb034534467d8d00f4903b0bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:30 +0000
Subject: [PATCH 16/39] fix: decode tagged points from the bytes after the tag
 and reject unknown curves

---
 curve/point.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/curve/point.go b/curve/point.go
index 7848ffa..9d8bd92 100644
--- a/curve/point.go
+++ b/curve/point.go
@@ -101,10 +101,13 @@ func (p point) DeserializeTagged(curve EccCurveType, bytes []byte) (EccPoint, er
 	if len(bytes) == 0 {
 		return nil, errors.New("invalid point, bytes is empty")
 	}
-	return p.Deserialize(EccCurveType(bytes[0]), bytes[:])
+	if EccCurveType(bytes[0]) != curve {
+		return nil, errors.New("curve mismatch")
+	}
+	return p.Deserialize(curve, bytes[1:])
 }
 func (p point) Deserialize(curve EccCurveType, bytes []byte) (EccPoint, error) {
-	if len(bytes) != curve.PointBytes() {
+	if curve.Tag() == 0 || len(bytes) != curve.PointBytes() {
 		return nil, errors.New("invalid point")
 	}
 
@@ -127,6 +130,8 @@ func (p point) DeserializeAnyFormat(curve EccCurveType, bytes []byte) (pt EccPoi
 	switch curve {
 	case K256:
 		pt, err = K256Point.Deserialize(bytes)
+	default:
+		err = errors.New("unknown curve")
 	}
 	return pt, err
 }
-- 
2.43.0


From d352b62e9718be7bdb70fa3ad4014c311118a19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:31 +0000
Subject: [PATCH 17/39] fix: check the tag when decoding CBOR points and
 scalars

---
 curve/k256_point.go  | 4 ++--
 curve/k256_scalar.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index f8eb319..50990ef 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -220,10 +220,10 @@ func (s *Secp256k1Point) UnmarshalCBOR(data []byte) error {
 	if err := cbor.Unmarshal(data, &bytes); err != nil {
 		return err
 	}
-	tmp, err := K256Point.Deserialize(bytes[1:])
+	tmp, err := Point.DeserializeTagged(s.CurveType(), bytes)
 	if err != nil {
 		return err
 	}
-	s.point = tmp.point
+	s.point = tmp.(*Secp256k1Point).point
 	return nil
 }
diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index 37f3adb..6a688b9 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -141,11 +141,11 @@ func (s *Secp256k1Scalar) UnmarshalCBOR(data []byte) error {
 	if err := cbor.Unmarshal(data, &bytes); err != nil {
 		return err
 	}
-	tmp, err := K256Scalar.Deserialize(bytes[1:])
+	tmp, err := Scalar.DeserializeTagged(bytes)
 	if err != nil {
 		return err
 	}
-	s.scalar = tmp.scalar
+	s.scalar = tmp.(*Secp256k1Scalar).scalar
 	return nil
 }
 func (s Secp256k1Scalar) BigInt() *big.Int {
-- 
2.43.0


From a743c4e28f1d72f61774dabd1d68eb4d19450e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:32 +0000
Subject: [PATCH 18/39] fix: do not truncate uncompressed points

---
 curve/k256_point.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index 50990ef..759e873 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -171,7 +171,10 @@ func (s Secp256k1Point) encodePoint(compress bool) []byte {
 		choice = 1
 	}
 	encode := Encode.ConditionalSelect(Encode.FromAffineCoordinates(x.AsBytes(), y.AsBytes(), compress), Encode.Identity(), choice)
-	result := make([]byte, 33, 33)
+	result := make([]byte, s.CurveType().PointBytes())
+	if !compress {
+		result = make([]byte, Uncompressed.MessageLen(s.CurveType().FieldBytes()))
+	}
 	copy(result[0:encode.Len()], encode.AsBytes())
 	return result
 }
-- 
2.43.0


From 74b7c616684a893c4624c125bea0ec10092836d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:33 +0000
Subject: [PATCH 19/39] fix: compare scalar values, not Montgomery limbs, in
 IsHigh

---
 curve/k256_scalar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index 6a688b9..63a2598 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -129,7 +129,7 @@ func (s Secp256k1Scalar) IsZero() int {
 }
 
 func (s Secp256k1Scalar) IsHigh() bool {
-	return s.scalar.Cmp(OrderHalf) > 0
+	return s.scalar.BigInt().Cmp(OrderHalf.BigInt()) > 0
 	return true
 }
 func (s Secp256k1Scalar) MarshalCBOR() ([]byte, error) {
-- 
2.43.0


From f733e26ae83c15b2e56707bc362426c2b6c49d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:28 +0000
Subject: [PATCH 20/39] fix: hash product proofs under their own domain
 separator

---
 zk/product.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zk/product.go b/zk/product.go
index 62d5979..cee2d10 100644
--- a/zk/product.go
+++ b/zk/product.go
@@ -89,7 +89,7 @@ func (p *proofOfProductInstance) Create(seed *seed.Seed, lhs curve.EccScalar, rh
 }
 
 func (p ProofOfProductInstance) HashToChallenge(c1 curve.EccPoint, c2 curve.EccPoint, associatedData []byte) (curve.EccScalar, error) {
-	ro := ro2.NewRandomOracle(ProofOfEqualOpeningsDst)
+	ro := ro2.NewRandomOracle(ProofOfProductDst)
 	ro.AddBytesString("associated_data", associatedData)
 	ro.AddPoint("instance_g", p.g)
 	ro.AddPoint("instance_h", p.h)
-- 
2.43.0


From 600fb2943d54dbb8b550e6be3a3c504f2cfd3599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:29 +0000
Subject: [PATCH 21/39] fix: deep copy product proofs

---
 zk/product.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zk/product.go b/zk/product.go
index cee2d10..2c00978 100644
--- a/zk/product.go
+++ b/zk/product.go
@@ -115,8 +115,8 @@ func (p *ProofOfProduct) Verify(lhsCom curve.EccPoint, rhsCom curve.EccPoint, pr
 }
 func (p *ProofOfProduct) Clone() *ProofOfProduct {
 	return &ProofOfProduct{
-		challenge: p.challenge,
-		response1: p.response1,
-		response2: p.response2,
+		challenge: p.challenge.Clone(),
+		response1: p.response1.Clone(),
+		response2: p.response2.Clone(),
 	}
 }
-- 
2.43.0


From 1c9eec70a5a50f90165db45ee9c369238b9ba2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:30 +0000
Subject: [PATCH 22/39] fix: check the challenge error when creating a dlog
 equivalence proof

---
 zk/dlog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zk/dlog.go b/zk/dlog.go
index 56340d1..34248be 100644
--- a/zk/dlog.go
+++ b/zk/dlog.go
@@ -85,6 +85,9 @@ func (p *proofOfDLogEquivalenceInstance) Create(seed *seed.Seed, x curve.EccScal
 	rG := g.Clone().ScalarMul(g, r)
 	rH := h.Clone().ScalarMul(h, r)
 	challenge, err := instance.HashToChallenge(rG, rH, associatedData)
+	if err != nil {
+		return nil, err
+	}
 	response := x.Clone().Mul(x, challenge)
 	response = response.Add(response, r)
 	return &ProofOfDLogEquivalence{
-- 
2.43.0


From 9249129445e1e3e06dda8ea058fa4e60bec1a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:30 +0000
Subject: [PATCH 23/39] fix: accept random oracle inputs longer than 255 bytes

---
 ro/ro.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ro/ro.go b/ro/ro.go
index 78ee0b3..0b83761 100644
--- a/ro/ro.go
+++ b/ro/ro.go
@@ -42,7 +42,7 @@ func (r *RandomOracle) AddInput(name string, input []byte, ty RandomOracleInputT
 		return errors.New("invalid name length")
 	}
 
-	if len(input) > math.MaxUint8 {
+	if uint64(len(input)) > math.MaxUint32 {
 		return errors.New("invalid input length")
 	}
 	var encodedInput []byte
-- 
2.43.0


From 98798e1360eff871b108fcb0414603b93b3bb346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:31 +0000
Subject: [PATCH 24/39] fix: reject multiplication dealings without a proof
 instead of panicking

---
 dealings/dealings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 0f24024..d8c1c07 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -164,7 +164,7 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 				return errors.New("invalid commitment")
 			}
 		}
-	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof.Type() == ProofOfProduct {
+	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof != nil && dealing.Proof.Type() == ProofOfProduct {
 		if err := dealing.Commitment.VerifyIs(poly2.Pedersen, curveType); err != nil {
 			return err
 		}
-- 
2.43.0


From c6b9dc44bc086ceea2bb2ed40698e0e69d01fa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:32 +0000
Subject: [PATCH 25/39] fix: report errors and unknown kinds of secret shares
 when creating a dealing

---
 dealings/dealings.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index d8c1c07..38d0772 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -58,7 +58,7 @@ type IDkgDealingInternal struct {
 }
 
 func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, seed *seed.Seed, threshold int, recipients []*mega.MEGaPublicKey, dealerIndex common.NodeIndex, ad []byte) (*IDkgDealingInternal, error) {
-	if threshold == 0 || threshold > len(recipients) {
+	if threshold <= 0 || threshold > len(recipients) {
 		return nil, errors.New("invalid threshold")
 	}
 
@@ -108,13 +108,20 @@ func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, s
 			return nil, err
 		}
 		mask, err := poly2.Poly.RandomWithConstant(productMasking, numCoefficients, polyRng)
+		if err != nil {
+			return nil, err
+		}
 		if ciphertext, commitment, err = EncryptAndCommitPairPolynomial(values, mask, numCoefficients, recipients, dealerIndex, ad, megaSeed); err != nil {
 			return nil, err
 		}
 		pf, err := zk.ProofOfProductIns.Create(seed.Derive(zk.ProofOfProductDst), s.Left, s.Right[0], s.Right[1], product, productMasking, ad)
+		if err != nil {
+			return nil, err
+		}
 		proof = &ProductProof{pf}
+	default:
+		return nil, errors.New("unknown secret shares")
 	}
-
 	return &IDkgDealingInternal{ciphertext, commitment, proof}, nil
 
 }
-- 
2.43.0


From 6eeddfb3b709ec8b4a46aee9c6bb58203cb21897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:32 +0000
Subject: [PATCH 26/39] fix: return secret shares that dealings can be created
 from

---
 dealings/secret_shares.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dealings/secret_shares.go b/dealings/secret_shares.go
index 255558d..e4d1a84 100644
--- a/dealings/secret_shares.go
+++ b/dealings/secret_shares.go
@@ -41,7 +41,7 @@ func (secretShares) From(cob1 poly.CommitmentOpeningBytes, cob2 poly.CommitmentO
 	switch cm1 := cob1.(type) {
 	case *poly.SimpleCommitmentOpeningBytes:
 		if cob2 == nil {
-			share = ReshareOfUnmaskedSecret{S1: cm1[0].ToScalar()}
+			share = &ReshareOfUnmaskedSecret{S1: cm1[0].ToScalar()}
 		} else {
 			if p, ok := cob2.(*poly.PedersenCommitmentOpeningBytes); ok {
 				s1 := cm1[0].ToScalar()
@@ -60,6 +60,8 @@ func (secretShares) From(cob1 poly.CommitmentOpeningBytes, cob2 poly.CommitmentO
 			return nil, errors.New("inconsistent combination of commitment types")
 		}
 		share = &ReshareOfMaskedSecret{S1: cm1[0].ToScalar(), S2: cm1[1].ToScalar()}
+	default:
+		return nil, errors.New("unknown commitment opening type")
 	}
 	return share, nil
 }
-- 
2.43.0


From 3dd8d7ef1720ac1aa1e8e9bffc1a15a1a5633f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:54 +0000
Subject: [PATCH 27/39] fix: reject unknown transcript operations

---
 dealings/transcript.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dealings/transcript.go b/dealings/transcript.go
index d0f517e..5c2dd46 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -118,6 +118,8 @@ func NewTranscriptInternal(curveType curve.EccCurveType, reconstructionThreshold
 		if err != nil {
 			return nil, err
 		}
+	default:
+		return nil, errors.New("unknown transcript operation")
 	}
 	return &IDkgTranscriptInternal{CombinedCommitment: combinedCommitment}, nil
 }
-- 
2.43.0


From 3b7783141b523978c4416446e3199cd2fa63a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:54 +0000
Subject: [PATCH 28/39] fix: multiply the argument polynomial, not the
 receiver, in MulScalar

---
 poly/poly.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poly/poly.go b/poly/poly.go
index 39f8c43..d36730d 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -124,7 +124,7 @@ func (p *Polynomial) Mul(lhs, rhs *Polynomial) *Polynomial {
 func (p *Polynomial) MulScalar(lhs *Polynomial, scalar curve.EccScalar) *Polynomial {
 	coeffs := make([]curve.EccScalar, len(lhs.coefficients), len(lhs.coefficients))
 	for i := range coeffs {
-		coeffs[i] = curve.Scalar.Zero(lhs.curve).Mul(p.coefficients[i], scalar)
+		coeffs[i] = curve.Scalar.Zero(lhs.curve).Mul(lhs.coefficients[i], scalar)
 	}
 	p.coefficients = coeffs
 	return p
-- 
2.43.0


From 76e62e59c09ab94c07abed2aec8b45562fefcb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:55 +0000
Subject: [PATCH 29/39] fix: only ignore trailing zero coefficients so that
 commitments never truncate a polynomial

---
 poly/poly.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/poly/poly.go b/poly/poly.go
index d36730d..5a4c492 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -72,15 +72,13 @@ func (p Polynomial) Coeff(idx int) curve.EccScalar {
 	return curve.Scalar.Zero(p.curve)
 }
 
-/// Return the count of non-zero coefficients
+/// Return the count of coefficients up to the last non-zero one
 func (p Polynomial) NonZeroCoefficients() int {
-	zeros := 0
-	for _, c := range p.coefficients {
-		if c.IsZero() == 1 {
-			zeros++
-		}
+	n := len(p.coefficients)
+	for n > 0 && p.coefficients[n-1].IsZero() == 1 {
+		n--
 	}
-	return len(p.coefficients) - zeros
+	return n
 }
 func (p Polynomial) IsZero() int {
 	flag := 0
-- 
2.43.0


From fce3380fb6ed6a02371f9da51d2aab169f76d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:56 +0000
Subject: [PATCH 30/39] fix: interpolate samples that an earlier prefix already
 determines

---
 poly/poly.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/poly/poly.go b/poly/poly.go
index 5a4c492..82d83d4 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -179,8 +179,7 @@ func (p polynomial) Interpolate(curveType curve.EccCurveType, samples [][2]curve
 			return nil, errors.New("inv is zero")
 		}
 		diff = diff.Mul(diff, inv)
-		base = base.MulScalar(base, diff)
-		poly = poly.Add(poly, base)
+		poly = poly.Add(poly, Poly.Zero(curveType).MulScalar(base, diff))
 		base = base.Mul(base, Poly.New(curveType, []curve.EccScalar{x.Negate(x), one}))
 	}
 	return poly, nil
-- 
2.43.0


From 884b3b35155f4d0a2fead41a21a4f7c8a77d2275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:57 +0000
Subject: [PATCH 31/39] fix: fill buffers with random bytes independently of
 their contents

---
 rand/chacha20.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rand/chacha20.go b/rand/chacha20.go
index 7791a4c..e395142 100644
--- a/rand/chacha20.go
+++ b/rand/chacha20.go
@@ -33,6 +33,9 @@ func (c ChaCha20) Uint64() uint64 {
 }
 
 func (c *ChaCha20) FillUint8(res []uint8) {
+	for i := range res {
+		res[i] = 0
+	}
 	c.cipher.XORKeyStream(res, res)
 }
 
-- 
2.43.0


From e0acb3746dacea89dda8a8bd881f1c2f0449f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:58 +0000
Subject: [PATCH 32/39] fix: reject negative recipient indices when decrypting

---
 mega/ciphertext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mega/ciphertext.go b/mega/ciphertext.go
index 19e115c..30d4cd4 100644
--- a/mega/ciphertext.go
+++ b/mega/ciphertext.go
@@ -198,7 +198,7 @@ func (m MEGaCiphertextSingle) VerifyPop(ad []byte, dealerIndex common.NodeIndex)
 }
 
 func (m MEGaCiphertextSingle) DecryptFromSharedSecret(ad []byte, dealerIndex common.NodeIndex, recipientIndex common.NodeIndex, recipientPublicKey *MEGaPublicKey, sharedSecret curve.EccPoint) (curve.EccScalar, error) {
-	if len(m.CTexts) <= int(recipientIndex) {
+	if recipientIndex < 0 || len(m.CTexts) <= int(recipientIndex) {
 		return nil, errors.New("invalid index")
 	}
 	hm, err := megaHashToScalars(CiphertextSingle, dealerIndex, recipientIndex, ad, recipientPublicKey.point, m.EphemeralKey, sharedSecret)
@@ -286,7 +286,7 @@ func (m MEGaCiphertextPair) VerifyPop(ad []byte, dealerIndex common.NodeIndex) e
 }
 
 func (m MEGaCiphertextPair) DecryptFromSharedSecret(ad []byte, dealerIndex common.NodeIndex, recipientIndex common.NodeIndex, recipientPublicKey *MEGaPublicKey, sharedSecret curve.EccPoint) ([2]curve.EccScalar, error) {
-	if len(m.CTexts) <= int(recipientIndex) {
+	if recipientIndex < 0 || len(m.CTexts) <= int(recipientIndex) {
 		return [2]curve.EccScalar{}, errors.New("invalid index")
 	}
 	hm, err := megaHashToScalars(CiphertextPairs, dealerIndex, recipientIndex, ad, recipientPublicKey.point, m.EphemeralKey, sharedSecret)
-- 
2.43.0


From 8a5d87db2505ee64d2b477c792a986572b334350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:43 +0000
Subject: [PATCH 33/39] fix: check the constant term of unmasked resharings of
 combined commitments

---
 dealings/dealings.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 38d0772..ca3365c 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -163,13 +163,8 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 		if err := dealing.Ciphertext.VerifyIs(mega.CiphertextSingle, curveType); err != nil {
 			return err
 		}
-		switch c := t.P1.(type) {
-		case *poly2.PedersenCommitment:
-			return errors.New("unexpected commitment type")
-		case *poly2.SimpleCommitment:
-			if c.EvaluateAt(dealerIndex).Equal(dealing.Commitment.ConstantTerm()) != 1 {
-				return errors.New("invalid commitment")
-			}
+		if t.P1.EvaluateAt(dealerIndex).Equal(dealing.Commitment.ConstantTerm()) != 1 {
+			return errors.New("invalid commitment")
 		}
 	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof != nil && dealing.Proof.Type() == ProofOfProduct {
 		if err := dealing.Commitment.VerifyIs(poly2.Pedersen, curveType); err != nil {
-- 
2.43.0


From 7a304e85f4fb8b4de600af74b3270f0663df39af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:44 +0000
Subject: [PATCH 34/39] fix: refuse unknown curves when decoding wide scalars
 and field elements

---
 curve/fe.go     | 4 ++++
 curve/scalar.go | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/curve/fe.go b/curve/fe.go
index 59560ca..d461626 100644
--- a/curve/fe.go
+++ b/curve/fe.go
@@ -111,6 +111,8 @@ func (f field) FromBytes(curve EccCurveType, bytes []byte) (fe EccFieldElement,
 	switch curve {
 	case K256:
 		fe, err = K256Field.FromBytes(bytes)
+	default:
+		err = errors.New("unknown curve")
 	}
 	return fe, err
 }
@@ -123,6 +125,8 @@ func (f field) FromBytesWide(curve EccCurveType, bytes []byte) (EccFieldElement,
 	switch curve {
 	case K256:
 		fe = K256Field.FromBytesWide(bytes)
+	default:
+		return nil, errors.New("unknown curve")
 	}
 	return fe, nil
 }
diff --git a/curve/scalar.go b/curve/scalar.go
index 253da41..0095d56 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -73,6 +73,8 @@ func (s scalar) FromBytesWide(curve EccCurveType, bytes []byte) (EccScalar, erro
 	switch curve {
 	case K256:
 		scalar = K256Scalar.FromWideBytes(bytes)
+	default:
+		return nil, errors.New("unknown curve")
 	}
 	return scalar, nil
 }
-- 
2.43.0


From caa93c6df2e2e8e7dc0d062331888197080244bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:45 +0000
Subject: [PATCH 35/39] fix: refuse to interpolate commitments of an unknown
 type

---
 dealings/transcript.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dealings/transcript.go b/dealings/transcript.go
index 5c2dd46..0e473c2 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -52,6 +52,8 @@ func CombineCommitmentsViaInterpolation(commitmentType poly.PolynomialCommitment
 		cm = poly.SimpleCM.New(combined)
 	case poly.Pedersen:
 		cm = poly.PedersenCM.New(combined)
+	default:
+		return nil, errors.New("unexpected commitment type")
 	}
 	return &InterpolationCommitment{cm}, nil
 }
-- 
2.43.0


From ca558d961a180e7c9d07f28fe60c5e7d23bf5ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:46 +0000
Subject: [PATCH 36/39] fix: report unimplemented opening operations instead of
 returning nothing

---
 poly/commitment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index ed9b701..f5da1f9 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -47,7 +47,7 @@ type commitmentOpeningCbor struct {
 
 //todo implement
 func (commitmentOpening) OpenDealing() (CommitmentOpening, error) {
-	return nil, nil
+	return nil, errors.New("not implemented")
 }
 func (commitmentOpening) Deserialize(data []byte) (CommitmentOpening, error) {
 	var c commitmentOpeningCbor
@@ -84,7 +84,7 @@ func (commitmentOpening) Deserialize(data []byte) (CommitmentOpening, error) {
 	return nil, errors.New("unknown commitment type")
 }
 func (commitmentOpening) FromBytes(bytes []byte) (CommitmentOpening, error) {
-	return nil, nil
+	return nil, errors.New("not implemented")
 }
 func (s SimpleCommitmentOpening) Serialize() ([]byte, error) {
 	data, err := cbor.Marshal(s)
-- 
2.43.0


From 70f119959ebe4a32be949325744ec0a3f75e3a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:45 +0000
Subject: [PATCH 37/39] fix: refuse openings of unknown kinds when
 reconstructing a share

---
 dealings/transcript.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dealings/transcript.go b/dealings/transcript.go
index 0e473c2..0435e4e 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -157,7 +157,7 @@ func ReconstructShareFromOpenings(dealing *IDkgDealingInternal, openings *btree.
 			case poly.SimpleCommitmentOpening:
 				xValues = append(xValues, receiverIndex)
 				values = append(values, o[0])
-			case poly.PedersenCommitmentOpening:
+			default:
 				err = errors.New("unexpected commitment type")
 				return false
 			}
@@ -185,7 +185,7 @@ func ReconstructShareFromOpenings(dealing *IDkgDealingInternal, openings *btree.
 				xValues = append(xValues, receiverIndex)
 				values = append(values, o[0])
 				masks = append(masks, o[1])
-			case poly.SimpleCommitmentOpening:
+			default:
 				err = errors.New("unexpected commitment type")
 				return false
 			}
-- 
2.43.0


From 55b2c44929b547af89535d9537d32efa39cdbf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:54 +0000
Subject: [PATCH 38/39] fix: invert zero to zero whatever the receiver held

---
 curve/k256_fe.go     | 4 +++-
 curve/k256_scalar.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/curve/k256_fe.go b/curve/k256_fe.go
index 3d285aa..b024283 100644
--- a/curve/k256_fe.go
+++ b/curve/k256_fe.go
@@ -137,7 +137,9 @@ func (s *Secp256k1Field) CAssign(other EccFieldElement, choice int) {
 }
 
 func (s *Secp256k1Field) Invert(other EccFieldElement) EccFieldElement {
-	s.field.Invert(other.(*Secp256k1Field).field)
+	if _, ok := s.field.Invert(other.(*Secp256k1Field).field); !ok {
+		s.field.SetZero()
+	}
 	return s
 }
 
diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index 63a2598..0b0a5c5 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -87,7 +87,9 @@ func (s *Secp256k1Scalar) Mul(lhs, rhs EccScalar) EccScalar {
 
 func (s *Secp256k1Scalar) Invert(other EccScalar) EccScalar {
 	o := other.(*Secp256k1Scalar)
-	s.scalar.Invert(o.scalar)
+	if _, ok := s.scalar.Invert(o.scalar); !ok {
+		s.scalar.SetZero()
+	}
 	return s
 }
 
-- 
2.43.0


From c036317098bc7e5ae3f52dbf6f093486d7e1e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:49 +0000
Subject: [PATCH 39/39] fix: point addition and subtraction with the receiver
 as right operand

The underlying Add and Sub overwrite their receiver with the left operand
before reading the right one, so p.AddPoints(q, p) gave 2q and
p.SubPoints(q, p) the identity.
---
 curve/k256_point.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index 759e873..7e463d9 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -114,14 +114,16 @@ func (s Secp256k1Point) CurveType() EccCurveType {
 func (s *Secp256k1Point) AddPoints(lhs, rhs EccPoint) EccPoint {
 	l := lhs.(*Secp256k1Point)
 	r := rhs.(*Secp256k1Point)
-	s.point.Add(l.point, r.point)
+	// the sum is computed apart: s may be rhs, and Add overwrites its receiver first
+	s.point.Set(k256.K256PointNew().Add(l.point, r.point))
 	return s
 }
 
 func (s *Secp256k1Point) SubPoints(lhs, rhs EccPoint) EccPoint {
 	l := lhs.(*Secp256k1Point)
 	r := rhs.(*Secp256k1Point)
-	s.point.Sub(l.point, r.point)
+	// the difference is computed apart: s may be rhs, and Sub overwrites its receiver first
+	s.point.Set(k256.K256PointNew().Sub(l.point, r.point))
 	return s
 }
 
-- 
2.43.0

