// Specifications of the curve primitives themselves, in terms of the
// arithmetic library ("low" obligations: scalars, field elements and points
// are analysed down to native.Field and native.EllipticPoint).
package curve

import (
	"encoding/hex"
	"math/big"

	"github.com/coinbase/kryptology/pkg/core/curves/native"
	"github.com/coinbase/kryptology/pkg/core/curves/native/k256"
	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fp"
	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fq"
	"github.com/fxamacker/cbor/v2"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/seed"
)

func zq(s EccScalar) *native.Field         { return s.(*Secp256k1Scalar).scalar }
func zp(s EccFieldElement) *native.Field   { return s.(*Secp256k1Field).field }
func zt(p EccPoint) *native.EllipticPoint  { return p.(*Secp256k1Point).point }
func znq() *native.Field                   { return fq.K256FqNew() }
func znp() *native.Field                   { return fp.K256FpNew() }
func znt() *native.EllipticPoint           { return k256.K256PointNew() }
func zmq(f *native.Field) *Secp256k1Scalar { return &Secp256k1Scalar{scalar: f} }
func zmp(f *native.Field) *Secp256k1Field  { return &Secp256k1Field{field: f} }
func zmt(p *native.EllipticPoint) *Secp256k1Point {
	return &Secp256k1Point{point: p}
}
func zrev(b []byte) []byte { return common.ReverseBytes(b) }

func zbe(f *native.Field) []byte {
	b := f.Bytes()
	return zrev(b[:])
}

// zdec decodes 32 big-endian bytes below the modulus.
func zdec(f *native.Field, b []byte) (*native.Field, error) {
	if len(b) != 32 {
		return nil, zzBad
	}
	var r [32]byte
	copy(r[:], zrev(b))
	if _, err := f.SetBytes(&r); err != nil {
		return nil, zzBad
	}
	return f, nil
}

// zwide reduces at most 64 big-endian bytes.
func zwide(f *native.Field, b []byte) *native.Field {
	var r [64]byte
	copy(r[:], zrev(b))
	return f.SetBytesWide(&r)
}

// ------------------------------------------------------------- scalars

//vg:spec Secp256k1Scalar.CurveType props=C36 low
func zlSCurve(s Secp256k1Scalar) EccCurveType { return K256 }

//vg:spec Secp256k1Scalar.Add props=C36 low
func zlSAdd(s *Secp256k1Scalar, lhs, rhs EccScalar) EccScalar {
	s.scalar = znq().Add(zq(lhs), zq(rhs))
	return s
}

//vg:spec Secp256k1Scalar.Sub props=C36 low
func zlSSub(s *Secp256k1Scalar, lhs, rhs EccScalar) EccScalar {
	s.scalar = znq().Sub(zq(lhs), zq(rhs))
	return s
}

//vg:spec Secp256k1Scalar.Mul props=C36 low
func zlSMul(s *Secp256k1Scalar, lhs, rhs EccScalar) EccScalar {
	s.scalar = znq().Mul(zq(lhs), zq(rhs))
	return s
}

//vg:spec Secp256k1Scalar.Invert props=C36 low
func zlSInv(s *Secp256k1Scalar, other EccScalar) EccScalar {
	s.scalar, _ = znq().Invert(zq(other))
	return s
}

//vg:spec Secp256k1Scalar.Negate props=C36 low
func zlSNeg(s *Secp256k1Scalar, other EccScalar) EccScalar {
	s.scalar = znq().Sub(znq(), zq(other))
	return s
}

//vg:spec Secp256k1Scalar.Assign props=C36,C32 low
func zlSAssign(s *Secp256k1Scalar, other EccScalar) EccScalar {
	s.scalar = znq().Set(zq(other))
	return s
}

//vg:spec Secp256k1Scalar.Clone props=C32,C36 low
func zlSClone(s *Secp256k1Scalar) EccScalar { return zmq(znq().Set(s.scalar)) }

//vg:spec Secp256k1Scalar.Equal props=C36 low
func zlSEqual(s *Secp256k1Scalar, other EccScalar) int {
	if znq().Sub(s.scalar, zq(other)).IsZero() == 1 {
		return 1
	}
	return 0
}

//vg:spec Secp256k1Scalar.IsZero props=C36 low
func zlSIsZero(s Secp256k1Scalar) int { return s.scalar.Equal(znq()) }

// zlSHigh: the residue exceeds half the group order.
//
//vg:spec Secp256k1Scalar.IsHigh props=C36,C04,C03 low
func zlSHigh(s Secp256k1Scalar) bool {
	n, _ := new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	return s.scalar.BigInt().Cmp(new(big.Int).Rsh(n, 1)) > 0
}

//vg:spec Secp256k1Scalar.Serialize props=C29,C36 low
func zlSSer(s Secp256k1Scalar) []byte { return zbe(s.scalar) }

//vg:spec Secp256k1Scalar.SerializeTagged props=C29 low
func zlSSerT(s Secp256k1Scalar) []byte { return append([]byte{1}, zbe(s.scalar)...) }

//vg:spec Secp256k1Scalar.BigInt props=C36 low
func zlSBig(s Secp256k1Scalar) *big.Int { return s.scalar.BigInt() }

//vg:spec EccK256Scalar.Zero props=C36 low
func zlSZero(k EccK256Scalar) *Secp256k1Scalar { return zmq(znq()) }

//vg:spec EccK256Scalar.One props=C36 low
func zlSOne(k EccK256Scalar) *Secp256k1Scalar { return zmq(znq().SetUint64(1)) }

//vg:spec EccK256Scalar.FromUint64 props=C36 low
func zlSUint(k EccK256Scalar, n uint64) *Secp256k1Scalar { return zmq(znq().SetUint64(n)) }

//vg:spec EccK256Scalar.FromWideBytes props=C28 low
func zlSWide(k EccK256Scalar, bytes []byte) *Secp256k1Scalar {
	zzAssume(len(bytes) <= 64)
	return zmq(zwide(znq(), bytes))
}

//vg:spec EccK256Scalar.Deserialize props=C28,C30 low
func zlSDec(k EccK256Scalar, bytes []byte) (*Secp256k1Scalar, error) {
	f, err := zdec(znq(), bytes)
	if err != nil {
		return nil, zzBad
	}
	return zmq(f), nil
}

//vg:spec scalar.Deserialize props=C28,C30,C35 low
func zlScalarDec(s scalar, curve EccCurveType, bytes []byte) (EccScalar, error) {
	if curve != K256 {
		return nil, zzBad
	}
	f, err := zdec(znq(), bytes)
	if err != nil {
		return nil, zzBad
	}
	return zmq(f), nil
}

//vg:spec scalar.DeserializeTagged props=C28,C30,C35 low
func zlScalarDecTagged(s scalar, bytes []byte) (EccScalar, error) {
	if len(bytes) != 33 || bytes[0] != 1 {
		return nil, zzBad
	}
	f, err := zdec(znq(), bytes[1:])
	if err != nil {
		return nil, zzBad
	}
	return zmq(f), nil
}

//vg:spec scalar.FromBytesWide props=C28,C30,C35 low
func zlScalarWide(s scalar, curve EccCurveType, bytes []byte) (EccScalar, error) {
	if len(bytes) > 64 || curve != K256 {
		return nil, zzBad
	}
	return zmq(zwide(znq(), bytes)), nil
}

//vg:spec scalar.Zero props=C36 low
func zlScalarZero(s scalar, curve EccCurveType) EccScalar {
	zzAssume(curve == K256)
	return zmq(znq())
}

//vg:spec scalar.One props=C36 low
func zlScalarOne(s scalar, curve EccCurveType) EccScalar {
	zzAssume(curve == K256)
	return zmq(znq().SetUint64(1))
}

//vg:spec scalar.FromUint64 props=C36 low
func zlScalarUint(s scalar, curve EccCurveType, n uint64) EccScalar {
	zzAssume(curve == K256)
	return zmq(znq().SetUint64(n))
}

//vg:spec scalar.FromNodeIndex props=C36,C25 low
func zlScalarIndex(s scalar, curve EccCurveType, index common.NodeIndex) EccScalar {
	zzAssume(curve == K256 && index >= 0)
	return zmq(znq().SetUint64(uint64(index) + 1))
}

//vg:spec scalar.ToScalarBytes props=C29 low
func zlScalarBytes(s scalar, x EccScalar) EccScalarBytes {
	var r Secp256K1ScalarBytes
	copy(r[:], zbe(zq(x)))
	return r
}

//vg:spec Secp256K1ScalarBytes.ScalarBytes props=C29 low
func zlBytesBytes(s Secp256K1ScalarBytes) []byte { return s[:] }

//vg:spec Secp256K1ScalarBytes.ToScalar props=C28,C29 low
func zlBytesScalar(s Secp256K1ScalarBytes) EccScalar {
	f, err := zdec(znq(), s[:])
	if err != nil {
		panic("unspecified")
	}
	return zmq(f)
}

// ------------------------------------------------------------- field elements

//vg:spec Secp256k1Field.CurveType props=C36 low
func zlFCurve(s Secp256k1Field) EccCurveType { return K256 }

//vg:spec Secp256k1Field.Add props=C36 low
func zlFAdd(s *Secp256k1Field, lhs, rhs EccFieldElement) EccFieldElement {
	s.field = znp().Add(zp(lhs), zp(rhs))
	return s
}

//vg:spec Secp256k1Field.Sub props=C36 low
func zlFSub(s *Secp256k1Field, lhs, rhs EccFieldElement) EccFieldElement {
	s.field = znp().Sub(zp(lhs), zp(rhs))
	return s
}

//vg:spec Secp256k1Field.Mul props=C36 low
func zlFMul(s *Secp256k1Field, lhs, rhs EccFieldElement) EccFieldElement {
	s.field = znp().Mul(zp(lhs), zp(rhs))
	return s
}

//vg:spec Secp256k1Field.Square props=C36 low
func zlFSquare(s *Secp256k1Field, other EccFieldElement) EccFieldElement {
	s.field = znp().Mul(zp(other), zp(other))
	return s
}

//vg:spec Secp256k1Field.Invert props=C36 low
func zlFInv(s *Secp256k1Field, other EccFieldElement) EccFieldElement {
	s.field, _ = znp().Invert(zp(other))
	return s
}

//vg:spec Secp256k1Field.Negate props=C36 low
func zlFNeg(s *Secp256k1Field, other EccFieldElement) EccFieldElement {
	s.field = znp().Sub(znp(), zp(other))
	return s
}

//vg:spec Secp256k1Field.Assign props=C36,C32 low
func zlFAssign(s *Secp256k1Field, other EccFieldElement) EccFieldElement {
	s.field = znp().Set(zp(other))
	return s
}

//vg:spec Secp256k1Field.CAssign props=C36 low
func zlFCAssign(s *Secp256k1Field, other EccFieldElement, choice int) {
	zzAssume(choice == 0 || choice == 1)
	if choice == 1 {
		s.field = znp().Set(zp(other))
	}
}

//vg:spec Secp256k1Field.Clone props=C32,C36 low
func zlFClone(s *Secp256k1Field) EccFieldElement { return zmp(znp().Set(s.field)) }

//vg:spec Secp256k1Field.Equal props=C36 low
func zlFEqual(s Secp256k1Field, other EccFieldElement) int {
	if znp().Sub(s.field, zp(other)).IsZero() == 1 {
		return 1
	}
	return 0
}

//vg:spec Secp256k1Field.IsZero props=C36 low
func zlFIsZero(s Secp256k1Field) int { return s.field.Equal(znp()) }

// zlFSqrt: a root and one, or zero and zero.
//
//vg:spec Secp256k1Field.Sqrt props=C36,C21 low
func zlFSqrt(s *Secp256k1Field, other EccFieldElement) (EccFieldElement, int) {
	y, ok := znp().Sqrt(zp(other))
	if !ok {
		s.field = znp()
		return s, 0
	}
	s.field = y
	return s, 1
}

// zlFProgenitor raises to (p-3)/4.
//
//vg:spec Secp256k1Field.Progenitor props=C36,C21 low
func zlFProgenitor(s *Secp256k1Field, other EccFieldElement) EccFieldElement {
	k, _ := new(big.Int).SetString("3fffffffffffffffffffffffffffffffffffffffffffffffffffffffbfffff0b", 16)
	s.field = znp().Exp(zp(other), znp().SetBigInt(k))
	return s
}

//vg:spec Secp256k1Field.AsBytes props=C29,C36 low
func zlFBytes(s Secp256k1Field) []byte { return zbe(s.field) }

//vg:spec Secp256k1Field.Sign props=C36,C21 low
func zlFSign(s Secp256k1Field) uint8 { return zbe(s.field)[31] & 1 }

//vg:spec Secp256k1Field.BigInt props=C36 low
func zlFBig(s Secp256k1Field) *big.Int { return s.field.BigInt() }

//vg:spec EccK256Field.Zero props=C36 low
func zlFZero(k EccK256Field) *Secp256k1Field { return zmp(znp()) }

//vg:spec EccK256Field.One props=C36 low
func zlFOne(k EccK256Field) *Secp256k1Field { return zmp(znp().SetUint64(1)) }

//vg:spec EccK256Field.FromBytes props=C28,C30 low
func zlFDec(k EccK256Field, bytes []byte) (*Secp256k1Field, error) {
	f, err := zdec(znp(), bytes)
	if err != nil {
		return nil, zzBad
	}
	return zmp(f), nil
}

//vg:spec EccK256Field.FromBytesWide props=C28 low
func zlFWide(k EccK256Field, bytes []byte) *Secp256k1Field {
	zzAssume(len(bytes) <= 64)
	return zmp(zwide(znp(), bytes))
}

//vg:spec field.FromBytes props=C28,C30,C35 low
func zlFieldDec(k field, curve EccCurveType, bytes []byte) (EccFieldElement, error) {
	if curve != K256 {
		return nil, zzBad
	}
	f, err := zdec(znp(), bytes)
	if err != nil {
		return nil, zzBad
	}
	return zmp(f), nil
}

//vg:spec field.FromBytesWide props=C28,C30,C35 low
func zlFieldWide(k field, curve EccCurveType, bytes []byte) (EccFieldElement, error) {
	if curve != K256 || len(bytes) > 64 {
		return nil, zzBad
	}
	return zmp(zwide(znp(), bytes)), nil
}

func zhex(h string) *native.Field {
	b, _ := new(big.Int).SetString(h, 16)
	return znp().SetBigInt(b)
}

//vg:spec field.Zero props=C36 low
func zlFieldZero(k field, curve EccCurveType) EccFieldElement {
	zzAssume(curve == K256)
	return zmp(znp())
}

//vg:spec field.One props=C36 low
func zlFieldOne(k field, curve EccCurveType) EccFieldElement {
	zzAssume(curve == K256)
	return zmp(znp().SetUint64(1))
}

//vg:spec field.A props=C36 low
func zlFieldA(k field, curve EccCurveType) EccFieldElement {
	zzAssume(curve == K256)
	return zmp(znp())
}

//vg:spec field.B props=C36 low
func zlFieldB(k field, curve EccCurveType) EccFieldElement {
	zzAssume(curve == K256)
	return zmp(znp().SetUint64(7))
}

//vg:spec field.SswuA props=C21 low
func zlFieldSA(k field, curve EccCurveType) EccFieldElement {
	zzAssume(curve == K256)
	return zmp(zhex(zzA))
}

//vg:spec field.SswuB props=C21 low
func zlFieldSB(k field, curve EccCurveType) EccFieldElement {
	zzAssume(curve == K256)
	return zmp(zhex(zzB))
}

//vg:spec field.SswuZ props=C21 low
func zlFieldSZ(k field, curve EccCurveType) EccFieldElement {
	zzAssume(curve == K256)
	return zmp(zhex(zzZ))
}

//vg:spec field.SswuC2 props=C21 low
func zlFieldSC2(k field, curve EccCurveType) EccFieldElement {
	zzAssume(curve == K256)
	return zmp(zhex("31fdf302724013e57ad13fb38f842afeec184f00a74789dd286729c8303c4a59"))
}

//vg:spec EccK256Field.FromHex props=C21,C28 low
func zlFHex(k EccK256Field, h string) *Secp256k1Field {
	b, err := hex.DecodeString(h)
	if err != nil {
		panic("unspecified")
	}
	return zmp(znp().SetBigInt(new(big.Int).SetBytes(b)))
}

// ------------------------------------------------------------- points

//vg:spec Secp256k1Point.CurveType props=C36 low
func zlPCurve(s Secp256k1Point) EccCurveType { return K256 }

//vg:spec Secp256k1Point.AddPoints props=C36 low
func zlPAdd(s *Secp256k1Point, lhs, rhs EccPoint) EccPoint {
	s.point = znt().Add(zt(lhs), zt(rhs))
	return s
}

//vg:spec Secp256k1Point.SubPoints props=C36 low
func zlPSub(s *Secp256k1Point, lhs, rhs EccPoint) EccPoint {
	s.point = znt().Add(zt(lhs), znt().Neg(zt(rhs)))
	return s
}

//vg:spec Secp256k1Point.Double props=C36 low
func zlPDouble(s *Secp256k1Point, other EccPoint) EccPoint {
	s.point = znt().Add(zt(other), zt(other))
	return s
}

//vg:spec Secp256k1Point.ScalarMul props=C36 low
func zlPMul(s *Secp256k1Point, other EccPoint, k EccScalar) EccPoint {
	s.point = znt().Mul(zt(other), zq(k))
	return s
}

//vg:spec Secp256k1Point.MulByNodeIndex props=C36,C26 low
func zlPMulIndex(s *Secp256k1Point, i common.NodeIndex) EccPoint {
	zzAssume(i >= 0)
	return zmt(znt().Mul(s.point, znq().SetUint64(uint64(i)+1)))
}

//vg:spec Secp256k1Point.LinComb props=C36,C26 low
func zlPLin(s *Secp256k1Point, p1 EccPoint, k1 EccScalar, p2 EccPoint, k2 EccScalar) EccPoint {
	s.point = znt().Add(znt().Mul(zt(p1), zq(k1)), znt().Mul(zt(p2), zq(k2)))
	return s
}

//vg:spec Secp256k1Point.Assign props=C36,C32 low
func zlPAssign(s *Secp256k1Point, p EccPoint) EccPoint {
	s.point = znt().Set(zt(p))
	return s
}

//vg:spec Secp256k1Point.Clone props=C36,C32 low
func zlPClone(s Secp256k1Point) EccPoint { return zmt(znt().Set(s.point)) }

//vg:spec Secp256k1Point.Equal props=C36 low
func zlPEqual(s Secp256k1Point, p EccPoint) int {
	if znt().Sub(s.point, zt(p)).IsIdentity() {
		return 1
	}
	return 0
}

//vg:spec Secp256k1Point.IsInfinity props=C36 low
func zlPInf(s Secp256k1Point) bool { return s.point.Equal(znt()) == 1 }

//vg:spec Secp256k1Point.AffineX props=C36,C05 low
func zlPX(s Secp256k1Point) EccFieldElement { return zmp(s.point.GetX()) }

//vg:spec Secp256k1Point.AffineY props=C36 low
func zlPY(s Secp256k1Point) EccFieldElement { return zmp(s.point.GetY()) }

//vg:spec EccK256Point.NewK256 props=C36 low
func zlPNew(k EccK256Point) *Secp256k1Point { return zmt(znt().Identity()) }

//vg:spec EccK256Point.Identity props=C36 low
func zlPId(k EccK256Point) *Secp256k1Point { return zmt(znt().Identity()) }

//vg:spec EccK256Point.NewK256G props=C36 low
func zlPG(k EccK256Point) *Secp256k1Point { return zmt(znt().Generator()) }

//vg:spec point.Identity props=C36 low
func zlPointId(p point, curve EccCurveType) EccPoint {
	zzAssume(curve == K256)
	return zmt(znt().Identity())
}

//vg:spec point.GeneratorG props=C36 low
func zlPointG(p point, curve EccCurveType) EccPoint {
	zzAssume(curve == K256)
	return zmt(znt().Generator())
}

// zH is the second generator.
func zH() *native.EllipticPoint {
	p := znt()
	p.X = zhex("7bdcfc024cf697a41fd3cda2436c843af5669e50042be3314a532d5b70572f59")
	r := znp()
	p.Arithmetic.RhsEq(r, p.X)
	y, _ := znp().Sqrt(r)
	if zbe(y)[31]&1 == 0 {
		y.Neg(y)
	}
	p.Y = y
	p.Z.SetOne()
	return p
}

//vg:spec point.GeneratorH props=C36,C26 low
func zlPointH(p point, curve EccCurveType) EccPoint {
	zzAssume(curve == K256)
	return zmt(zH())
}

//vg:spec point.MulPoints props=C36,C26 low
func zlPointMul(p point, p1 EccPoint, k1 EccScalar, p2 EccPoint, k2 EccScalar) EccPoint {
	return zmt(znt().Add(znt().Mul(zt(p1), zq(k1)), znt().Mul(zt(p2), zq(k2))))
}

//vg:spec point.Pedersen props=C36,C26 low
func zlPointPed(p point, a EccScalar, b EccScalar) EccPoint {
	return zmt(znt().Add(znt().Mul(znt().Generator(), zq(a)), znt().Mul(zH(), zq(b))))
}

//vg:spec point.MulByG props=C36,C26 low
func zlPointMulG(p point, a EccScalar) EccPoint {
	return zmt(znt().Mul(znt().Generator(), zq(a)))
}

// ------------------------------------------------------------- point encodings

// zzX decompresses: the point with the given x and parity of y.
func zdecomp(xb []byte, odd bool) (*Secp256k1Point, error) {
	x, err := zdec(znp(), xb)
	if err != nil {
		return nil, zzBad
	}
	p := znt()
	r := znp()
	p.Arithmetic.RhsEq(r, x)
	y, ok := znp().Sqrt(r)
	if !ok {
		return nil, zzBad
	}
	if (zbe(y)[31]&1 == 1) != odd {
		y = znp().Neg(y)
	}
	p.X, p.Y = x, y
	p.Z.SetOne()
	return zmt(p), nil
}

func zuncomp(xb, yb []byte) (*Secp256k1Point, error) {
	x, err := zdec(znp(), xb)
	if err != nil {
		return nil, zzBad
	}
	y, err := zdec(znp(), yb)
	if err != nil {
		return nil, zzBad
	}
	p := znt()
	p.X, p.Y = x, y
	p.Z.SetOne()
	if !p.IsOnCurve() {
		return nil, zzBad
	}
	return zmt(p), nil
}

func zany(b []byte) (*Secp256k1Point, error) {
	if len(b) == 1 && b[0] == 0 {
		return zmt(znt()), nil
	}
	if len(b) == 33 && (b[0] == 2 || b[0] == 3 || b[0] == 5) {
		return zdecomp(b[1:], b[0] == 3)
	}
	if len(b) == 65 && b[0] == 4 {
		return zuncomp(b[1:33], b[33:])
	}
	return nil, zzBad
}

//vg:spec EccK256Point.Deserialize props=C27,C30 low
func zlPDec(e EccK256Point, bytes []byte) (*Secp256k1Point, error) { return zany(bytes) }

//vg:spec point.DeserializeAnyFormat props=C27,C30,C35 low
func zlPointAny(p point, curve EccCurveType, bytes []byte) (EccPoint, error) {
	if curve != K256 {
		return nil, zzBad
	}
	q, err := zany(bytes)
	if err != nil {
		return nil, zzBad
	}
	return q, nil
}

func zcanon(b []byte) (EccPoint, error) {
	if len(b) != 33 {
		return nil, zzBad
	}
	zero := true
	for _, c := range b {
		if c != 0 {
			zero = false
		}
	}
	if zero {
		return zmt(znt()), nil
	}
	if b[0] != 2 && b[0] != 3 {
		return nil, zzBad
	}
	q, err := zdecomp(b[1:], b[0] == 3)
	if err != nil {
		return nil, zzBad
	}
	return q, nil
}

//vg:spec point.Deserialize props=C27,C30,C35 low
func zlPointDec(p point, curve EccCurveType, bytes []byte) (EccPoint, error) {
	if curve != K256 {
		return nil, zzBad
	}
	return zcanon(bytes)
}

//vg:spec point.DeserializeTagged props=C27,C30,C35 low
func zlPointDecTagged(p point, curve EccCurveType, bytes []byte) (EccPoint, error) {
	if curve != K256 || len(bytes) != 34 || bytes[0] != 1 {
		return nil, zzBad
	}
	return zcanon(bytes[1:])
}

//vg:spec point.FromFieldElems props=C27,C30,C36 low
func zlPointFields(p point, x EccFieldElement, y EccFieldElement) (EccPoint, error) {
	q := znt()
	q.X, q.Y = znp().Set(zp(x)), znp().Set(zp(y))
	q.Z.SetOne()
	if !q.IsOnCurve() {
		return nil, zzBad
	}
	return zmt(q), nil
}

func zser(p *native.EllipticPoint) []byte {
	if p.IsIdentity() {
		return make([]byte, 33)
	}
	return append([]byte{2 + zbe(p.GetY())[31]&1}, zbe(p.GetX())...)
}

//vg:spec Secp256k1Point.Serialize props=C29 low
func zlPSer(s Secp256k1Point) []byte { return zser(s.point) }

//vg:spec Secp256k1Point.SerializeTagged props=C29 low
func zlPSerT(s Secp256k1Point) []byte { return append([]byte{1}, zser(s.point)...) }

// zlPSerU: uncompressed, the identity being all zeros.
//
//vg:spec Secp256k1Point.SerializeUncompressed props=C29 low
func zlPSerU(s Secp256k1Point) []byte {
	if s.point.IsIdentity() {
		return make([]byte, 65)
	}
	return append(append([]byte{4}, zbe(s.point.GetX())...), zbe(s.point.GetY())...)
}

// ------------------------------------------------------------- CBOR

//vg:spec Secp256k1Point.MarshalCBOR props=C29 low
func zlPMarshal(s Secp256k1Point) ([]byte, error) {
	return cbor.Marshal(append([]byte{1}, zser(s.point)...))
}

//vg:spec Secp256k1Scalar.MarshalCBOR props=C29 low
func zlSMarshal(s Secp256k1Scalar) ([]byte, error) {
	return cbor.Marshal(append([]byte{1}, zbe(s.scalar)...))
}

//vg:spec Secp256k1Point.UnmarshalCBOR props=C27,C30,C29 low
func zlPUnmarshal(s *Secp256k1Point, data []byte) error {
	var b []byte
	if cbor.Unmarshal(data, &b) != nil {
		return zzBad
	}
	if len(b) != 34 || b[0] != 1 {
		return zzBad
	}
	q, err := zcanon(b[1:])
	if err != nil {
		return zzBad
	}
	s.point = zt(q)
	return nil
}

//vg:spec Secp256k1Scalar.UnmarshalCBOR props=C28,C30,C29 low
func zlSUnmarshal(s *Secp256k1Scalar, data []byte) error {
	var b []byte
	if cbor.Unmarshal(data, &b) != nil {
		return zzBad
	}
	if len(b) != 33 || b[0] != 1 {
		return zzBad
	}
	f, err := zdec(znq(), b[1:])
	if err != nil {
		return zzBad
	}
	s.scalar = f
	return nil
}

// ------------------------------------------------------------- aliasing laws

// The arithmetic methods allow their receiver to be an operand.

func zs(x EccScalar) *native.Field { return znq().Set(zq(x)) }
func zsIs(x EccScalar, f *native.Field) bool {
	return zq(x).Equal(f) == 1
}
func zf(x EccFieldElement) *native.Field { return znp().Set(zp(x)) }
func zfIs(x EccFieldElement, f *native.Field) bool {
	return zp(x).Equal(f) == 1
}
func zpt(x EccPoint) *native.EllipticPoint { return znt().Set(zt(x)) }
func zptIs(x EccPoint, p *native.EllipticPoint) bool {
	return zt(x).Equal(p) == 1
}

//vg:law props=C36 low
func zzAliasScalarLeft(a, b EccScalar) bool {
	x, y := zs(a), zs(b)
	p, q, r := zmq(zs(a)), zmq(zs(a)), zmq(zs(a))
	p.Add(p, b)
	q.Sub(q, b)
	r.Mul(r, b)
	return zsIs(p, znq().Add(x, y)) && zsIs(q, znq().Sub(x, y)) && zsIs(r, znq().Mul(x, y)) && zsIs(b, y)
}

//vg:law props=C36 low
func zzAliasScalarRight(a, b EccScalar) bool {
	x, y := zs(a), zs(b)
	p, q, r := zmq(zs(b)), zmq(zs(b)), zmq(zs(b))
	p.Add(a, p)
	q.Sub(a, q)
	r.Mul(a, r)
	return zsIs(p, znq().Add(x, y)) && zsIs(q, znq().Sub(x, y)) && zsIs(r, znq().Mul(x, y)) && zsIs(a, x)
}

//vg:law props=C36 low
func zzAliasScalarBoth(a EccScalar) bool {
	x := zs(a)
	p, q, r, s, t := zmq(zs(a)), zmq(zs(a)), zmq(zs(a)), zmq(zs(a)), zmq(zs(a))
	p.Add(p, p)
	q.Sub(q, q)
	r.Mul(r, r)
	s.Negate(s)
	t.Invert(t)
	i, _ := znq().Invert(x)
	return zsIs(p, znq().Add(x, x)) && zsIs(q, znq()) && zsIs(r, znq().Mul(x, x)) && zsIs(s, znq().Neg(x)) && zsIs(t, i) &&
		p.Equal(p) == 1
}

//vg:law props=C36 low
func zzAliasFieldLeft(a, b EccFieldElement) bool {
	x, y := zf(a), zf(b)
	p, q, r := zmp(zf(a)), zmp(zf(a)), zmp(zf(a))
	p.Add(p, b)
	q.Sub(q, b)
	r.Mul(r, b)
	return zfIs(p, znp().Add(x, y)) && zfIs(q, znp().Sub(x, y)) && zfIs(r, znp().Mul(x, y)) && zfIs(b, y)
}

//vg:law props=C36 low
func zzAliasFieldRight(a, b EccFieldElement) bool {
	x, y := zf(a), zf(b)
	p, q, r := zmp(zf(b)), zmp(zf(b)), zmp(zf(b))
	p.Add(a, p)
	q.Sub(a, q)
	r.Mul(a, r)
	return zfIs(p, znp().Add(x, y)) && zfIs(q, znp().Sub(x, y)) && zfIs(r, znp().Mul(x, y)) && zfIs(a, x)
}

//vg:law props=C36 low
func zzAliasFieldBoth(a EccFieldElement) bool {
	x := zf(a)
	p, q, r, s, t, u := zmp(zf(a)), zmp(zf(a)), zmp(zf(a)), zmp(zf(a)), zmp(zf(a)), zmp(zf(a))
	p.Add(p, p)
	q.Sub(q, q)
	r.Mul(r, r)
	s.Negate(s)
	t.Invert(t)
	u.Square(u)
	i, _ := znp().Invert(x)
	return zfIs(p, znp().Add(x, x)) && zfIs(q, znp()) && zfIs(r, znp().Mul(x, x)) && zfIs(s, znp().Neg(x)) && zfIs(t, i) && zfIs(u, znp().Mul(x, x))
}

//vg:law props=C36 low
func zzAliasPoint(a, b EccPoint, k, l EccScalar) bool {
	x, y := zpt(a), zpt(b)
	p, q, r, s, t, u := zmt(zpt(a)), zmt(zpt(a)), zmt(zpt(a)), zmt(zpt(a)), zmt(zpt(a)), zmt(zpt(a))
	p.AddPoints(p, b)
	q.SubPoints(q, b)
	r.SubPoints(b, r)
	s.Double(s)
	t.ScalarMul(t, k)
	u.LinComb(u, k, b, l)
	v := zmt(zpt(a))
	v.LinComb(b, l, v, k)
	g := zmt(zpt(a))
	g.AddPoints(b, g)
	w := znt().Add(znt().Mul(x, zq(k)), znt().Mul(y, zq(l)))
	return zptIs(p, znt().Add(x, y)) && zptIs(q, znt().Sub(x, y)) && zptIs(r, znt().Sub(y, x)) && zptIs(s, znt().Add(x, x)) &&
		zptIs(t, znt().Mul(x, zq(k))) && zptIs(u, w) && zptIs(v, w) && zptIs(g, znt().Add(x, y)) && zptIs(b, y)
}

//vg:law props=C36 low
func zzAliasPointBoth(a EccPoint) bool {
	x := zpt(a)
	p, q, r := zmt(zpt(a)), zmt(zpt(a)), zmt(zpt(a))
	p.AddPoints(p, p)
	q.SubPoints(q, q)
	r.Assign(r)
	return zptIs(p, znt().Add(x, x)) && zptIs(q, znt()) && zptIs(r, x)
}

// ------------------------------------------------------------- clones

//vg:law props=C32 low
func zzCloneScalar(a, b EccScalar) bool {
	x, y := zs(a), zs(b)
	c, d, e := a.Clone(), a.Clone(), zmq(zs(a))
	c.Add(c, b)
	d.Assign(b)
	f := e.Clone()
	e.Mul(e, b)
	g := zmq(znq())
	g.Assign(b)
	g.Add(g, b)
	return zsIs(a, x) && zsIs(f, x) && zsIs(c, znq().Add(x, y)) && zsIs(b, y)
}

//vg:law props=C32 low
func zzCloneField(a, b EccFieldElement) bool {
	x, y := zf(a), zf(b)
	c, d, e := a.Clone(), a.Clone(), zmp(zf(a))
	c.Add(c, b)
	d.Assign(b)
	f := e.Clone()
	e.Mul(e, b)
	g := zmp(znp())
	g.Assign(b)
	g.Add(g, b)
	h := a.Clone()
	h.CAssign(b, 1)
	h.Add(h, b)
	return zfIs(a, x) && zfIs(f, x) && zfIs(c, znp().Add(x, y)) && zfIs(b, y)
}

//vg:law props=C32 low
func zzClonePoint(a, b EccPoint, k EccScalar) bool {
	x, y := zpt(a), zpt(b)
	c, d, e := a.Clone(), a.Clone(), zmt(zpt(a))
	c.AddPoints(c, b)
	d.Assign(b)
	d.ScalarMul(d, k)
	f := e.Clone()
	e.Double(e)
	g := a.AffineX()
	g.Add(g, g)
	h := a.AffineY()
	h.Add(h, h)
	m := a.MulByNodeIndex(0)
	m.AddPoints(m, b)
	return zptIs(a, x) && zptIs(f, x) && zptIs(c, znt().Add(x, y)) && zptIs(b, y)
}

// Operations that write to the coordinates a point has, rather than give it
// others.
//
//vg:law props=C32 low
func zzClonePointInPlace(a, b EccPoint, k EccScalar) bool {
	x := zpt(a)
	c, d := a.Clone(), a.Clone()
	c.ScalarMul(b, k)
	d.(*Secp256k1Point).point.Identity()
	e := zmt(zpt(a))
	f := e.Clone()
	e.ScalarMul(b, k)
	g := K256Point.NewK256()
	g.Assign(a)
	g.ScalarMul(g, k)
	return zptIs(a, x) && zptIs(f, x)
}

// Decoded points with coordinates of their own.
//
//vg:law props=C32 low
func zzCloneDecoded(b []byte, q EccPoint) bool {
	p, err := K256Point.Deserialize(b)
	zzAssume(err == nil)
	x := znt().Set(p.point)
	c := p.Clone()
	c.AddPoints(c, q)
	d := K256Point.NewK256()
	d.Assign(p)
	d.Double(d)
	e := K256Point.NewK256()
	e.Assign(p)
	e.point.Identity()
	return p.point.Equal(x) == 1
}

// The constructors return objects of their own on every call.
//
//vg:law props=C32,C31 low
func zzFresh(q EccPoint, k EccScalar, f EccFieldElement) bool {
	g := Point.GeneratorG(K256)
	g.AddPoints(g, q)
	h := Point.GeneratorH(K256)
	h.AddPoints(h, q)
	i := Point.Identity(K256)
	i.AddPoints(i, q)
	o := Scalar.One(K256)
	o.Add(o, k)
	z := Scalar.Zero(K256)
	z.Add(z, k)
	a := Field.SswuA(K256)
	a.Add(a, f)
	return zptIs(Point.GeneratorG(K256), znt().Generator()) && zptIs(Point.GeneratorH(K256), zH()) && zptIs(Point.Identity(K256), znt()) &&
		zsIs(Scalar.One(K256), znq().SetUint64(1)) && zsIs(Scalar.Zero(K256), znq()) && zfIs(Field.SswuA(K256), zhex(zzA))
}

// ------------------------------------------------------------- random scalars

// The first 32 bytes of the generator are the scalar if they are canonical.
//
//vg:law props=C23,C28 low
func zzRandomFirst(s *seed.Seed) bool {
	b := make([]byte, 32)
	s.Rng().FillUint8(b)
	f, err := zdec(znq(), b)
	zzAssume(err == nil)
	return zsIs(Scalar.Random(K256, s.Rng()), f)
}
