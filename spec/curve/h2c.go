package curve

import (
	"errors"

	"github.com/PlatONnetwork/tecdsa/seed"
)

var zzBad = errors.New("refused")

func zfAdd(a, b EccFieldElement) EccFieldElement { return a.Clone().Add(a, b) }
func zfMul(a, b EccFieldElement) EccFieldElement { return a.Clone().Mul(a, b) }
func zfNeg(a EccFieldElement) EccFieldElement    { return a.Clone().Negate(a) }
func zfInv(a EccFieldElement) EccFieldElement    { return a.Clone().Invert(a) }
func zfEq(a, b EccFieldElement) bool             { return a.Equal(b) == 1 }
func zfHex(h string) EccFieldElement             { return K256Field.FromHex(h) }
func zfZero() EccFieldElement                    { return K256Field.Zero() }
func zfIf(c bool, a, b EccFieldElement) EccFieldElement {
	if c {
		return a
	}
	return b
}

// zzHashToField is hash_to_field of RFC 9380, section 5.2, with L = 48.
//
//vg:spec HashToField props=C21,C20,C28
func zzHashToField(count int, curve EccCurveType, input []byte, domainSeparator []byte) ([]EccFieldElement, error) {
	zzAssume(curve == K256 && count >= 1)
	b, err := seed.ExpandMessageXmd(input, domainSeparator, count*48)
	if err != nil {
		return nil, zzBad
	}
	out := make([]EccFieldElement, count)
	for i := range out {
		out[i] = K256Field.FromBytesWide(b[i*48 : i*48+48])
	}
	return out, nil
}

//vg:spec HashToScalar props=C21,C20,C28
func zzHashToScalar(count int, curve EccCurveType, input []byte, domainSeparator []byte) ([]EccScalar, error) {
	zzAssume(curve == K256 && count >= 1)
	b, err := seed.ExpandMessageXmd(input, domainSeparator, count*48)
	if err != nil {
		return nil, zzBad
	}
	out := make([]EccScalar, count)
	for i := range out {
		out[i] = K256Scalar.FromWideBytes(b[i*48 : i*48+48])
	}
	return out, nil
}

const (
	zzA = "3f8731abdd661adca08a5558f0f5d272e953d363cb6f0e5d405447c01a444533"
	zzB = "00000000000000000000000000000000000000000000000000000000000006eb"
	// minus eleven
	zzZ = "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc24"
	// a root of eleven
	zzC2 = "31fdf302724013e57ad13fb38f842afeec184f00a74789dd286729c8303c4a59"
)

//vg:law props=C21
func zzSswuConstants() bool {
	// x^2 = -Z
	c2 := Field.SswuC2(K256)
	return zfEq(zfMul(c2, c2), zfNeg(zfHex(zzZ))) && zfEq(Field.SswuA(K256), zfHex(zzA)) && zfEq(Field.SswuB(K256), zfHex(zzB)) && zfEq(Field.SswuZ(K256), zfHex(zzZ))
}

// zzSqrtRatio is sqrt_ratio of RFC 9380, F.2.1.2 (q = 3 mod 4), written as
// y1 = (u*v^3)^((q-3)/4) * u*v.
//
//vg:spec sqrtRatio props=C21
func zzSqrtRatio(u, v EccFieldElement) (EccFieldElement, int, error) {
	if v.IsZero() == 1 {
		return nil, 0, zzBad
	}
	uv := zfMul(u, v)
	e := zfMul(uv, zfMul(v, v))
	y1 := zfMul(uv, e.Clone().Progenitor(e))
	if zfEq(zfMul(zfMul(y1, y1), v), u) {
		return y1, 1, nil
	}
	return zfMul(y1, zfHex(zzC2)), 0, nil
}

// zzSswu is the simplified SWU map of RFC 9380, section 6.6.2, with fractions
// x = xn/xd.
//
//vg:spec sswu props=C21
func zzSswu(u EccFieldElement) (EccFieldElement, EccFieldElement, error) {
	a, b, z, one := zfHex(zzA), zfHex(zzB), zfHex(zzZ), EccFieldElement(K256Field.One())
	zu2 := zfMul(z, zfMul(u, u))
	t := zfAdd(zfMul(zu2, zu2), zu2)
	xn := zfMul(b, zfAdd(t, one))
	xd := zfMul(a, zfIf(t.IsZero() == 1, z, zfNeg(t)))
	// g(x) = gn/gd
	gd := zfMul(xd, zfMul(xd, xd))
	gn := zfAdd(zfAdd(zfMul(xn, zfMul(xn, xn)), zfMul(a, zfMul(xn, zfMul(xd, xd)))), zfMul(b, gd))
	y1, qr, err := zzSqrtRatio(gn, gd)
	if err != nil {
		return nil, nil, zzBad
	}
	x, y := xn, y1
	if qr == 0 {
		x = zfMul(zu2, xn)
		y = zfMul(zfMul(zu2, u), y1)
	}
	if u.Sign() != y.Sign() {
		y = zfNeg(y)
	}
	return zfMul(x, zfInv(xd)), y, nil
}

func zzPoly(x EccFieldElement, cs ...string) EccFieldElement {
	acc := zfZero()
	for _, c := range cs {
		acc = zfAdd(zfMul(acc, x), zfHex(c))
	}
	return acc
}

const zz1 = "0000000000000000000000000000000000000000000000000000000000000001"

// zzIso is the 3-isogeny map of RFC 9380, appendix E.1.
//
//vg:spec sswuIsogenySecp256k1 props=C21
func zzIso(x, y EccFieldElement) (EccFieldElement, EccFieldElement) {
	xn := zzPoly(x,
		"8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa88c",
		"534c328d23f234e6e2a413deca25caece4506144037c40314ecbd0b53d9dd262",
		"07d3d4c80bc321d5b9f315cea7fd44c5d595d2fc0bf63b92dfff1044f17c6581",
		"8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa8c7")
	xd := zzPoly(x, zz1,
		"edadc6f64383dc1df7c4b2d51b54225406d36b641f5e41bbc52a56612a8c6d14",
		"d35771193d94918a9ca34ccbb7b640dd86cd409542f8487d9fe6b745781eb49b")
	yn := zzPoly(x,
		"2f684bda12f684bda12f684bda12f684bda12f684bda12f684bda12f38e38d84",
		"29a6194691f91a73715209ef6512e576722830a201be2018a765e85a9ecee931",
		"c75e0c32d5cb7c0fa9d0a54b12a0a6d5647ab046d686da6fdffc90fc201d71a3",
		"4bda12f684bda12f684bda12f684bda12f684bda12f684bda12f684b8e38e23c")
	yd := zzPoly(x, zz1,
		"6484aa716545ca2cf3a70c3fa8fe337e0a3d21162f0d6299a7bf8192bfd2a76f",
		"7a06534bb8bdb49fd5e9e6632722c2989467c1bfc8e8d978dfb425d2685c2573",
		"fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffff93b")
	// a pole of either map has a zero denominator in both results
	if zfMul(xd, yd).IsZero() == 1 {
		panic("unspecified")
	}
	// the library computes y in place
	z := zfMul(y, zfMul(yn, zfInv(yd)))
	y.Assign(z)
	return zfMul(xn, zfInv(xd)), y
}

//vg:spec MapToCurve props=C21
func zzMapToCurve(fe EccFieldElement) (EccPoint, error) {
	x, y, err := sswu(fe)
	if err != nil {
		return nil, zzBad
	}
	return Point.FromFieldElems(sswuIsogenySecp256k1(x, y))
}

//vg:spec HashToCurveRo props=C21,C20 no=curve.HashToCurveRo
func zzHashToCurve(curve EccCurveType, input []byte, domainSeparator []byte) (EccPoint, error) {
	zzAssume(curve == K256)
	b, err := seed.ExpandMessageXmd(input, domainSeparator, 96)
	if err != nil {
		return nil, zzBad
	}
	p, err := MapToCurve(K256Field.FromBytesWide(b[:48]))
	if err != nil {
		return nil, zzBad
	}
	q, err := MapToCurve(K256Field.FromBytesWide(b[48:]))
	if err != nil {
		return nil, zzBad
	}
	return ZzAdd(p, q), nil
}
