package curve

import "encoding/hex"

// Tagged encodings of coordinates (the SEC 1 layout): tag 0 alone, 2 or 3 with
// one coordinate, 4 with two, 5 with one and no parity.

func zeLen(t Tag, n int) int {
	switch t {
	case 2, 3, 5:
		return 1 + n
	case 4:
		return 1 + 2*n
	}
	return 1
}

//vg:spec Tag.MessageLen props=C29,C27
func zeMessageLen(t Tag, n int) int {
	zzAssume(n >= 0 && n < 1024)
	return zeLen(t, n)
}

//vg:spec Tag.CompressY props=C29,C27
func zeCompressY(t Tag, y []byte) Tag {
	zzAssume(len(y) == 32)
	if y[31]%2 == 1 {
		return 3
	}
	return 2
}

//vg:spec Tag.IsCompact props=C29
func zeIsCompact(t Tag) bool { return t == 5 }

//vg:spec Tag.IsCompressed props=C29
func zeIsCompressed(t Tag) bool { return t == 2 || t == 3 }

//vg:spec Tag.IsIdentity props=C29
func zeIsIdentity(t Tag) bool { return t == 0 }

// zeOK: the length fits the tag.
func zeOK(b []byte) bool {
	return len(b) > 0 && b[0] <= 5 && b[0] != 1 && len(b) == zeLen(Tag(b[0]), 32)
}

// zePoint reads a well-formed encoding.
func zePoint(b []byte) *EncodePoint32 {
	zzAssume(zeOK(b))
	e, err := Encode.FromBytes(b)
	zzAssume(err == nil)
	return e.(*EncodePoint32)
}

func zeEq(a, b []byte) bool { return string(a) == string(b) }

//vg:spec encode32.FromBytes props=C27,C29,C30
func zeFromBytes(_ encode32, b []byte) (EncodePoint, error) {
	if !zeOK(b) {
		return nil, zzBad
	}
	return &EncodePoint32{append([]byte{}, b...)}, nil
}

//vg:spec encode32.FromStr props=C27,C29,C30
func zeFromStr(_ encode32, s string) (EncodePoint, error) {
	b, err := hex.DecodeString(s)
	if err != nil || !zeOK(b) {
		return nil, zzBad
	}
	return &EncodePoint32{b}, nil
}

// FromAffineCoordinates: what it encodes is the tag and the coordinates.
//
//vg:law props=C29 general=no inst=a0:32,a1:32
func zeAffine(x, y []byte, compress bool) bool {
	zzAssume(len(x) == 32 && len(y) == 32)
	e := Encode.FromAffineCoordinates(x, y, compress)
	b := e.AsBytes()
	if e.Len() != len(b) || !zeEq(e.X(), x) || !zeEq(b[1:33], x) {
		return false
	}
	if compress {
		return len(b) == 33 && b[0] == 2+y[31]&1 && e.IsCompressed()
	}
	return len(b) == 65 && b[0] == 4 && zeEq(b[33:], y) && zeEq(e.Y(), y) && !e.IsCompressed() && !e.IsIdentity() && !e.IsCompact()
}

//vg:law props=C29 general=no inst=a0:64
func zeUntagged(xy []byte) bool {
	zzAssume(len(xy) == 64)
	e := Encode.FromUnTaggedBytes(xy)
	b := e.AsBytes()
	return len(b) == 65 && b[0] == 4 && zeEq(b[1:], xy)
}

// What was read is what is written.
//
//vg:law props=C29 general=no inst=a0:1 inst=a0:33 inst=a0:65
func zeRound(b []byte) bool {
	e := zePoint(b)
	return zeEq(e.AsBytes(), b) && e.Len() == len(b) && byte(e.Tag()) == b[0] && e.ToString() == hex.EncodeToString(b)
}

//vg:law props=C29 general=no inst=a0:1 inst=a0:33 inst=a0:65
func zeCoords(b []byte) bool {
	e := zePoint(b)
	switch b[0] {
	case 0:
		return len(e.X()) == 0 && len(e.Y()) == 0 && e.IsIdentity() && e.Coordinates().Tag() == 0
	case 4:
		return zeEq(e.X(), b[1:33]) && zeEq(e.Y(), b[33:]) && !e.IsIdentity() && e.Coordinates().Tag() == 4
	}
	return zeEq(e.X(), b[1:33]) && len(e.Y()) == 0 && !e.IsIdentity() && byte(e.Coordinates().Tag()) == b[0]
}

// Compressing keeps the first coordinate and the parity of the second.
//
//vg:law props=C29 general=no inst=a0:1 inst=a0:33 inst=a0:65
func zeCompress(b []byte) bool {
	r := zePoint(b).Compress().AsBytes()
	if b[0] != 4 {
		return zeEq(r, b)
	}
	return len(r) == 33 && r[0] == 2+b[64]&1 && zeEq(r[1:], b[1:33])
}

//vg:law props=C29 general=no inst=a0:1,a1:1 inst=a0:1,a1:33 inst=a0:33,a1:65
func zeSelect(a, b []byte, choice int) bool {
	r := Encode.ConditionalSelect(zePoint(a), zePoint(b), choice).AsBytes()
	if choice == 0 {
		return zeEq(r, a)
	}
	return zeEq(r, b)
}

//vg:law props=C29
func zeIdentity() bool {
	e := Encode.Identity()
	return e.IsIdentity() && e.Len() == 1 && len(e.AsBytes()) == 1 && e.AsBytes()[0] == 0
}

//vg:spec FromTag props=C28,C27,C35
func zeFromTag(t uint8) EccCurveType {
	if t == 1 {
		return K256
	}
	return 0
}

//vg:spec EccCurveType.ScalarBytes props=C28,C29
func zeScalarBytes(t EccCurveType) int {
	zzAssume(t == K256)
	return 32
}

//vg:spec EccCurveType.FieldBytes props=C28,C29
func zeFieldBytes(t EccCurveType) int {
	zzAssume(t == K256)
	return 32
}

//vg:spec EccCurveType.PointBytes props=C27,C29
func zePointBytes(t EccCurveType) int {
	zzAssume(t == K256)
	return 33
}

//vg:spec EccCurveType.SecurityLevel props=C21
func zeSecurity(t EccCurveType) int {
	zzAssume(t == K256)
	return 128
}

//vg:spec EccCurveType.Tag props=C28,C29
func zeTag(t EccCurveType) uint8 {
	zzAssume(t == K256)
	return 1
}

//vg:spec EccCurveType.String props=C20,C21
func zeString(t EccCurveType) string {
	zzAssume(t == K256)
	return "secp256k1"
}
