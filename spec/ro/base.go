package ro

import (
	"encoding/binary"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/seed"
)

func zzAssume(bool)

// ZzItem is the encoding of one named input.
func ZzItem(name string, ty byte, data []byte) []byte {
	var n [4]byte
	binary.BigEndian.PutUint32(n[:], uint32(len(data)))
	out := append([]byte{byte(len(name))}, name...)
	out = append(out, ty)
	out = append(out, n[:]...)
	return append(out, data...)
}

func ZzBytes(name string, b []byte) []byte { return ZzItem(name, 1, b) }

func ZzUint(name string, i uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], i)
	return ZzItem(name, 2, b[:])
}

func ZzPoint(name string, p curve.EccPoint) []byte {
	return ZzItem(name, 3, append([]byte{1}, p.Serialize()...))
}

func ZzScalar(name string, s curve.EccScalar) []byte {
	return ZzItem(name, 4, append([]byte{1}, s.Serialize()...))
}

// ZzHash is the scalar an oracle outputs for encoded inputs.
func ZzHash(dst string, in []byte) curve.EccScalar {
	b, err := seed.ExpandMessageXmd(in, []byte(dst+"-secp256k1"), 48)
	if err != nil {
		panic("unspecified")
	}
	s, err := curve.Scalar.FromBytesWide(curve.K256, b)
	if err != nil {
		panic("unspecified")
	}
	return s
}

// ZzHashes are two scalars of one oracle.
func ZzHashes(dst string, in []byte) (curve.EccScalar, curve.EccScalar) {
	b, err := seed.ExpandMessageXmd(in, []byte(dst+"-secp256k1"), 96)
	if err != nil {
		panic("unspecified")
	}
	s, err := curve.Scalar.FromBytesWide(curve.K256, b[:48])
	if err != nil {
		panic("unspecified")
	}
	t, err := curve.Scalar.FromBytesWide(curve.K256, b[48:])
	if err != nil {
		panic("unspecified")
	}
	return s, t
}

// ZzHashPoint is the point an oracle outputs for encoded inputs.
func ZzHashPoint(dst string, in []byte) curve.EccPoint {
	p, err := curve.Point.HashToPoint(curve.K256, in, []byte(dst+"-secp256k1"))
	if err != nil {
		panic("unspecified")
	}
	return p
}

// ZzHashBytes are n bytes of oracle output.
func ZzHashBytes(dst string, in []byte, n int) []byte {
	b, err := seed.ExpandMessageXmd(in, []byte(dst), n)
	if err != nil {
		panic("unspecified")
	}
	return b
}

// ZzCat joins encoded inputs, given in name order.
func ZzCat(xs ...[]byte) []byte {
	var out []byte
	for _, x := range xs {
		out = append(out, x...)
	}
	return out
}
