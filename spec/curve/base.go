// Specification helpers: plain operations on scalars and points that do not
// modify their operands. Laid over package curve by the checker; never part of
// the library.
package curve

import "github.com/PlatONnetwork/tecdsa/common"

func zzAssume(bool)

// ZzAssume states what a specification assumes of its inputs.
func ZzAssume(b bool) { zzAssume(b) }

func ZzMul(p EccPoint, s EccScalar) EccPoint { return p.Clone().ScalarMul(p, s) }
func ZzAdd(p, q EccPoint) EccPoint           { return p.Clone().AddPoints(p, q) }
func ZzSub(p, q EccPoint) EccPoint           { return p.Clone().SubPoints(p, q) }
func ZzG() EccPoint                          { return Point.GeneratorG(K256) }

func ZzH() EccPoint {
	p, err := Point.Deserialize(K256, []byte{0x03, 0x7b, 0xdc, 0xfc, 0x02, 0x4c, 0xf6, 0x97, 0xa4, 0x1f, 0xd3, 0xcd, 0xa2, 0x43, 0x6c, 0x84, 0x3a, 0xf5, 0x66, 0x9e, 0x50, 0x04, 0x2b, 0xe3, 0x31, 0x4a, 0x53, 0x2d, 0x5b, 0x70, 0x57, 0x2f, 0x59})
	if err != nil {
		panic("unspecified")
	}
	return p
}
func ZzSAdd(a, b EccScalar) EccScalar { return a.Clone().Add(a, b) }
func ZzSSub(a, b EccScalar) EccScalar { return a.Clone().Sub(a, b) }
func ZzSMul(a, b EccScalar) EccScalar { return a.Clone().Mul(a, b) }
func ZzInt(n uint64) EccScalar        { return Scalar.FromUint64(K256, n) }
func ZzX(i common.NodeIndex) EccScalar {
	return Scalar.FromUint64(K256, uint64(i)+1)
}
func ZzEq(p, q EccPoint) bool   { return p.Equal(q) == 1 }
func ZzSEq(a, b EccScalar) bool { return a.Equal(b) == 1 }
