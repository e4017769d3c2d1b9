package poly

import (
	c "github.com/PlatONnetwork/tecdsa/curve"
	"github.com/fxamacker/cbor/v2"
)

// Encodings of openings and commitments: a tagged record of curve, kind and
// content.

//vg:spec SimpleCommitmentOpening.Serialize props=C29
func zcSimpleOpeningSer(s SimpleCommitmentOpening) ([]byte, error) {
	zzAssume(s[0] != nil)
	m, err := cbor.Marshal(s)
	if err != nil {
		return nil, zzBad
	}
	return cbor.Marshal(&commitmentOpeningCbor{CurveType: c.K256, CommitType: Simple, Message: m})
}

//vg:spec PedersenCommitmentOpening.Serialize props=C29
func zcPedersenOpeningSer(s PedersenCommitmentOpening) ([]byte, error) {
	zzAssume(s[0] != nil && s[1] != nil)
	m, err := cbor.Marshal(s)
	if err != nil {
		return nil, zzBad
	}
	return cbor.Marshal(&commitmentOpeningCbor{CurveType: c.K256, CommitType: Pedersen, Message: m})
}

//vg:law props=C29
func zcSimpleOpeningRound(s SimpleCommitmentOpening) bool {
	zzAssume(s[0] != nil)
	b, err := s.Serialize()
	if err != nil {
		return false
	}
	o, err := Commitment.Deserialize(b)
	if err != nil {
		return false
	}
	r, ok := o.(*SimpleCommitmentOpening)
	return ok && c.ZzSEq(r[0], s[0])
}

//vg:law props=C29
func zcPedersenOpeningRound(s PedersenCommitmentOpening) bool {
	zzAssume(s[0] != nil && s[1] != nil)
	b, err := s.Serialize()
	if err != nil {
		return false
	}
	o, err := Commitment.Deserialize(b)
	if err != nil {
		return false
	}
	r, ok := o.(*PedersenCommitmentOpening)
	return ok && c.ZzSEq(r[0], s[0]) && c.ZzSEq(r[1], s[1])
}

//vg:law props=C29 sizes=1,2,3
func zcSimpleRound(s *SimpleCommitment) bool {
	zzAssume(len(s.points) > 0)
	b, err := s.Serialize()
	if err != nil {
		return false
	}
	o, err := polynomialCommitment{}.Deserialize(b)
	if err != nil {
		return false
	}
	r, ok := o.(*SimpleCommitment)
	return ok && ZzSame(r, s)
}

//vg:law props=C29 sizes=1,2,3
func zcPedersenRound(s *PedersenCommitment) bool {
	zzAssume(len(s.points) > 0)
	b, err := s.Serialize()
	if err != nil {
		return false
	}
	o, err := polynomialCommitment{}.Deserialize(b)
	if err != nil {
		return false
	}
	r, ok := o.(*PedersenCommitment)
	return ok && ZzSame(r, s)
}

// The scalar bytes of an opening give the opening back.
//
//vg:law props=C29
func zcSimpleBytesRound(s *SimpleCommitmentOpening) bool {
	zzAssume(s[0] != nil)
	r, ok := s.ToCommitmentOpeningBytes().ToCommitmentOpening().(*SimpleCommitmentOpening)
	return ok && c.ZzSEq(r[0], s[0])
}

//vg:law props=C29
func zcPedersenBytesRound(s *PedersenCommitmentOpening) bool {
	zzAssume(s[0] != nil && s[1] != nil)
	r, ok := s.ToCommitmentOpeningBytes().ToCommitmentOpening().(*PedersenCommitmentOpening)
	return ok && c.ZzSEq(r[0], s[0]) && c.ZzSEq(r[1], s[1])
}

//vg:spec commitmentOpening.Deserialize props=C29,C30,C35
func zcOpeningDec(_ commitmentOpening, data []byte) (CommitmentOpening, error) {
	var r commitmentOpeningCbor
	if cbor.Unmarshal(data, &r) != nil || r.CurveType != c.K256 {
		return nil, zzBad
	}
	switch r.CommitType {
	case Simple:
		o := &SimpleCommitmentOpening{c.Scalar.Zero(c.K256)}
		if cbor.Unmarshal(r.Message, &o) != nil || o == nil || o[0] == nil {
			return nil, zzBad
		}
		return o, nil
	case Pedersen:
		o := &PedersenCommitmentOpening{c.Scalar.Zero(c.K256), c.Scalar.Zero(c.K256)}
		if cbor.Unmarshal(r.Message, &o) != nil || o == nil || o[0] == nil || o[1] == nil {
			return nil, zzBad
		}
		return o, nil
	}
	return nil, zzBad
}

//vg:spec polynomialCommitment.Deserialize props=C29,C30,C35 sizes=0,1,2
func zcCommitmentDec(_ polynomialCommitment, data []byte) (PolynomialCommitment, error) {
	var r polynomialCommitmentCbor
	if cbor.Unmarshal(data, &r) != nil || r.CurveType != c.K256 || r.CommitmentType != Simple && r.CommitmentType != Pedersen {
		return nil, zzBad
	}
	var ps []*c.Secp256k1Point
	if cbor.Unmarshal(r.Message, &ps) != nil || len(ps) == 0 {
		return nil, zzBad
	}
	points := make([]c.EccPoint, len(ps))
	for i, p := range ps {
		if p == nil {
			return nil, zzBad
		}
		points[i] = p
	}
	if r.CommitmentType == Simple {
		return &SimpleCommitment{points}, nil
	}
	return &PedersenCommitment{points}, nil
}

//vg:spec commitmentOpening.FromBytes props=C35
func zcOpeningFromBytes(_ commitmentOpening, b []byte) (CommitmentOpening, error) { return nil, zzBad }

//vg:spec SimpleCommitment.ConstantTerm props=C26 sizes=1,2
func zcSimpleConst(s *SimpleCommitment) c.EccPoint {
	zzAssume(len(s.points) > 0)
	return s.points[0].Clone()
}

//vg:spec PedersenCommitment.ConstantTerm props=C26 sizes=1,2
func zcPedersenConst(s *PedersenCommitment) c.EccPoint {
	zzAssume(len(s.points) > 0)
	return s.points[0].Clone()
}

//vg:spec SimpleCommitment.Type props=C26,C37
func zcSimpleType(s *SimpleCommitment) PolynomialCommitmentType { return Simple }

//vg:spec PedersenCommitment.Type props=C26,C37
func zcPedersenType(s *PedersenCommitment) PolynomialCommitmentType { return Pedersen }

//vg:spec SimpleCommitment.Len props=C26
func zcSimpleLen(s *SimpleCommitment) int { return len(s.points) }

//vg:spec PedersenCommitment.Len props=C26
func zcPedersenLen(s *PedersenCommitment) int { return len(s.points) }

//vg:spec SimpleCommitment.Points props=C26
func zcSimplePoints(s *SimpleCommitment) []c.EccPoint { return s.points }

//vg:spec PedersenCommitment.Points props=C26
func zcPedersenPoints(s *PedersenCommitment) []c.EccPoint { return s.points }
