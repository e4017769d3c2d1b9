package ro

import (
	"bytes"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/seed"
)

// zzFill adds one input of every kind, out of name order.
func zzFill(dst string, b, raw []byte, p curve.EccPoint, s curve.EccScalar, i uint64, j uint32) (*RandomOracle, bool) {
	r := NewRandomOracle(dst)
	ok := r.AddPoint("point", p) == nil
	ok = r.AddBytesString("bytes", b) == nil && ok
	ok = r.AddUint64("number", i) == nil && ok
	ok = r.AddScalar("scalar", s) == nil && ok
	ok = r.AddUint32("Number", j) == nil && ok
	ok = r.AddInput("numbers", raw, ByteString) == nil && ok
	return r, ok
}

func zzFilled(b, raw []byte, p curve.EccPoint, s curve.EccScalar, i uint64, j uint32) []byte {
	return ZzCat(ZzUint("Number", uint64(j)), ZzBytes("bytes", b), ZzUint("number", i), ZzBytes("numbers", raw), ZzPoint("point", p), ZzScalar("scalar", s))
}

//vg:law props=C20,C06
func zzRoBytes(dst string, b, raw []byte, p curve.EccPoint, s curve.EccScalar, i uint64, j uint32, n int) bool {
	zzAssume(n >= 1)
	r, ok := zzFill(dst, b, raw, p, s, i, j)
	out, err := r.OutputByteString(n)
	want, werr := seed.ExpandMessageXmd(zzFilled(b, raw, p, s, i, j), []byte(dst), n)
	if werr != nil {
		return ok && err != nil
	}
	return ok && err == nil && bytes.Equal(out, want)
}

//vg:law props=C20
func zzRoScalar(dst string, b, raw []byte, p curve.EccPoint, s curve.EccScalar, i uint64, j uint32) bool {
	r, ok := zzFill(dst, b, raw, p, s, i, j)
	out, err := r.OutputScalar(curve.K256)
	return ok && err == nil && curve.ZzSEq(out, ZzHash(dst, zzFilled(b, raw, p, s, i, j)))
}

//vg:law props=C20
func zzRoScalars(dst string, b, raw []byte, p curve.EccPoint, s curve.EccScalar, i uint64, j uint32) bool {
	r, ok := zzFill(dst, b, raw, p, s, i, j)
	out, err := r.OutputScalars(curve.K256, 2)
	x, y := ZzHashes(dst, zzFilled(b, raw, p, s, i, j))
	return ok && err == nil && len(out) == 2 && curve.ZzSEq(out[0], x) && curve.ZzSEq(out[1], y)
}

//vg:law props=C20
func zzRoPoint(dst string, b, raw []byte, p curve.EccPoint, s curve.EccScalar, i uint64, j uint32) bool {
	r, ok := zzFill(dst, b, raw, p, s, i, j)
	out, err := r.OutputPoint(curve.K256)
	return ok && err == nil && curve.ZzEq(out, ZzHashPoint(dst, zzFilled(b, raw, p, s, i, j)))
}

//vg:law props=C20
func zzRoPoints(dst string, p, q, t curve.EccPoint) bool {
	r := NewRandomOracle(dst)
	err := r.AddPoints("v", []curve.EccPoint{p, q, t})
	out, err2 := r.OutputByteString(32)
	return err == nil && err2 == nil && bytes.Equal(out, ZzHashBytes(dst, ZzCat(ZzPoint("v[0]", p), ZzPoint("v[1]", q), ZzPoint("v[2]", t)), 32))
}

// Many points are told apart.
//
//vg:law props=C20
func zzRoPointsMany(dst string, p curve.EccPoint) bool {
	many := make([]curve.EccPoint, 258)
	for i := range many {
		many[i] = p
	}
	return NewRandomOracle(dst).AddPoints("v", many) == nil
}

// A single input of any name: its encoding, and what is refused.
//
//vg:law props=C20
func zzRoName(dst, name string, data, other []byte, ty RandomOracleInputType) bool {
	r := NewRandomOracle(dst)
	err := r.AddInput(name, data, ty)
	if len(name) == 0 || len(name) > 255 {
		_, e2 := r.OutputByteString(32)
		return err != nil && e2 != nil
	}
	e2 := r.AddInput(name, other, ty)
	e3 := r.AddBytesString(name, other)
	out, e4 := r.OutputByteString(32)
	return err == nil && e2 != nil && e3 != nil && e4 == nil && bytes.Equal(out, ZzHashBytes(dst, ZzItem(name, byte(ty), data), 32))
}

//vg:law props=C20
func zzRoEmpty(dst string, n int) bool {
	_, e1 := NewRandomOracle(dst).OutputByteString(n)
	_, e2 := NewRandomOracle(dst).OutputScalar(curve.K256)
	_, e3 := NewRandomOracle(dst).OutputPoint(curve.K256)
	_, e4 := NewRandomOracle(dst).OutputScalars(curve.K256, 3)
	return e1 != nil && e2 != nil && e3 != nil && e4 != nil
}

// Taking an output twice gives the same output.
//
//vg:law props=C20
func zzRoTwice(dst string, b, raw []byte, p curve.EccPoint, s curve.EccScalar, i uint64, j uint32) bool {
	r, _ := zzFill(dst, b, raw, p, s, i, j)
	x, e1 := r.OutputByteString(64)
	y, e2 := r.OutputByteString(64)
	return e1 == nil && e2 == nil && bytes.Equal(x, y) && len(x) == 64
}
