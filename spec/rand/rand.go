package rand

import (
	"bytes"
	"encoding/binary"

	"golang.org/x/crypto/chacha20"
)

func zzAssume(bool)

func zzCipher(key []byte) *chacha20.Cipher {
	c, err := chacha20.NewUnauthenticatedCipher(key, make([]byte, 12))
	if err != nil {
		panic("unspecified")
	}
	return c
}

// Draws of all kinds are consecutive pieces of the key stream.
//
//vg:law props=C23
func zzDraws(key, a, b []byte) bool {
	zzAssume(len(key) == 32)
	s := zzCipher(key)
	g := NewChaCha20(key)
	x := append([]byte(nil), a...)
	g.FillUint8(x)
	x1 := make([]byte, len(a))
	s.XORKeyStream(x1, x1)
	u := g.Uint32()
	u1 := make([]byte, 4)
	s.XORKeyStream(u1, u1)
	v := g.Uint64()
	v1 := make([]byte, 8)
	s.XORKeyStream(v1, v1)
	y := make([]byte, len(b))
	g.XORKeyStream(y, append([]byte(nil), b...))
	y1 := make([]byte, len(b))
	s.XORKeyStream(y1, b)
	w := append([]byte(nil), b...)
	g.XORKeyStream(w, w)
	w1 := make([]byte, len(b))
	s.XORKeyStream(w1, b)
	z := append([]byte(nil), b...)
	g.FillUint8(z)
	z1 := make([]byte, len(b))
	s.XORKeyStream(z1, z1)
	return bytes.Equal(x, x1) && u == binary.BigEndian.Uint32(u1) && v == binary.BigEndian.Uint64(v1) && bytes.Equal(y, y1) && bytes.Equal(w, w1) && bytes.Equal(z, z1)
}
