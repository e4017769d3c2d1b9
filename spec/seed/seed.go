package seed

import (
	"bytes"
	"crypto/cipher"

	"github.com/PlatONnetwork/tecdsa/rand"
)

func zzAssume(bool)

func zzExpand(in []byte, label string) [32]byte {
	b, err := ExpandMessageXmd(in, []byte(label), 32)
	if err != nil {
		panic("unspecified")
	}
	var v [32]byte
	copy(v[:], b)
	return v
}

// zzStream is the key stream of a 32-byte key.
func zzStream(key []byte, n int) []byte {
	b := make([]byte, n)
	rand.NewChaCha20(key).XORKeyStream(b, b)
	return b
}

//vg:law props=C23
func zzNewSeed(in []byte, label string, n int) bool {
	zzAssume(n >= 0 && n < 1<<31)
	v := zzExpand(in, label)
	s := NewSeed(in, label)
	out := make([]byte, n)
	s.Rng().FillUint8(out)
	return bytes.Equal(out, zzStream(v[:], n))
}

//vg:law props=C23
func zzSeedFromBytes(in []byte) bool {
	v := zzExpand(in, "ic-crypto-seed-from-bytes")
	out := make([]byte, 48)
	FromBytes(in).Rng().FillUint8(out)
	return bytes.Equal(out, zzStream(v[:], 48))
}

//vg:law props=C23
func zzSeedDerive(in []byte, l1, l2, l3 string) bool {
	v := zzExpand(in, l1)
	w := zzExpand(v[:], l2)
	x := zzExpand(w[:], l3)
	s := NewSeed(in, l1)
	d := s.Derive(l2)
	a, b, c := make([]byte, 32), make([]byte, 32), make([]byte, 32)
	d.Derive(l3).Rng().FillUint8(a)
	d.Rng().FillUint8(b)
	s.Rng().FillUint8(c)
	return bytes.Equal(a, zzStream(x[:], 32)) && bytes.Equal(b, zzStream(w[:], 32)) && bytes.Equal(c, zzStream(v[:], 32))
}

//vg:spec FromRng props=C23
func zzFromRng(r rand.Rand) *Seed {
	o := make([]byte, 32)
	r.FillUint8(o)
	return NewSeed(o, "ic-crypto-seed-from-rng")
}

//vg:spec FromRandomness props=C23
func zzFromRandomness(r cipher.Stream) *Seed {
	var o [32]byte
	r.XORKeyStream(o[:], o[:])
	return NewSeed(o[:], "ic-crypto-seed-from-randomness")
}
