package seed

import (
	"bytes"
	"crypto/sha256"
)

// zzSha is SHA-256 of the concatenation.
func zzSha(xs ...[]byte) []byte {
	h := sha256.New()
	for _, x := range xs {
		h.Write(x)
	}
	return h.Sum(nil)
}

// zzXmd is expand_message_xmd of RFC 9380, section 5.3.1, with SHA-256.
func zzXmd(msg, dst []byte, n int) []byte {
	if len(dst) > 255 {
		dst = zzSha([]byte("H2C-OVERSIZE-DST-"), dst)
	}
	dp := append(append([]byte{}, dst...), byte(len(dst)))
	b0 := zzSha(make([]byte, 64), msg, []byte{byte(n >> 8), byte(n), 0}, dp)
	b := zzSha(b0, []byte{1}, dp)
	out := append([]byte{}, b...)
	for i := 2; len(out) < n; i++ {
		x := make([]byte, 32)
		for j := range x {
			x[j] = b0[j] ^ b[j]
		}
		b = zzSha(x, []byte{byte(i)}, dp)
		out = append(out, b...)
	}
	return out[:n]
}

func zzXmdIs(msg, dst []byte, n int) bool {
	out, err := ExpandMessageXmd(msg, dst, n)
	return err == nil && len(out) == n && bytes.Equal(out, zzXmd(msg, dst, n))
}

//vg:law props=C21,C20,C23 no=seed.ExpandMessageXmd
func zzXmd32(msg, dst []byte) bool { return zzXmdIs(msg, dst, 32) }

//vg:law props=C21,C20 no=seed.ExpandMessageXmd
func zzXmd48(msg, dst []byte) bool { return zzXmdIs(msg, dst, 48) }

//vg:law props=C21,C20 no=seed.ExpandMessageXmd
func zzXmd96(msg, dst []byte) bool { return zzXmdIs(msg, dst, 96) }

//vg:law props=C21 no=seed.ExpandMessageXmd
func zzXmd1(msg, dst []byte) bool { return zzXmdIs(msg, dst, 1) }

//vg:law props=C21 no=seed.ExpandMessageXmd
func zzXmd31(msg, dst []byte) bool { return zzXmdIs(msg, dst, 31) }

//vg:law props=C21 no=seed.ExpandMessageXmd
func zzXmd33(msg, dst []byte) bool { return zzXmdIs(msg, dst, 33) }

//vg:law props=C21 no=seed.ExpandMessageXmd
func zzXmd64(msg, dst []byte) bool { return zzXmdIs(msg, dst, 64) }

//vg:law props=C21 no=seed.ExpandMessageXmd
func zzXmd65(msg, dst []byte) bool { return zzXmdIs(msg, dst, 65) }

//vg:law props=C21 no=seed.ExpandMessageXmd
func zzXmd144(msg, dst []byte) bool { return zzXmdIs(msg, dst, 144) }

//vg:law props=C21 no=seed.ExpandMessageXmd
func zzXmd256(msg, dst []byte) bool { return zzXmdIs(msg, dst, 256) }

//vg:law props=C21 no=seed.ExpandMessageXmd
func zzXmd257(msg, dst []byte) bool { return zzXmdIs(msg, dst, 257) }

//vg:law props=C21 no=seed.ExpandMessageXmd
func zzXmd1000(msg, dst []byte) bool { return zzXmdIs(msg, dst, 1000) }

//vg:law props=C21 thorough no=seed.ExpandMessageXmd
func zzXmd8128(msg, dst []byte) bool { return zzXmdIs(msg, dst, 8128) }

//vg:law props=C21 no=seed.ExpandMessageXmd
func zzXmd8160(msg, dst []byte) bool { return zzXmdIs(msg, dst, 8160) }

// Output of more than 255 blocks is refused.
//
//vg:law props=C21 no=seed.ExpandMessageXmd
func zzXmdTooLong(msg, dst []byte, n int) bool {
	zzAssume(n > 8160)
	_, err := ExpandMessageXmd(msg, dst, n)
	return err != nil
}

// Separators and messages at the length limits.
//
//vg:law props=C21 no=seed.ExpandMessageXmd inst=a0:0,a1:255 inst=a0:5,a1:256 inst=a0:0,a1:0 inst=a0:64,a1:1 general=no
func zzXmdEdges(msg, dst []byte) bool { return zzXmdIs(msg, dst, 48) }
