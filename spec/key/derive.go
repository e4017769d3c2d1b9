package key

import (
	"bytes"
	"crypto"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"hash"

	c "github.com/PlatONnetwork/tecdsa/curve"
)

func zzAssume(bool)

var zzBad = errors.New("refused")

// The next index is the big-endian number plus one, a digit longer on overflow.
//
//vg:spec DerivationIndex.Next props=C07,C06,C31 inst=a0:0 inst=a0:1 inst=a0:2 inst=a0:3 inst=a0:4 inst=a0:5 general=no
func zzNext(d DerivationIndex) DerivationIndex {
	n := make([]byte, len(d))
	carry := true
	for i := len(d) - 1; i >= 0; i-- {
		n[i] = d[i]
		if carry {
			if d[i] == 255 {
				n[i] = 0
			} else {
				n[i] = d[i] + 1
				carry = false
			}
		}
	}
	if carry {
		return append([]byte{1}, n...)
	}
	return n
}

//vg:spec NewBip32 props=C07,C06 sizes=0,1,2,3
func zzBip32(bip32 []uint32) *DerivationPath {
	var p []DerivationIndex
	for _, n := range bip32 {
		b := make([]byte, 4)
		binary.BigEndian.PutUint32(b, n)
		p = append(p, b)
	}
	if p == nil {
		p = []DerivationIndex{}
	}
	return &DerivationPath{p}
}

//vg:spec New props=C07,C06
func zzNew(path []DerivationIndex) *DerivationPath { return &DerivationPath{path} }

// One step: the left half is the offset if it is below the order and the child
// is not the identity; otherwise the step is taken with the next index.
//
//vg:spec ckdpub props=C07,C06,C05
func zzCkd(pk c.EccPoint, chainKey []byte, index DerivationIndex) (c.EccPoint, []byte, c.EccScalar, error) {
	mac := hmac.New(sha512.New, chainKey)
	mac.Write(pk.Serialize())
	mac.Write(index)
	out := mac.Sum(nil)
	off, err := c.Scalar.Deserialize(c.K256, out[:32])
	if err == nil {
		child := c.ZzAdd(pk, c.ZzMul(c.ZzG(), off))
		if !child.IsInfinity() {
			return child, out[32:64], off, nil
		}
	}
	return ckdpub(pk, chainKey, index.Next())
}

//vg:spec DerivationPath.DeriveTweak props=C07,C06,C05 no=key.DerivationPath.DeriveTweak sizes=0,1,2,3
func zzTweak(d *DerivationPath, pk c.EccPoint) (c.EccScalar, []byte, error) {
	k := pk.Clone()
	chain := make([]byte, 32)
	sum := c.Scalar.Zero(c.K256)
	for _, idx := range d.path {
		k1, c1, off, err := ckdpub(k, chain, idx)
		if err != nil {
			return nil, nil, zzBad
		}
		k, chain, sum = k1, c1, c.ZzSAdd(sum, off)
	}
	return sum, chain, nil
}

// The child key is the parent plus the tweak times G.
//
//vg:law props=C06,C07 sizes=0,1,2,3 no=key.DerivationPath.DeriveTweak
func zzTweakLaw(d *DerivationPath, pk c.EccPoint) bool {
	t, _, err := d.DeriveTweak(pk)
	if err != nil {
		return true
	}
	k := pk.Clone()
	chain := make([]byte, 32)
	for _, idx := range d.path {
		k1, c1, _, err := ckdpub(k, chain, idx)
		if err != nil {
			return true
		}
		k, chain = k1, c1
	}
	return c.ZzEq(k, c.ZzAdd(pk, c.ZzMul(c.ZzG(), t)))
}

//vg:law props=C07,C06
func zzHmac(k, a, b []byte) bool {
	mac := hmac.New(sha512.New, k)
	mac.Write(a)
	mac.Write(b)
	x, err := ComputeHMAC(crypto.SHA512.New, k, a, b)
	y, err1 := ComputeHMAC(sha512.New, k, a, b)
	_, err2 := ComputeHMAC(nil, k, a, b)
	return err == nil && err1 == nil && err2 != nil && bytes.Equal(x, mac.Sum(nil)) && bytes.Equal(y, mac.Sum(nil))
}

//vg:law props=C07
func zzHmac256(k, a []byte) bool {
	mac := hmac.New(func() hash.Hash { return sha256.New() }, k)
	mac.Write(a)
	x, err := ComputeHMAC(sha256.New, k, a)
	return err == nil && bytes.Equal(x, mac.Sum(nil))
}
