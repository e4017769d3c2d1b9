package vg

import (
	"math/big"
	"strings"
)

// Interpretations of the contract functions, so that code which repeats the
// computation instead of calling the function is told apart only when it
// computes something else.

func (m *interp) sha(kind string, data []byte, key ...[]byte) []byte {
	a := []*T{QStr(string(data))}
	for _, k := range key {
		a = append(a, QStr(string(k)))
	}
	return m.bytes(m.quf(fixStr(kind, hashLen(kind), a...)))
}

func nextIdx(d []byte) []byte {
	n := append([]byte{}, d...)
	for i := len(n) - 1; i >= 0; i-- {
		n[i]++
		if n[i] != 0 {
			return n
		}
	}
	return append([]byte{1}, n...)
}

// ckd is one child derivation of the point with discrete logarithm k.
func (m *interp) ckd(k *big.Int, chain, idx []byte) (off, key *big.Int, next []byte) {
	for range 8 {
		out := m.sha("hmac-sha512", append(m.pser(k), idx...), chain)
		off = new(big.Int).SetBytes(out[:32])
		key = new(big.Int).Mod(new(big.Int).Add(k, off), Q)
		if off.Cmp(Q) < 0 && key.Sign() != 0 {
			return off, key, out[32:64]
		}
		idx = nextIdx(idx)
	}
	m.fail("derivation")
	return
}

func (m *interp) tweak(t *T) (off *big.Int, chain []byte) {
	k := m.pt(t.a[0])
	p := m.eval(t.a[1])
	for p.k == 't' && len(p.b) == 1 {
		p = p.b[0]
	}
	if p.k != 'q' {
		m.fail("path")
	}
	chain, off = make([]byte, 32), new(big.Int)
	for _, x := range p.b {
		for x.k == 't' && len(x.b) == 1 {
			x = x.b[0]
		}
		var o *big.Int
		o, k, chain = m.ckd(k, chain, m.bytes(x))
		off.Add(off, o)
	}
	return off.Mod(off, Q), chain
}

// lagr is the coefficient of sample i at value v.
func (m *interp) lagr(v *big.Int, xs *ev, i int64) *big.Int {
	if xs.k != 'q' || i < 0 || i >= int64(len(xs.b)) {
		m.fail("samples")
	}
	x := func(j int) *big.Int {
		if xs.b[j].k != 'i' {
			m.fail("sample")
		}
		return new(big.Int).Add(xs.b[j].i, big.NewInt(1))
	}
	num, den, xi := big.NewInt(1), big.NewInt(1), x(int(i))
	for j := range xs.b {
		if int64(j) == i {
			continue
		}
		num.Mul(num, new(big.Int).Sub(x(j), v))
		den.Mul(den, new(big.Int).Sub(x(j), xi))
		num.Mod(num, Q)
		den.Mod(den, Q)
	}
	return num.Mod(num.Mul(num, invMod(den, Q)), Q)
}

func (m *interp) xmd(msg, dst []byte, n int) []byte {
	if len(dst) > 255 {
		dst = m.sha("sha256", append([]byte("H2C-OVERSIZE-DST-"), dst...))
	}
	if n < 0 || n > 8160 {
		m.fail("xmd length")
	}
	dp := append(append([]byte{}, dst...), byte(len(dst)))
	cat := func(xs ...[]byte) (r []byte) {
		for _, x := range xs {
			r = append(r, x...)
		}
		return
	}
	b0 := m.sha("sha256", cat(make([]byte, 64), msg, []byte{byte(n >> 8), byte(n), 0}, dp))
	// The output may be chosen, by choosing the hashes it is made of.
	var want []byte
	if n == 48 {
		key := "xmd " + string(dp) + string(b0)
		m.isLeaf(key, leaf{mod: -3})
		if v, ok := m.tab[key]; ok {
			want = append(m.bytes(v), m.hash("rest "+key, 16)...)
		}
	}
	block := func(i int, x []byte) []byte {
		d := cat(x, []byte{byte(i)}, dp)
		if want != nil {
			k, w := m.uf(fixStr("sha256", 32, QStr(string(d)))), want[32*i-32:32*i]
			if m.asked[k] {
				m.fail("chosen too late")
			}
			m.prog[k] = w
		}
		return m.sha("sha256", d)
	}
	b := block(1, b0)
	out := append([]byte{}, b...)
	for i := 2; len(out) < n; i++ {
		x := make([]byte, 32)
		for j := range x {
			x[j] = b0[j] ^ b[j]
		}
		b = block(i, x)
		out = append(out, b...)
	}
	return out[:n]
}

// defRing and defSeq interpret the contract functions.
func (m *interp) defRing(t *T) (*big.Int, bool) {
	switch t.s {
	case "ckdoff":
		off, _, _ := m.ckd(m.pt(t.a[0]), m.bytes(m.eval(t.a[1])), m.bytes(m.eval(t.a[2])))
		return off, true
	case "tweak":
		off, _ := m.tweak(t)
		return off, true
	case "lagr":
		return m.lagr(m.ring(t.a[0]), m.eval(t.a[1]), m.small(t.a[2])), true
	}
	return nil, false
}

func (m *interp) defSeq(t *T) ([]byte, bool) {
	switch {
	case t.s == "ckdchain":
		_, _, c := m.ckd(m.pt(t.a[0]), m.bytes(m.eval(t.a[1])), m.bytes(m.eval(t.a[2])))
		return c, true
	case t.s == "tchain":
		_, c := m.tweak(t)
		return c, true
	case t.s == "nextidx":
		return nextIdx(m.bytes(m.eval(t.a[0]))), true
	case strings.HasPrefix(t.s, "xmd"):
		return m.xmd(m.bytes(m.eval(t.a[0])), m.bytes(m.eval(t.a[1])), int(m.small(t.a[2]))), true
	}
	return nil, false
}
