package vg

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
)

// Random interpretation of value-graph terms. Two normal forms that differ as
// terms are only reported as a difference when there is an interpretation of
// the inputs and of the uninterpreted functions that satisfies the conditions
// of the path and tells them apart; without one the obligation stays
// undecided. Points are interpreted by their discrete logarithm.

type ev struct {
	k byte // i int, b bool, r ring, p point, q sequence, t tree, o opaque
	i *big.Int
	b []*ev
	s string
}

func (v *ev) fp() string {
	var sb strings.Builder
	v.wr(&sb)
	return sb.String()
}

func (v *ev) wr(sb *strings.Builder) {
	switch v.k {
	case 'q':
		sb.WriteString("[")
		for _, x := range v.b {
			x.wr(sb)
			sb.WriteByte(' ')
		}
		sb.WriteString("]")
	case 't':
		sb.WriteString("(" + v.s)
		for _, x := range v.b {
			sb.WriteByte(' ')
			x.wr(sb)
		}
		sb.WriteString(")")
	case 'o':
		sb.WriteString("<" + v.s + ">")
	default:
		if v.k != 'i' {
			sb.WriteByte(v.k)
		}
		sb.WriteString(v.i.Text(36))
	}
}

type interp struct {
	rng   *rand.Rand
	seed  string
	env   map[*T]*big.Int
	tab   map[string]*ev
	force map[string]bool
	types map[string]string // the dynamic type decided for an interface value
	cands []int64
	pserR map[string]*big.Int
	affR  map[string]*big.Int
	ovr   map[string]affPt
	memo  map[*T]*ev
	steps int
	maxN  int64
	bind  map[*T]*T
	salt  map[string]int    // choices made again
	touch map[string]bool   // choices looked at, when recorded
	stuck map[string]bool   // choices the first failing condition depends on
	leafs map[string]leaf   // choices that are numbers
	set   map[string]*ev    // and those that were solved for
	goals []goal            // what would make the first failing condition true
	prog  map[string][]byte // programmed hash outputs
	asked map[string]bool   // hash outputs that were not programmed
}

// leaf describes a freely chosen number: an integer within bounds, or an
// element of a ring.
type leaf struct {
	mod    int // -1: integer, -2: point, -3: hash output
	lo, hi *big.Int
}

func (m *interp) isLeaf(key string, l leaf) {
	if m.touch != nil {
		m.leafs[key] = l
	}
}

func intLeaf(lo, hi int64, lk, hk bool) leaf {
	l := leaf{mod: -1}
	if lk {
		l.lo = big.NewInt(lo)
	}
	if hk {
		l.hi = big.NewInt(hi)
	}
	return l
}

// chosen notes that a value depends on a choice.
func (m *interp) chosen(key string) {
	if m.touch != nil {
		m.touch[key] = true
	}
}

var saltPrefixes = []string{"std ", "mode ", "encpt ", "enc ", "tag ", "delta "}

type evalFail struct{ why string }

func (m *interp) fail(why string) { panic(evalFail{why}) }

func vInt(n int64) *ev    { return &ev{k: 'i', i: big.NewInt(n)} }
func vBig(n *big.Int) *ev { return &ev{k: 'i', i: n} }
func vBool(b bool) *ev {
	if b {
		return &ev{k: 'b', i: big.NewInt(1)}
	}
	return &ev{k: 'b', i: big.NewInt(0)}
}
func vRing(mod int, n *big.Int) *ev {
	return &ev{k: 'r', i: new(big.Int).Mod(n, Mods[mod]), s: strconv.Itoa(mod)}
}
func vPt(n *big.Int) *ev { return &ev{k: 'p', i: new(big.Int).Mod(n, Q)} }
func vBytes(b []byte) *ev {
	r := &ev{k: 'q', b: make([]*ev, len(b))}
	for i, x := range b {
		r.b[i] = vInt(int64(x))
	}
	return r
}

func (m *interp) bytes(v *ev) []byte {
	if v.k != 'q' {
		m.fail("not a sequence")
	}
	out := make([]byte, len(v.b))
	for i, x := range v.b {
		if x.k != 'i' || x.i.BitLen() > 8 || x.i.Sign() < 0 {
			m.fail("not bytes")
		}
		out[i] = byte(x.i.Int64())
	}
	return out
}

func (m *interp) hash(s string, n int) []byte {
	var out []byte
	seed := m.seed
	if len(m.salt) > 0 {
		k := s
		for _, p := range saltPrefixes {
			k = strings.TrimPrefix(k, p)
		}
		if n := m.salt[k]; n > 0 {
			seed += " again " + strconv.Itoa(n)
		}
	}
	for i := 0; len(out) < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%s|%d|%s", seed, i, s)))
		out = append(out, h[:]...)
	}
	return out[:n]
}

func (m *interp) hashBig(s string) *big.Int { return new(big.Int).SetBytes(m.hash(s, 48)) }

// path is the key of a symbolic path.
func (m *interp) path(p *T) string {
	switch p.op {
	case SPRoot:
		return p.s
	case SPFld:
		return m.path(p.a[0]) + "." + strconv.FormatInt(p.n, 10)
	case SPIdx:
		return m.path(p.a[0]) + "[" + m.int(p.a[1]).String() + "]"
	case SPDrf:
		return m.path(p.a[0]) + "*"
	case SPTyp:
		return m.path(p.a[0]) + ".(" + tyStr(p.ty) + ")"
	case SPKey:
		return m.path(p.a[0]) + "#" + m.int(p.a[1]).String()
	case SPVal:
		return m.path(p.a[0]) + "#val(" + m.eval(p.a[1]).fp() + ")"
	case SPStr:
		s := "<" + p.s + tyStr(p.ty)
		for _, x := range p.a {
			s += "," + m.eval(x).fp()
		}
		return s + ">"
	}
	if isSeq(p.op) {
		return m.eval(p).fp()
	}
	m.fail("path " + opName(p))
	return ""
}

func (m *interp) int(t *T) *big.Int {
	v := m.eval(t)
	if v.k != 'i' {
		m.fail("not an integer")
	}
	return v.i
}

func (m *interp) small(t *T) int64 {
	n := m.int(t)
	if !n.IsInt64() || n.Int64() < 0 || n.Int64() > m.maxN {
		m.fail("size out of reach")
	}
	return n.Int64()
}

func (m *interp) mode(key string) byte { return m.hash("mode "+key, 1)[0] }

func (m *interp) leafInt(key string, ty types.Type) *big.Int {
	m.chosen(key)
	lo, hi, lk, hk := typeBounds(ty)
	m.isLeaf("int "+key, intLeaf(lo, hi, lk, hk))
	if v, ok := m.tab["int "+key]; ok {
		return v.i
	}
	md := m.mode(key)
	var n *big.Int
	switch {
	case lk && hk && lo == 0 && hi == 255:
		n = big.NewInt(int64(m.hash(key, 1)[0]))
	case md < 200 && len(m.cands) > 0:
		n = big.NewInt(m.cands[int(md)%len(m.cands)])
	case md < 240:
		n = big.NewInt(int64(m.hash(key, 1)[0] % 8))
	case md < 248: // of any size
		h := m.hash(key, 9)
		n = new(big.Int).SetBytes(h[:4])
		n.Rsh(n, uint(h[8]%32))
	default:
		n = new(big.Int).SetBytes(m.hash(key, 4))
	}
	if lk && n.Cmp(big.NewInt(lo)) < 0 {
		n = big.NewInt(lo)
	}
	if hk && n.Cmp(big.NewInt(hi)) > 0 {
		n = big.NewInt(hi)
	}
	m.tab["int "+key] = vBig(n)
	return n
}

func (m *interp) leafLen(key string, byteSeq bool) int64 {
	k := "len " + key
	m.chosen(k)
	m.isLeaf(k, intLeaf(0, 64, true, true))
	if v, ok := m.tab[k]; ok {
		return v.i.Int64()
	}
	md := int64(m.hash(k, 1)[0])
	n := md % 4
	if len(m.cands) > 0 && md > 100 {
		n = m.cands[int(md)%len(m.cands)]
		lim := int64(6)
		if byteSeq {
			lim = m.maxN
		}
		if n < 0 || n > lim {
			n = md % 4
		}
	}
	if h := m.hash("std "+k, 2); byteSeq && h[0] < 96 {
		n = [...]int64{32, 33, 33, 64, 65}[h[1]%5]
	}
	m.tab[k] = vInt(n)
	return n
}

func (m *interp) leafRing(key string, mod int) *ev {
	m.chosen(key)
	m.isLeaf(key, leaf{mod: mod})
	if v, ok := m.tab[key]; ok {
		return v
	}
	switch md := m.mode(key); {
	case md < 20:
		return vRing(mod, big.NewInt(0))
	case md < 32:
		return vRing(mod, big.NewInt(1))
	}
	return vRing(mod, m.hashBig(key))
}

func (m *interp) bool(key string) *ev {
	b, ok := m.force[key]
	if !ok {
		b = m.hash("bool "+key, 1)[0]&1 == 1
		m.force[key] = b
	}
	return vBool(b)
}

// dynType decides whether the interface value at a path has type ty: it has
// at most one.
func (m *interp) dynType(path, ty string) *ev {
	key := "type " + path + " " + ty
	if t, ok := m.types[path]; ok {
		m.force[key] = t == ty
		return vBool(t == ty)
	}
	r := m.bool(key)
	if r.i.Sign() > 0 {
		m.types[path] = ty
	}
	return r
}

// atomKey names a free condition in this interpretation, or "".
func (m *interp) atomKey(t *T) string {
	switch t.op {
	case BVar:
		return "var " + m.path(t.a[0])
	case BNil:
		return "nil " + m.path(t.a[0])
	case BType:
		return "type " + m.path(t.a[0]) + " " + tyStr(t.ty)
	case BUF:
		switch t.s {
		case "high", "issq", "oncurve", "mapin":
			return ""
		case "canon0", "canon1", "ptok":
			if !opaque(t.a[0]) {
				return ""
			}
		}
		if strings.HasPrefix(t.s, "?") {
			m.fail("unknown")
		}
		s := t.s + tyStr(t.ty)
		for _, x := range t.a {
			s += "," + m.eval(x).fp()
		}
		return s
	}
	return ""
}

func (m *interp) eval(t *T) *ev {
	if x, ok := m.bind[t]; ok {
		return m.eval(x)
	}
	if len(t.fv) == 0 {
		if v, ok := m.memo[t]; ok {
			return v
		}
		v := m.eval1(t)
		m.memo[t] = v
		return v
	}
	return m.eval1(t)
}

// each value of a binder's variable
func (m *interp) loop(t *T, f func(k int64) bool) {
	n := m.int(t.a[0])
	if n.Sign() <= 0 {
		return
	}
	if !n.IsInt64() || n.Int64() > m.maxN {
		m.fail("too many iterations")
	}
	bv := bvTerm(t.n)
	old, had := m.env[bv]
	for k := int64(0); k < n.Int64(); k++ {
		m.env[bv] = big.NewInt(k)
		if !f(k) {
			break
		}
	}
	if had {
		m.env[bv] = old
	} else {
		delete(m.env, bv)
	}
}

func (m *interp) isTrue(t *T) bool {
	v := m.eval(t)
	if v.k != 'b' {
		m.fail("not a condition")
	}
	return v.i.Sign() != 0
}

func (m *interp) ring(t *T) *big.Int {
	v := m.eval(t)
	if v.k != 'r' {
		m.fail("not a ring value")
	}
	return v.i
}

func (m *interp) pt(t *T) *big.Int {
	v := m.eval(t)
	if v.k != 'p' {
		m.fail("not a point")
	}
	return v.i
}

func powMod(x, e, mod *big.Int) *big.Int {
	if e.Sign() < 0 {
		x = invMod(x, mod)
		e = new(big.Int).Neg(e)
	}
	return new(big.Int).Exp(x, e, mod)
}
func invMod(x, mod *big.Int) *big.Int {
	r := new(big.Int).ModInverse(x, mod)
	if r == nil {
		return big.NewInt(0)
	}
	return r
}

func be(n *big.Int, l int) []byte { return n.FillBytes(make([]byte, l)) }

func (m *interp) pser(e *big.Int) []byte {
	if e.Sign() == 0 {
		return make([]byte, 33)
	}
	x, y := m.aff(e)
	b := append([]byte{byte(2 + y.Bit(0))}, be(x, 32)...)
	m.pserR[string(b)] = e
	return b
}

func (m *interp) uf(t *T) string {
	s := fmt.Sprintf("%d %s %d %s", t.op, t.s, t.n, tyStr(t.ty))
	for _, x := range t.a {
		s += "," + m.eval(x).fp()
	}
	return s
}

func (m *interp) eval1(t *T) *ev {
	m.steps++
	if m.steps > 400000 {
		m.fail("too large")
	}
	switch t.op {
	case OTrue:
		return vBool(true)
	case OFalse:
		return vBool(false)
	case ONil, OErr, OFn, OZeroT:
		return &ev{k: 'o', s: opName(t) + t.s + tyStr(t.ty)}
	case OITE:
		if m.isTrue(t.a[0]) {
			return m.eval(t.a[1])
		}
		return m.eval(t.a[2])
	case OLin:
		r := big.NewInt(t.lin.c)
		for _, x := range t.lin.ts {
			r.Add(r, new(big.Int).Mul(big.NewInt(x.c), m.int(x.t)))
		}
		return vBig(r)
	case ORing:
		mod := Mods[t.rg.m]
		r := new(big.Int)
		for _, mo := range t.rg.ms {
			p := new(big.Int).Set(mo.c)
			for _, f := range mo.f {
				p.Mul(p, powMod(m.ring(f.t), m.int(f.e), mod))
				p.Mod(p, mod)
			}
			r.Add(r, p)
		}
		return vRing(t.rg.m, r)
	case OPt:
		r := new(big.Int)
		for _, x := range t.pt {
			r.Add(r, new(big.Int).Mul(m.pt(x.b), m.ring(x.c)))
		}
		return vPt(r)
	case OStruct, OTuple, OIface, OMapL, OMapE, OStrm, OHash, OBox, OMapU:
		r := &ev{k: 't', s: opName(t) + t.s + tyStr(t.ty)}
		if t.op == OBox || t.op == OStruct {
			r.s = opName(t)
		}
		for _, x := range t.a {
			r.b = append(r.b, m.eval(x))
		}
		return r
	case OMapC:
		r := &ev{k: 't', s: "lmap"}
		m.loop(t, func(k int64) bool {
			r.b = append(r.b, m.eval(t.a[1]), m.eval(t.a[2]))
			return true
		})
		return r
	case OUF:
		if strings.HasPrefix(t.s, "?") {
			m.fail("unknown")
		}
		return &ev{k: 'o', s: m.uf(t)}
	case OMapS:
		return &ev{k: 'o', s: "map " + m.path(t.a[0])}
	case OBig:
		switch {
		case len(t.a) == 0:
			n, _ := new(big.Int).SetString(t.s, 10)
			return vBig(n)
		case t.s == "":
			return vBig(m.ring(t.a[0]))
		case t.s == "bytes":
			return vBig(new(big.Int).SetBytes(m.bytes(m.eval(t.a[0]))))
		}
	case AIVar:
		return vBig(m.ivar(t))
	case ALen:
		if t.a[0].op == QSym && m.bind[t.a[0]] == nil {
			return vInt(m.leafLen(m.path(t.a[0].a[0]), isByteSeq(t.a[0])))
		}
		v := m.eval(t.a[0])
		if v.k != 'q' {
			m.fail("length")
		}
		return vInt(int64(len(v.b)))
	case AAt:
		if t.a[0].op == QSym && m.bind[t.a[0]] == nil {
			return vBig(m.leafByte(m.path(t.a[0].a[0]), m.int(t.a[1]), t.ty))
		}
		v := m.eval(t.a[0])
		i := m.int(t.a[1])
		if v.k != 'q' || !i.IsInt64() || i.Sign() < 0 || i.Int64() >= int64(len(v.b)) {
			m.fail("index")
		}
		return v.b[i.Int64()]
	case ALV, ABV:
		if n, ok := m.env[t]; ok {
			return vBig(n)
		}
		m.fail("free variable")
	case AMul:
		r := big.NewInt(1)
		for _, x := range t.a {
			r = new(big.Int).Mul(r, m.int(x))
		}
		return vBig(r)
	case ADiv, AMod:
		x, y := m.int(t.a[0]), m.int(t.a[1])
		if y.Sign() == 0 {
			m.fail("division by zero")
		}
		if t.op == ADiv {
			return vBig(new(big.Int).Quo(x, y))
		}
		return vBig(new(big.Int).Rem(x, y))
	case AAnd, AOr, AXor:
		x, y := m.int(t.a[0]), m.int(t.a[1])
		switch t.op {
		case AAnd:
			return vBig(new(big.Int).And(x, y))
		case AOr:
			return vBig(new(big.Int).Or(x, y))
		}
		return vBig(new(big.Int).Xor(x, y))
	case AShl, AShr:
		x, y := m.int(t.a[0]), m.int(t.a[1])
		if y.Sign() < 0 || y.BitLen() > 8 {
			m.fail("shift")
		}
		if t.op == AShl {
			return vBig(new(big.Int).Lsh(x, uint(y.Int64())))
		}
		return vBig(new(big.Int).Rsh(x, uint(y.Int64())))
	case AConv:
		x := m.int(t.a[0])
		b, ok := t.ty.Underlying().(*types.Basic)
		if !ok {
			m.fail("conversion")
		}
		bits, signed := uint(64), true
		switch b.Kind() {
		case types.Uint8:
			bits, signed = 8, false
		case types.Uint16:
			bits, signed = 16, false
		case types.Uint32:
			bits, signed = 32, false
		case types.Uint, types.Uint64, types.Uintptr:
			bits, signed = 64, false
		case types.Int8:
			bits = 8
		case types.Int16:
			bits = 16
		case types.Int32:
			bits = 32
		}
		mod := new(big.Int).Lsh(big.NewInt(1), bits)
		r := new(big.Int).Mod(x, mod)
		if signed && r.Bit(int(bits-1)) == 1 {
			r.Sub(r, mod)
		}
		return vBig(r)
	case AFirst:
		n := m.int(t.a[0])
		r := n
		m.loop(t, func(k int64) bool {
			if m.isTrue(t.a[1]) {
				r = big.NewInt(k)
				return false
			}
			return true
		})
		return vBig(r)
	case ACount:
		var n int64
		m.loop(t, func(k int64) bool {
			if m.isTrue(t.a[1]) {
				n++
			}
			return true
		})
		return vInt(n)
	case ABlen:
		return vInt(int64((m.ring(t.a[0]).BitLen() + 7) / 8))
	case AUF:
		switch t.s {
		case "maplen":
			return vInt(m.leafLen("map "+m.path(t.a[0]), false))
		case "bigcmp":
			return vInt(int64(m.int(t.a[0]).Cmp(m.int(t.a[1]))))
		case "bytescmp":
			return vInt(int64(strings.Compare(string(m.bytes(m.eval(t.a[0]))), string(m.bytes(m.eval(t.a[1]))))))
		case "beint":
			return vBig(new(big.Int).SetBytes(m.bytes(m.eval(t.a[0]))))
		case "bitlen":
			if len(t.a) == 1 {
				return vInt(int64(m.int(t.a[0]).BitLen()))
			}
		}
		if strings.HasPrefix(t.s, "?") {
			m.fail("unknown")
		}
		return vBig(m.leafInt(m.uf(t), t.ty))
	case BLe:
		return vBool(m.int(t.a[0]).Sign() <= 0)
	case BEq:
		return vBool(m.int(t.a[0]).Sign() == 0)
	case BREq:
		return vBool(m.ring(t.a[0]).Sign() == 0)
	case BPEq:
		return vBool(m.pt(t.a[0]).Sign() == 0)
	case BSeqEq:
		return vBool(m.eval(t.a[0]).fp() == m.eval(t.a[1]).fp())
	case BVar, BNil, BType:
		if t.op == BType {
			return m.dynType(m.path(t.a[0]), tyStr(t.ty))
		}
		return m.bool(m.atomKey(t))
	case BUF:
		switch t.s {
		case "canon0", "canon1":
			if !opaque(t.a[0]) {
				b := m.bytes(m.eval(t.a[0]))
				return vBool(len(b) == 32 && new(big.Int).SetBytes(b).Cmp(Mods[int(t.s[5]-'0')]) < 0)
			}
		case "ptok":
			if !opaque(t.a[0]) {
				return vBool(m.decode(m.bytes(m.eval(t.a[0]))) != nil)
			}
		case "high":
			return vBool(m.ring(t.a[0]).Cmp(new(big.Int).Rsh(Q, 1)) > 0)
		case "issq":
			return vBool(big.Jacobi(m.ring(t.a[0]), P) >= 0)
		case "oncurve":
			x, y := m.ring(t.a[0]), m.ring(t.a[1])
			return vBool(onCurve(x, y))
		case "mapin":
			n := m.leafLen("map "+m.path(t.a[0]), false)
			k := m.eval(t.a[1]).fp()
			for i := int64(0); i < n; i++ {
				if m.key(t.a[0], i).String() == k {
					return vBool(true)
				}
			}
			return vBool(false)
		}
		if t.op == BType {
			return m.dynType(m.path(t.a[0]), tyStr(t.ty))
		}
		return m.bool(m.atomKey(t))
	case BAll:
		r := true
		m.loop(t, func(k int64) bool {
			r = m.isTrue(t.a[1])
			return r
		})
		return vBool(r)
	case BNoDup:
		seen := map[string]bool{}
		r := true
		m.loop(t, func(k int64) bool {
			f := m.eval(t.a[1]).fp()
			if seen[f] {
				r = false
			}
			seen[f] = true
			return r
		})
		return vBool(r)
	case RVar:
		return m.leafRing("ring "+m.path(t.a[0]), int(t.n))
	case RInv:
		mod := ringMod(t)
		return vRing(mod, invMod(m.ring(t.a[0]), Mods[mod]))
	case REmb:
		return vRing(int(t.n), m.int(t.a[0]))
	case RSum, RProd:
		mod := ringMod(t)
		r := new(big.Int)
		if t.op == RProd {
			r.SetInt64(1)
		}
		m.loop(t, func(k int64) bool {
			x := m.ring(t.a[1])
			if t.op == RSum {
				r.Add(r, x)
			} else {
				r.Mul(r, x)
				r.Mod(r, Mods[mod])
			}
			return true
		})
		return vRing(mod, r)
	case RPoly:
		return m.eval(t.a[0])
	case RCst:
		c, _ := new(big.Int).SetString(t.s, 10)
		return vRing(int(t.n), c)
	case RBE:
		return vRing(ringMod(t), new(big.Int).SetBytes(m.bytes(m.eval(t.a[0]))))
	case RUF:
		mod := ringMod(t)
		switch {
		case t.s == "affx" || t.s == "affy":
			x, y := m.aff(m.pt(t.a[0]))
			if t.s == "affx" {
				return vRing(1, x)
			}
			return vRing(1, y)
		case t.s == "sqrt":
			e := new(big.Int).Rsh(new(big.Int).Add(P, big.NewInt(1)), 2)
			return vRing(1, new(big.Int).Exp(m.ring(t.a[0]), e, P))
		case strings.HasPrefix(t.s, "pow"):
			if e, ok := new(big.Int).SetString(t.s[3:], 16); ok {
				return vRing(mod, new(big.Int).Exp(m.ring(t.a[0]), e, Mods[mod]))
			}
		case strings.HasPrefix(t.s, "?"):
			m.fail("unknown")
		default:
			if n, ok := m.defRing(t); ok {
				return vRing(mod, n)
			}
		}
		u := m.uf(t)
		if v, ok := m.tab["uf "+u]; ok {
			return v
		}
		return vRing(mod, m.hashBig(u))
	case XVar:
		k := "pt " + m.path(t.a[0])
		m.isLeaf(k, leaf{mod: -2})
		if v, ok := m.tab[k]; ok {
			return v
		}
		m.chosen(k)
		if m.mode(k) < 16 {
			return vPt(new(big.Int))
		}
		return vPt(m.hashBig(k))
	case XG:
		return vPt(big.NewInt(1))
	case XSum:
		r := new(big.Int)
		m.loop(t, func(k int64) bool {
			r.Add(r, new(big.Int).Mul(m.ring(t.a[1]), m.pt(t.a[2])))
			return true
		})
		return vPt(r)
	case XUF:
		if t.s == "ptdec" {
			b := m.bytes(m.eval(t.a[0]))
			if e := m.decode(b); e != nil {
				return vPt(e)
			}
		}
		if strings.HasPrefix(t.s, "?") {
			m.fail("unknown")
		}
		u := m.uf(t)
		if v, ok := m.tab["uf "+u]; ok {
			return v
		}
		return vPt(m.hashBig(u))
	case XAff:
		x, y := m.ring(t.a[0]), m.ring(t.a[1])
		return vPt(m.ofCoords(x, y))
	case QBytes:
		return vBytes([]byte(t.s))
	case QArr:
		r := &ev{k: 'q'}
		for _, x := range t.a {
			r.b = append(r.b, m.eval(x))
		}
		return r
	case QSym:
		var n int64
		if a, ok := t.ty.Underlying().(*types.Array); ok {
			n = a.Len()
		} else {
			n = m.small(SLen(t))
		}
		r := &ev{k: 'q'}
		for i := int64(0); i < n; i++ {
			r.b = append(r.b, m.eval(symElem(t, C(i))))
		}
		return r
	case QComp:
		r := &ev{k: 'q'}
		m.loop(t, func(k int64) bool {
			r.b = append(r.b, m.eval(t.a[1]))
			return true
		})
		return r
	case QFlat:
		r := &ev{k: 'q'}
		m.loop(t, func(k int64) bool {
			v := m.eval(t.a[1])
			if v.k != 'q' {
				m.fail("flat")
			}
			r.b = append(r.b, v.b...)
			return true
		})
		return r
	case QFilt:
		r := &ev{k: 'q'}
		m.loop(t, func(k int64) bool {
			if m.isTrue(t.a[1]) {
				r.b = append(r.b, m.eval(t.a[2]))
			}
			return true
		})
		return r
	case QCat:
		r := &ev{k: 'q'}
		for _, x := range t.a {
			v := m.eval(x)
			if v.k != 'q' {
				m.fail("cat")
			}
			r.b = append(r.b, v.b...)
		}
		return r
	case QSub:
		v := m.eval(t.a[0])
		o, n := m.int(t.a[1]), m.int(t.a[2])
		if v.k != 'q' || !o.IsInt64() || !n.IsInt64() || o.Sign() < 0 || n.Sign() < 0 || o.Int64()+n.Int64() > int64(len(v.b)) {
			m.fail("slice")
		}
		return &ev{k: 'q', b: v.b[o.Int64() : o.Int64()+n.Int64()]}
	case QUpd:
		v := m.eval(t.a[0])
		i := m.int(t.a[1])
		if v.k != 'q' || !i.IsInt64() || i.Sign() < 0 || i.Int64() >= int64(len(v.b)) {
			m.fail("update")
		}
		b := append([]*ev(nil), v.b...)
		b[i.Int64()] = m.eval(t.a[2])
		return &ev{k: 'q', b: b}
	case QRev:
		v := m.eval(t.a[0])
		if v.k != 'q' {
			m.fail("reverse")
		}
		r := &ev{k: 'q'}
		for i := len(v.b) - 1; i >= 0; i-- {
			r.b = append(r.b, v.b[i])
		}
		return r
	case QZero:
		n := m.small(t.a[0])
		r := &ev{k: 'q'}
		z := m.eval(zeroOf(t.ty))
		for i := int64(0); i < n; i++ {
			r.b = append(r.b, z)
		}
		return r
	case QUF:
		return m.quf(t)
	case SPRoot, SPFld, SPIdx, SPDrf, SPTyp, SPKey, SPVal, SPStr:
		return &ev{k: 'o', s: m.path(t)}
	case OSObj:
		return &ev{k: 'o', s: "obj " + m.path(t.a[0])}
	case ORef:
		r := &ev{k: 't', s: "ref"}
		for _, x := range t.a {
			r.b = append(r.b, m.eval(x))
		}
		return r
	case PFld, PDrf:
		return &ev{k: 'o', s: opName(t) + strconv.FormatInt(t.n, 10)}
	case PIdx:
		return m.eval(t.a[0])
	}
	m.fail("no interpretation of " + opName(t) + t.s)
	return nil
}

func (m *interp) key(path *T, i int64) *big.Int {
	p := m.path(path)
	r := new(big.Int)
	for k := int64(0); k <= i; k++ {
		name := fmt.Sprintf("key %s %d", p, k)
		m.isLeaf(name, intLeaf(0, 1<<32-1, true, true))
		if v, ok := m.tab[name]; ok {
			if v.i.Cmp(r) < 0 {
				m.fail("keys out of order")
			}
			r = new(big.Int).Add(v.i, big.NewInt(1))
			continue
		}
		m.chosen(name)
		h := m.hash(name, 8)
		gap := int64(1 + h[1]%4)
		switch {
		case h[0] < 210:
		case h[0] < 232 && len(m.cands) > 0:
			if c := m.cands[int(h[1])%len(m.cands)]; c > 0 && c < 1<<28 {
				gap = c
			}
		default: // of any size
			n := int64(h[4])<<24 | int64(h[5])<<16 | int64(h[6])<<8 | int64(h[7])
			gap = 1 + n&(1<<28-1)>>(h[2]%28)
		}
		r.Add(r, big.NewInt(gap))
	}
	return r.Sub(r, big.NewInt(1))
}

func (m *interp) ivar(t *T) *big.Int {
	p := t.a[0]
	if p.op == SPKey {
		i := m.int(p.a[1])
		if !i.IsInt64() || i.Sign() < 0 || i.Int64() > 200 {
			m.fail("map key")
		}
		return m.key(p.a[0], i.Int64())
	}
	// an element of a sequence of integers may be named either way
	if p.op == SPIdx && p.a[0].op != OHole {
		return m.leafByte(m.path(p.a[0]), m.int(p.a[1]), t.ty)
	}
	return m.leafInt(m.path(p), t.ty)
}

// leafByte is an element of a symbolic sequence of integers.
func (m *interp) leafByte(seq string, i *big.Int, ty types.Type) *big.Int {
	if v, ok := m.tab["sym "+seq]; ok {
		if !i.IsInt64() || i.Sign() < 0 || i.Int64() >= int64(len(v.b)) {
			m.fail("index")
		}
		return v.b[i.Int64()].i
	}
	if v, ok := m.tab["int "+seq+"["+i.String()+"]"]; ok {
		return v.i
	}
	_, hi, _, hk := typeBounds(ty)
	if hk && hi == 255 {
		if i.IsInt64() {
			if b, ok := m.plausible(seq, 0, i.Int64()); ok {
				return big.NewInt(int64(b))
			}
		}
	}
	return m.leafInt(seq+"["+i.String()+"]", ty)
}

func (m *interp) quf(t *T) *ev {
	if b, ok := m.defSeq(t); ok {
		return vBytes(b)
	}
	switch {
	case t.s == "be32":
		return vBytes(be(m.ring(t.a[0]), 32))
	case t.s == "pser":
		return vBytes(m.pser(m.pt(t.a[0])))
	case t.s == "puser":
		x, y := m.aff(m.pt(t.a[0]))
		return vBytes(append([]byte{4}, append(be(x, 32), be(y, 32)...)...))
	case t.s == "minbe":
		return vBytes(m.ring(t.a[0]).Bytes())
	case t.s == "dec":
		return vBytes([]byte(m.int(t.a[0]).String()))
	case t.s == "hex":
		return vBytes([]byte(hex.EncodeToString(m.bytes(m.eval(t.a[0])))))
	case t.s == "xor":
		x, y := m.bytes(m.eval(t.a[0])), m.bytes(m.eval(t.a[1]))
		if len(x) != len(y) {
			m.fail("xor")
		}
		z := make([]byte, len(x))
		for i := range x {
			z[i] = x[i] ^ y[i]
		}
		return vBytes(z)
	case t.s == "keystream":
		at := m.int(t.a[1])
		if !at.IsInt64() || at.Int64() < 0 || at.Int64() > 1<<20 {
			m.fail("size out of reach")
		}
		return vBytes(m.hash("ks "+m.eval(t.a[0]).fp(), int(at.Int64()+m.small(t.a[2])))[at.Int64():])
	case strings.HasPrefix(t.s, "int") && len(t.a) == 1:
		if n, err := strconv.Atoi(t.s[3:]); err == nil {
			x := new(big.Int).Mod(m.int(t.a[0]), new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
			return vBytes(be(x, n))
		}
	case strings.HasPrefix(t.s, "?"):
		m.fail("unknown")
	}
	k := m.uf(t)
	n := int(t.n)
	if n < 0 {
		n = 10 + int(m.hash("n "+k, 1)[0])%8
	}
	if n > 1000 {
		m.fail("too long")
	}
	if v, ok := m.prog[k]; ok {
		return vBytes(v)
	}
	m.asked[k] = true
	return vBytes(m.hash(k, n))
}

// constants collects integers that occur in the conditions.
func constants(p []lit) []int64 {
	set := map[int64]bool{0: true, 1: true, 2: true, 3: true}
	seen := map[*T]bool{}
	var rec func(t *T, d int)
	rec = func(t *T, d int) {
		if seen[t] || d > 12 {
			return
		}
		seen[t] = true
		if t.op == OLin {
			c := t.lin.c
			if c < 0 {
				c = -c
			}
			if c <= 1<<32 {
				for _, k := range []int64{c - 1, c, c + 1} {
					if k >= 0 {
						set[k] = true
					}
				}
			}
		}
		each(t, func(x *T) { rec(x, d+1) })
	}
	for _, l := range p {
		rec(l.at, 0)
	}
	var out []int64
	for k := range set {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

var failHist map[string]int // development: which condition fails how often

// Trials is the number of interpretations tried for one path.
var Trials = 400

// witness looks for an interpretation in which every literal holds.
func witness(p []lit, bind map[*T]*T) (ok bool, why string) {
	if os.Getenv("VG_FAIL") != "" {
		failHist = map[string]int{}
		defer func() {
			if !ok {
				for k, n := range failHist {
					fmt.Fprintln(os.Stderr, "FAIL", n, k)
				}
				fmt.Fprintln(os.Stderr)
			}
		}()
	}
	cs := constants(p)
	why = "no interpretation found"
	// now and then strings as long as the conditions ask about
	reach := int64(300)
	for _, c := range cs {
		if c > reach && c <= 70000 {
			reach = c
		}
	}
	work := 0
	var salt map[string]int
	seed := ""
	for i := 0; i < Trials && work < 3000000; i++ {
		if i < 60 || salt == nil {
			seed, salt = fmt.Sprint("trial", i), map[string]int{}
		}
		m := &interp{seed: seed, salt: salt, cands: cs, maxN: 300, bind: bind, set: map[string]*ev{}}
		if i%4 == 3 {
			m.maxN = reach
		}
		m.reset()
		good, w := m.try(p)
		for k := 0; k < 10 && !good && len(m.goals) > 0 && m.steps < 200000 && m.repair(p); k++ {
			m.reset()
			good, w = m.try(p)
		}
		work += m.steps + 100
		if good {
			return true, ""
		}
		if w != "" {
			why = w
			if strings.HasPrefix(w, "no interpretation of") || w == "unknown" {
				return false, w
			}
		}
		// choose again what the failing condition depends on
		var ks []string
		for k := range m.stuck {
			ks = append(ks, k)
		}
		if len(ks) == 0 || i%60 == 59 {
			salt = nil
			continue
		}
		sort.Strings(ks)
		k := ks[int(m.hash(fmt.Sprint("step", i), 1)[0])%len(ks)]
		next := map[string]int{}
		for x, n := range salt {
			next[x] = n
		}
		next[k]++
		salt = next
	}
	return false, why
}

// reset forgets every value except those solved for.
func (m *interp) reset() {
	m.env, m.tab, m.force, m.types = map[*T]*big.Int{}, map[string]*ev{}, map[string]bool{}, map[string]string{}
	m.pserR, m.affR, m.ovr = map[string]*big.Int{}, map[string]*big.Int{}, map[string]affPt{}
	m.memo, m.stuck, m.goals = map[*T]*ev{}, nil, nil
	m.prog, m.asked = map[string][]byte{}, map[string]bool{}
	for k, v := range m.set {
		m.tab[k] = v
	}
}

// prepare gives the solved terms and the free conditions their values.
func (m *interp) prepare(p []lit) bool {
	m.seedBind()
	for _, l := range p {
		if l.at.op == BUF && l.at.s == "true" {
			continue
		}
		if k := m.atomKey(l.at); k != "" {
			if b, had := m.force[k]; had && b != l.val {
				if failHist != nil {
					failHist["clash "+k]++
				}
				return false
			}
			m.force[k] = l.val
			if l.at.op == BType && l.val {
				x, ty := m.path(l.at.a[0]), tyStr(l.at.ty)
				if t, ok := m.types[x]; ok && t != ty {
					return false
				}
				m.types[x] = ty
			}
		}
	}
	return true
}

// record notes the choices an evaluation depends on.
func (m *interp) record(f func()) {
	m.touch, m.leafs, m.memo = map[string]bool{}, map[string]leaf{}, map[*T]*ev{}
	f()
	m.stuck, m.touch = m.touch, nil
}

func (m *interp) try(p []lit) (ok bool, why string) {
	defer func() {
		if r := recover(); r != nil {
			if f, is := r.(evalFail); is {
				ok, why = false, f.why
				return
			}
			ok, why = false, fmt.Sprint(r)
		}
	}()
	if !m.prepare(p) {
		return false, ""
	}
	for _, l := range p {
		if l.at.op == BUF && l.at.s == "true" {
			continue
		}
		v := m.eval(l.at)
		if v.k != 'b' || (v.i.Sign() != 0) != l.val {
			if failHist != nil {
				failHist[clip(litString([]lit{l}), 600)]++
			}
			m.record(func() { m.eval(l.at) })
			m.goals = m.litGoals(l)
			return false, ""
		}
	}
	ok = m.checkBind()
	if !ok && failHist != nil {
		failHist["solved terms"]++
	}
	return ok, ""
}

// free is the table entry of a term whose value an interpretation may choose,
// or "".
func (m *interp) free(t *T) string {
	switch t.op {
	case AIVar:
		p := t.a[0]
		switch {
		case p.op == SPKey:
			return "key " + m.path(p.a[0]) + " " + m.int(p.a[1]).String()
		case p.op == SPIdx && p.a[0].op != OHole:
			return "int " + m.path(p.a[0]) + "[" + m.int(p.a[1]).String() + "]"
		}
		return "int " + m.path(p)
	case ALen:
		if t.a[0].op == QSym && m.bind[t.a[0]] == nil {
			return "len " + m.path(t.a[0].a[0])
		}
	case AAt:
		if t.a[0].op == QSym && m.bind[t.a[0]] == nil {
			return "int " + m.path(t.a[0].a[0]) + "[" + m.int(t.a[1]).String() + "]"
		}
	case RVar:
		return "ring " + m.path(t.a[0])
	case XVar:
		return "pt " + m.path(t.a[0])
	case AUF:
		switch t.s {
		case "maplen":
			return "len map " + m.path(t.a[0])
		case "bigcmp", "bytescmp", "beint", "bitlen":
			return ""
		}
		return "int " + m.uf(t)
	case RUF:
		if t.s == "affx" || t.s == "affy" || t.s == "sqrt" || strings.HasPrefix(t.s, "pow") {
			return ""
		}
		return "uf " + m.uf(t)
	case XUF:
		if t.s == "ptdec" {
			return ""
		}
		return "uf " + m.uf(t)
	}
	return ""
}

// bound lists the solved terms in a fixed order.
func (m *interp) bound() []*T {
	var out []*T
	for old := range m.bind {
		out = append(out, old)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// seedBind gives the solved terms their values under every name they have.
func (m *interp) seedBind() {
	for _, old := range m.bound() {
		nw := m.bind[old]
		if len(old.fv) > 0 || len(nw.fv) > 0 {
			continue
		}
		k := m.free(old)
		if old.op == QSym && isByteSeq(old) {
			k = "sym " + m.path(old.a[0])
		}
		if k == "" {
			continue
		}
		v := m.eval(nw)
		if x, ok := m.tab[k]; ok && x.fp() != v.fp() {
			m.fail("solved twice")
		}
		m.tab[k] = v
	}
}

// checkBind: the solved terms that have a definition have the solved value.
func (m *interp) checkBind() bool {
	for _, old := range m.bound() {
		nw := m.bind[old]
		if len(old.fv) > 0 || len(nw.fv) > 0 || old.op == QSym {
			continue
		}
		if old.op == QUF {
			if !definedQuf[old.s] && !(strings.HasPrefix(old.s, "int") && len(old.a) == 1) {
				if v := m.eval(nw); old.n >= 0 && int64(len(v.b)) != old.n && old.s != "xmd" && old.s != "keystream" {
					return false
				}
				continue
			}
		} else if m.free(old) != "" {
			continue
		}
		x, y := m.eval1(old), m.eval(nw)
		if x.fp() != y.fp() {
			if failHist != nil {
				failHist["solved "+clip(old.String(), 300)+" := "+clip(nw.String(), 300)]++
			}
			m.record(func() { m.eval1(old); m.eval(nw) })
			diff := func() *big.Int { return new(big.Int).Sub(m.eval1(old).i, m.eval(nw).i) }
			switch x.k {
			case 'i':
				m.goals = []goal{{-1, 0, diff}}
			case 'r':
				m.goals = append([]goal{{ringMod(old), 0, diff}}, m.sameX(old, nw)...)
			case 'p':
				m.goals = []goal{{0, 0, diff}}
			}
			return false
		}
	}
	return true
}

var definedQuf = map[string]bool{"be32": true, "pser": true, "puser": true, "minbe": true, "dec": true, "hex": true, "xor": true}
