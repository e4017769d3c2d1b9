// Package vg is an interprocedural value-graph (gated value numbering)
// analysis over go/ssa.  Every value a function computes is represented by a
// hash-consed term in normal form; control flow joins become decision nodes
// over hash-consed atoms, loops become binders (sum, product, for-all,
// comprehension) obtained by solving their recurrences.  Two values are equal
// when their normal forms are the same node.  Nothing is executed and no path
// is enumerated: a block is visited once per join context.
package vg

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/types/typeutil"
)

type Op uint8

const (
	OTrue Op = iota
	OFalse
	OITE // a[0] atom, a[1] hi, a[2] lo
	OBot
	ONil
	OErr
	OLin
	ORing
	OPt
	// containers
	OStruct
	OIface // ty, a[0]
	OSlice // a[0] ref (base, with path), a[1] off, a[2] len
	ORef   // a[0] root, a[1:] path
	OClo   // s fn key, a bindings
	OFn    // s fn key
	OTuple
	OBox // a[0]
	OZeroT
	// path elements
	PFld // n
	PIdx // a[0] lin
	PDrf
	// roots
	OObj  // n
	OSObj // a[0] symbolic path, ty = type of content
	OGlob // s
	// symbolic paths
	SPRoot // s
	SPFld  // a0, n
	SPIdx  // a0, a1 lin
	SPDrf  // a0
	SPTyp  // a0, ty (dynamic value of interface)
	SPKey  // a0, a1 lin    (k-th key of a symbolic map)
	SPVal  // a0, a1 key term
	SPStr  // a0, s (named derivation)
	// int atoms
	AIVar  // a0 path, ty
	ALen   // a0 seq atom
	AAt    // a0 seq atom, a1 idx (integer element)
	ALV    // loop var, n unique, a0 = N
	ABV    // bound var, n height
	AMul   // nonlinear
	ADiv   // a0, a1
	AMod   //
	AAnd   //
	AXor   //
	AOr    //
	AShl   //
	AShr   //
	AConv  // a0, ty (wrapping conversion)
	AFirst // binder: N, body bool
	ABlen  // byte length of ring value (minimal big endian)
	AUF    // uninterpreted int function s, args
	ACount // binder: number of k<N with cond
	// bool atoms
	BVar   // a0 path
	BLe    // a0 lin <= 0
	BEq    // a0 lin == 0
	BREq   // a0 ring == 0
	BPEq   // a0 pt == 0
	BSeqEq // a0,a1 seqs equal
	BType  // a0 path, ty
	BNil   // a0 path
	BAll   // binder N, body bool
	BNoDup // binder N, body int (values pairwise distinct)
	BUF    // uninterpreted bool function
	// scalar atoms
	RVar  // a0 path, n modulus
	RInv  // a0 ring
	REmb  // a0 lin, n
	RSum  // binder N, body
	RProd // binder N, body (ring)
	RPoly // a0 ring (power base)
	RCst  // constant base of a symbolic power: s decimal
	RBE   // a0 byte seq: big endian integer mod m
	RUF   // uninterpreted ring function s, args
	// point atoms
	XVar // a0 path
	XG
	XSum // binder N, body coef, body base (as pt value)
	XUF  // s, args
	XAff // a0 ring x, a1 ring y
	// sequences
	QBytes // constant bytes s
	QArr   // elements a
	QSym   // a0 path, ty elem ; length atom
	QComp  // binder N, body
	QFlat  // binder N, body seq
	QFilt  // binder N, cond, body
	QCat   // parts
	QSub   // a0 seq, off, len
	QUpd   // a0 seq, idx, val
	QRev   // a0 seq
	QUF    // s, args; n = fixed length (or -1)
	QZero  // a0 len, ty elem
	// misc opaque
	OUF   // uninterpreted value s, args
	OHole // loop placeholder n, s
	OMapS // symbolic map content a0 path
	OMapL // literal map content: s names? a = k1,v1,...
	OMapC // binder N, key, val : map built by a loop
	OMapE // empty
	OStrm // generator state base, count
	OBig  // big.Int content a0 ring (as canonical residue)
	OFwd  // point value whose coordinates are those of the point at a0
	OCrd  // coordinate n of the point at a0
	OHash // hash object content: s kind, a = key?, data seq
	OSort
	OFold
	OFoldV // a0 path placeholder var inside fold
	OMapU  // a0 map content, key, val: one more entry
	OMapSt // marker
)

type T struct {
	op  Op
	id  int32
	h   int32 // binder height
	n   int64
	s   string
	ty  types.Type
	a   []*T
	lin *Lin
	rg  *Ring
	pt  []PTerm
	fv  []*T // free loop vars, holes and bound vars (sorted by id)
}

type LTerm struct {
	c int64
	t *T
}
type Lin struct {
	c  int64
	ts []LTerm
}
type Fac struct {
	t *T
	e *T // lin
}
type Mono struct {
	c *big.Int
	f []Fac
}
type Ring struct {
	m  int // 0: Fq (scalars), 1: Fp
	ms []Mono
}
type PTerm struct {
	b *T
	c *T // ring
}

var (
	Q, _   = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	P, _   = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
	Mods   = []*big.Int{Q, P}
	MNames = []string{"q", "p"}
)

type table struct {
	m     map[string]*T
	next  int32
	tymap typeutil.Map
	tyn   int
	memo  map[string]*T
}

var tb *table

func Reset() {
	tb = &table{m: map[string]*T{}, memo: map[string]*T{}}
	True = mk(OTrue, nil)
	False = mk(OFalse, nil)
	Bot = mk(OBot, nil)
	Nil = mk(ONil, nil)
	Err = mk(OErr, nil)
	lvCount, holeCount = 0, 0
	ObjCount = 0
	iteMemo = map[[3]int32]*T{}
	seqReg = map[*T]*T{}
}

var True, False, Bot, Nil, Err *T

func tyID(t types.Type) int {
	if t == nil {
		return 0
	}
	if v := tb.tymap.At(t); v != nil {
		return v.(int)
	}
	tb.tyn++
	tb.tymap.Set(t, tb.tyn)
	return tb.tyn
}

func (t *T) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%d|%d|", t.op, t.n, tyID(t.ty))
	for _, x := range t.a {
		fmt.Fprintf(&b, "%d,", x.id)
	}
	if t.lin != nil {
		fmt.Fprintf(&b, "L%d", t.lin.c)
		for _, x := range t.lin.ts {
			fmt.Fprintf(&b, "+%d*%d", x.c, x.t.id)
		}
	}
	if t.rg != nil {
		fmt.Fprintf(&b, "R%d", t.rg.m)
		for _, m := range t.rg.ms {
			b.WriteByte('+')
			b.Write(m.c.Append(nil, 36))
			for _, f := range m.f {
				fmt.Fprintf(&b, "*%d^%d", f.t.id, f.e.id)
			}
		}
	}
	if t.pt != nil {
		b.WriteByte('P')
		for _, p := range t.pt {
			fmt.Fprintf(&b, "+%d*%d", p.c.id, p.b.id)
		}
	}
	b.WriteByte('#')
	b.WriteString(t.s)
	return b.String()
}

func intern(t *T) *T {
	k := t.key()
	if x, ok := tb.m[k]; ok {
		return x
	}
	tb.next++
	t.id = tb.next
	// free vars and height
	var fv []*T
	add := func(l []*T) {
		if len(l) == 0 {
			return
		}
		if fv == nil {
			fv = l
			return
		}
		fv = mergeFV(fv, l)
	}
	var h int32
	each(t, func(x *T) {
		add(x.fv)
		if x.h > h {
			h = x.h
		}
	})
	t.h = h
	switch t.op {
	case ALV:
		add([]*T{t})
	case ABV, OHole:
		add([]*T{t})
	}
	if isBinder(t.op) {
		// remove own BV
		bv := bvTerm(t.n)
		var nf []*T
		for _, x := range fv {
			if x != bv {
				nf = append(nf, x)
			}
		}
		fv = nf
		if int32(t.n) > t.h {
			t.h = int32(t.n)
		}
	}
	t.fv = fv
	tb.m[k] = t
	return t
}

func bvTerm(h int64) *T { return intern(&T{op: ABV, n: h}) }

func mergeFV(a, b []*T) []*T {
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]*T, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].id < b[j].id):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j].id < a[i].id:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

// each calls f on every direct subterm.
func each(t *T, f func(*T)) {
	for _, x := range t.a {
		f(x)
	}
	if t.lin != nil {
		for _, x := range t.lin.ts {
			f(x.t)
		}
	}
	if t.rg != nil {
		for _, m := range t.rg.ms {
			for _, x := range m.f {
				f(x.t)
				f(x.e)
			}
		}
	}
	for _, p := range t.pt {
		f(p.b)
		f(p.c)
	}
}

func mk(op Op, ty types.Type, a ...*T) *T { return intern(&T{op: op, ty: ty, a: a}) }
func mkn(op Op, n int64, a ...*T) *T      { return intern(&T{op: op, n: n, a: a}) }
func mks(op Op, s string, a ...*T) *T     { return intern(&T{op: op, s: s, a: a}) }

func isBinder(op Op) bool {
	switch op {
	case AFirst, ACount, BAll, BNoDup, RSum, RProd, XSum, QComp, QFlat, QFilt, OMapC:
		return true
	}
	return false
}

func (t *T) hasFV(v *T) bool {
	i := sort.Search(len(t.fv), func(i int) bool { return t.fv[i].id >= v.id })
	return i < len(t.fv) && t.fv[i] == v
}

var lvCount, holeCount int64

// newLV makes a fresh loop variable ranging over [0,N).
func newLV(N *T) *T {
	lvCount++
	return intern(&T{op: ALV, n: lvCount, a: []*T{N}})
}

// closeB builds binder node op over N and bodies, abstracting loop variable v.
func closeB(op Op, N, v *T, bodies ...*T) *T { return closeBs(op, "", nil, N, v, bodies...) }
func closeBs(op Op, s string, ty types.Type, N, v *T, bodies ...*T) *T {
	var h int32
	for _, b := range bodies {
		if b.h > h {
			h = b.h
		}
	}
	if N.h > h {
		// N is outside the scope, no constraint needed
	}
	h++
	bv := linAtom(bvTerm(int64(h)))
	a := make([]*T, 0, len(bodies)+1)
	a = append(a, N)
	for _, b := range bodies {
		a = append(a, rawSubst(b, v, bv))
	}
	return intern(&T{op: op, n: int64(h), s: s, ty: ty, a: a})
}

// rawSubst renames an int variable by another variable without renormalising
// binder structure (used to close binders; the replacement is a variable so
// normal forms stay normal up to atom order, which is re-established by the
// smart constructors used in subst).
func rawSubst(t, v, val *T) *T { return subst(t, map[*T]*T{v: val}) }

// openB opens a binder with a fresh variable.
func openB(t *T) (v *T, bodies []*T) {
	v = newLV(t.a[0])
	bodies = openWith(t, linAtom(v))
	return
}

// openWith instantiates the bound variable of a binder with the value x.
func openWith(t *T, x *T) []*T {
	bv := bvTerm(t.n)
	out := make([]*T, len(t.a)-1)
	for i, b := range t.a[1:] {
		out[i] = subst(b, map[*T]*T{bv: x})
	}
	return out
}

// subst replaces variables (keys: ALV, ABV, OHole terms) by values.
func subst(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	return subst1(t, m, memo)
}

func touches(t *T, m map[*T]*T) bool {
	for _, x := range t.fv {
		if _, ok := m[x]; ok {
			return true
		}
	}
	return false
}

func subst1(t *T, m map[*T]*T, memo map[*T]*T) *T {
	if len(t.fv) == 0 || !touches(t, m) {
		return valueOf(t)
	}
	if v, ok := m[t]; ok {
		return v
	}
	if v, ok := memo[t]; ok {
		return v
	}
	sub := func(x *T) *T { return subst1(x, m, memo) }
	var r *T
	if isBinder(t.op) {
		bv := bvTerm(t.n)
		N := sub(t.a[0])
		v := newLV(N)
		m2 := map[*T]*T{}
		for k, x := range m {
			m2[k] = x
		}
		m2[bv] = linAtom(v)
		bodies := make([]*T, len(t.a)-1)
		mm := map[*T]*T{}
		for i, b := range t.a[1:] {
			bodies[i] = subst1(b, m2, mm)
		}
		r = mkBinder(t, N, v, bodies)
	} else {
		r = rebuild(t, sub)
	}
	memo[t] = r
	return r
}

// valueOf turns an atom into a value of its sort; values are returned as is.
func valueOf(t *T) *T {
	switch {
	case isIntAtom(t.op):
		return linAtom(t)
	case isBoolAtom(t.op):
		return boolAtom(t)
	case isRingAtom(t.op):
		return ringAtom(t)
	case isPtAtom(t.op):
		return ptAtom(t)
	}
	return t
}

func isIntAtom(op Op) bool  { return op >= AIVar && op <= ACount }
func isBoolAtom(op Op) bool { return op >= BVar && op <= BUF }
func isRingAtom(op Op) bool { return op >= RVar && op <= RUF }
func isPtAtom(op Op) bool   { return op >= XVar && op <= XAff }
func isSeq(op Op) bool      { return op >= QBytes && op <= QZero }

func boolAtom(t *T) *T { return intern(&T{op: OITE, a: []*T{t, True, False}}) }

// ---------------------------------------------------------------- MTBDD

func topAtom(args ...*T) *T {
	var best *T
	for _, x := range args {
		if x.op == OITE && (best == nil || x.a[0].id < best.id) {
			best = x.a[0]
		}
	}
	return best
}

func cof(t, atom *T, b bool) *T {
	if t.op == OITE && t.a[0] == atom {
		if b {
			return t.a[1]
		}
		return t.a[2]
	}
	return t
}

func mkITE(atom, hi, lo *T) *T {
	if hi == lo {
		return hi
	}
	if hi.op == OBot {
		return lo
	}
	if lo.op == OBot {
		return hi
	}
	// push into same-shaped containers
	if hi.op == lo.op {
		switch hi.op {
		case OStruct, OTuple:
			if len(hi.a) == len(lo.a) && sameTy(hi.ty, lo.ty) && hi.s == lo.s {
				a := make([]*T, len(hi.a))
				for i := range a {
					a[i] = ite(boolAtom(atom), hi.a[i], lo.a[i])
				}
				return intern(&T{op: hi.op, ty: hi.ty, s: hi.s, a: a})
			}
		case OIface:
			if sameTy(hi.ty, lo.ty) {
				return mk(OIface, hi.ty, ite(boolAtom(atom), hi.a[0], lo.a[0]))
			}
		case OBox:
			return mk(OBox, hi.ty, ite(boolAtom(atom), hi.a[0], lo.a[0]))
		case OSlice:
			if hi.a[0] == lo.a[0] {
				c := boolAtom(atom)
				return mk(OSlice, nil, hi.a[0], ite(c, hi.a[1], lo.a[1]), ite(c, hi.a[2], lo.a[2]))
			}
		case QArr:
			if len(hi.a) == len(lo.a) {
				a := make([]*T, len(hi.a))
				for i := range a {
					a[i] = ite(boolAtom(atom), hi.a[i], lo.a[i])
				}
				return intern(&T{op: QArr, a: a})
			}
		case OStrm:
			if hi.a[0] == lo.a[0] {
				return mk(OStrm, nil, hi.a[0], ite(boolAtom(atom), hi.a[1], lo.a[1]))
			}
		}
	}
	return intern(&T{op: OITE, a: []*T{atom, hi, lo}})
}

func sameTy(a, b types.Type) bool {
	if a == nil || b == nil {
		return a == b
	}
	return types.Identical(a, b)
}

var iteMemo = map[[3]int32]*T{}

// ite(f,g,h) for a boolean f.
var iteCount int

func ite(f, g, h *T) *T {
	if f == True {
		return g
	}
	if f == False {
		return h
	}
	if g == h {
		return g
	}
	if f.op == OBot {
		return Bot
	}
	k := [3]int32{f.id, g.id, h.id}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	if iteCount++; iteCount&0x3fff == 0 && !Deadline.IsZero() && time.Now().After(Deadline) {
		panic(undecided{"analysis budget"})
	}
	at := topAtom(f, g, h)
	if at == nil {
		return ite(UnkB("condition "+opName(f)+f.s), g, h)
	}
	r := mkITE(at, ite(cof(f, at, true), cof(g, at, true), cof(h, at, true)), ite(cof(f, at, false), cof(g, at, false), cof(h, at, false)))
	iteMemo[k] = r
	return r
}

func Not(f *T) *T    { return ite(f, False, True) }
func And(f, g *T) *T { return ite(f, g, False) }
func Or(f, g *T) *T  { return ite(f, True, g) }
func Iff(f, g *T) *T { return ite(f, g, Not(g)) }
func Implies(f, g *T) *T {
	return ite(f, g, True)
}

// lift applies f pointwise over the decision structure of its arguments.
func lift(name string, args []*T, f func([]*T) *T) *T {
	at := topAtom(args...)
	if at == nil {
		for _, x := range args {
			if x.op == OBot {
				return Bot
			}
		}
		return f(args)
	}
	var b strings.Builder
	b.WriteString(name)
	for _, x := range args {
		fmt.Fprintf(&b, ",%d", x.id)
	}
	k := b.String()
	if r, ok := tb.memo[k]; ok {
		return r
	}
	hi := make([]*T, len(args))
	lo := make([]*T, len(args))
	for i, x := range args {
		hi[i] = cof(x, at, true)
		lo[i] = cof(x, at, false)
	}
	// when the split atom is an opaque gate the branches are normalised under it
	r := mkITEv(at, lift(name, hi, f), lift(name, lo, f))
	tb.memo[k] = r
	return r
}

// mkITEv is mkITE for results that may themselves contain atoms above `at`.
func mkITEv(at, hi, lo *T) *T {
	if hi == lo {
		return hi
	}
	return ite(boolAtom(at), hi, lo)
}

// liftL is lift for functions that depend on more than their arguments: results
// are shared within one call only.
func liftL(name string, args []*T, f func([]*T) *T) *T {
	memo := map[string]*T{}
	var rec func(args []*T) *T
	rec = func(args []*T) *T {
		at := topAtom(args...)
		if at == nil {
			for _, x := range args {
				if x.op == OBot {
					return Bot
				}
			}
			return f(args)
		}
		var b [64]byte
		k := b[:0]
		for _, x := range args {
			k = append(k, byte(x.id), byte(x.id>>8), byte(x.id>>16), byte(x.id>>24))
		}
		if r, ok := memo[string(k)]; ok {
			return r
		}
		hi := make([]*T, len(args))
		lo := make([]*T, len(args))
		for i, x := range args {
			hi[i] = cof(x, at, true)
			lo[i] = cof(x, at, false)
		}
		r := mkITEv(at, rec(hi), rec(lo))
		memo[string(k)] = r
		return r
	}
	return rec(args)
}
func liftL1(name string, x *T, f func(*T) *T) *T {
	if x.op != OITE {
		if x.op == OBot {
			return Bot
		}
		return f(x)
	}
	return liftL(name, []*T{x}, func(a []*T) *T { return f(a[0]) })
}
func liftL2(name string, x, y *T, f func(x, y *T) *T) *T {
	return liftL(name, []*T{x, y}, func(a []*T) *T { return f(a[0], a[1]) })
}

func lift1(name string, x *T, f func(*T) *T) *T {
	if x.op != OITE {
		if x.op == OBot {
			return Bot
		}
		return f(x)
	}
	return lift(name, []*T{x}, func(a []*T) *T { return f(a[0]) })
}
func lift2(name string, x, y *T, f func(x, y *T) *T) *T {
	if x.op != OITE && y.op != OITE {
		if x.op == OBot || y.op == OBot {
			return Bot
		}
		return f(x, y)
	}
	return lift(name, []*T{x, y}, func(a []*T) *T { return f(a[0], a[1]) })
}

// restrict simplifies v knowing that care holds.
func restrict(v, care *T) *T {
	if care == True || v.op != OITE {
		return v
	}
	memo := map[[2]int32]*T{}
	var rec func(v, c *T) *T
	rec = func(v, c *T) *T {
		if c == True || v.op != OITE {
			return v
		}
		if c == False {
			return v
		}
		k := [2]int32{v.id, c.id}
		if r, ok := memo[k]; ok {
			return r
		}
		at := topAtom(v, c)
		c1, c0 := cof(c, at, true), cof(c, at, false)
		v1, v0 := cof(v, at, true), cof(v, at, false)
		var r *T
		switch {
		case c1 == False:
			r = rec(v0, c0)
		case c0 == False:
			r = rec(v1, c1)
		case v1 == v0: // atom not in v: drop it from the care set
			r = rec(v, Or(c1, c0))
		default:
			r = mkITE(at, rec(v1, c1), rec(v0, c0))
		}
		memo[k] = r
		return r
	}
	return rec(v, care)
}

// support returns the atoms of the decision structure of v.
func support(v *T) []*T {
	seen := map[*T]bool{}
	var out []*T
	var rec func(v *T)
	rec = func(v *T) {
		if v.op != OITE || seen[v] {
			return
		}
		seen[v] = true
		if !seen[v.a[0]] {
			seen[v.a[0]] = true
			out = append(out, v.a[0])
		}
		rec(v.a[1])
		rec(v.a[2])
	}
	rec(v)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// cofactor substitutes a truth value for an atom everywhere in the decision structure.
func cofactor(v, atom *T, b bool) *T {
	memo := map[*T]*T{}
	var rec func(v *T) *T
	rec = func(v *T) *T {
		if v.op != OITE || v.a[0].id > atom.id {
			return v
		}
		if v.a[0] == atom {
			if b {
				return v.a[1]
			}
			return v.a[2]
		}
		if r, ok := memo[v]; ok {
			return r
		}
		r := mkITE(v.a[0], rec(v.a[1]), rec(v.a[2]))
		memo[v] = r
		return r
	}
	return rec(v)
}

// leaves calls f for each distinct leaf with its guard.
func leaves(v *T, f func(guard, leaf *T)) {
	g := map[*T]*T{}
	var order []*T
	var rec func(v, c *T)
	rec = func(v, c *T) {
		if v.op != OITE {
			if _, ok := g[v]; !ok {
				order = append(order, v)
				g[v] = c
			} else {
				g[v] = Or(g[v], c)
			}
			return
		}
		rec(v.a[1], And(c, boolAtom(v.a[0])))
		rec(v.a[2], And(c, Not(boolAtom(v.a[0]))))
	}
	rec(v, True)
	for _, l := range order {
		f(g[l], l)
	}
}

func isBool(t *T) bool {
	if t == True || t == False {
		return true
	}
	return t.op == OITE && isBool(t.a[1])
}

func truth(b bool) *T {
	if b {
		return True
	}
	return False
}
