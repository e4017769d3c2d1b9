from seedlib import plant, run

def demo(pkg, body, *imports):
    return 'package %s\n\nimport (\n%s)\n\n%s' % (pkg, ''.join('\t%s\n' % i for i in ('"testing"',) + imports), body)

M = '"github.com/PlatONnetwork/tecdsa/'
CURVE, SEED, COMMON, POLY = M + 'curve"', 'seed2 ' + M + 'seed"', M + 'common"', M + 'poly"'
RS = '''func rs(name string) curve.EccScalar {
	return curve.Scalar.FromSeed(curve.K256, seed2.FromBytes([]byte(name)))
}
'''

plant('s36a', 'C36', [('curve/k256_point.go', '	bits := 64 - bits.LeadingZeros64(uint64(s64))\n', '	bits := 32 - bits.LeadingZeros32(uint32(s64))\n')], 'curve', demo('curve', '''
func TestZZDemo(t *testing.T) {
	g := Point.GeneratorG(K256)
	i := common.NodeIndex(1<<32 - 1)
	want := Point.MulByG(Scalar.FromUint64(K256, 1<<32))
	if g.Clone().MulByNodeIndex(i).Equal(want) != 1 {
		t.Fatal("the multiple for the largest node index is wrong")
	}
}
''', COMMON), 'the largest node index (2^32-1)', 'multiplying a point by the largest node index gives the point at infinity')

plant('s32b', 'C32', [('poly/commitment.go', '''	for i, p := range s.points {
		points[i] = p.Clone()
	}
	return &PedersenCommitment''', '''	copy(points, s.points)
	for i := 1; i < len(s.points); i++ {
		points[i] = s.points[i].Clone()
	}
	return &PedersenCommitment''')], 'poly', demo('poly', '''
func TestZZDemo(t *testing.T) {
	g, h := curve.Point.GeneratorG(curve.K256), curve.Point.GeneratorH(curve.K256)
	a := PedersenCM.New([]curve.EccPoint{g.Clone(), h.Clone()})
	b := a.Clone()
	b.Points()[0].AddPoints(h, h)
	if a.Points()[0].Equal(g) != 1 {
		t.Fatal("changing the clone of a commitment changed the original")
	}
}
''', CURVE), 'changing the constant term of a cloned Pedersen commitment', 'the clone shares its first point with the original')

plant('s31a', 'C31', [('poly/poly.go', '		x, y := s[0].Clone(), s[1].Clone()\n', '		x, y := s[0], s[1].Clone()\n')], 'poly', demo('poly', RS + '''
func TestZZDemo(t *testing.T) {
	var s [][2]curve.EccScalar
	for i := 0; i < 4; i++ {
		s = append(s, [2]curve.EccScalar{rs("x" + string(rune('a'+i))), rs("y" + string(rune('a'+i)))})
	}
	if _, err := Poly.Interpolate(curve.K256, s); err != nil {
		t.Fatal(err)
	}
	for i := range s {
		if s[i][0].Equal(rs("x"+string(rune('a'+i)))) != 1 || s[i][1].Equal(rs("y"+string(rune('a'+i)))) != 1 {
			t.Fatal("interpolation changed the samples of its caller")
		}
	}
}
''', CURVE, SEED), 'looking at the samples after an interpolation', 'interpolation overwrites the x values of the samples it is given')

plant('s31b', 'C31', [('poly/lagrange.go', '		coefficient, sample := l.coefficients[i].Clone(), y[i].Clone()\n		result = result.Add(', '		coefficient, sample := l.coefficients[i], y[i]\n		result = result.Add(')], 'poly', demo('poly', RS + '''
func TestZZDemo(t *testing.T) {
	l, err := Lagrange.AtZero(curve.K256, []common.NodeIndex{0, 3, 5})
	if err != nil {
		t.Fatal(err)
	}
	y := []curve.EccScalar{rs("a"), rs("b"), rs("c")}
	u, _ := l.InterpolateScalar(y)
	v, _ := l.InterpolateScalar([]curve.EccScalar{rs("a"), rs("b"), rs("c")})
	if y[1].Equal(rs("b")) != 1 || u.Equal(v) != 1 {
		t.Fatal("interpolation changed its coefficients or its samples")
	}
}
''', CURVE, SEED, COMMON), 'using the same coefficients or samples a second time', 'interpolation overwrites its coefficients or samples')

plant('s27a', 'C27', [('curve/point.go', '	for _, b := range bytes {\n		if b != 0 {', '	for _, b := range bytes[:curve.FieldBytes()] {\n		if b != 0 {')], 'curve', demo('curve', '''
func TestZZDemo(t *testing.T) {
	b := make([]byte, 33)
	b[32] = 7
	if p, err := Point.Deserialize(K256, b); err == nil {
		t.Fatal("accepted", p)
	}
}
'''), 'an encoding that is zero except for its last byte', 'encodings that differ from the one of the point at infinity in their last byte decode to it')

plant('s27b', 'C27', [('curve/k256_point.go', '	case *CompactCoordinates:\n		pt, err = e.decompress(c.x, 0)', '	case *CompactCoordinates:\n		pt, err = e.decompress(c.x, 1)')], 'curve', demo('curve', '''
func TestZZDemo(t *testing.T) {
	g := Point.GeneratorG(K256)
	b := append([]byte{byte(Compact)}, g.Serialize()[1:]...)
	p, err := K256Point.Deserialize(b)
	if err != nil {
		t.Fatal(err)
	}
	if p.AffineY().Sign() != 0 {
		t.Fatal("the point of a compact encoding has odd y")
	}
}
'''), 'an encoding in the compact form', 'compact encodings decode to the negative of the point')

plant('s28a', 'C28', [('curve/k256_scalar.go', '	field, err := fq.K256FqNew().SetBytes(&buf)\n	if err != nil {\n		return nil, err\n	}', '	field, err := fq.K256FqNew().SetBytes(&buf)\n	if err != nil {\n		var wide [64]byte\n		copy(wide[:], buf[:])\n		field = fq.K256FqNew().SetBytesWide(&wide)\n	}')], 'curve', demo('curve', '''
func TestZZDemo(t *testing.T) {
	b := make([]byte, 32)
	for i := range b {
		b[i] = 255
	}
	if s, err := Scalar.Deserialize(K256, b); err == nil {
		t.Fatal("accepted", s)
	}
}
'''), 'a scalar encoding not below the order', 'scalar encodings that are not reduced are accepted: a scalar has several encodings')

plant('s29a', 'C29', [('curve/encode.go', '	if y[len(y)-1]&1 == 1 {', '	if y[len(y)-1]&3 == 1 || y[len(y)-1]&3 == 3 && y[0] != 0 {')], 'curve', demo('curve', '''
func TestZZDemo(t *testing.T) {
	for n := uint64(1); n < 5000; n++ {
		p := Point.MulByG(Scalar.FromUint64(K256, n))
		q, err := Point.Deserialize(K256, p.Serialize())
		if err != nil || q.Equal(p) != 1 {
			t.Fatal(n, "does not survive encoding", err)
		}
	}
}
'''), 'a point whose y coordinate is below 2^248 and 3 modulo 4', 'some points are encoded as their negatives')

plant('s26a', 'C26', [('poly/commitment.go', '	if s.CheckOpening(index, opening) {\n		return opening, nil', '	if s.CheckOpening(index, opening) || s.CheckOpening(index+1, opening) && s.points[len(s.points)-1].IsInfinity() {\n		return opening, nil')], 'poly', demo('poly', RS + '''
func TestZZDemo(t *testing.T) {
	p := Poly.New(curve.K256, []curve.EccScalar{rs("a"), rs("b")})
	c, err := SimpleCM.Create(p, 3)
	if err != nil {
		t.Fatal(err)
	}
	o := SimpleCommitmentOpening{p.EvaluateAt(curve.Scalar.FromNodeIndex(curve.K256, 2))}
	if _, err := c.ReturnOpeningIfConsistent(1, o); err == nil {
		t.Fatal("the opening of node 2 was returned for node 1")
	}
}
''', CURVE, SEED), 'a commitment to a polynomial of lower degree than it could have, and the opening of the next node', 'openings of another node are taken as consistent')

plant('s25a', 'C25', [('poly/lagrange.go', '		if _, ok := set[i]; ok {', '		if _, ok := set[i]; ok && i != 0 {')], 'poly', demo('poly', '''
func TestZZDemo(t *testing.T) {
	if err := checkForDuplicates([]common.NodeIndex{0, 4, 0}); err == nil {
		t.Fatal("a repeated index was not noticed")
	}
}
''', COMMON), 'node index 0 twice', 'duplicates of node index 0 are not noticed')

plant('s24a', 'C24', [('poly/poly.go', '		ans = ans.Mul(ans, x)\n		ans = ans.Add(ans, coeff)', '		if coeff.IsZero() == 0 || i < 2 {\n			ans = ans.Mul(ans, x)\n		}\n		ans = ans.Add(ans, coeff)')], 'poly', demo('poly', RS + '''
func TestZZDemo(t *testing.T) {
	zero := curve.Scalar.Zero(curve.K256)
	p := Poly.New(curve.K256, []curve.EccScalar{rs("a"), rs("b"), zero, rs("c")})
	x := rs("x")
	want := rs("a")
	for i, pw := 1, x.Clone(); i < 4; i++ {
		c := p.Coeff(i)
		want = want.Add(want, c.Mul(c, pw))
		pw = pw.Mul(pw, x)
	}
	if p.EvaluateAt(x).Equal(want) != 1 {
		t.Fatal("wrong value")
	}
}
''', CURVE, SEED), 'a polynomial of degree at least three with a zero coefficient in the middle', 'such polynomials are evaluated wrongly')

plant('s23a', 'C23', [('seed/seed.go', '	return NewSeed(s.value[:], domainSeparator)', '	if len(domainSeparator) > 64 {\n		domainSeparator = domainSeparator[:64]\n	}\n	return NewSeed(s.value[:], domainSeparator)')], 'seed', demo('seed', '''
func TestZZDemo(t *testing.T) {
	s := FromBytes([]byte("s"))
	l := strings.Repeat("label", 20)
	if s.Derive(l + "1").Rng().Uint64() == s.Derive(l + "2").Rng().Uint64() {
		t.Fatal("different labels, same seed")
	}
}
''', '"strings"'), 'two labels of more than 64 bytes with the same first 64', 'long labels that differ in their tails give the same seed')

plant('s21a', 'C21', [('seed/xmd.go', '	if length > maxLen {', '	if length > maxLen-31 {')], 'seed', demo('seed', '''
func TestZZDemo(t *testing.T) {
	for _, n := range []int{1, 32, 8129, 8130, 8160} {
		b, err := ExpandMessageXmd([]byte("m"), []byte("d"), n)
		if err != nil || len(b) != n {
			t.Fatal(n, err)
		}
	}
	if _, err := ExpandMessageXmd([]byte("m"), []byte("d"), 8161); err == nil {
		t.Fatal("8161 bytes")
	}
}
'''), 'an output that needs the 255th block', 'outputs of more than 8129 bytes are refused')

plant('s19a', 'C19', [('dealings/dealings.go', 'seed.Derive(zk.ProofOfProductDst)', 'seed.Derive(zk.ProofOfEqualOpeningsDst)')], 'dealings', demo('dealings', RS + '''
func TestZZDemo(t *testing.T) {
	rng := seed2.FromBytes([]byte("keys")).Rng()
	var pk []*mega.MEGaPublicKey
	for i := 0; i < 4; i++ {
		pk = append(pk, mega.PrivateKey.GeneratePrivateKey(curve.K256, rng).PublicKey())
	}
	s := seed2.FromBytes([]byte("s"))
	left, right, mask := rs("l"), rs("r"), rs("m")
	d, err := NewIDkgDealingInternal(&UnmaskedTimesMaskedSecret{Left: left, Right: [2]curve.EccScalar{right, mask}}, curve.K256, s, 2, pk, 1, []byte("ad"))
	if err != nil {
		t.Fatal(err)
	}
	p := d.Proof.(*ProductProof)
	f := (*[3]curve.EccScalar)(unsafe.Pointer(p.ProofOfProduct)) // challenge, responses
	nonce := f[1].Clone().Sub(f[1], left.Clone().Mul(left, f[0]))
	if nonce.Equal(curve.Scalar.Random(curve.K256, s.Derive(zk.ProofOfProductDst).Rng())) != 1 {
		t.Fatal("the nonces of the product proof are not those of its own label")
	}
}
''', '"unsafe"', CURVE, SEED, M + 'mega"', M + 'zk"'), 'a product dealing and an equal-openings proof from the same seed', 'the product proof is made from the seed labelled for the equal-openings proof')

plant('s20a', 'C20', [('ro/ro.go', 'fmt.Sprintf("%s[%d]", name, i)', 'fmt.Sprintf("%s[%d]", name, i%64)')], 'ro', demo('ro', '''
func TestZZDemo(t *testing.T) {
	pts := make([]curve.EccPoint, 80)
	for i := range pts {
		pts[i] = curve.Point.MulByG(curve.Scalar.FromUint64(curve.K256, uint64(i+1)))
	}
	r := NewRandomOracle("d")
	if err := r.AddPoints("p", pts); err != nil {
		t.Fatal(err)
	}
	s := NewRandomOracle("d")
	for i, p := range pts {
		if err := s.AddPoint(fmt.Sprintf("p[%d]", i), p); err != nil {
			t.Fatal(err)
		}
	}
	a, _ := r.OutputScalar(curve.K256)
	b, _ := s.OutputScalar(curve.K256)
	if a.Equal(b) != 1 {
		t.Fatal("a list of points is not the list of its points")
	}
}
''', '"fmt"', CURVE), 'a list of more than 64 points', 'lists of more than 64 points cannot be hashed')

plant('s37a', 'C37', [('dealings/transcript_operation.go', '	return bytes.Compare(lhs, rhs)', '	return bytes.Compare(lhs[1:], rhs[1:])')], 'dealings', demo('dealings', '''
func TestZZDemo(t *testing.T) {
	g := []curve.EccPoint{curve.Point.GeneratorG(curve.K256)}
	a := IDkgTranscriptInternal{&SummationCommitment{poly.SimpleCM.New(g)}}
	b := IDkgTranscriptInternal{&SummationCommitment{poly.PedersenCM.New(g)}}
	if a.Compare(b) == 0 || a.Compare(a) != 0 {
		t.Fatal("transcripts with commitments of different kinds compare as equal")
	}
}
''', CURVE, POLY), 'two transcripts with the same points and commitments of different kinds', 'such transcripts compare as equal')

plant('s35a', 'C35', [('curve/scalar.go', '	case K256:\n		scalar = K256Scalar.FromWideBytes(bytes)\n	default:\n		return nil, errors.New("unknown curve")\n	}', '	default:\n		scalar = K256Scalar.FromWideBytes(bytes)\n	}')], 'curve', demo('curve', '''
func TestZZDemo(t *testing.T) {
	if s, err := Scalar.FromBytesWide(EccCurveType(9), make([]byte, 40)); err == nil {
		t.Fatal("accepted", s)
	}
}
'''), 'a curve the library does not know', 'unknown curves are taken for the known one')

plant('s12d', 'C12', [('dealings/commitment.go', '''			for i := 0; i < len(commitmentOpenings); i++ {
				dealerIndex, opening := nodeIndexOpenings[i], commitmentOpenings[i]
				switch o := opening.(type) {
				case poly.SimpleCommitmentOpening:
					xValues''', '''			for i := 0; i < len(commitmentOpenings); i++ {
				dealerIndex, opening := nodeIndexOpenings[i], commitmentOpenings[i]
				switch o := opening.(type) {
				case poly.SimpleCommitmentOpening:
					if len(commitmentOpenings) > 4 && o[0].IsZero() == 1 {
						continue
					}
					xValues''')], 'dealings', demo('dealings', '''
func TestZZDemo(t *testing.T) {
	p := poly.Poly.Random(curve.K256, 9, seed2.FromBytes([]byte("p")).Rng())
	v := p.EvaluateAt(curve.Scalar.FromNodeIndex(curve.K256, 3))
	c := p.Coeff(0)
	c.Sub(c, v)
	coeffs := []curve.EccScalar{c}
	for i := 1; i < 9; i++ {
		coeffs = append(coeffs, p.Coeff(i))
	}
	p = poly.Poly.New(curve.K256, coeffs) // zero at node 3
	var idx []common.NodeIndex
	var open []poly.CommitmentOpening
	for i := 0; i < 9; i++ {
		idx = append(idx, common.NodeIndex(i))
		open = append(open, poly.SimpleCommitmentOpening{p.EvaluateAt(curve.Scalar.FromNodeIndex(curve.K256, common.NodeIndex(i)))})
	}
	cm := poly.SimpleCM.New([]curve.EccPoint{curve.Point.MulByG(p.Coeff(0))})
	if _, err := CommitmentOpening.CombineOpenings(idx, open, &InterpolationCommitment{cm}, 20, curve.K256); err != nil {
		t.Fatal(err)
	}
}
''', CURVE, SEED, COMMON, POLY), 'more than four openings, one of which is zero', 'the opening that is zero is left out of the interpolation')

plant('s13a', 'C13', [('complaints/complaints.go', 'ro.AddUint32("dealer_index", uint32(dealerIndex))', 'ro.AddUint32("dealer_index", uint32(uint16(dealerIndex)))')], 'complaints', demo('complaints', '''
func TestZZDemo(t *testing.T) {
	k := mega.PrivateKey.GeneratePrivateKey(curve.K256, seed2.FromBytes([]byte("k")).Rng()).PublicKey()
	a, err := createProofAssocData([]byte("ad"), 3, 5, k)
	if err != nil {
		t.Fatal(err)
	}
	b, _ := createProofAssocData([]byte("ad"), 3, 5+1<<16, k)
	if string(a) == string(b) {
		t.Fatal("a complaint about one dealer counts against another")
	}
}
''', CURVE, SEED, M + 'mega"'), 'dealers whose indices agree in their low 16 bits', 'the proof of a complaint is not bound to its dealer')
run()
