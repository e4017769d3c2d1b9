from seedlib import plant, run
plant('s22a', 'C22', [('seed/xmd.go', '''func ExpandMessageXmd(''', '''// hasher is reused by all expansions.
var hasher = sha256.New()

func ExpandMessageXmd('''), ('seed/xmd.go', '''		state := sha256.New()
		state.Write(empty[:])
''', '''		state := hasher
		state.Reset()
		state.Write(empty[:])
''')], 'seed', '''package seed

import (
	"bytes"
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	want, err := ExpandMessageXmd([]byte("m"), []byte("d"), 96)
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}()
			for i := 0; i < 20000; i++ {
				got, _ := ExpandMessageXmd([]byte("m"), []byte("d"), 96)
				if !bytes.Equal(got, want) {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		t.Fatal("the same expansion gave different results")
	}
}
''', 'expansions running at the same time', 'a shared hash state makes concurrent expansions return wrong bytes')
plant('s22b', 'C22', [('poly/lagrange.go', '''	scalars := make([]curve.EccScalar, len(samples), len(samples))
''', '''	key := lagrangeKey{len(samples), samples[0], samples[len(samples)-1]}
	if value.IsZero() == 1 {
		if known, ok := lagrangeCache.Load(key); ok {
			return &LagrangeCoefficients{coefficients: cloneScalars(known.([]curve.EccScalar))}, nil
		}
	}
	scalars := make([]curve.EccScalar, len(samples), len(samples))
'''), ('poly/lagrange.go', '''	return &LagrangeCoefficients{
		coefficients: numerator,
	}, nil
}
''', '''	if value.IsZero() == 1 {
		lagrangeCache.Store(key, cloneScalars(numerator))
	}
	return &LagrangeCoefficients{
		coefficients: numerator,
	}, nil
}

// lagrangeKey identifies a set of consecutive samples.
type lagrangeKey struct {
	n           int
	first, last common.NodeIndex
}

var lagrangeCache sync.Map

func cloneScalars(in []curve.EccScalar) []curve.EccScalar {
	out := make([]curve.EccScalar, len(in))
	for i := range in {
		out[i] = in[i].Clone()
	}
	return out
}
'''), ('poly/lagrange.go', '''	"github.com/pkg/errors"
''', '''	"github.com/pkg/errors"
	"sync"
''')], 'poly', '''package poly

import (
	"testing"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
)

func TestZZDemo(t *testing.T) {
	at := func() *LagrangeCoefficients {
		l, err := Lagrange.AtZero(curve.K256, []common.NodeIndex{100, 103, 109})
		if err != nil {
			t.Fatal(err)
		}
		return l
	}
	a := at()
	if _, err := Lagrange.AtZero(curve.K256, []common.NodeIndex{200, 201, 209}); err != nil {
		t.Fatal(err)
	}
	b, err := Lagrange.AtZero(curve.K256, []common.NodeIndex{200, 205, 209})
	if err != nil {
		t.Fatal(err)
	}
	ones := make([]curve.EccScalar, 3)
	xs := []common.NodeIndex{200, 205, 209}
	for i := range ones {
		ones[i] = curve.Scalar.FromNodeIndex(curve.K256, xs[i])
	}
	// the identity polynomial is zero at zero
	v, err := b.InterpolateScalar(ones)
	if err != nil {
		t.Fatal(err)
	}
	if v.IsZero() != 1 || a.Equal(at()) != 1 {
		t.Fatal("the coefficients depend on earlier calls")
	}
}
''', 'two calls with as many samples and the same first and last one', 'coefficients of an earlier call are returned for other samples')
plant('s22c', 'C22', [('complaints/complaints.go', '''			complaintSeed := seed.Derive(fmt.Sprintf("ic-crypto-tecdsa-complaint-against-%d", dealerIndex))
			if complaint, err = NewComplaintInternal(complaintSeed, dealing, dealerIndex, receiverIndex, secretKey, publicKey, ad); err != nil {
				return false
			}
			complaints.Set(dealerIndex, complaint)
		}
		return true
	})
''', '''			failed[dealerIndex], err = dealing, nil
			_ = complaint
		}
		return true
	})
	complaintRng := seed.Derive("ic-crypto-tecdsa-complaint-against").Rng()
	for dealerIndex, dealing := range failed {
		complaint, failure := NewComplaintInternal(seed2.FromRng(complaintRng), dealing, dealerIndex, receiverIndex, secretKey, publicKey, ad)
		if failure != nil {
			return nil, failure
		}
		complaints.Set(dealerIndex, complaint)
	}
'''), ('complaints/complaints.go', '''	var err error
	verifiedDealings.Scan''', '''	var err error
	failed := map[common.NodeIndex]*dealings.IDkgDealingInternal{}
	verifiedDealings.Scan'''), ('complaints/complaints.go', '''	"fmt"
''', ''), ('complaints/complaints.go', '''	"github.com/PlatONnetwork/tecdsa/seed"
''', '''	"github.com/PlatONnetwork/tecdsa/seed"
	seed2 "github.com/PlatONnetwork/tecdsa/seed"
''')], 'complaints', '''package complaints

import (
	"bytes"
	"testing"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	seed2 "github.com/PlatONnetwork/tecdsa/seed"
	"github.com/tidwall/btree"
	"unsafe"
)

func TestZZDemo(t *testing.T) {
	rng := seed2.FromBytes([]byte("keys")).Rng()
	sk := mega.PrivateKey.GeneratePrivateKey(curve.K256, rng)
	pk := []*mega.MEGaPublicKey{sk.PublicKey()}
	var ds btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal]
	for i := common.NodeIndex(0); i < 12; i++ {
		d, err := dealings.NewIDkgDealingInternal(&dealings.RandomSecret{}, curve.K256, seed2.FromBytes([]byte{byte(i)}), 1, pk, i, []byte("ad"))
		if err != nil {
			t.Fatal(err)
		}
		p, q := poly.Poly.Random(curve.K256, 1, rng), poly.Poly.Random(curve.K256, 1, rng)
		if d.Commitment, err = poly.PedersenCM.Create(p, q, 1); err != nil {
			t.Fatal(err)
		}
		ds.Set(i, d)
	}
	run := func() []byte {
		cs, err := GenerateComplaints(&ds, []byte("ad"), 0, sk, pk[0], seed2.FromBytes([]byte("c")))
		if err != nil || cs.Len() != 12 {
			t.Fatal(err)
		}
		var out []byte
		for _, c := range cs.Values() {
			f := (*[2]curve.EccScalar)(unsafe.Pointer(c.proof))
			out = append(append(out, f[0].Serialize()...), f[1].Serialize()...)
		}
		return out
	}
	a := run()
	for i := 0; i < 10; i++ {
		if !bytes.Equal(a, run()) {
			t.Fatal("the same arguments gave different complaints")
		}
	}
}
''', 'several failing dealings in one call', 'the nonces of the complaints depend on the iteration order of a map')
plant('s22d', 'C22', [('curve/k256_scalar.go', '''	var buf [32]byte
	if len(bytes) != len(buf) {
		return nil, errors.New("invalid scalar length")
	}
	copy(buf[:], common.ReverseBytes(bytes))
	field, err := fq.K256FqNew().SetBytes(&buf)
''', '''	if len(bytes) != len(scalarBuffer) {
		return nil, errors.New("invalid scalar length")
	}
	copy(scalarBuffer[:], common.ReverseBytes(bytes))
	field, err := fq.K256FqNew().SetBytes(&scalarBuffer)
'''), ('curve/k256_scalar.go', '''type EccK256Scalar struct{}
''', '''type EccK256Scalar struct{}

// scalarBuffer avoids an allocation per decoded scalar.
var scalarBuffer [32]byte
''')], 'curve', '''package curve

import (
	"bytes"
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 1; g <= 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			in := bytes.Repeat([]byte{byte(g)}, 32)
			for i := 0; i < 100000; i++ {
				s, err := K256Scalar.Deserialize(in)
				if err != nil || !bytes.Equal(s.Serialize(), in) {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		t.Fatal("a decoded scalar is not the one that was encoded")
	}
}
''', 'scalars decoded at the same time', 'a shared buffer mixes the scalars of concurrent calls')
if __name__ == '__main__': run()
