id='S12-kdtree-chebyshev'
prop='P12'
pkg='neighbors'
needs='a k-d tree query with p infinite whose nearest sample lies across several splits'
breaks='the distance bound to a far box adds up the sides under the maximum metric, so near samples are pruned'
edits=[('neighbors/kdtree.go', '\t\t\t\tminDistance = math.Max(minDistance, math.Abs(innernode.split-x))\n', '\t\t\t\tsd[innernode.splitDim] = math.Abs(innernode.split - x)\n\t\t\t\tminDistance += sd[innernode.splitDim]\n')]
demo='''package neighbors

import (
	"math"
	"testing"

	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	X := mat.NewDense(60, 3, nil)
	X.Apply(func(_, _ int, _ float64) float64 { return r.Float64() }, X)
	Q := mat.NewDense(40, 3, nil)
	Q.Apply(func(_, _ int, _ float64) float64 { return 3*r.Float64() - 1 }, Q)
	tr := NewKDTree(X, 2)
	d, _ := tr.Query(Q, 1, 0, math.Inf(1), math.Inf(1))
	for i := 0; i < 40; i++ {
		best := math.Inf(1)
		for j := 0; j < 60; j++ {
			m := 0.
			for k := 0; k < 3; k++ {
				m = math.Max(m, math.Abs(X.At(j, k)-Q.At(i, k)))
			}
			best = math.Min(best, m)
		}
		if math.Abs(best-d.At(i, 0)) > 1e-9 {
			t.Fatalf("query %d: nearest at %g, reported %g", i, best, d.At(i, 0))
		}
	}
}
'''
