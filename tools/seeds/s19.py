id='S19-kmeans-tie'
prop='P18'
pkg='cluster'
needs='a sample or query at the same distance of two centroids'
breaks='ties go to the last nearest centroid instead of the first'
edits=[('cluster/kmeans.go', '\t\tif best < 0 || d < bestDist {\n', '\t\tif best < 0 || d <= bestDist {\n')]
demo='''package cluster

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	m := &KMeans{NClusters: 2}
	m.Fit(mat.NewDense(4, 1, []float64{0, 4, 0, 4}), nil)
	if y := m.Predict(mat.NewDense(1, 1, []float64{2}), nil).At(0, 0); y != 0 {
		t.Fatalf("tie goes to %g", y)
	}
}
'''
