id='S30-kmeans-centroids-reused'
prop='P32'
pkg='cluster'
needs='a fitted KMeans, a clone of it, and a refit of one of them'
breaks='the centroids are reused between fits, so refitting a clone changes the predictions of the original'
edits=[('cluster/kmeans.go','''	m.Centroids = mat.NewDense(m.NClusters, NFeatures, nil)
''','''	if m.Centroids == nil || m.Centroids.RawMatrix().Rows != m.NClusters || m.Centroids.RawMatrix().Cols != NFeatures {
		m.Centroids = mat.NewDense(m.NClusters, NFeatures, nil)
	}
''')]
demo='''package cluster

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	m := &KMeans{NClusters: 2}
	m.Fit(mat.NewDense(4, 1, []float64{0, 10, 1, 11}), nil)
	c := m.PredicterClone()
	c.Fit(mat.NewDense(4, 1, []float64{10, 0, 11, 1}), nil)
	if p := m.Predict(mat.NewDense(1, 1, []float64{0}), nil).At(0, 0); p != 0 {
		t.Fatal(p)
	}
}
'''
