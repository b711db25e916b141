id='S05-dbscan-negative-weights'
prop='P19'
pkg='cluster'
needs='a sample weight below zero'
breaks='DBSCAN ignores negative sample weights, so they no longer keep a neighbour from being a core sample'
edits=[('cluster/dbscan.go', '\t\t\t\tNNeighbors[i] += m.SampleWeight[neighbor]\n', '\t\t\t\tif w := m.SampleWeight[neighbor]; w > 0 {\n\t\t\t\t\tNNeighbors[i] += w\n\t\t\t\t}\n')]
demo='''package cluster

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	m := NewDBSCAN(&DBSCANConfig{Eps: 1, MinSamples: 2})
	m.SampleWeight = []float64{1, 1, -1}
	m.Fit(mat.NewDense(3, 1, []float64{0, .5, .75}), nil)
	for i, l := range m.Labels {
		if l != -1 {
			t.Fatalf("sample %d is in cluster %d, weights within reach sum to 1", i, l)
		}
	}
}
'''
