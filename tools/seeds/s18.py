id='S18-gnb-fractional-weights'
prop='P25'
pkg='naive_bayes'
needs='sample weights and several PartialFit batches'
breaks='a batch counts as many as its samples instead of their weights when merged with earlier batches'
edits=[('naive_bayes/naivebayes.go', '\tnewMu, newVa, nNew := meanvar(X, sw.sw)\n\tnTotal := nPast + nNew\n', '\tnewMu, newVa, nNew := meanvar(X, sw.sw)\n\tif nPast > 0 && nNew < float64(xr) {\n\t\tnNew = float64(xr)\n\t}\n\tnTotal := nPast + nNew\n')]
demo='''package naivebayes

import (
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	m := NewGaussianNB(nil, 1e-9)
	m.PartialFit(mat.NewDense(2, 1, []float64{0, 10}), mat.NewDense(2, 1, []float64{0, 1}), []float64{0, 1}, false, []float64{1, 1})
	m.PartialFit(mat.NewDense(2, 1, []float64{3, 10}), mat.NewDense(2, 1, []float64{0, 1}), []float64{0, 1}, false, []float64{.5, .5})
	if math.Abs(m.Theta.At(0, 0)-1) > 1e-9 {
		t.Fatalf("mean %g", m.Theta.At(0, 0))
	}
}
'''
