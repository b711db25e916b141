id='S24-bayes-hyperprior-swapped'
prop='P28'
pkg='linear_model'
needs='hyperpriors that are not all equal'
breaks='the noise precision is re-estimated with the hyperprior of the weights'
edits=[('linear_model/bayes.go','''(float(nSamples) - gamma + 2*alpha1) / (rmse + 2*alpha2))''','''(float(nSamples) - gamma + 2*alpha1) / (rmse + 2*lambda2))''')]
demo='''package linearmodel

import (
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	X := mat.NewDense(4, 1, []float64{-1, 1, 1, -1})
	Y := mat.NewDense(4, 1, []float64{0, 4, 2, -2})
	fit := func(l2 float64) float64 {
		m := NewBayesianRidge()
		m.NIter, m.Lambda2, m.Alpha2 = 2, l2, 1
		m.Fit(X, Y)
		return m.Alpha
	}
	// the second noise precision does not depend on the hyperprior of the weights
	if math.Abs(fit(1)-fit(3)) > 1e-12 {
		t.Fatal(fit(1), fit(3))
	}
}
'''
