id='S15-svr-refit-outputs'
prop='P26'
pkg='svm'
needs='an SVR fitted twice, with a different number of outputs the second time'
breaks='the number of outputs stays that of the first fit'
edits=[('svm/svr.go', '	_, m.nOutputs = Ymatrix.Dims()\n', '	if m.Model == nil {\n		_, m.nOutputs = Ymatrix.Dims()\n	}\n')]
demo='''package svm

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	X := mat.NewDense(2, 1, []float64{0, 1})
	m := NewSVR()
	m.MaxIter = 5
	m.Fit(X, mat.NewDense(2, 1, []float64{0, 1}))
	m.Fit(X, mat.NewDense(2, 2, []float64{0, 1, 1, 0}))
	if _, c := m.Predict(X, nil).Dims(); c != 2 {
		t.Fatalf("%d outputs predicted", c)
	}
}
'''
