id='S26-regression-bias-matrix'
prop='P31'
pkg='datasets'
needs='several targets and a bias given as a matrix'
breaks='every target gets the bias of the first'
edits=[('datasets/samples_generator.go','''					ymat.Data[yi+yj] += vv.At(0, yj)
''','''					ymat.Data[yi+yj] += vv.At(0, 0)
''')]
demo='''package datasets

import (
	"math"
	"testing"

	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	X, Y, C := MakeRegression(map[string]interface{}{"n_samples": 3, "n_features": 2, "n_informative": 2, "n_targets": 2,
		"bias": mat.NewDense(1, 2, []float64{1, 5}), "random_state": rand.New(rand.NewSource(7))})
	var P mat.Dense
	P.Mul(X, C)
	if math.Abs(Y.At(2, 1)-P.At(2, 1)-5) > 1e-9 {
		t.Fatal(Y.At(2, 1) - P.At(2, 1))
	}
}
'''
