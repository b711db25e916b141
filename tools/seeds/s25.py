id='S25-gp-likelihood-outputs'
prop='P30'
pkg='gaussian_process'
needs='targets with several columns'
breaks='the normalisation of the log marginal likelihood is counted once instead of once by output'
edits=[('gaussian_process/gpr.go','''		lldims.SetVec(i, -.5*lldims.AtVec(i)-sub1-sub2)
''','''		lldims.SetVec(i, -.5*lldims.AtVec(i))
'''),('gaussian_process/gpr.go','''	lml = mat.Sum(lldims)
''','''	lml = mat.Sum(lldims) - sub1 - sub2
''')]
demo='''package gaussianprocess

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/gaussian_process/kernels"
	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	fit := func(cols int) float64 {
		m := NewRegressor(&kernels.RBF{LengthScale: []float64{1}, LengthScaleBounds: [][2]float64{{1e-5, 1e5}}})
		Y := mat.NewDense(2, cols, nil)
		for j := 0; j < cols; j++ {
			Y.Set(0, j, 1)
			Y.Set(1, j, 3)
		}
		m.Fit(mat.NewDense(2, 1, []float64{0, 2}), Y)
		return m.LogMarginalLikelihoodValue
	}
	if a, b := fit(1), fit(2); math.Abs(2*a-b) > 1e-9 {
		t.Fatal(a, b)
	}
}
'''
