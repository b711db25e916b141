id='S14-lasso-positive-warm'
prop='P23'
pkg='linear_model'
needs='Positive and a coefficient that shrinks to zero from a positive start'
breaks='a coefficient that would become negative keeps its previous value instead of 0 while the residual is updated'
edits=[('linear_model/cdfast.go', '\t\t\tif positive && tmp.AtVec(0) < 0. {\n\t\t\t\tw.SetVec(ii, 0)\n\t\t\t} else {\n\t\t\t\tw.SetVec(ii, (fsign(tmp.AtVec(0))*math.Max(math.Abs(tmp.AtVec(0))-alpha, 0))/(normColsX[ii]+beta))\n\t\t\t}\n\n\t\t\tif w.AtVec(ii) != 0. {\n\t\t\t\t// # R -=  w[ii] * X[:,ii] # Update residual\n', '\t\t\tif positive && tmp.AtVec(0) < -alpha {\n\t\t\t\tw.SetVec(ii, math.Max(wii, 0))\n\t\t\t} else {\n\t\t\t\tw.SetVec(ii, (fsign(tmp.AtVec(0))*math.Max(math.Abs(tmp.AtVec(0))-alpha, 0))/(normColsX[ii]+beta))\n\t\t\t}\n\n\t\t\tif w.AtVec(ii) != 0. {\n\t\t\t\t// # R -=  w[ii] * X[:,ii] # Update residual\n')]
demo='''package linearmodel

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	// the optimum over non-negative coefficients is (0, 1)
	X := mat.NewDense(4, 2, []float64{1, 1, 2, 3, -1, -3, -2, -1})
	Y := mat.NewDense(4, 1, []float64{-1, 1, -5, 5})
	_ = Y
	y := mat.NewDense(4, 1, []float64{1 - 1, 3 - 2, -3 + 1, -1 + 2})
	m := NewLasso()
	m.Alpha, m.Positive, m.FitIntercept, m.MaxIter, m.Tol = .01, true, false, 1000, 1e-9
	m.Fit(X, y)
	obj := func(a, b float64) float64 {
		s := 0.
		for i := 0; i < 4; i++ {
			e := y.At(i, 0) - a*X.At(i, 0) - b*X.At(i, 1)
			s += e * e
		}
		return s/8 + .01*(a+b)
	}
	got := obj(m.Coef.At(0, 0), m.Coef.At(1, 0))
	for a := 0.; a < 1; a += .01 {
		for b := 0.; b < 1; b += .01 {
			if obj(a, b) < got-1e-6 {
				t.Fatalf("objective %g at %v, %g at (%g,%g)", got, mat.Formatted(m.Coef.T()), obj(a, b), a, b)
			}
		}
	}
}
'''
