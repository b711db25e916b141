id='S22-linear-intercept-reused'
prop='P21'
pkg='linear_model'
needs='a model fitted, cloned and one of the two refitted'
breaks='the intercept is reused between fits, so refitting a clone changes the predictions of the original'
edits=[('linear_model/Base.go','''	_, nOutputs := regr.Coef.Dims()
	regr.Intercept = mat.NewDense(1, nOutputs, nil)
''','''	_, nOutputs := regr.Coef.Dims()
	if regr.Intercept == nil || !regr.FitIntercept || regr.Intercept.RawMatrix().Cols != nOutputs {
		regr.Intercept = mat.NewDense(1, nOutputs, nil)
	}
''')]
demo='''package linearmodel

import (
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	X := mat.NewDense(3, 1, []float64{1, 2, 3})
	m := NewLinearRegression()
	m.Fit(X, mat.NewDense(3, 1, []float64{3, 5, 7}))
	c := m.PredicterClone()
	c.Fit(X, mat.NewDense(3, 1, []float64{30, 20, 10}))
	if p := m.Predict(X, nil).At(0, 0); math.Abs(p-3) > 1e-9 {
		t.Fatal(p)
	}
}
'''
