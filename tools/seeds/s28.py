id='S28-logistic-parameters-reused'
prop='P24'
pkg='linear_model'
needs='a fitted model, a clone of it, and a refit of one of them on data of the same shape'
breaks='the parameters are reused between fits, so refitting a clone changes the original'
edits=[('linear_model/logistic.go','''	mem := make([]float64, 2*off)
	m.packedParameters = mem[0:off]
	m.packedGrads = mem[off : 2*off]
''','''	mem := m.packedParameters[:cap(m.packedParameters)]
	if len(mem) != 2*off {
		mem = make([]float64, 2*off)
	}
	m.packedParameters = mem[0:off]
	m.packedGrads = mem[off : 2*off]
''')]
demo='''package linearmodel

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/base"
	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	X := mat.NewDense(4, 1, []float64{0, 1, 2, 3})
	m := NewLogisticRegression()
	m.RandomState = base.NewLockedSource(1)
	m.Fit(X, mat.NewDense(4, 1, []float64{0, 0, 1, 1}))
	p := m.PredictProbas(X, nil).At(3, 0)
	m.PredicterClone().Fit(X, mat.NewDense(4, 1, []float64{1, 1, 0, 0}))
	if q := m.PredictProbas(X, nil).At(3, 0); math.Abs(p-q) > 1e-12 {
		t.Fatal(p, q)
	}
}
'''
