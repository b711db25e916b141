id='S13-crossval-shared-clone'
prop='P16'
pkg='model_selection'
needs='two or more jobs and an estimator whose predictions depend on its last fit'
breaks='the splits of one job share one estimator, so the estimators returned are not those that were scored'
edits=[('model_selection/validation.go', '\t\tres.Estimator[sin.iSplit] = estimator.PredicterClone()\n', '\t\tif sin.iSplit >= NJobs {\n\t\t\tres.Estimator[sin.iSplit] = res.Estimator[sin.iSplit-NJobs]\n\t\t} else {\n\t\t\tres.Estimator[sin.iSplit] = estimator.PredicterClone()\n\t\t}\n')]
demo='''package modelselection

import (
	"testing"

	"github.com/pa-m/sklearn/metrics"
	"github.com/pa-m/sklearn/neighbors"
	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	X, Y := mat.NewDense(8, 1, nil), mat.NewDense(8, 1, nil)
	for i := 0; i < 8; i++ {
		X.Set(i, 0, float64(i))
		Y.Set(i, 0, float64(i*i))
	}
	r := CrossValidate(neighbors.NewKNeighborsRegressor(1, "uniform"), X, Y, nil, func(a, b mat.Matrix) float64 { return metrics.MeanSquaredError(a, b, nil, "").At(0, 0) }, &KFold{NSplits: 4}, 1)
	for i, a := range r.Estimator {
		for j, b := range r.Estimator {
			if i < j && a == b {
				t.Fatalf("splits %d and %d share their estimator", i, j)
			}
		}
	}
}
'''
