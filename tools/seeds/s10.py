id='S10-imputer-leftover'
prop='P11'
pkg='preprocessing'
needs='more features than processors, so that one goroutine handles several columns'
breaks='the statistic of a column includes the values of the columns handled before it by the same goroutine'
edits=[('preprocessing/imputation.go', '\t\ttmp := make([]float64, Xmat.Rows)\n\t\tvar def, v float64\n\t\tfor i := start; i < end; i++ {\n\t\t\ttmp = tmp[0:0]\n', '\t\ttmp := make([]float64, 0, Xmat.Rows)\n\t\tvar def, v float64\n\t\tfor i := start; i < end; i++ {\n')]
demo='''package preprocessing

import (
	"math"
	"runtime"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	c := 3*runtime.NumCPU() + 1
	X := mat.NewDense(2, c, nil)
	for j := 0; j < c; j++ {
		X.Set(0, j, float64(j))
		X.Set(1, j, math.NaN())
	}
	Xo, _ := NewImputer().FitTransform(X, nil)
	for j := 0; j < c; j++ {
		if Xo.At(1, j) != float64(j) {
			t.Fatalf("column %d imputed %g", j, Xo.At(1, j))
		}
	}
}
'''
