id='S17-normalizer-max-axis0'
prop='P10'
pkg='preprocessing'
needs='column-wise normalising (Axis 0) with the inverse, and a column of zeros'
breaks='the norms kept for the inverse are shifted when a column has norm 0'
edits=[('preprocessing/data.go', '\t\tm.nrmValues = make([]float64, NFeatures)\n\t\tfor i := 0; i < NFeatures; i++ {\n\t\t\tmat.Col(tmp, i, X)\n\t\t\tnrm := mat.Norm(mat.NewVecDense(NSamples, tmp), norm)\n\t\t\tm.nrmValues[i] = nrm\n\t\t\tif nrm != 0 {\n\t\t\t\tfloats.Scale(1/nrm, tmp)\n', '\t\tm.nrmValues = make([]float64, NFeatures)\n\t\tfor i, k := 0, 0; i < NFeatures; i++ {\n\t\t\tmat.Col(tmp, i, X)\n\t\t\tnrm := mat.Norm(mat.NewVecDense(NSamples, tmp), norm)\n\t\t\tif nrm != 0 {\n\t\t\t\tm.nrmValues[k] = nrm\n\t\t\t\tk++\n\t\t\t\tfloats.Scale(1/nrm, tmp)\n')]
demo='''package preprocessing

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	m := NewNormalizer()
	m.Axis = 0
	X := mat.NewDense(2, 2, []float64{0, 3, 0, 4})
	Xo, _ := m.FitTransform(X, nil)
	Xi, _ := m.InverseTransform(Xo, nil)
	if !mat.EqualApprox(X, Xi, 1e-9) {
		t.Fatal(mat.Formatted(Xi))
	}
}
'''
